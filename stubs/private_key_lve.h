/* analysis stand-in for the generated header: same macro interface */
void __sa_init_key(unsigned char *buf, unsigned long len, const char *name);
#define DECLARE_PRIVATE_KEY_LVE() unsigned char PRIVATE_KEY_LVE[3273]
#define PRIVATE_KEY_LVE_LEN (3272)
#define INITIALIZE_PRIVATE_KEY_LVE() do { __sa_init_key(PRIVATE_KEY_LVE, 3273, "PRIVATE_KEY_LVE"); } while (0)
void __sa_clear_key(unsigned char *buf, unsigned long size, unsigned long len);
#define CLEAR_PRIVATE_KEY_LVE() __sa_clear_key(PRIVATE_KEY_LVE, sizeof(PRIVATE_KEY_LVE), PRIVATE_KEY_LVE_LEN)
