/* analysis stand-in for the generated header: same macro interface */
void __sa_init_key(unsigned char *buf, unsigned long len, const char *name);
#define DECLARE_MLLE_CR_KEY() unsigned char MLLE_CR_KEY[33]
#define MLLE_CR_KEY_LEN (32)
#define INITIALIZE_MLLE_CR_KEY() do { __sa_init_key(MLLE_CR_KEY, 33, "MLLE_CR_KEY"); } while (0)
void __sa_clear_key(unsigned char *buf, unsigned long size, unsigned long len);
#define CLEAR_MLLE_CR_KEY() __sa_clear_key(MLLE_CR_KEY, sizeof(MLLE_CR_KEY), MLLE_CR_KEY_LEN)
