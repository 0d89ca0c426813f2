/* analysis stand-in for the generated header: same macro interface */
void __sa_init_key(unsigned char *buf, unsigned long len, const char *name);
#define DECLARE_PRIVATE_KEY_TOOL() unsigned char PRIVATE_KEY_TOOL[3273]
#define PRIVATE_KEY_TOOL_LEN (3272)
#define INITIALIZE_PRIVATE_KEY_TOOL() do { __sa_init_key(PRIVATE_KEY_TOOL, 3273, "PRIVATE_KEY_TOOL"); } while (0)
void __sa_clear_key(unsigned char *buf, unsigned long size, unsigned long len);
#define CLEAR_PRIVATE_KEY_TOOL() __sa_clear_key(PRIVATE_KEY_TOOL, sizeof(PRIVATE_KEY_TOOL), PRIVATE_KEY_TOOL_LEN)
