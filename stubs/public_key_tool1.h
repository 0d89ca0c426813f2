/* analysis stand-in for the generated header: same macro interface */
void __sa_init_key(unsigned char *buf, unsigned long len, const char *name);
#define DECLARE_PUBLIC_KEY_TOOL1() unsigned char PUBLIC_KEY_TOOL1[801]
#define PUBLIC_KEY_TOOL1_LEN (800)
#define INITIALIZE_PUBLIC_KEY_TOOL1() do { __sa_init_key(PUBLIC_KEY_TOOL1, 801, "PUBLIC_KEY_TOOL1"); } while (0)
void __sa_clear_key(unsigned char *buf, unsigned long size, unsigned long len);
#define CLEAR_PUBLIC_KEY_TOOL1() __sa_clear_key(PUBLIC_KEY_TOOL1, sizeof(PUBLIC_KEY_TOOL1), PUBLIC_KEY_TOOL1_LEN)
