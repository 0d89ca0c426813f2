#define PUBLIC_KEY_TOOL_NUM ( 2 )
#include "public_key_tool0.h"
#include "public_key_tool1.h"
#define DECLARE_PUBLIC_KEY_TOOL()DECLARE_PUBLIC_KEY_TOOL0();DECLARE_PUBLIC_KEY_TOOL1();unsigned char* PUBLIC_KEY_TOOL[]={PUBLIC_KEY_TOOL0,PUBLIC_KEY_TOOL1,0}
#define DECLARE_PUBLIC_KEY_TOOL_LEN() size_t PUBLIC_KEY_TOOL_LEN[]={PUBLIC_KEY_TOOL0_LEN,PUBLIC_KEY_TOOL1_LEN,0}
#define INITIALIZE_PUBLIC_KEY_TOOL() do {INITIALIZE_PUBLIC_KEY_TOOL0();INITIALIZE_PUBLIC_KEY_TOOL1();} while (0)
#define CLEAR_PUBLIC_KEY_TOOL() do {CLEAR_PUBLIC_KEY_TOOL0();CLEAR_PUBLIC_KEY_TOOL1();} while (0)
