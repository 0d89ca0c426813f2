#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mlle_error.h"
#include "mlle_licensing.h"
int main(void) {
    struct mlle_file_contents f = { 10, 0, malloc(10) }; char b[8]; long n, tot = 0; int k;
    memcpy(f.buffer, "0123456789", 10);
    for (k = 0; k < 10 && (n = (int)mlle_tool_read_bytes(&f, b, 7)) >= 0; k++) tot += n;
    printf("%ld\n", tot);
    return tot == 10 ? 0 : 1;
}
