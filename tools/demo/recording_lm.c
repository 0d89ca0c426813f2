/* licence manager that records its calls in the file named by LM_LOG; LM_NEW_FAIL=1 refuses creation, features starting with "ok" are granted */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mlle_error.h"
#include "mlle_license_manager.h"
struct mlle_license { int x; };
static void rec(const char *w, const char *a) { const char *f = getenv("LM_LOG"); FILE *o = f ? fopen(f, "a") : 0; if (o) { fprintf(o, "%s %s\n", w, a ? a : ""); fclose(o); } }
struct mlle_license *mlle_license_new(const char *libpath, struct mlle_error **error) {
    rec("new", libpath);
    if (getenv("LM_NEW_FAIL")) { *error = mlle_error_new(1, 3, "no licence server"); return NULL; }
    return calloc(1, sizeof(struct mlle_license)); }
void mlle_license_free(struct mlle_license *m) { rec("free", ""); free(m); }
int mlle_license_checkout_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **error) {
    char b[256] = {0}; memcpy(b, f, n < 255 ? n : 255); rec("out", b);
    if (!strncmp(b, "ok", 2)) return 1;
    *error = mlle_error_new(1, 3, "Feature not licensed"); return 0; }
int mlle_license_checkin_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **error) {
    char b[256] = {0}; memcpy(b, f, n < 255 ? n : 255); rec("in", b);
    if (!strncmp(b, "ok", 2)) return 1;
    *error = mlle_error_new(1, 3, "Not checked out"); return 0; }
