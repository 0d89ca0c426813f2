/* analysis stand-in for kuba--/zip */
#ifndef SA_ZIP_H
#define SA_ZIP_H
#include <stddef.h>
#include <sys/types.h>
struct zip_t;
#define ZIP_DEFAULT_COMPRESSION_LEVEL 6
struct zip_t *zip_open(const char *zipname, int level, char mode);
struct zip_t *zip_openwitherror(const char *zipname, int level, char mode, int *errnum);
const char *zip_strerror(int errnum);
void zip_close(struct zip_t *zip);
int zip_entry_open(struct zip_t *zip, const char *entryname);
int zip_entry_write(struct zip_t *zip, const void *buf, size_t bufsize);
int zip_entry_fwrite(struct zip_t *zip, const char *filename);
int zip_entry_close(struct zip_t *zip);
#endif
