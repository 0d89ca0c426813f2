/* analysis stand-in for ThirdParty/uthash: the same macro interface as calls the analysis models */
#ifndef UTHASH_H
#define UTHASH_H
#include <string.h>
#include <stddef.h>
#include <stdlib.h>
typedef struct UT_hash_handle { void *tbl, *prev, *next; } UT_hash_handle;
void *__sa_hash_find(void *head, const void *key, unsigned long len);
void *__sa_hash_add(void *head, const void *key, unsigned long len, void *item);
void *__sa_hash_del(void *head, void *item);
#define HASH_FIND(hh, head, keyptr, keylen, out) do { (out) = __sa_hash_find((head), (keyptr), (keylen)); } while (0)
#define HASH_FIND_STR(head, findstr, out) HASH_FIND(hh, head, findstr, strlen(findstr), out)
#define HASH_ADD_KEYPTR(hh, head, keyptr, keylen, add) do { (head) = __sa_hash_add((head), (keyptr), (keylen), (add)); } while (0)
#define HASH_ADD_STR(head, strfield, add) HASH_ADD_KEYPTR(hh, head, (add)->strfield, strlen((add)->strfield), add)
#define HASH_ADD(hh, head, fieldname, keylen, add) HASH_ADD_KEYPTR(hh, head, &((add)->fieldname), keylen, add)
#define HASH_DEL(head, del) do { (head) = __sa_hash_del((head), (del)); } while (0)
#define HASH_DELETE(hh, head, del) HASH_DEL(head, del)
#define HASH_ITER(hh, head, el, tmp) for ((el) = (head), (tmp) = (el) ? (el)->hh.next : NULL; (el); (el) = (tmp), (tmp) = (el) ? (el)->hh.next : NULL)
#endif
