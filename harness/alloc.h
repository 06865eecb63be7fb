#include <stdlib.h>
#include <string.h>
void *h_malloc(size_t); void *h_calloc(size_t, size_t); void *h_realloc(void *, size_t); char *h_strdup(const char *); void h_free(void *);
#define malloc h_malloc
#define calloc h_calloc
#define realloc h_realloc
#undef strdup
#define strdup h_strdup
#define free h_free
