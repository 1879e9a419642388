#include <stddef.h>
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t);
