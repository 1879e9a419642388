typedef unsigned n;
void *memcpy(void *d, const void *s, n k) { char *p = d; const char *q = s; while (k--) *p++ = *q++; return d; }
void *memset(void *d, int c, n k) { char *p = d; while (k--) *p++ = c; return d; }
