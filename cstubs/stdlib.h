#ifndef STUB_STDLIB
#define STUB_STDLIB
#include <stddef.h>
void *malloc(size_t); void free(void *); void exit(int); double strtod(const char *, char **);
long strtol(const char *, char **, int); int abs(int); int rand(void); void srand(unsigned);
void qsort(void *, size_t, size_t, int (*)(const void *, const void *));
char *getenv(const char *);
#endif
