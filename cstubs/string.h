#ifndef STUB_STRING
#define STUB_STRING
#include <stddef.h>
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); int strcmp(const char *, const char *);
size_t strlen(const char *); char *strcpy(char *, const char *); char *strncat(char *, const char *, size_t); char *strchr(const char *, int); char *strstr(const char *, const char *);
#endif
