#ifndef VF_STDLIB_H
#define VF_STDLIB_H
#include <stddef.h>
void *malloc(size_t); void *calloc(size_t, size_t); void *realloc(void *, size_t); void free(void *); void abort(void); void exit(int);
int atoi(const char *); long atol(const char *); long long atoll(const char *); double atof(const char *); double strtod(const char *, char **);
long strtol(const char *, char **, int); long long strtoll(const char *, char **, int); unsigned long long strtoull(const char *, char **, int); unsigned long strtoul(const char *, char **, int);
int abs(int); long labs(long); long long llabs(long long); void srand(unsigned); char *getenv(const char *); float strtof(const char *, char **); void qsort(void *, size_t, size_t, int (*)(const void *, const void *)); void *bsearch(const void *, const void *, size_t, size_t, int (*)(const void *, const void *)); int rand(void);
#endif
