#pragma once
#include <stddef.h>
void *malloc(size_t); void *calloc(size_t, size_t); void *realloc(void *, size_t); void free(void *);
_Noreturn void abort(void); _Noreturn void exit(int);
#define EXIT_SUCCESS 0
#define EXIT_FAILURE 1
int abs(int); long labs(long); long long llabs(long long);
void qsort(void *, size_t, size_t, int (*)(const void *, const void *)); int atoi(const char *); char *getenv(const char *); int rand(void); void srand(unsigned);
