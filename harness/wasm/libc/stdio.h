#pragma once
#include <stddef.h>
typedef struct vf_file FILE; extern FILE *stderr, *stdout;
int printf(const char *, ...); int fprintf(FILE *, const char *, ...); int puts(const char *);
int fputs(const char *, FILE *); int putchar(int); int fflush(FILE *); void perror(const char *); int snprintf(char *, size_t, const char *, ...);
