#pragma once
#include <stddef.h>
typedef struct FILE FILE; extern FILE *stdout, *stderr, *stdin;
int printf(const char*, ...); int fprintf(FILE*, const char*, ...); int snprintf(char*, size_t, const char*, ...); int puts(const char*); int fflush(FILE*); void perror(const char*);
