#pragma once
#include <stddef.h>
void* malloc(size_t); void free(void*); void* calloc(size_t, size_t); void* realloc(void*, size_t); void* aligned_alloc(size_t, size_t);
_Noreturn void exit(int); _Noreturn void abort(void); int abs(int); long labs(long);
#define EXIT_SUCCESS 0
#define EXIT_FAILURE 1
