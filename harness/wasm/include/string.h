#pragma once
#include <stddef.h>
void* memcpy(void*, const void*, size_t); void* memmove(void*, const void*, size_t); void* memset(void*, int, size_t); int memcmp(const void*, const void*, size_t); void* memchr(const void*, int, size_t);
size_t strlen(const char*); int strcmp(const char*, const char*); int strncmp(const char*, const char*, size_t);
void explicit_bzero(void*, size_t);
