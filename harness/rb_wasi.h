/* forces the WASI configuration of random/randombytes.c */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <assert.h>
#include <stdint.h>
#include <sys/types.h>
#include <sys/param.h>
#undef _GNU_SOURCE
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#undef __GLIBC__
#undef __unix__
#undef __unix
#undef unix
#undef BSD
#define __wasi__ 1
void arc4random_buf(void *, size_t);
/* a symbol of its own: without it the copies of random/ in one program share section groups */
char HP_RB_UNIT;
