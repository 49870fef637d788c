/* forces the "getrandom system call" configuration of random/randombytes.c */
#define _GNU_SOURCE
#include <features.h>
#include <errno.h>
#include <sys/types.h>
#include <unistd.h>
#include <sys/syscall.h>
#undef __GLIBC__
#undef _GNU_SOURCE
/* a symbol of its own: without it the copies of random/ in one program share section groups */
char HP_RB_UNIT;
