/* forces the /dev/urandom configuration of random/randombytes.c */
#define _GNU_SOURCE
#include <features.h>
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <sys/syscall.h>
#undef __GLIBC__
#undef SYS_getrandom
#undef _GNU_SOURCE
/* a symbol of its own: without it the copies of random/ in one program share section groups */
char HP_RB_UNIT;
