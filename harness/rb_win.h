/* forces the Windows configuration of random/randombytes.c, over the stand-in headers in win/ */
#include "win/windows.h"
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#undef __unix__
#undef __unix
#undef unix
#undef __GLIBC__
#define _WIN32 1
#define __declspec(x)
/* a symbol of its own: without it the copies of random/ in one program share section groups */
char HP_RB_UNIT;
