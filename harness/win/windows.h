/* stand-ins for the Windows headers: enough to compile the Windows configuration of the random source on Linux */
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <assert.h>
typedef int32_t NTSTATUS; typedef int32_t LONG; typedef int BOOL; typedef unsigned char BYTE, UCHAR, *PUCHAR; typedef uint32_t ULONG, DWORD; typedef uintptr_t HCRYPTPROV, ULONG_PTR; typedef void *BCRYPT_ALG_HANDLE, *HANDLE, *PVOID, *LPVOID; typedef const char *LPCSTR; typedef size_t SIZE_T; typedef unsigned int UINT; typedef unsigned short WORD;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define WINAPI
#define NT_SUCCESS(s) ((NTSTATUS)(s) >= 0)
#define BCRYPT_USE_SYSTEM_PREFERRED_RNG 2
#define PROV_RSA_FULL 1
#define PROV_RSA_AES 24
#define CRYPT_VERIFYCONTEXT 0xF0000000
#define CRYPT_SILENT 0x40
#define STATUS_SUCCESS 0
#define BCryptGenRandom vf_win_gen1
#define CryptAcquireContext vf_win_acquire
#define CryptAcquireContextA vf_win_acquire
#define CryptGenRandom vf_win_gen2
#define CryptReleaseContext vf_win_release
#define SecureZeroMemory(p, n) memset(p, 0, n)
#define ZeroMemory(p, n) memset(p, 0, n)
NTSTATUS vf_win_gen1(BCRYPT_ALG_HANDLE, PUCHAR, ULONG, ULONG);
BOOL vf_win_acquire(HCRYPTPROV *, LPCSTR, LPCSTR, DWORD, DWORD);
BOOL vf_win_gen2(HCRYPTPROV, DWORD, BYTE *);
BOOL vf_win_release(HCRYPTPROV, DWORD);
