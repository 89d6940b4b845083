/* Minimal stand-in for the Windows CryptoAPI, implemented by the simulated OS (sim/os.cc). */
#ifndef SIM_WINDOWS_H
#define SIM_WINDOWS_H
#include <stddef.h>
#include <stdint.h>
typedef unsigned long ULONG_PTR_; typedef uintptr_t HCRYPTPROV; typedef uintptr_t ULONG_PTR; typedef unsigned char BYTE; typedef BYTE *PBYTE; typedef uint32_t DWORD; typedef int BOOL; typedef const char *LPCSTR; typedef int32_t LONG; typedef uint32_t ULONG; typedef void *PVOID; typedef void *HANDLE; typedef void VOID;
#define TRUE 1
#define FALSE 0
#define WINAPI
#define PROV_RSA_FULL 1
#define PROV_RSA_AES 24
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#define CRYPT_NEWKEYSET 8u
#define CRYPT_SILENT 0x40u
BOOL CryptAcquireContextA(HCRYPTPROV *p, LPCSTR c, LPCSTR n, DWORD t, DWORD f);
BOOL CryptAcquireContextW(HCRYPTPROV *p, const void *c, const void *n, DWORD t, DWORD f);
#define CryptAcquireContext CryptAcquireContextA
BOOL CryptGenRandom(HCRYPTPROV h, DWORD n, BYTE *b);
BOOL CryptReleaseContext(HCRYPTPROV h, DWORD f);
DWORD GetLastError(void);
void SetLastError(DWORD e);
void Sleep(DWORD ms);
DWORD GetCurrentProcessId(void);
DWORD GetCurrentThreadId(void);
DWORD GetTickCount(void);
void ExitProcess(unsigned c);
#endif
