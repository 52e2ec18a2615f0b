/* the part of the Windows API that a source of random bytes can use, for building the Windows path here; see plat.c */
#ifndef VF_WINDOWS_H
#define VF_WINDOWS_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include <errno.h>
#include <stdio.h>
typedef uint32_t DWORD, ULONG, UINT; typedef int32_t LONG, NTSTATUS, BOOL, INT; typedef uint8_t BYTE, UCHAR, BOOLEAN; typedef uint16_t WORD, USHORT; typedef char CHAR; typedef wchar_t WCHAR;
typedef void VOID, *PVOID, *LPVOID, *HANDLE; typedef UCHAR *PUCHAR; typedef BYTE *PBYTE, *LPBYTE; typedef ULONG *PULONG; typedef DWORD *PDWORD, *LPDWORD;
typedef const char *LPCSTR, *PCSTR; typedef const wchar_t *LPCWSTR, *PCWSTR; typedef size_t SIZE_T; typedef uintptr_t ULONG_PTR, UINT_PTR; typedef uint64_t ULONGLONG, DWORD64, ULONG64; typedef int64_t LONGLONG;
#define TRUE 1
#define FALSE 0
#define WINAPI
#define NTAPI
#define MAXDWORD 0xffffffffu
#define ULONG_MAX_ 0xffffffffu
#define NT_SUCCESS(s) (((NTSTATUS)(s)) >= 0)
#define STATUS_SUCCESS ((NTSTATUS)0)
#define STATUS_UNSUCCESSFUL ((NTSTATUS)0xC0000001)
#define STATUS_INVALID_HANDLE ((NTSTATUS)0xC0000008)
#define STATUS_INVALID_PARAMETER ((NTSTATUS)0xC000000D)
typedef PVOID BCRYPT_ALG_HANDLE, BCRYPT_HANDLE; typedef ULONG_PTR HCRYPTPROV;
#define BCRYPT_USE_SYSTEM_PREFERRED_RNG 0x00000002
#define BCRYPT_RNG_ALGORITHM L"RNG"
#define PROV_RSA_FULL 1
#define PROV_RSA_AES 24
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#define CRYPT_SILENT 0x00000040
#define MS_PRIMITIVE_PROVIDER L"Microsoft Primitive Provider"
NTSTATUS BCryptGenRandom(BCRYPT_ALG_HANDLE, PUCHAR, ULONG, ULONG);
NTSTATUS BCryptOpenAlgorithmProvider(BCRYPT_ALG_HANDLE *, LPCWSTR, LPCWSTR, ULONG);
NTSTATUS BCryptCloseAlgorithmProvider(BCRYPT_ALG_HANDLE, ULONG);
BOOL CryptAcquireContextA(HCRYPTPROV *, LPCSTR, LPCSTR, DWORD, DWORD);
BOOL CryptAcquireContextW(HCRYPTPROV *, LPCWSTR, LPCWSTR, DWORD, DWORD);
BOOL CryptGenRandom(HCRYPTPROV, DWORD, BYTE *);
BOOL CryptReleaseContext(HCRYPTPROV, DWORD);
BOOLEAN SystemFunction036(PVOID, ULONG);
#define RtlGenRandom SystemFunction036
#define CryptAcquireContext CryptAcquireContextA
#define ZeroMemory(p, n) memset((p), 0, (n))
#define SecureZeroMemory(p, n) memset((p), 0, (n))
#define RtlSecureZeroMemory(p, n) memset((p), 0, (n))
DWORD GetLastError(void); void SetLastError(DWORD);
#endif
