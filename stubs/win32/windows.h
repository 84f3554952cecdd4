/* Minimal stand-in for the Windows headers used by win32/memstream.[hc]; types have the sizes of the
 * Windows (LLP64) ABI. Used only so that the module can be compiled for analysis. */
#ifndef VERIF_WINDOWS_H
#define VERIF_WINDOWS_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned char BYTE;
typedef int LONG, BOOL, INT, HRESULT;
typedef unsigned int ULONG, DWORD, UINT;
typedef long long LONGLONG;
typedef unsigned long long ULONGLONG;
typedef unsigned short WCHAR, WORD;
typedef WCHAR* LPWSTR;
typedef const WCHAR* LPCWSTR;
typedef WCHAR* LPOLESTR;
typedef void* HANDLE; typedef HANDLE HINSTANCE, HMODULE, HRSRC, HGLOBAL;
typedef void* PVOID; typedef void* LPVOID;
typedef size_t SIZE_T;
typedef union { struct { DWORD LowPart; LONG HighPart; } u; LONGLONG QuadPart; } LARGE_INTEGER;
typedef union { struct { DWORD LowPart; DWORD HighPart; } u; ULONGLONG QuadPart; } ULARGE_INTEGER;
typedef struct { DWORD dwLowDateTime, dwHighDateTime; } FILETIME;
typedef struct { uint32_t Data1; uint16_t Data2, Data3; uint8_t Data4[8]; } GUID;
typedef GUID IID, CLSID;
#ifdef __cplusplus
typedef const IID& REFIID; typedef const GUID& REFGUID;
#else
typedef const IID* REFIID; typedef const GUID* REFGUID;
#define IsEqualGUID(a, b) (memcmp((a), (b), sizeof(GUID)) == 0)
#define IsEqualIID(a, b) IsEqualGUID(a, b)
#endif
#define STDMETHODCALLTYPE
#define WINAPI
#define ERROR_SUCCESS 0L
#define NO_ERROR 0L
#define ERROR_INVALID_DATA 13L
#define ERROR_RESOURCE_DATA_NOT_FOUND 1812L
#define TRUE 1
#define FALSE 0
#define S_OK ((HRESULT)0)
#define S_FALSE ((HRESULT)1)
#define E_NOTIMPL ((HRESULT)0x80004001u)
#define E_NOINTERFACE ((HRESULT)0x80004002u)
#define E_POINTER ((HRESULT)0x80004003u)
#define E_FAIL ((HRESULT)0x80004005u)
#define E_OUTOFMEMORY ((HRESULT)0x8007000Eu)
#define E_INVALIDARG ((HRESULT)0x80070057u)
#define E_UNEXPECTED ((HRESULT)0x8000FFFFu)
#define FAILED(hr) (((HRESULT)(hr)) < 0)
#define SUCCEEDED(hr) (((HRESULT)(hr)) >= 0)
#define HRESULT_FROM_WIN32(x) ((HRESULT)(x) <= 0 ? ((HRESULT)(x)) : ((HRESULT)(((x) & 0x0000FFFF) | (7 << 16) | 0x80000000u)))
static inline LONG InterlockedIncrement(LONG volatile* p) { return __sync_add_and_fetch(p, 1); }
static inline LONG InterlockedDecrement(LONG volatile* p) { return __sync_sub_and_fetch(p, 1); }
static inline LONG InterlockedExchangeAdd(LONG volatile* p, LONG v) { return __sync_fetch_and_add(p, v); }
static inline LONG InterlockedExchange(LONG volatile* p, LONG v) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
static inline LONG InterlockedCompareExchange(LONG volatile* p, LONG v, LONG c) { return __sync_val_compare_and_swap(p, c, v); }
HRSRC FindResourceW(HMODULE, LPCWSTR, LPCWSTR);
DWORD SizeofResource(HMODULE, HRSRC);
HGLOBAL LoadResource(HMODULE, HRSRC);
LPVOID LockResource(HGLOBAL);
DWORD GetLastError(void);
#ifdef __cplusplus
}
#endif
#endif
