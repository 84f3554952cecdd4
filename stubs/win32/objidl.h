/* Minimal stand-in for <objidl.h>: the IStream interface in C. */
#ifndef VERIF_OBJIDL_H
#define VERIF_OBJIDL_H
#include "windows.h"
#ifdef __cplusplus
extern "C" {
struct IStream;
#else
typedef struct IStream IStream;
#endif
typedef struct IUnknown IUnknown;
typedef struct tagSTATSTG { LPOLESTR pwcsName; DWORD type; ULARGE_INTEGER cbSize; FILETIME mtime, ctime, atime;
    DWORD grfMode; DWORD grfLocksSupported; CLSID clsid; DWORD grfStateBits; DWORD reserved; } STATSTG;
#ifndef __cplusplus
typedef struct IStreamVtbl {
    HRESULT (*QueryInterface)(IStream*, REFIID, void**);
    ULONG (*AddRef)(IStream*);
    ULONG (*Release)(IStream*);
    HRESULT (*Read)(IStream*, void*, ULONG, ULONG*);
    HRESULT (*Write)(IStream*, const void*, ULONG, ULONG*);
    HRESULT (*Seek)(IStream*, LARGE_INTEGER, DWORD, ULARGE_INTEGER*);
    HRESULT (*SetSize)(IStream*, ULARGE_INTEGER);
    HRESULT (*CopyTo)(IStream*, IStream*, ULARGE_INTEGER, ULARGE_INTEGER*, ULARGE_INTEGER*);
    HRESULT (*Commit)(IStream*, DWORD);
    HRESULT (*Revert)(IStream*);
    HRESULT (*LockRegion)(IStream*, ULARGE_INTEGER, ULARGE_INTEGER, DWORD);
    HRESULT (*UnlockRegion)(IStream*, ULARGE_INTEGER, ULARGE_INTEGER, DWORD);
    HRESULT (*Stat)(IStream*, STATSTG*, DWORD);
    HRESULT (*Clone)(IStream*, IStream**);
} IStreamVtbl;
struct IStream { IStreamVtbl* lpVtbl; };
#define IStream_QueryInterface(s, a, b) (s)->lpVtbl->QueryInterface(s, a, b)
#define IStream_AddRef(s) (s)->lpVtbl->AddRef(s)
#define IStream_Release(s) (s)->lpVtbl->Release(s)
#define IStream_Read(s, a, b, c) (s)->lpVtbl->Read(s, a, b, c)
#define IStream_Write(s, a, b, c) (s)->lpVtbl->Write(s, a, b, c)
#define IStream_Seek(s, a, b, c) (s)->lpVtbl->Seek(s, a, b, c)
#define IStream_SetSize(s, a) (s)->lpVtbl->SetSize(s, a)
#define IStream_CopyTo(s, a, b, c, d) (s)->lpVtbl->CopyTo(s, a, b, c, d)
#define IStream_Commit(s, a) (s)->lpVtbl->Commit(s, a)
#define IStream_Revert(s) (s)->lpVtbl->Revert(s)
#define IStream_Stat(s, a, b) (s)->lpVtbl->Stat(s, a, b)
#define IStream_Clone(s, a) (s)->lpVtbl->Clone(s, a)
#endif
static const IID IID_IUnknown = { 0x00000000, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
static const IID IID_ISequentialStream = { 0x0c733a30, 0x2a1c, 0x11ce, { 0xad, 0xe5, 0x00, 0xaa, 0x00, 0x44, 0x77, 0x3d } };
static const IID IID_IStream = { 0x0000000c, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
static const IID IID_IDispatch = { 0x00020400, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
enum { STREAM_SEEK_SET = 0, STREAM_SEEK_CUR = 1, STREAM_SEEK_END = 2 };
enum { STGTY_STORAGE = 1, STGTY_STREAM = 2 };
enum { STATFLAG_DEFAULT = 0, STATFLAG_NONAME = 1 };
#define STGM_READ 0x00000000u
#define STG_E_INVALIDFUNCTION ((HRESULT)0x80030001u)
#define STG_E_ACCESSDENIED ((HRESULT)0x80030005u)
#define STG_E_INVALIDPOINTER ((HRESULT)0x80030009u)
#define STG_E_INVALIDPARAMETER ((HRESULT)0x80030057u)
#define STG_E_INSUFFICIENTMEMORY ((HRESULT)0x80030008u)
#define STG_E_SEEKERROR ((HRESULT)0x80030019u)
#define STG_E_REVERTED ((HRESULT)0x80030102u)
#ifdef __cplusplus
}
#endif
#endif
