#pragma once
#include <stddef.h>
#include <stdint.h>
typedef uint32_t DWORD; typedef int BOOL; typedef uint64_t ULONG_PTR; typedef void* HANDLE; typedef wchar_t WCHAR; typedef void* LPVOID; typedef DWORD* LPDWORD; typedef unsigned char BYTE; typedef uint64_t ULONGLONG; typedef int64_t LONGLONG; typedef void* PVOID; typedef ULONG_PTR* PULONG_PTR; typedef uint32_t ULONG; typedef uint16_t WORD;
typedef struct _OVERLAPPED { ULONG_PTR Internal, InternalHigh; union { struct { DWORD Offset, OffsetHigh; }; PVOID Pointer; }; HANDLE hEvent; } OVERLAPPED, *LPOVERLAPPED;
typedef struct _FILE_NOTIFY_INFORMATION { DWORD NextEntryOffset, Action, FileNameLength; WCHAR FileName[1]; } FILE_NOTIFY_INFORMATION, *PFILE_NOTIFY_INFORMATION;
typedef struct { int unused; } SECURITY_ATTRIBUTES, *LPSECURITY_ATTRIBUTES; typedef void (*LPOVERLAPPED_COMPLETION_ROUTINE)(DWORD, DWORD, LPOVERLAPPED);
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define TRUE 1
#define FALSE 0
#define INFINITE 0xFFFFFFFFu
#define FILE_LIST_DIRECTORY 1u
#define FILE_SHARE_READ 1u
#define FILE_SHARE_WRITE 2u
#define FILE_SHARE_DELETE 4u
#define OPEN_EXISTING 3u
#define FILE_FLAG_BACKUP_SEMANTICS 0x02000000u
#define FILE_FLAG_OVERLAPPED 0x40000000u
#define FILE_NOTIFY_CHANGE_FILE_NAME 0x001u
#define FILE_NOTIFY_CHANGE_DIR_NAME 0x002u
#define FILE_NOTIFY_CHANGE_ATTRIBUTES 0x004u
#define FILE_NOTIFY_CHANGE_SIZE 0x008u
#define FILE_NOTIFY_CHANGE_LAST_WRITE 0x010u
#define FILE_NOTIFY_CHANGE_LAST_ACCESS 0x020u
#define FILE_NOTIFY_CHANGE_CREATION 0x040u
#define FILE_NOTIFY_CHANGE_SECURITY 0x100u
#define FILE_ACTION_ADDED 1u
#define FILE_ACTION_REMOVED 2u
#define FILE_ACTION_MODIFIED 3u
#define FILE_ACTION_RENAMED_OLD_NAME 4u
#define FILE_ACTION_RENAMED_NEW_NAME 5u
#define ERROR_SUCCESS 0u
#define ERROR_FILE_NOT_FOUND 2u
#define ERROR_ACCESS_DENIED 5u
#define ERROR_INVALID_HANDLE 6u
#define ERROR_INVALID_PARAMETER 87u
#define WAIT_TIMEOUT 258u
#define ERROR_ABANDONED_WAIT_0 735u
#define ERROR_OPERATION_ABORTED 995u
#define ERROR_IO_INCOMPLETE 996u
#define ERROR_IO_PENDING 997u
#define ERROR_NOT_FOUND 1168u
#define ERROR_NOTIFY_ENUM_DIR 1022u
#define STATUS_PENDING 0x103u
#define HasOverlappedIoCompleted(o) ((DWORD)(o)->Internal != STATUS_PENDING)
extern "C" {
HANDLE CreateEventW(LPSECURITY_ATTRIBUTES, BOOL manual, BOOL initial, WCHAR const* name); BOOL ResetEvent(HANDLE); BOOL SetEvent(HANDLE); BOOL CloseHandle(HANDLE); DWORD GetLastError(); void SetLastError(DWORD);
HANDLE CreateFileW(char const* path /* a path's own characters */, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES, DWORD disposition, DWORD flags, HANDLE); HANDLE CreateIoCompletionPort(HANDLE file, HANDLE port, ULONG_PTR key, DWORD threads);
BOOL ReadDirectoryChangesW(HANDLE, LPVOID buf, DWORD n, BOOL subtree, DWORD filter, LPDWORD got, LPOVERLAPPED, LPOVERLAPPED_COMPLETION_ROUTINE); BOOL GetQueuedCompletionStatus(HANDLE port, LPDWORD n, PULONG_PTR key, LPOVERLAPPED*, DWORD ms); BOOL PostQueuedCompletionStatus(HANDLE, DWORD, ULONG_PTR, LPOVERLAPPED);
BOOL CancelIo(HANDLE); BOOL CancelIoEx(HANDLE, LPOVERLAPPED); BOOL GetOverlappedResult(HANDLE, LPOVERLAPPED, LPDWORD, BOOL wait); DWORD WaitForSingleObject(HANDLE, DWORD); void Sleep(DWORD);
}
