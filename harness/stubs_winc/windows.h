#pragma once
#include <stddef.h>
typedef int BOOL; typedef unsigned int UINT; typedef unsigned long DWORD_; typedef wchar_t WCHAR;
#define CP_UTF8 65001u
#define CP_ACP 0u
#define WC_ERR_INVALID_CHARS 0x80u
#define ERROR_INSUFFICIENT_BUFFER 122u
#define ERROR_NO_UNICODE_TRANSLATION 1113u
extern "C" { int WideCharToMultiByte(UINT page, unsigned flags, WCHAR const* in, int nin, char* out, int nout, char const* def, BOOL* used); unsigned GetLastError(); }
