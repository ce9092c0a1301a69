#pragma once
#include <stddef.h>
#include <stdint.h>
typedef void const* CFTypeRef; typedef struct __CFString const* CFStringRef; typedef struct __CFArray const* CFArrayRef; typedef struct __CFAllocator const* CFAllocatorRef; typedef long CFIndex; typedef uint32_t CFStringEncoding; typedef double CFTimeInterval; typedef unsigned char Boolean;
enum { kCFStringEncodingUTF8 = 0x08000100 };
typedef struct { CFIndex version; void const* (*retain)(CFAllocatorRef, void const*); void (*release)(CFAllocatorRef, void const*); CFStringRef (*copyDescription)(void const*); Boolean (*equal)(void const*, void const*); } CFArrayCallBacks;
extern "C" { extern CFArrayCallBacks kCFTypeArrayCallBacks; CFStringRef CFStringCreateWithCString(CFAllocatorRef, char const*, CFStringEncoding); CFArrayRef CFArrayCreate(CFAllocatorRef, void const**, CFIndex, CFArrayCallBacks const*); void CFRelease(CFTypeRef); CFTypeRef CFRetain(CFTypeRef); }
