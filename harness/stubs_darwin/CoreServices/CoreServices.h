#pragma once
#include <CoreFoundation/CoreFoundation.h>
#include <dispatch/dispatch.h>
typedef struct __FSEventStream* FSEventStreamRef; typedef struct __FSEventStream const* ConstFSEventStreamRef; typedef uint64_t FSEventStreamEventId; typedef uint32_t FSEventStreamEventFlags; typedef uint32_t FSEventStreamCreateFlags;
typedef void (*FSEventStreamCallback)(ConstFSEventStreamRef, void*, size_t, void*, FSEventStreamEventFlags const*, FSEventStreamEventId const*);
typedef struct FSEventStreamContext { CFIndex version; void* info; void const* (*retain)(void const*); void (*release)(void const*); CFStringRef (*copyDescription)(void const*); } FSEventStreamContext;
enum : uint32_t { kFSEventStreamCreateFlagNone = 0, kFSEventStreamCreateFlagUseCFTypes = 1, kFSEventStreamCreateFlagNoDefer = 2, kFSEventStreamCreateFlagWatchRoot = 4, kFSEventStreamCreateFlagIgnoreSelf = 8, kFSEventStreamCreateFlagFileEvents = 16, kFSEventStreamCreateFlagMarkSelf = 32, kFSEventStreamCreateFlagFullHistory = 128 };
enum : uint32_t { kFSEventStreamEventFlagNone = 0, kFSEventStreamEventFlagMustScanSubDirs = 1, kFSEventStreamEventFlagUserDropped = 2, kFSEventStreamEventFlagKernelDropped = 4, kFSEventStreamEventFlagEventIdsWrapped = 8, kFSEventStreamEventFlagHistoryDone = 16, kFSEventStreamEventFlagRootChanged = 32, kFSEventStreamEventFlagMount = 64, kFSEventStreamEventFlagUnmount = 128,
  kFSEventStreamEventFlagItemCreated = 0x100, kFSEventStreamEventFlagItemRemoved = 0x200, kFSEventStreamEventFlagItemInodeMetaMod = 0x400, kFSEventStreamEventFlagItemRenamed = 0x800, kFSEventStreamEventFlagItemModified = 0x1000, kFSEventStreamEventFlagItemFinderInfoMod = 0x2000, kFSEventStreamEventFlagItemChangeOwner = 0x4000, kFSEventStreamEventFlagItemXattrMod = 0x8000, kFSEventStreamEventFlagItemIsFile = 0x10000, kFSEventStreamEventFlagItemIsDir = 0x20000, kFSEventStreamEventFlagItemIsSymlink = 0x40000, kFSEventStreamEventFlagOwnEvent = 0x80000, kFSEventStreamEventFlagItemIsHardlink = 0x100000, kFSEventStreamEventFlagItemIsLastHardlink = 0x200000, kFSEventStreamEventFlagItemCloned = 0x400000 };
enum : uint64_t { kFSEventStreamEventIdSinceNow = 0xFFFFFFFFFFFFFFFFull };
extern "C" { FSEventStreamRef FSEventStreamCreate(CFAllocatorRef, FSEventStreamCallback, FSEventStreamContext*, CFArrayRef, FSEventStreamEventId, CFTimeInterval, FSEventStreamCreateFlags); void FSEventStreamSetDispatchQueue(FSEventStreamRef, dispatch_queue_t); Boolean FSEventStreamStart(FSEventStreamRef); void FSEventStreamFlushSync(FSEventStreamRef); FSEventStreamEventId FSEventStreamFlushAsync(FSEventStreamRef); void FSEventStreamStop(FSEventStreamRef); void FSEventStreamInvalidate(FSEventStreamRef); void FSEventStreamRelease(FSEventStreamRef); void FSEventStreamRetain(FSEventStreamRef); }
