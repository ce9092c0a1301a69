#pragma once
#include <stdint.h>
typedef struct dispatch_semaphore_s* dispatch_semaphore_t; typedef struct dispatch_queue_s* dispatch_queue_t; typedef uint64_t dispatch_time_t;
#define DISPATCH_TIME_NOW 0ull
#define DISPATCH_TIME_FOREVER (~0ull)
enum { QOS_CLASS_USER_INTERACTIVE = 0x21, QOS_CLASS_USER_INITIATED = 0x19, QOS_CLASS_DEFAULT = 0x15, QOS_CLASS_UTILITY = 0x11, QOS_CLASS_BACKGROUND = 0x09 };
extern "C" { dispatch_semaphore_t dispatch_semaphore_create(long); long dispatch_semaphore_wait(dispatch_semaphore_t, dispatch_time_t); long dispatch_semaphore_signal(dispatch_semaphore_t); dispatch_queue_t dispatch_get_global_queue(long, unsigned long); dispatch_queue_t dispatch_queue_create(char const*, void*); void dispatch_release(void*); dispatch_time_t dispatch_time(dispatch_time_t, int64_t); }
