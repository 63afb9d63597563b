// aligned_malloc on a platform with posix_memalign.
#include "model.h"
#include <atomic>
#include <mutex>
#include <memory>
#include <ostream>
#include <tuple>
#include <unistd.h>
#undef __LP64__
#ifndef _GNU_SOURCE
#error expected
#endif
#define KT_MALLOC_ALIGN 8
#include "aligned.h"
HARNESS(aligned_posix, "C01 C02 C03 C04 C18") { client(); }
HARNESS(aligned_posix_any, "C01 C03 C04 C18") { any(); }
HARNESS(aligned_posix_serves, "C35") { serves(); }
