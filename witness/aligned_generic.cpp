// aligned_malloc on a platform whose malloc aligns less than max_align_t and that has nothing better.
#include "model.h"
#include <atomic>
#include <mutex>
#include <memory>
#include <ostream>
#include <tuple>
#undef __LP64__
#undef _POSIX_ADVISORY_INFO
#define KT_MALLOC_ALIGN 8
#include "aligned.h"
HARNESS(aligned_generic, "C01 C02 C03 C04 C18") { client(); }
HARNESS(aligned_generic_any, "C01 C03 C04 C18") { any(); }
HARNESS(aligned_generic_serves, "C35") { serves(); }
