// Obligation language of the witness units.  None of these functions exists: the
// units are only ever analysed (compiled to IR), never linked or run.
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>
#include <tuple>
#include <type_traits>
#include <utility>

extern "C" {
size_t kt_size(const char* name);                 // any size_t
uint32_t kt_u32(const char* name);
uint8_t kt_u8(const char* name);
size_t kt_range(size_t lo, size_t hi, const char* name);
size_t kt_choice(size_t n, const char* name);     // client picks one of n actions
void kt_assume(bool);
void kt_check(bool, const char* what);            // obligation
void kt_loop(size_t bound) noexcept;             // head of a most-general-client loop
void kt_note(const char*, size_t);
[[noreturn]] void kt_stop();
[[noreturn]] void kt_throw();
void kt_malloc_never_fails() noexcept;
void kt_malloc_align(size_t align, size_t modulus) noexcept;
void kt_terminate_ok() noexcept;
void* kt_block(size_t n, size_t align, const char* name) noexcept;      // fresh storage, arbitrary content
void* kt_raw_block(size_t n, size_t align, const char* name) noexcept;  // fresh storage, uninitialised
bool kt_too_big(size_t n) noexcept;
void kt_release(void*) noexcept;
bool kt_is_block(const void*) noexcept;
bool kt_live(const void*) noexcept;
size_t kt_room(const void*) noexcept;
bool kt_same_object(const void*, const void*) noexcept;
size_t kt_live_blocks() noexcept;
size_t kt_live_mallocs() noexcept;
size_t kt_live_news() noexcept;
size_t kt_locks_held() noexcept;
const void* kt_lock_addr() noexcept;
void kt_set(const void*, size_t key, size_t v) noexcept;
size_t kt_get(const void*, size_t key) noexcept;
void kt_access(const void*, size_t n, const char* what) noexcept;
void kt_hold(const void*, size_t n, const char* what) noexcept;   // client owns these bytes; must not overlap others
void kt_unhold(const void*, size_t n) noexcept;
void kt_interference(size_t own) noexcept;   // other threads share the counter last updated atomically
void kt_havoc(void*, size_t n) noexcept;
void kt_content(void*, size_t n, const char* name) noexcept;
uint64_t kt_content_at(const char* name, size_t byteidx, size_t width) noexcept;
bool kt_owns_fn(size_t id, const void* p) noexcept;
void kt_obj_new(const void*, size_t) noexcept;
void kt_obj_del(const void*) noexcept;
void kt_obj_use(const void*, const char*) noexcept;
size_t kt_obj_count() noexcept;
size_t kt_steps() noexcept;                      // instructions analysed so far on this path
size_t kt_concretize(size_t v, size_t max) noexcept;
}
#define HARNESS(name, ...) extern "C" void name()
