#pragma once
#include "ktl/allocators/mallocator.h"
using namespace ktl;

static void client()
{
    kt_malloc_align(KT_MALLOC_ALIGN, 16);
    mallocator a;
    Slot s[2] = {};
    for (;;)
    {
        kt_loop(20);
        size_t i = kt_choice(2, "slot");
        size_t before = kt_live_mallocs();
        if (s[i].p)
        {
            kt_unhold(s[i].p, s[i].n);
            a.deallocate(s[i].p, s[i].n);
            kt_check(kt_live_mallocs() == before - 1, "C01: the block obtained from malloc is released");
            s[i] = Slot{};
        }
        else
        {
            size_t n = kt_size("n");
            char* p = (char*)a.allocate(n);
            kt_check(kt_live_mallocs() == before + (p ? 1 : 0), "C18: a refused request leaves nothing behind");
            if (p)
            {
                kt_hold(p, n, "C01,C02,C04: the block has room for the request");
                kt_check(aligned(p), "C03: aligned to max_align_t");
                s[i] = Slot{ p, n, 0 };
            }
        }
    }
}
// any power of two up to 256
static void any()
{
    kt_malloc_align(KT_MALLOC_ALIGN, 256);
    size_t al = size_t(8) << kt_choice(6, "alignment");
    size_t n = kt_size("n");
    char* p = (char*)detail::aligned_malloc(n, al);
    if (p)
    {
        kt_access(p, n, "C01,C04: the block has room for the request");
        kt_check(((uintptr_t)p & (al - 1)) == 0, "C03: aligned as requested");
        detail::aligned_free(p);
        kt_check(kt_live_mallocs() == 0, "C01: the block obtained from malloc is released");
    }
    else
        kt_check(kt_live_mallocs() == 0, "C18: a refused request leaves nothing behind");
    detail::aligned_free(nullptr);
}

static void serves()
{
    kt_malloc_align(KT_MALLOC_ALIGN, 16);
    kt_malloc_never_fails();
    mallocator a;
    size_t n = kt_size("n");
    kt_assume(n <= size_t(1) << 45);
    void* p = a.allocate(n);
    kt_check(p, "C35: a request is refused only when malloc refuses it");
    a.deallocate(p, n);
}
