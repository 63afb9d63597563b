#define SUBP "C07"
#include "sub.h"
#include "ktl/allocators/freelist.h"
#include "ktl/allocators/linear_allocator.h"
using namespace ktl;

// every history with at most SLOTS live or cached blocks, then destruction at any point
template<size_t Min, size_t Max, size_t SLOTS, unsigned Caps>
static void client()
{
    Slot s[SLOTS] = {};
    size_t cached = 0, live = 0;
    char* foreign = (char*)kt_block(Max, AL, "a block of another allocator");
    kt_hold(foreign, Max, "C02,C06: a block of another allocator is not taken over");
    {
        freelist<Min, Max, Sub<Caps>> a(size_t(7));
        for (;;)
        {
            kt_loop(60);
            size_t i = kt_choice(SLOTS + 2, "slot");
            if (i == SLOTS)
                break;
            probe.reset();
            if (i > SLOTS)
            {
                // what a freelist of this range cannot have handed out
                size_t n = kt_size("foreign n");
                void* p = foreign;
#ifndef KTL_DEBUG_ASSERT
                if (kt_choice(2, "null"))
                    p = nullptr;
                else
#endif
                    kt_assume(n <= Min || n > Max);
                a.deallocate(p, n);
                kt_check(probe.deallocs == 0 && probe.allocs == 0, "C06: deallocate does not involve the underlying allocator");
                continue;
            }
            if (s[i].p)
            {
                kt_unhold(s[i].p, s[i].n);
                a.deallocate(s[i].p, s[i].n);
                kt_check(probe.deallocs == 0 && probe.allocs == 0, "C06: deallocate caches the block and does not involve the underlying allocator");
                s[i] = Slot{};
                live--;
                cached++;
            }
            else
            {
                size_t n = kt_size("n");
                char* p = (char*)a.allocate(n);
                if (!(n > Min && n <= Max))
                {
                    kt_check(p == nullptr, "C06: a size outside (Min,Max] is refused");
                    kt_check(probe.allocs == 0, "C06: a refused size does not reach the underlying allocator");
                }
                else if (cached)
                {
                    kt_check(p != nullptr, "C06,C35: a cached block serves the request");
                    kt_check(probe.allocs == 0, "C06: a cached block is preferred over the underlying allocator");
                    cached--;
                }
                else
                {
                    kt_check(probe.allocs == 1, "C06,C35: the underlying allocator is asked exactly once when nothing is cached");
                    kt_check(probe.lastn == Max, "C06: blocks are requested with exactly Max bytes");
                    kt_check(p || !probe.lastr, "C35: a request is refused only after the underlying allocator refused it");
                }
                kt_check(probe.deallocs == 0, "C06: allocate never releases memory");
                if (p)
                {
                    kt_hold(p, n, "C01,C02,C04,C06: the block has room for the request and belongs to one client");
                    kt_check(aligned(p), "C03: aligned to max_align_t");
                    s[i].p = p;
                    s[i].n = n;
                    live++;
                }
            }
            kt_check(kt_live_blocks() == live + cached + 1, "C06,C07: blocks are neither lost nor released while the freelist lives");
        }
        for (size_t i = 0; i < SLOTS; i++)
            if (s[i].p)
                kt_unhold(s[i].p, s[i].n);
        probe.reset();
    }
    kt_check(probe.deallocs == cached, "C07: every cached block is given back exactly once on destruction");
    kt_check(kt_live_blocks() == live + 1, "C07: nothing else is given back");
}
HARNESS(freelist_16_64, "C01 C02 C03 C04 C06 C07 C18 C32 C35") { client<16, 64, 3, 0>(); }
// many blocks: all out, all back in some order, all out again without asking, some back, destruction
template<size_t N> static void many()
{
    char* p[N];
    size_t back = 0;
    {
        freelist<16, 64, Sub<NOFAIL>> a(size_t(7));
        size_t first = kt_choice(N, "first"), step = kt_choice(2, "direction") ? 1 : N - 1;
        for (int round = 0; round < 2; round++)
        {
            probe.reset();
            for (size_t i = 0; i < N; i++)
            {
                p[i] = (char*)a.allocate(17 + i);
                if (!p[i])
                    kt_stop();
                kt_hold(p[i], 17 + i, "C01,C02,C04,C06: the block has room for the request and belongs to one client");
            }
            kt_check(probe.allocs == (round ? 0 : N), "C06: a cached block is preferred over the underlying allocator");
            probe.reset();
            size_t keep = round ? kt_choice(N, "kept") : 0;
            for (size_t j = 0, i = first; j < N - keep; j++, i = (i + step) % N)
            {
                kt_unhold(p[i], 17 + i);
                a.deallocate(p[i], 17 + i);
                p[i] = nullptr;
                back++;
            }
            kt_check(probe.deallocs == 0 && probe.allocs == 0, "C06: deallocate caches the block and does not involve the underlying allocator");
        }
        for (size_t i = 0; i < N; i++)
            if (p[i])
                kt_unhold(p[i], 17 + i);
        back -= N;
        probe.reset();
    }
    kt_check(probe.deallocs == back && kt_live_blocks() == N - back, "C07: every cached block is given back exactly once on destruction");
}
HARNESS(freelist_many, "C01 C02 C06 C07") { many<6>(); }
HARNESS(freelist_many12, "C01 C02 C06 C07", "thorough") { many<12>(); }
HARNESS(freelist_0_8, "C01 C02 C04 C06 C07 C18 C35") { client<0, 8, 2, OWNS | MAXS>(); }

// move construction and move assignment at any point
template<size_t K>
static void fill(freelist<0, 32, Sub<OWNS | MAXS>>& a, size_t& cached)
{
    char* p[K] = {};
    for (size_t i = 0; i < K; i++)
        if (kt_choice(2, "allocate"))
            p[i] = (char*)a.allocate(kt_range(1, 32, "n"));
    for (size_t i = 0; i < K; i++)
        if (p[i])
        {
            a.deallocate(p[i], 32);
            cached++;
        }
}
HARNESS(freelist_move_ctor, "C07 C33")
{
    size_t c = 0;
    {
        freelist<0, 32, Sub<OWNS | MAXS>> a(size_t(5));
        fill<2>(a, c);
        char* out = (char*)a.allocate(8);
        if (out)
            c = c ? c - 1 : 0;
        probe.reset();
        freelist<0, 32, Sub<OWNS | MAXS>> b(std::move(a));
        kt_check(probe.allocs == 0 && probe.deallocs == 0, "C07,C33: moving releases nothing");
        if (kt_choice(2, "use"))
        {
            if (c)
            {
                char* p = (char*)b.allocate(4);
                kt_check(p && probe.allocs == 0, "C07,C33: the destination serves the cached blocks");
                b.deallocate(p, 4);
            }
            if (out)
            {
                b.deallocate(out, 8);
                out = nullptr;
                c++;
            }
            else
            {
                char* q = (char*)a.allocate(4);
                if (q)
                {
                    kt_check(probe.allocs == 1, "C07,C33: the moved-from list is empty");
                    a.deallocate(q, 4);
                    c++;
                }
            }
        }
        probe.reset();
        if (out)
            kt_release(out);
    }
    kt_check(probe.deallocs == c, "C07,C33: the cached blocks are released exactly once in total");
    kt_check(kt_live_blocks() == 0, "C07,C33: no block is left behind");
}
HARNESS(freelist_move_assign, "C07 C33")
{
    size_t ca = 0, cb = 0;
    {
        size_t idb = kt_choice(2, "same allocator") ? 5 : 6;
        freelist<0, 32, Sub<OWNS | MAXS>> a(size_t(5));
        freelist<0, 32, Sub<OWNS | MAXS>> b(idb);
        fill<2>(a, ca);
        fill<2>(b, cb);
        probe.reset();
        b = std::move(a);
        kt_check(probe.deallocs == cb, "C07,C33: assignment releases what the destination had cached");
        probe.reset();
        if (ca && kt_choice(2, "use"))
        {
            char* p = (char*)b.allocate(4);
            kt_check(p && probe.allocs == 0, "C07,C33: the destination serves the cached blocks");
            b.deallocate(p, 4);
        }
        probe.reset();
    }
    kt_check(probe.deallocs == ca, "C07,C33: the source's cached blocks are released exactly once");
    kt_check(kt_live_blocks() == 0, "C07,C33: no block is left behind");
}
// nested: the list lives inside the storage of a bump allocator
HARNESS(freelist_linear, "C01 C02 C03 C04 C06 C18")
{
    freelist<0, 24, linear_allocator<96>> a;
    Slot s[3] = {};
    size_t cached = 0, fresh = 0;
    for (;;)
    {
        kt_loop(60);
        size_t i = kt_choice(3, "slot");
        if (s[i].p)
        {
            kt_unhold(s[i].p, s[i].n);
            a.deallocate(s[i].p, s[i].n);
            s[i] = Slot{};
            cached++;
        }
        else
        {
            size_t n = kt_size("n");
            char* p = (char*)a.allocate(n);
            if (p)
            {
                kt_hold(p, n, "C01,C02,C04,C06: the block has room for the request and belongs to one client");
                kt_check(aligned(p), "C03: aligned to max_align_t");
                kt_check(n > 0 && n <= 24, "C06: a size outside (Min,Max] is refused");
                s[i].p = p;
                s[i].n = n;
                if (cached) cached--; else fresh++;
            }
            else
                kt_check(n == 0 || n > 24 || (!cached && fresh == 3), "C06,C18: a request is refused only when nothing is cached and the storage is full");
        }
    }
}
