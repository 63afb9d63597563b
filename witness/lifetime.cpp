// Lifetime of the allocator behind shared handles: single-threaded histories (C12) and
// the thread-modular view of one thread with others changing the use count (C13).
#define SUBP "C12"
#include "sub.h"
#include "ktl/allocators/shared.h"
using namespace ktl;

struct Tok
{
    size_t id;
    explicit Tok(size_t i) noexcept : id(i) { kt_obj_new(this, sizeof(Tok)); }
    Tok(const Tok& o) noexcept : id(o.id) { kt_obj_use(&o, "copy from"); kt_obj_new(this, sizeof(Tok)); }
    Tok& operator=(const Tok& o) noexcept { kt_obj_use(this, "assign to"); kt_obj_use(&o, "copy from"); id = o.id; return *this; }
    ~Tok() noexcept { kt_obj_del(this); }
    void* allocate(size_t n) noexcept { kt_obj_use(this, "use of the allocator"); probe.allocs++; probe.lastid = id; probe.lastn = n; return nullptr; }
    void deallocate(void*, size_t) noexcept { kt_obj_use(this, "use of the allocator"); }
    bool operator==(const Tok& o) const noexcept { return id == o.id; }
    bool operator!=(const Tok& o) const noexcept { return id != o.id; }
};

// N handles; owner[i] is the model: 0 = refers to nothing, otherwise the allocator it refers to
template<typename H, size_t N> struct Handles
{
    alignas(16) unsigned char raw[N][sizeof(H)];
    bool made[N] = {};
    size_t owner[N] = {};
    H& h(size_t i) { return *reinterpret_cast<H*>(raw[i]); }
    unsigned mask() const
    {
        unsigned m = 0;
        for (size_t j = 0; j < N; j++)
            m |= 1u << owner[j];
        return m & ~1u;
    }
    size_t distinct() const
    {
        unsigned m = mask();
        return (m >> 1 & 1) + (m >> 2 & 1) + (m >> 3 & 1);
    }
    size_t fresh() const { unsigned m = mask(); return !(m & 2) ? 1 : !(m & 4) ? 2 : 3; }
    void agree()
    {
        size_t d = distinct();
        kt_check(kt_obj_count() == d, "C12: exactly the allocators that some handle refers to are alive");
        kt_check(kt_live_mallocs() == d, "C12: exactly the control blocks that some handle refers to are allocated");
    }
    void reach(size_t i)
    {
        probe.reset();
        h(i).allocate(8);
        kt_check(probe.allocs == (owner[i] ? 1u : 0u) && (!owner[i] || probe.lastid == owner[i]), "C12,C33: every handle acts on the allocator it was given or copied from");
    }
};
template<typename H, size_t N> static void histories()
{
    Handles<H, N> s;
    for (;;)
    {
        probe.reset();
        kt_loop(60);
        size_t i = kt_choice(N, "handle");
        size_t j = kt_choice(N, "other handle");
        if (!s.made[i])
        {
            for (size_t k = 0; k < i; k++)      // slots are interchangeable: fill the first free one
                if (!s.made[k])
                    kt_stop();
            if (i == j)
            {
                size_t id = s.fresh();
                size_t before = kt_live_mallocs();
                ::new ((void*)s.raw[i]) H(id);
                s.owner[i] = kt_live_mallocs() > before ? id : 0;
            }
            else
            {
                if (!s.made[j])
                    kt_stop();
                s.owner[i] = s.owner[j];
                if (kt_choice(2, "move"))
                {
                    ::new ((void*)s.raw[i]) H(std::move(s.h(j)));
                    s.owner[j] = 0;
                }
                else
                    ::new ((void*)s.raw[i]) H(s.h(j));
            }
            s.made[i] = true;
        }
        else
            switch (i == j ? kt_choice(3, "action") : 1 + kt_choice(2, "action"))
            {
            case 0:
                s.h(i).~H();
                memset(s.raw[i], 0, sizeof(H));
                s.made[i] = false;
                s.owner[i] = 0;
                break;
            case 1:
                if (!s.made[j])
                    kt_stop();
                s.h(i) = s.h(j);
                s.owner[i] = s.owner[j];
                break;
            case 2:
                if (!s.made[j])
                    kt_stop();
                if (i == j && !s.owner[i])
                    kt_stop();
                s.h(i) = std::move(s.h(j));
                if (i != j)
                {
                    s.owner[i] = s.owner[j];
                    s.owner[j] = 0;
                }
                break;
            }
        s.agree();
        if (s.made[i])
            s.reach(i);
        if (s.made[j])
            s.reach(j);
        if (s.made[i] && s.made[j])
        {
            bool eq = s.h(i) == s.h(j);
            kt_check(eq == (s.owner[i] == s.owner[j]) && (s.h(i) != s.h(j)) == !eq, "C17: handles are equal exactly when they refer to the same allocator");
        }
    }
}
HARNESS(life_shared, "C12 C17 C18 C33") { histories<shared<Tok>, 3>(); }
HARNESS(life_atomic, "C12 C13 C17 C18 C33") { histories<atomic_shared<Tok>, 2>(); }

// One thread holds `own` handles of a control block that other threads also refer to. Their
// references are an unknown that changes between any two accesses of the counter.
template<typename H> static void interference()
{
    kt_malloc_never_fails();
    Handles<H, 2> s;
    {
        // the first copy shows which location counts; both handles are then ours
        ::new ((void*)s.raw[0]) H(size_t(1));
        ::new ((void*)s.raw[1]) H(s.h(0));
        s.made[0] = s.made[1] = true;
        s.owner[0] = s.owner[1] = 1;
        kt_interference(2);
    }
    for (;;)
    {
        probe.reset();
        kt_loop(30);
        size_t i = kt_choice(2, "handle");
        size_t j = 1 - i;
        size_t before = s.owner[0] + s.owner[1];
        if (!before)
        {
            // all of our references are gone: the block is released by this thread or left to the others
            kt_check(kt_live_mallocs() == 0, "C12,C13: the thread that gives up its last reference releases the block or leaves it to another");
            kt_stop();
        }
        if (!s.made[i])
        {
            if (!s.made[j])
                kt_stop();
            s.owner[i] = s.owner[j];
            if (kt_choice(2, "move"))
            {
                ::new ((void*)s.raw[i]) H(std::move(s.h(j)));
                s.owner[j] = 0;
            }
            else
                ::new ((void*)s.raw[i]) H(s.h(j));
            s.made[i] = true;
        }
        else
            switch (kt_choice(4, "action"))
            {
            case 0:
                s.h(i).~H();
                memset(s.raw[i], 0, sizeof(H));
                s.made[i] = false;
                s.owner[i] = 0;
                break;
            case 1:
                if (!s.made[j])
                    kt_stop();
                s.h(i) = s.h(j);
                s.owner[i] = s.owner[j];
                break;
            case 2:
                if (!s.made[j])
                    kt_stop();
                s.h(i) = std::move(s.h(j));
                s.owner[i] = s.owner[j];
                s.owner[j] = 0;
                break;
            case 3:
                s.h(i) = s.h(i);
                break;
            }
        if (s.made[i] && s.owner[i])
        {
            probe.reset();
            s.h(i).allocate(8);
            kt_check(probe.allocs == 1 && probe.lastid == 1, "C13: a thread that holds a reference can use the allocator");
        }
    }
}
HARNESS(life_interference, "C12 C13") { interference<atomic_shared<Tok>>(); }
