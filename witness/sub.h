// Model sub-allocator: any behaviour a correct allocator may show.
// Before inclusion a unit defines SUBP, the properties its misuse counts against.
#pragma once
#include "model.h"

enum : unsigned { OWNS = 1, MAXS = 2, CONS = 4, THROW = 8, NOFAIL = 16, SIZET32 = 32 };
enum : size_t { K_OWNER = 1, K_SIZE = 2 };

struct Probe
{
    size_t allocs, deallocs, owns, maxs, cons, dest;   // calls since reset
    size_t lastn;
    const void* lastp;
    size_t lastid;
    void* lastr;      // last answer of allocate
    bool lasto;       // last answer of owns
    bool thrown;      // an operation has thrown
    void reset() { thrown = false; allocs = deallocs = owns = maxs = cons = dest = 0; lastn = 0; lastp = nullptr; lastid = 0; lastr = nullptr; lasto = false; }
};
inline Probe probe;

[[noreturn]] inline void sub_throws() { probe.thrown = true; kt_throw(); }

// a unit that analyses locking defines SUBLOCK: the calls must happen under the lock
#ifdef SUBLOCK
inline const void* sub_lock = nullptr;
#endif
inline void sub_locked()
{
#ifdef SUBLOCK
    kt_check(kt_locks_held() == 1, SUBLOCK ": the wrapped allocator is used only while its lock is held");
    if (!sub_lock)
        sub_lock = kt_lock_addr();
    kt_check(sub_lock == kt_lock_addr(), SUBLOCK ": all operations of an instance use the same lock");
#endif
}

inline void* sub_allocate(size_t id, unsigned caps, size_t n, size_t limit)
{
    probe.allocs++;
    sub_locked();
    probe.lastn = n;
    probe.lastid = id;
    if ((caps & THROW) && kt_choice(2, "sub throws"))
        sub_throws();
    if (!(caps & NOFAIL) && kt_choice(2, "sub fails"))
        return nullptr;
    if (n > limit || kt_too_big(n))
        return nullptr;
    void* p = kt_block(n, AL, "block of the underlying allocator");
    kt_set(p, K_OWNER, id);
    kt_set(p, K_SIZE, n);
    probe.lastr = p;
    return p;
}
inline void sub_deallocate(size_t id, unsigned caps, void* p, size_t n)
{
    probe.deallocs++;
    sub_locked();
    probe.lastp = p;
    probe.lastn = n;
    probe.lastid = id;
    kt_check(kt_is_block(p), SUBP ": the underlying allocator gets back the start of a block that is still allocated");
    kt_check(kt_get(p, K_OWNER) == id, SUBP ": a block goes back to the allocator that produced it");
    kt_check(kt_get(p, K_SIZE) == n, SUBP ": a block goes back with the size it was requested with");
    kt_release(p);
    if ((caps & THROW) && kt_choice(2, "sub throws"))
        sub_throws();
}

template<unsigned Caps> struct SubBase
{
    size_t id;
    size_t limit;
    void* allocate(size_t n) noexcept(!(Caps & THROW)) { return sub_allocate(id, Caps, n, limit); }
    void deallocate(void* p, size_t n) noexcept(!(Caps & THROW)) { sub_deallocate(id, Caps, p, n); }
    bool operator==(const SubBase& o) const noexcept { return id == o.id; }
    bool operator!=(const SubBase& o) const noexcept { return id != o.id; }
};
template<unsigned Caps, bool = (Caps & OWNS) != 0> struct SubOwns : SubBase<Caps> {};
template<unsigned Caps> struct SubOwns<Caps, true> : SubBase<Caps>
{
    bool owns(void* p) const noexcept(!(Caps & THROW))
    {
        probe.owns++;
        probe.lastp = p;
        probe.lastid = this->id;
        sub_locked();
        if ((Caps & THROW) && kt_choice(2, "sub throws"))
            sub_throws();
        return probe.lasto = kt_live(p) && kt_get(p, K_OWNER) == this->id;
    }
};
template<unsigned Caps, bool = (Caps & MAXS) != 0> struct SubMax : SubOwns<Caps> {};
template<unsigned Caps> struct SubMax<Caps, true> : SubOwns<Caps>
{
    size_t max_size() const noexcept(!(Caps & THROW)) {
        probe.maxs++;
        if ((Caps & THROW) && kt_choice(2, "sub throws"))
            sub_throws();
        return this->limit;
    }
};
// construct/destroy leave a mark so that the caller can tell who did it
template<unsigned Caps, bool = (Caps & CONS) != 0> struct SubCons : SubMax<Caps> {};
template<unsigned Caps> struct SubCons<Caps, true> : SubMax<Caps>
{
    template<typename T, typename... Args>
    void construct(T* p, Args&&... args) noexcept(!(Caps & THROW))
    {
        probe.cons++;
        probe.lastp = p;
        probe.lastid = this->id;
        if ((Caps & THROW) && kt_choice(2, "sub throws"))
            sub_throws();
        ::new ((void*)p) T(std::forward<Args>(args)...);
    }
    template<typename T>
    void destroy(T* p) noexcept(!(Caps & THROW))
    {
        probe.dest++;
        probe.lastp = p;
        probe.lastid = this->id;
        p->~T();
        if ((Caps & THROW) && kt_choice(2, "sub throws"))
            sub_throws();
    }
};

constexpr size_t UNLIMITED = ~size_t(0);

// an allocator with instance identity; copies share the identity (like a handle)
template<unsigned Caps, size_t DefaultId = 1> struct Sub : SubCons<Caps>
{
    Sub() noexcept { this->id = DefaultId; this->limit = UNLIMITED; }
    explicit Sub(size_t i) noexcept { this->id = i; this->limit = UNLIMITED; }
    Sub(size_t i, size_t lim) noexcept { this->id = i; this->limit = lim; }
};

// non-trivial element: typestate of every object is tracked
struct Obj
{
    size_t v;
    explicit Obj(size_t x) : v(x) { kt_obj_new(this, sizeof(Obj)); }
    Obj(const Obj& o) noexcept : v(o.v) { kt_obj_use(&o, "copy from"); kt_obj_new(this, sizeof(Obj)); }
    Obj(Obj&& o) noexcept : v(o.v) { kt_obj_use(&o, "move from"); kt_obj_new(this, sizeof(Obj)); }
    Obj& operator=(const Obj& o) noexcept { kt_obj_use(this, "assign to"); kt_obj_use(&o, "copy from"); v = o.v; return *this; }
    Obj& operator=(Obj&& o) noexcept { kt_obj_use(this, "assign to"); kt_obj_use(&o, "move from"); v = o.v; return *this; }
    ~Obj() noexcept { kt_obj_del(this); }
};

// records what its arguments were: where they are and as what they arrived
struct Src { size_t v; };
struct Fwd
{
    const void* from[2];
    int how[2];
    template<typename T> static constexpr int kind() { return std::is_lvalue_reference<T>::value ? (std::is_const<std::remove_reference_t<T>>::value ? 1 : 2) : (std::is_const<std::remove_reference_t<T>>::value ? 3 : 4); }
    template<typename A, typename B> Fwd(A&& a, B&& b) noexcept : from{ &a, &b }, how{ kind<A>(), kind<B>() } {}
};
template<typename W> inline void forwards(W& w, void* mem)
{
    Src x{ 1 };
    const Src y{ 2 };
    Fwd* f = (Fwd*)mem;
    w.construct(f, x, y);
    kt_check(f->from[0] == &x && f->how[0] == 2 && f->from[1] == &y && f->how[1] == 1, "C11,C19: construct passes lvalue arguments on as they are");
    w.destroy(f);
    w.construct(f, std::move(y), std::move(x));
    kt_check(f->from[0] == &y && f->how[0] == 3 && f->from[1] == &x && f->how[1] == 4, "C11,C19: construct passes rvalue arguments on as they are");
    w.destroy(f);
}
