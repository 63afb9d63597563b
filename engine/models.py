"""Models of the library functions the analysed code calls, and of the harness
intrinsics (kt_*) with which the witness units state the obligations."""
from lin import Sym, Lin, const, sym, ZERO, ONE, Infeasible, show
import absint
from absint import Bad, Dead, Split, Unsupported, finish, unwind, MAXOBJ, M64

T = {}


def model(*names):
    def d(f):
        for n in names:
            T[n] = f
        return f
    return d


def lookup(name):
    h = T.get(name)
    if h is not None:
        return h
    if name.startswith('llvm.'):
        for p, f in PREFIX:
            if name.startswith(p):
                return f
    return None


def args(I, st, fr, ins):
    return [I.val(st, fr, o) for o in ins.ops]


def cstr(I, st, p):
    h = I.find_region(st, p)
    if h is None:
        return '?'
    r, off = h
    g = I.m.globals.get(r.name)
    if g is not None and g.init is not None and g.init[0] == 'str' and not off.t:
        return g.init[1][off.c:].split(b'\0')[0].decode()
    return '?'


# ---------------------------------------------------------------- llvm intrinsics
def m_nop(I, st, fr, ins):
    finish(I, st, fr, ins)


def m_memcpy(I, st, fr, ins):
    a = args(I, st, fr, ins)
    I.memcpy(st, a[0], a[1], a[2], 'memcpy')
    finish(I, st, fr, ins, a[0])


def m_memmove(I, st, fr, ins):
    a = args(I, st, fr, ins)
    I.memcpy(st, a[0], a[1], a[2], 'memmove')
    finish(I, st, fr, ins, a[0])


def m_memset(I, st, fr, ins):
    a = args(I, st, fr, ins)
    n = I.canon_u(st, a[2], 64)
    if not I.eq0(st, n):
        r, off = I.resolve(st, a[0], n, 'memset writes', True)
        b = I.canon_u(st, st.facts.norm(a[1]), 32)
        if b.t:
            _, b = I.divmod_(st, b, 256)
        else:
            b = const(b.c & 255)
        off = st.facts.norm(off)
        I.put_segs(st, r, off, n, [(off, st.facts.norm(off.add(n)), 'B', b)])
    finish(I, st, fr, ins, a[0])


def m_typeid_for(I, st, fr, ins):
    finish(I, st, fr, ins, const(2))


def m_umulo(I, st, fr, ins):
    a = args(I, st, fr, ins)
    f = st.facts
    x, y = f.norm(a[0]), f.norm(a[1])
    if x.t and y.t:
        raise Unsupported('umul of unknowns')
    if not x.t:
        x, y = y, x
    w = 64
    x = I.canon_u(st, x, w)
    e = x.scale(y.c)
    o = not I.ge(st, e.neg().addc(M64 - 1))
    finish(I, st, fr, ins, [e, ONE if o else ZERO])


def m_uaddo(I, st, fr, ins):
    a = args(I, st, fr, ins)
    x = I.canon_u(st, a[0], 64)
    y = I.canon_u(st, a[1], 64)
    e = x.add(y)
    o = not I.ge(st, e.neg().addc(M64 - 1))
    finish(I, st, fr, ins, [e, ONE if o else ZERO])


def mk_minmax(pred):
    def f(I, st, fr, ins):
        a = args(I, st, fr, ins)
        w = ins.ty.w
        r = I.icmp(st, pred, a[0], a[1], w, False)
        finish(I, st, fr, ins, a[0] if r else a[1])
    return f


PREFIX = [
    ('llvm.memcpy', m_memcpy), ('llvm.memmove', m_memmove), ('llvm.memset', m_memset), ('llvm.lifetime', m_nop),
    ('llvm.assume', m_nop), ('llvm.dbg', m_nop), ('llvm.eh.typeid', m_typeid_for), ('llvm.umul.with.overflow', m_umulo),
    ('llvm.uadd.with.overflow', m_uaddo), ('llvm.umax', mk_minmax('uge')), ('llvm.umin', mk_minmax('ule')),
    ('llvm.smax', mk_minmax('sge')), ('llvm.smin', mk_minmax('sle')), ('llvm.experimental.noalias', m_nop),
]


@model('llvm.trap', 'abort')
def m_trap(I, st, fr, ins):
    raise Bad('abort', 'abort/trap reached')


T['memcpy'] = m_memcpy
T['memmove'] = m_memmove
T['memset'] = m_memset


@model('strlen')
def m_strlen(I, st, fr, ins):
    a = args(I, st, fr, ins)
    finish(I, st, fr, ins, const(len(cstr(I, st, a[0]))))


# ---------------------------------------------------------------- heap
def site(st):
    for f in reversed(st.frames):
        i = f.fn._blocks[f.bb].instrs[f.ip]
        if i.file.startswith('/repo'):
            return f"{i.file.split('/')[-1]}:{i.line}"
    return ''


@model('malloc')
def m_malloc(I, st, fr, ins):
    n = I.canon_u(st, args(I, st, fr, ins)[0], 64)
    ok = True
    may_fail = not st.ghost.get('malloc_ok')
    if n.t:
        big = st.facts.decide_ge(n.neg().addc(MAXOBJ))
        if big is None:
            raise Split([[('ge', n.neg().addc(MAXOBJ))], [('ge', n.addc(-MAXOBJ - 1))]])
        ok = big
    elif n.c > MAXOBJ:
        ok = False
    if may_fail or not ok:
        if ok:
            s2 = st.fork()
            s2.trace = s2.trace + ('malloc returns null',)
            finish(I, s2, s2.frames[-1], ins, ZERO)
            I.work.append(s2)
        else:
            finish(I, st, fr, ins, ZERO)
            return
    al, mod = st.ghost.get('malloc_align', (16, 16))
    st.nblk += 1
    for k in range(mod - al, -1, -al):
        s2 = st.fork() if k else st
        r = I.new_region(s2, n, 'heap', f"heap block from {site(s2)}", mod, 'U')
        r.base = r.base.addc(k)
        r.meta = {'malloc': True}
        finish(I, s2, s2.frames[-1], ins, r.base)
        if k:
            I.work.append(s2)


@model('kt_malloc_align')
def m_malloc_align(I, st, fr, ins):
    """malloc of the modelled platform aligns to this only; residues modulo the second argument are told apart"""
    a = args(I, st, fr, ins)
    st.ghost['malloc_align'] = (st.facts.norm(a[0]).c, st.facts.norm(a[1]).c)
    finish(I, st, fr, ins)


@model('posix_memalign')
def m_posix_memalign(I, st, fr, ins):
    a = args(I, st, fr, ins)
    al = st.facts.norm(a[1])
    if al.t:
        raise Unsupported('posix_memalign with an unknown alignment')
    n = I.canon_u(st, a[2], 64)
    r, off = I.resolve(st, a[0], const(8), 'posix_memalign stores its result', True)
    if al.c < 8 or al.c & (al.c - 1):
        finish(I, st, fr, ins, const(22))
        return
    fits = I.ge(st, n.neg().addc(MAXOBJ))
    if not fits or not st.ghost.get('malloc_ok'):
        s2 = st.fork()
        s2.trace = s2.trace + ('posix_memalign fails',)
        finish(I, s2, s2.frames[-1], ins, const(12))
        I.work.append(s2)
    if not fits:
        raise Dead()
    b = I.new_region(st, n, 'heap', f"heap block from {site(st)}", al.c, 'U')
    b.meta = {'malloc': True}
    I.write_val(st, st.mem[r.id], st.facts.norm(off), 8, b.base)
    finish(I, st, fr, ins, ZERO)


@model('_Znwm', '_Znam')
def m_new(I, st, fr, ins):
    n = I.canon_u(st, args(I, st, fr, ins)[0], 64)
    st.facts.assume_ge(n.neg().addc(MAXOBJ))
    r = I.new_region(st, n, 'heap', f"heap block from {site(st)}", 16, 'U')
    r.meta = {'new': True, 'size': n}
    finish(I, st, fr, ins, r.base)


def objs_inside(I, st, r):
    n = 0
    for (rid, off, sz, tag) in st.ghost.get('objs', ()):
        if rid == r.id:
            n += 1
    return n


def kill_region(I, st, r, how):
    k = objs_inside(I, st, r)
    if r.id == st.ghost.get('needacq'):
        raise Bad('weak-order', f"{how} of {r.name} after the last decrement, which does not acquire what other threads did before theirs")
    if 'rc' in st.ghost and st.ghost['rc'][0] == r.id:
        seen = st.ghost.get('rcseen')
        if seen is not None and st.ghost['rc'][3].c <= 1 and st.facts.decide_eq(seen.addc(-1)):
            st.ghost.pop('rc')       # the thread saw, acquiring, that it holds the only reference
        else:
            raise Bad('early-release', f"{how} of {r.name} by a thread that did not see the use count reach zero")
    for rid, lo, ln in st.ghost.get('held', ()):
        if rid == r.id:
            raise Bad('live-block-released', f"{how}: {r.name} is released while the client still holds a block in it")
    r2 = r.clone()
    r2.live = False
    st.mem[r.id] = r2
    if k:
        raise Bad('object-leak', f"{how}: storage of {r.name} released while {k} object(s) in it were never destroyed")


def do_free(I, st, p, how, need):
    f = st.facts
    p = f.norm(p)
    h = I.find_region(st, p)
    if h is None:
        d = f.decide_eq(p)
        if d is None:
            raise Split([[('eq', p)], [('ne', p)]])
        if d:
            return None
        raise Bad('bad-free', f"{how} of {show(p)}, which is not the start of an allocated block")
    r, off = h
    if r.kind != 'heap' or not any(k in r.meta for k in need):
        raise Bad('bad-free', f"{how} of an address inside {r.name}, which was not obtained from the matching allocation")
    if not r.live:
        raise Bad('double-free', f"{how} of {r.name}, which was already released")
    if not I.eq0(st, off):
        raise Bad('bad-free', f"{how} of {r.name} at offset {show(f.norm(off))}, not its start")
    return r


@model('free')
def m_free(I, st, fr, ins):
    r = do_free(I, st, args(I, st, fr, ins)[0], 'free', ('malloc',))
    if r is not None:
        kill_region(I, st, r, 'free')
    finish(I, st, fr, ins)


@model('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm')
def m_delete(I, st, fr, ins):
    a = args(I, st, fr, ins)
    r = do_free(I, st, a[0], 'operator delete', ('new',))
    if r is not None:
        if len(a) > 1 and not I.eq0(st, a[1].sub(r.meta['size'])):
            raise Bad('size-mismatch', f"sized delete of {r.name} with {show(st.facts.norm(a[1]))} bytes, allocated with {show(st.facts.norm(r.meta['size']))}")
        kill_region(I, st, r, 'operator delete')
    finish(I, st, fr, ins)


# ---------------------------------------------------------------- process / exceptions
@model('raise')
def m_raise(I, st, fr, ins):
    raise Bad('assertion-fired', 'KTL_ASSERT fires (SIGTRAP)')


@model('_ZSt9terminatev', '__clang_call_terminate')
def m_terminate(I, st, fr, ins):
    if st.ghost.get('terminate_ok'):
        raise Dead()
    raise Bad('terminate', 'std::terminate reached: an exception leaves a function declared noexcept')


@model('__cxa_begin_catch')
def m_begin_catch(I, st, fr, ins):
    finish(I, st, fr, ins, st.exc[0])


@model('__cxa_end_catch')
def m_end_catch(I, st, fr, ins):
    finish(I, st, fr, ins)


@model('__cxa_rethrow')
def m_rethrow(I, st, fr, ins):
    unwind(I, st, st.exc)


@model('__cxa_allocate_exception')
def m_alloc_exc(I, st, fr, ins):
    a = args(I, st, fr, ins)
    r = I.new_region(st, a[0], 'exc', 'exception object', 16)
    finish(I, st, fr, ins, r.base)


@model('__cxa_free_exception')
def m_free_exc(I, st, fr, ins):
    finish(I, st, fr, ins)


@model('__cxa_throw')
def m_throw(I, st, fr, ins):
    a = args(I, st, fr, ins)
    ti = None
    if ins.ops[1][0] == 'g':
        ti = ins.ops[1][1]
    unwind(I, st, (a[0], ti))


@model('kt_throw')
def m_kt_throw(I, st, fr, ins):
    unwind(I, st, (const(0x500000000000), None))


@model('_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt20__throw_length_errorPKc',
       '_ZSt20__throw_system_errori', '_ZSt19__throw_logic_errorPKc')
def m_std_throw(I, st, fr, ins):
    unwind(I, st, (const(0x500000000010), None))


@model('__cxa_guard_acquire')
def m_guard(I, st, fr, ins):
    p = args(I, st, fr, ins)[0]
    r, off = I.resolve(st, p, const(8), 'guard')
    done = st.ghost.get(('guard', r.id))
    finish(I, st, fr, ins, ZERO if done else ONE)


@model('__cxa_guard_release')
def m_guard_rel(I, st, fr, ins):
    p = args(I, st, fr, ins)[0]
    r, off = I.resolve(st, p, const(8), 'guard')
    st.ghost[('guard', r.id)] = True
    I.write_val(st, r, st.facts.norm(off), 1, ONE)
    finish(I, st, fr, ins)


T['__cxa_guard_abort'] = m_nop


@model('__cxa_atexit')
def m_atexit(I, st, fr, ins):
    finish(I, st, fr, ins, ZERO)


# ---------------------------------------------------------------- locks
def lock_key(I, st, p):
    h = I.find_region(st, p)
    if h is None:
        raise Bad('bad-lock', 'lock operation on an address that holds no mutex')
    r, off = h
    if not r.live:
        raise Bad('use-after-free', f"lock operation on a mutex in released {r.name}")
    return (r.id, st.facts.norm(off))


@model('pthread_mutex_lock', '__gthrw_pthread_mutex_lock', '_ZL26__gthrw_pthread_mutex_lockP15pthread_mutex_t')
def m_lock(I, st, fr, ins):
    p = args(I, st, fr, ins)[0]
    k = lock_key(I, st, p)
    if k in st.locks:
        raise Bad('self-deadlock', 'mutex locked while the same thread already holds it')
    st.locks = st.locks + (k,)
    I.events['lock'] = I.events.get('lock', 0) + 1
    finish(I, st, fr, ins, ZERO)


@model('pthread_mutex_unlock', '__gthrw_pthread_mutex_unlock', '_ZL28__gthrw_pthread_mutex_unlockP15pthread_mutex_t')
def m_unlock(I, st, fr, ins):
    p = args(I, st, fr, ins)[0]
    k = lock_key(I, st, p)
    if k not in st.locks:
        raise Bad('unlock-not-held', 'mutex unlocked without being held')
    l = list(st.locks)
    l.remove(k)
    st.locks = tuple(l)
    I.events['unlock'] = I.events.get('unlock', 0) + 1
    finish(I, st, fr, ins, ZERO)


@model('pthread_mutex_trylock', '_ZL29__gthrw_pthread_mutex_trylockP15pthread_mutex_t')
def m_trylock(I, st, fr, ins):
    p = args(I, st, fr, ins)[0]
    k = lock_key(I, st, p)
    s2 = st.fork()
    finish(I, s2, s2.frames[-1], ins, const(16))
    I.work.append(s2)
    if k in st.locks:
        raise Dead()
    st.locks = st.locks + (k,)
    finish(I, st, fr, ins, ZERO)


@model('_ZL18__gthread_active_pv', '__gthread_active_p')
def m_active(I, st, fr, ins):
    finish(I, st, fr, ins, ONE)


@model('kt_locks_held')
def m_locks_held(I, st, fr, ins):
    finish(I, st, fr, ins, const(len(st.locks)))


@model('kt_lock_addr')
def m_lock_addr(I, st, fr, ins):
    """address of the lock acquired last and still held (null when none)"""
    if not st.locks:
        finish(I, st, fr, ins, ZERO)
    else:
        rid, off = st.locks[-1]
        finish(I, st, fr, ins, st.mem[rid].base.add(off))


# ---------------------------------------------------------------- harness intrinsics
def newinput(I, st, name, lo, hi):
    n = sum(1 for a, _ in st.inputs if a == name or a.startswith(name + '~'))
    nm = name if n == 0 else f"{name}~{n + 1}"
    key = ('input', nm, lo, hi)
    # one symbol per (name, occurrence): states that fork later share it
    s = I.selmemo.get(key)
    if s is None:
        s = I.selmemo[key] = I.newsym(nm, lo, hi, ('input', nm))
    v = sym(s)
    st.inputs = st.inputs + ((nm, v),)
    return v


@model('kt_size')
def m_kt_size(I, st, fr, ins):
    a = args(I, st, fr, ins)
    finish(I, st, fr, ins, newinput(I, st, cstr(I, st, a[0]), 0, M64 - 1))


@model('kt_u32')
def m_kt_u32(I, st, fr, ins):
    a = args(I, st, fr, ins)
    finish(I, st, fr, ins, newinput(I, st, cstr(I, st, a[0]), 0, (1 << 32) - 1))


@model('kt_u8')
def m_kt_u8(I, st, fr, ins):
    a = args(I, st, fr, ins)
    finish(I, st, fr, ins, newinput(I, st, cstr(I, st, a[0]), 0, 255))


@model('kt_range')
def m_kt_range(I, st, fr, ins):
    a = args(I, st, fr, ins)
    f = st.facts
    lo, hi = f.norm(I.canon_u(st, a[0], 64)), f.norm(I.canon_u(st, a[1], 64))
    v = newinput(I, st, cstr(I, st, a[2]), 0 if lo.t else lo.c, M64 - 1 if hi.t else hi.c)
    if lo.t:
        f.assume_ge(v.sub(lo))
    if hi.t:
        f.assume_ge(hi.sub(v))
    finish(I, st, fr, ins, v)


@model('kt_choice')
def m_kt_choice(I, st, fr, ins):
    a = args(I, st, fr, ins)
    n = st.facts.norm(a[0]).c
    nm = cstr(I, st, a[1])
    for k in range(n - 1, 0, -1):
        s2 = st.fork()
        s2.trace = s2.trace + (f"{nm} = {k}",)
        finish(I, s2, s2.frames[-1], ins, const(k))
        I.work.append(s2)
    st.trace = st.trace + (f"{nm} = 0",)
    finish(I, st, fr, ins, ZERO)


@model('kt_assume')
def m_kt_assume(I, st, fr, ins):
    a = args(I, st, fr, ins)
    if not I.truth(st, a[0]):
        raise Dead()
    finish(I, st, fr, ins)


@model('kt_check')
def m_kt_check(I, st, fr, ins):
    a = args(I, st, fr, ins)
    lab = cstr(I, st, a[1])
    ok = I.truth(st, a[0])
    c = I.checks.setdefault(lab, [0, 0])
    c[0] += 1
    if ok:
        c[1] += 1
    else:
        I.report(st, 'obligation', lab, lab)
        # an obligation of another property does not hide what follows from it
        mine = I.o.get('prop')
        if mine is None or mine in lab.split(':')[0] or I.foreign.get(lab, 0) >= 12:
            raise Dead()
        I.foreign[lab] = I.foreign.get(lab, 0) + 1
    finish(I, st, fr, ins)


@model('kt_loop')
def m_kt_loop(I, st, fr, ins):
    """head of a client loop: (bound).  The state is explored further only when no
    explored state with the same shape contains it."""
    import fix
    import heapq
    a = args(I, st, fr, ins)
    bound = st.facts.norm(a[0]).c
    bound = I.o.get('loop_bound') or bound
    key = ('loop', id(ins))
    n = st.ghost.get(('loopn', ins.bb, ins.idx), 0)
    gk = ('loopn', ins.bb, ins.idx)
    st.ghost.pop(gk, None)
    I.fixstat['heads'] += 1
    fix.simplify(I, st)
    C = fix.Canon(I, st)
    vis = I.visited.get(C.key)
    if vis is None:
        vis = I.visited[C.key] = []
        I.fixstat['shapes'] += 1
    for rec in vis:
        if fix.subsumed(st.facts, C.cells, rec):
            I.fixstat['subsumed'] += 1
            I.paths += 1
            return raise_dead()
    rec = fix.project(st.facts, C.cells)
    if rec is not None:
        vis.append(rec)
    else:
        I.fixstat['inexact'] = I.fixstat.get('inexact', 0) + 1
    if n >= bound:
        I.fixstat['bounded'] += 1
        return raise_dead()
    st.ghost[gk] = n + 1
    I.fixstat['levels'] = max(I.fixstat['levels'], n + 1)
    finish(I, st, fr, ins)
    I.fixseq += 1
    heapq.heappush(I.fixq, (n, I.fixseq, st))
    raise absint.Parked()


def raise_dead():
    raise Dead()


@model('kt_note')
def m_kt_note(I, st, fr, ins):
    a = args(I, st, fr, ins)
    t = cstr(I, st, a[0])
    if len(a) > 1:
        t += f" {show(st.facts.norm(a[1]))}"
    st.trace = st.trace + (t,)
    finish(I, st, fr, ins)


@model('kt_stop')
def m_kt_stop(I, st, fr, ins):
    raise Dead()


@model('kt_malloc_never_fails')
def m_mnf(I, st, fr, ins):
    st.ghost['malloc_ok'] = True
    finish(I, st, fr, ins)


@model('kt_terminate_ok')
def m_tok(I, st, fr, ins):
    st.ghost['terminate_ok'] = True
    finish(I, st, fr, ins)


@model('kt_block')
def m_kt_block(I, st, fr, ins):
    """fresh storage of n bytes with arbitrary content; n above MAXOBJ is impossible"""
    a = args(I, st, fr, ins)
    n = I.canon_u(st, a[0], 64)
    st.facts.assume_ge(n.neg().addc(MAXOBJ))
    al = st.facts.norm(a[1]).c
    nm = cstr(I, st, a[2])
    r = I.new_region(st, n, 'heap', nm, al, 'H')
    r.meta = {'kt': True}
    finish(I, st, fr, ins, r.base)


@model('kt_raw_block')
def m_kt_raw_block(I, st, fr, ins):
    """like kt_block, but the content is uninitialised"""
    a = args(I, st, fr, ins)
    n = I.canon_u(st, a[0], 64)
    st.facts.assume_ge(n.neg().addc(MAXOBJ))
    al = st.facts.norm(a[1]).c
    r = I.new_region(st, n, 'heap', cstr(I, st, a[2]), al, 'U')
    r.meta = {'kt': True}
    finish(I, st, fr, ins, r.base)


@model('kt_too_big')
def m_kt_too_big(I, st, fr, ins):
    n = I.canon_u(st, args(I, st, fr, ins)[0], 64)
    r = I.ge(st, n.addc(-MAXOBJ - 1))
    finish(I, st, fr, ins, ONE if r else ZERO)


@model('kt_release')
def m_kt_release(I, st, fr, ins):
    r = do_free(I, st, args(I, st, fr, ins)[0], 'deallocate', ('kt',))
    if r is None:
        raise Bad('bad-free', 'null handed back to the underlying allocator as a block')
    kill_region(I, st, r, 'deallocate')
    finish(I, st, fr, ins)


@model('kt_is_block')
def m_kt_is_block(I, st, fr, ins):
    """1 when p is the start of a live kt_block"""
    p = args(I, st, fr, ins)[0]
    h = I.find_region(st, p)
    ok = False
    if h is not None and h[0].kind == 'heap' and 'kt' in h[0].meta and h[0].live:
        ok = I.eq0(st, h[1])
    finish(I, st, fr, ins, ONE if ok else ZERO)


@model('kt_live')
def m_kt_live(I, st, fr, ins):
    p = args(I, st, fr, ins)[0]
    h = I.find_region(st, p)
    finish(I, st, fr, ins, ONE if h is not None and h[0].live else ZERO)


@model('kt_room')
def m_kt_room(I, st, fr, ins):
    """bytes from p to the end of the live object it points into (0 when none)"""
    p = args(I, st, fr, ins)[0]
    h = I.find_region(st, p)
    if h is None or not h[0].live:
        finish(I, st, fr, ins, ZERO)
        return
    r, off = h
    if not I.ge(st, off) or not I.ge(st, r.size.sub(off)):
        finish(I, st, fr, ins, ZERO)
        return
    finish(I, st, fr, ins, st.facts.norm(r.size.sub(off)))


@model('kt_same_object')
def m_kt_same(I, st, fr, ins):
    a = args(I, st, fr, ins)
    x = I.find_region(st, a[0])
    y = I.find_region(st, a[1])
    finish(I, st, fr, ins, ONE if x and y and x[0].id == y[0].id else ZERO)


@model('kt_steps')
def m_steps(I, st, fr, ins):
    finish(I, st, fr, ins, const(st.steps))


@model('kt_live_blocks')
def m_live_blocks(I, st, fr, ins):
    n = sum(1 for r in st.mem.values() if r.kind == 'heap' and r.live and 'kt' in r.meta)
    finish(I, st, fr, ins, const(n))


@model('kt_live_mallocs')
def m_live_mallocs(I, st, fr, ins):
    n = sum(1 for r in st.mem.values() if r.kind == 'heap' and r.live and 'malloc' in r.meta)
    finish(I, st, fr, ins, const(n))


@model('kt_live_news')
def m_live_news(I, st, fr, ins):
    n = sum(1 for r in st.mem.values() if r.kind == 'heap' and r.live and 'new' in r.meta)
    finish(I, st, fr, ins, const(n))


@model('kt_set')
def m_kt_set(I, st, fr, ins):
    a = args(I, st, fr, ins)
    h = I.find_region(st, a[0])
    if h is None:
        raise Unsupported('kt_set without region')
    r = h[0].clone()
    r.meta = dict(r.meta)
    r.meta[st.facts.norm(a[1]).c] = a[2]
    st.mem[r.id] = r
    finish(I, st, fr, ins)


@model('kt_get')
def m_kt_get(I, st, fr, ins):
    a = args(I, st, fr, ins)
    h = I.find_region(st, a[0])
    v = ZERO
    if h is not None:
        v = h[0].meta.get(st.facts.norm(a[1]).c, ZERO)
    finish(I, st, fr, ins, v)


@model('kt_access')
def m_kt_access(I, st, fr, ins):
    """obligation: [p, p+n) lies inside one live object"""
    a = args(I, st, fr, ins)
    lab = cstr(I, st, a[2])
    n = I.canon_u(st, a[1], 64)
    c = I.checks.setdefault(lab, [0, 0])
    try:
        if not I.eq0(st, n):
            I.resolve(st, a[0], n, 'access')
    except Bad as b:
        c[0] += 1
        I.report(st, 'obligation', f"{lab} ({b.msg})", lab)
        raise Dead()
    c[0] += 1
    c[1] += 1
    finish(I, st, fr, ins)


@model('kt_hold')
def m_kt_hold(I, st, fr, ins):
    """the client now owns [p, p+n): obligation that it overlaps no block it already holds"""
    a = args(I, st, fr, ins)
    lab = cstr(I, st, a[2])
    n = I.canon_u(st, a[1], 64)
    c = I.checks.setdefault(lab, [0, 0])
    if not I.eq0(st, n):
        try:
            r, off = I.resolve(st, a[0], n, 'access')
        except Bad as b:
            c[0] += 1
            I.report(st, 'obligation', f"{lab} ({b.msg})", lab)
            raise Dead()
        off = st.facts.norm(off)
        held = st.ghost.get('held', ())
        for rid, lo, ln in held:
            if rid == r.id and not I.ge(st, lo.sub(off).sub(n)) and not I.ge(st, off.sub(lo).sub(ln)):
                c[0] += 1
                I.report(st, 'obligation', f"{lab}: [{show(off)}, +{show(st.facts.norm(n))}) of {r.name} overlaps the live block "
                         f"[{show(st.facts.norm(lo))}, +{show(st.facts.norm(ln))})", lab)
                raise Dead()
        st.ghost['held'] = held + ((r.id, off, n),)
    c[0] += 1
    c[1] += 1
    finish(I, st, fr, ins)


@model('kt_unhold')
def m_kt_unhold(I, st, fr, ins):
    a = args(I, st, fr, ins)
    h = I.find_region(st, a[0])
    n = I.canon_u(st, a[1], 64)
    if h is not None and not I.eq0(st, n):
        r, off = h
        out = list(st.ghost.get('held', ()))
        for i, (rid, lo, ln) in enumerate(out):
            if rid == r.id and (lo == st.facts.norm(off) or st.facts.decide_eq(lo.sub(off))):
                del out[i]
                break
        st.ghost['held'] = tuple(out)
    finish(I, st, fr, ins)


@model('kt_interference')
def m_kt_interference(I, st, fr, ins):
    """from here on other threads change the counter that was last updated atomically; (own references)"""
    a = args(I, st, fr, ins)
    k = st.ghost.get('lastrmw')
    if k is None or k[0] not in st.mem or not st.mem[k[0]].live:
        raise Bad('non-atomic-count', 'copying the handle did not change its use count by an atomic read-modify-write')
    st.ghost['rc'] = (k[0], k[1], k[2], st.facts.norm(a[0]))
    finish(I, st, fr, ins)


@model('kt_havoc')
def m_kt_havoc(I, st, fr, ins):
    a = args(I, st, fr, ins)
    n = I.canon_u(st, a[1], 64)
    if not I.eq0(st, n):
        r, off = I.resolve(st, a[0], n, 'client write', True)
        off = st.facts.norm(off)
        I.put_segs(st, r, off, n, [(off, st.facts.norm(off.add(n)), 'C', (I.newarr('client'), ZERO))])
    finish(I, st, fr, ins)


@model('kt_content')
def m_kt_content(I, st, fr, ins):
    """copy of a ghost array: fill [p,p+n) with the content named by the string (same name, same content)"""
    a = args(I, st, fr, ins)
    n = I.canon_u(st, a[1], 64)
    if not I.eq0(st, n):
        r, off = I.resolve(st, a[0], n, 'client write', True)
        off = st.facts.norm(off)
        I.put_segs(st, r, off, n, [(off, st.facts.norm(off.add(n)), 'C', ('$' + cstr(I, st, a[2]), ZERO))])
    finish(I, st, fr, ins)


@model('kt_content_at')
def m_kt_content_at(I, st, fr, ins):
    """value of the w-byte element at byte index idx of the named ghost content"""
    a = args(I, st, fr, ins)
    w = st.facts.norm(a[2]).c
    finish(I, st, fr, ins, I.sel(st, '$' + cstr(I, st, a[0]), st.facts.norm(a[1]), w))


@model('kt_owns_fn')
def m_kt_owns(I, st, fr, ins):
    """uninterpreted predicate owns(id, p): same arguments, same answer"""
    a = args(I, st, fr, ins)
    f = st.facts
    key = ('owns', f.norm(a[0]), f.norm(a[1]))
    s = I.selmemo.get(key)
    if s is None:
        s = I.selmemo[key] = I.newsym(f"owns({show(key[1])},{show(key[2])})", 0, 1, ('input', 'owns'))
    v = sym(s)
    if not any(e == v for _, e in st.inputs):
        st.inputs = st.inputs + ((f"owns({show(key[1])},{show(key[2])})", v),)
    finish(I, st, fr, ins, v)


# ---- element typestate: objects with non-trivial lifetime
def obj_find(I, st, p):
    f = st.facts
    h = I.find_region(st, p)
    if h is None:
        return None, None, None
    r, off = h
    off = f.norm(off)
    for i, (rid, o, sz, tag) in enumerate(st.ghost.get('objs', ())):
        if rid == r.id and I.eq0(st, o.sub(off)):
            return r, off, i
    return r, off, None


@model('kt_obj_new')
def m_obj_new(I, st, fr, ins):
    a = args(I, st, fr, ins)
    sz = st.facts.norm(a[1]).c
    I.resolve(st, a[0], const(sz), 'construction', True)
    r, off, i = obj_find(I, st, a[0])
    if i is not None:
        raise Bad('double-construct', f"object constructed over a live object in {r.name}")
    st.ghost['objs'] = st.ghost.get('objs', ()) + ((r.id, off, sz, 'live'),)
    finish(I, st, fr, ins)


@model('kt_obj_del')
def m_obj_del(I, st, fr, ins):
    a = args(I, st, fr, ins)
    I.resolve(st, a[0], const(1), 'destruction')
    r, off, i = obj_find(I, st, a[0])
    if i is None:
        raise Bad('destroy-dead', f"destructor runs on storage that holds no live object ({r.name})")
    o = list(st.ghost['objs'])
    del o[i]
    st.ghost['objs'] = tuple(o)
    finish(I, st, fr, ins)


@model('kt_obj_use')
def m_obj_use(I, st, fr, ins):
    """the object must be alive; (p, what)"""
    a = args(I, st, fr, ins)
    what = cstr(I, st, a[1])
    I.resolve(st, a[0], const(1), what)
    r, off, i = obj_find(I, st, a[0])
    if i is None:
        raise Bad('dead-object', f"{what} an object whose lifetime has ended or not begun ({r.name})")
    finish(I, st, fr, ins)


@model('kt_obj_count')
def m_obj_count(I, st, fr, ins):
    finish(I, st, fr, ins, const(len(st.ghost.get('objs', ()))))


@model('kt_concretize')
def m_kt_concretize(I, st, fr, ins):
    """partition on the value of a small quantity: (value, max)"""
    a = args(I, st, fr, ins)
    f = st.facts
    e = f.norm(a[0])
    m = f.norm(a[1]).c
    if e.t:
        for k in range(m + 1):
            if I.eq0(st, e.addc(-k)):
                finish(I, st, fr, ins, const(k))
                return
        raise Dead()
    finish(I, st, fr, ins, e)


def unknown_call(I, st, fr, ins, name, a):
    I.ext_unknown[name] = I.ext_unknown.get(name, 0) + 1
    st.exact = False
    t = ins.ty
    if t.k == 'void':
        finish(I, st, fr, ins)
        return
    if t.k in ('int', 'ptr', 'fp'):
        finish(I, st, fr, ins, I.opaque(st, f"ret:{name}", t.w or 64, f"unmodelled call {name}"))
        return
    raise Unsupported(f"call of {name}")
