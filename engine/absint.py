"""Abstract interpreter over LLVM IR.

Abstract state = call stack of SSA environments (values are linear forms over
symbols) x region memory (ordered segments with linear bounds) x constraint store
(lin.Facts).  States are partitioned by control history; a comparison whose
outcome is not implied by the constraints partitions the state in two.
Nothing is executed on concrete inputs and no SMT solver is used.
"""
import os
import sys
import time
from lin import Sym, Lin, const, sym, ZERO, ONE, Facts, Infeasible, show
import llvmir

M64 = 1 << 64
MAXOBJ = 1 << 46
LOWADDR = 1 << 16


class Split(Exception):
    """the outcome is not determined: list of alternatives (constraint lists)"""

    def __init__(self, alts):
        self.alts = alts


class Dead(Exception):
    """the path ends here (quietly)"""


class Parked(Exception):
    """the state waits in the queue of loop heads"""


class Bad(Exception):
    """the path ends with a violation of a built-in rule"""

    def __init__(self, rule, msg):
        self.rule = rule
        self.msg = msg


class Unsupported(Exception):
    pass


class Region:
    __slots__ = ('id', 'base', 'bsym', 'align', 'size', 'kind', 'live', 'name', 'segs', 'meta', 'const', 'shadow')

    def clone(self):
        r = Region()
        r.id = self.id
        r.base = self.base
        r.bsym = self.bsym
        r.align = self.align
        r.size = self.size
        r.kind = self.kind
        r.live = self.live
        r.name = self.name
        r.segs = self.segs
        r.meta = self.meta
        r.const = self.const
        r.shadow = self.shadow
        return r


class Frame:
    __slots__ = ('fn', 'regs', 'bb', 'ip', 'prev', 'call', 'allocas', 'loops')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.regs = dict(self.regs)
        f.bb = self.bb
        f.ip = self.ip
        f.prev = self.prev
        f.call = self.call
        f.allocas = list(self.allocas)
        f.loops = dict(self.loops)
        return f


class State:
    __slots__ = ('frames', 'mem', 'facts', 'exact', 'inputs', 'trace', 'locks', 'order', 'exc', 'ghost', 'steps',
                 'opq', 'nblk', 'wid')

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.exact = self.exact
        s.inputs = self.inputs
        s.trace = self.trace
        s.locks = self.locks
        s.order = self.order
        s.exc = self.exc
        s.ghost = dict(self.ghost)
        s.steps = self.steps
        s.opq = self.opq
        s.nblk = self.nblk
        s.wid = self.wid
        return s


def is_lin(v):
    return isinstance(v, Lin)


class Interp:
    def __init__(self, module, entry, opts=None):
        self.m = module
        self.entry = entry
        self.o = {'max_states': 60000, 'max_steps': 20000000, 'loop_cap': 140, 'time': 600.0, 'repo': '/repo/include'}
        if opts:
            self.o.update(opts)
        self.rid = 0
        self.divmemo = {}
        self.selmemo = {}
        self.fnaddr = {}
        self.fnrev = {}
        self.gaddr = {}
        self.violations = {}
        self.undecided = {}
        self.foreign = {}
        self.checks = {}          # label -> [evaluated, holds]
        self.sites = set()        # (file,line) reached in /repo
        self.funcs = set()
        self.notes = {}
        self.paths = 0
        self.nstates = 0
        self.steps = 0
        self.truncated = {}
        self.ext_unknown = {}
        self.events = {}
        self.memchecks = 0
        self.fresh = 0
        self.work = []
        self.splits = 0
        self.fixq = []
        self.visited = {}
        self.fixseq = 0
        self.fixstat = {'heads': 0, 'subsumed': 0, 'shapes': 0, 'bounded': 0, 'levels': 0}

    # ------------------------------------------------------------------ symbols
    def newsym(self, name, lo=None, hi=None, info=None):
        self.fresh += 1
        return Sym.new(f"{name}", lo, hi, info)

    def opaque(self, st, name, w, why):
        """over-approximated value: any w-bit integer"""
        st.exact = False
        self.notes[why] = self.notes.get(why, 0) + 1
        return sym(self.newsym(name, 0, (1 << w) - 1, ('opaque', why)))

    # ------------------------------------------------------------------ regions
    def new_region(self, st, size, kind, name, align=16, fill='U'):
        self.rid += 1
        rid = self.rid
        a = align
        s = self.newsym(f"&{name}", LOWADDR, (1 << 46) // a, ('base', rid, a))
        r = Region()
        r.id = rid
        r.bsym = s
        r.align = a
        r.base = sym(s, a)
        r.size = size
        r.kind = kind
        r.live = True
        r.name = name
        r.meta = {}
        r.const = False
        r.shadow = None
        if fill == 'U':
            r.segs = ((ZERO, size, 'U', None),)
        elif fill == 'Z':
            r.segs = ((ZERO, size, 'B', ZERO),)
        else:  # havoc: fresh ghost array
            r.segs = ((ZERO, size, 'C', (self.newarr(name), ZERO)),)
        st.mem[rid] = r
        return r

    def newarr(self, name):
        self.fresh += 1
        return f"{name}#{self.fresh}"

    def find_region(self, st, p):
        """(region, offset) for a pointer value, or None"""
        f = st.facts
        p = f.norm(p)
        hit = None
        mixed = False
        for s, k in p.t:
            inf = Sym.info[s]
            if inf and inf[0] == 'base':
                if hit is not None or k != inf[2]:
                    mixed = True
                hit = inf[1]
        if hit is None:
            return None
        if mixed:
            # the difference of two of the addresses may be known
            for i, k, a in self.ptr_bases(st, p):
                r = st.mem.get(i)
                if r is not None and r.live and k == a:
                    e = p.sub(r.base)
                    if f.decide_ge(e) and f.decide_ge(r.size.sub(e)):
                        return r, e
            return None
        r = st.mem.get(hit)
        if r is None:
            return None
        return r, p.sub(r.base)

    # ------------------------------------------------------------------ decisions
    def ge(self, st, e):
        """decide e >= 0, partitioning when open"""
        f = st.facts
        d = f.decide_ge(e)
        if d is None:
            e = f.norm(e)
            raise Split([[('ge', e)], [('ge', e.neg().addc(-1))]])
        return d

    def eq0(self, st, e):
        f = st.facts
        d = f.decide_eq(e)
        if d is None:
            e = f.norm(e)
            # congruence of ghost-array selections
            if len(e.t) == 2 and e.c == 0:
                (a, ka), (b, kb) = e.t
                if ka == -kb and abs(ka) == 1:
                    ia, ib = Sym.info[a], Sym.info[b]
                    if ia and ib and ia[0] == 'sel' and ib[0] == 'sel' and ia[1] == ib[1] and ia[3] == ib[3]:
                        if self.eq0(st, ia[2].sub(ib[2])):
                            f.assume_eq(e)
                            return True
            raise Split([[('eq', e)], [('ne', e)]])
        return d

    def canon_u(self, st, e, w):
        """value of e mod 2^w as an integer in [0,2^w)"""
        f = st.facts
        e = f.norm(e)
        m = 1 << w
        if not e.t:
            return const(e.c % m)
        lo, hi = f.bounds_quick(e)
        if lo is not None and hi is not None:
            if lo >= 0 and hi < m:
                return e
        # pointers: one base with small offset is always in range when in bounds, decide by facts
        for _ in range(4):
            a = f.decide_ge(e)
            b = f.decide_ge(e.neg().addc(m - 1))
            if a and b:
                return e
            if a is False:
                e = e.addc(m)
                continue
            if b is False:
                e = e.addc(-m)
                continue
            # open: how many windows?
            if lo is not None and hi is not None and lo >= -m and hi < 2 * m:
                if a is None:
                    raise Split([[('ge', e)], [('ge', e.neg().addc(-1))]])
                raise Split([[('ge', e.neg().addc(m - 1))], [('ge', e.addc(-m))]])
            break
        q, r = self.divmod_(st, e, m, 'wrap')
        return r

    def canon_s(self, st, e, w):
        f = st.facts
        e = f.norm(e)
        h = 1 << (w - 1)
        if not e.t:
            v = e.c % (2 * h)
            return const(v - 2 * h if v >= h else v)
        if f.decide_ge(e.addc(h)) and f.decide_ge(e.neg().addc(h - 1)):
            return e
        u = self.canon_u(st, e, w)
        if self.ge(st, u.addc(-h)):
            return u.addc(-2 * h)
        return u

    def divmod_(self, st, e, d, tag='q'):
        """floor division of the integer e by the constant d>0"""
        f = st.facts
        e = f.norm(e)
        qt = []
        rt = []
        for s, k in e.t:
            if k % d == 0:
                qt.append((s, k // d))
            else:
                # split coefficient: keep it simple
                rt.append((s, k))
        qc, rc = divmod(e.c, d)
        rest = Lin(tuple(rt), rc)
        q0 = Lin(tuple(qt), qc)
        if not rt:
            return q0, rest
        if f.decide_ge(rest) and f.decide_ge(rest.neg().addc(d - 1)):
            return q0, rest
        lo, hi = f.bounds_quick(rest)
        if lo is not None and hi is not None and hi // d - lo // d <= 3:
            for k in range(lo // d, hi // d):
                if not self.ge(st, rest.addc(-d * (k + 1))):
                    return q0.addc(k), rest.addc(-d * k)
            k = hi // d
            return q0.addc(k), rest.addc(-d * k)
        key = (rest, d)
        m = self.divmemo.get(key)
        if m is None:
            qs = self.newsym(f"({show(rest)[:40]})/{d if d < 1 << 40 else '2^%d' % (d.bit_length() - 1)}", None if lo is None else lo // d, None if hi is None else hi // d, ('quo', rest, d))
            rs = self.newsym(f"({show(rest)[:40]})%{d if d < 1 << 40 else '2^%d' % (d.bit_length() - 1)}", 0, d - 1, ('rem', rest, d))
            m = self.divmemo[key] = (qs, rs)
        qs, rs = m
        if qs not in f.sub and rs not in f.sub and f.model is not None:
            v = f.value_in(f.model, rest)
            if qs not in f.model or rs not in f.model or f.model[qs] * d + f.model[rs] != v:
                used = False
                for t in f.ineqs:
                    for s, _ in t:
                        if s == qs or s == rs:
                            used = True
                if not used:
                    f.model[qs], f.model[rs] = divmod(v, d)
        f.assume_eq(rest.sub(sym(qs, d)).sub(sym(rs)))
        return f.norm(q0.add(sym(qs))), f.norm(sym(rs))

    # ------------------------------------------------------------------ pointer comparison
    def ptr_bases(self, st, e):
        out = []
        for s, k in e.t:
            inf = Sym.info[s]
            if inf and inf[0] == 'base':
                out.append((inf[1], k, inf[2]))
        return out

    def prepare_cmp(self, st, a, b, eqonly):
        """resolve the relative order of two regions before comparing addresses.
        Returns 'ne' when the pointers are known different (distinct objects)."""
        f = st.facts
        e = f.norm(a.sub(b))
        bs = self.ptr_bases(st, e)
        if len(bs) < 2:
            if len(bs) == 1 and eqonly:
                # pointer against an integer/unknown: null handled by bounds
                pass
            return None
        if len(bs) == 2:
            (ra, ka, aa), (rb, kb, ab) = bs
            if ra != rb and ((ka == aa and kb == -ab) or (ka == -aa and kb == ab)):
                A, B = st.mem.get(ra), st.mem.get(rb)
                if A is None or B is None:
                    return None
                if eqonly:
                    return 'ne'
                x = (min(ra, rb), max(ra, rb))
                if x not in st.order:
                    raise Split([[('ord', x), ('ge', B.base.sub(A.base).sub(A.size if A.live else ONE)), ('ge', B.base.sub(A.base).addc(-1))],
                                 [('ord', x), ('ge', A.base.sub(B.base).sub(B.size if B.live else ONE)), ('ge', A.base.sub(B.base).addc(-1))]])
        return None

    def icmp(self, st, pred, a, b, w, isptr):
        f = st.facts
        a = f.norm(a)
        b = f.norm(b)
        if not a.t and not b.t:
            m = 1 << w
            x, y = a.c % m, b.c % m
            if pred[0] == 's':
                h = m >> 1
                x = x - m if x >= h else x
                y = y - m if y >= h else y
            r = {'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pred if len(pred) == 2 else pred[1:]]
            return r
        if a == b:
            return pred in ('eq', 'ule', 'uge', 'sle', 'sge')
        if w == 64:
            o = self.prepare_cmp(st, a, b, pred in ('eq', 'ne'))
            if o == 'ne':
                return pred == 'ne'
        self.taint_check(st, a)
        self.taint_check(st, b)
        if pred in ('eq', 'ne'):
            e = f.norm(a.sub(b))
            d = None
            lo, hi = f.bounds_quick(e)
            m = 1 << w
            if lo is not None and hi is not None and lo > -m and hi < m:
                d = self.eq0(st, e)
            else:
                a = self.canon_u(st, a, w)
                b = self.canon_u(st, b, w)
                d = self.eq0(st, a.sub(b))
            return d if pred == 'eq' else not d
        if pred[0] == 'u':
            a = self.canon_u(st, a, w)
            b = self.canon_u(st, b, w)
        else:
            a = self.canon_s(st, a, w)
            b = self.canon_s(st, b, w)
        p = pred[1:]
        if p == 'lt':
            return self.ge(st, b.sub(a).addc(-1))
        if p == 'le':
            return self.ge(st, b.sub(a))
        if p == 'gt':
            return self.ge(st, a.sub(b).addc(-1))
        return self.ge(st, a.sub(b))

    def taint_check(self, st, e):
        for s, _ in e.t:
            inf = Sym.info[s]
            if inf and inf[0] == 'uninit':
                raise Bad('uninitialised-read', f"decision depends on a value that was never initialised ({inf[1]})")

    # ------------------------------------------------------------------ memory
    def resolve(self, st, p, n, what, write=False):
        """resolve pointer p for an access of n bytes (Lin); checks liveness and bounds"""
        self.memchecks += 1
        h = self.find_region(st, p)
        if h is None:
            f = st.facts
            pn = f.norm(p)
            if not pn.t:
                if pn.c % M64 < LOWADDR:
                    raise Bad('null-dereference', f"{what} through a null pointer" + (f" (+{pn.c % M64})" if pn.c % M64 else ''))
                raise Bad('wild-access', f"{what} through wild address {pn.c % M64:#x}")
            # any base at all?
            if not self.ptr_bases(st, pn):
                d = f.decide_eq(pn)
                if d is None:
                    raise Split([[('eq', pn)], [('ne', pn)]])
                if d:
                    raise Bad('null-dereference', f"{what} through a null pointer")
                for s, _ in pn.t:
                    inf = Sym.info[s]
                    if inf and inf[0] == 'opaque':
                        raise Unsupported(f"{what} through an untracked pointer ({inf[1]})")
                    if inf and inf[0] == 'uninit':
                        raise Bad('uninitialised-read', f"{what} through an uninitialised pointer")
                raise Bad('wild-access', f"{what} through pointer {show(pn)} that addresses no object")
            self.elsewhere(st, pn, what)
            raise Unsupported(f"{what} through unresolved pointer {show(pn)}")
        r, off = h
        if r.id == st.ghost.get('needacq'):
            raise Bad('weak-order', f"{what} in {r.name} after the last decrement, which does not acquire what other threads did before theirs")
        if not r.live:
            raise Bad('use-after-free', f"{what} in {r.name} after it was {'released' if r.kind != 'stack' else 'out of scope'}")
        f = st.facts
        if off.t or r.size.t or n.t:
            if not self.ge(st, off):
                raise Bad('out-of-bounds', f"{what} {show(f.norm(off))} bytes from the start of {r.name}")
            if not self.ge(st, r.size.sub(off).sub(n)):
                raise Bad('out-of-bounds', f"{what} [{show(f.norm(off))}, +{show(f.norm(n))}) past the end of {r.name} (size {show(f.norm(r.size))})")
        else:
            if off.c < 0 or off.c + n.c > r.size.c:
                raise Bad('out-of-bounds', f"{what} [{off.c}, +{n.c}) outside {r.name} (size {r.size.c})")
        if write and r.const:
            raise Bad('write-to-constant', f"{what} in constant {r.name}")
        if write:
            held = st.ghost.get('held')
            if held:
                self.held_check(st, held, r, off, n, what)
        return r, off

    def elsewhere(self, st, p, what):
        """p mixes the addresses of several objects: is there a placement of the objects for which it lies in none of them?"""
        mixed = {i for i, _, _ in self.ptr_bases(st, p)}
        # objects no condition speaks of can be placed out of the way
        said = {Sym.info[y][1] for t in st.facts.ineqs for y, _ in t if Sym.info[y] and Sym.info[y][0] == 'base'}
        rs = sorted((r for r in st.mem.values() if r.id in mixed or r.id in said), key=lambda r: (r.id not in mixed, r.id))
        budget = [150]

        def apart(f, i):
            """p outside of rs[i:]"""
            budget[0] -= 1
            if budget[0] < 0:
                return None
            if i == len(rs):
                return placed(f, 0)
            r = rs[i]
            for e in (p.sub(r.base).sub(r.size), r.base.sub(p).addc(-1)):
                g = f.copy()
                try:
                    g.assume_ge(e)
                except Infeasible:
                    continue
                g = apart(g, i + 1)
                if g is not None:
                    return g
            return None

        def placed(f, n):
            """no two objects overlap"""
            if f.model is None:
                f.recover()
            budget[0] -= 1
            if f.model is None or n > 30 or budget[0] < 0:
                return None
            at = sorted((f.value_in(f.model, f.norm(r.base)), f.value_in(f.model, f.norm(r.size)), r.id, r) for r in rs)
            for x, y in zip(at, at[1:]):
                if x[0] + max(x[1], 1) > y[0]:
                    for a, b in ((x[3], y[3]), (y[3], x[3])):
                        g = f.copy()
                        try:
                            g.assume_ge(b.base.sub(a.base).sub(a.size).addc(-1))
                        except Infeasible:
                            continue
                        g = placed(g, n + 1)
                        if g is not None:
                            return g
                    return None
            return f
        f = st.facts.copy()
        try:
            f.assume_ge(p.addc(-LOWADDR))
            f.assume_ge(p.neg().addc(1 << 62))
        except Infeasible:
            return
        g = apart(f, 0)
        if g is not None:
            st.facts = g
            raise Bad('wild-access', f"{what} through {show(p)}, which mixes the addresses of several objects and may lie in none of them")

    def held_check(self, st, held, r, off, n, what):
        """no write may touch bytes a client holds"""
        for rid, lo, ln in held:
            if rid == r.id:
                if not self.ge(st, lo.sub(off).sub(n)) and not self.ge(st, off.sub(lo).sub(ln)):
                    raise Bad('live-block-modified', f"{what} {show(st.facts.norm(n))} bytes at offset {show(st.facts.norm(off))} of {r.name}, "
                              f"inside a block the client still holds (offset {show(st.facts.norm(lo))}, {show(st.facts.norm(ln))} bytes)")

    def seg_at(self, st, segs, off):
        """index of the segment containing byte off"""
        f = st.facts
        if not off.t:
            for i, sg in enumerate(segs):
                hi = sg[1]
                if not hi.t:
                    if off.c < hi.c:
                        return i
                else:
                    if self.ge(st, hi.sub(off).addc(-1)):
                        return i
            return len(segs) - 1
        n = len(segs)
        for i in range(n - 1):
            if self.ge(st, segs[i][1].sub(off).addc(-1)):
                return i
        return n - 1

    def seg_end(self, st, segs, i, end):
        """index j>=i of the segment with lo < end <= hi"""
        n = len(segs)
        for j in range(i, n - 1):
            if self.ge(st, segs[j][1].sub(end)):
                return j
        return n - 1

    def sub_seg(self, st, sg, lo, hi):
        """restriction of a segment to [lo,hi) (within it)"""
        slo, shi, k, pl = sg
        if lo == slo and hi == shi:
            return sg
        if k == 'C':
            return (lo, hi, 'C', (pl[0], st.facts.norm(pl[1].add(lo.sub(slo)))))
        if k == 'V':
            f = st.facts
            a = f.norm(lo.sub(slo))
            b = f.norm(hi.sub(lo))
            if not a.t and not b.t and b.c > 0:
                v = f.norm(pl[0])
                if not v.t:
                    x = (v.c % (1 << (8 * pl[1]))) >> (8 * a.c) & ((1 << (8 * b.c)) - 1)
                    return (lo, hi, 'V', (const(x), b.c))
                if a.c == 0:
                    u = self.canon_u(st, v, 8 * pl[1])
                    q, r = self.divmod_(st, u, 1 << (8 * b.c))
                    return (lo, hi, 'V', (r, b.c))
                u = self.canon_u(st, v, 8 * pl[1])
                q, r = self.divmod_(st, u, 1 << (8 * a.c))
                if a.c + b.c < pl[1]:
                    q, r2 = self.divmod_(st, q, 1 << (8 * b.c))
                    q = r2
                return (lo, hi, 'V', (q, b.c))
            if f.decide_eq(b):
                return (lo, hi, 'U', None)
            self.notes['partial scalar'] = self.notes.get('partial scalar', 0) + 1
            st.exact = False
            return (lo, hi, 'C', (self.newarr('part'), ZERO))
        return (lo, hi, k, pl)

    def read_val(self, st, r, off, w):
        """w-byte scalar at offset off of region r (in bounds)"""
        f = st.facts
        segs = r.segs
        i = self.seg_at(st, segs, off)
        return self._read_from(st, r, segs, i, off, w)

    def _read_from(self, st, r, segs, i, off, w):
        f = st.facts
        lo, hi, k, pl = segs[i]
        end = off.addc(w)
        if k == 'V' and pl[1] == w and (off == lo or f.decide_eq(off.sub(lo))):
            return pl[0]
        inside = self.ge(st, hi.sub(end))
        if inside:
            if k == 'C':
                return self.sel(st, pl[0], f.norm(pl[1].add(off.sub(lo))), w)
            if k == 'B':
                b = f.norm(pl)
                return b.scale(sum(1 << (8 * j) for j in range(w)))
            if k == 'U':
                return sym(self.newsym(f"uninit({r.name}+{show(off)})", 0, (1 << (8 * w)) - 1, ('uninit', f"{r.name}+{show(f.norm(off))}")))
            s2 = self.sub_seg(st, segs[i], off, end)
            if s2[2] == 'V' and s2[3][1] == w:
                return s2[3][0]
            return self.opaque(st, 'mix', 8 * w, 'partial scalar read')
        # spans several segments: assemble byte-exact when the pieces have constant length
        val = ZERO
        pos = off
        got = 0
        j = i
        while got < w:
            lo, hi, k, pl = segs[j]
            n = f.norm(hi.sub(pos))
            if n.t:
                d = f.decide_eq(n)
                if d:
                    n = ZERO
                else:
                    return self.opaque(st, 'mix', 8 * w, 'read across segments')
            take = min(n.c, w - got)
            if take > 0:
                v = self._read_from(st, r, segs, j, pos, take)
                v = self.canon_u(st, v, 8 * take)
                val = val.add(v.scale(1 << (8 * got)))
            got += take
            pos = pos.addc(take)
            j += 1
        return val

    def sel(self, st, arr, idx, w):
        key = (arr, idx, w)
        s = self.selmemo.get(key)
        if s is None:
            s = self.selmemo[key] = self.newsym(f"{arr}[{show(idx)}]", 0, (1 << (8 * w)) - 1, ('sel', arr, idx, w))
        return st.facts.norm(sym(s))

    def put_segs(self, st, r, off, n, new):
        """replace [off, off+n) of region r by the segments new (already placed)"""
        f = st.facts
        segs = r.segs
        end = off.add(n)
        i = self.seg_at(st, segs, off)
        if segs[i][0] == off and segs[i][1] == end:
            r2 = r.clone()
            r2.segs = segs[:i] + tuple(new) + segs[i + 1:]
            st.mem[r.id] = r2
            return
        j = self.seg_end(st, segs, i, end)
        out = list(segs[:i])
        a = segs[i]
        if a[0] != off and not f.decide_eq(off.sub(a[0])):
            out.append(self.sub_seg(st, a, a[0], off))
        out.extend(new)
        b = segs[j]
        if b[1] != end and not f.decide_eq(b[1].sub(end)):
            out.append(self.sub_seg(st, b, end, b[1]))
        out.extend(segs[j + 1:])
        r2 = r.clone()
        r2.segs = tuple(out)
        st.mem[r.id] = r2

    def write_val(self, st, r, off, w, v):
        off = st.facts.norm(off)
        self.put_segs(st, r, off, const(w), [(off, off.addc(w), 'V', (v, w))])

    def get_range(self, st, r, off, n):
        f = st.facts
        segs = r.segs
        end = f.norm(off.add(n))
        i = self.seg_at(st, segs, off)
        j = self.seg_end(st, segs, i, end)
        out = []
        for k in range(i, j + 1):
            lo, hi, kd, pl = segs[k]
            l2 = off if k == i else lo
            h2 = end if k == j else hi
            out.append(self.sub_seg(st, segs[k], l2, h2))
        return out

    def memcpy(self, st, d, s, n, what='copy'):
        f = st.facts
        n = self.canon_u(st, n, 64)
        if self.eq0(st, n):
            return
        rs, os_ = self.resolve(st, s, n, what + ' reads')
        rd, od = self.resolve(st, d, n, what + ' writes', True)
        if what == 'memcpy' and rs.id == rd.id:
            # overlapping memcpy is undefined
            if not (self.ge(st, od.sub(os_).sub(n)) or self.ge(st, os_.sub(od).sub(n))):
                if not self.eq0(st, od.sub(os_)):
                    raise Bad('overlapping-memcpy', f"memcpy between overlapping parts of {rs.name}")
        sg = self.get_range(st, rs, os_, n)
        delta = od.sub(os_)
        new = [(f.norm(lo.add(delta)), f.norm(hi.add(delta)), k, pl) for lo, hi, k, pl in sg]
        od = f.norm(od)
        self.put_segs(st, rd, od, n, new)
        if rs.shadow or rd.shadow:
            self.shadow_copy(st, rd, rs, od, os_, n)

    def shadow_copy(self, st, rd, rs, od, os_, n):
        pass

    # ------------------------------------------------------------------ values
    def val(self, st, fr, o):
        k = o[0]
        if k == 'r':
            return fr.regs[o[1]]
        if k == 'c':
            return const(o[1])
        if k == 'g':
            return self.gptr(st, o[1])
        if k == 'f':
            return self.fptr(o[1])
        if k == 'undef':
            t = o[1]
            if t.k in ('struct', 'array'):
                return [self.val(st, fr, ('undef', e)) for e in (t.elems if t.k == 'struct' else [t.elt] * t.n)]
            if t.k in ('int', 'ptr', 'fp'):
                return sym(self.newsym('undef', 0, (1 << (t.w or 64)) - 1, ('uninit', 'undefined value')))
            return ZERO
        if k == 'zero':
            t = o[1]
            if t.k in ('struct', 'array'):
                return [self.val(st, fr, ('zero', e)) for e in (t.elems if t.k == 'struct' else [t.elt] * t.n)]
            return ZERO
        if k == 'agg':
            return [self.val(st, fr, x) for x in o[1]]
        if k == 'ce':
            op, ops, src = o[1], o[2], o[3]
            vs = [self.val(st, fr, x) for x in ops]
            if op == 'gep':
                return self.gep(st, src, vs, ops)
            if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                return vs[0]
            if op == 'add':
                return vs[0].add(vs[1])
            if op == 'sub':
                return vs[0].sub(vs[1])
            if op == 'trunc':
                return vs[0]
            raise Unsupported(f"constant expression {op}")
        if k == 'fp':
            key = ('fp', o[1])
            if key not in self.selmemo:
                self.selmemo[key] = self.newsym(f"fp({o[1]})", 0, M64 - 1, ('fp', o[1]))
            return sym(self.selmemo[key])
        if k == 'str':
            return list(o[1])
        raise Unsupported(f"operand {k}")

    def fptr(self, name):
        a = self.fnaddr.get(name)
        if a is None:
            a = self.fnaddr[name] = 0x400000000000 + 16 * len(self.fnaddr)
            self.fnrev[a] = name
        return const(a)

    def gptr(self, st, name):
        rid = self.gaddr.get(name)
        if rid is None or rid not in st.mem:
            raise Unsupported(f"global {name}")
        return st.mem[rid].base

    def init_globals(self, st):
        for nm, g in self.m.globals.items():
            if nm.startswith('llvm.'):
                continue
            r = self.new_region(st, const(g.ty.size), 'global', nm, max(16, g.ty.align))
            self.gaddr[nm] = r.id
        for nm, g in self.m.globals.items():
            if nm.startswith('llvm.'):
                continue
            r = st.mem[self.gaddr[nm]]
            if g.init is None:
                if not (nm.startswith('_ZTI') or nm.startswith('_ZTV')):
                    r.segs = ((ZERO, r.size, 'C', (self.newarr(nm), ZERO)),)
                continue
            r.segs = ((ZERO, r.size, 'B', ZERO),)
            try:
                self.store_const(st, r, 0, g.init, g.ty)
            except Unsupported:
                pass
            r = st.mem[self.gaddr[nm]]
            if g.const:
                r = r.clone()
                r.const = True
                st.mem[r.id] = r

    def store_const(self, st, r, off, o, t):
        if o[0] in ('zero', 'undef') or (o[0] == 'c' and o[1] == 0):
            return
        if o[0] == 'str':
            for i, b in enumerate(o[1]):
                if b:
                    self.write_val(st, st.mem[r.id], const(off + i), 1, const(b))
            return
        if o[0] == 'agg':
            for i, x in enumerate(o[1]):
                if t.k == 'struct':
                    self.store_const(st, r, off + t.offs[i], x, t.elems[i])
                else:
                    self.store_const(st, r, off + i * t.elt.size, x, t.elt)
            return
        v = self.val(st, None, o)
        self.write_val(st, st.mem[r.id], const(off), t.size, v)

    def gep(self, st, src, vs, ops):
        p = vs[0]
        t = src
        for i, ix in enumerate(vs[1:]):
            o = ops[i + 1]
            if i == 0:
                off = self.sidx(st, ix, o).scale(t.size)
            elif t.k == 'struct':
                n = ix.c
                off = const(t.offs[n])
                t = t.elems[n]
            elif t.k in ('array', 'vec'):
                t = t.elt
                off = self.sidx(st, ix, o).scale(t.size)
            else:
                raise Unsupported('gep')
            p = p.add(off)
        return st.facts.norm(p) if st is not None else p

    def sidx(self, st, ix, o):
        if not ix.t:
            w = o[2] if o[0] == 'c' else 64
            v = ix.c % (1 << w)
            if v >= 1 << (w - 1):
                v -= 1 << w
            return const(v)
        return ix

    # ------------------------------------------------------------------ aggregates in memory
    def load_ty(self, st, r, off, t):
        if t.k in ('int', 'ptr', 'fp'):
            sz = t.size if t.k != 'int' else (t.w + 7) // 8
            v = self.read_val(st, r, off, sz)
            if t.k == 'int' and t.w == 1 and is_lin(v) and v.t:
                return v
            return v
        if t.k == 'struct':
            return [self.load_ty(st, r, off.addc(t.offs[i]), e) for i, e in enumerate(t.elems)]
        if t.k == 'array':
            return [self.load_ty(st, r, off.addc(i * t.elt.size), t.elt) for i in range(t.n)]
        raise Unsupported(f"load of {t}")

    def store_ty(self, st, rid, off, t, v):
        if t.k in ('int', 'ptr', 'fp'):
            sz = t.size if t.k != 'int' else (t.w + 7) // 8
            self.write_val(st, st.mem[rid], off, sz, v)
            return
        if t.k == 'struct':
            for i, e in enumerate(t.elems):
                self.store_ty(st, rid, off.addc(t.offs[i]), e, v[i])
            return
        if t.k == 'array':
            for i in range(t.n):
                self.store_ty(st, rid, off.addc(i * t.elt.size), t.elt, v[i])
            return
        raise Unsupported(f"store of {t}")

    # ------------------------------------------------------------------ running
    def start(self):
        st = State()
        st.frames = []
        st.mem = {}
        st.facts = Facts()
        st.exact = True
        st.inputs = ()
        st.trace = ()
        st.locks = ()
        st.order = frozenset()
        st.exc = None
        st.ghost = {}
        st.steps = 0
        st.opq = 0
        st.nblk = 0
        st.wid = False
        self.init_globals(st)
        fn = self.m.functions[self.entry]
        self.push(st, fn, [], None)
        return st

    def push(self, st, fn, args, call):
        fr = Frame()
        fr.fn = fn
        fr.regs = dict(enumerate(args))
        fr.bb = 0
        fr.ip = 0
        fr.prev = None
        fr.call = call
        fr.allocas = []
        fr.loops = {}
        fn.blocks
        st.frames.append(fr)
        if len(st.frames) > 120:
            raise Unsupported('call depth')
        self.funcs.add(fn.name)

    def run(self, starts=None):
        t0 = time.time()
        if starts is None:
            st = self.start()
            self.run_ctors(st)
            self.work = [st]
        else:
            self.work = list(starts)
        import heapq
        while self.work or self.fixq:
            if self.work:
                st = self.work.pop()
            else:
                lvl, _, st = heapq.heappop(self.fixq)
            self.nstates += 1
            self.run_path(st)
            if self.nstates > self.o['max_states'] or self.steps > self.o['max_steps'] or time.time() - t0 > self.o['time']:
                self.truncated['budget'] = len(self.work) + len(self.fixq)
                break
        self.wall = time.time() - t0

    def run_ctors(self, st):
        """static initialisers of the harness unit (llvm.global_ctors) run first"""
        g = self.m.globals.get('llvm.global_ctors')
        names = []
        if g is not None and g.init is not None and g.init[0] == 'agg':
            for e in g.init[1]:
                if e[0] == 'agg' and e[1][1][0] == 'f':
                    names.append(e[1][1][1])
        for n in reversed(names):
            fn = self.m.functions[n]
            if not fn.is_decl:
                self.push(st, fn, [], None)
                st.frames[-1].call = 'ctor'

    def run_path(self, st):
        repo = self.o['repo']
        sites = self.sites
        while True:
            fr = st.frames[-1]
            ins = fr.fn._blocks[fr.bb].instrs[fr.ip]
            if ins.op == 'nop':
                fr.ip += 1
                continue
            self.steps += 1
            st.steps += 1
            if ins.line and ins.file.startswith(repo):
                sites.add((ins.file, ins.line))
            try:
                h = DISPATCH.get(ins.op)
                if h is None:
                    raise Unsupported(f"instruction {ins.op}")
                h(self, st, fr, ins)
            except Split as sp:
                self.splits += 1
                if len(self.work) > self.o['max_states']:
                    self.truncated['worklist'] = len(self.work)
                    return
                for alt in reversed(sp.alts):
                    s2 = st.fork()
                    try:
                        for c in alt:
                            self.apply(s2, c)
                    except Infeasible:
                        continue
                    self.work.append(s2)
                return
            except (Infeasible, Parked):
                return
            except Dead:
                self.paths += 1
                return
            except Bad as b:
                self.paths += 1
                self.report(st, b.rule, b.msg)
                return
            except Unsupported as u:
                self.paths += 1
                self.undecided_at(st, 'unsupported', str(u))
                return
            if not st.frames:
                self.paths += 1
                return

    def apply(self, st, c):
        k = c[0]
        if k == 'ge':
            st.facts.assume_ge(c[1])
        elif k == 'eq':
            st.facts.assume_eq(c[1])
        elif k == 'ne':
            st.facts.assume_ne(c[1])
        elif k == 'ord':
            st.order = st.order | {c[1]}
        elif k == 'do':
            c[1](st)
        else:
            raise RuntimeError(k)

    # ------------------------------------------------------------------ reporting
    def where(self, st):
        """innermost location inside the analysed repository, plus the call chain"""
        chain = []
        loc = None
        for fr in reversed(st.frames):
            blk = fr.fn._blocks[fr.bb].instrs
            ip = min(fr.ip, len(blk) - 1)
            ins = blk[ip]
            k = ip
            while not ins.line and k > 0:
                k -= 1
                ins = blk[k]
            chain.append((fr.fn.name, ins.file, ins.line))
            if loc is None and ins.file.startswith(self.o['repo']):
                loc = (ins.file, ins.line, fr.fn.name)
        if loc is None and st.ghost.get('lastrepo'):
            loc = st.ghost['lastrepo']
        return loc, chain

    def witness(self, st):
        f = st.facts
        out = []
        if f.model is None:
            f.recover()
        ok = f.model is not None
        for n, e in st.inputs:
            e = f.norm(e)
            if f.model is not None:
                out.append((n, f.value_in(f.model, e)))
            else:
                out.append((n, show(e)))
        if ok:
            # the integer point must satisfy every constraint
            for t, c in f.ineqs.items():
                if f.value_in(f.model, Lin(t, c)) < 0:
                    ok = False
                    break
            for n in f.neqs:
                if f.value_in(f.model, n) == 0:
                    ok = False
            if ok:
                for s, v in f.model.items():
                    if s in f.sub:
                        continue
                    lo, hi = Sym.lo[s], Sym.hi[s]
                    if (lo is not None and v < lo) or (hi is not None and v > hi):
                        # only relevant when the symbol is constrained in this state
                        ok = False
                        break
        if not ok and f.model is not None:
            return out, False
        return out, ok

    def in_repo(self, st):
        fr = st.frames[-1]
        ins = fr.fn._blocks[fr.bb].instrs[fr.ip]
        return ins.file.startswith(self.o['repo'])

    def report(self, st, rule, msg, label=None):
        loc, chain = self.where(st)
        wit, ok = self.witness(st)
        definite = ok and st.exact
        key = (rule, label or '', loc[:2] if (loc and not label) else None)
        rec = {'rule': rule, 'message': msg, 'label': label, 'loc': loc, 'chain': chain, 'witness': wit,
               'trace': list(st.trace)[-40:], 'definite': definite,
               'facts': [show(Lin(t, c)) + ' >= 0' for t, c in list(st.facts.ineqs.items())[:40]]}
        tgt = self.violations if definite else self.undecided
        if key not in tgt:
            tgt[key] = rec

    def undecided_at(self, st, rule, msg):
        loc, chain = self.where(st)
        key = (rule, msg, loc[:2] if loc else None)
        if key not in self.undecided:
            self.undecided[key] = {'rule': rule, 'message': msg, 'label': None, 'loc': loc, 'chain': chain, 'witness': [],
                                   'trace': list(st.trace)[-40:], 'definite': False}

    # ------------------------------------------------------------------ instruction handlers
    def set(self, fr, ins, v):
        fr.regs[ins.id] = v
        fr.ip += 1

    def goto(self, st, fr, target):
        src = fr.bb
        if target <= src:
            n = fr.loops.get(target, 0) + 1
            fr.loops[target] = n
            if n > self.o['loop_cap']:
                loc, chain = self.where(st)
                key = f"{chain[0][0]}@{chain[0][2]}"
                self.truncated[key] = self.truncated.get(key, 0) + 1
                raise Dead()
        else:
            n = 0
        # phi nodes evaluated in parallel
        blk = fr.fn._blocks[target].instrs
        vals = []
        i = 0
        while blk[i].op == 'phi':
            vals.append((blk[i].id, self.val(st, fr, blk[i].x[src])))
            i += 1
        for k, v in vals:
            fr.regs[k] = v
        fr.prev = src
        fr.bb = target
        fr.ip = i
        if n >= 20:
            self.progress(st, fr, target, n)

    def progress(self, st, fr, target, n):
        """a library loop that comes back to the very same state goes on forever"""
        if not any(p.file.startswith(self.o['repo']) for p in fr.fn._blocks[target].instrs + fr.fn._blocks[fr.prev].instrs):
            return
        if 'spin' in fr.loops:      # waits for other threads
            return
        key = ('seen', target)
        old = fr.loops.get(key)
        if n > 20 and old is None:
            return
        import fix
        f = st.facts

        def nz(x):
            if isinstance(x, Lin):
                return f.norm(x)
            if isinstance(x, tuple):
                return tuple(nz(y) for y in x)
            return x
        live = fix.liveness(fr.fn)[target] | {p.id for p in fr.fn._blocks[target].instrs if p.op == 'phi'}
        now = (tuple((k, nz(fr.regs[k])) for k in sorted(live) if k in fr.regs), st.locks, len(st.frames),
               tuple((r.id, nz(r.segs)) for r in st.mem.values() if r.live and r.name != 'probe'), st.ghost.get('held'))
        if n == 20:
            fr.loops[key] = now
        elif now == old:
            raise Bad('endless-loop', 'the loop comes back to the same state without end')

    def truth(self, st, v):
        """concrete boolean of an i1 value"""
        v = st.facts.norm(v)
        if not v.t:
            return bool(v.c & 1)
        self.taint_check(st, v)
        return not self.eq0(st, v)


def op_br(I, st, fr, ins):
    if len(ins.x) == 1:
        I.goto(st, fr, ins.x[0])
    else:
        c = I.truth(st, I.val(st, fr, ins.ops[0]))
        # LLVM-C successor order: true, false
        I.goto(st, fr, ins.x[0] if c else ins.x[1])


def op_switch(I, st, fr, ins):
    v = st.facts.norm(I.val(st, fr, ins.ops[0]))
    d, cases = ins.x
    for k, b in cases:
        if I.eq0(st, v.addc(-k)):
            return I.goto(st, fr, b)
    I.goto(st, fr, d)


def op_ret(I, st, fr, ins):
    v = I.val(st, fr, ins.ops[0]) if ins.ops else None
    for rid in fr.allocas:
        r = st.mem[rid].clone()
        r.live = False
        st.mem[rid] = r
    st.frames.pop()
    if not st.frames:
        return
    if ins.line and ins.file.startswith(I.o['repo']) and not I.in_repo(st):
        st.ghost['lastrepo'] = (ins.file, ins.line, fr.fn.name)
    if fr.call == 'ctor':
        return
    caller = st.frames[-1]
    call = fr.call
    if v is not None:
        caller.regs[call.id] = v
    if call.op == 'invoke':
        I.goto(st, caller, call.x[1])
    else:
        caller.ip += 1


def op_unreachable(I, st, fr, ins):
    raise Dead()


def op_alloca(I, st, fr, ins):
    t = ins.x
    n = I.val(st, fr, ins.ops[0]) if ins.ops else ONE
    key = ('al', ins.id)
    r = I.new_region(st, n.scale(t.size), 'stack', f"local of {short(fr.fn.name)}", max(t.align, 16) if t.size >= 16 else max(t.align, 8))
    fr.allocas.append(r.id)
    I.set(fr, ins, r.base)


def op_load(I, st, fr, ins):
    p = I.val(st, fr, ins.ops[0])
    t = ins.ty
    sz = t.size if t.k != 'int' else (t.w + 7) // 8
    r, off = I.resolve(st, p, const(sz), 'read')
    if 'rc' in st.ghost:
        rc = shared_count(st, r, off, sz)
        if rc is not None:
            if ins.x[0] == 'not_atomic':
                raise Bad('non-atomic-count', 'the use count is read without atomic access while other threads change it')
            if ins.x[0] in ACQ:
                st.ghost.pop('needacq', None)
            v = count_value(I, st, rc)
            if ins.x[0] in ACQ:
                st.ghost['rcseen'] = v
            return I.set(fr, ins, v)
    al = ins.x[1]
    if al > 1:
        I.check_align(st, r, off, al, 'read')
    v = I.load_ty(st, r, off, t)
    I.set(fr, ins, v)


def op_store(I, st, fr, ins):
    p = I.val(st, fr, ins.ops[1])
    v = I.val(st, fr, ins.ops[0])
    t = ins.x[2]
    sz = t.size if t.k != 'int' else (t.w + 7) // 8
    r, off = I.resolve(st, p, const(sz), 'write', True)
    if 'rc' in st.ghost and shared_count(st, r, off, sz) is not None:
        raise Bad('non-atomic-count', 'the use count is overwritten by a plain or atomic store, which loses the changes of other threads')
    if ins.x[1] > 1:
        I.check_align(st, r, off, ins.x[1], 'write')
    I.store_ty(st, r.id, st.facts.norm(off), t, v)
    fr.ip += 1


def check_align(I, st, r, off, al, what):
    e = st.facts.norm(r.base.add(off))
    if all(k % al == 0 for _, k in e.t) and e.c % al == 0:
        return
    q, rem = I.divmod_(st, e, al)
    if not I.eq0(st, rem):
        raise Bad('misaligned-access', f"{what} of {r.name} at address {show(e)} not aligned to {al}")


Interp.check_align = check_align


def op_gep(I, st, fr, ins):
    vs = [I.val(st, fr, o) for o in ins.ops]
    I.set(fr, ins, I.gep(st, ins.x, vs, ins.ops))


def op_add(I, st, fr, ins):
    a = I.val(st, fr, ins.ops[0])
    b = I.val(st, fr, ins.ops[1])
    I.set(fr, ins, red(st.facts.norm(a.add(sc(b, ins.ops[1]))), ins.ty.w))


def sc(v, o):
    """use the signed reading of a constant addend"""
    if o[0] == 'c' and o[2] <= 64 and o[1] >= 1 << (o[2] - 1) and o[2] > 1:
        return const(o[1] - (1 << o[2]))
    return v


def red(e, w):
    if not e.t:
        return const(e.c % (1 << w))
    m = 1 << w
    if -m < e.c < m:
        return e
    return Lin(e.t, e.c % m)


def op_sub(I, st, fr, ins):
    a = I.val(st, fr, ins.ops[0])
    b = I.val(st, fr, ins.ops[1])
    I.set(fr, ins, red(st.facts.norm(a.sub(b)), ins.ty.w))


def op_mul(I, st, fr, ins):
    f = st.facts
    a = f.norm(I.val(st, fr, ins.ops[0]))
    b = f.norm(I.val(st, fr, ins.ops[1]))
    w = ins.ty.w
    if not a.t:
        a, b = b, a
    if not b.t:
        k = b.c % (1 << w)
        if k >= 1 << (w - 1):
            k -= 1 << w
        I.set(fr, ins, red(a.scale(k), w))
        return
    I.set(fr, ins, I.opaque(st, 'product', w, 'product of two unknowns'))


def op_udiv(I, st, fr, ins):
    f = st.facts
    w = ins.ty.w
    a = I.canon_u(st, I.val(st, fr, ins.ops[0]), w)
    b = f.norm(I.val(st, fr, ins.ops[1]))
    if b.t:
        b = I.canon_u(st, b, w)
    if b.t:
        I.set(fr, ins, I.opaque(st, 'quotient', w, 'division by unknown'))
        return
    if b.c == 0:
        raise Bad('division-by-zero', 'division by zero')
    q, r = I.divmod_(st, a, b.c)
    I.set(fr, ins, q if ins.op == 'udiv' else r)


def op_sdiv(I, st, fr, ins):
    f = st.facts
    w = ins.ty.w
    b = f.norm(I.val(st, fr, ins.ops[1]))
    a = I.canon_s(st, I.val(st, fr, ins.ops[0]), w)
    if b.t:
        I.set(fr, ins, I.opaque(st, 'quotient', w, 'division by unknown'))
        return
    k = b.c
    if k >= 1 << (w - 1):
        k -= 1 << w
    if k == 0:
        raise Bad('division-by-zero', 'division by zero')
    neg = k < 0
    k = abs(k)
    if all(c % k == 0 for _, c in a.t) and a.c % k == 0:
        q = Lin(tuple((s, c // k) for s, c in a.t), a.c // k)
        r = ZERO
    elif I.ge(st, a):
        q, r = I.divmod_(st, a, k)
    else:
        q, r = I.divmod_(st, a.neg(), k)
        q, r = q.neg(), r.neg()
    if neg:
        q = q.neg()
    I.set(fr, ins, q if ins.op == 'sdiv' else r)


def op_shl(I, st, fr, ins):
    f = st.facts
    b = f.norm(I.val(st, fr, ins.ops[1]))
    a = f.norm(I.val(st, fr, ins.ops[0]))
    w = ins.ty.w
    if b.t:
        I.set(fr, ins, I.opaque(st, 'shift', w, 'shift by unknown'))
        return
    if b.c >= w:
        raise Bad('shift-overflow', 'shift amount not below the width')
    I.set(fr, ins, red(a.scale(1 << b.c), w))


def op_lshr(I, st, fr, ins):
    f = st.facts
    w = ins.ty.w
    b = f.norm(I.val(st, fr, ins.ops[1]))
    if b.t:
        I.set(fr, ins, I.opaque(st, 'shift', w, 'shift by unknown'))
        return
    if b.c >= w:
        raise Bad('shift-overflow', 'shift amount not below the width')
    if ins.op == 'lshr':
        a = I.canon_u(st, I.val(st, fr, ins.ops[0]), w)
    else:
        a = I.canon_s(st, I.val(st, fr, ins.ops[0]), w)
    q, r = I.divmod_(st, a, 1 << b.c)
    I.set(fr, ins, q)


def low_zero_bits(e):
    """number of low bits known to be zero in e"""
    n = None
    for x in [k for _, k in e.t] + ([e.c] if e.c else []):
        z = (x & -x).bit_length() - 1
        n = z if n is None else min(n, z)
    return 64 if n is None else n


def op_and(I, st, fr, ins):
    f = st.facts
    w = ins.ty.w
    a = f.norm(I.val(st, fr, ins.ops[0]))
    b = f.norm(I.val(st, fr, ins.ops[1]))
    if not a.t and b.t:
        a, b = b, a
    m = (1 << w) - 1
    if not a.t and not b.t:
        I.set(fr, ins, const(a.c & b.c & m))
        return
    if w == 1:
        x = I.truth(st, a)
        y = I.truth(st, b)
        I.set(fr, ins, ONE if x and y else ZERO)
        return
    if not b.t:
        k = b.c & m
        if k == 0:
            I.set(fr, ins, ZERO)
            return
        if k == m:
            I.set(fr, ins, a)
            return
        # contiguous mask  ((1<<hi)-1) & ~((1<<lo)-1)
        lo = (k & -k).bit_length() - 1
        x = k >> lo
        if x & (x + 1) == 0:
            hi = lo + x.bit_length()
            u = I.canon_u(st, a, w)
            if hi < w:
                q, u = I.divmod_(st, u, 1 << hi)
            if lo > 0:
                q, r = I.divmod_(st, u, 1 << lo)
                u = f.norm(q.scale(1 << lo))
            I.set(fr, ins, u)
            return
        # general mask: sum of contiguous runs
        u = I.canon_u(st, a, w)
        out = ZERO
        bit = 0
        while bit < w:
            if not (k >> bit) & 1:
                bit += 1
                continue
            e = bit
            while e < w and (k >> e) & 1:
                e += 1
            q, _ = I.divmod_(st, u, 1 << bit) if bit else (u, None)
            if e < w:
                _, q = I.divmod_(st, q, 1 << (e - bit))
            out = out.add(q.scale(1 << bit))
            bit = e
        I.set(fr, ins, f.norm(out))
        return
    if a == b:
        I.set(fr, ins, a)
        return
    I.set(fr, ins, I.opaque(st, 'and', w, 'bitwise and of two unknowns'))


def op_or(I, st, fr, ins):
    f = st.facts
    w = ins.ty.w
    a = f.norm(I.val(st, fr, ins.ops[0]))
    b = f.norm(I.val(st, fr, ins.ops[1]))
    m = (1 << w) - 1
    if not a.t and not b.t:
        I.set(fr, ins, const((a.c | b.c) & m))
        return
    if w == 1:
        x = I.truth(st, a)
        y = I.truth(st, b)
        I.set(fr, ins, ONE if x or y else ZERO)
        return
    a = I.canon_u(st, a, w)
    b = I.canon_u(st, b, w)
    if not b.t and b.c == 0:
        I.set(fr, ins, a)
        return
    if not a.t and a.c == 0:
        I.set(fr, ins, b)
        return
    for x, y in ((a, b), (b, a)):
        z = low_zero_bits(x)
        if z and f.decide_ge(y) and f.decide_ge(y.neg().addc((1 << min(z, w)) - 1)):
            I.set(fr, ins, f.norm(x.add(y)))
            return
    if not b.t or not a.t:
        # or with a constant: a | k = a + k - (a & k)
        x, k = (a, b.c) if not b.t else (b, a.c)
        u = x
        inter = ZERO
        bit = 0
        while bit < w:
            if not (k >> bit) & 1:
                bit += 1
                continue
            e = bit
            while e < w and (k >> e) & 1:
                e += 1
            q, _ = I.divmod_(st, u, 1 << bit) if bit else (u, None)
            if e < w:
                _, q = I.divmod_(st, q, 1 << (e - bit))
            inter = inter.add(q.scale(1 << bit))
            bit = e
        I.set(fr, ins, f.norm(x.addc(k).sub(inter)))
        return
    I.set(fr, ins, I.opaque(st, 'or', w, 'bitwise or of two unknowns'))


def op_xor(I, st, fr, ins):
    f = st.facts
    w = ins.ty.w
    a = f.norm(I.val(st, fr, ins.ops[0]))
    b = f.norm(I.val(st, fr, ins.ops[1]))
    m = (1 << w) - 1
    if not a.t and b.t:
        a, b = b, a
    if not a.t and not b.t:
        I.set(fr, ins, const((a.c ^ b.c) & m))
        return
    if w == 1:
        I.set(fr, ins, ONE if I.truth(st, a) != I.truth(st, b) else ZERO)
        return
    if not b.t:
        k = b.c & m
        if k == 0:
            I.set(fr, ins, a)
            return
        if k == m:
            I.set(fr, ins, red(a.neg().addc(-1), w))
            return
    if a == b:
        I.set(fr, ins, ZERO)
        return
    I.set(fr, ins, I.opaque(st, 'xor', w, 'bitwise xor of unknowns'))


def op_icmp(I, st, fr, ins):
    a = I.val(st, fr, ins.ops[0])
    b = I.val(st, fr, ins.ops[1])
    pred, t = ins.x
    r = I.icmp(st, pred, a, b, t.w, t.k == 'ptr')
    I.set(fr, ins, ONE if r else ZERO)


def op_cast(I, st, fr, ins):
    v = I.val(st, fr, ins.ops[0])
    if ins.op == 'zext':
        v = I.canon_u(st, v, ins.x.w)
    elif ins.op == 'sext':
        if ins.x.w == 1:
            v = v.neg()
        else:
            v = I.canon_s(st, v, ins.x.w)
    elif ins.op == 'trunc':
        if ins.ty.w == 1:
            q, v = I.divmod_(st, I.canon_u(st, v, ins.x.w), 2)
        else:
            v = red(st.facts.norm(v), ins.ty.w)
    I.set(fr, ins, v)


def op_fpcast(I, st, fr, ins):
    v = I.val(st, fr, ins.ops[0])
    key = ('fpc', ins.op, st.facts.norm(v) if is_lin(v) else None, ins.ty.w)
    if key not in I.selmemo:
        I.selmemo[key] = I.newsym(ins.op, 0, (1 << (ins.ty.w or 64)) - 1, ('opaque', 'floating point'))
    st.exact = False
    I.set(fr, ins, sym(I.selmemo[key]))


def op_fcmp(I, st, fr, ins):
    st.exact = False
    I.set(fr, ins, sym(I.newsym('fcmp', 0, 1, ('opaque', 'floating point'))))


def op_select(I, st, fr, ins):
    c = I.truth(st, I.val(st, fr, ins.ops[0]))
    I.set(fr, ins, I.val(st, fr, ins.ops[1] if c else ins.ops[2]))


def op_extractvalue(I, st, fr, ins):
    v = I.val(st, fr, ins.ops[0])
    for i in ins.x[0]:
        v = v[i]
    I.set(fr, ins, v)


def op_insertvalue(I, st, fr, ins):
    v = I.val(st, fr, ins.ops[0])
    x = I.val(st, fr, ins.ops[1])

    def rec(v, path):
        v = list(v)
        v[path[0]] = x if len(path) == 1 else rec(v[path[0]], path[1:])
        return v
    I.set(fr, ins, rec(v, ins.x[0]))


def op_freeze(I, st, fr, ins):
    I.set(fr, ins, I.val(st, fr, ins.ops[0]))


ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')


def shared_count(st, r, off, n):
    """(own,) when [off, off+n) of r touches the counter other threads change"""
    rc = st.ghost.get('rc')
    if rc is None or rc[0] != r.id:
        return None
    o = st.facts.norm(off.sub(rc[1]))
    if not o.t and (o.c >= rc[2] or o.c + n <= 0):
        return None
    return rc


def count_value(I, st, rc):
    """what the counter holds now: our references and those of the other threads, who may change theirs at any time"""
    return sym(I.newsym('references of other threads', 0, 1 << 20, ('input', 'others'))).add(rc[3])


def fork_run(I, st, alts):
    """continue in one copy of the state per alternative (constraints, action)"""
    for cons, act in reversed(alts):
        s2 = st.fork()
        try:
            for c in cons:
                I.apply(s2, c)
            act(s2)
        except Infeasible:
            continue
        except Bad as b:
            I.paths += 1
            I.report(s2, b.rule, b.msg)
            continue
        I.work.append(s2)
    raise Parked()


def count_update(I, st, r, rc, delta, old, order, cons, done):
    """alternatives of an atomic change of a shared count by delta; done(state) completes the instruction"""
    own = st.facts.norm(rc[3].add(delta))
    if own.t:
        raise Unsupported('symbolic change of a shared count')
    if own.c < 0:
        raise Bad('count-underflow', 'a thread releases more references than it holds')
    if delta.c < 0 and order not in REL:
        raise Bad('weak-order', f"the use count is decremented with {order} ordering: earlier uses of the block are not ordered before its release by another thread")
    if delta.c >= 0 or own.c > 0:
        def keep(s):
            s.ghost['rc'] = (rc[0], rc[1], rc[2], own)
            done(s)
        return [(cons, keep)]
    new = old.add(delta)

    def last(s):
        s.ghost.pop('rc')
        s.ghost.pop('rcseen', None)
        if order not in ACQ:
            s.ghost['needacq'] = r.id
        done(s)

    def notlast(s):
        # from here on another thread may release the block at any time
        s.ghost.pop('rc')
        s.ghost.pop('rcseen', None)
        r2 = s.mem[r.id].clone()
        r2.live = False
        r2.name = r.name + ' (which another thread may have released by now)'
        s.mem[r.id] = r2
        done(s)
    return [(cons + [('eq', new)], last), (cons + [('ne', new)], notlast)]


def op_fence(I, st, fr, ins):
    if ins.x[0] in ACQ:
        st.ghost.pop('needacq', None)
    fr.ip += 1


def op_atomicrmw(I, st, fr, ins):
    op, order, t = ins.x
    p = I.val(st, fr, ins.ops[0])
    v = I.val(st, fr, ins.ops[1])
    r, off = I.resolve(st, p, const(t.size), 'atomic update', True)
    f = st.facts
    rc = shared_count(st, r, off, t.size)
    if rc is not None:
        d = f.norm(v)
        if op not in ('add', 'sub') or d.t:
            raise Unsupported(f"atomicrmw {op} on a shared count")
        d = const(d.c if d.c < (1 << (8 * t.size - 1)) else d.c - (1 << (8 * t.size)))
        if op == 'sub':
            d = const(-d.c)
        old = count_value(I, st, rc)

        def done(s):
            I.set(s.frames[-1], ins, old)
        fork_run(I, st, count_update(I, st, r, rc, d, old, order, [], done))
    if r.kind == 'heap':
        st.ghost['lastrmw'] = (r.id, f.norm(off), t.size)
    old = I.read_val(st, r, off, t.size)
    if op == 'add':
        new = red(f.norm(old.add(v)), t.w)
    elif op == 'sub':
        new = red(f.norm(old.sub(v)), t.w)
    elif op == 'xchg':
        new = v
    else:
        raise Unsupported(f"atomicrmw {op}")
    I.write_val(st, r, f.norm(off), t.size, new)
    I.set(fr, ins, old)


def op_cmpxchg(I, st, fr, ins):
    for x in st.frames:
        x.loops['spin'] = 1
    p = I.val(st, fr, ins.ops[0])
    e = I.val(st, fr, ins.ops[1])
    v = I.val(st, fr, ins.ops[2])
    t = ins.ty.elems[0]
    r, off = I.resolve(st, p, const(t.size), 'atomic update', True)
    rc = shared_count(st, r, off, t.size)
    if rc is not None:
        old = count_value(I, st, rc)
        d = st.facts.norm(v.sub(e))
        if d.t:
            raise Unsupported('cmpxchg of a shared count with an unrelated value')
        d = const(d.c if d.c < (1 << (8 * t.size - 1)) else d.c - (1 << (8 * t.size)))
        diff = old.sub(e)
        alts = count_update(I, st, r, rc, d, old, ins.x[0], [('eq', diff)], lambda s: I.set(s.frames[-1], ins, [old, ONE]))
        alts.append(([('ne', diff)], lambda s: I.set(s.frames[-1], ins, [old, ZERO])))
        fork_run(I, st, alts)
    if r.kind == 'heap':
        st.ghost['lastrmw'] = (r.id, st.facts.norm(off), t.size)
    old = I.read_val(st, r, off, t.size)
    ok = I.icmp(st, 'eq', old, e, t.w, False)
    if ok:
        I.write_val(st, r, st.facts.norm(off), t.size, v)
    I.set(fr, ins, [old, ONE if ok else ZERO])


# ---------------------------------------------------------------- calls and exceptions

def op_call(I, st, fr, ins):
    callee = ins.x[0]
    if callee[0] == 'f':
        name = callee[1]
    elif callee[0] == 'asm':
        fr.ip += 1
        return
    else:
        v = st.facts.norm(I.val(st, fr, callee))
        if v.t or v.c not in I.fnrev:
            raise Unsupported('call through unknown function pointer')
        name = I.fnrev[v.c]
    fn = I.m.functions.get(name)
    import models
    h = models.lookup(name)
    if h is not None:
        h(I, st, fr, ins)
        return
    args = [I.val(st, fr, o) for o in ins.ops]
    if fn is None or fn.is_decl:
        models.unknown_call(I, st, fr, ins, name, args)
        return
    # byval / sret need no care: clang -O0 passes pointers
    I.push(st, fn, args, ins)


def finish(I, st, fr, ins, v=None):
    """complete a modelled call"""
    if v is not None:
        fr.regs[ins.id] = v
    if ins.op == 'invoke':
        I.goto(st, fr, ins.x[1])
    else:
        fr.ip += 1


def unwind(I, st, exc):
    """propagate an exception from the current call instruction outwards"""
    st.exc = exc
    first = True
    while st.frames:
        fr = st.frames[-1]
        ins = fr.fn._blocks[fr.bb].instrs[fr.ip]
        if ins.op == 'invoke':
            I.goto(st, fr, ins.x[2])
            return
        for rid in fr.allocas:
            r = st.mem[rid].clone()
            r.live = False
            st.mem[rid] = r
        st.frames.pop()
    raise Dead()


def op_landingpad(I, st, fr, ins):
    cleanup, clauses = ins.x
    exc = st.exc
    sel = None
    for c in clauses:
        if c[0] == 'c' and c[1] == 0:
            sel = ONE
            break
        if c[0] == 'agg' or c[0] == 'zero':   # filter (dynamic exception spec)
            sel = const(-1 % (1 << 32))
            break
        if c[0] == 'g':
            # typed catch: matches when the thrown type is that type
            if exc[1] is not None and exc[1] == c[1]:
                sel = const(2)
                break
    if sel is None:
        if not cleanup:
            # does not catch: continue unwinding past this frame
            for rid in fr.allocas:
                r = st.mem[rid].clone()
                r.live = False
                st.mem[rid] = r
            st.frames.pop()
            if not st.frames:
                raise Dead()
            unwind(I, st, exc)
            return
        sel = ZERO
    I.set(fr, ins, [exc[0], sel])


def op_resume(I, st, fr, ins):
    exc = st.exc
    for rid in fr.allocas:
        r = st.mem[rid].clone()
        r.live = False
        st.mem[rid] = r
    st.frames.pop()
    if not st.frames:
        raise Dead()
    unwind(I, st, exc)


def short(name):
    return DEM.get(name, name)


DEM = {}

DISPATCH = {
    'br': op_br, 'switch': op_switch, 'ret': op_ret, 'unreachable': op_unreachable, 'alloca': op_alloca,
    'load': op_load, 'store': op_store, 'gep': op_gep, 'add': op_add, 'sub': op_sub, 'mul': op_mul,
    'udiv': op_udiv, 'urem': op_udiv, 'sdiv': op_sdiv, 'srem': op_sdiv, 'shl': op_shl, 'lshr': op_lshr,
    'ashr': op_lshr, 'and': op_and, 'or': op_or, 'xor': op_xor, 'icmp': op_icmp, 'zext': op_cast,
    'sext': op_cast, 'trunc': op_cast, 'ptrtoint': op_cast, 'inttoptr': op_cast, 'bitcast': op_cast,
    'select': op_select, 'extractvalue': op_extractvalue, 'insertvalue': op_insertvalue, 'freeze': op_freeze,
    'fence': op_fence, 'atomicrmw': op_atomicrmw, 'cmpxchg': op_cmpxchg, 'call': op_call, 'invoke': op_call,
    'landingpad': op_landingpad, 'resume': op_resume, 'uitofp': op_fpcast, 'sitofp': op_fpcast,
    'fptoui': op_fpcast, 'fptosi': op_fpcast, 'fpext': op_fpcast, 'fptrunc': op_fpcast, 'fcmp': op_fcmp,
    'fadd': op_fcmp, 'fmul': op_fcmp, 'fsub': op_fcmp, 'fdiv': op_fcmp, 'fneg': op_fcmp,
}
