"""Fixpoint support: canonical form of an abstract state at a client-loop head,
projection of its constraints on the quantities that are still reachable, and
the subsumption test that ends the iteration.

A state is (shape, polyhedron).  The shape is the part of memory that later
operations can still see (live variables of the harness, the objects reachable
from them, ghost state), with every scalar replaced by a dimension; the
polyhedron is the projection of the state's constraints on these dimensions.
A new state is dropped when an already explored state has the same shape and a
polyhedron that contains it.
"""
from math import gcd
from lin import Sym, Lin, const, ZERO, _tighten, FM_CAP


def uses(ins):
    out = []

    def op(o):
        if not isinstance(o, tuple) or not o:
            return
        if o[0] == 'r':
            out.append(o[1])
        elif o[0] == 'agg':
            for x in o[1]:
                op(x)
        elif o[0] == 'ce':
            for x in o[2]:
                op(x)
    for o in ins.ops:
        op(o)
    if ins.op in ('call', 'invoke') and ins.x:
        op(ins.x[0])
    return out


def succs(ins):
    if ins.op == 'br':
        return list(ins.x)
    if ins.op == 'switch':
        return [ins.x[0]] + [b for _, b in ins.x[1]]
    if ins.op == 'invoke':
        return [ins.x[1], ins.x[2]]
    return []


def liveness(fn):
    """live-in register sets per block"""
    lv = getattr(fn, '_live', None)
    if lv is not None:
        return lv
    blocks = fn.blocks
    n = len(blocks)
    live = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for b in range(n - 1, -1, -1):
            ins = blocks[b].instrs
            cur = set()
            for s in succs(ins[-1]):
                phis = set()
                for p in blocks[s].instrs:
                    if p.op != 'phi':
                        break
                    phis.add(p.id)
                    o = p.x.get(b)
                    if o and o[0] == 'r':
                        cur.add(o[1])
                cur |= live[s] - phis
            for p in reversed(ins):
                cur.discard(p.id)
                if p.op != 'phi':
                    cur.update(uses(p))
            # phis are defined at entry
            if cur != live[b]:
                live[b] = cur
                changed = True
    fn._live = live
    return live


def live_after(fn, bb, ip):
    blocks = fn.blocks
    live = liveness(fn)
    ins = blocks[bb].instrs
    cur = set()
    for s in succs(ins[-1]):
        phis = set()
        for p in blocks[s].instrs:
            if p.op != 'phi':
                break
            phis.add(p.id)
            o = p.x.get(bb)
            if o and o[0] == 'r':
                cur.add(o[1])
        cur |= live[s] - phis
    for k in range(len(ins) - 1, ip, -1):
        cur.discard(ins[k].id)
        if ins[k].op != 'phi':
            cur.update(uses(ins[k]))
    cur.discard(ins[ip].id)
    return cur


class Canon:
    def __init__(self, I, st):
        self.I = I
        self.st = st
        self.f = st.facts
        self.cells = []
        self.cidx = {}
        self.regs = {}
        self.order = []
        self.arrs = {}
        self.sels = {}
        self.key = self.build()

    def cell(self, e):
        e = self.f.norm(e)
        if not e.t:
            return ('k', e.c)
        tag = None
        for s, k in e.t:
            inf = Sym.info[s]
            if inf and inf[0] == 'uninit':
                return ('un',)
            if inf and inf[0] == 'sel':
                tag = True
        if tag:
            parts = []
            rest = []
            for s, k in e.t:
                inf = Sym.info[s]
                if inf and inf[0] == 'sel':
                    if s not in self.sels:
                        self.sels[s] = len(self.sels)
                        a = self.arr(inf[1])
                        self.sels[s] = (len(self.sels) - 1, a, self.cell(inf[2]), inf[3])
                    parts.append((self.sels[s], k, self.plain(Lin(((s, 1),), 0))))
                else:
                    rest.append((s, k))
            return ('s', tuple(parts), self.plain(Lin(tuple(rest), e.c)))
        return self.plain(e)

    def plain(self, e):
        if not e.t:
            return ('k', e.c)
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if e.t[0][1] < 0 and len(e.t) == 1:
            pass
        c = e.c % g
        b = Lin(tuple((s, k // g) for s, k in e.t), (e.c - c) // g)
        i = self.cidx.get(b)
        if i is None:
            i = self.cidx[b] = len(self.cells)
            self.cells.append(b)
        return ('x', i, g, c)

    def arr(self, a):
        if isinstance(a, str) and a.startswith('$'):
            return a
        n = self.arrs.get(a)
        if n is None:
            n = self.arrs[a] = len(self.arrs)
        return n

    def region(self, rid):
        n = self.regs.get(rid)
        if n is None:
            n = self.regs[rid] = len(self.regs)
            self.order.append(rid)
        return n

    def value(self, v):
        if isinstance(v, Lin):
            v = self.f.norm(v)
            bs = [(s, k) for s, k in v.t if Sym.info[s] and Sym.info[s][0] == 'base']
            if len(bs) == 1:
                s, k = bs[0]
                inf = Sym.info[s]
                if k == inf[2]:
                    r = self.st.mem.get(inf[1])
                    if r is not None:
                        return ('p', self.region(inf[1]), self.cell(v.sub(r.base)))
            return self.cell(v)
        if isinstance(v, (list, tuple)):
            return tuple(self.value(x) for x in v)
        return ('py', repr(v))

    def build(self):
        st = self.st
        out = []
        for i, fr in enumerate(st.frames):
            lv = live_after(fr.fn, fr.bb, fr.ip)
            out.append((fr.fn.name, fr.bb, fr.ip, tuple((r, self.value(fr.regs[r])) for r in sorted(lv) if r in fr.regs)))
            for rid in fr.allocas:
                if rid in st.mem and st.mem[rid].live:
                    pass
        for nm, rid in self.I.gaddr.items():
            r = st.mem.get(rid)
            if r is not None and not r.const and not nm.startswith('_ZT'):
                out.append(('g', nm, self.region(rid)))
        for k in sorted(st.ghost, key=str):
            v = st.ghost[k]
            if k == 'objs':
                o = []
                for rid, off, sz, tag in v:
                    o.append((self.region(rid), self.cell(off), sz, tag))
                out.append(('objs', tuple(sorted(o, key=str))))
            elif k == 'held':
                out.append(('held', tuple(sorted(((self.region(rid), self.cell(off), self.cell(n)) for rid, off, n in v), key=str))))
            elif k in ('lastrepo', 'lastrmw'):
                continue
            else:
                out.append((str(k), self.value(v)))
        out.append(('locks', tuple((self.region(a), self.cell(b)) for a, b in st.locks)))
        out.append(('exc', st.exc is not None))
        i = 0
        while i < len(self.order):
            r = st.mem[self.order[i]]
            i += 1
            if r.const:
                out.append(('const', r.name))
                continue
            if not r.live:
                out.append(('dead', r.kind, tuple(sorted(map(str, r.meta)))))
                continue
            segs = []
            for lo, hi, k, pl in r.segs:
                if k == 'V':
                    p = (self.value(pl[0]), pl[1])
                elif k == 'C':
                    p = (self.arr(pl[0]), self.cell(pl[1]))
                elif k == 'B':
                    p = self.value(pl)
                else:
                    p = None
                segs.append((self.cell(lo), self.cell(hi), k, p))
            out.append((r.kind, r.align, self.cell(r.size), tuple(segs),
                        tuple((str(a), self.value(b)) for a, b in sorted(r.meta.items(), key=str))))
        # unreachable but live heap blocks only count
        lost = {}
        for rid, r in st.mem.items():
            if r.live and r.kind == 'heap' and rid not in self.regs:
                t = tuple(sorted(map(str, r.meta)))
                lost[t] = lost.get(t, 0) + 1
        out.append(('lost', tuple(sorted(lost.items()))))
        return tuple(out)


def project(facts, cells):
    """inequalities over dimension indices implied by the facts (list of (tuple, c)), or None"""
    seed = set()
    for e in cells:
        for s, _ in e.t:
            seed.add(s)
    cons, comp = facts._component(seed)
    work = {}

    def put(t, c):
        t, c = _tighten(t, c)
        if not t:
            return
        o = work.get(t)
        if o is None or c < o:
            work[t] = c
    for t, c in cons:
        put(t, c)
    eqs = []
    for i, e in enumerate(cells):
        d = dict(e.t)
        d[-1 - i] = -1
        eqs.append((d, e.c))
    # eliminate program symbols through the defining equations
    while True:
        hit = None
        for qi, (d, c) in enumerate(eqs):
            for s, k in d.items():
                if s >= 0 and k in (1, -1):
                    hit = (qi, s, k)
                    break
            if hit:
                break
        if not hit:
            break
        qi, s, k = hit
        d, c = eqs.pop(qi)
        rest = {a: -b * k for a, b in d.items() if a != s}
        rc = -c * k

        def subst(d2, c2):
            b = d2.pop(s, 0)
            if b:
                for a, x in rest.items():
                    v = d2.get(a, 0) + b * x
                    if v:
                        d2[a] = v
                    else:
                        d2.pop(a, None)
                c2 += b * rc
            return d2, c2
        eqs = [subst(dict(a), b) for a, b in eqs]
        old = work
        work = {}
        for t, c2 in old.items():
            d2, c3 = subst(dict(t), c2)
            put(tuple(sorted(d2.items())), c3)
    for d, c in eqs:
        if any(a >= 0 for a in d):
            return None          # elimination would lose a congruence
        t = tuple(sorted(d.items()))
        put(t, c)
        put(tuple((a, -b) for a, b in t), -c)
    # Fourier-Motzkin on what is left
    while True:
        pos, neg = {}, {}
        for t in work:
            for s, k in t:
                if s >= 0:
                    (pos if k > 0 else neg).setdefault(s, []).append(t)
        cand = set(pos) | set(neg)
        if not cand:
            break
        s = min(cand, key=lambda x: (len(pos.get(x, ())) * len(neg.get(x, ())) - len(pos.get(x, ())) - len(neg.get(x, ())), x))
        P, N = pos.get(s, []), neg.get(s, [])
        old = work
        work = {t: c for t, c in old.items() if t not in set(P) and t not in set(N)}
        for t1 in P:
            k1 = dict(t1)[s]
            for t2 in N:
                k2 = -dict(t2)[s]
                if k1 != 1 and k2 != 1:
                    return None  # the projection would not be exact over the integers
                g = gcd(k1, k2)
                a1, a2 = k2 // g, k1 // g
                d = {x: b * a1 for x, b in t1 if x != s}
                for x, b in t2:
                    if x != s:
                        v = d.get(x, 0) + b * a2
                        if v:
                            d[x] = v
                        else:
                            d.pop(x, None)
                put(tuple(sorted(d.items())), old[t1] * a1 + old[t2] * a2)
        if len(work) > FM_CAP:
            return None
    return list(work.items())


def subsumed(facts, cells, rec):
    """does the state imply every constraint of the recorded polyhedron?"""
    for t, c in rec:
        e = const(c)
        for d, k in t:
            e = e.add(cells[-1 - d].scale(k))
        if facts.decide_ge(e) is not True:
            return False
    return True


def simplify(I, st):
    """drop empty segments; join neighbouring stretches of arbitrary bytes that nothing else refers to"""
    f = st.facts
    cnt = {}
    for r in st.mem.values():
        if r.live:
            for s in r.segs:
                if s[2] == 'C':
                    cnt[s[3][0]] = cnt.get(s[3][0], 0) + 1
    read = {k[0] for k in I.selmemo if len(k) == 3 and isinstance(k[0], str)}
    for rid, r in list(st.mem.items()):
        if not r.live or r.const or len(r.segs) < 2:
            continue
        out = []
        ch = False

        def free(s):
            a = s[3][0]
            return cnt[a] == 1 and not a.startswith('$') and a not in read
        for s in r.segs:
            if s[0] == s[1]:
                ch = True
                continue
            if out and out[-1][2] == s[2]:
                p = out[-1]
                if s[2] == 'U' or (s[2] == 'B' and p[3] == s[3]):
                    out[-1] = (p[0], s[1], s[2], s[3])
                    ch = True
                    continue
                if s[2] == 'C':
                    same = p[3][0] == s[3][0] and f.norm(p[3][1].add(p[1]).sub(p[0])) == f.norm(s[3][1])
                    if same or (free(p) and free(s)):
                        out[-1] = (p[0], s[1], 'C', p[3])
                        ch = True
                        continue
            out.append(s)
        if ch and out:
            r2 = r.clone()
            r2.segs = tuple(out)
            st.mem[rid] = r2
