"""Linear integer expressions and the constraint store of the abstract domain.

The domain is a conjunction of linear (in)equalities over integer symbols.  Its
only non-trivial operation is the emptiness test, by Fourier-Motzkin elimination
with integer (gcd/floor) tightening, plus a search for an integer point by back
substitution.  No SMT solver is involved.
"""
from math import gcd


class Sym:
    """Global symbol table (symbols are immutable unknown integers)."""
    names = []
    lo = []
    hi = []
    info = []

    @classmethod
    def new(cls, name, lo=None, hi=None, info=None):
        cls.names.append(name)
        cls.lo.append(lo)
        cls.hi.append(hi)
        cls.info.append(info)
        return len(cls.names) - 1

    @classmethod
    def reset(cls):
        cls.names, cls.lo, cls.hi, cls.info = [], [], [], []


class Lin:
    """sum(coef*sym) + c ; immutable, hashable."""
    __slots__ = ('t', 'c', '_h')

    def __init__(self, t, c):
        self.t = t          # tuple of (sym, coef), sorted, no zero coefs
        self.c = c
        self._h = None

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash((self.t, self.c))
        return h

    def __eq__(self, o):
        return self is o or (self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t

    def add(self, o):
        if not o.t:
            return Lin(self.t, self.c + o.c) if o.c else self
        if not self.t:
            return Lin(o.t, self.c + o.c) if self.c else o
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                del d[s]
        return Lin(tuple(sorted(d.items())), self.c + o.c)

    def addc(self, k):
        return Lin(self.t, self.c + k) if k else self

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return Lin(tuple((s, c * k) for s, c in self.t), self.c * k)

    def sub(self, o):
        if not o.t:
            return Lin(self.t, self.c - o.c) if o.c else self
        return self.add(o.scale(-1))

    def neg(self):
        return self.scale(-1)

    def syms(self):
        return [s for s, _ in self.t]

    def __repr__(self):
        return show(self)


def show(e):
    out = []
    for s, k in e.t:
        n = Sym.names[s] if s < len(Sym.names) else f"s{s}"
        out.append(f"{n}" if k == 1 else f"{k}*{n}")
    if e.c or not out:
        c = e.c
        for p in (64, 63, 47, 46):
            if abs(c - (1 << p)) < 4096 and c > 4096 * 4:
                out.append(f"2^{p}" + (f"{c-(1<<p):+d}" if c != 1 << p else ''))
                break
        else:
            out.append(str(c))
    return ' + '.join(out).replace('+ -', '- ')


ZERO = Lin((), 0)
ONE = Lin((), 1)


def const(k):
    return Lin((), k)


def sym(s, k=1):
    return Lin(((s, k),), 0)


def _tighten(t, c):
    """normalise sum >= 0: divide by gcd, floor the constant."""
    g = 0
    for _, k in t:
        g = gcd(g, k)
        if g == 1:
            return t, c
    if g > 1:
        return tuple((s, k // g) for s, k in t), c // g
    return t, c


class Infeasible(Exception):
    pass


FM_CAP = 1500


def fm(cons, want_model=True):
    """cons: list of (tuple t, c) meaning sum>=0.
    Returns ('unsat',None) | ('sat', model or None) | ('unknown', None)"""
    best = {}
    for t, c in cons:
        t, c = _tighten(t, c)
        if not t:
            if c < 0:
                return 'unsat', None
            continue
        o = best.get(t)
        if o is None or c < o:
            best[t] = c
    # opposite pairs
    for t, c in list(best.items()):
        n = tuple((s, -k) for s, k in t)
        o = best.get(n)
        if o is not None and c + o < 0:
            return 'unsat', None
    # substitute implicit equalities  t+c==0 with a unit coefficient
    elim = []
    work = best
    while True:
        eqn = None
        for t, c in work.items():
            n = tuple((s, -k) for s, k in t)
            o = work.get(n)
            if o is not None and o == -c:
                for s, k in t:
                    if k in (1, -1):
                        eqn = (t, c, s, k)
                        break
                if eqn:
                    break
        if not eqn:
            break
        t, c, s, k = eqn
        # k*s + rest + c == 0 -> s = -(rest+c)/k
        rest = {a: (-b * k) for a, b in t if a != s}
        rc = -c * k
        elim.append((s, 'eq', rest, rc))
        new = {}
        for t2, c2 in work.items():
            d = dict(t2)
            b = d.pop(s, 0)
            if b:
                for a, e in rest.items():
                    v = d.get(a, 0) + b * e
                    if v:
                        d[a] = v
                    else:
                        d.pop(a, None)
                c2 = c2 + b * rc
                t2 = tuple(sorted(d.items()))
                t2, c2 = _tighten(t2, c2)
                if not t2:
                    if c2 < 0:
                        return 'unsat', None
                    continue
            o = new.get(t2)
            if o is None or c2 < o:
                new[t2] = c2
        for t2, c2 in new.items():
            n = tuple((a, -b) for a, b in t2)
            o = new.get(n)
            if o is not None and c2 + o < 0:
                return 'unsat', None
        work = new
    exact = True
    while work:
        pos = {}
        neg = {}
        for t, c in work.items():
            for s, k in t:
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        bestv = None
        bs = None
        for s in set(pos) | set(neg):
            p = pos.get(s, 0)
            n = neg.get(s, 0)
            sc = p * n - p - n
            if bs is None or sc < bs:
                bs = sc
                bestv = s
        s = bestv
        P = []
        N = []
        new = {}
        for t, c in work.items():
            k = 0
            for a, b in t:
                if a == s:
                    k = b
                    break
            if k > 0:
                P.append((t, c, k))
            elif k < 0:
                N.append((t, c, k))
            else:
                new[t] = c
        elim.append((s, 'fm', P, N))
        for t1, c1, k1 in P:
            for t2, c2, k2 in N:
                k2 = -k2
                g = gcd(k1, k2)
                a1, a2 = k2 // g, k1 // g
                if a1 != 1 and a2 != 1:
                    exact = False
                d = {}
                for x, b in t1:
                    if x != s:
                        d[x] = b * a1
                for x, b in t2:
                    if x != s:
                        v = d.get(x, 0) + b * a2
                        if v:
                            d[x] = v
                        else:
                            d.pop(x, None)
                c = c1 * a1 + c2 * a2
                t = tuple(sorted(d.items()))
                t, c = _tighten(t, c)
                if not t:
                    if c < 0:
                        return 'unsat', None
                    continue
                o = new.get(t)
                if o is None or c < o:
                    n = tuple((x, -b) for x, b in t)
                    oo = new.get(n)
                    if oo is not None and oo + c < 0:
                        return 'unsat', None
                    new[t] = c
        if len(new) > FM_CAP:
            return 'unknown', None
        work = new
    if not want_model:
        return 'sat', None
    # integer model by back substitution with limited backtracking
    order = list(reversed(elim))
    model = {}
    budget = [400]

    def ev(t, c, skip):
        v = c
        for a, b in t:
            if a != skip:
                v += b * model.get(a, 0)
        return v

    def go(i):
        if i == len(order):
            return True
        budget[0] -= 1
        if budget[0] < 0:
            return False
        s, kind, A, B = order[i]
        if kind == 'eq':
            v = B
            for a, b in A.items():
                v += b * model.get(a, 0)
            model[s] = v
            return go(i + 1)
        lo = hi = None
        for t, c, k in A:
            v = ev(t, c, s)
            b = -(v // k)       # k*s + v >=0 -> s >= ceil(-v/k)
            if lo is None or b > lo:
                lo = b
        for t, c, k in B:
            v = ev(t, c, s)
            b = v // (-k)
            if hi is None or b < hi:
                hi = b
        if lo is not None and hi is not None and lo > hi:
            return False
        cands = []
        if lo is not None:
            cands = [lo, lo + 1, lo + 2]
            if hi is not None:
                cands += [hi, (lo + hi) // 2]
        elif hi is not None:
            cands = [hi, hi - 1]
            if hi >= 0:
                cands.insert(0, 0)
        else:
            cands = [0]
        seen = set()
        for v in cands:
            if v in seen or (lo is not None and v < lo) or (hi is not None and v > hi):
                continue
            seen.add(v)
            model[s] = v
            if go(i + 1):
                return True
            if budget[0] < 0:
                return False
        return False

    import sys
    if len(order) > 800:
        return 'sat', None
    if go(0):
        return 'sat', model
    return 'sat', None


class Facts:
    """Conjunction of linear constraints, with solved-form equalities."""
    __slots__ = ('sub', 'ineqs', 'neqs', 'model', 'cache', 'stats', 'byS')

    def __init__(self):
        self.sub = {}
        self.ineqs = {}     # t -> c  (t + c >= 0, tightest)
        self.neqs = frozenset()
        self.model = {}     # integer point, or None when unknown
        self.cache = {}
        self.byS = None

    def copy(self):
        f = Facts()
        f.sub = dict(self.sub)
        f.ineqs = dict(self.ineqs)
        f.neqs = self.neqs
        f.model = None if self.model is None else dict(self.model)
        f.cache = dict(self.cache)
        return f

    # -- normal form
    def norm(self, e):
        sub = self.sub
        for s, _ in e.t:
            if s in sub:
                break
        else:
            return e
        r = Lin((), e.c)
        keep = []
        for s, k in e.t:
            x = sub.get(s)
            if x is None:
                keep.append((s, k))
            else:
                r = r.add(x.scale(k))
        return r.add(Lin(tuple(keep), 0))

    def value_in(self, model, e):
        v = e.c
        for s, k in e.t:
            x = model.get(s)
            if x is None:
                x = self._default(s, model)
            v += k * x
        return v

    def _default(self, s, model):
        lo, hi = Sym.lo[s], Sym.hi[s]
        v = 0
        if lo is not None and v < lo:
            v = lo
        if hi is not None and v > hi:
            v = hi
        model[s] = v
        return v

    def _component(self, seed):
        """constraints connected to the seed symbols (with symbol bounds)."""
        byS = self.byS
        if byS is None:
            byS = {}
            for t in self.ineqs:
                for s, _ in t:
                    byS.setdefault(s, []).append(t)
            self.byS = byS
        done = set()
        todo = list(seed)
        cons = {}
        while todo:
            s = todo.pop()
            if s in done:
                continue
            done.add(s)
            for t in byS.get(s, ()):
                if t not in cons:
                    cons[t] = self.ineqs[t]
                    for a, _ in t:
                        if a not in done:
                            todo.append(a)
        out = list(cons.items())
        for s in done:
            lo, hi = Sym.lo[s], Sym.hi[s]
            if lo is not None:
                out.append((((s, 1),), -lo))
            if hi is not None:
                out.append((((s, -1),), hi))
        return out, done

    def bounds_quick(self, e):
        lo = hi = e.c
        for s, k in e.t:
            sl, sh = Sym.lo[s], Sym.hi[s]
            c = self.ineqs.get(((s, 1),))
            if c is not None and (sl is None or -c > sl):
                sl = -c
            c = self.ineqs.get(((s, -1),))
            if c is not None and (sh is None or c < sh):
                sh = c
            if k < 0:
                sl, sh = sh, sl
            lo = None if (lo is None or sl is None) else lo + k * sl
            hi = None if (hi is None or sh is None) else hi + k * sh
            if lo is None and hi is None:
                break
        return lo, hi

    def sat_with(self, extra):
        """extra: list of Lin (>=0). returns (status, model)"""
        seed = set()
        ex = []
        for e in extra:
            e = self.norm(e)
            if not e.t:
                if e.c < 0:
                    return 'unsat', None
                continue
            ex.append((e.t, e.c))
            for s, _ in e.t:
                seed.add(s)
        if not ex:
            return 'sat', self.model
        if self.model is not None:
            if all(self.value_in(self.model, Lin(t, c)) >= 0 for t, c in ex):
                return 'sat', self.model
        cons, comp = self._component(seed)
        st, m = fm(cons + ex, True)
        if st == 'sat' and m is not None and self.model is not None:
            mm = dict(self.model)
            for s in comp:
                mm.pop(s, None)
            for s in comp | seed:
                if s in m:
                    mm[s] = m[s]
            for s in comp:
                if s not in mm:
                    self._default(s, mm)
            # neqs
            bad = [n for n in self.neqs if self.value_in(mm, n) == 0]
            if bad:
                # nudge: try each side
                n = bad[0]
                for side in (n.addc(-1), n.neg().addc(-1)):
                    side = self.norm(side)
                    if side.t:
                        cons2, comp2 = self._component(seed | set(side.syms()))
                        st2, m2 = fm(cons2 + ex + [(side.t, side.c)], True)
                        if st2 == 'sat' and m2 is not None:
                            mm = dict(self.model)
                            for s in comp2:
                                mm.pop(s, None)
                                if s in m2:
                                    mm[s] = m2[s]
                            for s in m2:
                                mm[s] = m2[s]
                            if all(self.value_in(mm, x) != 0 for x in self.neqs):
                                return 'sat', mm
                return 'sat', None
            return 'sat', mm
        if st == 'sat':
            return 'sat', None
        return st, None

    def recover(self):
        """look for an integer point of the whole constraint set"""
        seed = set()
        for t in self.ineqs:
            for s, _ in t:
                seed.add(s)
        for n in self.neqs:
            for s, _ in n.t:
                seed.add(s)
        cons, comp = self._component(seed)
        st, m = fm(cons, True)
        if st == 'sat' and m is not None:
            mm = dict(m)
            for n in self.neqs:
                if self.value_in(mm, n) == 0:
                    for side in (n.addc(-1), n.neg().addc(-1)):
                        st, m2 = fm(cons + [(side.t, side.c)], True)
                        if st == 'sat' and m2 is not None and all(self.value_in(dict(m2), x) != 0 for x in self.neqs):
                            mm = dict(m2)
                            break
            self.model = mm

    # -- queries: True / False / None
    def decide_ge(self, e):
        """is e >= 0 ?  True always / False never / None both possible"""
        e = self.norm(e)
        if not e.t:
            return e.c >= 0
        t, c = _tighten(e.t, e.c)
        e = Lin(t, c)
        r = self.cache.get(e)
        if r is not None:
            return r
        lo, hi = self.bounds_quick(e)
        if lo is not None and lo >= 0:
            self.cache[e] = True
            return True
        if hi is not None and hi < 0:
            self.cache[e] = False
            return False
        k = self.ineqs.get(t)
        if k is not None and k <= c:
            return True
        n = tuple((s, -b) for s, b in t)
        k = self.ineqs.get(n)
        if k is not None and k + c < 0:
            return False
        v = None
        if self.model is not None:
            v = self.value_in(self.model, e) >= 0
        can_true = v is True
        can_false = v is False
        if not can_false:
            st, m = self.sat_with([e.neg().addc(-1)])
            if st == 'unsat':
                self.cache[e] = True
                return True
            can_false = True
        if not can_true:
            st, m = self.sat_with([e])
            if st == 'unsat':
                self.cache[e] = False
                return False
        return None

    def decide_eq(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c == 0
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if g > 1 and e.c % g:
            return False
        if self._neq_known(e):
            return False
        a = self.decide_ge(e)
        if a is False:
            return False
        b = self.decide_ge(e.neg())
        if b is False:
            return False
        if a and b:
            return True
        return None

    def _neq_known(self, e):
        if not self.neqs:
            return False
        return e in self.neqs or e.neg() in self.neqs

    # -- assertions (raise Infeasible)
    def assume_ge(self, e, check=True):
        e = self.norm(e)
        if not e.t:
            if e.c < 0:
                raise Infeasible()
            return
        t, c = _tighten(e.t, e.c)
        o = self.ineqs.get(t)
        if o is not None and o <= c:
            return
        e = Lin(t, c)
        if check:
            st, m = self.sat_with([e])
            if st == 'unsat':
                raise Infeasible()
            self.model = m
        elif self.model is not None and self.value_in(self.model, e) < 0:
            self.model = None
        self.ineqs[t] = c
        self.byS = None
        n = tuple((s, -b) for s, b in t)
        o = self.ineqs.get(n)
        if o is not None and o == -c:
            self._eq(e, False)
            return
        # e >= 0 and e != 0  ->  e >= 1
        if self.neqs:
            for x in (e, e.neg()):
                if x in self.neqs:
                    self.assume_ge(e.addc(-1), check)
                    return

    def assume_ne(self, e):
        e = self.norm(e)
        if not e.t:
            if e.c == 0:
                raise Infeasible()
            return
        a = self.decide_ge(e)
        b = self.decide_ge(e.neg())
        if a is False or b is False:
            return
        if a:
            self.assume_ge(e.addc(-1))
            return
        if b:
            self.assume_ge(e.neg().addc(-1))
            return
        self.neqs = self.neqs | {e}
        if self.model is not None and self.value_in(self.model, e) == 0:
            st, m = self.sat_with([e.addc(-1)])
            if m is None:
                st, m = self.sat_with([e.neg().addc(-1)])
            self.model = m

    def assume_eq(self, e):
        e = self.norm(e)
        if not e.t:
            if e.c != 0:
                raise Infeasible()
            return
        if self._neq_known(e):
            raise Infeasible()
        self._eq(e, True)

    def _eq(self, e, check):
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if e.c % g:
            raise Infeasible()
        if g > 1:
            e = Lin(tuple((s, k // g) for s, k in e.t), e.c // g)
        if check:
            st, m = self.sat_with([e, e.neg()])
            if st == 'unsat':
                raise Infeasible()
            self.model = m
        # choose a symbol with unit coefficient, preferring derived-from (older, wide) symbols
        pick = None
        for s, k in e.t:
            if k in (1, -1):
                pr = self._elim_pref(s)
                if pick is None or pr > pick[0]:
                    pick = (pr, s, k)
        if pick is None:
            t, c = e.t, e.c
            self.ineqs[t] = min(c, self.ineqs.get(t, c))
            n = tuple((s, -b) for s, b in t)
            self.ineqs[n] = min(-c, self.ineqs.get(n, -c))
            self.byS = None
            return
        _, s, k = pick
        rest = Lin(tuple((a, -b * k) for a, b in e.t if a != s), -e.c * k)
        self._substitute(s, rest)

    def _elim_pref(self, s):
        inf = Sym.info[s]
        if inf and inf[0] == 'base':
            return -5
        if inf and inf[0] in ('rem',):
            return -3
        if inf and inf[0] in ('quo',):
            return -2
        if inf and inf[0] in ('sel',):
            return -1
        return 0

    def _substitute(self, s, rhs):
        sub = self.sub
        for k, v in list(sub.items()):
            for a, b in v.t:
                if a == s:
                    sub[k] = v.add(rhs.scale(b)).add(Lin(((s, -b),), 0))
                    break
        sub[s] = rhs
        old = self.ineqs
        new = {}
        redo = []
        for t, c in old.items():
            for a, b in t:
                if a == s:
                    e = Lin(t, c).add(rhs.scale(b)).add(Lin(((s, -b),), 0))
                    redo.append(e)
                    break
            else:
                new[t] = c
        lo, hi = Sym.lo[s], Sym.hi[s]
        if lo is not None:
            redo.append(rhs.addc(-lo))
        if hi is not None:
            redo.append(rhs.neg().addc(hi))
        self.ineqs = new
        self.byS = None
        for e in redo:
            e = self.norm(e)
            if not e.t:
                if e.c < 0:
                    raise Infeasible()
                continue
            l, h = self.bounds_quick(e)
            if l is not None and l >= 0:
                continue
            t, c = _tighten(e.t, e.c)
            o = self.ineqs.get(t)
            if o is None or c < o:
                self.ineqs[t] = c
                self.byS = None
        if self.neqs:
            nn = set()
            for n in self.neqs:
                n = self.norm(n)
                if not n.t:
                    if n.c == 0:
                        raise Infeasible()
                    continue
                nn.add(n)
            self.neqs = frozenset(nn)
        self.cache = {k: v for k, v in self.cache.items() if all(a != s for a, _ in k.t)}
        # newly implied equalities (pairs of opposite inequalities)
        for t, c in list(self.ineqs.items()):
            if self.ineqs.get(t) != c:
                continue
            n = tuple((a, -b) for a, b in t)
            o = self.ineqs.get(n)
            if o is not None:
                if o + c < 0:
                    raise Infeasible()
                if o == -c and any(b in (1, -1) for _, b in t):
                    del self.ineqs[t]
                    del self.ineqs[n]
                    self.byS = None
                    self._eq(Lin(t, c), False)
                    return
