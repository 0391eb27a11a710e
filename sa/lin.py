"""Numeric abstract domain: convex polyhedra over integer symbols (constraint representation).

Lin   linear expression  sum(coef*symbol)+const, integer coefficients, immutable.
Poly  a conjunction of constraints  e >= 0.  Entailment and emptiness are decided by
      Fourier-Motzkin elimination with integer tightening; a concrete integer point of a
      non-empty polyhedron is produced by back substitution (used to diagnose reports).
"""
from math import gcd


class Lin:
    __slots__ = ('t', 'c', 'h')

    def __init__(self, t, c):
        self.t = t          # tuple of (sym, coef), sorted, coef != 0
        self.c = c
        self.h = hash((t, c))

    @staticmethod
    def const(c):
        return Lin((), c) if c not in _cc else _cc[c]

    @staticmethod
    def sym(s):
        return Lin(((s, 1),), 0)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        if not o.t:
            return Lin(self.t, self.c + o.c)
        if not self.t:
            return Lin(o.t, self.c + o.c)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                del d[s]
        return Lin(tuple(sorted(d.items())), self.c + o.c)

    def __neg__(self):
        return Lin(tuple((s, -k) for s, k in self.t), -self.c)

    def __radd__(self, o):
        return self + o

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c - o)
        return self + (-o)

    def mul(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(tuple((s, c * k) for s, c in self.t), self.c * k)

    def div_exact(self, k):
        if self.c % k or any(c % k for _, c in self.t):
            return None
        return Lin(tuple((s, c // k) for s, c in self.t), self.c // k)

    def syms(self):
        return [s for s, _ in self.t]

    def subst(self, m):
        r = Lin.const(self.c)
        for s, k in self.t:
            r = r + (m[s].mul(k) if s in m else Lin(((s, k),), 0))
        return r

    def eval(self, m):
        return self.c + sum(k * m[s] for s, k in self.t)

    def __repr__(self):
        out = []
        for s, k in self.t:
            out.append(('+' if k > 0 else '-') + ('' if abs(k) == 1 else str(abs(k)) + '*') + s)
        if self.c or not out:
            out.append(('+' if self.c >= 0 else '-') + str(abs(self.c)))
        r = ''.join(out)
        return r[1:] if r[0] == '+' else r


_cc = {}
for _i in range(-256, 257):
    _cc[_i] = Lin((), _i)
ZERO = _cc[0]
ONE = _cc[1]


def L(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, int):
        return Lin.const(x)
    return Lin.sym(x)


def _norm(e):
    """tighten e >= 0 over the integers"""
    if not e.t:
        return e
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
        if g == 1:
            return e
    return Lin(tuple((s, k // g) for s, k in e.t), e.c // g)   # floor division


def _dedupe(cons):
    """tightest constant per direction; None if trivially empty"""
    best = {}
    for e in cons:
        e = _norm(e)
        if not e.t:
            if e.c < 0:
                return None
            continue
        o = best.get(e.t)
        if o is None or e.c < o:
            best[e.t] = e.c
    return best


LIMIT = 600


def _eliminate(cons, record=None):
    """Fourier-Motzkin.  True: empty.  False: rationally non-empty.  None: gave up."""
    best = _dedupe(cons)
    if best is None:
        return True
    while best:
        # equalities with a unit coefficient are substituted
        done = False
        for t, c in best.items():
            nt = tuple((s, -k) for s, k in t)
            if nt in best:
                if c + best[nt] < 0:
                    return True
                if c + best[nt] == 0:
                    for s, k in t:
                        if abs(k) == 1:
                            # k*s + rest + c = 0  ->  s = -k*(rest + c)
                            rest = Lin(tuple((a, b) for a, b in t if a != s), c)
                            e = rest.mul(-k)
                            if record is not None:
                                record.append((s, 'eq', e))
                            new = []
                            for t2, c2 in best.items():
                                x = Lin(t2, c2)
                                if any(a == s for a, _ in t2):
                                    x = x.subst({s: e})
                                new.append(x)
                            best = _dedupe(new)
                            done = True
                            break
                    if done:
                        break
        if done:
            if best is None:
                return True
            continue
        pos, neg = {}, {}
        for t in best:
            for s, k in t:
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        vs = sorted(set(pos) | set(neg))
        if not vs:
            return False
        v = min(vs, key=lambda s: (pos.get(s, 0) * neg.get(s, 0) - pos.get(s, 0) - neg.get(s, 0), s))
        ps, ns, rest = [], [], []
        for t, c in best.items():
            k = 0
            for s, kk in t:
                if s == v:
                    k = kk
                    break
            if k > 0:
                ps.append((k, Lin(t, c)))
            elif k < 0:
                ns.append((-k, Lin(t, c)))
            else:
                rest.append(Lin(t, c))
        if record is not None:
            record.append((v, 'ineq', [e for _, e in ps], [e for _, e in ns]))
        for a, e in ps:
            for b, f in ns:
                rest.append(e.mul(b) + f.mul(a))
        best = _dedupe(rest)
        if best is None:
            return True
        if len(best) > LIMIT:
            return None
    return False


_cache = {}


def empty(cons):
    key = frozenset(cons)
    r = _cache.get(key)
    if r is None:
        r = _eliminate(cons) is True
        if len(_cache) > 400000:
            _cache.clear()
        _cache[key] = r
    return r


def find_point(cons, prefer=None):
    """an integer point of the polyhedron or None"""
    rec = []
    if _eliminate(cons, rec) is not False:
        return None
    rec.reverse()
    allsyms = sorted({s for e in cons for s in e.syms()})
    budget = [4000]

    def go(i, m):
        if budget[0] <= 0:
            return None
        budget[0] -= 1
        if i == len(rec):
            full = dict(m)
            for s in allsyms:
                full.setdefault(s, 0)
            if all(e.eval(full) >= 0 for e in cons):
                return full
            return None
        step = rec[i]
        v = step[0]
        if step[1] == 'eq':
            e = step[2]
            mm = dict(m)
            for s in e.syms():
                mm.setdefault(s, 0)
            mm[v] = e.eval(mm)
            return go(i + 1, mm)
        lo = hi = None
        mm = dict(m)
        for e in step[2]:       # k*v + rest >= 0
            k = dict(e.t)[v]
            rest = Lin(tuple(x for x in e.t if x[0] != v), e.c)
            for s in rest.syms():
                mm.setdefault(s, 0)
            b = -(rest.eval(mm) // k)
            b = -((rest.eval(mm)) // k)
            lo = b if lo is None else max(lo, b)
        for e in step[3]:       # -k*v + rest >= 0
            k = -dict(e.t)[v]
            rest = Lin(tuple(x for x in e.t if x[0] != v), e.c)
            for s in rest.syms():
                mm.setdefault(s, 0)
            b = rest.eval(mm) // k
            hi = b if hi is None else min(hi, b)
        if lo is not None and hi is not None and lo > hi:
            return None
        cand = []
        if lo is None and hi is None:
            cand = [0]
        elif lo is None:
            cand = [min(hi, 1), hi, hi - 1, hi - 2]
        elif hi is None:
            cand = [lo, lo + 1, lo + 2, lo + 24]
        else:
            cand = [lo, lo + 1, lo + 2, hi, hi - 1, (lo + hi) // 2]
            cand = [c for c in cand if lo <= c <= hi]
        seen = set()
        for c in cand:
            if c in seen:
                continue
            seen.add(c)
            m2 = dict(mm)
            m2[v] = c
            r = go(i + 1, m2)
            if r is not None:
                return r
        return None

    return go(0, {})


class Poly:
    __slots__ = ('cs', 'memo')

    def __init__(self, cs=frozenset()):
        self.cs = cs
        self.memo = {}

    def relevant(self, syms):
        """constraints transitively sharing symbols with syms"""
        todo = set(syms)
        out, rest = [], list(self.cs)
        changed = True
        while changed:
            changed = False
            nrest = []
            for e in rest:
                if any(s in todo for s, _ in e.t):
                    out.append(e)
                    n = len(todo)
                    todo.update(s for s, _ in e.t)
                    changed = changed or len(todo) != n
                else:
                    nrest.append(e)
            rest = nrest
            if not changed:
                break
        return out

    def entails(self, e):
        """P |= e >= 0"""
        if not e.t:
            return e.c >= 0
        r = self.memo.get(e)
        if r is None:
            if e in self.cs:
                r = True
            else:
                r = empty(self.relevant(e.syms()) + [-e - 1])
            self.memo[e] = r
        return r

    def excludes(self, e):
        """P |= e < 0"""
        return self.entails(-e - 1)

    def eq0(self, e):
        return (e.c == 0) if not e.t else (self.entails(e) and self.entails(-e))

    def add(self, *es):
        cs = set(self.cs)
        for e in es:
            e = _norm(e)
            if e.t:
                cs.add(e)
            elif e.c < 0:
                return None
        p = Poly(frozenset(cs))
        return p

    def feasible(self):
        r = self.memo.get('feas')
        if r is None:
            r = not empty(list(self.cs))
            self.memo['feas'] = r
        return r

    def point(self):
        return find_point(list(self.cs))

    def __hash__(self):
        return hash(self.cs)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.cs == o.cs
