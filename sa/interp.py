"""Forward abstract interpretation of LLVM IR.

Disjunctive (trace partitioned) abstract states are propagated over the control flow graph in
reverse post order; states meeting at a block are merged when they agree up to boolean
functions, calls are analysed context-sensitively, standard algorithms and the opaque element
type are replaced by the transfer functions in models.py.
"""
import heapq
import re
from lin import Lin, L, Poly, ZERO
from dom import *
from mem import MemMixin, width
import bdd
from models import ModelMixin

BASES = {
    '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc', '_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt19bad_optional_access': ['_ZTISt9exception'],
    '_ZTISt18bad_variant_access': ['_ZTISt9exception'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
}


class FnInfo:
    def __init__(self, name, d):
        self.name = name
        self.d = d
        self.dem = d['dem']
        self.blocks = d['blocks']
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(self.blocks):
            t = b[-1]
            if t['op'] == 'br':
                self.succ[i] = list(t['succ'])
            elif t['op'] == 'switch':
                self.succ[i] = [t['default']] + [c[1] for c in t['cases']]
            elif t['op'] == 'invoke':
                self.succ[i] = [t['normal'], t['unwind']]
        self.pred = [[] for _ in range(n)]
        for i, s in enumerate(self.succ):
            for k in s:
                self.pred[k].append(i)
        # reverse post order
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(self.succ[v])))
                    break
            else:
                order.append(u)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        # natural loops
        dom = {0: {0}}
        allb = set(order)
        for b in order[1:]:
            dom[b] = set(allb)
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in self.pred[b] if p in dom]
                x = set.intersection(*ps) if ps else set()
                x = x | {b}
                if x != dom[b]:
                    dom[b] = x
                    ch = True
        loops = {}
        for u in order:
            for v in self.succ[u]:
                if v in dom[u]:
                    body = loops.setdefault(v, {v})
                    todo = [u]
                    while todo:
                        x = todo.pop()
                        if x not in body:
                            body.add(x)
                            todo += [p for p in self.pred[x] if p in seen]
        self.loops = loops
        self.inloops = {b: sorted([h for h, bd in loops.items() if b in bd], key=lambda h: (-len(loops[h]), self.rpo[h])) for b in order}
        # liveness of SSA values at block entries
        use, deff = {}, {}
        for b in order:
            u, d2 = set(), set()
            for ins in self.blocks[b]:
                if ins['op'] != 'phi':
                    for x in operands(ins):
                        if x not in d2:
                            u.add(x)
                d2.add(ins['id'])
            use[b], deff[b] = u, d2
        livein = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set()
                for s in self.succ[b]:
                    if s in livein:
                        out |= livein[s]
                        for ins in self.blocks[s]:
                            if ins['op'] == 'phi':
                                for (pb, o) in ins['in']:
                                    if pb == b and o[0] == 'v':
                                        out.add(o[1])
                x = use[b] | (out - deff[b])
                if x != livein[b]:
                    livein[b] = x
                    ch = True
        for b in order:
            livein[b] = livein[b] | {i['id'] for i in self.blocks[b] if i['op'] == 'phi'}
        self.livein = livein


def operands(ins):
    out = []

    def w(o):
        if isinstance(o, list) and o and o[0] == 'v':
            out.append(o[1])
    for k in ('ops', 'args'):
        for o in ins.get(k, ()):
            w(o)
    for k in ('cond', 'base', 'callee'):
        if k in ins:
            w(ins[k])
    for v in ins.get('var', ()):
        w(v[0])
    return out


class Report:
    def __init__(self, kind, msg, loc, entry, case, point, decided, where):
        self.kind, self.msg, self.loc, self.entry, self.case, self.point, self.decided, self.where = kind, msg, loc, entry, case, point, decided, where


class Engine(MemMixin, ModelMixin):
    def __init__(self, mod, opt=None):
        self.m = mod
        self.fns = mod['functions']
        self.gl = mod['globals']
        self.opt = opt or {}
        self.info = {}
        self.reports = []
        self.unknown = []
        self.stat = {'insts': 0, 'states': 0, 'calls': 0, 'merged': 0}
        self.obls = {}
        self.used = set()
        self.entry = self.case = None
        self.stack = []
        self.maxit = self.opt.get('maxit', 7)
        self.cur_align = self.opt.get('align', 8)      # alignment elements need
        self.dtor_cache = {}

    # -- reporting ----------------------------------------------------------
    def locs(self, loc):
        if not loc:
            return '?'
        f = loc[1]
        return '%s:%d' % (f.split('/inc/')[-1] if '/inc/' in f else f.split('/')[-1], loc[0])

    def obl(self, kind, loc=None):
        self.obls[kind] = self.obls.get(kind, 0) + 1

    def report(self, st, kind, msg, loc=None, fatal=False):
        """a rule is violated on every concrete state of the (non-empty) partition st"""
        point = None
        ok = st.P.feasible() and st.pc != bdd.F
        if ok:
            point = st.P.point()
            if point is None:
                decided = False
                why = 'no integer point found'
            else:
                decided = not st.fl
                why = ','.join(sorted(st.fl))
            if point is not None and st.pc not in (bdd.T,):
                point = dict(point)
                point.update(bdd.sat(st.pc) or {})
            where = [self.locs(l) + ' ' + n for n, l in self.stack]
            if decided:
                r = Report(kind, msg, loc, self.entry, self.case, point, True, where)
                r.wrapped = ('wrap',) in st.at
                self.reports.append(r)
            else:
                self.unknown.append((self.entry, self.case, '%s (%s)' % (msg, why), self.locs(loc)))
        if fatal:
            raise Kill()

    def giveup(self, why, loc):
        self.unknown.append((self.entry, self.case, why, self.locs(loc)))

    # -- operands -----------------------------------------------------------
    def val(self, o, env, st):
        k = o[0]
        if k == 'v':
            return env[o[1]]
        if k == 'i':
            w = o[1]
            c = int(o[2])
            return I(w, c & 1 if w == 1 else c)
        if k == 'n':
            return NULL
        if k == 'u':
            return UNDEF if not isinstance(o[1], list) else self.undef_agg(o[1])
        if k == 'f':
            return Fn(o[1])
        if k == 'g':
            return self.global_ptr(st, o[1])
        if k == 'g+':
            b = self.val(o[1], env, st)
            return Ptr(b.r, b.o + int(o[2]))
        if k == 'z':
            return self.zero_agg(o[1])
        if k == 'agg':
            return Agg([self.val(x, env, st) for x in o[2]])
        if k == 'm':
            return UNDEF
        if k == 'ce':
            if o[1] in ('inttoptr', 'ptrtoint', 'bitcast'):
                v = self.val(o[2][0], env, st)
                if o[1] == 'inttoptr':
                    return self.inttoptr(st, v)
                if o[1] == 'ptrtoint':
                    return self.ptrtoint(v, int(o[3][1:]))
                return v
        raise Unknown('operand ' + str(o)[:60])

    def undef_agg(self, ty):
        if ty[0] == 's':
            return Agg([self.undef_agg(t) if isinstance(t, list) else UNDEF for _, t in ty[1]])
        if ty[0] == 'a':
            return Agg([self.undef_agg(ty[2]) if isinstance(ty[2], list) else UNDEF] * ty[1])
        return UNDEF

    def zero_agg(self, ty):
        if isinstance(ty, list):
            if ty[0] == 's':
                return Agg([self.zero_agg(t) for _, t in ty[1]])
            return Agg([self.zero_agg(ty[2])] * ty[1])
        if ty == 'ptr':
            return NULL
        return I(int(ty[1:]), 0)

    def global_ptr(self, st, name):
        if name not in st.R:
            g = self.gl.get(name)
            if g is None:
                raise Unknown('global ' + name)
            segs = None
            if g['const'] and 'init' in g:
                items = []
                try:
                    self.flatten(st, g['init'], g['type'], 0, items)
                    p = 0
                    segs = []
                    for off, size, v in items:
                        if off > p:
                            segs.append((L(p), L(off), ZEROV))
                        segs.append((L(off), L(off + size), ('sc', v, size)))
                        p = off + size
                    if p < g['size']:
                        segs.append((L(p), L(g['size']), ZEROV))
                    segs = tuple(segs)
                except Unknown:
                    segs = None
            st.R[name] = Region(name, g['dem'], 'global', g['size'], segs, ro=g['const'], attr={'const': g['const'] or name.startswith('_ZTV') or name.startswith('_ZTI')})
        return Ptr(name, ZERO)

    def flatten(self, st, c, ty, off, items):
        if c[0] == 'agg':
            if isinstance(ty, list) and ty[0] == 's':
                for (o, t), x in zip(ty[1], c[2]):
                    self.flatten(st, x, t, off + o, items)
            else:
                for i, x in enumerate(c[2]):
                    self.flatten(st, x, ty[2], off + i * ty[3], items)
        elif c[0] == 'z':
            pass
        elif c[0] == 'u':
            pass
        else:
            items.append((off, self.tysize(ty), self.val(c, {}, st) if c[0] not in ('g', 'g+') else T(('gaddr', str(c)), 64)))

    # -- values ---------------------------------------------------------------
    def to_bv(self, v):
        if isinstance(v, Bv):
            return v
        if isinstance(v, I) and not v.e.t:
            c = v.e.c % (1 << v.w)
            return Bv([bdd.T if c >> i & 1 else bdd.F for i in range(v.w)])
        return None

    def simp(self, v):
        if isinstance(v, Bv) and all(b <= 1 for b in v.b):
            return I(v.w, sum(b << i for i, b in enumerate(v.b)))
        return v

    def to_lin(self, st, v):
        """Bv -> I over bit symbols"""
        if self.opt.get('bits'):
            return self.concrete(st, v)
        if isinstance(v, Bv):
            e = ZERO
            for i, b in enumerate(v.b):
                if b != bdd.F:
                    e = e + self.bitsym(st, b).mul(1 << i)
            return I(v.w, e)
        return v

    def concrete(self, st, v):
        """bit-mode: a constant for v, partitioning the state when its bits are not determined"""
        if isinstance(v, Bv):
            n = 0
            for i in range(v.w - 1, -1, -1):
                b = v.b[i]
                if b > 1:
                    if bdd.AND(st.pc, b) == bdd.F:
                        b = bdd.F
                    elif bdd.AND(st.pc, bdd.NOT(b)) == bdd.F:
                        b = bdd.T
                    else:
                        raise Split([('pc', b), ('pc', bdd.NOT(b))])
                n = 2 * n + b
            return I(v.w, n)
        return v

    def ptrtoint(self, v, w=64):
        if isinstance(v, Ptr):
            if v.r == NULLR:
                return I(w, v.o)
            return I(w, L('&%s' % v.r) + v.o)
        if isinstance(v, Fn):
            return I(w, L('&fn:%s' % v.n))
        return v

    def inttoptr(self, st, v):
        if isinstance(v, I):
            bs = [s for s, _ in v.e.t if s.startswith('&')]
            if not bs:
                return Ptr(NULLR, v.e)
            if len(bs) == 1 and dict(v.e.t)[bs[0]] == 1:
                if bs[0].startswith('&fn:'):
                    return Fn(bs[0][4:])
                for r in st.R:
                    if '&%s' % r == bs[0]:
                        return Ptr(r, v.e - L(bs[0]))
        if isinstance(v, (Ptr, Fn)):
            return v
        return UNDEF if isinstance(v, Undef) else T(('inttoptr', v.key()), 64)

    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r:
                d = a.o - b.o
                return self.cmp_lin(st, pred, d)
            if pred == 'eq':
                return I(1, 0)
            if pred == 'ne':
                return I(1, 1)
            if pred[0] in 'us':
                st2 = ('ptrcmp', a.key(), b.key())
                # order between distinct objects is unspecified: uninterpreted
                return self.atom(st, ('ptrlt', str(a.r), str(b.r)) if str(a.r) < str(b.r) else ('ptrlt', str(b.r), str(a.r)), 'ptr-order', flip=(str(a.r) > str(b.r)) ^ (pred[1:] in ('gt', 'ge')))
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, (Fn, Ptr)) and isinstance(b, (Fn, Ptr)):
                same = a == b
                if pred == 'eq':
                    return I(1, int(same))
                if pred == 'ne':
                    return I(1, int(not same))
        if isinstance(a, Ptr):
            a = self.ptrtoint(a)
        if isinstance(b, Ptr):
            b = self.ptrtoint(b)
        if isinstance(a, Bv) or isinstance(b, Bv):
            x, y = self.to_bv(a), self.to_bv(b)
            if x is not None and y is not None and x.w == y.w:
                f = self.cmp_bv(pred, x, y)
                return self.simp(Bv([f]))
            a, b = self.to_lin(st, a), self.to_lin(st, b)
            if isinstance(a, I) and isinstance(b, I):
                st.fl = st.fl | {'bits as numbers'}
        if isinstance(a, T) or isinstance(b, T):
            return self.cmp_term(st, pred, a, b)
        w = a.w
        if pred in ('eq', 'ne'):
            d = a.e - b.e
            if not (st.P.entails(d + (1 << w) - 1) and st.P.entails(L((1 << w) - 1) - d)):
                d = st.norm_u(a.e, w) - st.norm_u(b.e, w)
            r = st.eq0(d)
            return I(1, int(r if pred == 'eq' else not r))
        n = st.norm_u if pred[0] == 'u' else st.norm_s
        return self.cmp_lin(st, pred, n(a.e, w) - n(b.e, w))

    def cmp_lin(self, st, pred, d):
        p = pred if pred in ('eq', 'ne') else pred[1:]
        if p == 'eq':
            r = st.eq0(d)
        elif p == 'ne':
            r = not st.eq0(d)
        elif p == 'ge':
            r = st.ge0(d)
        elif p == 'gt':
            r = st.ge0(d - 1)
        elif p == 'le':
            r = st.ge0(-d)
        else:
            r = st.ge0(-d - 1)
        return I(1, int(r))

    def cmp_bv(self, pred, x, y):
        eq = bdd.T
        for p, q in zip(x.b, y.b):
            eq = bdd.AND(eq, bdd.EQV(p, q))
        if pred == 'eq':
            return eq
        if pred == 'ne':
            return bdd.NOT(eq)
        xs, ys = list(x.b), list(y.b)
        if pred[0] == 's':
            xs[-1], ys[-1] = ys[-1], xs[-1]
        lt = bdd.F
        for p, q in zip(xs, ys):
            lt = bdd.OR(bdd.AND(bdd.NOT(p), q), bdd.AND(bdd.EQV(p, q), lt))
        p = pred[1:]
        if p == 'lt':
            return lt
        if p == 'ge':
            return bdd.NOT(lt)
        if p == 'le':
            return bdd.OR(lt, eq)
        return bdd.NOT(bdd.OR(lt, eq))

    def atom(self, st, key, flag=None, flip=False):
        if key in st.at:
            r = st.at[key]
            return I(1, int(bool(r) ^ flip))
        if flag:
            raise Split([('atom', key, True, flag), ('atom', key, False, flag)])
        raise Split([('atom', key, True), ('atom', key, False)])

    def strip(self, v):
        """look through zero/sign extensions of terms"""
        while isinstance(v, T) and v.t[0] in ('zext', 'sext') and isinstance(v.t[1], T):
            v = v.t[1]
        return v

    def cmp_term(self, st, pred, a, b):
        if isinstance(b, T) and not isinstance(a, T):
            a, b = b, a
            sw = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
            pred = pred if pred in ('eq', 'ne') else pred[0] + sw[pred[1:]]
        x, y, order = a, b, pred[0]
        while isinstance(x, T) and isinstance(y, T) and x.t[0] == y.t[0] and x.t[0] in ('zext', 'sext') and isinstance(x.t[1], T) and isinstance(y.t[1], T) and x.t[1].w == y.t[1].w:
            order = 'u' if x.t[0] == 'zext' else order
            x, y = x.t[1], y.t[1]
        if isinstance(x, T) and isinstance(y, T) and x.t[0] == y.t[0] == 'elt' and x.w == y.w:
            # elements without special members: their order is that of their type
            r = self.rel_ident(st, x, y)
            if pred not in ('eq', 'ne') and r != 'eq' and order != self.opt.get('order', 's'):
                f = repr(x) > repr(y)
                r = 'lt' if self.atom(st, ('other order', min(repr(x), repr(y)), max(repr(x), repr(y)))).e.c ^ f else 'gt'
            p = pred if pred in ('eq', 'ne') else pred[1:]
            return I(1, int(r in {'eq': ('eq',), 'ne': ('lt', 'gt'), 'lt': ('lt',), 'gt': ('gt',), 'le': ('lt', 'eq'), 'ge': ('gt', 'eq')}[p]))
        a0 = self.strip(a)
        if isinstance(a, T) and a.t[0] == 'sign' and isinstance(b, I) and b.e == ZERO and pred in ('eq', 'ne'):
            return I(1, int((a.t[1] == 0) == (pred == 'eq')))
        if pred in ('eq', 'ne'):
            if a == b:
                return I(1, int(pred == 'eq'))
            if isinstance(b, I) and not b.e.t:
                c = b.e.c % (1 << 8) if a0.w == 8 else b.e.c
                kn = st.at.get(('val', a0.t))
                if kn is not None:
                    r = kn == c
                elif c in st.at.get(('not', a0.t), ()):
                    r = False
                else:
                    dm = st.at.get(('dom', a0.t))
                    if dm is not None and c not in dm:
                        r = False
                    else:
                        raise Split([('atom', ('val', a0.t), c), ('atom', ('not', a0.t), st.at.get(('not', a0.t), frozenset()) | {c})])
                return I(1, int(r if pred == 'eq' else not r))
            if isinstance(a, T) and isinstance(b, T) and a.t[0] == b.t[0] == 'hash' and a.t[2] == b.t[2]:
                r = self.same_input(st, a.t[1], b.t[1])
                if r is not None:
                    return I(1, int(r == (pred == 'eq')))
            x, y = sorted([repr(a), repr(b)])
            r = self.atom(st, ('eq', x, y), None if self.legit_term(a) and self.legit_term(b) else 'term comparison')
            return r if pred == 'eq' else I(1, 1 - r.e.c)
        if isinstance(a, T) and a.t[0] == 'sign':
            # result of a three-way comparison: sign is known from the partition
            s = a.t[1]
            if isinstance(b, I) and b.e == ZERO:
                return I(1, int({'lt': s < 0, 'le': s <= 0, 'gt': s > 0, 'ge': s >= 0}[pred[1:]]))
        kn = st.at.get(('val', a0.t)) if isinstance(a0, T) else None
        if kn is not None and isinstance(b, I) and not b.e.t:
            return self.cmp_lin(st, pred, L(kn - b.e.c))
        return self.atom(st, (pred, repr(a), repr(b)), 'term comparison')

    def same_input(self, st, x, y):
        """do two hash computations consume the same text? (different texts hash differently in general)"""
        def total(z):
            n = L(0)
            for l, _ in z:
                n = n + l
            return n
        if not st.eq0(total(x) - total(y)):
            return False
        x, y = list(x), list(y)
        while x and y:
            if st.eq0(x[0][0]):
                x.pop(0)
                continue
            if st.eq0(y[0][0]):
                y.pop(0)
                continue
            (lx, vx), (ly, vy) = x[0], y[0]
            if not st.eq0(lx - ly):
                return None
            if vx != vy:
                if vx[0] == vy[0] == 'E' and vx[3][0] != 'f' and vy[3][0] != 'f':
                    if vx[3] != vy[3] or not st.eq0(vx[4] - vy[4]):
                        return False
                else:
                    return None
            x.pop(0)
            y.pop(0)
        return True

    def legit_term(self, v):
        return not isinstance(v, T) or v.t[0] in ('elt', 'arg', 'call', 'zext', 'sext')

    def binop(self, st, op, a, b, w, ins):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if isinstance(a, (Ptr, Fn)):
            a = self.ptrtoint(a)
        if isinstance(b, (Ptr, Fn)):
            b = self.ptrtoint(b)
        if isinstance(a, Bv) or isinstance(b, Bv):
            r = self.binop_bv(st, op, a, b, w)
            if r is not None:
                return self.simp(r)
            if not isinstance(a, T) and not isinstance(b, T):
                a, b = self.to_lin(st, a), self.to_lin(st, b)
        if isinstance(a, T) or isinstance(b, T):
            return T((op, a.key(), b.key()), w)
        x, y = a.e, b.e
        if w == 1 and op in ('and', 'or', 'xor'):
            if not x.t and not y.t:
                p, q = x.c & 1, y.c & 1
                return I(1, {'and': p & q, 'or': p | q, 'xor': p ^ q}[op])
        if op == 'add':
            return I(w, x + y)
        if op == 'sub':
            return I(w, x - y)
        if op == 'mul':
            if not y.t:
                return I(w, x.mul(y.c))
            if not x.t:
                return I(w, y.mul(x.c))
            return T((op, a.key(), b.key()), w)
        if not x.t and not y.t:
            m = (1 << w) - 1
            p, q = x.c & m, y.c & m
            if op == 'and':
                return I(w, p & q)
            if op == 'or':
                return I(w, p | q)
            if op == 'xor':
                return I(w, p ^ q)
            if op == 'shl':
                return I(w, (p << q) & m) if q < w else UNDEF
            if op == 'lshr':
                return I(w, p >> q) if q < w else UNDEF
            if op == 'udiv':
                return I(w, p // q) if q else UNDEF
            if op == 'urem':
                return I(w, p % q) if q else UNDEF
            sp = p - (1 << w) if p >> (w - 1) else p
            sq = q - (1 << w) if q >> (w - 1) else q
            if op == 'ashr':
                return I(w, sp >> q)
            if op == 'sdiv' and sq:
                r = abs(sp) // abs(sq)
                return I(w, r if (sp < 0) == (sq < 0) else -r)
            if op == 'srem' and sq:
                r = abs(sp) % abs(sq)
                return I(w, r if sp >= 0 else -r)
        if not y.t:
            c = y.c
            if op == 'shl':
                return I(w, x.mul(1 << c))
            if op in ('udiv', 'lshr') or (op == 'and' and c > 0 and (c & (c + 1)) == 0) or op == 'urem':
                k = c if op in ('udiv', 'urem') else (1 << c) if op == 'lshr' else c + 1
                e = st.norm_u(x, w)
                q = self.quot(st, e, k)
                return I(w, q if op in ('udiv', 'lshr') else e - q.mul(k))
            if op in ('sdiv', 'ashr'):
                k = c if op == 'sdiv' else 1 << c
                e = st.norm_s(x, w)
                d = e.div_exact(k) if k > 0 else None
                if d is not None:
                    return I(w, d)
                if k > 0 and st.ge0(e):
                    return I(w, self.quot(st, e, k))
            if op == 'srem' and c > 0:
                e = st.norm_s(x, w)
                if st.ge0(e):
                    return I(w, e - self.quot(st, e, c).mul(c))
            if op == 'xor' and (c == -1 or c == (1 << w) - 1):
                return I(w, -x - 1)
            if op == 'and' and c == -1 or op in ('or', 'xor') and c == 0:
                return a
            if op == 'and' and c == 0:
                return I(w, 0)
        return T((op, a.key(), b.key()), w)

    def quot(self, st, e, k):
        if k == 1:
            return e
        d = e.div_exact(k)
        if d is not None:
            return d
        # split off the divisible part
        t = tuple((s, c // k) for s, c in e.t if c % k == 0)
        rest = Lin(tuple((s, c) for s, c in e.t if c % k), e.c)
        if not rest.t:
            if True:
                base = Lin(t, rest.c // k)
                return base
        q = L('q(%s,%d)' % (e, k))
        st.assume(e - q.mul(k), q.mul(k) + (k - 1) - e)
        return q

    def binop_bv(self, st, op, a, b, w):
        if op in ('and', 'or', 'xor'):
            x, y = self.to_bv(a), self.to_bv(b)
            if x is None or y is None:
                return None
            f = {'and': bdd.AND, 'or': bdd.OR, 'xor': bdd.XOR}[op]
            return Bv([f(p, q) for p, q in zip(x.b, y.b)])
        if op in ('shl', 'lshr', 'ashr') and isinstance(b, I) and not b.e.t and isinstance(a, Bv):
            k = b.e.c
            if not 0 <= k < w:
                return UNDEF
            if op == 'shl':
                return Bv(((bdd.F,) * k + a.b)[:w])
            fill = bdd.F if op == 'lshr' else a.b[-1]
            return Bv((a.b[k:] + (fill,) * k))
        if self.opt.get('bits'):
            x, y = self.to_bv(a), self.to_bv(b)
            if op == 'mul' and x is not None and y is not None:
                if all(c <= 1 for c in x.b):
                    x, y = y, x
                k = sum(c << i for i, c in enumerate(y.b)) if all(c <= 1 for c in y.b) else None
                if k is not None and k & (k - 1) == 0:
                    if k == 0:
                        return I(w, 0)
                    n = k.bit_length() - 1
                    return Bv(((bdd.F,) * n + x.b)[:w])
                return T((op, x.key(), y.key()), w)
            if x is not None and y is not None and op in ('add', 'sub'):
                if op == 'sub':
                    return Bv(bdd.add(x.b, [bdd.NOT(c) for c in y.b], bdd.T))
                return Bv(bdd.add(x.b, y.b))
        return None

    def cast(self, st, op, v, src, dst):
        w = 64 if dst == 'ptr' else int(dst[1:]) if isinstance(dst, str) and dst[0] == 'i' else 0
        sw = 64 if src == 'ptr' else int(src[1:]) if isinstance(src, str) and src[0] == 'i' else 0
        if isinstance(v, Undef):
            return v
        if op == 'ptrtoint':
            return self.ptrtoint(v, w)
        if op == 'inttoptr':
            return self.inttoptr(st, v)
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            return v
        if isinstance(v, I):
            if op == 'zext':
                return I(w, st.norm_u(v.e, sw))
            if op == 'sext':
                return I(w, st.norm_s(v.e, sw))
            if op == 'trunc':
                return I(w, v.e if v.e.t else v.e.c % (1 << w))
        if isinstance(v, Bv):
            if op == 'zext':
                return Bv(v.b + (bdd.F,) * (w - sw))
            if op == 'sext':
                return Bv(v.b + (v.b[-1],) * (w - sw))
            if op == 'trunc':
                return self.simp(Bv(v.b[:w]))
        if isinstance(v, T):
            if op in ('zext', 'sext'):
                return T((op, v, sw), w)
            if op == 'trunc':
                if v.t[0] in ('zext', 'sext') and v.t[1].w == w:
                    return v.t[1]
                return T((op, v, sw), w)
        if isinstance(v, (Ptr, Fn)):
            return T((op, v.key()), w)
        raise Unknown('cast ' + op)

    # -- functions -----------------------------------------------------------
    def fninfo(self, name):
        r = self.info.get(name)
        if r is None:
            r = self.info[name] = FnInfo(name, self.fns[name])
        return r

    def call(self, name, args, st, loc):
        """analyse a call; list of (kind, state, value), kind in ret/throw/term/none"""
        self.stat['calls'] += 1
        f = self.fns.get(name)
        if f is None:
            raise Unknown('call of ' + name)
        mdl = self.model(name, f)
        if mdl is not None:
            return mdl(st, args, loc)
        if 'blocks' not in f:
            return self.extern(name, f, args, st, loc)
        self.used.add(name)
        if len(self.stack) > self.opt.get('depth', 80):
            raise Unknown('call depth')
        k = (name, tuple(a.key() for a in args), st.P.cs)
        for (n2, k2) in self.active:
            if n2 == name and k2 == k:
                self.report(st, 'recursion', '%s calls itself with unchanged arguments and never returns' % f['dem'], loc, fatal=True)
        self.active.append((name, k))
        self.stack.append((f['dem'], loc))
        try:
            return self.run(self.fninfo(name), args, st)
        finally:
            self.active.pop()
            self.stack.pop()

    active = []

    def run(self, fi, args, st):
        env = {i: a for i, a in enumerate(args)}
        env['al'] = ()
        heap = []
        seq = 0
        out = []

        def push(b, env, st, iters):
            nonlocal seq
            seq += 1
            key = []
            for h in fi.inloops[b]:
                key += [fi.rpo[h], iters[h]]
            key.append(fi.rpo[b])
            heapq.heappush(heap, (tuple(key), seq, b, env, st, iters))

        push(0, env, st, {'left': {}})
        while heap:
            key, _, b, env, st, iters = heapq.heappop(heap)
            group = [(env, st)]
            while heap and heap[0][0] == key and heap[0][2] == b:
                x = heapq.heappop(heap)
                group.append((x[3], x[4]))
            if len(group) > 1:
                group = self.join(fi, b, group)
            for env, st in group:
                self.stat['states'] += 1
                if self.stat['states'] > self.opt.get('maxstates', 400000):
                    raise Unknown('state budget')
                self.block(fi, b, env, st, iters, push, out)
        return self.join_out(out)

    def edge(self, fi, u, v, env, st, iters, push):
        new = {}
        left = iters['left']
        for h in fi.inloops[u]:
            if v not in fi.loops[h] and fi.blocks[u][-1]['op'] != 'invoke':
                left.setdefault(h, iters[h])
        for ins in fi.blocks[v]:
            if ins['op'] != 'phi':
                break
            for pb, o in ins['in']:
                if pb == u:
                    new[ins['id']] = self.val(o, env, st)
                    break
        live = fi.livein[v]
        e2 = {k: x for k, x in env.items() if k in live or k == 'al'}
        e2.update(new)
        it2 = {'left': left}
        for h in fi.inloops[v]:
            if u in fi.loops[h]:
                it2[h] = iters.get(h, 0) + (1 if v == h else 0)
            else:
                it2[h] = 1
            # iterations count from the first in which the loop may end: a known number of rounds is followed to its end
            if it2[h] - left.get(h, it2[h]) >= self.maxit or it2[h] > max(64, self.maxit):
                self.giveup('loop bound %d' % self.maxit, next((i.get('loc') for i in fi.blocks[h] if i.get('loc')), None))
                return
        push(v, e2, st, it2)

    def leave(self, fi, env, st, how, loc):
        """end of an activation: its local objects disappear"""
        for rid in env['al']:
            r = st.R.get(rid)
            if r is None:
                continue
            for a, b, v in r.segs:
                if v[0] == 'MV' or (v[0] == 'E' and v[1]):
                    if st.P.entails(b - a - 1):
                        self.report(st, 'life', 'element in local object %s of %s is never destroyed (%s)' % (r.name, fi.dem, how), loc)
            del st.R[rid]

    def block(self, fi, b, env, st, iters, push, out):
        work = [(0, env, st)]
        ins_list = fi.blocks[b]
        while work:
            idx, env, st = work.pop()
            while True:
                ins = ins_list[idx]
                op = ins['op']
                if op == 'phi':
                    idx += 1
                    continue
                loc = ins.get('loc')
                self.stat['insts'] += 1
                try:
                    s2 = st.copy()
                    res = self.step(fi, b, ins, op, env, s2, iters, push, out, loc)
                except Split as sp:
                    for ref in sp.refs[1:]:
                        x = st.refine(ref)
                        if x is not None:
                            work.append((idx, dict(env), x))
                    x = st.refine(sp.refs[0])
                    if x is None:
                        break
                    st = x
                    continue
                except Dead:
                    break
                except Kill:
                    break
                except Unknown as u:
                    self.giveup(str(u), loc)
                    break
                if res is None:      # terminator handled
                    break
                # res: list of (env, state) continuing behind the instruction
                if len(res) == 0:
                    break
                for e2, x in res[1:]:
                    work.append((idx + 1, e2, x))
                env, st = res[0]
                idx += 1

    def step(self, fi, b, ins, op, env, st, iters, push, out, loc):
        ty = ins['ty']
        if op == 'load':
            v = self.load(st, self.val(ins['ops'][0], env, st), ins['size'], ty, loc)
        elif op == 'store':
            v = self.val(ins['ops'][0], env, st)
            self.store(st, self.val(ins['ops'][1], env, st), ins['size'], v, ins['vty'], loc)
            return [(env, st)]
        elif op == 'alloca':
            rid = st.new_rid('%s' % (ins['name'] or 'tmp'))
            st.add_region(Region(rid, ins['name'] or 'temporary', 'stack', ins['size'], align=ins['align']))
            env = dict(env)
            env['al'] = env['al'] + (rid,)
            v = Ptr(rid, ZERO)
        elif op == 'getelementptr':
            v = self.gep(st, ins, env)
        elif op == 'icmp':
            v = self.icmp(st, ins['pred'], self.val(ins['ops'][0], env, st), self.val(ins['ops'][1], env, st), ins['vty'])
        elif op in ('call', 'invoke'):
            return self.do_call(fi, b, ins, env, st, iters, push, out, loc)
        elif op == 'br':
            if 'cond' not in ins:
                self.edge(fi, b, ins['succ'][0], env, st, iters, push)
                return None
            c = self.val(ins['cond'], env, st)
            if isinstance(c, Undef):
                self.report(st, 'uninit', 'branch depends on an uninitialised value', loc, fatal=True)
            if isinstance(c, I):
                e = c.e
                if e.t:
                    r = not st.eq0(st.norm_u(e, 1))
                else:
                    r = e.c & 1
                self.edge(fi, b, ins['succ'][0 if r else 1], env, st, iters, push)
                return None
            if isinstance(c, Bv):
                f = c.b[0]
                for g, t in ((f, 0), (bdd.NOT(f), 1)):
                    x = st.refine(('pc', g))
                    if x is not None:
                        self.edge(fi, b, ins['succ'][t], env, x, iters, push)
                return None
            if isinstance(c, T):
                r = self.cmp_term(st, 'ne', c, I(1, 0)).e.c
                self.edge(fi, b, ins['succ'][0 if r else 1], env, st, iters, push)
                return None
            raise Unknown('branch condition')
        elif op == 'switch':
            c = self.val(ins['cond'], env, st)
            if isinstance(c, Undef):
                self.report(st, 'uninit', 'switch on an uninitialised value', loc, fatal=True)
            for cv, t in ins['cases']:
                r = self.icmp(st, 'eq', c, I(width(c), int(cv)), None)
                if isinstance(r, Bv):
                    raise Split([('pc', r.b[0]), ('pc', bdd.NOT(r.b[0]))])
                if r.e.c & 1:
                    self.edge(fi, b, t, env, st, iters, push)
                    return None
            self.edge(fi, b, ins['default'], env, st, iters, push)
            return None
        elif op == 'ret':
            v = self.val(ins['ops'][0], env, st) if ins['ops'] else UNDEF
            self.leave(fi, env, st, 'return', loc)
            out.append(('ret', st, v))
            return None
        elif op == 'resume':
            v = self.val(ins['ops'][0], env, st)
            self.leave(fi, env, st, 'exception', loc)
            out.append(('throw', st, v.v[0]))
            return None
        elif op == 'unreachable':
            self.report(st, 'unreachable', 'execution reaches code declared unreachable (%s)' % fi.dem, loc, fatal=True)
            return None
        elif op == 'landingpad':
            v = env.pop('lp') if 'lp' in env else UNDEF
        elif op == 'select':
            c = self.val(ins['ops'][0], env, st)
            x, y = self.val(ins['ops'][1], env, st), self.val(ins['ops'][2], env, st)
            if isinstance(c, I):
                v = x if (c.e.c & 1) else y
            elif isinstance(c, Bv):
                p, q = self.to_bv(x), self.to_bv(y)
                if p is not None and q is not None:
                    v = self.simp(Bv([bdd.ite(c.b[0], m, n) for m, n in zip(p.b, q.b)]))
                else:
                    raise Split([('pc', c.b[0]), ('pc', bdd.NOT(c.b[0]))])
            elif isinstance(c, Undef):
                v = UNDEF
            else:
                v = x if self.cmp_term(st, 'ne', c, I(1, 0)).e.c else y
        elif op in ('extractvalue',):
            v = self.val(ins['ops'][0], env, st)
            for i in ins['idx']:
                if isinstance(v, Undef):
                    break
                v = v.v[i]
        elif op == 'insertvalue':
            a = self.val(ins['ops'][0], env, st)
            x = self.val(ins['ops'][1], env, st)
            if isinstance(a, Undef):
                a = self.undef_agg(ins['ty'])
            v = self.insert(a, ins['idx'], x)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            v = self.binop(st, op, self.val(ins['ops'][0], env, st), self.val(ins['ops'][1], env, st), int(ty[1:]), ins)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            v = self.cast(st, op, self.val(ins['ops'][0], env, st), ins['src'], ty)
        elif op == 'freeze':
            v = self.val(ins['ops'][0], env, st)
        elif op in ('fpext', 'fptrunc', 'fadd', 'fsub', 'fmul', 'fdiv', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fneg', 'fcmp'):
            v = T((op,) + tuple(self.val(o, env, st).key() for o in ins['ops']), 64)
        elif op == 'fence':
            return [(env, st)]
        else:
            raise Unknown('instruction ' + op)
        env = dict(env)
        env[ins['id']] = v
        return [(env, st)]

    def insert(self, a, idx, x):
        v = list(a.v)
        v[idx[0]] = x if len(idx) == 1 else self.insert(v[idx[0]], idx[1:], x)
        return Agg(v)

    def gep(self, st, ins, env):
        p = self.val(ins['base'], env, st)
        off = L(int(ins['off']))
        for o, s, w in ins['var']:
            x = self.val(o, env, st)
            if isinstance(x, Undef):
                return UNDEF
            if isinstance(x, Bv) and isinstance(p, Ptr) and p.r in st.R and st.R[p.r].kind == 'global' and self.opt.get('bits'):
                e = ZERO
                for i, f in enumerate(x.b):
                    if f != bdd.F:
                        e = e + (L(1) if f == bdd.T else L('b!%d' % f)).mul(1 << i)
                off = off + e.mul(int(s))
                continue
            x = self.to_lin(st, x)
            if isinstance(x, T):
                e = L('t!%r' % (x.t,))
                off = off + e.mul(int(s))
                st.fl = st.fl | {'opaque index'}
                continue
            e = x.e
            if w < 64:
                e = st.norm_s(e, w)
            off = off + e.mul(int(s))
        if isinstance(p, Undef):
            return UNDEF
        if isinstance(p, (T, I)):
            raise Unknown('arithmetic on untracked pointer')
        if isinstance(p, Fn):
            raise Unknown('arithmetic on function pointer')
        return Ptr(p.r, self.small(st, p.o + off))

    def small(self, st, e):
        """offsets are machine integers: prefer the representative of small magnitude"""
        if not e.t:
            c = e.c % M64
            return L(c - M64 if c >= (M64 >> 1) else c)
        if abs(e.c) >= (1 << 62):
            for k in (-M64, M64):
                f = e + k
                if abs(f.c) < (1 << 62):
                    return f
        return e

    def do_call(self, fi, b, ins, env, st, iters, push, out, loc):
        cal = self.val(ins['callee'], env, st)
        args = []
        tmp = []
        for o, at in zip(ins['args'], ins['attrs']):
            v = self.val(o, env, st)
            if 'byval' in at:
                rid = st.new_rid('byval')
                st.add_region(Region(rid, 'by-value argument', 'stack', at['byval']))
                self.memcpy(st, Ptr(rid, ZERO), v, L(at['byval']), loc)
                v = Ptr(rid, ZERO)
                tmp.append(rid)
            args.append(v)
        self.call_attrs = ins['attrs']
        if isinstance(cal, Undef):
            self.report(st, 'uninit', 'call through an uninitialised function pointer', loc, fatal=True)
        if is_null(cal):
            self.report(st, 'oob', 'call through a null function pointer', loc, fatal=True)
        if isinstance(cal, Ptr):
            self.report(st, 'oob', 'call through a pointer that designates data', loc, fatal=True)
        if not isinstance(cal, Fn):
            raise Unknown('indirect call')
        if cal.n.startswith('@'):
            res = self.symfn(cal, args, st, loc)
        elif cal.n.startswith('llvm.'):
            res = self.intrinsic(cal.n, args, st, loc, ins)
        else:
            res = self.call(cal.n, args, st, loc)
        cont = []
        for kind, s, v in res:
            for rid in tmp:
                s.R.pop(rid, None)
            if kind == 'ret':
                e2 = dict(env)
                if ins['ty'] != 'void':
                    e2[ins['id']] = v
                if ins['op'] == 'invoke':
                    self.edge(fi, b, ins['normal'], e2, s, iters, push)
                else:
                    cont.append((e2, s))
            elif kind == 'throw':
                if ins['op'] == 'invoke' and self.unwind(fi, b, ins, env, s, v, iters, push):
                    continue
                self.leave(fi, env, s, 'exception', loc)
                out.append(('throw', s, v))
            else:
                out.append((kind, s, v))
        if ins['op'] == 'invoke':
            return None
        return cont

    def unwind(self, fi, b, ins, env, st, exc, iters, push):
        lp = next(i for i in fi.blocks[ins['unwind']] if i['op'] == 'landingpad')
        ti = st.R[exc.r].attr
        sel = None
        for kind, c in lp['clauses']:
            if kind != 'catch':
                continue
            name = None if c[0] == 'n' else c[1]
            if name is None or name == ti or name in BASES.get(ti, ()):
                sel = self.typeid(name)
                break
        if sel is None:
            if not lp['cleanup']:
                return False
            sel = 0
        e2 = dict(env)
        # delivered to the landing pad through the environment
        n = len(fi.blocks[ins['unwind']])
        push2 = lambda v, e, s, it: push(v, dict(e, lp=Agg([exc, I(32, sel)])), s, it)
        self.edge(fi, b, ins['unwind'], e2, st, iters, push2)
        return True

    def typeid(self, name):
        if name is None:
            return 1
        self.tids = getattr(self, 'tids', {})
        return self.tids.setdefault(name, len(self.tids) + 2)

    # -- joins --------------------------------------------------------------
    def join(self, fi, b, group):
        if not self.opt.get('bits'):
            seen = {}
            for env, st in group:
                k = (tuple(sorted((str(i), v.key() if hasattr(v, 'key') else v) for i, v in env.items())), st.key())
                if k in seen:
                    self.stat['merged'] += 1
                else:
                    seen[k] = (env, st)
            return list(seen.values())
        out = []
        for env, st in group:
            for i, (e2, s2) in enumerate(out):
                r = self.merge(e2, s2, env, st)
                if r is not None:
                    out[i] = r
                    self.stat['merged'] += 1
                    break
            else:
                out.append((env, st))
        return out

    def merge_val(self, f, a, b):
        if a == b:
            return a
        x, y = self.to_bv(a) if isinstance(a, (I, Bv)) else None, self.to_bv(b) if isinstance(b, (I, Bv)) else None
        if x is not None and y is not None and x.w == y.w:
            return self.simp(Bv([bdd.ite(f, p, q) for p, q in zip(x.b, y.b)]))
        return None

    def merge(self, e1, s1, e2, s2):
        if s1.ev != s2.ev or s1.at != s2.at or s1.P.cs != s2.P.cs or e1.keys() != e2.keys() or s1.R.keys() != s2.R.keys():
            return None
        f = s1.pc
        if bdd.AND(s1.pc, s2.pc) != bdd.F:
            return None
        env = {}
        for k in e1:
            a, b = e1[k], e2[k]
            if k == 'al':
                if a != b:
                    return None
                env[k] = a
                continue
            v = self.merge_val(f, a, b)
            if v is None:
                return None
            env[k] = v
        st = s1.copy()
        for k in s1.R:
            a, b = s1.R[k], s2.R[k]
            if a is b:
                continue
            if a.alive != b.alive or a.size != b.size:
                return None
            if a.segs == b.segs:
                continue
            if len(a.segs) != len(b.segs):
                return None
            segs = []
            for p, q in zip(a.segs, b.segs):
                if p == q:
                    segs.append(p)
                    continue
                if p[0] != q[0] or p[1] != q[1] or p[2][0] != 'sc' or q[2][0] != 'sc':
                    return None
                v = self.merge_val(f, p[2][1], q[2][1])
                if v is None:
                    return None
                segs.append((p[0], p[1], ('sc', v, p[2][2])))
            st.R[k] = a.upd(segs=tuple(segs))
        st.pc = bdd.OR(s1.pc, s2.pc)
        st.n = max(s1.n, s2.n)
        st.fl = s1.fl | s2.fl
        return env, st

    def join_out(self, out):
        if len(out) < 2:
            return out
        res = []
        if self.opt.get('bits'):
            for kind, st, v in out:
                for i, (k2, s2, v2) in enumerate(res):
                    if k2 != kind:
                        continue
                    r = self.merge({0: v2}, s2, {0: v}, st)
                    if r is not None:
                        res[i] = (kind, r[1], r[0][0])
                        self.stat['merged'] += 1
                        break
                else:
                    res.append((kind, st, v))
            return res
        seen = {}
        for kind, st, v in out:
            k = (kind, st.key(), v.key())
            if k in seen:
                self.stat['merged'] += 1
                continue
            seen[k] = (kind, st, v)
        return list(seen.values())
