"""Specification layer: abstract pre-states, post-conditions, obligations and the driver."""
import importlib.util
import os
import sys
from lin import Lin, L, ZERO
from dom import *
from mem import width
import bdd
from models import Elem
from interp import Engine, Report

BAD_ALLOC = '_ZTISt9bad_alloc'
LENGTH = '_ZTISt12length_error'
RANGE = '_ZTISt12out_of_range'
USER = '@user'
CHAR = Elem(1, False, False, 1)
# properties that are rules checked on every operation: a report concerns them by its kind only
RULES = {'C02', 'C05', 'C06', 'C08', 'C10', 'C12', 'C19', 'C31', 'C32', 'C36'}
# operations whose very result is what a rule-like property promises
PROMISE = {'v_capacity': {'C32'}, 's_capacity': {'C32'}, 'v_shrink': {'C32'}, 's_shrink': {'C32'}, 'v_reserve': {'C32'}, 's_reserve': {'C32'}, 'v_max_size': {'C31'}, 's_max_size': {'C31'}, 'r_max': {'C31'}, 'a_max': {'C31'}}
# kinds that leave the computed value intact: case properties they bear on nevertheless
SIDE = {'dealloc': {'C17', 'C18'}, 'leak': {'C17', 'C18'}, 'cap': {'C18'}, 'growth': set(), 'limit': set(), 'constwrite': set(), 'global': set(), 'align': set()}


def load(unit, param=()):
    """specification module of a unit, one instance per parameter set"""
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 's_%s.py' % unit)
    sp = importlib.util.spec_from_file_location('s_%s_%d' % (unit, abs(hash(repr(sorted(dict(param).items()))))), path)
    m = importlib.util.module_from_spec(sp)
    m.PARAM = dict(param)
    sp.loader.exec_module(m)
    return m


def S(x):
    return L(x)


class Case:
    def __init__(self, entry, label, st, args, post, props=(), throws=(), fatal=True, term=False, limit=None):
        self.entry, self.label, self.st, self.args, self.post = entry, label, st, args, post
        self.props, self.throws, self.term = tuple(props), tuple(throws), term
        self.limit = limit      # (resulting size, maximum size) of an operation that may be asked for too much


class Ctx:
    """one analysed translation unit"""

    def __init__(self, mod, opt=None, kinds=None):
        self.mod = mod
        o = {'seqlen': self.seqlen}
        o.update(opt or {})
        self.eng = Engine(mod, o)
        self.kinds = kinds or {}
        self.results = []        # per case statistics
        self.missing = []

    @staticmethod
    def seqlen(st, name):
        return st.at.get(('len', name))

    # -- driver -------------------------------------------------------------
    def run(self, case):
        e = self.eng
        e.entry, e.case = case.entry, case.label
        e.active = []
        e.stack = []
        n0, u0 = len(e.reports), len(e.unknown)
        e.stat['states'] = 0
        e.props = case.props
        outs = 0
        todo = [case.st]
        while todo:
            st = todo.pop()
            if not st.P.feasible():
                continue
            try:
                res = e.call(case.entry, case.args, st.copy(), None)
            except Split as sp:
                for r in sp.refs:
                    x = st.refine(r)
                    if x is not None:
                        todo.append(x)
                continue
            except Kill:
                continue
            except Dead:
                continue
            except Unknown as u:
                e.giveup(str(u), None)
                continue
            for kind, s, v in res:
                outs += 1
                self.post(case, kind, s, v)
        for r in e.reports[n0:]:
            r.props = set(case.props) - RULES     # a broken object breaks what the operation promises
            if r.kind in SIDE:
                r.props &= SIDE[r.kind]
            r.props |= set(self.kinds.get(r.kind, ())) | set(getattr(r, 'tags', ()))
            if getattr(r, 'wrapped', False) and case.limit is not None:
                r.props |= {'C31'}                   # a size computation wrapped around on the way
            if r.kind in ('value', 'life', 'oob', 'inplace', 'uaf', 'ret', 'repr', 'uninit', 'term0'):
                r.props |= PROMISE.get(case.entry, set())
            if not r.props:
                r.props = set(case.props)
        self.results.append((case.entry, case.label, outs, len(e.reports) - n0, len(e.unknown) - u0))

    def justified(self, case, st, ty):
        """the library reports only failures that happened (growth may ask for a multiple of what is needed)"""
        if ty not in (BAD_ALLOC, LENGTH) or ty == BAD_ALLOC and st.at.get(('afail',)):
            return
        self.eng.obl('throw')
        if case.limit is None or not st.ge0(case.limit[0].mul(4) - case.limit[1]):
            self.eng.report(st, 'throw', 'length error although the result is far below the maximum size' if ty == LENGTH else 'bad_alloc although no allocation failed', fatal=True)

    def post(self, case, kind, s, v):
        e = self.eng
        work = [s]
        while work:
            st = work.pop()
            n0 = len(e.reports)
            try:
                x = st.copy()
                if kind == 'term':
                    if not case.term:
                        e.report(x, 'term', 'std::terminate is called')
                    continue
                if kind == 'throw':
                    ty = x.R[v.r].attr
                    if ty not in case.throws:
                        e.report(x, 'throw', 'unexpected exception %s' % ty.replace('_ZTI', '').lstrip('St0123456789'))
                        continue
                    self.justified(case, x, ty)
                case.post(Post(self, x, kind, v, case))
            except Split as sp:
                del e.reports[n0:]
                for r in sp.refs:
                    y = st.refine(r)
                    if y is not None:
                        work.append(y)
            except (Kill, Dead):
                pass
            except Unknown as u:
                e.giveup('post-condition: ' + str(u), None)
            for r in e.reports[n0:]:
                if kind == 'throw':
                    r.tags = set(getattr(r, 'tags', ())) | set(self.kinds.get('@throw', ()))


def E_(src, start, es, live):
    return ('E', live, es, src, start)


def fill_(ident, es, live):
    return ('E', live, es, ('f', ident), None)


def elt_(src, i, es):
    return T(('elt', src, L(i)), es * 8)


def text_(name, n):
    """n characters of arbitrary value, as Boolean functions of their bits (most significant first, interleaved)"""
    out = []
    for i in range(n):
        bits = {}
        for k in range(7, -1, -1):
            for x in 'ab':
                v = bdd.var('%s%d.%d' % (x, i, k))
                if x == name:
                    bits[k] = v
        out.append((L(i), L(i + 1), ('sc', Bv([bits[k] for k in range(8)]), 1)))
    return tuple(out)


def text_relation(p, n1, n2):
    """relation of the texts a and b: characters compare as unsigned values"""
    x, y = text_('a', n1), text_('b', n2)
    for i in range(min(n1, n2)):
        r = p.e.rel_values(p.st, x[i][2][1], y[i][2][1], CHAR)
        if r != 'eq':
            return r
    return 'eq' if n1 == n2 else 'lt' if n1 < n2 else 'gt'


def lex_expected(p, a, n1, b, n2, es):
    """lexicographic relation of two short sequences of opaque elements, from the relations of the elements"""
    for i in range(min(n1, n2)):
        r = p.e.rel_ident(p.st, elt_(a, i, es), elt_(b, i, es))
        if r != 'eq':
            return r
    return 'eq' if n1 == n2 else 'lt' if n1 < n2 else 'gt'


class Post:
    """a final abstract state with the helpers to state post-conditions on it"""

    def __init__(self, ctx, st, kind, val, case):
        self.ctx, self.st, self.kind, self.val, self.case = ctx, st, kind, val, case
        self.e = ctx.eng
        self.owned = set()
        self.owner = {}

    def rep(self, kind, msg):
        self.e.obl(kind)
        self.e.report(self.st, kind, msg)

    @property
    def exc(self):
        return self.st.R[self.val.r].attr

    # -- scalars -----------------------------------------------------------------
    def eq(self, a, b, kind, msg):
        """obligation a == b on integers"""
        self.e.obl(kind)
        if isinstance(a, Undef):
            self.e.report(self.st, 'uninit', msg + ': value is uninitialised', fatal=True)
        a = self.e.to_lin(self.st, a)
        if isinstance(a, T):
            raise Unknown('opaque integer')
        if not isinstance(a, I):
            self.e.report(self.st, kind, '%s: %r instead of %s' % (msg, a, b))
            return
        x = self.st.norm_u(a.e, a.w)
        y = self.st.norm_u(L(b), a.w)
        if not self.st.eq0(x - y):
            self.e.report(self.st, kind, '%s: %s instead of %s' % (msg, x, y), fatal=True)

    def ptr(self, a, rid, off, kind, msg):
        self.e.obl(kind)
        st = self.st
        if isinstance(a, Undef):
            self.e.report(st, 'uninit', msg + ': pointer is uninitialised', fatal=True)
        if isinstance(a, T):
            raise Unknown('opaque pointer')
        if rid == NULLR:
            if not (isinstance(a, Ptr) and a.r == NULLR and st.eq0(a.o)):
                self.e.report(st, kind, '%s: %r instead of null' % (msg, a), fatal=True)
            return
        if not isinstance(a, Ptr) or a.r != rid or not st.eq0(a.o - off):
            self.e.report(st, kind, '%s: %r instead of &%s+%s' % (msg, a, rid, off), fatal=True)

    def true(self, c, kind, msg):
        self.e.obl(kind)
        if not c:
            self.e.report(self.st, kind, msg, fatal=True)

    def boolv(self, v):
        if isinstance(v, Undef):
            self.e.report(self.st, 'uninit', 'result is uninitialised', fatal=True)
        if isinstance(v, I):
            return not self.st.eq0(self.st.norm_u(v.e, v.w))
        if isinstance(v, Bv):
            raise Split([('pc', v.b[0]), ('pc', bdd.NOT(v.b[0]))])
        return bool(self.e.cmp_term(self.st, 'ne', v, I(1, 0)).e.c)

    def result(self, want, kind, msg):
        """obligation: the boolean result equals want"""
        self.e.obl(kind)
        got = self.boolv(self.val)
        if got != bool(want):
            self.e.report(self.st, kind, '%s: returned %s' % (msg, str(got).lower()), fatal=True)

    def word(self, rid, off, size=8, ty='ptr'):
        return self.e.load(self.st, Ptr(rid, L(off)), size, ty, None)

    def num(self, rid, off, size=8):
        v = self.word(rid, off, size, 'i%d' % (8 * size))
        if isinstance(v, Undef):
            self.e.report(self.st, 'uninit', '%s holds an uninitialised field' % rid, fatal=True)
        if isinstance(v, Ptr):
            v = self.e.ptrtoint(v)
        v = self.e.to_lin(self.st, v)
        if not isinstance(v, I):
            raise Unknown('field value')
        return self.st.norm_u(v.e, v.w)

    # -- sequences ---------------------------------------------------------------------
    def content(self, rid, lo, hi, es, live, want, kind='value', what='contents'):
        """obligation: bytes [lo, hi) of rid are exactly the sequence want"""
        st, e = self.st, self.e
        e.obl(kind)
        r = st.R[rid]
        got = []
        for l, v in e.read_segs(st, r, L(lo), L(hi)):
            if st.eq0(l):
                continue
            c = l.div_exact(es)
            if c is None:
                raise Unknown('element size')
            if live and not (v[0] == 'MV' or v[0] == 'E' and v[1]):
                e.report(st, 'life', '%s: no living element at byte %s of %s' % (what, lo, r.name), fatal=True)
            got.append((c, v))
        want = [(L(l), v) for l, v in want]
        pos = ZERO
        while True:
            while got and st.eq0(got[0][0]):
                got.pop(0)
            while want and st.eq0(want[0][0]):
                want.pop(0)
            if not got and not want:
                return
            if not got or not want:
                e.report(st, kind, '%s: length differs behind position %s' % (what, pos), fatal=True)
            (lg, vg), (lw, vw) = got[0], want[0]
            k = lg if st.ge0(lw - lg) else lw
            if not self.same(vg, vw, k, es):
                e.report(st, kind, '%s: position %s holds %s instead of %s' % (what, pos, self.show(vg), self.show(vw)), fatal=True)
            got[0] = (lg - k, self.shift(vg, k))
            want[0] = (lw - k, self.shift(vw, k))
            pos = pos + k

    def shift(self, v, k):
        if v[0] == 'E' and v[3][0] != 'f':
            return ('E', v[1], v[2], v[3], v[4] + k)
        return v

    def show(self, v):
        if v[0] == 'E':
            if v[3][0] == 'f':
                return 'copies of %r' % (v[3][1],)
            return '%s[%s..]' % (v[3], v[4])
        if v[0] == 'sc':
            return repr(v[1])
        return {'MV': 'a moved-from element', 'raw': 'uninitialised storage', 'zero': 'zero', 'junk': 'left-over bytes of another field'}.get(v[0], str(v[0]))

    def same(self, g, w, k, es):
        st, e = self.st, self.e
        if g == w and g[0] != 'raw':
            return True
        if g[0] == 'MV' or w[0] == 'MV' or g[0] in ('raw', 'junk'):
            return False       # junk: left-over bytes of an unrelated field
        ga, wa = g[0] == 'E' and g[3][0] != 'f', w[0] == 'E' and w[3][0] != 'f'
        if ga and wa:
            return g[3] == w[3] and st.eq0(g[4] - w[4])
        x, y = e.ident(g, ZERO, es), e.ident(w, ZERO, es)
        if (ga or wa) and not st.eq0(k - 1):
            return False
        return self.same_ident(x, y)

    def same_ident(self, x, y):
        st = self.st
        if x == y:
            return True
        if isinstance(x, T) and isinstance(y, T) and x.t[0] == 'elt' and y.t[0] == 'elt':
            return x.t[1] == y.t[1] and st.eq0(x.t[2] - y.t[2])
        if isinstance(x, I) and isinstance(y, I):
            return st.eq0(st.norm_u(x.e, x.w) - st.norm_u(y.e, y.w))
        if isinstance(x, (T, I)) and isinstance(y, (T, I)):
            for a, b in ((x, y), (y, x)):
                if isinstance(a, T) and a.t[0] == 'part' and isinstance(b, I) and not b.e.t:
                    if a.t[1][0] in ('P', 'F'):
                        return False        # some byte of an address
                    if a.t[1][0] == 'I':
                        v = self.byte_of(a.t[1][2], a.t[2], a.t[3])
                        return v == b.e.c % (1 << b.w)
                if isinstance(a, T) and a.t[0] not in ('elt', 'arg', 'default', 'ctor', 'moved', 'uninit'):
                    raise Unknown('opaque value')
                if isinstance(a, T) and isinstance(b, I) and not b.e.t:
                    kn = st.at.get(('val', a.t))
                    if kn is not None:
                        return kn % (1 << b.w) == b.e.c % (1 << b.w)
            return False
        if isinstance(x, Undef) or isinstance(y, Undef):
            return False
        raise Unknown('value comparison')

    def byte_of(self, e, k, n):
        """byte k of a number, where the partition determines it"""
        if n != 1:
            raise Unknown('opaque value')
        lo, hi = 1 << (8 * k), 1 << (8 * k + 8)
        st = self.st
        if st.P.entails(L(lo - 1) - e):
            return 0
        if st.P.entails(e - lo) and st.P.entails(L(2 * lo - 1) - e):
            return 1
        if st.P.entails(e - 2 * lo):
            raise Unknown('opaque value')
        raise Split([('ge', L(lo - 1) - e), ('and', [('ge', e - lo), ('ge', L(2 * lo - 1) - e)]), ('ge', e - 2 * lo)])

    def no_life(self, rid, lo, hi):
        st, e = self.st, self.e
        e.obl('life')
        for l, v in e.read_segs(st, st.R[rid], L(lo), L(hi)):
            if v[0] == 'MV' or (v[0] == 'E' and v[1]):
                if st.ge0(l - 1):
                    e.report(st, 'life', 'living element outside of the elements of %s' % st.R[rid].name, fatal=True)

    # -- ownership ----------------------------------------------------------------------
    def buffer(self, dealloc, p, need, rid):
        """p is a live dynamically allocated buffer of at least `need` bytes that `dealloc` releases"""
        st, e = self.st, self.e
        e.obl('dealloc')
        if not isinstance(p, Ptr) or p.r == NULLR:
            e.report(st, 'dealloc', '%s records a release function but no buffer' % rid, fatal=True)
        r = st.R.get(p.r)
        if r is None or r.kind != 'heap':
            e.report(st, 'dealloc', 'buffer of %s is no dynamically allocated memory' % rid, fatal=True)
        if not r.alive:
            e.report(st, 'uaf', 'buffer of %s was already released' % rid, fatal=True)
        if not st.eq0(p.o):
            e.report(st, 'dealloc', '%s points into the middle of its buffer' % rid, fatal=True)
        if self.owner.setdefault(r.rid, rid) != rid:
            e.report(st, 'dealloc', 'two objects own the same buffer', fatal=True)
        self.owned.add(r.rid)
        if not st.ge0(r.size - need):
            e.report(st, 'oob', 'capacity recorded in %s exceeds its buffer: %s bytes needed, %s allocated' % (rid, need, r.size), fatal=True)
        self.releases(dealloc, r, rid)
        return r

    def releases(self, fn, r, rid):
        st, e = self.st, self.e
        if not isinstance(fn, Fn):
            e.report(st, 'dealloc', '%s records no valid release function' % rid, fatal=True)
        if fn.n.startswith('@'):
            if r.free != fn:
                e.report(st, 'dealloc', '%s records the release function of another buffer' % rid, fatal=True)
            return
        key = (fn.n, r.free if not isinstance(r.free, Fn) else r.free.n)
        c = e.dtor_cache
        if key not in c:
            s = State()
            s.n = 10 ** 6
            s.add_region(Region('probe', 'buffer', 'heap', 64, free=r.free))
            n0, u0 = len(e.reports), len(e.unknown)
            ok = True
            try:
                for k, s2, v in e.call(fn.n, [Ptr('probe', ZERO)], s, None):
                    ok = ok and k == 'ret' and not s2.R['probe'].alive
            except Kill:
                ok = False
            except (Split, Dead, Unknown):
                ok = None
            if len(e.reports) > n0:
                ok = False
            elif len(e.unknown) > u0:
                ok = None
            del e.reports[n0:]
            del e.unknown[u0:]
            c[key] = ok
        if c[key] is False:
            e.report(st, 'dealloc', 'the release function recorded in %s (%s) does not match how the buffer was allocated (%s)' % (rid, e.fns[fn.n]['dem'] if fn.n in e.fns else fn.n, e.hows(r.free)), fatal=True)
        if c[key] is None:
            raise Unknown('release function')

    def no_leaks(self):
        st, e = self.st, self.e
        e.obl('leak')
        for rid, r in list(st.R.items()):
            if r.kind == 'heap' and r.alive and rid not in self.owned:
                e.report(st, 'leak', '%s is never released' % r.name)

    def unchanged(self, rid, before=None):
        """obligation: the bytes of rid are those of the pre-state"""
        b = (before or self.case.st).R[rid]
        a = self.st.R.get(rid)
        self.e.obl('post')
        if a is None or a.alive != b.alive:
            self.rep('post', '%s was released' % b.name)
            return
        if a.segs != b.segs:
            x = [(hi - lo, seg_key(v)) for lo, hi, v in a.segs if not self.st.eq0(hi - lo)]
            y = [(hi - lo, seg_key(v)) for lo, hi, v in b.segs if not self.st.eq0(hi - lo)]
            if x != y:
                n = len(self.e.reports)
                self.rep('post', '%s was modified' % b.name)
                if b.kind == 'ext' and any(isinstance(x, Ptr) and x.r in self.case.st.R and self.case.st.R[x.r].ro and self.case.st.R[x.r].kind == 'obj' for x in self.case.args):
                    for r in self.e.reports[n:]:     # reachable from the constant object the operation works on
                        r.tags = set(getattr(r, 'tags', ())) | {'C36'}
