"""Specification of ptl::bitset<N>; every bit is a free Boolean variable."""
import re
from lin import Lin, L, ZERO
from dom import *
from spec import *
import bdd

NAME = 'bitset'
DEFS = ()
KINDS = {
    'life': ['C29'], 'oob': ['C29'], 'uaf': ['C29'], 'uninit': ['C29'], 'overlap': ['C29'], 'leak': ['C29'], 'dealloc': ['C29'],
    'term': ['C19'], 'value': ['C29'], 'enc': ['C29', 'C02'], 'trail': ['C28'], 'ret': ['C29'], 'count': ['C28'], 'cmp': ['C28', 'C21'],
    'constwrite': ['C36'], 'global': ['C36'], 'throw': ['C20'], 'post': ['C29'], 'hash': ['C22'], 'stream': ['C30'],
}
for _i in range(256):       # interleaved order: comparisons stay linear in size
    for _n in 'abv':
        bdd.var('%s%d' % (_n, _i))
FAILBIT, EOFBIT, BADBIT = 4, 2, 1
IOS = 16         # offset of the virtual base in the modelled stream


# -- streams ------------------------------------------------------------------------
def in_class(eng, st, i):
    k = ('in', i)
    c = st.at.get(k)
    if c is None:
        raise Split([('atom', k, 'digit'), ('atom', k, 'lo'), ('atom', k, 'hi'), ('atom', k, 'eof')])
    return c


def in_char(eng, st, i, w=32):
    c = in_class(eng, st, i)
    if c == 'digit':
        return Bv((bdd.var('in%d' % i),) + tuple(bdd.T if 0x30 >> k & 1 else bdd.F for k in range(1, w)))
    if c == 'eof':
        return I(w, -1)
    s = L('in%d' % i)
    if c == 'lo':
        st.assume(s, L(47) - s)
    else:
        st.assume(s - 50, L(255) - s)
    return I(w, s)


def setpos(st, i, eof=False, fail=False):
    st.at = dict(st.at)
    st.at[('pos',)] = i
    f = st.at.get(('state',), 0) | (EOFBIT if eof else 0) | (FAILBIT if fail else 0)
    st.at[('state',)] = f


def model(eng, name, f, args, st, loc):
    """transfer functions of formatted character input and output"""
    if name == '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c' or name == '_ZNSo3putEc':
        st.ev = st.ev + (('put', args[1] if not isinstance(args[1], I) or args[1].e.t else I(8, args[1].e.c % 256)),)
        return [('ret', st, args[0])]
    if name == '_ZNSi6sentryC1ERSib':
        k = ('sentry',)
        ok = st.at.get(k)
        if ok is None:
            raise Split([('atom', k, True), ('atom', k, False)])
        eng.store(st, args[0], 1, I(8, int(ok)), 'i8', loc)
        return [('ret', st, UNDEF)]
    if name == '_ZNKSi6sentrycvbEv':
        return [('ret', st, eng.icmp(st, 'ne', eng.load(st, args[0], 1, 'i8', loc), I(8, 0), 'i8'))]
    if name.startswith('_ZNSi') and isinstance(args[0], Ptr) and args[0].r == 'is':
        i = st.at.get(('pos',), 0)
        good = not st.at.get(('state',), 0)
        if name == '_ZNSi4peekEv':
            if not good:
                return [('ret', st, I(32, -1))]
            c = in_char(eng, st, i)
            if in_class(eng, st, i) == 'eof':
                setpos(st, i, eof=True)
            return [('ret', st, c)]
        if name == '_ZNSi3getEv':
            if not good:
                setpos(st, i, fail=True)
                return [('ret', st, I(32, -1))]
            c = in_char(eng, st, i)
            if in_class(eng, st, i) == 'eof':
                setpos(st, i, eof=True, fail=True)
            else:
                setpos(st, i + 1)
            return [('ret', st, c)]
        if name == '_ZNSi3getERc':
            if not good or in_class(eng, st, i) == 'eof':
                setpos(st, i, eof=good, fail=True)
            else:
                eng.store(st, args[1], 1, in_char(eng, st, i, 8), 'i8', loc)
                setpos(st, i + 1)
            return [('ret', st, args[0])]
        if name in ('_ZNSi5ungetEv', '_ZNSi7putbackEc'):
            if i == 0:
                setpos(st, i, fail=True)
            else:
                st.at = dict(st.at)
                st.at[('state',)] = st.at.get(('state',), 0) & ~EOFBIT
                setpos(st, i - 1)
            return [('ret', st, args[0])]
        if name == '_ZNSi6ignoreEv':
            if good and in_class(eng, st, i) == 'eof':
                setpos(st, i, eof=True)
            elif good:
                setpos(st, i + 1)
            return [('ret', st, args[0])]
    if '9basic_iosIcSt11char_traitsIcEE' in name and isinstance(args[0], Ptr) and args[0].r == 'is':
        m = re.search(r'EE(\d+)(\w+?)E(?:v|St12_Ios_Iostate)$', name)
        what = m.group(2)[:int(m.group(1))] if m else 'cv' if name.endswith('cvbEv') else 'nt' if name.endswith('ntEv') else ''
        s = st.at.get(('state',), 0)
        if what in ('setstate', 'clear'):
            v = eng.num(st, args[1])
            if v.t:
                raise Unknown('stream state')
            st.at = dict(st.at)
            st.at[('state',)] = v.c | (s if what == 'setstate' else 0)
            return [('ret', st, UNDEF)]
        r = {'good': s == 0, 'eof': s & EOFBIT, 'fail': s & (FAILBIT | BADBIT), 'bad': s & BADBIT, 'cv': not s & (FAILBIT | BADBIT), 'nt': s & (FAILBIT | BADBIT)}.get(what)
        if r is not None:
            return [('ret', st, I(1, int(bool(r))))]
        if what == 'rdstate':
            return [('ret', st, I(32, s))]
    return None


OPT = {'bits': True, 'maxit': 300, 'extern': model, 'seqlen': None}


# -- states ------------------------------------------------------------------------
def nbytes(n):
    return (n + 7) // 8 or 1


def bits(name, n):
    return [bdd.var('%s%d' % (name, i)) for i in range(n)]


def bs(st, name, n, ro=False):
    v = bits(name, n)
    segs = []
    for k in range(nbytes(n)):
        b = v[8 * k:8 * k + 8]
        b += [bdd.F] * (8 - len(b))
        x = Bv(b) if any(c > 1 for c in b) else I(8, 0)
        segs.append((L(k), L(k + 1), ('sc', x, 1)))
    st.add_region(Region(name, name, 'obj', nbytes(n), tuple(segs), ro=ro))
    return Ptr(name)


def raw(st, n, name='r'):
    st.add_region(Region(name, name, 'obj', nbytes(n)))
    return Ptr(name)


class Bits:
    def __init__(self, p):
        self.p, self.e, self.st = p, p.e, p.st

    def differ(self, kind, f, msg):
        """report if Boolean function f (a deviation) is satisfiable in this partition"""
        self.e.obl(kind)
        g = bdd.AND(self.st.pc, f)
        if g != bdd.F:
            m = bdd.sat(g)
            st = self.st.copy()
            st.pc = g
            self.e.report(st, kind, msg + ' (for ' + ', '.join('%s=%d' % kv for kv in sorted(m.items())[:40]) + ')', fatal=True)

    def bit(self, v):
        if isinstance(v, Undef):
            self.e.report(self.st, 'uninit', 'result is uninitialised', fatal=True)
        if isinstance(v, Bv):
            return v.b[0]
        if isinstance(v, I) and not v.e.t:
            return bdd.T if v.e.c & 1 else bdd.F
        raise Unknown('bit value %r' % (v,))

    def result(self, want, kind, msg):
        self.differ(kind, bdd.XOR(self.bit(self.p.val), want), msg)

    def state(self, name, n, want, kind='value', what=None):
        what = what or name
        for k in range(nbytes(n)):
            v = self.e.load(self.st, Ptr(name, L(k)), 1, 'i8', None)
            if isinstance(v, Undef):
                self.e.report(self.st, 'uninit', 'byte %d of %s is uninitialised' % (k, what), fatal=True)
            b = self.e.to_bv(v)
            if b is None:
                raise Unknown('byte value')
            for i in range(8):
                if 8 * k + i >= n:
                    self.differ('trail', b.b[i], 'unused bit %d of %s is set' % (8 * k + i, what))
                else:
                    self.differ(kind, bdd.XOR(b.b[i], want[8 * k + i]), 'bit %d of %s differs' % (8 * k + i, what))

    def number(self, want, kind, msg):
        """result equals the sum of the Boolean functions want"""
        self.e.obl(kind)
        v = self.p.val
        if isinstance(v, Undef):
            self.e.report(self.st, 'uninit', msg + ': uninitialised', fatal=True)
        v = self.e.to_bv(v)
        if v is None:
            raise Unknown('number')
        acc = [bdd.F] * v.w
        for f in want:
            acc = bdd.add(acc, [f] + [bdd.F] * (v.w - 1))
        d = bdd.F
        for x, y in zip(v.b, acc):
            d = bdd.OR(d, bdd.XOR(x, y))
        self.differ(kind, d, msg)


def cases(ctx):
    n = int(next((d for d in ctx_defs(ctx) if d.startswith('N=')), 'N=17')[2:])
    yield from ctors(n)
    yield from queries(n)
    yield from singles(n)
    yield from bulk(n)
    yield from streams(n)
    yield from swaps(n)


def ctx_defs(ctx):
    return tuple((getattr(ctx, 'variant', None) or {}).get('defs', ()))


ZERO_ = lambda n: [bdd.F] * n


def same(p, *names):
    for x in names:
        p.unchanged(x)


def ctors(n):
    P = ('C29', 'C28')

    def mk(entry, setup, want, label='', kind='value', first='r'):
        st = State()
        r = raw(st, n, first)
        ar = setup(st)

        def post(p):
            Bits(p).state(first, n, want)
            p.no_leaks()
        return Case(entry, label, st, [r] + ar, post, P)
    yield mk('b_ctor', lambda st: [], ZERO_(n))
    v = [bdd.var('v%d' % i) for i in range(64)]
    yield mk('b_ctor_v', lambda st: [Bv(v)], [v[i] if i < 64 else bdd.F for i in range(n)], '', 'enc')
    yield mk('b_copy', lambda st: [bs(st, 'b', n, True)], bits('b', n))


def index(st, i, n):
    """argument for index i; None: any index not below n"""
    if i is None:
        st.assume(L('i') - n, L((1 << 64) - 1) - L('i'))
        return I(64, L('i'))
    return I(64, i)


def queries(n):
    a = bits('a', n)
    conj = bdd.T
    disj = bdd.F
    for x in reversed(a):
        conj = bdd.AND(conj, x)
        disj = bdd.OR(disj, x)

    def q(entry, args, post, label='', props=('C28',), throws=()):
        st = State()
        st_a = [bs(st, 'a', n, True)]
        ar = args(st)

        def po(p):
            post(p)
            same(p, 'a')
            p.no_leaks()
        return Case(entry, label, st, st_a + ar, po, props, throws)
    none = lambda st: []
    yield q('b_all', none, lambda p: Bits(p).result(conj, 'count', 'all()'))
    yield q('b_any', none, lambda p: Bits(p).result(disj, 'count', 'any()'))
    yield q('b_bool', none, lambda p: Bits(p).result(disj, 'count', 'operator bool'))
    yield q('b_none', none, lambda p: Bits(p).result(bdd.NOT(disj), 'count', 'none()'))
    yield q('b_count', none, lambda p: Bits(p).number(a, 'count', 'count()'))
    yield q('b_hash', none, lambda p: hashed(p, n), '', ('C22',))
    for e, w in (('b_size', n), ('b_max_size', n)):
        yield Case(e, '', State(), [], lambda p, w=w: p.eq(p.val, w, 'ret', 'size'), ('C29',))
    yield Case('b_empty', '', State(), [], lambda p: p.result(n == 0, 'ret', 'empty()'), ('C29',))
    b = bits('b', n)
    eq = bdd.T
    for x, y in reversed(list(zip(a, b))):
        eq = bdd.AND(eq, bdd.EQV(x, y))
    for e, w in (('b_eq', eq), ('b_ne', bdd.NOT(eq))):
        def post(p, w=w):
            Bits(p).result(w, 'cmp', 'comparison')
            same(p, 'b')
        yield q(e, lambda st: [bs(st, 'b', n, True)], post, '', ('C21', 'C28'))
        st = State()
        s = bs(st, 'a', n, True)
        yield Case(e, 'self', st, [s, s], lambda p, w=bdd.T if e == 'b_eq' else bdd.F: Bits(p).result(w, 'cmp', 'comparison with itself'), ('C21', 'C28'))
    if n:
        for e, i in (('b_get_0', 0), ('b_get_l', n - 1), ('b_get_m', n // 2)):
            yield q(e, none, lambda p, i=i: Bits(p).result(a[i], 'enc', 'get<%d>' % i), '', ('C34', 'C29'))


def syms(k, out):
    """names of the bits a value depends on"""
    if isinstance(k, Lin):
        for s, _ in k.t:
            if s.startswith('b!'):
                out |= bdd.support(int(s[2:]))
            else:
                out.add(s)
    elif isinstance(k, Val):
        syms(k.key(), out)
    elif isinstance(k, tuple):
        if len(k) == 2 and k[0] == 'B':
            for b in k[1]:
                if b > 1:
                    out |= bdd.support(b)
        else:
            for x in k:
                syms(x, out)
    elif isinstance(k, str) and k.startswith('&'):
        out.add(k)
    return out


def hashed(p, n):
    p.e.obl('hash')
    got = syms(p.val, set())
    want = {'a%d' % i for i in range(n)}
    if got - want:
        p.rep('hash', 'hash depends on %s' % ', '.join(sorted(got - want)))
    if want - got:
        p.rep('hash', 'hash does not depend on %s' % ', '.join(sorted(want - got)))


def singles(n):
    a = bits('a', n)
    P = ('C29', 'C28', 'C20')

    def mk(entry, i, want, extra=None, checked=True, ret=None, ro=False, label='', kind='enc'):
        """operation addressing bit i (None: out of range)"""
        st = State()
        s = bs(st, 'a', n, ro)
        x = index(st, i, n)
        ar = extra(st) if extra else []

        def post(p):
            b = Bits(p)
            if i is None:
                if p.kind != 'throw':
                    p.rep('ret', 'index not below size() is accepted')
                b.state('a', n, a, 'post')
            else:
                if p.kind == 'throw':
                    p.rep('ret', 'out-of-range reported for an index below size()')
                    return
                b.state('a', n, want, kind)
                if ret == 'self':
                    p.ptr(p.val, 'a', ZERO, 'ret', 'returned reference')
                elif ret is not None:
                    b.result(ret, 'enc', 'bit returned')
            p.no_leaks()
        return Case(entry, label or ('i>=N' if i is None else 'i=%d' % i), st, [s, x] + ar, post, P, (RANGE,) if checked else ())
    sub = lambda i, f: a[:i] + [f] + a[i + 1:]
    v = bdd.var('v')
    for i in list(range(n)) + [None]:
        j = 0 if i is None else i
        for e in ('b_index_cat', 'b_index_at', 'b_test'):
            yield mk(e, i, a, ret=a[j] if i is not None else None, ro=e != 'b_index_at')
        yield mk('b_set_i', i, sub(j, bdd.T), ret='self')
        yield mk('b_set_iv', i, sub(j, v), lambda st: [Bv([v])], ret='self')
        yield mk('b_reset_i', i, sub(j, bdd.F), ret='self')
        yield mk('b_flip_i', i, sub(j, bdd.NOT(a[j]) if i is not None else bdd.F), ret='self')
        if i is None:
            continue
        for e in ('b_index_c', 'b_index'):
            yield mk(e, i, a, ret=a[j], checked=False, ro=e == 'b_index_c')
        for e in ('b_ref_not', 'b_ref_not_c'):
            yield mk(e, i, a, ret=bdd.NOT(a[j]), checked=False)
        yield mk('b_ref_read_c', i, a, ret=a[j], checked=False)
        yield mk('b_ref_set', i, sub(j, v), lambda st: [Bv([v])], checked=False)
        yield mk('b_ref_flip', i, sub(j, bdd.NOT(a[j])), checked=False)
    b = bits('b', n)
    if n <= 9:
        pairs = [(i, j) for i in range(n) for j in range(n)]
    else:
        c = sorted({0, 1, 7, 8, n // 2, n - 2, n - 1})
        pairs = [(i, j) for i in c for j in c]

    def two(e, i, j, other):
        st = State()
        x = bs(st, 'a', n)
        y = bs(st, 'b', n) if other else x

        def post(p):
            q = Bits(p)
            if e == 'b_ref_copy':
                q.state('a', n, sub(i, (b if other else a)[j]), 'enc')
                if other:
                    q.state('b', n, b, 'post')
            elif other:
                q.state('a', n, sub(i, b[j]), 'enc')
                q.state('b', n, b[:j] + [a[i]] + b[j + 1:], 'enc')
            else:
                w = list(a)
                w[i], w[j] = a[j], a[i]
                q.state('a', n, w, 'enc')
            p.no_leaks()
        return Case(e, 'i=%d j=%d%s' % (i, j, '' if other else ' same object'), st, [x, I(64, i), y, I(64, j)], post, ('C29', 'C18') if 'swap' in e else ('C29',))
    for i, j in pairs:
        for e in ('b_ref_copy', 'b_ref_swap', 'b_ref_swapf'):
            yield two(e, i, j, True)
            yield two(e, i, j, False)


def bulk(n):
    a, b = bits('a', n), bits('b', n)
    P = ('C29', 'C28')

    def mk(entry, args, want, label='', ret='a', extra=None, first=False, self_=None):
        """in-place operation on a; with first: result constructed in r"""
        st = State()
        r = [raw(st, n)] if first else []
        s = bs(st, 'a', n, first)
        ar = args(st)
        if self_:
            ar = [s]

        def post(p):
            Bits(p).state('r' if first else 'a', n, want)
            if first:
                same(p, 'a')
            elif ret:
                p.ptr(p.val, 'a', ZERO, 'ret', 'returned reference')
            if 'b' in p.case.st.R:
                same(p, 'b')
            p.no_leaks()
        return Case(entry, label, st, r + [s] + ar, post, P)
    nil = lambda st: []
    other = lambda st: [bs(st, 'b', n, True)]
    yield mk('b_assign', other, b)
    for e, f in (('and', bdd.AND), ('or', bdd.OR), ('xor', bdd.XOR)):
        w = [f(x, y) for x, y in zip(a, b)]
        yield mk('b_' + e, other, w)
        yield mk('b_v' + e, other, w, first=True)
        ws = [f(x, x) for x in a]
        yield mk('b_' + e, nil, ws, 'self', self_=True)
        yield mk('b_v' + e, nil, ws, 'self', first=True, self_=True)
    yield mk('b_assign', nil, a, 'self', self_=True)
    yield mk('b_not', nil, [bdd.NOT(x) for x in a], first=True)
    yield mk('b_set', nil, [bdd.T] * n)
    yield mk('b_reset', nil, [bdd.F] * n)
    yield mk('b_flip', nil, [bdd.NOT(x) for x in a])
    for k in list(range(n)) + [None]:
        def cnt(st):
            if k is None:
                st.assume(L('k') - n, L((1 << 64) - 1) - L('k'))
                return [I(64, L('k'))]
            return [I(64, k)]
        m = n if k is None else k
        lbl = 'k>=N' if k is None else 'k=%d' % k
        up = [a[i - m] if i >= m else bdd.F for i in range(n)]
        dn = [a[i + m] if i + m < n else bdd.F for i in range(n)]
        yield mk('b_shl', cnt, up, lbl)
        yield mk('b_vshl', cnt, up, lbl, first=True)
        yield mk('b_shr', cnt, dn, lbl)
        yield mk('b_vshr', cnt, dn, lbl, first=True)


def streams(n):
    a = bits('a', n)
    st = State()
    s = bs(st, 'a', n, True)
    st.add_region(Region('os', 'the stream', 'ext', 280))

    def post(p):
        p.e.obl('stream')
        ev = [x for x in p.st.ev if x[0] == 'put']
        if len(ev) != n:
            p.e.report(p.st, 'stream', '%d characters written instead of %d' % (len(ev), n), fatal=True)
        for k, x in enumerate(ev):
            v = p.e.to_bv(x[1])
            if v is None:
                raise Unknown('character')
            i = n - 1 - k
            d = bdd.XOR(v.b[0], a[i])
            for j in range(1, 8):
                d = bdd.OR(d, bdd.NOT(v.b[j]) if 0x30 >> j & 1 else v.b[j])
            Bits(p).differ('stream', d, 'character %d is not the digit of bit %d' % (k, i))
        p.ptr(p.val, 'os', ZERO, 'stream', 'returned stream')
        same(p, 'a')
        p.no_leaks()
    yield Case('b_out', '', st, [Ptr('os'), s], post, ('C30',))
    st = State()
    s = bs(st, 'a', n)
    st.add_region(Region('is.vt', 'the virtual table', 'global', 24, ((L(0), L(8), ('sc', I(64, IOS), 8)), (L(8), L(24), RAW)), ro=True, attr={'const': True}))
    st.add_region(Region('is', 'the stream', 'ext', 280, ((ZERO, L(8), ('sc', Ptr('is.vt', 24), 8)), (L(8), L(280), RAW))))

    def post(p):
        p.e.obl('stream')
        st = p.st
        b = Bits(p)
        if not st.at.get(('sentry',), True):
            b.state('a', n, a, 'stream')
            p.true(st.at.get(('pos',), 0) == 0, 'stream', 'characters are read from a stream that is not good')
            return
        k = 0
        while k < n:
            c = st.at.get(('in', k))
            if c is None:
                # this character was never looked at
                raise Split([('atom', ('in', k), x) for x in ('digit', 'lo', 'hi', 'eof')])
            if c != 'digit':
                break
            k += 1
        pos = st.at.get(('pos',), 0)
        p.true(pos == k, 'stream', '%d characters consumed although %s lead the input' % (pos, '%d digits' % k))
        f = bool(st.at.get(('state',), 0) & FAILBIT)
        if n:
            p.true(f == (k == 0), 'stream', 'fail state is %s although %d digits were read' % ('set' if f else 'not set', k))
        if k == 0:
            b.state('a', n, a, 'stream')
        else:
            b.state('a', n, [bdd.var('in%d' % (k - 1 - i)) if i < k else bdd.F for i in range(n)], 'stream')
        p.ptr(p.val, 'is', ZERO, 'stream', 'returned stream')
        p.no_leaks()
    yield Case('b_in', '', st, [Ptr('is'), s], post, ('C30',))


def swaps(n):
    a, b = bits('a', n), bits('b', n)
    for e in ('b_swap', 'b_swap_free', 'b_std_swap'):
        st = State()
        x, y = bs(st, 'a', n), bs(st, 'b', n)

        def post(p):
            Bits(p).state('a', n, b)
            Bits(p).state('b', n, a)
            p.no_leaks()
        yield Case(e, '', st, [x, y], post, ('C18', 'C29'))
        st = State()
        x = bs(st, 'a', n)

        def post(p):
            Bits(p).state('a', n, a)
            p.no_leaks()
        yield Case(e, 'self', st, [x, x], post, ('C18', 'C17', 'C29'))
