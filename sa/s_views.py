"""Specification of ptl::array_ref (opaque elements of 24 bytes) and ptl::string_ref."""
from lin import L, ZERO
from dom import *
from spec import *

PARAM = globals().get('PARAM', {})
ES = PARAM.get('es', 24)           # element of an array_ref
LIFE = PARAM.get('life', True)
NAME = 'views'
DEFS = ()
OPT = {'no_elements': True} if PARAM else {'no_elements': True, 'order': 'u'}
KINDS = {
    'life': ['C24', 'C03'], 'oob': ['C24'], 'uaf': ['C24'], 'uninit': ['C24'], 'overlap': ['C24'], 'copied': ['C24', 'C03'],
    'leak': ['C24', 'C03'], 'dealloc': ['C24', 'C03'], 'term': ['C19'], 'value': ['C24'], 'ret': [], 'repr': ['C02'],
    'constwrite': ['C36', 'C24'], 'global': ['C36'], 'cmp': ['C21'], 'throw': ['C20'], 'post': ['C24'], 'hash': ['C22'], 'print': ['C38'],
}
MAXC = (1 << 63) - 1
KIN = ('range', 'null')


class Kind:
    """element description of a view type"""
    def __init__(self, es, life):
        self.es, self.life = es, life
        self.max = MAXC // es


A = Kind(ES, LIFE)
C = Kind(1, False)


def store_(st, k, name, n, ro=True):
    """referenced storage: pre elements, the n viewed ones, post elements"""
    pre, post = L(name + '.pre'), L(name + '.post')
    st.assume(pre, post, L(k.max) - pre - n - post)
    tot = pre + n + post
    st.add_region(Region(name + '.mem', 'the referenced range of ' + name, 'ext', tot.mul(k.es), ((ZERO, tot.mul(k.es), ('E', k.life, k.es, name, ZERO)),), ro=ro))
    return Ptr(name + '.mem', pre.mul(k.es))


def view(st, k, name, kind='range', ro=False):
    """a view object over n elements"""
    if kind == 'null':
        n, p, q = ZERO, NULL, NULL
    else:
        n = L(name + '.n')
        st.assume(n)
        p = store_(st, k, name, n)
        q = Ptr(p.r, p.o + n.mul(k.es))
    st.at[('n', name)] = n
    st.at[('first', name)] = (p.r, p.o)
    st.add_region(Region(name, name, 'obj', 16, ((L(0), L(8), ('sc', p, 8)), (L(8), L(16), ('sc', q, 8))), ro=ro))
    return Ptr(name)


def n_(st, name='a'):
    return st.at[('n', name)]


def f_(st, name='a'):
    return st.at[('first', name)]


def raw(st, name='z', size=16):
    st.add_region(Region(name, 'the result', 'obj', size))
    return Ptr(name)


def u64(s):
    return I(64, L(s))


def chk(p, name, rid, off, n, k):
    """view object `name` denotes n elements from rid+off"""
    st = p.st
    f, l = p.word(name, 0), p.word(name, 8)
    if rid == NULLR:
        p.ptr(f, NULLR, ZERO, 'value', 'start of the view')
        p.ptr(l, NULLR, ZERO, 'value', 'end of the view')
        return
    p.ptr(f, rid, off, 'value', 'start of the view')
    p.ptr(l, rid, off + L(n).mul(k.es), 'value', 'end of the view')


def rest(p, *skip):
    for q, r in p.case.st.R.items():
        if q not in skip and q in p.st.R and r.kind in ('obj', 'ext', 'heap'):
            p.unchanged(q)
            p.owned.add(q)
    p.no_leaks()


def cases(ctx):
    return (c for c in everything() if not PARAM or c.entry.startswith('a_'))


def everything():
    yield from ctors(A, 'a')
    yield from ctors(C, 'r')
    yield from sources()
    yield from access(A, 'a')
    yield from access(C, 'r')
    yield from parts()
    yield from text()


def ctors(k, x):
    P = ('C24', 'C03', 'C19')

    def mk(entry, setup, where, label='', props=P, obj='z', skip=()):
        st = State()
        z = raw(st) if obj == 'z' else None
        more = setup(st)

        def post(p):
            rid, off, n = where(p.case.st)
            chk(p, obj, rid, off, n, k)
            rest(p, obj, *skip)
        return Case(entry, label, st, ([z] if z else []) + more, post, props)

    def whole(st, name='o'):
        return f_(st, name) + (n_(st, name),)
    yield mk(x + '_ctor', lambda st: [], lambda st: (NULLR, ZERO, ZERO))

    def two(st):
        st.assume(L('n'))
        p = store_(st, k, 'o', L('n'))
        st.at[('n', 'o')], st.at[('first', 'o')] = L('n'), (p.r, p.o)
        return [p, Ptr(p.r, p.o + L('n').mul(k.es))]

    def cnt(st):
        return [two(st)[0], u64('n')]
    if x == 'a':
        yield mk('a_ctor_pp', two, whole)
        yield mk('a_ctor_pp', lambda st: [NULL, NULL], lambda st: (NULLR, ZERO, ZERO), 'null')
    for e in ('a_ctor_pn',) if x == 'a' else ('r_ctor_sn', 'r_lit'):
        yield mk(e, cnt, whole)
        yield mk(e, lambda st: [NULL, I(64, 0)], lambda st: (NULLR, ZERO, ZERO), 'null')
    for kd in KIN:
        for e in ('_copy', '_move'):
            yield mk(x + e, lambda st, kd=kd: [view(st, k, 'o', kd, True)], whole, kd)
        for kd2 in KIN:
            for e in ('_assign', '_assign_m') if x == 'a' else ('_assign',):
                def post(p):
                    chk(p, 'a', *whole(p.case.st), k)
                    p.ptr(p.val, 'a', ZERO, 'value', 'returned reference')
                    rest(p, 'a')
                st = State()
                yield Case(x + e, kd2 + ' ' + kd, st, [view(st, k, 'a', kd2), view(st, k, 'o', kd, True)], post, P)

        def post(p):
            chk(p, 'a', *whole(p.case.st, 'a'), k)
            rest(p, 'a')
        st = State()
        a = view(st, k, 'a', kd)
        yield Case(x + '_assign', 'self ' + kd, st, [a, a], post, P + ('C17',))
        st = State()
        yield Case(x + '_dtor', kd, st, [view(st, k, 'a', kd)], lambda p: rest(p, 'a'), P)
    if x == 'a':
        for kd in KIN:
            yield mk('a_conv', lambda st, kd=kd: [view(st, k, 'o', kd, True)], whole, kd, P + ('C25',))


def sources():
    P = ('C24', 'C03', 'C25')

    def mk(entry, setup, label='', k=A):
        st = State()
        z = raw(st)
        arg, rid, off, n = setup(st)

        def post(p):
            chk(p, 'z', rid, off, n, k)
            rest(p, 'z')
        return Case(entry, label, st, [z, arg], post, P)

    def arr(st):
        st.add_region(Region('s', 'the array', 'ext', 5 * ES, ((ZERO, L(5 * ES), ('E', LIFE, ES, 's', ZERO)),), ro=True))
        return Ptr('s'), 's', ZERO, L(5)
    for e in ('a_from_arr', 'a_from_arr_c', 'a_from_stdarr', 'a_from_ptlarr', 'a_from_ptlarr_c'):
        yield mk(e, arr)

    def il(st):
        n = L('n')
        st.assume(n)
        p = store_(st, A, 's', n)
        st.add_region(Region('l', 'the list', 'ext', 16, ((L(0), L(8), ('sc', p, 8)), (L(8), L(16), ('sc', I(64, n), 8))), ro=True))
        return Ptr('l'), p.r, p.o, n
    yield mk('a_from_il', il)

    def vec(st):
        n, c = L('n'), L('c')
        st.assume(n, c - n, c - 1, L(A.max) - c)
        st.add_region(Region('b', 'the buffer', 'heap', c.mul(ES), ((ZERO, n.mul(ES), ('E', LIFE, ES, 's', ZERO)), (n.mul(ES), c.mul(ES), RAW)), free=Fn('@dealloc:s'), ro=True))
        st.add_region(Region('v', 'the vector', 'ext', 32, ((L(0), L(8), ('sc', Fn('@dealloc:s'), 8)), (L(8), L(16), ('sc', Ptr('b'), 8)), (L(16), L(24), ('sc', I(64, c), 8)), (L(24), L(32), ('sc', I(64, n), 8))), ro=True))
        return Ptr('v'), 'b', ZERO, n
    for e in ('a_from_vec', 'a_from_vec_c'):
        yield mk(e, vec)

    def cstr(st):
        n = L('n')
        st.assume(n, L(MAXC - 2) - n)
        st.add_region(Region('s', 'the text', 'ext', n + 2, ((ZERO, n, ('E', False, 1, 'nz', ZERO)), (n, n + 1, ZEROV), (n + 1, n + 2, ('E', False, 1, 'behind', ZERO))), ro=True))
        return Ptr('s'), 's', ZERO, n
    yield mk('r_ctor_s', cstr, '', C)

    def sv(kd):
        def f(st):
            if kd == 'null':
                p, n = NULL, ZERO
            else:
                n = L('n')
                st.assume(n)
                p = store_(st, C, 's', n)
            st.add_region(Region('v', 'the string_view', 'ext', 16, ((L(0), L(8), ('sc', I(64, n), 8)), (L(8), L(16), ('sc', p, 8))), ro=True))
            return Ptr('v'), p.r, p.o, n
        return f
    for kd in KIN:
        yield mk('r_ctor_sv', sv(kd), kd, C)


def access(k, x):
    P = ('C24',)

    def q(entry, post, some=False, more=lambda st: [], throws=(), props=P, kinds=KIN, out=None):
        for kd in kinds:
            st = State()
            z = [raw(st, 'z', out)] if out else []
            a = view(st, k, 'a', kd, True)
            if some:
                if kd == 'null':
                    continue
                st.assume(n_(st) - 1)
            ar = more(st)

            def po(p):
                post(p)
                rest(p, 'z')
            yield Case(entry, kd, st, z + [a] + ar, po, props, throws)

    def at_ptr(v, off):
        def f(p):
            rid, o = f_(p.case.st)
            p.ptr(v(p), rid, o + L(off(p.case.st)).mul(k.es), 'ret', 'position')
        return f
    val = lambda p: p.val
    it = lambda p: p.word('z', 0)
    zero = lambda st: ZERO
    end = lambda st: n_(st)
    yield from q(x + '_data', at_ptr(val, zero))
    yield from q(x + '_size', lambda p: p.eq(p.val, n_(p.case.st), 'ret', 'size()'))
    yield from q(x + '_empty', lambda p: p.result(p.st.eq0(n_(p.case.st)), 'ret', 'empty()'))
    yield from q(x + '_front', at_ptr(val, zero), True)
    yield from q(x + '_back', at_ptr(val, lambda st: n_(st) - 1), True)

    def idx(st):
        st.assume(L('i'), n_(st) - 1 - L('i'))
        return [u64('i')]

    def any_(st):
        st.assume(L('i'), L((1 << 64) - 1) - L('i'))
        return [u64('i')]
    yield from q(x + '_index', at_ptr(val, lambda st: L('i')), True, idx)

    def at_post(p):
        inside = p.st.ge0(n_(p.case.st) - 1 - L('i'))
        if p.kind == 'throw':
            if inside:
                p.rep('throw', 'out-of-range reported for an index below size()')
            return
        if not inside:
            p.e.report(p.st, 'throw', 'index not below size() accepted', fatal=True)
        at_ptr(val, lambda st: L('i'))(p)
    for e in ('_at', '_at_c') if x == 'a' else ('_at',):
        yield from q(x + e, at_post, False, any_, (RANGE,), P + ('C20',))
    I_ = P + ('C23',)
    c = ('_c',) if x == 'a' else ()
    for e in ('_begin', '_cbegin', '_rend', '_crend') + tuple('_begin' + y for y in c) + tuple('_rend' + y for y in c):
        yield from q(x + e, at_ptr(it, zero), props=I_, out=8)
    for e in ('_end', '_cend', '_rbegin', '_crbegin') + tuple('_end' + y for y in c) + tuple('_rbegin' + y for y in c):
        yield from q(x + e, at_ptr(it, end), props=I_, out=8)


def parts():
    P = ('C24',)

    def mk(entry, k, args, off, n, kd, obj='z'):
        st = State()
        z = [raw(st)] if obj == 'z' else []
        a = view(st, k, 'a', kd, obj == 'z')
        ar = args(st)

        def post(p):
            rid, o = f_(p.case.st)
            chk(p, obj, rid, o + L(off(p.case.st)).mul(k.es), n(p.case.st), k)
            rest(p, obj)
        return Case(entry, kd, st, z + [a] + ar, post, P)

    def one(s):
        def f(st):
            st.assume(L(s), n_(st) - L(s))
            return [u64(s)]
        return f

    def two(st):
        st.assume(L('i'), L('m'), n_(st) - L('i') - L('m'))
        return [u64('i'), u64('m')]
    i, m = (lambda st: L('i')), (lambda st: L('m'))
    z = lambda st: ZERO
    for kd in KIN:
        yield mk('a_first', A, one('m'), z, m, kd)
        yield mk('a_last', A, one('m'), lambda st: n_(st) - L('m'), m, kd)
        for e, k in (('a_sub', A), ('r_sub', C)):
            yield mk(e, k, one('i'), i, lambda st: n_(st) - L('i'), kd)
        for e, k in (('a_sub2', A), ('r_sub2', C)):
            yield mk(e, k, two, i, m, kd)
        yield mk('r_prefix', C, one('i'), i, lambda st: n_(st) - L('i'), kd, 'a')
        yield mk('r_suffix', C, one('m'), z, lambda st: n_(st) - L('m'), kd, 'a')


REL = {'eq': ('eq',), 'ne': ('lt', 'gt'), 'lt': ('lt',), 'gt': ('gt',), 'le': ('lt', 'eq'), 'ge': ('gt', 'eq')}


def text():
    for kd in KIN:
        st = State()
        z = raw(st)
        a = view(st, C, 'a', kd, True)

        def sv(p):
            rid, o = f_(p.case.st)
            p.eq(p.word('z', 0, 8, 'i64'), n_(p.case.st), 'value', 'length of the view')
            p.ptr(p.word('z', 8), rid, o, 'value', 'start of the view')
            rest(p, 'z')
        yield Case('r_sv', kd, st, [z, a], sv, ('C24',))
        st = State()
        st.add_region(Region('os', 'the stream', 'ext', 272, ro=True))

        def printed(p):
            n = n_(p.case.st)
            p.ptr(p.val, 'os', 0, 'print', 'returned stream')
            ev = p.st.ev
            p.true(len(ev) == 1 and ev[0][0] == 'ostream_insert', 'print', 'the text is not written by one formatted output operation')
            p.true(ev[0][1] == Ptr('os').key(), 'print', 'text written to another stream')
            got = ev[0][2]
            if p.st.eq0(n):
                ok = not got
            else:
                ok = len(got) == 1 and p.st.eq0(got[0][0] - n) and got[0][1][:4] == ('E', False, 1, 'a') and p.st.eq0(got[0][1][4] - L('a.pre'))
            p.true(ok, 'print', 'written text is %s instead of the referenced one' % (got,))
            rest(p, 'os')
        yield Case('r_out', kd, st, [Ptr('os'), view(st, C, 'a', kd, True)], printed, ('C38', 'C24'))
        st = State()

        def hashed(p):
            p.result(True, 'hash', 'a string reference and a string view of the same text have different hashes')
            rest(p)
        yield Case('r_hash', kd, st, [view(st, C, 'a', kd, True)], hashed, ('C22',))
    # two references of equal contents at different places
    st = State()
    a, b = whole(st, 'a', 'range'), whole(st, 'b', 'range', 'a')
    st.R['b.mem'] = st.R['b.mem'].upd(segs=tuple((lo, hi, ('E', False, 1, 'a', ZERO)) for lo, hi, v in st.R['b.mem'].segs))
    yield Case('r_hash_same', '', st, [a, b], lambda p: p.result(True, 'hash', 'equal string references have different hashes'), ('C22',))
    yield Case('r_max', '', *(lambda st: (st, [view(st, C, 'a', 'range', True)]))(State()), lambda p: p.eq(p.val, L(MAXC), 'ret', 'max_size()'), ('C24', 'C31'))
    for op, ok in REL.items():
        for sfx in ('', '_rv', '_rs'):
            for kd in KIN:
                for kd2 in KIN:
                    if sfx == '_rs' and kd2 == 'null':
                        continue
                    st = State()
                    a = whole(st, 'a', kd)
                    if sfx == '':
                        b = whole(st, 'b', kd2)
                    else:
                        n = ZERO if kd2 == 'null' else L('b.n')
                        if kd2 == 'null':
                            q = NULL
                        else:
                            st.assume(n, L(MAXC - 1) - n)
                            st.add_region(Region('b.mem', 'the text', 'heap' if sfx == '_rs' else 'ext', n + 1, ((ZERO, n, ('E', False, 1, 'b', ZERO)), (n, n + 1, ('sc', I(8, 0), 1))), ro=True, free=Fn('@dealloc:b')))
                            q = Ptr('b.mem')
                        st.at[('len', 'b')] = n
                        if sfx == '_rv':
                            st.add_region(Region('b', 'the string_view', 'ext', 16, ((L(0), L(8), ('sc', I(64, n), 8)), (L(8), L(16), ('sc', q, 8))), ro=True))
                        else:
                            st.add_region(Region('b', 'the string', 'ext', 32, ((L(0), L(8), ('sc', Fn('@dealloc:b'), 8)), (L(8), L(16), ('sc', q, 8)), (L(16), L(24), ('sc', I(64, n), 8)), (L(24), L(32), ('sc', I(64, n), 8))), ro=True))
                            st.assume(n - 23)
                        b = Ptr('b')

                    def post(p, ok=ok, op=op):
                        s0 = p.case.st
                        x, y = (('' if s0.at[('len', v)] == ZERO else v, ZERO, s0.at[('len', v)]) for v in 'ab')
                        r = p.e.rel_whole(p.st, x, y)
                        p.result(r in ok, 'cmp', '%s for contents comparing %s' % (op, r))
                        rest(p)
                    yield Case('r_' + op + sfx, kd + '/' + kd2, st, [a, b], post, ('C21',))
        st = State()
        a = whole(st, 'a', 'range')
        yield Case('r_' + op, 'self', st, [a, a], lambda p, ok=ok, op=op: p.result('eq' in ok, 'cmp', op + ' of a reference with itself'), ('C21',))

        # two references into the same text
        for flip in (0, 1):
            st = State()
            a = whole(st, 'a', 'range')
            st.assume(L('a.n') - L('k'), L('k'))
            st.add_region(Region('b', 'b', 'obj', 16, ((L(0), L(8), ('sc', Ptr('a.mem'), 8)), (L(8), L(16), ('sc', Ptr('a.mem', L('k')), 8))), ro=True))

            def post(p, ok=ok, op=op, flip=flip):
                r = 'eq' if p.st.eq0(L('a.n') - L('k')) else 'lt' if flip else 'gt'
                p.result(r in ok, 'cmp', '%s of references to %s' % (op, 'the same text' if r == 'eq' else 'a text and a part of it'))
                rest(p)
            yield Case('r_' + op, 'prefix of the other' if flip else 'the other is a prefix', st, [Ptr('b'), a] if flip else [a, Ptr('b')], post, ('C21',))

        # character by character, for short texts
        for n1 in range(3):
            for n2 in range(3):
                st = State()
                for x, n in (('a', n1), ('b', n2)):
                    st.add_region(Region(x + '.mem', 'the text of ' + x, 'ext', n, text_(x, n), ro=True))
                    st.add_region(Region(x, x, 'obj', 16, ((L(0), L(8), ('sc', Ptr(x + '.mem'), 8)), (L(8), L(16), ('sc', Ptr(x + '.mem', L(n)), 8))), ro=True))

                def post(p, ok=ok, op=op, n1=n1, n2=n2):
                    r = text_relation(p, n1, n2)
                    p.result(r in ok, 'cmp', '%s for contents comparing %s' % (op, r))
                    rest(p)
                yield Case('r_' + op, 'characters %d/%d' % (n1, n2), st, [Ptr('a'), Ptr('b')], post, ('C21',))


def whole(st, name, kd, sym=None):
    """a string reference whose characters are one whole named sequence"""
    if kd == 'null':
        st.at[('len', name)] = ZERO
        return view(st, C, name, 'null', True)
    n = L((sym or name) + '.n')
    st.assume(n, L(MAXC) - n)
    st.at[('len', name)] = n
    st.add_region(Region(name + '.mem', 'the text of ' + name, 'ext', n, ((ZERO, n, ('E', False, 1, name, ZERO)),), ro=True))
    st.add_region(Region(name, name, 'obj', 16, ((L(0), L(8), ('sc', Ptr(name + '.mem'), 8)), (L(8), L(16), ('sc', Ptr(name + '.mem', n), 8))), ro=True))
    return Ptr(name)
