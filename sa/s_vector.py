"""Specification of ptl::vector<Type> for an opaque element type of 24 bytes."""
from lin import L, ZERO
from dom import *
from spec import *

PARAM = globals().get('PARAM', {})
ES = PARAM.get('es', 24)
LIFE = PARAM.get('life', True)      # elements with special members, or trivial ones
MAXN = ((1 << 63) - 1) // ES
NAME = 'vector'
DEFS = ()

KINDS = {
    'life': ['C06'], 'oob': ['C08'], 'uaf': ['C08'], 'uninit': ['C08'], 'overlap': ['C07', 'C08'],
    'dealloc': ['C05'], 'leak': ['C05'], 'term': ['C19'], 'value': ['C07'], 'ret': ['C07'],
    'align': ['C08', 'C04'], 'repr': ['C02', 'C05'], 'cap': ['C32'], 'growth': ['C37'], 'limit': ['C31'],
    'constwrite': ['C36'], 'global': ['C36'], 'cmp': ['C21'], 'throw': ['C12'], 'post': ['C12'],
    '@throw': ['C12'],
}


def sc(v, n=8):
    return ('sc', v, n)


def vec(st, name, kind, ro=False):
    """pre-state of a vector: kind 'none' (no buffer), 'buf' (n elements in a buffer of capacity c) or the number of elements"""
    if kind == 'none':
        st.at[('len', name)] = ZERO
        segs = ((L(0), L(8), sc(NULL)), (L(8), L(16), sc(NULL)), (L(16), L(24), sc(I(64, 0))), (L(24), L(32), sc(I(64, 0))))
    else:
        n, c = L(name + '.n') if kind == 'buf' else L(kind), L(name + '.c')
        st.assume(n, c - n, c - 1, L(MAXN) - c)
        if kind == 'buf':
            st.at[('len', name)] = n
        fn = Fn('@dealloc:' + name)
        buf = name + '.buf'
        st.add_region(Region(buf, 'the buffer of ' + name, 'heap', c.mul(ES),
                             ((ZERO, n.mul(ES), ('E', LIFE, ES, name, ZERO)), (n.mul(ES), c.mul(ES), RAW)), free=fn, align=64, ro=ro))
        segs = ((L(0), L(8), sc(fn)), (L(8), L(16), sc(Ptr(buf))), (L(16), L(24), sc(I(64, c))), (L(24), L(32), sc(I(64, n))))
    st.add_region(Region(name, name, 'obj', 32, segs, ro=ro))
    return Ptr(name)


def raw(st, name, size=32):
    st.add_region(Region(name, name, 'obj', size))
    return Ptr(name)


def n_(st, name):
    return st.at[('len', name)]


def c_(st, name):
    return L(name + '.c') if name + '.buf' in st.R else ZERO


def ext(st, name, k, ro=True):
    """external range of k elements"""
    k = L(k)
    st.at[('len', name)] = k
    st.add_region(Region(name, 'the source range', 'ext', k.mul(ES), ((ZERO, k.mul(ES), ('E', LIFE, ES, name, ZERO)),), ro=ro))
    return Ptr(name), Ptr(name, k.mul(ES))


def val(st, name='x', ro=True):
    st.add_region(Region(name, 'the argument', 'ext', ES, ((ZERO, L(ES), ('E', LIFE, ES, name, ZERO)),), ro=ro))
    return Ptr(name)


def sq(src, i, k):
    return (L(k), ('E', LIFE, ES, src, L(i)))


def rep(ident, k):
    return (L(k), fill_(ident, ES, LIFE))


def el(src, i=0):
    return T(('elt', src, L(i)), ES * 8)


DEF = T(('default',), ES * 8) if LIFE else I(ES * 8, 0)


A0 = 32 if LIFE else ES * 8


def two_args(st):
    """arguments an element is constructed from"""
    for s, w in (('p0', A0), ('p1', 32)):
        st.assume(L(s) + (1 << (w - 1)), L((1 << (w - 1)) - 1) - L(s))
    return [I(A0, L('p0')), I(32, L('p1'))]


CT = T(('ctor', I(32, L('p0')).key(), I(32, L('p1')).key()), ES * 8) if LIFE else I(A0, L('p0'))


def chk(p, name, want, what=None):
    """representation invariant of vector `name` and its contents"""
    e, st = p.e, p.st
    d, b = p.word(name, 0), p.word(name, 8)
    c, n = p.num(name, 16), p.num(name, 24)
    if isinstance(d, Undef):
        e.report(st, 'uninit', '%s holds an uninitialised release function' % name, fatal=True)
    total = ZERO
    for k, _ in want:
        total = total + k
    if is_null(d):
        p.true(st.eq0(c), 'repr', '%s has no buffer but reports a capacity' % name)
        p.true(st.eq0(n), 'repr', '%s has no buffer but reports elements' % name)
        p.ptr(b, NULLR, 0, 'repr', '%s has no release function but a buffer' % name)
        p.true(st.eq0(total), 'value', '%s is empty instead of holding %s elements' % (name, total))
        return dict(buf=None, cap=c, n=n)
    r = p.buffer(d, b, c.mul(ES), name)
    if not st.ge0(c - n):
        e.report(st, 'oob', 'size of %s exceeds its capacity' % name, fatal=True)
    if not st.ge0(L(MAXN) - c):
        e.report(st, 'limit', 'capacity of %s exceeds max_size' % name, fatal=True)
    p.content(r.rid, ZERO, n.mul(ES), ES, LIFE, want, what='contents of ' + name)
    p.no_life(r.rid, n.mul(ES), r.size)
    return dict(buf=r.rid, cap=c, n=n)


def same_state(p, name):
    """value as before the operation"""
    n = p.case.st.at[('len', name)]
    return chk(p, name, [sq(name, 0, n)])


def kept(p, i, name):
    """no reallocation took place"""
    st = p.st
    p.true((i['buf'] or '') == (name + '.buf' if name + '.buf' in p.case.st.R else ''), 'cap', '%s was reallocated although the capacity sufficed' % name)
    p.true(st.eq0(i['cap'] - c_(p.case.st, name)), 'cap', 'capacity of %s changed although it sufficed' % name)


def state(*vs, **kw):
    st = State()
    for name, kind in vs:
        vec(st, name, kind, kw.get('ro', False) and name in kw['ro'])
    return st


ALLOC = (BAD_ALLOC, LENGTH)
ALL = (BAD_ALLOC, LENGTH, USER)
KIN = ('none', 'buf')


def mutators(entry, props, mk, want, ret=None, throws=ALL, keep=True, args=(), kinds=KIN, label='', extra=None, after=None, strong=True, asked=None):
    """cases of an operation on vector a.
       mk(st) -> further arguments (or None when impossible); want(st) -> expected contents;
       ret(st) -> expected index of the returned pointer"""
    for kind in kinds:
        st = State()
        try:
            a = vec(st, 'a', kind)
            more = mk(st)
        except Dead:
            continue
        if more is None or not st.P.feasible():
            continue
        w = want(st)
        total = ZERO
        for k, _ in w:
            total = total + k
        lim = st.P.entails(L(MAXN) - total)

        def post(p, w=w, total=total, st0=st):
            if p.kind == 'throw':
                if strong:
                    i = same_state(p, 'a')
                if keep and p.exc == BAD_ALLOC and '_init' not in entry:     # a single-pass source has to be stored first
                    p.true(p.st.ge0(total - c_(st0, 'a') - 1), 'cap', 'memory is requested although the capacity suffices')
                if after:
                    after(p, None)
                p.no_leaks()
                return
            if not lim and not p.st.ge0(L(MAXN) - total):
                p.e.report(p.st, 'limit', 'operation succeeds although the resulting size exceeds max_size', fatal=True)
            if keep and p.st.ge0(c_(st0, 'a') - total):
                i = chk(p, 'a', w)
                kept(p, i, 'a')
            else:
                i = chk(p, 'a', w)
                if 'growth' in label:
                    # amortised constant appending needs a capacity growing by a constant factor
                    n = n_(st0, 'a')
                    if not p.st.ge0(i['cap'].mul(4) - n.mul(5)):
                        p.e.report(p.st, 'growth', 'capacity grows from %s elements to %s only' % (n, i['cap']), fatal=True)
            if ret is not None:
                k = ret(p.st)
                if i['buf'] is None:
                    p.ptr(p.val, NULLR, 0, 'ret', 'returned position')
                else:
                    p.ptr(p.val, i['buf'], k.mul(ES), 'ret', 'returned position')
            if after:
                after(p, i)
            p.no_leaks()
        yield Case(entry, (kind + ' ' + label).strip(), st, [a] + more, post, tuple(props) + (('C37',) if 'growth' in label else ()), throws, limit=(asked or total, L(MAXN)))


def with_range(st, name='S', n=None):
    k = L('k') if n is None else L(n)
    st.assume(k, L((1 << 63) // ES - 1) - k)
    f, l = ext(st, name, k)
    return f, l, k


def intact(p, i):
    for r in ('S', 'x'):
        if r in p.case.st.R and p.case.st.R[r].ro:
            p.unchanged(r)


def alias_val(st):
    """reference to an element of a"""
    if 'a.buf' not in st.R:
        return None
    j = L('j')
    st.assume(j, n_(st, 'a') - 1 - j)
    return Ptr('a.buf', j.mul(ES))


def alias_range(st):
    if 'a.buf' not in st.R:
        return None
    j, k = L('j'), L('k')
    st.assume(j, k, n_(st, 'a') - j - k)
    return Ptr('a.buf', j.mul(ES)), Ptr('a.buf', (j + k).mul(ES)), k


def pos(st, name='i'):
    i = L(name)
    st.assume(i, n_(st, 'a') - i)
    return i


def cases(ctx):
    P = ('C07', 'C06', 'C08', 'C05')
    yield from ctors(P)
    yield from assigns(P)
    yield from modifiers(P)
    yield from inserts(P)
    yield from queries()
    yield from swaps()
    yield from compares()


def ctors(P):
    def mkc(entry, setup, want, throws=ALL, props=P, after=None, label=''):
        st = State()
        a = raw(st, 'a')
        more = setup(st)
        w = want(st)
        total = ZERO
        for k, _ in w:
            total = total + k

        def post(p):
            if p.kind == 'throw':
                if after:
                    after(p, None)
                p.no_leaks()
                return
            i = chk(p, 'a', w)
            if after:
                after(p, i)
            p.no_leaks()
        return Case(entry, label, st, [a] + more, post, props, throws, limit=(total, L(MAXN)))

    yield mkc('v_ctor', lambda st: [], lambda st: [], ())
    for kind in KIN:
        def copy(st, kind=kind):
            return [vec(st, 'b', kind, True)]
        def aft(p, i, kind=kind):
            same_state(p, 'b')
            p.unchanged('b')
        yield mkc('v_copy', copy, lambda st: [sq('b', 0, n_(st, 'b'))], ALL, P, aft, kind)
        def mv(st, kind=kind):
            return [vec(st, 'b', kind)]
        def aftm(p, i, kind=kind):
            chk_valid(p, 'b', 'a')
            stolen(p, i, 'b')
        yield mkc('v_move', mv, lambda st: [sq('b', 0, n_(st, 'b'))], (), P + ('C17', 'C19', 'C32'), aftm, kind)

    def rng(st):
        f, l, k = with_range(st)
        return [f, l]
    yield mkc('v_ctor_range', rng, lambda st: [sq('S', 0, L('k'))], ALL, P + ('C12',), intact)
    yield mkc('v_ctor_throwit', rng, lambda st: [sq('S', 0, L('k'))], ALL, P + ('C12',), intact)
    yield mkc('v_ctor_il', lambda st: (lambda f, l, k: [f, I(64, k)])(*with_range(st)), lambda st: [sq('S', 0, L('k'))], ALL, P + ('C12',), intact)
    for n in (0, 1, 2):
        yield mkc('v_ctor_init', lambda st, n=n: (lambda f, l, k: [f, l])(*with_range(st, n=n)), lambda st, n=n: [sq('S', 0, L(n))], ALL, P + ('C12',), intact, 'range of %d' % n)

    def cnt(st):
        k = L('k')
        st.assume(k, L(M64 - 1) - k)
        return [I(64, k)]
    yield mkc('v_ctor_n', cnt, lambda st: [rep(DEF, L('k'))], ALL, P + ('C31', 'C12'))
    yield mkc('v_ctor_nx', lambda st: cnt(st) + [val(st)], lambda st: [rep(el('x'), L('k'))], ALL, P + ('C31', 'C12'), intact)

    for kind in KIN:
        st = State()
        a = vec(st, 'a', kind)

        def post(p):
            r = p.st.R.get('a.buf')
            if r is not None:
                p.true(not r.alive, 'leak', 'the buffer is not released by the destructor')
        yield Case('v_dtor', kind, st, [a], post, P + ('C05', 'C19'))


def elements(p, r, n):
    """n elements exist, whatever their values"""
    if LIFE:
        p.e.life_check_live(p.st, r, ZERO, n.mul(ES), 'elements of', None)
        return
    for l, v in p.e.read_segs(p.st, r, ZERO, n.mul(ES)):
        if v == RAW and not p.st.eq0(l):
            p.e.report(p.st, 'uninit', 'uninitialised elements', fatal=True)


def chk_valid(p, name, *others):
    """a moved-from object: valid, owns nothing of the others, any contents"""
    e, st = p.e, p.st
    d, b = p.word(name, 0), p.word(name, 8)
    c, n = p.num(name, 16), p.num(name, 24)
    if is_null(d):
        p.true(st.eq0(c) and st.eq0(n), 'repr', '%s has no buffer but reports capacity or elements' % name)
        p.ptr(b, NULLR, 0, 'repr', '%s has no release function but a buffer' % name)
        return
    r = p.buffer(d, b, c.mul(ES), name)
    if not st.ge0(c - n):
        e.report(st, 'oob', 'size of %s exceeds its capacity' % name, fatal=True)
    elements(p, r, n)
    p.no_life(r.rid, n.mul(ES), r.size)


def stolen(p, i, name):
    """the buffer itself changed hands"""
    if i is None:
        return
    want = name + '.buf' if name + '.buf' in p.case.st.R else None
    p.true(i['buf'] == want, 'value', 'moving did not hand over the buffer')


def assigns(P):
    for ka in KIN:
        for kb in KIN:
            st = State()
            a, b = vec(st, 'a', ka), vec(st, 'b', kb, True)

            def post(p):
                if p.kind == 'throw':
                    same_state(p, 'a')
                else:
                    i = chk(p, 'a', [sq('b', 0, n_(p.case.st, 'b'))])
                    p.ptr(p.val, 'a', 0, 'ret', 'returned reference')
                same_state(p, 'b')
                p.unchanged('b')
                p.no_leaks()
            yield Case('v_assign_copy', ka + '=' + kb, st, [a, b], post, P + ('C12',), ALL)
            st = State()
            a, b = vec(st, 'a', ka), vec(st, 'b', kb)

            def post(p):
                i = chk(p, 'a', [sq('b', 0, n_(p.case.st, 'b'))])
                p.ptr(p.val, 'a', 0, 'ret', 'returned reference')
                chk_valid(p, 'b', 'a')
                stolen(p, i, 'b')
                p.no_leaks()
            yield Case('v_assign_move', ka + '=' + kb, st, [a, b], post, P + ('C17', 'C19', 'C32'), ())
        for entry in ('v_assign_copy', 'v_assign_move'):
            st = State()
            a = vec(st, 'a', ka)

            def post(p):
                if p.kind == 'throw':
                    same_state(p, 'a')
                else:
                    chk(p, 'a', [sq('a', 0, n_(p.case.st, 'a'))])
                    p.ptr(p.val, 'a', 0, 'ret', 'returned reference')
                p.no_leaks()
            yield Case(entry, 'self ' + ka, st, [a, a], post, P + ('C17',), ALL if 'copy' in entry else ())

    def mk_rng(st):
        f, l, k = with_range(st)
        return [f, l]
    W = lambda st: [sq('S', 0, L('k'))]
    for e in ('v_assign_range', 'v_assign_throwit'):
        yield from mutators(e, P + ('C12',), mk_rng, W, keep=False, after=intact)
    for e in ('v_assign_ilist', 'v_assign_il'):
        yield from mutators(e, P + ('C12',), lambda st: (lambda f, l, k: [f, I(64, k)])(*with_range(st)), W, keep=False, after=(intact if e == 'v_assign_ilist' else lambda p, i: (intact(p, i), i and p.ptr(p.val, 'a', 0, 'ret', 'returned reference'))))
    for n in (0, 1, 2):
        yield from mutators('v_assign_init', P + ('C12',), lambda st, n=n: (lambda f, l, k: [f, l])(*with_range(st, n=n)), lambda st, n=n: [sq('S', 0, L(n))], keep=False, after=intact, label='range of %d' % n)

    def cnt(st):
        k = L('k')
        st.assume(k, L(M64 - 1) - k)
        return [I(64, k), val(st)]
    yield from mutators('v_assign_n', P + ('C12', 'C31'), cnt, lambda st: [rep(el('x'), L('k'))], keep=False, after=intact)

    def cnt_alias(st):
        k = L('k')
        st.assume(k, L(MAXN) - k)
        v = alias_val(st)
        return None if v is None else [I(64, k), v]
    yield from mutators('v_assign_n', P + ('C11',), cnt_alias, lambda st: [rep(el('a', L('j')), L('k'))], keep=False, label='element of itself', kinds=('buf',))

    def rng_alias(st):
        v = alias_range(st)
        return None if v is None else [v[0], v[1]]
    for e in ('v_assign_range', 'v_assign_throwit'):
        yield from mutators(e, P + ('C11',), rng_alias, lambda st: [sq('a', L('j'), L('k'))], keep=False, label='part of itself', kinds=('buf',))


def modifiers(P):
    n = lambda st: n_(st, 'a')
    old = lambda st: [sq('a', 0, n_(st, 'a'))]
    # appending one element
    app = lambda x: (lambda st: old(st) + [rep(x, 1)])
    yield from mutators('v_push_back_c', P + ('C12',), lambda st: [val(st)], app(el('x')), ret=n, after=intact, label='growth')
    yield from mutators('v_push_back_c', P + ('C11',), lambda st: [alias_val(st)], lambda st: old(st) + [rep(el('a', L('j')), 1)], ret=n, label='element of itself', kinds=('buf',))

    def moved(p, i):
        if i is not None:
            p.content('x', 0, ES, ES, LIFE, [(L(1), ('MV', ES))]) if False else None
    yield from mutators('v_push_back_m', P, lambda st: [val(st, ro=False)], app(el('x')), ret=n, throws=ALLOC, after=moved, label='growth')

    def mk_mv_alias(st):
        return [alias_val(st)]
    # moving from an element of itself: the appended element takes the value, the source stays alive
    for kind in ('buf',):
        st = State()
        a = vec(st, 'a', kind)
        x = alias_val(st)

        def post(p):
            if p.kind == 'throw':
                same_state(p, 'a')
                p.no_leaks()
                return
            st0 = p.case.st
            e, s = p.e, p.st
            d, b = p.word('a', 0), p.word('a', 8)
            c, k = p.num('a', 16), p.num('a', 24)
            r = p.buffer(d, b, c.mul(ES), 'a')
            p.true(s.eq0(k - n_(st0, 'a') - 1), 'value', 'size after appending')
            elements(p, r, k)
            p.content(r.rid, ZERO, L('j').mul(ES), ES, LIFE, [sq('a', 0, L('j'))], what='contents of a')
            p.content(r.rid, (L('j') + 1).mul(ES), (k - 1).mul(ES), ES, LIFE, [sq('a', L('j') + 1, k - 2 - L('j'))], what='contents of a')
            p.content(r.rid, (k - 1).mul(ES), k.mul(ES), ES, LIFE, [rep(el('a', L('j')), 1)], what='contents of a')
            p.no_life(r.rid, k.mul(ES), r.size)
            p.no_leaks()
        yield Case('v_push_back_m', 'element of itself', st, [a, x], post, P + ('C11',), ALLOC, limit=(n_(st, 'a') + 1, L(MAXN)))

    yield from mutators('v_emplace_back', P + ('C12',), two_args, app(CT), ret=n, label='growth')

    def pop(st):
        st.assume(n_(st, 'a') - 1)
        return []
    yield from mutators('v_pop_back', P + ('C32',), pop, lambda st: [sq('a', 0, n_(st, 'a') - 1)], throws=(), kinds=('buf',))

    def cnt(st):
        k = L('k')
        st.assume(k, L(M64 - 1) - k)
        return [I(64, k)]

    def reserved(p, i):
        if i is None:
            return
        p.true(p.st.ge0(i['cap'] - L('k')), 'cap', 'capacity after reserve is too small')
        p.true(p.st.ge0(i['cap'] - c_(p.case.st, 'a')), 'cap', 'reserve reduced the capacity')
        if p.st.ge0(c_(p.case.st, 'a') - L('k')):
            kept(p, i, 'a')
    yield from mutators('v_reserve', P + ('C32', 'C31'), cnt, old, throws=ALLOC, keep=False, after=reserved, asked=L('k'))

    def resized(x):
        def w(st):
            return None
        return w
    for entry, x in (('v_resize', DEF), ('v_resize_x', el('x'))):
        def mk(st, entry=entry):
            return cnt(st) + ([val(st)] if entry == 'v_resize_x' else [])

        def shrink(st, mk=mk):
            r = mk(st)
            st.assume(n_(st, 'a') - L('k'))
            return r

        def grow(st, mk=mk):
            r = mk(st)
            st.assume(L('k') - n_(st, 'a') - 1)
            return r
        yield from mutators(entry, P + ('C32',), shrink, lambda st: [sq('a', 0, L('k'))], throws=(), label='smaller', after=intact)
        yield from mutators(entry, P + ('C12', 'C31'), grow, lambda st, x=x: old(st) + [rep(x, L('k') - n_(st, 'a'))], label='larger', after=intact)

    def grow_alias(st):
        r = cnt(st)
        st.assume(L('k') - n_(st, 'a') - 1, L(MAXN) - L('k'))
        v = alias_val(st)
        return r + [v]
    yield from mutators('v_resize_x', P + ('C11',), grow_alias, lambda st: old(st) + [rep(el('a', L('j')), L('k') - n_(st, 'a'))], label='larger, element of itself', kinds=('buf',))

    def shrunk(p, i):
        p.true(p.st.ge0(c_(p.case.st, 'a') - i['cap']), 'cap', 'shrink_to_fit increased the capacity')
    def smallest(st):
        if 'a.buf' in st.R:
            st.assume(c_(st, 'a') - 10)      # no operation produces a smaller buffer
        return []
    yield from mutators('v_shrink', P + ('C19', 'C32', 'C12'), smallest, old, throws=(), keep=False, after=shrunk)
    yield from mutators('v_clear', P + ('C32', 'C19'), lambda st: [], lambda st: [], throws=())

    def er1(st):
        i = L('i')
        st.assume(i, n_(st, 'a') - 1 - i)
        return [I(64, i)]
    yield from mutators('v_erase1', P + ('C32', 'C19'), er1, lambda st: [sq('a', 0, L('i')), sq('a', L('i') + 1, n_(st, 'a') - L('i') - 1)], ret=lambda st: L('i'), throws=(), kinds=('buf',))

    def er(st):
        i, j = L('i'), L('j')
        st.assume(i, j - i, n_(st, 'a') - j)
        return [I(64, i), I(64, j)]
    yield from mutators('v_erase', P + ('C32', 'C19'), er, lambda st: [sq('a', 0, L('i')), sq('a', L('j'), n_(st, 'a') - L('j'))], ret=lambda st: L('i'), throws=())


def inserts(P):
    i = L('i')

    def ins(st, *mid):
        return [sq('a', 0, i)] + list(mid) + [sq('a', i, n_(st, 'a') - i)]

    def at(f):
        def mk(st):
            pos(st)
            r = f(st)
            return None if r is None or None in r else [I(64, i)] + r
        return mk
    ret = lambda st: i
    rng = lambda st: list(with_range(st)[:2])
    arng = lambda st: None if alias_range(st) is None else list(alias_range(st)[:2])
    for e in ('v_insert_range', 'v_insert_throwit'):
        yield from mutators(e, P + ('C12',), at(rng), lambda st: ins(st, sq('S', 0, L('k'))), ret, after=intact)
        yield from mutators(e, P + ('C11',), at(arng), lambda st: ins(st, sq('a', L('j'), L('k'))), ret, kinds=('buf',), label='part of itself')
    yield from mutators('v_insert_il', P + ('C12',), at(lambda st: (lambda f, l, k: [f, I(64, k)])(*with_range(st))), lambda st: ins(st, sq('S', 0, L('k'))), ret, after=intact)
    for n in (0, 1, 2):
        yield from mutators('v_insert_init', P + ('C12',), at(lambda st, n=n: list(with_range(st, n=n)[:2])), lambda st, n=n: ins(st, sq('S', 0, L(n))), ret, after=intact, label='range of %d' % n)
    yield from mutators('v_insert_c', P + ('C12',), at(lambda st: [val(st)]), lambda st: ins(st, rep(el('x'), 1)), ret, after=intact)
    yield from mutators('v_insert_c', P + ('C11',), at(lambda st: [alias_val(st)]), lambda st: ins(st, rep(el('a', L('j')), 1)), ret, kinds=('buf',), label='element of itself')
    yield from mutators('v_insert_m', P + ('C12',), at(lambda st: [val(st, ro=False)]), lambda st: ins(st, rep(el('x'), 1)), ret, throws=ALLOC)

    def cnt(st):
        k = L('k')
        st.assume(k, L(M64 - 1) - k)
        return [I(64, k), val(st)]

    def acnt(st):
        k = L('k')
        st.assume(k, L(MAXN) - k)
        return [I(64, k), alias_val(st)]
    yield from mutators('v_insert_n', P + ('C12', 'C31'), at(cnt), lambda st: ins(st, rep(el('x'), L('k'))), ret, after=intact)
    yield from mutators('v_insert_n', P + ('C11',), at(acnt), lambda st: ins(st, rep(el('a', L('j')), L('k'))), ret, kinds=('buf',), label='element of itself')
    yield from mutators('v_emplace', P + ('C12',), at(two_args), lambda st: ins(st, rep(CT, 1)), ret)


def queries():
    Q = ('C07', 'C08', 'C36')

    def q(entry, post, kinds=KIN, pre=None, args=lambda st: [], props=Q, throws=(), ro=True):
        for kind in kinds:
            st = State()
            a = vec(st, 'a', kind, ro)
            try:
                if pre:
                    pre(st)
                ar = args(st)
            except Dead:
                continue

            def po(p, post=post):
                post(p)
                p.unchanged('a')
                if 'a.buf' in p.case.st.R:
                    p.unchanged('a.buf')
                    p.owned.add('a.buf')
                p.no_leaks()
            yield Case(entry, kind, st, [a] + ar, po, props, throws)

    def at_ptr(off):
        def f(p):
            if 'a.buf' in p.case.st.R:
                p.ptr(p.val, 'a.buf', off(p.case.st).mul(ES), 'ret', 'returned position')
            else:
                p.ptr(p.val, NULLR, 0, 'ret', 'returned position')
        return f
    zero, n = (lambda st: ZERO), (lambda st: n_(st, 'a'))
    for e in ('v_data', 'v_data_c'):
        yield from q(e, at_ptr(zero))
    for e in ('v_begin', 'v_begin_c', 'v_cbegin', 'v_rend', 'v_rend_c', 'v_crend'):
        yield from q(e, at_ptr(zero), props=Q + ('C23',))
    for e in ('v_end', 'v_end_c', 'v_cend', 'v_rbegin', 'v_rbegin_c', 'v_crbegin'):
        yield from q(e, at_ptr(n), props=Q + ('C23',))
    some = lambda st: st.assume(n_(st, 'a') - 1)
    for e in ('v_front', 'v_front_c'):
        yield from q(e, at_ptr(zero), ('buf',), some)
    for e in ('v_back', 'v_back_c'):
        yield from q(e, at_ptr(lambda st: n_(st, 'a') - 1), ('buf',), some)

    def idx(st):
        st.assume(L('i'), n_(st, 'a') - 1 - L('i'))
        return [I(64, L('i'))]

    def any_(st):
        st.assume(L('i'), L(M64 - 1) - L('i'))
        return [I(64, L('i'))]
    for e in ('v_index', 'v_index_c'):
        yield from q(e, at_ptr(lambda st: L('i')), ('buf',), None, idx)

    def at_post(p):
        inside = p.st.ge0(n_(p.case.st, 'a') - 1 - L('i'))
        if p.kind == 'throw':
            if inside:
                p.rep('ret', 'out-of-range reported for an index below size()')
            return
        if not inside:
            p.e.report(p.st, 'oob', 'index not below size() accepted', fatal=True)
        at_ptr(lambda st: L('i'))(p)
    for e in ('v_at', 'v_at_c'):
        yield from q(e, at_post, KIN, None, any_, Q + ('C20',), (RANGE,))
    yield from q('v_empty', lambda p: p.result(p.st.eq0(n_(p.case.st, 'a')), 'ret', 'empty()'))
    yield from q('v_size', lambda p: p.eq(p.val, n_(p.case.st, 'a'), 'ret', 'size()'))
    yield from q('v_capacity', lambda p: p.eq(p.val, c_(p.case.st, 'a'), 'ret', 'capacity()'))

    def ms(p):
        p.eq(p.val, L(MAXN), 'ret', 'max_size()')
    st = State()
    yield Case('v_max_size', '', st, [], ms, ('C07', 'C31'))


def swaps():
    S_ = ('C18', 'C05', 'C19')
    for e in ('v_swap', 'v_swap_free', 'v_std_swap'):
        for ka in KIN:
            for kb in KIN:
                st = State()
                a, b = vec(st, 'a', ka), vec(st, 'b', kb)

                def post(p):
                    st0 = p.case.st
                    i = chk(p, 'a', [sq('b', 0, n_(st0, 'b'))])
                    j = chk(p, 'b', [sq('a', 0, n_(st0, 'a'))])
                    p.true(p.st.eq0(i['cap'] - c_(st0, 'b')) and p.st.eq0(j['cap'] - c_(st0, 'a')), 'value', 'capacities are not exchanged')
                    p.true(i['buf'] == ('b.buf' if 'b.buf' in st0.R else None) and j['buf'] == ('a.buf' if 'a.buf' in st0.R else None), 'value', 'buffers are not exchanged')
                    p.no_leaks()
                yield Case(e, ka + '/' + kb, st, [a, b], post, S_)
            st = State()
            a = vec(st, 'a', ka)

            def post(p):
                same_state(p, 'a')
                p.no_leaks()
            yield Case(e, 'self ' + ka, st, [a, a], post, S_ + ('C17',))


REL = {'eq': ('eq',), 'ne': ('lt', 'gt'), 'lt': ('lt',), 'gt': ('gt',), 'le': ('lt', 'eq'), 'ge': ('gt', 'eq')}


def compares():
    for op, ok in REL.items():
        for ka in KIN:
            for kb in KIN:
                st = State()
                a, b = vec(st, 'a', ka, True), vec(st, 'b', kb, True)

                def post(p, ok=ok, op=op):
                    st0 = p.case.st
                    r = p.e.rel_whole(p.st, ('a' if n_(st0, 'a').t else '', ZERO, n_(st0, 'a')), ('b' if n_(st0, 'b').t else '', ZERO, n_(st0, 'b')))
                    p.result(r in ok, 'cmp', '%s for contents comparing %s' % (op, r))
                    for x in ('a', 'b'):
                        p.unchanged(x)
                        p.owned.add(x + '.buf')
                yield Case('v_' + op, ka + '/' + kb, st, [a, b], post, ('C21', 'C36', 'C19'))
            st = State()
            a = vec(st, 'a', ka, True)

            def post(p, ok=ok, op=op):
                p.result('eq' in ok, 'cmp', '%s of an object with itself' % op)
            yield Case('v_' + op, 'self ' + ka, st, [a, a], post, ('C21', 'C36', 'C19'))
        # element by element, for short vectors
        for ka in range(3):
            for kb in range(3):
                st = State()
                a, b = vec(st, 'a', ka, True), vec(st, 'b', kb, True)

                def post(p, ok=ok, op=op, ka=ka, kb=kb):
                    r = lex_expected(p, 'a', ka, 'b', kb, ES)
                    p.result(r in ok, 'cmp', '%s for contents comparing %s' % (op, r))
                    for x in ('a', 'b'):
                        p.unchanged(x)
                        p.owned.add(x + '.buf')
                yield Case('v_' + op, 'elements %d/%d' % (ka, kb), st, [a, b], post, ('C21', 'C36', 'C19'))
