"""Specification of ptl::string."""
from lin import L, ZERO
from dom import *
from spec import *

NAME = 'string'
DEFS = ()
OPT = {'order': 'u'}       # characters compare as unsigned values
CAP = 22                       # characters stored in place
BUF = 9                        # offset of the in-place characters
MAXN = (1 << 63) - 2

KINDS = {
    'oob': ['C10', 'C08'], 'inplace': ['C10', 'C08', 'C02'], 'uaf': ['C10'], 'uninit': ['C10'], 'overlap': ['C09'],
    'dealloc': ['C05'], 'leak': ['C05'], 'term': ['C19'], 'value': ['C09'], 'ret': ['C09'],
    'repr': ['C02', 'C05'], 'cap': ['C32'], 'limit': ['C31'], 'term0': ['C10'], 'hash': ['C22'], 'print': ['C38'],
    'constwrite': ['C36'], 'global': ['C36'], 'cmp': ['C21'], 'throw': ['C12'], 'post': ['C12'],
    '@throw': ['C12'],
}
KIN = ('sso', 'heap')
ALL = (BAD_ALLOC, LENGTH, USER)
ALLOC = (BAD_ALLOC, LENGTH)


def sc(v, n=8):
    return ('sc', v, n)


def ch(src, i=0):
    return ('E', False, 1, src, L(i))


def st_str(st, name, kind, ro=False, src=None, n=None):
    """pre-state of a string holding src[0..n)"""
    src = src or name
    n = L(name + '.n') if n is None else L(n)
    st.at[('len', src)] = n
    if kind == 'sso':
        st.assume(n, L(CAP) - n)
        segs = ((L(0), L(8), sc(NULL)), (L(8), L(9), sc(I(8, n), 1)), (L(BUF), BUF + n, ch(src)), (n + BUF, n + (BUF + 1), sc(I(8, 0), 1)), (n + (BUF + 1), L(32), RAW))
    else:
        c = L(name + '.c')
        st.assume(n, c - n, c - CAP - 1, L(MAXN) - c)
        fn = Fn('@dealloc:' + name)
        buf = name + '.buf'
        st.add_region(Region(buf, 'the buffer of ' + name, 'heap', c + 1, ((ZERO, n, ch(src)), (n, n + 1, sc(I(8, 0), 1)), (n + 1, c + 1, RAW)), free=fn, ro=ro))
        segs = ((L(0), L(8), sc(fn)), (L(8), L(16), sc(Ptr(buf))), (L(16), L(24), sc(I(64, c))), (L(24), L(32), sc(I(64, n))))
    st.add_region(Region(name, name, 'obj', 32, tuple(s for s in segs if s[0] != s[1]), ro=ro))
    return Ptr(name)


def raw(st, name='a'):
    st.add_region(Region(name, name, 'obj', 32))
    return Ptr(name)


def n_(st, name='a'):
    return st.at[('len', name)]


def c_(st, name='a'):
    return L(name + '.c') if name + '.buf' in st.R else L(CAP)


def base(st, name='a'):
    return Ptr(name + '.buf', ZERO) if name + '.buf' in st.R else Ptr(name, L(BUF))


def ext(st, name='S', k='k', lim=MAXN):
    """external characters"""
    k = L(k)
    st.assume(k, L(lim) - k)
    st.at[('len', name)] = k
    st.add_region(Region(name, 'the source range', 'ext', k, ((ZERO, k, ch(name)),), ro=True))
    return Ptr(name), Ptr(name, k), k


def sq(src, i, k):
    return (L(k), ch(src, i))


def rep(v, k):
    return (L(k), ('E', False, 1, ('f', v), None))


CH = I(8, L('ch'))


def char(st, name='ch'):
    st.assume(L(name) + 128, L(127) - L(name))
    return I(8, L(name))


ZERO_CH = I(8, 0)


def fields(p, name):
    """(release function, base pointer region, base offset, capacity, size) after checking the representation"""
    e, st = p.e, p.st
    d = p.word(name, 0)
    if isinstance(d, Undef):
        e.report(st, 'uninit', '%s holds an uninitialised release function' % name, fatal=True)
    if is_null(d):
        n = p.num(name, 8, 1)
        p.true(st.ge0(L(CAP) - n), 'inplace', '%s records %s characters in place' % (name, n))
        return None, name, L(BUF), L(CAP), n
    b, c, n = p.word(name, 8), p.num(name, 16), p.num(name, 24)
    r = p.buffer(d, b, c + 1, name)
    p.true(st.ge0(c - n), 'oob', 'size of %s exceeds its capacity' % name)
    p.true(st.ge0(L(MAXN) - c), 'limit', 'capacity of %s exceeds max_size' % name)
    return r.rid, r.rid, ZERO, c, n


def chk(p, name, want):
    buf, rid, o, c, n = fields(p, name)
    p.content(rid, o, o + n, 1, False, want, what='contents of ' + name)
    p.content(rid, o + n, o + n + 1, 1, False, [(L(1), ZEROV)], kind='term0', what='terminator of ' + name)
    return dict(buf=buf, cap=c, n=n)


def chk_valid(p, name):
    buf, rid, o, c, n = fields(p, name)
    for l, v in p.e.read_segs(p.st, p.st.R[rid], o, o + n):
        if v == RAW and not p.st.eq0(l):
            p.e.report(p.st, 'uninit', '%s contains uninitialised characters' % name, fatal=True)
    p.content(rid, o + n, o + n + 1, 1, False, [(L(1), ZEROV)], kind='term0', what='terminator of ' + name)
    return dict(buf=buf, cap=c, n=n)


def same_state(p, name='a'):
    return chk(p, name, [sq(name, 0, p.case.st.at[('len', name)])])


def bufof(p, name):
    return name + '.buf' if name + '.buf' in p.case.st.R else None


def kept(p, i, name='a'):
    p.true(i['buf'] == bufof(p, name), 'cap', '%s was reallocated although the capacity sufficed' % name)
    p.true(p.st.eq0(i['cap'] - c_(p.case.st, name)), 'cap', 'capacity of %s changed although it sufficed' % name)


def intact(p, i=None):
    for r in ('S', 'b', 'b.buf'):
        if r in p.case.st.R and p.case.st.R[r].ro:
            p.unchanged(r)
            p.owned.add(r)


def mutators(entry, props, mk, want, ret=None, throws=ALL, keep=True, kinds=KIN, label='', after=None, asked=None):
    for kind in kinds:
        st = State()
        try:
            a = st_str(st, 'a', kind)
            more = mk(st)
        except Dead:
            continue
        if more is None or not st.P.feasible():
            continue
        w = want(st)
        total = ZERO
        for k, _ in w:
            total = total + k
        lim = st.P.entails(L(MAXN) - total)

        def post(p, w=w, total=total, st0=st, lim=lim):
            if p.kind == 'throw':
                same_state(p)
                if keep and p.exc == BAD_ALLOC and '_init' not in entry:     # a single-pass source has to be stored first
                    p.true(p.st.ge0(total - c_(st0) - 1), 'cap', 'memory is requested although the capacity suffices')
                intact(p)
                p.no_leaks()
                return
            if not lim and not p.st.ge0(L(MAXN) - total):
                p.e.report(p.st, 'limit', 'operation succeeds although the resulting size exceeds max_size', fatal=True)
            if keep and p.st.ge0(c_(st0) - total):
                i = chk(p, 'a', w)
                kept(p, i)
            else:
                i = chk(p, 'a', w)
            if ret is not None:
                k = ret(p.st)
                if k == 'self':
                    p.ptr(p.val, 'a', 0, 'ret', 'returned reference')
                elif i['buf'] is None:
                    p.ptr(p.val, 'a', k + BUF, 'ret', 'returned position')
                else:
                    p.ptr(p.val, i['buf'], k, 'ret', 'returned position')
            if after:
                after(p, i)
            intact(p)
            p.no_leaks()
        yield Case(entry, (kind + ' ' + label).strip(), st, [a] + more, post, props, throws, limit=(asked or total, L(MAXN)))


def rng(st):
    f, l, k = ext(st)
    return [f, l]


def view(st):
    f, l, k = ext(st)
    return [I(64, k), f]


def ilist(st):
    f, l, k = ext(st)
    return [f, I(64, k)]


def few(n):
    def f(st):
        a, b, k = ext(st, k=n)
        return [a, b]
    return f


def count(st, lim=M64 - 1):
    k = L('k')
    st.assume(k, L(lim) - k)
    return I(64, k)


def part(st, name='a'):
    """a piece of the string's own characters"""
    j, k = L('j'), L('k')
    st.assume(j, k, n_(st, name) - j - k)
    b = base(st, name)
    return Ptr(b.r, b.o + j), Ptr(b.r, b.o + j + k), k


def arng(st):
    f, l, k = part(st)
    return [f, l]


def aview(st):
    f, l, k = part(st)
    return [I(64, k), f]


SRC = lambda st: sq('S', 0, L('k')) if ('len', 'S') not in st.at else sq('S', 0, st.at[('len', 'S')])
OWN = lambda st: sq('a', L('j'), L('k'))
FILL = lambda st: rep(CH, L('k'))
P = ('C09', 'C10', 'C05')


def cases(ctx):
    yield from ctors()
    yield from assigns()
    yield from appends()
    yield from modifiers()
    yield from inserts()
    yield from replaces()
    yield from concats()
    yield from substrs()
    yield from queries()
    yield from swaps()
    yield from compares()


def ctors():
    def mk(entry, setup, want, throws=ALL, props=P, after=None, label=''):
        st = State()
        a = raw(st)
        more = setup(st)
        w = want(st)
        total = ZERO
        for k, _ in w:
            total = total + k
        lim = st.P.entails(L(MAXN) - total)

        def post(p):
            if p.kind == 'throw':
                intact(p)
                if after:
                    after(p, None)
                p.no_leaks()
                return
            if not lim and not p.st.ge0(L(MAXN) - total):
                p.e.report(p.st, 'limit', 'operation succeeds although the resulting size exceeds max_size', fatal=True)
            i = chk(p, 'a', w)
            if after:
                after(p, i)
            intact(p)
            p.no_leaks()
        return Case(entry, label, st, [a] + more, post, props, throws, limit=(total, L(MAXN)))

    yield mk('s_ctor', lambda st: [], lambda st: [], (), P + ('C19',))
    for k in KIN:
        yield mk('s_copy', lambda st, k=k: [st_str(st, 'b', k, True)], lambda st: [sq('b', 0, n_(st, 'b'))], ALL, P + ('C12', 'C36'), lambda p, i: same_state(p, 'b'), k)

        def moved(p, i):
            chk_valid(p, 'b')
            if i:
                p.true(i['buf'] == bufof(p, 'b'), 'value', 'moving did not hand over the buffer')
        yield mk('s_move', lambda st, k=k: [st_str(st, 'b', k)], lambda st: [sq('b', 0, n_(st, 'b'))], (), P + ('C17', 'C19', 'C32'), moved, k)
    for e in ('s_ctor_range', 's_ctor_throwit'):
        yield mk(e, rng, lambda st: [SRC(st)], ALL, P + ('C12',))
    for n in (0, 1, 2):
        yield mk('s_ctor_init', few(n), lambda st: [SRC(st)], ALL, P + ('C12',), label='range of %d' % n)
    yield mk('s_ctor_sv', view, lambda st: [SRC(st)], ALL, P + ('C12',))
    yield mk('s_ctor_il', ilist, lambda st: [SRC(st)], ALL, P + ('C12',))
    yield mk('s_literal', lambda st: (lambda f, l, k: [f, I(64, k)])(*ext(st)), lambda st: [SRC(st)], ALL, P + ('C19', 'C12'))
    yield mk('s_ctor_n', lambda st: [count(st), char(st)], lambda st: [FILL(st)], ALL, P + ('C31', 'C12'))
    for k in KIN:
        st = State()
        a = st_str(st, 'a', k)

        def post(p):
            r = p.st.R.get('a.buf')
            p.true(r is None or not r.alive, 'leak', 'the buffer is not released by the destructor')
        yield Case('s_dtor', k, st, [a], post, P + ('C19',))


def assigns():
    for ka in KIN:
        for kb in KIN:
            st = State()
            a, b = st_str(st, 'a', ka), st_str(st, 'b', kb, True)

            def post(p):
                if p.kind == 'throw':
                    same_state(p)
                else:
                    chk(p, 'a', [sq('b', 0, n_(p.case.st, 'b'))])
                    p.ptr(p.val, 'a', 0, 'ret', 'returned reference')
                same_state(p, 'b')
                intact(p)
                p.no_leaks()
            yield Case('s_assign_copy', ka + '=' + kb, st, [a, b], post, P + ('C12', 'C36'), ALL)
            st = State()
            a, b = st_str(st, 'a', ka), st_str(st, 'b', kb)

            def post(p):
                i = chk(p, 'a', [sq('b', 0, n_(p.case.st, 'b'))])
                p.ptr(p.val, 'a', 0, 'ret', 'returned reference')
                chk_valid(p, 'b')
                if bufof(p, 'b'):
                    p.true(i['buf'] == bufof(p, 'b'), 'value', 'moving did not hand over the buffer')
                p.no_leaks()
            yield Case('s_assign_move', ka + '=' + kb, st, [a, b], post, P + ('C17', 'C19', 'C32'), ())
        for e in ('s_assign_copy', 's_assign_move'):
            st = State()
            a = st_str(st, 'a', ka)

            def post(p):
                same_state(p)
                if p.kind == 'ret':
                    p.ptr(p.val, 'a', 0, 'ret', 'returned reference')
                p.no_leaks()
            yield Case(e, 'self ' + ka, st, [a, a], post, P + ('C17',), ALL if 'copy' in e else ())
    Q = P + ('C12',)
    S_ = lambda st: 'self'
    W = lambda st: [SRC(st)]
    O = lambda st: [OWN(st)]
    for e in ('s_assign_range', 's_assign_throwit'):
        yield from mutators(e, Q, rng, W, keep=False)
        yield from mutators(e, Q + ('C11',), arng, O, keep=False, label='part of itself')
    for n in (0, 1, 2):
        yield from mutators('s_assign_init', Q, few(n), W, keep=False, label='range of %d' % n)
    for e in ('s_assign_sv', 's_assign_svf'):
        yield from mutators(e, Q, view, W, S_ if e == 's_assign_sv' else None, keep=False)
        yield from mutators(e, Q + ('C11',), aview, O, keep=False, label='part of itself')
    for e in ('s_assign_op_il', 's_assign_il'):
        yield from mutators(e, Q, ilist, W, S_ if e == 's_assign_op_il' else None, keep=False)
    yield from mutators('s_assign_n', Q + ('C31',), lambda st: [count(st), char(st)], lambda st: [FILL(st)], keep=False)


def appends():
    Q = P + ('C12', 'C32')
    S_ = lambda st: 'self'
    old = lambda st: sq('a', 0, n_(st))
    W = lambda st: [old(st), SRC(st)]
    O = lambda st: [old(st), OWN(st)]
    for e in ('s_append_range', 's_append_throwit'):
        yield from mutators(e, Q, rng, W)
        yield from mutators(e, Q + ('C11',), arng, O, label='part of itself')
    for n in (0, 1, 2):
        yield from mutators('s_append_init', Q, few(n), W, label='range of %d' % n)
    for e in ('s_append_sv', 's_add_sv'):
        yield from mutators(e, Q, view, W, S_ if e == 's_add_sv' else None)
        yield from mutators(e, Q + ('C11',), aview, O, label='part of itself')
    for e in ('s_append_il', 's_add_il'):
        yield from mutators(e, Q, ilist, W, S_ if e == 's_add_il' else None)
    yield from mutators('s_append_n', Q + ('C31',), lambda st: [count(st), char(st)], lambda st: [old(st), FILL(st)])
    yield from mutators('s_add_c', Q, lambda st: [char(st)], lambda st: [old(st), rep(CH, 1)], S_)
    yield from mutators('s_push_back', Q, lambda st: [char(st)], lambda st: [old(st), rep(CH, 1)], lambda st: n_(st))
    for kb in KIN:
        yield from mutators('s_add_s', Q, lambda st, kb=kb: [st_str(st, 'b', kb, True)], lambda st: [old(st), sq('b', 0, n_(st, 'b'))], S_, label='+=' + kb)
    yield from mutators('s_add_s', Q + ('C11',), lambda st: [Ptr('a')], lambda st: [old(st), old(st)], S_, label='+= itself')


def modifiers():
    Q = P + ('C12', 'C32')
    old = lambda st: sq('a', 0, n_(st))

    def some(st):
        st.assume(n_(st) - 1)
        return []
    yield from mutators('s_pop_back', P + ('C32', 'C19'), some, lambda st: [sq('a', 0, n_(st) - 1)], throws=())
    yield from mutators('s_clear', P + ('C32', 'C19'), lambda st: [], lambda st: [], throws=())

    def reserved(p, i):
        p.true(p.st.ge0(i['cap'] - L('k')), 'cap', 'capacity after reserve is too small')
        p.true(p.st.ge0(i['cap'] - c_(p.case.st)), 'cap', 'reserve reduced the capacity')
        if p.st.ge0(c_(p.case.st) - L('k')):
            kept(p, i)
    yield from mutators('s_reserve', Q + ('C31',), lambda st: [count(st)], lambda st: [old(st)], throws=ALLOC, keep=False, after=reserved, asked=L('k'))
    for e, v in (('s_resize', ZERO_CH), ('s_resize_c', CH)):
        def mk(st, e=e):
            return [count(st)] + ([char(st)] if e == 's_resize_c' else [])

        def shrink(st, mk=mk):
            r = mk(st)
            st.assume(n_(st) - L('k'))
            return r

        def grow(st, mk=mk):
            r = mk(st)
            st.assume(L('k') - n_(st) - 1)
            return r
        yield from mutators(e, Q, shrink, lambda st: [sq('a', 0, L('k'))], throws=(), label='smaller')
        yield from mutators(e, Q + ('C31',), grow, lambda st, v=v: [old(st), rep(v, L('k') - n_(st))], label='larger')

    def shrunk(p, i):
        p.true(p.st.ge0(c_(p.case.st) - i['cap']), 'cap', 'shrink_to_fit increased the capacity')
    yield from mutators('s_shrink', P + ('C19', 'C32', 'C12'), lambda st: [], lambda st: [old(st)], throws=(), keep=False, after=shrunk)

    def er1(st):
        i = L('i')
        st.assume(i, n_(st) - 1 - i)
        return [I(64, i)]
    yield from mutators('s_erase1', P + ('C32', 'C19'), er1, lambda st: [sq('a', 0, L('i')), sq('a', L('i') + 1, n_(st) - L('i') - 1)], ret=lambda st: L('i'), throws=())

    def er(st):
        i, j = L('i'), L('h')
        st.assume(i, j - i, n_(st) - j)
        return [I(64, i), I(64, j)]
    yield from mutators('s_erase', P + ('C32', 'C19'), er, lambda st: [sq('a', 0, L('i')), sq('a', L('h'), n_(st) - L('h'))], ret=lambda st: L('i'), throws=())


def inserts():
    Q = P + ('C12', 'C32')
    i = L('i')

    def at(f):
        def mk(st):
            st.assume(i, n_(st) - i)
            return [I(64, i)] + f(st)
        return mk

    def ins(mid):
        return lambda st: [sq('a', 0, i), mid(st), sq('a', i, n_(st) - i)]
    ret = lambda st: i
    for e in ('s_insert_range', 's_insert_throwit'):
        yield from mutators(e, Q, at(rng), ins(SRC), ret)
        yield from mutators(e, Q + ('C11',), at(arng), ins(OWN), ret, label='part of itself')
    for n in (0, 1, 2):
        yield from mutators('s_insert_init', Q, at(few(n)), ins(SRC), ret, label='range of %d' % n)
    yield from mutators('s_insert_sv', Q, at(view), ins(SRC), ret)
    yield from mutators('s_insert_sv', Q + ('C11',), at(aview), ins(OWN), ret, label='part of itself')
    yield from mutators('s_insert_il', Q, at(ilist), ins(SRC), ret)
    yield from mutators('s_insert_c', Q, at(lambda st: [char(st)]), ins(lambda st: rep(CH, 1)), ret)
    yield from mutators('s_insert_n', Q + ('C31',), at(lambda st: [count(st), char(st)]), ins(FILL), ret)


def replaces():
    Q = P + ('C12',)
    i, h = L('i'), L('h')

    def at(f):
        def mk(st):
            st.assume(i, h - i, n_(st) - h)
            return [I(64, i), I(64, h)] + f(st)
        return mk

    def rp(mid):
        return lambda st: [sq('a', 0, i), mid(st), sq('a', h, n_(st) - h)]
    ret = lambda st: 'self'
    for e in ('s_replace_range', 's_replace_throwit'):
        yield from mutators(e, Q, at(rng), rp(SRC), ret, keep=False)
        yield from mutators(e, Q + ('C11',), at(arng), rp(OWN), ret, keep=False, label='part of itself')
    for n in (0, 1, 2):
        yield from mutators('s_replace_init', Q, at(few(n)), rp(SRC), ret, keep=False, label='range of %d' % n)
    yield from mutators('s_replace_sv', Q, at(view), rp(SRC), ret, keep=False)
    yield from mutators('s_replace_sv', Q + ('C11',), at(aview), rp(OWN), ret, keep=False, label='part of itself')
    yield from mutators('s_replace_il', Q, at(ilist), rp(SRC), ret, keep=False)
    yield from mutators('s_replace_n', Q + ('C31',), at(lambda st: [count(st), char(st)]), rp(FILL), ret, keep=False)


def fresh(entry, setup, want, props, throws=ALL, label='', after=None):
    """operation returning a new string"""
    st = State()
    a = raw(st, 'r')
    more = setup(st)
    w = want(st)
    total = ZERO
    for k, _ in w:
        total = total + k
    lim = st.P.entails(L(MAXN) - total)

    def post(p):
        if p.kind != 'throw':
            if not lim and not p.st.ge0(L(MAXN) - total):
                p.e.report(p.st, 'limit', 'operation succeeds although the resulting size exceeds max_size', fatal=True)
            chk(p, 'r', w)
        for r, q in p.case.st.R.items():
            if q.ro:
                p.unchanged(r)
                p.owned.add(r)
        if after:
            after(p)
        p.no_leaks()
    return Case(entry, label, st, [a] + more, post, props, throws, limit=(total, L(MAXN)))


def concats():
    Q = P + ('C12', 'C31', 'C36')
    A = lambda st: sq('a', 0, n_(st))
    B = lambda st: sq('b', 0, n_(st, 'b'))
    for k in KIN:
        s = lambda st, k=k: st_str(st, 'b', k, True)
        yield fresh('s_cat_vs', lambda st, s=s: view(st) + [s(st)], lambda st: [SRC(st), B(st)], Q, label=k)
        yield fresh('s_cat_sv', lambda st, s=s: [s(st)] + view(st), lambda st: [B(st), SRC(st)], Q, label=k)
        yield fresh('s_cat_cs', lambda st, s=s: [char(st), s(st)], lambda st: [rep(CH, 1), B(st)], Q, label=k)
        yield fresh('s_cat_sc', lambda st, s=s: [s(st), char(st)], lambda st: [B(st), rep(CH, 1)], Q, label=k)
        for k2 in KIN:
            yield fresh('s_cat_ss', lambda st, s=s, k2=k2: [st_str(st, 'a', k2, True), s(st)], lambda st: [A(st), B(st)], Q, label=k2 + '+' + k)
        yield fresh('s_cat_ss', lambda st, s=s: [s(st), Ptr('b')], lambda st: [B(st), B(st)], Q + ('C11',), label='itself ' + k)


def substrs():
    Q = P + ('C12', 'C36')
    i, m = L('i'), L('m')
    for k in KIN:
        def off(st):
            st.assume(i, n_(st) - i)
            return [I(64, i)]

        def two(st):
            st.assume(i, m, n_(st) - i - m)
            return [I(64, i), I(64, m)]
        yield fresh('s_substr', lambda st, k=k: [st_str(st, 'a', k, True)] + off(st), lambda st: [sq('a', i, n_(st) - i)], Q, label=k)
        yield fresh('s_substr2', lambda st, k=k: [st_str(st, 'a', k, True)] + two(st), lambda st: [sq('a', i, m)], Q, label=k)
        rest = lambda p: chk_valid(p, 'a')
        yield fresh('s_substr_r', lambda st, k=k: [st_str(st, 'a', k)] + off(st), lambda st: [sq('a', i, n_(st) - i)], P + ('C17', 'C19'), (), k, rest)
        yield fresh('s_substr2_r', lambda st, k=k: [st_str(st, 'a', k)] + two(st), lambda st: [sq('a', i, m)], P + ('C17', 'C19'), (), k, rest)


def queries():
    Q = ('C09', 'C10', 'C36')

    def q(entry, post, pre=None, args=lambda st: [], props=Q, throws=(), first=()):
        for kind in KIN:
            st = State()
            a = st_str(st, 'a', kind, True)
            if pre:
                pre(st)
            ar = args(st)

            def po(p, post=post):
                post(p)
                p.unchanged('a')
                if 'a.buf' in p.case.st.R:
                    p.unchanged('a.buf')
                    p.owned.add('a.buf')
                p.no_leaks()
            yield Case(entry, kind, st, (list(first(st)) if first else []) + [a] + ar, po, props, throws)

    def at_ptr(off):
        def f(p):
            b = base(p.case.st)
            p.ptr(p.val, b.r, b.o + off(p.case.st), 'ret', 'returned position')
        return f
    zero, n = (lambda st: ZERO), (lambda st: n_(st))
    for e in ('s_data', 's_data_c', 's_c_str'):
        yield from q(e, at_ptr(zero))
    for e in ('s_begin', 's_begin_c', 's_cbegin', 's_rend', 's_rend_c', 's_crend'):
        yield from q(e, at_ptr(zero), props=Q + ('C23',))
    for e in ('s_end', 's_end_c', 's_cend', 's_rbegin', 's_rbegin_c', 's_crbegin'):
        yield from q(e, at_ptr(n), props=Q + ('C23',))
    some = lambda st: st.assume(n_(st) - 1)
    for e in ('s_front', 's_front_c'):
        yield from q(e, at_ptr(zero), some)
    for e in ('s_back', 's_back_c'):
        yield from q(e, at_ptr(lambda st: n_(st) - 1), some)

    def idx(st):
        st.assume(L('i'), n_(st) - 1 - L('i'))
        return [I(64, L('i'))]

    def any_(st):
        st.assume(L('i'), L(M64 - 1) - L('i'))
        return [I(64, L('i'))]
    for e in ('s_index', 's_index_c'):
        yield from q(e, at_ptr(lambda st: L('i')), (lambda st: st.assume(n_(st) - 1)), idx)

    def at_post(p):
        inside = p.st.ge0(n_(p.case.st) - 1 - L('i'))
        if p.kind == 'throw':
            if inside:
                p.rep('ret', 'out-of-range reported for an index below size()')
            return
        if not inside:
            p.e.report(p.st, 'oob', 'index not below size() accepted', fatal=True)
        at_ptr(lambda st: L('i'))(p)
    for e in ('s_at', 's_at_c'):
        yield from q(e, at_post, None, any_, Q + ('C20',), (RANGE,))
    yield from q('s_empty', lambda p: p.result(p.st.eq0(n_(p.case.st)), 'ret', 'empty()'))
    yield from q('s_size', lambda p: p.eq(p.val, n_(p.case.st), 'ret', 'size()'))
    yield from q('s_capacity', lambda p: p.eq(p.val, c_(p.case.st), 'ret', 'capacity()'))

    def vpost(p):
        b = base(p.case.st)
        n = n_(p.case.st)
        p.eq(p.word('v', 0, 8, 'i64'), n, 'ret', 'length of the view')
        if not p.st.eq0(n):
            p.ptr(p.word('v', 8), b.r, b.o, 'ret', 'start of the view')

    def out(st):
        st.add_region(Region('v', 'the result', 'obj', 16))
        return [Ptr('v')]
    yield from q('s_view', vpost, first=out, props=Q + ('C24',))

    def printed(p):
        n = n_(p.case.st)
        p.ptr(p.val, 'os', 0, 'ret', 'returned stream')
        want = () if p.st.eq0(n) else ((n, seg_key(ch('a'))),)
        ev = p.st.ev
        p.true(len(ev) == 1 and ev[0][0] == 'ostream_insert', 'print', 'the text is not written by one formatted output operation')
        p.true(ev[0][1] == Ptr('os').key(), 'print', 'text written to another stream')
        got = ev[0][2]
        if len(got) != len(want) or any(not p.st.eq0(x[0] - y[0]) or x[1] != y[1] for x, y in zip(got, want)):
            p.rep('print', 'written text %s instead of %s' % (got, want))

    def os(st):
        st.add_region(Region('os', 'the stream', 'ext', 272, ro=True))
        return [Ptr('os')]
    yield from q('s_print', printed, first=os, props=Q + ('C38',))
    # equal contents, different storage
    for k1 in KIN:
        for k2 in KIN:
            st = State()
            a = st_str(st, 'a', k1, True)
            b = st_str(st, 'b', k2, True, src='a', n=n_(st))

            def post(p):
                p.result(True, 'hash', 'equal strings have different hashes')
                intact(p)
                p.unchanged('a')
            yield Case('s_hash_same', k1 + '/' + k2, st, [a, b], post, ('C22', 'C36', 'C19'))
            st = State()
            a = st_str(st, 'a', k1, True)
            b = st_str(st, 'b', k2, True, src='a', n=n_(st))
    for k1 in KIN:
        for e, what in (('s_hash_sv', 'string view'), ('s_hash_ref', 'string reference')):
            st = State()
            a = st_str(st, 'a', k1, True)

            def post(p, what=what):
                p.result(True, 'hash', 'a string and a %s of the same text have different hashes' % what)
                for q in p.case.st.R:
                    p.unchanged(q)
            yield Case(e, k1, st, [a], post, ('C22', 'C36', 'C19'))
    yield Case('s_max_size', '', State(), [], lambda p: p.eq(p.val, L(MAXN), 'ret', 'max_size()'), ('C09', 'C31'))


def swaps():
    for e in ('s_swap', 's_swap_free', 's_std_swap'):
        for ka in KIN:
            for kb in KIN:
                st = State()
                a, b = st_str(st, 'a', ka), st_str(st, 'b', kb)

                def post(p):
                    st0 = p.case.st
                    i = chk(p, 'a', [sq('b', 0, n_(st0, 'b'))])
                    j = chk(p, 'b', [sq('a', 0, n_(st0, 'a'))])
                    if bufof(p, 'b'):
                        p.true(i['buf'] == 'b.buf' and p.st.eq0(i['cap'] - c_(st0, 'b')), 'value', 'buffers are not exchanged')
                    if bufof(p, 'a'):
                        p.true(j['buf'] == 'a.buf' and p.st.eq0(j['cap'] - c_(st0, 'a')), 'value', 'buffers are not exchanged')
                    p.no_leaks()
                yield Case(e, ka + '/' + kb, st, [a, b], post, ('C18', 'C05', 'C19', 'C10'))
            st = State()
            a = st_str(st, 'a', ka)

            def post(p):
                same_state(p)
                p.no_leaks()
            yield Case(e, 'self ' + ka, st, [a, a], post, ('C18', 'C17', 'C19', 'C10'))


REL = {'eq': ('eq',), 'ne': ('lt', 'gt'), 'lt': ('lt',), 'gt': ('gt',), 'le': ('lt', 'eq'), 'ge': ('gt', 'eq')}


def rel_post(op, ok, x, y):
    def post(p):
        st0 = p.case.st
        r = p.e.rel_whole(p.st, (x, ZERO, n_(st0, x)), (y, ZERO, n_(st0, y)))
        p.result(r in ok, 'cmp', '%s for contents comparing %s' % (op, r))
        for q, reg in st0.R.items():
            p.unchanged(q)
    return post


def compares():
    Q = ('C21', 'C36', 'C19')
    for op, ok in REL.items():
        for ka in KIN:
            for kb in KIN:
                st = State()
                a, b = st_str(st, 'a', ka, True), st_str(st, 'b', kb, True)
                yield Case('s_' + op, ka + '/' + kb, st, [a, b], rel_post(op, ok, 'a', 'b'), Q)
            st = State()
            a = st_str(st, 'a', ka, True)
            v = view(st)
            yield Case('s_' + op + '_sv', ka, st, [a] + v, rel_post(op, ok, 'a', 'S'), Q)
            st = State()
            a = st_str(st, 'a', ka, True)
            v = view(st)
            yield Case('s_' + op + '_vs', ka, st, v + [a], rel_post(op, ok, 'S', 'a'), Q)
            st = State()
            a = st_str(st, 'a', ka, True)

            def post(p, ok=ok, op=op):
                p.result('eq' in ok, 'cmp', '%s of an object with itself' % op)
            yield Case('s_' + op, 'self ' + ka, st, [a, a], post, Q)
        # character by character, for short texts
        for n1 in range(3):
            for n2 in range(3):
                for form in ('', '_sv', '_vs'):
                    st = State()
                    ar = []
                    for x, n in (('a', n1), ('b', n2)):
                        if form == ('_sv' if x == 'b' else '_vs'):
                            st.add_region(Region(x + '.mem', 'the view ' + x, 'ext', n, text_(x, n), ro=True))
                            ar += [I(64, n), Ptr(x + '.mem')]
                        else:
                            segs = ((L(0), L(8), sc(NULL)), (L(8), L(9), sc(I(8, n), 1))) + tuple((lo + BUF, hi + BUF, v) for lo, hi, v in text_(x, n))
                            segs += ((L(BUF + n), L(BUF + n + 1), sc(I(8, 0), 1)), (L(BUF + n + 1), L(32), RAW))
                            st.add_region(Region(x, x, 'obj', 32, segs, ro=True))
                            ar.append(Ptr(x))

                    def post(p, ok=ok, op=op, n1=n1, n2=n2):
                        r = text_relation(p, n1, n2)
                        p.result(r in ok, 'cmp', '%s for contents comparing %s' % (op, r))
                        for q in p.case.st.R:
                            p.unchanged(q)
                    yield Case('s_' + op + form, 'characters %d/%d' % (n1, n2), st, ar, post, Q)
