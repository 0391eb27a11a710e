"""Specification of the iterators of array, array_ref, vector, string and string_ref."""
from lin import L, ZERO
from dom import *
from spec import *

NAME = 'iter'
DEFS = ()
OPT = {'no_elements': True}
KINDS = {
    'life': ['C23'], 'oob': ['C23'], 'uaf': ['C23'], 'uninit': ['C23'], 'overlap': ['C23'], 'copied': ['C23'], 'leak': ['C23'], 'dealloc': ['C23'],
    'term': ['C19'], 'value': ['C23'], 'ret': ['C23'], 'repr': ['C23'], 'constwrite': ['C36', 'C23'], 'global': ['C36'], 'cmp': ['C23'], 'throw': ['C23'], 'post': ['C23'],
}
MAXC = (1 << 63) - 1
ES = {'a': 24, 'r': 24, 'v': 24, 's': 1, 't': 1}
P = ('C23',)


def store_(st, x, ro):
    """the traversed elements; positions of iterators are i and j"""
    es = ES[x]
    n = L(3) if x == 'a' else L('n')
    if n.t:
        st.assume(n, L(MAXC // es) - n)
    st.add_region(Region('m', 'the elements', 'ext', n.mul(es), ((ZERO, n.mul(es), ('E', es > 1, es, 'm', ZERO)),), ro=ro))
    return n


def it(st, x, name, pos, n, ro=False, lo=0, hi=0):
    """iterator at position pos, lo <= pos <= n - hi"""
    e = L(pos)
    st.assume(e - lo, n - e - hi)
    st.add_region(Region(name, name, 'obj', 8, ((ZERO, L(8), ('sc', Ptr('m', e.mul(ES[x])), 8)),), ro=ro))
    return Ptr(name)


def raw(st, name='z'):
    st.add_region(Region(name, 'the result', 'obj', 8))
    return Ptr(name)


def at(p, x, name, pos):
    p.ptr(p.word(name, 0), 'm', L(pos).mul(ES[x]), 'value', 'position of ' + name)


def rest(p, *skip):
    for q, r in p.case.st.R.items():
        if q not in skip and q in p.st.R and r.kind in ('obj', 'ext'):
            p.unchanged(q)
    p.no_leaks()


def i64(s):
    return I(64, L(s))


REL = {'eq': (0,), 'ne': (-1, 1), 'lt': (-1,), 'gt': (1,), 'le': (-1, 0), 'ge': (1, 0)}


def cases(ctx):
    for x in 'arvs':
        yield from ops(x, x + 'i')
        yield from ops(x, x + 'c')
        yield from mixed(x, x + 'x')
    yield from ops('t', 'tc')


def case(x, entry, setup, post, label=''):
    st = State()
    n = store_(st, x, True)
    ar = setup(st, n)

    def po(p):
        post(p)
    return Case(entry, label, st, ar, po, P)


def step(st, n, i, d):
    """distance d such that i + d stays within the range"""
    st.assume(L(i) + L(d), n - L(i) - L(d))


def ops(x, n_):
    for e in ('_ctor', '_init'):
        def post(p):
            p.ptr(p.word('z', 0), NULLR, ZERO, 'value', 'default constructed iterator')
            rest(p, 'z')
        yield case(x, n_ + e, lambda st, n: [raw(st)], post)

    def made(to, ret=None, also=(), res='z'):
        def post(p):
            if to is not None:
                at(p, x, res, to)
            for nm, w in also:
                at(p, x, nm, w)
            if ret:
                p.ptr(p.val, ret, ZERO, 'ret', 'returned reference')
            rest(p, *([res] if to is not None else []), *[nm for nm, _ in also])
        return post
    yield case(x, n_ + '_copy', lambda st, n: [raw(st), it(st, x, 'o', 'i', n, True)], made('i'))
    yield case(x, n_ + '_assign', lambda st, n: [it(st, x, 'q', 'j', n), it(st, x, 'o', 'i', n, True)], made('i', 'q', (), 'q'))

    def twice(st, n):
        q = it(st, x, 'q', 'i', n)
        return [q, q]
    yield case(x, n_ + '_assign', twice, made('i', 'q', (), 'q'), 'self')
    yield case(x, n_ + '_inc', lambda st, n: [it(st, x, 'q', 'i', n, hi=1)], made(L('i') + 1, 'q', (), 'q'))
    yield case(x, n_ + '_dec', lambda st, n: [it(st, x, 'q', 'i', n, lo=1)], made(L('i') - 1, 'q', (), 'q'))
    yield case(x, n_ + '_pinc', lambda st, n: [raw(st), it(st, x, 'q', 'i', n, hi=1)], made('i', None, [('q', L('i') + 1)]))
    yield case(x, n_ + '_pdec', lambda st, n: [raw(st), it(st, x, 'q', 'i', n, lo=1)], made('i', None, [('q', L('i') - 1)]))
    for e in ('_deref', '_arrow'):
        def post(p):
            p.ptr(p.val, 'm', L('i').mul(ES[x]), 'ret', 'designated element')
            rest(p)
        yield case(x, n_ + e, lambda st, n: [it(st, x, 'o', 'i', n, True, hi=1)], post)

    def post(p):
        p.ptr(p.val, 'm', (L('i') + L('d')).mul(ES[x]), 'ret', 'designated element')
        rest(p)

    def indexed(st, n):
        o = it(st, x, 'o', 'i', n, True)
        step(st, n - 1, 'i', 'd')
        return [o, i64('d')]
    yield case(x, n_ + '_index', indexed, post)

    def moved(z, ro, sign=1, swapped=False):
        def setup(st, n):
            a = ([raw(st)] if z else []) + [it(st, x, 'q', 'i', n, ro)]
            if sign == 1:
                step(st, n, 'i', 'd')
            else:
                st.assume(L('i') - L('d'), n - L('i') + L('d'))
            return a + [i64('d')]
        return setup
    yield case(x, n_ + '_adda', moved(False, False), made(L('i') + L('d'), 'q', (), 'q'))
    yield case(x, n_ + '_suba', moved(False, False, -1), made(L('i') - L('d'), 'q', (), 'q'))
    yield case(x, n_ + '_add', moved(True, True), made(L('i') + L('d')))
    yield case(x, n_ + '_radd', moved(True, True), made(L('i') + L('d')))
    yield case(x, n_ + '_sub', moved(True, True, -1), made(L('i') - L('d')))
    yield case(x, n_ + '_swap', lambda st, n: [it(st, x, 'q', 'j', n), it(st, x, 'o', 'i', n)], made('i', None, [('o', 'j')], 'q'))
    yield from relations(x, n_)


def relations(x, n_):
    def post(p):
        p.eq(p.val, L('i') - L('j'), 'ret', 'distance')
        rest(p)
    yield case(x, n_ + '_diff', lambda st, n: [it(st, x, 'o', 'i', n, True), it(st, x, 'q', 'j', n, True)], post)
    for e, ok in REL.items():
        def post(p, ok=ok, e=e):
            d = L('i') - L('j')
            r = 0 if p.st.eq0(d) else 1 if p.st.ge0(d) else -1
            p.result(r in ok, 'cmp', '%s of iterators whose positions compare %d' % (e, r))
            rest(p)
        yield case(x, n_ + '_' + e, lambda st, n: [it(st, x, 'o', 'i', n, True), it(st, x, 'q', 'j', n, True)], post)


def mixed(x, n_):
    def post(p):
        at(p, x, 'z', 'i')
        rest(p, 'z')
    yield case(x, n_ + '_conv', lambda st, n: [raw(st), it(st, x, 'o', 'i', n, True)], post)

    def post(p):
        at(p, x, 'q', 'i')
        p.ptr(p.val, 'q', ZERO, 'ret', 'returned reference')
        rest(p, 'q')
    yield case(x, n_ + '_assign', lambda st, n: [it(st, x, 'q', 'j', n), it(st, x, 'o', 'i', n, True)], post)
    yield from relations(x, n_)
    yield from relations(x, n_ + 'r')
