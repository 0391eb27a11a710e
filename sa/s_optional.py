"""Specification of ptl::optional<Type> for an opaque element type of 24 bytes."""
from lin import L, ZERO
from dom import *
from spec import *

PARAM = globals().get('PARAM', {})
ES = PARAM.get('es', 24)
LIFE = PARAM.get('life', True)      # a value with special members, or a trivial one
NAME = 'optional'
DEFS = ()
OPT = {'seqlen': None}
BADOPT = '_ZTISt19bad_optional_access'
KINDS = {
    'life': ['C13'], 'oob': ['C13'], 'uaf': ['C13'], 'uninit': ['C13'], 'overlap': ['C13'],
    'leak': ['C13', 'C12'], 'dealloc': ['C13'], 'term': ['C19'], 'value': ['C13'], 'ret': ['C16'], 'repr': ['C02', 'C13'],
    'constwrite': ['C36'], 'global': ['C36'], 'cmp': ['C21'], 'throw': ['C12'], 'post': ['C13'], '@throw': ['C12'],
}
KIN = ('empty', 'full')


def opt(st, name, kind, ro=False):
    full = kind == 'full'
    st.add_region(Region(name, name, 'obj', ES + 1, (
        (ZERO, L(ES), ('E', LIFE, ES, name, ZERO) if full else RAW), (L(ES), L(ES + 1), ('sc', I(8, int(full)), 1))), ro=ro))
    return Ptr(name)


def raw(st, name='a', size=ES + 1):
    st.add_region(Region(name, name, 'obj', size))
    return Ptr(name)


def val(st, name='x', ro=True):
    st.add_region(Region(name, 'the argument', 'ext', ES, ((ZERO, L(ES), ('E', LIFE, ES, name, ZERO)),), ro=ro))
    return Ptr(name)


def of(src):
    return [(L(1), ('E', LIFE, ES, src, ZERO))]


def is_(ident):
    return [(L(1), fill_(ident, ES, LIFE))]


MOVED = [(L(1), ('MV',))]
DEF = T(('default',), ES * 8) if LIFE else I(ES * 8, 0)
A0 = 32 if LIFE else ES * 8
CT = T(('ctor', I(32, L('p0')).key(), I(32, L('p1')).key()), ES * 8) if LIFE else I(A0, L('p0'))


def alive(v):
    return v[0] == 'MV' or v[0] == 'E' and v[1] or not LIFE and v != RAW


def flag(p, name):
    f = p.num(name, ES, 1)
    one = p.st.eq0(f - 1)
    if not one:
        p.true(p.st.eq0(f), 'repr', 'flag of %s is neither 0 nor 1' % name)
    return one


def chk(p, name, want):
    """want: None (empty) or one element description"""
    e, st = p.e, p.st
    full = flag(p, name)
    if full and want == MOVED:
        for l, v in e.read_segs(st, st.R[name], ZERO, L(ES)):
            if v[0] != 'MV' and (LIFE or v == RAW):
                e.report(st, 'value' if v[0] == 'E' and v[1] else 'life', '%s was not moved from' % name, fatal=True)
    elif full:
        p.content(name, ZERO, L(ES), ES, LIFE, want if want is not None else [(L(1), RAW)], what='value of ' + name) if want is not None else \
            e.report(st, 'value', '%s holds a value instead of being empty' % name, fatal=True)
    else:
        p.no_life(name, 0, ES)
        if want is not None:
            e.report(st, 'value', '%s is empty instead of holding a value' % name, fatal=True)
    return full


def valid(p, name):
    """empty without, or engaged with a living value (which one is left open)"""
    if flag(p, name):
        for l, v in p.e.read_segs(p.st, p.st.R[name], ZERO, L(ES)):
            if not alive(v):
                p.e.report(p.st, 'life', '%s reports a value that is not alive' % name, fatal=True)
    else:
        p.no_life(name, 0, ES)


def dead(p, name):
    p.no_life(name, 0, ES)


def ints(st):
    for s, w in (('p0', A0), ('p1', 32)):
        st.assume(L(s) + (1 << (w - 1)), L((1 << (w - 1)) - 1) - L(s))
    return [I(A0, L('p0')), I(32, L('p1'))]


def own(name, kind):
    return of(name) if kind == 'full' else None


def cases(ctx):
    yield from ctors()
    yield from assigns()
    yield from access()
    yield from swaps()
    yield from compares()


def ctors():
    P = ('C13',)

    def mk(entry, setup, want, throws=(), label='', after=None, props=P):
        st = State()
        a = raw(st)
        more = setup(st)

        def post(p):
            if p.kind == 'throw':
                dead(p, 'a')
            else:
                chk(p, 'a', want)
            if after:
                after(p)
            p.no_leaks()
        return Case(entry, label, st, [a] + more, post, props, throws)
    yield mk('o_ctor', lambda st: [], None)
    yield mk('o_ctor_null', lambda st: [], None)
    for k in KIN:
        yield mk('o_copy', lambda st, k=k: [opt(st, 'b', k, True)], own('b', k), (USER,), k, lambda p: p.unchanged('b'))
        yield mk('o_move', lambda st, k=k: [opt(st, 'b', k)], own('b', k), (), k, lambda p, k=k: chk(p, 'b', MOVED if k == 'full' else None), P + ('C17',))
    for e in ('o_ctor_c', 'o_ctor_ipc'):
        yield mk(e, lambda st: [val(st)], of('x'), (USER,), '', lambda p: p.unchanged('x'))
    for e in ('o_ctor_m', 'o_ctor_ipm'):
        yield mk(e, lambda st: [val(st, 'x', False)], of('x'))
    yield mk('o_ctor_args', ints, is_(CT), (USER,))
    yield mk('o_ctor_def', lambda st: [], is_(DEF), (USER,))


def assigns():
    P = ('C13',)

    def mk(entry, kind, more, want, throws=(), label='', after=None, props=P, ret=True):
        st = State()
        a = opt(st, 'a', kind)
        ar = more(st, a)

        def post(p):
            if p.kind == 'throw':
                valid(p, 'a')
                chk(p, 'a', own('a', kind))
            else:
                chk(p, 'a', want)
                if ret is True or ret == 'val':
                    p.ptr(p.val, 'a', ZERO, 'ret', 'returned reference')
            if after:
                after(p)
            p.no_leaks()
        return Case(entry, (kind + ' ' + label).strip(), st, [a] + ar, post, props, throws)
    for k in KIN:
        yield mk('o_assign_null', k, lambda st, a: [], None)
        for kb in KIN:
            yield mk('o_assign_copy', k, lambda st, a, kb=kb: [opt(st, 'b', kb, True)], own('b', kb), (USER,), kb, lambda p: p.unchanged('b'))
            yield mk('o_assign_move', k, lambda st, a, kb=kb: [opt(st, 'b', kb)], own('b', kb), (), kb, lambda p, kb=kb: chk(p, 'b', MOVED if kb == 'full' else None), P + ('C17',))
        for e in ('o_assign_copy', 'o_assign_move'):
            yield mk(e, k, lambda st, a: [a], own('a', k), (), 'self', None, P + ('C17',))
        yield mk('o_assign_c', k, lambda st, a: [val(st)], of('x'), (USER,), '', lambda p: p.unchanged('x'))
        yield mk('o_assign_m', k, lambda st, a: [val(st, 'x', False)], of('x'))
        yield mk('o_reset', k, lambda st, a: [], None, ret=False)
        yield mk('o_emplace', k, lambda st, a: ints(st), is_(CT), (USER,))
        yield mk('o_emplace_d', k, lambda st, a: [], is_(DEF), (USER,))
        yield mk('o_emplace_c', k, lambda st, a: [val(st)], of('x'), (USER,), '', lambda p: p.unchanged('x'))
        yield mk('o_emplace_m', k, lambda st, a: [val(st, 'x', False)], of('x'), (USER,))
    yield mk('o_assign_c', 'full', lambda st, a: [a], of('a'), (USER,), 'own value', None, P + ('C17', 'C11'))
    yield mk('o_emplace_c', 'full', lambda st, a: [a], of('a'), (USER,), 'own value', None, P + ('C11',))
    for k in KIN:
        st = State()
        a = opt(st, 'a', k)

        def post(p):
            dead(p, 'a')
            p.no_leaks()
        yield Case('o_dtor', k, st, [a], post, P)


def access():
    Q = ('C16', 'C13')

    def q(entry, kind, post, more=lambda st: [], props=Q, throws=(), ro=True, first=()):
        st = State()
        a = opt(st, 'a', kind, ro)
        ar = more(st)
        fi = list(first(st)) if first else []

        def po(p):
            post(p)
            if ro:
                p.unchanged('a')
            p.no_leaks()
        return Case(entry, kind, st, fi + [a] + ar, po, props, throws)
    ref = lambda p: p.ptr(p.val, 'a', ZERO, 'ret', 'returned reference')
    for e in ('o_arrow_c', 'o_arrow', 'o_deref_cl', 'o_deref_l', 'o_deref_cr', 'o_deref_r'):
        yield q(e, 'full', ref)

    def checked(p):
        if p.kind == 'throw':
            p.rep('ret', 'bad access reported although a value is held')
        else:
            ref(p)

    def refused(p):
        if p.kind != 'throw':
            p.rep('ret', 'access to an empty object is not reported')
    for e in ('o_value_cl', 'o_value_l', 'o_value_cr', 'o_value_r'):
        yield q(e, 'full', checked, throws=(BADOPT,))
        yield q(e, 'empty', refused, throws=(BADOPT,))
    for k in KIN:
        for e in ('o_bool', 'o_has'):
            yield q(e, k, lambda p, k=k: p.result(k == 'full', 'ret', 'state query'))
        for e in ('o_or_lc', 'o_or_lm', 'o_or_rc', 'o_or_rm'):
            ro = e[5] == 'l'

            def post(p, k=k, ro=ro, e=e):
                if p.kind == 'throw':
                    dead(p, 'r')
                    if not ro:
                        valid(p, 'a')
                else:
                    p.content('r', ZERO, L(ES), ES, LIFE, of('a') if k == 'full' else of('x'), 'ret', 'returned value')
                    if not ro:
                        chk(p, 'a', MOVED if k == 'full' else None)
                if e[6] == 'c' or k == 'full':
                    p.unchanged('x')
            yield q(e, k, post, lambda st, e=e: [val(st, 'x', e[6] == 'c')], Q, (USER,), ro, lambda st: [raw(st, 'r', ES)])


def swaps():
    for e in ('o_swap', 'o_swap_free', 'o_std_swap'):
        for ka in KIN:
            for kb in KIN:
                st = State()
                a, b = opt(st, 'a', ka), opt(st, 'b', kb)

                def post(p, ka=ka, kb=kb):
                    chk(p, 'a', own('b', kb))
                    chk(p, 'b', own('a', ka))
                    p.no_leaks()
                yield Case(e, ka + '/' + kb, st, [a, b], post, ('C18', 'C13'))
            st = State()
            a = opt(st, 'a', ka)

            def post(p, ka=ka):
                chk(p, 'a', own('a', ka))
                p.no_leaks()
            yield Case(e, 'self ' + ka, st, [a, a], post, ('C18', 'C17', 'C13'))


REL = {'eq': ('eq',), 'ne': ('lt', 'gt'), 'lt': ('lt',), 'gt': ('gt',), 'le': ('lt', 'eq'), 'ge': ('gt', 'eq')}
FLIP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}


def compares():
    C = ('C21',)

    def mk(entry, label, st, args, ok, rel):
        def post(p):
            r = rel(p)
            p.result(r in ok, 'cmp', '%s for operands comparing %s' % (entry[2:4], r))
            for x in ('a', 'b', 'x'):
                if x in p.case.st.R:
                    p.unchanged(x)
            p.no_leaks()
        return Case(entry, label, st, args, post, C)

    def elt(n):
        return T(('elt', n, ZERO), ES * 8)

    def rank(x, y):
        return lambda p: 'eq' if x == y else 'lt' if x < y else 'gt'
    for op, ok in REL.items():
        for ka in KIN:
            fa = ka == 'full'
            for kb in KIN:
                st = State()
                a, b = opt(st, 'a', ka, True), opt(st, 'b', kb, True)
                yield mk('o_' + op, ka + '/' + kb, st, [a, b], ok, (lambda p: p.e.rel_ident(p.st, elt('a'), elt('b'))) if fa and kb == 'full' else rank(fa, kb == 'full'))
            st = State()
            a = opt(st, 'a', ka, True)
            yield mk('o_' + op, 'self ' + ka, st, [a, a], ok, rank(0, 0))
            for s in ('on', 'no'):
                st = State()
                a = opt(st, 'a', ka, True)
                yield mk('o_%s_%s' % (op, s), ka, st, [a], ok, rank(fa, 0) if s == 'on' else rank(0, fa))
            for s in ('ov', 'vo'):
                st = State()
                a, x = opt(st, 'a', ka, True), val(st)
                if fa:
                    rel = (lambda p: p.e.rel_ident(p.st, elt('a'), elt('x'))) if s == 'ov' else (lambda p: p.e.rel_ident(p.st, elt('x'), elt('a')))
                else:
                    rel = rank(0, 1) if s == 'ov' else rank(1, 0)
                yield mk('o_%s_%s' % (op, s), ka, st, [a, x], ok, rel)
