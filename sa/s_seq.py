"""Specification of ptl::array (three opaque elements of 24 bytes, and the empty array) and ptl::tuple."""
from lin import L, ZERO
from dom import *
from spec import *

NAME = 'seq'
DEFS = ()
OPT = {'maxit': 8}
PARAM = globals().get('PARAM', {})
ES = PARAM.get('es', 24)
TRIV = PARAM.get('trivial', ())     # sizes of the types without special members
N = PARAM.get('n', 3)      # array size
KINDS = {
    'life': ['C34'], 'oob': ['C34'], 'uaf': ['C34'], 'uninit': ['C34'], 'overlap': ['C34'], 'leak': ['C34', 'C12'], 'dealloc': ['C34'], 'term': ['C19'],
    'value': ['C34'], 'ret': [], 'repr': ['C34'], 'constwrite': ['C36'], 'global': ['C36'], 'cmp': ['C21'], 'throw': ['C34', 'C12'], 'post': ['C34'], '@throw': ['C12'],
}
DEF = T(('default',), ES * 8) if ES not in TRIV else I(ES * 8, 0)
P = ('C34',)
MV = ('MV',)
# tuple<P, Q, S>: the last element comes first
TY = PARAM.get('tuple', ((24, 24, 'P'), (16, 8, 'Q'), (0, 16, 'S')))      # offset, size
TSZ = 24 + TY[0][0]


def alive(g, n):
    return g[0] == 'MV' or g[0] == 'E' and g[1] or n in TRIV and g != RAW


def arr(st, name, ro=False, size=N, es=ES):
    st.add_region(Region(name, name, 'obj', size * es, ((ZERO, L(size * es), ('E', es not in TRIV, es, name, ZERO)),), ro=ro))
    return Ptr(name)


def non(st, name, ro=False):
    """the empty array"""
    st.add_region(Region(name, name, 'obj', 8, ((ZERO, L(8), ('sc', NULL, 8)),), ro=ro))
    return Ptr(name)


def raw(st, name='z', size=N * ES):
    st.add_region(Region(name, 'the result', 'obj', size))
    return Ptr(name)


def val(st, name, ro=True, size=ES):
    st.add_region(Region(name, 'argument ' + name, 'ext', size, ((ZERO, L(size), ('E', size not in TRIV, size, name, ZERO)),), ro=ro))
    return Ptr(name)


def el(src, i=0, es=ES):
    return ('E', es not in TRIV, es, src, L(i))


def same(p, name, vals, offs, what='value of '):
    """elements of name: vals are descriptions, offs are (offset, size)"""
    for (o, n), v in zip(offs, vals):
        if v is MV:
            p.e.obl('value')
            for l, g in p.e.read_segs(p.st, p.st.R[name], L(o), L(o + n)):
                if g[0] != 'MV' and (n not in TRIV or g == RAW):
                    p.e.report(p.st, 'value' if g[0] == 'E' and g[1] else 'life', 'element of %s was not moved from' % name, fatal=True)
        else:
            p.e.obl('life')
            for l, g in p.e.read_segs(p.st, p.st.R[name], L(o), L(o + n)):
                if not alive(g, n) or (g[0] == 'E' and g[2] != n):
                    p.e.report(p.st, 'life', 'no living element at byte %d of %s' % (o, name), fatal=True)
            p.content(name, L(o), L(o + n), n, n not in TRIV, [(L(1), v)], what=what + name)


AO = tuple((i * ES, ES) for i in range(N))
TO = tuple((o, n) for o, n, _ in TY)


def rest(p, *skip):
    for q, r in p.case.st.R.items():
        if q not in skip and q in p.st.R and r.kind in ('obj', 'ext'):
            p.unchanged(q)
    p.no_leaks()


def cases(ctx):
    yield from array_ctors()
    yield from array_access()
    yield from array_changes()
    if N == 3:
        yield from tuples()


def case(entry, setup, post, label='', props=P, throws=()):
    st = State()
    ar = setup(st)
    return Case(entry, label, st, ar, post, props, throws)


U = (USER,)


def built(vals, offs, size, moved=()):
    def post(p):
        if p.kind == 'throw':
            p.no_life('z', 0, size)
            for m in moved:       # whether an argument was already moved from is not specified
                pass
        else:
            same(p, 'z', vals, offs)
            for m in moved:
                same(p, m, [MV], [(0, p.case.st.R[m].size.c)])
        rest(p, 'z', *moved)
    return post


def array_ctors():
    d = fill_(DEF, ES, ES not in TRIV)
    Q = P + ('C01',)
    for e in ('y_ctor', 'y_ctor_0'):
        yield case(e, lambda st: [raw(st)], built([d] * N, AO, N * ES), '', Q, U)
    yield case('y_ctor_1', lambda st: [raw(st), val(st, 'x')], built([el('x')] + [d] * (N - 1), AO, N * ES), '', Q, U)
    if N == 3:
      yield case('y_ctor_3', lambda st: [raw(st), val(st, 'x'), val(st, 'y', False), val(st, 'w')], built([el('x'), el('y'), el('w')], AO, N * ES, ['y']), '', Q, U)
      yield case('y_ctor_b', lambda st: [raw(st), val(st, 'x'), val(st, 'y'), val(st, 'w')], built([el('x'), el('y'), el('w')], AO, N * ES), '', Q, U)
    yield case('y_ctor_u', lambda st: [raw(st, 'z', ES), val(st, 'x', False)], built([el('x')], AO[:1], ES, ['x']), '', Q)

    def empty(p):
        rest(p, 'z')
    yield case('y_ctor_n', lambda st: [raw(st, 'z', 8)], empty, '', Q)

    def ints(st, more):
        st.assume(L('x') + (1 << 31), L((1 << 31) - 1) - L('x'))
        z = raw(st, 'z', 12)
        return [z, I(32, L('x'))] + more(st)

    def three(st):
        st.assume(L('y') + (1 << 15), L((1 << 15) - 1) - L('y'), L('w'), L(255) - L('w'))
        return [I(16, L('y')), I(8, L('w'))]

    def two(st):
        st.assume(L('y') + (1 << 31), L((1 << 31) - 1) - L('y'))
        st.add_region(Region('r', 'an argument', 'ext', 4, ((ZERO, L(4), ('sc', I(32, L('y')), 4)),), ro=True))
        return [Ptr('r')]

    def stored(*w):
        def post(p):
            for i, v in enumerate(w):
                p.eq(p.word('z', 4 * i, 4, 'i32'), v, 'value', 'element %d' % i)
            rest(p, 'z')
        return post
    yield case('y_ctor_i', lambda st: ints(st, three), stored(L('x'), L('y'), L('w')), '', Q)
    yield case('y_ctor_i2', lambda st: ints(st, two), stored(L('x'), L('y'), 0), '', Q)
    src = [el('o', i) for i in range(N)]
    yield case('y_copy', lambda st: [raw(st), arr(st, 'o', True)], built(src, AO, N * ES), '', P, U)
    yield case('y_copy_m', lambda st: [raw(st), arr(st, 'o')], built(src, AO, N * ES), '', P, U)

    def moved(p):
        same(p, 'z', src, AO)
        same(p, 'o', [MV] * N, AO)
        rest(p, 'z', 'o')
    yield case('y_move', lambda st: [raw(st), arr(st, 'o')], moved, '', P + ('C17',))


def array_access():
    A = P + ('C23',)

    def q(entry, post, ro, props=A, more=lambda st: [], throws=(), label='', mk=arr):
        def po(p):
            post(p)
            rest(p)
        return case(entry, lambda st: [mk(st, 'a', ro)] + more(st), po, label, props, throws)

    def ref(off):
        return lambda p: p.ptr(p.val, 'a', L(off) if not hasattr(off, 'mul') else off, 'ret', 'designated element')
    c = lambda e: e.endswith('_c') or '_cl_' in e or '_cr_' in e
    for e in ('y_data', 'y_data_c'):
        yield q(e, ref(0), True, A + ('C01',))
    for e in ('y_front', 'y_front_c'):
        yield q(e, ref(0), True)
    for e in ('y_back', 'y_back_c'):
        yield q(e, ref((N - 1) * ES), True)
    for i in range(3 if N == 3 else 0):
        for k in ('cl', 'l', 'cr', 'r'):
            yield q('y_get_%s_%d' % (k, i), ref(i * ES), True)
        yield q('y_bind_%d' % i, ref(i * ES), True)
    yield q('y_size', lambda p: p.eq(p.val, N, 'ret', 'size()'), True)
    yield q('y_max', lambda p: p.eq(p.val, N, 'ret', 'max_size()'), True)
    yield q('y_empty', lambda p: p.result(False, 'ret', 'empty()'), True)
    yield q('y_size_n', lambda p: p.eq(p.val, 0, 'ret', 'size()'), True, mk=non)
    yield q('y_empty_n', lambda p: p.result(True, 'ret', 'empty()'), True, mk=non)

    def ix(st):
        st.assume(L('i'), L(N - 1) - L('i'))
        return [I(64, L('i'))]

    def any_(st):
        st.assume(L('i'), L(M64 - 1) - L('i'))
        return [I(64, L('i'))]
    for e in ('y_index', 'y_index_c'):
        yield q(e, ref(L('i').mul(ES)), True, A, ix)

    def checked(n):
        def post(p):
            ok = n and p.st.ge0(L(n - 1) - L('i'))
            if (p.kind == 'throw') == bool(ok):
                p.rep('ret', 'at() throws for a valid index' if ok else 'at() accepts an index beyond the end')
            elif ok:
                p.ptr(p.val, 'a', L('i').mul(ES), 'ret', 'designated element')
        return post
    for e in ('y_at', 'y_at_c'):
        yield q(e, checked(N), True, A + ('C20',), any_, (RANGE,))
    yield q('y_at_n', checked(0), True, A + ('C20',), any_, (RANGE,), mk=non)
    # positions of iterators
    for e, pos in [(e, 0) for e in ('begin', 'begin_c', 'cbegin', 'rend', 'rend_c', 'crend')] + [(e, N) for e in ('end', 'end_c', 'cend', 'rbegin', 'rbegin_c', 'crbegin')]:
        def post(p, pos=pos):
            p.ptr(p.word('z', 0), 'a', L(pos * ES), 'ret', 'position')
            rest(p, 'z')
        yield case('y_' + e, lambda st: [raw(st, 'z', 8), arr(st, 'a', True)], post, '', ('C23', 'C34'))
    for e in ('y_begin_n', 'y_end_n'):
        # begin and end of the empty array coincide: both are the stored (null) position
        def post(p):
            p.ptr(p.word('z', 0), NULLR, ZERO, 'ret', 'position')
            rest(p, 'z')
        yield case(e, lambda st: [raw(st, 'z', 8), non(st, 'a', True)], post, '', ('C23', 'C34'))


REL = {'eq': ('eq',), 'ne': ('lt', 'gt'), 'lt': ('lt',), 'gt': ('gt',), 'le': ('lt', 'eq'), 'ge': ('gt', 'eq')}


def array_changes():
    src = [el('o', i) for i in range(N)]

    def assigned(mv):
        def post(p):
            if p.kind == 'throw':
                for o, n in AO:
                    for l, g in p.e.read_segs(p.st, p.st.R['a'], L(o), L(o + n)):
                        if not alive(g, n):
                            p.e.report(p.st, 'life', 'an element died in a failing assignment', fatal=True)
            else:
                same(p, 'a', src, AO)
                if mv:
                    same(p, 'o', [MV] * N, AO)
                p.ptr(p.val, 'a', ZERO, 'ret', 'returned reference')
            rest(p, 'a', *(['o'] if mv else []))
        return post
    yield case('y_assign', lambda st: [arr(st, 'a'), arr(st, 'o', True)], assigned(False), '', P, U)
    yield case('y_assign_m', lambda st: [arr(st, 'a'), arr(st, 'o')], assigned(True), '', P + ('C17',))

    def own(p):
        same(p, 'a', [el('a', i) for i in range(N)], AO)
        rest(p, 'a')
    yield case('y_assign', lambda st: [arr(st, 'a')] * 2, lambda p: own(p) if p.kind != 'throw' else None, 'self', P + ('C17',), U)

    def filled(p):
        if p.kind != 'throw':
            same(p, 'a', [el('x')] * N, AO)
        rest(p, 'a')
    yield case('y_fill', lambda st: [arr(st, 'a'), val(st, 'x')], filled, '', P, U)
    yield case('y_fill_n', lambda st: [non(st, 'a'), val(st, 'x')], lambda p: rest(p))

    def inner(i):
        def setup(st):
            a = arr(st, 'a')
            return [a, Ptr('a', L(i * ES))]

        def post(p):
            if p.kind != 'throw':
                same(p, 'a', [el('a', i)] * N, AO)
            rest(p, 'a')
        return setup, post
    for i in range(N):
        setup, post = inner(i)
        yield case('y_fill', setup, post, 'with its own element %d' % i, P + ('C11',), U)

    def ints(st):
        st.assume(L('x') + (1 << 31), L((1 << 31) - 1) - L('x'))
        return [raw(st, 'a', 12), I(32, L('x'))]

    def ifilled(p):
        for i in range(3):
            p.eq(p.word('a', 4 * i, 4, 'i32'), L('x'), 'value', 'element %d' % i)
        rest(p, 'a')
    yield case('y_fill_i', ints, ifilled)

    def dead(p):
        p.no_life('a', 0, N * ES)
        rest(p, 'a')
    yield case('y_dtor', lambda st: [arr(st, 'a')], dead)

    def swapped(p):
        same(p, 'a', [el('b', i) for i in range(N)], AO)
        same(p, 'b', [el('a', i) for i in range(N)], AO)
        rest(p, 'a', 'b')
    S = ('C18', 'C34')
    for e in ('y_swap', 'y_swap_free', 'y_swap_std'):
        yield case(e, lambda st: [arr(st, 'a'), arr(st, 'b')], swapped, '', S)
        yield case(e, lambda st: [arr(st, 'a')] * 2, own, 'self', S + ('C17',))
    yield case('y_swap_n', lambda st: [non(st, 'a'), non(st, 'b')], lambda p: rest(p), '', S)
    for op, ok in REL.items():
        def post(p, op=op, ok=ok):
            r = lex_expected(p, 'a', N, 'b', N, ES)
            p.result(r in ok, 'cmp', '%s for contents comparing %s' % (op, r))
            rest(p)
        yield case('y_' + op, lambda st: [arr(st, 'a', True), arr(st, 'b', True)], post, '', ('C21',))

        def post(p, op=op, ok=ok):
            p.result('eq' in ok, 'cmp', '%s of an object with itself' % op)
            rest(p)
        yield case('y_' + op, lambda st: [arr(st, 'a', True)] * 2, post, 'self', ('C21',))

        def post(p, op=op, ok=ok):
            p.result('eq' in ok, 'cmp', '%s of empty arrays' % op)
            rest(p)
        yield case('y_%s_n' % op, lambda st: [non(st, 'a', True), non(st, 'b', True)], post, '', ('C21',))


def tup(st, name, ro=False):
    st.add_region(Region(name, name, 'obj', TSZ, tuple((L(o), L(o + n), ('E', n not in TRIV, n, name + '.' + c, ZERO)) for o, n, c in sorted(TY)), ro=ro))
    return Ptr(name)


def tuples():
    Q = P + ('C01',)
    args = lambda st, ro: [val(st, x, r, n) for x, r, (_, n) in zip('xyw', ro, TO)]
    xyw = [('E', n not in TRIV, n, x, ZERO) for x, (_, n) in zip('xyw', TO)]

    def of(name):
        return [('E', n not in TRIV, n, name + '.' + c, ZERO) for o, n, c in TY]
    C3 = (True, True, True)
    yield case('t_ctor', lambda st: [raw(st, 'z', TSZ)] + args(st, C3), built(xyw, TO, TSZ), '', Q, U)
    yield case('t_ctor_m', lambda st: [raw(st, 'z', TSZ)] + args(st, (False,) * 3), built(xyw, TO, TSZ, 'xyw'), '', Q)
    yield case('t_ctor_x', lambda st: [raw(st, 'z', TSZ)] + args(st, (True, False, True)), built(xyw, TO, TSZ, 'y'), '', Q, U)
    yield case('t_ctor_1', lambda st: [raw(st, 'z', 24), val(st, 'x', True, 24)], built([el('x', 0, 24)], [(0, 24)], 24), '', Q, U)
    yield case('t_copy', lambda st: [raw(st, 'z', TSZ), tup(st, 'o', True)], built(of('o'), TO, TSZ), '', P, U)
    yield case('t_copy_m', lambda st: [raw(st, 'z', TSZ), tup(st, 'o')], built(of('o'), TO, TSZ), '', P, U)
    yield case('t_copy_1', lambda st: [raw(st, 'z', 24), arr(st, 'o', False, 1, 24)], built([el('o', 0, 24)], [(0, 24)], 24), '', P, U)

    def moved(p):
        same(p, 'z', of('o'), TO)
        same(p, 'o', [MV] * 3, TO)
        rest(p, 'z', 'o')
    yield case('t_move', lambda st: [raw(st, 'z', TSZ), tup(st, 'o')], moved, '', P + ('C17',))

    def assigned(mv):
        def post(p):
            if p.kind == 'throw':
                for o, n in TO:
                    for l, g in p.e.read_segs(p.st, p.st.R['a'], L(o), L(o + n)):
                        if not alive(g, n):
                            p.e.report(p.st, 'life', 'an element died in a failing assignment', fatal=True)
            else:
                same(p, 'a', of('o'), TO)
                if mv:
                    same(p, 'o', [MV] * 3, TO)
                p.ptr(p.val, 'a', ZERO, 'ret', 'returned reference')
            rest(p, 'a', *(['o'] if mv else []))
        return post
    yield case('t_assign', lambda st: [tup(st, 'a'), tup(st, 'o', True)], assigned(False), '', P, U)
    yield case('t_assign_m', lambda st: [tup(st, 'a'), tup(st, 'o')], assigned(True), '', P + ('C17',))

    def dead(p):
        p.no_life('a', 0, TSZ)
        rest(p, 'a')
    yield case('t_dtor', lambda st: [tup(st, 'a')], dead)
    for i, (o, n, c) in enumerate(TY):
        def post(p, o=o):
            p.ptr(p.val, 'a', L(o), 'ret', 'designated element')
            rest(p)
        for k in ('t_get_cl_', 't_get_l_', 't_get_cr_', 't_get_r_', 't_bind_'):
            yield case(k + str(i), lambda st: [tup(st, 'a', True)], post, '', Q)

    def own(p):
        same(p, 'a', of('a'), TO)
        rest(p, 'a')

    def swapped(p):
        same(p, 'a', of('b'), TO)
        same(p, 'b', of('a'), TO)
        rest(p, 'a', 'b')
    S = ('C18', 'C34')
    for e in ('t_swap', 't_swap_free', 't_swap_std'):
        yield case(e, lambda st: [tup(st, 'a'), tup(st, 'b')], swapped, '', S)
        yield case(e, lambda st: [tup(st, 'a')] * 2, own, 'self', S + ('C17',))
    for op, ok in REL.items():
        def post(p, op=op, ok=ok):
            r = 'eq'
            for o, n, c in TY:
                r = p.e.rel_ident(p.st, elt_('a.' + c, 0, n), elt_('b.' + c, 0, n))
                if r != 'eq':
                    break
            p.result(r in ok, 'cmp', '%s for contents comparing %s' % (op, r))
            rest(p)
        yield case('t_' + op, lambda st: [tup(st, 'a', True), tup(st, 'b', True)], post, '', ('C21',))

        def post(p, op=op, ok=ok):
            p.result('eq' in ok, 'cmp', '%s of an object with itself' % op)
            rest(p)
        yield case('t_' + op, lambda st: [tup(st, 'a', True)] * 2, post, 'self', ('C21',))
