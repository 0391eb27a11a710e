"""Specification of ptl::variant for four opaque alternatives of different size."""
from lin import L, ZERO
from dom import *
from spec import *

NAME = 'variant'
DEFS = ()
OPT = {'seqlen': None, 'depth': 1000}
ALTS = ('A', 'B', 'C', 'D')
PARAM = globals().get('PARAM', {})
SZ = PARAM.get('sizes', {'A': 24, 'B': 8, 'C': 40, 'D': 16})
PADS = PARAM.get('pads', 0)        # alternatives between C and D that are never held
IDX = {'A': 0, 'B': 1, 'C': 2, 'D': PADS + 3}
TRIV = PARAM.get('trivial', ())     # alternatives without special members
THROWS = {'A', 'B'} - set(TRIV)
MAXSZ = max(SZ.values())
BADVAR = '_ZTISt18bad_variant_access'
KINDS = {
    'life': ['C14'], 'oob': ['C14'], 'uaf': ['C14'], 'uninit': ['C14'], 'overlap': ['C14'],
    'leak': ['C14', 'C12'], 'dealloc': ['C14'], 'term': ['C19'], 'value': ['C14'], 'ret': ['C15'], 'repr': ['C02', 'C14'],
    'constwrite': ['C36'], 'global': ['C36'], 'cmp': ['C21'], 'throw': ['C12'], 'post': ['C14'], '@throw': ['C12'],
}
if PADS:       # whatever goes wrong there comes from the recorded position
    KINDS = {k: v + ['C02'] if k in ('life', 'value', 'ret', 'post', 'oob', 'uaf') else v for k, v in KINDS.items()}


def var(st, name, alt, ro=False):
    n = SZ[alt]
    segs = [(ZERO, L(n), ('E', alt not in TRIV, n, name, ZERO))]
    if n < MAXSZ:
        segs.append((L(n), L(MAXSZ), RAW))
    segs.append((L(MAXSZ), L(MAXSZ + 1), ('sc', I(8, IDX[alt]), 1)))
    st.add_region(Region(name, name, 'obj', MAXSZ + 1, tuple(segs), ro=ro))
    return Ptr(name)


def raw(st, name='a', size=MAXSZ + 1):
    st.add_region(Region(name, name, 'obj', size))
    return Ptr(name)


def val(st, alt, name='x', ro=True):
    n = SZ[alt]
    st.add_region(Region(name, 'the argument', 'ext', n, ((ZERO, L(n), ('E', alt not in TRIV, n, name, ZERO)),), ro=ro))
    return Ptr(name)


MOVED = object()


def chk(p, name, alt, want):
    """alternative and value: want is a source name, an identity or MOVED"""
    e, st = p.e, p.st
    ix = p.num(name, MAXSZ, 1)
    p.true(st.eq0(ix - IDX[alt]), 'repr', 'type index of %s is %s although it has to hold alternative %s' % (name, ix, IDX[alt]))
    n = SZ[alt]
    p.no_life(name, n, MAXSZ)
    if want is MOVED:
        for l, v in e.read_segs(st, st.R[name], ZERO, L(n)):
            if v[0] != 'MV' and (alt not in TRIV or v == RAW):
                e.report(st, 'value' if v[0] == 'E' and v[1] else 'life', '%s was not moved from' % name, fatal=True)
    else:
        w = ('E', alt not in TRIV, n, want, ZERO) if isinstance(want, str) else fill_(want, n, alt not in TRIV)
        e.obl('life')
        for l, v in e.read_segs(st, st.R[name], ZERO, L(n)) if alt not in TRIV else ():
            if not ((v[0] == 'MV' or v[0] == 'E' and v[1]) and st.eq0(l - n) and (v[0] == 'MV' or v[2] == n)):
                e.report(st, 'life', '%s reports alternative %s which is not alive' % (name, IDX[alt]), fatal=True)
        p.content(name, ZERO, L(n), n, alt not in TRIV, [(L(1), w)], what='value of ' + name)


def dead(p, name, size=MAXSZ):
    p.no_life(name, 0, size)


def ints(st):
    for s, w in (('p0', 8 if TRIV else 32), ('p1', 32)):       # fits every trivial alternative
        st.assume(L(s) + (1 << (w - 1)), L((1 << (w - 1)) - 1) - L(s))
    return [I(32, L('p0')), I(32, L('p1'))]


def CT(alt):
    if alt in TRIV:
        return I(SZ[alt] * 8, L('p0'))
    return T(('ctor', I(32, L('p0')).key(), I(32, L('p1')).key()), SZ[alt] * 8)


def DEF(alt):
    if alt in TRIV:
        return I(SZ[alt] * 8, 0)
    return T(('default',), SZ[alt] * 8)


def cases(ctx):
    if PADS:
        return (c for c in everything() if c.entry in ctx.mod['functions'] and not set(c.label.replace('/', ' ').split()) & {'B', 'C'})
    return everything()


def everything():
    yield from ctors()
    yield from assigns()
    yield from access()
    yield from swaps()
    yield from compares()


def ctors():
    P = ('C14',)

    def mk(entry, setup, alt, want, throws=(), label='', after=None, props=P):
        st = State()
        a = raw(st)
        more = setup(st)

        def post(p):
            if p.kind == 'throw':
                dead(p, 'a')
            else:
                if want == 'il':
                    chk_any(p, 'a', alt)
                else:
                    chk(p, 'a', alt, want)
            if after:
                after(p)
            p.no_leaks()
        return Case(entry, label, st, [a] + more, post, props, throws)
    yield mk('x_ctor', lambda st: [], 'A', DEF('A'), (USER,))
    for t in ALTS:
        th = (USER,) if t in THROWS else ()
        yield mk('x_copy', lambda st: [var(st, 'b', t, True)], t, 'b', th, t, lambda p: p.unchanged('b'))
        yield mk('x_move', lambda st: [var(st, 'b', t)], t, 'b', (), t, lambda p, t=t: chk(p, 'b', t, MOVED), P + ('C17',))
        for e in ('x_ctor_c_', 'x_ctor_l_', 'x_ipi_c_', 'x_ipt_c_'):
            yield mk(e + t, lambda st: [val(st, t)], t, 'x', th, '', lambda p: p.unchanged('x'))
        for e in ('x_ctor_m_', 'x_ipt_m_'):
            yield mk(e + t, lambda st: [val(st, t, 'x', False)], t, 'x')
        for e in ('x_ipi_a_', 'x_ipt_a_'):
            yield mk(e + t, ints, t, 'il' if t == 'D' else CT(t), th if t != 'D' else (USER,))
        yield mk('x_ipi_d_' + t, lambda st: [], t, DEF(t), th)


def chk_any(p, name, alt):
    """alternative alt is alive, its value is not compared"""
    e, st = p.e, p.st
    ix = p.num(name, MAXSZ, 1)
    p.true(st.eq0(ix - IDX[alt]), 'repr', 'type index of %s is %s although it has to hold alternative %s' % (name, ix, IDX[alt]))
    n = SZ[alt]
    e.obl('life')
    for l, v in e.read_segs(st, st.R[name], ZERO, L(n)):
        if not (v[0] == 'E' and v[1] and v[2] == n):
            e.report(st, 'life', '%s holds no living value' % name, fatal=True)
    p.no_life(name, n, MAXSZ)


def assigns():
    P = ('C14',)

    def mk(entry, kind, more, alt, want, throws=(), label='', after=None, props=P, ret='a'):
        st = State()
        a = var(st, 'a', kind)
        ar = more(st, a)

        def post(p):
            if p.kind == 'throw':
                chk(p, 'a', kind, 'a')        # the previous value survives
            else:
                if want == 'il':
                    chk_any(p, 'a', alt)
                else:
                    chk(p, 'a', alt, want)
                p.ptr(p.val, 'a', ZERO, 'ret', 'returned reference')
            if after:
                after(p)
            p.no_leaks()
        return Case(entry, (kind + ' ' + label).strip(), st, [a] + ar, post, props, throws)
    for k in ALTS:
        for t in ALTS:
            th = (USER,) if t in THROWS else ()
            un = lambda p: p.unchanged('x')
            yield mk('x_assign_copy', k, lambda st, a: [var(st, 'b', t, True)], t, 'b', th, t, lambda p: p.unchanged('b'))
            yield mk('x_assign_move', k, lambda st, a: [var(st, 'b', t)], t, 'b', (), t, lambda p, t=t: chk(p, 'b', t, MOVED), P + ('C17',))
            yield mk('x_assign_c_' + t, k, lambda st, a: [val(st, t)], t, 'x', th, '', un)
            yield mk('x_assign_m_' + t, k, lambda st, a: [val(st, t, 'x', False)], t, 'x')
            for e in ('x_empt_a_', 'x_empi_a_'):
                yield mk(e + t, k, lambda st, a: ints(st), t, 'il' if t == 'D' else CT(t), th if t != 'D' else (USER,))
            for e in ('x_empt_c_', 'x_empi_c_'):
                yield mk(e + t, k, lambda st, a: [val(st, t)], t, 'x', th, '', un)
            yield mk('x_empt_m_' + t, k, lambda st, a: [val(st, t, 'x', False)], t, 'x')
            yield mk('x_empt_d_' + t, k, lambda st, a: [], t, DEF(t), th)
        for e in ('x_assign_copy', 'x_assign_move'):
            yield mk(e, k, lambda st, a: [a], k, 'a', (), 'self', None, P + ('C17',))
        yield mk('x_assign_c_' + k, k, lambda st, a: [a], k, 'a', (USER,) if k in THROWS else (), 'own value', None, P + ('C17', 'C11'))
        yield mk('x_assign_m_' + k, k, lambda st, a: [a], k, 'a', (), 'own value', None, P + ('C17', 'C11'))
        st = State()
        a = var(st, 'a', k)

        def post(p):
            dead(p, 'a')
            p.no_leaks()
        yield Case('x_dtor', k, st, [a], post, P)


CAT = {'cl': 0, 'l': 1, 'cr': 2, 'r': 3, 'lv': 1}


def access():
    Q = ('C15',)

    def q(entry, kind, post, more=lambda st: [], throws=()):
        ro = True
        st = State()
        a = var(st, 'a', kind, ro)
        ar = more(st)

        def po(p):
            post(p)
            p.unchanged('a')
            p.no_leaks()
        return Case(entry, kind, st, [a] + ar, po, Q, throws)
    for k in ALTS:
        for t in ALTS:
            yield q('x_holds_' + t, k, lambda p, k=k, t=t: p.result(k == t, 'ret', 'holds()'))
            for e in ('x_getif_c_', 'x_getif_'):
                yield q(e + t, k, lambda p, k=k, t=t: p.ptr(p.val, 'a' if k == t else NULLR, ZERO, 'ret', 'result of get_if'))
            for e in ('x_get_cl_', 'x_get_l_', 'x_get_cr_', 'x_get_r_'):
                def post(p, k=k, t=t):
                    if p.kind == 'throw':
                        if k == t:
                            p.rep('ret', 'bad access reported for the held alternative')
                    elif k != t:
                        p.rep('ret', 'access to an alternative that is not held succeeds')
                    else:
                        p.ptr(p.val, 'a', ZERO, 'ret', 'returned reference')
                yield q(e + t, k, post, throws=(BADVAR,))

        def seen(st):
            st.add_region(Region('s', 'the visitor', 'ext', 16, ((ZERO, L(8), ('sc', NULL, 8)), (L(8), L(12), ('sc', I(32, 0), 4)), (L(12), L(16), RAW))))
            return [Ptr('s')]
        for e in ('x_visit_cl', 'x_visit_l', 'x_visit_cr', 'x_visit_r', 'x_visit_lv', 'x_visits_cl', 'x_visits_l', 'x_visits_r'):
            c = CAT[e.split('_')[2]]

            def post(p, k=k, c=c):
                p.eq(p.word('s', 8, 4, 'i32'), 1, 'ret', 'number of visitor calls')
                p.ptr(p.word('s', 0), 'a', ZERO, 'ret', 'visited object')
                if p.kind != 'throw':
                    p.eq(p.val, (ALTS.index(k) + 1) * 10 + c, 'ret', 'visited alternative and category')
            yield q(e, k, post, seen, (USER,))

        def cell(st):
            st.add_region(Region('s', 'the result', 'ext', 8, ((ZERO, L(8), ('sc', NULL, 8)),), ro=True))
            return [Ptr('s')]
        yield q('x_visit_ref', k, lambda p: p.ptr(p.val, 's', ZERO, 'ret', 'reference returned by the visitor'), cell)


def swaps():
    for e in ('x_swap', 'x_swap_free', 'x_std_swap'):
        for ka in ALTS:
            for kb in ALTS:
                st = State()
                a, b = var(st, 'a', ka), var(st, 'b', kb)

                def post(p, ka=ka, kb=kb):
                    chk(p, 'a', kb, 'b')
                    chk(p, 'b', ka, 'a')
                    p.no_leaks()
                yield Case(e, ka + '/' + kb, st, [a, b], post, ('C18', 'C14'))
            st = State()
            a = var(st, 'a', ka)

            def post(p, ka=ka):
                chk(p, 'a', ka, 'a')
                p.no_leaks()
            yield Case(e, 'self ' + ka, st, [a, a], post, ('C18', 'C17', 'C14'))


REL = {'eq': ('eq',), 'ne': ('lt', 'gt'), 'lt': ('lt',), 'gt': ('gt',), 'le': ('lt', 'eq'), 'ge': ('gt', 'eq')}


def compares():
    for op, ok in REL.items():
        for ka in ALTS:
            for kb in ALTS:
                st = State()
                a, b = var(st, 'a', ka, True), var(st, 'b', kb, True)

                def post(p, ka=ka, kb=kb, ok=ok, op=op):
                    if ka == kb:
                        r = p.e.rel_ident(p.st, T(('elt', 'a', ZERO), SZ[ka] * 8), T(('elt', 'b', ZERO), SZ[ka] * 8))
                    else:
                        r = 'lt' if ka < kb else 'gt'
                    p.result(r in ok, 'cmp', '%s for operands comparing %s' % (op, r))
                    p.unchanged('a')
                    p.unchanged('b')
                    p.no_leaks()
                yield Case('x_' + op, ka + '/' + kb, st, [a, b], post, ('C21',))
            st = State()
            a = var(st, 'a', ka, True)
            yield Case('x_' + op, 'self ' + ka, st, [a, a], lambda p, ok=ok, op=op: p.result('eq' in ok, 'cmp', op + ' of an object with itself'), ('C21',))
