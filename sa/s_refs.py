"""Specification of ptl::function_ref, ptl::variant_ref and ptl::optional_ref."""
import re
from lin import L, ZERO
from dom import *
from spec import *

ES = 24
PARAM = globals().get('PARAM', {})
QES = PARAM.get('es', 24)          # value referenced by an optional_ref
QAL = min(QES, 8)
LIFE = PARAM.get('life', True)
NAME = 'refs'
DEFS = ()
BADVAR = '_ZTISt18bad_variant_access'
BADOPT = '_ZTISt19bad_optional_access'
KINDS = {
    'life': ['C26', 'C27', 'C03'], 'oob': [], 'uaf': [], 'uninit': [], 'overlap': [], 'leak': [], 'dealloc': ['C03'], 'term': ['C19'],
    'value': [], 'ret': [], 'repr': ['C02'], 'constwrite': ['C36'], 'global': ['C36'], 'throw': [], 'post': [], 'call': ['C26'],
}
RES = T(('res',), 32)


# ---- transfer functions of the declared-only callables -----------------------------
def invoked(eng, name, args, st, f, loc, who):
    """one call of a target: records the event, result is the opaque `res`"""
    args = list(args)
    pars = f['params'] if f else [{}] * len(args)
    sret = args.pop(0) if pars and pars[0].get('sret') else None
    key = []
    for a in args:
        key.append(a)
    last = args[-1] if len(args) >= 5 or who.startswith(('FunO', 'FunP')) else None
    ident = None
    if isinstance(last, Ptr):
        v = eng.e_ident(st, last, ES, L(1), loc, 'argument')
        ident = v[0][1]
    st.ev = st.ev + (('call', who, tuple(a.key() for a in args), ident),)
    st.at = dict(st.at)
    st.at[('call', len(st.ev))] = (who, tuple(args), ident)
    out = []
    if f is None or not f['nounwind']:
        t = st.copy()
        out.append(eng.thrown(t))
    if sret is not None:
        eng.e_construct(st, sret, ES, L(1), [(L(1), fill_(T(('res',), ES * 8), ES, True))], loc)
        return [('ret', st, UNDEF)] + out
    ty = f['ret'] if f else 'i32'
    if ty == 'ptr':
        st.add_region(Region('res', 'the result of the target', 'ext', ES, ((ZERO, L(ES), ('E', True, ES, 'res', ZERO)),)))
        v = Ptr('res')
    elif ty == 'i1':
        v = T(('res',), 1)
    else:
        v = RES
    return [('ret', st, v)] + out


def extern(eng, name, f, args, st, loc):
    dem = f['dem']
    dem = dem.replace('Opaque<0, 24>', 'Elem')
    m = re.match(r'^(Fun[OQ])::operator\(\)\((.*)\)( const)?( ?&&?)?$', dem)
    if m:
        return invoked(eng, name, args, st, f, loc, m.group(1) + '(' + m.group(2) + ')' + (m.group(3) or '') + (m.group(4) or ''))
    m = re.match(r'^(Fun\w?)::operator\(\)\(.*\)( const)?$', dem)
    if m:
        return invoked(eng, name, args, st, f, loc, m.group(1) + (m.group(2) or ''))
    m = re.match(r'^(\w?plain)\(', dem)
    if m:
        return invoked(eng, name, args, st, f, loc, m.group(1))
    if dem.startswith('FunE::operator&'):
        return [('ret', st, Ptr('elsewhere'))]
    return None


def symfn(eng, cal, args, st, loc):
    if not cal.n.startswith('@dispatch'):
        return None
    eng_f = {'@dispatch': None, '@dispatch_n': {'params': [{}] * len(args), 'nounwind': True, 'ret': 'i32', 'dem': cal.n},
             '@dispatch_r': {'params': [{}] * len(args), 'nounwind': False, 'ret': 'ptr', 'dem': cal.n},
             '@dispatch_v': {'params': [{'sret': True}] + [{}] * (len(args) - 1), 'nounwind': False, 'ret': 'void', 'dem': cal.n}}[cal.n]
    return invoked(eng, cal.n, args, st, eng_f, loc, cal.n)


OPT = {'extern': extern, 'symfn': symfn}


# ---- helpers ------------------------------------------------------------------------
def obj(st, name, size, ro=False, life=True, es=None):
    """a referenced object"""
    n = es or size
    st.add_region(Region(name, name, 'ext', size, ((ZERO, L(size), ('E', life, n, name, ZERO)),), ro=ro))
    return Ptr(name)


def functor(st, name, ro=False):
    st.add_region(Region(name, name, 'ext', 8, ((ZERO, L(8), ('sc', T(('arg', name), 64), 8)),), ro=ro))
    return Ptr(name)


def raw(st, name='z', size=16):
    st.add_region(Region(name, 'the result', 'obj', size))
    return Ptr(name)


def args5(st):
    st.assume(L('x') + (1 << 31), L((1 << 31) - 1) - L('x'))
    return [I(32, L('x')), obj(st, 'a', ES), obj(st, 'b', ES, True), obj(st, 'c', ES), obj(st, 'd', ES)]


def word(st, name, *ws, ro=False):
    st.add_region(Region(name, name, 'obj', 8 * len(ws), tuple((L(8 * i), L(8 * i + 8), ('sc', w, 8)) for i, w in enumerate(ws)), ro=ro))
    return Ptr(name)


def rest(p, *skip):
    for q, r in p.case.st.R.items():
        if q not in skip and q in p.st.R and r.kind in ('obj', 'ext', 'heap'):
            p.unchanged(q)
    p.no_leaks()


def cases(ctx):
    if not PARAM:
        yield from functions(ctx)
        yield from variants()
    yield from optionals()


# ---- function_ref ------------------------------------------------------------------------
def one_call(p, who, self_, plain=False):
    """exactly one call of the target, on the object itself with the given arguments"""
    e, st = p.e, p.st
    e.obl('call')
    calls = [v for k, v in sorted(((k, v) for k, v in st.at.items() if k[0] == 'call'), key=lambda x: x[0][1])]
    if len(calls) != 1:
        e.report(st, 'call', 'the target was called %d times' % len(calls), fatal=True)
    w, args, ident = calls[0]
    if w != who:
        e.report(st, 'call', 'called %s instead of %s' % (w, who), fatal=True)
    args = list(args)
    if self_ is not None:
        p.ptr(args.pop(0), self_[0], self_[1], 'call', 'object the call operator is invoked on')
    return args, ident


def passed(p, args, ident):
    e, st = p.e, p.st
    if len(args) != 5:
        e.report(st, 'call', '%d arguments instead of 5' % len(args), fatal=True)
    p.eq(args[0], L('x'), 'call', 'first argument')
    for a, n in zip(args[1:4], 'abc'):
        p.ptr(a, n, ZERO, 'call', 'reference argument')
    e.obl('call')
    if not isinstance(ident, tuple) or not p.same(ident, ('E', True, ES, 'd', ZERO), L(1), ES):
        e.report(st, 'call', 'the by-value argument is not the one passed', fatal=True)
    for l, v in e.read_segs(st, st.R['d'], ZERO, L(ES)):
        e.obl('call')
        if v[0] != 'MV':
            e.report(st, 'call', 'the by-value argument was not moved', fatal=True)


def functions(ctx):
    P = ('C26',)

    def call(entry, who, self_=('f', ZERO), throws=(USER,), ro=True, extra=None):
        st = State()
        first = []
        if self_ is not None and self_[0] == 'f':
            first.append(functor(st, 'f', ro))
        if '_copycall_' in entry and self_ is not None:
            first.append(functor(st, 'g', ro))
        ar = args5(st)

        def post(p):
            if p.kind == 'throw':
                if not throws:
                    p.rep('call', 'unexpected exception')
            s = self_
            calls = [v for k, v in p.st.at.items() if k[0] == 'call']
            if s == 'temp':
                p.e.obl('call')
                if len(calls) != 1 or calls[0][0] != who:
                    p.e.report(p.st, 'call', 'called %s instead of %s once' % (', '.join(c[0] for c in calls) or 'nothing', who), fatal=True)
                ar_, idn = list(calls[0][1])[1:], calls[0][2]
            else:
                ar_, idn = one_call(p, who, s)
            passed(p, ar_, idn)
            if p.kind != 'throw':
                if p.val != RES:
                    p.e.report(p.st, 'call', 'returned %r instead of the result of the target' % (p.val,), fatal=True)
            rest(p, 'd')
        return Case(entry, '', st, first + ar, post, P, throws)
    TH = (USER,)
    for n, who, th, ro in (('m', 'Fun', TH, False), ('c', 'Fun const', TH, True), ('mc', 'Fun const', TH, False), ('cc', 'Fun const', TH, True),
                           ('oc', 'FunC const', TH, True), ('occ', 'FunC const', TH, True), ('om', 'FunM', TH, False),
                           ('n', 'FunN', (), False), ('nc', 'FunN const', (), False), ('ncc', 'FunN const', (), True), ('nn', 'FunN', (), False)):
        for e in ('f_call_', 'f_ccall_', 'f_copycall_'):
            yield call(e + n, who, throws=th, ro=ro)
    for e in ('f_call_', 'f_ccall_', 'f_copycall_'):
        st = State()
        fn = [k for k, f in ctx.mod['functions'].items() if f['dem'].startswith('nplain(')]
        f = Fn(fn[0])
        yield fncall(e + 'pn', 'nplain', [f] + ([f] if 'copy' in e else []), ())
    for e, who, th in (('f_call_p', 'plain', TH), ('f_call_pc', 'plain', TH), ('f_call_np', 'nplain', ()), ('f_call_ncp', 'nplain', ()), ('f_copycall_p', 'plain', TH), ('f_assign_p', 'plain', TH)):
        yield fncall(e, who, [], th)
    yield call('f_temp', 'Fun', 'temp')

    def small(entry, who, setup, check, throws=TH, self_=('f', ZERO), args=0):
        st = State()
        ar = setup(st)

        def post(p):
            a, _ = one_call(p, who, self_)
            p.e.obl('call')
            if len(a) != args:
                p.e.report(p.st, 'call', '%d arguments instead of %d' % (len(a), args), fatal=True)
            if args:
                p.eq(a[0], L('x'), 'call', 'argument')
            if p.kind != 'throw':
                check(p)
            rest(p, 'z')
            if p.kind == 'throw' and 'z' in p.st.R:
                p.no_life('z', 0, ES)
        return Case(entry, '', st, ar, post, P, throws)
    def isint(p):
        if p.val != RES:
            p.e.report(p.st, 'call', 'returned %r instead of the result of the target' % (p.val,), fatal=True)
    # the overload of the target and the way an argument reaches it
    for entry, who, byval, moved, ro in (('f_over_v', 'FunO(Elem&&)', True, True, False), ('f_over_l', 'FunO(Elem&)', False, False, False), ('f_over_c', 'FunO(Elem const&)', False, False, True),
                                         ('f_over_r', 'FunO(Elem&&)', False, False, False), ('f_over_cr', 'FunO(Elem const&&)', False, False, True),
                                         ('f_byval_v', 'FunP', True, True, False), ('f_byval_r', 'FunP', True, True, False),
                                         ('f_byval_l', 'FunP', True, False, False), ('f_byval_c', 'FunP', True, False, True)):
        st = State()
        ar = [functor(st, 'f'), obj(st, 'd', ES, ro)]

        def post(p, who=who, byval=byval, moved=moved):
            if p.kind == 'throw' and not [k for k in p.st.at if k[0] == 'call'] and byval and not moved:
                return rest(p)  # the copy of the argument failed
            a, ident = one_call(p, who, ('f', ZERO))
            e = p.e
            e.obl('call')
            if len(a) != 1:
                e.report(p.st, 'call', '%d arguments instead of 1' % len(a), fatal=True)
            if byval:
                if not isinstance(ident, tuple) or not p.same(ident, ('E', True, ES, 'd', ZERO), L(1), ES):
                    e.report(p.st, 'call', 'the by-value argument is not the one passed', fatal=True)
            else:
                p.ptr(a[0], 'd', ZERO, 'call', 'reference argument')
            for l, v in e.read_segs(p.st, p.st.R['d'], ZERO, L(ES)):
                e.obl('call')
                if (v[0] == 'MV') != moved:
                    e.report(p.st, 'call', 'the argument was %s' % ('copied instead of moved' if moved else 'moved from'), fatal=True)
            if p.kind != 'throw':
                isint(p)
            rest(p, 'd')
        yield Case(entry, '', st, ar, post, P, TH)
    isref = lambda p: p.ptr(p.val, 'res', ZERO, 'call', 'returned reference')
    yield small('f_ref', 'FunR', lambda st: [functor(st, 'f')], isref)
    yield small('f_ref_c', 'FunR const', lambda st: [functor(st, 'f', True)], isref)
    yield small('f_ref_m', 'FunR', lambda st: [functor(st, 'f')], isref)
    yield small('f_ref_p', 'rplain', lambda st: [], isref, self_=None)
    yield small('f_rref', 'FunX', lambda st: [functor(st, 'f')], isref)

    def isval(p):
        p.content('z', ZERO, L(ES), ES, True, [(L(1), fill_(T(('res',), ES * 8), ES, True))], 'call', 'returned object')
    yield small('f_val', 'FunV', lambda st: [raw(st, 'z', ES), functor(st, 'f')], isval)
    yield small('f_val_c', 'FunV const', lambda st: [raw(st, 'z', ES), functor(st, 'f', True)], isval)
    yield small('f_val_p', 'vplain', lambda st: [raw(st, 'z', ES)], isval, self_=None)

    def x_(st):
        st.assume(L('x') + (1 << 31), L((1 << 31) - 1) - L('x'))
        return [I(32, L('x'))]
    yield small('f_void', 'FunB', lambda st: [functor(st, 'f')] + x_(st), lambda p: None, args=1)
    yield small('f_void_p', 'bplain', x_, lambda p: None, self_=None, args=1)

    def isbool(p):
        v = p.val
        if not (isinstance(v, T) and v.t == ('res',)):
            p.e.report(p.st, 'call', 'returned %r instead of the result of the target' % (v,), fatal=True)
    yield small('f_bool', 'FunB', lambda st: [functor(st, 'f')] + x_(st), isbool, args=1)

    yield small('f_lv', 'FunQ(int) &', lambda st: [functor(st, 'f')] + x_(st), isint, args=1)
    yield small('f_lv_c', 'FunQ(int) const &', lambda st: [functor(st, 'f', True)] + x_(st), isint, args=1)
    yield small('f_lv_mc', 'FunQ(int) const &', lambda st: [functor(st, 'f')] + x_(st), isint, args=1)

    def addressed(st):
        st.add_region(Region('elsewhere', 'another object', 'ext', 8, ro=True))
        return [functor(st, 'f')] + x_(st)
    yield small('f_addr', 'FunE const', addressed, isint, args=1)
    # construction never touches the target and records its address
    for n, ro in (('m', False), ('c', True), ('mc', False), ('cc', True), ('oc', True), ('occ', True), ('om', False), ('n', False), ('nc', False), ('ncc', True), ('nn', False)):
        st = State()
        ar = [raw(st), functor(st, 'f', ro)]

        def post(p):
            p.ptr(p.word('z', 0), 'f', ZERO, 'repr', 'object pointer of the function reference')
            d = p.word('z', 8)
            p.e.obl('repr')
            if not isinstance(d, Fn):
                p.e.report(p.st, 'repr', 'no entry point behind the object pointer', fatal=True)
            rest(p, 'z')
        yield Case('f_make_' + n, '', st, ar, post, ('C26', 'C02', 'C03', 'C01'))
    for e in ('f_make_p', 'f_make_pp'):
        st = State()

        def post(p):
            t, d = p.word('z', 0), p.word('z', 8)
            p.e.obl('repr')
            if not (isinstance(t, Fn) and p.e.fns[t.n]['dem'].startswith('plain(')):
                p.e.report(p.st, 'repr', 'the first word does not hold the function', fatal=True)
            if not isinstance(d, Fn) or d == t:
                p.e.report(p.st, 'repr', 'no entry point behind the function pointer', fatal=True)
            rest(p, 'z')
        yield Case(e, '', st, [raw(st)], post, ('C26', 'C02', 'C03', 'C01'))
    # objects made elsewhere
    Q = ('C26', 'C03')

    def fr(st, name, ro=False, d='@dispatch'):
        functor(st, name + '.target', True)
        return word(st, name, Ptr(name + '.target'), Fn(d), ro=ro)

    def is_fr(p, name, of):
        p.ptr(p.word(name, 0), of + '.target', ZERO, 'call', 'target of ' + name)
        d = p.word(name, 8)
        p.e.obl('call')
        if d != Fn('@dispatch' + ('' if of == 'o' else '2')):
            p.e.report(p.st, 'call', 'entry point of %s is %r' % (name, d), fatal=True)

    def mk(entry, setup, checks, label='', props=Q):
        st = State()
        ar = setup(st)

        def post(p):
            for n, of in checks:
                is_fr(p, n, of)
            if 'assign' in entry:
                p.ptr(p.val, ar[0].r, ZERO, 'call', 'returned reference')
            rest(p, *[n for n, _ in checks])
        return Case(entry, label, st, ar, post, props)
    yield mk('f_copy', lambda st: [raw(st), fr(st, 'o', True)], [('z', 'o')])
    yield mk('f_move', lambda st: [raw(st), fr(st, 'o')], [('z', 'o')])
    yield mk('f_assign', lambda st: [fr(st, 'q', d='@dispatch2'), fr(st, 'o', True)], [('q', 'o')])
    yield mk('f_assign_m', lambda st: [fr(st, 'q', d='@dispatch2'), fr(st, 'o')], [('q', 'o')])
    for e in ('f_assign', 'f_assign_m'):
        yield mk(e, lambda st: [fr(st, 'o')] * 2, [('o', 'o')], 'self', Q + ('C17',))
    yield mk('f_swap', lambda st: [fr(st, 'q', d='@dispatch2'), fr(st, 'o')], [('q', 'o'), ('o', 'q')], '', Q + ('C18',))
    yield mk('f_swap', lambda st: [fr(st, 'o')] * 2, [('o', 'o')], 'self', Q + ('C18', 'C17'))
    yield mk('f_dtor', lambda st: [fr(st, 'o')], [('o', 'o')])
    # calls go through the recorded entry point with the address of the stored pointer
    for e, d, th in (('f_invoke', '@dispatch', TH), ('f_invoke_c', '@dispatch', TH), ('f_invoke_n', '@dispatch_n', ()), ('f_invoke_cn', '@dispatch_n', ())):
        st = State()
        r = fr(st, 'o', True, d)
        ar = args5(st)

        def post(p, d=d):
            a, idn = one_call(p, d, ('o', ZERO))
            passed(p, a, idn)
            if p.kind != 'throw' and p.val != RES:
                p.e.report(p.st, 'call', 'returned %r instead of the result of the target' % (p.val,), fatal=True)
            rest(p, 'd')
        yield Case(e, '', st, [r] + ar, post, ('C26', 'C02'), th)
    for e, d in (('f_invoke_r', '@dispatch_r'), ('f_invoke_v', '@dispatch_v')):
        st = State()
        ar = ([raw(st, 'z', ES)] if e[-1] == 'v' else []) + [fr(st, 'o', True, d)]

        def post(p, d=d):
            one_call(p, d, ('o', ZERO))
            if p.kind != 'throw':
                (isref if d[-1] == 'r' else isval)(p)
            rest(p, 'z')
        yield Case(e, '', st, ar, post, ('C26', 'C02'), TH)


def fncall(entry, who, first, throws):
    st = State()
    ar = args5(st)

    def post(p):
        a, idn = one_call(p, who, None)
        passed(p, a, idn)
        if p.kind != 'throw' and p.val != RES:
            p.e.report(p.st, 'call', 'returned %r instead of the result of the target' % (p.val,), fatal=True)
        rest(p, 'd')
    return Case(entry, '', st, first + ar, post, ('C26',), throws)


# ---- variant_ref ---------------------------------------------------------------------------
ALTS = ('A', 'cA', 'B', 'cD')
SZ = {'A': 24, 'B': 8, 'D': 16}
CODE = {'A': 10, 'cA': 20, 'B': 30, 'cD': 40}
MAXI = (1 << 64) - 1


def tgt(st, alt, name, ro=None):
    return obj(st, name, SZ[alt[-1]], alt[0] == 'c' if ro is None else ro)


def vref(st, name, alt, ro=False):
    tgt(st, alt, name + '.target')
    return word(st, name, Ptr(name + '.target'), I(64, ALTS.index(alt)), ro=ro)


def is_v(p, name, target, alt):
    p.ptr(p.word(name, 0), target, ZERO, 'value', 'object referenced by ' + name)
    ix = p.num(name, 8)
    p.e.obl('repr')
    if not p.st.eq0(ix - ALTS.index(alt)):
        p.e.report(p.st, 'repr', '%s refers to alternative %s instead of %s' % (name, ix, ALTS.index(alt)), fatal=True)


def variants():
    P = ('C27', 'C03')
    ADM = P + ('C25',)

    def mk(entry, setup, checks, label='', props=P):
        st = State()
        ar = setup(st)

        def post(p):
            for n, t, alt in checks:
                is_v(p, n, t, alt)
            if 'assign' in entry:
                p.ptr(p.val, ar[0].r, ZERO, 'ret', 'returned reference')
            rest(p, *[c[0] for c in checks])
        return Case(entry, label, st, ar, post, props)
    for e, alt in (('A', 'A'), ('cA', 'cA'), ('rA', 'cA'), ('crA', 'cA'), ('B', 'B'), ('D', 'cD'), ('cD', 'cD'), ('rD', 'cD')):
        yield mk('w_ctor_' + e, lambda st, e=e: [raw(st), tgt(st, e[-1], 'x', e[0] == 'c')], [('z', 'x', alt)], '', ADM + ('C02', 'C01'))
    for t in ALTS:
        yield mk('w_copy', lambda st, t=t: [raw(st), vref(st, 'o', t, True)], [('z', 'o.target', t)], t)
        yield mk('w_copy_m', lambda st, t=t: [raw(st), vref(st, 'o', t)], [('z', 'o.target', t)], t)
        yield mk('w_move', lambda st, t=t: [raw(st), vref(st, 'o', t)], [('z', 'o.target', t)], t)
        for u in ALTS:
            yield mk('w_assign', lambda st, t=t, u=u: [vref(st, 'q', t), vref(st, 'o', u, True)], [('q', 'o.target', u)], t + '/' + u)
            yield mk('w_assign_m', lambda st, t=t, u=u: [vref(st, 'q', t), vref(st, 'o', u)], [('q', 'o.target', u)], t + '/' + u)
            yield mk('w_swap', lambda st, t=t, u=u: [vref(st, 'q', t), vref(st, 'o', u)], [('q', 'o.target', u), ('o', 'q.target', t)], t + '/' + u, P + ('C18',))
        for e in ('w_assign', 'w_assign_m', 'w_swap'):
            yield mk(e, lambda st, t=t: [vref(st, 'o', t)] * 2, [('o', 'o.target', t)], 'self ' + t, P + ('C17', 'C18') if e == 'w_swap' else P + ('C17',))
        yield mk('w_assign_A', lambda st, t=t: [vref(st, 'q', t), tgt(st, 'A', 'x')], [('q', 'x', 'A')], t)
        yield mk('w_assign_D', lambda st, t=t: [vref(st, 'q', t), tgt(st, 'cD', 'x')], [('q', 'x', 'cD')], t)
        yield mk('w_dtor', lambda st, t=t: [vref(st, 'o', t)], [('o', 'o.target', t)], t)
        # access
        for u in ALTS:
            same = t == u
            for e in ('w_holds_', 'w_getif_', 'w_get_'):
                st = State()
                a = vref(st, 'o', t, True)

                def post(p, e=e, same=same):
                    if e == 'w_holds_':
                        p.result(same, 'ret', 'type query')
                    elif e == 'w_getif_':
                        p.ptr(p.val, 'o.target' if same else NULLR, ZERO, 'ret', 'typed access')
                    elif p.kind == 'throw':
                        if same:
                            p.rep('ret', 'bad access reported although the type matches')
                    elif not same:
                        p.rep('ret', 'access to another type is not reported')
                    else:
                        p.ptr(p.val, 'o.target', ZERO, 'ret', 'typed access')
                    rest(p)
                yield Case(e + u, t, st, [a], post, ('C27',) + (('C02',) if e == 'w_holds_' else ()), (BADVAR,) if e == 'w_get_' else ())
        for e in ('w_visit', 'w_visit_l', 'w_visits'):
            st = State()
            a = vref(st, 'o', t, e != 'w_visit_l')
            st.add_region(Region('s', 'the record of the visitor', 'ext', 16, ((ZERO, L(8), ('sc', NULL, 8)), (L(8), L(12), ('sc', I(32, 0), 4)), (L(12), L(16), RAW))))

            def post(p, t=t):
                p.ptr(p.word('s', 0), 'o.target', ZERO, 'ret', 'object passed to the visitor')
                p.eq(p.word('s', 8, 4, 'i32'), 1, 'ret', 'number of calls of the visitor')
                if p.kind != 'throw':
                    p.eq(p.val, CODE[t], 'ret', 'result of the visitation')
                rest(p, 's')
            yield Case(e, t, st, [a, Ptr('s')], post, ('C27',), (USER,))
        st = State()
        a = vref(st, 'o', t, True)
        st.add_region(Region('r', 'the object the visitor returns a reference to', 'ext', 8, ((ZERO, L(8), ('sc', NULL, 8)),), ro=True))

        def post(p):
            p.ptr(p.val, 'r', ZERO, 'ret', 'reference returned by the visitor')
            rest(p)
        yield Case('w_visit_ref', t, st, [a, Ptr('r')], post, ('C27',))


# ---- optional_ref ----------------------------------------------------------------------------
KIN = ('empty', 'full')


def qobj(st, name, size, ro=False):
    return obj(st, name, size, ro, LIFE)


def oref(st, name, kind, ro=False, tro=True):
    if kind == 'full':
        qobj(st, name + '.target', QES, tro)
    return word(st, name, Ptr(name + '.target') if kind == 'full' else NULL, ro=ro)


def ptl_opt(st, kind, ro):
    full = kind == 'full'
    st.add_region(Region('x', 'the optional', 'ext', QES + 1, ((ZERO, L(QES), ('E', LIFE, QES, 'x', ZERO) if full else RAW), (L(QES), L(QES + 1), ('sc', I(8, int(full)), 1))), ro=ro))
    return Ptr('x')


def std_opt(st, kind, ro):
    full = kind == 'full'
    st.add_region(Region('x', 'the optional', 'ext', QES + QAL, ((ZERO, L(QES), ('E', LIFE, QES, 'x', ZERO) if full else RAW), (L(QES), L(QES + 1), ('sc', I(8, int(full)), 1)), (L(QES + 1), L(QES + QAL), RAW)), ro=ro))
    return Ptr('x')


def optionals():
    P = ('C27', 'C03')

    def tg(name, kind):
        return (name + '.target') if kind == 'full' else NULLR

    def mk(entry, setup, checks, label='', props=P):
        st = State()
        ar = setup(st)

        def post(p):
            for n, t in checks:
                p.ptr(p.word(n, 0), t, ZERO, 'value', 'object referenced by ' + n)
            if 'assign' in entry:
                p.ptr(p.val, ar[0].r, ZERO, 'ret', 'returned reference')
            rest(p, *[c[0] for c in checks])
        return Case(entry, label, st, ar, post, props)
    for e in ('q_ctor', 'q_ctor_null'):
        yield mk(e, lambda st: [raw(st, 'z', 8)], [('z', NULLR)], '', P + ('C01',))
    yield mk('q_ctor_v', lambda st: [raw(st, 'z', 8), qobj(st, 'x', QES)], [('z', 'x')], '', P + ('C01',))
    yield mk('q_ctor_cv', lambda st: [raw(st, 'z', 8), qobj(st, 'x', QES, True)], [('z', 'x')])
    for k in KIN:
        to = 'x' if k == 'full' else NULLR
        yield mk('q_ctor_o', lambda st, k=k: [raw(st, 'z', 8), ptl_opt(st, k, False)], [('z', to)], k)
        yield mk('q_ctor_co', lambda st, k=k: [raw(st, 'z', 8), ptl_opt(st, k, True)], [('z', to)], k)
        yield mk('q_ctor_so', lambda st, k=k: [raw(st, 'z', 8), std_opt(st, k, False)], [('z', to)], k)
        yield mk('q_ctor_cso', lambda st, k=k: [raw(st, 'z', 8), std_opt(st, k, True)], [('z', to)], k)
        for e in ('q_ctor_p', 'q_ctor_u'):
            yield mk(e, lambda st, k=k: [raw(st, 'z', 8), oref(st, 'x', k)], [('z', tg('x', k))], k)
        yield mk('q_copy', lambda st, k=k: [raw(st, 'z', 8), oref(st, 'o', k, True)], [('z', tg('o', k))], k)
        for e in ('q_copy_m', 'q_move', 'q_conv'):
            yield mk(e, lambda st, k=k: [raw(st, 'z', 8), oref(st, 'o', k)], [('z', tg('o', k))], k)
        for k2 in KIN:
            yield mk('q_assign', lambda st, k=k, k2=k2: [oref(st, 'q', k), oref(st, 'o', k2, True)], [('q', tg('o', k2))], k + '/' + k2)
            yield mk('q_assign_m', lambda st, k=k, k2=k2: [oref(st, 'q', k), oref(st, 'o', k2)], [('q', tg('o', k2))], k + '/' + k2)
            yield mk('q_swap', lambda st, k=k, k2=k2: [oref(st, 'q', k), oref(st, 'o', k2)], [('q', tg('o', k2)), ('o', tg('q', k))], k + '/' + k2, P + ('C18',))
            yield mk('q_assign_o', lambda st, k=k, k2=k2: [oref(st, 'q', k), ptl_opt(st, k2, False)], [('q', 'x' if k2 == 'full' else NULLR)], k + '/' + k2)
        for e in ('q_assign', 'q_assign_m', 'q_swap'):
            yield mk(e, lambda st, k=k: [oref(st, 'o', k)] * 2, [('o', tg('o', k))], 'self ' + k, P + (('C17', 'C18') if e == 'q_swap' else ('C17',)))
        yield mk('q_assign_v', lambda st, k=k: [oref(st, 'q', k), qobj(st, 'x', QES)], [('q', 'x')], k)
        yield mk('q_assign_null', lambda st, k=k: [oref(st, 'q', k)], [('q', NULLR)], k)
        yield mk('q_dtor', lambda st, k=k: [oref(st, 'o', k)], [('o', tg('o', k))], k)
    Q = ('C27', 'C16')
    for k in KIN:
        for e in ('q_bool', 'q_has'):
            st = State()
            a = oref(st, 'o', k, True)

            def post(p, k=k):
                p.result(k == 'full', 'ret', 'state query')
                rest(p)
            yield Case(e, k, st, [a], post, Q + ('C02',))
        for e in ('q_arrow', 'q_deref') if k == 'full' else ():
            st = State()
            a = oref(st, 'o', k, True)

            def post(p):
                p.ptr(p.val, 'o.target', ZERO, 'ret', 'referenced object')
                rest(p)
            yield Case(e, k, st, [a], post, Q)
        for e in ('q_value', 'q_value_c'):
            st = State()
            a = oref(st, 'o', k, True)

            def post(p, k=k):
                if (p.kind == 'throw') == (k == 'full'):
                    p.rep('ret', 'bad access reported although a value is referenced' if k == 'full' else 'access to an empty reference is not reported')
                elif k == 'full':
                    p.ptr(p.val, 'o.target', ZERO, 'ret', 'referenced object')
                rest(p)
            yield Case(e, k, st, [a], post, Q, (BADOPT,))
        for e in ('q_or_c', 'q_or_m'):
            st = State()
            z = raw(st, 'z', QES)
            a = oref(st, 'o', k, True)
            x = qobj(st, 'x', QES, e == 'q_or_c')

            def post(p, k=k, e=e):
                if p.kind == 'throw':
                    p.no_life('z', 0, QES)
                else:
                    p.content('z', ZERO, L(QES), QES, LIFE, [(L(1), ('E', LIFE, QES, 'o.target' if k == 'full' else 'x', ZERO))], 'ret', 'returned value')
                    if e == 'q_or_m' and k == 'empty' and LIFE:
                        for l, v in p.e.read_segs(p.st, p.st.R['x'], ZERO, L(QES)):
                            if v[0] != 'MV':
                                p.e.report(p.st, 'ret', 'the rvalue default is copied', fatal=True)
                rest(p, 'z', *(['x'] if e == 'q_or_m' and k == 'empty' and p.kind != 'throw' else []))
            # an rvalue default is moved: nothing throws then
            yield Case(e, k, st, [z, a, x], post, Q, () if not LIFE or e == 'q_or_m' and k == 'empty' else (USER,))
