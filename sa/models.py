"""Transfer functions: standard algorithms, the opaque element type, allocation, exceptions.

Functions are identified by their mangled name (namespace std, function name, number of
parameters); iterator and element types are taken from the demangled parameter list.  A
standard function that is not listed here is interpreted from its body.
"""
import re
from lin import Lin, L, ZERO
from dom import *
import bdd
from mem import width

STD = re.compile(r'^_ZN?St(?:3_V2)?(\d+)')
NOTHROW_TAG = 1000      # Opaque tags from here on have throwing copies disabled


def split_params(dem):
    """parameter types of a demangled function name"""
    if not dem.endswith(')'):
        i = dem.rfind(')')
        if i < 0:
            return []
        dem = dem[:i + 1]
    d = 0
    i = len(dem) - 1
    while i >= 0:
        c = dem[i]
        if c == ')':
            d += 1
        elif c == '(':
            d -= 1
            if d == 0:
                break
        i -= 1
    s = dem[i + 1:-1]
    out, cur, d = [], '', 0
    for c in s:
        if c in '<([{':
            d += 1
        elif c in '>)]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def std_name(name):
    m = STD.match(name)
    if not m:
        return None
    n = int(m.group(1))
    p = m.end()
    return name[p:p + n]


class Elem:
    """element type: size, has a lifetime, copying may throw"""
    def __init__(self, es, life, throws, align=8, signed=False):
        self.es, self.life, self.throws, self.align, self.signed = es, life, throws, align, signed


def elem_of(t):
    t = t.strip()
    if t.endswith(' const'):
        t = t[:-6]
    m = re.match(r'^Opaque<(\d+), (\d+)>$', t)
    if m:
        return Elem(int(m.group(2)), True, int(m.group(1)) < NOTHROW_TAG)
    if t in ('char', 'unsigned char', 'signed char', 'std::byte', 'bool'):
        return Elem(1, False, False, 1, t in ('char', 'signed char'))
    if t in ('int', 'unsigned int'):
        return Elem(4, False, False, 4)
    return None


class It:
    """iterator parameter: element type, may throw when read, elements are moved from"""
    def __init__(self, el, throws=False, mv=False, kind='ptr'):
        self.el, self.throws, self.mv, self.kind = el, throws, mv, kind


def iter_of(t):
    t = t.strip()
    if t.endswith('*'):
        e = elem_of(t[:-1].strip())
        return It(e) if e else None
    m = re.match(r'^ptl::vector<(.*)>::contiguous_iterator<(true|false)>$', t)
    if m:
        e = elem_of(m.group(1))
        return It(e) if e else None
    if re.match(r'^ptl::string(_ref)?::(contiguous_)?iterator(<(true|false)>)?$', t):
        return It(Elem(1, False, False, 1, True))
    m = re.match(r'^std::move_iterator<(.*)>$', t)
    if m:
        i = iter_of(m.group(1))
        if i:
            return It(i.el, i.throws, True)
        return None
    m = re.match(r'^ThrowIt<(.*)>$', t)
    if m:
        e = elem_of(m.group(1))
        return It(e, True, kind='throwit') if e else None
    m = re.match(r'^InIt<(.*)>$', t)
    if m:
        e = elem_of(m.group(1))
        return It(e, True, kind='init') if e else None
    m = re.match(r'^__gnu_cxx::__normal_iterator<(.*)\*, .*>$', t)
    if m:
        e = elem_of(m.group(1).strip())
        return It(e) if e else None
    return None


class ModelMixin:
    # -- lookup -----------------------------------------------------------------
    def model(self, name, f):
        c = self.mcache = getattr(self, 'mcache', {})
        if name in c:
            return c[name]
        r = self.find_model(name, f)
        c[name] = r
        return r

    def find_model(self, name, f):
        dem = f['dem']
        np = len(f['params'])
        if name.startswith('_ZNKSt17basic_string_viewIcSt11char_traitsIcEE7compareES2_'):
            return self.m_sv_compare
        if name in ('_ZNSt11char_traitsIcE6lengthEPKc', 'strlen'):
            return self.m_strlen
        if name in ('strnlen', 'strcmp', 'strncmp', 'strcpy', 'strncpy', 'stpcpy', 'strcat', 'memchr', '_ZNSt11char_traitsIcE4findEPKcmRS1_'):
            return lambda st, a, loc: self.m_cstr(name, st, a, loc)
        if name == '_ZNSt11char_traitsIcE7compareEPKcS2_m' or name == 'memcmp' or name == 'bcmp':
            if self.opt.get('bits'):
                return self.m_memcmp_bits
            return self.m_memcmp
        if name == '_ZNSt11char_traitsIcE4copyEPcPKcm' or name == '_ZNSt11char_traitsIcE4moveEPcPKcm':
            return lambda st, a, loc: self.m_bytes(st, a[0], a[1], a[2], loc, 'copy' not in name)
        if name == '_ZNSt11char_traitsIcE6assignEPcmc':
            def g(st, a, loc):
                self.fill_bytes(st, a[0], self.num(st, a[1]), a[2], loc)
                return [('ret', st, a[0])]
            return g
        sn = std_name(name)
        if sn is None:
            return None
        if self.opt.get('bits'):
            return None
        ps = split_params(dem)
        its = [iter_of(p) for p in ps]
        h = None
        if sn == '__distance' and np >= 2 and its[0] is not None and its[0].kind in ('throwit', 'init'):
            return lambda st, a, loc: [('ret', st, I(64, self.count(st, a[0], a[1], its[0])))]
        if np != len(ps):
            return None

        def elem_ok(*ix):
            return all(its[i] is not None for i in ix)

        def same(i, j):
            return its[i].el.es == its[j].el.es and its[i].el.life == its[j].el.life
        if sn in ('uninitialized_copy', 'uninitialized_move') and np == 3 and elem_ok(0, 2) and same(0, 2):
            mv = sn == 'uninitialized_move' or its[0].mv
            return lambda st, a, loc: self.m_ucopy(st, its[0], a[0], self.count(st, a[0], a[1], its[0]), a[2], mv, loc, 'it')
        if sn in ('uninitialized_copy_n', 'uninitialized_move_n') and np == 3 and elem_ok(0, 2) and same(0, 2):
            mv = sn == 'uninitialized_move_n' or its[0].mv
            how = 'pair' if sn == 'uninitialized_move_n' else 'it'
            return lambda st, a, loc: self.m_ucopy(st, its[0], a[0], self.num(st, a[1], ps[1]), a[2], mv, loc, how)
        if sn == 'uninitialized_fill_n' and np == 3 and elem_ok(0):
            return lambda st, a, loc: self.m_ufill(st, its[0].el, a[0], self.num(st, a[1], ps[1]), a[2], loc)
        if sn == 'uninitialized_fill' and np == 3 and elem_ok(0):
            return lambda st, a, loc: self.m_ufill(st, its[0].el, a[0], self.count(st, a[0], a[1], its[0]), a[2], loc, void=True)
        if sn in ('uninitialized_value_construct_n', 'uninitialized_default_construct_n') and np == 2 and elem_ok(0):
            z = 'value' in sn
            return lambda st, a, loc: self.m_udef(st, its[0].el, a[0], self.num(st, a[1], ps[1]), z, loc)
        if sn in ('uninitialized_value_construct', 'uninitialized_default_construct') and np == 2 and elem_ok(0):
            z = 'value' in sn
            return lambda st, a, loc: self.m_udef(st, its[0].el, a[0], self.count(st, a[0], a[1], its[0]), z, loc, void=True)
        if sn in ('destroy_n', '_Destroy_n') and np == 2 and elem_ok(0):
            return lambda st, a, loc: self.m_destroy(st, its[0].el, a[0], self.num(st, a[1], ps[1]), loc, True)
        if sn in ('destroy', '_Destroy') and np == 2 and elem_ok(0):
            return lambda st, a, loc: self.m_destroy(st, its[0].el, a[0], self.count(st, a[0], a[1], its[0]), loc, False)
        if sn == 'rotate' and np == 3 and elem_ok(0):
            return lambda st, a, loc: self.m_rotate(st, its[0], a, loc)
        if sn in ('move', 'copy') and np == 3 and elem_ok(0, 2) and same(0, 2):
            return lambda st, a, loc: self.m_copy(st, its[0], a[0], self.count(st, a[0], a[1], its[0]), a[2], sn == 'move' or its[0].mv, loc)
        if sn == 'copy_n' and np == 3 and elem_ok(0, 2) and same(0, 2):
            return lambda st, a, loc: self.m_copy(st, its[0], a[0], self.num(st, a[1], ps[1]), a[2], its[0].mv, loc, clamp=True)
        if sn in ('move_backward', 'copy_backward') and np == 3 and elem_ok(0, 2) and same(0, 2):
            return lambda st, a, loc: self.m_copyb(st, its[0], a[0], self.count(st, a[0], a[1], its[0]), a[2], sn == 'move_backward' or its[0].mv, loc)
        if sn == 'fill_n' and np == 3 and elem_ok(0):
            return lambda st, a, loc: self.m_fill(st, its[0].el, a[0], self.num(st, a[1], ps[1]), a[2], loc, True)
        if sn == 'fill' and np == 3 and elem_ok(0):
            return lambda st, a, loc: self.m_fill(st, its[0].el, a[0], self.count(st, a[0], a[1], its[0]), a[2], loc, False)
        if sn == 'swap_ranges' and np == 3 and elem_ok(0, 2):
            return lambda st, a, loc: self.m_swap_ranges(st, its[0].el, a[0], self.count(st, a[0], a[1], its[0]), a[2], loc)
        if sn == 'equal' and np == 4 and elem_ok(0, 2):
            return lambda st, a, loc: self.m_equal(st, its[0].el, a, loc)
        if sn == 'equal' and np == 3 and elem_ok(0, 2):
            return lambda st, a, loc: self.m_equal(st, its[0].el, a, loc)
        if sn == 'lexicographical_compare' and np == 4 and elem_ok(0, 2):
            return lambda st, a, loc: self.m_lex(st, its[0].el, a, loc)
        if sn == 'distance' and np == 2 and elem_ok(0) and its[0].kind in ('throwit', 'init'):
            return lambda st, a, loc: [('ret', st, I(64, self.count(st, a[0], a[1], its[0])))]
        return None

    # -- helpers ------------------------------------------------------------------
    def num(self, st, v, ty='unsigned long'):
        if isinstance(v, Bv):
            v = self.to_lin(st, v)
        if not isinstance(v, I):
            raise Unknown('count')
        if ty in ('long', 'int', 'long long', 'short', 'signed char', 'char'):
            return st.norm_s(v.e, v.w)
        return st.norm_u(v.e, v.w)

    def count(self, st, a, b, it):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            d = (b.o - a.o).div_exact(it.el.es)
            if d is None:
                raise Unknown('range length')
            return self.small(st, d)
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.report(st, 'uninit', 'range bounds are uninitialised', None, fatal=True)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            self.report(st, 'oob', 'range whose bounds belong to different objects (%s, %s)' % (a.r, b.r), None, fatal=True)
        raise Unknown('range')

    def adv(self, st, p, n, es):
        if not isinstance(p, Ptr):
            return p
        return Ptr(p.r, self.small(st, p.o + n.mul(es)))

    def user_throw(self, st, kind='@user'):
        rid = st.new_rid('exception')
        st.add_region(Region(rid, 'exception', 'exc', 16, attr=kind))
        return Ptr(rid, ZERO)

    def thrown(self, st, kind='@user'):
        return ('throw', st, self.user_throw(st, kind))

    def nonneg(self, st, n, loc, what):
        if not st.P.entails(n):
            s = st.with_(-n - 1)
            if s is not None:
                self.report(s, 'oob', '%s of a negative or wrapped-around number of elements (%s)' % (what, n), loc)
            st.assume(n)

    def src_items(self, st, it, p, n, loc, what='copy of'):
        es = it.el.es
        if it.el.life:
            return self.e_ident(st, p, es, n, loc, what)
        b = self.rng(st, p, n.mul(es), what, loc)
        if b is None:
            return []
        out = []
        for l, v in self.read_segs(st, *b):
            c = l.div_exact(es)
            if c is None:
                raise Unknown('element size')
            out.append((c, v))
        return out

    def prefix(self, st, items, m):
        """first m elements of items (m <= total)"""
        out = []
        for l, v in items:
            if st.ge0(m - l):
                out.append((l, v))
                m = m - l
            else:
                out.append((m, v))
                return out
        return out

    # -- algorithms ------------------------------------------------------------------
    def m_ucopy(self, st, it, src, n, dst, mv, loc, how):
        es = it.el.es
        self.nonneg(st, n, loc, 'copy')
        if not it.el.life:
            return self.m_copy(st, it, src, n, dst, False, loc) if how == 'it' else [('ret', s, Agg([self.adv(s, src, n, es), v])) if k == 'ret' else (k, s, v) for k, s, v in self.m_copy(st, it, src, n, dst, False, loc)]
        items = self.src_items(st, it, src, n, loc)
        out = []
        if (it.throws or (it.el.throws and not mv)):
            t = st.with_(n - 1)
            if t is not None:
                # the elements constructed so far are destroyed again by the algorithm
                self.life_probe(t, dst, es, n, loc)
                out.append(self.thrown(t))
        self.e_construct(st, dst, es, n, items, loc)
        if mv:
            self.e_moved(st, src, es, n)
        r = self.adv(st, dst, n, es)
        if how == 'pair':
            r = Agg([self.adv(st, src, n, es), r])
        return [('ret', st, r)] + out

    def life_probe(self, st, p, es, n, loc):
        b = self.rng(st, p, n.mul(es), 'construction in', loc)
        if b is not None:
            self.writable(st, b[0], loc)
            self.life_check_raw(st, *b, loc)
            self.write_segs(st, p.r, b[1], b[2], [(b[2] - b[1], RAW)])

    def one(self, st, el, p, loc):
        """identity of the element a reference designates"""
        if el.life:
            it = self.e_ident(st, p, el.es, L(1), loc, 'copy of')
            for l, v in it:
                if not (l == ZERO):
                    return self.ident(v, ZERO, el.es)
            raise Unknown('element')
        return self.load(st, p, el.es, 'i%d' % (8 * el.es), loc)

    def ident(self, v, k, es):
        if v[0] == 'E':
            if v[3][0] == 'f':
                x = v[3][1]
                return x if isinstance(x, Val) else T((x,), es * 8)
            return T(('elt', v[3], v[4] + k), es * 8)
        if v[0] == 'sc':
            return v[1]
        if v[0] == 'zero':
            return I(es * 8, 0)
        if v[0] == 'part' and es == 1:
            return T(('part', v[1].key(), v[2], 1), 8)
        return T((v[0],), es * 8)

    def m_ufill(self, st, el, dst, n, ref, loc, void=False):
        self.nonneg(st, n, loc, 'fill')
        if not el.life:
            return self.m_fill(st, el, dst, n, ref, loc, True)
        if st.eq0(n):
            return [('ret', st, dst)]
        x = self.one(st, el, ref, loc)
        out = []
        if el.throws:
            t = st.copy()
            self.life_probe(t, dst, el.es, n, loc)
            out.append(self.thrown(t))
        # a reference into the destination is read after construction began
        if isinstance(ref, Ptr) and isinstance(dst, Ptr) and ref.r == dst.r:
            pass
        self.e_construct(st, dst, el.es, n, [(n, ('E', True, el.es, ('f', x), None))], loc)
        return [('ret', st, self.adv(st, dst, n, el.es))] + out

    def m_udef(self, st, el, dst, n, zero, loc, void=False):
        self.nonneg(st, n, loc, 'value construction')
        if not el.life:
            b = self.rng(st, dst, n.mul(el.es), 'write to', loc)
            if b is not None:
                self.writable(st, b[0], loc)
                self.put(st, dst, n.mul(el.es), [(n.mul(el.es), ZEROV if zero else RAW)], loc)
            return [('ret', st, self.adv(st, dst, n, el.es))]
        out = []
        if el.throws:
            t = st.with_(n - 1)
            if t is not None:
                self.life_probe(t, dst, el.es, n, loc)
                out.append(self.thrown(t))
        self.e_construct(st, dst, el.es, n, [(n, ('E', True, el.es, ('f', T(('default',), el.es * 8)), None))], loc)
        return [('ret', st, self.adv(st, dst, n, el.es))] + out

    def m_destroy(self, st, el, p, n, loc, ret):
        self.nonneg(st, n, loc, 'destruction')
        if el.life:
            self.e_destroy(st, p, el.es, n, loc)
        return [('ret', st, self.adv(st, p, n, el.es) if ret else UNDEF)]

    def m_rotate(self, st, it, a, loc):
        es = it.el.es
        n1 = self.count(st, a[0], a[1], it)
        n2 = self.count(st, a[1], a[2], it)
        self.nonneg(st, n1, loc, 'rotation')
        self.nonneg(st, n2, loc, 'rotation')
        ret = self.adv(st, a[0], n2, es)
        if st.eq0(n1) or st.eq0(n2):
            return [('ret', st, ret)]
        n = n1 + n2
        b = self.rng(st, a[0], n.mul(es), 'rotation of', loc)
        r, lo, hi = b
        self.writable(st, r, loc)
        if it.el.life:
            self.life_check_live(st, r, lo, hi, 'rotation of', loc)
        mid = a[1].o
        i1 = self.read_segs(st, r, lo, mid)
        i2 = self.read_segs(st, r, mid, hi)
        if not it.el.life:
            self.put(st, a[0], hi - lo, i2 + i1, loc)
        else:
            self.write_segs(st, r.rid, lo, hi, i2 + i1)
        return [('ret', st, ret)]

    def m_copy(self, st, it, src, n, dst, mv, loc, clamp=False):
        """assignment of n elements to dst, front to back"""
        es = it.el.es
        if clamp:
            # a negative count copies nothing
            if not st.ge0(n):
                return [('ret', st, dst)]
        self.nonneg(st, n, loc, 'copy')
        items = self.src_items(st, it, src, n, loc)
        if not items:
            return [('ret', st, self.adv(st, dst, n, es))]
        if isinstance(src, Ptr) and isinstance(dst, Ptr) and src.r == dst.r and src.o != dst.o and (it.el.life or it.throws):
            # destination begins inside of the source behind its start: elements get overwritten before they are read
            if st.ge0(n - 1) and st.ge0(dst.o - src.o - 1) and st.ge0(src.o + n.mul(es) - dst.o - 1):
                self.report(st, 'overlap', 'forward copy into the middle of its own source', loc, fatal=True)
        out = []
        rd = self.adv(st, dst, n, es)
        if it.throws or (it.el.throws and not mv):
            t = st.with_(n - 1)
            if t is not None:
                m = L(t.fresh('m'))
                t = t.with_(m, n - 1 - m)
                work = [t] if t is not None else []
                while work:
                    s = work.pop()
                    t = s.copy()
                    try:
                        pi = self.prefix(t, items, m)
                        if it.el.life:
                            self.e_assign(t, dst, es, m, pi, loc)
                        else:
                            b = self.rng(t, dst, m.mul(es), 'write to', loc)
                            if b is not None:
                                self.writable(t, b[0], loc)
                                self.put(t, dst, m.mul(es), [(l.mul(es), v) for l, v in pi], loc)
                    except Split as sp:
                        # the number of elements copied so far exists in this branch only
                        work += [x for x in (s.refine(r) for r in sp.refs) if x is not None]
                        continue
                    except Dead:
                        continue
                    out.append(self.thrown(t))
        if it.el.life:
            if mv:
                self.e_moved(st, src, es, n)
                if src.r == dst.r and st.eq0(src.o - dst.o):
                    return [('ret', st, rd)] + out      # moved onto themselves: valid but unspecified
            self.e_assign(st, dst, es, n, items, loc)
        else:
            b = self.rng(st, dst, n.mul(es), 'write to', loc)
            if b is not None:
                self.writable(st, b[0], loc)
                self.put(st, dst, n.mul(es), [(l.mul(es), v) for l, v in items], loc)
        return [('ret', st, rd)] + out

    def m_copyb(self, st, it, src, n, dlast, mv, loc):
        es = it.el.es
        self.nonneg(st, n, loc, 'copy')
        dst = self.adv(st, dlast, -n, es)
        items = self.src_items(st, it, src, n, loc)
        if not items:
            return [('ret', st, dst)]
        if it.el.life and isinstance(src, Ptr) and isinstance(dst, Ptr) and src.r == dst.r and src.o != dst.o:
            if st.ge0(n - 1) and st.ge0(src.o - dst.o - 1) and st.ge0(dst.o + n.mul(es) - src.o - 1):
                self.report(st, 'overlap', 'backward copy into the front of its own source', loc, fatal=True)
        out = []
        if it.el.throws and not mv:
            t = st.with_(n - 1)
            if t is not None:
                t.fl = t.fl | {'partial backward copy'}
                out.append(self.thrown(t))
        if it.el.life:
            if mv:
                self.e_moved(st, src, es, n)
                if src.r == dst.r and st.eq0(src.o - dst.o):
                    return [('ret', st, dst)]
            self.e_assign(st, dst, es, n, items, loc)
        else:
            b = self.rng(st, dst, n.mul(es), 'write to', loc)
            if b is not None:
                self.writable(st, b[0], loc)
                self.put(st, dst, n.mul(es), [(l.mul(es), v) for l, v in items], loc)
        return [('ret', st, dst)] + out

    def fill_bytes(self, st, p, n, v, loc):
        b = self.rng(st, p, n, 'write to', loc)
        if b is None:
            return
        self.writable(st, b[0], loc)
        if isinstance(v, I) and v.w != 8:
            v = I(8, st.norm_u(v.e, 8))
        self.put(st, p, n, [(n, ('E', False, 1, ('f', v), None))], loc)

    def m_fill(self, st, el, dst, n, ref, loc, ret):
        if ret and not st.ge0(n):
            return [('ret', st, dst)]
        self.nonneg(st, n, loc, 'fill')
        if st.eq0(n):
            return [('ret', st, dst)]
        x = self.one(st, el, ref, loc)
        if el.life:
            b = self.e_assign(st, dst, el.es, n, [(n, ('E', True, el.es, ('f', x), None))], loc)
            out = []
            if el.throws:
                t = st.copy()
                t.fl = t.fl | {'partial fill'}
                out.append(self.thrown(t))
            return [('ret', st, self.adv(st, dst, n, el.es) if ret else UNDEF)] + out
        nb = n.mul(el.es)
        b = self.rng(st, dst, nb, 'write to', loc)
        if b is not None:
            self.writable(st, b[0], loc)
            self.put(st, dst, nb, [(nb, ('E', False, el.es, ('f', x), None))], loc)
        return [('ret', st, self.adv(st, dst, n, el.es) if ret else UNDEF)]

    def e_swap(self, st, p, q, es, n, loc, life=True):
        if p == q:
            return
        nb = n.mul(es)
        a = self.rng(st, p, nb, 'exchange of', loc)
        b = self.rng(st, q, nb, 'exchange of', loc)
        if a is None or b is None:
            return
        for x in (a, b):
            self.writable(st, x[0], loc)
            if life:
                self.life_check_live(st, *x, 'exchange of', loc)
        if p.r == q.r:
            if st.eq0(p.o - q.o):
                return
            if not (st.ge0(p.o - q.o - nb) or st.ge0(q.o - p.o - nb)):
                self.report(st, 'overlap', 'exchange of overlapping ranges', loc, fatal=True)
        i1 = self.read_segs(st, *a)
        i2 = self.read_segs(st, *b)
        self.write_segs(st, p.r, a[1], a[2], i2)
        self.write_segs(st, q.r, b[1], b[2], i1)

    def m_swap_ranges(self, st, el, p, n, q, loc):
        self.nonneg(st, n, loc, 'exchange')
        self.e_swap(st, p, q, el.es, n, loc, el.life)
        return [('ret', st, self.adv(st, q, n, el.es))]

    # -- comparisons ------------------------------------------------------------------
    # Relations between sequences are atoms of the partition: ('rel', X, Y) in {'lt','eq','gt'}
    # where X < Y (textually) name two whole sequences.
    def seq(self, st, el, p, n, loc):
        """(source, start, length) if the range is one contiguous piece of a named sequence"""
        it = It(el)
        items = [(l, v) for l, v in self.src_items(st, it, p, n, loc, 'comparison of')]
        items = [(l, v) for l, v in items if not st.eq0(l)]
        if not items:
            return ('', ZERO, ZERO)
        if len(items) == 1 and items[0][1][0] == 'E' and items[0][1][3][0] != 'f':
            v = items[0][1]
            return (v[3], v[4], items[0][0])
        return None

    def canon(self, items):
        return tuple((l, seg_key(v)) for l, v in items)

    def rel_whole(self, st, a, b):
        """lexicographic relation of two whole sequences"""
        x, y = a[0], b[0]
        if x == y:
            return 'eq'
        la, lb = a[2], b[2]
        if x == '' or y == '':
            if st.eq0(la - lb):
                return 'eq'
            return 'lt' if st.ge0(lb - la) else 'gt'
        fl = x > y
        key = ('rel', min(x, y), max(x, y))
        r = st.at.get(key)
        if r is None:
            lens = self.opt['seqlen']
            n1, n2 = lens(st, key[1]), lens(st, key[2])
            # relation of contents including length, each realisable
            raise Split([('and', [('atom', key, 'eq'), ('eq', n1 - n2)]),
                         ('and', [('atom', key, 'lt'), ('ge', n2 - 1)]),
                         ('and', [('atom', key, 'gt'), ('ge', n1 - 1)])])
        if fl:
            r = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[r]
        return r

    def whole(self, st, s):
        if s[0] == '':
            return True
        n = self.opt['seqlen'](st, s[0])
        return n is not None and st.eq0(s[1]) and st.eq0(n - s[2])

    def prefix_rel(self, st, a, b, k):
        """relation of the first k elements of two named sequences, given their whole relation"""
        if k == ZERO or st.eq0(k):
            return 'eq'
        if a[0] == b[0]:
            if st.eq0(a[1] - b[1]):
                return 'eq'
            raise Unknown('comparison of parts')
        lens = self.opt['seqlen']
        na, nb = lens(st, a[0]), lens(st, b[0])
        if na is None or nb is None or not st.eq0(a[1]) or not st.eq0(b[1]):
            raise Unknown('comparison of parts')
        r = self.rel_whole(st, (a[0], ZERO, na), (b[0], ZERO, nb))
        if r == 'eq':
            return 'eq'
        key = ('prel', a[0], b[0], k)
        if key in st.at:
            return st.at[key]
        nx = nb if r == 'lt' else na      # the greater one must go on behind a common prefix
        raise Split([('atom', key, r), ('and', [('atom', key, 'eq'), ('ge', nx - k - 1)])])

    def m_equal(self, st, el, a, loc):
        it = It(el)
        n1 = self.count(st, a[0], a[1], it)
        self.nonneg(st, n1, loc, 'comparison')
        if len(a) == 4:
            n2 = self.count(st, a[2], a[3], it)
            self.nonneg(st, n2, loc, 'comparison')
            if not st.eq0(n1 - n2):
                # the lengths decide
                return [('ret', st, I(1, 0))]
        x = self.seq(st, el, a[0], n1, loc)
        y = self.seq(st, el, a[2], n1, loc)
        if self.elementwise(st, x, y, n1, n1):
            return [('ret', st, I(1, int(self.lex_elements(st, el, a[0], n1.c, a[2], n1.c, loc) == 'eq')))]
        if x is None or y is None:
            raise Unknown('comparison of composed sequences')
        return [('ret', st, I(1, int(self.prefix_rel(st, x, y, n1) == 'eq')))]

    def elementwise(self, st, x, y, n1, n2):
        """short ranges without a relation as a whole are compared element by element"""
        if n1.t or n2.t or n1.c > 8 or n2.c > 8:
            return False
        for s in (x, y):
            if s is None:
                return True
            if s[0] != '' and self.opt['seqlen'](st, s[0]) is None:
                return True
        return False

    def lex_elements(self, st, el, p, n1, q, n2, loc, signed=False):
        for i in range(min(n1, n2)):
            o = i * el.es
            r = self.rel_values(st, self.one(st, el, Ptr(p.r, p.o + o), loc), self.one(st, el, Ptr(q.r, q.o + o), loc), el, signed)
            if r != 'eq':
                return r
        return 'eq' if n1 == n2 else 'lt' if n1 < n2 else 'gt'

    def rel_values(self, st, x, y, el, signed=False):
        if el.life:
            return self.rel_ident(st, x, y)
        bx, by = self.to_bv(x), self.to_bv(y)
        if bx is None or by is None:
            return self.rel_ident(st, x, y)
        for pred, r in (('eq', 'eq'), ('slt' if signed else 'ult', 'lt')):       # the characters of texts compare as unsigned values
            c = bdd.AND(self.cmp_bv(pred, bx, by), st.pc)
            if c == bdd.F:
                continue
            if c == st.pc:
                return r
            raise Split([('pc', c), ('pc', bdd.NOT(c))])
        return 'gt'

    def m_lex(self, st, el, a, loc):
        it = It(el)
        n1 = self.count(st, a[0], a[1], it)
        n2 = self.count(st, a[2], a[3], it)
        self.nonneg(st, n1, loc, 'comparison')
        self.nonneg(st, n2, loc, 'comparison')
        signed = el.signed and self.opt.get('order') == 'u'     # operator< of char is not the order of texts
        return [('ret', st, I(1, int(self.lex(st, el, a[0], n1, a[2], n2, loc, signed) == 'lt')))]

    def lex(self, st, el, p, n1, q, n2, loc, signed=False):
        x = self.seq(st, el, p, n1, loc)
        y = self.seq(st, el, q, n2, loc)
        if self.elementwise(st, x, y, n1, n2):
            return self.lex_elements(st, el, p, n1.c, q, n2.c, loc, signed)
        if x is None or y is None:
            raise Unknown('comparison of composed sequences')
        if signed and not st.eq0(n1) and not st.eq0(n2):
            raise Unknown('comparison of characters as signed values')
        if self.whole(st, x) and self.whole(st, y):
            return self.rel_whole(st, x, y)
        k = n1 if st.ge0(n2 - n1) else n2
        r = self.prefix_rel(st, x, y, k)
        if r != 'eq':
            return r
        if st.eq0(n1 - n2):
            return 'eq'
        return 'lt' if st.ge0(n2 - n1) else 'gt'

    SIGN = {'lt': -1, 'eq': 0, 'gt': 1}

    def m_sv_compare(self, st, a, loc):
        # this: {size, data}; the other view is passed in two registers (size, data)
        n1 = self.load(st, a[0], 8, 'i64', loc)
        p1 = self.load(st, Ptr(a[0].r, a[0].o + 8), 8, 'ptr', loc)
        n2, p2 = a[1], a[2]
        el = Elem(1, False, False, 1)
        r = self.lex(st, el, p1, self.num(st, n1), p2, self.num(st, n2), loc)
        s = self.SIGN[r]
        return [('ret', st, I(32, 0) if s == 0 else T(('sign', s), 32))]

    def m_memcmp(self, st, a, loc):
        el = Elem(1, False, False, 1)
        k = self.num(st, a[2])
        if st.eq0(k):
            return [('ret', st, I(32, 0))]
        x = self.seq(st, el, a[0], k, loc)
        y = self.seq(st, el, a[1], k, loc)
        if self.elementwise(st, x, y, k, k):
            s = self.SIGN[self.lex_elements(st, el, a[0], k.c, a[1], k.c, loc)]
            return [('ret', st, I(32, 0) if s == 0 else T(('sign', s), 32))]
        if x is None or y is None:
            raise Unknown('comparison of composed sequences')
        s = self.SIGN[self.prefix_rel(st, x, y, k)]
        return [('ret', st, I(32, 0) if s == 0 else T(('sign', s), 32))]

    def m_memcmp_bits(self, st, a, loc):
        k = self.num(st, a[2])
        if k.t or k.c > 64:
            raise Unknown('memcmp')
        eq = bdd.T
        lt = bdd.F
        for i in range(k.c):
            x = self.to_bv(self.load(st, Ptr(a[0].r, a[0].o + i), 1, 'i8', loc))
            y = self.to_bv(self.load(st, Ptr(a[1].r, a[1].o + i), 1, 'i8', loc))
            if x is None or y is None:
                raise Unknown('memcmp')
            lt = bdd.OR(lt, bdd.AND(eq, self.cmp_bv('ult', x, y)))
            eq = bdd.AND(eq, self.cmp_bv('eq', x, y))
        # zero iff equal, negative iff less
        ne = bdd.NOT(eq)
        return [('ret', st, self.simp(Bv((ne,) + (lt,) * 31)))]

    def zero_at(self, st, p, loc, bound=None, what='while looking for a terminator'):
        """position of the first zero character at or behind p (at most bound)"""
        if bound is not None and st.eq0(bound):
            return bound
        r = self.reg(st, p, 'read of', loc)
        if r.kind == 'global' and p.o.t:
            raise Unknown('strlen')
        segs, i = self.cut(st, r, p.o)
        n = ZERO
        for lo, hi, v in segs[i:]:
            if bound is not None and st.ge0(n - bound):
                return bound
            m = hi - lo
            if st.eq0(m):
                continue
            k = v[0]
            if k == 'zero':
                return n
            if k == 'raw':
                self.report(st, 'uninit', 'uninitialised character of %s read %s' % (r.name, what), loc, fatal=True)
            if k == 'E' and not v[1] and v[2] == 1:
                if v[3][0] == 'f':
                    if self.is_zero(st, v[3][1]):
                        return n
                elif not str(v[3]).startswith('nz'):
                    # characters of arbitrary value: the first zero among them, or none
                    key = ('first zero', v[3], v[4], m)
                    z = st.at.get(key)
                    if z is None:
                        f = L('z(%s[%s],%s)' % (v[3], v[4], m))
                        raise Split([('atom', key, 'none'), ('and', [('atom', key, f), ('ge', f), ('ge', m - f - 1)])])
                    if z != 'none':
                        n = n + z
                        return n if bound is None or st.ge0(bound - n) else bound
                n = n + m
                continue
            if k in ('sc', 'part') and not m.t:
                for j in range(m.c):
                    x = self.part(st, v[1], (v[2] if k == 'part' else 0) + j, 1, 8, 'i8') if k == 'part' or m.c > 1 else v[1]
                    if self.is_zero(st, x):
                        n = n + j
                        return n if bound is None or st.ge0(bound - n) else bound
                n = n + m
                continue
            raise Unknown('strlen')
        if bound is not None and st.ge0(n - bound):
            return bound
        self.report(st, 'oob', 'characters behind the end of %s read %s' % (r.name, what), loc, fatal=True)

    def is_zero(self, st, v):
        if isinstance(v, I):
            return st.eq0(st.norm_u(v.e, v.w))
        if isinstance(v, Bv):
            c = bdd.AND(self.cmp_bv('eq', v, Bv((bdd.F,) * v.w)), st.pc)
            if c == bdd.F or c == st.pc:
                return c != bdd.F
            raise Split([('pc', c), ('pc', bdd.NOT(c))])
        if isinstance(v, T) and v.t[0] in ('elt', 'arg'):
            return self.cmp_term(st, 'eq', v, I(v.w, 0)).e.c == 1
        raise Unknown('strlen')

    def m_strlen(self, st, a, loc):
        return [('ret', st, I(64, self.zero_at(st, a[0], loc)))]

    def m_cstr(self, name, st, a, loc):
        """the functions of <cstring> on terminated texts"""
        if name == 'strnlen':
            return [('ret', st, I(64, self.zero_at(st, a[0], loc, self.num(st, a[1]))))]
        if name in ('memchr', '_ZNSt11char_traitsIcE4findEPKcmRS1_'):
            if name != 'memchr':
                a = [a[0], self.load(st, a[2], 1, 'i8', loc), a[1]]
            if not isinstance(a[1], I) or a[1].e.t or a[1].e.c % 256:
                raise Unknown(name)
            n = self.num(st, a[2])
            z = self.zero_at(st, a[0], loc, n)
            return [('ret', st, NULL if st.ge0(z - n) else Ptr(a[0].r, a[0].o + z))]
        if name in ('strcmp', 'strncmp'):
            k = self.num(st, a[2]) if name == 'strncmp' else None
            s = self.SIGN[self.lex(st, Elem(1, False, False, 1), a[0], self.zero_at(st, a[0], loc, k), a[1], self.zero_at(st, a[1], loc, k), loc)]
            return [('ret', st, I(32, 0) if s == 0 else T(('sign', s), 32))]
        n = self.zero_at(st, a[1], loc, self.num(st, a[2]) if name == 'strncpy' else None)
        d = a[0]
        if name in ('strcat',):
            d = Ptr(d.r, d.o + self.zero_at(st, d, loc))
        if name == 'strncpy':
            k = self.num(st, a[2])
            self.memcpy(st, d, a[1], n, loc)
            self.memset(st, Ptr(d.r, d.o + n), I(8, 0), k - n, loc)
            return [('ret', st, d)]
        self.memcpy(st, d, a[1], n + 1, loc)
        return [('ret', st, Ptr(d.r, d.o + n) if name == 'stpcpy' else a[0])]

    def m_bytes(self, st, d, s, n, loc, overlap):
        self.memcpy(st, d, s, self.num(st, n), loc, overlap)
        return [('ret', st, d)]

    @staticmethod
    def known_align(v):
        if isinstance(v, I) and not v.e.t:
            return v.e.c
        raise Unknown('alignment that is no constant')

    @staticmethod
    def failed(st):
        """an allocation failed"""
        t = st.copy()
        t.at = dict(t.at)
        t.at[('afail',)] = True
        return t

    # -- external functions ----------------------------------------------------------------
    def extern(self, name, f, args, st, loc):
        dem = f['dem']
        m = re.match(r'^Opaque<(\d+), (\d+)>::(~?Opaque|operator=)\((.*)\)$', dem)
        if m:
            return self.opaque(m, f, args, st, loc)
        m = re.match(r'^(?:bool|void) (swap|operator(?:==|!=|<=|>=|<|>))<(\d+), (\d+)>\(', dem)
        if m:
            es = int(m.group(3))
            if m.group(1) == 'swap':
                self.e_swap(st, args[0], args[1], es, L(1), loc)
                return [('ret', st, UNDEF)]
            return self.opaque_cmp(m.group(1)[8:], es, args, st, loc)
        if name in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmSt11align_val_tRKSt9nothrow_t', '_ZnamSt11align_val_tRKSt9nothrow_t'):
            n = self.num(st, args[0])
            fam = 'new' if name.startswith('_Znw') else 'new[]'
            al = 16
            if 'align_val_t' in name:
                al = self.known_align(args[1])
                fam += ' (aligned by %d)' % al
            if 'nothrow' in name:
                out = [('ret', self.failed(st), NULL)]
            else:
                out = [self.thrown(self.failed(st), '_ZTISt9bad_alloc')]
            s = st.with_(L((1 << 63) - 1) - n)
            if s is not None:
                out.insert(0, ('ret', s, self.alloc(s, n, fam, loc, align=al)))
            return out
        if name in ('_ZdlPvSt11align_val_t', '_ZdaPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdaPvmSt11align_val_t', '_ZdlPvSt11align_val_tRKSt9nothrow_t', '_ZdaPvSt11align_val_tRKSt9nothrow_t'):
            self.release(st, args[0], 'new%s (aligned by %d)' % ('' if name.startswith('_Zdl') else '[]', self.known_align(args[2 if name.startswith(('_ZdlPvm', '_ZdaPvm')) else 1])), loc)
            return [('ret', st, UNDEF)]
        if name in ('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
            n = self.num(st, args[0])
            fam = 'new' if name.startswith('_Znw') else 'new[]'
            out = [('ret', self.failed(st), NULL)]
            s = st.with_(L((1 << 63) - 1) - n)
            if s is not None:
                out.insert(0, ('ret', s, self.alloc(s, n, fam, loc)))
            return out
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdaPvm', '_ZdlPvRKSt9nothrow_t', '_ZdaPvRKSt9nothrow_t'):
            self.release(st, args[0], 'new' if name.startswith('_Zdl') else 'new[]', loc)
            return [('ret', st, UNDEF)]
        if name == 'free':
            self.release(st, args[0], 'malloc', loc)
            return [('ret', st, UNDEF)]
        if name in ('malloc', 'calloc', 'aligned_alloc'):
            if name == 'calloc':
                a, b = self.num(st, args[0]), self.num(st, args[1])
                n = a.mul(b.c) if not b.t else b.mul(a.c) if not a.t else None
                if n is None:
                    raise Unknown('calloc of a non-linear size')
            else:
                n = self.num(st, args[-1])
            out = []
            s = st.with_(L((1 << 63) - 1) - n)
            if s is not None:
                out.append(('ret', s, self.alloc(s, n, 'malloc', loc, name == 'calloc', align=self.known_align(args[0]) if name == 'aligned_alloc' else 16)))
            out.append(('ret', self.failed(st), NULL))
            return out
        if name == 'realloc' and isinstance(args[0], Ptr):
            n, out = self.num(st, args[1]), []
            s = st.with_(L((1 << 63) - 1) - n)
            if s is not None:
                q, old = self.alloc(s, n, 'malloc', loc), None
                if not is_null(args[0]):
                    old = s.R.get(args[0].r)
                    keep = s.copy()
                    self.release(keep, args[0], 'malloc', loc, 'reallocated')
                    k = n if s.ge0(old.size - n) else old.size
                    self.memcpy(s, q, args[0], k, loc)
                    self.release(s, args[0], s.R[args[0].r].free, loc)
                out.append(('ret', s, q))
            out.append(('ret', self.failed(st), NULL))
            return out
        if name in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], self.num(st, args[2]), loc, name == 'memmove')
            return [('ret', st, args[0])]
        if name == 'memset':
            self.memset(st, args[0], args[1], self.num(st, args[2]), loc)
            return [('ret', st, args[0])]
        if name == '__cxa_allocate_exception':
            rid = st.new_rid('exception')
            st.add_region(Region(rid, 'exception object', 'exc', self.num(st, args[0])))
            return [('ret', st, Ptr(rid, ZERO))]
        if name == '__cxa_free_exception':
            return [('ret', st, UNDEF)]
        if name == '__cxa_throw':
            e = args[0]
            st.R[e.r] = st.R[e.r].upd(attr=args[1].r if isinstance(args[1], Ptr) else '@?')
            return [('throw', st, e)]
        if name == '__cxa_begin_catch':
            st.at = dict(st.at)
            st.at[('caught',)] = st.at.get(('caught',), ()) + (args[0].r,)
            return [('ret', st, args[0])]
        if name == '__cxa_end_catch':
            st.at = dict(st.at)
            c = st.at.get(('caught',), ())
            st.at[('caught',)] = c[:-1]
            if not st.at[('caught',)]:
                del st.at[('caught',)]
            return [('ret', st, UNDEF)]
        if name == '__cxa_rethrow':
            c = st.at.get(('caught',), ())
            if not c:
                return [('term', st, UNDEF)]
            return [('throw', st, Ptr(c[-1], ZERO))]
        if name == '__cxa_bad_cast':
            return [self.thrown(st, '_ZTISt8bad_cast')]
        if name in ('__clang_call_terminate', '_ZSt9terminatev', 'abort', '__cxa_pure_virtual', 'exit', '_Exit'):
            return [('term', st, UNDEF)]
        if name == '_ZSt28__throw_bad_array_new_lengthv':
            return [self.thrown(st, '_ZTISt20bad_array_new_length')]
        if name == '_ZSt17__throw_bad_allocv':
            return [self.thrown(st, '_ZTISt9bad_alloc')]
        if name == '_ZSt20__throw_length_errorPKc':
            return [self.thrown(st, '_ZTISt12length_error')]
        if name == '_ZSt20__throw_out_of_rangePKc' or name == '_ZSt24__throw_out_of_range_fmtPKcz':
            return [self.thrown(st, '_ZTISt12out_of_range')]
        if name.startswith('_ZNSt12length_errorC') or name.startswith('_ZNSt12out_of_rangeC') or name.startswith('_ZNSt16invalid_argumentC') or name.startswith('_ZNSt11logic_errorC') or name.startswith('_ZNSt13runtime_errorC'):
            return [('ret', st, UNDEF)]
        if re.match(r'^_ZNSt\d+\w+D[012]Ev$', name) and 'exception' in dem or re.match(r'^_ZNSt(12length_error|12out_of_range|9bad_alloc|9exception)D', name):
            return [('ret', st, UNDEF)]
        if name == '_ZSt11_Hash_bytesPKvmm':
            n = self.num(st, args[1])
            items = [] if st.eq0(n) else self.src_items(st, It(Elem(1, False, False, 1)), args[0], n, loc, 'read of')
            items = [(l, v) for l, v in items if not st.eq0(l)]
            return [('ret', st, T(('hash', self.canon(items), args[2].key()), 64))]
        if name == '_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l':
            n = self.num(st, args[2], 'long')
            items = [] if st.eq0(n) else self.src_items(st, It(Elem(1, False, False, 1)), args[1], n, loc, 'read of')
            items = [(l, v) for l, v in items if not st.eq0(l)]
            st.ev = st.ev + (('ostream_insert', args[0].key(), self.canon(items)),)
            return [('ret', st, args[0])]
        if name == '_ZNSo5writeEPKcl':
            n = self.num(st, args[2], 'long')
            items = [] if st.eq0(n) else self.src_items(st, It(Elem(1, False, False, 1)), args[1], n, loc, 'read of')
            st.ev = st.ev + (('ostream_write', args[0].key(), self.canon([(l, v) for l, v in items if not st.eq0(l)])),)
            return [('ret', st, args[0])]
        if name in ('_ZNSo3putEc', '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c') and self.opt.get('extern') is None:
            st.ev = st.ev + (('ostream_put', args[0].key(), args[1].key()),)
            return [('ret', st, args[0])]
        if name == '_ZNSo5flushEv':
            return [('ret', st, args[0])]
        if name == '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc' and isinstance(args[0], Ptr):
            st.ev = st.ev + (('ostream_cstr', args[0].key(), args[1].key()),)
            return [('ret', st, args[0])]
        if name == '_Z9may_throwPKv':
            return [('ret', st, UNDEF), self.thrown(st.copy())]
        h = self.opt.get('extern')
        if h is not None:
            r = h(self, name, f, args, st, loc)
            if r is not None:
                return r
        raise Unknown('external function ' + dem[:100])

    def symfn(self, cal, args, st, loc):
        if cal.n.startswith('@dealloc'):
            self.release(st, args[0], cal, loc)
            return [('ret', st, UNDEF)]
        h = self.opt.get('symfn')
        if h is not None:
            r = h(self, cal, args, st, loc)
            if r is not None:
                return r
        raise Unknown('call through ' + cal.n)

    def opaque(self, m, f, args, st, loc):
        tag, es, what, par = int(m.group(1)), int(m.group(2)), m.group(3), m.group(4)
        throws = not f['nounwind']
        p = args[0]
        one = L(1)
        if self.opt.get('no_elements'):
            self.report(st, 'copied', 'a referenced element is copied, moved or destroyed (%s)' % f['dem'][:60], loc, fatal=True)
        if what == '~Opaque':
            self.e_destroy(st, p, es, one, loc)
            return [('ret', st, UNDEF)]
        mv = par.endswith('&&')
        if par == '':
            items = [(one, ('E', True, es, ('f', T(('default',), es * 8)), None))]
        elif par.startswith('Opaque'):
            items = self.e_ident(st, args[1], es, one, loc, 'move from' if mv else 'copy of')
        else:
            items = [(one, ('E', True, es, ('f', T(('ctor',) + tuple(self.argkey(st, a, q, loc) for a, q in zip(args[1:], split_params(f['dem']))), es * 8)), None))]
        out = []
        if throws:
            t = st.copy()
            if what == 'Opaque':
                b = self.rng(t, p, L(es), 'construction in', loc)
                self.writable(t, b[0], loc)
                self.life_check_raw(t, *b, loc)
            else:
                self.e_assign_probe(t, p, es, loc)
            out.append(self.thrown(t))
        if what == 'Opaque':
            if mv and args[1] == p:
                self.report(st, 'life', 'element constructed from itself', loc, fatal=True)
            self.e_construct(st, p, es, one, items, loc)
            if mv:
                self.e_moved(st, args[1], es, one)
            st_ev = ('construct', )
            return [('ret', st, UNDEF)] + out
        # assignment
        if p.r == args[1].r and st.eq0(p.o - args[1].o):
            self.e_assign_probe(st, p, es, loc)
            if mv:
                self.e_moved(st, p, es, one)
        else:
            if mv:
                self.e_moved(st, args[1], es, one)
            self.e_assign(st, p, es, one, items, loc)
        return [('ret', st, p)] + out

    def argkey(self, st, a, ty, loc):
        """value passed to a constructor: references are looked through when they designate scalars"""
        return a.key()

    def e_assign_probe(self, st, p, es, loc):
        b = self.rng(st, p, L(es), 'assignment to', loc)
        self.writable(st, b[0], loc)
        self.life_check_live(st, *b, 'assignment to', loc)

    def opaque_cmp(self, op, es, args, st, loc):
        el = Elem(es, True, True)
        x, y = self.one(st, el, args[0], loc), self.one(st, el, args[1], loc)
        r = self.rel_ident(st, x, y)
        v = {'==': r == 'eq', '!=': r != 'eq', '<': r == 'lt', '>': r == 'gt', '<=': r in ('lt', 'eq'), '>=': r in ('gt', 'eq')}[op]
        return [('ret', st, I(1, int(v)))]

    def rel_ident(self, st, x, y):
        if x == y:
            return 'eq'
        if isinstance(x, T) and isinstance(y, T) and x.t[0] == 'elt' and y.t[0] == 'elt' and self.opt.get('seqlen'):
            if self.opt['seqlen'](st, x.t[1]) is not None and self.opt['seqlen'](st, y.t[1]) is not None:
                st.fl = st.fl | {'elementwise comparison'}
        fl = repr(x) > repr(y)
        key = ('rel', min(repr(x), repr(y)), max(repr(x), repr(y)))
        r = st.at.get(key)
        if r is None:
            raise Split([('atom', key, 'lt'), ('atom', key, 'eq'), ('atom', key, 'gt')])
        return {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[r] if fl else r

    # -- intrinsics ------------------------------------------------------------------
    def intrinsic(self, n, args, st, loc, ins):
        if n.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.donothing', 'llvm.prefetch')):
            return [('ret', st, UNDEF)]
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            self.memcpy(st, args[0], args[1], self.num(st, args[2]), loc, 'memmove' in n or args[0] == args[1])
            return [('ret', st, UNDEF)]
        if n.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], self.num(st, args[2]), loc)
            return [('ret', st, UNDEF)]
        if n.startswith('llvm.eh.typeid.for'):
            a = args[0]
            return [('ret', st, I(32, self.typeid(a.r if isinstance(a, Ptr) and a.r != NULLR else None)))]
        if n.startswith('llvm.trap') or n.startswith('llvm.ubsantrap'):
            return [('term', st, UNDEF)]
        if n.startswith('llvm.expect'):
            return [('ret', st, args[0])]
        if n.startswith('llvm.is.constant'):
            return [('ret', st, I(1, 0))]
        m = re.match(r'^llvm\.(u|s)(min|max)\.i(\d+)$', n)
        if m:
            w = int(m.group(3))
            c = self.icmp(st, m.group(1) + ('lt' if m.group(2) == 'min' else 'gt'), args[0], args[1], 'i%d' % w)
            if isinstance(c, I):
                return [('ret', st, args[0] if c.e.c & 1 else args[1])]
            x, y = self.to_bv(args[0]), self.to_bv(args[1])
            return [('ret', st, self.simp(Bv([bdd.ite(c.b[0], p, q) for p, q in zip(x.b, y.b)])))]
        m = re.match(r'^llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)$', n)
        if m:
            w = int(m.group(3))
            nrm = st.norm_u if m.group(1) == 'u' else st.norm_s
            a, b = self.to_lin(st, args[0]), self.to_lin(st, args[1])
            if not isinstance(a, I) or not isinstance(b, I):
                raise Unknown(n)
            x, y = nrm(a.e, w), nrm(b.e, w)
            if m.group(2) == 'add':
                e = x + y
            elif m.group(2) == 'sub':
                e = x - y
            elif not y.t:
                e = x.mul(y.c)
            elif not x.t:
                e = y.mul(x.c)
            else:
                raise Unknown(n)
            lo, hi = (0, (1 << w) - 1) if m.group(1) == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            ov = not (st.ge0(e - lo) and st.ge0(L(hi) - e))
            return [('ret', st, Agg([I(w, e), I(1, int(ov))]))]
        m = re.match(r'^llvm\.ctpop\.i(\d+)$', n)
        if m:
            v = self.to_bv(args[0])
            if v is not None:
                acc = [bdd.F] * int(m.group(1))
                for b in v.b:
                    acc = bdd.add(acc, [b] + [bdd.F] * (len(acc) - 1))
                return [('ret', st, self.simp(Bv(acc)))]
        m = re.match(r'^llvm\.(fshl|fshr)\.i(\d+)$', n)
        raise Unknown('intrinsic ' + n)
