"""Abstract values, memory regions and abstract states."""
from lin import Lin, L, Poly, ZERO
import bdd

M64 = 1 << 64


class Split(Exception):
    """The current instruction needs the partition to be refined: the state is split into
    the given refinements and the instruction is interpreted again on each of them."""
    def __init__(self, refs):
        self.refs = refs


class Dead(Exception):
    """state became empty"""


class Kill(Exception):
    """abstract execution cannot continue behind a definite error (already reported)"""


class Unknown(Exception):
    """the analysis gives up on this partition (never a violation)"""


# ---- values ---------------------------------------------------------------
class Val:
    __slots__ = ()

    def __eq__(self, o):
        return isinstance(o, Val) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class I(Val):
    __slots__ = ('w', 'e')

    def __init__(self, w, e):
        self.w = w
        self.e = e if isinstance(e, Lin) else L(e)

    def key(self):
        return ('I', self.w, self.e)

    def __repr__(self):
        return 'i%d:%s' % (self.w, self.e)


class Ptr(Val):
    __slots__ = ('r', 'o')

    def __init__(self, r, o=ZERO):
        self.r = r
        self.o = o if isinstance(o, Lin) else L(o)

    def key(self):
        return ('P', self.r, self.o)

    def __repr__(self):
        return '&%s+%s' % (self.r, self.o)


class Fn(Val):
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def key(self):
        return ('F', self.n)

    def __repr__(self):
        return 'fn:' + self.n


class Undef(Val):
    __slots__ = ()

    def key(self):
        return ('U',)

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Bv(Val):
    """bit vector of boolean functions, bits[0] least significant"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = tuple(b)

    @property
    def w(self):
        return len(self.b)

    def key(self):
        return ('B', self.b)

    def __repr__(self):
        return 'bv%d' % len(self.b)


class T(Val):
    """uninterpreted term"""
    __slots__ = ('t', 'w')

    def __init__(self, t, w):
        self.t = t
        self.w = w

    def key(self):
        return ('T', self.t, self.w)

    def __repr__(self):
        return 'term%s' % (self.t,)


class Agg(Val):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def key(self):
        return ('A', tuple(x.key() for x in self.v))

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self.v))


NULLR = 0
NULL = Ptr(NULLR, ZERO)


def is_null(v):
    return isinstance(v, Ptr) and v.r == NULLR and v.o == ZERO


# ---- segments ---------------------------------------------------------------
# value forms
#   ('raw',)                       uninitialised storage
#   ('zero',)                      zero bytes (calloc / memset 0)
#   ('sc', value, size)            scalar, segment is exactly `size` bytes
#   ('part', value, k)             k-th byte.. of a scalar cut in pieces (width of the segment)
#   ('E', live, es, src, start)    sequence: element i is src[start+i]; src=('f', ident) means all equal
#   ('MV', es)                     living but moved-from objects
RAW = ('raw',)
ZEROV = ('zero',)


class Region:
    __slots__ = ('rid', 'name', 'kind', 'size', 'segs', 'alive', 'free', 'align', 'ro', 'attr')

    def __init__(self, rid, name, kind, size, segs=None, alive=True, free=None, align=16, ro=False, attr=None):
        self.rid = rid
        self.name = name
        self.kind = kind
        self.size = size if isinstance(size, Lin) else L(size)
        self.segs = segs if segs is not None else ((ZERO, self.size, RAW),)
        self.alive = alive
        self.free = free
        self.align = align
        self.ro = ro
        self.attr = attr

    def upd(self, **kw):
        r = Region(self.rid, self.name, self.kind, self.size, self.segs, self.alive, self.free, self.align, self.ro, self.attr)
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    def key(self):
        return (self.rid, self.kind, self.size, tuple((a, b, seg_key(v)) for a, b, v in self.segs), self.alive, self.free.key() if hasattr(self.free, 'key') else self.free)


def seg_key(v):
    if v[0] in ('sc', 'part'):
        return (v[0], v[1].key(), v[2])
    return v


class State:
    __slots__ = ('P', 'R', 'ev', 'at', 'pc', 'fl', 'n')

    def __init__(self):
        self.P = Poly()
        self.R = {}
        self.ev = ()
        self.at = {}        # atoms: assumptions about uninterpreted terms
        self.pc = bdd.T
        self.fl = frozenset()
        self.n = 0

    def copy(self):
        s = State.__new__(State)
        s.P = self.P
        s.R = dict(self.R)
        s.ev = self.ev
        s.at = self.at
        s.pc = self.pc
        s.fl = self.fl
        s.n = self.n
        return s

    def fresh(self, p='t'):
        self.n += 1
        return '%s#%d' % (p, self.n)

    # -- partition refinement ---------------------------------------------
    def with_(self, *es):
        """refined copy or None"""
        p = self.P.add(*es)
        if p is None or not p.feasible():
            return None
        s = self.copy()
        s.P = p
        return s

    def ge0(self, e):
        """decide e >= 0, splitting the partition when it is not determined"""
        if not e.t:
            return e.c >= 0
        if self.P.entails(e):
            return True
        if self.P.entails(-e - 1):
            return False
        raise Split([('ge', e), ('ge', -e - 1)])

    def eq0(self, e):
        if not e.t:
            return e.c == 0
        if self.P.entails(e):
            if self.P.entails(-e):
                return True
            if self.P.entails(e - 1):
                return False
            raise Split([('eq', e), ('ge', e - 1)])
        if self.P.entails(-e):
            if self.P.entails(-e - 1):
                return False
            raise Split([('eq', e), ('ge', -e - 1)])
        raise Split([('ge', e - 1), ('eq', e), ('ge', -e - 1)])

    def refine(self, ref):
        k = ref[0]
        if k == 'ge':
            return self.with_(ref[1])
        if k == 'eq':
            return self.with_(ref[1], -ref[1])
        if k == 'pc':
            p = bdd.AND(self.pc, ref[1])
            if p == bdd.F:
                return None
            s = self.copy()
            s.pc = p
            return s
        if k == 'atom':
            s = self.copy()
            s.at = dict(self.at)
            s.at[ref[1]] = ref[2]
            if len(ref) > 3:
                s.fl = s.fl | {ref[3]}
            return s
        if k == 'and':
            s = self
            for r in ref[1]:
                s = s.refine(r)
                if s is None:
                    return None
            return s
        raise AssertionError(k)

    def assume(self, *es):
        p = self.P.add(*es)
        if p is None or not p.feasible():
            raise Dead()
        self.P = p

    # -- machine integers -------------------------------------------------
    def norm_u(self, e, w=64):
        """representative of e mod 2^w in [0, 2^w)"""
        m = 1 << w
        if not e.t:
            return Lin.const(e.c % m)
        if self.P.entails(e) and self.P.entails(L(m - 1) - e):
            return e
        for k in (1, -1, 2, -2):
            f = e + k * m
            if self.P.entails(f) and self.P.entails(L(m - 1) - f):
                if k < 0 and w == 64 and ('wrap',) not in self.at:
                    self.at = dict(self.at)
                    self.at[('wrap',)] = True           # a sum exceeded the range of size_t
                return f
        # undetermined number of wraps: partition on it (numbers wrap at most a few times)
        lo = hi = None
        for k in range(0, 5):
            if self.P.entails(e + k * m):
                lo = -k
                break
        for k in range(1, 6):
            if self.P.entails(L(k * m - 1) - e):
                hi = k - 1
                break
        if lo is None or hi is None:
            return self.reduced(e, m)
        raise Split([('and', [('ge', e - k * m), ('ge', L((k + 1) * m - 1) - e)]) for k in range(lo, hi + 1)])

    def reduced(self, e, m):
        """e mod m for a number that may be many times too large (a narrowing conversion): e - m*q for a new integer symbol q"""
        k = ('mod', e, m)
        if k in self.at:
            return self.at[k]
        if not self.P.entails(e - m):
            if not self.P.entails(e):
                raise Unknown('integer range')
            raise Split([('ge', L(m - 1) - e), ('ge', e - m)])
        self.n += 1
        q = L('wraps%d' % self.n)
        r = e - q.mul(m)
        self.assume(q - 1, r, L(m - 1) - r)
        self.at = dict(self.at)
        self.at[k] = r
        if m > 1 << 32:
            self.at[('wrap',)] = True
        return r

    def norm_s(self, e, w=64):
        h = 1 << (w - 1)
        return self.norm_u(e + h, w) - h

    # -- regions ------------------------------------------------------------
    def region(self, rid):
        return self.R.get(rid)

    def add_region(self, r):
        self.R[r.rid] = r

    def new_rid(self, name):
        self.n += 1
        return '%s#%d' % (name, self.n)

    def key(self):
        return (self.P.cs, tuple(sorted((str(k), r.key()) for k, r in self.R.items())), self.ev, tuple(sorted(map(repr, self.at.items()))), self.fl)
