"""Memory operations on abstract states: segmented regions with symbolic boundaries."""
from lin import Lin, L, ZERO
from dom import *
import bdd


class MemMixin:
    # -- lookup ---------------------------------------------------------------
    def reg(self, st, p, what, loc):
        """region of a pointer about to be dereferenced"""
        if isinstance(p, Undef):
            self.report(st, 'uninit', '%s through an uninitialised pointer' % what, loc, fatal=True)
        if isinstance(p, Fn):
            self.report(st, 'oob', '%s through a function pointer' % what, loc, fatal=True)
        if isinstance(p, T) or isinstance(p, I):
            raise Unknown('%s through an untracked pointer' % what)
        if p.r == NULLR:
            self.report(st, 'oob', '%s through a null pointer' % what, loc, fatal=True)
        r = st.R.get(p.r)
        if r is None:
            self.report(st, 'uaf', '%s an object whose lifetime has ended (%s)' % (what, p.r), loc, fatal=True)
        if not r.alive:
            self.report(st, 'uaf', '%s memory already released (%s)' % (what, r.name), loc, fatal=True)
        return r

    def bounds(self, st, r, lo, hi, what, loc):
        """obligation 0 <= lo, hi <= size.  lo,hi as offsets; refines the state afterwards"""
        self.obl('bounds', loc)
        for e in (lo, r.size - hi):
            if not st.P.entails(e):
                s = st.with_(-e - 1)
                if s is None:
                    continue
                self.report(s, 'oob', '%s outside of %s: bytes [%s, %s) of %s' % (what, r.name, lo, hi, r.size), loc)
                st.assume(e)

    # -- segments ---------------------------------------------------------------
    def clean(self, st, segs):
        return tuple(s for s in segs if not (s[0] == s[1] or (not (s[1] - s[0]).t and (s[1] - s[0]).c == 0)))

    def cut(self, st, r, off):
        """segments of r with a boundary at off; returns (segs, index of first segment at or behind off)"""
        segs = list(r.segs)
        for i, (lo, hi, v) in enumerate(segs):
            if lo == off:
                # skip possibly preceding empty ones; fine as boundaries coincide
                return segs, i
        if segs and segs[-1][1] == off:
            return segs, len(segs)
        i = 0
        while i < len(segs):
            lo, hi, v = segs[i]
            if st.ge0(off - hi):
                i += 1
                continue
            if st.eq0(off - lo):
                return segs, i
            a, b = self.cutseg(st, (lo, hi, v), off)
            segs[i:i + 1] = [a, b]
            return segs, i + 1
        return segs, len(segs)

    def cutseg(self, st, seg, off):
        lo, hi, v = seg
        k = v[0]
        if k in ('raw', 'zero', 'MV', 'junk'):
            return (lo, off, v), (off, hi, v)
        if k == 'E':
            _, live, es, src, start = v
            if not live and es > 1 and st.eq0(hi - lo - es):
                x = self.ident(v, ZERO, es)          # an object without special members is its bytes
                return self.cutseg(st, (lo, hi, ('sc', x, es)), off)
            if src[0] == 'f':
                return (lo, off, v), (off, hi, v)
            d = (off - lo).div_exact(es)
            if d is None:
                d = off - lo
                if live and not any(c % es for _, c in d.t) and d.c % es:
                    self.report(st, 'life', 'access to a part of a living element', fatal=True)
                raise Unknown('access inside of an element')
            return (lo, off, v), (off, hi, ('E', live, es, src, start + d))
        if k in ('sc', 'part'):
            d = off - lo
            w = hi - lo
            if d.t or w.t:
                return (lo, off, ('junk',)), (off, hi, ('junk',))      # left over bytes, never readable again
            k0 = v[2] if k == 'part' else 0
            return (lo, off, ('part', v[1], k0)), (off, hi, ('part', v[1], k0 + d.c))
        raise Unknown('cut ' + k)

    def get_range(self, st, r, lo, hi):
        segs, i = self.cut(st, r, lo)
        r2 = r.upd(segs=tuple(segs))
        segs, j = self.cut(st, r2, hi)
        # index i may have shifted only behind lo, so it stays valid
        return segs, i, j

    def read_segs(self, st, r, lo, hi):
        """list of (length, value) covering [lo, hi)"""
        if lo == hi:
            return []
        segs, i, j = self.get_range(st, r, lo, hi)
        return [(b - a, v) for a, b, v in segs[i:j] if a != b]

    def write_segs(self, st, rid, lo, hi, items):
        """replace [lo, hi) by items [(length, value)]"""
        r = st.R[rid]
        if lo == hi:
            return
        segs, i, j = self.get_range(st, r, lo, hi)
        new = []
        p = lo
        for ln, v in items:
            new.append((p, p + ln, v))
            p = p + ln
        if new:
            # keep the outer boundary expression identical to hi
            a, b, v = new[-1]
            new[-1] = (a, hi, v)
        segs = self.merge_adjacent(segs[:i] + new + segs[j:])
        st.R[rid] = r.upd(segs=tuple(s for s in segs if s[0] != s[1]))

    def merge_adjacent(self, segs):
        out = []
        for s in segs:
            if s[0] == s[1]:
                continue
            if out:
                a, b, v = out[-1]
                c, d, w = s
                if b == c and v == w and v[0] in ('raw', 'zero', 'MV'):
                    out[-1] = (a, d, v)
                    continue
                if b == c and v[0] == 'E' and w[0] == 'E' and v[1] == w[1] and v[2] == w[2] and v[3] == w[3]:
                    if v[3][0] == 'f' or (b - a).div_exact(v[2]) is not None and v[4] + (b - a).div_exact(v[2]) == w[4]:
                        out[-1] = (a, d, v)
                        continue
                if b == c and v[0] == 'part' and w[0] == 'part' and v[1] == w[1] and not (b - a).t and v[2] + (b - a).c == w[2]:
                    nb = d - a
                    if not nb.t and v[2] == 0 and nb.c * 8 == width(v[1]):
                        out[-1] = (a, d, ('sc', v[1], nb.c))
                        continue
                    out[-1] = (a, d, v)
                    continue
            out.append(s)
        return out

    # -- scalar access --------------------------------------------------------
    def writable(self, st, r, loc):
        if r.ro:
            self.report(st, 'constwrite', 'write to %s, which the operation may only read' % r.name, loc, fatal=False)

    def load(self, st, p, size, ty, loc):
        r = self.reg(st, p, 'read of', loc)
        if r.kind == 'global' and p.o.t and self.opt.get('bits') and all(s.startswith('b!') for s in p.o.syms()) and not isinstance(ty, list):
            return self.table_bits(st, r, p.o, size, ty, loc)
        self.bounds(st, r, p.o, p.o + size, 'read', loc)
        if r.kind == 'global' and not (r.attr or {}).get('const'):
            self.report(st, 'global', 'read of mutable global %s' % r.name, loc, fatal=False)
        o = p.o
        if isinstance(ty, list):
            return self.load_agg(st, p, ty, loc)
        w = size * 8 if ty == 'ptr' else int(ty[1:]) if ty[0] == 'i' else size * 8
        if r.kind == 'global' and o.t:
            return self.table_lookup(st, r, o, size, ty, loc)
        items = self.read_segs(st, r, o, o + size)
        return self.assemble(st, items, size, w, ty, loc, r)

    def assemble(self, st, items, size, w, ty, loc, r=None):
        items = [(l, v) for l, v in items if not (not l.t and l.c == 0)]
        if len(items) > 1:
            # possibly empty pieces
            items = [(l, v) for l, v in items if not st.eq0(l)]
        if len(items) == 1:
            v = items[0][1]
            k = v[0]
            if k == 'sc' and v[2] == size:
                return self.retype(st, v[1], w, ty)
            if k == 'raw':
                return UNDEF
            if k == 'zero':
                return NULL if ty == 'ptr' else I(w, 0)
            if k == 'E':
                if v[1]:
                    raise Unknown('bytes of a living element read')
                if v[2] == size:
                    if v[3][0] == 'f':
                        return self.retype(st, v[3][1], w, ty)
                    return self.elt(st, v[3], v[4], w)
            if k == 'part':
                return self.part(st, v[1], v[2], size, w, ty)
            raise Unknown('load of %s' % (k,))
        bits = []
        for l, v in items:
            if l.t:
                raise Unknown('load across symbolic boundary')
            n = l.c
            if v[0] == 'raw':
                return UNDEF
            if v[0] == 'zero':
                bits += [bdd.F] * (8 * n)
                continue
            if v[0] == 'sc':
                x = v[1]
            elif v[0] == 'part':
                x = self.part(st, v[1], v[2], n, 8 * n, 'i%d' % (8 * n))
            else:
                raise Unknown('mixed load')
            b = self.to_bv(x)
            if b is None:
                if isinstance(x, Undef):
                    return UNDEF
                raise Unknown('mixed load')
            bits += b.b
        if len(bits) != w:
            raise Unknown('mixed load')
        return self.simp(Bv(bits))

    def elt(self, st, src, idx, w):
        return T(('elt', src, idx), w)

    def part(self, st, v, k, n, w, ty):
        if isinstance(v, Undef):
            return UNDEF
        if isinstance(v, I) and not v.e.t:
            x = ((v.e.c % (1 << v.w)) >> (8 * k)) & ((1 << (8 * n)) - 1)
            return NULL if ty == 'ptr' and x == 0 else I(w, x)
        if isinstance(v, Bv):
            return self.simp(Bv(v.b[8 * k:8 * k + 8 * n]))
        if is_null(v):
            return I(w, 0)
        return T(('part', v.key(), k, n), w)

    def retype(self, st, v, w, ty):
        if ty == 'ptr':
            if isinstance(v, I):
                return self.inttoptr(st, v)
            return v
        if isinstance(v, Ptr):
            return self.ptrtoint(v, w)
        if isinstance(v, I) and v.w != w:
            return I(w, v.e)
        if ty in ('i1',) and isinstance(v, Bv):
            return Bv(v.b[:1])
        return v

    def load_agg(self, st, p, ty, loc):
        if ty[0] == 's':
            return Agg([self.load(st, Ptr(p.r, p.o + off), self.tysize(t), t, loc) for off, t in ty[1]])
        if ty[0] == 'a':
            return Agg([self.load(st, Ptr(p.r, p.o + i * ty[3]), self.tysize(ty[2]), ty[2], loc) for i in range(ty[1])])
        raise Unknown('aggregate load')

    def tysize(self, t):
        if isinstance(t, list):
            if t[0] == 's':
                return t[2]
            return t[1] * t[3]
        if t == 'ptr' or t == 'double':
            return 8
        if t == 'float':
            return 4
        if t == 'fp80':
            return 16
        return (int(t[1:]) + 7) // 8

    def store(self, st, p, size, v, ty, loc):
        r = self.reg(st, p, 'write to', loc)
        self.bounds(st, r, p.o, p.o + size, 'write', loc)
        self.writable(st, r, loc)
        if r.kind == 'global':
            self.report(st, 'global', 'write to global %s' % r.name, loc, fatal=False)
        if isinstance(v, Agg):
            offs = [(off, t) for off, t in ty[1]] if ty[0] == 's' else [(i * ty[3], ty[2]) for i in range(ty[1])]
            for (off, t), x in zip(offs, v.v):
                self.store(st, Ptr(p.r, p.o + off), self.tysize(t), x, t, loc)
            return
        if isinstance(ty, list):
            if isinstance(v, Undef):
                self.put(st, p, L(size), [(L(size), RAW)], loc)
                return
            raise Unknown('aggregate store')
        if isinstance(v, I) and v.w < size * 8:
            v = I(size * 8, st.norm_u(v.e, v.w))
        if isinstance(v, Bv) and v.w < size * 8:
            v = Bv(v.b + (bdd.F,) * (size * 8 - v.w))
        self.put(st, p, L(size), [(L(size), RAW if isinstance(v, Undef) else ('sc', v, size))], loc)

    def put(self, st, p, n, items, loc):
        """raw overwrite of [p, p+n); overwriting living elements is reported"""
        r = st.R[p.r]
        for l, v in self.read_segs(st, r, p.o, p.o + n):
            if v[0] in ('MV',) or (v[0] == 'E' and v[1]):
                if st.P.eq0(l):
                    continue
                if st.ge0(l - 1):
                    self.report(st, 'life', 'bytes of living elements in %s overwritten' % r.name, loc, fatal=True)
        self.write_segs(st, p.r, p.o, p.o + n, items)

    def table_bits(self, st, r, o, size, ty, loc):
        """table indexed by a bit vector: the result as Boolean functions of the index bits"""
        o = [(int(s[2:]), c) for s, c in o.t] + [o.c]
        if len(o) > 12:
            raise Unknown('table lookup')
        out = [bdd.F] * (8 * size)

        def go(i, off, cond):
            if bdd.AND(cond, st.pc) == bdd.F:
                return
            if i < len(o) - 1:
                f, c = o[i]
                go(i + 1, off + c, bdd.AND(cond, f))
                go(i + 1, off, bdd.AND(cond, bdd.NOT(f)))
                return
            s = st
            if not 0 <= off <= r.size.c - size:
                s = st.refine(('pc', cond))
            v = self.to_bv(self.load(s, Ptr(r.rid, L(off)), size, ty, loc))
            if v is None:
                raise Unknown('table of non-integers')
            for k, b in enumerate(v.b):
                out[k] = bdd.OR(out[k], bdd.AND(b, cond))
        go(0, o[-1], bdd.T)
        return self.simp(Bv(out))

    def table_lookup(self, st, r, o, size, ty, loc):
        """constant table indexed by a symbolic value"""
        n = (r.size.c) // size
        ix = o.div_exact(size)
        if ix is None or n > 64:
            raise Unknown('table lookup')
        for i in range(n):
            if st.eq0(ix - i):
                return self.load(st, Ptr(r.rid, L(i * size)), size, ty, loc)
        raise Dead()

    def bitsym(self, st, f):
        if f == bdd.T:
            return L(1)
        if f == bdd.F:
            return ZERO
        s = 'b!%d' % f
        e = L(s)
        st.P = st.P.add(e, L(1) - e)
        return e

    # -- block operations -----------------------------------------------------
    def rng(self, st, p, n, what, loc):
        """(region, lo, hi) of [p, p+n) bytes, None when empty"""
        if not n.t and n.c == 0:
            return None
        if isinstance(p, Ptr) and (p.r == NULLR or p.r not in st.R):
            if st.eq0(n):
                return None
        elif not isinstance(p, Ptr):
            if st.eq0(n):
                return None
        if not st.P.entails(n):
            s = st.with_(-n - 1)
            if s is not None:
                self.report(s, 'oob', '%s of a negative or wrapped-around amount (%s bytes)' % (what, n), loc)
            st.assume(n)
        r = self.reg(st, p, what, loc)
        self.bounds(st, r, p.o, p.o + n, what, loc)
        return (r, p.o, p.o + n)

    def memcpy(self, st, d, s, n, loc, overlap_ok=False):
        a = self.rng(st, s, n, 'read of', loc)
        b = self.rng(st, d, n, 'write to', loc)
        if a is None or b is None:
            return
        items = self.read_segs(st, *a)
        if not overlap_ok and s.r == d.r and not (s.o == d.o):
            if not (st.ge0(d.o - s.o - n) or st.ge0(s.o - d.o - n)):
                if st.ge0(n - 1):
                    self.report(st, 'overlap', 'copy between overlapping ranges of %s' % a[0].name, loc, fatal=True)
        for l, v in items:
            if v[0] == 'MV' or (v[0] == 'E' and v[1]):
                if st.ge0(l - 1):
                    self.report(st, 'life', 'living elements of %s copied bytewise' % a[0].name, loc, fatal=True)
        self.writable(st, b[0], loc)
        self.put(st, d, n, items, loc)

    def memset(self, st, d, v, n, loc):
        b = self.rng(st, d, n, 'write to', loc)
        if b is None:
            return
        self.writable(st, b[0], loc)
        if isinstance(v, I) and not v.e.t and v.e.c % 256 == 0 and not self.opt.get('bits'):
            self.put(st, d, n, [(n, ZEROV)], loc)
        elif not n.t and n.c <= 64:
            self.put(st, d, n, [(L(1), ('sc', v, 1))] * n.c, loc)
        else:
            self.put(st, d, n, [(n, ('E', False, 1, ('f', v), None))], loc)

    # -- heap -------------------------------------------------------------------
    def alloc(self, st, n, fam, loc, zero=False, name='buffer', align=16):
        rid = st.new_rid(name)
        st.add_region(Region(rid, name + ' allocated at ' + self.locs(loc), 'heap', n, ((ZERO, n, ZEROV if zero else RAW),), True, fam, align))
        return Ptr(rid, ZERO)

    def release(self, st, p, how, loc, verb='released'):
        self.obl('release', loc)
        if is_null(p):
            return
        if not isinstance(p, Ptr):
            raise Unknown('release of untracked pointer')
        r = st.R.get(p.r)
        if r is None or r.kind != 'heap':
            self.report(st, 'dealloc', 'release of %s, which is no dynamically allocated buffer' % (r.name if r else p), loc, fatal=True)
        if not r.alive:
            self.report(st, 'dealloc', '%s released twice' % r.name, loc, fatal=True)
        if not st.P.eq0(p.o):
            self.report(st, 'dealloc', 'release of a pointer into the middle of %s' % r.name, loc, fatal=True)
        if r.free != how:
            self.report(st, 'dealloc', '%s %s through %s, but it has to be released through %s' % (r.name, verb, 'realloc' if verb != 'released' else self.hows(how), self.hows(r.free)), loc, fatal=False)
        for a, b, v in r.segs:
            if v[0] == 'MV' or (v[0] == 'E' and v[1]):
                if st.ge0(b - a - 1):
                    self.report(st, 'life', '%s released while elements in it are still alive' % r.name, loc, fatal=False)
        st.R[p.r] = r.upd(alive=False)

    def hows(self, h):
        if isinstance(h, Fn):
            return 'the release function recorded by ' + h.n.split(':')[-1] if h.n.startswith('@') else h.n
        return h

    # -- elements with a lifetime -------------------------------------------------
    def life_check_raw(self, st, r, lo, hi, loc):
        self.obl('construct', loc)
        for l, v in self.read_segs(st, r, lo, hi):
            if v[0] == 'MV' or (v[0] == 'E' and v[1]):
                if st.ge0(l - 1):
                    self.report(st, 'life', 'element constructed over a living element of %s' % r.name, loc, fatal=True)

    def life_check_live(self, st, r, lo, hi, what, loc):
        self.obl('alive', loc)
        out = []
        for l, v in self.read_segs(st, r, lo, hi):
            if v[0] == 'MV' or (v[0] == 'E' and v[1]):
                out.append((l, v))
            elif st.ge0(l - 1):
                self.report(st, 'life', '%s storage of %s that holds no living element' % (what, r.name), loc, fatal=True)
        return out

    def e_construct(self, st, p, es, n, items, loc):
        """begin the lifetime of n elements at p with the given identities"""
        nb = n.mul(es)
        b = self.rng(st, p, nb, 'construction in', loc)
        if b is None:
            return
        r, lo, hi = b
        self.writable(st, r, loc)
        self.obl('align', loc)
        if r.align < self.cur_align and r.kind == 'heap':
            self.report(st, 'align', 'element constructed in %s, which guarantees too small an alignment' % r.name, loc, fatal=False)
        self.life_check_raw(st, r, lo, hi, loc)
        self.write_segs(st, p.r, lo, hi, [(l.mul(es), v) for l, v in items])

    def e_ident(self, st, p, es, n, loc, what='read of'):
        """identities of n living elements at p as [(count, value)]"""
        nb = n.mul(es)
        b = self.rng(st, p, nb, what, loc)
        if b is None:
            return []
        out = []
        for l, v in self.life_check_live(st, b[0], b[1], b[2], what, loc):
            c = l.div_exact(es)
            if c is None:
                raise Unknown('element size')
            if v[0] == 'MV':
                if st.ge0(l - 1):
                    out.append((c, ('E', True, es, ('f', 'moved'), None)))
                continue
            out.append((c, v))
        return out

    def e_moved(self, st, p, es, n):
        if isinstance(p, Ptr) and p.r != NULLR and p.r in st.R:
            self.write_segs(st, p.r, p.o, p.o + n.mul(es), [(n.mul(es), ('MV', es))])

    def e_destroy(self, st, p, es, n, loc):
        b = self.rng(st, p, n.mul(es), 'destruction in', loc)
        if b is None:
            return
        r, lo, hi = b
        self.writable(st, r, loc)
        self.life_check_live(st, r, lo, hi, 'destruction in', loc)
        self.write_segs(st, p.r, lo, hi, [(hi - lo, RAW)])

    def e_assign(self, st, p, es, n, items, loc):
        b = self.rng(st, p, n.mul(es), 'assignment to', loc)
        if b is None:
            return
        r, lo, hi = b
        self.writable(st, r, loc)
        self.life_check_live(st, r, lo, hi, 'assignment to', loc)
        self.write_segs(st, p.r, lo, hi, [(l.mul(es), v) for l, v in items])


def width(v):
    if isinstance(v, I):
        return v.w
    if isinstance(v, Bv):
        return v.w
    if isinstance(v, T):
        return v.w
    return 64
