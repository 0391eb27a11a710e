"""Boolean functions over named bits (reduced ordered decision diagrams), hash-consed."""

F, T = 0, 1
_nodes = [None, None]       # id -> (var, lo, hi)
_uniq = {}
_vars = {}
_names = []
_ite = {}


def var(name):
    if name not in _vars:
        _vars[name] = len(_names)
        _names.append(name)
    return _mk(_vars[name], F, T)


def _mk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    r = _uniq.get(k)
    if r is None:
        r = len(_nodes)
        _nodes.append(k)
        _uniq[k] = r
    return r


def ite(f, g, h):
    if f == T:
        return g
    if f == F:
        return h
    if g == h:
        return g
    if g == T and h == F:
        return f
    k = (f, g, h)
    r = _ite.get(k)
    if r is not None:
        return r
    v = min(_nodes[x][0] for x in (f, g, h) if x > 1)

    def cof(x, b):
        if x > 1 and _nodes[x][0] == v:
            return _nodes[x][2] if b else _nodes[x][1]
        return x
    r = _mk(v, ite(cof(f, 0), cof(g, 0), cof(h, 0)), ite(cof(f, 1), cof(g, 1), cof(h, 1)))
    _ite[k] = r
    return r


def NOT(f):
    return ite(f, F, T)


def AND(f, g):
    return ite(f, g, F)


def OR(f, g):
    return ite(f, T, g)


def XOR(f, g):
    return ite(f, NOT(g), g)


def EQV(f, g):
    return ite(f, g, NOT(g))


def sat(f):
    """a satisfying assignment {name: bit} or None"""
    if f == F:
        return None
    out = {}
    while f != T:
        v, lo, hi = _nodes[f]
        if hi != F:
            out[_names[v]] = 1
            f = hi
        else:
            out[_names[v]] = 0
            f = lo
    return out


def support(f):
    seen, st, out = set(), [f], set()
    while st:
        x = st.pop()
        if x <= 1 or x in seen:
            continue
        seen.add(x)
        v, lo, hi = _nodes[x]
        out.add(_names[v])
        st += [lo, hi]
    return out


def evaluate(f, m):
    while f > 1:
        v, lo, hi = _nodes[f]
        f = hi if m.get(_names[v], 0) else lo
    return f


def is_var(f):
    """name if f is a plain positive literal"""
    if f > 1:
        v, lo, hi = _nodes[f]
        if lo == F and hi == T:
            return _names[v]
    return None


def add(x, y, c=F):
    """ripple-carry sum (plus carry c) of two equally long bit lists (modulo 2^len)"""
    out = []
    for p, q in zip(x, y):
        d = XOR(p, q)
        out.append(XOR(d, c))
        c = OR(AND(p, q), AND(c, d))
    return out
