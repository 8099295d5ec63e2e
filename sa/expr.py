"""Normalising value-graph domain.

A value is a decision diagram (MTBDD) over three-way sign tests of polynomials
whose leaves are polynomials over interned atoms.  Everything is hash-consed, so
two values with the same normal form are the same object.
"""
import math
from fractions import Fraction
from functools import reduce

INF = math.inf
PI = math.pi
LEAF_CAP = 96
TERM_CAP = 220


def _rc(c):
    """snap a float coefficient"""
    if isinstance(c, (int,)):
        return float(c)
    if c != c:
        return c
    r = round(c)
    if abs(c - r) < 1e-13 * max(1.0, abs(c)):
        return float(r)
    return float(c)


def _kc(c):
    if c != c or c in (INF, -INF):
        return repr(c)
    return float("%.10g" % c)


# --------------------------------------------------------------------------- atoms
_RD = [0]     # printing depth


class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "isint", "rel", "unit")

    def __repr__(self):
        if _RD[0] >= 5:
            return "#%d" % self.id
        _RD[0] += 1
        try:
            return self._repr()
        finally:
            _RD[0] -= 1

    def _repr(self):
        if self.kind in ("sym", "ld"):
            iv = self.args[1] if self.kind == "ld" else ()
            return "%s%s" % (self.args[0], list(iv) if iv else "")
        return "%s(%s)" % (self.kind if self.kind != "fn" else self.args[0],
                           ",".join(map(repr, self.args if self.kind != "fn" else self.args[1:])))


_ATOMS = {}
_ALL_ATOMS = []


def _akey(x):
    if isinstance(x, (Poly, Node)):
        return ("#", x.id, isinstance(x, Poly))
    if isinstance(x, Atom):
        return ("@", x.id)
    if isinstance(x, float):
        return _kc(x)
    if isinstance(x, (tuple, list)):
        return tuple(_akey(y) for y in x)
    return x


def atom(kind, *args, lo=-INF, hi=INF, isint=False, unit=None):
    key = (kind,) + tuple(_akey(a) for a in args)
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.id = len(_ALL_ATOMS)
        a.kind = kind
        a.args = args
        a.lo, a.hi, a.isint = lo, hi, isint
        a.rel = None      # poly equal to atom**2
        a.unit = unit
        _ATOMS[key] = a
        _ALL_ATOMS.append(a)
    return a


# --------------------------------------------------------------------------- polys
class Poly:
    __slots__ = ("id", "terms", "_rng")

    def __repr__(self):
        if not self.terms:
            return "0"
        out = []
        if _RD[0] >= 3 and len(self.terms) > 6:
            return "poly#%d" % self.id
        for m, c in self.terms[:40]:
            s = "*".join(
                (repr(a) if e == 1 else "%r^%s" % (a, e)) for a, e in m) or "1"
            out.append(s if c == 1 and m else ("%.6g" % c if not m else "%.6g*%s" % (c, s)))
        return " + ".join(out)

    @property
    def const(self):
        if not self.terms:
            return 0.0
        if len(self.terms) == 1 and not self.terms[0][0]:
            return self.terms[0][1]
        return None


_POLYS = {}
_POLY_BY_ID = []


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def mkpoly(d):
    """d: dict mono -> coef, already reduced"""
    scale = max((abs(c) for c in d.values()), default=0.0)
    items = []
    for m, c in d.items():
        c = _rc(c)
        if c == 0 or (scale and abs(c) < 1e-14 * scale):
            continue
        items.append((m, c))
    items.sort(key=lambda mc: _mkey(mc[0]))
    key = tuple((_mkey(m), _kc(c)) for m, c in items)
    p = _POLYS.get(key)
    if p is None:
        p = Poly()
        p.id = len(_POLY_BY_ID)
        p.terms = tuple(items)
        p._rng = None
        _POLYS[key] = p
        _POLY_BY_ID.append(p)
    return p


def pconst(c):
    c = float(c)
    if c != c or c in (INF, -INF):
        return patom(atom("lit", repr(c)))
    return mkpoly({(): c}) if c else mkpoly({})


def patom(a, e=1):
    return mkpoly({((a, e),): 1.0})


LD_SPEC = {}   # input name -> callable(index tuple) -> dict(lo, hi, isint, unit, rel)


def ld(name, ix):
    """element of a named input at index tuple ix (index variables / nodes / ints)"""
    sp = LD_SPEC.get(name)
    d = sp(ix) if sp is not None else {}
    a = atom("ld", name, tuple(ix), lo=d.get("lo", -INF), hi=d.get("hi", INF),
             isint=d.get("isint", False), unit=d.get("unit"))
    if a.rel is None and d.get("rel") is not None:
        a.rel = d["rel"]
    return a


def psym(name, lo=-INF, hi=INF, isint=False, unit=None):
    return patom(atom("sym", name, lo=lo, hi=hi, isint=isint, unit=unit))


class TooBig(Exception):
    pass


def _nrm_exp(e):
    if isinstance(e, int):
        return e
    if isinstance(e, Fraction):
        return int(e) if e.denominator == 1 else e
    f = Fraction(e).limit_denominator(64)
    if abs(float(f) - e) < 1e-9:
        return int(f) if f.denominator == 1 else f
    return float(e)


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return d


_RM = {}


def _reduce_mono(d, c):
    """dict atom->exp, coefficient -> dict mono->coef (fully reduced)"""
    for a, e in list(d.items()):
        if e == 0:
            del d[a]
    for a, e in d.items():
        if a.kind == "sin" and isinstance(e, int) and e >= 2:
            d2 = dict(d)
            d2[a] = e - 2
            cosat = atom("cos", a.args[0], lo=-1.0, hi=1.0)
            r = _reduce_mono(dict(d2), c)
            d3 = dict(d2)
            d3[cosat] = d3.get(cosat, 0) + 2
            r2 = _reduce_mono(d3, -c)
            return _dadd(r, r2)
        if a.rel is not None and not isinstance(e, float) and e >= 2:
            d2 = dict(d)
            d2[a] = e - 2
            base = _reduce_mono(d2, c)
            return _dmul(base, dict(a.rel.terms))
        if a.kind == "P" and not isinstance(e, float) and e >= 1:
            k = int(math.floor(e))
            d2 = dict(d)
            d2[a] = _nrm_exp(e - k)
            base = _reduce_mono(d2, c)
            pd = dict(a.args[0].terms)
            for _ in range(k):
                base = _dmul(base, pd)
            return base
    m = tuple(sorted(((a, _nrm_exp(e)) for a, e in d.items() if e != 0),
                     key=lambda ae: ae[0].id))
    return {m: c}


def _dadd(a, b, s=1.0):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0.0) + s * c
    return r


def _dmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            for m, c in _reduce_mono(_mono_mul(m1, m2), c1 * c2).items():
                r[m] = r.get(m, 0.0) + c
    if len(r) > 4 * TERM_CAP:
        raise TooBig()
    return r


_PM = {}


def padd(a, b, s=1.0):
    k = ("+", a.id, b.id, s)
    r = _PM.get(k)
    if r is None:
        d = _dadd(dict(a.terms), dict(b.terms), s)
        r = mkpoly(d)
        if len(r.terms) > TERM_CAP:
            raise TooBig()
        r = _cancel(r)
        _PM[k] = r
    return r


def pmul(a, b):
    if a.id > b.id:
        a, b = b, a
    k = ("*", a.id, b.id)
    r = _PM.get(k)
    if r is None:
        ca, cb = a.const, b.const
        if ca is not None:
            r = pscale(b, ca)
        elif cb is not None:
            r = pscale(a, cb)
        else:
            if len(a.terms) * len(b.terms) > 4000:
                raise TooBig()
            r = mkpoly(_dmul(dict(a.terms), dict(b.terms)))
            if len(r.terms) > TERM_CAP:
                raise TooBig()
            r = _cancel(r)
        _PM[k] = r
    return r


def pscale(a, c):
    return mkpoly({m: c * x for m, x in a.terms})


def _cancel(p):
    """cancel sum(terms)*P^-1 when the numerator is a multiple of P"""
    bases = {}
    for m, c in p.terms:
        for a, e in m:
            if a.kind == "P" and e < 0:
                bases.setdefault(a, set()).add(e)
    if not bases:
        return p
    for a in sorted(bases, key=lambda a: a.id):
        base = a.args[0]
        nb = len(base.terms)
        for e in sorted(bases[a]):
            num = {}
            rest = {}
            for m, c in p.terms:
                d = dict(m)
                if d.get(a) == e:
                    del d[a]
                    num[tuple(sorted(d.items(), key=lambda t: t[0].id))] = c
                else:
                    rest[m] = c
            if len(num) < 2:
                continue
            q = _exact_div(num, dict(base.terms))
            if q is None:
                continue
            add = {}
            for m, c in q.items():
                d = dict(m)
                d[a] = d.get(a, 0) + e + 1
                add = _dadd(add, _reduce_mono(d, c))
            return _cancel(mkpoly(_dadd(rest, add)))
    return p


def _lead(d):
    # graded-lex leading monomial
    def k(m):
        return (sum(float(e) for _, e in m), _mkey_f(m))
    return max(d, key=k)


def _mkey_f(m):
    return tuple((-a.id, float(e)) for a, e in m)


def _exact_div(num, den, limit=60):
    """multivariate exact division with zero remainder or None"""
    num = dict(num)
    out = {}
    ld = _lead(den)
    cd = den[ld]
    dd = dict(ld)
    for _ in range(limit):
        num = {m: c for m, c in num.items() if abs(c) > 1e-12}
        if not num:
            return out
        ln = _lead(num)
        d = dict(ln)
        ok = True
        for a, e in dd.items():
            x = d.get(a, 0) - e
            if isinstance(x, float) or x < 0:
                ok = False
                break
            if x == 0:
                d.pop(a, None)
            else:
                d[a] = x
        if not ok:
            return None
        q = tuple(sorted(d.items(), key=lambda t: t[0].id))
        c = num[ln] / cd
        out[q] = out.get(q, 0) + c
        for m, cc in den.items():
            for m2, c2 in _reduce_mono(_mono_mul(q, m), c * cc).items():
                num[m2] = num.get(m2, 0) - c2
        if abs(num.get(ln, 0)) > 1e-9:
            return None
        num.pop(ln, None)
    return None


# ranges -------------------------------------------------------------------
def _imul(a, b):
    vals = []
    for x in a:
        for y in b:
            vals.append(0.0 if (x == 0 or y == 0) else x * y)
    return min(vals), max(vals)


def _ipow(r, e):
    lo, hi = r
    if isinstance(e, int) and e >= 0:
        if e % 2 == 0:
            if lo >= 0:
                return lo ** e, hi ** e if hi < INF else INF
            if hi <= 0:
                return hi ** e if hi > -INF else INF, lo ** e if lo > -INF else INF
            m = max(-lo, hi)
            return 0.0, (m ** e if m < INF else INF)
        f = lambda v: v ** e if abs(v) < INF else v
        return f(lo), f(hi)
    if lo >= 0:
        def f(v):
            if v == 0:
                return 0.0 if e > 0 else INF
            if v == INF:
                return INF if e > 0 else 0.0
            return v ** float(e)
        a, b = f(lo), f(hi)
        return min(a, b), max(a, b)
    if isinstance(e, int) and e < 0:
        if hi < 0:
            a = _ipow((-hi, -lo), e)
            return (-a[1], -a[0]) if e % 2 else a
        if e % 2 == 0:
            return 0.0, INF
        return -INF, INF
    return 0.0, INF  # fractional power of something: real => nonneg


def arange_atom(a):
    return a.lo, a.hi


def prange(p):
    if p._rng is None:
        lo = hi = 0.0
        for m, c in p.terms:
            r = (1.0, 1.0)
            for a, e in m:
                r = _imul(r, _ipow(arange_atom(a), e))
            r = _imul(r, (c, c))
            lo += r[0]
            hi += r[1]
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        p._rng = (lo, hi)
    return p._rng


# --------------------------------------------------------------------------- nodes
class Node:
    __slots__ = ("id", "test", "n", "z", "p", "leaf", "nleaf", "ord")

    def __repr__(self):
        return show(self)


def show(n, depth=0):
    if n.leaf is not None:
        return repr(n.leaf)
    if depth > 4 or _RD[0] >= 3:
        return "node#%d" % n.id
    return "[%r <0: %s | =0: %s | >0: %s]" % (
        n.test, show(n.n, depth + 1), show(n.z, depth + 1), show(n.p, depth + 1))


_NODES = {}
_NALL = []


def leaf(p):
    k = ("L", p.id)
    n = _NODES.get(k)
    if n is None:
        n = Node()
        n.id = len(_NALL)
        n.leaf = p
        n.test = n.n = n.z = n.p = None
        n.nleaf = 1
        n.ord = None
        _NODES[k] = n
        _NALL.append(n)
    return n


def _node(test, n, z, p):
    if n is z and z is p:
        return n
    k = ("N", test.id, n.id, z.id, p.id)
    r = _NODES.get(k)
    if r is None:
        r = Node()
        r.id = len(_NALL)
        r.leaf = None
        r.test = test
        r.n, r.z, r.p = n, z, p
        r.nleaf = n.nleaf + z.nleaf + p.nleaf
        r.ord = test.id
        _NODES[k] = r
        _NALL.append(r)
    return r


def const(c):
    return leaf(pconst(c))


ZERO = None
ONE = None


def _top(*ns):
    t = None
    for n in ns:
        if n.leaf is None and (t is None or n.test.id < t.id):
            t = n.test
    return t


def _cof(n, t, s):
    if n.leaf is None and n.test is t:
        return n.n if s < 0 else (n.z if s == 0 else n.p)
    return n


_AM = {}


def apply(op, *ns):
    """op: leaf-level function of Polys returning Node (memo by op.__name__/key)"""
    memo = {}

    def rec(*xs):
        k = tuple(x.id for x in xs)
        r = memo.get(k)
        if r is not None:
            return r
        t = _top(*xs)
        if t is None:
            r = op(*[x.leaf for x in xs])
        else:
            ch = [rec(*[_cof(x, t, s) for x in xs]) for s in (-1, 0, 1)]
            r = sign3(t, *ch)
        memo[k] = r
        return r

    r = rec(*ns)
    return r


def nleaves(n):
    seen = set()

    def rec(x):
        if x.id in seen:
            return 0
        seen.add(x.id)
        if x.leaf is not None:
            return 1
        return rec(x.n) + rec(x.z) + rec(x.p)
    return rec(n)


def nnodes(n):
    seen = set()

    def rec(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.leaf is None:
            rec(x.n), rec(x.z), rec(x.p)
    rec(n)
    return len(seen)


def norm_test(p):
    """-> (poly with leading coefficient +1, flip)"""
    if not p.terms:
        return p, False
    # scale by the leading non-constant coefficient
    m, c = p.terms[-1]
    if c == 1.0:
        return p, False
    q = pscale(p, 1.0 / c)
    return q, c < 0


def _psign(p):
    """definite sign if known by ranges"""
    c = p.const
    if c is not None:
        return (c > 0) - (c < 0)
    lo, hi = prange(p)
    if lo > 0:
        return 1
    if hi < 0:
        return -1
    if lo == 0 and hi == 0:
        return 0
    return None


_S3 = {}
SIZE = [50000, 2000, 4096]      # limits of a normal form before it becomes opaque


def coarse():
    """small limits: for analyses of effects and types, which do not need element values"""
    SIZE[:] = [60, 0, 200]


def _infsign(p):
    """sign of a sum of one infinite literal and values taken to be finite"""
    s = None
    for m, c in p.terms:
        for a, e in m:
            if a.kind == "lit":
                if len(m) != 1 or e != 1 or a.args[0] not in ("inf", "-inf"):
                    return None
                t = (1 if c > 0 else -1) * (1 if a.args[0] == "inf" else -1)
                if s not in (None, t):
                    return None
                s = t
    return s


def sign3(p, n, z, pos):
    """value selected by the sign of poly p"""
    s = _psign(p)
    if s is None:
        s = _infsign(p)
    if s is not None:
        return n if s < 0 else (z if s == 0 else pos)
    q, flip = norm_test(p)
    if flip:
        n, pos = pos, n
    lo, hi = prange(q)
    if lo >= 0:
        n = z  # negative branch unreachable: canonical choice
    if hi <= 0:
        pos = z
    return _ins(q, n, z, pos)


def _ins(q, n, z, p):
    if z.leaf is not None and z is not ZERO and z.leaf.const is None and \
            norm_test(z.leaf)[0] is q:
        z = ZERO
    if n is z and z is p:
        return n
    k = (q.id, n.id, z.id, p.id)
    r = _S3.get(k)
    if r is not None:
        return r
    n1, z1, p1 = _cof(n, q, -1), _cof(z, q, 0), _cof(p, q, 1)
    t = _top(n1, z1, p1)
    if t is None or q.id <= t.id:
        r = _node(q, n1, z1, p1)
    else:
        ch = [_ins(q, _cof(n1, t, s), _cof(z1, t, s), _cof(p1, t, s)) for s in (-1, 0, 1)]
        r = _node(t, *ch)
    if r.nleaf > SIZE[0] and (SIZE[1] == 0 or nnodes(r) > SIZE[1]):
        raise TooBig()
    _S3[k] = r
    return r


# ---- arithmetic on nodes -------------------------------------------------------
def guard(opname, *args):
    """opaque atom used when a normal form grows too large"""
    return leaf(patom(atom("fn", "big:" + opname, *args)))


def _bin(name, f):
    memo = {}

    def g(a, b):
        k = (a.id, b.id)
        r = memo.get(k)
        if r is None:
            try:
                if a.leaf is not None and b.leaf is not None:
                    r = leaf(f(a.leaf, b.leaf))
                else:
                    if a.nleaf * b.nleaf > SIZE[2] and (SIZE[1] == 0 or nnodes(a) * nnodes(b) > 4096):
                        raise TooBig()
                    r = apply(lambda x, y: leaf(f(x, y)), a, b)
            except (TooBig, RecursionError):
                r = guard(name, a, b)
            memo[k] = r
        return r
    return g


add = _bin("add", padd)
sub = _bin("sub", lambda a, b: padd(a, b, -1.0))
mul = _bin("mul", pmul)


def neg(a):
    return mul(const(-1.0), a)


def map_leaf(name, f):
    memo = {}

    def g(a):
        r = memo.get(a.id)
        if r is None:
            try:
                r = apply(f, a) if a.leaf is None else f(a.leaf)
            except (TooBig, RecursionError):
                r = guard(name, a)
            memo[a.id] = r
        return r
    return g


def is_const(n):
    return n.leaf is not None and n.leaf.const is not None


def cval(n):
    return n.leaf.const if n.leaf is not None else None


# powers ---------------------------------------------------------------------
def _gcd_mono(p):
    it = None
    for m, c in p.terms:
        d = dict(m)
        if it is None:
            it = dict(d)
        else:
            for a in list(it):
                e = d.get(a, 0)
                it[a] = min(it[a], e) if (it[a] > 0) == (e > 0) else 0
                if it[a] == 0:
                    del it[a]
        if not it:
            return {}
    return it or {}


def _abs_poly(p):
    s = _psign(p)
    lo, hi = prange(p)
    if lo >= 0:
        return leaf(p)
    if hi <= 0:
        return leaf(pscale(p, -1))
    # |c*m| of a monomial with only even exponents / positive atoms handled by range
    q, flip = norm_test(p)
    lead = abs(p.terms[-1][1])
    qq = pscale(q, lead)
    return sign3(q, leaf(pscale(qq, -1)), leaf(pconst(0)), leaf(qq))


abs_ = map_leaf("abs", _abs_poly)


def _sqrt_of_square(p):
    """if p is the square of a 2-term polynomial return it"""
    if len(p.terms) != 3:
        return None
    # try (a+b)^2 with a^2, b^2 monomials
    sq = []
    for m, c in p.terms:
        if c > 0 and all((not isinstance(e, float)) and (e % 2 == 0) for a, e in m):
            sq.append((m, c))
    for i in range(len(sq)):
        for j in range(i + 1, len(sq)):
            for s in (1.0, -1.0):
                h = {}
                for (m, c), sg in ((sq[i], 1.0), (sq[j], s)):
                    mm = tuple((a, _nrm_exp(Fraction(e) / 2)) for a, e in m)
                    h[mm] = h.get(mm, 0) + sg * math.sqrt(c)
                cand = mkpoly(h)
                try:
                    if pmul(cand, cand) is p:
                        return cand
                except TooBig:
                    pass
    return None


def _pow_poly(p, e):
    """p**e, e rational/float constant -> Node"""
    e = _nrm_exp(e)
    c = p.const
    if c is not None:
        if c == 0:
            if e > 0:
                return const(0)
            return leaf(patom(atom("lit", "inf")))
        if c < 0 and not isinstance(e, int):
            return leaf(patom(atom("lit", "nan")))
        return const(c ** float(e))
    if isinstance(e, int) and e >= 0:
        r = pconst(1)
        for _ in range(e):
            r = pmul(r, p)
        return leaf(r)
    if isinstance(e, int):  # negative integer
        g = _gcd_mono(p)
        if len(p.terms) == 1:
            m, cc = p.terms[0]
            return leaf(mkpoly(_reduce_mono({a: x * e for a, x in m}, cc ** e)))
        lead = p.terms[-1][1]
        if g:
            inv = mkpoly(_reduce_mono({a: -x for a, x in g.items()}, 1.0))
            q = pscale(pmul(p, inv), 1.0 / lead)
            out = mkpoly(_reduce_mono({a: x * e for a, x in g.items()}, lead ** e))
        else:
            q = pscale(p, 1.0 / lead)
            out = pconst(lead ** e)
        if len(q.terms) == 1 or q.const is not None:
            r = _pow_poly(q, e)
            return mul(leaf(out), r)
        lo, hi = prange(q)
        l2, h2 = _ipow((lo, hi), 1)
        pa = atom("P", q, lo=l2, hi=h2)
        return leaf(pmul(out, mkpoly({((pa, e),): 1.0})))
    # fractional
    if len(p.terms) == 1:
        m, cc = p.terms[0]
        if cc < 0:
            # real only where monomial negative; keep opaque
            pa = atom("P", p, lo=0.0, hi=INF)
            return leaf(mkpoly({((pa, e),): 1.0}))
        out = const(cc ** float(e))
        unk = [(a, x) for a, x in m if a.lo < 0 and not (not isinstance(x, float) and x % 2 == 0)]
        if len(unk) > 1:
            # the signs of several factors are unknown: only their product is known to be >= 0
            pa = atom("P", mkpoly({tuple(sorted(unk, key=lambda t: t[0].id)): 1.0}), lo=0.0, hi=INF)
            out = mul(out, leaf(mkpoly({((pa, e),): 1.0})))
            m = [(a, x) for a, x in m if (a, x) not in unk]
        for a, x in m:
            if not isinstance(x, float) and x % 2 == 0 and not isinstance(e, float):
                # (a^x)^e = |a|^(x e)
                xe = _nrm_exp(Fraction(x) * Fraction(e))
                ab = _abs_poly(patom(a))
                out = mul(out, pow_c(ab, xe) if a.lo < 0 and isinstance(xe, int)
                          else (pow_c(ab, xe) if isinstance(xe, int)
                                else leaf(mkpoly(_reduce_mono({a: xe}, 1.0)))))
            else:
                xe = _nrm_exp(x * e)
                if isinstance(xe, int) and a.lo < 0 and isinstance(x, Fraction):
                    pass
                out = mul(out, leaf(mkpoly(_reduce_mono({a: xe}, 1.0))))
        return out
    sq = _sqrt_of_square(p)
    if sq is not None and not isinstance(e, float):
        return pow_c(_abs_poly(sq), _nrm_exp(Fraction(e) * 2))
    g = {a: x for a, x in _gcd_mono(p).items()
         if not isinstance(x, float) and (x % 2 == 0 or a.lo >= 0)}
    lead = p.terms[-1][1]
    sc = abs(lead)
    q = p
    out = const(1)
    if g:
        inv = mkpoly(_reduce_mono({a: -x for a, x in g.items()}, 1.0))
        q = pmul(p, inv)
        out = _pow_poly(mkpoly(_reduce_mono(dict(g), 1.0)), e)
    q = pscale(q, 1.0 / sc)
    out = mul(out, const(sc ** float(e)))
    if len(q.terms) == 1:
        return mul(out, _pow_poly(q, e))
    lo, hi = prange(q)
    pa = atom("P", q, lo=max(lo, 0.0), hi=max(hi, 0.0))
    return mul(out, leaf(mkpoly({((pa, e),): 1.0})))


_PW = {}


def pow_c(a, e):
    e = _nrm_exp(e)
    f = _PW.get(e)
    if f is None:
        f = map_leaf("pow%s" % e, lambda p, e=e: _pow_poly(p, e))
        _PW[e] = f
    return f(a)


def sqrt(a):
    return pow_c(a, Fraction(1, 2))


def inv(a):
    return pow_c(a, -1)


def div(a, b):
    if b.leaf is not None and b.leaf.const == 0.0:
        return leaf(patom(atom("fn", "divzero", a)))
    return mul(a, inv(b))


# exp / log --------------------------------------------------------------------
def _exp_poly(p):
    c0 = 0.0
    d = {}
    for m, c in p.terms:
        if not m:
            c0 = c
            continue
        if len(m) == 1 and m[0][0].kind == "log" and m[0][1] == 1:
            inner = m[0][0].args[0]
            r = _pow_poly(inner, c)
            if r.leaf is not None and len(r.leaf.terms) == 1:
                mm, cc = r.leaf.terms[0]
                c0 += math.log(cc) if cc > 0 else 0
                for a, e in mm:
                    d[a] = d.get(a, 0) + e
                continue
        ea = atom("E", mkpoly({m: 1.0}), lo=0.0)
        d[ea] = d.get(ea, 0) + _nrm_exp(c)
    if c0 > 700 or c0 < -700:
        raise TooBig()
    return leaf(mkpoly(_reduce_mono(d, math.exp(c0))))


exp = map_leaf("exp", _exp_poly)


def _log_poly(p):
    c = p.const
    if c is not None:
        if c > 0:
            return const(math.log(c))
        return leaf(patom(atom("lit", "-inf" if c == 0 else "nan")))
    if len(p.terms) == 1 and p.terms[0][1] > 0:
        m, c = p.terms[0]
        r = pconst(math.log(c))
        for a, e in m:
            if a.kind == "E":
                r = padd(r, pscale(a.args[0], float(e)))
            elif a.kind == "P":
                r = padd(r, pscale(patom(atom("log", a.args[0])), float(e)))
            else:
                r = padd(r, pscale(patom(atom("log", patom(a))), float(e)))
        return leaf(r)
    lead = p.terms[-1][1]
    sc = abs(lead)
    q = pscale(p, 1.0 / sc)
    return leaf(padd(pconst(math.log(sc)), patom(atom("log", q))))


log = map_leaf("log", _log_poly)


# trig -------------------------------------------------------------------------
def _half(p):
    """(cos, sin) nodes of p/2 where p is an inverse-trig atom"""


def _cs_atom(a, half):
    """cos/sin Nodes of atom a (or a/2 when half)"""
    k = a.kind
    one = const(1)
    if k == "acos":
        x = leaf(a.args[0])
        if half:
            return sqrt(mul(const(.5), add(one, x))), sqrt(mul(const(.5), sub(one, x)))
        return x, sqrt(sub(one, mul(x, x)))
    if k == "asin":
        x = leaf(a.args[0])
        c = sqrt(sub(one, mul(x, x)))
        if half:
            ch = sqrt(mul(const(.5), add(one, c)))
            return ch, div(x, mul(const(2), ch))
        return c, x
    if k == "atan2":
        y, x = leaf(a.args[0]), leaf(a.args[1])
        r = sqrt(add(mul(x, x), mul(y, y)))
        if half:
            ir = inv(r)
            ch = sqrt(mul(const(.5), add(one, mul(x, ir))))
            sh = sqrt(mul(const(.5), sub(one, mul(x, ir))))
            sh = apply(lambda s, yy: sign3(yy, leaf(pscale(s, -1)), leaf(s), leaf(s)), sh, y)
            return ch, sh
        ir = inv(r)
        return mul(x, ir), mul(y, ir)
    if k == "atan":
        x = leaf(a.args[0])
        c = pow_c(add(one, mul(x, x)), Fraction(-1, 2))
        if half:
            ch = sqrt(mul(const(.5), add(one, c)))
            return ch, div(mul(x, c), mul(const(2), ch))
        return c, mul(x, c)
    if half:
        p = pscale(patom(a), 0.5)
    else:
        p = patom(a)
    return (leaf(patom(atom("cos", p, lo=-1.0, hi=1.0))),
            leaf(patom(atom("sin", p, lo=-1.0, hi=1.0))))


def _snap(v):
    for t in (0.0, 1.0, -1.0, 0.5, -0.5):
        if abs(v - t) < 1e-12:
            return t
    return v


def _cs_int(c, s, n):
    """cos(n t), sin(n t) from cos t, sin t"""
    sg = 1
    if n < 0:
        sg, n = -1, -n
    C, S = const(1), const(0)
    for _ in range(n):
        C, S = sub(mul(C, c), mul(S, s)), add(mul(S, c), mul(C, s))
    return C, (S if sg > 0 else neg(S))


def _cs_poly(p):
    C, S = const(1), const(0)
    for m, c in p.terms:
        if not m:
            cc, ss = const(_snap(math.cos(c))), const(_snap(math.sin(c)))
        else:
            inv_at = len(m) == 1 and m[0][1] == 1 and m[0][0].kind in (
                "acos", "asin", "atan2", "atan")
            a = m[0][0] if len(m) == 1 and m[0][1] == 1 else None
            n1 = round(c)
            n2 = round(2 * c)
            if inv_at and abs(c - n1) < 1e-9 and abs(n1) <= 4:
                cc, ss = _cs_int(*_cs_atom(a, False), n1)
            elif inv_at and abs(2 * c - n2) < 1e-9 and abs(n2) <= 5:
                cc, ss = _cs_int(*_cs_atom(a, True), n2)
            else:
                base = mkpoly({m: 1.0})
                if abs(2 * c - n2) < 1e-9 and 0 < abs(n2) <= 8:
                    bp, n = pscale(base, 0.5), n2
                else:
                    # keep coefficient, normalise the sign
                    bp, n = pscale(base, abs(c)), (1 if c > 0 else -1)
                ca = leaf(patom(atom("cos", bp, lo=-1.0, hi=1.0)))
                sa = leaf(patom(atom("sin", bp, lo=-1.0, hi=1.0)))
                cc, ss = _cs_int(ca, sa, n)
        C, S = sub(mul(C, cc), mul(S, ss)), add(mul(S, cc), mul(C, ss))
    return C, S


cos = map_leaf("cos", lambda p: _cs_poly(p)[0])
sin = map_leaf("sin", lambda p: _cs_poly(p)[1])


def tan(a):
    return div(sin(a), cos(a))


def _acos_poly(p):
    c = p.const
    if c is not None and -1 <= c <= 1:
        return const(math.acos(c))
    return leaf(patom(atom("acos", p, lo=0.0, hi=PI)))


def _asin_poly(p):
    c = p.const
    if c is not None and -1 <= c <= 1:
        return const(math.asin(c))
    q, flip = norm_test(p)
    if flip:
        return leaf(pscale(patom(atom("asin", pscale(p, -1.0), lo=-PI / 2, hi=PI / 2)), -1))
    return leaf(patom(atom("asin", p, lo=-PI / 2, hi=PI / 2)))


def _atan_poly(p):
    c = p.const
    if c is not None:
        return const(math.atan(c))
    return leaf(patom(atom("atan", p, lo=-PI / 2, hi=PI / 2)))


acos = map_leaf("acos", _acos_poly)
asin = map_leaf("asin", _asin_poly)
atan = map_leaf("atan", _atan_poly)


def atan2(y, x):
    def f(py, px):
        cy, cx = py.const, px.const
        if cy is not None and cx is not None:
            return const(math.atan2(cy, cx))
        # common positive scale
        lead = None
        for p in (py, px):
            if p.terms and lead is None:
                lead = abs(p.terms[-1][1])
        if lead:
            py, px = pscale(py, 1 / lead), pscale(px, 1 / lead)
        return leaf(patom(atom("atan2", py, px, lo=-PI, hi=PI)))
    try:
        return apply(f, y, x)
    except (TooBig, RecursionError):
        return guard("atan2", y, x)


def _floor_poly(p):
    c = p.const
    if c is not None:
        return const(math.floor(c))
    if all(abs(cc - round(cc)) < 1e-12 and all(a.isint and isinstance(e, int) and e > 0 for a, e in m)
           for m, cc in p.terms):
        return leaf(p)
    lo, hi = prange(p)
    return leaf(patom(atom("floor", p, isint=True,
                           lo=math.floor(lo) if lo > -INF else lo,
                           hi=math.floor(hi) if hi < INF else hi)))


floor = map_leaf("floor", _floor_poly)


# comparisons / selection -------------------------------------------------------
POL = {}      # test -> how the program compares it (signs that make the comparison true, or "nan" for min, max, ...)


def _mark(d, n, z, p):
    if not all(x is ZERO or x is ONE for x in (n, z, p)):
        t = "nan"
    else:
        t = tuple(s for s, x in ((-1, n), (0, z), (1, p)) if x is ONE)
    seen = set()

    def rec(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.leaf is None:
            rec(x.n), rec(x.z), rec(x.p)
        elif x.leaf.const is None:
            q, flip = norm_test(x.leaf)
            POL.setdefault(q.id, set()).add(t if t == "nan" or not flip else tuple(sorted(-u for u in t)))
    if SIZE[1]:
        rec(d)


def cmp3(a, b, n, z, p, mark=True):
    """Node selected by sign of a-b; n,z,p Nodes"""
    d = sub(a, b)
    if mark:
        _mark(d, n, z, p)
    try:
        if d.leaf is not None:
            return sign3(d.leaf, n, z, p)
        memo = {}

        def rec(d, n, z, p):
            k = (d.id, n.id, z.id, p.id)
            if k in memo:
                return memo[k]
            if d.leaf is not None:
                r = sign3(d.leaf, n, z, p)
            else:
                t = _top(d, n, z, p)
                r = sign3(t, *[rec(*[_cof(x, t, s) for x in (d, n, z, p)]) for s in (-1, 0, 1)])
            memo[k] = r
            return r
        return rec(d, n, z, p)
    except (TooBig, RecursionError):
        return guard("cmp3", a, b, n, z, p)


def lt(a, b):
    return cmp3(a, b, ONE, ZERO, ZERO)


def le(a, b):
    return cmp3(a, b, ONE, ONE, ZERO)


def gt(a, b):
    return cmp3(a, b, ZERO, ZERO, ONE)


def ge(a, b):
    return cmp3(a, b, ZERO, ONE, ONE)


def eq(a, b):
    return cmp3(a, b, ZERO, ONE, ZERO)


def ne(a, b):
    return cmp3(a, b, ONE, ZERO, ONE)


def is_bool(n):
    memo = {}

    def rec(x):
        if x.id in memo:
            return memo[x.id]
        memo[x.id] = r = (x.leaf.const in (0.0, 1.0)) if x.leaf is not None else (
            rec(x.n) and rec(x.z) and rec(x.p))
        return r
    return rec(n)


def to_bool(n):
    if is_bool(n):
        return n
    return ne(n, ZERO)


def bool_atom(*key):
    a = patom(atom("b", *key, lo=0.0, hi=1.0))
    return sign3(a, ZERO, ZERO, ONE)


def not_(a):
    return sub(ONE, to_bool(a))


def and_(a, b):
    return mul(to_bool(a), to_bool(b))


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def ite(c, a, b):
    if a is b:
        return a
    c = to_bool(c)
    if c is ONE:
        return a
    if c is ZERO:
        return b
    memo = {}

    def rec(c, a, b):
        if c.leaf is not None:
            return a if c.leaf.const == 1.0 else b
        if a is b:
            return a
        k = (c.id, a.id, b.id)
        if k in memo:
            return memo[k]
        t = _top(c, a, b)
        r = sign3(t, *[rec(_cof(c, t, s), _cof(a, t, s), _cof(b, t, s)) for s in (-1, 0, 1)])
        memo[k] = r
        return r
    try:
        return rec(c, a, b)
    except (TooBig, RecursionError):
        return guard("ite", c, a, b)


def max_(a, b):
    return cmp3(a, b, b, a, a)


def min_(a, b):
    return cmp3(a, b, a, a, b)


def sgn(a):
    return cmp3(a, ZERO, const(-1), ZERO, ONE)


def copysign(a, b):
    ab = abs_(a)
    return cmp3(b, ZERO, neg(ab), ab, ab)


ZERO = const(0)
ONE = const(1)


def fn(name, *args, lo=-INF, hi=INF, isint=False):
    """opaque function of value numbers"""
    return leaf(patom(atom("fn", name, *args, lo=lo, hi=hi, isint=isint)))


def pick(iv, comps):
    """element of a finite list selected by an index variable"""
    if getattr(iv, "name", None) == "k" and isinstance(iv.args[0], Node):
        c = cval(iv.args[0])
        if c is not None and 0 <= c < len(comps):
            return comps[int(c)]
    if all(c is comps[0] for c in comps):
        return comps[0]
    return leaf(patom(atom("fn", "pick", iv, *comps)))


def depends(p, iv):
    """does a poly/atom mention index variable iv"""
    memo = {}

    def arg(x):
        if isinstance(x, Poly):
            return any(at(a) for m, c in x.terms for a, e in m)
        if isinstance(x, Node):
            return any(at(a) for a in node_atoms_shallow(x))
        if isinstance(x, (tuple, list)):
            return any(arg(y) for y in x)
        if hasattr(x, "name") and hasattr(x, "args"):
            return x == iv or any(arg(y) for y in x.args)
        return False

    def at(a):
        r = memo.get(a.id)
        if r is None:
            memo[a.id] = False
            r = memo[a.id] = any(arg(x) for x in a.args)
        return r
    return arg(p)


def node_atoms_shallow(n):
    acc = set()
    seen = set()

    def rec(x):
        if x.id in seen:
            return
        seen.add(x.id)
        p = x.leaf if x.leaf is not None else x.test
        for m, c in p.terms:
            for a, e in m:
                acc.add(a)
        if x.leaf is None:
            rec(x.n), rec(x.z), rec(x.p)
    rec(n)
    return acc


def sum_(n, iv, size=None):
    """sum of n over index variable iv (linear normal form)"""
    if n.leaf is None:
        if not depends(n, iv) and size is not None:
            return mul(n, size)
        return leaf(patom(atom("sum", n, iv)))
    out = ZERO
    for m, c in n.leaf.terms:
        inn, outm = [], []
        for a, e in m:
            (inn if depends(mkpoly({((a, 1),): 1.0}), iv) else outm).append((a, e))
        if not inn:
            if size is None:
                t = leaf(patom(atom("sum", ONE, iv)))
            else:
                t = size
        else:
            t = leaf(patom(atom("sum", leaf(mkpoly({tuple(inn): 1.0})), iv)))
        t = mul(t, leaf(mkpoly({tuple(outm): c})) if outm else const(c))
        out = add(out, t)
    return out


# traversal ---------------------------------------------------------------------
def leaves(n, paths=False):
    """iterate (constraints, poly); constraints = tuple of (testpoly, signs)"""
    out = []

    def rec(x, cs):
        if x.leaf is not None:
            out.append((cs, x.leaf))
            return
        for s, ch in ((-1, x.n), (0, x.z), (1, x.p)):
            lo, hi = prange(x.test)
            if s < 0 and lo >= 0:
                continue
            if s > 0 and hi <= 0:
                continue
            if s == 0 and (lo > 0 or hi < 0):
                continue
            if len(out) > 4000:
                return
            rec(ch, cs + ((x.test, s),))
    rec(n, ())
    return out


def poly_atoms(p, acc=None, deep=True):
    acc = set() if acc is None else acc
    for m, c in p.terms:
        for a, e in m:
            if a in acc:
                continue
            acc.add(a)
            if deep:
                for x in a.args:
                    _arg_atoms(x, acc)
    return acc


def _arg_atoms(x, acc):
    if isinstance(x, Poly):
        poly_atoms(x, acc)
    elif isinstance(x, Node):
        node_atoms(x, acc)
    elif isinstance(x, (tuple, list)):
        for y in x:
            _arg_atoms(y, acc)


def node_atoms(n, acc=None):
    acc = set() if acc is None else acc
    seen = set()

    def rec(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.leaf is not None:
            poly_atoms(x.leaf, acc)
        else:
            poly_atoms(x.test, acc)
            rec(x.n), rec(x.z), rec(x.p)
    rec(n)
    return acc


# substitution ------------------------------------------------------------------
class Subst:
    """rebuild values with atoms replaced.  f(atom) -> Node or None (keep/rebuild)"""

    def __init__(self, f, argf=None):
        self.f = f
        self.argf = argf
        self.pm, self.nm, self.am = {}, {}, {}

    def poly(self, p):
        r = self.pm.get(p.id)
        if r is None:
            r = ZERO
            for m, c in p.terms:
                t = const(c)
                for a, e in m:
                    t = mul(t, pow_c(self.atom(a), e))
                r = add(r, t)
            self.pm[p.id] = r
        return r

    def node(self, n):
        r = self.nm.get(n.id)
        if r is None:
            if n.leaf is not None:
                r = self.poly(n.leaf)
            else:
                t = self.poly(n.test)
                r = cmp3(t, ZERO, self.node(n.n), self.node(n.z), self.node(n.p), False)
            self.nm[n.id] = r
        return r

    def arg(self, x):
        if isinstance(x, Poly):
            r = self.poly(x)
            return r
        if isinstance(x, Node):
            return self.node(x)
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        if self.argf is not None:
            return self.argf(x)
        return x

    def atom(self, a):
        r = self.am.get(a.id)
        if r is not None:
            return r
        r = self.f(a)
        if r is None:
            r = self.rebuild(a)
        self.am[a.id] = r
        return r

    def rebuild(self, a):
        args = tuple(self.arg(x) for x in a.args)
        same = all((y is x) or (isinstance(x, Poly) and isinstance(y, Node) and y.leaf is x) or
                   (not isinstance(x, (Poly, Node, tuple)) and x == y)
                   or (isinstance(x, tuple) and x == y)
                   for x, y in zip(a.args, args))
        if same:
            return leaf(patom(a))
        k = a.kind
        if k == "fn" and args[0] == "pick":
            return pick(args[1], args[2:])
        if k == "sum":
            return sum_(args[0], args[1])
        if k == "sin":
            return sin(args[0])
        if k == "cos":
            return cos(args[0])
        if k == "acos":
            return acos(args[0])
        if k == "asin":
            return asin(args[0])
        if k == "atan":
            return atan(args[0])
        if k == "atan2":
            return atan2(args[0], args[1])
        if k == "E":
            return exp(args[0])
        if k == "log":
            return log(args[0])
        if k == "floor":
            return floor(args[0])
        if k == "P":
            return args[0]
        if k == "ld":
            return leaf(patom(ld(args[0], args[1])))
        return leaf(patom(atom(k, *args, lo=a.lo, hi=a.hi, isint=a.isint)))


# evaluation of normal forms ------------------------------------------------------
class Undef(Exception):
    pass


def _h(*xs):
    """deterministic pseudo-random float in (-1,1) from hashable data"""
    import hashlib
    s = hashlib.md5(repr(xs).encode()).digest()
    return (int.from_bytes(s[:6], "big") / float(1 << 48)) * 2 - 1


class Eval:
    def __init__(self, base, seed=0):
        """base(atom)->float or None for free atoms"""
        self.base = base
        self.seed = seed
        self.am = {}
        self.margin = INF

    def atom(self, a):
        v = self.am.get(a.id)
        if v is None:
            v = self._atom(a)
            self.am[a.id] = v
        return v

    def _arg(self, x):
        if isinstance(x, Poly):
            return self._rnd(self.poly(x))
        if isinstance(x, Node):
            return self._rnd(self.node(x))
        if isinstance(x, (tuple, list)):
            return tuple(self._arg(y) for y in x)
        if isinstance(x, Atom):
            return self._rnd(self.atom(x))
        return x

    @staticmethod
    def _rnd(v):
        return float("%.6g" % v) + 0.0

    def _atom(self, a):
        b = self.base(a)
        if b is not None:
            return b
        k = a.kind
        if k == "sin":
            return math.sin(self.poly(a.args[0]))
        if k == "cos":
            return math.cos(self.poly(a.args[0]))
        if k in ("acos", "asin"):
            x = self.poly(a.args[0])
            if abs(x) > 1 + 1e-9:
                raise Undef()
            x = max(-1.0, min(1.0, x))
            return math.acos(x) if k == "acos" else math.asin(x)
        if k == "atan":
            return math.atan(self.poly(a.args[0]))
        if k == "atan2":
            return math.atan2(self.poly(a.args[0]), self.poly(a.args[1]))
        if k == "E":
            return math.exp(min(600, self.poly(a.args[0])))
        if k == "log":
            x = self.poly(a.args[0])
            if x <= 0:
                raise Undef()
            return math.log(x)
        if k == "floor":
            return float(math.floor(self.poly(a.args[0])))
        if k == "P":
            return self.poly(a.args[0])
        if k == "lit":
            raise Undef()
        # opaque: uninterpreted but congruent
        u = _h(self.seed, k, tuple(self._arg(x) for x in a.args))
        lo, hi = a.lo, a.hi
        if lo > -INF and hi < INF:
            v = lo + (u + 1) / 2 * (hi - lo)
        elif lo > -INF:
            v = lo + (u + 1) * 3
        elif hi < INF:
            v = hi - (u + 1) * 3
        else:
            v = 3 * u
        if k == "b":
            return 1.0 if u > 0 else 0.0
        if a.isint:
            v = float(round(v))
        return v

    def poly(self, p):
        t = 0.0
        for m, c in p.terms:
            x = c
            for a, e in m:
                v = self.atom(a)
                if e == 1:
                    x *= v
                elif isinstance(e, int):
                    if v == 0 and e < 0:
                        raise Undef()
                    x *= v ** e
                else:
                    if v < 0:
                        if v > -1e-9:
                            v = 0.0
                        else:
                            raise Undef()
                    if v == 0 and e < 0:
                        raise Undef()
                    x *= v ** float(e)
            t += x
        if t != t or abs(t) > 1e200:
            raise Undef()
        return t

    def node(self, n):
        while n.leaf is None:
            t = self.poly(n.test)
            if abs(t) < 1e-12:
                s = 0
            else:
                self.margin = min(self.margin, abs(t))
                s = 1 if t > 0 else -1
            n = n.n if s < 0 else (n.z if s == 0 else n.p)
        return self.poly(n.leaf)
