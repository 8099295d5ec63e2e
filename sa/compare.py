"""Agreement of normal forms with a reference (global value numbering; a difference between two normal
forms counts only when it is confirmed at a point of the documented domain)."""
import math
from fractions import Fraction
from . import expr as E

NAN = float("nan")


class Opaque(Exception):
    """the form depends on an operation the analyser has no meaning for"""


def _trunc(fl, x):
    return fl(x) if x >= 0 else -fl(-x)


def _even(fl, x):
    f = fl(x + 0.5)
    return f - 1 if f - x == 0.5 and f % 2 else f


ROUNDING = {"trunc": _trunc, "round": _even, "frac": lambda fl, x: x - _trunc(fl, x), "fmod": lambda fl, x, y: x - y * _trunc(fl, x / y),
            "mod": lambda fl, x, y: x - y * fl(x / y)}


class Eval(E.Eval):
    """IEEE evaluation: 0/0 and out-of-domain arguments give NaN"""

    def __init__(self, base, seed=0, strict=True):
        super().__init__(base, seed)
        self.strict = strict

    M = math
    F = float
    X = float
    TIE = 1e-12

    def hoangle(self, x):
        return ho_angle(x)

    def coef(self, c):
        return c

    def _atom(self, a):
        b = self.base(a)
        if b is not None:
            return self.F(b)
        k = a.kind
        try:
            if k == "fn":
                nm = a.args[0]
                if isinstance(nm, str) and nm.startswith("big:"):
                    o = nm[4:]
                    if o == "cmp3":
                        u, v = self.node(a.args[1]), self.node(a.args[2])
                        if u != u or v != v:
                            return NAN
                        return self.node(a.args[3 if u < v - 1e-12 else (5 if u > v + 1e-12 else 4)])
                    if o == "ite":
                        return self.node(a.args[2]) if self.node(a.args[1]) else self.node(a.args[3])
                    x = [self.node(n) for n in a.args[1:]]
                    if o == "atan2":
                        return self.M.atan2(x[0], x[1])
                    if o == "add":
                        return x[0] + x[1]
                    if o == "sub":
                        return x[0] - x[1]
                    if o == "mul":
                        return x[0] * x[1]
                    if o.startswith("pow"):
                        e = self.X(float(Fraction(o[3:])))
                        return NAN if x[0] < 0 and e != int(e) else (E.INF if x[0] == 0 and e < 0 else x[0] ** e)
                    raise Opaque(nm)
                if nm == "uninit":
                    return NAN
                if nm in ROUNDING and all(isinstance(n, (E.Node, E.Poly)) for n in a.args[1:]):
                    x = [self.node(n) if isinstance(n, E.Node) else self.poly(n) for n in a.args[1:]]
                    if any(v != v or abs(v) == E.INF for v in x) or (len(x) > 1 and x[1] == 0):
                        return NAN
                    return self.F(ROUNDING[nm](self.M.floor, *x))
                if nm in ("argmax", "argmin", "amax", "amin"):
                    x = [self.node(n) for n in a.args[1:]]
                    if any(v != v for v in x):
                        return NAN
                    b = max(x) if nm.endswith("max") else min(x)
                    if nm in ("amax", "amin"):
                        return b
                    # equal up to rounding: the first one
                    return self.F(next(i for i, v in enumerate(x) if abs(v - b) <= self.TIE))
                if nm == "sel":
                    i = self.node(a.args[1])
                    if i != i:
                        return NAN
                    i = int(round(float(i)))
                    if not 0 <= i < len(a.args) - 2:
                        return NAN
                    return self.node(a.args[2 + i])
                if nm == "hoangle":
                    x = a.args[1]
                    return self.hoangle(self.node(x) if isinstance(x, E.Node) else self.poly(x))
            if k == "b" and len(a.args) == 2 and a.args[0] in ("isnan", "isinf", "isfinite"):
                x = a.args[1]
                v = self.node(x) if isinstance(x, E.Node) else self.poly(x)
                r = {"isnan": v != v, "isinf": v in (E.INF, -E.INF), "isfinite": v == v and abs(v) != E.INF}[a.args[0]]
                return 1.0 if r else 0.0
            if k == "lit":
                return float(a.args[0])
            if k in ("acos", "asin"):
                x = self.poly(a.args[0])
                if x != x or abs(x) > 1 + 1e-9:
                    return NAN
                x = max(-1.0, min(1.0, x))
                return self.M.acos(x) if k == "acos" else self.M.asin(x)
            if k == "log":
                x = self.poly(a.args[0])
                return NAN if not x >= 0 else (-E.INF if x == 0 else self.M.log(x))
            if k in ("sin", "cos"):
                x = self.poly(a.args[0])
                return NAN if x != x or abs(x) == E.INF else getattr(math, k)(x)
            if k == "floor":
                x = self.poly(a.args[0])
                return x if x != x or abs(x) == E.INF else self.F(self.M.floor(x))
            if k == "E":
                x = self.poly(a.args[0])
                return E.INF if x > 700 else self.M.exp(x)
            if k in ("atan", "atan2", "P"):
                x = [self.poly(y) if isinstance(y, E.Poly) else self.node(y) for y in a.args]
                return x[0] if k == "P" else (self.M.atan(x[0]) if k == "atan" else self.M.atan2(x[0], x[1]))
        except OverflowError:
            return NAN
        if self.strict:
            raise Opaque("%s %s" % (k, a.args[0] if a.args and isinstance(a.args[0], str) else ""))
        return super()._atom(a)

    def poly(self, p):
        t = 0.0
        for m, c in p.terms:
            x = self.coef(c)
            for a, e in m:
                v = self.atom(a)
                if e == 1:
                    x *= v
                    continue
                if v != v:
                    x = NAN
                    continue
                e = e if isinstance(e, int) else self.X(float(e))
                if v < 0 and not isinstance(e, int) and e != int(e):
                    v = 0.0 if v > -1e-9 else NAN
                if v == 0 and e < 0:
                    x *= E.INF
                else:
                    try:
                        x *= v ** e
                    except OverflowError:
                        x = E.INF
            t += x
        return t

    def unordered(self, n):
        """every comparison with NaN is false (!= is true); minimum and maximum with NaN are NaN"""
        r = {-1: self.node(n.n), 0: self.node(n.z), 1: self.node(n.p)}
        if all(x != x for x in r.values()) or r[-1] == r[0] == r[1]:
            return r[0]
        marks = E.POL.get(n.test.id)
        if not marks:
            raise Opaque("comparison with a value that is not a number")
        if marks == {"nan"}:
            return NAN
        if "nan" in marks:
            raise Opaque("comparison with a value that is not a number")
        ok = {-1, 0, 1}
        for t in marks:
            ok &= {-1, 1} if t == (-1, 1) else {-1, 0, 1} - set(t)
        v = [r[x] for x in sorted(ok, key=lambda x: x == 0)]
        if not v or len(v) == 2 and 0 not in ok and v[0] != v[1] and not (v[0] != v[0] and v[1] != v[1]):
            raise Opaque("comparison with a value that is not a number")
        return v[0]

    def node(self, n):
        while n.leaf is None:
            t = self.poly(n.test)
            if t != t:
                return self.unordered(n)
            if abs(t) < 1e-12:
                s = 0
            else:
                self.margin = min(self.margin, abs(t))
                s = 1 if t > 0 else -1
            n = n.n if s < 0 else (n.z if s == 0 else n.p)
        return self.poly(n.leaf)


_MP = []


def mp_eval(base, salt=0):
    """the same evaluation in 50-digit arithmetic: separates a difference of the formulas from cancellation"""
    if not _MP:
        try:
            import mpmath
        except ImportError:
            import sys
            sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
            try:
                import mpmath
            except ImportError:
                _MP.append(None)
                return None
        mpmath.mp.dps = 50

        class MPEval(Eval):
            M = mpmath
            F = staticmethod(mpmath.mpf)

            @staticmethod
            def X(e):
                f = Fraction(e).limit_denominator(720)
                return mpmath.mpf(f.numerator) / f.denominator if abs(float(f) - e) < 1e-14 else mpmath.mpf(e)

            def coef(self, c):
                # the coefficients of a normal form are rounded: two perturbations show how much that matters
                if c != int(c) or abs(c) > 1e9:
                    self.k += 1
                    return mpmath.mpf(c) * (1 + mpmath.mpf(((self.k * 2654435761 + self.salt) % 2001) - 1000) * mpmath.mpf("4e-19"))
                return mpmath.mpf(c)

            def hoangle(self, n2):
                w = ho_angle(float(n2))
                if w != w or w == 0:
                    return mpmath.mpf(w)
                w, t = mpmath.mpf(w), (n2 ** (mpmath.mpf(3) / 2)) / mpmath.mpf("0.75")
                for _ in range(6):
                    w -= (w - mpmath.sin(w) - t) / (1 - mpmath.cos(w))
                return w
        _MP.append(MPEval)
    if _MP[0] is None:
        return None
    ev = _MP[0](base)
    ev.k, ev.salt = 0, salt * 777
    return ev


def ho_angle(n2):
    """w with 3/4 (w - sin w) = n2^(3/2)"""
    if n2 != n2 or n2 < 0:
        return NAN
    t = n2 ** 1.5 / 0.75
    lo, hi = 0.0, 4.0
    for _ in range(70):
        m = (lo + hi) / 2
        if m - math.sin(m) < t:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def lds(nodes):
    """input elements occurring in the nodes"""
    r = {}
    for n in nodes:
        for a in E.node_atoms(n):
            if a.kind == "ld":
                r[(a.args[0], tuple(x for x in a.args[1] if isinstance(x, int)))] = a
            elif a.kind in ("sym", "s", "psym"):
                r[("sym", a.args)] = a
    return r


def assignment(values, syms=None):
    """values: {input name: vector (list) or nested list}; -> base function for Eval"""
    def base(a):
        if a.kind == "ld":
            v = values.get(a.args[0])
            if v is None:
                return None
            for i in a.args[1]:
                if isinstance(i, int):
                    if not isinstance(v, (list, tuple)):
                        return None
                    v = v[i]
            return float(v) if not isinstance(v, (list, tuple)) else None
        if syms is not None:
            return syms(a)
        return None
    return base


def differ(x, y, tol):
    if y != y:
        return False          # reference undefined here: nothing claimed
    if x != x:
        return True
    if x == y:
        return False
    return not abs(x - y) <= tol * (1 + abs(y))


class Trace(Eval):
    """evaluation that remembers the sign of every branch condition it meets"""

    def __init__(self, base):
        super().__init__(base)
        self.signs = {}

    def node(self, n):
        while n.leaf is None:
            t = self.poly(n.test)
            s = 0 if abs(t) < 1e-12 else (1 if t > 0 else -1)
            if t == t:
                self.signs[n.test.id] = (n.test, s)
            if t != t:
                r = [self.node(x) for x in (n.n, n.z, n.p)]
                return r[0] if r[0] == r[1] == r[2] else NAN
            n = n.n if s < 0 else (n.z if s == 0 else n.p)
        return self.poly(n.leaf)


def unit_list(v):
    return all(isinstance(x, (int, float)) for x in v) and abs(sum(x * x for x in v) - 1) < 1e-9


def between(a, b, t):
    """the point at parameter t of a path between two domain points: great arcs between unit vectors, straight lines else"""
    if isinstance(a, (list, tuple)):
        if a and isinstance(a[0], (list, tuple)):
            return None
        if any(abs(x) == E.INF for x in list(a) + list(b)):
            if len(a) == 4 and abs(a[3]) == E.INF or abs(b[3]) == E.INF:
                w = math.atan(a[3]) * (1 - t) + math.atan(b[3]) * t
                v = between(list(a[:3]), list(b[:3]), t)
                return None if v is None else v + [math.tan(w)]
            return None
        m = [x * (1 - t) + y * t for x, y in zip(a, b)]
        for k in ((len(a), 3) if len(a) == 4 else (len(a),)):
            if k >= 3 and unit_list(a[:k]) and unit_list(b[:k]):
                n = math.sqrt(sum(x * x for x in m[:k]))
                return None if n < 1e-2 else [x / n for x in m[:k]] + m[k:]
        return m
    if float(a) == float(b):
        return a
    return a * (1 - t) + b * t


def path(a, b, t):
    r = {}
    for q in a:
        if q == "q":
            continue
        x, y = a[q], b[q]
        if "q" in a and isinstance(x, (list, tuple)) and isinstance(x[0], (list, tuple)):
            continue
        r[q] = between(x, y, t)
        if r[q] is None:
            return None
    if "q" in a:
        q = between(a["q"], b["q"], t)
        if q is None:
            return None
        r["q"] = q
        from .refs import n_om
        for nm in a:
            if nm not in r:
                r[nm] = n_om(q)
    return r


def dist(a, b):
    s = 0.0
    for q in a:
        x, y = a[q], b.get(q)
        if isinstance(x, (list, tuple)):
            if x and isinstance(x[0], (list, tuple)):
                continue
            for u, v in zip(x, y):
                s += 9.0 if abs(u) == E.INF or abs(v) == E.INF else (u - v) ** 2
        else:
            s += 4 * (x - y) ** 2 if isinstance(x, (int, float)) and isinstance(y, (int, float)) else (0 if x == y else 1e9)
    return s


MAXTEST, MAXPTS, STEPS = 14, 60, 12


def brackets(nodes, points, syms):
    """points of the domain on both sides of the branch conditions of the normal forms, found by bisection
    along paths between given points where a condition has different signs"""
    if any(isinstance(v, (list, tuple)) and v and isinstance(v[0], (list, tuple)) and "q" not in pt
           for pt in points[:1] for v in pt.values()):
        return []
    points = points[::max(1, len(points) // MAXPTS)] if len(points) > MAXPTS else points
    sgn = {}
    for i, pt in enumerate(points):
        ev = Trace(assignment(pt, syms))
        try:
            for n in nodes:
                ev.node(n)
        except (Opaque, E.Undef):
            continue
        for tid, (p, s) in ev.signs.items():
            sgn.setdefault(tid, (p, [], []))
            if s:
                sgn[tid][1 if s < 0 else 2].append(i)
    todo = [v for k, v in sorted(sgn.items()) if v[1] and v[2]]
    step = max(1.0, len(todo) / MAXTEST)
    out = []
    j = 0.0
    while int(j) < len(todo):
        p, neg, pos = todo[int(j)]
        j += step
        ds = sorted((dist(points[a], points[b]), a, b) for a in neg[:12] for b in pos[:12])
        for d, a, b in ds[:1] + ds[len(ds) // 2:len(ds) // 2 + 1]:
            if d >= 1e8:
                continue
            lo, hi = 0.0, 1.0
            ok = True
            for _ in range(STEPS):
                m = (lo + hi) / 2
                pt = path(points[a], points[b], m)
                if pt is None:
                    ok = False
                    break
                try:
                    v = Eval(assignment(pt, syms)).poly(p)
                except (Opaque, E.Undef):
                    ok = False
                    break
                if v < 0:
                    lo = m
                else:
                    hi = m
            if ok:
                # a small step towards a third point, off every face where two cases tie
                third = points[(a * 7 + b * 3 + 1) % len(points)]
                for t in (lo, hi):
                    x = path(points[a], points[b], t)
                    x = x and path(x, third, 1e-5)
                    if x is not None:
                        out.append(x)
    return out


def agree(nodes, refs, points, tol=1e-6, syms=None, bracket=True):
    """-> ('same'|'agree'|'differ'|'opaque', text, number of points)"""
    if len(nodes) != len(refs):
        return "differ", "%d components, %d expected" % (len(nodes), len(refs)), 0
    if all(a is b for a, b in zip(nodes, refs)):
        return "same", "normal forms identical", 0
    k = ill = 0
    for pt in points:
        base = assignment(pt, syms)
        ev = Eval(base)
        try:
            a = [ev.node(n) for n in nodes]
            b = [ev.node(n) for n in refs]
        except Opaque as e:
            return "opaque", str(e), k
        except E.Undef:
            continue
        k += 1
        ev2 = None
        for i, (x, y) in enumerate(zip(a, b)):
            if differ(x, y, tol):
                ev2 = ev2 or mp_eval(base)
                if ev2 is not None and y == y:
                    x2, y2 = ev2.node(nodes[i]), ev2.node(refs[i])
                    if not differ(x2, y2, tol):
                        continue
                    x3 = mp_eval(base, 1).node(nodes[i])
                    if x2 == x2 and x3 == x3 and abs(x2) != E.INF and abs(x2 - x3) > abs(x2 - y2) / 20:
                        ill += 1
                        break
                    x, y = float(x2), float(y2)
                return ("differ", "component %d is %.7g where the reference is %.7g, for %s" % (
                    i, x, y, {q: [round(w, 6) if isinstance(w, float) else w for w in v]
                              if isinstance(v, (list, tuple)) else v for q, v in pt.items()}), k)
    if k == 0:
        return "opaque", "no evaluable point", 0
    if bracket and len(points) > 1:
        extra = brackets(list(nodes) + list(refs), points, syms)
        if extra:
            st, txt, n = agree(nodes, refs, extra, tol, syms, bracket=False)
            if st == "differ":
                return st, txt, k + n
            k += n
    return "agree", "agree at %d points of the domain" % k, k
