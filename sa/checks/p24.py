"""Physical quantities of dynamical diffraction have their definitions."""
import cmath
import itertools
import math
from fractions import Fraction
from .. import expr as E
from ..compare import Eval, Opaque
from ..calls import *
from ..loader import Repo
from ..interp import Interp
from .p20 import C
from .p22 import big, crystal, rmetric, listed, CENTRE, D, SF

PI = math.pi
EULER = 0.5772156649015329
WK, HY, LV = SF + "scattering_factors_WK:", SF + "scattering_factors_Hybrid:", SF + "scattering_factors_LVD_TCB:"
# published fits of four elements: Weickenmeier-Kohl A and B, Lobato-Van Dyck a and b
FIT = {
    6: ((0.04102, 0.04911, 0.05296, 0.00061), (0.41335, 10.98289, 34.80286, 177.191132),
        (124.4660886213433, -220.3528570789638, 195.2353522804791, -98.10793612697996, 0.01420230412136232, 2.421208492560056, 2.305379437524258, 2.048519321065642, 1.933525529175474, 0.07689768184783397)),
    14: ((0.03812, 0.17833, 0.0628, 0.05605), (0.05396, 1.86461, 22.542629, 72.431442),
         (2.871891426116124, -2.061735011951735, 2.171140242044787, -0.06630736330588019, 0.003010707096705137, 5.084871036429896, 0.4291781853051262, 0.3664854341921622, 0.1197106112969034, 0.01439945361283975)),
    31: ((0.16157, 0.32976, 0.18964, 0.06148), (0.10455, 2.18391, 9.04125, 75.169579),
         (2.760102031084283, -34.44526142074679, 35.22622672440163, 0.01320671969994199, 0.0001259455609282457, 6.101282245376627, 0.7651433135534649, 0.7513286233828597, 0.02248796343172512, 0.002067373742787123)),
    79: ((0.4085, 0.83052, 0.53325, 0.11978), (0.05151, 1.00803, 8.03707, 45.017578),
         (1.675934670648708, 3.004866029697293, 0.5953400131616355, 0.01171631866230948, 4.296782976398171e-05, 5.522310932114025, 1.380072230071963, 0.1622292376559454, 0.009018148904165756, 0.0003792776674776671)),
}


# ---- references -------------------------------------------------------------------------------------------------
def ei(x):
    if x < -2:
        x = -x      # continued fraction of E1
        f = 0.0
        for k in range(120, 0, -1):
            f = k / (1 + k / (x + f))
        return -math.exp(-x) / (x + f)
    s, t = 0.0, 1.0
    for k in range(1, 400):
        t *= x / k
        s += t / k
        if abs(t) < 1e-18 * max(1.0, abs(s)) and k > abs(x):
            break
    return EULER + math.log(abs(x)) + s


def scaled(x):
    """x exp(-x) Ei(x)"""
    if x < 40:
        return x * math.exp(-x) * ei(x)
    s, t, k = 1.0, 1.0, 1
    while k < x and t > 1e-17:
        t *= k / x
        s += t
        k += 1
    return s


def diff(y, a, b):
    """exp(-y) (Ei(a) - Ei(b))"""
    f = lambda x: math.exp(x - y) * scaled(x) / x
    return f(a) - f(b)


def wavelength(kV):
    """in nm"""
    h, m, e, c = 6.62607015e-34, 9.1093837e-31, 1.602176634e-19, 2.99792458e8
    v = kV * 1000
    return 1e9 * h / math.sqrt(2 * m * e * v * (1 + e * v / (2 * m * c * c)))


def elastic(z, s, fit):
    if fit == "WK":
        return sum(a * b if b * s * s < 1e-6 else a * -math.expm1(-b * s * s) / (s * s) for a, b in zip(*FIT[z][:2]))
    f = FIT[z][2]
    g2 = 4 * s * s
    return sum(f[k] * (2 + f[5 + k] * g2) / (1 + f[5 + k] * g2) ** 2 for k in range(5))


def core(z, G, kV):
    k0 = 0.1 * 2 * PI / wavelength(kV)
    a0 = 0.5289
    te = 6e-3 * z / (2 * kV) * (2 * kV + 1022) / (kV + 1022)
    r = 0.885 * a0 / z ** (1 / 3)
    ta = 1 / (k0 * r)
    o, kp = G * r, te / ta
    k2, o2 = kp * kp, o * o
    x1 = 0.0 if o == 0 else o / ((1 + o2) * math.sqrt(o2 + 4 * k2)) * math.log((o + math.sqrt(o2 + 4 * k2)) / (2 * kp))
    w = math.sqrt((1 + o2) ** 2 + 4 * k2 * o2)
    x2 = math.log((1 + 2 * k2 + o2 + w) / (2 * kp * math.sqrt(1 + k2))) / w
    v = math.sqrt(o2 + 4 * (1 + k2))
    x3 = 1 / (4 * (1 + k2)) if o < 1e-4 else math.log((o + v) / (2 * math.sqrt(1 + k2))) / (o * v)
    return 4 / (a0 * a0) * 2 * PI / (k0 * k0) * 2 * z / (ta * ta) * (-x1 + x2 - x3)


def phonon(z, G, u):
    q = (4 * PI) ** 2
    A, B = [a * q for a in FIT[z][0]], [b / q for b in FIT[z][1]]
    M, g2 = 0.5 * u * u, G * G
    t = 0.0
    for a, b in itertools.product(zip(A, B), repeat=2):
        (ai, bi), (aj, bj) = a, b
        if G == 0:
            i1 = PI * (bi * math.log((bi + bj) / bi) + bj * math.log((bi + bj) / bj))
            i2 = PI * ((bi + 2 * M) * math.log((bi + bj + 2 * M) / (bi + 2 * M)) + (bj + 2 * M) * math.log((bi + bj + 2 * M) / (bj + 2 * M))
                       + 2 * M * math.log(2 * M / (bi + bj + 2 * M)))
            # equation 19, with the logarithms collected
            i2 = PI * ((bi + 2 * M) * math.log((bi + bj + 2 * M) / (bi + 2 * M)) + bj * math.log((bi + bj + 2 * M) / (bj + 2 * M)) + 2 * M * math.log(2 * M / (bj + 2 * M)))
        else:
            i1 = PI / g2 * (2 * EULER + math.log(bi * g2) + math.log(bj * g2) - 2 * ei(-bi * bj * g2 / (bi + bj))
                            + diff(bi * g2, bi * bi * g2 / (bi + bj), bi * g2) + diff(bj * g2, bj * bj * g2 / (bi + bj), bj * g2))
            mi, mj, mm = bi + M, bj + M, bi + bj + 2 * M
            i2 = PI / g2 * (2 * (ei(-M * mi * g2 / (bi + 2 * M)) + ei(-M * mj * g2 / (bj + 2 * M)) - ei(-mi * mj * g2 / mm) - ei(-0.5 * M * g2))
                            + diff(M * g2, 0.5 * M * g2, M * M * g2 / (bi + 2 * M)) + diff(M * g2, 0.5 * M * g2, M * M * g2 / (bj + 2 * M))
                            + diff(mi * g2, mi * mi * g2 / mm, mi * mi * g2 / (bi + 2 * M)) + diff(mj * g2, mj * mj * g2 / mm, mj * mj * g2 / (bj + 2 * M)))
        t += ai * aj * (math.exp(-M * g2) * i1 - i2)
    return t


CACHE = {}


def factor(z, d, u, kV, fit, inc_core=True, inc_phonon=True):
    """complex scattering factor at the reciprocal length d (1/Angstrom)"""
    key = (z, round(d, 9), u, kV, fit, inc_core, inc_phonon)
    if key not in CACHE:
        G = 2 * PI * d
        dw = math.exp(-0.5 * u * u * G * G)
        gam = 1 + kV / 511.0
        k0 = 0.1 * 2 * PI / wavelength(kV)
        im = ((core(z, G, kV) * dw if inc_core else 0) + (phonon(z, G, u) if inc_phonon else 0)) * gam ** 2 / (4 * PI * k0)
        CACHE[key] = complex(elastic(z, d / 2, fit) * dw * gam, im if fit == "WK" else max(im, 0.0))
    return CACHE[key]


# ---- evaluation of complex normal forms ---------------------------------------------------------------------------
class CEval(Eval):
    def _atom(self, a):
        if a.kind == "fn":
            nm = a.args[0]
            if nm == "complex":
                if len(a.args) == 2:
                    return complex(str(a.args[1]).strip("'"))
                re, im = [self.node(x) for x in a.args[1:]]
                return re + 1j * im
            if nm in ("real", "imag"):
                return getattr(complex(self.arg(a.args[1])), nm)
            if nm in ("c:abs", "abs"):
                return abs(self.arg(a.args[1]))
            if nm in ("conj", "c:conj"):
                return complex(self.arg(a.args[1])).conjugate()
            if nm in ("angle", "c:angle"):
                return cmath.phase(self.arg(a.args[1]))
        if a.kind == "E":
            return cmath.exp(self.poly(a.args[0]))
        v = super()._atom(a)
        return v

    def arg(self, x):
        return self.node(x) if isinstance(x, E.Node) else self.poly(x)

    def poly(self, p):
        t = 0.0
        for m, c in p.terms:
            x = self.coef(c)
            for a, e in m:
                e = e if isinstance(e, int) else float(e)
                if a.kind == "E":
                    x *= cmath.exp(self.poly(a.args[0]) * e)
                else:
                    v = self.atom(a)
                    if isinstance(v, complex) and v.imag == 0 and not isinstance(e, int):
                        v = v.real
                    x *= v ** e
            t += x
        return t.real if isinstance(t, complex) and t.imag == 0 else t


def values(nodes):
    ev = CEval(lambda a: None)
    try:
        return [ev.node(n) for n in nodes]
    except (Opaque, ZeroDivisionError, OverflowError, TypeError, ValueError):
        return None


class Job:
    """run one function and compare its enumerated result with reference numbers"""

    def __init__(self, p, q, label):
        self.p, self.q, self.label = p, q, label
        self.repo = Repo()
        big()
        self.r = self.repo.find(q)
        if self.r is None:
            p.missing(q)
            return
        self.fn = q.split(":")[1]
        self.I = Interp(self.repo, q)

    def compare(self, res, want, shape, tol, floor, kind, names=None):
        p, I = self.p, self.I
        p.saw(I)
        p.count("values", len(want))
        where = "%s %s" % (self.fn, self.label)
        t = I.tensor(I.resolve(res))
        bad = [e for e in I.events if e.kind == "shape_error"]
        if bad:
            p.viol(self.r[0].rel, self.fn, "fails", "%s: %s" % (where, str(bad[0])[:200]), line=self.r[1].lineno)
            return
        if t is not None and t.shape is not None and all(d.c is not None for d in t.shape) and [d.c for d in t.shape] != shape:
            p.viol(self.r[0].rel, self.fn, kind, "%s: the result has extents %s instead of %s" % (where, [d.c for d in t.shape], shape), line=self.r[1].lineno)
            return
        got = None
        if t is not None and t.shape is not None and t.k == len(t.shape) and len(t.comps) == len(want):
            if any("uninit" in str(x.args[0]) for c in t.comps for x in E.node_atoms(c) if x.kind == "fn"):
                got = [None]
            got = values(t.comps)
        if got is None:
            p.undecided(where, kind, "not a closed constant")
            return
        for j, (g, w) in enumerate(zip(got, want)):
            if not abs(g - w) <= tol * abs(w) + floor:
                p.viol(self.r[0].rel, self.fn, kind, "%s%s: %s where the definition gives %s" % (where, "" if names is None else ", " + names[j], show(g), show(w)), line=self.r[1].lineno)
                return
        p.ok(where, kind, "%d values" % len(want))


def show(x):
    x = complex(x)
    return "%.6g" % x.real if x.imag == 0 else "%.6g%+.6gi" % (x.real, x.imag)


def special(p, mod):
    for fn, xs, ref, tol in (
            ("exp1", (.013, .21, .77, 1.0, 1.31, 2.9, 7.7, 17.0), lambda x: -ei(-x), 1e-5),
            ("expi", (-23.0, -3.1, -1.0, -.33, -.004, .0021, .19, .3725, .77, 1.9, 5.3, 6.0, 6.7, 9.1, 11.3, 19.0, 20.0, 23.0, 33.0, 39.0), ei, 1e-5),
            ("RIH2_torch", (20.1, 21.3, 25.7, 33.1, 39.7, 47.9, 66.1, 88.0, 131.0, 199.0, 230.0, 511.0), scaled, 5e-5)):
        j = Job(p, mod + fn, "at %d arguments" % len(xs))
        if j.r:
            res = j.I.run(j.q, [build(j.I, [len(xs)], list(xs))])
            j.compare(res, [ref(x) for x in xs], [len(xs)], tol, 0.0, "special function", ["argument %g" % x for x in xs])
    tr = [(1.1, .7, .3), (4.3, 3.1, 2.9), (17.0, 9.0, 16.0), (33.0, 27.0, 14.0), (36.0, 25.0, 31.0), (29.0, 12.0, 29.0), (95.0, 41.0, 77.0), (31.0, 22.0, 30.9), (25.0, 20.0, 25.0), (24.0, 23.0, 20.0)]
    j = Job(p, mod + "RIH1_torch_where", "at %d triples" % len(tr))
    if j.r:
        res = j.I.run(j.q, [build(j.I, [len(tr)], [t[k] for t in tr]) for k in range(3)])
        j.compare(res, [diff(*t) for t in tr], [len(tr)], 1e-4, 0.0, "special function", ["arguments %g, %g, %g" % t for t in tr])
    j = Job(p, mod + "evaluate_polynomial", "at 3 points")
    if j.r:
        res = j.I.run(j.q, [I_list(j.I, (1.5, -2.25, .75, 3.0)), build(j.I, [3], [-1.3, .4, 2.2])])
        j.compare(res, [1.5 - 2.25 * x + .75 * x * x + 3 * x ** 3 for x in (-1.3, .4, 2.2)], [3], 1e-9, 0.0, "polynomial")


def I_list(I, xs):
    return I.newloc(Lst([Num(x) for x in xs]))


def waves(p, mod):
    vs = (1.0, 5.0, 12.3, 20.0, 30.0, 100.0, 300.0)
    j = Job(p, mod + "e_wavelength_eV_to_A", "at %d energies" % len(vs))
    if j.r:
        j.compare(j.I.run(j.q, [build(j.I, [len(vs)], [1000 * v for v in vs])]), [10 * wavelength(v) for v in vs], [len(vs)], 1e-5, 0.0, "wavelength", ["%g kV" % v for v in vs])


def lambdas(p, _):
    vs = (1.0, 5.0, 12.3, 20.0, 30.0, 100.0, 300.0)
    for k, ref in enumerate((wavelength, lambda v: 1 + v / 510.99895, lambda v: 1000 * v * (1 + v / 2 / 510.99895))):
        j = Job(p, D + "calc_lambda", ("wavelength", "relativistic factor", "relativistic potential")[k])
        if j.r:
            res = j.I.resolve(j.I.run(j.q, [build(j.I, [len(vs)], list(vs))]))
            if not isinstance(res, Tup) or len(res.items) != 3:
                p.undecided("calc_lambda", "wavelength", "not three results")
                continue
            j.compare(res.items[k], [ref(v) for v in vs], [len(vs)], 1e-4, 0.0, "wavelength", ["%g kV" % v for v in vs])


GS = (0.0, .06, .31, .55, .97, 1.9, 3.3)


def factors(p, item):
    mod, fn, fit, inc, ret = item[:5]
    one = len(item) > 5                       # plain numbers, valid for all elements
    zs, us, kv = (14, 31, 79, 6), (.081, .063, .11, .05), (12.0, 27.0)
    if one:
        us, kv = (.081,) * 4, (12.0, 12.0)
    inp2 = 1.0 if fit == "LVD" or ret == "ITC" else 2 * PI      # the unit of the argument
    j = Job(p, mod + fn, "core losses %s, thermal losses %s, %s%s" % (*inc, ret, ", one displacement and voltage" if one else ""))
    if not j.r:
        return
    I = j.I
    res = I.run(j.q, [build(I, [len(GS)], [g * inp2 for g in GS]), build(I, [4], list(zs), dt="i64"), val(us[0]) if one else build(I, [4], list(us)), val(kv[0]) if one else build(I, [2], list(kv))],
                dict(include_core=val(inc[0]), include_phonon=val(inc[1]), return_type=val(ret)))
    names, want = [], []
    for v, (z, u), g in itertools.product(kv if ret == "EMsoft" and not one else kv[:1], zip(zs, us), GS):
        names.append("element %d at %g per Angstrom, %g kV" % (z, g, v))
        want.append(factor(z, g, u, v, fit, *inc) if ret == "EMsoft" else elastic(z, g / 2, fit))
    if fit == "LVD" and ret == "EMsoft":
        j.compare(res, want, [1 if one else 2, 4, len(GS)], 2e-3, 2e-3, "scattering factor", names)
    else:
        j.compare(res, want, [2 if ret == "EMsoft" and not one else 1, 4, len(GS)], 2e-3, 2e-3, "scattering factor", names)
    if ret == "EMsoft":
        # the imaginary part on its own: it is small beside the real one
        t = I.tensor(I.resolve(res))
        got = values(t.comps) if t is not None and t.k == 3 and t.shape and len(t.comps) == len(want) else None
        if got is not None:
            for n, g, w in zip(names, got, want):
                if abs(complex(g).imag - w.imag) > 4e-3 * abs(w.imag) + 2e-5:
                    p.viol(j.r[0].rel, j.fn, "scattering factor", "%s %s, %s: imaginary part %s where the definition gives %s" % (j.fn, j.label, n, show(complex(g).imag), show(w.imag)), line=j.r[1].lineno)
                    return


def tables(p, _):
    """the two published fits describe the same elements"""
    gs = (.2, .4, .8, 1.3, 2.0)
    zs = list(range(1, 99))
    vals = {}
    for q, kind in ((WK + "scatter_factor_WK", "f"), (HY + "scatter_factor_hybrid", "f"), (LV + "eval_LVD_fit", "e"), (HY + "eval_LVD_fit", "e")):
        j = Job(p, q, "all elements")
        if not j.r:
            return
        I = j.I
        if kind == "f":
            res = I.run(j.q, [build(I, [5], list(gs)), build(I, [98], zs, dt="i64"), build(I, [98], [.05] * 98), build(I, [1], [20.0])], dict(return_type=val("ITC")))
        else:
            res = I.run(j.q, [build(I, [98, 1], zs, dt="i64"), build(I, [1, 5], [g / 2 for g in gs])])
        p.saw(I)
        t = I.tensor(I.resolve(res))
        v = values(t.comps) if t is not None and t.shape and t.k == len(t.shape) and len(t.comps) == 490 else None
        if v is None:
            p.undecided(q, "tables", "not closed constants")
            return
        vals[q] = v
        p.count("values", 490)
    ref = vals[HY + "eval_LVD_fit"]
    for q, v in vals.items():
        r = Repo().find(q)
        for n, (x, y) in enumerate(zip(v, ref)):
            z, g = zs[n // 5], gs[n % 5]
            tol = (.1 if g < .3 else .03) if q.startswith(WK) else 1e-5
            if not abs(x - y) <= tol * abs(y):
                p.viol(r[0].rel, q.split(":")[1], "tables", "element %d at %g per Angstrom: %.5g, and %.5g by the other fit" % (z, g, x, y), line=r[1].lineno)
                return
    p.ok("fits", "tables", "98 elements")


def simpson(p, _):
    for n in (5, 6, 9, 10, 3):
        xs = [0.3 * k + 0.07 * k * k + 0.011 * (k % 3) for k in range(n)]
        j = Job(p, LV + "simpson_composite", "over %d points" % n)
        if not j.r:
            return
        co = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.7, -1.3, 2.1)]
        ys = [a + b * x + c * x * x for a, b, c in co for x in xs]
        F_ = lambda c, x: c[0] * x + c[1] * x * x / 2 + c[2] * x ** 3 / 3
        j.compare(j.I.run(j.q, [build(j.I, [3, n], ys), build(j.I, [n], xs)]), [F_(c, xs[-1]) - F_(c, xs[0]) for c in co], [3], 1e-9, 0.0, "quadrature")
    j = Job(p, LV + "integrand", "at 6 points")
    if j.r:
        I = j.I
        pts = [(z, sx, sy, s, m) for z, (sx, sy, s, m) in itertools.product((14, 79), ((.3, .1, .4, .5), (.02, .9, .7, .3), (1.3, .4, .2, .9)))]
        res = I.run(j.q, [build(I, [6], [t[1] for t in pts]), build(I, [6], [t[2] for t in pts]), build(I, [6], [t[3] for t in pts]), build(I, [6], [t[4] for t in pts]), build(I, [6], [t[0] for t in pts], dt="i64")])
        want = [elastic(z, math.hypot(s / 2 + sx, sy), "LVD") * elastic(z, math.hypot(s / 2 - sx, sy), "LVD") * -math.expm1(-2 * m * (sx * sx + sy * sy - s * s / 4)) for z, sx, sy, s, m in pts]
        j.compare(res, want, [6], 1e-6, 0.0, "thermal integrand")


# ---- structure ------------------------------------------------------------------------------------------------------
def sites(I, repo, l, zs):
    o = crystal(I, repo, l)
    ob = I.deref(I.resolve(o))
    pos = [[.1237, .2711, .3853], [.9, .45, .13]], [[.52, .77, .31]]
    occ, B = (.83, .64), (.0061, .0043)
    ob.attrs["apos"] = I.newloc(Lst([build(I, [len(s), 3], [x for r in s for x in r]) for s in pos]))
    ob.attrs["mults"] = build(I, [2], [2, 1], dt="i64")
    ob.attrs["atom_types"] = build(I, [2], list(zs), dt="i64")
    ob.attrs["atom_data"] = build(I, [2, 5], [x for s, c, b in zip(pos, occ, B) for x in s[0] + [c, b]])
    return o, list(zip(zs, pos, occ, B))


def volume(l):
    a, b, c, x, y, z = l
    return a * b * c * math.sqrt(1 - math.cos(x) ** 2 - math.cos(y) ** 2 - math.cos(z) ** 2 + 2 * math.cos(x) * math.cos(y) * math.cos(z))


def matrices(p, item):
    fn, l, dmin, kw = item
    j = Job(p, D + fn, "(%s) for a cell of %s nm" % (", ".join("%s=%s" % x for x in sorted(kw.items())), "/".join("%g" % x for x in l[:3])))
    if not j.r:
        return
    I = j.I
    kv = (12.0, 27.0)
    o, st = sites(I, j.repo, l, (14, 31))
    I.events[:] = []
    res = I.resolve(I.run(j.q, [o], dict(dmin=Num(dmin), voltages_kV=build(I, [2], list(kv), dt="f32"), **{k: val(v) for k, v in kw.items()})))
    hs, h = enumerated(I, res.items[0]) if isinstance(res, Tup) and len(res.items) == 4 else (None, None)
    if h is None:
        p.undecided(j.label, "beams", "not a closed constant")
        return
    hkl = [tuple(int(v) for v in h[i:i + 3]) for i in range(0, len(h), 3)]
    if len(set(hkl)) != len(hkl) or not set(hkl) <= listed(l, dmin, CENTRE[1][1]) | {(0, 0, 0)}:
        return
    m, fit = rmetric(l), {"WK": "WK", "Hybrid": "LVD"}[kw.get("scatter_factor", "WK")]
    inc = kw.get("include_core", True), kw.get("include_phonon", True)
    pref, preg, absorb = 0.04787801 / volume(l), 0.664840340614319, kw.get("absorption", True)

    def sums(d, v):
        s = 0.1 * math.sqrt(sum(d[a] * m[a][b] * d[b] for a in range(3) for b in range(3)))
        ff = gg = 0
        for z, pos, occ, B in st:
            f = factor(z, s, 10 * math.sqrt(B / 8) / PI, v, fit, *inc)
            ph = occ * sum(cmath.exp(-2j * PI * sum(x * y for x, y in zip(d, r))) for r in pos)
            ff, gg = ff + ph * f.real, gg + ph * f.imag
        return ff, gg
    want, names, lam, up0 = [], [], [], []
    sc = 0.0
    memo = {}
    for v in kv:
        f0, g0 = sums((0, 0, 0), v)
        lam.append(1.22642584554 / math.sqrt(pref * abs(f0) + 1000 * v * (1 + 0.00097847561649 * v)))
        up0.append(preg * pref * abs(g0))
        for a, b in itertools.product(hkl, hkl):
            d = tuple(y - x for x, y in zip(a, b))
            if (d, v) not in memo:
                memo[d, v] = sums(d, v)
            ff, gg = memo[d, v]
            u = pref * preg * (ff + 1j * gg if absorb else ff)
            if fn.endswith("scatter_matrix"):
                u *= lam[-1]
                if not kw.get("apply_qg_shift", True):
                    u *= cmath.exp(-1j * cmath.phase(ff))
                if not absorb:
                    u = abs(u)
            sc = max(sc, abs(u))
            want.append(u)
            names.append("beams %s and %s at %g kV" % (a, b, v))
    n = len(hkl)
    j.compare(res.items[1], want, [2, n, n], 3e-3, 1e-5 * sc, "potential", names)
    j.compare(res.items[3], lam, [2], 3e-6, 0.0, "wavelength in the crystal", ["%g kV" % v for v in kv])
    if absorb:
        j.compare(res.items[2], up0 if fn.endswith("formalism") else [1 / (a * b) for a, b in zip(up0, lam)], [2], 3e-3, 0.0, "mean absorption", ["%g kV" % v for v in kv])


def sgh(p, l):
    j = Job(p, D + "calc_sgh", "for a cell of %s nm" % "/".join("%g" % x for x in l[:3]))
    if not j.r:
        return
    I = j.I
    dmin = max(l[:3]) / 1.45
    o, st = sites(I, j.repo, l, (14, 31))
    refl = method(I, j.repo, o, "get_reflections", dmin, False)
    _, h = enumerated(I, refl)
    I.events[:] = []
    res = I.run(j.q, [o, Num(dmin)])
    if h is None:
        p.undecided(j.label, "beams", "not a closed constant")
        return
    hkl = [(0, 0, 0)] + [tuple(int(v) for v in h[i:i + 3]) for i in range(0, len(h), 3)]
    m = rmetric(l)
    want, names = [], []
    for (z, pos, occ, B), a, b in itertools.product(st, hkl, hkl):
        d = [y - x for x, y in zip(a, b)]
        s2 = 0.25 * sum(d[i] * m[i][k] * d[k] for i in range(3) for k in range(3))
        want.append(z * z * occ * math.exp(-B * s2) * sum(cmath.exp(2j * PI * sum(x * y for x, y in zip(d, r))) for r in pos))
        names.append("element %d, beams %s and %s" % (z, a, b))
    j.compare(res, want, [2, len(hkl), len(hkl)], 1e-5, 1e-6, "site factor", names)


def excitation(p, item):
    q, l = item
    j = Job(p, q, "for a cell of %s nm" % "/".join("%g" % x for x in l[:3]))
    if not j.r:
        return
    I = j.I
    m = rmetric(l)
    gs = [(0, 0, 0), (1, 0, 0), (-1, 2, 0), (0, 1, -3), (2, 2, 1)]
    ks = [(11.3, -47.1, 38.2), (-80.0, 3.0, 21.0), (5.0, 6.0, 90.0)]
    if "diffraction" in q:
        res = I.run(q, [crystal(I, j.repo, l), build(I, [1, 5, 3], [x for g in gs for x in g], dt="i64"), build(I, [3, 1, 3], [x for k in ks for x in k])])
    else:
        res = I.run(q, [build(I, [3, 3], [m[a][b] for a in range(3) for b in range(3)]), build(I, [1, 5, 3], [float(x) for g in gs for x in g]), build(I, [3, 1, 3], [x for k in ks for x in k])])
    dot = lambda a, b: sum(a[i] * m[i][k] * b[k] for i in range(3) for k in range(3))
    want, names = [], []
    for k, g in itertools.product(ks, gs):
        kg = [x + y for x, y in zip(k, g)]
        # distance of the reflection from the Ewald sphere along the beam, to first order
        cosa = dot(kg, k) / math.sqrt(dot(kg, kg) * dot(k, k))
        want.append(-dot(g, [2 * x + y for x, y in zip(k, g)]) / (2 * math.sqrt(dot(kg, kg)) * cosa))
        names.append("beam %s, reflection %s" % (k, g))
    j.compare(res, want, [3, 5], 1e-6, 1e-9, "excitation error", names)


def job(p, item):
    globals()[item[0]](p, item[1])


def run(rep, tier):
    d = math.radians
    items = [("special", WK), ("special", HY), ("waves", WK), ("waves", HY), ("waves", LV), ("lambdas", None), ("tables", None), ("simpson", None)]
    for inc in ((True, True), (False, True), (True, False)):
        items += [("factors", (WK, "scatter_factor_WK", "WK", inc, "EMsoft")), ("factors", (HY, "scatter_factor_hybrid", "LVD", inc, "EMsoft"))]
    items += [("factors", (WK, "scatter_factor_WK", "WK", (True, True), "ITC")), ("factors", (HY, "scatter_factor_hybrid", "LVD", (True, True), "ITC"))]
    items += [("factors", (WK, "scatter_factor_WK", "WK", (True, True), "EMsoft", 1)), ("factors", (HY, "scatter_factor_hybrid", "LVD", (True, True), "EMsoft", 1))]
    cells = ((.4, .4, .4, d(90), d(90), d(90)), (.37, .44, .41, d(95), d(84), d(101)))
    for l in cells:
        items += [("sgh", l), ("excitation", (D + "calc_sg", l)), ("excitation", ("ebsdtorch.crystallography.ebsd_master:calc_sg_batched", l))]
        dm = max(l[:3]) / 1.07
        for kw in ({}, {"scatter_factor": "Hybrid"}, {"absorption": False}, {"include_core": False}, {"include_phonon": False}):
            items += [("matrices", ("calc_helper_bloch_formalism", l, dm, kw)), ("matrices", ("calc_helper_scatter_matrix", l, dm, kw))]
        items.append(("matrices", ("calc_helper_scatter_matrix", l, dm, {"apply_qg_shift": False})))
    rep.pmap(job, items, limit=240)
    rep.floor = {"values": 1500}
    return ("Scattering factors, structure matrices, site factors, excitation errors, wavelengths and the special functions beneath them are evaluated by constant propagation through the source, "
            "at listed elements, lengths, voltages and cells with two partly occupied sites, and each value is compared with its definition; the two tabulated fits are compared over 98 elements.")
