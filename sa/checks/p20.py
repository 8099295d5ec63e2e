"""Crystal geometry: metric, structure matrices and the vector operations of a cell in every lattice."""
import math
import random
from .. import expr as E, refs as F, sgref as S, contracts as K
from ..calls import *
from ..ident import check, Ctx
from ..loader import Repo
from ..interp import Interp

U = "ebsdtorch.crystallography.unit_cell:"
C = U + "Cell"
G = "ebsdtorch.crystallography.groups:"
c = E.const


def lattices():
    d = math.radians
    return [(0.4, 0.4, 0.4, d(90), d(90), d(90)), (0.3, 0.5, 0.9, d(90), d(90), d(90)), (0.25, 0.25, 0.41, d(90), d(90), d(120)),
            (0.47, 0.47, 0.47, d(57), d(57), d(57)), (0.47, 0.47, 0.47, d(108), d(108), d(108)), (0.5, 0.7, 0.6, d(90), d(115), d(90)),
            (0.53, 0.81, 0.67, d(81), d(103), d(94)), (0.9, 0.35, 0.62, d(112), d(98), d(61)), (0.42, 0.66, 1.3, d(72), d(66), d(78)),
            (0.8, 0.8, 0.8, d(100), d(85), d(127))]


def vecs(n=4, seed=3):
    r = random.Random(seed)
    return [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 1.0, 1.0]] + [[r.uniform(-2, 2) for _ in range(3)] for _ in range(n)]


def pts(two=False, extra=()):
    r = random.Random(8)
    out = []
    for l in lattices():
        base = dict(zip(("a", "b", "c", "alpha", "beta", "gamma"), l))
        for v in vecs():
            p = dict(base, p=v)
            if two:
                p["q"] = [r.uniform(-2, 2) for _ in range(3)]
            out.append(p)
        if two:
            out.append(dict(base, p=[0.3, -0.7, 1.1], q=[0.6, -1.4, 2.2]))
            out.append(dict(base, p=[0.3, -0.7, 1.1], q=[-0.3, 0.7, -1.1]))
    return out


def symlat():
    names = ("a", "b", "c", "alpha", "beta", "gamma")
    return [num(n, lo=0.05, hi=5.0) for n in names[:3]] + [num(n, lo=0.2, hi=2.9) for n in names[3:]]


def cell(I, repo, units=("nm", "rad"), sg=1, atoms=((14, 0.1, 0.2, 0.3, 1.0, .005),)):
    I.hooks[G + "sg_operators"] = lambda I, f, a, k, n: build(I, [1, 4, 4], [1.0 * (i % 5 == 0) for i in range(16)])
    l = symlat()
    return make(I, repo, C, dict(sg_num=sg, sg_setting=1, atom_data=[list(a) for a in atoms], abc=l[:3], abc_units=units[0], angles=l[3:], angles_units=units[1]))


class Geo:
    """reference geometry of the lattice as nodes"""

    def __init__(self, s=1.0, r=1.0):
        l = [v.n for v in symlat()]
        self.abc = [F.k(s, x) for x in l[:3]]
        self.ang = [F.k(r, x) for x in l[3:]]
        a, b, d = self.abc
        ca, cb, cg = [E.cos(x) for x in self.ang]
        sg = E.sin(self.ang[2])
        self.G = [[F.sq(a), F.mul(a, b, cg), F.mul(a, d, cb)], [F.mul(a, b, cg), F.sq(b), F.mul(b, d, ca)], [F.mul(a, d, cb), F.mul(b, d, ca), F.sq(d)]]
        u = E.sub(F.add(c(1), F.k(2, F.mul(ca, cb, cg))), F.add(F.sq(ca), F.sq(cb), F.sq(cg)))
        self.V = F.mul(a, b, d, E.sqrt(u))
        z = c(0)
        A = [[a, F.mul(b, cg), F.mul(d, cb)], [z, F.mul(b, sg), F.mul(d, E.div(E.sub(ca, F.mul(cb, cg)), sg))], [z, z, E.div(self.V, F.mul(a, b, sg))]]
        self.A = A
        # inverse of the upper triangular matrix
        i00, i11, i22 = [E.div(c(1), A[i][i]) for i in range(3)]
        i01 = E.neg(F.mul(A[0][1], i00, i11))
        i12 = E.neg(F.mul(A[1][2], i11, i22))
        i02 = F.mul(E.sub(F.mul(A[0][1], A[1][2]), F.mul(A[0][2], A[1][1])), i00, i11, i22)
        self.Ai = [[i00, i01, i02], [z, i11, i12], [z, z, i22]]

    def cart(self, v, space):
        """Cartesian components of a vector"""
        if space == "c":
            return v
        M = self.A if space == "d" else tr(self.Ai)
        return mv(M, v)

    def back(self, v, space):
        if space == "c":
            return v
        return mv(self.Ai if space == "d" else tr(self.A), v)


def tr(M):
    return [[M[j][i] for j in range(3)] for i in range(3)]


def mv(M, v):
    return [F.add(*[F.mul(M[i][j], v[j]) for j in range(3)]) for i in range(3)]


def dot(u, v):
    return F.add(*[F.mul(x, y) for x, y in zip(u, v)])


def cross(u, v):
    return [E.sub(F.mul(u[1], v[2]), F.mul(u[2], v[1])), E.sub(F.mul(u[2], v[0]), F.mul(u[0], v[2])), E.sub(F.mul(u[0], v[1]), F.mul(u[1], v[0]))]


def flat(M):
    return [x for r in M for x in r]


CASES = []


def case(meth, label, fn, points, tol=1e-6):
    CASES.append((meth, label, fn, points, tol))


def attr_case(label, name, ref, units=("nm", "rad"), scale=(1.0, 1.0), sg=1, points=None):
    def fn(cx):
        o = cell(cx.I, cx.repo, units, sg)
        v = attr(cx.I, o, name)
        return cx.c(v), ref(Geo(*scale))

    def P():
        out = []
        for l in (points or lattices)():
            v = [x / scale[0] for x in l[:3]] + [x / scale[1] for x in l[3:]]
            out.append(dict(zip(("a", "b", "c", "alpha", "beta", "gamma"), v)))
        return out
    case("Cell.__init__", label, fn, P)


attr_case("direct metric tensor", "dmt", lambda g: flat(g.G))
attr_case("reciprocal metric tensor", "rmt", lambda g: flat([[dot(g.Ai[i], g.Ai[j]) for j in range(3)] for i in range(3)]))
attr_case("direct structure matrix", "dsm", lambda g: flat(g.A))
attr_case("reciprocal structure matrix", "rsm", lambda g: flat(tr(g.Ai)))
attr_case("volume", "vol", lambda g: [g.V])
for u, s in (("nm", 1.0), ("angstrom", 0.1), ("pm", 1e-3)):
    for w, r in (("rad", 1.0), ("deg", math.pi / 180)):
        attr_case("metric of a cell given in %s and %s" % (u, w), "dmt", lambda g: flat(g.G), (u, w), (s, r))


def op(meth, label, args, ref, two=False, tol=1e-6):
    def fn(cx):
        I = cx.I
        o = cell(I, cx.repo)
        p = cx.arg("V3", "p")
        q = cx.arg("V3", "q") if two else None
        r = method(I, cx.repo, o, meth, *([p, q] if two else [p]), *args)
        cx.p.saw(I)
        return cx.c(r), ref(Geo(), cx.c(p), cx.c(q) if two else None)
    case("Cell." + meth, label, fn, lambda: pts(two), tol)


NAMES = {"d": "direct", "r": "reciprocal", "c": "Cartesian"}
for s in "drc":
    for t in "drc":
        op("transform_space", "%s to %s components" % (NAMES[s], NAMES[t]), (s, t), lambda g, p, q, s=s, t=t: g.back(g.cart(p, s), t))
        op("calc_cross", "cross product of %s vectors in %s components" % (NAMES[s], NAMES[t]), (s, t, True),
           lambda g, p, q, s=s, t=t: g.back(cross(g.cart(p, s), g.cart(q, s)), t), two=True)
    op("calc_dot", "dot product of %s vectors" % NAMES[s], (s,), lambda g, p, q, s=s: [dot(g.cart(p, s), g.cart(q, s))], two=True)
    op("calc_auto_dot", "squared length of %s vectors" % NAMES[s], (s,), lambda g, p, q, s=s: [dot(g.cart(p, s), g.cart(p, s))])
    op("calc_length", "length of %s vectors" % NAMES[s], (s,), lambda g, p, q, s=s: [F.norm(g.cart(p, s))])
    op("norm_vec", "normalisation of %s vectors" % NAMES[s], (s,), lambda g, p, q, s=s: [E.div(x, F.norm(g.cart(p, s))) for x in p])

    def angle(g, p, q, s=s):
        u, v = g.cart(p, s), g.cart(q, s)
        t = E.div(dot(u, v), F.mul(F.norm(u), F.norm(v)))
        return [E.acos(E.max_(E.min_(t, c(1)), c(-1)))]
    op("calc_angle", "angle between %s vectors" % NAMES[s], (s,), angle, two=True, tol=1e-5)


def zero_vec(cx):
    o = cell(cx.I, cx.repo)
    z = cx.arg("V3", "p")
    r = method(cx.I, cx.repo, o, "norm_vec", z, "d")
    return cx.c(r), [c(0)] * 3


case("Cell.norm_vec", "normalisation of the zero vector", zero_vec, lambda: [dict(zip(("a", "b", "c", "alpha", "beta", "gamma"), l), p=[0.0] * 3) for l in lattices()])


def coord(space):
    def fn(cx):
        o = cell(cx.I, cx.repo)
        p, R = cx.arg("V3", "p"), cx.arg("OM", "R", ())
        r = method(cx.I, cx.repo, o, "transform_coordinates", method(cx.I, cx.repo, o, "transform_coordinates", p, R, space, "on"), R, space, "no")
        on = method(cx.I, cx.repo, o, "transform_coordinates", p, R, space, "on")
        m = cx.c(R)
        P = cx.c(p)
        return cx.c(r) + cx.c(on), P + [dot(m[3 * i:3 * i + 3], P) for i in range(3)]

    def P():
        out = []
        for v, w in F.rotations(seed=4, n=8):
            m = F.n_om(F.n_qu(v, w))
            m = m if isinstance(m[0], (list, tuple)) else [m[3 * i:3 * i + 3] for i in range(3)]
            out += [dict(zip(("a", "b", "c", "alpha", "beta", "gamma"), lattices()[6]), p=x, R=m) for x in vecs(2)]
        return out
    return fn, P


for s in "drc":
    fn, P = coord(s)
    case("Cell.transform_coordinates", "change of frame and back, %s components" % NAMES[s], fn, P)


# --- second structure matrix of a rhombohedral cell
def rhomb(cx):
    I = cx.I
    I.hooks[G + "sg_operators"] = lambda I, f, a, k, n: build(I, [1, 4, 4], [1.0 * (i % 5 == 0) for i in range(16)])
    a, al = num("a", lo=0.05, hi=5.0), num("alpha", lo=0.3, hi=2.0)
    o = make(I, cx.repo, C, dict(sg_num=146, sg_setting=1, atom_data=[[14, 0.1, 0.2, 0.3, 1.0, .005]], abc=[a] * 3, abc_units="nm", angles=[al] * 3, angles_units="rad"))
    m = cx.c(attr(I, o, "dsm2"))
    if m is None or len(m) != 9:
        return None, None
    M = [m[3 * i:3 * i + 3] for i in range(3)]
    A, ca = F.sq(a.n), E.cos(al.n)
    met = [[A if i == j else F.mul(A, ca) for j in range(3)] for i in range(3)]
    T = tr(M)
    axis = [F.add(*M[i]) for i in range(3)]
    L = E.sqrt(F.add(*flat(met)))
    return flat([[dot(T[i], T[j]) for j in range(3)] for i in range(3)]) + axis, flat(met) + [c(0), c(0), L]


case("Cell.__init__", "second rhombohedral structure matrix", rhomb, lambda: [dict(a=a, alpha=math.radians(t)) for a in (0.3, 0.7) for t in (33, 57, 71, 90, 104, 115)])


# --- weighted averages over the atoms of the cell
SITES = [[14, 0.1, 0.2, 0.3, .005], [8, 0.37, 0.11, 0.81, .004], [26, 0.0, 0.0, 0.0, .003], [92, 0.5, 0.2, 0.7, .006]]
WEIGHT = {14: 28.0855, 8: 15.9994, 26: 55.845, 92: 238.02891}
MULT = [2, 2, 1, 2]


def averages(names, nsite=4):
    def fn(cx):
        I = cx.I
        ops = [1.0 * (i % 5 == 0) for i in range(16)] + [-1.0 * (i % 5 == 0) if i < 15 else 1.0 for i in range(16)]
        I.hooks[G + "sg_operators"] = lambda I, f, a, k, n: build(I, [2, 4, 4], ops)
        l = symlat()
        occ = [num("o%d" % i, lo=0.0, hi=1.0) for i in range(nsite)]
        o = make(I, cx.repo, C, dict(sg_num=2, sg_setting=1, atom_data=[[s[0], s[1], s[2], s[3], occ[i], s[4]] for i, s in enumerate(SITES[:nsite])], abc=l[:3], abc_units="nm", angles=l[3:], angles_units="rad"))
        g = Geo()
        n = float(sum(MULT[:nsite]))
        w = lambda f: F.add(*[F.k(f(s[0]) * m, x.n) for s, m, x in zip(SITES, MULT, occ)])
        ref = {"average_atomic_number": F.k(1 / n, w(float)), "average_atomic_weight": F.k(1 / n, w(WEIGHT.get)), "density": E.div(w(WEIGHT.get), F.k(602.214076, g.V))}
        got = []
        for x in names:
            v = cx.c(attr(I, o, x))
            if v is None:
                return None, None
            got += v
        cx.p.saw(I)
        return got, [ref[x] for x in names]

    def P():
        r = random.Random(5)
        return [dict(zip(("a", "b", "c", "alpha", "beta", "gamma"), l), **{"o%d" % i: r.uniform(0.05, 1) for i in range(nsite)}) for l in lattices()]
    return fn, P


for x in ("average_atomic_number", "average_atomic_weight", "density"):
    for k in (1, 4):
        fn, P = averages([x], k)
        case("Cell.__init__", x.replace("_", " ") + " of %d sites" % k, fn, P, 1e-5)


def z2(cx):
    I = cx.I
    z, n, o = [[num("%s%d" % (q, i), lo=0.1, hi=90.0) for i in range(3)] for q in "zno"]
    mk = lambda v, shape: I.newloc(Tensor([Dim(c(d)) for d in shape], v, len(shape), NOROOT, "f64", "CPU"))
    pos = mk([c(0.1), c(0.2), c(0.3), o[0].n, c(.5), c(0.2), c(0.1), o[1].n, c(0.0), c(0.3), c(0.3), o[2].n], [3, 4])
    r = cx.call(U + "Cell.z2_percent", mk([x.n for x in z], [3]), mk([x.n for x in n], [3]), pos)
    w = [F.mul(n[i].n, o[i].n, F.sq(z[i].n)) for i in range(3)]
    return cx.c(r), [F.k(100.0, E.div(x, F.add(*w))) for x in w]


case("Cell.z2_percent", "share of each site in the squared atomic numbers", z2, lambda: [dict(z0=6.0, z1=14.0, z2=79.0, n0=1.0, n1=4.0, n2=8.0, o0=1.0, o1=.3, o2=.7), dict(z0=26.0, z1=8.0, z2=1.0, n0=2.0, n1=24.0, n2=3.0, o0=.9, o1=1.0, o2=.2)])

AW = ("1.0 4.0 6.9 9.0 10.8 12.0 14.0 16.0 19.0 20.2 23.0 24.3 27.0 28.1 31.0 32.1 35.5 39.9 39.1 40.1 45.0 47.9 50.9 52.0 54.9 55.8 58.9 58.7 63.5 65.4 69.7 72.6 74.9 79.0 79.9 83.8 "
      "85.5 87.6 88.9 91.2 92.9 96.0 98.0 101.1 102.9 106.4 107.9 112.4 114.8 118.7 121.8 127.6 126.9 131.3 132.9 137.3 138.9 140.1 140.9 144.2 145.0 150.4 152.0 157.3 158.9 162.5 164.9 167.3 "
      "168.9 173.0 175.0 178.5 180.9 183.8 186.2 190.2 192.2 195.1 197.0 200.6 204.4 207.2 209.0 209 210 222 223 226 227 232.0 231.0 238.0 237 244 243 247 247 251")


def weights(p):
    """the weight table, read through a cell of one atom of each element"""
    repo = Repo()
    r = repo.find(C)
    if r is None:
        return p.missing(C)
    for z, w in enumerate([float(x) for x in AW.split()], 1):
        I = Interp(repo)
        I.hooks[G + "sg_operators"] = lambda I, f, a, k, n: build(I, [1, 4, 4], [1.0 * (i % 5 == 0) for i in range(16)])
        l = lattices()[1]
        o = make(I, repo, C, dict(sg_num=1, sg_setting=1, atom_data=[[z, 0.1, 0.2, 0.3, 1.0, .005]], abc=list(l[:3]), abc_units="nm", angles=list(l[3:]), angles_units="rad"))
        where = "atomic weight of element %d" % z
        p.count("elements")
        try:
            v = const(I, attr(I, o, "average_atomic_weight"))
            v = v[0] if isinstance(v, list) else v
        except KeyError:
            p.undecided(where, "atomic weight", "not a closed constant")
            continue
        if abs(v - w) > (0.11 if z < 84 and z not in (43, 61) else 4.01):   # the others have no stable isotope
            p.viol(r[0].rel, "Cell.__init__", "atomic weight %d" % z, "%s: the averages of a cell use %.5g, the element has %.5g" % (where, v, w), line=r[1].lineno)
        else:
            p.ok(where, "atomic weight", "%.5g" % v)


def rejected(p):
    """labels that name no unit or space raise instead of giving a number"""
    repo = Repo()
    base = dict(sg_num=1, sg_setting=1, atom_data=[[14, 0.1, 0.2, 0.3, 1.0, .005]], abc=[.4, .5, .6], abc_units="nm", angles=[1.4, 1.5, 1.7], angles_units="rad")

    def run1(label, kw, meth=None, args=()):
        I = Interp(repo)
        I.hooks[G + "sg_operators"] = lambda I, f, a, k, n: build(I, [1, 4, 4], [1.0 * (i % 5 == 0) for i in range(16)])
        r = repo.find(C + ("." + meth if meth else ""))
        if r is None:
            return p.missing(C + "." + meth)
        o = make(I, repo, C, dict(base, **kw))
        if meth:
            n0 = len(I.events)
            method(I, repo, o, meth, *args)
            I.events[:] = I.events[n0:]
        p.saw(I)
        p.count("labels")
        if always_raises(I):
            p.ok(label, "rejected", "raises on every path")
        else:
            p.viol(r[0].rel, "Cell." + (meth or "__init__"), "accepts " + label, "%s is accepted: no error is raised on every path" % label, line=r[1].lineno)
    for u in ("m", "A", "", "Nm", "ANGSTROM", "um"):
        run1("length unit %r" % u, dict(abc_units=u))
    for u in ("degree", "", "grad", "DEG"):
        run1("angle unit %r" % u, dict(angles_units=u))
    v, w = [0.3, 0.4, 0.5], [0.1, 0.9, 0.2]
    t = lambda I, x: build(I, [3], x)
    for meth in ("calc_dot", "calc_auto_dot", "calc_length", "calc_angle", "norm_vec", "transform_space", "calc_cross"):
        for s in ("x", "", "D", "direct"):
            two = meth in ("calc_dot", "calc_angle", "calc_cross")
            I = Interp(repo)
            I.hooks[G + "sg_operators"] = lambda I, f, a, k, n: build(I, [1, 4, 4], [1.0 * (i % 5 == 0) for i in range(16)])
            r = repo.find(C + "." + meth)
            if r is None:
                p.missing(C + "." + meth)
                continue
            variants = [(s,)]
            if meth in ("transform_space", "calc_cross"):
                variants = [(s, "c"), (s, "d"), ("d", s), ("r", s), ("c", s)]
            for sp in variants:
                I = Interp(repo)
                I.hooks[G + "sg_operators"] = lambda I, f, a, k, n: build(I, [1, 4, 4], [1.0 * (i % 5 == 0) for i in range(16)])
                o = make(I, repo, C, base)
                n0 = len(I.events)
                method(I, repo, o, meth, *([t(I, v), t(I, w)] if two else [t(I, v)]), *sp, *([True] if meth == "calc_cross" else []))
                I.events[:] = I.events[n0:]
                label = "%s in space %s" % (meth, "/".join(repr(x) for x in sp))
                p.count("labels")
                if always_raises(I) or any(e.kind in ("undefined",) for e in I.events):
                    p.ok(label, "rejected", "raises on every path")
                else:
                    p.viol(r[0].rel, "Cell." + meth, "accepts space " + "/".join(sp), "%s is accepted: no error is raised on every path" % label, line=r[1].lineno)


def shapes(p):
    """operations keep the leading shape of the vectors they are given"""
    repo = Repo()
    for meth, tail, args, two in (("transform_space", [3], ("d", "r"), False), ("calc_dot", [], ("d",), True), ("calc_length", [], ("r",), False), ("norm_vec", [3], ("d",), False),
                                  ("calc_angle", [], ("r",), True), ("calc_cross", [3], ("d", "c", True), True), ("calc_auto_dot", [], ("c",), False)):
        for lead in ([], [2], [2, 3], [1], [1, 4]):
            r = repo.find(C + "." + meth)
            if r is None:
                p.missing(C + "." + meth)
                continue
            I = Interp(repo)
            I.hooks[G + "sg_operators"] = lambda I, f, a, k, n: build(I, [1, 4, 4], [1.0 * (i % 5 == 0) for i in range(16)])
            o = make(I, repo, C, dict(sg_num=1, sg_setting=1, atom_data=[[14, 0.1, 0.2, 0.3, 1.0, .005]], abc=[.4, .5, .6], abc_units="nm", angles=[1.4, 1.5, 1.7], angles_units="rad"))
            v = [tens(I, nm, lead + [3]) for nm in ("p", "q")]
            x = method(I, repo, o, meth, *v[:2 if two else 1], *args)
            p.saw(I)
            p.count("shapes")
            sh = shape_of(I, x)
            where = "%s of vectors with leading shape %s" % (meth, lead)
            if sh is None:
                p.undecided(where, "shape", "unknown shape")
            elif [getattr(d, "c", d) for d in sh] != lead + tail:
                p.viol(r[0].rel, "Cell." + meth, "result shape", "%s: the result has shape %s" % (where, [getattr(d, "c", d) for d in sh]), line=r[1].lineno)
            else:
                p.ok(where, "shape", str(lead + tail))


def job(p, i):
    if isinstance(i, str):
        return {"weights": weights, "rejected": rejected, "shapes": shapes}[i](p)
    meth, label, fn, points, tol = CASES[i]
    check(p, Repo(), U + meth, label, fn, points(), tol)


def run(rep, tier):
    rep.pmap(job, list(range(len(CASES))) + ["weights", "rejected", "shapes"], limit=120)
    rep.floor = {"identities": 45}
    return ("A cell is built by the constructor with symbolic lattice parameters; its metric, structure matrices and volume, and every vector operation for every pair "
            "of spaces, are compared with the textbook geometry of the lattice in normal form, and at general triclinic lattices where the forms differ. The averages and the "
            "density are compared with the sums over the atoms with symbolic occupancies; labels that name no unit or space must raise on every path.")
