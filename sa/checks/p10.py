"""Symmetry-reduced orientations, misorientations and directions."""
import math
import random
from .. import expr as E, refs as F, contracts as K, groupref as G
from ..ident import check
from ..loader import Repo

c = E.const
FO, FM, FS = K.S + "laue_fz_ori:", K.S + "laue_fz_misori:", K.S + "laue_fz_s2:"


def grp(i):
    return [[c(x) for x in g] for g in G.GROUP[i]]


def maxn(xs):
    return E.fn("amax", *xs) if len(xs) > 1 else xs[0]


def dot(a, b):
    return F.add(*[F.mul(x, y) for x, y in zip(a, b)])


def orbit(i, q):
    """crystal symmetry acts from the left"""
    return [F.qmul(s, q) for s in grp(i)]


def best(orb):
    return maxn([E.abs_(x[0]) for x in orb])


def member(orb, q):
    """1 when q is, up to sign, an element of the orbit"""
    return maxn([E.abs_(dot(x, q)) for x in orb])


def Rv(q, v):
    m = F.R_qu(q)
    return [F.add(*[F.mul(m[3 * i + j], v[j]) for j in range(3)]) for i in range(3)]


def sorbit(i, v):
    o = [Rv(s, v) for s in grp(i)]
    return o + [[E.neg(x) for x in w] for w in o]


# ------------------------------------------------------------------ points
def qpts(i, n=40, names=("a",), pos=False, seed=1):
    r = random.Random(seed * 100 + i)
    out = []
    for k in range(n):
        pt = {}
        for nm in names:
            q = F.unit([r.gauss(0, 1) for _ in range(4)])
            if k % 4 == 1:                    # near the identity
                q = F.unit([1.0] + [r.uniform(-0.3, 0.3) for _ in range(3)])
            if k % 4 == 2:                    # near a symmetry operator
                s = r.choice(G.GROUP[i])
                q = G.qm(s, F.unit([1.0] + [r.uniform(-0.1, 0.1) for _ in range(3)]))
            if pos and q[0] < 0:
                q = [-x for x in q]
            pt[nm] = list(q)
        out.append(pt)
    return out


def gap(vals):
    v = sorted(vals, reverse=True)
    return v[0] - v[1] if len(v) > 1 else 1.0


def inner(i, pts, name="a"):
    """points with one best equivalent"""
    return [p for p in pts if gap([abs(G.qm(s, p[name])[0]) for s in G.GROUP[i]]) > 1e-6]


def faces(i, eps=2e-3):
    """orientations just inside and just outside the faces of the zone, in many directions"""
    r = random.Random(50 + i)
    dirs = [F.unit([math.cos(math.radians(a)), math.sin(math.radians(a)), z]) for a in range(2, 360, 5) for z in (0.0, 0.03)]
    dirs += [F.unit([math.cos(math.radians(a)), math.sin(math.radians(a)), z]) for a in range(1, 360, 24) for z in (0.3, 1.0, 3.0, -0.6)]
    dirs += [F.unit([r.gauss(0, 1) for _ in range(3)]) for _ in range(60)]
    dirs += [[0.0, 0.0, 1.0], [0.0, 0.0, -1.0]]
    out = []
    for d in dirs:
        q = lambda t: [math.cos(t / 2)] + [math.sin(t / 2) * x for x in d]
        inside = lambda t: all(abs(G.qm(s, q(t))[0]) <= q(t)[0] + 1e-12 for s in G.GROUP[i])
        lo, hi = 0.0, math.pi
        if inside(hi):
            continue
        for _ in range(40):
            m = (lo + hi) / 2
            lo, hi = (m, hi) if inside(m) else (lo, m)
        out += [{"a": q(lo * (1 - eps))}, {"a": q(lo * (1 + eps))}]
    return out


def special(i):
    """symmetry operators themselves, halves of them (zone boundary centres), identity"""
    out = []
    for s in G.GROUP[i]:
        out.append({"a": list(s)})
        out.append({"a": [-x for x in s]})
        h = F.unit([1.0 + abs(s[0])] + [x if s[0] >= 0 else -x for x in s[1:]])
        out.append({"a": h})
    return out


def spts(i, n=60, boundary=True, seed=3):
    r = random.Random(seed)
    out = [{"p": F.unit([r.gauss(0, 1) for _ in range(3)])} for _ in range(n)]
    if boundary:
        out += [{"p": v} for v in F.axes(3, 6)]
        for z in (0.0, 0.5, -0.3, 1 / math.sqrt(3)):
            s = math.sqrt(1 - z * z)
            for k in range(24):
                t = math.radians(15 * k)
                out.append({"p": [s * math.cos(t), s * math.sin(t), z]})
    return out


def sector_pts(i):
    """general directions close to the mirror planes that bound the sectors"""
    r = random.Random(70 + i)
    out = []
    for k in range(24):
        for d in (-0.15, 0.15):
            t = math.radians(15 * k + d)
            for z in (0.05, 0.5, 0.9):
                w = math.sqrt(1 - z * z)
                out.append({"p": [w * math.cos(t), w * math.sin(t), z]})
    for _ in range(12):
        a, b = r.uniform(0.1, 1), r.uniform(0.1, 1)
        for e in (0.998, 1.002):
            for v in ([a, b, a * e], [b, a, a * e], [a, a * e, b], [-a, b, a * e], [a, a * 0.2, a * e], [a * .2, a, a * e], [a, a * 0.9, a * e]):
                out.append({"p": F.unit(v)})
    return out


CASES = []


def case(q, label, i, fn, pts, tol=1e-6):
    CASES.append((q, label, i, fn, pts, tol))


def rows(v, k):
    return [v[a:a + k] for a in range(0, len(v), k)]


for i in range(1, 12):
    n = len(G.GROUP[i])

    def equiv(cx, i=i, n=n):
        a = cx.arg("Q", "a")
        q = cx.c(a)
        v = rows(cx.c(cx.call(FO + "ori_equiv_laue", a, i)), 4)
        return [c(len(v))] + [member(v, o) for o in orbit(i, q)] + [member(orbit(i, q), x) for x in v], [c(n)] + [c(1)] * (n + len(v))
    case("laue_fz_ori:ori_equiv_laue", "equivalent orientations", i, equiv, lambda i=i: qpts(i, 10))

    def tofz(cx, i=i):
        a = cx.arg("Q", "a")
        q = cx.c(a)
        v = cx.c(cx.call(FO + "ori_to_fz_laue", a, i))
        o = orbit(i, q)
        return [member(o, v), E.abs_(v[0]), dot(v, v)], [c(1), best(o), c(1)]
    case("laue_fz_ori:ori_to_fz_laue", "equivalent orientation of smallest angle", i, tofz, lambda i=i: qpts(i) + special(i))

    def infz(f):
        def g(cx, i=i, f=f):
            a = cx.arg("Q+", "a")
            q = cx.c(a)
            v = cx.c(cx.call(FO + f, a, i))
            o = orbit(i, q)
            return v, [E.ite(E.ge(E.abs_(q[0]), E.sub(best(o), c(1e-12))), c(1), c(0))]
        return g
    for f in ("ori_in_fz_laue_brute", "ori_in_fz_laue"):
        case("laue_fz_ori:" + f, "membership in the orientation zone", i, infz(f), lambda i=i: inner(i, qpts(i, 60, pos=True) + faces(i)))

    def fzin(cx, i=i):
        a = cx.arg("Q", "a")
        v = cx.call(FO + "ori_to_fz_laue", a, i)
        return cx.c(cx.call(FO + "ori_in_fz_laue", v, i)), [c(1)]
    case("laue_fz_ori:ori_in_fz_laue", "the reduced orientation lies in the zone", i, fzin, lambda i=i: inner(i, qpts(i)))

    def angle(cx, i=i):
        a, b = cx.arg("Q", "a"), cx.arg("Q", "b")
        v = cx.c(cx.call(FO + "ori_angle_laue", a, b, i))
        m = F.qmul(cx.c(a), F.qconj(cx.c(b)))
        return [E.cos(F.k(0.5, v[0]))], [best(orbit(i, m))]
    case("laue_fz_ori:ori_angle_laue", "smallest angle over the symmetry", i, angle, lambda i=i: qpts(i, 30, ("a", "b")))

    def s2eq(cx, i=i, n=n):
        a = cx.arg("S2", "p")
        q = cx.c(a)
        v = rows(cx.c(cx.call(FS + "s2_equiv_laue", a, i)), 3)
        o = sorbit(i, q)
        m = lambda ws, x: maxn([dot(w, x) for w in ws])
        return [c(len(v))] + [m(v, x) for x in o] + [m(o, x) for x in v], [c(2 * n)] + [c(1)] * (2 * n + len(v))
    case("laue_fz_s2:s2_equiv_laue", "equivalent directions", i, s2eq, lambda i=i: spts(i, 10, False))

    def s2to(cx, i=i):
        a = cx.arg("S2", "p")
        q = cx.c(a)
        r = cx.call(FS + "s2_to_fz_laue", a, i)
        v = cx.c(r)
        return [maxn([dot(w, v) for w in sorbit(i, q)]), dot(v, v)], [c(1), c(1)]
    case("laue_fz_s2:s2_to_fz_laue", "an equivalent direction", i, s2to, lambda i=i: spts(i))

    def s2in(cx, i=i):
        a = cx.arg("S2", "p")
        r = cx.call(FS + "s2_to_fz_laue", a, i)
        return cx.c(cx.call(FS + "s2_in_fz_laue", r, i)), [c(1)]
    case("laue_fz_s2:s2_to_fz_laue", "inside the sector", i, s2in, lambda i=i: spts(i) + sector_pts(i))

    def s2one(cx, i=i):
        a = cx.arg("S2", "p")
        v = cx.call(FS + "s2_equiv_laue", a, i)
        w = cx.c(cx.call(FS + "s2_in_fz_laue", v, i))
        return [F.add(*w)], [c(1)]
    case("laue_fz_s2:s2_in_fz_laue", "one equivalent of a general direction in the sector", i, s2one, lambda i=i: spts(i, 80, False) + sector_pts(i))

PAIRS = [(i, j) for i in range(1, 12) for j in range(1, 12)]


def dis(f, i, j, ang, single=False):
    def g(cx):
        if single:
            a = cx.arg("Q", "a")
            m = cx.c(a)
            r = cx.call(f, a, i, j)
        else:
            a, b = cx.arg("Q", "a"), cx.arg("Q", "b")
            m = F.qmul(cx.c(a), F.qconj(cx.c(b)))
            r = cx.call(f, a, b, i, j)
        v = cx.c(r)
        o = [F.qmul(F.qmul(s, m), t) for s in grp(i) for t in grp(j)]
        if ang:
            return [E.cos(F.k(0.5, v[0]))], [best(o)]
        return [member(o, v), E.abs_(v[0]), dot(v, v)], [c(1), best(o), c(1)]
    return g


def dpts(i, j, n):
    r = random.Random(i * 20 + j)
    out = []
    for k in range(n):
        a = F.unit([r.gauss(0, 1) for _ in range(4)])
        b = F.unit([r.gauss(0, 1) for _ in range(4)])
        if k % 3 == 1:
            b = list(G.qm(r.choice(G.GROUP[j]), F.unit([x + 0.03 * r.gauss(0, 1) for x in a])))
        if k == 2:
            b = a
        out.append({"a": a, "b": b})
    return out


for (i, j) in PAIRS:
    for m in ("laue_fz_ori:disorientation", "laue_fz_misori:disorientation_naive"):
        case(m, "equivalent misorientation of smallest angle", (i, j), dis(K.S + m, i, j, False), lambda i=i, j=j: dpts(i, j, 9))
    for m in ("laue_fz_ori:disori_angle_laue", "laue_fz_misori:disori_angle_laue"):
        case(m, "smallest misorientation angle", (i, j), dis(K.S + m, i, j, True), lambda i=i, j=j: dpts(i, j, 9))
    m = "laue_fz_misori:misori_to_fz_laue"
    case(m, "equivalent misorientation of smallest angle", (i, j), dis(K.S + m, i, j, False, True), lambda i=i, j=j: dpts(i, j, 9))

T = math.sqrt(2) - 1


def cube_pts():
    r = random.Random(8)
    out = [{"p": [0.0, 0.0, 0.0]}]
    for k in range(60):
        out.append({"p": [r.uniform(-T, T) for _ in range(3)]})
    for s in ([T, T, T], [T, -T, T], [T, 0.2, 0.1], [0.1, -T, 0.3], [0.3, 0.3, 0.3], [-0.3, 0.3, 0.1], [0.2, 0.2, -0.4], [0.0, 0.0, 0.3], [0.0, -0.2, 0.0], [0.3, 0.0, 0.3]):
        out.append({"p": s})
    return out


def rfz_pts():
    return [q for q in cube_pts() if sum(abs(x) for x in q["p"]) <= 1 and max(abs(x) for x in q["p"]) <= T]


def cc1(cx):
    a = cx.arg("V3", "p")
    return cx.c(cx.call(FO + "rfz_to_cube", cx.call(FO + "cube_to_rfz", a, 11), 11)), cx.c(a)


def cc2(cx):
    a = cx.arg("V3", "p")
    return cx.c(cx.call(FO + "cube_to_rfz", cx.call(FO + "rfz_to_cube", a, 11), 11)), cx.c(a)


def cc3(cx):
    """the image of the cube is the cubic zone: |x|+|y|+|z| <= 1, max <= tan(pi/8)"""
    a = cx.arg("V3", "p")
    v = cx.c(cx.call(FO + "cube_to_rfz", a, 11))
    s = F.add(*[E.abs_(x) for x in v])
    m = maxn([E.abs_(x) for x in v])
    return [E.max_(s, c(1)), E.max_(m, c(T))], [c(1), c(T)]


case("laue_fz_ori:rfz_to_cube", "inverse of the cube to zone map", 11, cc1, cube_pts)
case("laue_fz_ori:cube_to_rfz", "inverse of the zone to cube map", 11, cc2, rfz_pts)
case("laue_fz_ori:cube_to_rfz", "image of the cube lies in the zone", 11, cc3, cube_pts)


def job(p, item):
    ks, dt = item
    from .. import torchops
    torchops.CAP = 2400           # whole orbits are enumerated
    repo = Repo()
    for k in ks:
        q, label, i, fn, pts, tol = CASES[k]
        check(p, repo, K.S + q, "%s, group %s" % (label, i), fn, pts(), tol, dt)


def batches():
    """one unit of work per group or pair of groups, the large ones first"""
    by = {}
    for k, cs in enumerate(CASES):
        # one input name must not stand for inputs of different domains in one process
        by.setdefault((cs[2], cs[1].startswith("membership"), "cube" in cs[1]), []).append(k)
    size = lambda g: (lambda g: len(G.GROUP[g[0]]) * len(G.GROUP[g[1]]) if isinstance(g, tuple) else 60 * len(G.GROUP[g]))(g[0])
    return [by[g] for g in sorted(by, key=size, reverse=True)]


def run(rep, tier):
    dts = ("f64",) if tier == "quick" else ("f64", "f32")
    rep.pmap(job, [(b, dt) for b in batches() for dt in dts], limit=200)
    rep.floor = {"identities": 700}
    return ("Results of the symmetry operations, as gated normal forms, against the orbit of the argument under reference groups "
            "generated independently: membership in the orbit, extremality of the angle, agreement of closed-form and orbit "
            "membership tests, one representative per general direction, inverse pairs of the cubic zone map.")
