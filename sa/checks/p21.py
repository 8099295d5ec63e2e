"""Projections between the sphere and planar domains."""
import math
import random
from .. import expr as E, refs as F, contracts as K
from ..ident import check
from ..loader import Repo

c = E.const
PI = math.pi
SP = K.S + "sphere:"
UT = "ebsdtorch.utils.rosca_lambert:"
KV = "ebsdtorch.crystallography.kvectors:"
MC = "ebsdtorch.simulation.monte_carlo:"


def sgn(x):
    return E.ite(E.lt(x, c(0)), c(-1), c(1))


def fwd_ref(v):
    """square Rosca-Lambert projection scaled to [-1, 1]^2"""
    x, y, z = v
    s = E.sqrt(E.max_(F.k(2, E.sub(c(1), E.abs_(z))), c(0)))
    big = E.ge(E.abs_(x), E.abs_(y))
    k = math.sqrt(2) * 2 / PI

    def part(a, b):
        m = F.mul(sgn(a), s)
        return F.k(2 / math.sqrt(8), m), F.k(k, F.mul(m, E.atan2(F.mul(b, sgn(a)), E.abs_(a))))
    a1, b1 = part(x, y)
    b2, a2 = part(y, x)
    return [E.ite(big, a1, a2), E.ite(big, b1, b2)]


def inv_ref(v):
    a, b = [F.k(math.sqrt(PI / 2), t) for t in v]
    z0 = E.and_(E.eq(a, c(0)), E.eq(b, c(0)))

    def part(p, q):
        r = F.mul(F.k(2 / PI, p), E.sqrt(E.sub(c(PI), F.sq(p))))
        t = F.k(PI / 4, E.div(q, p))
        return F.mul(r, E.cos(t)), F.mul(r, E.sin(t)), E.sub(c(1), F.k(2 / PI, F.sq(p)))
    x1, y1, z1 = part(a, b)
    y2, x2, z2 = part(b, a)
    big = E.ge(E.abs_(a), E.abs_(b))
    return [E.ite(z0, c(0), E.ite(big, x1, x2)), E.ite(z0, c(0), E.ite(big, y1, y2)), E.ite(z0, c(1), E.ite(big, z1, z2))]


def hex_ref(v):
    """equal-area map of the regular hexagon with a vertex at (1, 0) to the hemisphere: in the sextant about
    the apothem direction u, the point at apothem distance h and along-edge offset s goes to the
    direction u turned by (pi/6) (s / (h tan 30)) with z = 1 - (h / apothem)^2"""
    A = math.sqrt(3) / 2
    x, y = v
    z0 = E.and_(E.eq(x, c(0)), E.eq(y, c(0)))
    best = None
    for k in range(6):
        t = math.radians(30 + 60 * k)
        h = E.add(F.k(math.cos(t), x), F.k(math.sin(t), y))
        s = E.add(F.k(-math.sin(t), x), F.k(math.cos(t), y))
        ang = E.add(c(t), F.k(PI / 6 * math.sqrt(3), E.div(s, h)))
        z = E.sub(c(1), F.k(1 / A ** 2, F.sq(h)))
        r = E.sqrt(E.sub(c(1), F.sq(z)))
        cur = [h, F.mul(r, E.cos(ang)), F.mul(r, E.sin(ang)), z]
        if best is None:
            best = cur
        else:
            g = E.gt(h, best[0])
            best = [E.ite(g, a, b) for a, b in zip(cur, best)]
    return [E.ite(z0, c(0), best[1]), E.ite(z0, c(0), best[2]), E.ite(z0, c(1), best[3])]


def sq_points():
    r = random.Random(2)
    out = []
    g = [-1.0, -0.75, -0.3, 0.0, 0.3, 0.75, 1.0]
    for a in g:
        for b in g:
            out.append({"p": [a, b]})
    for t in (1e-3, 0.2, 0.9):
        out += [{"p": [t, t]}, {"p": [-t, t]}, {"p": [t, -t]}, {"p": [-t, -t]}, {"p": [t, t / 2]}, {"p": [-t / 3, t]}]
    return out + [{"p": [r.uniform(-1, 1), r.uniform(-1, 1)]} for _ in range(60)]


def inner_sq():
    return [q for q in sq_points()]


def hex_points():
    r = random.Random(6)
    A = math.sqrt(3) / 2
    out = [{"p": [0.0, 0.0]}]
    for k in range(12):
        t = math.radians(30 * k)
        R = 1.0 if k % 2 == 0 else A
        for f in (0.05, 0.5, 0.99):
            out.append({"p": [f * R * math.cos(t), f * R * math.sin(t)]})
    for _ in range(80):
        while True:
            p = [r.uniform(-1, 1), r.uniform(-1, 1)]
            if max(abs(p[0] * math.cos(math.radians(30 + 60 * k)) + p[1] * math.sin(math.radians(30 + 60 * k))) for k in range(6)) < A:
                break
        out.append({"p": p})
    return out


def sph_points(north=False):
    r = random.Random(5)
    out = []
    for v in F.axes(3, 6):
        out.append({"p": v})
    for z in (0.0, 0.2, -0.2, 0.999999, -0.999999):
        for t in (0.0, PI / 4, PI / 2, 2.0, PI, -PI / 4, -PI / 2, -3 * PI / 4, 0.3):
            s = math.sqrt(1 - z * z)
            out.append({"p": [round(s * math.cos(t), 15) + 0.0, round(s * math.sin(t), 15) + 0.0, z]})
    out += [{"p": F.unit([r.gauss(0, 1) for _ in range(3)])} for _ in range(60)]
    if north:
        out = [q for q in out if q["p"][2] >= 0]
    return out


CASES = []


def case(q, label, g, pts, tol=1e-6):
    CASES.append((q, label, g, pts, tol))


def plain(q, role, ref):
    def g(cx):
        a = cx.arg(role, "p")
        return cx.c(cx.call(q, a)), ref(cx.c(a))
    return g


def chain(qs, role):
    def g(cx):
        a = v = cx.arg(role, "p")
        for q in qs:
            v = cx.call(q, v)
        return cx.c(v), cx.c(a)
    return g


FWD = [SP + "rosca_lambert", MC + "rosca_lambert"]
INV = [SP + "inv_rosca_lambert", UT + "square_to_hemisphere", UT + "square_to_hemisphere_v2", KV + "square_to_hemisphere"]
HEX = [UT + "hexagon_to_hemisphere", KV + "hexagon_to_hemisphere"]
one = lambda v: [F.add(*[F.sq(x) for x in v])]
for q in FWD:
    case(q, "square equal-area projection", plain(q, "S2", fwd_ref), sph_points)
    case(q, "inverse of the projection returns the point", chain([q, INV[0]], "S2"), lambda: sph_points(True), 1e-5)
for q in INV:
    case(q, "inverse square equal-area projection", plain(q, "V2", inv_ref), sq_points)
    case(q, "projection of the inverse returns the point", chain([q, FWD[0]], "V2"), inner_sq, 1e-5)
for q in HEX:
    case(q, "hexagonal equal-area projection", plain(q, "V2", hex_ref), hex_points)
for q in INV + HEX:
    def unit(cx, q=q):
        v = cx.c(cx.call(q, cx.arg("V2", "p")))
        return one(v) + [E.ite(E.lt(v[2], c(-1e-9)), c(1), c(0))], [c(1), c(0)]
    case(q, "point of the northern unit hemisphere", unit, sq_points if q in INV else hex_points)


def sbs_ref(v):
    a, b = fwd_ref(v)
    # left half for z >= 0, right half for z < 0
    return [E.add(E.sub(F.k(0.5, a), c(0.5)), E.ite(E.lt(v[2], c(0)), c(1), c(0))), b]


case(SP + "rosca_lambert_side_by_side", "hemispheres side by side", plain(SP + "rosca_lambert_side_by_side", "S2", sbs_ref), sph_points)


def to_xyz(cx):
    t, f = cx.arg("TH", "theta"), cx.arg("TH", "phi")
    got = cx.c(cx.call(SP + "theta_phi_to_xyz", t, f))
    th, ph = cx.c(t)[0], cx.c(f)[0]
    return got, [F.mul(E.sin(th), E.cos(ph)), F.mul(E.sin(th), E.sin(ph)), E.cos(th)]


def ang_points():
    return [{"theta": a, "phi": b} for a in (0.0, 0.3, PI / 2, 2.5, PI) for b in (-3.0, -1.0, 0.0, 0.7, PI / 2, 2.0, 3.1)]


def from_xyz(v):
    return [E.acos(E.max_(E.min_(v[2], c(1)), c(-1))), E.atan2(v[1], v[0])]


def round_xyz(cx):
    a = cx.arg("S2", "p")
    r = cx.call(SP + "xyz_to_theta_phi", a)
    n = cx.c(r)
    from ..values import Tensor
    t = cx.I.tensor(r)
    mk = lambda x: cx.I.newloc(Tensor(t.shape[:-1], [x], 0, frozenset(), t.dtype, t.dev, t.deps))
    return cx.c(cx.call(SP + "theta_phi_to_xyz", mk(n[0]), mk(n[1]))), cx.c(a)


case(SP + "theta_phi_to_xyz", "polar angle and azimuth to the point", to_xyz, ang_points)
case(SP + "xyz_to_theta_phi", "polar angle and azimuth of the point", plain(SP + "xyz_to_theta_phi", "S2", from_xyz), sph_points, 1e-5)
case(SP + "xyz_to_theta_phi", "conversion back returns the point", round_xyz, sph_points, 1e-5)


def job(p, item):
    i, dt = item
    q, label, g, pts, tol = CASES[i]
    check(p, Repo(), q, label, g, pts(), tol, dt)


def run(rep, tier):
    dts = ("f64",) if tier == "quick" else ("f64", "f32")
    rep.pmap(job, [(i, dt) for i in range(len(CASES)) for dt in dts], limit=200)
    rep.floor = {"identities": 20}
    return ("Normal forms of every copy of the square and hexagonal equal-area projections, of their inverses and of the "
            "spherical coordinate conversions are compared with the reference maps, with the unit sphere, and with each other "
            "(forward of inverse, inverse of forward); centre, axes, diagonals, edges, corners, poles and equator included.")
