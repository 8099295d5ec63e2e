"""Exponential and logarithm maps of rigid motions."""
import math
import random
from .. import expr as E, refs as F, contracts as K
from ..ident import check
from ..loader import Repo

L = K.L
c = E.const


def skew(w):
    z = c(0)
    return [[z, E.neg(w[2]), w[1]], [w[2], z, E.neg(w[0])], [E.neg(w[1]), w[0], z]]


def mm(a, b):
    return [[F.add(*[F.mul(a[i][k], b[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)]


def mv(a, v):
    return [F.add(*[F.mul(a[i][k], v[k]) for k in range(3)]) for i in range(3)]


def flat(m):
    return [x for r in m for x in r]


def unflat(v):
    return [v[0:3], v[3:6], v[6:9]]


def theta(w):
    return F.norm(w)


def series(t2, cs):
    r = c(0)
    p = c(1)
    for k in cs:
        r = E.add(r, F.mul(c(k), p))
        p = F.mul(p, t2)
    return r


def sel(t, closed, cs):
    """closed form, its series (far below rounding) for angles under 0.2"""
    return E.ite(E.lt(t, c(0.2)), series(F.mul(t, t), cs), closed)


f = math.factorial
SINC = [(-1) ** k / f(2 * k + 1) for k in range(8)]
COSC = [(-1) ** k / f(2 * k + 2) for k in range(8)]
SIN3 = [(-1) ** k / f(2 * k + 3) for k in range(8)]
VINV = [1 / 12, 1 / 720, 1 / 30240, 1 / 1209600, 1 / 47900160, 691 / 1307674368000]


def combo(w, one, a, b):
    s = skew(w)
    s2 = mm(s, s)
    return [[F.add(c(one if i == j else 0), F.mul(a, s[i][j]), F.mul(b, s2[i][j])) for j in range(3)] for i in range(3)]


def R_ref(w):
    t = theta(w)
    return combo(w, 1, sel(t, E.div(E.sin(t), t), SINC), sel(t, E.div(E.sub(c(1), E.cos(t)), F.mul(t, t)), COSC))


def V_ref(w):
    t = theta(w)
    return combo(w, 1, sel(t, E.div(E.sub(c(1), E.cos(t)), F.mul(t, t)), COSC),
                 sel(t, E.div(E.sub(t, E.sin(t)), F.mul(t, t, t)), SIN3))


def Vi_ref(w):
    t = theta(w)
    h = F.k(0.5, t)
    b = E.div(E.sub(c(1), E.div(F.mul(h, E.cos(h)), E.sin(h))), F.mul(t, t))
    return combo(w, 1, c(-0.5), sel(t, b, VINV))


MAG = [0.0, 1e-9, 1e-6, 1e-4, 9e-4, 1.1e-3, 5e-3, 9.9e-3, 0.011, 0.03, 0.0499, 0.0501, 0.09, 0.3, 1.0, 2.0, 2.9, 3.1]


def pts_w(extra=(), name="w", six=False, tv=True):
    r = random.Random(3)
    out = []
    ax = F.axes(5, 6)
    for m in list(MAG) + list(extra):
        for v in ax[::2] + ax[-6:]:
            w = [m * x for x in v]
            if six:
                w = w + [r.uniform(-2, 2) for _ in range(3)]
            out.append({name: w})
    return out


BIG = (3.3, 4.0, 5.5, 6.1)
CASES = []


def case(fn, label, g, pts, tol):
    CASES.append((fn, label, g, pts, tol))


def one(fn, ref, role="V3", pick=None):
    def g(cx):
        a = cx.arg(role, "w")
        o = cx.outs(cx.call(L + fn, a))
        o = [cx.c(x) for x in o]
        got = o[pick] if pick is not None else [x for q in o for x in q]
        return got, ref(cx.c(a))
    return g


def se3_ref(x):
    w, t = x[:3], x[3:]
    R, tr = R_ref(w), mv(V_ref(w), t)
    z = c(0)
    return [R[0][0], R[0][1], R[0][2], tr[0], R[1][0], R[1][1], R[1][2], tr[1], R[2][0], R[2][1], R[2][2], tr[2], z, z, z, c(1)]


case("skew", "cross product matrix", one("skew", lambda w: flat(skew(w))), lambda: pts_w(), 1e-12)
case("w_exp", "rotation by the vector", one("w_exp", lambda w: flat(R_ref(w))), lambda: pts_w(BIG), 1e-10)
case("w_exp_vmat", "rotation by the vector", one("w_exp_vmat", lambda w: flat(R_ref(w)), pick=0), lambda: pts_w(BIG), 1e-10)
case("w_exp_vmat", "left Jacobian", one("w_exp_vmat", lambda w: flat(V_ref(w)), pick=1), lambda: pts_w(BIG), 1e-10)
case("w_to_v", "left Jacobian", one("w_to_v", lambda w: flat(V_ref(w))), lambda: pts_w(BIG), 1e-10)
case("w_to_v_inv", "inverse of the left Jacobian", one("w_to_v_inv", lambda w: flat(Vi_ref(w))), lambda: pts_w((3.3, 4.0, 5.5)), 1e-10)


def vvinv(cx):
    a = cx.arg("V3", "w")
    v, i = cx.c(cx.call(L + "w_to_v", a)), cx.c(cx.call(L + "w_to_v_inv", a))
    return flat(mm(unflat(v), unflat(i))), [c(x) for x in (1, 0, 0, 0, 1, 0, 0, 0, 1)]


case("w_to_v_inv", "product with the left Jacobian is the identity", vvinv, lambda: pts_w((3.3, 4.0)), 1e-9)
case("se3_exp_map_om", "exponential map", one("se3_exp_map_om", se3_ref, "V6"), lambda: pts_w(BIG, six=True), 1e-9)
case("se3_exp_map_split", "exponential map",
     one("se3_exp_map_split", lambda x: flat(R_ref(x[:3])) + mv(V_ref(x[:3]), x[3:]), "V6"), lambda: pts_w(BIG, six=True), 1e-9)


def expq(cx):
    a = cx.arg("V6", "w")
    q, t = [cx.c(x) for x in cx.outs(cx.call(L + "se3_exp_map_quat", a))]
    x = cx.c(a)
    return F.R_qu(q) + t, flat(R_ref(x[:3])) + mv(V_ref(x[:3]), x[3:])


case("se3_exp_map_quat", "exponential map", expq, lambda: pts_w(six=True), 1e-8)


def roundtrip(e, l):
    def g(cx):
        a = cx.arg("V6", "w")
        o = cx.outs(cx.call(L + e, a))
        return cx.c(cx.call(L + l, *o)), cx.c(a)
    return g


def pts_rt():
    return [p for p in pts_w(six=True)]


case("se3_log_map_om", "logarithm of the exponential", roundtrip("se3_exp_map_om", "se3_log_map_om"), pts_rt, 2e-6)
case("se3_log_map_split", "logarithm of the exponential", roundtrip("se3_exp_map_split", "se3_log_map_split"), pts_rt, 2e-6)
case("se3_log_map_quat", "logarithm of the exponential", roundtrip("se3_exp_map_quat", "se3_log_map_quat"), pts_rt, 2e-6)


def logref(kind):
    """the logarithm of the rigid motion [R(q), t], angle below pi"""
    def g(cx):
        q, t = cx.arg("Q+", "q"), cx.arg("V3", "t")
        qc, tc = cx.c(q), cx.c(t)
        n = F.norm(qc[1:])
        ang = F.k(2, E.atan2(n, qc[0]))
        fac = E.ite(E.lt(n, c(1e-9)), c(2), E.div(ang, n))
        w = [F.mul(fac, x) for x in qc[1:]]
        want = w + mv(Vi_ref(w), tc)
        I = cx.I
        from ..values import Dim, Tensor
        if kind == "quat":
            out = cx.call(L + "se3_log_map_quat", q, t)
        else:
            R = F.R_qu(qc)
            t0 = I.tensor(q)
            if kind == "split":
                m = I.newloc(Tensor(list(t0.shape[:1]) + [Dim(3), Dim(3)], R, 2, frozenset(), "f64", t0.dev, t0.deps))
                out = cx.call(L + "se3_log_map_split", m, t)
            else:
                z = c(0)
                tt = tc
                M = R[0:3] + [tt[0]] + R[3:6] + [tt[1]] + R[6:9] + [tt[2]] + [z, z, z, c(1)]
                m2 = {}
                t1 = I.tensor(t)
                for a, b in zip(t1.shape[:1], t0.shape[:1]):
                    for u, v in zip(a.ivs, b.ivs):
                        m2[u] = v
                from ..torchops import rename
                M = rename(M, m2)
                want = rename(want, m2)
                m = I.newloc(Tensor(list(t0.shape[:1]) + [Dim(4), Dim(4)], M, 2, frozenset(), "f64", t0.dev, t0.deps))
                out = cx.call(L + "se3_log_map_om", m)
        return cx.c(out), want
    return g


def pts_q():
    r = random.Random(8)
    out = []
    for v in F.axes(5, 8):
        for w in (0.0, 1e-6, 1e-3, 8e-3, 0.02, 0.2, 1.0, 2.0, 2.9, 3.1):
            out.append({"q": F.n_qu(v, w), "t": [r.uniform(-2, 2) for _ in range(3)]})
    return out


for k in ("om", "split", "quat"):
    case("se3_log_map_" + k, "logarithm map", logref(k), pts_q, 2e-6)


def job(p, item):
    i, dt = item
    fn, label, g, pts, tol = CASES[i]
    check(p, Repo(), L + fn, label, g, pts(), tol, dt)


def run(rep, tier):
    dts = ("f64",) if tier == "quick" else ("f64", "f32")
    rep.pmap(job, [(i, dt) for i in range(len(CASES)) for dt in dts], limit=300)
    rep.floor = {"identities": 15}
    return ("Normal forms of the exponential and logarithm maps (closed form and small-angle branches) on symbolic vectors are "
            "compared with Rodrigues' formula, the left Jacobian and its inverse; logarithm-of-exponential is compared with the "
            "argument. Sample points bracket every branch threshold.")
