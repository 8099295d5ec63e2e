"""Quaternion operations obey Hamilton's algebra and agree with the rotations they stand for."""
import math
import random
from .. import expr as E, refs as F, contracts as K
from ..ident import check
from ..loader import Repo

Q = K.Qm
c = E.const


def outer(q):
    """sign-free description of a quaternion"""
    return [F.mul(q[i], q[j]) for i in range(4) for j in range(i, 4)]


def neg_part(w):
    return E.ite(E.lt(w, c(0)), w, c(0))


def dot(a, b):
    return F.add(*[F.mul(x, y) for x, y in zip(a, b)])


def Rv(q, v):
    m = F.R_qu(q)
    return [F.add(*[F.mul(m[3 * i + j], v[j]) for j in range(3)]) for i in range(3)]


def c2(fn, r1="Q", r2="Q"):
    def f(cx):
        a, b = cx.arg(r1, "a"), cx.arg(r2, "b")
        return fn(cx, a, b, cx.c(a), cx.c(b))
    return f


def c1(fn, r="Q"):
    def f(cx):
        a = cx.arg(r, "a")
        return fn(cx, a, cx.c(a))
    return f


def call(f):
    return lambda cx, *a, **k: cx.c(cx.call(Q + f, *a, **k))


def std(q):
    s = E.ite(E.lt(q[0], c(0)), c(-1), c(1))
    return [F.mul(s, x) for x in q]


def slerp_ref(a, b, t):
    """unit quaternion weights sin((1-t)w)/sin w, sin(t w)/sin w; limit 1-t, t for equal quaternions"""
    d = dot(a, b)
    w = E.acos(E.max_(E.min_(d, c(1)), c(-1)))
    s = E.sin(w)
    z = E.eq(s, c(0))
    w1 = E.ite(z, E.sub(c(1), t), E.div(E.sin(F.mul(E.sub(c(1), t), w)), s))
    w2 = E.ite(z, t, E.div(E.sin(F.mul(t, w)), s))
    return [E.add(F.mul(x, w1), F.mul(y, w2)) for x, y in zip(a, b)]


CASES = {}


def case(f, label, fn, pts, tol=1e-9):
    CASES.setdefault(f, []).append((label, fn, pts, tol))


def P(*roles, n=60):
    def g():
        pts = F.role_points([(nm, r) for nm, r in zip("abc", roles)], n=n)
        return pts
    return g


def near():
    """pairs for interpolation: generic, equal, nearly equal, obtuse, but not opposite"""
    r = random.Random(4)
    out = []
    for i in range(70):
        a = F.unit([r.gauss(0, 1) for _ in range(4)])
        b = F.unit([r.gauss(0, 1) for _ in range(4)])
        if i % 5 == 0:
            b = F.unit([x + 10.0 ** -(i // 5 % 6 + 1) * y for x, y in zip(a, b)])
        if i == 1:
            a = b = [1.0, 0.0, 0.0, 0.0]
        if i == 2:
            a = b = [0.5, 0.5, 0.5, 0.5]
        t = [0.0, 1.0, 0.5, 0.25, r.random()][i % 5] if i > 4 else [0.0, 0.3, 0.7, 1.0, 0.5][i]
        if abs(sum(x * y for x, y in zip(a, b)) + 1) < 1e-3:
            continue
        out.append({"a": a, "b": b, "t": t})
    return out


def pairs_s2():
    r = random.Random(9)
    ax = F.axes(3, 6)
    out = [{"a": v, "b": w} for v in ax[:8] for w in ax[:8]]
    for v in ax:
        out.append({"a": v, "b": v})
        out.append({"a": v, "b": [-x for x in v]})
    for i in range(50):
        out.append({"a": F.unit([r.gauss(0, 1) for _ in range(3)]), "b": F.unit([r.gauss(0, 1) for _ in range(3)])})
    # nearly antipodal
    for e in (0.3, 0.05, 0.02):
        for v in ax[6:12]:
            w = F.unit([-x + e * y for x, y in zip(v, F.unit([r.gauss(0, 1) for _ in range(3)]))])
            out.append({"a": v, "b": w})
    return out


case("qu_prod_raw", "Hamilton product", c2(lambda cx, a, b, x, y: (call("qu_prod_raw")(cx, a, b), F.qmul(x, y)), "Q*", "Q*"), P("Q*", "Q*"))
case("qu_prod", "Hamilton product up to sign", c2(lambda cx, a, b, x, y: (outer(call("qu_prod")(cx, a, b)), outer(F.qmul(x, y)))), P("Q", "Q"))
case("qu_prod", "scalar part not negative", c2(lambda cx, a, b, x, y: ([neg_part(call("qu_prod")(cx, a, b)[0])], [c(0)])), P("Q", "Q"))
case("qu_prod_pos_real", "magnitude of the scalar part of the product",
     c2(lambda cx, a, b, x, y: (call("qu_prod_pos_real")(cx, a, b), [E.abs_(F.qmul(x, y)[0])]), "Q*", "Q*"), P("Q*", "Q*"))
case("qu_prod_axis", "vector part of the product",
     c2(lambda cx, a, b, x, y: (call("qu_prod_axis")(cx, a, b), F.qmul(x, y)[1:]), "Q*", "Q*"), P("Q*", "Q*"))


def triple(cx):
    a, b, d = cx.arg("Q", "a"), cx.arg("Q", "b"), cx.arg("Q", "c")
    return call("qu_triple_prod_pos_real")(cx, a, b, d), [E.abs_(F.qmul(F.qmul(cx.c(a), cx.c(b)), cx.c(d))[0])]


case("qu_triple_prod_pos_real", "magnitude of the scalar part of the triple product", triple, P("Q", "Q", "Q"))
case("qu_conj", "conjugate", c1(lambda cx, a, x: (call("qu_conj")(cx, a), F.qconj(x)), "Q*"), P("Q*"))
case("qu_conj", "product with the conjugate is the identity",
     c1(lambda cx, a, x: (cx.c(cx.call(Q + "qu_prod_raw", a, cx.call(Q + "qu_conj", a))), [c(1), c(0), c(0), c(0)])), P("Q"))
case("qu_std", "same rotation", c1(lambda cx, a, x: (outer(call("qu_std")(cx, a)), outer(x)), "Q*"), P("Q*"))
case("qu_std", "scalar part not negative", c1(lambda cx, a, x: ([neg_part(call("qu_std")(cx, a)[0])], [c(0)]), "Q*"), P("Q*"))
case("qu_norm", "unit length, same direction",
     c1(lambda cx, a, x: (call("qu_norm")(cx, a), [E.div(t, F.norm(x)) for t in x]), "Q*"), P("Q*"))
case("qu_norm_std", "unit length, same rotation",
     c1(lambda cx, a, x: (outer(call("qu_norm_std")(cx, a)), outer([E.div(t, F.norm(x)) for t in x])), "Q*"), P("Q*"))
case("qu_norm_std", "scalar part not negative",
     c1(lambda cx, a, x: ([neg_part(call("qu_norm_std")(cx, a)[0])], [c(0)]), "Q*"), P("Q*"))
case("qu_apply", "rotation of the point", c2(lambda cx, a, b, x, y: (call("qu_apply")(cx, a, b), Rv(x, y)), "Q", "V3"), P("Q", "V3"))
case("qu_apply", "composition of two rotations is the rotation of the product",
     c2(lambda cx, a, b, x, y: (lambda v: (
         cx.c(cx.call(Q + "qu_apply", a, cx.call(Q + "qu_apply", b, v))),
         cx.c(cx.call(Q + "qu_apply", cx.call(Q + "qu_prod", a, b), v))))(cx.arg("V3", "c"))), P("Q", "Q", "V3"))
case("qu_angle", "cosine of the rotation angle",
     c1(lambda cx, a, x: ([E.cos(call("qu_angle")(cx, a)[0])], [E.sub(F.k(2, F.sq(x[0])), c(1))])), P("Q"))
case("qu_angle", "rotation angle of standard quaternions",
     c1(lambda cx, a, x: (call("qu_angle")(cx, a), [F.k(2, E.acos(E.min_(x[0], c(1))))]), "Q+"), P("Q+"))


def rot_sets(cx):
    a, b = cx.arg("S2", "a"), cx.arg("S2", "b")
    q = cx.c(cx.call(Q + "quaternion_rotate_sets_sphere", a, b))
    return Rv(q, cx.c(a)) + [dot(q, q)], cx.c(b) + [c(1)]


case("quaternion_rotate_sets_sphere", "rotates the start to the finish", rot_sets, pairs_s2, 1e-5)


def slerp(cx):
    a, b = cx.arg("Q", "a"), cx.arg("Q", "b")
    t = num_("t")
    return cx.c(cx.call(Q + "qu_slerp", a, b, t)), slerp_ref(cx.c(a), cx.c(b), t.n)


def num_(n):
    from ..harness import num
    return num(n, lo=0.0, hi=1.0)


case("qu_slerp", "spherical interpolation", slerp, near, 1e-6)


def slerp_end(t, nm):
    def f(cx):
        a, b = cx.arg("Q", "a"), cx.arg("Q", "b")
        from ..values import Num
        return cx.c(cx.call(Q + "qu_slerp", a, b, Num(float(t)))), cx.c(a if nm == "a" else b)
    return f


case("qu_slerp", "value at 0", slerp_end(0, "a"), near, 1e-6)
case("qu_slerp", "value at 1", slerp_end(1, "b"), near, 1e-6)


def job(p, item):
    f, i, dt = item
    label, fn, pts, tol = CASES[f][i]
    check(p, Repo(), Q + f, label, fn, pts(), tol, dt)


def run(rep, tier):
    dts = ("f64",) if tier == "quick" else ("f64", "f32")
    rep.pmap(job, [(f, i, dt) for f in CASES for i in range(len(CASES[f])) for dt in dts], limit=120)
    rep.floor = {"identities": 20}
    return ("Normal forms of every quaternion operation on symbolic quaternions are compared with Hamilton's product, the "
            "rotation matrix of a quaternion and the interpolation formula; differences count only when confirmed in "
            "50-digit arithmetic at a point of the domain (signed zeros, half turns, equal and antipodal arguments included).")
