"""Reference meanings of the rotation representations, written from their published definitions
(quaternion rotation matrix, Rodrigues, homochoric and cubochoric maps of Rosca/Morawiec/De Graef,
Bunge ZXZ angles, Zhou 6D), as nodes over the components of a representation."""
import math
import random
from . import expr as E
from . import contracts as K

c = E.const
PI = math.pi


def add(*x):
    r = x[0]
    for y in x[1:]:
        r = E.add(r, y)
    return r


def mul(*x):
    r = x[0]
    for y in x[1:]:
        r = E.mul(r, y)
    return r


def k(v, x):
    return E.mul(c(v), x)


def sq(x):
    return E.mul(x, x)


def norm(v):
    return E.sqrt(add(*[sq(x) for x in v]))


def qmul(a, b):
    aw, ax, ay, az = a
    bw, bx, by, bz = b
    return [add(mul(aw, bw), k(-1, mul(ax, bx)), k(-1, mul(ay, by)), k(-1, mul(az, bz))),
            add(mul(aw, bx), mul(ax, bw), mul(ay, bz), k(-1, mul(az, by))),
            add(mul(aw, by), k(-1, mul(ax, bz)), mul(ay, bw), mul(az, bx)),
            add(mul(aw, bz), mul(ax, by), k(-1, mul(ay, bx)), mul(az, bw))]


def qconj(a):
    return [a[0]] + [E.neg(x) for x in a[1:]]


def R_qu(q):
    w, x, y, z = q
    s = add(sq(w), k(-1, sq(x)), k(-1, sq(y)), k(-1, sq(z)))
    return [add(s, k(2, sq(x))), k(2, E.sub(mul(x, y), mul(w, z))), k(2, E.add(mul(x, z), mul(w, y))),
            k(2, E.add(mul(x, y), mul(w, z))), add(s, k(2, sq(y))), k(2, E.sub(mul(y, z), mul(w, x))),
            k(2, E.sub(mul(x, z), mul(w, y))), k(2, E.add(mul(y, z), mul(w, x))), add(s, k(2, sq(z)))]


def qu_ax(a):
    h = k(0.5, a[3])
    return [E.cos(h)] + [mul(x, E.sin(h)) for x in a[:3]]


def qu_ro(r):
    inf = E.bool_atom("isinf", r[3])
    d = E.pow_c(add(c(1), sq(r[3])), -0.5)
    return [E.ite(inf, c(0), d)] + [E.ite(inf, x, mul(x, r[3], d)) for x in r[:3]]


def qu_bu(b):
    s, d, h = k(0.5, E.add(b[0], b[2])), k(0.5, E.sub(b[0], b[2])), k(0.5, b[1])
    return [mul(E.cos(h), E.cos(s)), k(-1, mul(E.sin(h), E.cos(d))), k(-1, mul(E.sin(h), E.sin(d))),
            k(-1, mul(E.cos(h), E.sin(s)))]


def R_zh(z):
    a, b = z[:3], z[3:]
    na = norm(a)
    b1 = [E.div(x, na) for x in a]
    dp = add(*[mul(x, y) for x, y in zip(b1, b)])
    b2 = [E.sub(x, mul(dp, y)) for x, y in zip(b, b1)]
    nb = norm(b2)
    b2 = [E.div(x, nb) for x in b2]
    b3 = [E.sub(mul(b1[1], b2[2]), mul(b1[2], b2[1])), E.sub(mul(b1[2], b2[0]), mul(b1[0], b2[2])),
          E.sub(mul(b1[0], b2[1]), mul(b1[1], b2[0]))]
    return b1 + b2 + b3


def ho_ax(a):
    f = E.pow_c(k(0.75, E.sub(a[3], E.sin(a[3]))), 1.0 / 3.0)
    return [mul(x, f) for x in a[:3]]


def ho_qu(q):
    """positive scalar part assumed by standardising; identity -> 0"""
    s = E.ite(E.lt(q[0], c(0)), c(-1), c(1))
    q = [mul(s, x) for x in q]
    w = E.min_(q[0], c(1))
    om = k(2, E.acos(w))
    n = norm(q[1:])
    f = E.pow_c(k(0.75, E.sub(om, E.sin(om))), 1.0 / 3.0)
    z = E.eq(n, c(0))
    return [E.ite(z, c(0), mul(x, f, E.inv(n))) for x in q[1:]]


def ho_ro(r):
    inf = E.bool_atom("isinf", r[3])
    om = E.ite(inf, c(PI), k(2, E.atan(r[3])))
    return ho_ax(list(r[:3]) + [om])


def R_of(rep, x):
    """rotation matrix of a representation with a closed form"""
    return {"qu": R_qu, "om": list, "ax": lambda a: R_qu(qu_ax(a)), "ro": lambda a: R_qu(qu_ro(a)),
            "bu": lambda a: R_qu(qu_bu(a)), "zh": R_zh}[rep](x)


def ho_of(rep, x):
    return {"qu": ho_qu, "ax": ho_ax, "ro": ho_ro, "bu": lambda b: ho_qu(qu_bu(b)), "ho": list}[rep](x)


# ---------------------------------------------------------------- numeric oracle values (domain points only)
def n_cu2ho(v):
    """cubochoric -> homochoric (Rosca, Morawiec & De Graef 2014), plain numbers"""
    sc = (PI / 6) ** (1 / 6)
    x = [t * sc for t in v]
    m = max(abs(t) for t in x)
    if m == 0:
        return [0.0, 0.0, 0.0]
    a = max(range(3), key=lambda i: abs(x[i]))
    X, Y, Z = x[(a + 1) % 3], x[(a + 2) % 3], x[a]
    if X == 0 and Y == 0:
        T1 = T2 = 0.0
    else:
        pre = lambda p: 2 ** 0.25 * p / math.sqrt(PI / 6) / math.sqrt(2 ** 0.5 - math.cos(ang))
        if abs(Y) <= abs(X):
            ang = PI * Y / (12 * X)
            q = pre(X)
            T1, T2 = (2 ** 0.5 * math.cos(ang) - 1) * q, 2 ** 0.5 * math.sin(ang) * q
        else:
            ang = PI * X / (12 * Y)
            q = pre(Y)
            T1, T2 = 2 ** 0.5 * math.sin(ang) * q, (2 ** 0.5 * math.cos(ang) - 1) * q
    cc = T1 * T1 + T2 * T2
    s = PI * cc / (24 * Z * Z)
    q = math.sqrt(max(0.0, 1 - s))
    p = [0.0, 0.0, 0.0]
    p[(a + 1) % 3], p[(a + 2) % 3] = T1 * q, T2 * q
    p[a] = math.sqrt(6 / PI) * Z - math.sqrt(PI / 24) * cc / Z
    return p


def cu2ho_node(v):
    """the same map as nodes, for |v| sorted by cases"""
    a = [E.abs_(x) for x in v]
    out = [c(0)] * 3
    sc = (PI / 6) ** (1 / 6)
    res = None
    for ax in range(3):
        i, j = (ax + 1) % 3, (ax + 2) % 3
        Z = k(sc, a[ax])
        case = []
        for big, sml in ((i, j), (j, i)):
            P, Q = k(sc, a[big]), k(sc, a[sml])
            z = E.eq(P, c(0))
            ang = k(PI / 12, mul(Q, E.inv(P)))
            pre = mul(c(2 ** 0.25 / math.sqrt(PI / 6)), P, E.pow_c(E.sub(c(2 ** 0.5), E.cos(ang)), -0.5))
            Tb = E.ite(z, c(0), mul(E.sub(k(2 ** 0.5, E.cos(ang)), c(1)), pre))
            Ts = E.ite(z, c(0), mul(k(2 ** 0.5, E.sin(ang)), pre))
            cc = E.add(sq(Tb), sq(Ts))
            q = E.sqrt(E.sub(c(1), mul(c(PI / 24), cc, E.pow_c(Z, -2))))
            r = [None] * 3
            r[big], r[sml] = mul(Tb, q), mul(Ts, q)
            r[ax] = E.sub(k(math.sqrt(6 / PI), Z), mul(c(math.sqrt(PI / 24)), cc, E.inv(Z)))
            case.append(r)
        g = E.ge(a[i], a[j])
        cur = [E.ite(g, u, w) for u, w in zip(*case)]
        if res is None:
            res = cur
        else:
            isb = E.and_(E.ge(a[ax], a[i]), E.ge(a[ax], a[j]))
            res = [E.ite(isb, u, w) for u, w in zip(cur, res)]
    zero = E.and_(E.eq(a[0], c(0)), E.and_(E.eq(a[1], c(0)), E.eq(a[2], c(0))))
    return [E.ite(zero, c(0), E.ite(E.lt(x, c(0)), E.neg(r), r)) for x, r in zip(v, res)]


def unit(v):
    n = math.sqrt(sum(t * t for t in v))
    return [t / n for t in v]


def axes(seed=1, n=14):
    r = random.Random(seed)
    s = 0.5 ** 0.5
    t = 3 ** -0.5
    out = [[0, 0, 1.0], [0, 0, -1.0], [1.0, 0, 0], [-1.0, 0, 0], [0, 1.0, 0], [0, -1.0, 0], [s, -s, 0], [s, s, 0],
           [0, s, -s], [-s, 0, s], [t, t, t], [-t, t, -t]]
    for _ in range(n):
        out.append(unit([r.gauss(0, 1) for _ in range(3)]))
    return [[float(x) for x in v] for v in out]


ANG = [0.0, 0.004, 0.03, 0.2, 0.7, 1.3, PI / 2, 2.0, 2.6, 3.0, PI]


def rotations(seed=1, n=14, angles=None):
    """(axis, angle) domain points"""
    out = []
    for i, v in enumerate(axes(seed, n)):
        for j, w in enumerate(angles or ANG):
            out.append((v, w))
    return out


def n_qu(v, w):
    q = [math.cos(w / 2)] + [x * math.sin(w / 2) for x in v]
    if w == PI:
        q[0] = 0.0
    return q


def n_om(q):
    w, x, y, z = q
    s = w * w - x * x - y * y - z * z
    return [[s + 2 * x * x, 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), s + 2 * y * y, 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), s + 2 * z * z]]


def points(rep, name, seed=1, n=14):
    """domain points of a representation"""
    r = random.Random(seed + 7)
    out = []
    if rep == "bu":
        for a in (0.0, 0.3, 2.0, PI, 4.0, 6.0):
            for b in (0.0, 0.01, 0.9, PI / 2, 2.8, PI):
                for g in (0.0, 1.1, 3.3, 5.9):
                    out.append({name: [a, b, g]})
        return out
    if rep == "zh":
        for _ in range(60):
            out.append({name: [r.uniform(-2, 2) for _ in range(6)]})
        return out
    if rep == "cu":
        e = K.CU_EDGE
        out = [{name: [0.0, 0.0, 0.0]}]
        for i in range(3):
            for s in (1, -1):
                for f in (0.05, 0.5, 0.97):
                    v = [0.0] * 3
                    v[i] = s * f * e
                    out.append({name: list(v)})
                    v[(i + 1) % 3] = s * f * e
                    out.append({name: list(v)})
                    v[(i + 2) % 3] = -s * f * e * 0.5
                    out.append({name: list(v)})
        out.append({name: [0.9 * e, 0.9 * e, 0.9 * e]})
        for _ in range(80):
            out.append({name: [r.uniform(-e, e) * 0.99 for _ in range(3)]})
        return out
    for v, w in rotations(seed, n):
        q = n_qu(v, w)
        if rep == "qu":
            out.append({name: q})
        elif rep == "om":
            out.append({name: n_om(q), "q": q})
        elif rep == "ax":
            out.append({name: v + [w]})
        elif rep == "ro":
            out.append({name: v + [E.INF if w == PI else math.tan(w / 2)]})
        elif rep == "ho":
            f = (0.75 * (w - math.sin(w))) ** (1 / 3)
            out.append({name: [x * f for x in v]})
    return out


def role_value(role, r, i):
    """a domain value of a role; i enumerates special cases first"""
    ax = axes(3, 4)

    def rv():
        return unit([r.gauss(0, 1) for _ in range(3)])
    if role in ("Q", "Q+", "Q*"):
        if i < 4:
            q = [[1.0, 0, 0, 0], [0.0, 0, 0, 1.0], [0.0, 0.6, 0.8, 0], [0.5, 0.5, -0.5, 0.5]][i]
        else:
            q = unit([r.gauss(0, 1) for _ in range(4)])
        if role == "Q+" and q[0] < 0:
            q = [-x for x in q]
        if role == "Q*":
            f = r.uniform(0.3, 3)
            q = [x * f for x in q]
        return [float(x) for x in q]
    if role == "OM":
        q = unit([r.gauss(0, 1) for _ in range(4)]) if i else [1.0, 0.0, 0.0, 0.0]
        return n_om(q)
    if role == "SE3":
        R = n_om(unit([r.gauss(0, 1) for _ in range(4)]))
        return [R[k] + [r.uniform(-2, 2)] for k in range(3)] + [[0.0, 0.0, 0.0, 1.0]]
    if role == "AX":
        return (ax[i] if i < len(ax) else rv()) + [[0.0, PI][i % 2] if i < 2 else r.uniform(0, PI)]
    if role == "RO":
        return (ax[i] if i < len(ax) else rv()) + [[0.0, E.INF][i % 2] if i < 2 else r.uniform(0, 4)]
    if role == "HO":
        f = r.uniform(0, K.HO_R) if i else 0.0
        return [x * f for x in rv()]
    if role == "CU":
        return [r.uniform(-1, 1) * K.CU_EDGE * 0.99 if i else 0.0 for _ in range(3)]
    if role == "BU":
        return [r.uniform(0, 2 * PI), [0.0, PI][i % 2] if i < 2 else r.uniform(0, PI), r.uniform(0, 2 * PI)]
    if role == "S2":
        return ax[i] if i < 8 else rv()
    if role == "V2":
        return [[0.0, 0.0], [1.0, 1.0], [-1.0, 0.5], [0.3, 0.0], [0.0, -0.4], [0.5, 0.5]][i] if i < 6 else [r.uniform(-1, 1), r.uniform(-1, 1)]
    if role in ("V3", "V6"):
        n = int(role[1])
        v = [r.uniform(-1.5, 1.5) for _ in range(n)]
        if i == 0:
            v = [0.0] * 3 + v[3:]
        elif i < 4:
            v = [x * 10.0 ** (-i - 1) for x in v[:3]] + v[3:]
        return v
    if role == "ZH":
        return [r.uniform(-2, 2) for _ in range(6)]
    if role == "TH":
        return r.uniform(-PI, PI)
    if role == "float":
        return [0.0, 1.0, 0.5][i] if i < 3 else r.random()
    if role == "int":
        return float(r.randint(1, 9))
    return r.uniform(-1, 1)


def role_points(params, n=40, seed=5):
    """[{name: value}] for a list of (name, role)"""
    r = random.Random(seed)
    out = []
    for i in range(n):
        out.append({nm: role_value(ro, r, i if k == 0 else (i * 5 + 3) % n) for k, (nm, ro) in enumerate(params)})
    return out
