"""Inputs that are valid up to rounding give results that are numbers."""
import math
import random
from .. import expr as E, refs as F, contracts as K, torchops
from ..compare import Eval, Opaque, assignment, mp_eval
from ..harness import *
from ..values import *

EPS = 1e-6
PI = math.pi


def near(I, r, name, batch=True):
    """an input of a role, its components free within rounding of their domain"""
    one = 1.0 + EPS
    if not batch:
        return K.role(I, r, name, ())
    if r == "Q":
        return tens(I, name, ("B", 4), lo=-one, hi=one)
    if r == "Q+":
        return tens(I, name, ("B", 4), lo=-one, hi=one, percomp={0: dict(lo=0.0, hi=one)})
    if r == "S2":
        return tens(I, name, ("B", 3), lo=-one, hi=one)
    if r == "OM":
        return tens(I, name, ("B", 3, 3), lo=-one, hi=one)
    if r == "AX":
        return tens(I, name, ("B", 4), lo=-one, hi=one, percomp={3: dict(lo=0.0, hi=PI * one)})
    if r == "RO":
        return tens(I, name, ("B", 4), lo=-one, hi=one, percomp={3: dict(lo=0.0, hi=E.INF)})
    if r == "HO":
        return tens(I, name, ("B", 3), lo=-K.HO_R * one, hi=K.HO_R * one)
    if r == "CU":
        return tens(I, name, ("B", 3), lo=-K.CU_EDGE * one, hi=K.CU_EDGE * one)
    if r == "V2":
        return tens(I, name, ("B", 2), lo=-1.0, hi=1.0)
    return K.role(I, r, name, ("B",))


def edge_points(params):
    """valid values, exactly and a rounding error off"""
    base = F.role_points(params, 40)
    out = list(base)
    rn = random.Random(11)
    uq = lambda: F.unit([rn.gauss(0, 1) for _ in range(4)])
    s2 = math.sqrt(0.5)
    qs = [[1.0, 0, 0, 0], [-1.0, 0, 0, 0], [0, 1.0, 0, 0], [0, 0, -1.0, 0], [0, 0, 0, 1.0], [0, s2, s2, 0], [s2, 0, 0, s2], [0.5, 0.5, 0.5, -0.5], uq(), uq(), uq(),
          [1.0, 1e-5, 0, 0], [1.0, 0, -1e-5, 0], [1.0, 0, 0, 1e-5], [1e-5, 1.0, 0, 0], [1e-5, 0, 0, -1.0], [-1.0, 1e-5, 1e-5, 0], [s2, 1e-5, 0, s2]]
    vs = [[0, 0, 1.0], [0, 0, -1.0], [1.0, 0, 0], [0, -1.0, 0], [s2, s2, 0], [s2, 0, -s2], F.unit([1.0, 1.0, 1.0]), [1e-5, 0, 1.0], [0, -1e-5, -1.0], [1.0, 0, 1e-5]] + [F.unit([rn.gauss(0, 1) for _ in range(3)]) for _ in range(3)]
    dom = {"Q": qs, "Q+": [q for q in qs if q[0] >= 0], "S2": vs}
    names = [(n, r) for n, r in params if r in dom]
    if names:
        for rep in range(4):
            for i in range(max(len(dom[r]) for _, r in names)):
                pt = dict(base[(i * 7 + rep) % len(base)])
                for j, (n, r) in enumerate(names):
                    v = dom[r][i % len(dom[r])]
                    if rep == 1 and j:
                        v = [-x for x in v] if r != "Q+" else v
                    if rep == 2 and j:
                        v = [v[0]] + [-x for x in v[1:]]
                    if rep == 3 and j:
                        v = dom[r][(i * 3 + j) % len(dom[r])]
                    pt[n] = [float(x) for x in v]
                out.append(pt)
    for n, r in params:
        if r == "SE3":
            for t in ([0.0, 0.0, 0.0], [1.0, -2.0, 0.5]):
                pt = dict(base[0])
                pt[n] = [[float(i == j) for j in range(3)] + [t[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]
                out.append(pt)
    scaled = []
    for pt in out:
        for f in (1.0 + EPS / 4, 1.0 - EPS / 4):
            q = {}
            for (n, r) in params:
                v = pt[n]
                if r in ("Q", "Q+", "S2", "HO", "CU"):
                    v = [x * f for x in v]
                elif r == "OM":
                    v = [[x * f for x in row] for row in v]
                elif r == "SE3":
                    v = [[x * f for x in row[:3]] + [row[3]] for row in v[:3]] + [v[3]]
                elif r in ("AX", "RO"):
                    v = [x * f for x in v[:3]] + [v[3] * f if r == "AX" else v[3]]
                q[n] = v
            scaled.append(q)
    return out + scaled


def bound(p, cs):
    """range of a polynomial under sign constraints on a path"""
    lo, hi = refined(p, cs)
    for t, s in cs:
        for f in (1.0, -1.0):
            sg = s * f
            for k in scales(p, t):
                r = E.padd(p, E.pscale(t, f), -k)      # p = k*f*t + r
                a, b = E.prange(r)
                if sg > 0:
                    lo = max(lo, a)
                elif sg < 0:
                    hi = min(hi, b)
                else:
                    lo, hi = max(lo, a), min(hi, b)
    return lo, hi


def refined(p, cs):
    """range of a polynomial with the ranges of its atoms narrowed by tests of a single atom"""
    at = {}
    for t, s in cs:
        ms = [(m, c) for m, c in t.terms if m]
        if len(ms) != 1 or len(ms[0][0]) != 1 or ms[0][0][0][1] != 1:
            continue
        a, c = ms[0][0][0][0], ms[0][1]
        k = -sum(c2 for m, c2 in t.terms if not m) / c
        lo, hi = at.get(a, (a.lo, a.hi))
        if s == 0:
            lo = hi = k
        elif (s > 0) == (c > 0):
            lo = max(lo, k)
        else:
            hi = min(hi, k)
        at[a] = (lo, hi)
    if not at:
        return E.prange(p)
    lo = hi = 0.0
    for m, c in p.terms:
        r = (1.0, 1.0)
        for a, e in m:
            r = E._imul(r, E._ipow(at.get(a) or (a.lo, a.hi), e))
        r = E._imul(r, (c, c))
        lo, hi = lo + r[0], hi + r[1]
    return (-E.INF if lo != lo else lo), (E.INF if hi != hi else hi)


def scales(p, t):
    out = {1.0}
    td = dict(t.terms)
    for m, c in p.terms:
        if m and m in td:
            out.add(abs(c / td[m]))
    return out


def strict(p, cs):
    """p is known to be nonzero"""
    lo, hi = bound(p, cs)
    if lo > 0 or hi < 0:
        return True
    for t, s in cs:
        if s == 0:
            continue
        for f in (1.0, -1.0):
            for k in scales(p, t):
                r = E.padd(p, E.pscale(t, f), -k)
                a, b = E.prange(r)
                if s * f > 0 and a >= 0 or s * f < 0 and b <= 0:
                    return True
    return False


def sites(node):
    """(what, polynomial, path) for every partial operation the value uses"""
    out, seen = [], set()

    def poly(p, cs, depth):
        for m, c in p.terms:
            for a, e in m:
                if (a.id, e, cs) in seen:
                    continue
                seen.add((a.id, e, cs))
                if not isinstance(e, int) and a.kind != "E":
                    out.append(("root", base(a), cs))
                if e < 0 and a.kind not in ("E",):
                    out.append(("division", base(a), cs))
                if a.kind in ("acos", "asin"):
                    out.append((a.kind, a.args[0], cs))
                if a.kind == "log":
                    out.append(("log", a.args[0], cs))
                if depth < 6:
                    for x in a.args:
                        if isinstance(x, E.Poly):
                            poly(x, cs, depth + 1)
    for cs, leaf in E.leaves(node):
        poly(leaf, cs, 0)
        for t, s in cs:
            poly(t, cs, 0)
    return out


def base(a):
    return a.args[0] if a.kind == "P" else E.patom(a)


def holds(what, p, cs):
    if what == "root":
        return bound(p, cs)[0] >= 0
    if what == "division":
        return strict(p, cs)
    if what == "log":
        lo, hi = bound(p, cs)
        return lo > 0 or (lo >= 0 and strict(p, cs))
    lo, hi = bound(p, cs)
    return lo >= -1 and hi <= 1


def not_number(nodes, pts):
    for pt in pts:
        base_ = assignment(pt)
        if base_ is None:
            continue
        ev = Eval(base_)
        try:
            for i, n in enumerate(nodes):
                v = ev.node(n)
                if v != v:
                    return i, pt
        except Opaque:
            return None
    return None


def result_nodes(I, out):
    ns = []
    for o in (list(out.items) if isinstance(out, Tup) else [out]):
        t = I.tensor(I.resolve(o))
        if t is None or t.shape is None:
            return None
        ns += list(t.comps)
    return ns


def job(p, item):
    from ..loader import Repo
    torchops.CAP = 800
    qual, ci = item
    repo = Repo()
    fn = qual.split(":")[1]
    c = K.C[qual]
    if not K.param_names_ok(repo, qual):
        p.missing(qual)
        return
    rel, line = repo.find(qual)[0].rel, repo.find(qual)[1].lineno
    case = c["cases"][ci]
    tag = fn + ("" if not case else " [%s]" % ", ".join("%s=%s" % kv for kv in case.items()))
    where = "%s:%s" % (rel, tag)
    p.count("functions x cases")
    I = Interp(repo, qual)
    kw = {n: near(I, r, n, n not in c.get("unbatched", ())) for n, r in c["params"]}
    for k, v in case.items():
        kw[k] = Num(v)
    for v in kw.values():
        if getattr(v, "loc", None) is not None and v.loc in I.store:
            I.store[v.loc] = I.store[v.loc].but(dtype="f64")
    out = I.resolve(I.run(qual, [], kw))
    p.saw(I)
    ns = result_nodes(I, out)
    if ns is None:
        p.undecided(where, "domain", "the result has no known components")
        return
    bad = not_number(ns, edge_points(c["params"]))
    if bad is not None:
        i, pt = bad
        p.viol(rel, fn, "not a number", "%s: component %d of the result is not a number for %s" % (
            where, i, {q: v for q, v in pt.items()}), line=line)
        return
    left = []
    n = 0
    for x in ns:
        for what, q, cs in sites(x):
            n += 1
            if not holds(what, q, cs):
                left.append("%s of %s" % (what, q))
    p.count("partial operations", n)
    if left:
        p.undecided(where, "domain", "%d of %d partial operations not shown inside their domain, first: %s" % (len(left), n, left[0][:160]))
    else:
        p.ok(where, "domain", "%d partial operations inside their domain on every path" % n)


ITEMS = [(q, i) for q in K.C for i in range(len(K.C[q]["cases"]))
         if q.split(":")[1] not in ("quaternion_rotate_sets_sphere",)]


def run(rep, tier):
    rep.pmap(job, ITEMS, limit=60)
    rep.floor = {"functions x cases": 60}
    return ("Every documented operation on orientations, rotations, directions and projections is interpreted abstractly with components that are free within a rounding error of their domain "
            "(so that clamps and guards stay visible); for every path of every result component, each root, division, logarithm, arc cosine and arc sine it uses is an obligation: its operand "
            "lies in the domain by interval bounds refined with the sign tests of the path. An operand not shown inside is reported only with a valid input, at most a rounding error off, for "
            "which the normal form of the result is not a number; otherwise it is listed as undecided.")
