"""Refinement only moves orientations to better matches, pattern by pattern."""
import itertools
import math
from .. import expr as E, refs as F
from ..calls import *
from ..loader import Repo
from ..interp import Interp
from .p22 import big
from .p24 import values, CEval
from ..compare import Opaque

RF = "ebsdtorch.ebsd.refining:"
GRID = (3, 4)
PIX = 12


def unit(v):
    l = math.sqrt(sum(x * x for x in v))
    return tuple(x / l for x in v)


START = [unit(q) for q in ((0.8, 0.2, -0.4, 0.4), (0.5, 0.5, -0.1, 0.47), (0.9, -0.3, 0.1, 0.3), (0.5, 0.1, 0.9, -0.3), (0.6, -0.6, 0.4, 0.35))]
MOVES = [[(0.08, -0.15, 0.03, 0.11), (-0.14, 0.16, 0.05, 0.12), (0.15, 0.14, -0.16, 0.03), (-0.13, 0.17, -0.02, -0.15), (-0.03, 0.12, 0.16, -0.17)],
         [(-0.11, 0.05, 0.09, 0.01), (0.04, 0.06, -0.05, 0.02), (0.05, -0.04, -0.06, 0.07), (0.03, -0.07, 0.02, 0.05), (0.09, -0.08, 0.03, 0.04)]]
PAT = [[((17 * i * i + 29 * j + 5 * i * j + j * j * 3) % 23) / 23.0 for j in range(PIX)] for i in range(5)]
TWO = (0.0, 0.0, 0.0, 1.0)


def shade(v, ph):
    """a picture with the symmetry of Laue group 2"""
    x, y, z = v
    return 0.7 * x * x + (1.3 - ph) * y * y + (0.5 + 0.9 * ph) * x * y + 0.8 * x * x * z * z - 0.3 * ph * y * y * z * z


def shade_n(v, ph):
    x, y, z = v
    return F.add(F.k(0.7, F.sq(x)), F.k(1.3 - ph, F.sq(y)), F.k(0.5 + 0.9 * ph, E.mul(x, y)), F.k(0.8, E.mul(F.sq(x), F.sq(z))), F.k(-0.3 * ph, E.mul(F.sq(y), F.sq(z))))


def qmul(a, b):
    w, x, y, z = a
    p, q, r, s = b
    return (w * p - x * q - y * r - z * s, w * q + x * p + y * s - z * r, w * r - x * s + y * p + z * q, w * s + x * r - y * q + z * p)


def turn(q, v):
    w, x, y, z = q
    t = qmul(qmul(q, (0.0,) + tuple(v)), (w, -x, -y, -z))
    return t[1:]


def zm(x):
    m = sum(x) / len(x)
    return [v - m for v in x]


def match(i, q, dirs, ph, normed):
    s = zm([shade(turn(q, v), ph) for v in dirs])
    e = zm(PAT[i])
    if normed:
        s, e = unit(s), unit(e)
    return sum(x * y for x, y in zip(s, e))


def reduce(q):
    r = max((q, qmul(TWO, q)), key=lambda x: abs(x[0]))
    return tuple(x if r[0] >= 0 else -x for x in r)


def same(a, b, tol=2e-5):
    return max(abs(x - y) for x, y in zip(reduce(a), reduce(b))) < tol


class Known(Interp):
    """constant propagation: tensors whose every element is closed are kept as numbers, optimizers are recorded"""
    onopt = onstep = None

    def fold(self, v):
        if isinstance(v, Ref):
            t = self.store.get(v.loc)
            if isinstance(t, Tensor) and t.dtype == "DEF":
                t = self.store[v.loc] = t.but(dtype="f32")      # the default number type
            if isinstance(t, Tensor) and t.shape and t.k < len(t.shape) and all(d.c == 1 for d in t.shape[:len(t.shape) - t.k]):
                t = self.store[v.loc] = t.but(k=len(t.shape))
            if isinstance(t, Tensor) and t.shape is not None and t.k == len(t.shape) and t.dtype != "bool" and not all(closed(x) for x in t.comps):
                new = numbers(t)
                if new is not None:
                    self.store[v.loc] = new
        return v

    def expr(self, n):
        return self.fold(super().expr(n))

    def index_expr(self, s):
        v = super().index_expr(s)
        return Tup([self.positions(x) for x in v.items]) if isinstance(v, Tup) else self.positions(v)

    def positions(self, x):
        """a known mask in place of the list of its true positions"""
        t = self.tensor(self.resolve(x)) if isinstance(x, (Ref, Choice)) else None
        if t is None or t.dtype != "bool" or t.shape is None or len(t.shape) != 1 or t.k != 1 or any(E.cval(c) is None for c in t.comps):
            return x
        on = [E.const(j) for j, c in enumerate(t.comps) if E.cval(c)]
        return self.newloc(Tensor([Dim(E.const(len(on)))], on, 1, NOROOT, "i64", t.dev, t.deps))

    def call(self, f, args, kw, n):
        if isinstance(f, Ext):
            if f.path.startswith("torch.optim."):
                return self.onopt(args, kw)
            if f.path.startswith("OPT."):
                if f.path.endswith(".step"):
                    self.onstep(f.path.split(".")[1], n)
                return Const(None)
        return super().call(f, args, kw, n)


def closed(x):
    if x is NAN[0] or x.leaf is not None and repr(x.leaf) in ("lit('inf')", "-1*lit('inf')"):
        return True
    if x.leaf is None or x.leaf.terms and any(m for m, c in x.leaf.terms):
        return False
    return not x.leaf.terms or getattr(x.leaf.terms[0][1], "denominator", 1).bit_length() < 80


class IEEE(CEval):
    def _atom(self, a):
        if a.kind == "fn" and a.args[0] == "divzero" or a.kind == "divzero":
            return float("nan")
        return super()._atom(a)


def value(c):
    try:
        return IEEE(lambda a: None).node(c)
    except (Opaque, ZeroDivisionError, OverflowError, TypeError, ValueError):
        return None


NAN = [None]


def nan():
    if NAN[0] is None:
        NAN[0] = E.div(E.ZERO, E.ZERO)
    return NAN[0]


def numbers(t):
    o = []
    for c in t.comps:
        if not closed(c):
            v = value(c)
            if v is None or isinstance(v, complex):
                return None
            c = nan() if v != v else c if abs(v) > 1e300 else E.const(int(v) if v == int(v) else v)
        o.append(c)
    return t.but(comps=o)


def setup(p, fn, phases, nmp):
    big()
    repo = Repo()
    q = RF + fn
    I = Known(repo, q)

    def interpolate(I, f, a, k, n):
        v = k.get("coords_3D", a[-1] if len(a) < 3 else a[1])
        t = I.tensor(I.resolve(v))
        if t is None or t.shape is None or t.k != len(t.shape):
            return None
        ph = current[0]
        un = k.get("normalize_coords")
        un = True if un is None else bool(I.resolve(un).c)
        o = []
        for i in range(0, len(t.comps), 3):
            x = t.comps[i:i + 3]
            if un:
                l = E.sqrt(F.add(*[F.sq(y) for y in x]))
                x = [E.div(y, l) for y in x]
            o.append(shade_n(x, ph))
        return I.fold(I.newloc(Tensor(list(t.shape[:-1]), o, t.k - 1, NOROOT, "f32", t.dev, t.deps)))
    current = [0]

    I.hooks["ebsdtorch.ebsd.master_pattern:MasterPattern.interpolate"] = interpolate
    geo = make(I, repo, "ebsdtorch.ebsd.geometry:EBSDGeometry", dict(detector_shape=GRID, tilts_degrees=(1.0, 70.0, 5.0), proj_center=(0.4, 0.3, 0.6)))
    mps = []
    for j in range(nmp):
        mps.append(make(I, repo, "ebsdtorch.ebsd.master_pattern:MasterPattern", dict(master_pattern=small(I, "m%d" % j, (2, 4)), laue_group=2)))
    n = len(phases)
    ex = make(I, repo, "ebsdtorch.ebsd.experiment_pats:ExperimentPatterns", dict(patterns=build(I, (n,) + GRID, [x for r in PAT[:n] for x in r], dt="f32")))
    method(I, repo, ex, "set_orientations", build(I, [n, 4], [x for r in START[:n] for x in r], dt="f32"))
    I.deref(I.resolve(ex)).attrs["phases"] = build(I, [n], list(phases), dt="i64")
    method(I, repo, ex, "set_spatial_coords", build(I, [n, 2], [0.0] * (2 * n), dt="f32"))
    d = method(I, repo, geo, "get_coords_sample_frame", (1, 1))
    t = I.tensor(I.resolve(d))
    dv = values(t.comps) if t is not None and t.shape and t.k == len(t.shape) else None
    dirs = None if dv is None else [unit(dv[i:i + 3]) for i in range(0, len(dv), 3)]
    return repo, q, I, geo, mps, ex, dirs, current


def phase_of(mps, I, current):
    """which picture is sampled: the one of the object the method is called on"""
    ids = {}
    for j, m in enumerate(mps):
        ids[getattr(I.resolve(m), "loc", None)] = j
    return ids


def finish(p, r, I, ex, where, fn):
    p.saw(I)
    bad = [e for e in I.events if e.kind in ("shape_error", "undefined", "attr_missing") and all(g is E.ONE for g in e.gate)]
    if bad or always_raises(I):
        p.viol(r[0].rel, fn, "fails", "%s: %s" % (where, str(bad[0] if bad else "always raises")[:220]), line=r[1].lineno)
        return None
    t = I.tensor(I.resolve(attr(I, ex, "orientations")))
    v = values(t.comps) if t is not None and t.shape and t.k == 2 else None
    if v is None or any(x != x for x in v):
        p.undecided(where, "orientations", "not closed constants")
        return None
    return [tuple(v[i:i + 4]) for i in range(0, len(v), 4)]


def grid(p, item):
    phases, nmp, batch, dim, radius, n_iter, avg = item[:7]
    size = item[7] if len(item) > 7 else 4.0
    fn = "orientation_grid_refinement"
    r = Repo().find(RF + fn)
    if r is None:
        return p.missing(RF + fn)
    repo, q, I, geo, mps, ex, dirs, current = setup(p, fn, phases, nmp)
    where = "%d patterns of phases %s in batches of %d, grid of radius %d with %d axes, %d rounds" % (len(phases), phases, batch, radius, dim, n_iter)
    p.count("refinements")
    if dirs is None:
        return p.undecided(where, "detector", "not closed constants")
    hook_phase(I, mps, current)
    n = 2 * radius + 1
    edge = size * math.pi ** (2 / 3) / 360
    line = [edge * (j - radius) / radius for j in range(n)]
    cu = [c for c in itertools.product(line, repeat=3) if sum(abs(x) < 1e-12 for x in c) >= 3 - dim]
    I.events[:] = []
    I.UNROLL = max(I.UNROLL, 64)
    res = I.run(q, [], dict(master_patterns=I.newloc(Lst(mps)) if nmp > 1 else mps[0], geometry=geo, experiment_patterns=ex, grid_semi_edge_in_degrees=Num(size), batch_size=val(batch), n_iter=val(n_iter),
                            axial_grid_dimension=val(dim), kernel_radius_in_steps=val(radius), average_pattern_center=val(avg), match_dtype=DType("f32")))
    got = finish(p, r, I, ex, where, fn)
    if got is None:
        return
    for i, ph in enumerate(phases):
        cur, c, best = START[i], cu, None
        for _ in range(n_iter):
            quats = to_quats(repo, c)
            if quats is None:
                return p.undecided(where, "grid", "not closed constants")
            cand = [reduce(qmul(g, cur)) for g in quats]
            sc = [match(i, x, dirs, ph, False) for x in cand]
            j = max(range(len(sc)), key=lambda j: sc[j])
            top = sorted(sc)[-2:]
            if len(sc) > 1 and top[1] - top[0] < 1e-7:
                return p.undecided(where, "grid", "a tie")
            cur, best = cand[j], sc[j]
            if j == (len(c) - 1) // 2:
                c = [tuple(0.5 * x for x in v) for v in c]
        a, b = match(i, got[i], dirs, ph, False), match(i, START[i], dirs, ph, False)
        if a < b - 1e-5:
            p.viol(r[0].rel, fn, "worse match", "%s: pattern %d is moved from an orientation that matches %.5f to one that matches %.5f" % (where, i, b, a), line=r[1].lineno)
            return
        if not same(got[i], cur):
            p.viol(r[0].rel, fn, "not the best of the grid", "%s: pattern %d ends at %s (match %.5f), the best of its grid is %s (%.5f)" % (where, i, short(got[i]), a, short(cur), best), line=r[1].lineno)
            return
        if not same_exact(got[i]):
            p.viol(r[0].rel, fn, "outside the zone", "%s: pattern %d ends at %s" % (where, i, short(got[i])), line=r[1].lineno)
            return
    p.ok(where, "grid refinement", "%d patterns" % len(phases))


def same_exact(q):
    return max(abs(x - y) for x, y in zip(q, reduce(q))) < 2e-5 or max(abs(x + y) for x, y in zip(q, reduce(q))) < 2e-5


def short(q):
    return "(%s)" % ", ".join("%.4f" % x for x in q)


QUATS = {}


def to_quats(repo, c):
    key = tuple(c)
    if key not in QUATS:
        q = "ebsdtorch.s2_and_so3.orientations:cu2qu"
        I = Known(repo, q)
        t = I.tensor(I.resolve(I.run(q, [build(I, [len(c), 3], [x for v in c for x in v], dt="f32")])))
        v = values(t.comps) if t is not None and t.k == 2 else None
        QUATS[key] = None if v is None else [tuple(v[i:i + 4]) for i in range(0, len(v), 4)]
    return QUATS[key]


def hook_phase(I, mps, current):
    f0 = I.hooks["ebsdtorch.ebsd.master_pattern:MasterPattern.interpolate"]
    ids = phase_of(mps, I, current)

    def h(I, f, a, k, n):
        me = getattr(f, "bound", None)
        for x in [me] + list(a):
            loc = getattr(I.resolve(x), "loc", None) if x is not None else None
            if loc in ids:
                current[0] = ids[loc]
                a = [y for y in a if getattr(I.resolve(y), "loc", None) != loc]
                break
        return f0(I, f, a, k, n)
    I.hooks["ebsdtorch.ebsd.master_pattern:MasterPattern.interpolate"] = h


def grad(p, item):
    phases, nmp, batch, n_iter, avg, moves = item
    fn = "orientation_grad_refinement"
    r = Repo().find(RF + fn)
    if r is None:
        return p.missing(RF + fn)
    repo, q, I, geo, mps, ex, dirs, current = setup(p, fn, phases, nmp)
    where = "%d patterns of phases %s in batches of %d, %d steps of sequence %d" % (len(phases), phases, batch, n_iter, moves)
    p.count("refinements")
    if dirs is None:
        return p.undecided(where, "detector", "not closed constants")
    hook_phase(I, mps, current)
    params = []
    n0, losses = len(phases), {}

    def opt(a, k):
        v = I.resolve(a[0] if a else k.get("params"))
        v = I.deref(v)
        its = getattr(v, "items", None)
        x = I.resolve(its[0]) if its else None
        t = I.tensor(x) if x is not None else None
        v = values(t.comps) if t is not None and t.shape and t.k == 2 else None
        # which patterns: those that start where the rows start
        rows = None if v is None else [next((j for j in range(n0) if same(v[i:i + 4], START[j])), None) for i in range(0, len(v), 4)]
        if rows is None or None in rows:
            x = None
        up = k.get("maximize")
        params.append([x, 0, rows, bool(I.resolve(up).c) if isinstance(up, Num) else False])
        return Ext("OPT.%d" % (len(params) - 1))

    def step(j, n):
        x, c, rows, up = params[int(j)]
        t = I.tensor(x) if x is not None else None
        if t is None or t.shape is None or t.k != 2 or len(rows) * 4 != len(t.comps):
            params[int(j)][0] = None
            return
        m = [MOVES[(c + moves) % 2][i] for i in rows]
        I.inplace(x, t.but(comps=[E.add(y, E.const(d * (0.6 if c else 1))) for y, d in zip(t.comps, [z for w in m for z in w])]), n, how="step")
        params[int(j)][1] += 1
    I.onopt, I.onstep = opt, step

    def backward(I, a, k, n):
        t = I.tensor(I.resolve(a[0])) if a else None
        v = values(t.comps) if t is not None and t.shape is not None and not t.shape else None
        j = len(params) - 1
        if j >= 0 and params[j][0] is not None and v is not None:
            x = I.tensor(params[j][0])
            w = values(x.comps) if x is not None and x.k == 2 else None
            if w is not None and len(w) == 4 * len(params[j][2]):
                sc = [match(i, unit(w[4 * r:4 * r + 4]), dirs, phases[i], True) for r, i in enumerate(params[j][2])]
                losses.setdefault(j, []).append((v[0], sc))
        return Const(None)
    I.ext_hooks["backward"] = backward
    I.ext_hooks["requires_grad"] = lambda I, a, k, n: a[0]
    I.events[:] = []
    I.UNROLL = max(I.UNROLL, 64)
    I.run(q, [], dict(master_patterns=I.newloc(Lst(mps)) if nmp > 1 else mps[0], geometry=geo, experiment_patterns=ex, batch_size=val(batch), n_iter=val(n_iter), learning_rate=Num(0.01), average_pattern_center=val(avg),
                      match_dtype=DType("f32")))
    got = finish(p, r, I, ex, where, fn)
    if got is None:
        return
    if any(x[0] is None for x in params) or sorted(i for x in params for i in x[2]) != list(range(n0)):
        return p.undecided(where, "optimizer", "its steps could not be followed")
    for j, ls in losses.items():
        for (l1, s1), (l2, s2) in zip(ls, ls[1:]):
            d = [b - a for a, b in zip(s1, s2)]
            g = (l2 - l1) * (-1 if params[j][3] else 1)
            if min(map(abs, d)) > 1e-3 and (min(d) > 0 and g > 1e-6 or max(d) < 0 and g < -1e-6):
                p.viol(r[0].rel, fn, "optimized the wrong way", "%s: the objective goes from %.4f to %.4f when the matches go from %s to %s" % (where, l1, l2, *("/".join("%.4f" % x for x in q) for q in (s1, s2))), line=r[1].lineno)
                return
    p.count("objective values", sum(len(x) for x in losses.values()))
    for i, ph in enumerate(phases):
        path = [START[i]]
        for k in range(n_iter):
            path.append(unit([x + d * (0.6 if k else 1) for x, d in zip(path[-1], MOVES[(k + moves) % 2][i])]))
        sc = [match(i, x, dirs, ph, True) for x in path]
        a = match(i, got[i], dirs, ph, True)
        if a < sc[0] - 1e-5:
            p.viol(r[0].rel, fn, "worse match", "%s: pattern %d is moved from an orientation that matches %.4f to one that matches %.4f" % (where, i, sc[0], a), line=r[1].lineno)
            return
        if not any(same(got[i], x) for x in path):
            p.viol(r[0].rel, fn, "not visited", "%s: pattern %d ends at %s, which the search did not visit" % (where, i, short(got[i])), line=r[1].lineno)
            return
        if not same_exact(got[i]):
            p.viol(r[0].rel, fn, "outside the zone", "%s: pattern %d ends at %s" % (where, i, short(got[i])), line=r[1].lineno)
            return
        if min(sc[1:-1] or [sc[0]]) > sc[0] + 1e-4 and sc[-1] > sc[0] + 1e-4 and same(got[i], START[i]):
            p.viol(r[0].rel, fn, "better match dropped", "%s: pattern %d stays where it matches %.4f although every later orientation matches better (%.4f)" % (where, i, sc[0], min(sc[1:])), line=r[1].lineno)
            return
    p.ok(where, "gradient refinement", "%d patterns" % len(phases))


def job(p, item):
    {"grid": grid, "grad": grad}[item[0]](p, item[1])


def run(rep, tier):
    items = []
    for phases, nmp, batch in (((0, 0, 0), 1, 2), ((0, 0, 0), 1, 3), ((0, 1, 0, 1, 1), 2, 2), ((1, 0, 1, 0), 2, 3), ((0,), 1, 4), ((2, 0, 2), 3, 2)):
        items += [("grid", (phases, nmp, batch, 1, 1, 2, True)), ("grad", (phases, nmp, batch, 2, True, 0)), ("grad", (phases, nmp, batch, 3, True, 1))]
    for batch in (1, 2):
        items += [("grad", ((0,) * 5, 1, batch, it, True, mv)) for it in (2, 3) for mv in (0, 1)]
        items += [("grad", ((0, 1, 1, 0, 1), 2, batch, it, True, 1)) for it in (2, 4)]
    for dim, radius, it in ((1, 2, 3), (2, 1, 2), (3, 1, 2)):
        items.append(("grid", ((0, 1, 0), 2, 2, dim, radius, it, True)))
    items += [("grid", ((0, 1, 0), 2, 2, 1, 1, 10, True, 16.0)), ("grid", ((1, 0, 0, 1), 2, 2, 2, 1, 6, True, 14.0)), ("grid", ((0, 1, 0), 2, 2, 1, 1, 2, False)), ("grad", ((0, 1, 0), 2, 2, 3, False, 0))]
    rep.pmap(job, items, limit=300)
    rep.floor = {"refinements": 20, "objective values": 20}
    return ("Both refinement functions are interpreted from their entry point on known patterns, starting orientations and pictures with the symmetry of the phase, for one to three phases (one of them possibly "
            "without a pattern) and every way of cutting into batches; optimizer steps are replaced by fixed moves. The orientations that are kept are compared with the starting ones and the best of the grid.")
