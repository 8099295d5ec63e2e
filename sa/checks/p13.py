"""Work done in pieces gives the result of the work done at once."""
import itertools
import random
from .. import expr as E, refs as F, torchops
from ..calls import *
from ..ident import check, Fails
from ..loader import Repo

c = E.const
CM = "ebsdtorch.utils.pca_covmat:OnlineCovMatrix"
KN = "ebsdtorch.utils.knn:ChunkedKNN"
IX = "ebsdtorch.ebsd.indexing:"


def full(I, v):
    t = I.tensor(I.resolve(v))
    if t is None or t.shape is None or t.k != len(t.shape):
        return None
    return list(t.comps)


def shape(I, v):
    t = I.tensor(I.resolve(v))
    return None if t is None or t.shape is None else [d.c for d in t.shape]


def nodes(sh):
    return [c(float(x)) for x in sh]


def certain(cx):
    for e in cx.I.events:
        if e.kind == "shape_error" and e.info.get("sym") is False and all(g is E.ONE for g in e.gate):
            raise Fails("%s (%s:%d)" % (str(e.info.get("what"))[:200], e.rel, e.line))


def call(cx, o, name, *a, **k):
    r = method(cx.I, cx.repo, o, name, *a, **k)
    cx.p.saw(cx.I)
    certain(cx)
    return r


CASES = []


def case(q, label, g, pts, tol=1e-5):
    CASES.append((q, label, g, pts, tol))


def cut(cx, t, m, a, b, dt="f32"):
    """rows a..b of a list of components with m per row, as a tensor"""
    return cx.I.newloc(Tensor([Dim(b - a), Dim(m)], t[a * m:b * m], 2, NOROOT, dt, "CPU", NOROOT))


def splits(n):
    """every way to cut n rows into consecutive pieces"""
    for cuts in itertools.product((0, 1), repeat=n - 1):
        at = [0] + [i + 1 for i, x in enumerate(cuts) if x] + [n]
        yield list(zip(at, at[1:]))


# ---------------------------------------------------------------- covariance
def covariance(n, m, pieces, corr):
    def g(cx):
        I = cx.I
        o = make(I, cx.repo, CM, dict(n_features=m, correlation=corr))
        x = full(I, small(I, "x", (n * m,)))
        for a, b in pieces:
            call(cx, o, "forward", cut(cx, x, m, a, b))
        got, mean, obs = full(I, call(cx, o, "get_covmat")), full(I, attr(I, o, "mean")), full(I, attr(I, o, "obs"))
        if got is None or mean is None or obs is None:
            return None, None
        mu = [F.k(1.0 / n, F.add(*[x[i * m + j] for i in range(n)])) for j in range(m)]
        cov = [[F.k(1.0 / (n - 1), F.add(*[E.mul(E.sub(x[i * m + j], mu[j]), E.sub(x[i * m + k], mu[k])) for i in range(n)])) for k in range(m)] for j in range(m)]
        if corr:
            want = [E.div(cov[j][k], E.sqrt(E.mul(cov[j][j], cov[k][k]))) for j in range(m) for k in range(m)]
        else:
            want = [v for r in cov for v in r]
        return got + mean + obs, want + mu + [c(n)]
    return g


def x_points(n, cnt=4):
    def f():
        r = random.Random(n)
        return [{"x": [r.uniform(-2, 3) for _ in range(n)]} for _ in range(cnt)]
    return f


for n, m in ((4, 2), (5, 1), (3, 3)):
    for pieces in splits(n):
        case(CM, "covariance of %d rows in pieces of %s" % (n, ", ".join(str(b - a) for a, b in pieces)), covariance(n, m, pieces, False), x_points(n * m))
for pieces in ([(0, 4)], [(0, 1), (1, 4)], [(0, 2), (2, 3), (3, 4)]):
    case(CM, "correlation of 4 rows in pieces of %s" % ", ".join(str(b - a) for a, b in pieces), covariance(4, 2, pieces, True), x_points(8))


# ---------------------------------------------------------------- nearest neighbours
def distances(metric, q, d):
    if metric == "angular":
        return F.add(*[E.mul(a, b) for a, b in zip(q, d)])
    if metric == "euclidean":
        return F.add(*[F.sq(E.sub(a, b)) for a, b in zip(q, d)])
    return F.add(*[E.abs_(E.sub(a, b)) for a, b in zip(q, d)])


def best(xs, k, largest):
    """indices and values of the k best, best first"""
    def go(left, k):
        if k == 0:
            return [], []
        i = c(left[0])
        v = xs[left[0]]
        for j in left[1:]:
            t = E.gt(xs[j], v) if largest else E.lt(xs[j], v)
            i, v = E.ite(t, c(j), i), E.ite(t, xs[j], v)
        if k == 1:
            return [i], [v]
        ii, vv = None, None
        for j in left:
            a, b = go([q for q in left if q != j], k - 1)
            if ii is None:
                ii, vv = a, b
            else:
                t = E.eq(i, c(j))
                ii, vv = [E.ite(t, x, y) for x, y in zip(a, ii)], [E.ite(t, x, y) for x, y in zip(b, vv)]
        return [i] + ii, [v] + vv
    return go(list(range(len(xs))), k)


def neighbours(metric, topk, pieces, qpieces, m=2):
    n, nq = pieces[-1][1], (qpieces[-1][1] if qpieces else 2)

    def g(cx):
        I = cx.I
        o = make(I, cx.repo, KN, dict(data_size=n, query_size=nq, topk=topk, match_device=Device("cpu"), distance_metric=metric,
                                      match_dtype=DType("f32"), quantized_via_ao=False))
        d = full(I, small(I, "d", (n * m,)))
        q = full(I, small(I, "q", (nq * m,)))
        for a, b in pieces:
            call(cx, o, "set_data_chunk", cut(cx, d, m, a, b))
            if qpieces is None:
                call(cx, o, "query_all", cut(cx, q, m, 0, nq))
            else:
                for e, f in qpieces:
                    call(cx, o, "query_chunk", cut(cx, q, m, e, f), e)
        r = call(cx, o, "retrieve_topk")
        ix, ds = [full(I, x) for x in I.deref(r).items]
        if ix is None or ds is None:
            return None, None
        wi, wd = [], []
        for i in range(nq):
            a, b = best([distances(metric, q[i * m:i * m + m], d[j * m:j * m + m]) for j in range(n)], topk, metric == "angular")
            wi += a
            wd += b
        return ix + ds, wi + wd
    return g


def qd_points(n, nq, m=2):
    def f():
        r = random.Random(n)
        return [{"d": [r.uniform(-1, 1) for _ in range(n * m)], "q": [r.uniform(-1, 1) for _ in range(nq * m)]} for _ in range(25)]
    return f


for metric in ("angular", "euclidean", "manhattan"):
    m = 1 if metric == "manhattan" else 2
    for topk in (1, 2):
        for pieces in ([(0, 3)], [(0, 2), (2, 3)], [(0, 1), (1, 3)], [(0, 1), (1, 2), (2, 3)]):
            for qp in (None, [(0, 1), (1, 2)], [(0, 2)]):
                case(KN, "%d nearest, %s, data in pieces of %s, queries %s" % (topk, metric, ", ".join(str(b - a) for a, b in pieces), "at once" if qp is None else "in %d calls" % len(qp)),
                     neighbours(metric, topk, pieces, qp, m), qd_points(3, 2, m))
    case(KN, "2 nearest, %s, data in pieces of 2, 2" % metric, neighbours(metric, 2, [(0, 2), (2, 4)], None, m), qd_points(4, 2, m))


# ---------------------------------------------------------------- indexing
GRID = (4, 4)
QUATS = [F.n_qu(F.unit(v), t) for v, t in (((1, 0, 0), 0.3), ((0, 1, 0.2), 0.8), ((0.3, 0.2, 1), 0.5), ((1, 1, 0), 1.1))]
FINER = [F.n_qu(F.unit(v), t) for v, t in (((0, 0, 1), 0.7), ((1, 1, 0.2), 0.4), ((0.3, 1, 1), 0.9))]


def picture(v, b):
    """stands for the value of the master pattern binned by b in a direction"""
    x, y, z = v
    return F.add(F.k(0.7, x), F.k(1.3, F.sq(y)), F.k(0.4 + 0.1 * b, E.mul(x, z)), F.k(0.9, z))


def indexing(name, metric, topk, dchunk, echunk, b, mask, mean, finer=False, comp=None, npat=2):
    """the scan is npat patterns with a symbol per pixel, the dictionary is known"""
    side = GRID[0] // b
    P = side * side

    def g(cx):
        I = cx.I
        I.hooks["ebsdtorch.s2_and_so3.laue_fz_ori:sample_ori_fz_laue_angle"] = lambda I, f, a, k, n: dictionary(I, a, k)
        seen = []

        def dictionary(I, a, k):
            r = k.get("angular_resolution_deg", a[1] if len(a) > 1 else None)
            qs = FINER if I.resolve(r).c == 0.25 else QUATS
            return build(I, [len(qs), 4], [x for q in qs for x in q], dt="f32")

        def interpolate(I, f, a, k, n):
            v = k.get("coords_3D", a[0] if len(a) == 1 else (a[1] if len(a) > 1 else None))
            bb = k.get("virtual_binning")
            bb = 1 if bb is None else I.resolve(bb).c
            t = I.tensor(I.resolve(v))
            if t is None or t.shape is None or t.k != len(t.shape):
                return None
            un = k.get("normalize_coords")
            un = True if un is None else bool(I.resolve(un).c)
            q = t.comps
            o = []
            for i in range(0, len(q), 3):
                x = q[i:i + 3]
                if un:
                    l = E.sqrt(F.add(*[F.sq(y) for y in x]))
                    x = [E.div(y, l) for y in x]
                o.append(picture(x, bb))
            return I.newloc(Tensor(list(t.shape[:-1]), o, t.k - 1, NOROOT, "f32", t.dev, t.deps))

        def eigen(I, f, a, k, n):
            m = 6 if comp is None or comp < 300 else 4
            w = P if mask is None else sum(mask)
            return build(I, [w, m], [((7 * i + 3 * j) % 11) / 11.0 - 0.4 for i in range(w) for j in range(m)], dt="f32")
        I.hooks["ebsdtorch.ebsd.master_pattern:MasterPattern.interpolate"] = interpolate
        I.hooks["ebsdtorch.utils.pca_covmat:OnlineCovMatrix.get_eigenvectors"] = eigen
        x = small(I, "x", (npat,) + GRID)
        mp = make(I, cx.repo, "ebsdtorch.ebsd.master_pattern:MasterPattern", dict(master_pattern=small(I, "m", (2, 4)), laue_group=11))
        geo = make(I, cx.repo, "ebsdtorch.ebsd.geometry:EBSDGeometry", dict(detector_shape=GRID, tilts_degrees=(1.0, 70.0, 5.0), proj_center=(0.4, 0.3, 0.6)))
        ex = make(I, cx.repo, "ebsdtorch.ebsd.experiment_pats:ExperimentPatterns", dict(patterns=x))

        def keep(I, f, a, k, n):
            seen.append([I.resolve(v) for v in (list(a[1:]) if len(a) > 3 or (a and I.tensor(I.resolve(a[0])) is None) else list(a))] + [I.resolve(k[q]) for q in ("quaternions", "metrics") if q in k])
            return None
        I.hooks["ebsdtorch.ebsd.experiment_pats:ExperimentPatterns.set_raw_indexing_results"] = keep
        kw = dict(master_patterns=mp, geometry=geo, experiment_patterns=ex, subtract_exp_pat_mean=val(mean), experiment_chunk_size=val(echunk), dictionary_chunk_size=val(dchunk),
                  virtual_binning=val(b), top_k_matches=val(topk), distance_metric=val(metric), match_dtype=DType("f32"))
        if mask is not None:
            kw["signal_mask"] = build(I, [side, side], [bool(v) for v in mask], dt="bool")
        if comp is None:
            kw.update(dictionary_resolution_degrees=val(1.0), quantized_if_x86=val(False))
        else:
            kw.update(dictionary_resolution_learn_deg=val(1.0), dictionary_resolution_index_deg=val(0.25 if finer else 1.0), n_pca_components=val(comp), quantized_via_ao=val(False))
        I.UNROLL = max(I.UNROLL, 64)
        cx.call(IX + name, **kw)
        certain(cx)
        if len(seen) != 1 or len(seen[0]) < 2:
            return None, None
        go, gm = full(I, seen[0][0]), full(I, seen[0][1])
        if go is None or gm is None:
            return None, None
        # at once, from the definition
        dirs = full(I, method(I, cx.repo, geo, "get_coords_sample_frame", binning=(b, b)))
        dirs = [F.unit([float(E.cval(v)) for v in dirs[i:i + 3]]) for i in range(0, len(dirs), 3)]
        on = [i for i in range(P) if mask is None or mask[i]]
        qs = FINER if finer else QUATS
        sims = []
        for q in qs:
            s = [float(E.cval(picture([c(v) for v in rotate(q, dirs[i])], b))) for i in on]
            mu = sum(s) / len(s)
            sims.append([c(v - mu) for v in s])
        xs = full(I, x)
        pats = []
        for i in range(npat):
            y = xs[16 * i:16 * i + 16]
            if b > 1:
                y = [F.k(1.0 / b ** 2, F.add(*[y[(r * b + p) * 4 + s * b + q] for p in range(b) for q in range(b)])) for r in range(side) for s in range(side)]
            y = [y[j] for j in on]
            if mean:
                mu = F.k(1.0 / len(y), F.add(*y))
                y = [E.sub(v, mu) for v in y]
            pats.append(y)
        if comp is not None:
            w = len(on)
            m = 6 if comp < 300 else 4
            V = [[((7 * i + 3 * j) % 11) / 11.0 - 0.4 for j in range(max(0, m - comp), m)] for i in range(w)]
            proj = lambda y: [F.add(*[F.k(V[i][j], y[i]) for i in range(w)]) for j in range(min(m, comp))]
            pats, sims = [proj(y) for y in pats], [proj(y) for y in sims]
        wo, wm = [], []
        for y in pats:
            ii, vv = best([distances(metric, y, s) for s in sims], topk, metric == "angular")
            for i in ii:
                for a in range(4):
                    r = c(qs[-1][a])
                    for j in range(len(qs) - 1):
                        r = E.ite(E.eq(i, c(j)), c(qs[j][a]), r)
                    wo.append(r)
            wm += vv
        return go + gm, wo + wm
    return g


def rotate(q, v):
    w, x, y, z = q
    u = (x, y, z)
    t = [2 * (u[(i + 1) % 3] * v[(i + 2) % 3] - u[(i + 2) % 3] * v[(i + 1) % 3]) for i in range(3)]
    return [v[i] + w * t[i] + u[(i + 1) % 3] * t[(i + 2) % 3] - u[(i + 2) % 3] * t[(i + 1) % 3] for i in range(3)]


MASK = [1, 0, 1, 1]
D, PD = "dictionary_index_orientations", "pca_dictionary_index_orientations"
for metric, topk, dc, ec, b, mask, mean in [
        ("angular", 1, 4, 5, 2, None, True), ("angular", 1, 2, 5, 2, None, True), ("angular", 1, 3, 1, 2, None, True), ("angular", 2, 2, 2, 2, MASK, True),
        ("angular", 2, 1, 5, 2, MASK, False), ("angular", 2, 3, 1, 2, MASK, False), ("euclidean", 1, 3, 5, 2, MASK, True), ("euclidean", 1, 2, 1, 2, None, False),
        ("angular", 1, 3, 2, 1, None, True), ("angular", 1, 4, 9, 1, [1, 0] * 8, True), ("euclidean", 2, 4, 1, 2, MASK, True), ("angular", 1, 1, 1, 2, None, False)]:
    lab = "%d matches, %s, pieces of %d and %d, binning %d, %s, mean %s" % (topk, metric, dc, ec, b, "all pixels" if mask is None else "masked", "removed" if mean else "kept")
    case(IX + D, "indexing, " + lab, indexing(D, metric, topk, dc, ec, b, mask, mean), x_points(32, 12))
    for finer in (False, True):
        case(IX + PD, "indexing by components%s, %s" % (" of a finer dictionary" if finer else "", lab), indexing(PD, metric, topk, dc, ec, b, mask, mean, finer, 2), x_points(32, 12))
case(IX + PD, "indexing by 350 components", indexing(PD, "angular", 1, 4, 5, 2, None, True, False, 350), x_points(32, 12))
case(IX + PD, "indexing by 6 components", indexing(PD, "angular", 1, 4, 1, 2, None, True, False, 6), x_points(32, 12))


def job(p, item):
    torchops.CAP = 2000
    q, label, g, pts, tol = CASES[item]
    check(p, Repo(), q, label, g, pts(), tol, "f32")


def run(rep, tier):
    rep.pmap(job, list(range(len(CASES))), limit=150)
    rep.floor = {"identities": 60}
    return ("Streaming updates and chunked searches are interpreted abstractly for every ordered split of a few rows (covariance, correlation; data and query splits of the search, three "
            "metrics, one to several matches, ties broken by position) and the results are compared, as gated normal forms in the symbolic rows, with the definition applied to all rows at once. "
            "The two indexing functions are interpreted from their entry point with symbolic experimental patterns, the dictionary, interpolation and eigenvectors being replaced by fixed tables, for "
            "chunk sizes, binning, mask, mean removal, metric, number of matches and components; the orientations and metrics handed to the scan are compared with the definition.")
