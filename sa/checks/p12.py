"""Master patterns and scans: what is returned is that of the present data, whatever was called before."""
import itertools
import random
from .. import expr as E, refs as F, torchops
from ..calls import *
from ..ident import check
from ..loader import Repo
from ..ops2 import degen

c = E.const
MP = "ebsdtorch.ebsd.master_pattern:MasterPattern"
EX = "ebsdtorch.ebsd.experiment_pats:ExperimentPatterns"


def full(I, v):
    t = I.tensor(I.resolve(v))
    if t is None or t.shape is None or t.k != len(t.shape):
        return None
    return list(t.comps)


def shape(I, v):
    t = I.tensor(I.resolve(v))
    return None if t is None or t.shape is None else [d.c for d in t.shape]


def nodes(sh):
    return [c(float(x)) for x in sh]


def contrast(I, f, a, k, n):
    """stands for the contrast enhancement: an increasing function of each value"""
    x = a[0] if a else k["x"]
    t = I.tensor(I.resolve(x))
    if t is None:
        return None
    return I.newloc(Tensor(t.shape, [E.add(F.k(0.25, q), F.k(0.125, F.sq(q))) for q in t.comps], t.k, NOROOT, t.dtype, t.dev, t.deps))


def block_mean(x, sh, b):
    H, W = sh
    d = {(i, j): x[i * W + j] for i in range(H) for j in range(W)}
    return [F.k(1.0 / (b * b), F.add(*[d[(i * b + y, j * b + z)] for y in range(b) for z in range(b)])) for i in range(H // b) for j in range(W // b)]


# ---------------------------------------------------------------- master pattern
SHAPE = (2, 4)
OPS = {"minmax": ("normalize", ("minmax",), {}), "zeromean": ("normalize", ("zeromean",), {}), "standard": ("normalize", ("standard",), {}),
       "contrast": ("apply_clahe", (), {}), "bin2": ("bin", (2,), {}), "bin1": ("bin", (1,), {})}


def sampler(seen):
    def h(I, a, k, n):
        seen.append((a[0], a[1], dict(k)))
        t = I.tensor(I.resolve(a[1]))
        if t is None or t.shape is None or t.k != len(t.shape):
            return None
        g = t.comps
        o = [E.add(F.k(3, g[2 * i]), F.sq(g[2 * i + 1])) for i in range(len(g) // 2)]
        return I.newloc(Tensor([Dim(1), Dim(1)] + list(t.shape[1:3]), o, 4, NOROOT, t.dtype, t.dev, t.deps))
    return h


def factors(I, f, a, k, n):
    """stands for the choice of the two extents the directions are folded to: any two whose product is their number"""
    v = I.resolve(a[0] if a else next(iter(k.values())))
    m = getattr(v, 'c', None)
    if m is None:
        return None
    m = int(m)
    d = max(i for i in range(1, int(m ** 0.5) + 1) if m % i == 0)
    return Tup([Num(m // d), Num(d)])


def mp_object(cx, pat=None):
    cx.I.hooks["ebsdtorch.utils.factorize:nearly_square_factors"] = factors
    cx.I.hooks["ebsdtorch.preprocessing.clahe:clahe_grayscale"] = contrast
    cx.seen = []
    cx.I.ext_hooks["grid_sample"] = sampler(cx.seen)
    return make(cx.I, cx.repo, MP, dict(master_pattern=pat if pat is not None else small(cx.I, "m", SHAPE), laue_group=11))


def call(cx, o, name, *a, **k):
    r = method(cx.I, cx.repo, o, name, *a, **k)
    cx.p.saw(cx.I)
    return r


def source(cx, o, b):
    """the picture the sampling of an interpolation reads"""
    if b == 0:
        return full(cx.I, attr(cx.I, o, "master_pattern"))
    v = build(cx.I, [2, 3], [0.0, 0.6, 0.8, 0.48, 0.6, 0.64], dt="f32")
    n = len(cx.seen)
    call(cx, o, "interpolate", v, virtual_binning=b)
    if len(cx.seen) == n:
        return None
    return full(cx.I, cx.seen[-1][0])


def history(seq, b):
    def g(cx):
        o = mp_object(cx)
        for s in seq:
            if s.startswith("look"):
                source(cx, o, int(s[4:]))
            else:
                nm, a, k = OPS[s]
                call(cx, o, nm, *a, **k)
        got = source(cx, o, b)
        # the same changes of the picture only, on a new object, binned by definition
        o2 = mp_object(cx)
        for s in seq:
            if not s.startswith(("look", "bin")):
                nm, a, k = OPS[s]
                call(cx, o2, nm, *a, **k)
        ref = full(cx.I, attr(cx.I, o2, "master_pattern"))
        if ref is not None and b > 1:
            ref = block_mean(ref, SHAPE, b)
        return got, ref
    return g


def pic_points(name="m", n=8, cnt=5):
    r = random.Random(13)
    return [{name: [r.uniform(0, 1) for _ in range(n)]} for _ in range(cnt)] + [{name: [r.uniform(-3, 9) for _ in range(n)]} for _ in range(cnt)]


CASES = []


def case(q, label, g, pts, tol=1e-5):
    CASES.append((q, label, g, pts, tol))


LOOK = ["look2", "bin2", "bin1", "look1"]
CHANGE = ["minmax", "zeromean", "standard", "contrast"]
SEQ = [(), ("look2",), ("bin1",), ("bin2",), ("look1", "look2")]
SEQ += [(l, ch) for l in LOOK for ch in CHANGE]
SEQ += [("look2", "contrast", "look2", "zeromean"), ("bin2", "zeromean", "bin1"), ("zeromean", "bin2", "contrast"), ("look2", "bin1"), ("bin1", "look2", "contrast")]
for s in SEQ:
    for b in (1, 2):
        case(MP, "interpolation with binning %d after %s" % (b, ", ".join(s) or "nothing"), history(s, b), pic_points)


def odd(b):
    """extents that are no multiple of the binning: incomplete blocks are left out"""
    def g(cx):
        o = mp_object(cx, small(cx.I, "m", (5, 7)))
        m = full(cx.I, small(cx.I, "m", (5, 7)))
        return source(cx, o, b), block_mean(m, (5, 7), b)
    return g


for b in (2, 3):
    case(MP, "interpolation with binning %d of a pattern of 5 by 7" % b, odd(b), lambda: pic_points("m", 35, 3))


def normal(kind):
    def g(cx):
        o = mp_object(cx)
        call(cx, o, "normalize", kind)
        x = full(cx.I, attr(cx.I, o, "master_pattern"))
        m = full(cx.I, small(cx.I, "m", SHAPE))
        return x, normalised(m, kind)
    return g


def normalised(m, kind):
    n = len(m)
    mean = F.k(1.0 / n, F.add(*m))
    if kind == "minmax":
        lo, hi = E.fn("amin", *m), E.fn("amax", *m)
        return [E.div(E.sub(x, lo), E.sub(hi, lo)) for x in m]
    if kind == "zeromean":
        return [E.sub(x, mean) for x in m]
    sd = E.sqrt(F.k(1.0 / (n - 1), F.add(*[F.sq(E.sub(x, mean)) for x in m])))
    return [E.div(E.sub(x, mean), sd) for x in m]


for kind in ("minmax", "zeromean", "standard"):
    case(MP + ".normalize", "%s normalisation" % kind, normal(kind), lambda: [p for p in pic_points()[5:]] + pic_points(cnt=3), 2e-3)


def placed(sh, unitise):
    def g(cx):
        o = mp_object(cx)
        v = small(cx.I, "v", sh + (3,))
        r = call(cx, o, "interpolate", v, normalize_coords=unitise)
        vc = full(cx.I, v)
        if vc is None or full(cx.I, r) is None:
            return None, None
        want = []
        for i in range(len(vc) // 3):
            x = vc[3 * i:3 * i + 3]
            if unitise:
                nn = F.norm(x)
                x = [E.div(q, nn) for q in x]
            u = cx.I.newloc(Tensor([Dim(3)], x, 1, NOROOT, "f32", "CPU", NOROOT))
            p = cx.c(cx.call("ebsdtorch.s2_and_so3.sphere:rosca_lambert_side_by_side", u))
            want.append(E.add(F.k(3, p[0]), F.sq(p[1])))
        return full(cx.I, r) + nodes(shape(cx.I, r)), want + nodes(sh)
    return g


def dir_points(n):
    def f():
        r = random.Random(3)
        out = []
        for _ in range(6):
            v = []
            for _ in range(n):
                v += F.unit([r.gauss(0, 1) for _ in range(3)])
            out.append({"v": v})
        return out
    return f


for sh in ((6,), (2, 3), (5,), (1,), (2, 2, 2)):
    n = 1
    for s in sh:
        n *= s
    for un in (True, False):
        case(MP + ".interpolate", "every direction reads its own point, batch %s, normalised %s" % (sh, un), placed(sh, un), dir_points(n))


def passed(**kw):
    def g(cx):
        o = mp_object(cx)
        call(cx, o, "interpolate", build(cx.I, [2, 3], [0.0, 0.6, 0.8, 0.48, 0.6, 0.64], dt="f32"), **kw)
        k = cx.seen[-1][2]
        want = dict(mode="bilinear", padding_mode="border", align_corners=False)
        want.update(kw)
        defaults = dict(mode="bilinear", padding_mode="zeros", align_corners=False)
        got = []
        for q in want:
            v = k.get(q)
            got.append(c(float((const(cx.I, v) if v is not None else defaults[q]) == want[q])))
        return got, [c(1)] * len(want)
    return g


for kw in ({}, {"mode": "nearest"}, {"padding_mode": "zeros"}, {"align_corners": True}):
    case(MP + ".interpolate", "sampling options %s" % (kw or "by default"), passed(**kw), lambda: [{}])


# ---------------------------------------------------------------- scans
def scan(cx, sh, name="x"):
    cx.I.hooks["ebsdtorch.preprocessing.clahe:clahe_grayscale"] = contrast
    x = small(cx.I, name, sh)
    return make(cx.I, cx.repo, EX, dict(patterns=x)), x


def row(x, i, m):
    return x[i * m:(i + 1) * m]


def scan_points(n, name="x", cnt=6):
    return lambda: pic_points(name, n, cnt)


def pats(sh, seq, idx, b):
    H, W = sh[-2:]
    m = H * W

    def g(cx):
        o, x = scan(cx, sh)
        ref = full(cx.I, x)
        n = len(ref) // m
        rowsx = [row(ref, i, m) for i in range(n)]
        for s in seq:
            if s == "background":
                call(cx, o, "subtract_overall_background")
                mean = [F.k(1.0 / n, F.add(*[r[j] for r in rowsx])) for j in range(m)]
                rowsx = [[E.sub(r[j], mean[j]) for j in range(m)] for r in rowsx]
            elif s == "contrast":
                call(cx, o, "contrast_enhance_clahe")
                rowsx = [[E.add(F.k(0.25, q), F.k(0.125, F.sq(q))) for q in r] for r in rowsx]
            elif s == "look":
                call(cx, o, "get_patterns", build(cx.I, [1], [0], dt="i64"), 1)
            else:
                call(cx, o, "normalize_per_pattern", s)
                rowsx = [normalised(r, s) for r in rowsx]
        got = call(cx, o, "get_patterns", build(cx.I, [len(idx)], list(idx), dt="i64"), b)
        want = []
        for i in idx:
            want += rowsx[i] if b == 1 else block_mean(rowsx[i], (H, W), b)
        gc = full(cx.I, got)
        if gc is None:
            return None, None
        return gc + nodes(shape(cx.I, got)), want + nodes([len(idx), H // b, W // b])
    return g


for sh, idx in (((3, 2, 2), (0, 1, 2)), ((2, 2, 2, 2), (3, 1)), ((2, 2), (0,)), ((3, 2, 2), (2, 0, 2)), ((1, 3, 2, 2), (1,))):
    n = 1
    for s in sh:
        n *= s
    for seq in ((), ("background",), ("zeromean",), ("minmax",), ("standard",), ("contrast",), ("look", "background", "zeromean")):
        if seq in (("minmax",), ("standard",)) and sh not in ((3, 2, 2), (2, 2, 2, 2)):
            continue
        if seq == ("background",) and n == 4:
            continue
        for b in (1, 2):
            case(EX, "patterns %s of a scan %s with binning %d after %s" % (idx, sh, b, ", ".join(seq) or "nothing"), pats(sh, seq, idx, b),
                 (lambda n=n: pic_points("x", n, 4)), 5e-3)


def neighbours(sh):
    H, W = sh[-2:]

    def g(cx):
        o, x = scan(cx, sh)
        got = []

        def h(I, f, a, k, n):
            got.append(a[0] if a else k["patterns"])
            return a[0] if a else k["patterns"]
        cx.I.hooks["ebsdtorch.preprocessing.nlpar:nlpar"] = h
        call(cx, o, "do_nlpar")
        ref = full(cx.I, x)
        if not got or full(cx.I, got[0]) is None:
            return None, None
        r = call(cx, o, "get_patterns", build(cx.I, [2], [1, 0], dt="i64"), 1)
        m = H * W
        return full(cx.I, got[0]) + nodes(shape(cx.I, got[0])) + full(cx.I, r), ref + nodes(sh) + ref[m:2 * m] + ref[:m]
    return g


case(EX + ".do_nlpar", "patterns keep their place in the scan", neighbours((2, 3, 2, 2)), scan_points(24))


def table(kind, idx, twice=True):
    """set all rows, then some; rows not named keep their value and the first tensor keeps its own"""
    setter, getter, m = {"ori": ("set_orientations", "get_orientations", 4), "pos": ("set_spatial_coords", "get_spatial_coords", 2)}[kind]

    def g(cx):
        o, _ = scan(cx, (3, 2, 2))
        a, b = small(cx.I, "a", (3, m)), small(cx.I, "b", (len(idx), m))
        ac, bc = full(cx.I, a), full(cx.I, b)
        call(cx, o, setter, a)
        ix = build(cx.I, [len(idx)], list(idx), dt="i64")
        call(cx, o, setter, b, ix)
        want = [row(ac, i, m) for i in range(3)]
        for q, i in enumerate(idx):
            want[i] = row(bc, q, m)
        r = call(cx, o, getter)
        s = call(cx, o, getter, ix)
        got = [full(cx.I, r), full(cx.I, s), full(cx.I, a)]
        if any(x is None for x in got):
            return None, None
        return sum(got, []), sum(want, []) + bc + ac
    return g


def ab_points():
    r = random.Random(2)
    return [{"a": [r.uniform(-1, 1) for _ in range(12)], "b": [r.uniform(-1, 1) for _ in range(12)]} for _ in range(3)]


for kind in ("ori", "pos"):
    for idx in ((1,), (2, 0)):
        case(EX, "%s of patterns %s" % ({"ori": "orientations", "pos": "coordinates"}[kind], idx), table(kind, idx),
             lambda kind=kind, idx=idx: [{"a": p["a"][:3 * (4 if kind == "ori" else 2)], "b": p["b"][:len(idx) * (4 if kind == "ori" else 2)]} for p in ab_points()])


def deform(sh):
    def g(cx):
        o, _ = scan(cx, (3, 2, 2))
        if sh is None:
            call(cx, o, "set_inv_f_matrix")
            want = [1.0, 0, 0, 0, 1.0, 0, 0, 0, 1.0] * 3
            want = [c(v) for v in want]
        else:
            f = small(cx.I, "f", sh)
            call(cx, o, "set_inv_f_matrix", f)
            want = full(cx.I, f)
            want = want * (3 if len(want) == 9 else 1)
        r = call(cx, o, "get_inv_f_matrix")
        s = call(cx, o, "get_inv_f_matrix", build(cx.I, [1], [2], dt="i64"))
        if full(cx.I, r) is None or full(cx.I, s) is None:
            return None, None
        return full(cx.I, r) + nodes(shape(cx.I, r)) + full(cx.I, s), want + nodes([3, 3, 3]) + want[18:]
    return g


for sh in (None, (3, 3, 3), (3, 9), (1, 3, 3), (1, 9)):
    n = 0
    if sh:
        n = sh[0] * 9
    case(EX + ".set_inv_f_matrix", "deformation gradients %s" % (sh,), deform(sh), lambda n=n: [{"f": p["x"]} for p in pic_points("x", n or 1, 2)] if n else [{}])


def best(phases, top, higher):
    """a scan of any number of patterns: the pattern n of the results is the subject"""
    from ..harness import tens

    def g(cx):
        I = cx.I
        I.hooks["ebsdtorch.preprocessing.clahe:clahe_grayscale"] = contrast
        o = make(I, cx.repo, EX, dict(patterns=tens(I, "x", ("n", 2, 2), dtype="f32")))
        q, m = [], []
        for ph in phases:
            a, b = tens(I, "q%d" % ph, ("n", top, 4), dtype="f32"), tens(I, "m%d" % ph, ("n", top), dtype="f32")
            q.append(list(I.tensor(a).comps)), m.append(list(I.tensor(b).comps))
            call(cx, o, "set_raw_indexing_results", a, b, ph)
        call(cx, o, "combine_indexing_results", higher)
        got, ivs = [], []
        for nm, k in (("orientations", 1), ("best_metrics", 0), ("phases", 0)):
            t = I.tensor(I.resolve(attr(I, o, nm)))
            if t is None or t.shape is None or t.k != k or len(t.shape) != k + 1:
                return None, None
            got += [(x, t.shape[0].ivs) for x in t.comps]

        def per(x, ivs):
            """with the name of its pattern"""
            return torchops.rename([x], {u: IV("n") for u in ivs})[0]
        got = [per(x, i) for x, i in got]
        q = [[per(x, (IV("q%d.0" % ph),)) for x in l] for ph, l in zip(phases, q)]
        m = [[per(x, (IV("m%d.0" % ph),)) for x in l] for ph, l in zip(phases, m)]
        bo, bm, bp = q[0][:4], m[0][0], c(phases[0])
        for k in range(1, len(phases)):
            v = m[k][0]
            t = E.gt(v, bm) if higher else E.lt(v, bm)
            bo = [E.ite(t, x, y) for x, y in zip(q[k][:4], bo)]
            bp = E.ite(t, c(phases[k]), bp)
            bm = E.ite(t, v, bm)
        return got, bo + [bm, bp]
    return g


def res_points(phases, top):
    def f():
        r = random.Random(6)
        out = []
        for _ in range(12):
            p = {}
            for ph in phases:
                p["q%d" % ph] = [[r.uniform(-1, 1) for _ in range(4)] for _ in range(top)]
                p["m%d" % ph] = [r.uniform(-1, 1) for _ in range(top)]
            out.append(p)
        return out
    return f


for phases in ((0,), (2,), (0, 1), (1, 0, 4)):
    for top in (1, 2):
        for higher in (True, False):
            case(EX + ".combine_indexing_results", "best of phases %s, %d matches, higher is better %s" % (phases, top, higher), best(phases, top, higher), res_points(phases, top))


def per_phase(ids):
    def g(cx):
        n = len(ids)
        o, _ = scan(cx, (n, 2, 2))
        cx.I.deref(o).attrs["phases"] = build(cx.I, [n], list(ids), dt="u8")
        r = call(cx, o, "get_indices_per_phase")
        items = cx.I.deref(cx.I.resolve(r)).items
        got, want = [], []
        for x in items:
            v = full(cx.I, x)
            if v is None:
                return None, None
            got += nodes([len(shape(cx.I, x))]) + v
        for k in range(max(ids) + 1):
            want += [c(1)] + [c(i) for i in range(n) if ids[i] == k]
        return got, want
    return g


for ids in ((0, 1, 0, 1), (0, 1, 2, 0), (1, 1, 0)):
    case(EX + ".get_indices_per_phase", "indices of the patterns of phases %s" % (ids,), per_phase(ids), lambda: [{}])


def job(p, item):
    torchops.CAP = 300
    q, label, g, pts, tol = CASES[item]
    check(p, Repo(), q, label, g, pts(), tol, "f32")


def run(rep, tier):
    rep.pmap(job, list(range(len(CASES))), limit=150)
    rep.floor = {"identities": 100}
    return ("Objects are built by their constructors from pictures with a symbol per pixel and taken through every listed order of binning, interpolation, normalisation and "
            "contrast enhancement; the picture the final sampling reads must have the normal form of the present picture averaged over blocks of the requested size. For scans, the "
            "returned patterns, the rows changed by partial assignments, and the choice among phases are compared with their definitions.")
