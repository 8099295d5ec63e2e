"""Detector geometry: pattern centres, rigid motions between detector and sample, pixel grids, projections."""
import math
import random
from .. import expr as E, refs as F
from ..calls import *
from ..ident import check
from ..loader import Repo
from .. import torchops
from ..torchops import rename

PI = math.pi
c = E.const
GE = "ebsdtorch.ebsd.geometry:"
FI = "ebsdtorch.ebsd.fitting:"
HR = "ebsdtorch.ebsd.project_hrebsd:"
L = "ebsdtorch.lie_algebra.se3:"
GEO = GE + "EBSDGeometry"


def rad(x):
    return F.k(PI / 180, x)


def rot_ref(d, s):
    """columns: directions of the detector rows, columns and normal in the sample frame"""
    sd, cd, ss, cs = E.sin(d), E.cos(d), E.sin(s), E.cos(s)
    n, z = E.neg, c(0)
    return [[n(sd), n(F.mul(ss, cd)), F.mul(cs, cd)], [z, cs, ss], [n(cd), F.mul(ss, sd), n(F.mul(sd, cs))]]


def trans_ref(R, pc, shape):
    """the sample origin lies pcz * rows in front of the pattern centre"""
    H, W = shape
    o = [E.sub(c(0.5), F.k(H, pc[1])), E.sub(c(0.5), F.k(W, pc[0])), F.k(H, pc[2])]
    return mv(R, o)


def mv(M, v):
    return [F.add(*[F.mul(M[i][j], v[j]) for j in range(len(v))]) for i in range(len(M))]


def unit(v):
    n = F.norm(v)
    return [E.div(x, n) for x in v]


def mat(I, like, rows, dims):
    """tensor with the batch of `like` and given trailing components"""
    t = I.tensor(like)
    pre = list(t.shape[:len(t.shape) - t.k])
    return I.newloc(Tensor(pre + [Dim(d) for d in dims], rows, len(dims), NOROOT, t.dtype, t.dev, t.deps))


SH = (60, 48)


def pose_points(n=30, wide=False):
    r = random.Random(11)
    out = []
    for d in (-70.0, 70.0, 0.0, -20.5, 110.0, -150.0, 35.0, 90.0, -90.0):
        for s in (0.0, -12.0, 7.5, 40.0, -80.0):
            out.append({"pc": [r.uniform(0.2, 0.8), r.uniform(0.2, 0.8), r.uniform(0.3, 1.2)], "d": d, "s": s})
    for _ in range(n):
        out.append({"pc": [r.uniform(0, 1), r.uniform(0, 1), r.uniform(0.2, 1.5)], "d": r.uniform(-179, 179), "s": r.uniform(-89, 89)})
    return [dict(p, d=[p["d"]], s=[p["s"]]) for p in out]


def pose_args(cx):
    from ..harness import tens
    I = cx.I
    pc, d, s = tens(I, "pc", ("B", 3), dtype=cx.dt), tens(I, "d", ("B", 1), dtype=cx.dt), tens(I, "s", ("B", 1), dtype=cx.dt)
    tp = I.tensor(pc)
    iv = tp.shape[0]
    one = []
    for x in (d, s):
        t = I.tensor(x)
        m = {u: v for a, b in zip(t.shape[:1], tp.shape[:1]) for u, v in zip(a.ivs, b.ivs)}
        one.append(I.newloc(t.but(shape=[iv], comps=rename(list(t.comps), m), k=0)))
    return pc, one[0], one[1]


def to_se3(q):
    def g(cx):
        pc, d, s = pose_args(cx)
        R, t = cx.outs(cx.call(q, pc, d, s, val(SH)))
        ref = rot_ref(rad(cx.c(d)[0]), rad(cx.c(s)[0]))
        return cx.c(R) + cx.c(t), [x for r in ref for x in r] + trans_ref(ref, cx.c(pc), SH)
    return g


def from_se3(q):
    def g(cx):
        pc, d, s = pose_args(cx)
        dn, sn = cx.c(d)[0], cx.c(s)[0]
        ref = rot_ref(rad(dn), rad(sn))
        R = mat(cx.I, pc, [x for r in ref for x in r], (3, 3))
        t = mat(cx.I, pc, trans_ref(ref, cx.c(pc), SH), (3,))
        o = cx.outs(cx.call(q, R, t, val(SH)))
        return [x for v in o for x in cx.c(v)], cx.c(pc) + [dn, sn]
    return g


CASES = []


def case(q, label, g, pts, tol=1e-6):
    CASES.append((q, label, g, pts, tol))


for q in (GE + "bruker_geometry_to_SE3", FI + "bruker_geometries_to_SE3"):
    case(q, "pose of the pattern centre and tilts", to_se3(q), pose_points)
for q in (GE + "bruker_geometry_from_SE3", FI + "bruker_geometry_from_SE3"):
    case(q, "pattern centre and tilts of the pose", from_se3(q), pose_points)


# ---------------------------------------------------------------- the geometry object
def geometry(cx, vec=True, rots=(False,) * 3, shifts=(False,) * 3, shape=SH, tilts=None, pc=None):
    I = cx.I
    from ..harness import tens
    kw = dict(detector_shape=shape, opt_rots=tuple(rots), opt_shifts=tuple(shifts))
    kw["tilts_degrees"] = Tup([num(n) for n in ("tx", "ty", "td")]) if tilts is None else tilts
    kw["proj_center"] = Tup([num(n) for n in ("px", "py", "pz")]) if pc is None else pc
    if vec:
        v = small(I, "w", (6,))
        t = I.tensor(v)
        m = I.newloc(Tensor([Dim(6)], list(t.comps), 1, NOROOT, "f32", "CPU", t.deps))
        kw["se3_vector"] = m
    return make(I, cx.repo, GEO, kw)


def mul4(A, B):
    return [[F.add(*[F.mul(A[i][k], B[k][j]) for k in range(4)]) for j in range(4)] for i in range(4)]


def pose_ref(cx, vec, on, shape=SH, tilts=None, pc=None):
    """[R t; 0 1] of the pattern centre times the exponential of the selected components"""
    tl = [c(x) for x in tilts] if tilts else [num(n).n for n in ("tx", "ty", "td")]
    pp = [c(x) for x in pc] if pc else [num(n).n for n in ("px", "py", "pz")]
    R = rot_ref(rad(E.sub(tl[2], tl[1])), rad(tl[0]))
    t = trans_ref(R, pp, shape)
    M = [R[i] + [t[i]] for i in range(3)] + [[c(0)] * 3 + [c(1)]]
    if vec and any(on):
        from ..harness import tens
        I = cx.I
        v = I.tensor(small(I, "w", (6,)))
        w = [x if b else c(0) for x, b in zip(v.comps, on)]
        x = I.newloc(Tensor([Dim(1), Dim(6)], w, 2, NOROOT, "f32", "CPU", NOROOT))
        T = cx.c(cx.call(L + "se3_exp_map_om", x))
        M = mul4(M, [T[4 * i:4 * i + 4] for i in range(4)])
    return [r[:3] for r in M[:3]], [r[3] for r in M[:3]]


def geo_points(n=8, p=True):
    r = random.Random(4)
    out = []
    for k in range(n):
        q = {"tx": r.uniform(-10, 10), "ty": r.uniform(50, 80), "td": r.uniform(-20, 20), "px": r.uniform(0.3, 0.7), "py": r.uniform(0.3, 0.7), "pz": r.uniform(0.4, 0.9),
             "w": [r.uniform(-0.3, 0.3) for _ in range(3)] + [r.uniform(-6, 6) for _ in range(3)]}
        if p:
            q["p"] = [r.uniform(0, SH[0]), r.uniform(0, SH[1])]
            q["o"] = [r.uniform(-5, 5), r.uniform(-5, 5)]
        out.append(q)
    return out


MASKS = [((False,) * 3, (False,) * 3), ((True, False, False), (False,) * 3), ((False, True, True), (True, False, False)), ((False,) * 3, (False, True, False)),
         ((True,) * 3, (True,) * 3), ((False, False, True), (False, True, True))]


def pose_of(vec, rots, shifts, after=None):
    def g(cx):
        o = geometry(cx, vec, rots, shifts)
        on = list(rots) + list(shifts)
        if after:
            for kw in after:
                method(cx.I, cx.repo, o, "set_optimizable_se3_params", **kw)
                if kw.get("opt_rots") is not None:
                    on[:3] = kw["opt_rots"]
                if kw.get("opt_shifts") is not None:
                    on[3:] = kw["opt_shifts"]
        R, t = cx.outs(method(cx.I, cx.repo, o, "get_detector2sample"))
        cx.p.saw(cx.I)
        Rr, tr = pose_ref(cx, vec, on)
        return cx.c(R) + cx.c(t), [x for r in Rr for x in r] + tr
    return g


for r, s in MASKS:
    case(GEO, "pose with optimised %s" % ("".join("FT"[b] for b in r + s)), pose_of(True, r, s), lambda: geo_points(p=False), 1e-5)
case(GEO, "pose without a correction", pose_of(False, (True,) * 3, (True,) * 3), lambda: [dict(p, w=[0.0] * 6) for p in geo_points(p=False)], 1e-5)
SETS = [[{"opt_rots": (True, False, True)}], [{"opt_shifts": (False, True, True)}], [{"opt_rots": (False,) * 3, "opt_shifts": (False,) * 3}],
        [{"opt_shifts": (True, True, False), "opt_rots": None}, {"opt_rots": (False, True, False)}]]
for k, a in enumerate(SETS):
    for m in (0, 4):
        case(GEO + ".set_optimizable_se3_params", "pose after the selection changed (%d, %d)" % (k, m), pose_of(True, *MASKS[m], after=a), lambda: geo_points(p=False), 1e-5)


def pix(cx, name, batch=()):
    from ..harness import tens
    return tens(cx.I, name, tuple(batch) + (2,), dtype="f32")


def project(on, scan):
    def g(cx):
        rots, shifts = on
        o = geometry(cx, True, rots, shifts)
        p = pix(cx, "p", ("N",))
        kw = {}
        if scan:
            kw["scan_coordinates"] = pix(cx, "o", ("N",)) if False else pix(cx, "o")
        got = method(cx.I, cx.repo, o, "project2sample", p, **kw)
        cx.p.saw(cx.I)
        R, t = pose_ref(cx, True, list(rots) + list(shifts))
        pc = cx.c(p)
        w = [F.add(a, b) for a, b in zip(mv(R, pc + [c(0)]), t)]
        if scan:
            oc = cx.c(kw["scan_coordinates"])
            w = [E.sub(w[0], oc[0]), E.sub(w[1], oc[1]), w[2]]
        return cx.c(got), w
    return g


def there_and_back(on, scan, scale, batch):
    def g(cx):
        rots, shifts = on
        o = geometry(cx, True, rots, shifts)
        p = pix(cx, "p", batch)
        a = [pix(cx, "o")] if scan else []
        s = method(cx.I, cx.repo, o, "project2sample", p, *a)
        if scale != 1:
            t = cx.I.tensor(s)
            s = cx.I.newloc(t.but(comps=[F.k(scale, x) for x in t.comps]))
        got = method(cx.I, cx.repo, o, "backproject2detector", s, *a)
        cx.p.saw(cx.I)
        return cx.c(got), cx.c(p)
    return g


for m in (0, 4):
    for scan in (False, True):
        case(GEO + ".project2sample", "sample point of a pixel (%d, scan %s)" % (m, scan), project(MASKS[m], scan), geo_points, 1e-5)
        for scale in (1, 2.5):
            for b in ((), ("N",), ("N", "M")):
                case(GEO + ".backproject2detector", "pixel of the ray to its sample point (%d, scan %s, length %s, batch %d)" % (m, scan, scale, len(b)),
                     there_and_back(MASKS[m], scan, scale, b), geo_points, 1e-4)


# ---------------------------------------------------------------- pixel grids
def full(cx, v):
    """components of a result of known extent"""
    t = cx.I.tensor(cx.I.resolve(v))
    if t is None or t.shape is None or t.k != len(t.shape):
        return None
    return cx.c(v)


def grid(shape, b, pad=(0, 0, 0, 0)):
    """centres of blocks of b pixels, row by row; pad: blocks added (left, right, top, bottom)"""
    bh, bw = b
    return [[bh * i + (bh - 1) / 2, bw * j + (bw - 1) / 2] for i in range(-pad[2], shape[0] // bh + pad[3]) for j in range(-pad[0], shape[1] // bw + pad[1])]


GRIDS = [((3, 4), (1, 1)), ((2, 5), (1, 1)), ((4, 6), (2, 2)), ((6, 4), (3, 2)), ((6, 6), (2, 3)), ((6, 9), (3, 3)), ((2, 8), (1, 4)), ((12, 4), (4, 4))]
TILT, PC = (1.5, 70.0, -4.0), (0.4, 0.55, 0.7)


def coords(shape, b):
    def g(cx):
        o = geometry(cx, False, shape=shape, tilts=TILT, pc=PC)
        got = method(cx.I, cx.repo, o, "get_coords_sample_frame", tuple(b))
        cx.p.saw(cx.I)
        R, t = pose_ref(cx, False, [False] * 6, shape, TILT, PC)
        w = []
        for x in grid(shape, b):
            w += [F.add(u, v) for u, v in zip(mv(R, [c(x[0]), c(x[1]), c(0)]), t)]
        return full(cx, got), w
    return g


def refused(shape, b):
    def g(cx):
        o = geometry(cx, False, shape=shape, tilts=TILT, pc=PC)
        n0 = len(cx.I.events)
        method(cx.I, cx.repo, o, "get_coords_sample_frame", tuple(b))
        one = c(1.0).id
        return [c(float(any(e.kind == "raise" and all(getattr(h, "id", None) == one for h in e.gate) for e in cx.I.events[n0:])))], [c(1)]
    return g


for sh, b in GRIDS:
    case(GEO + ".get_coords_sample_frame", "pixel centres %s binned %s" % (sh, b), coords(sh, b), lambda: [{}], 1e-4)
for sh, b in (((4, 6), (3, 2)), ((4, 6), (2, 4))):
    case(GEO + ".get_coords_sample_frame", "binning %s of %s is refused" % (b, sh), refused(sh, b), lambda: [{}])


def pixel3(shape, b):
    def g(cx):
        got = cx.call(FI + "get_3D_pixel_coords", val(shape), Device("cpu"), binning=b)
        return full(cx, got), [c(v) for x in grid(shape, (b, b)) for v in x + [0.0]]
    return g


for sh, b in (((4, 6), 1), ((4, 6), 2), ((6, 9), 3)):
    case(FI + "get_3D_pixel_coords", "pixel centres %s binned %d" % (sh, b), pixel3(sh, b), lambda: [{}], 1e-5)


def pixelp(shape, b, lim):
    def g(cx):
        x0, x1, y0, y1 = lim
        got, pad, ps = cx.outs(cx.call(FI + "get_3D_pixel_coords_with_periphery", val(shape), Device("cpu"), pc_x_min=x0, pc_x_max=x1, pc_y_min=y0, pc_y_max=y1, binning=b))
        want = (int((0.5 - x0) * shape[1] / b), int((x1 - 0.5) * shape[1] / b), int((0.5 - y0) * shape[0] / b), int((y1 - 0.5) * shape[0] / b))
        n = (shape[0] // b + want[2] + want[3], shape[1] // b + want[0] + want[1])
        pv, sv = const(cx.I, pad), const(cx.I, ps)
        gc = full(cx, got)
        return None if gc is None else gc + [c(float(v)) for v in list(pv) + list(sv)], [c(v) for x in grid(shape, (b, b), want) for v in x + [0.0]] + [c(float(v)) for v in want + n]
    return g


for sh, b, lim in (((4, 8), 1, (0.25, 0.75, 0.25, 0.75)), ((4, 8), 2, (0.25, 0.75, 0.0, 1.0)), ((8, 4), 2, (0.0, 0.5, 0.25, 1.0)), ((6, 6), 3, (-0.1, 1.1, 0.5, 1.2))):
    case(FI + "get_3D_pixel_coords_with_periphery", "padded pixel centres %s binned %d" % (sh, b), pixelp(sh, b, lim), lambda: [{}], 1e-5)


# ---------------------------------------------------------------- directions of pixels
def dirs_points():
    r = random.Random(9)
    return [{"p": [r.uniform(0, 60), r.uniform(0, 60), 0.0], "R": [x for x in F.n_om(F.n_qu(F.unit([r.gauss(0, 1) for _ in range(3)]), r.uniform(0, 3)))],
             "t": [r.uniform(-20, 20), r.uniform(-20, 20), r.uniform(20, 60)], "q": F.n_qu(F.unit([r.gauss(0, 1) for _ in range(3)]), r.uniform(0.1, 3))} for _ in range(12)]


def directions(q, quats):
    def g(cx):
        from ..harness import tens, quat
        I = cx.I
        p, R, t = tens(I, "p", ("N", 3), dtype=cx.dt), tens(I, "R", (3, 3), dtype=cx.dt), tens(I, "t", (3,), dtype=cx.dt)
        Rc = cx.c(R)
        w = unit([F.add(a, b) for a, b in zip(mv([Rc[3 * i:3 * i + 3] for i in range(3)], cx.c(p)), cx.c(t))])
        if not quats:
            return cx.c(cx.call(q, p, R, t)), w
        qq = cx.arg("Q", "q", ("P",))
        got = cx.call(q, p, qq, R, t)
        M = F.R_qu(cx.c(qq))
        return cx.c(got), mv([M[3 * i:3 * i + 3] for i in range(3)], w)
    return g


case(FI + "apply_geometry", "unit direction of a pixel", directions(FI + "apply_geometry", False), dirs_points, 1e-5)
case(FI + "generate_dictionary_coords", "unit direction of a pixel in the crystal", directions(FI + "generate_dictionary_coords", True), dirs_points, 1e-5)


def hrebsd(shape, b, mask):
    def g(cx):
        from ..harness import tens
        I = cx.I
        w, q, f = small(I, "w", (1, 6)), small(I, "q", (1, 4)), small(I, "f", (1, 3, 3))
        m = build(I, [6], [1.0 * x for x in mask], dt="f32")
        got = cx.call(HR + "hrebsd_coords", m, w, q, f, val(shape), b, Device("cpu"))
        v = [a if k else c(0) for a, k in zip(cx.c(w), mask)]
        R, t = cx.outs(cx.call(L + "se3_exp_map_split", I.newloc(Tensor([Dim(1), Dim(6)], v, 2, NOROOT, "f32", "CPU", NOROOT))))
        Rc, tc, fc, M = cx.c(R), cx.c(t), cx.c(f), F.R_qu(cx.c(q))
        three = lambda m: [m[3 * i:3 * i + 3] for i in range(3)]
        want = []
        for x in grid(shape, (b, b)):
            u = unit([F.add(x_, y) for x_, y in zip(mv(three(Rc), [c(x[0]), c(x[1]), c(0)]), tc)])
            want += unit(mv(three(fc), mv(three(M), u)))
        return full(cx, got), want
    return g


def hr_points():
    r = random.Random(10)
    return [{"w": [r.uniform(-0.4, 0.4) for _ in range(3)] + [r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(3, 8)], "q": F.n_qu(F.unit([r.gauss(0, 1) for _ in range(3)]), r.uniform(0.1, 3)),
             "f": [(1.0 if i % 4 == 0 else 0.0) + r.uniform(-0.2, 0.2) for i in range(9)]} for _ in range(6)]


for sh, b, mask in (((2, 2), 1, (1,) * 6), ((2, 4), 2, (1, 0, 1, 1, 1, 1)), ((3, 3), 3, (0, 1, 1, 0, 1, 1))):
    case(HR + "hrebsd_coords", "directions %s binned %d, components %s" % (sh, b, mask), hrebsd(sh, b, mask), hr_points, 1e-5)


def job(p, item):
    i, dt = item
    torchops.CAP = 640
    q, label, g, pts, tol = CASES[i]
    check(p, Repo(), q, label, g, pts(), tol, dt)


def run(rep, tier):
    rep.pmap(job, [(i, "f64") for i in range(len(CASES))], limit=150)
    rep.floor = {"identities": 60}
    return ("Normal forms of the pose of a pattern centre and of its inverse, of the pose of a geometry object with symbolic tilts, centre and correction for selections "
            "of optimised components, of the projections of symbolic pixels and scan offsets and of the back projection of the projected point are compared with the "
            "rigid-motion reference; pixel grids are evaluated by constant propagation and compared with the block centres, and the directions built on them with their definition.")
