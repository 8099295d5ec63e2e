"""Conversions between rotation representations preserve the rotation."""
from .. import expr as E, refs as F, contracts as K
from ..compare import agree, Eval, Opaque, assignment, mp_eval
from ..harness import *
from ..values import *

DT = ("f64", "f32")
EXTRA = {"ho2ax": [{}, {"fast": Num(False)}], "ho2ax_reference": [{"coeffs": Const("kikuchipy")}, {"coeffs": Const("EMsoft")}]}


SUFFIX = {"qu": (4,), "om": (3, 3), "ax": (4,), "ro": (4,), "ho": (3,), "cu": (3,), "bu": (3,), "zh": (6,)}


def direct(f):
    return "%s:%s" % (K.O[:-1], f)


def typed(p, item, repo, qual, rel):
    """composition typing: every conversion called is replaced by its summary (representation X -> Y of the
    same rotation); the result must be the target representation of the argument's rotation"""
    f, dt, opt = item
    a, b = f[:2], f[3:5]
    I = Interp(repo, qual)
    name = K.C[qual]["params"][0][0]
    kw = {name: quat(I, name, ("B",))} if a == "qu" else K.build(I, qual, ("B",), {})
    t0 = I.tensor(kw[name]).but(dtype=dt)
    I.store[kw[name].loc] = t0
    marks = [(a, tuple(t0.comps))]
    used = []

    def mk(fn):
        x, y = fn[:2], fn[3:5]

        def hook(I, func, args, kws, n):
            if len(I.frames) <= 1:
                return None
            pos = list(args) + list(kws.values())
            t = I.tensor(I.resolve(pos[0])) if pos else None
            if t is None or t.shape is None:
                return None
            if not any(r == x and tuple(t.comps) == c for r, c in marks):
                return None
            nm = "conv%d.%s" % (len(marks), fn)
            r = K.role(I, K.SUF[y][0], nm, ("B",))
            tt = I.tensor(r).but(dtype=t.dtype, dev=t.dev, deps=t.deps | frozenset([nm]), roots=frozenset())
            I.store[r.loc] = tt
            marks.append((y, tuple(tt.comps)))
            used.append(fn)
            return r
        return hook
    for q in K.C:
        if q.startswith(K.O):
            fn = q.split(":")[1]
            if fn != f and fn[3:5] in K.SUF and fn[2:3] == "2" and fn != "qu2cl":
                I.hooks[q] = mk(fn)
    out = I.run(qual, [], kw)
    p.saw(I)
    oc = comps(I, out)
    if oc is None or not used:
        return None
    for r, c in marks[1:]:
        if r == b and tuple(oc) == c:
            return " -> ".join(used)
    return None


def job(p, item):
    f, dt, opt = item
    qual = K.O + f
    repo = Repo()
    if not K.param_names_ok(repo, qual):
        p.missing(qual)
        return
    rel = repo.find(qual)[0].rel
    a, b = f[:2], f[3:5]
    where = "%s:%s [%s]" % (rel, f, dt + "".join(" %s=%r" % (k, getattr(v, "v", getattr(v, "c", v))) for k, v in opt.items()))
    p.count("conversions")
    ch = typed(p, item, repo, qual, rel)
    if ch is not None:
        p.ok(where, "composition of verified conversions", ch)
        return
    I = Interp(repo, qual)
    name = K.C[qual]["params"][0][0]
    kw = {name: quat(I, name, ("B",))} if a == "qu" else K.build(I, qual, ("B",), {})
    t = I.tensor(kw[name])
    pts = F.points(a, name)
    if a == "om":
        # the matrix argument is the rotation matrix of a unit quaternion
        q = quat(I, "q", ("B",), positive=True)
        qc = comps(I, q)
        t = Tensor(list(I.tensor(q).shape[:1]) + [Dim(3), Dim(3)], F.R_qu(qc), 2, t.roots, dt, t.dev, t.deps)
        src = qc
    elif a == "qu":
        # any unit quaternion: q and -q are the same rotation
        src = list(t.comps)
        pts = pts + [{name: [-x for x in p0[name]]} for p0 in pts[::2]]
    else:
        src = list(t.comps)
    I.store[kw[name].loc] = t.but(dtype=dt)
    kw.update(opt)
    out = I.run(qual, [], kw)
    p.saw(I)
    oc = comps(I, out)
    if oc is None or len(oc) != {"qu": 4, "om": 9, "ax": 4, "ro": 4, "ho": 3, "cu": 3, "bu": 3, "zh": 6}[b]:
        p.undecided(where, "rotation preserved", "result has no known components: %r" % (oc and len(oc)))
        return
    bad = undefined(oc, pts)
    if bad:
        p.viol(rel, f, "undefined", "%s: %s" % (where, bad), line=repo.find(qual)[1].lineno)
    srep = "qu" if a == "om" else a
    if a in ("ho", "cu") or b in ("ho", "cu"):
        want = F.cu2ho_node(src) if a == "cu" else F.ho_of(srep, src)
        if b == "cu":
            got = F.cu2ho_node(oc)
        elif b in ("om", "bu"):
            got, want = F.R_of(b, oc), R_from_ho(want)
        elif b == "ho":
            got = oc
        else:
            got = F.ho_of(b, oc)
        if b in ("qu", "ax", "ro") and a in ("ho", "cu"):
            # a half turn has two homochoric images: compare the rotation matrices
            got, want = F.R_of(b, oc), R_from_ho(want)
        elif b in ("ho", "cu"):
            got, want = R_from_ho(got), R_from_ho(want)
    else:
        got, want = F.R_of(b, oc), F.R_of(srep, src)
    if b == "ro":
        # tan(pi/2) is not representable; the half turn is covered through its infinite encoding
        pts = [x for x in pts if not (a == "ax" and x[name][3] > 3.1415)]
    st, txt, n = agree(got, want, pts, tol=2e-4 if a == "cu" and b != "ho" else (5e-5 if "bu" in (a, b) else 1e-5))
    p.count("points", n)
    if st in ("same", "agree"):
        p.ok(where, "rotation of result = rotation of argument", txt)
    elif st == "differ":
        p.viol(rel, f, "rotation", "%s: the result is not the rotation of the argument: %s" % (where, txt),
               line=repo.find(qual)[1].lineno)
    else:
        p.undecided(where, "rotation preserved", txt)


def undefined(oc, pts):
    """a component that is not a number at a point of the domain"""
    for pt in pts:
        ev = Eval(assignment(pt))
        try:
            for i, n in enumerate(oc):
                v = ev.node(n)
                if v != v:
                    w = mp_eval(assignment(pt))
                    if w is not None:
                        v = w.node(n)
                if v != v:
                    return "component %d of the result is not a number for %s" % (i, {q: v for q, v in pt.items()})
        except Opaque:
            return None
    return None


def R_from_ho(h):
    """rotation matrix of a homochoric vector, through the atom W(|h|^2) whose meaning is the inverse of
    3/4 (w - sin w) = |h|^3"""
    n2 = F.add(*[F.sq(x) for x in h])
    w = E.fn("hoangle", n2, lo=0)
    n = E.sqrt(n2)
    z = E.lt(n2, E.const(1e-14))
    ax = [E.ite(z, E.const(0), E.div(x, n)) for x in h]
    return F.R_qu(F.qu_ax(ax + [w]))


def run(rep, tier):
    jobs = []
    for q in K.C:
        if q.startswith(K.O) and not q.endswith(":qu2cl"):
            f = q.split(":")[1]
            for dt in DT:
                for o in EXTRA.get(f, [{}]):
                    jobs.append((f, dt, o))
    rep.pmap(job, jobs, limit=100)
    rep.floor = {"conversions": 90}
    return ("Abstract interpretation of every conversion on a symbolic representation: the normal form of the result's "
            "rotation matrix is compared with the normal form of the argument's (reference definitions in sa/refs.py); "
            "a difference is reported only when confirmed at a point of the documented domain.")
