"""Batched operations accept any leading batch shape and act element by element."""
from .. import expr as E, refs as F, contracts as K
from ..compare import Eval, Opaque, agree, assignment
from ..harness import *
from ..values import *

NAMES = {(): "()", ("B",): "(B,)", ("B", "C"): "(B, C)", (1,): "(1,)", ("B", 1, "C"): "(B, 1, C)"}


def want_shape(batch, suf, case):
    out = []
    for s in tuple(batch) + tuple(suf):
        if s == "mult":
            s = None
        out.append(s)
    return out


def shape_ok(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if w is None:
            continue
        if isinstance(w, int):
            if isinstance(g, int):
                if g != w:
                    return False
            elif g is not E.const(w):
                return False
        else:
            if isinstance(g, int) or g is not dimsize(w):
                return False
    return True


def job(p, item):
    qual, ci = item
    repo = Repo()
    fn = qual.split(":")[1]
    c = K.C[qual]
    if not K.param_names_ok(repo, qual):
        p.missing(qual)
        return
    rel, line = repo.find(qual)[0].rel, repo.find(qual)[1].lineno
    case = c["cases"][ci]
    tag = fn + ("" if not case else " [%s]" % ", ".join("%s=%s" % kv for kv in case.items()))
    base = None
    for batch in (("B",), (), ("B", "C"), (B1(1),), ("B", B1(1), "C")):
        where = "%s:%s batch %s" % (rel, tag, NAMES[batch])
        p.count("batch cases")
        I = Interp(repo, qual)
        kw = K.build(I, qual, batch, case)
        for v in kw.values():
            if getattr(v, "loc", None) is not None and v.loc in I.store:
                I.store[v.loc] = I.store[v.loc].but(dtype="f64")
        out = I.resolve(I.run(qual, [], kw))
        p.saw(I)
        errs = [e for e in I.events if e.kind == "shape_error" and e.info.get("sym") in (True, False)]
        if errs:
            e = errs[0]
            p.viol(rel, fn, "batch", "%s raises for batch shape %s: %s:%d in %s: %s" % (
                tag, NAMES[batch], e.rel, e.line, e.func.split(":")[1], e.info["what"][:200]), line=e.line)
            continue
        outs = [out] if I.tensor(out) is not None else ([I.resolve(x) for x in out.items] if isinstance(out, Tup) else None)
        if outs is None or len(outs) != len(c["out"]) or any(I.tensor(o) is None or I.tensor(o).shape is None for o in outs):
            p.undecided(where, "result shape", "shape of the result is not known")
            continue
        bad = False
        for o, suf in zip(outs, c["out"]):
            got, want = shape_of(I, o), want_shape(batch, suf, case)
            if not shape_ok(got, want):
                bad = True
                p.viol(rel, fn, "result shape", "%s: batch shape %s gives a result of shape %s, documented %s" % (
                    tag, NAMES[batch], tuple(got), tuple(want)), line=line)
        if bad:
            continue
        oc = []
        for o in outs:
            t = I.tensor(o)
            oc.append((t, list(t.comps) if t.comps is not None else None))
        if batch == ("B",):
            base = oc
            p.ok(where, "shape", "shape %s" % [shape_of(I, o) for o in outs])
            continue
        if base is None:
            p.ok(where, "shape", "shape %s" % [shape_of(I, o) for o in outs])
            continue
        st, txt = elementwise(c, batch, base, oc, case)
        if st == "differ":
            p.viol(rel, fn, "elementwise", "%s: batch %s: %s" % (tag, NAMES[batch], txt), line=line)
        elif st == "opaque":
            p.ok(where, "shape", "shape %s" % [shape_of(I, o) for o in outs])
            p.undecided(where, "element by element", txt)
        else:
            p.ok(where, "shape and element by element", txt)


def own_index(t, batch):
    own = []
    for d, b in zip(t.shape[:len(batch)], batch):
        if b == 1:
            continue
        if len(d.ivs) != 1:
            raise Opaque("batch dimension %r is not a single index" % (d,))
        own.append(d.ivs[0])
    return own


def reader(pt, other, names, batch, own):
    """values of the argument elements at the result's own batch position; other positions get other values"""
    nl = len(own)
    k1 = sum(1 for b in batch if b == 1)

    def base(a):
        if a.kind == "ld" and a.args[0] in pt:
            ix = list(a.args[1])
            v = pt[a.args[0]]
            dep = depth(v)
            tail = ix[len(ix) - dep:] if dep else []
            if any(not isinstance(x, int) for x in tail):
                raise Opaque("reads %r" % (a,))
            lead = [x for x in ix[:len(ix) - dep] if not isinstance(x, int)]
            if a.args[0] in names:
                if len(lead) == nl and all(isinstance(x, IV) and x == y for x, y in zip(lead, own)):
                    pass
                elif len(lead) == nl and all(isinstance(x, IV) and x in own for x in lead) or not lead and nl:
                    v = other[a.args[0]]          # another batch position
                else:
                    raise Opaque("reads %r" % (a,))
            for k in tail:
                v = v[k]
            return float(v)
        if a.kind == "sym" and a.args[0] in pt:
            return pt[a.args[0]]
        return None
    return base


def elementwise(c, batch, base, oc, case):
    """each result element is the same function of the argument elements at its own batch position"""
    n = 0
    pts = F.role_points(c["params"], n=12)
    names = {nm for nm, _ in c["params"] if nm not in c.get("unbatched", ())}
    for (t0, c0), (t1, c1) in zip(base, oc):
        if c0 is None or c1 is None or len(c0) != len(c1):
            return "opaque", "components unknown (%s, %s)" % (c0 and len(c0), c1 and len(c1))
        try:
            o0, o1 = own_index(t0, ("B",)), own_index(t1, batch)
            for i, pt in enumerate(pts):
                other = pts[(i + 5) % len(pts)]
                e0, e1 = Eval(reader(pt, other, names, ("B",), o0)), Eval(reader(pt, other, names, batch, o1))
                for k, (x, y) in enumerate(zip(c0, c1)):
                    u, v = e0.node(x), e1.node(y)
                    if u == u and v == v and not abs(u - v) <= 1e-9 * (1 + abs(u)) and u != v:
                        return "differ", "component %d of the result for batch shape %s is %.6g, for one batch dimension it is %.6g, for %s" % (
                            k, NAMES[batch], v, u, pt)
                    n += 1
        except Opaque as e:
            return "opaque", str(e)[:200]
    return "agree", "%d component evaluations agree" % n


def depth(v):
    d = 0
    while isinstance(v, (list, tuple)):
        d += 1
        v = v[0]
    return d


def run(rep, tier):
    jobs = []
    for q, c in K.C.items():
        if q.endswith(":ori_color_laue") or q.endswith(":qu2cl"):
            continue
        n = len(c["cases"])
        idx = range(n) if tier == "thorough" or n < 4 else ([0, 4, 8, n - 1] if n > 9 else [0, 2, n - 1])
        for i in idx:
            jobs.append((q, i))
    rep.pmap(job, jobs, limit=200)
    rep.floor = {"batch cases": 450}
    return ("Each documented batched operation is interpreted abstractly with batch prefixes (), (B,), (B,C), (1,), (B,1,C) "
            "of symbolic size: a definite shape error, a result shape other than prefix + documented suffix, or a result "
            "element whose normal form is not the unbatched one at the same batch position is a violation.")
