"""Results keep the precision of the data."""
import ast
from .. import expr, torchops
from ..harness import *
from ..loader import Repo
from ..values import *
from ..wide import Run, move_module, utens
from .p01 import targets

SCOPE = ("ebsdtorch.s2_and_so3.", "ebsdtorch.lie_algebra.", "ebsdtorch.harmonics.", "ebsdtorch.ebsd.geometry", "ebsdtorch.ebsd.project",
         "ebsdtorch.ebsd.master_pattern", "ebsdtorch.utils.pca", "ebsdtorch.utils.rosca")
# single precision volumes by design; fixed double precision by design
EXCLUDED = ("ebsdtorch.harmonics.sht_cc", "ebsdtorch.harmonics.wigner_d_xnum")


def in_scope(q):
    return q.startswith(SCOPE) and not q.startswith(EXCLUDED)


def follows(t):
    return "IN" if t.dtype in ("f32", "f64", "DEF") else ("cIN" if t.dtype in ("c64", "c128", "cDEF") else t.dtype)


def to_input(I, b):
    o = I.deref(I.resolve(b))
    init = I.repo.find_method(o.cls.mod, o.cls.node, "__init__")
    if init is not None and any("dtype" in a.arg for a in init[1].args.args + init[1].args.kwonlyargs):
        return
    move_module(I, b, dtype=follows)


def job(p, qual):
    expr.coarse()
    torchops.CAP = 16
    r = Run(Repo(), qual, state=to_input, over={"indices": lambda I: utens(I, "indices", dtype="i64")})
    if not r.ok:
        return
    I, mod, node = r.I, r.mod, r.node
    fn = qual.split(":")[1]
    p.saw(I)
    p.count("functions")
    seen = set()
    bad = 0
    for e in I.events:
        if e.kind not in ("dtype_mix", "dtype_up", "downcast"):
            continue
        if e.kind == "downcast" and e.info.get("frm") not in ("IN", "cIN"):
            continue
        if not in_scope("ebsdtorch." + e.func if not e.func.startswith("ebsdtorch") else e.func):
            continue
        what = {"dtype_mix": "combines data with %s values in %s" % (e.info.get("other"), e.info.get("what")),
                "dtype_up": "combines data with double precision values in %s" % e.info.get("what"),
                "downcast": "stores data with %s" % e.info.get("into")}[e.kind]
        bad += 1
        k = (e.rel, e.func, what)
        if k in seen:
            continue
        seen.add(k)
        p.viol(e.rel, e.func.split(":")[1], what, "%s %s, reached from %s" % (e.func.split(":")[1], what, fn), line=e.line)
    if not bad:
        p.ok(qual, "no change of precision", "%d functions reached" % len(I.functions_seen))
    dtarg = [k for k, v in r.kw.items() if isinstance(I.resolve(v), DType) or (k == "dtype")]
    ins = [n for n, t in r.inputs() if t.dtype in ("IN", "cIN") and not n.startswith("self")]
    for pos, t in r.tensors():
        where = "result" + pos
        p.count("results")
        if t.dtype in ("bool", "i8", "i16", "i32", "i64", "u8"):
            p.ok(qual, "%s has no precision" % where)
        elif t.dtype is None:
            p.undecided(qual, "type of " + where, "not determined")
        elif dtarg:
            if t.dtype in ["ARG:" + k for k in dtarg] or t.dtype.startswith("c") or t.dtype == "IN":
                p.ok(qual, "%s has the type asked for" % where)
            else:
                p.viol(mod.rel, fn, "%s ignores the type asked for" % where, "%s returns %s in %s although '%s' is a parameter" % (fn, where, t.dtype, dtarg[0]), line=node.lineno)
        elif ins and t.dtype in ("DEF", "f32", "f16", "f64") and not (t.shape is not None and not t.shape):
            p.viol(mod.rel, fn, "%s does not have the type of the data" % where, "%s returns %s in %s whatever the type of %s" % (
                fn, where, {"DEF": "the default type"}.get(t.dtype, t.dtype), ", ".join(ins[:3])), line=node.lineno)
        else:
            p.ok(qual, "%s keeps the type" % where)


def run(rep, tier):
    repo = Repo()
    rep.pmap(job, [q for q in targets(repo) if in_scope(q)], limit=120 if tier == "quick" else 400)
    rep.floor = {"functions": 120, "results": 90}
    return ("Every function and method of the rotation, symmetry, sphere, rigid-motion, harmonic, geometry, projection and streaming modules was interpreted "
            "abstractly with arguments of unknown shape, content and floating point type. Each tensor carries the label of the type it was created with or derived "
            "from. Obligations: data are never combined with inexact values of the default or single type nor raised to double by a double table, never stored or cast "
            "to a fixed lower type, and results have the type of the data or the type asked for.")
