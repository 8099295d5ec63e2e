"""Tensors of one call stay on one device and results are returned there."""
import ast
from .. import expr, torchops
from ..harness import *
from ..loader import Repo
from ..values import *
from ..wide import Run, is_module, move_module
from .p01 import targets


def to_input(I, b):
    """a module without a device argument is moved to the device of the data; one with it was asked to be built there"""
    o = I.deref(I.resolve(b))
    init = I.repo.find_method(o.cls.mod, o.cls.node, "__init__")
    if init is not None and "device" in [a.arg for a in init[1].args.args + init[1].args.kwonlyargs]:
        return
    move_module(I, b, dev="IN")


def host(qual, node):
    """documented to return host memory"""
    d = (ast.get_docstring(node) or "").lower()
    return "numpy" in node.name or "cpu" in node.name.lower() or "on the cpu" in d or "to the cpu" in d


def job(p, qual):
    expr.coarse()
    torchops.CAP = 16
    r = Run(Repo(), qual, state=to_input)
    if not r.ok:
        return
    I, mod, node = r.I, r.mod, r.node
    fn = qual.split(":")[1]
    p.saw(I)
    p.count("functions")
    seen = set()
    bad = 0
    for e in I.events:
        if e.kind != "dev_mix":
            continue
        k = (e.rel, e.func, e.info["what"])
        bad += 1
        if k in seen:
            continue
        seen.add(k)
        p.viol(e.rel, e.func.split(":")[1], "mixes devices in " + e.info["what"],
               "%s combines a tensor created on the default device with one on the device of %s (%s), reached from %s" % (
                   e.func.split(":")[1], "the arguments", " x ".join(e.info["devs"]), fn), line=e.line)
    if not bad:
        p.ok(qual, "every combination of tensors on one device", "%d functions reached" % len(I.functions_seen))
    devarg = [k for k, v in r.kw.items() if isinstance(I.resolve(v), Device) or k == "device"]
    ins = [n for n, t in r.inputs() if t.dev not in ("CPU", None, "PY")]
    for pos, t in r.tensors():
        p.count("results")
        where = "result" + pos
        if r.in_constructor() and not any(not n.startswith("self") for n in ins):
            continue              # fills the state of a module, which is moved afterwards
        if devarg:
            want = ["ARG:" + k for k in devarg]
        elif ins:
            want = None
        else:
            continue
        if t.dev is None or t.dev == "PY":
            p.undecided(qual, "device of " + where, "not determined")
        elif t.dev == "CPU?":
            p.undecided(qual, "device of " + where, "a scalar or a tensor on the default device")
        elif t.dev.startswith("CPU|") and not (t.shape is not None and not t.shape):
            p.viol(mod.rel, fn, "%s on the default device on one path" % where, "one path of %s returns the %s on the default device, another on the device of its arguments" % (
                fn, where), line=node.lineno)
        elif t.dev == "CPU" and (t.shape is None or len(t.shape) > 0) or t.dev == "CPU" and devarg:
            if host(qual, node):
                p.ok(qual, "documented to return host memory")
                continue
            p.viol(mod.rel, fn, "%s on the default device" % where, "the %s of %s is created on the default device although %s" % (
                where, fn, "a device is asked for by '%s'" % devarg[0] if devarg else "its arguments (%s) are elsewhere" % ", ".join(ins[:3])), line=node.lineno)
        elif devarg and t.dev not in want:
            if t.dev in ("IN",) and any(n for n, q in r.inputs()):
                p.undecided(qual, "device of " + where, "follows the tensor arguments, not %s" % want[0])
            else:
                p.undecided(qual, "device of " + where, "%s, asked for %s" % (t.dev, want[0]))
        else:
            p.ok(qual, "%s on %s" % (where, "the device asked for" if devarg else "the device of the arguments"))


def tensors_of(I, v, d=0):
    v = I.resolve(v)
    if isinstance(v, Choice):
        return tensors_of(I, v.a, d) + tensors_of(I, v.b, d)
    c = I.deref(v)
    if isinstance(c, (Tup, Lst)) and getattr(c, "items", None) is not None and d < 3:
        return [x for q in c.items for x in tensors_of(I, q, d + 1)]
    if isinstance(c, (USeq, Lst)) and c.elem is not None and d < 3:
        return tensors_of(I, c.elem, d + 1)
    t = I.tensor(v)
    return [t] if t is not None else []


def moving(p, qual):
    """an object with a method to(device) leaves no tensor behind"""
    expr.coarse()
    torchops.CAP = 16

    def distinct(I, b):
        I.distinct_devices = True
    r = Run(Repo(), qual, state=distinct, always=True)
    if not r.ok:
        return
    I = r.I
    p.saw(I)
    o = I.deref(I.resolve(r.bound))
    res = I.resolve(r.result)
    p.count("moved objects")
    want = ["ARG:" + k for k, v in r.kw.items() if isinstance(I.resolve(v), Device)]
    objs = [("", o)]
    ro = I.deref(res)
    if isinstance(ro, Obj) and ro is not o:
        objs.append(("result.", ro))
    for pre, ob in objs:
        if pre == "" and len(objs) > 1:
            continue              # a moved copy is returned
        for k, v in sorted(ob.attrs.items()):
            for t in tensors_of(I, v):
                if t.dev in want:
                    p.ok(qual, "%s%s moved" % (pre, k))
                elif t.dev is None:
                    p.undecided(qual, "%s%s" % (pre, k), "device not determined")
                else:
                    p.viol(r.mod.rel, qual.split(":")[1], "%s stays behind" % k, "%s leaves the tensor '%s' on %s" % (
                        qual.split(":")[1], k, t.dev), line=r.node.lineno)


def run(rep, tier):
    repo = Repo()
    rep.pmap(job, targets(repo), limit=120 if tier == "quick" else 400)
    mv = [q for m, q, node, cls in repo.all_functions() if cls is not None and node.name == "to" and not is_module(repo, m, cls)]
    rep.pmap(moving, mv, limit=120)
    rep.floor = {"functions": 200, "results": 150}
    return ("Every function and method of the package was interpreted abstractly with arguments of unknown shape and content on an unknown device, "
            "methods on an object built by its constructor and moved to that device (registered buffers and parameters move, plain tensor attributes do not). "
            "Each tensor carries the label of the device it was created on or derived from. Obligations: no operation combines a non-scalar tensor created on the "
            "default device with one from the arguments; no result is left on the default device when there are tensor arguments or a device argument.")
