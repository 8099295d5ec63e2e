"""Options and group numbers outside the documented ones are refused."""
import ast
from .. import expr, torchops
from ..harness import *
from ..loader import Repo
from ..values import *
from ..wide import Run, ann_text, utens
from .p01 import targets

UN = "a string that is none of the documented values"
LAUE = (0, -1, 12, 100)
SPACE = (0, -1, 231, 1000)


def params(node):
    a = node.args
    pos = a.posonlyargs + a.args
    defs = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    return [(x, d) for x, d in list(zip(pos, defs)) + list(zip(a.kwonlyargs, a.kw_defaults)) if x.arg not in ("self", "cls")]


def options(node):
    out = []
    for x, d in params(node):
        t = ann_text(x.annotation).replace("typing.", "").replace(" ", "")
        s = isinstance(d, ast.Constant) and isinstance(d.value, str)
        if t in ("str", "Optional[str]") or t.startswith("Literal[") or (not t and s):
            out.append(x.arg)
    return out


def groups(node):
    out = []
    for x, d in params(node):
        t = ann_text(x.annotation)
        n = x.arg.lower()
        if "tensor" in t.lower() or "list" in t.lower() or "str" in t.lower():
            continue
        if n.startswith(("laue_id", "laue_group", "laue_num")) or n == "laue":
            out.append((x.arg, LAUE))
        elif n == "axial_grid_dimension":
            out.append((x.arg, (0, 4, -1)))
        elif n in ("sg_num", "sgnum", "space_group", "space_group_number", "sg"):
            out.append((x.arg, SPACE))
    return out


def work(repo):
    items = []
    for q in targets(repo) + ["ebsdtorch.crystallography.groups:sg_operators"]:
        r = repo.find(q)
        if r is None or not isinstance(r[1], (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        for o in options(r[1]):
            items.append((q, o, None))
        for o, vals in groups(r[1]):
            for v in vals:
                items.append((q, o, v))
    return items


def defaults(node, but):
    return {x.arg: Const(d.value) for x, d in params(node) if x.arg != but and isinstance(d, ast.Constant) and isinstance(d.value, str)}


def stored(p, repo, qual, name, val):
    """an option kept by the constructor: the methods which look at it refuse it"""
    mod, node, cls = repo.find(qual)
    pre = qual.rsplit(".", 1)[0]
    for m in cls.body:
        if not isinstance(m, ast.FunctionDef) or m is node:
            continue

        def opt(I):
            I.strict_errors = True
            return val
        r = Run(repo, pre + "." + m.name, init={name: opt})
        if not r.ok or not r.I.compared:
            continue
        p.count("options")
        p.saw(r.I)
        fn = r.qual.split(":")[1]
        if r.I.noreturn:
            p.ok(r.qual, "an undocumented value of %s is refused" % name)
        else:
            p.viol(mod.rel, fn, "accepts any %s" % name, "%s takes an object built with a value of '%s' that equals none of the values it compares with and returns normally" % (
                fn, name), line=m.lineno)


def job(p, item):
    qual, name, v = item
    expr.coarse()
    torchops.CAP = 16
    val = Str(UN, frozenset([name]), unlisted=True) if v is None else Num(v)

    def strict(I):
        I.strict_errors = True
        return val
    repo = Repo()
    over = {name: strict}
    if v is not None:
        for o, vals in groups(repo.find(qual)[1]):
            if o != name:
                over[o] = Num(5)          # another argument of the same kind: a group that exists
    r = Run(repo, qual, over=over)
    if not r.ok:
        return
    I = r.I
    p.saw(I)
    fn = qual.split(":")[1]
    if v is None:
        if not I.compared:
            if r.init:
                stored(p, repo, qual, name, val)
            return                    # free text, a path or a device: not an option
        p.count("options")
        if not I.noreturn:
            # an option may be without meaning under another one: the others at their defaults
            r2 = Run(repo, qual, over=dict(defaults(r.node, name), **{name: strict}))
            if r2.ok and r2.I.noreturn:
                I = r2.I
        if I.noreturn:
            p.ok(qual, "an undocumented value of %s is refused" % name)
        else:
            p.viol(r.mod.rel, fn, "accepts any %s" % name, "%s takes a value of '%s' that equals none of the values it compares with and returns normally" % (
                fn, name), line=r.node.lineno)
    else:
        p.count("group numbers")
        if I.noreturn:
            p.ok(qual, "%s = %d is refused" % (name, v))
        else:
            p.viol(r.mod.rel, fn, "accepts %s outside the groups" % name, "%s(%s=%d) returns normally although there is no such group" % (fn, name, v), line=r.node.lineno)


def run(rep, tier):
    repo = Repo()
    rep.pmap(job, work(repo), limit=120 if tier == "quick" else 400)
    rep.floor = {"options": 40, "group numbers": 90}
    return ("Every parameter annotated or defaulted as a string whose value the function (or a function it calls) compares with literals was given a string "
            "equal to none of them, every Laue group parameter the numbers 0, -1, 12, 100 and every space group parameter 0, -1, 231, 1000; all other arguments "
            "unknown. Constant propagation through comparisons, membership tests, dictionary and list lookups (out of range and missing keys count as refusals, "
            "negative list indices wrap) must leave no path on which the function returns. Options kept by a constructor are followed into the methods that look at them.")
