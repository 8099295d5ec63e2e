"""No public operation changes a tensor owned by its caller."""
import ast
from .. import contracts as K, wide as W
from ..harness import *
from ..loader import Repo
from ..values import *


def targets(repo):
    """(qualified name, class) of every function and method"""
    out = []
    for m, q, node, cls in repo.all_functions():
        if q.startswith(("ebsdtorch.crystallography.groups:sg_operators", "ebsdtorch.utils.factorize:")):
            continue              # no tensor argument
        out.append(q)
    return out


def no_result(node):
    """a function without a result can only act through its arguments"""
    return not any(isinstance(x, (ast.Return, ast.Yield)) and getattr(x, "value", None) is not None
                   and not (isinstance(x.value, ast.Constant) and x.value.value is None) for x in ast.walk(node))


def documented_inplace(node):
    """the name or the documentation says that the argument is updated"""
    n = node.name
    if n.endswith("_") and not n.endswith("__"):
        return True
    d = (ast.get_docstring(node) or "").lower()
    return "in-place" in d or "in place" in d or "inplace" in d


def job(p, item):
    from .. import expr, torchops
    expr.coarse()
    torchops.CAP = 16
    repo = Repo()
    qual = item
    r = repo.find(qual)
    if r is None:
        return
    mod, node, cls = r
    fn = qual.split(":")[1]
    I = W.setup(Interp(repo, qual), but=(qual,))
    bound = None
    if cls is not None and "staticmethod" not in [ast.unparse(d) for d in node.decorator_list]:
        if node.name == "__init__":
            kw = W.kwargs_for(I, repo, mod, node)
            bound = I.newloc(Obj(Cls(mod, cls, "%s:%s" % (mod.name, cls.name)), {}, I.has_opaque_base(Cls(mod, cls, qual.rsplit(".", 1)[0]))))
        else:
            bound = W.construct(I, repo, mod, cls, pre="constructor ")
            kw = W.kwargs_for(I, repo, mod, node)
    else:
        kw = W.kwargs_for(I, repo, mod, node)
    I.events.clear()
    I._evkeys.clear()
    I.run(qual, [], kw, bound=bound)
    p.saw(I)
    p.count("functions")
    seen = set()
    for e in I.events:
        if e.kind != "mutate":
            continue
        for root in e.info["roots"]:
            if root.startswith(("module constant", "default value")):
                continue
            k = (e.rel, e.line, root)
            if k in seen:
                continue
            seen.add(k)
            if documented_inplace(node) or (cls is None and no_result(node)):
                p.ok(qual, "documented in-place update of %s" % root, "%s:%d" % (e.rel, e.line))
                continue
            if not e.info.get("must"):
                p.undecided(qual, "argument %s may be changed" % root, "%s:%d in %s by %s" % (e.rel, e.line, e.func.split(":")[1], e.info["how"]))
                continue
            p.viol(mod.rel, fn, "changes " + root, "%s changes the caller's %s: %s:%d in %s (%s)" % (
                fn, root, e.rel, e.line, e.func.split(":")[1], e.info["how"]), line=node.lineno)
    if not seen:
        p.ok(qual, "no store into a caller's tensor", "%d functions reached" % len(I.functions_seen))


def run(rep, tier):
    repo = Repo()
    rep.pmap(job, targets(repo), limit=120 if tier == "quick" else 400)
    rep.floor = {"functions": 200}
    return ("Every function and method of the package was interpreted abstractly with inputs of unknown shape and content (optional arguments both given "
            "and absent, methods on an object built by its constructor). Each tensor carries the set of arguments whose storage it shares, through views, "
            "slices, attributes, buffers and no-op conversions; each in-place store (augmented assignment, item assignment, underscore operation, out=) "
            "on a tensor with a non-empty set is an obligation that fails. Exempt are functions with no result, a trailing underscore or a documented in-place update.")
