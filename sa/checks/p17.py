"""Every argument can change what the call does."""
import ast
from ..loader import Repo
from .. import influence as F

LABELS = ("str", "Optional[str]")


def functions(repo):
    for m in sorted(repo.mods.values(), key=lambda m: m.rel):
        for name, d in m.defs.items():
            if isinstance(d, ast.FunctionDef):
                yield m, d, None
            elif isinstance(d, ast.ClassDef):
                for s in d.body:
                    if isinstance(s, ast.FunctionDef):
                        yield m, s, d


def public(f, c):
    n = f.name
    if c is not None and c.name.startswith("_"):
        return False
    if n.startswith("__") and n.endswith("__"):
        return n in ("__init__", "__call__", "__getitem__", "__len__", "__new__")
    return not n.startswith("_")


def annotations(f):
    return {x.arg: (ast.unparse(x.annotation).replace(" ", "") if x.annotation is not None else "") for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}


def is_tensor(t):
    return t in ("Tensor", "torch.Tensor", "Optional[Tensor]", "Optional[torch.Tensor]")


def reads(repo):
    """attribute names some code reads (beyond refusing a value), by attribute"""
    out = set()
    for m in repo.mods.values():
        skip = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.If) and (F.Fn.only_raises(n.body) and (not n.orelse or F.Fn.only_raises(n.orelse))):
                for x in ast.walk(n):
                    skip.add(id(x))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and id(n) not in skip:
                out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    return out


def one_value(an, m, f, c, p, depth=0):
    """the only use of p is to refuse all values but one: there is nothing to choose"""
    for n in ast.walk(f):
        if isinstance(n, ast.If):
            body, orelse = F.Fn.only_raises(n.body), bool(n.orelse) and F.Fn.only_raises(n.orelse)
            # without an else branch, what follows the if is the other side
            if not n.orelse and F.Fn.leaves(n.body):
                orelse = any(isinstance(s, ast.Raise) for s in f.body[-1:])
            t = n.test
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, body, orelse = t.operand, orelse, body
            if isinstance(t, ast.Name) and t.id == p and (body or orelse):
                return True
            if isinstance(t, ast.Compare) and len(t.ops) == 1:
                l, r = t.left, t.comparators[0]
                if isinstance(l, ast.Constant):
                    l, r = r, l
                if isinstance(l, ast.Name) and l.id == p and isinstance(r, ast.Constant):
                    if isinstance(t.ops[0], (ast.Eq, ast.Is)) and orelse or isinstance(t.ops[0], (ast.NotEq, ast.IsNot)) and body:
                        return True
        elif isinstance(n, ast.Call) and depth < 3:
            d = an.resolve(m, n.func, c)
            if d and isinstance(d[1], ast.FunctionDef):
                cls = d[2] if len(d) > 2 else None
                pos, kwo, _, _ = F.params_of(d[1], F.is_method(d[1], cls))
                for k, a in list(zip(pos, n.args)) + [(k.arg, k.value) for k in n.keywords]:
                    if isinstance(a, ast.Name) and a.id == p and k and one_value(an, d[0], d[1], cls, k, depth + 1):
                        return True
    return False


class Given(F.Unlisted):
    """some value that is not None"""

    def __repr__(self):
        return "given"


GIVEN = Given()

# options under which another argument has no meaning (from the documentation)
MOOT = {
    ("calc_helper_scatter_matrix", "absorption", False): {"apply_qg_shift"},
    ("scatter_factor_hybrid", "return_type", "ITC"): {"voltage_kV", "include_core", "include_phonon"},
    ("scatter_factor_hybrid", "include_phonon", False): {"wk_A_param", "wk_B_param"},
    ("scatter_factor_WK", "return_type", "ITC"): {"voltage_kV", "include_core", "include_phonon"},
    ("scatter_factor_LVD", "return_type", "ITC"): {"thermal_sigma", "voltage_kV", "intervals", "interval_range", "logspace_base", "logspace_eps", "sampling_type", "integration_type"},
    ("scatter_factor_LVD", "sampling_type", "linspace"): {"logspace_base", "logspace_eps"},
    ("MasterPattern.__init__", "laue_group", GIVEN): {"point_group", "space_group"},
    ("MasterPattern.__init__", "point_group", GIVEN): {"space_group"},
    ("Cell.calc_cross", "inspace", "c"): {"scale_by_volume"},
}


def option_values(f, names, ann):
    """values of the options of a function that its code tells apart"""
    vals = {}
    for n in ast.walk(f):
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id in names:
            for x in n.comparators:
                for y in ([x] if isinstance(x, ast.Constant) else x.elts if isinstance(x, (ast.Tuple, ast.List, ast.Set)) else []):
                    if isinstance(y, ast.Constant) and isinstance(y.value, str):
                        vals.setdefault(n.left.id, set()).add(y.value)
                    elif isinstance(y, ast.Constant) and y.value is None:
                        vals.setdefault(n.left.id, set()).update((None, GIVEN))
    for p in names:
        if ann.get(p) == "bool":
            vals[p] = {True, False}
    return {o: sorted(v, key=str) for o, v in vals.items()}


def trivial(f):
    """a body that is a placeholder (pass, docstring, raise)"""
    return all(isinstance(s, (ast.Pass, ast.Raise)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in f.body)


def compared(f, p):
    return any(isinstance(n, ast.Compare) and any(isinstance(x, ast.Name) and x.id == p for x in [n.left] + n.comparators) for n in ast.walk(f))


def fields(m, c, read, part):
    """fields of a data class are arguments of its constructor"""
    deco = [ast.unparse(d) for d in c.decorator_list]
    if not any("dataclass" in d for d in deco):
        return
    for s in c.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.unparse(s.annotation):
            part.count("arguments")
            if s.target.id in read:
                part.ok("%s:%s.%s" % (m.rel, c.name, s.target.id), "field is read")
            else:
                part.viol(m.rel, c.name, "ignores %s" % s.target.id, "field '%s' of %s is never read" % (s.target.id, c.name), line=s.lineno)


def run(rep, tier):
    repo = Repo()
    an = F.Analysis(repo)
    read = reads(repo)
    part = rep
    for m, f, c in functions(repo):
        s = an.summary(m, f, c)
        if not public(f, c) or trivial(f):
            continue
        pos, kwo, va, kwa = F.params_of(f, F.is_method(f, c))
        ann = annotations(f)
        fn = (c.name + "." if c is not None else "") + f.name
        part.funcs.add("%s:%s" % (m.rel, fn))
        part.count("functions")
        out = s.ret | s.eff
        for a, t in s.attrs.items():
            if a in read:
                out |= t
        autograd = c is not None and any("Function" in ast.unparse(b) for b in c.bases)
        live = set()
        for p in pos + kwo:
            if autograd and p == "ctx":
                continue
            part.count("arguments")
            where = "%s:%s(%s)" % (m.rel, fn, p)
            if p in out:
                part.ok(where, "influence", "its value reaches a result or a lasting effect")
                live.add(p)
            elif p + "#" in out and not is_tensor(ann.get(p, "")):
                part.ok(where, "influence", "reaches a result")
                live.add(p)
            elif one_value(an, m, f, c, p):
                part.ok(where, "influence", "all values but one are refused")
            elif f.name == "__init__" and ann.get(p) in LABELS and not compared(f, p) and any(p in t for t in s.attrs.values()):
                part.ok(where, "influence", "a label kept for its reader")
            else:
                what = "only its shape, type and device reach" if p + "#" in out else "nothing it is used for reaches"
                part.viol(m.rel, fn, "ignores %s" % p, "%s takes '%s' but %s what it returns, changes or stores for later use" % (fn, p, what), line=f.lineno)
        # the same with one option held at each of its values
        for o, vs in option_values(f, pos + kwo, ann).items():
            for v in vs:
                s = F.Fn(an, m, f, c, {o: v}).go()
                out = s.ret | s.eff
                for a, t in s.attrs.items():
                    if a in read:
                        out |= t
                part.count("options held fixed")
                moot = MOOT.get((fn, o, v), set())
                where = "%s:%s with %s = %s" % (m.rel, fn, o, v)
                gone = [p for p in pos + kwo if p != o and p in live and p not in moot and p not in out and not (p + "#" in out and not is_tensor(ann.get(p, "")))]
                for p in gone:
                    part.viol(m.rel, fn, "ignores %s when %s is %s" % (p, o, v), "%s takes '%s' but ignores it when %s is %s" % (fn, p, o, v), line=f.lineno)
                if not gone:
                    part.ok(where, "influence", "every argument that has a meaning reaches a result")
    for m in repo.mods.values():
        for name, d in m.defs.items():
            if isinstance(d, ast.ClassDef):
                fields(m, d, read, part)
    rep.floor = {"functions": 240, "arguments": 600}
    return ("Flow-sensitive forward dependence analysis of every function and method of the package: each variable carries the parameters its value can depend on through data "
            "and through the branch it is assigned on, with the shape, type and device of a tensor kept apart from its values; calls into the package use the summary of "
            "the callee, stores into arguments, objects, tables and attributes are lasting effects, an attribute counts when some code reads it, and a test that only "
            "refuses values counts for nothing unless it leaves one value. Every parameter of a public function or constructor must reach a returned value or a lasting effect, also with every other "
            "option held in turn at each value the code tells apart (paths of the other values are cut), except for the listed options that documentedly make another argument meaningless.")
