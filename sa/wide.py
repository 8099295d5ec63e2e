"""Every public function and method of the package with inputs of unknown content.

Tensors have unknown shape and content, numbers and strings are symbolic, options of unknown type stay open.
Objects are built by their constructor from such inputs; each method then runs on an object in an arbitrary state
reachable by its constructor."""
import ast
from . import expr as E, contracts as K
from .harness import *
from .values import *


def utens(I, name, dtype="IN", dev="IN", root=True, shape=None):
    n = E.leaf(E.psym("T:" + name))
    r = frozenset([name]) if root else NOROOT
    return I.newloc(Tensor(shape, [n], 0, roots=r, dtype=dtype, dev=dev, deps=frozenset([name])))


def ann_text(a):
    return "" if a is None else (a.value if isinstance(a, ast.Constant) and isinstance(a.value, str) else ast.unparse(a))


def by_name(I, name):
    n = name.lower()
    if n in ("device",):
        return Device("ARG:" + name)
    return None


def value(I, repo, mod, name, ann, default, pre=""):
    """an optional argument is either given or None"""
    v = value1(I, repo, mod, name, ann, default, pre)
    t = ann_text(ann).replace(" ", "")
    if (t.startswith(("Optional[", "typing.Optional[")) or "|None" in t or
            (isinstance(default, ast.Constant) and default.value is None)):
        return Choice(E.bool_atom("given:" + pre + name), v, NONE)
    return v


def value1(I, repo, mod, name, ann, default, pre=""):
    t = ann_text(ann).replace("torch.", "").replace("typing.", "").replace(" ", "")
    full = pre + name
    if t.startswith("Optional[") and t.endswith("]"):
        t = t[9:-1]
    if "|None" in t:
        t = t.replace("|None", "")
    if t.startswith("Union[") and "Tensor" in t:
        t = "Tensor"
    if t in ("Tensor", "FloatTensor", "LongTensor", "nn.Parameter", "Parameter"):
        return utens(I, full)
    if t == "device":
        return Device("ARG:" + full)
    if t == "dtype":
        return DType("ARG:" + full)
    if t == "int":
        return num(full, isint=True)
    if t == "float":
        return num(full)
    if t == "bool":
        return flag(full)
    if t == "str":
        return Str(full, frozenset([full]))
    if t.startswith(("Tuple[", "tuple[")):
        inner = split(t[t.index("[") + 1:-1])
        if inner and inner[-1] != "...":
            return Tup([value(I, repo, mod, "%s.%d" % (name, k), ast.parse(x, mode="eval").body, None, pre) for k, x in enumerate(inner)])
    if t.startswith(("List[", "list[", "Sequence[")):
        inner = t[t.index("[") + 1:-1]
        return USeq(value(I, repo, mod, name + "[]", ast.parse(inner, mode="eval").body, None, pre), kind="list")
    if t in ("ndarray", "np.ndarray", "numpy.ndarray"):
        return utens(I, full)
    r = repo.resolve_def(mod, t) if t.isidentifier() else None
    if r is not None and isinstance(r[1], ast.ClassDef):
        return construct(I, repo, r[0], r[1], pre=full + ".")
    if isinstance(default, ast.Constant):
        v = default.value
        if isinstance(v, bool):
            return flag(full)
        if isinstance(v, int):
            return num(full, isint=True)
        if isinstance(v, float):
            return num(full)
        if isinstance(v, str):
            return Str(full, frozenset([full]))
    d = by_name(I, name)
    if d is not None:
        return d
    return Any(frozenset([full]), frozenset([full]), tag=("arg", full))


def split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "[":
            d += 1
        if ch == "]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur] if cur else out


def kwargs_for(I, repo, mod, node, pre="", skip=("self", "cls"), over=None):
    a = node.args
    pos = a.posonlyargs + a.args
    defs = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    out = {}
    for x, d in list(zip(pos, defs)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg in skip:
            continue
        if over and x.arg in over:
            v = over[x.arg]
            if v == "DEFAULT":
                continue
            out[x.arg] = v(I) if callable(v) else v
            continue
        out[x.arg] = value(I, repo, mod, x.arg, x.annotation, d, pre)
    return out


def construct(I, repo, mod, cls, pre="", over=None):
    init = repo.find_method(mod, cls, "__init__")
    qual = "%s:%s" % (mod.name, cls.name)
    c = Cls(mod, cls, qual)
    if init is None:
        fields = [st for st in cls.body if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)]
        kw = {f.target.id: value(I, repo, mod, f.target.id, f.annotation, f.value, pre) for f in fields}
    else:
        kw = kwargs_for(I, repo, mod, init[1], pre, over=over)
    from .interp import Frame
    base = Frame(mod, "<root>", {})
    I.frames.append(base)
    try:
        return I.resolve(I.call(c, [], kw, cls))
    finally:
        I.frames.pop()


def is_public(qual):
    f = qual.split(":")[1]
    return True


def fresh(name, kind="tensor", shape=None):
    def h(I, f, args, kw, n):
        deps = NOROOT
        for a in list(args) + list(kw.values()):
            deps = deps | I.deps(a)
        if kind == "int":
            return Num(E.leaf(E.patom(E.atom("fn", "call:" + name, *[I.vn(a) for a in args]))), isint=True, deps=deps)
        t = I.deref(utens(I, "result of " + name, root=False, dtype="DEF" if kind == "tensor" else "IN"))
        if shape is not None:
            t = opaque_shape(I, t, shape, deps)
        return I.newloc(t.but(deps=deps, dev="CPU" if kind == "tensor" else "IN"))
    return h


def opaque_shape(I, t, shape, deps):
    from . import torchops as T
    return T.opaque(I, "table", [Dim(x) for x in shape], [t.comps[0]], t.dtype, t.dev, deps)


def setup(I, but=()):
    """summaries of closed number-theoretic and table functions (analysed by their own properties)"""
    hs = {"ebsdtorch.crystallography.groups:sg_operators": fresh("sg_operators", shape=(E.leaf(E.psym("order of the group")), 4, 4)),
          "ebsdtorch.utils.factorize:nearly_square_factors": lambda I, f, a, k, n: Tup([fresh("nsf0", "int")(I, f, a, k, n), fresh("nsf1", "int")(I, f, a, k, n)])}
    for q, h in hs.items():
        if q not in but:
            I.hooks[q] = h
    return I


def is_module(repo, mod, cls):
    """a subclass of torch.nn.Module (possibly through classes of the repository)"""
    for b in cls.bases:
        t = ast.unparse(b)
        if t.split(".")[-1] in ("Module", "ScriptModule"):
            return True
        r = repo.resolve_def(mod, t) if t.isidentifier() else None
        if r is not None and isinstance(r[1], ast.ClassDef) and r[1] is not cls and is_module(repo, r[0], r[1]):
            return True
    return False


def moved(I, v, **kw):
    v = I.resolve(v)
    if isinstance(v, Choice):
        return Choice(v.cond, moved(I, v.a, **kw), moved(I, v.b, **kw))
    t = I.tensor(v)
    if t is None:
        return v
    f = {q: (x(t) if callable(x) else x) for q, x in kw.items()}
    return I.newloc(t.but(view=None, **f))


def move_module(I, bound, depth=0, **kw):
    """registered buffers and parameters follow module.to(...), also those of child modules; plain tensor attributes do not"""
    loc = I.resolve(bound)
    if isinstance(loc, Choice):
        move_module(I, loc.a, depth, **kw)
        move_module(I, loc.b, depth, **kw)
        return
    o = I.deref(loc)
    if not isinstance(o, Obj) or not isinstance(loc, Ref) or depth > 3:
        return
    loc = loc.loc
    at = dict(o.attrs)
    names = {nm for q, nm in I.buffers if q == loc}

    def isparam(v):
        v = I.resolve(v)
        if isinstance(v, Choice):
            return isparam(v.a) or isparam(v.b)
        return isinstance(v, Ref) and v.loc in I.params

    def child(v):
        v = I.resolve(v)
        if isinstance(v, Choice):
            child(v.a)
            child(v.b)
            return
        c = I.deref(v)
        if isinstance(c, Obj):
            if c.cls is not None and is_module(I.repo, c.cls.mod, c.cls.node):
                move_module(I, v, depth + 1, **kw)
        elif isinstance(c, (Tup, Lst)) and getattr(c, "items", None) is not None:
            for x in c.items:
                if isinstance(I.deref(I.resolve(x)), Obj):
                    child(x)
    for k, v in at.items():
        if k in names or isparam(v):
            at[k] = moved(I, v, **kw)
        else:
            child(v)
    I.store[loc] = Obj(o.cls, at, o.opaque)


class Run:
    """one function or method of the package on unknown arguments"""

    def __init__(self, repo, qual, state=None, over=None, always=False, init=None, prepare=None):
        from .interp import Interp
        self.ok = False
        self.qual = qual
        self.repo = repo
        r = repo.find(qual)
        if r is None:
            return
        self.mod, self.node, self.cls = mod, node, cls = r
        self.I = I = setup(Interp(repo, qual), but=(qual,))
        if prepare is not None:
            prepare(I)
        self.bound = None
        self.init = node.name == "__init__"
        self.static = "staticmethod" in [ast.unparse(d) for d in node.decorator_list]
        if cls is not None and not self.static:
            if self.init:
                self.kw = kwargs_for(I, repo, mod, node, over=over)
                self.bound = I.newloc(Obj(Cls(mod, cls, "%s:%s" % (mod.name, cls.name)), {},
                                          I.has_opaque_base(Cls(mod, cls, qual.rsplit(".", 1)[0]))))
            else:
                self.bound = construct(I, repo, mod, cls, pre="constructor ", over=init)
                if state is not None and (always or is_module(repo, mod, cls)):
                    state(I, self.bound)
                self.kw = kwargs_for(I, repo, mod, node, over=over)
        else:
            self.kw = kwargs_for(I, repo, mod, node, over=over)
        if state is not None:
            for v in self.kw.values():
                self.each_module(v, state)
        I.events.clear()
        I._evkeys.clear()
        self.result = I.run(qual, [], self.kw, bound=self.bound)
        self.ok = True

    def each_module(self, v, f, depth=0):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, Choice):
            self.each_module(v.a, f, depth)
            self.each_module(v.b, f, depth)
            return
        c = I.deref(v)
        if isinstance(c, (Tup, Lst)) and getattr(c, "items", None) is not None and depth < 3:
            for x in c.items:
                self.each_module(x, f, depth + 1)
        elif isinstance(c, (USeq, Lst)) and c.elem is not None and depth < 3:
            self.each_module(c.elem, f, depth + 1)
        elif isinstance(c, Obj) and isinstance(v, Ref) and c.cls is not None and is_module(self.repo, c.cls.mod, c.cls.node):
            f(I, v)

    def in_constructor(self):
        """a method called by the constructor of its class"""
        if self.cls is None or self.init:
            return False
        m = self.repo.find_method(self.mod, self.cls, "__init__")
        return m is not None and any(isinstance(x, ast.Attribute) and x.attr == self.node.name for x in ast.walk(m[1]))

    def tensors(self, v=None, depth=0):
        """tensors of the result, in order, with their position"""
        I = self.I
        v = I.resolve(self.result if v is None else v)
        if isinstance(v, Choice):
            return self.tensors(v.a, depth + 1) + self.tensors(v.b, depth + 1)
        c = I.deref(v)
        if isinstance(c, Tup) and depth < 4:
            return [("[%d]%s" % (k, p), t) for k, x in enumerate(c.items) for p, t in self.tensors(x, depth + 1)]
        if isinstance(c, Lst) and depth < 4 and c.items is not None:
            return [("[%d]%s" % (k, p), t) for k, x in enumerate(c.items) for p, t in self.tensors(x, depth + 1)]
        if isinstance(c, (USeq, Lst)) and depth < 4 and c.elem is not None:
            return [("[]" + p, t) for p, t in self.tensors(c.elem, depth + 1)]
        t = I.tensor(v)
        return [("", t)] if t is not None else []

    def inputs(self):
        """(name, tensor) of the tensor arguments, also the optional ones and tensor attributes of object arguments"""
        out = []
        I = self.I

        def go(nm, v, d):
            v = I.resolve(v)
            if isinstance(v, Choice):
                go(nm, v.a, d), go(nm, v.b, d)
                return
            c = I.deref(v)
            if isinstance(c, (Tup, Lst)) and getattr(c, "items", None) is not None and d < 3:
                for k, x in enumerate(c.items):
                    go("%s[%d]" % (nm, k), x, d + 1)
                return
            if isinstance(c, (USeq, Lst)) and c.elem is not None:
                go(nm + "[]", c.elem, d + 1)
                return
            if isinstance(c, Obj) and d < 2:
                for k, x in c.attrs.items():
                    if not k.startswith("#"):
                        go(nm + "." + k, x, d + 1)
                return
            t = I.tensor(v)
            if t is not None:
                out.append((nm, t))
        for k, v in self.kw.items():
            go(k, v, 0)
        if self.bound is not None and not self.init:
            go("self", self.bound, 0)
        return out
