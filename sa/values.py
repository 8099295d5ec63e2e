"""Abstract values."""
from . import expr as E

NOROOT = frozenset()


class IV:
    """index variable (name, args)"""
    __slots__ = ("name", "args", "_h")

    def __init__(self, name, *args):
        self.name = name
        self.args = args
        self._h = hash((name,) + tuple(a.id if isinstance(a, E.Node) else a for a in args))

    def key(self):
        return (self.name,) + tuple(("#", a.id) if isinstance(a, E.Node) else
                                    (a.key() if isinstance(a, IV) else a) for a in self.args)

    def __eq__(self, o):
        return isinstance(o, IV) and self.key() == o.key()

    def __hash__(self):
        return self._h

    def __repr__(self):
        return self.name + ("(%s)" % ",".join(map(repr, self.args)) if self.args else "")


class Dim:
    __slots__ = ("size", "ivs", "sel")

    def __init__(self, size, ivs=(), sel=None):
        if isinstance(size, int):
            size = E.const(size)
        self.size = size
        self.ivs = tuple(ivs)
        self.sel = sel

    @property
    def c(self):
        v = E.cval(self.size)
        return None if v is None else int(v)

    def __repr__(self):
        return repr(self.c if self.c is not None else self.size)

    def same(self, o):
        return self.size is o.size


class V:
    deps = NOROOT
    roots = NOROOT


class Const(V):
    """None, str, bytes, dtype/device names, Ellipsis"""
    __slots__ = ("v", "deps")

    def __init__(self, v, deps=NOROOT):
        self.v = v
        self.deps = deps

    def __repr__(self):
        return "Const(%r)" % (self.v,)


class DType(V):
    __slots__ = ("label",)

    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return "DType(%s)" % self.label


class Device(V):
    __slots__ = ("label",)

    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return "Device(%s)" % self.label


class Num(V):
    """python number or bool"""
    __slots__ = ("n", "isint", "isbool", "deps")

    def __init__(self, n, isint=False, isbool=False, deps=NOROOT):
        if not isinstance(n, E.Node):
            isint = isint or isinstance(n, int)
            isbool = isbool or isinstance(n, bool)
            n = E.const(float(n))
        self.n = n
        self.isint = isint
        self.isbool = isbool
        self.deps = deps

    @property
    def c(self):
        v = E.cval(self.n)
        if v is None:
            return None
        return int(v) if (self.isint or self.isbool) else v

    def __repr__(self):
        return "Num(%r)" % (self.n,)


class Str(V):
    """symbolic string; unlisted: a string equal to no literal of the program"""
    __slots__ = ("name", "deps", "unlisted")

    def __init__(self, name, deps=NOROOT, unlisted=False):
        self.name = name
        self.unlisted = unlisted
        self.deps = deps


class Tup(V):
    __slots__ = ("items", "isshape")

    def __init__(self, items, isshape=False):
        self.items = list(items)
        self.isshape = isshape

    @property
    def deps(self):
        r = NOROOT
        for i in self.items:
            r = r | i.deps
        return r

    @property
    def roots(self):
        r = NOROOT
        for i in self.items:
            r = r | i.roots
        return r

    def __repr__(self):
        return "Tup%r" % (self.items,)


class USeq(V):
    """sequence of unknown length with a generic element"""
    __slots__ = ("elem", "n", "deps", "kind")

    def __init__(self, elem, n=None, deps=NOROOT, kind="list"):
        self.elem = elem
        self.n = n
        self.deps = deps
        self.kind = kind

    @property
    def roots(self):
        return self.elem.roots if self.elem is not None else NOROOT


class Rng(V):
    __slots__ = ("a", "b", "s")

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    @property
    def deps(self):
        return self.a.deps | self.b.deps | self.s.deps


class Slc(V):
    __slots__ = ("a", "b", "s")

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    @property
    def deps(self):
        r = NOROOT
        for x in (self.a, self.b, self.s):
            if x is not None:
                r = r | x.deps
        return r


class Func(V):
    __slots__ = ("mod", "node", "closure", "qual", "bound", "cls")

    def __init__(self, mod, node, qual, closure=None, bound=None, cls=None):
        self.mod, self.node, self.qual = mod, node, qual
        self.closure, self.bound, self.cls = closure, bound, cls


class Cls(V):
    __slots__ = ("mod", "node", "qual")

    def __init__(self, mod, node, qual):
        self.mod, self.node, self.qual = mod, node, qual


class Ext(V):
    """dotted path in an external library"""
    __slots__ = ("path", "deps")

    def __init__(self, path, deps=NOROOT):
        self.path = path
        self.deps = deps

    def __repr__(self):
        return "Ext(%s)" % self.path


class ModV(V):
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod


class BoundOp(V):
    """method of an abstract value (tensor/list/str ...)"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    @property
    def deps(self):
        return self.recv.deps


class Any(V):
    __slots__ = ("deps", "roots", "tag")

    def __init__(self, deps=NOROOT, roots=NOROOT, tag=None):
        self.deps = deps
        self.roots = roots
        self.tag = tag

    def __repr__(self):
        return "Any(%s)" % (self.tag or "",)


class Choice(V):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    @property
    def deps(self):
        return self.a.deps | self.b.deps

    @property
    def roots(self):
        return self.a.roots | self.b.roots

    def __repr__(self):
        return "Choice(%r,%r,%r)" % (self.cond, self.a, self.b)


class Ref(V):
    """reference to a store location"""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return "@%d" % self.loc


# ---- store contents -----------------------------------------------------------
class Tensor:
    __slots__ = ("shape", "k", "comps", "roots", "dtype", "dev", "deps", "view", "tag", "_vn", "grad")

    def __init__(self, shape, comps, k=None, roots=NOROOT, dtype=None, dev=None,
                 deps=NOROOT, view=None, tag=None):
        self.shape = None if shape is None else tuple(shape)
        if k is None:
            k = 0
        self.k = k
        self.comps = tuple(comps)
        self.roots = roots
        self.dtype = dtype
        self.dev = dev
        self.deps = deps
        self.view = view      # (base loc, index map or None)
        self.tag = tag
        self._vn = None

    def but(self, **kw):
        t = Tensor(self.shape, self.comps, self.k, self.roots, self.dtype, self.dev,
                   self.deps, self.view, self.tag)
        for a, b in kw.items():
            setattr(t, a, b)
        t.shape = None if t.shape is None else tuple(t.shape)
        t.comps = tuple(t.comps)
        return t

    @property
    def block(self):
        return tuple(d.c for d in self.shape[len(self.shape) - self.k:]) if self.k else ()

    @property
    def vn(self):
        """tuple usable as atom argument describing the whole tensor value"""
        if self._vn is None:
            sh = None if self.shape is None else tuple(
                (d.size,) + tuple(d.ivs) for d in self.shape)
            self._vn = ("T", sh) + tuple(self.comps)
        return self._vn

    def __repr__(self):
        return "T(%s;%s;%s)" % (self.shape, list(self.comps)[:4], self.dtype)


class Lst:
    __slots__ = ("items", "elem", "n", "roots0")

    def __init__(self, items=None, elem=None, n=None):
        self.items = items
        self.elem = elem
        self.n = n


class Dct:
    __slots__ = ("items", "unknown", "elem")

    def __init__(self, items=None, unknown=False, elem=None):
        self.items = items or {}
        self.unknown = unknown
        self.elem = elem


class Obj:
    __slots__ = ("cls", "attrs", "roots", "opaque")

    def __init__(self, cls, attrs=None, opaque=False):
        self.cls = cls
        self.attrs = attrs or {}
        self.opaque = opaque   # attributes not listed are unknown (not missing)
