"""Calls of the repository's functions and constructors on abstract arguments."""
from . import expr as E
from .harness import *
from .values import *
from .interp import Frame


def val(v):
    if isinstance(v, (int, float, bool)):
        return Num(v)
    if isinstance(v, str) or v is None:
        return Const(v)
    if isinstance(v, (list, tuple)):
        return Tup([val(x) for x in v])
    return v


def make(I, repo, qual, kw):
    """abstract object built by the constructor of a class, None if the class is not there"""
    r = repo.find(qual)
    if r is None:
        return None
    mod, cls, _ = r
    I.frames.append(Frame(mod, "<root>", {}))
    try:
        return I.resolve(I.call(Cls(mod, cls, qual), [], {k: val(v) for k, v in kw.items()}, cls))
    finally:
        I.frames.pop()


def method(I, repo, obj, name, *args, **kw):
    o = I.deref(obj)
    I.frames.append(Frame(o.cls.mod, "<root>", {}))
    try:
        f = I.attr(obj, name, o.cls.node)
        return I.resolve(I.call(f, [val(a) for a in args], {k: val(v) for k, v in kw.items()}, o.cls.node))
    finally:
        I.frames.pop()


def attr(I, obj, name):
    """raw attribute value of an abstract object"""
    o = I.deref(I.resolve(obj))
    if isinstance(o, Obj):
        v = o.attrs.get(name)
        return None if v is None else I.resolve(v)
    return None


def const(I, v):
    """number, string or None a value is known to be; raises KeyError otherwise"""
    v = I.resolve(v)
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Num):
        c = E.cval(v.n)
        if c is not None:
            return c
    if isinstance(v, Tup):
        return [const(I, x) for x in v.items]
    t = I.tensor(v)
    if t is not None and t.shape is not None and t.k == len(t.shape):
        c = [E.cval(x) for x in t.comps]
        if all(x is not None for x in c):
            return c
    raise KeyError


def always_raises(I):
    """some error is raised on every path"""
    one = E.const(1.0).id
    return any(e.kind == "raise" and all(getattr(g, "id", None) == one for g in e.gate) for e in I.events)


def may_raise(I):
    return any(e.kind == "raise" for e in I.events)


def enumerated(I, v):
    """shape and components of a fully enumerated constant tensor"""
    t = I.tensor(I.resolve(v))
    if t is None or t.shape is None or t.k != len(t.shape):
        return None, None
    c = [E.cval(x) for x in t.comps]
    if any(x is None for x in c):
        return None, None
    return [d.c for d in t.shape], c


def build(I, shape, c, dt="f64", dev="CPU"):
    m = {}
    cs = [m[x] if x in m else m.setdefault(x, E.const(x)) for x in c]
    return I.newloc(Tensor([Dim(E.const(s)) for s in shape], cs, len(shape), NOROOT, dt, dev))


def small(I, name, shape, dt="f32"):
    """tensor of known extent with a symbol per element"""
    n = 1
    for x in shape:
        n *= x
    t = I.tensor(I.resolve(tens(I, name, (n,), dtype=dt)))
    return I.newloc(Tensor([Dim(x) for x in shape], list(t.comps), len(shape), t.roots, t.dtype, t.dev, t.deps))
