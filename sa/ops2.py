"""Operation table."""
import itertools
import math
from fractions import Fraction
from . import expr as E
from .values import *
from . import torchops as T

OPS = {}
IVSZ = {}
HALF = Fraction(1, 2)


def op(*names):
    def d(f):
        for n in names:
            OPS[n] = f
        return f
    return d


def named(*names):
    """one handler for several operations, given the name of the operation"""
    def d(f):
        for nm in names:
            OPS[nm] = lambda I, a, k, n, nm=nm: f(nm, I, a, k, n)
        return f
    return d


# ------------------------------------------------------------------ generic form
def degen(t):
    """all dims generic (k=0)"""
    if t.k == 0:
        return t
    nd = len(t.shape)
    kb = nd - t.k
    dims = list(t.shape)
    comps = list(t.comps)
    for ax in range(nd - 1, kb - 1, -1):
        n = dims[ax].c
        iv = IV("e%d" % ax)
        while any(iv in d.ivs for d in dims):
            iv = IV(iv.name + "_")
        new = []
        for j in range(0, len(comps), n):
            grp = comps[j:j + n]
            new.append(E.pick(iv, grp) if n != 1 else grp[0])
        comps = new
        if n != 1:
            dims[ax] = Dim(dims[ax].size, (iv,))
    return Tensor(dims, comps, 0, t.roots, t.dtype, t.dev, t.deps, t.view, t.tag)


def regen(t):
    """enumerate the trailing constant dims"""
    if t.k:
        return t
    k = T.maxk(t.shape)
    if k == 0:
        return t
    nd = len(t.shape)
    dims = list(t.shape)
    tail = dims[nd - k:]
    comps = []
    for idx in itertools.product(*[range(d.c) for d in tail]):
        m = {}
        for d, i in zip(tail, idx):
            if len(d.ivs) == 1:
                m[d.ivs[0]] = IV("k", E.const(i))
            elif len(d.ivs) > 1:
                szs = [IVSZ.get(v) for v in d.ivs]
                cs = [None if s is None else E.cval(s) for s in szs]
                if any(c is None for c in cs):
                    return t
                r = i
                for v, c in zip(reversed(d.ivs), reversed(cs)):
                    m[v] = IV("k", E.const(r % int(c)))
                    r //= int(c)
        comps.append(T.rename(t.comps, m)[0])
    for i in range(nd - k, nd):
        dims[i] = Dim(dims[i].size)
    return Tensor(dims, comps, k, t.roots, t.dtype, t.dev, t.deps, t.view, t.tag)


def getT(I, v):
    r = T.as_tensor(I, v)
    return r[0] if r else None


def unknown(I, name, args, kw, dtype=None, keep_dtype=True, shape=None, roots=NOROOT, view=None, isint=False,
            lo=-E.INF, hi=E.INF):
    deps = NOROOT
    dev = None
    dt = dtype
    for a in list(args) + list(kw.values()):
        deps = deps | I.deps(a)
        t = I.tensor(a) if not isinstance(a, Choice) else None
        c = I.deref(a) if t is None and isinstance(a, V) else None
        if isinstance(c, (Tup, Lst)) and c.items:
            ts = [I.tensor(I.resolve(x)) for x in c.items]
            if all(q is not None for q in ts):
                ts = [q for q in ts if q.shape is None or len(q.shape)] or ts
                if all(q.dev == ts[0].dev for q in ts) and dev is None:
                    dev = ts[0].dev
                if all(q.dtype == ts[0].dtype for q in ts) and dt is None and keep_dtype:
                    dt = ts[0].dtype
        if t is not None:
            if dev is None:
                dev = t.dev
            if dt is None and keep_dtype:
                dt = t.dtype
    o = T.opaque(I, name, shape, [I.vn(a) for a in args] + [(k, I.vn(v)) for k, v in sorted(kw.items())
                                                           if k not in ("device", "dtype", "out")],
                 dt, dev, deps, roots, isint=isint, lo=lo, hi=hi)
    o.view = view
    return I.newloc(o)


# ------------------------------------------------------------------ elementwise
def unary(name, f, dtype=None, floaty=False):
    def g(I, args, kw, node):
        x = args[0]
        t = getT(I, x)
        dt = dtype
        if floaty and t is not None and t.dtype is not None and T.cat_of(t.dtype) in (0, 1):
            dt = "DEF"
        if t is not None and T.cat_of(t.dtype) == 3 and name not in ("neg",):
            d2 = {"cIN": "IN", "c64": "f32", "c128": "f64", "cDEF": "DEF"}.get(t.dtype) if name == "abs" else None
            return T.ew(I, name, lambda n: E.fn("c:" + name, n), [x], node, d2 or dt)
        if name in SINKS and t is not None and t.dtype not in ("cIN",):
            T.sink(I, name, node, t.comps, dtype=t.dtype)
        r = T.ew(I, name, f, [x], node, dt)
        if "out" in kw:
            pass
        return r
    return g


SINKS = {"acos", "asin", "sqrt", "rsqrt", "log", "log2", "log10", "log1p", "reciprocal", "atanh", "acosh"}


def opq(name, lo=-E.INF, hi=E.INF, isint=False):
    def f(n):
        c = E.cval(n)
        return E.fn(name, n, lo=lo, hi=hi, isint=isint)
    return f


def _round(n):
    c = E.cval(n)
    if c is not None:
        return E.const(round(c))
    return E.fn("round", n, isint=True)


UN = {
    "neg": E.neg, "pos": lambda n: n, "abs": E.abs_, "absolute": E.abs_,
    "sqrt": E.sqrt, "rsqrt": lambda n: E.pow_c(n, -HALF), "reciprocal": E.inv,
    "exp": E.exp, "expm1": lambda n: E.sub(E.exp(n), E.ONE), "log": E.log,
    "log1p": lambda n: E.log(E.add(n, E.ONE)),
    "log2": lambda n: E.mul(E.log(n), E.const(1 / math.log(2))),
    "log10": lambda n: E.mul(E.log(n), E.const(1 / math.log(10))),
    "sin": E.sin, "cos": E.cos, "tan": E.tan, "asin": E.asin, "acos": E.acos, "atan": E.atan,
    "sinh": lambda n: E.mul(E.const(.5), E.sub(E.exp(n), E.exp(E.neg(n)))),
    "cosh": lambda n: E.mul(E.const(.5), E.add(E.exp(n), E.exp(E.neg(n)))),
    "tanh": opq("tanh", -1, 1), "sigmoid": opq("sigmoid", 0, 1),
    "floor": E.floor, "ceil": lambda n: E.neg(E.floor(E.neg(n))),
    "round": _round, "trunc": opq("trunc", isint=True), "sign": E.sgn, "sgn": E.sgn,
    "square": lambda n: E.mul(n, n),
    "deg2rad": lambda n: E.mul(n, E.const(math.pi / 180)), "rad2deg": lambda n: E.mul(n, E.const(180 / math.pi)),
    "lgamma": opq("lgamma"), "erf": opq("erf", -1, 1), "conj": lambda n: E.fn("conj", n),
    "frac": opq("frac"), "relu": lambda n: E.max_(n, E.ZERO), "erfc": opq("erfc", 0, 2), "i0": opq("i0"),
    "angle": opq("angle"), "atanh": opq("atanh"), "acosh": opq("acosh"), "asinh": opq("asinh"),
    "nan_to_num": opq("nan_to_num"), "sinc": opq("sinc"), "exp2": lambda n: E.exp(E.mul(n, E.const(math.log(2)))),
    "resolve_conj": lambda n: n,
}
ALIAS = {"arccos": "acos", "arcsin": "asin", "arctan": "atan", "negative": "neg", "fabs": "abs"}
INTKEEP = {"neg", "pos", "abs", "absolute", "floor", "ceil", "round", "trunc", "sign", "square", "relu", "conj", "resolve_conj"}
for _n, _f in UN.items():
    OPS[_n] = unary(_n, _f, floaty=_n not in INTKEEP)
for _n, _m in ALIAS.items():
    OPS[_n] = OPS[_m]
for _n in ("isnan", "isinf", "isfinite"):
    OPS[_n] = (lambda nm: (lambda I, a, k, n: T.ew(I, nm, lambda x: E.bool_atom(nm, x) if E.cval(x) is None
                                                   else (E.ZERO if nm != "isfinite" else E.ONE), [a[0]], n, "bool")))(_n)


@op("real")
def _real(I, a, k, n):
    t = getT(I, a[0])
    if t is not None and T.cat_of(t.dtype) == 3:
        return T.tensor_attr(I, a[0], t, "real", n)
    return a[0]


@op("imag")
def _imag(I, a, k, n):
    t = getT(I, a[0])
    if t is not None:
        return T.tensor_attr(I, a[0], t, "imag", n)
    return unknown(I, "imag", a, k)


@op("logical_not", "bitwise_not")
def _lnot(I, a, k, n):
    t = getT(I, a[0])
    if t is not None and t.dtype in T.INTS:
        return T.ew(I, "bnot", lambda x: E.sub(E.const(-1), x), [a[0]], n)
    return T.ew(I, "not", lambda x: E.not_(x), [a[0]], n, "bool")


def binary(name, f, dtype=None, floaty=False):
    def g(I, args, kw, node):
        a, b = args[0], args[1]
        dt = dtype
        ta, tb = getT(I, a), getT(I, b)
        if name == "div" and tb is not None:
            T.sink(I, "div", node, tb.comps, num=ta.comps if ta is not None else None, dtype=tb.dtype)
        if name in ("add", "sub") and "alpha" in kw:
            b = OPS["mul"](I, [b, kw["alpha"]], {}, node)
        if name == "div" and "rounding_mode" in kw:
            rm = I.resolve(kw["rounding_mode"])
            if isinstance(rm, Const) and rm.v == "floor":
                return OPS["floor_divide"](I, [a, b], {}, node)
            if isinstance(rm, Const) and rm.v == "trunc":
                return T.ew(I, "tdiv", lambda x, y: E.fn("trunc", E.div(x, y), isint=True), [a, b], node)
        if floaty and ta is not None and tb is not None and T.cat_of(ta.dtype) in (0, 1) and T.cat_of(tb.dtype) in (0, 1):
            dt = "DEF"
        return T.ew(I, name, f, [a, b], node, dt)
    return g


def _fmod(x, y):
    cx, cy = E.cval(x), E.cval(y)
    if cx is not None and cy:
        return E.const(math.fmod(cx, cy))
    return E.fn("fmod", x, y)


def _rem(x, y):
    cx, cy = E.cval(x), E.cval(y)
    if cx is not None and cy:
        return E.const(cx % cy)
    lo, hi = -E.INF, E.INF
    if cy is not None and cy > 0:
        lo, hi = 0, cy
    return E.fn("mod", x, y, lo=lo, hi=hi)


def _pow(x, y):
    return T.powf(x, y)


BIN = {"add": (E.add, None, 0), "sub": (E.sub, None, 0), "mul": (E.mul, None, 0), "div": (E.div, None, 1),
       "pow": (_pow, None, 0), "atan2": (E.atan2, None, 1), "fmod": (_fmod, None, 0), "remainder": (_rem, None, 0),
       "floor_divide": (lambda x, y: E.floor(E.div(x, y)), None, 0),
       "maximum": (E.max_, None, 0), "minimum": (E.min_, None, 0), "fmax": (E.max_, None, 0), "fmin": (E.min_, None, 0),
       "lt": (E.lt, "bool", 0), "le": (E.le, "bool", 0), "gt": (E.gt, "bool", 0), "ge": (E.ge, "bool", 0),
       "eq": (E.eq, "bool", 0), "ne": (E.ne, "bool", 0),
       "logical_and": (E.and_, "bool", 0), "logical_or": (E.or_, "bool", 0),
       "logical_xor": (lambda x, y: E.ne(E.to_bool(x), E.to_bool(y)), "bool", 0),
       "copysign": (E.copysign, None, 1),
       "hypot": (lambda x, y: E.sqrt(E.add(E.mul(x, x), E.mul(y, y))), None, 1),
       "complex": (lambda x, y: E.fn("complex", x, y), None, 0),
       "polar": (lambda x, y: E.fn("polar", x, y), None, 0)}
for _n, (_f, _d, _fl) in BIN.items():
    OPS[_n] = binary(_n, _f, _d, bool(_fl))
for _a, _b in {"multiply": "mul", "divide": "div", "true_divide": "div", "subtract": "sub", "arctan2": "atan2",
               "greater": "gt", "less": "lt", "greater_equal": "ge", "less_equal": "le", "not_equal": "ne"}.items():
    OPS[_a] = OPS[_b]


@op("complex", "polar")
def _complex(I, a, k, n):
    ta, tb = getT(I, a[0]), getT(I, a[1])
    if ta is not None and tb is not None and ta.dtype and tb.dtype and (
            T.cat_of(ta.dtype) == 3 or T.cat_of(tb.dtype) == 3):
        I.ev("type_error", n, what="torch.complex on a complex operand")
    r = T.ew(I, "complex", lambda x, y: E.fn("complex", x, y), [a[0], a[1]], n)
    t = I.tensor(r)
    dt = {"IN": "cIN", "f64": "c128", "f32": "c64", "DEF": "cDEF"}.get(t.dtype, t.dtype)
    I.store[r.loc] = t.but(dtype=dt)
    return r


def bitop(name, fb):
    def g(I, a, k, n):
        ta, tb = getT(I, a[0]), getT(I, a[1])
        if ta is not None and tb is not None and (ta.dtype in ("bool", None) and tb.dtype in ("bool", None)):
            return T.ew(I, name, lambda x, y: fb(x, y), a[:2], n, "bool" if ta.dtype == tb.dtype == "bool" else None)
        return T.ew(I, name, lambda x, y: E.fn(name, x, y, isint=True), a[:2], n)
    return g


OPS["bitand"] = OPS["bitwise_and"] = bitop("bitand", lambda x, y: E.and_(x, y))
OPS["bitor"] = OPS["bitwise_or"] = bitop("bitor", lambda x, y: E.or_(x, y))
OPS["bitxor"] = OPS["bitwise_xor"] = bitop("bitxor", lambda x, y: E.ne(E.to_bool(x), E.to_bool(y)))
OPS["rsub"] = lambda I, a, k, n: OPS["sub"](I, [a[1], a[0]], k, n)


def _shift(sign):
    def g(I, a, k, n):
        return T.ew(I, "shift", lambda x, y: E.mul(x, E.const(2.0 ** (sign * E.cval(y)))) if sign > 0 and E.cval(y) is not None
                    else (E.floor(E.mul(x, E.const(2.0 ** (sign * E.cval(y))))) if E.cval(y) is not None
                          else E.fn("shift%d" % sign, x, y)), a[:2], n)
    return g


OPS["lshift"], OPS["rshift"] = _shift(1), _shift(-1)


@op("where")
def _where(I, a, k, n):
    if len(a) == 1:
        return nonzero(I, a, k, n, True)
    x, y = T.kwarg(a, k, 1, "self" if "self" in k else "input"), T.kwarg(a, k, 2, "other")
    c = a[0]
    ts = [T.as_tensor(I, v) for v in (x, y)]
    dt = None
    if all(t is not None for t in ts):
        dt = T.promote([(t.dtype, l) for t, l in ts])
        tx, ty = ts[0], ts[1]
        for (p, lp), (q, lq) in ((tx, ty), (ty, tx)):
            pass
    ct = getT(I, c)
    return T.ew(I, "where", lambda cc, p, q: E.ite(E.to_bool(cc), p, q), [c, x, y], n, dt)


@op("clamp", "clip")
def _clamp(I, a, k, n):
    lo, hi = T.kwarg(a, k, 1, "min"), T.kwarg(a, k, 2, "max")
    r = a[0]
    t0 = getT(I, r)
    if T.isnone(lo) and T.isnone(hi):
        return r
    vals = [r]
    fl = []
    if not T.isnone(lo):
        vals.append(lo)
        fl.append("lo")
    if not T.isnone(hi):
        vals.append(hi)
        fl.append("hi")

    def f(x, *b):
        b = list(b)
        if "lo" in fl:
            x = E.max_(x, b.pop(0))
        if "hi" in fl:
            x = E.min_(x, b.pop(0))
        return x
    return T.ew(I, "clamp", f, vals, n)


@op("clamp_min")
def _cmin(I, a, k, n):
    return _clamp(I, [a[0]], {"min": T.kwarg(a, k, 1, "min")}, n)


@op("clamp_max")
def _cmax(I, a, k, n):
    return _clamp(I, [a[0]], {"max": T.kwarg(a, k, 1, "max")}, n)


@op("lerp")
def _lerp(I, a, k, n):
    return T.ew(I, "lerp", lambda x, y, w: E.add(x, E.mul(w, E.sub(y, x))), a[:3], n)


@op("addcmul")
def _addcmul(I, a, k, n):
    return T.ew(I, "addcmul", lambda x, y, z: E.add(x, E.mul(y, z)), a[:3], n)


@op("masked_fill")
def _mfill(I, a, k, n):
    x, m, v = a[0], T.kwarg(a, k, 1, "mask"), T.kwarg(a, k, 2, "value")
    t = getT(I, x)
    return T.ew(I, "masked_fill", lambda p, c, w: E.ite(E.to_bool(c), w, p), [x, m, v], n, t.dtype if t else None)


# ------------------------------------------------------------------ casting
def cast(I, x, dt, node, dev=None, copy=False, how="to"):
    x = I.resolve(x)
    t = I.tensor(x)
    if t is None:
        c = I.deref(x)
        if isinstance(c, Num):
            return x
        return Any(I.deps(x), I.roots(x), tag=("cast", I.vn(x), dt))
    nd = t.dtype if dt is None else dt
    ndev = t.dev if dev is None else dev
    if dt is not None and t.dtype in ("IN", "cIN") and nd in ("f32", "f16", "DEF", "c64", "cDEF", "bf16"):
        I.ev("downcast", node, into=nd, frm=t.dtype, how=how)
    if dt is not None and t.dtype == "f64" and nd in ("f32", "f16", "DEF"):
        I.ev("downcast64", node, into=nd, frm=t.dtype, how=how)
    if dt is not None and t.dtype in ("DEF", "f32") and t.dev != "PY" and T.variable_type(nd) and T.inexact(t):
        I.ev("dtype_mix", node, what="conversion of rounded values to the type of the data", other=t.dtype)
    if dt is not None and t.dtype in ("IN",) and nd == "f64":
        I.ev("upcast", node, into=nd, frm=t.dtype)
    comps = t.comps
    if dt is not None and T.cat_of(nd) == 1 and T.cat_of(t.dtype) == 2:
        comps = [_trunc(c) for c in comps]
        I.ev("toint", node, into=nd, _args=tuple(t.comps), key=tuple(c.id for c in t.comps))
    if dt is not None and nd == "bool" and t.dtype != "bool":
        comps = [E.to_bool(c) for c in comps]
    # float32/f16 round-trips keep the value (rounding ignored in the value graph)
    roots = t.roots if not copy else NOROOT
    view = (x.loc, tuple(range(len(t.comps)))) if (not copy and isinstance(x, Ref)) else None
    if dt is not None and t.dtype is not None and nd is not None and nd != t.dtype and not (
            {nd, t.dtype} <= {"IN", "DEF", "f32", "f64", "f16"} and ("IN" in (nd, t.dtype) or "DEF" in (nd, t.dtype))):
        roots, view = NOROOT, None     # different dtype always copies
    return I.newloc(Tensor(t.shape, comps, t.k, roots, nd, ndev, t.deps, view, t.tag))


def _trunc(c):
    v = E.cval(c)
    if v is not None:
        return E.const(math.trunc(v))
    if c.leaf is not None and all(all(a.isint and isinstance(e, int) and e > 0 for a, e in m) and cc == round(cc)
                                  for m, cc in c.leaf.terms):
        return c
    lo, hi = rng(c)
    if lo >= 0:
        return E.floor(c)
    return E.fn("trunc", c, isint=True, lo=math.trunc(lo) if lo > -E.INF else lo, hi=math.trunc(hi) if hi < E.INF else hi)


def rng(n):
    """range of a node with path refinement"""
    lo, hi = E.INF, -E.INF
    for cs, p in E.leaves(n)[:400]:
        a, b = leaf_range(p, cs)
        if a > b:
            continue
        lo, hi = min(lo, a), max(hi, b)
    if lo > hi:
        return -E.INF, E.INF
    return lo, hi


def leaf_range(p, cs):
    a, b = E.prange(p)
    for q, s in cs:
        # p = alpha*q + beta ?
        if p.const is not None:
            break
        al = None
        m, c = q.terms[-1]
        for m2, c2 in p.terms:
            if m2 == m:
                al = c2 / c
        if al is None:
            continue
        try:
            d = E.padd(p, q, -al)
        except E.TooBig:
            continue
        be, be2 = E.prange(d)
        if be != be2 and not (be > -E.INF or be2 < E.INF):
            continue
        if s == 0:
            a, b = max(a, be), min(b, be2)
        elif (s > 0) == (al > 0):
            a = max(a, be)
        else:
            b = min(b, be2)
    return a, b


def dtype_of(I, v):
    v = I.resolve(v)
    if isinstance(v, DType):
        return v.label if v.label is not None else "?"
    if isinstance(v, Ext) and v.path in ("builtins.float",):
        return "f64"
    if isinstance(v, Ext) and v.path in ("builtins.int",):
        return "i64"
    if isinstance(v, Ext) and v.path in ("builtins.bool",):
        return "bool"
    return None


def dev_of(I, v):
    v = I.resolve(v)
    if isinstance(v, Device):
        return v.label if v.label is not None else "?"
    if isinstance(v, Const) and isinstance(v.v, str):
        return "CPU" if v.v == "cpu" else ("cuda" if v.v.startswith("cuda") else None)
    if isinstance(v, Str):
        return "ARG:" + v.name
    if isinstance(v, Const) and v.v is None:
        return None
    return "?"


@op("to", "type")
def _to(I, a, k, n):
    x = a[0]
    dt = dev = None
    setd = False
    for v in list(a[1:]) + [k[q] for q in ("dtype", "device", "other") if q in k]:
        v = I.resolve(v)
        t = I.tensor(v)
        if t is not None:
            dt, dev = t.dtype, t.dev or "?"
            if t.dtype is None:
                setd = True
            continue
        d = dtype_of(I, v)
        if d is not None:
            dt = d
            continue
        e = dev_of(I, v)
        if isinstance(v, (Device, Str, Any, Choice)) or (isinstance(v, Const) and isinstance(v.v, str)):
            dev = e if e is not None else "?"
    r = cast(I, x, None if dt in (None, "?") else dt, n, None if dev in (None, "?") else dev, how="to")
    t = I.tensor(r)
    if t is not None and (dt == "?" or dev == "?" or setd):
        nt = t.but()
        if dt == "?" or setd:
            nt.dtype = None
        if dev == "?":
            nt.dev = None
        I.store[r.loc] = nt
    return r


def _mkcast(dt):
    return lambda I, a, k, n: cast(I, a[0], dt, n, how="method")


for _n, _d in {"float": "f32", "double": "f64", "half": "f16", "int": "i32", "long": "i64", "short": "i16",
               "byte": "u8", "bool": "bool", "cfloat": "c64", "cdouble": "c128", "bfloat16": "bf16"}.items():
    OPS["m:" + _n] = _mkcast(_d)


@op("type_as", "view_as_dtype")
def _type_as(I, a, k, n):
    o = getT(I, a[1])
    return cast(I, a[0], o.dtype if o else None, n)


@op("cpu")
def _cpu(I, a, k, n):
    return cast(I, a[0], None, n, "CPU")


@op("cuda")
def _cuda(I, a, k, n):
    return cast(I, a[0], None, n, "cuda")


def alias(I, x, **kw):
    x = I.resolve(x)
    t = I.tensor(x)
    if t is None:
        return x
    return I.newloc(t.but(view=(x.loc, tuple(range(len(t.comps)))), **kw))


@op("contiguous", "detach", "requires_grad_", "view_as_self", "pin_memory", "share_memory_", "numpy", "coalesce",
    "to_dense", "__array__")
def _ident(I, a, k, n):
    return alias(I, a[0])


@op("clone", "copy")
def _clone(I, a, k, n):
    x = I.resolve(a[0])
    t = I.tensor(x)
    if t is None:
        return x
    return I.newloc(t.but(roots=NOROOT, view=None))


@op("item")
def _item(I, a, k, n):
    t = getT(I, a[0])
    if t is not None and len(t.comps) == 1 and (t.shape is None or all(d.c == 1 for d in t.shape)):
        return Num(t.comps[0], t.dtype in T.INTS, t.dtype == "bool", t.deps)
    if t is not None:
        return Num(E.fn("item", T.closed_vn(t)), t.dtype in T.INTS, t.dtype == "bool", t.deps)
    return Any(I.deps(a[0]), tag=("item", I.vn(a[0])))


@op("tolist")
def _tolist(I, a, k, n):
    t = getT(I, a[0])
    if t is not None and t.shape is not None and len(t.shape) == 1 and t.k == 1:
        return I.newloc(Lst([Num(c, t.dtype in T.INTS, deps=t.deps) for c in t.comps]))
    return Any(I.deps(a[0]), tag=("tolist", I.vn(a[0])))


@op("size")
def _size(I, a, k, n):
    t = I.tensor(I.resolve(a[0]))
    d = T.kwarg(a, k, 1, "dim")
    if t is None or t.shape is None:
        return Any(tag=("size", I.vn(a[0]), I.vn(d) if d else None))
    if d is None:
        return T.tensor_attr(I, a[0], t, "shape", n)
    c = T.toint(I, d)
    if c is None:
        return Any(tag="size?")
    if not -len(t.shape) <= c < len(t.shape):
        I.ev("shape_error", n, what="size(%d) of a %d-d tensor" % (c, len(t.shape)), sym=False)
        return Any(tag="size?")
    return T.dimnum(t.shape[c])


@op("dim", "ndimension")
def _dim(I, a, k, n):
    t = getT(I, a[0])
    if t is None or t.shape is None:
        return Num(E.fn("ndim", I.vn(a[0]), isint=True, lo=0), True)
    return Num(len(t.shape))


@op("numel", "nelement")
def _numel(I, a, k, n):
    t = getT(I, a[0])
    if t is None or t.shape is None:
        return Num(E.fn("numel", I.vn(a[0]), isint=True, lo=0), True)
    return Num(numel(t.shape), True)


@op("is_floating_point", "is_complex", "is_contiguous", "is_nonzero", "is_cuda", "equal", "allclose", "is_tensor")
def _isfp(I, a, k, n):
    return Num(E.bool_atom("pred", *[I.vn(x) for x in a]), isbool=True)


def numel(shape):
    r = E.ONE
    for d in shape:
        r = E.mul(r, d.size)
    return r


# ------------------------------------------------------------------ dims
def normdim(I, t, v, node, extra=0):
    c = T.toint(I, v) if not isinstance(v, int) else v
    if c is None:
        return None
    nd = len(t.shape) + extra
    if not -max(nd, 1) <= c < max(nd, 1):
        I.ev("shape_error", node, what="dimension %d out of range for a %d-d tensor" % (c, nd), sym=False)
        return None
    return c % nd if nd else 0


def shape_args(I, a):
    """list of Num from *sizes or a sequence; None when unknown"""
    if len(a) == 1:
        c = I.deref(I.resolve(a[0]))
        if isinstance(c, (Tup, Lst)):
            if c.items is None:
                return None
            a = c.items
        elif isinstance(c, Any) or isinstance(c, Choice) or isinstance(c, USeq):
            return None
    out = []
    for x in a:
        x = I.resolve(x)
        if isinstance(x, Num):
            out.append(x.n)
        else:
            t = I.tensor(x)
            if t is not None and len(t.comps) == 1:
                out.append(t.comps[0])
            else:
                return None
    return out


@op("reshape", "view")
def _reshape(I, a, k, n):
    x = I.resolve(a[0])
    t = I.tensor(x)
    rest = a[1:]
    if "shape" in k:
        rest = [k["shape"]]
    if t is None:
        return unknown(I, "reshape", a, k)
    if len(rest) == 1 and isinstance(I.resolve(rest[0]), DType):
        return unknown(I, "viewdtype", a, k, dtype=I.resolve(rest[0]).label)
    sizes = shape_args(I, rest)
    if sizes is None:
        o = Tensor(None, [E.fn("reshape", T.closed_vn(t), *[I.vn(r) for r in rest])], roots=t.roots, dtype=t.dtype,
                   dev=t.dev, deps=t.deps, view=(x.loc, None))
        return I.newloc(o)
    return I.newloc(reshape_t(I, t, sizes, n, x.loc))


def reshape_t(I, t, sizes, node, loc=None):
    sizes = list(sizes)
    neg = [i for i, s in enumerate(sizes) if E.cval(s) == -1]
    if t.shape is None:
        if neg:
            dims = None
            # unknown source: sizes known except -1
            sizes[neg[0]] = E.fn("infer", T.closed_vn(t), *[s for i, s in enumerate(sizes) if i != neg[0]], lo=0, isint=True)
        o = T.opaque(I, "reshape", sizes, (T.closed_vn(t),), t.dtype, t.dev, t.deps, t.roots)
        o.view = (loc, None) if loc else None
        return o
    total = numel(t.shape)
    if neg:
        oth = E.ONE
        for i, s in enumerate(sizes):
            if i != neg[0]:
                oth = E.mul(oth, s)
        q = E.div(total, oth) if E.cval(oth) != 0 else E.ZERO
        cq = E.cval(q)
        if cq is not None and cq != round(cq):
            I.ev("shape_error", node, what="reshape: %s elements do not divide into the given shape" % total, sym=False)
        elif cq is None and q.leaf is not None and any(abs(c - round(c)) > 1e-9 for m, c in q.leaf.terms):
            I.ev("shape_error", node, what="reshape: %r elements do not divide into %s" % (total, sizes), sym=T.symk(q, total))
        sizes[neg[0]] = q
    else:
        prod = E.ONE
        for s in sizes:
            prod = E.mul(prod, s)
        if prod is not total:
            d = E.sub(prod, total)
            cd = E.cval(d)
            I.ev("shape_error", node, what="reshape of %r elements to %r elements" % (total, prod),
                 sym=T.symk(prod, total))
            o = T.opaque(I, "reshape", sizes, (T.closed_vn(t),), t.dtype, t.dev, t.deps, t.roots)
            return o
    # fast path: same block
    new = [Dim(s) for s in sizes]
    bs = T.blocksize(t.shape, t.k)
    kk = 0
    p = 1
    while kk < len(new) and new[len(new) - 1 - kk].c is not None and p * new[len(new) - 1 - kk].c <= bs:
        p *= new[len(new) - 1 - kk].c
        kk += 1
    while kk > 0 and p != bs:
        kk -= 1
        p //= max(new[len(new) - 1 - kk].c, 1)
        if p == 0:
            break
    lead_old = t.shape[: len(t.shape) - t.k]
    if p == bs:
        r = regroup(lead_old, new[: len(new) - kk])
        if r is not None:
            return Tensor(r + new[len(new) - kk:], t.comps, kk, t.roots, t.dtype, t.dev, t.deps,
                          (loc, tuple(range(len(t.comps)))) if loc else None, t.tag)
    g = degen(t)
    r = regroup(g.shape, new)
    if r is None:
        o = T.opaque(I, "reshape", sizes, (T.closed_vn(t),), t.dtype, t.dev, t.deps, t.roots)
        o.view = (loc, None) if loc else None
        return o
    return regen(Tensor(r, g.comps, 0, t.roots, t.dtype, t.dev, t.deps, (loc, None) if loc else None))


_DUM = [0]


def regroup(old, new):
    """distribute the index variables of dims `old` over dims `new` (sizes), or None"""
    units = []
    for d in old:
        if d.c == 1:
            continue
        if len(d.ivs) == 1:
            IVSZ[d.ivs[0]] = d.size
            units.append((d.ivs[0], d.size, d.sel))
        elif len(d.ivs) == 0:
            _DUM[0] += 1
            v = IV("u%d" % _DUM[0])
            IVSZ[v] = d.size
            units.append((v, d.size, None))
        else:
            szs = [IVSZ.get(v) for v in d.ivs]
            if any(s is None for s in szs):
                units.append((d.ivs, d.size, d.sel))
            else:
                pr = E.ONE
                for s in szs:
                    pr = E.mul(pr, s)
                if pr is not d.size:
                    units.append((d.ivs, d.size, d.sel))
                else:
                    units += [(v, s, None) for v, s in zip(d.ivs, szs)]
    out = []
    j = 0
    for d in new:
        if d.c == 1:
            out.append(Dim(1))
            continue
        ivs = []
        pr = E.ONE
        sel = None
        while pr is not d.size and j < len(units):
            v, s, sl = units[j]
            ivs += list(v) if isinstance(v, tuple) else [v]
            pr = E.mul(pr, s)
            sel = sl
            j += 1
        if pr is not d.size:
            return None
        out.append(Dim(d.size, ivs, sel if len(ivs) == 1 else None))
    return out if j == len(units) else None


@op("flatten")
def _flatten(I, a, k, n):
    x = I.resolve(a[0])
    t = I.tensor(x)
    if t is None or t.shape is None:
        return unknown(I, "flatten", a, k, roots=t.roots if t else NOROOT)
    s = T.toint(I, T.kwarg(a, k, 1, "start_dim", Num(0)))
    e = T.toint(I, T.kwarg(a, k, 2, "end_dim", Num(-1)))
    nd = len(t.shape)
    if nd == 0:
        return I.newloc(reshape_t(I, t, [E.ONE], n, x.loc))
    s, e = s % nd, e % nd
    sz = [d.size for d in t.shape[:s]] + [numel(t.shape[s:e + 1])] + [d.size for d in t.shape[e + 1:]]
    return I.newloc(reshape_t(I, t, sz, n, x.loc))


OPS["ravel"] = lambda I, a, k, n: _flatten(I, a[:1], {}, n)


@op("unflatten")
def _unflatten(I, a, k, n):
    return unknown(I, "unflatten", a, k)


@op("unsqueeze")
def _unsqueeze(I, a, k, n):
    x = I.resolve(a[0])
    t = I.tensor(x)
    if t is None or t.shape is None:
        return unknown(I, "unsqueeze", a, k, roots=t.roots if t else NOROOT, view=(x.loc, None) if t else None)
    d = normdim(I, t, T.kwarg(a, k, 1, "dim"), n, 1)
    if d is None:
        return unknown(I, "unsqueeze", a, k)
    dims = list(t.shape)
    dims.insert(d, Dim(1))
    kk = t.k + (1 if d >= len(t.shape) - t.k else 0)
    return I.newloc(Tensor(dims, t.comps, kk, t.roots, t.dtype, t.dev, t.deps, (x.loc, tuple(range(len(t.comps))))))


@op("squeeze")
def _squeeze(I, a, k, n):
    x = I.resolve(a[0])
    t = I.tensor(x)
    if t is None or t.shape is None:
        return unknown(I, "squeeze", a, k, roots=t.roots if t else NOROOT, view=(x.loc, None) if t else None)
    dv = T.kwarg(a, k, 1, "dim")
    nd = len(t.shape)
    if dv is None:
        drop = [i for i, d in enumerate(t.shape) if d.c == 1]
        I.ev("squeeze_all", n, dims=repr(t.shape), symbolic=any(d.c is None for d in t.shape))
    else:
        c = I.deref(I.resolve(dv))
        ds = [dv] if isinstance(c, Num) else (c.items if isinstance(c, (Tup, Lst)) else None)
        if ds is None:
            return unknown(I, "squeeze", a, k)
        drop = []
        for q in ds:
            d = normdim(I, t, q, n)
            if d is None:
                return unknown(I, "squeeze", a, k)
            if t.shape[d].c == 1:
                drop.append(d)
    dims = [d for i, d in enumerate(t.shape) if i not in drop]
    kk = t.k - sum(1 for i in drop if i >= nd - t.k)
    return I.newloc(Tensor(dims, t.comps, kk, t.roots, t.dtype, t.dev, t.deps, (x.loc, tuple(range(len(t.comps))))))


def permute_t(I, t, order, loc=None):
    nd = len(t.shape)
    kb = nd - t.k
    if order[:kb] == list(range(kb)):
        # permutation inside the block
        blk = [t.shape[i].c for i in range(kb, nd)]
        nb = [t.shape[i] for i in order[kb:]]
        strides = {}
        s = 1
        for i in range(nd - 1, kb - 1, -1):
            strides[i] = s
            s *= t.shape[i].c
        imap = []
        for idx in itertools.product(*[range(d.c) for d in nb]):
            imap.append(sum(strides[o] * j for o, j in zip(order[kb:], idx)))
        return Tensor(list(t.shape[:kb]) + nb, [t.comps[i] for i in imap], t.k, t.roots, t.dtype, t.dev, t.deps,
                      (loc, tuple(imap)) if loc else None)
    g = degen(t)
    return regen(Tensor([g.shape[i] for i in order], g.comps, 0, t.roots, t.dtype, t.dev, t.deps,
                        (loc, None) if loc else None))


@op("permute")
def _permute(I, a, k, n):
    x = I.resolve(a[0])
    t = I.tensor(x)
    rest = a[1:] if "dims" not in k else [k["dims"]]
    o = shape_args(I, rest)
    if t is None or t.shape is None or o is None:
        return unknown(I, "permute", a, k, roots=t.roots if t else NOROOT, view=(x.loc, None) if t else None)
    o = [int(E.cval(q)) if E.cval(q) is not None else None for q in o]
    nd = len(t.shape)
    if len(o) != nd or sorted(q % nd for q in o) != list(range(nd)):
        I.ev("shape_error", n, what="permute%s of a %d-d tensor" % (tuple(o), nd), sym=False)
        return unknown(I, "permute", a, k)
    return I.newloc(permute_t(I, t, [q % nd for q in o], x.loc))


@op("transpose", "swapdims", "swapaxes")
def _transpose(I, a, k, n):
    x = I.resolve(a[0])
    t = I.tensor(x)
    if t is None or t.shape is None:
        return unknown(I, "transpose", a, k, roots=t.roots if t else NOROOT, view=(x.loc, None) if t else None)
    d0 = normdim(I, t, T.kwarg(a, k, 1, "dim0"), n)
    d1 = normdim(I, t, T.kwarg(a, k, 2, "dim1"), n)
    if d0 is None or d1 is None:
        return unknown(I, "transpose", a, k)
    o = list(range(len(t.shape)))
    o[d0], o[d1] = o[d1], o[d0]
    return I.newloc(permute_t(I, t, o, x.loc))


@op("t", "mT", "adjoint")
def _t(I, a, k, n):
    t = getT(I, a[0])
    if t is not None and t.shape is not None and len(t.shape) < 2:
        return a[0]
    if t is not None and t.shape is not None and len(t.shape) >= 2:
        return _transpose(I, [a[0], Num(-2), Num(-1)], {}, n)
    return unknown(I, "transpose2", a, k, roots=t.roots if t else NOROOT)


@op("movedim", "moveaxis")
def _movedim(I, a, k, n):
    x = I.resolve(a[0])
    t = I.tensor(x)
    if t is None or t.shape is None:
        return unknown(I, "movedim", a, k, roots=t.roots if t else NOROOT)
    s, d = T.kwarg(a, k, 1, "source"), T.kwarg(a, k, 2, "destination")
    s, d = normdim(I, t, s, n), normdim(I, t, d, n)
    if s is None or d is None:
        return unknown(I, "movedim", a, k)
    o = [i for i in range(len(t.shape)) if i != s]
    o.insert(d, s)
    return I.newloc(permute_t(I, t, o, x.loc))


@op("expand", "broadcast_to")
def _expand(I, a, k, n):
    x = I.resolve(a[0])
    t = I.tensor(x)
    sz = shape_args(I, a[1:])
    if t is None or t.shape is None or sz is None:
        return unknown(I, "expand", a, k, roots=t.roots if t else NOROOT, view=(x.loc, None) if t else None)
    return I.newloc(expand_t(I, t, sz, n, x.loc))


def expand_t(I, t, sz, n, loc):
    nd = len(t.shape)
    if len(sz) < nd:
        I.ev("shape_error", n, what="expand to fewer dims", sym=False)
        return T.opaque(I, "expand", sz, (T.closed_vn(t),), t.dtype, t.dev, t.deps, t.roots)
    dims = []
    for i, s in enumerate(sz):
        j = i - (len(sz) - nd)
        if j < 0:
            dims.append(Dim(s))
            continue
        d = t.shape[j]
        if E.cval(s) == -1 or d.size is s:
            dims.append(d)
        elif d.c == 1:
            dims.append(Dim(s))
        else:
            I.ev("shape_error", n, what="expand: %r to %r" % (d, Dim(s)), sym=T.symk(d, s))
            dims.append(d)
    tgt = Tensor(dims, [E.ZERO] * 1, 0)
    # values: enumerate where possible
    g = degen(t)
    gd = [Dim(1)] * (len(dims) - nd) + list(g.shape)
    nd2 = []
    for a_, b_ in zip(dims, gd):
        nd2.append(Dim(a_.size, b_.ivs, b_.sel))
    return regen(Tensor(nd2, g.comps, 0, t.roots, t.dtype, t.dev, t.deps, (loc, None) if loc else None))


@op("expand_as", "view_as", "reshape_as")
def _expand_as(I, a, k, n):
    o = I.tensor(I.resolve(a[1]))
    if o is None or o.shape is None:
        return unknown(I, "expand_as", a, k)
    return _expand(I, [a[0]] + [Num(d.size, True) for d in o.shape], {}, n)


OPS["view_as"] = OPS["reshape_as"] = lambda I, a, k, n: _reshape(
    I, [a[0]] + [Num(d.size, True) for d in getT(I, a[1]).shape], {}, n) if getT(I, a[1]) is not None and getT(
    I, a[1]).shape is not None else unknown(I, "view_as", a, k)


@op("repeat", "tile")
def _repeat(I, a, k, n):
    x = I.resolve(a[0])
    t = I.tensor(x)
    sz = shape_args(I, a[1:])
    if t is None or t.shape is None or sz is None or len(sz) < len(t.shape):
        if t is not None and t.shape is not None and sz is not None:
            I.ev("shape_error", n, what="repeat with fewer sizes than dims", sym=False)
        return unknown(I, "repeat", a, k)
    dims = [Dim(1)] * (len(sz) - len(t.shape)) + list(t.shape)
    if all(E.cval(s) == 1 or d.c == 1 for s, d in zip(sz, dims)):
        tt = t.but(shape=dims)
        tt = Tensor(dims, t.comps, t.k, NOROOT, t.dtype, t.dev, t.deps)
        r = expand_t(I, tt, [d.size if E.cval(s) == 1 else s for s, d in zip(sz, dims)], n, None)
        r.roots = NOROOT
        r.view = None
        return I.newloc(r)
    new = [E.mul(d.size, s) for d, s in zip(dims, sz)]
    return I.newloc(T.opaque(I, "repeat", new, (T.closed_vn(t),) + tuple(sz), t.dtype, t.dev, t.deps))


@op("repeat_interleave", "roll", "flip", "fliplr", "flipud", "rot90", "tril", "triu")
def _samesh(I, a, k, n):
    raise NotImplementedError


def _same_shape_opaque(name):
    def g(I, a, k, n):
        t = getT(I, a[0])
        if t is None:
            return unknown(I, name, a, k)
        sh = None if t.shape is None else list(t.shape)
        return I.newloc(T.opaque(I, name, sh, [I.vn(x) for x in a] + [(q, I.vn(v)) for q, v in sorted(k.items())],
                                 t.dtype, t.dev, t.deps))
    return g


for _n in ("roll", "fliplr", "flipud", "tril", "triu", "cumprod", "softmax", "log_softmax", "normalize",
           "fftshift", "ifftshift", "renorm", "bernoulli", "dropout", "grid_none", "svd_none"):
    OPS[_n] = _same_shape_opaque(_n)
OPS["repeat_interleave"] = lambda I, a, k, n: unknown(I, "repeat_interleave", a, k)
OPS["rot90"] = lambda I, a, k, n: unknown(I, "rot90", a, k)


@op("flip")
def _flip(I, a, k, n):
    t = getT(I, a[0])
    rest = a[1:] if "dims" not in k else [k["dims"]]
    ds = shape_args(I, rest)
    if t is None or t.shape is None or ds is None:
        return unknown(I, "flip", a, k)
    ds = [normdim(I, t, Num(q), n) for q in ds]
    nd = len(t.shape)
    kb = nd - t.k
    if any(d is None for d in ds):
        return unknown(I, "flip", a, k)
    comps = list(t.comps)
    inb = [d for d in ds if d >= kb]
    outb = [d for d in ds if d < kb]
    if inb:
        blk = [t.shape[i].c for i in range(kb, nd)]
        new = []
        for idx in itertools.product(*[range(b) for b in blk]):
            j = 0
            for p, (b, i) in enumerate(zip(blk, idx)):
                i2 = b - 1 - i if (kb + p) in inb else i
                j = j * b + i2
            new.append(comps[j])
        comps = new
    m = {}
    for d in outb:
        for v in t.shape[d].ivs:
            if v.name == "rev" and False:
                pass
            m[v] = IV("rev", v, t.shape[d].size)
    if m:
        comps = T.rename(comps, m)
    return I.newloc(Tensor(t.shape, comps, t.k, NOROOT, t.dtype, t.dev, t.deps))


# ------------------------------------------------------------------ combine
def seq_tensors(I, v):
    items = I.seq_items(v)
    if items is None:
        return None
    out = []
    for x in items:
        x = I.resolve(x)
        t = T.as_tensor(I, x)
        if t is None or I.tensor(x) is None:
            return None
        out.append(t)
    return out


@op("stack")
def _stack(I, a, k, n):
    ts = seq_tensors(I, T.kwarg(a, k, 0, "tensors"))
    dv = T.kwarg(a, k, 1, "dim", Num(0))
    if ts is None or any(t.shape is None for t, _ in ts) or not ts:
        sq = T.kwarg(a, k, 0, "tensors")
        c = I.deref(I.resolve(sq))
        if isinstance(c, Lst) and c.items is None and c.elem is not None and T.toint(I, dv) == 0:
            t = I.tensor(c.elem)
            if t is not None and t.shape is not None:
                return I.newloc(T.opaque(I, "stack", [E.fn("len", I.vn(sq), lo=0, isint=True)] + list(t.shape),
                                         (T.closed_vn(t),), t.dtype, t.dev, t.deps))
        dt = T.promote([(t.dtype, 2) for t, l in ts]) if ts else None
        return unknown(I, "stack", [sq, dv], {}, dtype=dt)
    d = normdim(I, ts[0][0], dv, n, 1)
    if d is None:
        return unknown(I, "stack", a, k)
    us = []
    for t, l in ts:
        if len(t.shape) != len(ts[0][0].shape):
            I.ev("shape_error", n, what="stack of tensors with different ranks", sym=False)
            return unknown(I, "stack", a, k)
        dims = list(t.shape)
        dd = min(d, len(dims))
        dims.insert(dd, Dim(1))
        kk = t.k + (1 if dd >= len(t.shape) - t.k else 0)
        us.append((Tensor(dims, t.comps, kk, NOROOT, t.dtype, t.dev, t.deps), 2))
    return cat_t(I, us, d, n, "stack", stack_ok=True)


def cat_t(I, ts, d, n, what, stack_ok=False):
    T.devmix(I, ts, n, what)
    T.dtypemix(I, ts, n, what)
    dev = T.devmix(I, ts, n, what)
    dt = T.promote([(t.dtype, 2) for t, l in ts])
    deps = NOROOT
    for t, _ in ts:
        deps = deps | t.deps
    t0 = ts[0][0]
    nd = len(t0.shape)
    size = E.ZERO
    for t, _ in ts:
        if len(t.shape) != nd:
            I.ev("shape_error", n, what="%s of tensors with different ranks" % what, sym=False)
            return I.newloc(T.opaque(I, what, None, [T.closed_vn(t) for t, _ in ts], dt, dev, deps))
        size = E.add(size, t.shape[d].size)
        for i in range(nd):
            if i != d and t.shape[i].size is not t0.shape[i].size:
                I.ev("shape_error", n, what="%s: %r does not match %r" % (what, t0.shape[i], t.shape[i]),
                     sym=T.symk(t.shape[i], t0.shape[i]))
                return I.newloc(T.opaque(I, what, None, [T.closed_vn(t) for t, _ in ts], dt, dev, deps))
    dims = [Dim(x.size, x.ivs, x.sel) for x in t0.shape]
    dims[d] = Dim(size)
    k = min(t.k for t, _ in ts)
    if d >= nd - k and E.cval(size) is not None and size.leaf.const * T.blocksize(t0.shape, 0) <= 4 * T.CAP:
        # align index variables
        cl = []
        for t, _ in ts:
            if t.k != k:
                cl = None
                break
            m = {}
            for i in range(nd - k):
                for u, v in zip(t.shape[i].ivs, dims[i].ivs):
                    if u != v:
                        m[u] = v
                if not dims[i].ivs and t.shape[i].ivs:
                    dims[i] = Dim(dims[i].size, t.shape[i].ivs, t.shape[i].sel)
            cl.append(T.rename(t.comps, m))
        if cl is not None:
            blocks = [[x.c for x in t.shape[nd - k:]] for t, _ in ts]
            p = d - (nd - k)
            outer = 1
            for q in blocks[0][:p]:
                outer *= q
            inner = 1
            for q in blocks[0][p + 1:]:
                inner *= q
            comps = []
            for o in range(outer):
                for b, c in zip(blocks, cl):
                    w = b[p] * inner
                    comps += c[o * w:(o + 1) * w]
            return I.newloc(Tensor(dims, comps, k, NOROOT, dt, dev, deps))
    if E.cval(size) is not None and len(ts) == E.cval(size) <= 40 and all(t.shape[d].c == 1 for t, _ in ts):
        # stacking along a leading dim: generic pick
        gs = [degen(t) for t, _ in ts]
        iv = IV("q%d" % d)
        while any(iv in x.ivs for g in gs for x in g.shape):
            iv = IV(iv.name + "_")
        gd = [Dim(x.size, x.ivs, x.sel) for x in gs[0].shape]
        cs = []
        for g in gs:
            m = {}
            for i in range(nd):
                if not gd[i].ivs and g.shape[i].ivs:
                    gd[i] = Dim(gd[i].size, g.shape[i].ivs, g.shape[i].sel)
                for u, v in zip(g.shape[i].ivs, gd[i].ivs):
                    if u != v:
                        m[u] = v
            cs.append(T.rename(g.comps, m)[0])
        gd[d] = Dim(size, (iv,))
        if len(ts) == 1:
            gd[d] = Dim(1)
        return I.newloc(regen(Tensor(gd, [E.pick(iv, cs) if len(ts) > 1 else cs[0]], 0, NOROOT, dt, dev, deps)))
    return I.newloc(T.opaque(I, what, dims, [d] + [T.closed_vn(t) for t, _ in ts], dt, dev, deps))


@op("cat", "concatenate", "concat")
def _cat(I, a, k, n):
    sq = T.kwarg(a, k, 0, "tensors")
    ts = seq_tensors(I, sq)
    dv = T.kwarg(a, k, 1, "dim", k.get("axis", Num(0)))
    if ts is None or any(t.shape is None for t, _ in ts) or not ts:
        c = I.deref(I.resolve(sq))
        if isinstance(c, Lst) and c.items is None and c.elem is not None:
            t = I.tensor(c.elem)
            d = T.toint(I, dv)
            if t is not None and t.shape is not None and d is not None and -len(t.shape) <= d < len(t.shape):
                sh = list(t.shape)
                sh[d % len(sh)] = E.fn("catlen", I.vn(sq), lo=0, isint=True)
                return I.newloc(T.opaque(I, "cat", sh, (T.closed_vn(t),), t.dtype, t.dev, t.deps))
        if ts:
            dev = T.devmix(I, ts, n, "cat")
        return unknown(I, "cat", [sq, dv], {}, dtype=T.promote([(t.dtype, 2) for t, l in ts]) if ts else None)
    d = normdim(I, ts[0][0], dv, n)
    if d is None:
        return unknown(I, "cat", a, k)
    return cat_t(I, ts, d, n, "cat")


@op("hstack", "vstack", "dstack", "column_stack", "row_stack")
def _hstack(I, a, k, n):
    return unknown(I, "hstack", a, k)


@op("unbind")
def _unbind(I, a, k, n):
    x = I.resolve(a[0])
    t = I.tensor(x)
    dv = T.kwarg(a, k, 1, "dim", Num(0))
    if t is not None and t.shape is None:
        return USeq(I.newloc(T.opaque(I, "unbind", None, (T.closed_vn(t),), t.dtype, t.dev, t.deps, t.roots)), deps=t.deps)
    if t is None:
        return Any(I.deps(x), I.roots(x), tag=("unbind", I.vn(x)))
    d = normdim(I, t, dv, n)
    if d is None or t.shape[d].c is None:
        return USeq(I.newloc(T.opaque(I, "unbind", [q for i, q in enumerate(t.shape) if i != d], (T.closed_vn(t),),
                                      t.dtype, t.dev, t.deps, t.roots)), deps=t.deps)
    out = []
    for i in range(t.shape[d].c):
        idx = Tup([Slc(None, None, None)] * d + [Num(i)])
        out.append(T.index(I, x, t, idx, n))
    return Tup(out)


@named("split", "chunk", "tensor_split")
def _split(nm, I, a, k, n):
    x = I.resolve(a[0])
    t = I.tensor(x)
    if t is None or t.shape is None:
        return USeq(I.newloc(Tensor(None, [E.fn("split", I.vn(x))], roots=I.roots(x), deps=I.deps(x),
                                    dtype=t.dtype if t else None, dev=t.dev if t else None)), deps=I.deps(x))
    d = normdim(I, t, T.kwarg(a, k, 2, "dim", Num(0)), n)
    sz = I.resolve(T.kwarg(a, k, 1, "split_size_or_sections", k.get("split_size")))
    c = I.deref(sz) if sz is not None else None
    if d is not None and isinstance(c, (Lst, Tup)) and c.items is not None and all(isinstance(q, Num) for q in c.items):
        pos = E.ZERO
        out = []
        for q in c.items:
            e = E.add(pos, q.n)
            idx = Tup([Slc(None, None, None)] * d + [Slc(Num(pos, True), Num(e, True), None)])
            out.append(T.index(I, x, t, idx, n))
            pos = e
        return Tup(out)
    m = None if d is None else t.shape[d].c
    if m is not None and isinstance(sz, Num) and sz.c is not None and sz.c >= 1 and nm in ("split", "chunk"):
        st = int(sz.c) if nm == "split" else -(-m // int(sz.c))
        return Tup([T.index(I, x, t, Tup([Slc(None, None, None)] * d + [Slc(Num(q), Num(min(q + st, m)), None)]), n)
                    for q in range(0, max(m, 1), st)])
    el = [Dim(q.size) for q in t.shape]
    if d is not None:
        el[d] = Dim(E.fn("splitlen", t.shape[d].size, I.vn(sz), lo=0, isint=True))
    return USeq(I.newloc(T.opaque(I, "split", el, (T.closed_vn(t), I.vn(sz) if sz is not None else None), t.dtype, t.dev, t.deps, t.roots)),
                deps=t.deps)


# ------------------------------------------------------------------ reductions
def dims_arg(I, t, dv, n):
    if dv is None or T.isnone(dv):
        return list(range(len(t.shape)))
    c = I.deref(I.resolve(dv))
    ds = c.items if isinstance(c, (Tup, Lst)) else [dv]
    if ds is None:
        return None
    out = []
    for d in ds:
        q = normdim(I, t, d, n)
        if q is None:
            return None
        out.append(q)
    return sorted(set(out))


def reduce_t(I, t, ds, keep, fold, symb, n):
    """fold(list of nodes)->node for enumerated; symb(node, iv, size)->node for generic dims"""
    nd = len(t.shape)
    kb = nd - t.k
    inb = [d for d in ds if d >= kb]
    outb = [d for d in ds if d < kb]
    comps = list(t.comps)
    blk = [t.shape[i].c for i in range(kb, nd)]
    if inb:
        keepax = [p for p in range(t.k) if kb + p not in inb]
        groups = {}
        order = []
        for q, idx in enumerate(itertools.product(*[range(b) for b in blk])):
            key = tuple(idx[p] for p in keepax)
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append(comps[q])
        comps = [fold(groups[key]) for key in order]
    for d in reversed(outb):
        dim = t.shape[d]
        if not dim.ivs:
            comps = [symb(c, None, dim.size) for c in comps]
        else:
            for iv in reversed(dim.ivs):
                b = IV("$s%d" % depth(comps))
                sz = dim.size if len(dim.ivs) == 1 else IVSZ.get(iv)
                cc = T.rename(comps, {iv: b})
                comps = [symb(c, b, sz) for c in cc]
    dims = []
    for i, d in enumerate(t.shape):
        if i in ds:
            if keep:
                dims.append(Dim(1))
        else:
            dims.append(d)
    k2 = t.k - (0 if keep else len(inb))
    if keep:
        # leading reduced generic dims of size one just before the block
        pass
    return Tensor(dims, comps, k2, NOROOT, t.dtype, t.dev, t.deps)


_DEPTH = {}


def depth(nodes):
    """nesting depth of bound variables"""
    m = 0
    for x in nodes:
        m = max(m, _depth(x))
    return m


def _depth(x):
    if isinstance(x, (E.Node, E.Poly)):
        key = (isinstance(x, E.Node), x.id)
        r = _DEPTH.get(key)
        if r is not None:
            return r
        ats = E.node_atoms_shallow(x) if isinstance(x, E.Node) else {a for m, c in x.terms for a, e in m}
        r = 0
        for a in ats:
            r = max(r, _adepth(a))
        _DEPTH[key] = r
        return r
    if isinstance(x, (tuple, list)):
        return max([_depth(y) for y in x] or [0])
    if isinstance(x, IV):
        return max([_depth(y) for y in x.args] or [0])
    return 0


def _adepth(a):
    key = ("a", a.id)
    r = _DEPTH.get(key)
    if r is None:
        r = max([_depth(x) for x in a.args] or [0])
        if a.kind in ("sum", "red"):
            r += 1
        _DEPTH[key] = r
    return r


def sum_sym(c, iv, size):
    if iv is None:
        return E.mul(c, size)
    return E.sum_(c, iv, size)


def foldsum(xs):
    r = xs[0]
    for x in xs[1:]:
        r = E.add(r, x)
    return r


def redop(name, lo=None):
    def sym(c, iv, size):
        l, h = rng(c)
        if iv is None:
            return c
        return E.leaf(E.patom(E.atom("red", name, c, iv, lo=l if name in ("max", "min", "median") else -E.INF,
                                     hi=h if name in ("max", "min", "median") else E.INF)))
    return sym


def get_dim_keep(I, a, k, pos=1):
    dv = T.kwarg(a, k, pos, "dim", k.get("axis"))
    kp = T.kwarg(a, k, pos + 1, "keepdim", k.get("keepdims"))
    kk = False
    if kp is not None:
        q = I.resolve(kp)
        kk = isinstance(q, Num) and q.c == 1
    return dv, kk


def reduction(name, fold, sym, dtype=None, floaty=False):
    def g(I, a, k, n):
        t = getT(I, a[0])
        if t is None:
            return unknown(I, name, a, k)
        dv, keep = get_dim_keep(I, a, k)
        dt = dtype
        if name in ("sum", "prod") and t.dtype in ("bool",) + tuple(T.INTS):
            dt = "i64"
        if "dtype" in k:
            dt = dtype_of(I, k["dtype"])
        if t.shape is None:
            lo = 0 if name in ("norm",) else -E.INF
            return unknown(I, name, a, {q: v for q, v in k.items() if q != "dtype"}, dtype=dt or t.dtype, lo=lo)
        ds = dims_arg(I, t, dv, n)
        if ds is None:
            return unknown(I, name, a, k, dtype=dt)
        if name in ("sum", "prod") and any(t.shape[d].c == 0 for d in ds):
            r = Tensor([Dim(1) if i in ds else d for i, d in enumerate(t.shape) if keep or i not in ds],
                       [E.ONE if name == "prod" else E.ZERO], 0, NOROOT, dt or t.dtype, t.dev, t.deps)
            return I.newloc(r)
        r = reduce_t(I, t, ds, keep, fold, sym, n)
        if dt:
            r = r.but(dtype=dt)
        if isinstance(a[0], V) and I.tensor(I.resolve(a[0])) is None and False:
            pass
        return I.newloc(r)
    return g


def foldprod(xs):
    r = xs[0]
    for x in xs[1:]:
        r = E.mul(r, x)
    return r


OPS["sum"] = OPS["nansum"] = reduction("sum", foldsum, sum_sym)
OPS["prod"] = reduction("prod", foldprod, redop("prod"))


@op("mean", "nanmean")
def _mean(I, a, k, n):
    t = getT(I, a[0])
    if t is None or t.shape is None:
        return unknown(I, "mean", a, k)
    dv, keep = get_dim_keep(I, a, k)
    ds = dims_arg(I, t, dv, n)
    if ds is None:
        return unknown(I, "mean", a, k)
    r = reduce_t(I, t, ds, keep, foldsum, sum_sym, n)
    cnt = numel([t.shape[d] for d in ds])
    inv = E.inv(cnt) if E.cval(cnt) != 0 else E.ONE
    return I.newloc(r.but(comps=[E.mul(c, inv) for c in r.comps]))


@op("any", "all")
def _anyall(I, a, k, n):
    raise NotImplementedError


def _mk_any(isany):
    def fold(xs):
        r = E.to_bool(xs[0])
        for x in xs[1:]:
            r = E.or_(r, E.to_bool(x)) if isany else E.and_(r, E.to_bool(x))
        return r

    def sym(c, iv, size):
        c = E.to_bool(c)
        if iv is None or E.is_const(c):
            return c
        return E.bool_atom("any" if isany else "all", c, iv)
    return reduction("any" if isany else "all", fold, sym, "bool")


OPS["any"], OPS["all"] = _mk_any(True), _mk_any(False)


def foldmax(xs):
    if len(xs) <= 4:
        r = xs[0]
        for x in xs[1:]:
            r = E.max_(r, x)
        if E.nnodes(r) < 200:
            return r
    l = max(rng(x)[0] for x in xs)
    h = max(rng(x)[1] for x in xs)
    return E.fn("amax", *xs, lo=l, hi=h)


def foldmin(xs):
    if len(xs) <= 4:
        r = xs[0]
        for x in xs[1:]:
            r = E.min_(r, x)
        if E.nnodes(r) < 200:
            return r
    l = min(rng(x)[0] for x in xs)
    h = min(rng(x)[1] for x in xs)
    return E.fn("amin", *xs, lo=l, hi=h)


OPS["amax"] = reduction("max", foldmax, redop("max"))
OPS["amin"] = reduction("min", foldmin, redop("min"))


def _argred(name):
    def fold(xs):
        return E.fn(name, *xs, lo=0, hi=len(xs) - 1, isint=True)

    def sym(c, iv, size):
        if iv is None:
            return E.ZERO
        return E.leaf(E.patom(E.atom("red", name, c, iv, lo=0, isint=True)))
    return reduction(name, fold, sym, "i64")


OPS["argmax"], OPS["argmin"] = _argred("argmax"), _argred("argmin")


def _maxmin(nm):
    def g(I, a, k, n):
        if len(a) > 1 and I.tensor(I.resolve(a[1])) is not None or "other" in k:
            return OPS["maximum" if nm == "max" else "minimum"](I, [a[0], T.kwarg(a, k, 1, "other")], {}, n)
        dv = T.kwarg(a, k, 1, "dim")
        if dv is None:
            return OPS["a" + nm](I, a[:1], {}, n)
        v = OPS["a" + nm](I, a, k, n)
        i = OPS["arg" + nm](I, a, k, n)
        return NTup([v, i])
    return g


class NTup(Tup):
    __slots__ = ()


OPS["max"], OPS["min"] = _maxmin("max"), _maxmin("min")


@op("norm", "vector_norm")
def _norm(I, a, k, n):
    t = getT(I, a[0])
    if t is None:
        return unknown(I, "norm", a, k)
    p = T.kwarg(a, k, 1, "p", k.get("ord"))
    dv = T.kwarg(a, k, 2, "dim")
    kp = T.kwarg(a, k, 3, "keepdim")
    keep = kp is not None and isinstance(I.resolve(kp), Num) and I.resolve(kp).c == 1
    pv = None
    if p is not None and not T.isnone(p):
        q = I.resolve(p)
        if isinstance(q, Num):
            pv = q.c
        elif isinstance(q, Const) and q.v == "fro":
            pv = 2
        else:
            return unknown(I, "norm", a, k)
    if pv not in (None, 2, 2.0) or t.shape is None or T.cat_of(t.dtype) == 3:
        return unknown(I, "norm", a, k, lo=0)
    ds = dims_arg(I, t, dv, n)
    if ds is None:
        return unknown(I, "norm", a, k, lo=0)
    sq = t.but(comps=[E.mul(c, c) for c in t.comps])
    r = reduce_t(I, sq, ds, keep, foldsum, sum_sym, n)
    return I.newloc(r.but(comps=[E.sqrt(c) for c in r.comps]))


@op("std", "var", "median", "logsumexp", "nanmedian", "mode", "quantile")
def _std(I, a, k, n):
    raise NotImplementedError


def _opred(name, lo=-E.INF):
    def g(I, a, k, n):
        t = getT(I, a[0])
        if t is None or t.shape is None:
            return unknown(I, name, a, k, lo=lo)
        dv, keep = get_dim_keep(I, a, k)
        ds = dims_arg(I, t, dv, n)
        if ds is None:
            return unknown(I, name, a, k, lo=lo)
        dims = [Dim(1) if i in ds else d for i, d in enumerate(t.shape) if keep or i not in ds]
        return I.newloc(T.opaque(I, name, [Dim(d.size) for d in dims],
                                 [T.closed_vn(t)] + [I.vn(x) for x in a[1:]] + [(q, I.vn(v)) for q, v in sorted(k.items())],
                                 t.dtype, t.dev, t.deps, lo=lo))
    return g


_lse_opaque = _opred("logsumexp")


@op("logsumexp")
def _logsumexp(I, a, k, n):
    t = getT(I, a[0])
    if t is not None and t.shape is not None and t.k >= 1:
        dv, keep = get_dim_keep(I, a, k)
        ds = dims_arg(I, t, dv, n)
        if ds and all(d >= len(t.shape) - t.k for d in ds):
            r = reduce_t(I, t.but(comps=[E.exp(c) for c in t.comps]), ds, keep, foldsum, sum_sym, n)
            return I.newloc(r.but(comps=[E.log(c) for c in r.comps]))
    return _lse_opaque(I, a, k, n)


for _n in ("std", "var", "quantile", "nanmedian"):
    OPS[_n] = _opred(_n, 0 if _n in ("std", "var") else -E.INF)


@op("median")
def _median(I, a, k, n):
    if len(a) > 1 or "dim" in k:
        v = _opred("median")(I, a, k, n)
        return NTup([v, _opred("argmedian")(I, a, k, n)])
    return _opred("median")(I, a, k, n)


@op("cumsum")
def _cumsum(I, a, k, n):
    return _same_shape_opaque("cumsum")(I, a, k, n)


def small_sort(I, t, a, k, n):
    """exact sort along an enumerated last dimension of at most four entries"""
    if t.k < 1 or not t.shape or t.shape[-1].c is None or not 1 <= t.shape[-1].c <= 4:
        return None
    dv = k.get("dim", a[1] if len(a) > 1 and not isinstance(I.resolve(a[1]), Num) or len(a) > 1 and
               not I.resolve(a[1]).isbool else Num(-1))
    d = normdim(I, t, dv, n)
    if d != len(t.shape) - 1:
        return None
    dsc = k.get("descending", a[2] if len(a) > 2 else Num(False))
    dsc = I.resolve(dsc)
    if not isinstance(dsc, Num) or dsc.c is None:
        return None
    desc = bool(dsc.c)
    m = t.shape[-1].c
    vals, idxs = [], []
    for g in range(0, len(t.comps), m):
        x = t.comps[g:g + m]

        def ins(order, i):
            if i == m:
                return [E.const(j) for j in order]

            def place(p):
                # candidate i goes before order[p]?
                if p == len(order):
                    return ins(order + [i], i + 1)
                c = E.gt(x[i], x[order[p]]) if desc else E.lt(x[i], x[order[p]])
                if c is E.ZERO:
                    return place(p + 1)
                y = ins(order[:p] + [i] + order[p:], i + 1)
                if c is E.ONE:
                    return y
                z = place(p + 1)
                return [E.ite(c, u, v) for u, v in zip(y, z)]
            return place(0)
        ix = ins([0], 1)
        idxs += ix
        vals += [sel_const(q, x) for q in ix]
    return (I.newloc(Tensor(list(t.shape), vals, t.k, NOROOT, t.dtype, t.dev, t.deps)),
            I.newloc(Tensor(list(t.shape), idxs, t.k, NOROOT, "i64", t.dev, t.deps)))


def sel_const(ix, xs):
    """xs[ix] for an index node whose leaves are constants"""
    r = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        r = E.ite(E.eq(ix, E.const(j)), xs[j], r)
    return r


def const_leaves(nodes, hi):
    for nd in nodes:
        for _, lf in E.leaves(nd):
            c = lf.const
            if c is None or c != int(c) or not 0 <= c < hi:
                return False
    return True


def sort_like(I, a, k, n, name):
    t = getT(I, a[0])
    if t is None or t.shape is None:
        o = unknown(I, name, a, k)
        return o, unknown(I, name + "_i", a, k, dtype="i64")
    ex = small_sort(I, t, a, k, n)
    if ex is not None:
        return ex
    lo = min([rng(c)[0] for c in t.comps] or [-E.INF])
    hi = max([rng(c)[1] for c in t.comps] or [E.INF])
    vns = [T.closed_vn(t)] + [I.vn(x) for x in a[1:]] + [(q, I.vn(v)) for q, v in sorted(k.items())]
    sh = [Dim(d.size) for d in t.shape]
    return (I.newloc(T.opaque(I, name, sh, vns, t.dtype, t.dev, t.deps, lo=lo, hi=hi)),
            I.newloc(T.opaque(I, name + "_i", sh, vns, "i64", t.dev, t.deps, lo=0, isint=True)))


@op("sort")
def _sort(I, a, k, n):
    return NTup(list(sort_like(I, a, k, n, "sort")))


@op("argsort")
def _argsort(I, a, k, n):
    return sort_like(I, a, k, n, "sort")[1]


@op("topk")
def _topk(I, a, k, n):
    t = getT(I, a[0])
    kk = T.kwarg(a, k, 1, "k")
    dv = T.kwarg(a, k, 2, "dim", Num(-1))
    vns = [I.vn(x) for x in a] + [(q, I.vn(v)) for q, v in sorted(k.items())]
    I.ev("topk", n, _k=kk, _t=t, _kw=k, _dim=dv, key=repr(vns)[:50])
    if t is None or t.shape is None or not isinstance(I.resolve(kk), Num):
        return NTup([unknown(I, "topk", a, k), unknown(I, "topk_i", a, k, dtype="i64")])
    d = normdim(I, t, dv, n)
    if d is None:
        return NTup([unknown(I, "topk", a, k), unknown(I, "topk_i", a, k, dtype="i64")])
    lg, so = T.kwarg(a, k, 3, "largest"), T.kwarg(a, k, 4, "sorted")
    lg = 1 if T.isnone(lg) else I.resolve(lg).c
    so = 1 if T.isnone(so) else I.resolve(so).c
    m, kc = t.shape[d].c, I.resolve(kk).c
    if m is not None and kc is not None and kc > m:
        I.ev("shape_error", n, what="topk: %d of %d entries" % (kc, m), sym=False)
    elif lg is not None and so is not None and kc is not None and d == len(t.shape) - 1:
        r = small_sort(I, t, [a[0]], {"descending": Num(bool(lg))}, n)
        if r is not None:
            # without sorting any order may come: the worst one
            pick = Tup([Const(Ellipsis), Slc(None, Num(int(kc)), None)])
            out = []
            for x in r:
                y = I.tensor(T.index(I, x, I.tensor(x), pick, n))
                if not so:
                    q = int(kc)
                    y = y.but(comps=[y.comps[g + q - 1 - j] for g in range(0, len(y.comps), q) for j in range(q)])
                out.append(I.newloc(y))
            return NTup(out)
    sh = [Dim(q.size) for q in t.shape]
    sh[d] = Dim(I.resolve(kk).n)
    return NTup([I.newloc(T.opaque(I, "topk", sh, vns, t.dtype, t.dev, t.deps)),
                 I.newloc(T.opaque(I, "topk_i", sh, vns, "i64", t.dev, t.deps, lo=0, isint=True))])


# ------------------------------------------------------------------ contractions
class Cannot(Exception):
    pass


def contract(I, ops, out, n, what):
    """ops: list of (Tensor, labels); out: labels.  -> Tensor"""
    info = {}
    for t, labs in ops:
        for d, l in zip(t.shape, labs):
            if l is None or d.c == 1:
                info.setdefault(l, None) if l is not None else None
                continue
            cur = info.get(l)
            if cur is None:
                info[l] = d
            elif cur.size is not d.size:
                I.ev("shape_error", n, what="%s: contraction/broadcast %r with %r" % (what, cur, d),
                     sym=T.symk(cur, d))
                raise Cannot()
            elif not cur.ivs and d.ivs:
                info[l] = d
    for l in out:
        if info.get(l) is None:
            info[l] = Dim(1)
    for l in list(info):
        if info[l] is None:
            info[l] = Dim(1)
    # enumerable labels
    enum = {}
    outn = 1
    con = 1
    for l, d in info.items():
        if d.c is not None and d.c <= T.ENUM:
            enum[l] = d.c
    # output: enumerated labels must be trailing
    tail = []
    p = 1
    for l in reversed(out):
        if l in enum and p * enum[l] <= T.CAP:
            p *= enum[l]
            tail.insert(0, l)
        else:
            break
    for l in out:
        if l not in tail and l in enum and enum[l] != 1:
            del enum[l]
    contr = [l for l in info if l not in out]
    for l in contr:
        if l in enum:
            con *= enum[l]
    if con * p > T.WORK:
        raise Cannot()
    # index variables for symbolic labels
    ivs = {}
    used = set()
    gops = []
    for t, labs in ops:
        need = any(l is not None and d.c != 1 and l not in enum and i >= len(t.shape) - t.k
                   for i, (d, l) in enumerate(zip(t.shape, labs)))
        gops.append((degen(t) if need else t, labs))
    for t, labs in gops:
        for d, l in zip(t.shape, labs):
            if l is None or l in enum or d.c == 1 or l in ivs or not d.ivs:
                continue
            vs = []
            for v in d.ivs:
                w = v
                while w in used:
                    w = IV(w.name + "'", *w.args)
                used.add(w)
                vs.append(w)
            ivs[l] = tuple(vs)

    def elem(t, labs, asg):
        m = {}
        idx = 0
        kb = len(t.shape) - t.k
        for i, (d, l) in enumerate(zip(t.shape, labs)):
            if i >= kb:
                j = 0
                if l is not None and d.c != 1:
                    j = asg[l]
                idx = idx * d.c + j
            elif d.c != 1 and l is not None:
                if l in asg:
                    for v in d.ivs:
                        m[v] = IV("k", E.const(asg[l]))
                elif l in ivs:
                    if len(d.ivs) not in (0, len(ivs[l])):
                        raise Cannot()
                    for u, v in zip(d.ivs, ivs[l]):
                        if u != v:
                            m[u] = v
        if m and any(v in m for v in m.values()):
            tmp = {u: IV("~c%d" % q) for q, u in enumerate(m)}
            c = T.rename([t.comps[idx]], tmp)
            return T.rename(c, {tmp[u]: m[u] for u in m})[0]
        return T.rename([t.comps[idx]], m)[0]

    cl = [l for l in contr if l in enum]
    sl = [l for l in contr if l not in enum]
    comps = []
    for oidx in itertools.product(*[range(enum[l]) for l in tail]):
        asg = dict(zip(tail, oidx))
        for l in out:
            if l in enum and l not in asg:
                asg[l] = 0
        acc = E.ZERO
        for cidx in itertools.product(*[range(enum[l]) for l in cl]):
            a2 = dict(asg)
            a2.update(zip(cl, cidx))
            term = E.ONE
            for t, labs in gops:
                term = E.mul(term, elem(t, labs, a2))
            acc = E.add(acc, term)
        for l in sl:
            if l in ivs:
                for v in reversed(ivs[l]):
                    b = IV("$s%d" % depth([acc]))
                    sz = info[l].size if len(ivs[l]) == 1 else IVSZ.get(v)
                    acc = E.sum_(T.rename([acc], {v: b})[0], b, sz)
            else:
                acc = E.mul(acc, info[l].size)
        comps.append(acc)
    dims = []
    for l in out:
        if l in tail or info[l].c == 1:
            dims.append(Dim(info[l].size))
        else:
            dims.append(Dim(info[l].size, ivs.get(l, ()), info[l].sel))
    return Tensor(dims, comps, len(tail), NOROOT)


def finish(I, r, ts, n, what):
    dev = T.devmix(I, ts, n, what)
    T.dtypemix(I, ts, n, what)
    deps = NOROOT
    for t, _ in ts:
        deps = deps | t.deps
    r.dtype = T.promote([(t.dtype, l) for t, l in ts])
    r.dev = dev
    r.deps = deps
    return I.newloc(r)


@op("matmul", "mm", "bmm", "mv", "dot", "inner")
def _matmul(I, a, k, n):
    A, B = T.as_tensor(I, a[0]), T.as_tensor(I, T.kwarg(a, k, 1, "other", k.get("mat2")))
    if A is None or B is None or A[0].shape is None or B[0].shape is None:
        ts = [x for x in (A, B) if x is not None]
        dt = T.promote([(t.dtype, l) for t, l in ts]) if len(ts) == 2 else None
        if len(ts) == 2:
            T.devmix(I, ts, n, "matmul")
        return unknown(I, "matmul", a, k, dtype=dt, keep_dtype=False)
    ta, tb = A[0], B[0]
    na, nb = len(ta.shape), len(tb.shape)
    if na == 0 or nb == 0:
        I.ev("shape_error", n, what="matmul of a 0-d tensor", sym=False)
        return unknown(I, "matmul", a, k)
    la = (["m"] if na > 1 else []) + ["k"]
    lb = ["k"] + (["n"] if nb > 1 else [])
    ba, bb = max(na - 2, 0), max(nb - 2, 0)
    bn = max(ba, bb)
    if nb == 1:
        bb = 0
    labs = ["b%d" % i for i in range(bn)]
    LA = (labs[bn - ba:] if ba else []) + la
    LB = (labs[bn - bb:] if bb else []) + lb
    # the contracted dims must agree exactly (size one does not broadcast)
    ka, kb_ = ta.shape[-1], tb.shape[-2] if nb > 1 else tb.shape[-1]
    if ka.size is not kb_.size:
        I.ev("shape_error", n, what="matmul: inner dims %r and %r" % (ka, kb_), sym=T.symk(ka, kb_))
        return unknown(I, "matmul", a, k)
    out = labs + (["m"] if na > 1 else []) + (["n"] if nb > 1 else [])
    try:
        r = contract(I, [(ta, LA), (tb, LB)], out, n, "matmul")
    except (Cannot, E.TooBig):
        sh = []
        for i in range(bn):
            q = [x for x in ((ta.shape[i - (bn - ba)] if i >= bn - ba and ba else None),
                             (tb.shape[i - (bn - bb)] if i >= bn - bb and bb else None)) if x is not None and x.c != 1]
            sh.append(Dim(q[0].size) if q else Dim(1))
        if na > 1:
            sh.append(Dim(ta.shape[-2].size))
        if nb > 1:
            sh.append(Dim(tb.shape[-1].size))
        r = T.opaque(I, "matmul", sh, (T.closed_vn(ta), T.closed_vn(tb)))
    return finish(I, r, [A, B], n, "matmul")


@op("einsum")
def _einsum(I, a, k, n):
    eq = I.resolve(a[0])
    rest = a[1:]
    if len(rest) == 1 and I.tensor(I.resolve(rest[0])) is None:
        its = I.seq_items(rest[0])
        rest = its if its is not None else rest
    ts = [T.as_tensor(I, I.resolve(x)) for x in rest]
    if not isinstance(eq, Const) or any(t is None or t[0].shape is None for t in ts):
        return unknown(I, "einsum", [eq] + list(rest), {},
                       dtype=T.promote([(t[0].dtype, t[1]) for t in ts]) if all(t is not None for t in ts) else None)
    s = eq.v.replace(" ", "")
    lhs, _, rhs = s.partition("->")
    ins = lhs.split(",")
    ops = []
    ell = 0
    for (t, _), lab in zip(ts, ins):
        if "..." in lab:
            ell = max(ell, len(t.shape) - (len(lab) - 3))
    for (t, _), lab in zip(ts, ins):
        if "..." in lab:
            pre, post = lab.split("...")
            m = len(t.shape) - len(pre) - len(post)
            L = list(pre) + ["#%d" % i for i in range(ell - m, ell)] + list(post)
        else:
            L = list(lab)
        if len(L) != len(t.shape):
            I.ev("shape_error", n, what="einsum '%s': operand has %d dims for '%s'" % (s, len(t.shape), lab), sym=False)
            return unknown(I, "einsum", [eq] + list(rest), {})
        ops.append((t, L))
    if "->" in s:
        if "..." in rhs:
            pre, post = rhs.split("...")
            out = list(pre) + ["#%d" % i for i in range(ell)] + list(post)
        else:
            out = list(rhs)
    else:
        cnt = {}
        for _, L in ops:
            for l in L:
                cnt[l] = cnt.get(l, 0) + 1
        out = sorted(l for l in cnt if cnt[l] == 1)
    try:
        r = contract(I, ops, out, n, "einsum")
    except (Cannot, E.TooBig):
        info = {}
        for t, L in ops:
            for d, l in zip(t.shape, L):
                if d.c != 1 or l not in info:
                    info[l] = d
        r = T.opaque(I, "einsum", [Dim(info[l].size) if l in info else Dim(1) for l in out],
                     [("const", s)] + [T.closed_vn(t) for t, _ in ops])
    return finish(I, r, ts, n, "einsum")


@op("outer", "ger")
def _outer(I, a, k, n):
    ts = [T.as_tensor(I, x) for x in a[:2]]
    if any(t is None or t[0].shape is None or len(t[0].shape) != 1 for t in ts):
        return unknown(I, "outer", a, k)
    try:
        return finish(I, contract(I, [(ts[0][0], ["i"]), (ts[1][0], ["j"])], ["i", "j"], n, "outer"), ts, n, "outer")
    except (Cannot, E.TooBig):
        return unknown(I, "outer", a, k)


@op("cross")
def _cross(I, a, k, n):
    ts = [T.as_tensor(I, I.resolve(x)) for x in a[:2]]
    dv = T.kwarg(a, k, 2, "dim")
    if any(t is None or t[0].shape is None for t in ts):
        return unknown(I, "cross", a, k)
    dims, kk, comps, ok = T.broadcast(I, [t for t, _ in ts], n, "cross")
    d = None if dv is None else T.toint(I, dv)
    nd = len(dims)
    if d is None:
        d = -1
        if dv is None:
            # torch.cross default: first dim of size 3 (deprecated) / linalg.cross: -1
            cands = [i for i, q in enumerate(dims) if q.c == 3]
            if cands:
                d = cands[0]
            I.ev("cross_default", n, ndim=nd)
    if not ok or d % nd != nd - 1 or kk < 1 or dims[-1].c != 3:
        return unknown(I, "cross", a, k)
    x, y = comps
    outc = []
    tA, tB = ts[0][0], ts[1][0]
    for idx in itertools.product(*[range(q.c) for q in dims[nd - kk:-1]]):
        u = [x[T.block_index(tA, kk, idx + (j,))] for j in range(3)]
        v = [y[T.block_index(tB, kk, idx + (j,))] for j in range(3)]
        for i in range(3):
            p, q = (i + 1) % 3, (i + 2) % 3
            outc.append(E.sub(E.mul(u[p], v[q]), E.mul(u[q], v[p])))
    return finish(I, Tensor(dims, outc, kk, NOROOT), ts, n, "cross")


@op("diagonal")
def _diagonal(I, a, k, n):
    x = I.resolve(a[0])
    t = I.tensor(x)
    d1 = T.toint(I, T.kwarg(a, k, 2, "dim1", Num(0)))
    d2 = T.toint(I, T.kwarg(a, k, 3, "dim2", Num(1)))
    off = T.toint(I, T.kwarg(a, k, 1, "offset", Num(0)))
    if t is None or t.shape is None or d1 is None or d2 is None or off != 0:
        return unknown(I, "diagonal", a, k, roots=t.roots if t else NOROOT)
    nd = len(t.shape)
    d1, d2 = d1 % nd, d2 % nd
    if {d1, d2} == {nd - 2, nd - 1} and t.k >= 2 and t.shape[-1].c == t.shape[-2].c and t.k == 2:
        m = t.shape[-1].c
        imap = [i * m + i for i in range(m)]
        return I.newloc(Tensor(list(t.shape[:-2]) + [Dim(m)], [t.comps[i] for i in imap], 1, t.roots, t.dtype, t.dev,
                               t.deps, (x.loc, tuple(imap))))
    rest = [q for i, q in enumerate(t.shape) if i not in (d1, d2)]
    o = T.opaque(I, "diagonal", rest + [t.shape[d1]], (T.closed_vn(t), d1, d2), t.dtype, t.dev, t.deps, t.roots)
    o.view = (x.loc, None)
    return I.newloc(o)


@op("trace")
def _trace(I, a, k, n):
    d = _diagonal(I, [a[0]], {}, n)
    return OPS["sum"](I, [d], {}, n)


@op("diag")
def _diag(I, a, k, n):
    t = getT(I, a[0])
    if t is not None and t.shape is not None and len(t.shape) == 2:
        return _diagonal(I, [a[0]] + ([Num(0)] if len(a) < 2 and "diagonal" not in k else [T.kwarg(a, k, 1, "diagonal")]), {}, n)
    return OPS["diag_embed"](I, a, k, n)


@op("diag_embed")
def _diag_embed(I, a, k, n):
    t = getT(I, a[0])
    if t is None or t.shape is None:
        return unknown(I, "diag", a, k)
    if t.k >= 1 and len(a) == 1 and not k:
        m = t.shape[-1].c
        if t.k == 1:
            comps = []
            for i in range(m):
                for j in range(m):
                    comps.append(t.comps[i] if i == j else E.ZERO)
            return I.newloc(Tensor(list(t.shape) + [Dim(m)], comps, 2, NOROOT, t.dtype, t.dev, t.deps))
    if len(t.shape) >= 1:
        return I.newloc(T.opaque(I, "diag_embed", list(t.shape) + [t.shape[-1]], (T.closed_vn(t),), t.dtype, t.dev, t.deps))
    return unknown(I, "diag", a, k)


def _det3(m):
    def g(i, j):
        return m[3 * i + j]
    r = E.ZERO
    for i in range(3):
        p, q = (i + 1) % 3, (i + 2) % 3
        r = E.add(r, E.mul(g(0, i), E.sub(E.mul(g(1, p), g(2, q)), E.mul(g(1, q), g(2, p)))))
    return r


@op("det")
def _det(I, a, k, n):
    t = getT(I, a[0])
    if t is not None and t.shape is not None and t.k == 2 and t.shape[-1].c == 3 and t.shape[-2].c == 3:
        return I.newloc(Tensor(t.shape[:-2], [_det3(t.comps)], 0, NOROOT, t.dtype, t.dev, t.deps))
    if t is not None and t.shape is not None and len(t.shape) >= 2:
        return I.newloc(T.opaque(I, "det", list(t.shape[:-2]), (T.closed_vn(t),), t.dtype, t.dev, t.deps))
    return unknown(I, "det", a, k)


@op("inv", "inverse", "pinv")
def _inv(I, a, k, n):
    t = getT(I, a[0])
    if t is not None and t.shape is not None and t.k == 2 and t.shape[-1].c == 3 and t.shape[-2].c == 3:
        m = t.comps
        id_ = E.inv(_det3(m))
        out = []
        for i in range(3):
            for j in range(3):
                p, q = [x for x in range(3) if x != j], [x for x in range(3) if x != i]
                mn = E.sub(E.mul(m[3 * p[0] + q[0]], m[3 * p[1] + q[1]]), E.mul(m[3 * p[0] + q[1]], m[3 * p[1] + q[0]]))
                c = E.mul(mn, id_)
                out.append(E.neg(c) if (i + j) % 2 else c)
        return I.newloc(t.but(comps=out, roots=NOROOT, view=None))
    return _same_shape_opaque("inv")(I, a, k, n)


OPS["matrix_exp"] = _same_shape_opaque("matrix_exp")
OPS["cholesky"] = _same_shape_opaque("cholesky")


@op("inv_ex", "svd", "qr", "eigh", "eig", "slogdet", "lstsq", "cummax", "cummin", "aminmax", "std_mean", "var_mean", "frexp",
    "lu", "solve_ex")
def _multi(I, a, k, n):
    raise NotImplementedError


@op("inv_ex")
def _inv_ex(I, a, k, n):
    return NTup([_inv(I, a[:1], {}, n), unknown(I, "inv_info", a, k, dtype="i32")])


def _mkmulti(nm, cnt):
    return lambda I, a, k, n: NTup([unknown(I, nm + str(i), a, k) for i in range(cnt)])


for _n, _c in (("svd", 3), ("qr", 2), ("eigh", 2), ("eig", 2), ("slogdet", 2), ("lstsq", 4), ("cummax", 2), ("cummin", 2),
               ("aminmax", 2), ("std_mean", 2), ("var_mean", 2), ("frexp", 2), ("lu", 3)):
    OPS[_n] = _mkmulti(_n, _c)


# ------------------------------------------------------------------ indexing ops
def nonzero(I, a, k, n, tup=False):
    t = getT(I, a[0])
    if "as_tuple" in k and I.resolve(k["as_tuple"]).c == 1:
        tup = True
    vn = I.vn(a[0])
    sz = E.fn("nnz", vn, lo=0, isint=True)
    nd = None if t is None or t.shape is None else len(t.shape)
    dev = t.dev if t else None
    deps = I.deps(a[0])
    if nd and t.k == nd:
        cc = [E.cval(q) for q in t.comps]
        if all(q is not None for q in cc):
            # the places of known values
            at = [ix for ix, q in zip(itertools.product(*[range(d.c) for d in t.shape]), cc) if q]
            if tup:
                return Tup([I.newloc(Tensor([Dim(len(at))], [E.const(ix[j]) for ix in at], 1, NOROOT, "i64", dev, deps)) for j in range(nd)])
            return I.newloc(Tensor([Dim(len(at)), Dim(nd)], [E.const(x) for ix in at for x in ix], 2, NOROOT, "i64", dev, deps, tag="unique"))
    if tup:
        if nd is None:
            return USeq(I.newloc(T.opaque(I, "nonzero", [sz], (vn,), "i64", dev, deps, lo=0, isint=True)), deps=deps)
        return Tup([I.newloc(T.opaque(I, "nonzero", [sz], (vn, i), "i64", dev, deps, lo=0, isint=True)) for i in range(nd)])
    sh = [sz, nd] if nd is not None else None
    r = T.opaque(I, "nonzero", sh, (vn,), "i64", dev, deps, lo=0, isint=True)
    r.tag = "unique"
    return I.newloc(r)


OPS["nonzero"] = OPS["argwhere"] = lambda I, a, k, n: nonzero(I, a, k, n)


@op("masked_select")
def _msel(I, a, k, n):
    t = getT(I, a[0])
    return I.newloc(T.opaque(I, "masked_select", [E.fn("nsel", I.vn(a[1]), lo=0, isint=True)], (I.vn(a[0]), I.vn(a[1])),
                             t.dtype if t else None, t.dev if t else None, I.deps(a[0]) | I.deps(a[1])))


@op("gather", "take_along_dim")
def _gather(I, a, k, n):
    t, ix = getT(I, a[0]), getT(I, T.kwarg(a, k, 2, "index"))
    d = T.kwarg(a, k, 1, "dim")
    if t is None or ix is None or t.shape is None or ix.shape is None:
        return unknown(I, "gather", a, k)
    if len(t.shape) != len(ix.shape):
        I.ev("shape_error", n, what="gather: index has %d dims, input %d" % (len(ix.shape), len(t.shape)), sym=False)
    I.ev("gather", n, key=(T.toint(I, d),))
    if t.k >= 1 and ix.k == 1 and t.k == 1 and len(t.shape) == len(ix.shape) and normdim(I, t, d, n) == len(t.shape) - 1 \
            and const_leaves(ix.comps, len(t.comps)) and len(t.comps) <= 16:
        al = T.align_lead(t, ix)
        if al is not None:
            return I.newloc(Tensor(al[0] + [ix.shape[-1]], [sel_const(q, al[1]) for q in al[2]], 1, NOROOT,
                                   t.dtype, t.dev, t.deps | ix.deps))
    if t.k >= 1 and ix.k >= 1 and len(t.shape) == len(ix.shape) and t.k == ix.k:
        d0 = normdim(I, t, d, n)
        al = T.align_lead(t, ix)
        if al is not None and d0 is not None and d0 >= len(t.shape) - t.k and all(
                a.c == b.c or j == d0 for j, (a, b) in enumerate(zip(t.shape, ix.shape)) if j >= len(t.shape) - t.k):
            tb, ib = t.block, ix.block
            ax = d0 - (len(t.shape) - t.k)
            st = [1] * t.k
            for q in range(t.k - 2, -1, -1):
                st[q] = st[q + 1] * tb[q + 1]
            out = []
            for e, pos in enumerate(itertools.product(*[range(c) for c in ib])):
                base = sum(st[q] * pos[q] for q in range(t.k) if q != ax)
                out.append(T.sel_node(al[2][e], [al[1][base + st[ax] * q] for q in range(tb[ax])]))
            return I.newloc(Tensor(al[0] + list(ix.shape[len(ix.shape) - ix.k:]), out, t.k, NOROOT, t.dtype, t.dev, t.deps | ix.deps))
    return I.newloc(T.opaque(I, "gather", [Dim(x.size) for x in ix.shape], (T.closed_vn(t), I.vn(d), T.closed_vn(ix)),
                             t.dtype, t.dev, t.deps | ix.deps))


@op("scatter")
def _scatter1(I, a, k, n):
    t, ix, src = getT(I, a[0]), getT(I, T.kwarg(a, k, 2, "index")), getT(I, T.kwarg(a, k, 3, "src"))
    if t is not None and ix is not None and src is not None and t.shape and ix.shape and src.shape and \
            len(a) + len(k) == 4 and t.k == ix.k == src.k == 1 and len(t.shape) == len(ix.shape) == len(src.shape) and \
            normdim(I, t, T.kwarg(a, k, 1, "dim"), n) == len(t.shape) - 1 and len(t.comps) <= 16 and \
            const_leaves(ix.comps, len(t.comps)) and len(src.comps) >= len(ix.comps):
        al = T.align_lead(t, ix)
        al2 = None if al is None else T.align_lead(Tensor(al[0] + [t.shape[-1]], al[1], 1), src)
        if al2 is not None:
            out = list(t.comps)
            for p, q in enumerate(al[2]):
                for j in range(len(out)):
                    out[j] = E.ite(E.eq(q, E.const(j)), al2[2][p], out[j])
            return I.newloc(Tensor(al2[0] + [t.shape[-1]], out, 1, NOROOT, t.dtype, t.dev, t.deps | ix.deps | src.deps))
    if t is not None and ix is not None and src is not None and t.shape and len(a) + len(k) == 4 and t.k == ix.k == src.k == len(t.shape) == len(ix.shape) == len(src.shape) and \
            normdim(I, t, T.kwarg(a, k, 1, "dim"), n) == t.k - 1 and all(d.c == e.c == f.c for d, e, f in zip(t.shape, ix.shape, src.shape)):
        # everything enumerated, known positions in the last direction
        w = t.shape[-1].c
        pos = [E.cval(c) for c in ix.comps]
        if w and all(c is not None and 0 <= c < w for c in pos):
            out = list(t.comps)
            for j, c in enumerate(pos):
                out[j - j % w + int(c)] = src.comps[j]
            return I.newloc(Tensor(list(t.shape), out, t.k, NOROOT, t.dtype, t.dev, t.deps | ix.deps | src.deps))
    return _scatter(I, a, k, n)


@op("scatter_add", "scatter_reduce", "index_add", "index_fill", "index_copy", "put", "index_put")
def _scatter(I, a, k, n):
    t = getT(I, a[0])
    deps = NOROOT
    for x in list(a) + list(k.values()):
        deps = deps | I.deps(x)
    if t is None:
        return unknown(I, "scatter", a, k)
    return I.newloc(T.opaque(I, "scatter", None if t.shape is None else [Dim(d.size) for d in t.shape],
                             [I.vn(x) for x in a] + [(q, I.vn(v)) for q, v in sorted(k.items())], t.dtype, t.dev, deps))


@op("index_select", "take", "select")
def _isel(I, a, k, n):
    t = getT(I, a[0])
    if t is not None and t.shape is not None and len(a) == 3:
        d = normdim(I, t, a[1], n)
        if d is not None:
            return T.index(I, I.resolve(a[0]), t, Tup([Slc(None, None, None)] * d + [a[2]]), n)
    return unknown(I, "index_select", a, k)


@op("narrow")
def _narrow(I, a, k, n):
    t = I.tensor(I.resolve(a[0]))
    d = normdim(I, t, a[1], n) if t is not None and t.shape is not None else None
    if d is not None:
        e = I.binop("Add", a[2], a[3], n)
        return T.index(I, I.resolve(a[0]), t, Tup([Slc(None, None, None)] * d + [Slc(a[2], e, None)]), n)
    return unknown(I, "narrow", a, k)


@op("searchsorted", "bucketize")
def _ss(I, a, k, n):
    t = getT(I, a[1])
    return I.newloc(T.opaque(I, "searchsorted", None if t is None or t.shape is None else [Dim(d.size) for d in t.shape],
                             [I.vn(x) for x in a] + [(q, I.vn(v)) for q, v in sorted(k.items())], "i64",
                             t.dev if t else None, I.deps(a[0]) | I.deps(a[1]), lo=0, isint=True))


def known_unique(I, t, cc, k):
    u = sorted(set(cc))
    pos = {q: j for j, q in enumerate(u)}
    mk = lambda sh, c, dt: I.newloc(Tensor([Dim(d) for d in sh], [E.const(q) for q in c], len(sh), NOROOT, dt, t.dev, t.deps))
    o = [mk([len(u)], u, t.dtype)]
    yes = lambda q: q in k and isinstance(I.resolve(k[q]), Num) and I.resolve(k[q]).c
    if yes("return_inverse"):
        o.append(mk([d.c for d in t.shape], [pos[q] for q in cc], "i64"))
    if yes("return_counts"):
        o.append(mk([len(u)], [cc.count(q) for q in u], "i64"))
    return NTup(o) if len(o) > 1 else o[0]


@op("unique")
def _unique(I, a, k, n):
    t = getT(I, a[0])
    dv = k.get("dim")
    if t is not None and t.shape is not None and t.k == len(t.shape) and dv is None:
        cc = [E.cval(q) for q in t.comps]
        if all(q is not None for q in cc):
            return known_unique(I, t, cc, k)
    sz = E.fn("nuniq", I.vn(a[0]), lo=0, isint=True)
    sh = [sz]
    if dv is not None and t is not None and t.shape is not None:
        d = normdim(I, t, dv, n)
        if d is not None:
            sh = [Dim(q.size) for q in t.shape]
            sh[d] = Dim(sz)
        else:
            sh = None
    elif dv is not None:
        sh = None
    r = T.opaque(I, "unique", sh, (I.vn(a[0]),), t.dtype if t else None, t.dev if t else None, I.deps(a[0]))
    r.tag = "unique"
    o = [I.newloc(r)]
    ex = [q for q in ("return_inverse", "return_counts") if q in k and isinstance(I.resolve(k[q]), Num) and I.resolve(k[q]).c]
    for q in ex:
        o.append(I.newloc(T.opaque(I, "unique_" + q, None if q == "return_inverse" else [sz], (I.vn(a[0]),), "i64",
                                   t.dev if t else None, I.deps(a[0]), lo=0, isint=True)))
    return NTup(o) if ex else o[0]


@op("diff")
def _diff(I, a, k, n):
    t = getT(I, a[0])
    if t is None or t.shape is None or len(t.shape) == 0:
        return unknown(I, "diff", a, k)
    d = normdim(I, t, k.get("dim", Num(-1)), n)
    sh = [Dim(q.size) for q in t.shape]
    sh[d] = Dim(E.sub(sh[d].size, E.ONE))
    return I.newloc(T.opaque(I, "diff", sh, [I.vn(x) for x in a], t.dtype, t.dev, t.deps))


@op("histc", "bincount", "histogram", "unravel_index", "histogramdd")
def _hist(I, a, k, n):
    return unknown(I, "hist", a, k, keep_dtype=False)


OPS["histc"] = lambda I, a, k, n: unknown(I, "histc", a, k, shape=[I.resolve(T.kwarg(a, k, 1, "bins", Num(100))).n]
                                          if isinstance(I.resolve(T.kwarg(a, k, 1, "bins", Num(100))), Num) else None)


# ------------------------------------------------------------------ factories
def factory_meta(I, kw, node, name, default_dtype="DEF", like=None):
    dt, dev = default_dtype, "CPU"
    if like is not None:
        dt, dev = like.dtype, like.dev
    if "dtype" in kw and not T.isnone(I.resolve(kw["dtype"])):
        dt = dtype_of(I, kw["dtype"])
        if dt == "?":
            dt = None
    if "device" in kw:
        d = I.resolve(kw["device"])
        if not T.isnone(d):
            dev = dev_of(I, d)
            if dev == "?":
                dev = None
    I.ev("factory", node, op=name, dtype=str(dt), dev=str(dev), explicit_dev="device" in kw, explicit_dtype="dtype" in kw)
    return dt, dev


def kwdeps(I, a, k):
    deps = NOROOT
    for x in list(a) + [v for q, v in k.items() if q not in ("dtype", "device")]:
        deps = deps | I.deps(x)
    return deps


def const_tensor(I, sizes, node_val, dt, dev, deps, name="full"):
    if sizes is None:
        return I.newloc(Tensor(None, [node_val], dtype=dt, dev=dev, deps=deps))
    dims = [Dim(s) for s in sizes]
    k = T.maxk(dims)
    return I.newloc(Tensor(dims, [node_val] * T.blocksize(dims, k), k, NOROOT, dt, dev, deps))


def _fac(name, val):
    def g(I, a, k, n):
        sz = shape_args(I, [k["size"]] if "size" in k else a)
        dt, dev = factory_meta(I, k, n, name)
        v = val if val is not None else E.fn("uninit", I.freshname("e"))
        return const_tensor(I, sz, v, dt, dev, kwdeps(I, a, k), name)
    return g


OPS["zeros"], OPS["ones"], OPS["empty"] = _fac("zeros", E.ZERO), _fac("ones", E.ONE), _fac("empty", None)


@op("full")
def _full(I, a, k, n):
    sv = T.kwarg(a, k, 0, "size")
    fv = I.resolve(T.kwarg(a, k, 1, "fill_value"))
    c = I.deref(I.resolve(sv))
    if isinstance(c, Num):
        I.ev("type_error", n, what="torch.full size must be a tuple, got a number")
        sz = None
    else:
        sz = shape_args(I, [sv])
    t = T.as_tensor(I, fv)
    dt, dev = factory_meta(I, k, n, "full", (T.pydt(fv) if isinstance(fv, Num) else (t[0].dtype if t else None)))
    v = t[0].comps[0] if t else E.fn("fill", I.vn(fv))
    if "dtype" in k and dt == "u8" and E.cval(v) is not None and E.cval(v) < 0:
        I.ev("type_error", n, what="negative fill value in an unsigned tensor")
    return const_tensor(I, sz, v, dt, dev, kwdeps(I, a, k), "full")


def _like(name, val):
    def g(I, a, k, n):
        t = getT(I, a[0])
        dt, dev = factory_meta(I, k, n, name, None, t if t is not None else None)
        if t is None and "device" not in k:
            dev = None
        v = val
        if name == "full_like":
            f = T.as_tensor(I, I.resolve(T.kwarg(a, k, 1, "fill_value")))
            v = f[0].comps[0] if f else E.fn("fill", I.vn(a[1]))
        elif v is None:
            v = E.fn("uninit", I.freshname("e"))
        sz = None if t is None or t.shape is None else [d.size for d in t.shape]
        deps = NOROOT if t is None else frozenset()
        r = const_tensor(I, sz, v, dt, dev, deps, name)
        return r
    return g


OPS["zeros_like"], OPS["ones_like"], OPS["empty_like"], OPS["full_like"] = (
    _like("zeros_like", E.ZERO), _like("ones_like", E.ONE), _like("empty_like", None), _like("full_like", None))


def _new(name, val):
    def g(I, a, k, n):
        t = getT(I, a[0])
        sz = shape_args(I, a[1:] if name != "new_full" else a[1:2])
        dt, dev = factory_meta(I, k, n, name, None, t)
        v = val if val is not None else E.fn("uninit", I.freshname("e"))
        if name == "new_full":
            f = T.as_tensor(I, I.resolve(a[2]))
            v = f[0].comps[0] if f else v
        return const_tensor(I, sz, v, dt, dev, kwdeps(I, a[1:], k), name)
    return g


for _n, _v in (("new_zeros", E.ZERO), ("new_ones", E.ONE), ("new_empty", None), ("new_full", None)):
    OPS[_n] = _new(_n, _v)
OPS["new_tensor"] = lambda I, a, k, n: OPS["tensor"](I, a[1:], dict(k), n)


@op("eye")
def _eye(I, a, k, n):
    sz = [I.resolve(x) for x in a]
    dt, dev = factory_meta(I, k, n, "eye")
    if all(isinstance(s, Num) and s.c is not None for s in sz) and sz:
        m = sz[0].c
        q = sz[1].c if len(sz) > 1 else m
        if m * q <= T.CAP:
            return I.newloc(Tensor((Dim(m), Dim(q)), [E.ONE if i == j else E.ZERO for i in range(m) for j in range(q)], 2,
                                   NOROOT, dt, dev))
    s = [x.n if isinstance(x, Num) else E.fn("?") for x in sz]
    return I.newloc(T.opaque(I, "eye", (s + s)[:2], tuple(s), dt, dev, kwdeps(I, a, k)))


@op("arange")
def _arange(I, a, k, n):
    vals = [I.resolve(x) for x in a]
    for q in ("start", "end", "step"):
        if q in k:
            vals.append(I.resolve(k[q]))
    ns = []
    isint = True
    deps = NOROOT
    for v in vals:
        t = T.as_tensor(I, v)
        if t is None or len(t[0].comps) != 1:
            dt, dev = factory_meta(I, k, n, "arange", None)
            return I.newloc(T.opaque(I, "arange", [E.fn("arlen", *[I.vn(x) for x in vals], lo=0, isint=True)],
                                     [I.vn(x) for x in vals], dt, dev, kwdeps(I, a, k)))
        ns.append(t[0].comps[0])
        isint = isint and (t[0].dtype in T.INTS or t[0].dtype == "bool")
        deps = deps | t[0].deps
    if len(ns) == 1:
        ns = [E.ZERO, ns[0]]
    if len(ns) == 2:
        ns.append(E.ONE)
    dt, dev = factory_meta(I, k, n, "arange", "i64" if isint else "DEF")
    s, e, st = ns
    cs = [E.cval(x) for x in ns]
    if all(c is not None for c in cs) and cs[2] != 0:
        cnt = max(0, math.ceil((cs[1] - cs[0]) / cs[2] - 1e-12))
        if cnt <= T.CAP:
            return I.newloc(Tensor((Dim(cnt),), [E.const(cs[0] + i * cs[2]) for i in range(cnt)], 1, NOROOT, dt, dev, deps))
    ln = E.div(E.sub(e, s), st)
    if cs[2] != 1:
        ln = E.neg(E.floor(E.neg(ln)))
    iv = IV("ar", s, e, st)
    idx = E.leaf(E.patom(E.atom("ld", "#", (iv,), lo=0, isint=True)))
    return I.newloc(Tensor((Dim(ln, (iv,)),), [E.add(s, E.mul(idx, st))], 0, NOROOT, dt, dev, deps))


@op("linspace", "logspace")
def _linspace(I, a, k, n):
    vals = [I.resolve(x) for x in a]
    for q in ("start", "end", "steps"):
        if q in k:
            vals.append(I.resolve(k[q]))
    dt, dev = factory_meta(I, k, n, "linspace")
    ts = [T.as_tensor(I, v) for v in vals[:3]]
    deps = kwdeps(I, a, k)
    if len(ts) < 3 or any(t is None or len(t[0].comps) != 1 for t in ts):
        st = ts[2] if len(ts) > 2 else None
        sz = st[0].comps[0] if st is not None and len(st[0].comps) == 1 else E.fn("steps", *[I.vn(x) for x in vals], isint=True)
        return I.newloc(T.opaque(I, "linspace", [sz], [I.vn(x) for x in vals], dt, dev, deps))
    s, e, c = [t[0].comps[0] for t in ts]
    I.ev("linspace", n, key=(s.id, e.id, c.id), _s=s, _e=e, _n=c)
    cc = E.cval(c)
    base = {"f": lambda x: x}
    log = getattr(n, "func", None) is not None and "logspace" in getattr(getattr(n, "func", None), "attr", "")
    fin = (lambda x: E.exp(E.mul(x, E.const(math.log(10))))) if log else (lambda x: x)
    if cc is not None and cc <= 16:
        cc = int(cc)
        comps = []
        for i in range(cc):
            f = i / (cc - 1) if cc > 1 else 0
            comps.append(fin(E.add(s, E.mul(E.const(f), E.sub(e, s)))))
        return I.newloc(Tensor((Dim(cc),), comps, 1, NOROOT, dt, dev, deps))
    iv = IV("ls", c)
    idx = E.leaf(E.patom(E.atom("ld", "#", (iv,), lo=0, isint=True)))
    return I.newloc(Tensor((Dim(c, (iv,)),), [fin(E.add(s, E.mul(idx, E.div(E.sub(e, s), E.sub(c, E.ONE)))))], 0, NOROOT,
                           dt, dev, deps))


def nested(I, v):
    """(shape list, flat Num/Node list, dtype, deps, dev) of nested python data"""
    v = I.resolve(v)
    c = I.deref(v)
    if isinstance(c, Num):
        return [], [c.n], T.pydt(c), c.deps, "PY"
    if isinstance(c, (Lst, Tup)):
        if c.items is None:
            return None
        subs = [nested(I, x) for x in c.items]
        if any(s is None for s in subs):
            return None
        if not subs:
            return [0], [], "DEF", NOROOT, "PY"
        sh = subs[0][0]
        if any(s[0] != sh for s in subs):
            return None
        dt = T.promote([(s[2], 0) for s in subs])
        deps = NOROOT
        for s in subs:
            deps = deps | s[3]
        return [len(subs)] + sh, [x for s in subs for x in s[1]], dt, deps, "PY"
    if isinstance(c, Tensor):
        if c.shape is None:
            return None
        if all(d.c is not None for d in c.shape) and c.k == len(c.shape):
            return [d.c for d in c.shape], list(c.comps), c.dtype, c.deps, c.dev
    return None


@op("tensor", "as_tensor", "array", "asarray")
def _tensor(I, a, k, n):
    data = T.kwarg(a, k, 0, "data")
    x = I.resolve(data)
    t = I.tensor(x)
    if t is not None:
        dt, dev = factory_meta(I, k, n, "tensor", t.dtype)
        if "device" not in k:
            dev = t.dev if t.dev != "PY" else "CPU"
        r = cast(I, x, dt if "dtype" in k else None, n, dev, copy=True, how="tensor")
        return r
    r = nested(I, x)
    if r is None:
        c = I.deref(x)
        dt, dev = factory_meta(I, k, n, "tensor", None)
        # sequence of unknown length / symbolic list
        return I.newloc(Tensor(None, [E.fn("tensor", I.vn(x))], dtype=dt, dev="CPU?" if dev == "CPU" else dev, deps=I.deps(x)))
    sh, flat, pdt, deps, _ = r
    dt, dev = factory_meta(I, k, n, "tensor", pdt)
    if "dtype" in k and dt in T.INTS and pdt in ("DEF", "f64"):
        flat = [_trunc(c) for c in flat]
    if dt in ("DEF", "f32") and pdt == "IN":
        I.ev("downcast", n, into=dt, frm="IN", how="tensor")
    dims = [Dim(s) for s in sh]
    kk = 0
    p = 1
    for d in reversed(dims):
        if p * max(d.c, 1) > 4 * T.CAP:
            break
        p *= d.c
        kk += 1
    if kk < len(dims):
        nn = len(flat)
        return I.newloc(T.opaque(I, "table", sh, tuple(flat[:2000]), dt, dev, deps))
    return I.newloc(Tensor(dims, flat, kk, NOROOT, dt, dev, deps, tag="data"))


@op("from_numpy", "from_dlpack", "frombuffer")
def _fromnp(I, a, k, n):
    x = I.resolve(a[0])
    t = I.tensor(x)
    if t is not None:
        return alias(I, x)
    return I.newloc(Tensor(None, [E.fn("from_numpy", I.vn(x))], roots=I.roots(x), dev="CPU", deps=I.deps(x)))


def _rand(name, lo=-E.INF, hi=E.INF):
    def g(I, a, k, n):
        sz = shape_args(I, [q for q in ([k["size"]] if "size" in k else a)])
        dt, dev = factory_meta(I, k, n, name)
        I.ev("random", n, op=name, generator="generator" in k)
        r = T.opaque(I, name, sz, (I.freshname("rnd"),), dt, dev, kwdeps(I, a, k), lo=lo, hi=hi)
        return I.newloc(r)
    return g


OPS["rand"], OPS["randn"] = _rand("rand", 0, 1), _rand("randn")


@op("randint", "randperm", "normal", "multinomial", "poisson")
def _randint(I, a, k, n):
    dt, dev = factory_meta(I, k, n, "randint", "i64")
    I.ev("random", n, op="randint", generator="generator" in k)
    sz = None
    for x in a:
        c = I.deref(I.resolve(x))
        if isinstance(c, (Tup, Lst)):
            sz = shape_args(I, [x])
    if "size" in k:
        sz = shape_args(I, [k["size"]])
    if len(a) == 1 and isinstance(I.resolve(a[0]), Num) and sz is None:
        sz = [I.resolve(a[0]).n]
    return I.newloc(T.opaque(I, "randint", sz, (I.freshname("rnd"),), dt, dev, kwdeps(I, a, k), isint=True))


@op("rand_like", "randn_like", "randint_like")
def _randlike(I, a, k, n):
    t = getT(I, a[0])
    I.ev("random", n, op="rand_like", generator=False)
    return I.newloc(T.opaque(I, "rand_like", None if t is None or t.shape is None else [Dim(d.size) for d in t.shape],
                             (I.freshname("rnd"),), t.dtype if t else None, t.dev if t else None))


@op("uniform", "exponential", "normal_", "random")
def _uniform(I, a, k, n):
    t = getT(I, a[0])
    I.ev("random", n, op="uniform_", generator="generator" in k)
    return I.newloc(T.opaque(I, "uniform", None if t is None or t.shape is None else [Dim(d.size) for d in t.shape],
                             (I.freshname("rnd"),), t.dtype if t else None, t.dev if t else None))


@op("meshgrid")
def _meshgrid(I, a, k, n):
    if len(a) == 1 and I.tensor(I.resolve(a[0])) is None:
        its = I.seq_items(a[0])
        if its is None:
            return Any(tag="meshgrid")
        a = its
    ts = [T.as_tensor(I, I.resolve(x)) for x in a]
    ix = I.resolve(k.get("indexing", Const("ij")))
    if any(t is None or t[0].shape is None or len(t[0].shape) != 1 for t in ts) or not isinstance(ix, Const):
        return Tup([unknown(I, "meshgrid%d" % i, a, k) for i in range(len(a))])
    I.ev("meshgrid", n, indexing=str(ix.v), explicit="indexing" in k)
    order = list(range(len(ts)))
    if ix.v == "xy" and len(ts) >= 2:
        order[0], order[1] = 1, 0
    gs = []
    used = set()
    for i, (t, _) in enumerate(ts):
        g = degen(t)
        m = {}
        ivs = []
        for v in g.shape[0].ivs:
            w = v
            while w in used:
                w = IV(w.name + "'", *w.args)
            used.add(w)
            ivs.append(w)
            if w != v:
                m[v] = w
        gs.append(Tensor((Dim(g.shape[0].size, ivs),), T.rename(g.comps, m), 0, NOROOT, t.dtype, t.dev, t.deps))
    out = []
    dims = [gs[o].shape[0] for o in order]
    for i, g in enumerate(gs):
        out.append(I.newloc(regen(Tensor([d if d is gs[i].shape[0] else Dim(d.size, d.ivs) for d in dims], g.comps, 0, NOROOT,
                                         g.dtype, g.dev, g.deps))))
    return Tup(out)


@named("triu_indices", "tril_indices", "combinations", "cartesian_prod")
def _triu(nm, I, a, k, n):
    if nm in ("combinations", "cartesian_prod"):
        return unknown(I, nm, a, k)
    dt, dev = factory_meta(I, k, n, "triu_indices", "i64")
    nr, nc = [T.toint(I, T.kwarg(a, k, i, x)) for i, x in ((0, "row"), (1, "col"))]
    of = T.kwarg(a, k, 2, "offset")
    of = 0 if of is None else T.toint(I, of)
    if nm in ("triu_indices", "tril_indices") and None not in (nr, nc, of) and nr * nc <= 64:
        ps = [(i, j) for i in range(nr) for j in range(nc) if (j - i >= of if nm == "triu_indices" else j - i <= of)]
        vals = [p[0] for p in ps] + [p[1] for p in ps]
        return I.newloc(Tensor((Dim(2), Dim(len(ps))), [E.const(x) for x in vals], 2, dtype=dt, dev=dev))
    r = T.opaque(I, "triu", None, [I.vn(x) for x in a], dt, dev, kwdeps(I, a, k), lo=0, isint=True)
    return I.newloc(r)


@op("sparse_coo_tensor", "sparse_csr_tensor")
def _sparse(I, a, k, n):
    dt, dev = factory_meta(I, k, n, "sparse", None)
    return I.newloc(Tensor(None, [E.fn("sparse", *[I.vn(x) for x in a])], dtype=dt, dev=dev, deps=kwdeps(I, a, k)))


# fft / nn / misc same-shape-free
@named("view_as_complex", "view_as_real", "fft", "ifft", "rfft", "irfft", "fft2", "ifft2", "fftn", "pad", "avg_pool2d",
    "grid_sample", "interpolate", "conv2d", "unfold", "fold", "max_pool2d", "adaptive_avg_pool2d", "conv1d", "fftfreq",
    "rfftfreq", "cdist", "pdist", "block_diag", "kron", "tensordot", "bitwise_left_shift", "heaviside", "vander", "trapezoid",
    "count_nonzero")
def _generic(nm, I, a, k, n):
    return unknown(I, nm, a, k)


for _n in ("view_as_complex", "view_as_real", "fft", "ifft", "rfft", "irfft", "fft2", "ifft2", "fftn", "pad", "avg_pool2d",
           "grid_sample", "interpolate", "conv2d", "unfold", "fold", "max_pool2d", "adaptive_avg_pool2d", "conv1d", "fftfreq",
           "rfftfreq", "cdist", "pdist", "block_diag", "kron", "tensordot", "heaviside", "vander", "trapezoid",
           "count_nonzero"):
    OPS[_n] = (lambda nm: lambda I, a, k, n: unknown(I, nm, a, k, dtype={"view_as_complex": "cIN?"}.get(nm) and None,
                                                     keep_dtype=nm in ("pad", "avg_pool2d", "grid_sample", "interpolate",
                                                                       "conv2d", "unfold", "fold", "max_pool2d", "tensordot",
                                                                       "block_diag", "kron")))(_n)


@op("view_as_real", "view_as_complex")
def _var(I, a, k, n):
    x = I.resolve(a[0])
    t = I.tensor(x)
    nm = getattr(getattr(n, "func", None), "attr", "view_as_real")
    if t is None:
        return unknown(I, nm, a, k)
    if nm == "view_as_real":
        dt = {"cIN": "IN", "c64": "f32", "c128": "f64", "cDEF": "DEF"}.get(t.dtype)
        sh = None if t.shape is None else [Dim(d.size) for d in t.shape] + [2]
    else:
        dt = {"IN": "cIN", "f32": "c64", "f64": "c128", "DEF": "cDEF"}.get(t.dtype)
        sh = None if t.shape is None else [Dim(d.size) for d in t.shape[:-1]]
        if t.shape and t.k and t.shape[-1].c == 2:
            o = Tensor(list(t.shape[:-1]), [E.fn("complex", t.comps[j], t.comps[j + 1]) for j in range(0, len(t.comps), 2)], t.k - 1, t.roots, dt, t.dev)
            o.deps = t.deps
            o.view = (x.loc, None)
            return I.newloc(o)
    o = T.opaque(I, nm, sh, (T.closed_vn(t),), dt, t.dev, t.deps, t.roots)
    o.view = (x.loc, None)
    return I.newloc(o)


@op("size_hint", "backward", "zero_grad", "step", "register_hook", "retain_grad")
def _noop(I, a, k, n):
    return Const(None)


@op("copy")
def _copyop(I, a, k, n):
    """x.copy_(y): new value of x"""
    if len(a) == 1:
        return _clone(I, a, k, n)
    t, s = I.tensor(I.resolve(a[0])), T.as_tensor(I, I.resolve(a[1]))
    if t is not None and s is not None and t.shape is not None and s[0].shape is not None:
        if s[1] >= 1 and s[0].dtype is not None and t.dtype is not None:
            T.check_store_dtype(I, t, s[0], n)
        z = Tensor(t.shape, [E.ZERO] * len(t.comps), t.k, NOROOT, None, None)
        r = T.ew(I, "copy", lambda p, q: q, [I.newloc(z.but(dtype=t.dtype, dev=t.dev)), a[1]], n, t.dtype)
        return r
    return unknown(I, "copy", a, k, dtype=t.dtype if t else None)


@op("zero")
def _zero(I, a, k, n):
    return OPS["zeros_like"](I, a[:1], {}, n)


@op("fill")
def _fill(I, a, k, n):
    return OPS["full_like"](I, a, k, n)


@op("apply")
def _apply(I, a, k, n):
    return unknown(I, "apply", a, k)


# ------------------------------------------------------------------ dispatch
INPLACE_SPECIAL = {"requires_grad_", "share_memory_"}
METHOD_CAST = {"float", "double", "half", "int", "long", "short", "byte", "bool", "cfloat", "cdouble", "bfloat16"}


def call_op(I, name, args, kw, node, method=False):
    # distribute unresolved choices in the first arguments
    for i, v in enumerate(args[:3]):
        v = I.resolve(v) if isinstance(v, Choice) else v
        if isinstance(v, Choice):
            return I.lift(v, lambda x, i=i: call_op(I, name, args[:i] + [x] + args[i + 1:], kw, node, method))
        args = args[:i] + [v] + args[i + 1:]
    if method and name in METHOD_CAST:
        return OPS["m:" + name](I, args, kw, node)
    if name in ("input",):
        pass
    if method and not args:
        return Any()
    if "input" in kw and not method:
        args = [kw["input"]] + list(args)
        kw = {q: v for q, v in kw.items() if q != "input"}
    out = kw.pop("out", None) if "out" in kw else None
    inpl = name.endswith("_") and not name.endswith("__") and name not in INPLACE_SPECIAL
    base = name[:-1] if inpl else name
    T.argmix(I, base, args, kw, node)
    f = I.ext_hooks.get(base) or OPS.get(base)
    if f is None:
        I.unknown_ops[base] = I.unknown_ops.get(base, 0) + 1
        if I.tensor(args[0]) is not None if args else False:
            r = unknown(I, base, args, kw)
        else:
            r = unknown(I, base, args, kw)
    else:
        try:
            r = f(I, list(args), dict(kw), node)
        except (IndexError, KeyError, AttributeError, TypeError, ValueError, ZeroDivisionError, OverflowError,
                NotImplementedError, E.TooBig, RecursionError) as ex:
            I.unknown_ops["!" + base + ":" + type(ex).__name__] = I.unknown_ops.get("!" + base, 0) + 1
            if DEBUG:
                raise
            r = unknown(I, base, args, kw)
    if inpl:
        x = args[0]
        nt = I.tensor(r)
        if nt is not None and I.tensor(x) is not None:
            if base in ("unsqueeze", "squeeze", "t", "transpose", "requires_grad", "detach"):
                t = I.tensor(x)
                if base == "detach":
                    return x
                if base != "requires_grad" and isinstance(x, Ref) and x.loc in getattr(I, "arglocs", ()) and t.roots:
                    I.ev("mutate", node, roots=tuple(sorted(t.roots)), how=name, must=True)
                I.store[x.loc] = nt.but(roots=t.roots)
                return x
            I.inplace(x, nt, node, how=name)
        elif isinstance(I.deref(x), Any) and I.roots(x):
            I.ev("mutate", node, roots=tuple(sorted(I.roots(x))), how=name, must=False)
        return x
    if out is not None:
        o = I.resolve(out)
        nt = I.tensor(r)
        if nt is not None and I.tensor(o) is not None:
            I.inplace(o, nt, node, how="out=")
        elif I.roots(o):
            I.ev("mutate", node, roots=tuple(sorted(I.roots(o))), how="out=", must=False)
        return o
    return r


DEBUG = False
TORCHNS = ("torch.", "torch.nn.functional.", "torch.linalg.", "torch.fft.", "torch.special.", "numpy.", "torch.Tensor.",
           "torch.functional.", "numpy.linalg.", "numpy.fft.")
IDENT_DECOR = {"torch.jit.script", "torch.jit.ignore", "torch.jit.export", "torch.no_grad", "torch.compile",
               "torch.inference_mode", "torch.jit.unused"}
PYMATH = {"sqrt", "sin", "cos", "tan", "acos", "asin", "atan", "exp", "log", "floor", "ceil", "fabs", "log2", "log10",
          "tanh", "sinh", "cosh", "erf", "lgamma", "expm1", "log1p", "radians", "degrees", "trunc"}
# external calls with effects outside their arguments
EFFECTS = ("torch.manual_seed", "torch.set_", "torch.use_", "numpy.random.seed", "random.seed", "os.environ", "os.remove",
           "os.unlink", "os.rmdir", "os.rename", "shutil.", "os.makedirs", "os.mkdir", "torch.backends", "warnings.filter",
           "torch.cuda.set_", "torch.cuda.manual_seed", "torch.seed", "torch.random.manual_seed", "os.chdir", "os.putenv",
           "os.system", "subprocess.", "torch.autograd.set_", "torch.random.", "sys.setrecursionlimit", "torch.save",
           "numpy.save", "numpy.savetxt", "torch.serialization", "sys.path", "torch.jit.save", "locale.", "gc.",
           "torch.default_generator", "matplotlib.pyplot.savefig", "matplotlib.use", "torch.set_default_dtype")


def call_ext(I, path, args, kw, n):
    args = [I.resolve(a) for a in args]
    I.ev("extcall", n, path=path)
    if path.startswith("builtins."):
        return call_builtin(I, path[9:], args, kw, n)
    if path in IDENT_DECOR:
        return args[0] if args else Ext("ident")
    if path == "ident":
        return args[0] if args else NONE_
    if path.startswith("math."):
        nm = path[5:]
        return call_math(I, nm, args, kw, n)
    if path == "torch.device":
        a = args[0] if args else None
        if isinstance(a, Const) and isinstance(a.v, str):
            return Device("CPU" if a.v == "cpu" else a.v.split(":")[0])
        if isinstance(a, Device):
            return a
        return Device(dev_of(I, a) if a is not None else None)
    if path in ("torch.is_tensor",):
        t = I.tensor(args[0])
        return Num(t is not None)
    if path in ("torch.Size",):
        return args[0] if args else Tup([])
    if path in ("torch.get_default_dtype",):
        return DType("DEF")
    if path in ("torch.promote_types", "torch.result_type"):
        return DType(None)
    if path in ("torch.nn.Parameter",):
        t = I.tensor(args[0]) if args else None
        if t is not None:
            r = alias(I, args[0])
            if isinstance(r, Ref):
                I.params.add(r.loc)
            return r
        return Any(I.deps(args[0]) if args else NOROOT, tag="param")
    if path.startswith("torch.jit.annotate") and len(args) == 2:
        return args[1]
    if path in ("h5py.File", "builtins.open"):
        mode = T.kwarg(args, kw, 1, "mode")
        mv = I.resolve(mode) if mode is not None else None
        I.ev("open", n, lib=path, mode=(mv.v if isinstance(mv, Const) else None) if mode is not None else "default")
    for e in EFFECTS:
        if path.startswith(e):
            I.ev("effect", n, path=path)
    if path in ("copy.copy", "copy.deepcopy") and args:
        c = I.deref(args[0])
        if isinstance(c, Tensor):
            return I.newloc(c.but(roots=NOROOT if path.endswith("deepcopy") else c.roots, view=None))
        return args[0]
    if path.startswith("random.") or path.startswith("numpy.random."):
        I.ev("random", n, op=path, generator=False)
        return Num(E.fn("pyrand", I.freshname("r")))
    for ns in TORCHNS:
        if path.startswith(ns) and "." not in path[len(ns):]:
            nm = path[len(ns):]
            if ns == "numpy." and nm in T.DT and args:
                return args[0]
            if nm in ("bool", "float", "int"):
                return args[0] if args else Num(0)
            if nm in OPS or (nm.endswith("_") and nm[:-1] in OPS):
                if ns == "numpy." and not any(I.tensor(a) is not None for a in args) and nm in PYMATH and args and \
                        isinstance(args[0], Num):
                    return call_math(I, nm, args, kw, n)
                return call_op(I, nm, args, kw, n)
            if nm in ("FloatTensor", "LongTensor", "Tensor"):
                return OPS["tensor"](I, args, {**kw}, n)
            break
    deps = NOROOT
    roots = NOROOT
    for a in list(args) + list(kw.values()):
        deps = deps | I.deps(a)
    I.unknown_ops["ext:" + path] = I.unknown_ops.get("ext:" + path, 0) + 1
    return Any(deps, tag=("ext", path) + tuple(I.vn(a) for a in args) + tuple((q, I.vn(v)) for q, v in sorted(kw.items())))


NONE_ = Const(None)


def call_math(I, nm, args, kw, n):
    if nm == "prod" and args:
        its = I.seq_items(args[0])
        its = None if its is None else [I.resolve(x) for x in its]
        if its is not None and all(isinstance(x, Num) for x in its):
            r, deps = E.ONE, I.deps(args[0])
            for x in its + ([kw["start"]] if "start" in kw else []):
                if not isinstance(x, Num):
                    return Any(deps, tag=("math", nm) + tuple(I.vn(a) for a in args))
                r, deps = E.mul(r, x.n), deps | x.deps
            return Num(r, isint=all(x.isint for x in its), deps=deps)
    if not args or not isinstance(args[0], Num):
        t = I.tensor(args[0]) if args else None
        if t is not None and len(t.comps) == 1:
            args = [Num(t.comps[0], t.dtype in T.INTS, deps=t.deps)] + args[1:]
        else:
            deps = NOROOT
            for a in args:
                deps = deps | I.deps(a)
            return Any(deps, tag=("math", nm) + tuple(I.vn(a) for a in args))
    x = args[0]
    deps = x.deps
    c = x.c
    if nm == "radians":
        return Num(E.mul(x.n, E.const(math.pi / 180)), deps=deps)
    if nm == "degrees":
        return Num(E.mul(x.n, E.const(180 / math.pi)), deps=deps)
    if nm in SINKS and nm in UN:
        T.sink(I, nm, n, [x.n], dtype="py")
    if c is not None and len(args) == 1 and hasattr(math, nm):
        try:
            r = getattr(math, nm)(c)
            if isinstance(r, (int, float, bool)):
                return Num(r, deps=deps)
        except (ValueError, OverflowError):
            return Num(E.fn("matherr", nm), deps=deps)
    if nm in UN:
        return Num(UN[nm](x.n), isint=nm in ("floor", "ceil", "trunc"), deps=deps)
    if nm == "fabs":
        return Num(E.abs_(x.n), deps=deps)
    if len(args) == 2 and isinstance(args[1], Num):
        y = args[1]
        d2 = deps | y.deps
        if nm == "atan2":
            return Num(E.atan2(x.n, y.n), deps=d2)
        if nm == "pow":
            return Num(T.powf(x.n, y.n), deps=d2)
        if nm == "hypot":
            return Num(E.sqrt(E.add(E.mul(x.n, x.n), E.mul(y.n, y.n))), deps=d2)
        if nm == "log":
            return Num(E.div(E.log(x.n), E.log(y.n)), deps=d2)
        if c is not None and y.c is not None and hasattr(math, nm):
            try:
                return Num(getattr(math, nm)(c, y.c))
            except Exception:
                pass
    for a in args[1:]:
        deps = deps | I.deps(a)
    return Num(E.fn("math." + nm, *[I.vn(a) for a in args]), nm in ("comb", "factorial", "gcd", "isqrt"),
               nm in ("isnan", "isclose"), deps)


ISINST = {"Tensor": Tensor, "torch.Tensor": Tensor, "list": Lst, "tuple": Tup, "dict": Dct}


def call_builtin(I, nm, args, kw, n):
    a0 = args[0] if args else None
    c0 = I.deref(a0) if a0 is not None else None
    deps = NOROOT
    for a in list(args) + list(kw.values()):
        deps = deps | I.deps(a)
    if nm == "len":
        if isinstance(c0, (Tup, Lst)) and c0.items is not None:
            return Num(len(c0.items))
        if isinstance(c0, Tensor):
            if c0.shape is not None and c0.shape:
                return T.dimnum(c0.shape[0])
            return Num(E.fn("len", I.vn(a0), lo=0, isint=True), True, deps=deps)
        if isinstance(c0, Const) and isinstance(c0.v, str):
            return Num(len(c0.v))
        if isinstance(c0, Dct) and not c0.unknown:
            return Num(len(c0.items))
        if isinstance(c0, Rng):
            its = I.seq_items(a0)
            if its is not None:
                return Num(len(its))
        return Num(E.fn("len", I.vn(a0), lo=0, isint=True), True, deps=deps)
    if nm == "range":
        xs = []
        for a in args:
            if isinstance(a, Num):
                xs.append(a)
            else:
                t = I.tensor(a)
                xs.append(Num(t.comps[0], True, deps=t.deps) if t is not None and len(t.comps) == 1 else Num(
                    E.fn("rint", I.vn(a), isint=True), True, deps=I.deps(a)))
        I.ev("range", n, key=tuple(x.n.id for x in xs), _args=tuple(x.n for x in xs))
        if len(xs) == 1:
            return Rng(Num(0), xs[0], Num(1))
        if len(xs) == 2:
            return Rng(xs[0], xs[1], Num(1))
        return Rng(*xs[:3])
    if nm in ("int", "round", "float", "bool", "abs"):
        if isinstance(c0, Tensor):
            if len(c0.comps) == 1:
                c0 = Num(c0.comps[0], c0.dtype in T.INTS, c0.dtype == "bool", c0.deps)
            else:
                return Num(E.fn(nm, I.vn(a0)), nm == "int", deps=deps)
        if isinstance(c0, Num):
            if nm == "float":
                return Num(c0.n, False, deps=c0.deps)
            if nm == "bool":
                return Num(E.to_bool(c0.n), isbool=True, deps=c0.deps)
            if nm == "abs":
                return Num(E.abs_(c0.n), c0.isint, deps=c0.deps)
            if nm == "int":
                return Num(_trunc(c0.n), True, deps=c0.deps)
            if len(args) == 1:
                return Num(_round(c0.n), True, deps=c0.deps)
            return Num(E.fn("round", c0.n, I.vn(args[1])), deps=deps)
        if isinstance(c0, Const) and isinstance(c0.v, str):
            try:
                return Num({"int": int, "float": float}[nm](c0.v))
            except Exception:
                pass
        return Num(E.fn("py" + nm, I.vn(a0) if a0 is not None else None, isint=nm == "int"), nm == "int", nm == "bool", deps)
    if nm in ("max", "min"):
        its = args if len(args) > 1 else I.seq_items(a0)
        if its is not None and its and all(isinstance(I.resolve(x), Num) for x in its) and "key" not in kw:
            its = [I.resolve(x) for x in its]
            r = its[0].n
            for x in its[1:]:
                r = (E.max_ if nm == "max" else E.min_)(r, x.n)
            return Num(r, all(x.isint for x in its), deps=deps)
        if isinstance(c0, Tensor) and len(args) == 1:
            return OPS[nm](I, args, {}, n)
        return Num(E.fn("py" + nm, *[I.vn(a) for a in args]), deps=deps)
    if nm == "sum":
        its = I.seq_items(a0)
        if its is not None:
            r = args[1] if len(args) > 1 else Num(0)
            for x in its:
                r = I.binop("Add", r, x, n)
            return r
        return Any(deps, tag=("sum", I.vn(a0)))
    if nm == "isinstance":
        cl = args[1]
        names = [x.path if isinstance(x, Ext) else (x.qual if isinstance(x, Cls) else "?") for x in (
            cl.items if isinstance(cl, Tup) else [cl])]
        res = None
        for q in names:
            b = q.split(".")[-1]
            r = None
            if isinstance(c0, Tensor):
                r = b == "Tensor"
            elif isinstance(c0, Num):
                r = {"int": c0.isint or c0.isbool, "float": not c0.isint and not c0.isbool, "bool": c0.isbool}.get(b, False)
                if b in ("int", "float") and c0.c is None and not c0.isint and not c0.isbool:
                    r = b == "float"
            elif isinstance(c0, (Lst, Tup, Dct)):
                r = b == {Lst: "list", Tup: "tuple", Dct: "dict"}[type(c0)] or (b == "Size" and isinstance(c0, Tup))
            elif isinstance(c0, Const):
                r = (b == "str") if isinstance(c0.v, str) else False
            elif isinstance(c0, Str):
                r = b == "str"
            elif isinstance(c0, Obj) and c0.cls is not None:
                r = c0.cls.qual.split(":")[-1] == q.split(":")[-1] or None
            if r is True:
                return Num(True)
            res = None if r is None or res == "?" else False
            if r is None:
                res = "?"
        if res is False:
            return Num(False)
        return Num(E.bool_atom("isinstance", I.vn(a0), tuple(names)), isbool=True, deps=deps)
    if nm in ("list", "tuple", "set", "frozenset", "sorted", "reversed"):
        if a0 is None:
            return I.newloc(Lst([])) if nm in ("list", "set") else Tup([])
        its = I.seq_items(a0)
        if its is not None:
            if nm == "reversed":
                its = its[::-1]
            if nm == "sorted":
                if all(isinstance(x, Num) and x.c is not None for x in its) and not kw:
                    its = sorted(its, key=lambda x: x.c)
                else:
                    return Any(deps, I.roots(a0), tag=("sorted", I.vn(a0)))
            return Tup(its) if nm == "tuple" else I.newloc(Lst(its))
        if isinstance(c0, (USeq, Lst)) and c0.elem is not None:
            return I.newloc(Lst(None, c0.elem))
        return Any(deps, I.roots(a0), tag=(nm, I.vn(a0)))
    if nm == "dict":
        d = {}
        if isinstance(c0, Dct):
            d.update(c0.items)
        d.update(kw)
        return I.newloc(Dct(d, isinstance(c0, Dct) and c0.unknown))
    if nm == "zip":
        ls = [I.seq_items(a) for a in args]
        if all(x is not None for x in ls):
            return I.newloc(Lst([Tup(list(x)) for x in zip(*ls)]))
        return USeq(Tup([(l[0] if l else Any()) if l is not None else I.loop_elem(a, n) for l, a in zip(ls, args)]), deps=deps)
    if nm == "enumerate":
        its = I.seq_items(a0)
        st = 0
        sv = T.kwarg(args, kw, 1, "start")
        if sv is not None and isinstance(sv, Num) and sv.c is not None:
            st = sv.c
        if its is not None:
            return I.newloc(Lst([Tup([Num(i + st), x]) for i, x in enumerate(its)]))
        return USeq(Tup([Num(E.fn("i", E.ZERO, E.fn("len", I.vn(a0), lo=0, isint=True), E.ONE, lo=0, isint=True), True),
                         I.loop_elem(a0, n)]), deps=deps)
    if nm == "print":
        I.ev("print", n)
        return NONE_
    if nm == "hasattr":
        k = args[1]
        if isinstance(c0, Obj) and isinstance(k, Const):
            if k.v in c0.attrs:
                v = c0.attrs[k.v]
                if isinstance(v, Choice) and any(isinstance(x, Const) and x.v == "<undef>" for x in (v.a, v.b)):
                    r = E.not_(v.cond) if isinstance(v.a, Const) and v.a.v == "<undef>" else v.cond
                    return Num(r, isbool=True)
                I.ev("hasattr", n, name=k.v, known=True)
                return Num(True)
            if I.repo.find_method(c0.cls.mod, c0.cls.node, k.v) if c0.cls else None:
                I.ev("hasattr_method", n, name=k.v, cls=c0.cls.qual)
                return Num(True)
            if not c0.opaque:
                return Num(False)
        return Num(E.bool_atom("hasattr", I.vn(a0), I.vn(k)), isbool=True, deps=deps)
    if nm == "getattr":
        k = args[1]
        if isinstance(k, Const) and isinstance(k.v, str):
            if isinstance(c0, Obj) and k.v not in c0.attrs and len(args) > 2 and not c0.opaque:
                return args[2]
            return I.attr(a0, k.v, n)
        return Any(deps, tag=("getattr", I.vn(a0), I.vn(k)))
    if nm == "setattr":
        if isinstance(args[1], Const):
            I.setattr(a0, args[1].v, args[2], n)
        return NONE_
    if nm in ("any", "all"):
        its = I.seq_items(a0)
        if its is not None:
            r = E.ZERO if nm == "any" else E.ONE
            for x in its:
                r = E.or_(r, I.truth(x)) if nm == "any" else E.and_(r, I.truth(x))
            return Num(r, isbool=True, deps=deps)
        return Num(E.bool_atom(nm, I.vn(a0)), isbool=True, deps=deps)
    if nm == "map" and len(args) == 2:
        its = I.seq_items(args[1])
        if its is not None:
            return I.newloc(Lst([I.call(args[0], [x], {}, n) for x in its]))
        return USeq(I.call(args[0], [I.loop_elem(args[1], n)], {}, n), deps=deps)
    if nm == "str":
        return Any(deps, tag="str") if not isinstance(c0, Const) else Const(str(c0.v))
    if nm == "slice":
        xs = args + [NONE_] * (3 - len(args))
        if len(args) == 1:
            return Slc(None, args[0], None)
        return Slc(*[None if T.isnone(x) else x for x in xs[:3]])
    if nm == "divmod":
        return Tup([I.binop("FloorDiv", args[0], args[1], n), I.binop("Mod", args[0], args[1], n)])
    if nm == "pow":
        return I.binop("Pow", args[0], args[1], n)
    if nm == "open":
        mode = T.kwarg(args, kw, 1, "mode")
        mv = I.resolve(mode) if mode is not None else None
        I.ev("open", n, lib="open", mode=(mv.v if isinstance(mv, Const) else None) if mode is not None else "r")
        return Any(deps, tag="file")
    if nm == "next" or nm == "iter":
        if isinstance(c0, (USeq,)) and c0.elem is not None:
            return c0.elem if nm == "next" else a0
        return Any(deps, tag=(nm, I.vn(a0)))
    if nm == "super":
        return Any(tag="super")
    if nm == "type":
        if isinstance(c0, Obj) and c0.cls is not None:
            return c0.cls
        return Any(deps, tag=("type", I.vn(a0)))
    if nm == "id" or nm == "hash":
        return Num(E.fn(nm, I.vn(a0), isint=True), True)
    if nm == "property":
        return a0
    return Any(deps, tag=("builtin", nm) + tuple(I.vn(a) for a in args))


def py_method(I, recv, c, name, args, kw, n):
    deps = I.deps(recv)
    for a in list(args) + list(kw.values()):
        deps = deps | I.deps(a)
    if isinstance(c, Lst):
        roots0 = getattr(c, "roots0", None)
        if name in ("append", "extend", "insert", "pop", "sort", "reverse", "clear", "remove"):
            its = None if c.items is None else list(c.items)
            r = NONE_
            I.touched(recv, n)
            if name == "append":
                if its is not None:
                    its.append(args[0])
                    I.store[recv.loc] = Lst(its)
                else:
                    el = args[0] if c.elem is None else I.join(E.bool_atom(I.freshname("j")), c.elem, I.store, args[0],
                                                               I.store, I.store)
                    I.store[recv.loc] = Lst(None, el)
                return NONE_
            if name == "extend":
                ot = I.seq_items(args[0])
                if its is not None and ot is not None:
                    I.store[recv.loc] = Lst(its + list(ot))
                else:
                    I.store[recv.loc] = Lst(None, (ot or its or [c.elem])[0])
                return NONE_
            if name == "pop" and its:
                i = T.toint(I, args[0]) if args else -1
                if i is not None and -len(its) <= i < len(its):
                    v = its.pop(i)
                    I.store[recv.loc] = Lst(its)
                    return I.resolve(v)
            if name == "insert" and its is not None and T.toint(I, args[0]) is not None:
                its.insert(T.toint(I, args[0]), args[1])
                I.store[recv.loc] = Lst(its)
                return NONE_
            if name == "reverse" and its is not None:
                I.store[recv.loc] = Lst(its[::-1])
                return NONE_
            I.store[recv.loc] = Lst(None, (its or [c.elem])[0] if (its or c.elem is not None) else None)
            return (its or [Any()])[0] if name == "pop" else NONE_
        if name == "copy":
            return I.newloc(Lst(None if c.items is None else list(c.items), c.elem))
        if name == "index" and c.items is not None:
            for i, x in enumerate(c.items):
                x, y = I.deref(I.resolve(x)), I.deref(args[0])
                e = I.equal(x, y)
                if e is E.ONE:
                    return Num(i)
                if e is not E.ZERO:
                    break
            return Num(E.fn("lindex", I.vn(recv), I.vn(args[0]), lo=0, isint=True), True, deps=deps)
        if name == "count":
            return Num(E.fn("lcount", I.vn(recv), I.vn(args[0]), lo=0, isint=True), True, deps=deps)
    if isinstance(c, Tup):
        if isinstance(c, NTup) and name in ("values", "indices"):
            return c.items[0 if name == "values" else 1]
        if name == "numel":
            r = E.ONE
            for x in c.items:
                if isinstance(x, Num):
                    r = E.mul(r, x.n)
            return Num(r, True)
    if isinstance(c, Dct):
        if name == "keys":
            if not c.unknown:
                return I.newloc(Lst([Const(q) if not isinstance(q, (int, float)) else Num(q) for q in c.items]))
            return Any(deps, tag=("keys", I.vn(recv)))
        if name == "values":
            if not c.unknown:
                return I.newloc(Lst(list(c.items.values())))
            return USeq(list(c.items.values())[0] if c.items else Any(), deps=deps)
        if name == "items":
            if not c.unknown:
                return I.newloc(Lst([Tup([Const(q) if not isinstance(q, (int, float)) else Num(q), v]) for q, v in
                                     c.items.items()]))
            return USeq(Tup([Any(tag="key"), list(c.items.values())[0] if c.items else Any()]), deps=deps)
        if name in ("pop", "setdefault"):
            I.touched(recv, n, args[0], args[1] if len(args) > 1 else None)
        if name in ("get", "pop", "setdefault"):
            kk = I.dkey(args[0])
            if kk is not None and kk in c.items:
                return I.resolve(c.items[kk])
            if kk is not None and not c.unknown:
                return args[1] if len(args) > 1 else NONE_
            return Any(deps, tag=("dget", I.vn(recv), I.vn(args[0])))
        if name == "update":
            I.touched(recv, n)
            d = dict(c.items)
            o = I.deref(args[0]) if args else None
            unk = c.unknown
            if isinstance(o, Dct):
                d.update(o.items)
                unk = unk or o.unknown
            d.update(kw)
            I.store[recv.loc] = Dct(d, unk)
            return NONE_
        if name == "copy":
            return I.newloc(Dct(dict(c.items), c.unknown))
    if isinstance(c, Obj):
        if name in ("register_buffer", "register_parameter") and len(args) >= 2 or name in ("register_buffer",) and args:
            nm = args[0]
            v = args[1] if len(args) > 1 else kw.get("tensor", NONE_)
            if isinstance(nm, Const):
                at = dict(c.attrs)
                at[nm.v] = v
                I.buffers.add((recv.loc, nm.v))
                I.store[recv.loc] = Obj(c.cls, at, c.opaque)
                I.ev("register_buffer", n, name=nm.v, cls=c.cls.qual if c.cls else "?")
            return NONE_
        if name in ("to", "cuda", "cpu", "eval", "train", "float", "double", "half", "requires_grad_"):
            if name in ("to", "cuda", "cpu"):
                from .wide import move_module
                for x in list(args) + list(kw.values()):
                    x = I.resolve(x)
                    if isinstance(x, (Device, Str, Any, Choice)) or (isinstance(x, Const) and isinstance(x.v, str)):
                        d = dev_of(I, x)
                        move_module(I, recv, dev=None if d == "?" else d)
            return recv
        return Any(deps, tag=("objm", name))
    if isinstance(c, Const) and isinstance(c.v, str):
        if all(isinstance(a, Const) for a in args) and not kw:
            try:
                r = getattr(c.v, name)(*[a.v for a in args])
                if isinstance(r, str):
                    return Const(r)
                if isinstance(r, (bool, int)):
                    return Num(r)
                if isinstance(r, list):
                    return I.newloc(Lst([Const(x) for x in r]))
            except Exception:
                pass
        return Any(deps, tag=("strm", name))
    if isinstance(c, Str):
        if name in ("lower", "upper", "strip"):
            return c if c.unlisted else Str(c.name + "." + name, c.deps)
        if c.unlisted and name in ("startswith", "endswith") and args and isinstance(I.resolve(args[0]), Const):
            I.compared.add(c.name)
            return Num(False)
        return Num(E.bool_atom("strm", c.name, name, *[I.vn(a) for a in args]), isbool=True, deps=deps)
    if isinstance(c, Num):
        if name in ("item", "real", "float", "conjugate"):
            return c
        if name == "is_integer":
            return Num(E.eq(E.floor(c.n), c.n), isbool=True)
    return Any(deps, tag=("m", I.vn(recv), name) + tuple(I.vn(a) for a in args))
