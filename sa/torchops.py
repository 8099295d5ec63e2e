"""Abstract semantics of the torch / python operations the repository uses."""
import itertools
import math
from fractions import Fraction
from . import expr as E
from .values import *

CAP = 160
ENUM, WORK = 16, 3000       # contraction labels and products enumerated
DT = {"float": "f32", "float32": "f32", "double": "f64", "float64": "f64", "half": "f16",
      "float16": "f16", "bfloat16": "bf16", "int": "i32", "int32": "i32", "long": "i64",
      "int64": "i64", "short": "i16", "int16": "i16", "uint8": "u8", "int8": "i8", "bool": "bool",
      "complex64": "c64", "complex128": "c128", "cfloat": "c64", "cdouble": "c128"}
FLOATS = {"f64", "f32", "f16", "bf16", "IN", "DEF"}
INTS = {"i64", "i32", "i16", "i8", "u8"}
CPLX = {"c64", "c128", "cIN", "cDEF"}


def cat_of(dt):
    if dt == "bool":
        return 0
    if dt in INTS:
        return 1
    if dt in FLOATS:
        return 2
    if dt in CPLX:
        return 3
    return None


_RANK = {"u8": 0, "i8": 0, "i16": 1, "i32": 2, "i64": 3, "f16": 0, "bf16": 0, "DEF": 1, "f32": 1, "IN": 2,
         "f64": 3, "c64": 1, "cDEF": 1, "cIN": 2, "c128": 3, "bool": 0}


def prom2(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    ca, cb = cat_of(a), cat_of(b)
    if ca != cb:
        if ca == 3 or cb == 3:
            c, o = (a, b) if ca == 3 else (b, a)
            if o == "f64":
                return "c128"
            if o == "IN" and c in ("c64", "cDEF"):
                return "cIN"
            return c
        return a if ca > cb else b
    return a if _RANK[a] >= _RANK[b] else b


def promote(ops):
    """ops: list of (dtype, level) level 2 dimmed, 1 zero-dim tensor, 0 python number"""
    res = None
    for lvl in (2, 1, 0):
        ds = [d for d, l in ops if l == lvl]
        if not ds:
            continue
        if any(d is None for d in ds):
            return None
        r = ds[0]
        for d in ds[1:]:
            r = prom2(r, d)
            if r is None:
                return None
        if res is None:
            res = r
        elif cat_of(r) > cat_of(res):
            if lvl == 0 and r == "DEF":
                res = "DEF"
            elif lvl == 0 and r == "cDEF":
                res = {"IN": "cIN", "f64": "c128", "f32": "c64"}.get(res, "cDEF")
            else:
                res = r
    return res


def pydt(n):
    return "bool" if n.isbool else ("i64" if n.isint else "DEF")


# --------------------------------------------------------------------------- renaming
def rename(nodes, m):
    """rename index variables in a list of nodes; m: dict IV -> IV"""
    if not m:
        return list(nodes)

    def argf(x):
        return ren_iv(x, m) if isinstance(x, IV) else x
    s = E.Subst(lambda a: None, argf)
    return [s.node(n) for n in nodes]


def ren_iv(iv, m):
    if iv in m:
        return m[iv]
    if not iv.args:
        return iv
    na = []
    ch = False
    for a in iv.args:
        if isinstance(a, IV):
            b = ren_iv(a, m)
        elif isinstance(a, E.Node):
            b = rename([a], m)[0]
        else:
            b = a
        ch = ch or (b is not a and b != a)
        na.append(b)
    return IV(iv.name, *na) if ch else iv


_CV = {}


def closed_vn(t):
    k = id(t)
    c = _CV.get(k)
    if c is not None and c[0] is t:
        return c[1]
    if t.shape is None:
        r = ("T", None) + tuple(t.comps)
    else:
        m = {}
        for p, d in enumerate(t.shape):
            for j, iv in enumerate(d.ivs):
                m[iv] = IV("$", p, j)
        try:
            r = ("T", tuple(d.size for d in t.shape), t.k) + tuple(rename(t.comps, m))
        except RecursionError:
            r = ("T", tuple(d.size for d in t.shape), t.k) + tuple(t.comps)
    _CV[k] = (t, r)
    return r


def align_lead(t, u):
    """(leading dims, components of t, components of u renamed to the same index variables)
    or None if the leading sizes differ"""
    m = {}
    if len(t.shape) - t.k != len(u.shape) - u.k:
        return None
    lead = []
    for d, e in zip(t.shape[:len(t.shape) - t.k], u.shape[:len(u.shape) - u.k]):
        if d.size is not e.size:
            return None
        if not d.ivs or not e.ivs:
            lead.append(d if d.ivs else e)
            continue
        if len(d.ivs) != len(e.ivs):
            return None
        lead.append(d)
        for x, y in zip(d.ivs, e.ivs):
            if x is not y:
                m[y] = x
    return lead, list(t.comps), rename(u.comps, m)


# --------------------------------------------------------------------------- helpers
def symk(*sizes):
    """False: sizes constant; True: sizes are polynomials of free dims (definite for generic
    sizes); None: they contain data dependent parts"""
    r = False
    for s in sizes:
        if isinstance(s, Dim):
            s = s.size
        if s is None:
            continue
        if E.cval(s) is not None:
            continue
        if s.leaf is None:
            return None
        for m, c in s.leaf.terms:
            for a, e in m:
                if a.kind != "sym" or not str(a.args[0]).startswith("dim:"):
                    return None
        r = True
    return r


def dims_c(shape):
    return [d.c for d in shape]


def blocksize(shape, k):
    n = 1
    for d in shape[len(shape) - k:] if k else ():
        n *= d.c
    return n


def maxk(shape):
    k, n = 0, 1
    for d in reversed(shape):
        if d.c is None or n * max(d.c, 1) > CAP:
            break
        n *= d.c
        k += 1
    return k


def mk(I, t):
    return I.newloc(t)


def opaque(I, name, shape, vns, dtype=None, dev=None, deps=NOROOT, roots=NOROOT, lo=-E.INF, hi=E.INF,
           isint=False, ivs=None):
    """fresh value determined by vns; shape list of Dim sizes (Node/int/Dim) or None"""
    vns = tuple(vns)
    if shape is None:
        return Tensor(None, [E.fn(name, *vns, lo=lo, hi=hi, isint=isint)], roots=roots, dtype=dtype,
                      dev=dev, deps=deps)
    dims = []
    for p, s in enumerate(shape):
        if isinstance(s, Dim):
            sz = s.size
        else:
            sz = E.const(s) if isinstance(s, (int, float)) else s
        dims.append(Dim(sz, (IV("o%d" % p),)))
    k = maxk(dims)
    # trailing constant dims are enumerated
    for i in range(len(dims) - k, len(dims)):
        dims[i] = Dim(dims[i].size)
    for i in range(len(dims) - k):
        if dims[i].c == 1:
            dims[i] = Dim(1)
    iv = tuple(v for d in dims for v in d.ivs)
    comps = []
    for idx in itertools.product(*[range(d.c) for d in dims[len(dims) - k:]]):
        comps.append(E.fn(name, *(vns + (("@",) + iv + idx,)), lo=lo, hi=hi, isint=isint))
    return Tensor(dims, comps, k=k, roots=roots, dtype=dtype, dev=dev, deps=deps)


def reblock(I, t, k):
    """drop enumeration to k trailing dims -> opaque generic if k < t.k"""
    if k >= t.k:
        return t
    return opaque_like(I, "gen", t)


def opaque_like(I, name, t, extra=()):
    o = opaque(I, name, None if t.shape is None else list(t.shape), (closed_vn(t),) + tuple(extra),
               t.dtype, t.dev, t.deps, t.roots)
    o.view = t.view
    return o


def havoc(I, t, key):
    o = opaque(I, "hv", None if t.shape is None else list(t.shape), (closed_vn(t), key), t.dtype, t.dev,
               t.deps, t.roots)
    o.view = t.view
    return o


def havoc2(I, a, b, key):
    if a is b:
        return a
    dt = a.dtype if a.dtype == b.dtype else None
    dv = a.dev if a.dev == b.dev else None
    sh = None
    if a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape):
        sh = []
        for x, y in zip(a.shape, b.shape):
            sh.append(x.size if x.size is y.size else E.fn("ldim", x.size, y.size, lo=0, isint=True))
    o = opaque(I, "lp", sh, (closed_vn(a), closed_vn(b)), dt, dv, a.deps | b.deps, a.roots | b.roots)
    o.view = a.view
    return o


def joindev(a, b):
    """one path on the default device, the other elsewhere"""
    if None in (a.dev, b.dev) or any(x in ("PY", "CPU?") for x in (a.dev, b.dev)):
        return None
    o = sorted(({a.dev, b.dev} | {x[4:] for x in (a.dev, b.dev) if x.startswith("CPU|")}) - {"CPU"})
    o = [x for x in o if not x.startswith("CPU|")]
    if len(o) == 1 and any(x.startswith("CPU") for x in (a.dev, b.dev)):
        t = a if a.dev.startswith("CPU") else b
        if t.shape is not None and len(t.shape) == 0:
            return o[0]
        return "CPU|" + o[0]
    return None


def join_tensor(I, c, a, b):
    if a is b:
        return a
    dt = a.dtype if a.dtype == b.dtype else None
    dv = a.dev if a.dev == b.dev else joindev(a, b)
    deps = a.deps | b.deps
    roots = a.roots | b.roots
    view = a.view if a.view == b.view else (a.view or b.view)
    if a.view != b.view and view is not None:
        view = (view[0], None)
    if a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape):
        if all(x.size is y.size for x, y in zip(a.shape, b.shape)) and a.k == b.k:
            m = {}
            ok = True
            for x, y in zip(a.shape, b.shape):
                if x.ivs == y.ivs:
                    continue
                if len(x.ivs) == len(y.ivs):
                    for u, v in zip(x.ivs, y.ivs):
                        m[v] = u
                elif not x.ivs or not y.ivs:
                    pass
                else:
                    ok = False
            if ok:
                bc = rename(b.comps, m)
                dims = [x if x.ivs else Dim(x.size, y.ivs, x.sel) for x, y in zip(a.shape, b.shape)]
                return Tensor(dims, [E.ite(c, p, q) for p, q in zip(a.comps, bc)], a.k, roots, dt, dv,
                              deps, view)
        sh = [x.size if x.size is y.size else E.ite(c, x.size, y.size) for x, y in zip(a.shape, b.shape)]
        o = opaque(I, "join", sh, (c, closed_vn(a), closed_vn(b)), dt, dv, deps, roots)
        o.view = view
        return o
    o = opaque(I, "join", None, (c, closed_vn(a), closed_vn(b)), dt, dv, deps, roots)
    o.view = view
    return o


def as_tensor(I, v):
    """-> (Tensor, level) or None"""
    c = I.deref(v)
    if isinstance(c, Tensor):
        lvl = 2 if (c.shape is None or len(c.shape) > 0) else 1
        return c, lvl
    if isinstance(c, Num):
        return Tensor((), [c.n], dtype=pydt(c), dev="PY", deps=c.deps), 0
    return None


def devmix(I, ts, node, what):
    """device of a combination; CPU? is a tensor of the default device that may be a scalar (scalars mix freely)"""
    labs = {}
    for t, lvl in ts:
        if lvl == 2 and t.dev not in (None, "PY"):
            labs.setdefault(t.dev, t)
    other = [d for d in labs if d not in ("CPU", "CPU?")]
    if "CPU" in labs and other:
        I.ev("dev_mix", node, what=what, devs=tuple(sorted(labs)))
    for d in sorted(other, key=lambda x: x.startswith("CPU|")) + ["CPU", "CPU?"]:
        if d in labs:
            return d
    for t, lvl in ts:
        if lvl == 1 and t.dev is not None:
            return t.dev
    if any(t.dev is None and lvl == 2 for t, lvl in ts):
        return None
    return "CPU"


# operations whose tensor arguments may live on different devices
MIXABLE = {"to", "type_as", "copy", "tensor", "as_tensor", "array", "asarray", "view_as", "reshape_as", "expand_as", "set",
           "new_tensor", "new_zeros", "new_ones", "new_full", "new_empty", "is_same_size", "full", "full_like", "getitem",
           "zeros_like", "ones_like", "empty_like", "rand_like", "randn_like", "broadcast_shapes", "arange", "linspace",
           "zeros", "ones", "empty", "rand", "index", "size", "view", "reshape", "expand", "repeat", "split",
           "tensor_split", "chunk", "unbind", "permute", "eye", "randint", "unsqueeze", "squeeze", "narrow", "select",
           "eq", "ne"}


def argmix(I, base, args, kw, node):
    """tensors given to one library call"""
    if base in MIXABLE:
        return
    ts = []

    def go(v, d):
        v = I.resolve(v)
        if isinstance(v, Choice):
            return
        c = I.deref(v)
        if isinstance(c, Tensor):
            ts.append((c, 2 if (c.shape is None or len(c.shape) > 0) else 1))
        elif isinstance(c, (Tup, Lst)) and getattr(c, "items", None) is not None and d < 2:
            for x in c.items:
                go(x, d + 1)
    for v in list(args) + list(kw.values()):
        if isinstance(v, V):
            go(v, 0)
    if len(ts) > 1:
        devmix(I, ts, node, base)


def unit_power(p):
    """a product of powers of -1 (and exact integers): exact in every type"""
    for at in E.poly_atoms(p, deep=False):
        if not (at.kind == "fn" and at.args and at.args[0] == "pow" and isinstance(at.args[1], E.Node) and E.cval(at.args[1]) in (-1, 1)
                or at.kind == "pow" and isinstance(at.args[0], E.Node) and E.cval(at.args[0]) in (-1, 1)):
            return False
    return True


def inexact(t):
    """default-dtype data that loses accuracy: constant not representable or computed"""
    for n in t.comps:
        for cs, p in E.leaves(n)[:50]:
            c = p.const
            if c is None:
                if unit_power(p):
                    continue
                return True
            f = c * 4096
            if f != round(f):
                return True
    return False


def variable_type(d):
    """a floating type chosen by the caller"""
    return d is not None and (d in ("IN", "cIN") or d.startswith("ARG:"))


def dtypemix(I, ts, node, what):
    has = any(variable_type(t.dtype) and lvl >= 1 for t, lvl in ts)
    if has:
        for t, lvl in ts:
            if t.dev == "PY":
                continue
            if lvl >= 1 and t.dtype in ("DEF", "f32") and inexact(t):
                I.ev("dtype_mix", node, what=what, other=t.dtype)
            if lvl == 2 and t.dtype in ("f64",):
                I.ev("dtype_up", node, what=what, other=t.dtype)


def broadcast(I, ts, node, what="op"):
    """ts: Tensors with known shape -> (dims, k, [comps list per operand], ok)"""
    n = max(len(t.shape) for t in ts)
    out = []
    maps = [dict() for _ in ts]
    used = {}
    bad = False
    for p in range(n):            # from the right
        cand = []
        for j, t in enumerate(ts):
            q = len(t.shape) - 1 - p
            if q >= 0:
                cand.append((j, t.shape[q]))
        big = [(j, d) for j, d in cand if d.c != 1]
        if not big:
            out.append(Dim(1))
            continue
        j0, d0 = big[0]
        for j, d in big[1:]:
            if d.size is not d0.size:
                I.ev("shape_error", node, what="%s: dimension %r does not match %r" % (what, d0, d),
                     sym=symk(d0, d))
                bad = True
        # pick representative ivs
        rep = None
        for j, d in big:
            if d.ivs:
                rep = (j, d)
                break
        if rep is None:
            out.append(Dim(d0.size, (), d0.sel))
            continue
        j1, d1 = rep
        ivs = []
        for v in d1.ivs:
            v2 = maps[j1].get(v, v)
            nm = v2
            c = 0
            while nm in used and used[nm] != p:
                c += 1
                nm = IV(v2.name + "'" * c, *v2.args)
            if nm is not v2:
                maps[j1][v] = nm
            used[nm] = p
            ivs.append(nm)
        for j, d in big:
            if j == j1 or not d.ivs:
                continue
            if len(d.ivs) == len(ivs):
                for u, v in zip(d.ivs, ivs):
                    if u != v:
                        maps[j][u] = v
            else:
                bad = True
        out.append(Dim(d1.size, ivs, next((d.sel for _, d in big if d.sel is not None), None)))
    out.reverse()
    # parallel rename safety: ensure chains do not collide (use two-step)
    comps = []
    for j, t in enumerate(ts):
        m = maps[j]
        if m:
            if any(v in m for v in m.values()):
                tmp = {u: IV("~t%d" % i) for i, u in enumerate(m)}
                c1 = rename(t.comps, tmp)
                comps.append(rename(c1, {tmp[u]: m[u] for u in m}))
            else:
                comps.append(rename(t.comps, m))
        else:
            comps.append(list(t.comps))
    # enumerable block
    k = 0
    sz = 1
    for p in range(n):
        d = out[n - 1 - p]
        if d.c is None or sz * max(d.c, 1) > CAP:
            break
        ok = True
        for t in ts:
            q = len(t.shape) - 1 - p
            if q >= 0 and t.shape[q].c != 1 and p >= t.k:
                ok = False
        if not ok:
            break
        sz *= d.c
        k += 1
    for t in ts:
        for p in range(k, t.k):
            q = len(t.shape) - 1 - p
            if t.shape[q].c != 1:
                bad = True
    return out, k, comps, not bad


def block_index(t, k, idx):
    """component number of operand t for the trailing multi-index idx (len k)"""
    r = 0
    for p in range(t.k - 1, -1, -1):
        q = len(t.shape) - 1 - p
        d = t.shape[q].c
        i = 0
        if p < k and d != 1:
            i = idx[k - 1 - p]
        r = r * d + i
    return r


def ew(I, name, f, vals, node, dtype=None, lift_levels=None):
    """elementwise op; f(*Nodes)->Node; dtype: None -> promote, or label"""
    ts = []
    for v in vals:
        r = as_tensor(I, v)
        if r is None:
            deps = NOROOT
            for x in vals:
                deps = deps | I.deps(x)
            return mk(I, Tensor(None, [E.fn("ew:" + name, *[I.vn(x) for x in vals])], deps=deps,
                                dtype=dtype))
        ts.append(r)
    deps = NOROOT
    for t, _ in ts:
        deps = deps | t.deps
    dt = dtype or promote([(t.dtype, l) for t, l in ts])
    dev = devmix(I, ts, node, name)
    dtypemix(I, ts, node, name)
    tt = [t for t, _ in ts]
    if any(t.shape is None for t in tt):
        cs = []
        if all(len(t.comps) == 1 for t in tt):
            n = f(*[t.comps[0] for t in tt])
        else:
            n = E.fn("ew:" + name, *[closed_vn(t) for t in tt])
        return mk(I, Tensor(None, [n], deps=deps, dtype=dt, dev=dev))
    dims, k, comps, ok = broadcast(I, tt, node, name)
    if not ok:
        o = opaque(I, "ew:" + name, dims, [closed_vn(t) for t in tt], dt, dev, deps)
        return mk(I, o)
    out = []
    rngs = [range(d.c) for d in dims[len(dims) - k:]] if k else []
    for idx in itertools.product(*rngs):
        out.append(f(*[c[block_index(t, k, idx)] for t, c in zip(tt, comps)]))
    return mk(I, Tensor(dims, out, k, dtype=dt, dev=dev, deps=deps))


def toint(I, v):
    v = I.resolve(v) if v is not None else None
    if isinstance(v, Num):
        return v.c
    return None


def kwarg(args, kw, i, name, default=None):
    if name in kw:
        return kw[name]
    if len(args) > i:
        return args[i]
    return default


def isnone(v):
    return v is None or (isinstance(v, Const) and v.v is None)


# --------------------------------------------------------------------------- numbers
def num_binop(I, op, a, b, n):
    deps = a.deps | b.deps
    ii = (a.isint or a.isbool) and (b.isint or b.isbool)
    x, y = a.n, b.n
    cx, cy = E.cval(x), E.cval(y)
    if op == "Add":
        return Num(E.add(x, y), ii, deps=deps)
    if op == "Sub":
        return Num(E.sub(x, y), ii, deps=deps)
    if op == "Mult":
        return Num(E.mul(x, y), ii, deps=deps)
    if op == "Div":
        sink(I, "div", n, [y], num=[x], dtype="py")
        if cx is not None and cy is not None and cy != 0:
            return Num(E.const(cx / cy), False, deps=deps)
        return Num(E.div(x, y), False, deps=deps)
    if op == "Pow":
        if cx is not None and cy is not None:
            try:
                r = cx ** cy
                if not isinstance(r, complex):
                    return Num(E.const(r), ii and cy >= 0, deps=deps)
            except (ZeroDivisionError, OverflowError):
                pass
        return Num(powf(x, y), ii, deps=deps)
    if op == "FloorDiv":
        if cx is not None and cy:
            return Num(E.const(math.floor(cx / cy)), ii, deps=deps)
        return Num(E.floor(E.div(x, y)), ii, deps=deps)
    if op == "Mod":
        if cx is not None and cy:
            return Num(E.const(math.fmod(cx, cy) if False else cx % cy), ii, deps=deps)
        return Num(E.fn("mod", x, y, isint=ii, lo=0 if (cy or 0) > 0 else -E.INF,
                        hi=(cy - (1 if ii else 0)) if (cy or 0) > 0 else E.INF), ii, deps=deps)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if a.isbool and b.isbool:
            f = {"BitAnd": E.and_, "BitOr": E.or_}.get(op)
            if f:
                return Num(f(x, y), isbool=True, deps=deps)
            return Num(E.ne(x, y), isbool=True, deps=deps)
        if cx is not None and cy is not None:
            r = {"BitAnd": int(cx) & int(cy), "BitOr": int(cx) | int(cy), "BitXor": int(cx) ^ int(cy)}[op]
            return Num(r)
    if op == "LShift" and cy is not None:
        return Num(E.mul(x, E.const(2.0 ** cy)), True, deps=deps)
    if op == "RShift" and cy is not None:
        return Num(E.floor(E.mul(x, E.const(2.0 ** -cy))), True, deps=deps)
    return Num(E.fn("py" + op, x, y, isint=ii), ii, deps=deps)


def powf(x, y):
    cy = E.cval(y)
    if cy is not None:
        return E.pow_c(x, cy)
    cx = E.cval(x)
    if cx is not None and cx > 0:
        return E.exp(E.mul(y, E.const(math.log(cx))))
    return E.fn("pow", x, y)


def sink(I, op, node, args, num=None, dtype=None):
    if all(E.cval(a) is not None for a in args):
        return
    I.ev("sink", node, op=op, key=tuple(a.id for a in args), _args=tuple(args),
         _num=tuple(num) if num else None, dtype=dtype)


# --------------------------------------------------------------------------- attrs
def dtype_val(lab):
    return DType(lab)


def tensor_attr(I, ref, t, name, n):
    if name == "shape":
        if t.shape is None:
            return Any(NOROOT, tag=("shape", I.vn(ref)))
        return Tup([dimnum(d) for d in t.shape], isshape=True)
    if name == "dtype":
        return DType(t.dtype)
    if name == "device":
        return Device(t.dev)
    if name in ("ndim",):
        if t.shape is None:
            return Num(E.fn("ndim", I.vn(ref), lo=0, isint=True), True)
        return Num(len(t.shape))
    if name in ("T", "mT", "H"):
        return OPS["t" if name == "T" else "mT"](I, [ref], {}, n)
    if name == "data":
        return I.newloc(t.but(view=(ref.loc, tuple(range(len(t.comps))))))
    if name in ("real", "imag"):
        if cat_of(t.dtype) == 3 or t.dtype is None:
            cs = [E.fn(name, c) for c in t.comps]
            dt = {"c64": "f32", "c128": "f64", "cIN": "IN", "cDEF": "DEF"}.get(t.dtype)
            return I.newloc(t.but(comps=cs, dtype=dt, view=(ref.loc, None)))
        if name == "real":
            return ref
    if name == "grad":
        return Any(t.deps, tag=("grad", I.vn(ref)))
    if name in ("is_cuda", "requires_grad", "is_complex", "is_floating_point", "layout", "is_sparse", "itemsize"):
        if name in ("is_complex", "is_floating_point"):
            return BoundOp(ref, name)
        return Num(E.bool_atom(name, t.dev or "?"), isbool=True)
    return BoundOp(ref, name)


def dimnum(d):
    return Num(d.size, isint=True)


CONSTS = {"math.pi": math.pi, "torch.pi": math.pi, "numpy.pi": math.pi, "np.pi": math.pi,
          "math.e": math.e, "math.inf": None, "torch.inf": None, "numpy.inf": None}


def ext_attr(I, path):
    if path in CONSTS:
        c = CONSTS[path]
        if c is None:
            return Num(E.leaf(E.patom(E.atom("lit", "inf"))))
        return Num(c)
    if path.startswith("torch.") and path[6:] in DT:
        return DType(DT[path[6:]])
    if path.startswith("numpy.") and path[6:] in DT:
        return DType(DT[path[6:]])
    return Ext(path)


# --------------------------------------------------------------------------- indexing
def normalise_index(I, t, i):
    items = list(i.items) if isinstance(i, Tup) else [i]
    out = []
    for x in items:
        if not isinstance(x, Slc):
            x = I.resolve(x)
        out.append(x)
    return out


def slice_const(I, s, d):
    def g(x):
        if x is None or isnone(x):
            return None
        return x.c if isinstance(x, Num) else "?"
    a, b, st = g(s.a), g(s.b), g(s.s)
    sym = (s.a is not None and not isnone(s.a) and a is None) or \
          (s.b is not None and not isnone(s.b) and b is None) or "?" in (a, b, st) or \
          (s.s is not None and not isnone(s.s) and st is None)
    return a, b, st, sym


def is_bool_t(t):
    return t.dtype == "bool"


class Unk(Exception):
    pass


def plan_index(I, t, i, node):
    """-> list of axis ops: ('new',) ('int',axis,Num) ('slc',axis,Slc) ('mask',axis,n,Tensor) ('adv',axis,V)"""
    items = normalise_index(I, t, i)
    nd = len(t.shape)
    cons = 0
    for x in items:
        if isinstance(x, Const) and (x.v is None or x.v is Ellipsis):
            continue
        tt = I.tensor(x)
        if tt is not None and tt.dtype == "bool":
            if tt.shape is None:
                raise Unk()
            cons += len(tt.shape)
        elif isinstance(x, (Any, Choice, USeq)):
            raise Unk()
        else:
            cons += 1
    if cons > nd:
        I.ev("shape_error", node, what="too many indices (%d) for a %d-dimensional tensor" % (cons, nd), sym=False)
        raise Unk()
    ops = []
    ax = 0
    seen_ell = False
    for x in items:
        if isinstance(x, Const) and x.v is None:
            ops.append(("new",))
            continue
        if isinstance(x, Const) and x.v is Ellipsis:
            seen_ell = True
            for _ in range(nd - cons):
                ops.append(("slc", ax, Slc(None, None, None)))
                ax += 1
            continue
        tt = I.tensor(x)
        if isinstance(x, Slc):
            ops.append(("slc", ax, x))
            ax += 1
        elif isinstance(x, Num) and not x.isbool:
            ops.append(("int", ax, x))
            ax += 1
        elif tt is not None and tt.dtype == "bool":
            ops.append(("mask", ax, len(tt.shape), x))
            ax += len(tt.shape)
        else:
            ops.append(("adv", ax, x))
            ax += 1
    while ax < nd:
        ops.append(("slc", ax, Slc(None, None, None)))
        ax += 1
    return ops


def nd_of(x):
    return x


def demote(t):
    """leading dimensions of size one need not belong to the enumerated block"""
    k = t.k
    while k and t.shape[len(t.shape) - k].c == 1:
        k -= 1
    return t if k == t.k else t.but(k=k)


def demote_masked(I, t, i, v=None):
    """a mask without known positions selects along a dimension that is not enumerated; the value of a store has to agree"""
    known = t.k == len(t.shape) and (v is None or v.shape is not None and all(d.c is not None for d in v.shape))
    for j, x in enumerate(normalise_index(I, t, i)):
        it = I.tensor(x) if not isinstance(x, Slc) else None
        if it is not None and it.dtype == "bool":
            if known and j and it.shape is not None and len(it.shape) == 1 and it.k == 1 and all(E.cval(q) is not None for q in it.comps):
                continue    # known positions
            return demote(t)
    return t


def flat_mask(I, t, i):
    """a known mask over several enumerated leading dimensions is a known mask over the flattened block"""
    if t.shape is None or not t.k or t.k != len(t.shape):
        return None
    xs = i.items if isinstance(i, Tup) else [i]
    if not xs or isinstance(xs[0], Slc) or any(not isinstance(x, (Slc, Num)) and not (isinstance(x, Const) and x.v is Ellipsis) for x in xs[1:]):
        return None
    m = I.tensor(I.resolve(xs[0]))
    if m is None or m.dtype != "bool" or m.shape is None or not 2 <= len(m.shape) <= len(t.shape) or m.k != len(m.shape):
        return None
    if any(a.c is None or a.c != b.c for a, b in zip(m.shape, t.shape)) or any(E.cval(q) is None for q in m.comps):
        return None
    n = len(m.comps)
    fm = I.newloc(m.but(shape=[Dim(E.const(n))], k=1))
    return (t.but(shape=[Dim(E.const(n))] + list(t.shape[len(m.shape):]), k=t.k - len(m.shape) + 1), Tup([fm] + list(xs[1:])) if len(xs) > 1 else fm)


def index(I, ref, t, i, node):
    fm = flat_mask(I, t, i)
    if fm is not None:
        t, i = fm
    if t.shape is not None and t.k:
        t = demote_masked(I, t, i)
    deps = t.deps
    for x in (i.items if isinstance(i, Tup) else [i]):
        deps = deps | I.deps(x)
        it = I.tensor(I.resolve(x)) if not isinstance(x, Slc) else None
        if it is not None:
            devidx(I, t, it, node)
            if it.dtype in FLOATS:
                I.ev("float_index", node, dtype=it.dtype)
    adv_any = any((not isinstance(x, (Slc, Num, Const))) for x in normalise_index(I, t, i))
    def unk():
        o = Tensor(None, [E.fn("index", closed_vn(t), I.vn(i))], roots=NOROOT if adv_any else t.roots,
                   dtype=t.dtype, dev=t.dev, deps=deps, view=None if adv_any else (ref.loc, None))
        return I.newloc(o)
    if t.shape is None:
        return unk()
    try:
        ops = plan_index(I, t, i, node)
    except Unk:
        return unk()
    nd = len(t.shape)
    kb = nd - t.k      # first enumerated axis
    # each output dim: (Dim, source) where source = ('ax', axis, list) for enumerated or None
    outd = []
    sel = {}           # enumerated axis -> const int | list
    ivmap = {}
    advs = []
    opaque_needed = False
    for o in ops:
        if o[0] == "new":
            outd.append((Dim(1), ("new",)))
        elif o[0] == "int":
            _, ax, num = o
            d = t.shape[ax]
            c = num.c
            if c is not None and d.c is not None:
                if not (-d.c <= c < d.c):
                    I.ev("shape_error", node, what="index %d out of range for dimension of size %d" % (c, d.c), sym=False)
                    return unk()
                c = c % d.c
            if ax >= kb:
                if c is None:
                    opaque_needed = True
                else:
                    sel[ax] = c
            else:
                tgt = num.n
                if c is not None and c < 0:
                    tgt = E.add(d.size, E.const(c))
                for iv in d.ivs:
                    ivmap[iv] = IV("k", tgt)
        elif o[0] == "slc":
            _, ax, s = o
            d = t.shape[ax]
            a, b, st, sym = slice_const(I, s, d)
            full = s.a is None and s.b is None and s.s is None
            if full:
                outd.append((d, ("ax", ax, None)) if ax >= kb else (d, None))
                continue
            if d.c is not None and not sym:
                lst = list(range(d.c))[a:b:st]
                if ax >= kb:
                    outd.append((Dim(len(lst)), ("ax", ax, lst)))
                else:
                    for u in d.ivs:
                        ivmap[u] = IV("sh", u, (a, b, st))
                    outd.append((Dim(len(lst), d.ivs), None))
                continue
            # symbolic
            if ax >= kb and d.c != 1:
                opaque_needed = True
            A = E.ZERO if s.a is None or isnone(s.a) else (s.a.n if isinstance(s.a, Num) else None)
            Bn = d.size if s.b is None or isnone(s.b) else (s.b.n if isinstance(s.b, Num) else None)
            Sn = 1 if s.s is None or isnone(s.s) else (s.s.c if isinstance(s.s, Num) else None)
            if A is None or Bn is None or Sn is None:
                size = E.fn("slen", d.size, I.vn(s), lo=0, isint=True)
                for u in d.ivs:
                    ivmap[u] = IV("sl", u, I.vn(s))
            else:
                neg = E.cval(A)
                if neg is not None and neg < 0:
                    A = E.add(d.size, A)
                negb = E.cval(Bn)
                if negb is not None and negb < 0:
                    Bn = E.add(d.size, Bn)
                elif Bn is not d.size:
                    Bn = E.min_(Bn, d.size)
                size = E.sub(Bn, A)
                if Sn != 1:
                    size = E.floor(E.div(E.add(size, E.const(Sn - 1)), E.const(Sn)))
                if not (A is E.ZERO and Sn == 1):
                    for u in d.ivs:
                        ivmap[u] = IV("sh", u, A, Sn)
            outd.append((Dim(size, d.ivs), None))
        elif o[0] == "mask":
            _, ax, n, x = o
            mt = demote(I.tensor(x))
            if n == 1 and ax >= kb and mt.k == 1 and len(mt.shape) == 1 and mt.shape[0].c == t.shape[ax].c:
                cc = [E.cval(q) for q in mt.comps]
                if all(q is not None for q in cc):
                    # a constant mask is the list of its true positions
                    advs.append(("adv", ax, 1, Tup([Num(j) for j, q in enumerate(cc) if q]), len(outd)))
                    outd.append(None)
                    continue
            advs.append(("mask", ax, n, mt, len(outd)))
            outd.append(None)
        elif o[0] == "adv":
            _, ax, x = o
            advs.append(("adv", ax, 1, x, len(outd)))
            outd.append(None)
    view = None
    if advs:
        if len(advs) > 1 or opaque_needed:
            return adv_multi(I, ref, t, ops, advs, deps, node, i)
        kind, ax, n, x, pos = advs[0]
        if kind == "mask":
            mt = x
            for j in range(n):
                d1, d2 = t.shape[ax + j], mt.shape[j]
                if d1.size is not d2.size and not (d1.sel is not None and d1.sel is d2.sel):
                    I.ev("shape_error", node, what="mask dimension %r does not match %r" % (d2, d1),
                         sym=symk(d1, d2))
                    return unk()
            m = {}
            for j in range(n):
                for u, v in zip(mt.shape[j].ivs, t.shape[ax + j].ivs):
                    if u != v:
                        m[u] = v
            if mt.k > 0 or ax + n > kb:
                # mask reaches into the enumerated block
                return unk_shape_mask(I, ref, t, mt, ax, n, deps, node)
            mn = rename(mt.comps, m)[0]
            ivs = tuple(v for j in range(n) for v in t.shape[ax + j].ivs)
            size = E.fn("nsel", closed_vn(mt), lo=0, isint=True)
            if n == 0:
                size = E.fn("nsel0", closed_vn(mt), lo=0, hi=1, isint=True)
            outd[pos] = (Dim(size, ivs, sel=mn), None)
        else:
            it = I.tensor(x)
            c = I.deref(x)
            if it is None and isinstance(c, (Lst, Tup)) and c.items is not None and all(
                    isinstance(q, Num) and q.c is not None for q in c.items):
                lst = [int(q.c) for q in c.items]
                d = t.shape[ax]
                if ax >= kb:
                    lst = [q % d.c if -d.c <= q < d.c else 0 for q in lst]
                    outd[pos] = (Dim(len(lst)), ("ax", ax, lst))
                else:
                    return adv_multi(I, ref, t, ops, advs, deps, node, i)
            elif it is not None and it.shape is not None:
                d = t.shape[ax]
                if ax >= kb and d.c != 1:
                    cc = [E.cval(q) for q in it.comps]
                    if len(it.shape) == 1 and it.k == 1 and all(q is not None for q in cc):
                        outd[pos] = (Dim(len(cc)), ("ax", ax, [int(q) % d.c for q in cc]))
                    else:
                        return adv_multi(I, ref, t, ops, advs, deps, node, i)
                else:
                    if it.k == 0:
                        nd2 = it.comps[0]
                        for iv in d.ivs:
                            ivmap[iv] = IV("at", nd2)
                        # splice index dims
                        new = [(Dim(dd.size, dd.ivs, dd.sel), None) for dd in it.shape]
                        outd[pos:pos + 1] = new
                    else:
                        return adv_multi(I, ref, t, ops, advs, deps, node, i)
            else:
                return unk()
        roots = NOROOT
    else:
        roots = t.roots
    if opaque_needed:
        o = opaque(I, "index", [d for d, _ in outd], (closed_vn(t), I.vn(i)), t.dtype, t.dev, deps, roots)
        o.view = (ref.loc, None)
        return I.newloc(o)
    dims = [d for d, _ in outd]
    # enumerated block of the result
    k = 0
    for d, src in reversed(outd):
        if src is None:
            break
        k += 1
    enum_before = any(src is not None and src[0] == "ax" for d, src in outd[: len(outd) - k]) if outd else False
    if enum_before:
        o = opaque(I, "index", dims, (closed_vn(t), I.vn(i)), t.dtype, t.dev, deps, roots)
        return I.newloc(o)
    blk = outd[len(outd) - k:] if k else []
    imap = []
    strides = {}
    s = 1
    for ax in range(nd - 1, kb - 1, -1):
        strides[ax] = s
        s *= t.shape[ax].c
    base = sum(strides[ax] * c for ax, c in sel.items())
    for idx in itertools.product(*[range(d.c) for d, _ in blk]):
        r = base
        for (d, src), j in zip(blk, idx):
            if src[0] == "ax":
                r += strides[src[1]] * (src[2][j] if src[2] is not None else j)
        imap.append(r)
    comps = [t.comps[r] for r in imap]
    if ivmap:
        comps = rename(comps, ivmap)
    if not advs:
        clean = not ivmap
        view = (ref.loc, tuple(imap) if clean else None)
    tag = t.tag if (t.tag == "unique" and not advs) else None
    return I.newloc(Tensor(dims, comps, k, roots, t.dtype, t.dev, deps, view, tag))


def devidx(I, t, it, node):
    if t.dev == "CPU" and it.dev not in ("CPU", "CPU?", None, "PY") and not it.dev.startswith("CPU|") and (it.shape is None or len(it.shape) > 0):
        I.ev("dev_mix", node, what="index", devs=(t.dev, it.dev))


def unk_shape_mask(I, ref, t, mt, ax, n, deps, node):
    size = E.fn("nsel", closed_vn(mt), lo=0, isint=True)
    dims = list(t.shape[:ax]) + [Dim(size, (IV("s"),))] + list(t.shape[ax + n:])
    o = opaque(I, "mask", dims, (closed_vn(t), closed_vn(mt), ax), t.dtype, t.dev, deps)
    return I.newloc(o)


def sel_node(ix, opts):
    """opts[ix]"""
    c = E.cval(ix)
    if c is not None and 0 <= c < len(opts):
        return opts[int(c)]
    if all(o is opts[0] for o in opts):
        return opts[0]
    return E.fn("sel", ix, *opts)


def own_arange(it):
    """the index tensor is 0, 1, 2, ... along its only dimension"""
    if it.k or len(it.shape) != 1 or len(it.shape[0].ivs) != 1:
        return False
    q = it.comps[0]
    return q.leaf is not None and len(q.leaf.terms) == 1 and q.leaf.terms[0][1] == 1 and len(q.leaf.terms[0][0]) == 1 and \
        q.leaf.terms[0][0][0][1] == 1 and q.leaf.terms[0][0][0][0].kind == "ld" and \
        q.leaf.terms[0][0][0][0].args == ("#", (it.shape[0].ivs[0],))


def adv_select(I, t, ops, advs, deps):
    """advanced indices of known element value: every result element is a selected element of t"""
    axs = [a[1] for a in advs]
    if t.shape is None or any(b - a != 1 for a, b in zip(axs, axs[1:])) or any(a[0] != "adv" for a in advs):
        return None
    its = []
    for _, ax, _, x, _ in advs:
        it = I.tensor(I.resolve(x))
        if it is None or it.shape is None or it.dtype == "bool":
            return None
        its.append(it)
    for o in ops:
        if o[0] not in ("slc", "adv") or o[0] == "slc" and not (o[2].a is None and o[2].b is None and o[2].s is None):
            return None
    nd, kb = len(t.shape), len(t.shape) - t.k
    n = max(len(it.shape) for it in its)
    if any(len(it.shape) != n for it in its):
        return None
    order = sorted(range(len(its)), key=lambda j: own_arange(its[j]))
    lead = its[order[0]]
    for it in its:
        for a, b in zip(it.shape, lead.shape):
            if a.size is not b.size:
                return None
    nk = lead.k
    bd = list(lead.shape)
    ren = {}
    idx = {}
    for j, it in enumerate(its):
        ax = axs[j]
        if own_arange(it) and it is not lead:
            if t.shape[ax].size is not it.shape[0].size or ax >= kb or len(t.shape[ax].ivs) != len(bd[0].ivs):
                return None
            for u, v in zip(t.shape[ax].ivs, bd[0].ivs):
                if u != v:
                    ren[u] = v
            idx[ax] = None
            continue
        if it.k != nk:
            return None
        m = {}
        for a, b in zip(it.shape, bd):
            if len(a.ivs) != len(b.ivs):
                return None
            for u, v in zip(a.ivs, b.ivs):
                if u != v:
                    m[u] = v
        idx[ax] = rename(it.comps, m)
        if ax < kb and t.shape[ax].c != 1:
            return None
    before = list(range(axs[0]))
    after = list(range(axs[-1] + 1, nd))
    if any(a < kb for a in after):
        return None
    if nk < n and any(a >= kb for a in before):
        return None
    comps = rename(t.comps, ren)
    strides, s = {}, 1
    for ax in range(nd - 1, kb - 1, -1):
        strides[ax] = s
        s *= t.shape[ax].c
    eb = [a for a in before if a >= kb]
    bsz = [bd[j].c for j in range(n - nk, n)]
    out = []
    vary = [a for a in axs if a >= kb]
    if len(vary) * len(comps) > 60000:
        return None
    for bi in itertools.product(*[range(t.shape[a].c) for a in eb]):
        for e, _ in enumerate(itertools.product(*[range(c) for c in bsz])):
            for ai in itertools.product(*[range(t.shape[a].c) for a in after]):
                off = sum(strides[a] * q for a, q in zip(eb, bi)) + sum(strides[a] * q for a, q in zip(after, ai))

                def rec(j, off):
                    if j == len(vary):
                        return comps[off]
                    a = vary[j]
                    return sel_node(idx[a][e], [rec(j + 1, off + strides[a] * q) for q in range(t.shape[a].c)])
                out.append(rec(0, off))
    dims = [t.shape[a] for a in before] + bd + [t.shape[a] for a in after]
    return I.newloc(Tensor(dims, out, len(eb) + nk + len(after), NOROOT, t.dtype, t.dev, deps))


def adv_multi(I, ref, t, ops, advs, deps, node, i):
    """several advanced indices: broadcast them, opaque value"""
    r = adv_select(I, t, ops, advs, deps)
    if r is not None:
        return r
    shapes = []
    for kind, ax, n, x, pos in advs:
        if kind == "mask":
            shapes.append([Dim(E.fn("nsel", closed_vn(x), lo=0, isint=True))])
        else:
            it = I.tensor(x)
            c = I.deref(x)
            if it is not None and it.shape is not None:
                shapes.append(list(it.shape))
            elif isinstance(c, (Lst, Tup)) and c.items is not None:
                shapes.append([Dim(len(c.items))])
            else:
                return I.newloc(Tensor(None, [E.fn("index", closed_vn(t), I.vn(i))], dtype=t.dtype, dev=t.dev, deps=deps))
    n = max(len(s) for s in shapes)
    bd = []
    for p in range(n):
        cand = [s[len(s) - 1 - p] for s in shapes if len(s) > p]
        big = [d for d in cand if d.c != 1]
        bd.append(big[0] if big else Dim(1))
    bd.reverse()
    out = []
    placed = False
    # adjacency
    axs = [a[1] for a in advs]
    adj = all(b - a == 1 for a, b in zip(axs, axs[1:]))
    for o in ops:
        if o[0] == "new":
            out.append(Dim(1))
        elif o[0] == "slc":
            d = t.shape[o[1]]
            s = o[2]
            if s.a is None and s.b is None and s.s is None:
                out.append(d)
            else:
                a, b, st, sym = slice_const(I, s, d)
                if d.c is not None and not sym:
                    out.append(Dim(len(range(d.c)[a:b:st])))
                else:
                    out.append(Dim(E.fn("slen", d.size, I.vn(s), lo=0, isint=True)))
        elif o[0] in ("mask", "adv"):
            if not placed and adj:
                out += bd
                placed = True
    if not placed:
        out = bd + out
    o = opaque(I, "index", out, (closed_vn(t), I.vn(i)), t.dtype, t.dev, deps)
    return I.newloc(o)


def write_value(I, t, nt, node):
    """content of t after t <- nt (same storage)"""
    if t.dtype is not None and nt.dtype is not None:
        check_store_dtype(I, t, nt, node)
    deps = t.deps | nt.deps
    if t.shape is not None and nt.shape is not None:
        if len(t.shape) == len(nt.shape) and t.k == nt.k and all(
                a.size is b.size for a, b in zip(t.shape, nt.shape)):
            m = {}
            for a, b in zip(t.shape, nt.shape):
                for u, v in zip(b.ivs, a.ivs):
                    if u != v:
                        m[u] = v
            comps = rename(nt.comps, m)
            dims = [a if a.ivs else b for a, b in zip(t.shape, nt.shape)]
            return t.but(comps=comps, deps=deps, shape=dims)
        # broadcast nt to t
        if len(nt.shape) > len(t.shape):
            I.ev("shape_error", node, what="cannot write a %d-d value into a %d-d tensor" % (len(nt.shape), len(t.shape)), sym=False)
    o = opaque(I, "wr", None if t.shape is None else list(t.shape), (closed_vn(t), closed_vn(nt)), t.dtype, t.dev,
               deps, t.roots)
    o.view = t.view
    return o


def check_store_dtype(I, t, v, node):
    ct, cv = cat_of(t.dtype), cat_of(v.dtype)
    if t.dtype in ("DEF", "f32", "f16") and v.dtype in ("IN", "f64", "cIN"):
        I.ev("downcast", node, into=t.dtype, frm=v.dtype)
    elif t.dtype in ("c64", "cDEF") and v.dtype in ("IN", "cIN", "c128"):
        I.ev("downcast", node, into=t.dtype, frm=v.dtype)
    elif ct is not None and cv is not None and ct < cv:
        I.ev("cat_downcast", node, into=t.dtype, frm=v.dtype)


def setindex(I, ref, t, i, v, node):
    items = i.items if isinstance(i, Tup) else [i]
    for x in items:
        if not isinstance(x, Slc):
            it = I.tensor(I.resolve(x))
            if it is not None:
                devidx(I, t, it, node)
    if t.roots:
        I.ev("mutate", node, roots=tuple(sorted(t.roots)), how="setitem", must=True)
    v = I.resolve(v)
    vt = as_tensor(I, v)
    vdeps = I.deps(v)
    for x in items:
        vdeps = vdeps | I.deps(x)
    if vt is not None:
        advd = [I.tensor(x) for x in items]          # slices and 0-d indices copy, which may cross devices
        if vt[1] == 2 and vt[0].dev is not None and t.dev is not None and vt[0].shape is not None and any(
                x is not None and (x.shape is None or len(x.shape) > 0) for x in advd):
            if {vt[0].dev, t.dev} > {"CPU"} and "CPU" in (vt[0].dev, t.dev) and len({vt[0].dev, t.dev}) == 2 \
                    and "PY" not in (vt[0].dev, t.dev):
                I.ev("dev_mix", node, what="setitem", devs=tuple(sorted((t.dev, vt[0].dev))))
        if vt[1] >= 1 and vt[0].dtype is not None and t.dtype is not None:
            check_store_dtype(I, t, vt[0], node)
    new = None
    if t.shape is not None and vt is not None and vt[0].shape is not None:
        new = set_known(I, ref, t, i, vt[0], node)
    if new is None:
        args = (closed_vn(t), I.vn(i) if not isinstance(i, Slc) else I.vn(i), I.vn(v))
        new = opaque(I, "set", None if t.shape is None else list(t.shape), args, t.dtype, t.dev, t.deps | vdeps,
                     t.roots)
        new.view = t.view
    new.deps = new.deps | vdeps
    I.store[ref.loc] = new
    I.propagate_view(ref.loc, new)


def known_lists(I, t, ops, kb, node):
    """a single constant index or mask along an enumerated axis is a list of positions"""
    if sum(o[0] in ("mask", "adv") for o in ops) != 1:
        return ops
    out = []
    for o in ops:
        if o[0] in ("mask", "adv") and o[1] >= kb and t.shape[o[1]].c is not None:
            it = I.tensor(I.resolve(o[-1]))
            n = t.shape[o[1]].c
            if it is not None and it.shape is not None and len(it.shape) == 1 and it.k == 1 and (o[0] == "adv" or it.shape[0].c == n):
                cc = [E.cval(q) for q in it.comps]
                if all(q is not None for q in cc):
                    if o[0] == "mask":
                        out.append(("lst", o[1], [j for j, q in enumerate(cc) if q]))
                        continue
                    bad = [q for q in cc if not -n <= q < n]
                    if bad:
                        I.ev("shape_error", node, what="index %d out of range for dimension of size %d" % (bad[0], n), sym=False)
                    else:
                        out.append(("lst", o[1], [int(q) % n for q in cc]))
                        continue
        out.append(o)
    return out


def set_known(I, ref, t, i, v, node):
    fm = flat_mask(I, t, i) if v.shape is not None and all(d.c is not None for d in v.shape) else None
    if fm is not None:
        r = set_known(I, ref, fm[0], fm[1], v, node)
        return None if r is None else r.but(shape=list(t.shape), k=t.k)
    t = demote_masked(I, t, i, v)
    try:
        ops = plan_index(I, t, i, node)
    except Unk:
        return None
    nd = len(t.shape)
    kb = nd - t.k
    if any(o[0] == "new" for o in ops):
        return None
    ops = known_lists(I, t, ops, kb, node)
    advs = [o for o in ops if o[0] in ("mask", "adv")]
    if len(advs) == 0:
        # all slices/ints: target sub-block
        tgt = []    # dims of target view
        lists = []
        for o in ops:
            ax = o[1]
            d = t.shape[ax]
            if ax < kb:
                if o[0] == "slc" and o[2].a is None and o[2].b is None and o[2].s is None:
                    tgt.append(d)
                    continue
                # partial write along a non-enumerated axis
                vdims = target_dims(I, t, ops)
                check_bcast(I, vdims, v, node)
                return None
            if o[0] == "lst":
                lists.append(o[2])
                tgt.append(Dim(len(o[2])))
            elif o[0] == "int":
                c = o[2].c
                if c is None:
                    return None
                if not -d.c <= c < d.c:
                    I.ev("shape_error", node, what="index %d out of range for dimension of size %d" % (c, d.c), sym=False)
                    return None
                lists.append([c % d.c])
            else:
                a, b, st, sym = slice_const(I, o[2], d)
                if sym:
                    return None
                lst = list(range(d.c))[a:b:st]
                lists.append(lst)
                tgt.append(Dim(len(lst)))
        # ivs
        tv = Tensor(tgt, [E.ZERO] * blocksize(tgt, len(tgt) - kb_dims(ops, kb)), len(tgt) - kb_dims(ops, kb))
        if len(v.shape) > len(tgt):
            extra = v.shape[: len(v.shape) - len(tgt)]
            if any(d.c != 1 for d in extra):
                I.ev("shape_error", node, what="cannot assign a value of %d dims to a target of %d dims" % (
                    len(v.shape), len(tgt)), sym=False)
                return None
            v = v.but(shape=v.shape[len(v.shape) - len(tgt):])
            if v.k > len(v.shape):
                v.k = len(v.shape)
        dims, k, comps, ok = broadcast(I, [tv, v], node, "assignment")
        if not ok or k != tv.k or len(dims) != len(tgt):
            return None
        if any(a.size is not b.size for a, b in zip(dims, tgt)):
            return None
        # rename result ivs to the target's
        m = {}
        for a, b in zip(dims, tgt):
            for u, w in zip(a.ivs, b.ivs):
                if u != w:
                    m[u] = w
        vc = rename(comps[1], m)
        new = list(t.comps)
        strides = []
        s = 1
        for ax in range(nd - 1, kb - 1, -1):
            strides.insert(0, s)
            s *= t.shape[ax].c
        free = []
        blk_idx = list(itertools.product(*lists))
        # corresponding index in value block: only the slice axes remain
        isint = [o[0] == "int" for o in ops if o[1] >= kb]
        pos = [range(len(l)) for l in lists]
        for pidx in itertools.product(*pos):
            r = sum(st * lists[j][p] for j, (st, p) in enumerate(zip(strides, pidx)))
            vidx = tuple(p for p, ii in zip(pidx, isint) if not ii)
            new[r] = vc[block_index(v, k, vidx)]
        dims2 = list(t.shape)
        j = 0
        for ax in range(kb):
            if not dims2[ax].ivs and tgt[ax].ivs:
                dims2[ax] = tgt[ax]
        # target had no ivs but value does
        for ax in range(kb):
            if not dims2[ax].ivs and ax < len(dims) and dims[ax].ivs:
                dims2[ax] = Dim(dims2[ax].size, dims[ax].ivs, dims2[ax].sel)
        return t.but(comps=new, shape=dims2, deps=t.deps | v.deps)
    if len(advs) == 1 and advs[0][0] == "mask":
        _, ax, n, x = advs[0]
        mt = demote(I.tensor(x))
        if ax != 0:
            return None
        for j in range(n):
            d1, d2 = t.shape[j], mt.shape[j]
            if d1.size is not d2.size:
                I.ev("shape_error", node, what="mask dimension %r does not match %r" % (d2, d1),
                     sym=symk(d1, d2))
                return None
        if n > kb or mt.k > 0:
            # elementwise mask over enumerated block
            if n == nd and mt.k == t.k and len(v.shape) == 0:
                m = {}
                for a, b in zip(mt.shape, t.shape):
                    for u, w in zip(a.ivs, b.ivs):
                        if u != w:
                            m[u] = w
                mc = rename(mt.comps, m)
                return t.but(comps=[E.ite(E.to_bool(c), v.comps[0], o) for c, o in zip(mc, t.comps)],
                             deps=t.deps | v.deps | mt.deps)
            return None
        m = {}
        dims2 = list(t.shape)
        for j in range(n):
            if not dims2[j].ivs and mt.shape[j].ivs:
                dims2[j] = Dim(dims2[j].size, mt.shape[j].ivs)
            for u, w in zip(mt.shape[j].ivs, dims2[j].ivs):
                if u != w:
                    m[u] = w
        mn = E.to_bool(rename(mt.comps, m)[0])
        # target block
        rest = ops[1:]
        lists = []
        isint = []
        for o in rest:
            d = t.shape[o[1]]
            if o[1] < kb:
                if not (o[0] == "slc" and o[2].a is None and o[2].b is None):
                    return None
                continue
            if o[0] == "int":
                if o[2].c is None:
                    return None
                lists.append([o[2].c % d.c])
                isint.append(True)
            else:
                a, b, st, sym = slice_const(I, o[2], d)
                if sym:
                    return None
                lists.append(list(range(d.c))[a:b:st])
                isint.append(False)
        tdims = [Dim(len(l)) for l, ii in zip(lists, isint) if not ii]
        mid = [d for o in rest if o[1] < kb for d in [t.shape[o[1]]]]
        vs = v
        # value either broadcasts over the block or has a leading selected dim
        lead = len(vs.shape) - len(tdims) - len(mid)
        ren = {}
        if lead == 1:
            d = vs.shape[0]
            if d.c != 1:
                if d.sel is None or not same_sel(d.sel, mn, d.ivs, tuple(w for j in range(n) for w in dims2[j].ivs), ren):
                    # unknown relation
                    I.ev("mask_assign", node, ok=False)
                    want = E.fn("nsel", closed_vn(mt), lo=0, isint=True)
                    if d.size is not want and d.sel is not None:
                        I.ev("shape_error", node, what="masked assignment from a differently selected tensor", sym=None)
                    return None
        elif lead > 1:
            I.ev("shape_error", node, what="masked assignment of a value with too many dims", sym=False)
            return None
        if mid:
            return None
        if any(not ii for ii in isint) and vs.k < len(tdims) and len(vs.shape) >= len(tdims) and any(
                d.c != 1 for d in vs.shape[len(vs.shape) - len(tdims):]):
            for dv, dt_ in zip(reversed(vs.shape), reversed(tdims)):
                if dv.c != 1 and dv.size is not dt_.size:
                    I.ev("shape_error", node, what="masked assignment: %r does not match %r" % (dv, dt_), sym=symk(dv, dt_))
            return None
        for dv, dt_ in zip(reversed(vs.shape), reversed(tdims)):
            if dv.c is not None and dv.c != 1 and dv.c != dt_.c:
                I.ev("shape_error", node, what="masked assignment: %r does not match %r" % (dv, dt_), sym=False)
                return None
        vc = rename(vs.comps, ren)
        strides = []
        s = 1
        for a2 in range(nd - 1, kb - 1, -1):
            strides.insert(0, s)
            s *= t.shape[a2].c
        new = list(t.comps)
        kk = len(tdims)
        vv = vs if vs.k <= kk else vs
        for pidx in itertools.product(*[range(len(l)) for l in lists]):
            r = sum(st * lists[j][p] for j, (st, p) in enumerate(zip(strides, pidx)))
            vidx = tuple(p for p, ii in zip(pidx, isint) if not ii)
            if vs.k > kk:
                return None
            new[r] = E.ite(mn, vc[block_index(vs, kk, vidx)], new[r])
        return t.but(comps=new, shape=dims2, deps=t.deps | v.deps | mt.deps)
    return None


def same_sel(sel, mn, ivs, want, ren):
    if len(ivs) == len(want):
        m = {u: w for u, w in zip(ivs, want) if u != w}
        if rename([sel], m)[0] is mn:
            ren.update(m)
            return True
    return sel is mn


def kb_dims(ops, kb):
    return sum(1 for o in ops if o[0] == "slc" and o[1] < kb)


def target_dims(I, t, ops):
    out = []
    for o in ops:
        d = t.shape[o[1]]
        if o[0] == "slc":
            if o[2].a is None and o[2].b is None and o[2].s is None:
                out.append(d)
                continue
            a, b, st, sym = slice_const(I, o[2], d)
            if d.c is not None and not sym:
                out.append(Dim(len(range(d.c)[a:b:st])))
            else:
                out.append(None)
    return out


def check_bcast(I, dims, v, node):
    if len(v.shape) > len(dims) and any(d.c != 1 for d in v.shape[: len(v.shape) - len(dims)]):
        I.ev("shape_error", node, what="cannot assign a value of %d dims to a target of %d dims" % (len(v.shape), len(dims)), sym=False)
        return
    for a, b in zip(reversed(dims), reversed(v.shape)):
        if a is None or b.c == 1:
            continue
        if a.size is not b.size:
            if a.c is not None and b.c is not None:
                I.ev("shape_error", node, what="assignment: %r does not match %r" % (b, a), sym=False)


from .ops2 import OPS, call_ext, call_op, py_method  # noqa: E402
from . import ops3  # noqa: E402,F401
