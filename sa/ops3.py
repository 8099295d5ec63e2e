"""Image and histogram operations on tensors of small known extent."""
import itertools
import math
from . import expr as E
from .values import *
from . import torchops as T
from .ops2 import OPS, getT, normdim


def sized(I, v, m):
    """(tensor, leading dims, sizes of the last m dims, components) when the last m dims are enumerated"""
    t = getT(I, v)
    if t is None or t.shape is None or len(t.shape) < m:
        return None
    if t.k < m:
        from .ops2 import regen, degen
        t = regen(degen(t))
        if t.k < m:
            return None
    return t, list(t.shape[:len(t.shape) - t.k]), [d.c for d in t.shape[len(t.shape) - t.k:]], list(t.comps)


def ints(I, v, m):
    """m integers given as a number or a sequence"""
    v = I.resolve(v) if isinstance(v, V) else v
    if isinstance(v, Num):
        return None if v.c is None else [int(v.c)] * m
    c = I.deref(v)
    if isinstance(c, (Tup, Lst)) and c.items is not None:
        xs = [T.toint(I, x) for x in c.items]
        if None in xs or (m and len(xs) not in (1, m)):
            return None
        return [int(x) for x in xs] * (m if len(xs) == 1 and m else 1)
    return None


def name_of(I, v, default):
    v = I.resolve(v) if v is not None else None
    if v is None:
        return default
    return v.v if isinstance(v, Const) else None


def enumerated_op(*names):
    def d(f):
        for nm in names:
            old = OPS.get(nm)

            def g(I, a, k, n, nm=nm, old=old):
                try:
                    r = f(nm, I, a, k, n)
                except (TypeError, IndexError, ValueError):
                    r = None
                return r if r is not None else old(I, a, k, n)
            OPS[nm] = g
        return f
    return d


def rows(sizes, comps):
    """components as a dictionary by index"""
    return dict(zip(itertools.product(*[range(s) for s in sizes]), comps))


def out(I, t, lead, sizes, comps):
    if len(comps) > T.CAP:
        return None
    return I.newloc(Tensor(lead + [Dim(s) for s in sizes], comps, len(sizes), NOROOT, t.dtype, t.dev, t.deps))


@enumerated_op("pad")
def _pad(nm, I, a, k, n):
    p = ints(I, T.kwarg(a, k, 1, "pad"), 0)
    if p is None or len(p) % 2:
        return None
    m = len(p) // 2
    r = sized(I, a[0], m)
    mode = name_of(I, T.kwarg(a, k, 2, "mode"), "constant")
    if r is None or mode not in ("constant", "reflect", "replicate", "circular"):
        return None
    t, lead, sizes, comps = r
    v = T.kwarg(a, k, 3, "value")
    v = E.ZERO if T.isnone(v) else I.resolve(v).n
    src = rows(sizes, comps)
    axes = []
    for ax, s in enumerate(sizes):
        j = len(sizes) - 1 - ax
        lo, hi = (p[2 * j], p[2 * j + 1]) if j < m else (0, 0)
        if mode == "reflect" and max(lo, hi) >= s:
            I.ev("shape_error", n, op="pad", why="reflection padding of %d in a dimension of %d" % (max(lo, hi), s))
            return None
        ix = []
        for i in range(-lo, s + hi):
            if 0 <= i < s:
                ix.append(i)
            elif mode == "constant":
                ix.append(None)
            elif mode == "reflect":
                ix.append(-i if i < 0 else 2 * (s - 1) - i)
            elif mode == "replicate":
                ix.append(0 if i < 0 else s - 1)
            else:
                ix.append(i % s)
        axes.append(ix)
    return out(I, t, lead, [len(x) for x in axes], [v if None in q else src[q] for q in itertools.product(*axes)])


@enumerated_op("avg_pool2d")
def _avg(nm, I, a, k, n):
    ks = ints(I, T.kwarg(a, k, 1, "kernel_size"), 2)
    st = T.kwarg(a, k, 2, "stride")
    st = ks if T.isnone(st) else ints(I, st, 2)
    pd = T.kwarg(a, k, 3, "padding")
    pd = [0, 0] if T.isnone(pd) else ints(I, pd, 2)
    ce, cip, dv = T.kwarg(a, k, 4, "ceil_mode"), T.kwarg(a, k, 5, "count_include_pad"), T.kwarg(a, k, 6, "divisor_override")
    ce = 0 if T.isnone(ce) else I.resolve(ce).c
    cip = 1 if T.isnone(cip) else I.resolve(cip).c
    dv = 0 if T.isnone(dv) else I.resolve(dv).c
    r = sized(I, a[0] if a else k["input"], 2)
    if r is None or ks is None or st is None or pd is None or min(ks + st) < 1 or None in (ce, cip, dv):
        return None
    t, lead, sizes, comps = r
    src = rows(sizes, comps)
    hw = []
    for s, q, d, p in zip(sizes[-2:], ks, st, pd):
        m = s + 2 * p - q
        o = (-(-m // d) if ce else m // d) + 1
        if ce and (o - 1) * d >= s + p:
            o -= 1
        hw.append(o)
    if min(hw) < 1:
        return None
    res = []
    H, W = sizes[-2:]
    for q in itertools.product(*[range(s) for s in sizes[:-2]]):
        for i in range(hw[0]):
            for j in range(hw[1]):
                s = E.ZERO
                y0, x0 = i * st[0] - pd[0], j * st[1] - pd[1]
                cnt = (min(y0 + ks[0], H + pd[0]) - y0) * (min(x0 + ks[1], W + pd[1]) - x0)
                real = 0
                for y in range(max(y0, 0), min(y0 + ks[0], H)):
                    for x in range(max(x0, 0), min(x0 + ks[1], W)):
                        s = E.add(s, src[q + (y, x)])
                        real += 1
                cnt = dv or (cnt if cip else real)
                if not cnt:
                    return None
                res.append(E.mul(s, E.const(1.0 / cnt)))
    return out(I, t, lead, sizes[:-2] + hw, res)


@enumerated_op("std", "var")
def _std(nm, I, a, k, n):
    from .ops2 import dims_arg, reduce_t, foldsum, sum_sym
    if len(a) > 2 or set(k) - {"dim", "keepdim", "unbiased", "correction", "axis"}:
        return None
    t = getT(I, a[0])
    if t is None or t.shape is None or not t.k:
        return None
    corr = 1
    if "unbiased" in k:
        corr = int(bool(T.toint(I, k["unbiased"])))
    elif "correction" in k:
        corr = T.toint(I, k["correction"])
    if corr is None:
        return None
    dv = T.kwarg(a, k, 1, "dim", k.get("axis"))
    ds = dims_arg(I, t, dv, n)
    if ds is None or not all(d >= len(t.shape) - t.k for d in ds):
        return None
    cnt = 1
    for d in ds:
        cnt *= t.shape[d].c
    if cnt - corr <= 0:
        return None
    mu = reduce_t(I, t, ds, True, foldsum, sum_sym, n)
    mu = I.newloc(mu.but(comps=[E.mul(E.const(1.0 / cnt), c) for c in mu.comps]))
    d = OPS["sub"](I, [I.newloc(t), mu], {}, n)
    t2 = I.tensor(OPS["mul"](I, [d, d], {}, n))
    kp = k.get("keepdim")
    keep = kp is not None and T.toint(I, kp) == 1
    r = reduce_t(I, t2, ds, keep, foldsum, sum_sym, n)
    cs = [E.mul(E.const(1.0 / (cnt - corr)), c) for c in r.comps]
    return I.newloc(r.but(comps=[E.sqrt(c) for c in cs] if nm == "std" else cs, roots=NOROOT, dtype=t.dtype))
