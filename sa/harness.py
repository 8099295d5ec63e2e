"""Symbolic inputs for the analysed functions."""
import itertools
from . import expr as E
from .values import *
from .interp import Interp, NONE, TRUE, FALSE
from .loader import Repo

_n = [0]


def dimsize(s):
    if isinstance(s, int):
        return E.const(s)
    if isinstance(s, E.Node):
        return s
    return E.leaf(E.psym("dim:" + s, lo=1, isint=True))


def spec(name, nidx, lo=-E.INF, hi=E.INF, isint=False, unit=None, unit_norm=False, percomp=None, rel=None):
    """register ranges of a named input.  nidx: number of trailing enumerated indices"""
    def f(ix):
        tail = ix[len(ix) - nidx:] if nidx else ()
        d = dict(lo=lo, hi=hi, isint=isint, unit=unit)
        if percomp is not None and tail[-1:] and tail[-1] in percomp:
            d.update(percomp[tail[-1]])
        if unit_norm and tail[-1] == unit_norm[0]:
            # component unit_norm[0] squared = 1 - sum of other squares
            p = E.pconst(1.0)
            for j in unit_norm[1]:
                p = E.padd(p, E.pmul(*(2 * [E.patom(E.ld(name, ix[:-1] + (j,)))])), -1.0)
            d["rel"] = p
        if rel is not None:
            r = rel(name, ix)
            if r is not None:
                d["rel"] = r
        return d
    E.LD_SPEC[name] = f


class B1(int):
    """a batch dimension of size one (not part of the enumerated block)"""


def tens(I, name, shape, dtype="IN", dev="IN", root=True, **kw):
    """a symbolic tensor input; ints in the trailing positions are enumerated,
    strings are symbolic dims"""
    dims = []
    k = 0
    n = 1
    for s in reversed(shape):
        if isinstance(s, int) and not isinstance(s, B1) and n * s <= 160:
            k += 1
            n *= s
        else:
            break
    for p, s in enumerate(shape):
        if p >= len(shape) - k:
            dims.append(Dim(E.const(s)))
        elif isinstance(s, int) and s == 1:
            dims.append(Dim(1))
        else:
            dims.append(Dim(dimsize(s), (IV("%s.%d" % (name, p)),)))
    spec(name, k, **kw)
    iv = tuple(v for d in dims for v in d.ivs)
    comps = [E.leaf(E.patom(E.ld(name, iv + idx)))
             for idx in itertools.product(*[range(s) for s in shape[len(shape) - k:]])]
    r = frozenset([name]) if root else NOROOT
    return I.newloc(Tensor(dims, comps, k, roots=r, dtype=dtype, dev=dev, deps=frozenset([name])))


def num(name, lo=-E.INF, hi=E.INF, isint=False, unit=None):
    return Num(E.leaf(E.psym(name, lo=lo, hi=hi, isint=isint, unit=unit)), isint=isint, deps=frozenset([name]))


def flag(name):
    return Num(E.bool_atom("opt:" + name), isbool=True, deps=frozenset([name]))


def quat(I, name, batch=(), positive=False, **kw):
    """unit quaternion input (w is the reduced component)"""
    pc = {0: dict(lo=0.0)} if positive else None
    return tens(I, name, tuple(batch) + (4,), lo=-1.0, hi=1.0, unit_norm=(0, (1, 2, 3)), percomp=pc, **kw)


def svec(I, name, batch=(), n=3, **kw):
    """unit vector input"""
    return tens(I, name, tuple(batch) + (n,), lo=-1.0, hi=1.0, unit_norm=(n - 1, tuple(range(n - 1))), **kw)


def comps(I, v):
    t = I.tensor(I.resolve(v))
    return None if t is None else list(t.comps)


def shape_of(I, v):
    t = I.tensor(I.resolve(v))
    if t is None or t.shape is None:
        return None
    return [d.c if d.c is not None else d.size for d in t.shape]
