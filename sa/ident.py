"""Identities between operations: results of the analysed functions as nodes, compared with reference nodes."""
from . import expr as E, contracts as K
from .compare import agree, Eval, Opaque, assignment, mp_eval
from .harness import *
from .values import *


class Fails(Exception):
    """the analysed call certainly raises"""


class Ctx:
    """one interpreter with named symbolic inputs and calls of public functions"""

    def __init__(self, p, repo, root, dt="f64"):
        self.p, self.repo, self.dt = p, repo, dt
        self.I = Interp(repo, root)
        self.missing = []
        self.raw = []          # every result looked at: must be defined on the domain

    def arg(self, role, name, batch=("B",)):
        v = K.role(self.I, role, name, batch)
        if isinstance(v, Ref):
            t = self.I.tensor(v)
            if t is not None:
                self.I.store[v.loc] = t.but(dtype=self.dt)
        return v

    def call(self, qual, *args, **kw):
        r = self.repo.find(qual)
        if r is None:
            self.missing.append(qual)
            raise LookupError(qual)
        out = self.I.run(qual, [Num(v) if isinstance(v, (int, float)) else v for v in args], {k: (Num(v) if isinstance(v, (int, float)) else v) for k, v in kw.items()})
        self.p.saw(self.I)
        return self.I.resolve(out)

    def c(self, v):
        r = comps(self.I, v)
        if r is not None:
            self.raw += r
        return r

    def outs(self, v):
        return list(v.items) if isinstance(v, Tup) else [v]


def undefined(nodes, pts):
    for pt in pts:
        ev = Eval(assignment(pt, syms_of(pt)))
        try:
            for i, n in enumerate(nodes):
                v = ev.node(n)
                if v != v:
                    w = mp_eval(assignment(pt, syms_of(pt)))
                    if w is not None:
                        v = w.node(n)
                if v != v:
                    return "component %d is not a number for %s" % (i, {q: v for q, v in pt.items()})
        except Opaque:
            return None
    return None


def syms_of(pt):
    def f(a):
        if a.kind in ("sym", "psym", "s") and a.args and a.args[0] in pt:
            v = pt[a.args[0]]
            return float(v) if not isinstance(v, (list, tuple)) else None
        return None
    return f


def check(p, repo, qual, label, fn, pts, tol=1e-6, dt="f64", defined=True):
    """fn(ctx) -> (result nodes, reference nodes)"""
    r = repo.find(qual)
    if r is None:
        p.missing(qual)
        return
    rel, line, func = r[0].rel, r[1].lineno, qual.split(":")[1]
    where = "%s:%s %s" % (rel, func, label)
    p.count("identities")
    cx = Ctx(p, repo, qual, dt)
    try:
        got, want = fn(cx)
    except LookupError as e:
        p.missing(str(e))
        return
    except Fails as e:
        p.viol(rel, func, label + " raises", "%s raises: %s" % (where, e), line=line)
        return
    if got is None or any(g is None for g in got):
        p.undecided(where, label, "the result has no known components")
        return
    if defined:
        bad = undefined(got + cx.raw, pts)
        if bad:
            p.viol(rel, func, label + " undefined", "%s: result %s" % (where, bad), line=line)
            return
    st, txt, n = agree(got, want, pts, tol=tol, syms=None if not pts else None) if not any_syms(pts) else agree_syms(got, want, pts, tol)
    p.count("points", n)
    if st in ("same", "agree"):
        p.ok(where, label, txt)
    elif st == "differ":
        p.viol(rel, func, label, "%s fails: %s" % (where, txt), line=line)
    else:
        p.undecided(where, label, txt)


def any_syms(pts):
    return any(not isinstance(v, (list, tuple)) for pt in pts[:1] for v in pt.values())


def agree_syms(got, want, pts, tol):
    n = 0
    opq = None
    for pt in pts:
        st, txt, k = agree(got, want, [pt], tol=tol, syms=syms_of(pt))
        if st == "same":
            return st, txt, 0
        if st == "differ":
            return st, txt, n
        if st == "opaque":
            opq = txt
            if "no evaluable" not in txt:
                return "opaque", txt, n
        n += k
    return ("agree", "agree at %d points of the domain" % n, n) if n else ("opaque", opq or "", 0)
