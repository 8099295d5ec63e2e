"""The Laue rotation groups are the eleven crystallographic rotation groups."""
from .. import expr as E, contracts as K, groupref as G
from ..harness import *
from ..values import *
from ..loader import Repo

LE = K.S + "laue_generators:laue_elements"
GM = K.S + "laue_generators:get_laue_mult"


def elements(p, repo, i):
    I = Interp(repo, LE)
    out = I.resolve(I.run(LE, [Num(i)], {}))
    p.saw(I)
    t = I.tensor(out)
    if t is None or t.shape is None:
        return I, None, None
    c = comps(I, out)
    if c is None:
        return I, t, None
    v = [E.cval(x) for x in c]
    return I, t, v


def job(p, item):
    repo = Repo()
    r = repo.find(LE)
    if r is None:
        p.missing(LE)
        return
    rel, line = r[0].rel, r[1].lineno
    if item == "mult":
        m = repo.find(GM)
        if m is None:
            p.missing(GM)
            return
        for i in range(1, 12):
            I = Interp(repo, GM)
            o = I.resolve(I.run(GM, [Num(i)], {}))
            p.saw(I)
            v = E.cval(o.n) if isinstance(o, Num) else None
            p.count("group facts")
            if v is None:
                p.undecided(GM, "multiplicity", "value for group %d not known" % i)
            elif v != G.MULT[i]:
                p.viol(m[0].rel, "get_laue_mult", "multiplicity", "multiplicity of Laue group %d is %g, the group %s with inversion has %d elements" % (
                    i, v, G.NAMES[i], G.MULT[i]), line=m[1].lineno)
            else:
                p.ok("get_laue_mult(%d)" % i, "multiplicity", str(v))
        return
    i = item
    I, t, v = elements(p, repo, i)
    where = "laue_elements(%d)" % i
    if v is None or any(x is None for x in v):
        p.undecided(where, "elements", "the table is not a closed constant")
        return
    n = len(v) // 4
    q = [tuple(v[4 * k:4 * k + 4]) for k in range(n)]
    ref = {G.key(x) for x in G.GROUP[i]}
    have = [G.key(x) for x in q]

    def fact(cond, kind, text):
        p.count("group facts")
        if cond:
            p.ok(where, kind, text[:80])
        else:
            p.viol(rel, "laue_elements", kind, "group %d (%s): %s" % (i, G.NAMES[i], text), line=line)

    bad = [k for k in range(n) if abs(sum(x * x for x in q[k]) - 1) > 1e-12]
    fact(not bad, "unit", "element %s is not a unit quaternion" % bad[:1])
    fact(max(abs(x - y) for x, y in zip(q[0], (1, 0, 0, 0))) < 1e-12, "identity first", "first element is %s" % (q[0],))
    fact(len(set(have)) == n and n == G.MULT[i] // 2, "distinct elements",
         "%d elements, %d distinct rotations, the group has %d" % (n, len(set(have)), G.MULT[i] // 2))
    open_ = [(a, b) for a in range(n) for b in range(n) if G.key(G.qm(q[a], q[b])) not in set(have)]
    fact(not open_, "closure", "product of elements %s is not an element" % (open_[:1],))
    fact(set(have) == ref, "elements", "not the rotations generated by the main axis along z and the two-fold axis along x: %s" % (
        sorted(set(have) ^ ref)[:2],))
    ex = max(min(max(abs(a - b) for a, b in zip(x, y)) for y in list(G.GROUP[i]) + [tuple(-w for w in y) for y in G.GROUP[i]]) for x in q)
    fact(ex < 1e-14 if t.dtype == "f64" else True, "double precision", "components are off by %.2g" % ex)
    if t.dtype in ("f64", "f32"):
        fact(t.dtype == "f64", "double precision", "elements are returned in single precision")
    dem = [e for e in I.events if e.kind in ("downcast", "downcast64", "literal_f32")]
    p.count("tables")


def run(rep, tier):
    rep.pmap(job, list(range(1, 12)) + ["mult"], limit=60)
    rep.floor = {"group facts": 60}
    return ("The element table returned for each of the eleven Laue group numbers is evaluated from the source as constants and compared "
            "with the group generated by reference generators: unit quaternions, identity first, distinct, closed, same rotations, multiplicity.")
