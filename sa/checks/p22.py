"""Lists of reflections are complete and the tables of beam differences address every pair of listed beams."""
import itertools
import math
from .. import expr as E, refs as F
from .. import torchops
from ..calls import *
from ..loader import Repo
from ..interp import Interp
from .p20 import U, C, G, lattices

D = "ebsdtorch.crystallography.diffraction:"
SF = "ebsdtorch.crystallography.scattering_factors."
CENTRE = {1: ("P", lambda h, k, l: True), 225: ("F", lambda h, k, l: h % 2 == k % 2 == l % 2), 229: ("I", lambda h, k, l: (h + k + l) % 2 == 0),
          20: ("C", lambda h, k, l: (h + k) % 2 == 0), 38: ("A", lambda h, k, l: (k + l) % 2 == 0), 166: ("R", lambda h, k, l: (-h + k + l) % 3 == 0)}


def big():
    torchops.CAP, torchops.ENUM, torchops.WORK = 100000, 20000, 2000000


def crystal(I, repo, l, sg=1):
    I.hooks[G + "sg_operators"] = lambda I, f, a, k, n: build(I, [1, 4, 4], [1.0 * (i % 5 == 0) for i in range(16)])
    return make(I, repo, C, dict(sg_num=sg, sg_setting=1, atom_data=[[14, 0.1, 0.2, 0.3, 1.0, .005]], abc=list(l[:3]), abc_units="nm", angles=list(l[3:]), angles_units="rad"))


def rmetric(l):
    a, b, c, x, y, z = l
    g = [[a * a, a * b * math.cos(z), a * c * math.cos(y)], [0, b * b, b * c * math.cos(x)], [0, 0, c * c]]
    g[1][0], g[2][0], g[2][1] = g[0][1], g[0][2], g[1][2]
    det = (g[0][0] * (g[1][1] * g[2][2] - g[1][2] ** 2) - g[0][1] * (g[0][1] * g[2][2] - g[1][2] * g[0][2]) + g[0][2] * (g[0][1] * g[1][2] - g[1][1] * g[0][2]))
    cof = lambda i, j: (g[(i + 1) % 3][(j + 1) % 3] * g[(i + 2) % 3][(j + 2) % 3] - g[(i + 1) % 3][(j + 2) % 3] * g[(i + 2) % 3][(j + 1) % 3]) / det
    return [[cof(j, i) for j in range(3)] for i in range(3)]


def listed(l, dmin, ok):
    m = rmetric(l)
    n = [int(x / dmin) + 2 for x in l[:3]]
    out = set()
    for h in itertools.product(*[range(-x, x + 1) for x in n]):
        q = sum(h[i] * m[i][j] * h[j] for i in range(3) for j in range(3))
        if any(h) and ok(*h) and q * dmin * dmin < 1:
            assert abs(q * dmin * dmin - 1) > 1e-7
            out.add(h)
    return out


def reflections(p, item):
    li, dmin, sg, filt = item
    big()
    repo = Repo()
    q = C + ".get_reflections"
    r = repo.find(q)
    if r is None:
        return p.missing(q)
    l = lattices()[li]
    I = Interp(repo, q)
    o = crystal(I, repo, l, sg)
    I.events[:] = []
    x = method(I, repo, o, "get_reflections", dmin, False, *([] if filt is None else [filt]))
    p.saw(I)
    p.count("reflection lists")
    cen, ok = CENTRE[sg]
    if filt is False:
        ok = CENTRE[1][1]
    where = "reflections of lattice %d (%s%s) above %g nm" % (li, cen, "" if filt is None else ", unfiltered", dmin)
    bad = [e for e in I.events if e.kind in ("shape_error", "undefined", "attr_missing", "raise") and (e.kind != "raise" or always_raises(I))]
    if bad:
        p.viol(r[0].rel, "Cell.get_reflections", "fails", "%s: %s" % (where, str(bad[0])[:200]), line=r[1].lineno)
        return
    sh, c = enumerated(I, x)
    if c is None or len(sh) != 2 or sh[1] != 3:
        p.undecided(where, "reflections", "not a closed constant")
        return
    got = [tuple(int(v) for v in c[i:i + 3]) for i in range(0, len(c), 3)]
    want = listed(l, dmin, ok)
    miss, extra = want - set(got), set(got) - want
    if miss or extra or len(got) != len(set(got)):
        what = "%d missing such as %s" % (len(miss), sorted(miss)[0]) if miss else "%d too many such as %s" % (len(extra), sorted(extra)[-1]) if extra else "some are listed twice"
        p.viol(r[0].rel, "Cell.get_reflections", "lists missing" if miss else "lists extra" if extra else "lists twice", "%s: %d listed, %d expected: %s" % (where, len(got), len(want), what), line=r[1].lineno)
    else:
        p.ok(where, "reflections", "%d listed" % len(got))
    # differences of any two allowed reflections of the list are in the difference table, inside the limits
    o2 = method(I, repo, o, "get_hkl_limits", dmin)
    y = method(I, repo, o, "get_reflections", dmin, True, *([] if filt is None else [filt]))
    sh, c = enumerated(I, y)
    try:
        lim = [int(const(I, v)) for v in o2.items]
    except (KeyError, AttributeError):
        lim = None
    p.count("difference lists")
    if c is None or lim is None:
        p.undecided(where, "differences", "not a closed constant")
        return
    tab = [tuple(int(v) for v in c[i:i + 3]) for i in range(0, len(c), 3)]
    ts = set(tab)
    over = [h for h in want if any(abs(a) > b for a, b in zip(h, lim))]
    lack = [tuple(a - b for a, b in zip(g, h)) for g in want for h in want if g != h and tuple(a - b for a, b in zip(g, h)) not in ts] if len(want) < 900 else []
    lack += [h for h in want if h not in ts]
    out = [h for h in tab if any(abs(a) > 2 * b for a, b in zip(h, lim))]
    if over:
        p.viol(r[0].rel, "Cell.get_hkl_limits", "limits", "%s: the index limits %s leave out %s" % (where, lim, over[0]), line=r[1].lineno)
    elif lack or out or len(ts) != len(tab) or (0, 0, 0) in ts:
        p.viol(r[0].rel, "Cell.get_reflections", "difference table", "%s: the difference table %s" % (where, "lacks %s" % (lack[0],) if lack else "reaches %s beyond twice the limits %s" % (out[0], lim) if out
               else "holds 000 or a repeated entry"), line=r[1].lineno)
    else:
        p.ok(where, "differences", "%d entries" % len(tab))


def tables(p, item):
    """every entry of the matrix of beam interactions is looked up at the difference of its two beams"""
    fn, l, dmin, kw = item
    big()
    repo = Repo()
    q = D + fn
    r = repo.find(q)
    if r is None:
        return p.missing(q)
    rel, line = r[0].rel, r[1].lineno
    I = Interp(repo, q)

    glen = []

    def sf(I, f, a, k, n):
        g = I.tensor(I.resolve(k.get("g", a[0] if a else None)))
        ng = g.shape[-1].c
        glen[:] = [E.cval(x) for x in g.comps]
        return I.newloc(Tensor([Dim(E.const(1)), Dim(E.const(1)), Dim(E.const(ng))], [num("sf%d" % j).n for j in range(ng)], 3, NOROOT, "c64", "CPU"))
    I.hooks[SF + "scattering_factors_WK:scatter_factor_WK"] = sf
    I.hooks[SF + "scattering_factors_Hybrid:scatter_factor_hybrid"] = sf
    o = crystal(I, repo, l)
    ob = I.deref(I.resolve(o))
    # one site away from every symmetric position, so that no two differences share a phase
    ob.attrs["apos"] = I.newloc(Lst([build(I, [1, 3], [0.1237, 0.2711, 0.3853])]))
    ob.attrs["mults"] = build(I, [1], [1], dt="i64")
    I.events[:] = []
    res = I.resolve(I.run(q, [o], dict(dmin=Num(dmin), voltages_kV=build(I, [1], [20.0], dt="f32"), **{k: val(v) for k, v in kw.items()})))
    p.saw(I)
    where = "%s(%s) for a cell of %s nm, spacings above %g nm" % (fn, ", ".join("%s=%s" % x for x in sorted(kw.items())), "/".join("%g" % x for x in l[:3]), dmin)
    p.count("matrices")
    bad = [e for e in I.events if e.kind == "shape_error" and "diffraction" in str(e)]
    if bad:
        p.viol(rel, fn, "table index", "%s: %s" % (where, str(bad[0])[:200]), line=line)
        return
    its = res.items if isinstance(res, Tup) else []
    hs, h = enumerated(I, its[0]) if its else (None, None)
    t = I.tensor(I.resolve(its[1])) if len(its) > 1 else None
    if h is None or t is None or t.shape is None or t.k != len(t.shape) or [d.c for d in t.shape] != [1, hs[0], hs[0]]:
        p.undecided(where, "table index", "the beams or the matrix are not enumerated")
        return
    hkl = [tuple(int(v) for v in h[i:i + 3]) for i in range(0, len(h), 3)]
    if hkl[0] != (0, 0, 0) or len(set(hkl)) != len(hkl) or set(hkl[1:]) != listed(l, dmin, CENTRE[1][1]):
        p.viol(rel, fn, "beam list", "%s: the beams are not 000 followed by the listed reflections, each once" % where, line=line)
        return
    seen, back, owned = {}, {}, 0
    n = len(hkl)
    for i in range(n):
        for j in range(n):
            d = tuple(a - b for a, b in zip(hkl[j], hkl[i]))
            v = t.comps[i * n + j]
            if any("uninit" in str(a.kind) for a in E.node_atoms(v)):
                p.viol(rel, fn, "table index", "%s: the entry of beams %s and %s is never filled in" % (where, hkl[i], hkl[j]), line=line)
                return
            m = rmetric(l)
            q2 = sum(d[a] * m[a][b] * d[b] for a in range(3) for b in range(3))
            own = [x for x in (glen[int(a.args[0][2:])] for a in E.node_atoms(v) if a.kind in ("sym", "psym", "s") and str(a.args[0]).startswith("sf")) if x is not None]
            if own and all(abs((x / u) ** 2 - q2) > 1e-6 * (1 + q2) for x in own for u in (0.1, 0.2 * math.pi)):      # which unit is the business of P24
                p.viol(rel, fn, "table index", "%s: the entry of beams %s and %s is that of a difference of another length" % (where, hkl[i], hkl[j]), line=line)
                return
            owned += bool(own)
            if seen.setdefault(d, v) is not v:
                p.viol(rel, fn, "table index", "%s: two pairs of beams that differ by %s read different entries" % (where, d), line=line)
                return
            if back.setdefault(v.id, d) != d:
                p.viol(rel, fn, "table index", "%s: beams that differ by %s and by %s read the same entry" % (where, d, back[v.id]), line=line)
                return
    if owned < n * n // 2:
        p.undecided(where, "table index", "the scattering factors do not appear in the entries")
        return
    p.ok(where, "table index", "%d beams, %d differences" % (n, len(seen)))


def job(p, item):
    {"r": reflections, "t": tables}[item[0]](p, item[1])


def run(rep, tier):
    ls = lattices()
    items = []
    for li, l in enumerate(ls):
        for f in (2.93, 4.61):
            items.append(("r", (li, max(l[:3]) / f, 1, None)))
    for sg, li in ((225, 0), (229, 0), (20, 1), (38, 1), (166, 2)):
        items += [("r", (li, max(ls[li][:3]) / 4.37, sg, None)), ("r", (li, max(ls[li][:3]) / 3.37, sg, False))]
    d = math.radians
    for l, dm in (((.4, .4, .4, d(88), d(84), d(95)), .27), ((.3, .5, .75, d(90), d(90), d(90)), .243), ((.72, .3, .47, d(95), d(90), d(101)), .234), ((.45, .3, .35, d(110), d(75), d(97)), .23)):
        items += [("t", ("calc_helper_bloch_formalism", l, dm, {})), ("t", ("calc_helper_bloch_formalism", l, dm, {"scatter_factor": "Hybrid"})),
                  ("t", ("calc_helper_scatter_matrix", l, dm, {})), ("t", ("calc_helper_scatter_matrix", l, dm, {"apply_qg_shift": False}))]
    rep.pmap(job, items, limit=240)
    rep.floor = {"reflection lists": 25}
    return ("The reflection lists, difference tables and index limits of cells of every centring and of oblique lattices are evaluated by constant propagation and compared "
            "with the set of all index triples of large enough spacing; the matrices of beam interactions are evaluated with a symbol per scattering factor and a constant phase per difference, "
            "and every entry must be the one filled in for the difference of its two beams.")
