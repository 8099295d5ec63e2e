"""Space groups: the generated operators form the group, and everything assigned to the group belongs to it."""
import itertools
import math
from .. import expr as E, sgref as S, torchops
from ..calls import *
from ..compare import agree
from ..ident import check
from ..loader import Repo

G = "ebsdtorch.crystallography.groups:"
U = "ebsdtorch.crystallography.unit_cell:"
Y = "ebsdtorch.utils.symmetry_classes:"
KV = "ebsdtorch.crystallography.kvectors:kvectors_grid"


def rows(c, w):
    return [tuple(c[i * w:i * w + w]) for i in range(len(c) // w)]


class TooMany(Exception):
    pass


def h_unique(I, f, args, kw, n):
    """summary of unique_rows on known rows (the summary is an obligation of its own)"""
    sh, c = enumerated(I, args[0]) if args else (None, None)
    if c is None or len(sh) != 2:
        raise LookupError("rows not known")
    out, seen = [], set()
    for r in rows(c, sh[1]):
        k = tuple(round(x * 24) for x in r)
        if k not in seen:
            seen.add(k)
            out.append(r)
    return build(I, [len(out), sh[1]], [x for r in out for x in r])


def h_matmul(I, f, args, kw, n):
    """summary of the product modulo lattice translations on known operators (an obligation of its own)"""
    (sa, a), (sb, b) = enumerated(I, args[0]), enumerated(I, args[1])
    if a is None or b is None or sa[-2:] != [4, 4] or sb[-2:] != [4, 4]:
        raise LookupError("operators not known")
    A, B = rows(a, 16), rows(b, 16)
    if max(len(A), len(B)) > 192:
        raise TooMany(max(len(A), len(B)))
    lead = []
    la, lb = [1] * (max(len(sa), len(sb)) - len(sa)) + sa[:-2], [1] * (max(len(sa), len(sb)) - len(sb)) + sb[:-2]
    for p, q in zip(la, lb):
        if p != q and 1 not in (p, q):
            raise LookupError("shapes")
        lead.append(max(p, q))
    out = []
    memo = {}
    for ix in itertools.product(*[range(s) for s in lead]):
        i = j = 0
        for t, p, q in zip(ix, la, lb):
            i = i * p + (t if p > 1 else 0)
            j = j * q + (t if q > 1 else 0)
        r = memo.get((i, j))
        if r is None:
            x, y = A[i], B[j]
            r = [sum(x[4 * u + k] * y[4 * k + v] for k in range(4)) for u in range(4) for v in range(4)]
            for u in (3, 7, 11):
                r[u] = (round(r[u] * 24) % 24) / 24
            memo[i, j] = r
        out += r
    return build(I, lead + [4, 4], out)


def operators(p, repo, sg, st):
    q = G + "sg_operators"
    torchops.CAP = 600000
    I = Interp(repo, q)
    I.hooks[G + "unique_rows"] = h_unique
    I.hooks[G + "matmul_trans_mod"] = h_matmul
    o = I.run(q, [Num(sg)], {"sg_setting": Num(st)} if st != 1 else {})
    p.saw(I)
    return enumerated(I, o)


def key(m):
    return tuple(round(x) for x in m[0:3] + m[4:7] + m[8:11]), tuple(round(m[i] * 24) % 24 for i in (3, 7, 11))


def mul(a, b):
    R, t = a
    Q, s = b
    return (tuple(sum(R[3 * i + k] * Q[3 * k + j] for k in range(3)) for i in range(3) for j in range(3)),
            tuple((sum(R[3 * i + k] * s[k] for k in range(3)) + t[i]) % 24 for i in range(3)))


def det(R):
    a, b, c, d, e, f, g, h, i = R
    return a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)


def hist(rots):
    h = {}
    for R in rots:
        k = (det(R), R[0] + R[4] + R[8])
        h[k] = h.get(k, 0) + 1
    return h




def group(p, item):
    sg, st = item
    repo = Repo()
    q = G + "sg_operators"
    r = repo.find(q)
    if r is None:
        p.missing(q)
        return
    rel, line = r[0].rel, r[1].lineno
    where = "sg_operators(%d, setting %d)" % item
    try:
        sh, c = operators(p, repo, sg, st)
    except LookupError as e:
        p.undecided(where, "operators", str(e))
        return
    except TooMany as e:
        p.count("groups")
        p.viol(rel, "sg_operators", "operator set, group %d" % sg, "%s: closing the generators gives %s operators, no space group has more than 192" % (where, e), line=line)
        return
    if c is None or len(sh) != 3 or sh[1:] != [4, 4]:
        p.undecided(where, "operators", "the operators are not closed constants")
        return
    p.count("groups")
    M = rows(c, 16)

    def fact(cond, kind, text):
        p.count("group facts")
        if cond:
            p.ok(where, kind, "")
        else:
            p.viol(rel, "sg_operators", "%s, group %d" % (kind, sg), "%s: %s" % (where, text), line=line)
    bad = [m for m in M if max(abs(a - b) for a, b in zip(m[12:], (0, 0, 0, 1))) > 1e-9 or
           max(abs(m[i] - round(m[i])) for i in (0, 1, 2, 4, 5, 6, 8, 9, 10)) > 1e-9]
    fact(not bad, "homogeneous operator", "operator is not an affine lattice map: %s" % (bad[:1],))
    bad = [m for m in M if any(not -1e-9 <= m[i] < 1 - 1e-6 for i in (3, 7, 11))]
    fact(not bad, "translations in the unit cell", "translation part of %s" % ([(m[3], m[7], m[11]) for m in bad[:1]],))
    bad = [m for m in M if any(abs(m[i] * 24 - round(m[i] * 24)) > 1e-3 for i in (3, 7, 11))]
    fact(not bad, "crystallographic translations", "translation part of %s" % ([(m[3], m[7], m[11]) for m in bad[:1]],))
    K = [key(m) for m in M]
    ks = set(K)
    fact(len(ks) == len(K), "distinct operators", "%d operators, %d distinct" % (len(K), len(ks)))
    open_ = next(((a, b) for a in ks for b in ks if mul(a, b) not in ks), None)
    fact(open_ is None, "closure", "the product of %s is not among the %d operators" % (open_, len(ks)))
    I3 = (1, 0, 0, 0, 1, 0, 0, 0, 1)
    fact(key(M[0]) == (I3, (0, 0, 0)), "identity first", "first operator is %s" % (key(M[0]),))
    n, row = S.pg(sg)
    cen = [t for R, t in ks if R == I3]
    rots = {R for R, t in ks}
    fact(len(rots) == row[4] and len(ks) == row[4] * len(cen), "order", "%d operators, %d rotation parts, %d centring translations; point group %s has %d" % (
        len(ks), len(rots), len(cen), row[1], row[4]))
    fact(S.fingerprint(ks) == S.FP[item], "operator set", "the %d operators are not those of the group" % len(ks))
    if st == 2:
        fact((tuple(-x for x in I3), (0, 0, 0)) in ks, "inversion at the origin", "second setting without inversion at the origin")
    if repo.find(U + "Cell.__init__"):
        orbits(p, repo, repo.find(U + "Cell.__init__")[0], sg, st, c, ks)
    # reflection conditions of the centring
    q2 = U + "Cell.is_g_allowed"
    r2 = repo.find(q2)
    if r2 is None or st != 1:
        if r2 is None:
            p.missing(q2)
        return
    torchops.CAP = 3000
    hkl = list(itertools.product(range(-3, 4), repeat=3))
    I = Interp(repo, q2)
    try:
        o = cell(I, repo, sg, 1)
        g = build(I, [len(hkl), 3], [float(x) for h in hkl for x in h], "i64")
        out = method(I, repo, o, "is_g_allowed", g)
        p.saw(I)
        sh, c = enumerated(I, out)
    except (KeyError, AttributeError):
        c = None
    if c is None or sh != [len(hkl)]:
        p.undecided("is_g_allowed group %d" % sg, "reflection conditions", "mask is not a closed constant")
        return
    p.count("reflection tables")
    bad = [h for h, a in zip(hkl, c) if bool(a) != all(sum(x * y for x, y in zip(h, t)) % 24 == 0 for t in cen)]
    if bad:
        p.viol(r2[0].rel, "Cell.is_g_allowed", "reflection conditions", "group %d: reflection %s is %s although its centring translations %s say otherwise" % (
            sg, bad[0], "allowed" if c[hkl.index(bad[0])] else "excluded", [tuple("%g" % (x / 24) for x in t) for t in cen]), line=r2[1].lineno)
    else:
        p.ok("is_g_allowed group %d" % sg, "reflection conditions", "%d reflections" % len(hkl))


ATOMS = [(0.0, 0.0, 0.0), (0.5, 0.5, 0.5), (0.25, 0.25, 0.25), (1 / 3, 2 / 3, 0.25), (0.125, 0.125, 0.125), (0.0, 0.5, 0.25), (0.1, 0.2, 0.3), (-0.15, 1.25, 0.4)]


def orbits(p, repo, r, sg, st, c, ks):
    """positions and multiplicities of the atoms of a cell"""
    torchops.CAP, torchops.ENUM, torchops.WORK = 100000, 256, 400000
    I = Interp(repo, U + "Cell")
    I.hooks[U + "unique_rows"] = h_unique_pos
    where = "Cell(%d, setting %d)" % (sg, st)
    try:
        o = cell(I, repo, sg, st, ops=lambda I, f, a, k, n: build(I, [len(c) // 16, 4, 4], c), atoms=ATOMS)
        m = const(I, attr(I, o, "mults"))
        ap = attr(I, o, "apos")
        lst = I.deref(ap)
        got = [enumerated(I, x) for x in lst.items]
        p.saw(I)
        if len(m) != len(ATOMS) or len(got) != len(ATOMS) or any(g[1] is None for g in got):
            raise KeyError
    except (KeyError, AttributeError, TypeError, LookupError):
        p.undecided(where, "atom positions", "not closed constants")
        return
    for a, k, (sh, v) in zip(ATOMS, m, got):
        p.count("atom orbits")
        ref = {tuple(round(1200 * (sum(R[3 * i + j] * a[j] for j in range(3)) + t[i] / 24)) % 1200 for i in range(3)) for R, t in ks}
        pos = rows(v, 3)
        have = {tuple(round(1200 * x) % 1200 for x in y) for y in pos}
        bad = next((y for y in pos if not all(-1e-9 <= x < 1 - 1e-7 for x in y)), None)
        if bad is not None:
            p.viol(r.rel, "Cell.__init__", "atom positions in the unit cell", "%s: position %s" % (where, bad), line=1)
        elif have != ref or len(pos) != len(ref):
            p.viol(r.rel, "Cell.__init__", "atom positions", "%s: atom at %s has %d positions (%d distinct), its orbit has %d" % (where, a, len(pos), len(have), len(ref)), line=1)
        elif k != len(ref):
            p.viol(r.rel, "Cell.__init__", "atom multiplicity", "%s: atom at %s has multiplicity %g, its orbit has %d positions" % (where, a, k, len(ref)), line=1)
        else:
            p.ok(where, "atom positions", "%d" % len(ref))


def h_unique_pos(I, f, args, kw, n):
    sh, c = enumerated(I, args[0]) if args else (None, None)
    if c is None or len(sh) != 2:
        raise LookupError("rows not known")
    out = []
    for r in rows(c, sh[1]):
        if not any(sum(abs(x - y) for x, y in zip(r, q)) < 1e-4 for q in out):
            out.append(r)
    return build(I, [len(out), sh[1]], [x for r in out for x in r])


def cell(I, repo, sg, st, ops=None, atoms=((0.1, 0.2, 0.3),)):
    I.hooks[G + "sg_operators"] = ops or (lambda I, f, a, k, n: tens(I, "ops", (2, 4, 4), root=False))
    return make(I, repo, U + "Cell", dict(sg_num=sg, sg_setting=st, atom_data=[[14] + list(a) + [1.0, .005] for a in atoms], abc=[num("a", lo=.1), num("b", lo=.1), num("c", lo=.1)],
                                          abc_units="nm", angles=[num("al"), num("be"), num("ga")], angles_units="rad"))


def assigned(p, items):
    """attributes of cells and Laue lookups for some space group numbers"""
    repo = Repo()
    r = repo.find(U + "Cell.__init__")
    l = repo.find(Y + "space_group_to_laue")
    if r is None:
        p.missing(U + "Cell.__init__")
    if l is None:
        p.missing(Y + "space_group_to_laue")
    for sg in items:
        inside = 1 <= sg <= 230
        n, row = S.pg(sg) if inside else (0, None)
        if l is not None:
            I = Interp(repo, Y + "space_group_to_laue")
            o = I.run(Y + "space_group_to_laue", [Num(sg)], {})
            p.saw(I)
            where = "space_group_to_laue(%d)" % sg
            p.count("lookups")
            try:
                v = const(I, o)
            except KeyError:
                v = None
            if inside:
                if v is None:
                    p.undecided(where, "Laue group", "not a constant") if not always_raises(I) else p.viol(
                        l[0].rel, "space_group_to_laue", "rejects a group", "%s raises" % where, line=l[1].lineno)
                elif v != row[2]:
                    p.viol(l[0].rel, "space_group_to_laue", "Laue group %d" % sg, "%s is %d, point group %s belongs to Laue group %d" % (where, v, row[1], row[2]), line=l[1].lineno)
                else:
                    p.ok(where, "Laue group", "%d" % v)
            elif v is not None:
                p.viol(l[0].rel, "space_group_to_laue", "number out of range", "%s returns %d" % (where, v), line=l[1].lineno)
            else:
                p.ok(where, "number out of range", "raises") if always_raises(I) else p.undecided(where, "number out of range", "")
        if r is None:
            continue
        for st in (1, 2):
            I = Interp(repo, U + "Cell")
            o = cell(I, repo, sg, st)
            p.saw(I)
            where = "Cell(%d, setting %d)" % (sg, st)
            offered = inside and (st == 1 or sg in S.TWO)
            p.count("lookups")
            got = {}
            for a in ("pg_num", "xtal_system", "laue_group"):
                v = attr(I, o, a)
                try:
                    got[a] = None if v is None else const(I, v)
                except KeyError:
                    got[a] = None
            if not offered:
                if any(v is not None for v in got.values()):
                    p.viol(r[0].rel, "Cell.__init__", "accepts a setting or number that does not exist", "%s is accepted" % where, line=r[1].lineno)
                elif always_raises(I):
                    p.ok(where, "rejected", "raises")
                else:
                    p.undecided(where, "rejected", "")
                continue
            if always_raises(I):
                p.viol(r[0].rel, "Cell.__init__", "rejects a group", "%s raises" % where, line=r[1].lineno)
                continue
            for a, ref, what in (("pg_num", n, "point group"), ("xtal_system", row[3], "crystal system"), ("laue_group", row[2], "Laue group")):
                if got[a] is None:
                    p.undecided(where, what, "not a constant")
                elif got[a] != ref:
                    p.viol(r[0].rel, "Cell.__init__", "%s, group %d" % (what, sg), "%s: %s number %g, the group belongs to %d (%s)" % (where, what, got[a], ref, row[1]), line=r[1].lineno)
                else:
                    p.ok(where, what, "%d" % ref)


def helpers(p, what):
    repo = Repo()
    if what == "names":
        q = Y + "point_group_to_laue"
        r = repo.find(q)
        if r is None:
            p.missing(q)
            return
        for s, ref in [(S.SPELL[x[1]], x[2]) for x in S.PG] + [(b, None) for b in ("", "5", "mm", "m3", "422 ", "m3-m4-3m", "3-m ", "2/")]:
            I = Interp(repo, q)
            o = I.run(q, [Const(s)], {})
            p.saw(I)
            p.count("lookups")
            try:
                v = const(I, o)
            except KeyError:
                v = None
            where = "point_group_to_laue(%r)" % s
            if v is None and always_raises(I):
                p.ok(where, "rejected", "raises") if ref is None else p.viol(r[0].rel, "point_group_to_laue", "rejects %s" % s, "%s raises" % where, line=r[1].lineno)
            elif v is None:
                p.undecided(where, "Laue group", "not a constant")
            elif v != ref:
                p.viol(r[0].rel, "point_group_to_laue", "Laue group of %s" % (s or "an empty name"), "%s is %g, expected %s" % (where, v, ref or "an error"), line=r[1].lineno)
            else:
                p.ok(where, "Laue group", "%d" % v)
    elif what == "product":
        q = G + "matmul_trans_mod"
        if repo.find(q) is None:
            p.undecided(q, "product", "helper not present")
            return

        def fn(cx):
            I = cx.I
            a, b = tens(I, "A", ("B", 4, 4)), tens(I, "B", ("B", 4, 4))
            for v in (a, b):
                I.store[v.loc] = I.store[v.loc].but(dtype="f64")
            o = cx.call(q, a, b)
            g, x, y = cx.c(o), cx.c(a), cx.c(b)
            if g is None or len(g) != 16:
                return None, None
            got, want = [], []
            from .. import refs as F
            for i in range(3):
                for j in range(3):
                    got.append(g[4 * i + j])
                    want.append(F.add(*[F.mul(x[4 * i + k], y[4 * k + j]) for k in range(3)]))
                t = F.add(*[F.mul(x[4 * i + k], y[4 * k + 3]) for k in range(3)] + [x[4 * i + 3]])
                # fraction in [0, 1); values within 1e-4 of a whole number count as zero
                f = E.sub(t, E.floor(t))
                near = E.or_(E.lt(f, E.const(1e-4)), E.gt(f, E.const(1 - 1e-4)))
                got.append(E.ite(E.lt(E.abs_(g[4 * i + 3]), E.const(1e-4)), E.const(0), g[4 * i + 3]))
                want.append(E.ite(near, E.const(0), f))
            return got, want
        pts = []
        import random
        r = random.Random(4)
        mats = [[0, -1, 0, 1, 0, 0, 0, 0, 1], [-1, 0, 0, 0, -1, 0, 0, 0, -1], [0, 0, 1, 1, 0, 0, 0, 1, 0], [0, -1, 0, 1, -1, 0, 0, 0, 1],
                [1, 0, 0, 0, 1, 0, 0, 0, 1], [0, 1, 0, -1, 0, 0, 0, 0, -1], [1, 0, 0, 0, -1, 0, 0, 0, 1], [0, -1, 0, -1, 0, 0, 0, 0, 1]]

        def op(e):
            m = r.choice(mats)
            t = [r.randrange(24) / 24 + r.choice([0, e, -e]) for _ in range(3)]
            return [[float(x) for x in m[3 * i:3 * i + 3]] + [t[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]
        for e in (0.0, 1e-9, 1e-7):
            pts += [{"A": op(e), "B": op(e)} for _ in range(120)]
        check(p, repo, q, "product modulo lattice translations", fn, pts, 1e-5)
    else:
        mod = G if what == "unique groups" else U
        q = mod + "unique_rows"
        r = repo.find(q)
        if r is None:
            p.undecided(q, "distinct rows", "helper not present")
            return
        w = 16 if mod is G else 3
        torchops.CAP = 3000
        import random
        rn = random.Random(1)
        for case in range(8):
            n = 3 + case % 3
            base = [[float(rn.choice([-1, 0, 1, 0.5, 0.25, 1 / 3, 2 / 3, 5 / 6])) for _ in range(w)] for _ in range(n)]
            R = base + [[x + rn.choice([0, 1e-9, -1e-9]) for x in base[rn.randrange(n)]] for _ in range(2)]
            # rows that differ in a single entry, and by amounts that cancel
            j = rn.randrange(w)
            R.append([x + (1 / 24 if k == j else 0) for k, x in enumerate(base[0])])
            R.append([x + (0.25 if k == 0 else -0.25 if k == w - 1 else 0) for k, x in enumerate(base[1])])
            rn.shuffle(R)
            I = Interp(repo, q)
            o = I.run(q, [build(I, [len(R), w], [x for y in R for x in y])], {})
            p.saw(I)
            sh, c = enumerated(I, o)
            where = "%s case %d" % (q.split(":")[0].split(".")[-1] + ".unique_rows", case)
            want, seen = [], set()
            for y in R:
                k = tuple(round(x * 24) for x in y)
                if k not in seen:
                    seen.add(k)
                    want.append(k)
            p.count("row sets")
            if c is None or len(sh) != 2:
                p.undecided(where, "distinct rows", "not a closed constant")
                continue
            got = [tuple(round(x * 24) for x in y) for y in rows(c, w)]
            if sorted(got) != sorted(want):
                p.viol(r[0].rel, "unique_rows", "distinct rows", "%s: %d rows are kept of %d, %d are distinct" % (where, len(got), len(R), len(want)), line=r[1].lineno)
            else:
                p.ok(where, "distinct rows", "%d of %d" % (len(want), len(R)))


def job(p, item):
    k, x = item
    {"group": group, "assigned": assigned, "helper": helpers}[k](p, x)


def run(rep, tier):
    big = [227, 225, 226, 228]
    items = [("group", (g, s)) for g, s in sorted(S.FP, key=lambda x: -x[0])]
    items += [("assigned", list(range(i, min(i + 12, 234)))) for i in range(-1, 234, 12)]
    items += [("helper", w) for w in ("names", "product", "unique groups", "unique cells")]
    rep.pmap(job, items, limit=200)
    rep.floor = {}
    return ("The operators of each of the 230 space groups in each offered setting are evaluated from the generator strings by constant propagation "
            "through the source (the product modulo lattice translations and the removal of duplicate rows are summarised, and the summaries are "
            "obligations of their own), and checked as an abstract group: affine lattice maps, translations in the cell, distinct, closed, order, "
            "point group, operator set. Laue group lookups, the attributes of cells and the reflection conditions of the centring are evaluated for "
            "every group, every point group name, and numbers outside the range.")
