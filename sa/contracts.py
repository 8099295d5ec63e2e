"""Input/output contracts of the public functions (from the documentation).

A role says what an argument is.  `out` lists the documented shape suffixes of the
result(s); every documented '...' is a batch prefix."""
import math
from . import expr as E
from .values import *
from .harness import tens, num, flag, quat, svec, spec

PI = math.pi
CU_EDGE = PI ** (2.0 / 3.0) / 2          # half edge of the cubochoric cube
HO_R = (3.0 * PI / 4.0) ** (1.0 / 3.0)   # homochoric ball radius


def role(I, r, name, batch, **kw):
    b = tuple(batch)
    if r == "Q":
        return quat(I, name, b, **kw)
    if r == "Q+":
        return quat(I, name, b, positive=True, **kw)
    if r == "Q*":      # not necessarily unit
        return tens(I, name, b + (4,), **kw)
    if r == "OM":
        return tens(I, name, b + (3, 3), lo=-1.0, hi=1.0, **kw)
    if r == "AX":
        return tens(I, name, b + (4,), lo=-1.0, hi=1.0, unit_norm=(2, (0, 1)),
                    percomp={3: dict(lo=0.0, hi=PI, unit="rad")}, **kw)
    if r == "RO":
        return tens(I, name, b + (4,), lo=-1.0, hi=1.0, unit_norm=(2, (0, 1)),
                    percomp={3: dict(lo=0.0, hi=E.INF)}, **kw)
    if r == "HO":
        return tens(I, name, b + (3,), lo=-HO_R, hi=HO_R, **kw)
    if r == "CU":
        return tens(I, name, b + (3,), lo=-CU_EDGE, hi=CU_EDGE, **kw)
    if r == "BU":
        return tens(I, name, b + (3,), unit="rad", **kw)
    if r == "ZH":
        return tens(I, name, b + (6,), **kw)
    if r == "V3":
        return tens(I, name, b + (3,), **kw)
    if r == "S2":
        return svec(I, name, b, 3, **kw)
    if r == "V2":
        return tens(I, name, b + (2,), lo=-1.0, hi=1.0, **kw)
    if r == "V6":
        return tens(I, name, b + (6,), **kw)
    if r == "SE3":
        return tens(I, name, b + (4, 4), **kw)
    if r == "X":
        return tens(I, name, b, **kw)
    if r == "TH":
        return tens(I, name, b, unit="rad", **kw)
    if r == "float":
        return num(name)
    if r == "int":
        return num(name, lo=1, isint=True)
    if r == "device":
        return Device("ARG:" + name)
    raise KeyError(r)


S = "ebsdtorch.s2_and_so3."
O = S + "orientations:"
Qm = S + "quaternions:"
L = "ebsdtorch.lie_algebra.se3:"

C = {}


def add(qual, params, out, cases=None, **kw):
    C[qual] = dict(params=params, out=out, cases=cases or [{}], **kw)


SUF = {"qu": ("Q+", (4,)), "om": ("OM", (3, 3)), "ax": ("AX", (4,)), "ro": ("RO", (4,)),
       "ho": ("HO", (3,)), "cu": ("CU", (3,)), "bu": ("BU", (3,)), "zh": ("ZH", (6,)), "cl": ("X", (6,))}
for f, arg in [("qu2ho", "qu"), ("om2qu", "matrix"), ("om2ax", "matrix"), ("ax2om", "axis_angle"), ("cu2ho", "cu"),
               ("ho2cu", "ho"), ("ho2ax", "ho"), ("ho2ax_reference", "ho"), ("ho2ax_newton", "ho"), ("ax2ho", "ax"),
               ("ax2ro", "ax"), ("ro2ax", "ro"), ("ax2qu", "ax"), ("qu2ax", "qu"), ("qu2ro", "qu"), ("qu2bu", "qu"),
               ("bu2qu", "bu"), ("qu2cl", "qu"), ("qu2om", "qu"), ("zh2om", "zh"), ("om2zh", "matrix"),
               ("zh2qu", "zh"), ("qu2zh", "quaternions"), ("qu2cu", "quaternions"), ("om2ho", "matrix"),
               ("ax2cu", "ax"), ("ro2qu", "ro"), ("ro2om", "ro"), ("ro2cu", "ro"), ("ro2ho", "ro"),
               ("cu2ax", "cubochoric_vectors"), ("cu2qu", "cubochoric_vectors"), ("cu2om", "cubochoric_vectors"),
               ("cu2ro", "cubochoric_vectors"), ("ho2qu", "homochoric_vectors"), ("ho2om", "homochoric_vectors"),
               ("ho2ro", "homochoric_vectors"), ("om2ro", "matrix"), ("om2cu", "matrix"), ("bu2om", "bunge_angles"),
               ("bu2ax", "bunge_angles"), ("bu2ro", "bunge_angles"), ("bu2cu", "bunge_angles"),
               ("bu2ho", "bunge_angles"), ("om2bu", "matrix"), ("ax2bu", "axis_angle"), ("ro2bu", "rodrigues_frank"),
               ("cu2bu", "cubochoric_vectors"), ("ho2bu", "homochoric_vectors")]:
    a, b = f[:2], f[3:5]
    add(O + f, [(arg, SUF[a][0])], [SUF[b][1]])

for f, ps, out in [
        ("qu_std", ["Q"], (4,)), ("qu_norm", ["Q*"], (4,)), ("qu_prod_raw", ["Q", "Q"], (4,)),
        ("qu_prod", ["Q", "Q"], (4,)), ("qu_prod_pos_real", ["Q", "Q"], ()),
        ("qu_triple_prod_pos_real", ["Q", "Q", "Q"], ()), ("qu_prod_axis", ["Q", "Q"], (3,)),
        ("qu_conj", ["Q"], (4,)), ("qu_apply", ["Q", "V3"], (3,)), ("qu_norm_std", ["Q*"], (4,)),
        ("qu_angle", ["Q"], ()), ("quaternion_rotate_sets_sphere", ["S2", "S2"], (4,)),
        ("qu_slerp", ["Q", "Q", "float"], (4,))]:
    names = {"qu_apply": ["qu", "point"], "quaternion_rotate_sets_sphere": ["points_start", "points_finish"],
             "qu_slerp": ["a", "b", "t"]}.get(f, ["a", "b", "c"] if len(ps) > 1 else ["qu"])
    add(Qm + f, list(zip(names, ps)), [out])

for f, ps, out in [
        ("skew", [("omega", "V3")], [(3, 3)]), ("w_exp", [("omega", "V3")], [(3, 3)]),
        ("w_exp_vmat", [("omega", "V3")], [(3, 3), (3, 3)]), ("w_to_v", [("omega", "V3")], [(3, 3)]),
        ("w_to_v_inv", [("omega", "V3")], [(3, 3)]), ("se3_exp_map_quat", [("vecs", "V6")], [(4,), (3,)]),
        ("se3_log_map_quat", [("quats", "Q"), ("tvecs", "V3")], [(6,)]),
        ("se3_exp_map_om", [("vecs", "V6")], [(4, 4)]), ("se3_exp_map_split", [("vecs", "V6")], [(3, 3), (3,)]),
        ("se3_log_map_om", [("se3", "SE3")], [(6,)]), ("se3_log_map_split", [("R", "OM"), ("tvec", "V3")], [(6,)])]:
    add(L + f, ps, out)

LAUE = [dict(laue_id=i) for i in range(1, 12)]
for f, ps, out, key in [
        ("laue_fz_ori:ori_to_fz_laue", [("quats", "Q")], [(4,)], "laue_id"),
        ("laue_fz_ori:ori_equiv_laue", [("quats", "Q")], [("mult", 4)], "laue_id"),
        ("laue_fz_ori:ori_in_fz_laue_brute", [("quats", "Q")], [()], "laue_id"),
        ("laue_fz_ori:ori_in_fz_laue", [("quats", "Q+")], [()], "laue_id"),
        ("laue_fz_ori:ori_angle_laue", [("quats1", "Q"), ("quats2", "Q")], [()], "laue_id"),
        ("laue_fz_s2:s2_in_fz_laue", [("points", "S2")], [()], "laue_id"),
        ("laue_fz_s2:s2_to_fz_laue", [("points", "S2")], [(3,)], "laue_id"),
        ("laue_fz_s2:s2_equiv_laue", [("points", "S2")], [("mult", 3)], "laue_id")]:
    add(S + f, ps, out, cases=[{key: i} for i in range(1, 12)])
PAIRS = [dict(laue_id_1=i, laue_id_2=j) for i, j in [(1, 1), (2, 2), (5, 5), (9, 9), (11, 11), (11, 9), (2, 9), (7, 3)]]
for f, ps, out in [
        ("laue_fz_ori:disorientation", [("quats1", "Q"), ("quats2", "Q")], [(4,)]),
        ("laue_fz_ori:disori_angle_laue", [("quats1", "Q"), ("quats2", "Q")], [()]),
        ("laue_fz_misori:disorientation_naive", [("quats1", "Q"), ("quats2", "Q")], [(4,)]),
        ("laue_fz_misori:disori_angle_laue", [("quats1", "Q"), ("quats2", "Q")], [()]),
        ("laue_fz_misori:misori_to_fz_laue", [("qu", "Q")], [(4,)])]:
    add(S + f, ps, out, cases=PAIRS)
add(S + "laue_fz_ori:ori_color_laue", [("quaternions", "Q"), ("reference_direction", "S2")], [(3,)],
    cases=[{"laue_id": i} for i in range(1, 12)], unbatched=("reference_direction",))

add(S + "sphere:theta_phi_to_xyz", [("theta", "TH"), ("phi", "TH")], [(3,)])
add(S + "sphere:xyz_to_theta_phi", [("xyz", "S2")], [(2,)])
add(S + "sphere:rosca_lambert", [("pts", "S2")], [(2,)])
add(S + "sphere:rosca_lambert_side_by_side", [("pts", "S2")], [(2,)])
add(S + "sphere:inv_rosca_lambert", [("pts", "V2")], [(3,)])
for f in ("ebsdtorch.utils.rosca_lambert:square_to_hemisphere", "ebsdtorch.utils.rosca_lambert:square_to_hemisphere_v2",
          "ebsdtorch.utils.rosca_lambert:hexagon_to_hemisphere", "ebsdtorch.crystallography.kvectors:square_to_hemisphere",
          "ebsdtorch.crystallography.kvectors:hexagon_to_hemisphere"):
    add(f, [("x" if f.endswith("_v2") else "pts", "V2")], [(3,)])
add("ebsdtorch.simulation.monte_carlo:rosca_lambert", [("pts", "S2")], [(2,)])


def build(I, qual, batch, case):
    """-> (args list, kwargs) for Interp.run"""
    c = C[qual]
    kw = {}
    for n, r in c["params"]:
        b = () if n in c.get("unbatched", ()) else batch
        kw[n] = role(I, r, n, b)
    for k, v in case.items():
        kw[k] = Num(v) if isinstance(v, (int, float)) else v
    return kw


def param_names_ok(repo, qual):
    r = repo.find(qual)
    if r is None:
        return False
    a = r[1].args
    have = {x.arg for x in a.args + a.kwonlyargs}
    return all(n in have for n, _ in C[qual]["params"])
