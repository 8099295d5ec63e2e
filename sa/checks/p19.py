"""The same call gives the same result; nothing outside the call changes."""
import ast
import os
from .. import expr, torchops
from ..harness import *
from ..interp import Frame, Interp
from ..loader import Repo
from ..values import *
from ..wide import Run, setup
from .p01 import targets

# random by contract
RANDOM = {
    "ebsdtorch.crystallography.ebsd_mc:OpenCLMonteCarlo.__init__",
    "ebsdtorch.crystallography.ebsd_mc:run_monte_carlo_simulation",
    "ebsdtorch.crystallography.ebsd_mc:MonteCarloSimulator.__init__",
    "ebsdtorch.crystallography.ebsd_mc:MonteCarloSimulator._find_required_steps",
    "ebsdtorch.crystallography.ebsd_mc:MonteCarloSimulator.run_simulation",
    "ebsdtorch.s2_and_so3.sampling:so3_uniform_quat",
    "ebsdtorch.s2_and_so3.sampling:so3_cu_rand",
    "ebsdtorch.simulation.monte_carlo:bse_sim_mc",
    "ebsdtorch.utils.pca_online:KrasulinaPCA.__init__",
    "ebsdtorch.utils.pca_online:OjaPCA.__init__",
    "ebsdtorch.utils.pca_online:OjaPCA.forward",
    # the order of a shuffled dictionary
    "ebsdtorch.ebsd.indexing:dictionary_index_orientations",
    "ebsdtorch.ebsd.indexing:pca_dictionary_index_orientations",
    "ebsdtorch.ebsd.fitting:spatial_fft_pc_fitter",
}
# random only when asked to shuffle
SHUFFLE = ("ebsdtorch.s2_and_so3.laue_fz_ori:sample_ori_fz_laue", "ebsdtorch.s2_and_so3.laue_fz_ori:sample_ori_fz_laue_angle")
PURE = ("builtins.", "torch.", "math.", "numpy.", "typing.", "os.path.", "functools.", "itertools.", "dataclasses.", "collections.",
        "enum.", "warnings.", "re.", "operator.", "abc.", "string.", "fractions.", "cmath.", "pathlib.", "logging.getLogger", "struct.", "copy.", "ident")
CLOCK = ("time.time", "time.perf_counter", "time.monotonic", "datetime.", "uuid.", "os.urandom", "os.getpid", "secrets.", "os.environ.get", "os.getenv", "socket.")


def known_functions():
    with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "functions.txt")) as f:
        return set(f.read().split())


def main_guard(st):
    return isinstance(st, ast.If) and "__name__" in ast.unparse(st.test)


def at_import(p, name):
    """what a module does when it is imported"""
    expr.coarse()
    torchops.CAP = 16
    repo = Repo()
    m = repo.mods[name]
    I = setup(Interp(repo, name))
    fr = Frame(m, name + ":<module>", {})
    I.frames.append(fr)
    seen = set()
    for st in m.tree.body:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom)) or main_guard(st):
            continue
        if isinstance(st, ast.ClassDef):
            continue
        try:
            I.stmt(st)
        except Exception as e:
            p.undecided(name, "line %d" % st.lineno, "%s" % type(e).__name__)
    p.saw(I)
    p.count("modules")
    bad = 0
    for e in I.events:
        what = None
        if e.kind == "effect":
            what = "calls %s" % e.info["path"]
        elif e.kind == "global_write" and "[]" in e.info["name"]:
            what = "writes %s" % e.info["name"][:-2]
        elif e.kind == "random":
            what = "draws random numbers"
        elif e.kind == "open":
            what = "opens a file"
        elif e.kind == "extcall" and not e.info["path"].startswith(PURE):
            what = "calls %s" % e.info["path"].split(".")[0]
        if what and what not in seen:
            seen.add(what)
            bad += 1
            p.viol(m.rel, "<module>", "import " + what, "importing %s %s" % (name, what), line=e.line)
    if not bad:
        p.ok(name, "import only builds constants")


def shared_defaults(repo, qual):
    """parameters whose default is a list, dictionary or module-level object: one object for all calls"""
    r = repo.find(qual)
    if r is None:
        return []
    a = r[1].args
    pos = a.posonlyargs + a.args
    defs = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    return [x.arg for x, d in list(zip(pos, defs)) + list(zip(a.kwonlyargs, a.kw_defaults))
            if isinstance(d, (ast.Name, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp))]


def job(p, item):
    qual, known, over, note = item
    expr.coarse()
    torchops.CAP = 16

    def prepare(I):
        I.track_globals = True
    repo = Repo()
    over = {k: Num(v) for k, v in (over or {}).items()}
    over.update((k, "DEFAULT") for k in shared_defaults(repo, qual) if k not in over)
    r = Run(repo, qual, over=over, prepare=prepare)
    if not r.ok:
        return
    I, mod = r.I, r.mod
    fn = qual.split(":")[1]
    p.saw(I)
    p.count("functions")
    seen = set()
    bad = 0
    for e in I.events:
        what = None
        at = e.func.split(":")[1] if ":" in e.func else e.func
        if e.kind == "effect":
            what = "calls %s" % e.info["path"]
            if e.info["path"].startswith(("torch.save", "numpy.save", "matplotlib.pyplot.savefig", "os.makedirs")) and ("save" in fn or "write" in fn):
                continue
        elif e.kind == "global_write":
            what = "writes %s" % e.info["name"]
        elif e.kind == "state_write":
            if e.info["keyed"] and not e.info["missing"]:
                continue          # a table of results by their arguments
            what = "changes %s" % e.info["name"]
        elif e.kind == "mutate":
            rs = [x for x in e.info["roots"] if x.startswith(("module constant", "default value"))]
            if not rs:
                continue
            if not e.info.get("must"):
                p.undecided(qual, "%s may be changed" % rs[0], "%s:%d" % (e.rel, e.line))
                continue
            what = "changes %s" % rs[0]
        elif e.kind == "random":
            if qual in RANDOM or not known:
                continue
            what = "draws random numbers"
        elif e.kind == "extcall" and e.info["path"].startswith(CLOCK):
            what = "reads %s" % e.info["path"]
            if e.info["path"].startswith("time."):
                continue          # progress reports
        if what and (e.rel, at, what) not in seen:
            seen.add((e.rel, at, what))
            bad += 1
            p.viol(e.rel, at, what + note, "%s %s%s, reached from %s" % (at, what, note, fn), line=e.line)
    if not bad:
        p.ok(qual, "no state outside the call%s" % note, "%d functions reached" % len(I.functions_seen))


def run(rep, tier):
    repo = Repo()
    kf = known_functions()
    rep.pmap(at_import, sorted(repo.mods), limit=120)
    items = [(q, q in kf and q not in SHUFFLE, None, "") for q in targets(repo)]
    items += [(q, True, {"permute": False}, " without shuffling") for q in SHUFFLE]
    rep.pmap(job, items, limit=120 if tier == "quick" else 400)
    rep.floor = {"functions": 200, "modules": 40}
    return ("Every function and method was interpreted abstractly with arguments of unknown content; module-level tensors, lists and dictionaries and default argument "
            "values carry a label that follows views and aliases. Obligations: no store into a labelled value (except a dictionary entry whose key determines its value), "
            "no global statement that is written, no call of a process-wide setter (seeds, default types, threads, environment, file removal), no random draw outside "
            "the functions that are random by contract, none in the orientation samplers when shuffling is off. The statements of every module outside "
            "definitions and the main guard were interpreted too: they may only build constants.")
