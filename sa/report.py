"""Obligations, known findings, evidence and exit codes of one check run."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


class Part:
    """obligations collected by one unit of work (picklable)"""

    def __init__(self):
        self.items = []          # (status, where, rule, text, key)
        self.counts = {}
        self.funcs = set()

    def ok(self, where, rule, text=""):
        self.items.append(("ok", where, rule, text, None))

    def viol(self, rel, func, kind, text, line=None, rule=""):
        """rel: file, func: public root construct, kind: stable name of what fails"""
        key = "%s|%s|%s" % (rel, func, kind)
        where = "%s:%s %s" % (rel, line if line is not None else "?", func)
        self.items.append(("viol", where, rule or kind, text, key))

    def undecided(self, where, rule, text=""):
        self.items.append(("undecided", where, rule, text, None))

    def missing(self, what):
        self.items.append(("missing", what, "anchor", "construct not found in the current tree", None))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def saw(self, interp):
        self.funcs |= set(interp.functions_seen)

    def merge(self, o):
        self.items += o.items
        self.funcs |= o.funcs
        for k, v in o.counts.items():
            self.count(k, v)


T_END = [time.time() + 780]     # a check answers within its time


def _work(job):
    fn, item, limit = job
    p = Part()
    limit = min(limit, T_END[0] - time.time())
    if limit < 1:
        p.undecided(str(item)[:200], "budget", "total time used up")
        return p
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    sys.setrecursionlimit(20000)
    try:
        fn(p, item)
    except Timeout:
        p.undecided(str(item), "budget", "time limit of %d s reached" % limit)
    except RecursionError:
        p.undecided(str(item), "budget", "recursion limit reached")
    except MemoryError:
        p.undecided(str(item), "budget", "memory")
    except Exception as e:
        from .interp import Budget
        if isinstance(e, Budget):
            p.undecided(str(item), "budget", "step budget reached")
        else:
            p.undecided(str(item), "internal", "".join(traceback.format_exception(e))[-900:])
            p.count("internal_errors")
    finally:
        signal.alarm(0)
    return p


class Report(Part):
    def __init__(self, pid, tier):
        super().__init__()
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.assumptions = []
        self.floor = {}           # count name -> minimum confirmed by hand

    def pmap(self, fn, items, limit=120, procs=8):
        items = list(items)
        jobs = [(fn, it, limit) for it in items]
        if os.environ.get("SA_SERIAL") or len(items) < 2:
            for j in jobs:
                self.merge(_work(j))
            return
        with mp.get_context("fork").Pool(min(procs, len(jobs)), maxtasksperchild=1) as pool:
            for p in pool.imap(_work, jobs, chunksize=1):
                self.merge(p)

    def call(self, fn, item, limit=300):
        self.merge(_work((fn, item, limit)))

    # ------------------------------------------------------------------ finish
    def finish(self, explanation):
        known = load_known().get(self.pid, {})
        viol, seen = [], {}
        for st, where, rule, text, key in self.items:
            if st == "viol" and key not in seen:
                seen[key] = (where, rule, text)
                if key not in known:
                    viol.append((key, where, rule, text))
        n = {s: sum(1 for i in self.items if i[0] == s) for s in ("ok", "viol", "undecided", "missing")}
        for key, desc in known.items():
            if key in seen:
                print("KNOWN-FINDING: property=%s %s :: %s" % (self.pid, key, desc))
            else:
                print("note: listed finding not observed on this tree: %s" % key)
        broken = [i[1] for i in self.items if i[0] == "missing"]
        for name, mn in self.floor.items():
            if self.counts.get(name, 0) < mn:
                broken.append("only %d %s analysed, at least %d confirmed by hand" % (self.counts.get(name, 0), name, mn))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        rep = None
        if viol:
            os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
            rep = os.path.join(HERE, "evidence", "replay", "%s.txt" % self.pid)
            with open(rep, "w") as f:
                for key, where, rule, text in viol:
                    f.write("property %s\nconstruct %s\nat %s\nrule %s\n%s\n\n" % (self.pid, key, where, rule, text))
                f.write("re-run: python3 check.py %s --tier %s\n" % (self.pid, self.tier))
        cov = {
            "explanation": explanation,
            "obligations": len(self.items),
            "discharged": n["ok"],
            "known_findings_observed": sum(1 for k in known if k in seen),
            "undecided": n["undecided"],
            "functions_analysed": len(self.funcs),
            "functions": sorted(self.funcs)[:400],
            "counts": self.counts,
            "samples": [{"at": w, "rule": r, "text": t[:300]} for s, w, r, t, k in self.items if s == "ok"][:12],
            "undecided_items": [{"at": w, "rule": r, "why": t[:300]} for s, w, r, t, k in self.items
                                if s == "undecided"][:60],
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations: %d ok, %d undecided, %d violating constructs (%d listed), %d functions, %.1f s" % (
            self.pid, len(self.items), n["ok"], n["undecided"], len(seen),
            len(seen) - len(viol), len(self.funcs), time.time() - self.t0))
        if os.environ.get("SA_VERBOSE"):
            for s, w, r, t, k in self.items:
                if s in ("undecided", "missing") or os.environ["SA_VERBOSE"] == "2":
                    print("  ", s, "|", w, "|", r, "|", t[-600:])
        if viol:
            for key, where, rule, text in viol:
                print("violated: %s at %s: %s" % (key, where, text[:400]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        if broken:
            for b in broken:
                print("ANALYSIS-BROKEN: %s" % b)
            return 2
        return 0


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            head, _, desc = line[7:].partition(" :: ")
            p, _, k = head.partition(" key=")
            out.setdefault(p.split("=", 1)[1].strip(), {})[k.strip()] = desc.strip()
    return out
