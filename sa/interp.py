"""Abstract interpreter over the Python syntax tree (no execution of repo code)."""
import ast
from . import expr as E
from .values import *

NONE = Const(None)
TRUE = Num(True)
FALSE = Num(False)


class Event:
    __slots__ = ("kind", "rel", "func", "line", "info", "root", "gate", "stack")

    def __init__(self, kind, rel, func, line, info, root, gate, stack):
        self.kind, self.rel, self.func, self.line = kind, rel, func, line
        self.info, self.root, self.gate, self.stack = info, root, gate, stack

    def key(self):
        return (self.kind, self.rel, self.func, self.line,
                tuple(sorted((k, str(v)) for k, v in self.info.items() if not k.startswith("_"))))

    def __repr__(self):
        return "%s %s:%s %s %s" % (self.kind, self.rel, self.line, self.func, self.info)


class Frame:
    def __init__(self, mod, qual, env, closure=None, cls=None):
        self.mod, self.qual, self.env, self.closure, self.cls = mod, qual, env, closure, cls
        self.returns = []
        self.breaks = None
        self.conts = None
        self.yields = []
        self.generic = 0      # loops in progress of an unknown number of steps
        self.yexact = True
        self.gate = E.ONE
        self.dead = None      # condition under which the statement being executed raises
        self.globals_decl = set()
        self.line = 0


class Budget(Exception):
    pass


class Interp:
    MAXDEPTH = 14
    UNROLL = 64

    def __init__(self, repo, root="?", budget=400000):
        self.repo = repo
        self.root = root
        self.store = {}
        self.nloc = 0
        self.events = []
        self._evkeys = set()
        self.frames = []
        self.gcache = {}
        self.budget = budget
        self.steps = 0
        self.fresh = 0
        self.ext_hooks = {}   # name of a tensor operation -> replacement
        self.hooks = {}       # qual -> callable(interp, args, kwargs) replacing a repo function
        self.distinct_devices = False   # devices of different origin differ
        self.buffers = set()  # (object, name) of registered buffers
        self.params = set()   # locations of nn.Parameter tensors
        self.functions_seen = set()
        self.owned = {}                # locations of module-level lists and dictionaries and of default values
        self.track_globals = False     # tensors of module level carry a root
        self.compared = set()          # unlisted strings compared with literals
        self.strict_errors = False     # a definite error ends the path
        self.noreturn = False          # the function run by run() raises on every path
        self.unknown_ops = {}
        self.iftests = []
        self.watch_call = None
        self.ext_call = None
        from . import torchops
        self.ops = torchops.OPS
        self.T = torchops

    # ------------------------------------------------------------------ infra
    def ev(self, kind, node=None, **info):
        f = self.frames[-1] if self.frames else None
        rel = f.mod.rel if f else "?"
        line = getattr(node, "lineno", f.line if f else 0)
        e = Event(kind, rel, f.qual if f else "?", line, info, self.root,
                  [fr.gate for fr in self.frames], tuple(fr.qual for fr in self.frames))
        k = e.key()
        if k not in self._evkeys:
            self._evkeys.add(k)
            self.events.append(e)
        if self.strict_errors and (kind in ("index_error", "key_error") or kind == "shape_error" and info.get("sym") is False):
            self.dies()
        return e

    def newloc(self, content):
        self.nloc += 1
        self.store[self.nloc] = content
        return Ref(self.nloc)

    def freshname(self, p="f"):
        self.fresh += 1
        return "%s%d" % (p, self.fresh)

    def deref(self, v):
        if isinstance(v, Ref):
            return self.store.get(v.loc)
        return v

    def tensor(self, v):
        c = self.deref(v)
        return c if isinstance(c, Tensor) else None

    def deps(self, v):
        c = self.deref(v)
        if isinstance(c, Tensor):
            return c.deps
        if isinstance(c, Lst):
            r = NOROOT
            for i in (c.items or ()):
                r = r | self.deps(i)
            if c.elem is not None:
                r = r | self.deps(c.elem)
            return r
        if isinstance(c, Dct):
            r = NOROOT
            for i in c.items.values():
                r = r | self.deps(i)
            return r
        if isinstance(c, Obj):
            return NOROOT
        if isinstance(c, Tup):
            r = NOROOT
            for i in c.items:
                r = r | self.deps(i)
            return r
        if isinstance(c, Choice):
            return self.deps(c.a) | self.deps(c.b)
        if isinstance(c, USeq):
            return c.deps | (self.deps(c.elem) if c.elem is not None else NOROOT)
        if isinstance(c, BoundOp):
            return self.deps(c.recv)
        return getattr(c, "deps", NOROOT) or NOROOT

    def roots(self, v):
        c = self.deref(v)
        if isinstance(c, Tensor):
            return c.roots
        if isinstance(c, Lst):
            r = NOROOT
            for i in (c.items or ()):
                r = r | self.roots(i)
            if c.elem is not None:
                r = r | self.roots(c.elem)
            return r
        if isinstance(c, Tup):
            r = NOROOT
            for i in c.items:
                r = r | self.roots(i)
            return r
        if isinstance(c, Choice):
            return self.roots(c.a) | self.roots(c.b)
        if isinstance(c, (Any, USeq)):
            return c.roots
        return NOROOT

    # value-number argument for opaque atoms
    def vn(self, v):
        c = self.deref(v)
        if isinstance(c, Tensor):
            return self.T.closed_vn(c)
        if isinstance(c, Num):
            return c.n
        if isinstance(c, Const):
            return ("const", repr(c.v))
        if isinstance(c, Tup):
            return ("tup",) + tuple(self.vn(i) for i in c.items)
        if isinstance(c, Lst):
            if c.items is not None:
                return ("tup",) + tuple(self.vn(i) for i in c.items)
            return ("lst", self.vn(c.elem) if c.elem is not None else None)
        if isinstance(c, DType):
            return ("dtype", c.label)
        if isinstance(c, Device):
            return ("dev", c.label)
        if isinstance(c, Str):
            return ("str", c.name)
        if isinstance(c, Ext):
            return ("ext", c.path)
        if isinstance(c, Slc):
            return ("slc",) + tuple(None if x is None else self.vn(x) for x in (c.a, c.b, c.s))
        if isinstance(c, Rng):
            return ("rng", self.vn(c.a), self.vn(c.b), self.vn(c.s))
        if isinstance(c, Choice):
            return ("choice", c.cond, self.vn(c.a), self.vn(c.b))
        if isinstance(c, USeq):
            return ("useq", self.vn(c.elem) if c.elem is not None else None)
        if isinstance(c, Any):
            return ("any", c.tag if c.tag is not None else "?")
        if isinstance(c, (Func, Cls)):
            return ("func", c.qual)
        if isinstance(c, Obj):
            return ("obj", c.cls.qual if c.cls else "?")
        if isinstance(c, BoundOp):
            return ("bm", self.vn(c.recv), c.name)
        return ("?", type(c).__name__)

    # ------------------------------------------------------------------ joins
    def join(self, c, v1, s1, v2, s2, out):
        """join two values living in stores s1/s2 into store `out`"""
        if v1 is v2:
            return v1
        if isinstance(v1, Num) and isinstance(v2, Num):
            if v1.n is v2.n:
                return v1 if not (v2.deps - v1.deps) else Num(v1.n, v1.isint, v1.isbool, v1.deps | v2.deps)
            return Num(E.ite(c, v1.n, v2.n), v1.isint and v2.isint, v1.isbool and v2.isbool,
                       v1.deps | v2.deps)
        if isinstance(v1, Const) and isinstance(v2, Const) and v1.v == v2.v:
            return v1
        if isinstance(v1, DType) and isinstance(v2, DType) and v1.label == v2.label:
            return v1
        if isinstance(v1, Device) and isinstance(v2, Device) and v1.label == v2.label:
            return v1
        if isinstance(v1, Ext) and isinstance(v2, Ext) and v1.path == v2.path:
            return v1
        if isinstance(v1, (Func, Cls)) and isinstance(v2, (Func, Cls)) and v1.node is v2.node:
            return v1
        if isinstance(v1, Ref) and isinstance(v2, Ref):
            if v1.loc == v2.loc:
                return v1
            a, b = s1.get(v1.loc), s2.get(v2.loc)
            if isinstance(a, Tensor) and isinstance(b, Tensor):
                t = self.T.join_tensor(self, c, a, b)
                self.nloc += 1
                out[self.nloc] = t
                return Ref(self.nloc)
            if isinstance(a, Lst) and isinstance(b, Lst) and a.items is not None and \
                    b.items is not None and len(a.items) == len(b.items):
                self.nloc += 1
                loc = self.nloc
                out[loc] = Lst([self.join(c, x, s1, y, s2, out) for x, y in zip(a.items, b.items)])
                return Ref(loc)
            return Choice(c, v1, v2)
        if isinstance(v1, Tup) and isinstance(v2, Tup) and len(v1.items) == len(v2.items):
            return Tup([self.join(c, x, s1, y, s2, out) for x, y in zip(v1.items, v2.items)],
                       v1.isshape and v2.isshape)
        if isinstance(v1, Any) and isinstance(v2, Any):
            return Any(v1.deps | v2.deps, v1.roots | v2.roots)
        if isinstance(v1, Choice) and v1.cond is c:
            return self.join(c, v1.a, s1, v2, s2, out)
        if isinstance(v2, Choice) and v2.cond is c:
            return self.join(c, v1, s1, v2.b, s2, out)
        return Choice(c, v1, v2)

    def join_store(self, c, s1, s2):
        out = dict(s2)
        out.update(s1)
        for loc in s1:
            if loc in s2 and s1[loc] is not s2[loc]:
                out[loc] = self.join_content(c, s1[loc], s1, s2[loc], s2, out)
        return out

    def join_content(self, c, a, s1, b, s2, out):
        if isinstance(a, Tensor) and isinstance(b, Tensor):
            return self.T.join_tensor(self, c, a, b)
        if isinstance(a, Lst) and isinstance(b, Lst):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return Lst([self.join(c, x, s1, y, s2, out) for x, y in zip(a.items, b.items)])
            els = (a.items or []) + (b.items or [])
            if a.elem is not None:
                els.append(a.elem)
            if b.elem is not None:
                els.append(b.elem)
            el = els[0] if els else None
            for x in els[1:]:
                el = self.join(E.bool_atom(self.freshname("j")), el, out, x, out, out)
            return Lst(None, el)
        if isinstance(a, Obj) and isinstance(b, Obj):
            at = {}
            for k in set(a.attrs) | set(b.attrs):
                if k in a.attrs and k in b.attrs:
                    at[k] = self.join(c, a.attrs[k], s1, b.attrs[k], s2, out)
                elif k in a.attrs:
                    at[k] = Choice(c, a.attrs[k], Const("<undef>"))
                else:
                    at[k] = Choice(c, Const("<undef>"), b.attrs[k])
            return Obj(a.cls, at, a.opaque or b.opaque)
        if isinstance(a, Dct) and isinstance(b, Dct):
            it = {}
            for k in list(a.items) + [k for k in b.items if k not in a.items]:
                if k in a.items and k in b.items:
                    it[k] = self.join(c, a.items[k], s1, b.items[k], s2, out)
                else:
                    it[k] = a.items.get(k) if k in a.items else b.items[k]
            return Dct(it, True if (set(a.items) != set(b.items)) else a.unknown or b.unknown)
        return a

    def join_env(self, c, e1, s1, e2, s2, out):
        env = {}
        for k in list(e1) + [k for k in e2 if k not in e1]:
            if k in e1 and k in e2:
                env[k] = self.join(c, e1[k], s1, e2[k], s2, out)
            elif k in e1:
                env[k] = Choice(c, e1[k], Const("<undef>"))
            else:
                env[k] = Choice(c, Const("<undef>"), e2[k])
        return env

    # gate helpers
    def known(self, c):
        """value of boolean node c under the current gates: True/False/None"""
        if c is E.ONE:
            return True
        if c is E.ZERO:
            return False
        for fr in reversed(self.frames):
            g = fr.gate
            if g is E.ONE:
                continue
            try:
                if E.and_(g, E.not_(c)) is E.ZERO:
                    return True
                if E.and_(g, c) is E.ZERO:
                    return False
            except Exception:
                pass
        return None

    def resolve(self, v):
        while isinstance(v, Choice):
            if isinstance(v.a, Const) and v.a.v == "<undef>":
                v = v.b
                continue
            if isinstance(v.b, Const) and v.b.v == "<undef>":
                v = v.a
                continue
            k = self.known(v.cond)
            if k is True:
                v = v.a
            elif k is False:
                v = v.b
            else:
                break
        return v

    def lift(self, v, f):
        """apply f to v distributing over unresolved choices"""
        v = self.resolve(v)
        if not isinstance(v, Choice):
            return f(v)
        fr = self.frames[-1]
        g0 = fr.gate
        s0 = self.store
        self.store = dict(s0)
        fr.gate = E.and_(g0, v.cond)
        a = self.lift(v.a, f)
        s1 = self.store
        self.store = dict(s0)
        fr.gate = E.and_(g0, E.not_(v.cond))
        b = self.lift(v.b, f)
        s2 = self.store
        fr.gate = g0
        self.store = self.join_store(v.cond, s1, s2)
        return self.join(v.cond, a, s1, b, s2, self.store)

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        """boolean node of python truthiness"""
        v = self.resolve(v)
        c = self.deref(v)
        if isinstance(c, Num):
            return E.to_bool(c.n)
        if isinstance(c, Const):
            return E.ONE if c.v else E.ZERO
        if isinstance(c, Tup):
            return E.ONE if c.items else E.ZERO
        if isinstance(c, Lst) and c.items is not None:
            return E.ONE if c.items else E.ZERO
        if isinstance(c, Tensor):
            if len(c.comps) == 1 and (c.shape is None or all(d.c == 1 for d in c.shape)):
                return E.to_bool(c.comps[0])
            return E.to_bool(E.fn("truth", self.vn(v)))
        if isinstance(c, Choice):
            return E.ite(c.cond, self.truth(c.a), self.truth(c.b))
        if isinstance(c, (Obj, Func, Cls, Ext, ModV)) and not isinstance(c, Ext):
            return E.ONE
        return E.bool_atom("truth", self.vn(v))

    # ------------------------------------------------------------------ statements
    def step(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()

    def block(self, body):
        for st in body:
            if not self.stmt(st):
                return False
        return True

    def stmt(self, st):
        self.step()
        self.frames[-1].line = st.lineno
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            self.ev("unsupported", st, what=type(st).__name__)
            return True
        r = m(st)
        r = True if r is None else r
        fr = self.frames[-1]
        if fr.dead is not None:
            d, fr.dead = fr.dead, None
            if r:
                if d is fr.gate:
                    return False
                g = E.and_(fr.gate, E.not_(d))
                if self.known(g) is False:
                    return False
                fr.gate = g
        return r

    def dies(self):
        if self.frames:
            fr = self.frames[-1]
            fr.dead = fr.gate if fr.dead is None or fr.dead is fr.gate else E.or_(fr.dead, fr.gate)

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.expr(st.value)

    def s_Pass(self, st):
        pass

    s_Import = None

    def s_Import(self, st):
        env = self.frames[-1].env
        for a in st.names:
            if a.asname:
                env[a.asname] = self.modval(a.name)
            else:
                env[a.name.split(".")[0]] = self.modval(a.name.split(".")[0])

    def s_ImportFrom(self, st):
        env = self.frames[-1].env
        base = self.frames[-1].mod._absmod(st)
        for a in st.names:
            env[a.asname or a.name] = self.fromval(base, a.name)

    def modval(self, dotted):
        if dotted in self.repo.mods:
            return ModV(self.repo.mods[dotted])
        return Ext(dotted)

    def fromval(self, base, name):
        m = self.repo.mods.get(base)
        if m is not None:
            sub = self.repo.mods.get(base + "." + name)
            v = self.modattr(m, name)
            if v is not None:
                return v
            if sub is not None:
                return ModV(sub)
            return Any(tag="import:%s.%s" % (base, name))
        sub = self.repo.mods.get(base + "." + name)
        if sub is not None:
            return ModV(sub)
        return Ext(base + "." + name)

    def s_FunctionDef(self, st):
        fr = self.frames[-1]
        fr.env[st.name] = Func(fr.mod, st, fr.qual + "." + st.name, closure=fr)

    def s_ClassDef(self, st):
        fr = self.frames[-1]
        fr.env[st.name] = Cls(fr.mod, st, fr.qual + "." + st.name)

    def s_Global(self, st):
        self.frames[-1].globals_decl |= set(st.names)
        for n in st.names:
            self.ev("global", st, name=n)

    def s_Nonlocal(self, st):
        pass

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].env.pop(t.id, None)

    def s_Assert(self, st):
        c = self.truth(self.expr(st.test))
        k = self.known(c)
        self.ev("assert", st, cond=c.id)
        fr = self.frames[-1]
        if k is False:
            return False
        if k is None:
            self.note_raise(E.and_(fr.gate, E.not_(c)), st, "AssertionError")
            fr.gate = E.and_(fr.gate, c)

    def note_raise(self, gate, st, what):
        self.ev("raise", st, what=what, gate=gate.id)

    def s_Raise(self, st):
        what = ""
        if st.exc is not None:
            e = st.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.expr(a)
                e = e.func
            what = ast.unparse(e)
        self.note_raise(self.frames[-1].gate, st, what)
        return False

    def s_Return(self, st):
        v = self.expr(st.value) if st.value is not None else NONE
        fr = self.frames[-1]
        if fr.dead is not None and (fr.dead is fr.gate or self.known(E.and_(fr.gate, E.not_(fr.dead))) is False):
            return False
        fr.returns.append((fr.gate, v, self.store, st.lineno))
        return False

    def s_Break(self, st):
        fr = self.frames[-1]
        if fr.breaks is not None:
            fr.breaks.append((fr.gate, dict(fr.env), self.store))
        return False

    def s_Continue(self, st):
        fr = self.frames[-1]
        if fr.conts is not None:
            fr.conts.append((fr.gate, dict(fr.env), self.store))
        return False

    def s_Assign(self, st):
        v = self.expr(st.value)
        for t in st.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.expr(st.value), st)

    def s_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, t)
        elif isinstance(t, ast.Attribute):
            cur = self.attr(self.expr(t.value), t.attr, t)
        else:
            base = self.expr(t.value)
            idx = self.index_expr(t.slice)
            cur = self.getitem(base, idx, t)
            rhs = self.expr(st.value)
            new = self.binop(type(st.op).__name__, cur, rhs, st)
            self.ev("aug_index", st, op=type(st.op).__name__)
            self.aug_index_check(base, idx, st)
            self.setitem(base, idx, new, st)
            return
        rhs = self.expr(st.value)

        def f(cur):
            ct = self.tensor(cur)
            if ct is not None:
                new = self.binop(type(st.op).__name__, cur, rhs, st)
                nt = self.tensor(new)
                self.inplace(cur, nt, st)
                return cur
            cc = self.deref(cur)
            if isinstance(cc, Lst) and isinstance(st.op, ast.Add):
                self.call_method(cur, "extend", [rhs], {}, st)
                return cur
            if isinstance(cc, Any) and cc.roots:
                self.ev("mutate", st, roots=tuple(sorted(cc.roots)), how="augassign", must=False)
            return self.binop(type(st.op).__name__, cur, rhs, st)

        new = self.lift(cur, f)
        self.assign(t, new, st, aug=True)

    def aug_index_check(self, base, idx, st):
        """x[i] op= v with a tensor of indices: duplicates are lost"""
        t = self.tensor(self.resolve(base))
        if t is None:
            return
        items = idx.items if isinstance(idx, Tup) else [idx]
        for i in items:
            it = self.tensor(self.resolve(i))
            if it is not None and it.dtype not in ("bool",) and (
                    it.shape is None or any(d.c != 1 for d in it.shape)):
                if it.dtype is None:
                    continue
                self.ev("aug_gather", st, op=type(st.op).__name__, uniq=bool(it.tag == "unique"))

    def inplace(self, ref, nt, node, how="inplace"):
        """overwrite the content of tensor ref by value nt (a Tensor)"""
        ref = self.resolve(ref)
        t = self.tensor(ref)
        if t is None:
            return ref
        if t.roots:
            self.ev("mutate", node, roots=tuple(sorted(t.roots)), how=how, must=True)
        new = self.T.write_value(self, t, nt, node)
        self.store[ref.loc] = new
        self.propagate_view(ref.loc, new)
        return ref

    def propagate_view(self, loc, new):
        v = new.view
        seen = 0
        while v is not None and seen < 10:
            bl, imap = v
            base = self.store.get(bl)
            if not isinstance(base, Tensor):
                return
            if imap is not None and len(imap) == len(new.comps):
                comps = list(base.comps)
                for i, j in enumerate(imap):
                    comps[j] = new.comps[i]
                nb = base.but(comps=comps, deps=base.deps | new.deps)
            else:
                nb = self.T.havoc(self, base, ("viewwrite", self.T.closed_vn(new)))
                nb.deps = base.deps | new.deps
            self.store[bl] = nb
            new = nb
            v = nb.view
            seen += 1

    def assign(self, t, v, st, aug=False):
        fr = self.frames[-1]
        if isinstance(t, ast.Name):
            if t.id in fr.globals_decl:
                self.ev("global_write", st, name=t.id)
                self.gcache[(fr.mod.name, t.id)] = v
                return
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            base = self.expr(t.value)
            idx = self.index_expr(t.slice)
            self.setitem(base, idx, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack(self, elts, v, st):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.seq_items(v, None if star else len(elts))
        if items is None:
            for i, e in enumerate(elts):
                self.assign(e, Any(self.deps(v), NOROOT, tag=("unp", i, self.vn(v))), st)
            return
        if star:
            k = star[0]
            n = len(elts)
            tail = n - k - 1
            mid = items[k: len(items) - tail]
            for e, x in zip(elts[:k], items[:k]):
                self.assign(e, x, st)
            self.assign(elts[k].value, self.newloc(Lst(list(mid))), st)
            for e, x in zip(elts[k + 1:], items[len(items) - tail:]):
                self.assign(e, x, st)
            return
        if len(items) != len(elts):
            self.ev("shape_error", st, what="unpack %d into %d" % (len(items), len(elts)))
            items = (items + [Any()] * len(elts))[: len(elts)]
        for e, x in zip(elts, items):
            self.assign(e, x, st)

    def seq_items(self, v, n=None):
        """list of element values if the length is known"""
        v = self.resolve(v)
        c = self.deref(v)
        if isinstance(c, Tup):
            return list(c.items)
        if isinstance(c, Lst):
            return list(c.items) if c.items is not None else (
                [c.elem] * n if (n and c.elem is not None) else None)
        if isinstance(c, Rng):
            a, b, s = c.a.c, c.b.c, c.s.c
            if a is not None and b is not None and s:
                r = range(int(a), int(b), int(s))
                if len(r) <= 4096:
                    return [Num(i, isint=True) for i in r]
            return None
        if isinstance(c, Const) and isinstance(c.v, str):
            return [Const(ch) for ch in c.v]
        if isinstance(c, Tensor):
            if c.shape is not None and c.shape and c.shape[0].c is not None and c.shape[0].c <= 64:
                return [self.getitem(v, Num(i), None) for i in range(c.shape[0].c)]
            if n is not None and c.shape is not None and c.shape:
                if c.shape[0].c is not None and c.shape[0].c != n:
                    return None
                return [self.getitem(v, Num(i), None) for i in range(n)]
            if n is not None and c.shape is None:
                return [self.getitem(v, Num(i), None) for i in range(n)]
            return None
        if isinstance(c, Dct) and not c.unknown:
            return [Const(k) if not isinstance(k, (int, float)) else Num(k) for k in c.items]
        if isinstance(c, USeq) and n:
            return [c.elem] * n
        return None

    def s_If(self, st):
        tv = self.expr(st.test)
        c = self.truth(tv)
        self.iftests.append((self.frames[-1].qual, st.lineno, c, self.deps(tv)))
        self.branch(c, lambda: self.block(st.body), lambda: self.block(st.orelse))
        return self._alive

    def branch(self, c, f, g):
        fr = self.frames[-1]
        k = self.known(c)
        if k is True:
            self._alive = f()
            return
        if k is False:
            self._alive = g()
            return
        g0 = fr.gate
        if self.strict_errors and g0 is not E.ONE:
            if self.known(self.gand(g0, c)) is False:
                self._alive = g()
                return
            if self.known(self.gand(g0, E.not_(c))) is False:
                self._alive = f()
                return
        e0, s0 = fr.env, self.store
        fr.env, self.store = dict(e0), dict(s0)
        fr.gate = self.gand(g0, c)
        a1 = f()
        e1, s1, g1 = fr.env, self.store, fr.gate
        fr.env, self.store = dict(e0), dict(s0)
        fr.gate = self.gand(g0, E.not_(c))
        a2 = g()
        e2, s2, g2 = fr.env, self.store, fr.gate
        if a1 and a2:
            self.store = self.join_store(c, s1, s2)
            fr.env = self.join_env(c, e1, s1, e2, s2, self.store)
            fr.gate = g0 if (g1 is self.gand(g0, c) and g2 is self.gand(g0, E.not_(c))) else E.or_(g1, g2)
        elif a1:
            fr.env, self.store, fr.gate = e1, s1, g1
        elif a2:
            fr.env, self.store, fr.gate = e2, s2, g2
        self._alive = a1 or a2

    def gand(self, a, b):
        r = E.and_(a, b)
        return r

    def s_While(self, st):
        fr = self.frames[-1]
        for it in range(self.UNROLL):
            c = self.truth(self.expr(st.test))
            k = self.known(c)
            if k is False:
                return True
            if k is not True:
                break
            if not self.loop_body(st.body):
                return self._loop_exit_only()
            if self._broke_always:
                return True
        # general
        fr = self.frames[-1]
        fr.generic += 1
        try:
            return self.generic_loop(st, lambda: self.expr(st.test), None)
        finally:
            fr.generic -= 1

    def _loop_exit_only(self):
        return False

    def loop_body(self, body):
        """run one iteration; handles continue; returns alive.  break states kept in fr.breaks"""
        fr = self.frames[-1]
        oc = fr.conts
        fr.conts = []
        alive = self.block(body)
        st = [(fr.gate, fr.env, self.store)] if alive else []
        st += fr.conts
        fr.conts = oc
        self._broke_always = False
        if not st:
            return False
        self.merge_states(st)
        return True

    def merge_states(self, sts):
        fr = self.frames[-1]
        g, e, s = sts[-1]
        for g1, e1, s1 in reversed(sts[:-1]):
            out = self.join_store(g1, s1, s)
            e = self.join_env(g1, e1, s1, e, s, out)
            s = out
            g = E.or_(g1, g)
        fr.gate, fr.env, self.store = g, e, s

    def s_For(self, st):
        it = self.expr(st.iter)
        it = self.resolve(it)
        items = self.seq_items(it)
        fr = self.frames[-1]
        ob = fr.breaks
        fr.breaks = []
        try:
            if items is not None and len(items) <= self.UNROLL:
                alive = True
                for x in items:
                    self.assign(st.target, x, st)
                    if not self.loop_body(st.body):
                        alive = False
                        break
                if alive:
                    alive = self.block(st.orelse)
                sts = ([(fr.gate, fr.env, self.store)] if alive else []) + fr.breaks
                if not sts:
                    return False
                if len(sts) > 1 or not alive:
                    self.merge_states(sts)
                return True
            fr.generic += 1
            try:
                return self.generic_loop(st, None, it)
            finally:
                fr.generic -= 1
        finally:
            fr.breaks = ob

    def loop_elem(self, it, st):
        c = self.deref(it)
        if isinstance(c, Rng):
            name = ("iter", c.a.n, c.b.n, c.s.n)
            lo = c.a.c if c.a.c is not None else -E.INF
            n = E.fn("i", *name[1:], lo=lo, isint=True)
            return Num(n, isint=True, deps=c.deps)
        if isinstance(c, Tensor):
            if c.shape is not None and c.shape:
                d = c.shape[0]
                i = Num(E.fn("i", E.ZERO, d.size, E.ONE, lo=0, isint=True), isint=True, deps=c.deps)
                return self.getitem(it, i, st)
            return self.newloc(Tensor(None, [E.fn("elem", self.vn(it))], roots=c.roots, dtype=c.dtype,
                                      dev=c.dev, deps=c.deps))
        if isinstance(c, Lst):
            if c.items is not None and c.items:
                el = c.items[0]
                for x in c.items[1:]:
                    el = self.join(E.bool_atom(self.freshname("j")), el, self.store, x, self.store, self.store)
                return el
            return c.elem if c.elem is not None else Any(tag="elem")
        if isinstance(c, Tup) and c.items:
            el = c.items[0]
            for x in c.items[1:]:
                el = self.join(E.bool_atom(self.freshname("j")), el, self.store, x, self.store, self.store)
            return el
        if isinstance(c, USeq):
            return c.elem if c.elem is not None else Any(tag="elem")
        return Any(self.deps(it), self.roots(it), tag=("elem", self.vn(it)))

    def generic_loop(self, st, testf, it):
        fr = self.frames[-1]
        ob = fr.breaks
        fr.breaks = []
        g0 = fr.gate
        pre_env, pre_store = dict(fr.env), dict(self.store)
        nret = len(fr.returns)

        def once():
            if it is not None:
                self.assign(st.target, self.loop_elem(it, st), st)
                return self.loop_body(st.body)
            c = self.truth(testf())
            fr.gate = E.and_(fr.gate, c) if self.known(c) is None else fr.gate
            return self.loop_body(st.body)

        alive = once()
        sts = ([(fr.gate, fr.env, self.store)] if alive else []) + fr.breaks
        if self.strict_errors and not sts and len(fr.returns) == nret and it is not None:
            fr.breaks = ob          # every iteration raises
            return False
        fr.breaks = []
        if sts:
            self.merge_states(sts)
        e1, s1 = fr.env, self.store
        del fr.returns[nret:]
        key = self.loop_key(st)
        # havoc what changed
        self.store = dict(s1)
        for loc in pre_store:
            if loc in pre_store and pre_store[loc] is not self.store.get(loc):
                pre_store[loc] = self.havoc_content(pre_store[loc], self.store.get(loc), ("lp", key, loc if False else 0))
        henv = {}
        for k, v in pre_env.items():
            if k in e1 and e1[k] is not v:
                henv[k] = self.havoc(v, e1[k], ("lp", key), pre_store)
            else:
                henv[k] = v
        fr.env = henv
        self.store = dict(pre_store)
        # locations created during pass one may be referenced
        for loc in s1:
            if loc not in self.store:
                self.store[loc] = s1[loc]
        h_env, h_store = dict(henv), dict(self.store)
        fr.gate = g0
        alive = once()
        sts = ([(fr.gate, fr.env, self.store)] if alive else []) + fr.breaks
        fr.breaks = ob
        if sts:
            self.merge_states(sts)
        e2, s2 = fr.env, self.store
        # state after loop: havocked variables tagged by the loop-step value
        out = dict(s2)
        env = {}
        for k, v in e2.items():
            if k in h_env:
                env[k] = self.after_loop(pre_env[k], h_env[k], h_store, v, s2, out, key)
            else:
                env[k] = v   # defined in loop (assume at least one iteration)
        for loc in h_store:
            a, b = h_store[loc], s2.get(loc)
            if b is not None and a is not b:
                out[loc] = self.after_content(a, b)
        fr.env, self.store = env, out
        fr.gate = g0
        return True

    def loop_key(self, st):
        return "L"

    def havoc(self, v, w, key, store):
        """value over-approximating v (before) and w (after one iteration)"""
        cv = store.get(v.loc) if isinstance(v, Ref) else v
        cw = self.deref(w)
        if isinstance(cv, Num) and isinstance(cw, Num):
            if cv.n is cw.n:
                return cv
            return Num(E.fn("lv", cv.n, isint=cv.isint and cw.isint), cv.isint and cw.isint,
                       cv.isbool and cw.isbool, cv.deps | cw.deps)
        if isinstance(cv, Tensor) and isinstance(cw, Tensor):
            t = self.T.havoc2(self, cv, cw, key)
            self.nloc += 1
            store[self.nloc] = t
            self.store[self.nloc] = t
            return Ref(self.nloc)
        if isinstance(cv, Const) and isinstance(cw, Const) and cv.v == cw.v:
            return cv
        if isinstance(cv, Tup) and isinstance(cw, Tup) and len(cv.items) == len(cw.items):
            return Tup([self.havoc(a, b, key, store) for a, b in zip(cv.items, cw.items)])
        if isinstance(v, Const) or isinstance(w, Const):
            return Choice(E.bool_atom(self.freshname("h")), w, v) if isinstance(v, Const) else w
        if type(cv) is type(cw) and isinstance(v, Ref) and isinstance(w, Ref):
            return w
        return Any(self.deps(v) | self.deps(w), self.roots(v) | self.roots(w), tag=("havoc",))

    def havoc_content(self, a, b, key):
        if isinstance(a, Tensor) and isinstance(b, Tensor):
            return self.T.havoc2(self, a, b, key)
        if isinstance(a, Lst) and isinstance(b, Lst):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                its = []
                for x, y in zip(a.items, b.items):
                    its.append(y if x is not y else x)
                return Lst(its)
            els = [x for x in ((b.items or []) + (a.items or []))]
            if b.elem is not None:
                els.append(b.elem)
            el = els[0] if els else None
            for x in els[1:]:
                el = self.join(E.bool_atom(self.freshname("j")), el, self.store, x, self.store, self.store)
            return Lst(None, el)
        if isinstance(a, Obj) and isinstance(b, Obj):
            at = dict(a.attrs)
            for k, v in b.attrs.items():
                if k not in at:
                    at[k] = v
                elif at[k] is not v:
                    x, y = self.deref(at[k]), self.deref(v)
                    if isinstance(x, Num) and isinstance(y, Num):
                        at[k] = Num(E.fn("lv", x.n), x.isint and y.isint, deps=x.deps | y.deps)
                    else:
                        at[k] = v
            return Obj(a.cls, at, a.opaque)
        if isinstance(a, Dct) and isinstance(b, Dct):
            d = dict(a.items)
            d.update(b.items)
            return Dct(d, True)
        return b

    def after_loop(self, v0, h, hs, w, ws, out, key):
        ch = hs.get(h.loc) if isinstance(h, Ref) else h
        cw = ws.get(w.loc) if isinstance(w, Ref) else w
        if h is w:
            return h
        if isinstance(ch, Num) and isinstance(cw, Num):
            if ch.n is cw.n:
                return w
            return Num(E.fn("loop", ch.n, cw.n, isint=ch.isint and cw.isint), ch.isint and cw.isint,
                       deps=ch.deps | cw.deps)
        if isinstance(ch, Tensor) and isinstance(cw, Tensor):
            t = self.T.havoc2(self, ch, cw, ("loop",))
            self.nloc += 1
            out[self.nloc] = t
            return Ref(self.nloc)
        if isinstance(h, Choice):
            return w
        return w

    def after_content(self, a, b):
        if isinstance(a, Tensor) and isinstance(b, Tensor):
            return self.T.havoc2(self, a, b, ("loop",))
        return b

    def s_With(self, st):
        for it in st.items:
            v = self.expr(it.context_expr)
            self.ev("with", st, what=ast.unparse(it.context_expr))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.block(st.body)

    def s_Try(self, st):
        fr = self.frames[-1]
        c = E.bool_atom("try", fr.qual, self.freshname("t"))

        def body():
            r = self.block(st.body)
            if r:
                r = self.block(st.orelse)
            return r

        def hnd():
            alive = False
            for h in st.handlers:
                if h.name:
                    fr.env[h.name] = Any(tag="exc")
                a = self.block(h.body)
                alive = alive or a
            return alive

        if st.handlers:
            self.branch(c, body, hnd)
            alive = self._alive
        else:
            alive = body()
        if st.finalbody:
            self.block(st.finalbody)
        return alive

    # ------------------------------------------------------------------ names
    def lookup(self, name, node=None):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            if name in f.env and name not in f.globals_decl:
                return self.resolve(f.env[name])
            f = f.closure
        v = self.modattr(fr.mod, name)
        if v is not None:
            return v
        from .builtins_ import BUILTINS
        if name in BUILTINS:
            return Ext("builtins." + name)
        self.ev("undefined", node, name=name)
        return Any(tag=("undef", name))

    def modattr(self, mod, name, depth=0):
        key = (mod.name, name)
        if key in self.gcache:
            return self.gcache[key]
        if name in mod.defs and name not in mod.assigns:
            d = mod.defs[name]
            q = "%s:%s" % (mod.name, name)
            v = Cls(mod, d, q) if isinstance(d, ast.ClassDef) else Func(mod, d, q)
            self.gcache[key] = v
            return v
        if name in mod.assigns:
            self.gcache[key] = Any(tag=("global", mod.name, name))
            st = mod.assigns[name][-1]
            fr = Frame(mod, mod.name + ":<module>", {})
            self.frames.append(fr)
            try:
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    v = self.expr(st.value)
                elif isinstance(st, ast.AnnAssign) and st.value is not None:
                    v = self.expr(st.value)
                else:
                    self.s_Assign(st)
                    v = fr.env.get(name, Any(tag=("global", mod.name, name)))
            finally:
                self.frames.pop()
            v = self.own(v, "module constant %s" % name)
            self.gcache[key] = v
            return v
        if name in mod.imports:
            im = mod.imports[name]
            if im[0] == "mod":
                v = self.modval(im[1])
            elif depth < 8 and im[1] in self.repo.mods:
                m2 = self.repo.mods[im[1]]
                v = self.modattr(m2, im[2], depth + 1)
                if v is None:
                    v = self.fromval(im[1], im[2])
            else:
                v = self.fromval(im[1], im[2])
            self.gcache[key] = v
            return v
        return None

    def own(self, v, name):
        """a value that outlives the call"""
        if isinstance(v, Ref):
            c = self.store.get(v.loc)
            if isinstance(c, Tensor):
                if self.track_globals:
                    self.store[v.loc] = c.but(roots=c.roots | {name})
            elif isinstance(c, (Lst, Dct)):
                self.owned.setdefault(v.loc, name)
        return v

    def touched(self, recv, n, key=None, v=None):
        """a list or dictionary is changed"""
        nm = self.owned.get(recv.loc) if isinstance(recv, Ref) else None
        if nm is not None:
            kd, vd = (self.deps(key) if key is not None else NOROOT), (self.deps(v) if v is not None else NOROOT)
            self.ev("state_write", n, name=nm, keyed=key is not None, missing=tuple(sorted(vd - kd)))

    # ------------------------------------------------------------------ expressions
    def expr(self, n):
        self.step()
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return Any(tag=type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, float)):
            if isinstance(v, int) and abs(v) > 2 ** 60:
                return Num(E.const(float(v)), isint=True)
            if 0 < abs(v) <= 1e-9:
                # kept apart: rounding of coefficients would absorb it
                return Num(E.leaf(E.patom(E.atom("lit", repr(v), lo=v, hi=v))))
            return Num(v)
        if isinstance(v, complex):
            return Num(E.fn("complex", repr(v)))
        return Const(v)

    def e_Name(self, n):
        return self.lookup(n.id, n)

    def e_Tuple(self, n):
        return Tup(self.elts(n.elts))

    def elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                items = self.seq_items(self.expr(e.value))
                if items is None:
                    out.append(Any(tag="star"))
                else:
                    out += items
            else:
                out.append(self.expr(e))
        return out

    def e_List(self, n):
        return self.newloc(Lst(self.elts(n.elts)))

    def e_Set(self, n):
        return self.newloc(Lst(self.elts(n.elts)))

    def e_Dict(self, n):
        items = {}
        unknown = False
        for k, v in zip(n.keys, n.values):
            vv = self.expr(v)
            if k is None:
                unknown = True
                continue
            kk = self.dkey(self.expr(k))
            if kk is None:
                unknown = True
            else:
                items[kk] = vv
        return self.newloc(Dct(items, unknown))

    def dkey(self, k):
        k = self.resolve(k)
        if isinstance(k, Const):
            return k.v
        if isinstance(k, Num) and k.c is not None:
            return k.c
        if isinstance(k, Tup):
            ks = tuple(self.dkey(i) for i in k.items)
            return None if any(i is None for i in ks) else ks
        if isinstance(k, DType):
            return ("dtype", k.label)
        return None

    def e_JoinedStr(self, n):
        deps = NOROOT
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                deps = deps | self.deps(self.expr(v.value))
        return Any(deps, tag="fstring")

    def e_FormattedValue(self, n):
        self.expr(n.value)
        return Any(tag="fstring")

    def e_Lambda(self, n):
        fr = self.frames[-1]
        return Func(fr.mod, n, fr.qual + ".<lambda>", closure=fr)

    def e_IfExp(self, n):
        c = self.truth(self.expr(n.test))
        fr = self.frames[-1]
        k = self.known(c)
        if k is True:
            return self.expr(n.body)
        if k is False:
            return self.expr(n.orelse)
        g0, s0 = fr.gate, self.store
        self.store = dict(s0)
        fr.gate = E.and_(g0, c)
        a = self.expr(n.body)
        s1 = self.store
        self.store = dict(s0)
        fr.gate = E.and_(g0, E.not_(c))
        b = self.expr(n.orelse)
        s2 = self.store
        fr.gate = g0
        self.store = self.join_store(c, s1, s2)
        return self.join(c, a, s1, b, s2, self.store)

    def e_NamedExpr(self, n):
        v = self.expr(n.value)
        self.assign(n.target, v, n)
        return v

    def e_Starred(self, n):
        return self.expr(n.value)

    def e_Yield(self, n):
        v = self.expr(n.value) if n.value is not None else NONE
        fr = self.frames[-1]
        fr.yields.append(v)
        if fr.generic or fr.gate is not E.ONE:
            fr.yexact = False
        return NONE

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        fr = self.frames[-1]
        g0 = fr.gate
        acc = None
        deps = NOROOT
        vals = []
        for x in n.values:
            v = self.expr(x)
            vals.append(v)
            c = self.truth(v)
            deps = deps | self.deps(v)
            acc = c if acc is None else (E.and_(acc, c) if isand else E.or_(acc, c))
            k = self.known(c)
            if isand and k is False:
                acc = E.ZERO
                break
            if not isand and k is True:
                acc = E.ONE
                if len(vals) == 1 and not isinstance(v, Num):
                    fr.gate = g0
                    return v
                break
            fr.gate = E.and_(fr.gate, c if isand else E.not_(c))
        fr.gate = g0
        if not isand and not all(isinstance(v, Num) or self.tensor(v) is not None for v in vals):
            # value semantics of `a or b`
            if self.truth(vals[0]) is E.ZERO and len(vals) == 2:
                return vals[1]
        return Num(acc, isbool=True, deps=deps)

    def e_UnaryOp(self, n):
        v = self.expr(n.operand)
        op = type(n.op).__name__
        return self.lift(v, lambda v: self.unop(op, v, n))

    def unop(self, op, v, n):
        if op == "Not":
            return Num(E.not_(self.truth(v)), isbool=True, deps=self.deps(v))
        if isinstance(v, Num):
            if op == "USub":
                return Num(E.neg(v.n), v.isint, deps=v.deps)
            if op == "UAdd":
                return v
            if op == "Invert":
                if v.isbool:
                    return Num(E.not_(v.n), isbool=True, deps=v.deps)
                return Num(E.sub(E.const(-1), v.n), isint=True, deps=v.deps)
        if self.tensor(v) is not None:
            return self.call_torch({"USub": "neg", "Invert": "logical_not", "UAdd": "pos"}[op], [v], {}, n)
        return Any(self.deps(v), tag=(op, self.vn(v)))

    def e_BinOp(self, n):
        a = self.expr(n.left)
        b = self.expr(n.right)
        return self.binop(type(n.op).__name__, a, b, n)

    NUMOPS = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "Pow": "pow",
              "FloorDiv": "floor_divide", "Mod": "remainder", "MatMult": "matmul",
              "BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor", "LShift": "lshift",
              "RShift": "rshift"}

    def binop(self, op, a, b, n):
        return self.lift(a, lambda a: self.lift(b, lambda b: self._binop(op, a, b, n)))

    def _binop(self, op, a, b, n):
        ca, cb = self.deref(a), self.deref(b)
        if isinstance(ca, Tensor) or isinstance(cb, Tensor):
            return self.call_torch(self.NUMOPS[op], [a, b], {}, n)
        if isinstance(ca, Num) and isinstance(cb, Num):
            return self.T.num_binop(self, op, ca, cb, n)
        if op == "Add":
            if isinstance(ca, Tup) and isinstance(cb, Tup):
                return Tup(ca.items + cb.items)
            if isinstance(ca, Lst) and isinstance(cb, (Lst, Tup)) and ca.items is not None and cb.items is not None:
                return self.newloc(Lst(list(ca.items) + list(cb.items)))
            if isinstance(ca, Tup) and isinstance(cb, Lst) and cb.items is not None:
                return Tup(list(ca.items) + list(cb.items))
            if isinstance(ca, Const) and isinstance(cb, Const) and isinstance(ca.v, str) and isinstance(cb.v, str):
                return Const(ca.v + cb.v)
        if op == "Mult":
            for x, y in ((ca, cb), (cb, ca)):
                if isinstance(x, (Lst, Tup)) and isinstance(y, Num) and y.c is not None and x.items is not None:
                    its = list(x.items) * int(y.c)
                    return Tup(its) if isinstance(x, Tup) else self.newloc(Lst(its))
                if isinstance(x, Const) and isinstance(x.v, str) and isinstance(y, Num) and y.c is not None:
                    return Const(x.v * int(y.c))
                if isinstance(x, Lst) and isinstance(y, Num) and x.items is not None and len(x.items) == 1:
                    return self.newloc(Lst(None, x.items[0], y.n))
        if op == "Mod" and isinstance(ca, Const):
            return Any(self.deps(b), tag="fmt")
        return Any(self.deps(a) | self.deps(b), tag=(op, self.vn(a), self.vn(b)))

    def e_Compare(self, n):
        left = self.expr(n.left)
        acc = None
        deps = self.deps(left)
        for op, r in zip(n.ops, n.comparators):
            right = self.expr(r)
            deps = deps | self.deps(right)
            v = self.compare(type(op).__name__, left, right, n)
            if len(n.ops) == 1:
                return v
            c = self.truth(v)
            acc = c if acc is None else E.and_(acc, c)
            left = right
        return Num(acc, isbool=True, deps=deps)

    CMP = {"Lt": E.lt, "LtE": E.le, "Gt": E.gt, "GtE": E.ge, "Eq": E.eq, "NotEq": E.ne}
    CMPT = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge", "Eq": "eq", "NotEq": "ne"}

    def compare(self, op, a, b, n):
        return self.lift(a, lambda a: self.lift(b, lambda b: self._compare(op, a, b, n)))

    def _compare(self, op, a, b, n):
        deps = self.deps(a) | self.deps(b)
        ca, cb = self.deref(a), self.deref(b)
        B = lambda node: Num(node, isbool=True, deps=deps)
        if op in ("Is", "IsNot"):
            r = self.is_same(ca, cb)
            if r is None:
                r = E.bool_atom("is", self.vn(a), self.vn(b))
            else:
                r = E.ONE if r else E.ZERO
            return B(r if op == "Is" else E.not_(r))
        if op in ("In", "NotIn"):
            r = self.contains(a, b, n)
            return B(r if op == "In" else E.not_(r))
        if isinstance(ca, Tensor) or isinstance(cb, Tensor):
            if isinstance(ca, Const) or isinstance(cb, Const):
                return B(E.ZERO if op == "Eq" else E.ONE)
            return self.call_torch(self.CMPT[op], [a, b], {}, n)
        if isinstance(ca, Num) and isinstance(cb, Num):
            return B(self.CMP[op](ca.n, cb.n))
        if op in ("Eq", "NotEq"):
            r = self.equal(ca, cb)
            return B(r if op == "Eq" else E.not_(r))
        return B(E.bool_atom(op, self.vn(a), self.vn(b)))

    def is_same(self, a, b):
        na = isinstance(a, Const) and a.v is None
        nb = isinstance(b, Const) and b.v is None
        if na and nb:
            return True
        if na or nb:
            o = b if na else a
            if isinstance(o, (Tensor, Num, Lst, Dct, Obj, Tup, Func, Cls, Rng, DType, Device, Str)) or (
                    isinstance(o, Const)):
                return False
            return None
        if isinstance(a, Num) and isinstance(b, Num) and a.isbool and b.isbool and a.c is not None and b.c is not None:
            return a.c == b.c
        if isinstance(a, DType) and isinstance(b, DType):
            return a.label == b.label if a.label != b.label or True else None
        return None

    def equal(self, a, b):
        if isinstance(a, Num) and isinstance(b, Num):
            return E.eq(a.n, b.n)
        if isinstance(a, Const) and isinstance(b, Const):
            return E.ONE if a.v == b.v else E.ZERO
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Str) and x.unlisted:
                self.compared.add(x.name)
                return E.ZERO if isinstance(y, Const) else E.bool_atom("streq", x.name, repr(y))
            if isinstance(x, Str) and isinstance(y, Const):
                return E.bool_atom("streq", x.name, repr(y.v))
            if isinstance(y, Const) and isinstance(x, (Num, Tup, Lst, Tensor)) :
                return E.ZERO
        if isinstance(a, (Tup, Lst)) and isinstance(b, (Tup, Lst)) and a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return E.ZERO
            r = E.ONE
            for x, y in zip(a.items, b.items):
                r = E.and_(r, self.equal(self.deref(self.resolve(x)), self.deref(self.resolve(y))))
            return r
        if isinstance(a, DType) and isinstance(b, DType):
            if a.label == b.label:
                return E.ONE
            if any(x is None or "IN" in x or x.startswith(("ARG", "DEF")) for x in (a.label, b.label)):
                return E.bool_atom("dtypeeq", a.label or "?", b.label or "?")
            return E.ZERO
        if isinstance(a, Device) and isinstance(b, Device) and a.label is not None and b.label is not None:
            if a.label == b.label:
                return E.ONE
            if self.distinct_devices:
                return E.ZERO
        return E.bool_atom("Eq", self.vn(a), self.vn(b))

    def contains(self, a, b, n):
        cb = self.deref(b)
        ca = self.deref(a)
        items = None
        if isinstance(cb, (Tup, Lst)):
            items = cb.items
        elif isinstance(cb, Rng):
            items = self.seq_items(b)
        elif isinstance(cb, Dct) and not cb.unknown:
            k = self.dkey(a)
            if k is not None:
                return E.ONE if k in cb.items else E.ZERO
            items = [Const(x) if isinstance(x, str) else Num(x) for x in cb.items if isinstance(x, (str, int, float))]
        elif isinstance(ca, Str) and ca.unlisted and isinstance(cb, (Dct, Const)) and not getattr(cb, "unknown", False):
            self.compared.add(ca.name)
            return E.ZERO
        elif isinstance(cb, Const) and isinstance(cb.v, str) and isinstance(ca, Const) and isinstance(ca.v, str):
            return E.ONE if ca.v in cb.v else E.ZERO
        if items is None or len(items) > 300:
            return E.bool_atom("in", self.vn(a), self.vn(b))
        r = E.ZERO
        for x in items:
            r = E.or_(r, self.equal(ca, self.deref(self.resolve(x))))
        return r

    def e_Attribute(self, n):
        base = self.expr(n.value)
        return self.lift(base, lambda b: self.attr(b, n.attr, n))

    def attr(self, b, name, n):
        b = self.resolve(b)
        if isinstance(b, Choice):
            return self.lift(b, lambda x: self.attr(x, name, n))
        c = self.deref(b)
        if isinstance(c, Tensor):
            return self.T.tensor_attr(self, b, c, name, n)
        if isinstance(c, ModV):
            v = self.modattr(c.mod, name)
            if v is not None:
                return v
            m = self.repo.mods.get(c.mod.name + "." + name)
            return ModV(m) if m else Any(tag=("modattr", c.mod.name, name))
        if isinstance(c, Ext):
            if c.path == "ebsdtorch":
                m = self.repo.mods.get(c.path + "." + name)
                if m:
                    return ModV(m)
            return self.T.ext_attr(self, c.path + "." + name)
        if isinstance(c, Obj):
            if name in c.attrs:
                return self.resolve(c.attrs[name])
            if c.cls is not None:
                r = self.repo.find_method(c.cls.mod, c.cls.node, name)
                if r is not None:
                    mod, node = r
                    decs = [ast.unparse(d) for d in node.decorator_list]
                    f = Func(mod, node, c.cls.qual + "." + name, bound=b, cls=c.cls)
                    if "property" in decs:
                        return self.call_func(f, [], {}, n)
                    if "staticmethod" in decs:
                        f.bound = None
                    return f
                # class attribute
                for st in c.cls.node.body:
                    if isinstance(st, (ast.Assign, ast.AnnAssign)):
                        tg = st.targets[0] if isinstance(st, ast.Assign) else st.target
                        if isinstance(tg, ast.Name) and tg.id == name and st.value is not None:
                            return self.expr(st.value)
                if self.is_module_cls(c.cls) and name in MODULE_METHODS:
                    return BoundOp(b, name)
            if c.opaque:
                v = Any(tag=("attr", name))
                return v
            self.ev("attr_missing", n, name=name, cls=c.cls.qual if c.cls else "?")
            return Any(tag=("attr", name))
        if isinstance(c, Cls):
            r = self.repo.find_method(c.mod, c.node, name)
            if r is not None:
                return Func(r[0], r[1], c.qual + "." + name, cls=c)
            return Any(tag=("clsattr", c.qual, name))
        if isinstance(c, Tup) and type(c).__name__ == "NTup":
            k = {"values": 0, "indices": 1, "eigenvalues": 0, "eigenvectors": 1, "U": 0, "S": 1, "Vh": 2,
                 "V": 2, "Q": 0, "R": 1, "sign": 0, "logabsdet": 1}.get(name)
            if k is not None and k < len(c.items):
                return c.items[k]
        if isinstance(c, (Lst, Dct, Tup, Const, Str, USeq, Num, Rng)):
            if isinstance(c, Num) and name in ("real",):
                return c
            return BoundOp(b, name)
        if isinstance(c, DType):
            if name == "is_floating_point":
                return BoundOp(b, name)
            return Any(tag=("dtypeattr", c.label, name))
        if isinstance(c, Device):
            return Any(tag=("devattr", c.label, name))
        return Any(self.deps(b), tag=("attr", self.vn(b), name))

    def is_module_cls(self, cls):
        for b in cls.node.bases:
            s = ast.unparse(b)
            if s.endswith("Module"):
                return True
            if isinstance(b, ast.Name):
                r = self.repo.resolve_def(cls.mod, b.id)
                if r and isinstance(r[1], ast.ClassDef):
                    if self.is_module_cls(Cls(r[0], r[1], b.id)):
                        return True
        return False

    def setattr(self, b, name, v, st):
        b = self.resolve(b)
        c = self.deref(b)
        if isinstance(c, Obj):
            at = dict(c.attrs)
            at[name] = v
            self.store[b.loc] = Obj(c.cls, at, c.opaque)
            self.ev("setattr", st, cls=c.cls.qual if c.cls else "?", name=name)
            return
        if isinstance(c, Tensor) and name == "data":
            nt = self.tensor(v)
            if nt is not None:
                self.inplace(b, nt, st)
            return
        if isinstance(c, Choice):
            return
        if isinstance(c, (Ext, ModV)):
            self.ev("global_write", st, name=(c.path if isinstance(c, Ext) else c.mod.name) + "." + name)
            return
        if isinstance(c, Any) and c.roots:
            self.ev("mutate", st, roots=tuple(sorted(c.roots)), how="setattr", must=False)

    # subscripts
    def index_expr(self, s):
        if isinstance(s, ast.Tuple):
            return Tup([self.index_expr(x) for x in s.elts])
        if isinstance(s, ast.Slice):
            def f(x):
                if x is None:
                    return None
                v = self.resolve(self.expr(x))
                t = self.deref(v)
                if isinstance(t, Tensor):
                    if t.shape is not None and len(t.shape) == 0 and len(t.comps) == 1 and t.dtype in ("i64", "i32"):
                        return Num(t.comps[0], isint=True)
                return v
            return Slc(f(s.lower), f(s.upper), f(s.step))
        return self.expr(s)

    def e_Subscript(self, n):
        b = self.expr(n.value)
        i = self.index_expr(n.slice)
        return self.getitem(b, i, n)

    def e_Slice(self, n):
        return self.index_expr(n)

    def getitem(self, b, i, n):
        def f(b):
            c = self.deref(b)
            if isinstance(c, Tensor):
                return self.T.index(self, b, c, i, n)
            ii = self.resolve(i) if not isinstance(i, (Slc, Tup)) else i
            if isinstance(ii, Choice):
                return self.lift(ii, lambda j: self.getitem(b, j, n))
            if isinstance(c, (Tup, Lst)) and c.items is not None:
                its = c.items
                if isinstance(ii, Slc):
                    a, e, s = [None if x is None else (x.c if isinstance(x, Num) else "?") for x in (ii.a, ii.b, ii.s)]
                    if "?" in (a, e, s) or any(x is not None and y is None for x, y in ((ii.a, a), (ii.b, e), (ii.s, s))):
                        return Any(self.deps(b), self.roots(b), tag=("slice", self.vn(b), self.vn(ii)))
                    sub = list(its)[a:e:s]
                    return Tup(sub, getattr(c, "isshape", False)) if isinstance(c, Tup) else self.newloc(Lst(sub))
                if isinstance(ii, Num):
                    if ii.c is not None:
                        k = int(ii.c)
                        if -len(its) <= k < len(its):
                            return self.resolve(its[k])
                        self.ev("index_error", n, index=k, length=len(its))
                        return Any(tag="oob")
                    # symbolic index over a known table
                    self.ev("table_index", n, length=len(its), nid=ii.n.id)
                    if its and all(isinstance(x, Num) for x in its) and len(its) <= 300:
                        acc = its[-1].n
                        for k in range(len(its) - 2, -1, -1):
                            acc = E.ite(E.eq(ii.n, E.const(k)), its[k].n, acc)
                        return Num(acc, its[0].isint, deps=ii.deps | self.deps(b))
                    if its and len(its) <= 40:
                        acc = its[-1]
                        for k in range(len(its) - 2, -1, -1):
                            acc = self.join(E.eq(ii.n, E.const(k)), its[k], self.store, acc, self.store, self.store)
                        return acc
                    return Any(self.deps(b) | ii.deps, tag=("idx", self.vn(b), ii.n))
                it = self.tensor(ii)
                if it is not None:
                    return Any(self.deps(b) | it.deps, tag=("idx", self.vn(b), self.vn(ii)))
                return Any(self.deps(b), tag=("idx", self.vn(b), self.vn(ii)))
            if isinstance(c, Lst) or isinstance(c, USeq):
                if isinstance(ii, Slc):
                    return self.newloc(Lst(None, c.elem)) if isinstance(c, Lst) else c
                return c.elem if c.elem is not None else Any(tag="lelem")
            if isinstance(c, Dct):
                k = self.dkey(ii)
                if k is not None and k in c.items:
                    return self.resolve(c.items[k])
                if k is not None and not c.unknown:
                    self.ev("key_error", n, key=repr(k))
                if isinstance(ii, Str) and ii.unlisted and not c.unknown:
                    self.compared.add(ii.name)
                    self.ev("key_error", n, key=ii.name)
                if k is None and isinstance(ii, (Str, Num)) and c.items and not c.unknown:
                    self.ev("dict_index", n, keys=tuple(map(repr, c.items)))
                    vals = list(c.items.items())
                    acc = vals[-1][1]
                    for kk, vv in reversed(vals[:-1]):
                        cc = self.equal(ii, Const(kk) if isinstance(kk, str) else Num(kk))
                        acc = self.join(cc, vv, self.store, acc, self.store, self.store)
                    return acc
                return Any(self.deps(b), tag=("dict", self.vn(ii)))
            if isinstance(c, Const) and isinstance(c.v, str):
                if isinstance(ii, Num) and ii.c is not None and -len(c.v) <= ii.c < len(c.v):
                    return Const(c.v[int(ii.c)])
                if isinstance(ii, Slc):
                    a, e, s = [None if x is None else x.c for x in (ii.a, ii.b, ii.s)]
                    if not any(x is not None and y is None for x, y in ((ii.a, a), (ii.b, e), (ii.s, s))):
                        return Const(c.v[a:e:s])
                return Any(tag="strix")
            if isinstance(c, Rng):
                its = self.seq_items(b)
                if its is not None and isinstance(ii, Num) and ii.c is not None:
                    return its[int(ii.c)]
                return Any(self.deps(b), tag="rngix")
            if isinstance(c, (Cls, Ext)):
                return c   # typing subscripts
            return Any(self.deps(b) | self.deps(ii), self.roots(b) if isinstance(c, Any) and not isinstance(ii, Ref) else NOROOT,
                       tag=("item", self.vn(b), self.vn(ii) if not isinstance(ii, Tup) else self.vn(ii)))
        return self.lift(b, f)

    def setitem(self, b, i, v, st):
        b = self.resolve(b)
        c = self.deref(b)
        if isinstance(c, Tensor):
            self.T.setindex(self, b, c, i, v, st)
            return
        if isinstance(c, (Lst, Dct)):
            self.touched(b, st, i if isinstance(c, Dct) and isinstance(i, V) else None, v)
        if isinstance(c, Lst):
            ii = self.resolve(i) if not isinstance(i, (Slc, Tup)) else i
            if c.items is not None and isinstance(ii, Num) and ii.c is not None and -len(c.items) <= ii.c < len(c.items):
                its = list(c.items)
                its[int(ii.c)] = v
                self.store[b.loc] = Lst(its)
            else:
                its = list(c.items) if c.items is not None else None
                el = c.elem
                if its is not None:
                    c2 = E.bool_atom("six", self.vn(ii), self.freshname("s"))
                    its = [self.join(c2, v, self.store, x, self.store, self.store) for x in its] if len(its) <= 64 else None
                    self.store[b.loc] = Lst(its, None if its is not None else v)
                else:
                    self.store[b.loc] = Lst(None, v if el is None else self.join(
                        E.bool_atom(self.freshname("j")), v, self.store, el, self.store, self.store))
            return
        if isinstance(c, Dct):
            k = self.dkey(i if isinstance(i, V) else Any())
            it = dict(c.items)
            if k is not None:
                it[k] = v
                self.store[b.loc] = Dct(it, c.unknown)
            else:
                self.store[b.loc] = Dct(it, True)
            return
        if isinstance(c, Ext):
            self.ev("global_write", st, name=c.path + "[]")
            return
        if isinstance(c, Any) and c.roots:
            self.ev("mutate", st, roots=tuple(sorted(c.roots)), how="setitem", must=False)

    # comprehensions
    def comp(self, n, kind):
        fr = self.frames[-1]
        saved = dict(fr.env)
        out = []
        unknown = [False]
        elemv = [None]

        def rec(k):
            if k == len(n.generators):
                if kind == "dict":
                    out.append((self.expr(n.key), self.expr(n.value)))
                else:
                    out.append(self.expr(n.elt))
                return
            g = n.generators[k]
            it = self.resolve(self.expr(g.iter))
            items = self.seq_items(it)
            if items is None or len(items) > 256:
                unknown[0] = True
                items = [self.loop_elem(it, n)]
            for x in items:
                self.assign(g.target, x, n)
                ok = True
                for cnd in g.ifs:
                    c = self.known(self.truth(self.expr(cnd)))
                    if c is False:
                        ok = False
                    elif c is None:
                        unknown[0] = True
                if ok:
                    rec(k + 1)

        rec(0)
        fr.env = saved
        if kind == "dict":
            d = {}
            unk = unknown[0]
            for k, v in out:
                kk = self.dkey(k)
                if kk is None:
                    unk = True
                else:
                    d[kk] = v
            return self.newloc(Dct(d, unk))
        if unknown[0]:
            el = out[0] if out else None
            for x in out[1:]:
                el = self.join(E.bool_atom(self.freshname("j")), el, self.store, x, self.store, self.store)
            return self.newloc(Lst(None, el))
        return self.newloc(Lst(out))

    def e_ListComp(self, n):
        return self.comp(n, "list")

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, n):
        return self.comp(n, "dict")

    # ------------------------------------------------------------------ calls
    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and \
                isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
            return self.super_call(n)
        f = self.expr(n.func)
        args = self.elts(n.args)
        kw = {}
        for k in n.keywords:
            v = self.expr(k.value)
            if k.arg is None:
                d = self.deref(self.resolve(v))
                if isinstance(d, Dct):
                    for kk, vv in d.items.items():
                        if isinstance(kk, str):
                            kw[kk] = vv
                    if d.unknown:
                        kw["**"] = v
                continue
            kw[k.arg] = v
        return self.lift(f, lambda f: self.call(f, args, kw, n))

    def super_call(self, n):
        fr = self.frames[-1]
        slf = fr.env.get("self")
        args = self.elts(n.args)
        kw = {k.arg: self.expr(k.value) for k in n.keywords if k.arg}
        c = self.deref(slf) if slf is not None else None
        if isinstance(c, Obj) and fr.cls is not None:
            for b in fr.cls.node.bases:
                if isinstance(b, ast.Name):
                    r = self.repo.resolve_def(fr.cls.mod, b.id)
                    if r and isinstance(r[1], ast.ClassDef):
                        m = self.repo.find_method(r[0], r[1], n.func.attr)
                        if m:
                            q = "%s:%s.%s" % (r[0].name, r[1].name, n.func.attr)
                            return self.call_func(Func(m[0], m[1], q, bound=slf,
                                                       cls=Cls(r[0], r[1], "%s:%s" % (r[0].name, r[1].name))),
                                                  args, kw, n)
        return NONE

    def call(self, f, args, kw, n):
        if isinstance(f, Func):
            return self.call_func(f, args, kw, n)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, n)
        if isinstance(f, Ext):
            if self.ext_call is not None:
                self.ext_call(self, f.path, args, kw, n)
            return self.T.call_ext(self, f.path, args, kw, n)
        if isinstance(f, BoundOp):
            return self.call_method(f.recv, f.name, args, kw, n)
        c = self.deref(f)
        if isinstance(c, Obj) and c.cls is not None:
            for nm in ("__call__", "forward"):
                r = self.repo.find_method(c.cls.mod, c.cls.node, nm)
                if r:
                    return self.call_func(Func(r[0], r[1], c.cls.qual + "." + nm, bound=f, cls=c.cls), args, kw, n)
        deps = self.deps(f)
        for a in list(args) + list(kw.values()):
            deps = deps | self.deps(a)
        return Any(deps, tag=("call", self.vn(f)) + tuple(self.vn(a) for a in args) +
                   tuple((k, self.vn(v)) for k, v in sorted(kw.items())))

    def call_method(self, recv, name, args, kw, n):
        c = self.deref(recv)
        if isinstance(c, Tensor):
            return self.call_torch(name, [recv] + args, kw, n, method=True)
        return self.T.py_method(self, recv, c, name, args, kw, n)

    def call_torch(self, name, args, kw, n, method=False):
        return self.T.call_op(self, name, args, kw, n, method)

    def instantiate(self, cls, args, kw, n):
        decs = [ast.unparse(d) for d in cls.node.decorator_list]
        obj = self.newloc(Obj(cls, {}, self.has_opaque_base(cls)))
        r = self.repo.find_method(cls.mod, cls.node, "__init__")
        if r is not None:
            self.call_func(Func(r[0], r[1], cls.qual + ".__init__", bound=obj, cls=cls), args, kw, n)
        elif any("dataclass" in d for d in decs) or True:
            names = []
            at = {}
            for st in cls.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    names.append(st.target.id)
                    if st.value is not None:
                        at[st.target.id] = self.expr(st.value)
            for k, v in zip(names, args):
                at[k] = v
            for k, v in kw.items():
                at[k] = v
            self.store[obj.loc] = Obj(cls, at, self.has_opaque_base(cls))
        return obj

    def has_opaque_base(self, cls):
        for b in cls.node.bases:
            s = ast.unparse(b)
            if s in ("object", "Module", "nn.Module", "torch.nn.Module", "ABC"):
                continue
            if isinstance(b, ast.Name):
                r = self.repo.resolve_def(cls.mod, b.id)
                if r and isinstance(r[1], ast.ClassDef):
                    if not self.has_opaque_base(Cls(r[0], r[1], b.id)):
                        continue
            return True
        return False

    def bind(self, f, args, kw, n):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if f.bound is not None:
            args = [f.bound] + args
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for p, v in zip(pos, args):
            env[p] = v
        if len(args) > len(pos):
            if a.vararg:
                env[a.vararg.arg] = Tup(args[len(pos):])
            else:
                self.ev("call_arity", n, func=f.qual)
        elif a.vararg:
            env[a.vararg.arg] = Tup([])
        kws = {}
        allk = pos + [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in allk:
                env[k] = v
            else:
                kws[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = self.newloc(Dct(kws, False))
        elif kws and "**" not in kws:
            self.ev("call_kw", n, func=f.qual, kw=tuple(sorted(kws)))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for p in allk:
            if p not in env:
                if p in defaults:
                    # defaults are evaluated in the defining module
                    fr = Frame(f.mod, f.qual, {}, closure=f.closure)
                    self.frames.append(fr)
                    try:
                        env[p] = self.own(self.expr(defaults[p]), "default value of %s" % p)
                    finally:
                        self.frames.pop()
                else:
                    env[p] = Any(tag=("missing", p))
                    self.ev("call_arity", n, func=f.qual, missing=p)
        return env

    def call_func(self, f, args, kw, n):
        h = self.hooks.get(f.qual) or (self.hooks.get(f.qual.split(":")[-1]) if f.closure is None else None)
        if self.watch_call is not None:
            self.watch_call(self, f, args, kw, n)
        if h is not None:
            r = h(self, f, args, kw, n)
            if r is not None:
                return r
        depth = len(self.frames)
        rec = sum(1 for fr in self.frames if fr.qual == f.qual)
        if depth > self.MAXDEPTH or rec > 1:
            deps = NOROOT
            for a in list(args) + list(kw.values()):
                deps = deps | self.deps(a)
            return Any(deps, tag=("deep", f.qual) + tuple(self.vn(a) for a in args))
        self.functions_seen.add(f.qual)
        env = self.bind(f, args, kw, n)
        fr = Frame(f.mod, f.qual, env, closure=f.closure, cls=f.cls)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.expr(f.node.body)
            alive = self.block(f.node.body)
            if alive:
                fr.returns.append((fr.gate, NONE, self.store, f.node.lineno))
        finally:
            self.frames.pop()
        if fr.yields and fr.yexact:
            return Tup(fr.yields)
        if fr.yields:
            el = fr.yields[0]
            for x in fr.yields[1:]:
                el = self.join(E.bool_atom(self.freshname("j")), el, self.store, x, self.store, self.store)
            return USeq(el)
        if not fr.returns:
            self.last_noreturn = f.qual
            self.dies()
            return Any(tag=("noreturn", f.qual))
        g, v, s, _ = fr.returns[-1]
        for g1, v1, s1, _ in reversed(fr.returns[:-1]):
            out = self.join_store(g1, s1, s)
            v = self.join(g1, v1, s1, v, s, out)
            s = out
        self.store = s
        return v

    # entry point
    def run(self, qual, args, kw=None, bound=None):
        r = self.repo.find(qual)
        if r is None:
            return None
        mod, node, cls = r
        c = Cls(mod, cls, qual.split(".")[0] if False else qual.rsplit(".", 1)[0]) if cls is not None else None
        f = Func(mod, node, qual, bound=bound, cls=c)
        base = Frame(mod, "<root>", {})
        self.frames.append(base)
        flat = [v for a in list(args) + list((kw or {}).values()) for v in ((a.a, a.b) if isinstance(a, Choice) else (a,))]
        self.arglocs = {v.loc for v in flat if isinstance(v, Ref)}
        try:
            v = self.call_func(f, args, kw or {}, node)
            self.noreturn = base.dead is not None and self.known(base.dead) is True
            return v
        finally:
            self.frames.pop()


MODULE_METHODS = {"register_buffer", "register_parameter", "to", "parameters", "buffers", "eval", "train",
                  "state_dict", "load_state_dict", "cuda", "cpu", "float", "double", "half", "apply",
                  "named_parameters", "modules", "children", "zero_grad", "requires_grad_", "add_module",
                  "register_module"}
