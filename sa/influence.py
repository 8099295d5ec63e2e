"""Which arguments of a function can change what it returns or leaves behind.

Flow-sensitive forward dataflow over the syntax tree: every variable carries the set of parameters its
value may depend on (through data, or through the branch it was assigned on), joined at merges and
iterated over loops.  Calls into the repository use the summary of the callee, other calls depend on all
their arguments.  `p` stands for the value of parameter p, `p#` for its shape, type and device only."""
import ast

META_ATTR = {"shape", "ndim", "dtype", "device", "is_cuda", "requires_grad", "layout"}
META_CALL = {"size", "dim", "numel", "ndimension", "stride", "element_size", "is_contiguous", "get_device", "is_floating_point", "is_complex"}
LIKE = {"zeros_like", "ones_like", "empty_like", "full_like", "rand_like", "randn_like", "is_tensor", "isinstance", "type", "len",
        "new_zeros", "new_ones", "new_empty", "new_full", "new_tensor", "is_floating_point", "is_complex", "numel"}
NONE = frozenset()


def meta(s):
    return frozenset(x if x.endswith("#") else x + "#" for x in s)


class Unlisted:
    """a value of which only known is that it is not None"""


class Summary:
    __slots__ = ("ret", "eff", "attrs")

    def __init__(self, ret=NONE, eff=NONE, attrs=None):
        self.ret, self.eff, self.attrs = ret, eff, attrs or {}


def params_of(node, method):
    a = node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if method and ps:
        ps = ps[1:]
    return ps, [x.arg for x in a.kwonlyargs], a.vararg and a.vararg.arg, a.kwarg and a.kwarg.arg


def is_method(node, cls):
    return cls is not None and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list)


class Analysis:
    def __init__(self, repo):
        self.repo = repo
        self.memo = {}
        self.busy = set()
        self.calls = 0

    def summary(self, mod, node, cls):
        k = id(node)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return None
        self.busy.add(k)
        try:
            s = Fn(self, mod, node, cls).go()
        finally:
            self.busy.discard(k)
        self.memo[k] = s
        return s

    def resolve(self, mod, f, cls):
        """-> (mod, node, cls, is_constructor) of a call target in the repository"""
        if isinstance(f, ast.Name):
            return self.name(mod, f.id)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name):
                if f.value.id in ("self", "cls") and cls is not None:
                    return self.method(mod, cls, f.attr)
                im = mod.imports.get(f.value.id)
                if im:
                    dn = im[1] if im[0] == "mod" else im[1] + "." + im[2]
                    m = self.repo.mods.get(dn)
                    if m:
                        return self.name(m, f.attr)
                d = self.name(mod, f.value.id)
                if d and isinstance(d[1], ast.ClassDef):
                    return self.method(d[0], d[1], f.attr, static=True)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and cls is not None:
                for b in cls.bases:
                    d = self.resolve_class(mod, b)
                    if d:
                        return self.method(d[0], d[1], f.attr)
        return None

    def resolve_class(self, mod, b):
        if isinstance(b, ast.Name):
            d = self.name(mod, b.id)
            if d and isinstance(d[1], ast.ClassDef):
                return d
        return None

    def name(self, mod, n, depth=0):
        if n in mod.defs:
            return mod, mod.defs[n]
        im = mod.imports.get(n)
        if im and im[0] == "from" and depth < 5:
            m = self.repo.mods.get(im[1])
            if m:
                return self.name(m, im[2], depth + 1)
        return None

    def method(self, mod, cls, attr, static=False, depth=0):
        for st in cls.body:
            if isinstance(st, ast.FunctionDef) and st.name == attr:
                return mod, st, cls
        if depth < 4:
            for b in cls.bases:
                d = self.resolve_class(mod, b)
                if d:
                    r = self.method(d[0], d[1], attr, static, depth + 1)
                    if r:
                        return r
        return None


class Fn:
    def __init__(self, an, mod, node, cls, fixed=None):
        self.fixed = fixed or {}          # parameter -> the value it is taken to have
        self.an, self.mod, self.node, self.cls = an, mod, node, cls
        self.meth = is_method(node, cls)
        pos, kwo, va, kwa = params_of(node, self.meth)
        self.env, self.al = {}, {}
        for p in pos + kwo + [x for x in (va, kwa) if x]:
            self.env[p] = frozenset([p])
            self.al[p] = frozenset(["P:" + p])
        if self.meth and node.args.args:
            self.self_ = node.args.args[0].arg
            self.al[self.self_] = frozenset(["P:self"])
        else:
            self.self_ = None
        self.ret, self.eff, self.attrs = NONE, NONE, {}
        self.ctl = []          # control taint stack
        self.sticky = NONE
        self.closures = {}
        self.globals_ = set()

    def go(self):
        self.block(self.node.body)
        return Summary(self.ret, self.eff, self.attrs)

    # -- expressions
    def ctrl(self):
        r = self.sticky
        for c in self.ctl:
            r |= c
        return r

    def lookup(self, n):
        r = self.env.get(n, NONE)
        if n in self.closures:
            fv, nd = self.closures[n]
            for x in fv:
                if x != n:
                    r |= self.env.get(x, NONE)
        return r

    def ev(self, e):
        """-> taint"""
        if e is None:
            return NONE
        if isinstance(e, ast.Constant):
            return NONE
        if isinstance(e, ast.Name):
            return self.lookup(e.id)
        if isinstance(e, ast.Attribute):
            k = self.path(e)
            if k and k in self.env:
                return self.env[k]
            b = self.ev(e.value)
            return meta(b) if e.attr in META_ATTR else b
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Lambda):
            return frozenset().union(*[self.lookup(n.id) for n in ast.walk(e.body) if isinstance(n, ast.Name)] or [NONE])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(self.env)
            t = NONE
            for g in e.generators:
                it = self.ev(g.iter)
                self.bind(g.target, it, NONE)
                t |= meta(it)          # the number of elements
                for c in g.ifs:
                    t |= self.ev(c)
            if isinstance(e, ast.DictComp):
                t |= self.ev(e.key) | self.ev(e.value)
            else:
                t |= self.ev(e.elt)
            self.env = saved
            return t
        if isinstance(e, ast.Compare):
            if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
                return meta(self.ev(e.left) | self.ev(e.comparators[0]))
            return frozenset().union(self.ev(e.left), *[self.ev(c) for c in e.comparators])
        if isinstance(e, ast.NamedExpr):
            t = self.ev(e.value)
            self.bind(e.target, t, self.alias(e.value))
            return t
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            t = self.ev(e.value) if e.value else NONE
            self.ret |= t | self.ctrl()
            return t
        t = NONE
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                t |= self.ev(c)
        return t

    def path(self, e):
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if isinstance(e, ast.Name) and parts:
            return ".".join([e.id] + parts[::-1])
        return None

    def alias(self, e):
        """names and parameters whose storage the value may share"""
        if isinstance(e, ast.Name):
            return self.al.get(e.id, NONE) | frozenset([e.id])
        if isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
            return self.alias(e.value)
        if isinstance(e, ast.Call):
            r = NONE
            if isinstance(e.func, ast.Attribute) and not (isinstance(e.func.value, ast.Name) and e.func.value.id in self.mod.imports):
                r |= self.alias(e.func.value)
            for a in e.args:
                r |= self.alias(a)
            return r
        if isinstance(e, (ast.Tuple, ast.List)):
            return frozenset().union(NONE, *[self.alias(x) for x in e.elts])
        if isinstance(e, ast.IfExp):
            return self.alias(e.body) | self.alias(e.orelse)
        return NONE

    def call(self, e):
        an = self.an
        f = e.func
        an.calls += 1
        argt = [self.ev(a) for a in e.args]
        kwt = [(k.arg, self.ev(k.value)) for k in e.keywords]
        allt = frozenset().union(NONE, *argt, *[t for _, t in kwt])
        d = an.resolve(self.mod, f, self.cls)
        local = isinstance(f, ast.Name) and (f.id in self.env or f.id in self.closures)
        if d and not local:
            mod, node = d[0], d[1]
            cls = d[2] if len(d) > 2 else None
            init = None
            if isinstance(node, ast.ClassDef):
                r = an.method(mod, node, "__init__")
                if r:
                    init = (mod, node)
                    mod, node, cls = r
                else:
                    r = an.method(mod, node, "forward")
                    node = None
            if node is not None and not any(isinstance(a, ast.Starred) for a in e.args) and all(k for k, _ in kwt):
                unbound = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in ("self", "cls") and cls is not None and init is None
                meth = is_method(node, cls) and not unbound
                pos, kwo, va, kwa = params_of(node, meth)
                bind = {}
                for i, t in enumerate(argt):
                    bind.setdefault(pos[i] if i < len(pos) else (va or "*"), []).append(t)
                for k, t in kwt:
                    bind.setdefault(k if k in pos + kwo else (kwa or "*"), []).append(t)
                s = an.summary(mod, node, cls)
                ret = eff = NONE
                for p, ts in bind.items():
                    t = frozenset().union(*ts)
                    if s is None:
                        ret |= t
                        continue
                    if init is not None:
                        if p in s.eff or p in s.ret or any(p in a for a in s.attrs.values()):
                            ret |= t
                        elif p + "#" in s.eff or any(p + "#" in a for a in s.attrs.values()):
                            ret |= meta(t)
                        continue
                    if p in s.ret:
                        ret |= t
                    elif p + "#" in s.ret:
                        ret |= meta(t)
                    if p in s.eff or any(p in a for a in s.attrs.values()):
                        eff |= t
                    elif p + "#" in s.eff:
                        eff |= meta(t)
                self_t = self.lookup(self.self_) if self.self_ else NONE
                if eff:
                    # what the callee changes: its arguments, its object or the outside
                    for a in list(e.args) + [k.value for k in e.keywords]:
                        self.mutate(a, eff)
                    self.eff |= eff
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == self.self_:
                    for k in [k for k in self.env if k.startswith(self.self_ + ".")]:
                        if eff:
                            self.env[k] |= eff
                return ret | eff | self_t
        if isinstance(f, ast.Attribute):
            base = self.ev(f.value)
            if f.attr in META_CALL and not e.args:
                return meta(base)
            if f.attr in LIKE and isinstance(f.value, ast.Name) and f.value.id in self.mod.imports:
                return (meta(argt[0]) if argt else NONE) | frozenset().union(NONE, *argt[1:], *[t for _, t in kwt])
            if f.attr in LIKE:
                return meta(base) | allt
            if f.attr in ("type_as", "expand_as", "view_as", "reshape_as"):
                return base | meta(allt)
            if f.attr == "to" and e.args:
                return base | allt
            root = f.value
            while isinstance(root, (ast.Attribute, ast.Subscript)):
                root = root.value
            ismod = isinstance(root, ast.Name) and root.id in self.mod.imports
            if not ismod:
                # a method may store its arguments in its object
                if f.attr.endswith("_") or f.attr in ("append", "extend", "insert", "update", "add", "put", "write", "copy_", "pop", "register_buffer", "setdefault", "set_description", "step", "register_parameter", "add_module"):
                    if f.attr in ("register_buffer", "register_parameter", "add_module") and e.args and isinstance(e.args[0], ast.Constant):
                        self.store_attr("%s.%s" % (f.value.id if isinstance(f.value, ast.Name) else "?", e.args[0].value), allt)
                    else:
                        self.mutate(f.value, allt if f.attr in ("copy_", "zero_", "fill_") else allt | base)
            return base | allt
        if isinstance(f, ast.Name):
            if f.id in LIKE:
                return meta(allt)
            if f.id == "print":
                self.eff |= allt | self.ctrl()
                return NONE
            return allt | self.lookup(f.id)
        return allt | self.ev(f)

    # -- stores
    def mutate(self, e, t):
        """the storage e refers to now depends on t"""
        t = t | self.ctrl()
        k = None
        x = e
        while isinstance(x, (ast.Subscript, ast.Call)):
            x = x.value if isinstance(x, ast.Subscript) else (x.func.value if isinstance(x.func, ast.Attribute) else None)
            if x is None:
                return
        if isinstance(x, ast.Attribute):
            k = self.path(x)
            if k:
                self.store_attr(k, t, weak=True)
                x = ast.Name(id=k.split(".")[0])
                if self.self_ and k.startswith(self.self_ + "."):
                    return
        if not isinstance(x, ast.Name):
            return
        al = self.alias(x)
        if any(a.startswith("P:") for a in al):
            own = frozenset(a[2:] for a in al if a.startswith("P:"))
            self.eff |= t
        if x.id not in self.env and x.id not in self.al:
            self.eff |= t              # a module table
        for n in list(self.env):
            if n in al or self.al.get(n, NONE) & al or x.id in self.al.get(n, NONE):
                self.env[n] = self.env[n] | t
        self.env[x.id] = self.env.get(x.id, NONE) | t

    def store_attr(self, k, t, weak=False):
        t = t | self.ctrl()
        root, attr = k.split(".")[0], k.split(".")[1]
        if weak:
            self.env[k] = self.env.get(k, self.env.get(root, NONE)) | t
        else:
            self.env[k] = t
        if root == self.self_:
            self.attrs[attr] = self.attrs.get(attr, NONE) | t
        else:
            if any(a.startswith("P:") for a in self.al.get(root, NONE)):
                self.eff |= t
            self.env[root] = self.env.get(root, NONE) | t

    def bind(self, tg, t, al, weak=False):
        if isinstance(tg, ast.Name):
            t = t | self.ctrl()
            if tg.id in self.globals_:
                self.eff |= t
            self.env[tg.id] = (self.env.get(tg.id, NONE) | t) if weak else t
            self.al[tg.id] = al - frozenset([tg.id])
            for k in [k for k in self.env if k.startswith(tg.id + ".")]:
                del self.env[k]
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for x in tg.elts:
                self.bind(x, t, al, weak)
        elif isinstance(tg, ast.Starred):
            self.bind(tg.value, t, al, weak)
        elif isinstance(tg, ast.Attribute):
            k = self.path(tg)
            if k:
                self.store_attr(k, t)
            else:
                self.mutate(tg.value, t)
        elif isinstance(tg, ast.Subscript):
            self.mutate(tg.value, t | self.ev(tg.slice))

    # -- statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        if isinstance(st, ast.Assign):
            if len(st.targets) == 1 and isinstance(st.targets[0], (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) \
                    and len(st.targets[0].elts) == len(st.value.elts) and not any(isinstance(x, ast.Starred) for x in st.value.elts + st.targets[0].elts):
                ts = [(self.ev(v), self.alias(v)) for v in st.value.elts]
                for x, (t, al) in zip(st.targets[0].elts, ts):
                    self.bind(x, t, al)
                return
            t, al = self.ev(st.value), self.alias(st.value)
            for x in st.targets:
                self.bind(x, t, al)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.ev(st.value), self.alias(st.value))
        elif isinstance(st, ast.AugAssign):
            t = self.ev(st.value)
            if isinstance(st.target, ast.Name):
                self.mutate(st.target, t | self.lookup(st.target.id))
            elif isinstance(st.target, ast.Attribute):
                k = self.path(st.target)
                if k:
                    self.store_attr(k, t, weak=True)
            else:
                self.mutate(st.target.value, t | self.ev(st.target.slice) | self.ev(st.target.value))
        elif isinstance(st, ast.Return):
            self.ret |= self.ev(st.value) | self.ctrl()
        elif isinstance(st, ast.Expr):
            v = st.value
            t = self.ev(v)
            if isinstance(v, ast.Call) and self.an.resolve(self.mod, v.func, self.cls) is None and not isinstance(v.func, ast.Name):
                r = v.func
                while isinstance(r, (ast.Attribute, ast.Subscript, ast.Call)):
                    r = r.value if not isinstance(r, ast.Call) else r.func
                ismod = isinstance(r, ast.Name) and r.id in self.mod.imports
                mut = isinstance(v.func, ast.Attribute) and not ismod
                if mut:
                    self.mutate(v.func.value, t)
                    if not (isinstance(v.func.value, ast.Name) and v.func.value.id in self.env and not any(a.startswith("P:") for a in self.al.get(v.func.value.id, NONE))):
                        self.eff |= t | self.ctrl()
                else:
                    self.eff |= t | self.ctrl()
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("setattr", "exec", "next"):
                self.eff |= t | self.ctrl()
        elif isinstance(st, ast.If):
            known = self.truth(st.test) if self.fixed else None
            if known is not None:
                self.block(st.body if known else st.orelse)
                return
            t = self.ev(st.test)
            a, b = self.only_raises(st.body), self.only_raises(st.orelse) if st.orelse else False
            if a or b:
                # a refusal: what comes after does not depend on the test
                for body, r in ((st.body, a), (st.orelse, b)):
                    if not r:
                        self.block(body)
                return
            e0, a0 = dict(self.env), dict(self.al)
            self.ctl.append(t)
            self.block(st.body)
            e1, a1 = self.env, self.al
            self.env, self.al = dict(e0), dict(a0)
            self.block(st.orelse)
            self.ctl.pop()
            # a variable assigned on one side only also depends on the test
            for n in set(e1) | set(self.env):
                x, y = e1.get(n), self.env.get(n)
                if x != y:
                    self.env[n] = (x or NONE) | (y or NONE) | t
            for n in a1:
                self.al[n] = self.al.get(n, NONE) | a1[n]
            if self.leaves(st.body) or self.leaves(st.orelse):
                self.sticky |= t
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            for _ in range(3):
                it = self.ev(st.iter)
                e0, a0 = dict(self.env), dict(self.al)
                self.bind(st.target, it, self.alias(st.iter))
                self.ctl.append(meta(it))
                self.block(st.body)
                self.ctl.pop()
                self.join(e0, a0)
            if self.leaves(st.body):
                self.sticky |= it
            self.block(st.orelse)
        elif isinstance(st, ast.While):
            for _ in range(3):
                t = self.ev(st.test)
                e0, a0 = dict(self.env), dict(self.al)
                self.ctl.append(t)
                self.block(st.body)
                self.ctl.pop()
                self.join(e0, a0)
            if self.leaves(st.body):
                self.sticky |= t
            self.block(st.orelse)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                t = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, t, NONE)
                self.ctl.append(t)
            self.block(st.body)
            for i in st.items:
                self.ctl.pop()
        elif isinstance(st, ast.Try):
            e0, a0 = dict(self.env), dict(self.al)
            self.block(st.body)
            self.join(e0, a0)
            for h in st.handlers:
                e1, a1 = dict(self.env), dict(self.al)
                self.block(h.body)
                self.join(e1, a1)
            self.block(st.orelse)
            self.block(st.finalbody)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            own = {x.arg for x in st.args.args + st.args.kwonlyargs}
            fv = {n.id for n in ast.walk(st) if isinstance(n, ast.Name)} - own
            self.closures[st.name] = (fv, st)
            self.env[st.name] = NONE
        elif isinstance(st, (ast.Global, ast.Nonlocal)):
            self.globals_ |= set(st.names)
        elif isinstance(st, ast.Match):
            t = self.ev(st.subject)
            e0, a0 = dict(self.env), dict(self.al)
            acc = None
            self.ctl.append(t)
            for c in st.cases:
                self.env, self.al = dict(e0), dict(a0)
                if c.guard is not None:
                    self.ctl[-1] |= self.ev(c.guard)
                self.block(c.body)
                if acc:
                    self.join(*acc)
                acc = (self.env, self.al)
            self.ctl.pop()
            if any(self.leaves(c.body) and not self.only_raises(c.body) for c in st.cases):
                self.sticky |= t
        elif isinstance(st, ast.Delete):
            pass

    def truth(self, e):
        """value of a test of a fixed parameter"""
        if isinstance(e, ast.Name) and e.id in self.fixed and isinstance(self.fixed[e.id], bool):
            return self.fixed[e.id]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.truth(e.operand)
            return None if v is None else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.truth(x) for x in e.values]
            stop = isinstance(e.op, ast.Or)
            if stop in vs:
                return stop
            return None if None in vs else not stop
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and e.left.id in self.fixed:
            v, c = self.fixed[e.left.id], e.comparators[0]
            if isinstance(v, Unlisted) and not (isinstance(c, ast.Constant) and c.value is None):
                return None
            if isinstance(c, ast.Constant):
                if isinstance(e.ops[0], (ast.Eq, ast.Is)):
                    return v == c.value
                if isinstance(e.ops[0], (ast.NotEq, ast.IsNot)):
                    return v != c.value
            if isinstance(c, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) for x in c.elts):
                if isinstance(e.ops[0], ast.In):
                    return v in [x.value for x in c.elts]
                if isinstance(e.ops[0], ast.NotIn):
                    return v not in [x.value for x in c.elts]
        return None

    def join(self, e0, a0):
        for n, t in e0.items():
            self.env[n] = self.env.get(n, NONE) | t
        for n, t in a0.items():
            self.al[n] = self.al.get(n, NONE) | t

    @staticmethod
    def only_raises(body):
        """every way through the body ends in an exception and does nothing else"""
        if not body or not isinstance(body[-1], ast.Raise):
            return False
        return all(isinstance(s, (ast.Raise, ast.Expr, ast.Assign, ast.AnnAssign, ast.If)) for s in body)

    @staticmethod
    def leaves(body):
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, (ast.Return, ast.Break, ast.Continue)):
                    return True
        return False
