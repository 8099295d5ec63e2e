"""Parse the repository and resolve names."""
import ast
import hashlib
import os
import warnings

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "ebsdtorch"


class Mod:
    def __init__(self, name, path, rel, src, tree):
        self.name, self.path, self.rel, self.src, self.tree = name, path, rel, src, tree
        self.defs = {}       # name -> FunctionDef/ClassDef (top level)
        self.assigns = {}    # name -> list of (stmt)
        self.imports = {}    # local name -> ('mod', dotted) | ('from', dotted, attr)
        self.other = []      # top level executable statements
        self._scan(tree.body, top=True)

    def _scan(self, body, top):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._absmod(st)
                for a in st.names:
                    self.imports[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                tg = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tg:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self.assigns.setdefault(n.id, []).append(st)
            elif isinstance(st, ast.Try):
                self._scan(st.body, False)
                for h in st.handlers:
                    self._scan(h.body, False)
            elif isinstance(st, ast.If) and _is_main(st.test):
                pass
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                pass
            elif isinstance(st, ast.Pass):
                pass
            else:
                self.other.append(st)

    def _absmod(self, st):
        if st.level == 0:
            return st.module or ""
        parts = self.name.split(".")
        if not self.path.endswith("__init__.py"):
            parts = parts[:-1]
        parts = parts[: len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))


def _is_main(t):
    return (isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__")


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
        self.errors = []
        base = os.path.join(self.root, PKG)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = ast.parse(src, p)
                except SyntaxError as e:
                    self.errors.append((rel, str(e)))
                    continue
                self.mods[name] = Mod(name, p, rel, src, tree)

    def mod(self, name):
        return self.mods.get(name)

    def find(self, qual):
        """'ebsdtorch.a.b:func' or 'ebsdtorch.a.b:Class.method' -> (mod, node, clsnode)"""
        m, q = qual.split(":")
        mod = self.mods.get(m)
        if mod is None:
            return None
        parts = q.split(".")
        node = self.resolve_def(mod, parts[0])
        if node is None:
            return None
        mod, node = node
        if len(parts) == 1:
            return mod, node, None
        r = self.find_method(mod, node, parts[1])
        if r is None:
            return None
        return r[0], r[1], node

    def resolve_def(self, mod, name, depth=0):
        """follow re-exports"""
        if name in mod.defs:
            return mod, mod.defs[name]
        imp = mod.imports.get(name)
        if imp and imp[0] == "from" and depth < 6:
            m2 = self.mods.get(imp[1])
            if m2 is not None:
                return self.resolve_def(m2, imp[2], depth + 1)
        # alias assignment  f = g
        for st in mod.assigns.get(name, [])[-1:]:
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Name) and depth < 6:
                return self.resolve_def(mod, st.value.id, depth + 1)
        return None

    def find_method(self, mod, cls, name):
        for st in cls.body:
            if isinstance(st, ast.FunctionDef) and st.name == name:
                return mod, st
        for b in cls.bases:
            if isinstance(b, ast.Name):
                r = self.resolve_def(mod, b.id)
                if r and isinstance(r[1], ast.ClassDef):
                    q = self.find_method(r[0], r[1], name)
                    if q:
                        return q
        return None

    def all_functions(self):
        """yield (mod, qual, node, clsnode) for every top level function and method"""
        for mn in sorted(self.mods):
            m = self.mods[mn]
            for n, d in m.defs.items():
                if isinstance(d, ast.ClassDef):
                    for st in d.body:
                        if isinstance(st, ast.FunctionDef):
                            yield m, "%s:%s.%s" % (mn, n, st.name), st, d
                else:
                    yield m, "%s:%s" % (mn, n), d, None

    def digest(self):
        h = hashlib.sha256()
        for mn in sorted(self.mods):
            h.update(mn.encode())
            h.update(self.mods[mn].src.encode())
        return h.hexdigest()[:16]
