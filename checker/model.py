"""Program model: parses the repository's Python source into modules, classes and functions.

Nothing of the analysed program is imported or executed; only its syntax trees are read.
"""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")

ROOTS = [
    "src/configparserenhanced",
    "wip/setenvironment/src/setenvironment",
    "wip/keywordparser/keywordparser",
    "wip/determinesystem/determinesystem",
    "wip/loadenv",
    "wip/genconfig",
]
SKIP_DIRS = {"unittests", "tests", "doc", "docs", "examples", "__pycache__", ".git", "scripts"}


class AnchorMissing(Exception):
    """A public construct the properties are anchored on does not exist any more."""


class Func:
    __slots__ = ("node", "module", "cls", "name", "qual", "kind", "decorators", "parent", "variant")

    def __init__(self, node, module, cls=None, kind="function", parent=None, variant=0):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.kind = kind
        self.parent = parent
        self.variant = variant
        self.decorators = list(getattr(node, "decorator_list", []))
        base = cls.qual + "." if cls is not None else module.short + ":"
        self.qual = base + self.name

    @property
    def loc(self):
        return "%s:%d (%s)" % (self.module.rel, self.node.lineno, self.qual)

    def __repr__(self):
        return "<Func %s>" % self.qual


class Prop:
    """A property (getter, setter, deleter) or a typed_property declaration."""

    def __init__(self, name):
        self.name = name
        self.getter = None
        self.setter = None
        self.deleter = None
        self.typed = None  # the typed_property(...) Call node


class Class:
    def __init__(self, node, module, outer=None):
        self.node = node
        self.module = module
        self.outer = outer
        self.name = node.name
        self.qual = (outer.qual + "." if outer else "") + node.name
        self.methods = {}
        self.props = {}
        self.attrs = {}
        self.inner = {}
        self.base_names = [b for b in (dotted(x) for x in node.bases) if b]
        self.mro_cache = None

    def __repr__(self):
        return "<Class %s>" % self.qual


class Module:
    def __init__(self, path, rel, tree, src):
        self.path = path
        self.rel = rel
        self.tree = tree
        self.src = src
        self.short = os.path.splitext(os.path.basename(rel))[0]
        if self.short == "__init__":
            self.short = os.path.basename(os.path.dirname(rel))
        self.functions = {}   # name -> [Func, ...] (several when defined conditionally)
        self.classes = {}
        self.imports = {}     # local name -> dotted target
        self.star_imports = []
        self.globals = {}     # name -> [value expr]
        self.all_funcs = []


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return None if b is None else b + "." + node.attr
    return None


class Program:
    def __init__(self, repo=None, overlay=None):
        """overlay: {relpath: source} replaces file contents (used for in-memory mutants)."""
        self.repo = repo or REPO
        self.modules = {}
        self.classes = {}        # simple name -> [Class]
        self.by_qual = {}
        self.overlay = overlay = overlay or {}
        seen = set()
        for root in ROOTS:
            base = os.path.join(self.repo, root)
            if not os.path.isdir(base):
                continue
            for d, dirs, files in os.walk(base):
                dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
                for f in sorted(files):
                    if not f.endswith(".py") or f.startswith("___") or f in ("conftest.py",) or f.startswith("test_"):
                        continue
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.repo)
                    if rel in seen or os.path.islink(p):
                        continue
                    seen.add(rel)
                    if rel in overlay:
                        src = overlay[rel]
                    else:
                        with open(p, encoding="utf-8") as fp:
                            src = fp.read()
                    self._load(p, rel, src)
        for m in self.modules.values():
            for c in m.classes.values():
                self._register(c)

    def _register(self, c):
        self.classes.setdefault(c.name, []).append(c)
        self.by_qual[c.qual] = c
        for i in c.inner.values():
            self._register(i)

    # -- loading --------------------------------------------------------
    def _load(self, path, rel, src):
        tree = ast.parse(src, filename=rel)
        m = Module(path, rel, tree, src)
        self.modules[rel] = m
        self._scan_body(m, tree.body)

    def _scan_body(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                lst = m.functions.setdefault(st.name, [])
                fn = Func(st, m, variant=len(lst))
                lst.append(fn)
                m.all_funcs.append(fn)
            elif isinstance(st, ast.ClassDef):
                m.classes[st.name] = self._scan_class(m, st, None)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                modname = "." * st.level + (st.module or "")
                for a in st.names:
                    if a.name == "*":
                        m.star_imports.append(modname)
                    else:
                        m.imports[a.asname or a.name] = (modname + "." if not modname.endswith(".") else modname) + a.name
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.globals.setdefault(t.id, []).append(st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.globals.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.If):
                self._scan_body(m, st.body)
                self._scan_body(m, st.orelse)
            elif isinstance(st, ast.Try):
                self._scan_body(m, st.body)
                for h in st.handlers:
                    self._scan_body(m, h.body)
                self._scan_body(m, st.orelse)
                self._scan_body(m, st.finalbody)
            elif isinstance(st, ast.With):
                self._scan_body(m, st.body)

    def _scan_class(self, m, node, outer):
        c = Class(node, m, outer)
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = "method"
                pname = None
                for d in st.decorator_list:
                    dn = dotted(d) or (dotted(d.func) if isinstance(d, ast.Call) else None)
                    if dn in ("property", "functools.cached_property", "cached_property"):
                        kind, pname = "getter", st.name
                    elif dn and dn.endswith(".setter"):
                        kind, pname = "setter", dn.split(".")[0]
                    elif dn and dn.endswith(".deleter"):
                        kind, pname = "deleter", dn.split(".")[0]
                    elif dn and dn.endswith(".getter"):
                        kind, pname = "getter", dn.split(".")[0]
                    elif dn == "staticmethod":
                        kind = "static"
                    elif dn == "classmethod":
                        kind = "classmethod"
                fn = Func(st, m, c, kind)
                m.all_funcs.append(fn)
                if pname is not None:
                    p = c.props.setdefault(pname, Prop(pname))
                    setattr(p, kind, fn)
                else:
                    c.methods[st.name] = fn
            elif isinstance(st, ast.ClassDef):
                c.inner[st.name] = self._scan_class(m, st, c)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                targets = st.targets if isinstance(st, ast.Assign) else [st.target]
                if st.value is None:
                    continue
                for t in targets:
                    if not isinstance(t, ast.Name):
                        continue
                    v = st.value
                    if isinstance(v, ast.Call):
                        dn = dotted(v.func) or ""
                        if dn.split(".")[-1] == "typed_property":
                            p = c.props.setdefault(t.id, Prop(t.id))
                            p.typed = v
                            continue
                        if dn == "property":
                            p = c.props.setdefault(t.id, Prop(t.id))
                            names = ["getter", "setter", "deleter"]
                            kw = {"fget": "getter", "fset": "setter", "fdel": "deleter"}
                            for i, a in enumerate(v.args[:3]):
                                if isinstance(a, ast.Name) and a.id in c.methods:
                                    setattr(p, names[i], c.methods[a.id])
                            for k in v.keywords:
                                if k.arg in kw and isinstance(k.value, ast.Name) and k.value.id in c.methods:
                                    setattr(p, kw[k.arg], c.methods[k.value.id])
                            continue
                    if isinstance(v, ast.Name) and v.id in c.methods:
                        c.methods[t.id] = c.methods[v.id]
                        continue
                    c.attrs[t.id] = v
        return c

    # -- lookups --------------------------------------------------------
    def cls(self, name, required=True):
        if name in self.by_qual:
            return self.by_qual[name]
        l = self.classes.get(name.split(".")[-1])
        if l:
            return l[0]
        if required:
            raise AnchorMissing("class %s not found" % name)
        return None

    def mro(self, c):
        if c.mro_cache is None:
            out = [c]
            for b in c.base_names:
                bc = self.cls(b, required=False)
                if bc is not None and bc is not c:
                    for x in self.mro(bc):
                        if x in out:
                            out.remove(x)
                        out.append(x)
            c.mro_cache = out
        return c.mro_cache

    def external_bases(self, c):
        return [b for k in self.mro(c) for b in k.base_names if self.cls(b, required=False) is None and b != "object"]

    def find_member(self, c, name, after=None):
        """-> ('method', Func) | ('prop', Prop) | ('attr', expr, Class) | ('inner', Class) | None"""
        skip = after is not None
        for k in self.mro(c):
            if skip:
                if k is after:
                    skip = False
                continue
            # name mangling is applied by the caller; the class body holds the plain name
            pre = "_" + k.name.lstrip("_") + "__"
            if name.startswith(pre) and name not in k.props and name not in k.methods:
                plain = name[len(pre) - 2:]
                if plain in k.props:
                    return ("prop", k.props[plain], k)
                if plain in k.methods:
                    return ("method", k.methods[plain], k)
                if plain in k.attrs:
                    return ("attr", k.attrs[plain], k)
            if name in k.props:
                p = k.props[name]
                if p.typed is None and (p.getter is None) and name in k.methods:
                    pass
                return ("prop", p, k)
            if name in k.methods:
                return ("method", k.methods[name], k)
            if name in k.attrs:
                return ("attr", k.attrs[name], k)
            if name in k.inner:
                return ("inner", k.inner[name], k)
        return None

    def subclasses(self, c):
        return [k for k in self.by_qual.values() if c in self.mro(k)]

    def method(self, cname, name, required=True):
        c = self.cls(cname, required)
        if c is None:
            return None
        r = self.find_member(c, name)
        if r is None or r[0] not in ("method",):
            if required:
                raise AnchorMissing("method %s.%s not found" % (cname, name))
            return None
        return r[1]

    def prop(self, cname, name, required=True):
        c = self.cls(cname, required)
        r = self.find_member(c, name) if c else None
        if r is None or r[0] != "prop":
            if required:
                raise AnchorMissing("property %s.%s not found" % (cname, name))
            return None
        return r[1]

    def module_named(self, short):
        for m in self.modules.values():
            if m.short == short and not m.rel.endswith("__init__.py"):
                return m
        for m in self.modules.values():
            if m.short == short:
                return m
        return None

    def function(self, modshort, name, required=True, variant=0):
        cand = [m for m in self.modules.values() if m.short == modshort]
        for m in cand:
            if name in m.functions and len(m.functions[name]) > variant:
                return m.functions[name][variant]
        # moved to another module of the program?
        for m in self.modules.values():
            if name in m.functions and len(m.functions[name]) > variant:
                return m.functions[name][variant]
        if required:
            raise AnchorMissing("function %s.%s not found" % (modshort, name))
        return None

    def resolve_import(self, m, target):
        """dotted import target -> ('cls',Class)|('func',[Func])|('mod',Module)|('glob',Module,name)|None"""
        last = target.rstrip(".").split(".")[-1]
        modpart = target[: -len(last)].rstrip(".") if target.endswith(last) else ""
        modlast = modpart.split(".")[-1] if modpart else ""
        # prefer the named module
        mods = [x for x in self.modules.values() if x.short == modlast] if modlast else []
        if target.startswith(".") and not modlast:
            d = os.path.dirname(m.rel)
            mods = [x for x in self.modules.values() if os.path.dirname(x.rel) == d]
        for x in mods:
            if last in x.classes:
                return ("cls", x.classes[last])
            if last in x.functions:
                return ("func", x.functions[last])
            if last in x.globals:
                return ("glob", x, last)
        for x in mods:
            # package __init__ re-exporting
            if last in x.imports and x is not m:
                r = self.resolve_import(x, x.imports[last])
                if r:
                    return r
        prog_related = target.startswith(".") or any(
            modpart.split(".")[0] == os.path.basename(os.path.dirname(x.rel)) or modpart.split(".")[-1] == x.short
            for x in self.modules.values())
        if prog_related or modpart.split(".")[0] in ("LoadEnv", "src", "keywordparser", "determinesystem",
                                                     "configparserenhanced", "setenvironment", "loadenv"):
            if last in self.classes:
                return ("cls", self.classes[last][0])
            for x in self.modules.values():
                if last in x.functions:
                    return ("func", x.functions[last])
            x = self.module_named(last)
            if x is not None:
                return ("mod", x)
        if not modpart:
            # ``import name``
            x = self.module_named(last)
            if x is not None and not x.rel.endswith("version.py"):
                return ("mod", x)
        return None

    def resolve_name(self, m, name, _depth=0):
        """Resolve a global name in module m to a program entity or ('ext', dotted)."""
        if name in m.classes:
            return ("cls", m.classes[name])
        if name in m.functions:
            return ("func", m.functions[name])
        if name in m.imports:
            r = self.resolve_import(m, m.imports[name])
            if r:
                return r
            return ("ext", m.imports[name].lstrip("."))
        if name in m.globals:
            return ("glob", m, name)
        for s in m.star_imports:
            last = s.split(".")[-1]
            for x in self.modules.values():
                if x is m:
                    continue
                if x.short == last or os.path.basename(os.path.dirname(x.rel)) == last:
                    if name in x.classes:
                        return ("cls", x.classes[name])
                    if name in x.functions:
                        return ("func", x.functions[name])
        return None

    def all_functions(self):
        for m in self.modules.values():
            for f in m.all_funcs:
                yield f
