"""Call handling of the abstract interpreter (see engine.py)."""
import posixpath
import ast
import builtins as _bi
import re as _re

from model import Func, dotted
from terms import *   # noqa: F401,F403
from exprs import STR_FOLD, BUILTIN_TYPES

TRANSPARENT_DECORATORS = {"property", "staticmethod", "classmethod", "abstractmethod", "abc.abstractmethod", "functools.wraps",
                          "wraps", "functools.lru_cache", "lru_cache", "functools.cache", "cache", "contextlib.contextmanager",
                          "contextmanager", "cached_property", "functools.cached_property", "typing.no_type_check", "override"}
CONTEXTMANAGER = {"contextlib.contextmanager", "contextmanager"}


class CallMixin:
    # ------------------------------------------------------------ calls
    def ev_Call(self, n, st, fid):
        out = []
        if isinstance(n.func, ast.Name) and n.func.id == "super" and self.lookup_kind("super", st, fid):
            return [(st, "v", self.super_value(st, fid, n))]
        if isinstance(n.func, ast.Name) and n.func.id == "locals" and not n.args:
            if "ext:locals" in self.opaque:
                return self.opaque["ext:locals"](self, st, "locals", [], {}, n, fid)
            return [(st, "v", ("top", "locals"))]
        for (s, k, f) in self.ev(n.func, st, fid):
            if k == "x":
                out.append((s, k, f))
                continue
            nodes = [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [kw.value for kw in n.keywords]
            for (s2, k2, vs) in self.ev_many(nodes, s, fid):
                if k2 == "x":
                    out.append((s2, k2, vs))
                    continue
                args = []
                for a, v in zip(n.args, vs):
                    if isinstance(a, ast.Starred):
                        items = self.known_items(s2, v)
                        if items is not None:
                            args.extend(items)
                        else:
                            args.append(("star", v))
                    else:
                        args.append(v)
                kwargs = {}
                for kw, v in zip(n.keywords, vs[len(n.args):]):
                    if kw.arg is None:
                        if v[0] == "o" and s2.heap[v[1]].kind == "dict" and all(
                                x[0] == "kv" and is_str_c(x[1]) for x in s2.heap[v[1]].items) and s2.heap[v[1]].fresh:
                            for x in s2.heap[v[1]].items:
                                kwargs[x[1][2]] = x[2]
                        else:
                            kwargs["**"] = v
                    else:
                        kwargs[kw.arg] = v
                out.extend(self.call_value(s2, f, args, kwargs, n, fid))
        return self.merge_val(out)

    def lookup_kind(self, name, st, fid):
        return True

    def super_value(self, st, fid, n):
        f = self.frame_info[fid][0]
        fr = fid
        while f is not None and f.cls is None:
            fr = self.frame_info[fr][2]
            if fr is None:
                raise Imprecise("super() outside a class")
            f = self.frame_info[fr][0]
        selfname = f.node.args.args[0].arg
        sv = st.frames[fr][selfname]
        cls = f.cls
        if sv[0] == "o":
            cls = st.heap[sv[1]].cls
        elif sv[0] == "cls":
            cls = self.p.by_qual[sv[1]]
        return ("super", sv, cls, f.cls)

    def call_value(self, st, f, args, kwargs, node, fid):
        self.tick()
        k = f[0]
        if k == "fn":
            func, frame = self.closures[f[1]]
            raw = f[1][0] == "Fraw"
            return self.call_func(st, func, args, kwargs, node, fid, closure=frame, raw=raw)
        if k == "bm":
            if f[2][0] == "cm":
                return self.call_container(st, f[1], f[2][1], args, kwargs, node, fid)
            if f[2][0] == "fn" and f[1][0] not in ("o", "cls"):
                func = self.func_of(f)
                return self.call_opaque(st, func, [f[1]] + args, kwargs, node, fid, "event")
            return self.call_value(st, f[2], [f[1]] + args, kwargs, node, fid)
        if k == "partial":
            kw = dict(f[3])
            kw.update(kwargs)
            return self.call_value(st, f[1], list(f[2]) + args, kw, node, fid)
        if k == "cls":
            return self.instantiate(st, f, args, kwargs, node, fid)
        if k == "ext":
            return self.call_ext(st, f[1], args, kwargs, node, fid)
        if k == "attr":
            return self.call_method_opaque(st, f[1], f[2], args, kwargs, node, fid)
        if k == "propupd" and args:
            i = {"getter": 1, "setter": 2, "deleter": 3}[f[2]]
            po = list(f[1])
            po[i] = args[0]
            return [(st, "v", tuple(po))]
        if k == "dispatch":     # rule-provided callable: a finite set of alternatives
            out = []
            for alt in f[1]:
                out.extend(self.call_value(st.copy(), alt, args, kwargs, node, fid))
            return out
        s = st.copy()
        self.emit(s, "callv", (f, tuple(self.reify(s, a) for a in args), self.kwt(s, kwargs), self.snap(s, args, kwargs)), node, fid)
        r = ("res", "callv", self.uid(s, node, fid, "res"))
        return self.maybe_raise(s, r, "callv")

    def snap(self, st, args, kwargs):
        """fields of the instances handed to an opaque call, as they are at the call"""
        out = []
        for a in list(args) + list(kwargs.values()):
            if a[0] == "o" and a[1] != "self":
                h = st.heap.get(a[1])
                if h is not None and h.kind == "inst" and h.cls is not None and (h.fresh or a[1] in self.snap_objs):
                    out.append((a[1], h.cls.qual, tuple(sorted((k, self.snapv(st, v)) for k, v in h.fields.items()))))
        return ("snap", tuple(out))

    def snapv(self, st, v):
        r = self.reify(st, v)
        if r[0] != v[0]:
            return ("snapped", r, v)      # contents and identity
        return r

    def kwt(self, st, kwargs):
        return tuple(sorted((k, self.reify(st, v)) for k, v in kwargs.items()))

    def maybe_raise(self, st, r, name, force=False):
        out = [(st, "v", r)]
        if force or self.implicit or self.try_depth > 0 and not self.calm:
            s2 = st.copy()
            out.append((s2, "x", ("anyexc", name)))
        return out

    # ---- program functions
    def method_value(self, st, func):
        return self.func_value(func)

    def deco_names(self, func):
        out = []
        for d in func.decorators:
            out.append(dotted(d) or (dotted(d.func) if isinstance(d, ast.Call) else None))
        return out

    def _needs_decoration(self, func):
        if func.kind in ("nested", "lambda"):
            return False
        for dn in self.deco_names(func):
            if dn is None or (dn not in TRANSPARENT_DECORATORS and not dn.endswith((".setter", ".getter", ".deleter"))):
                return True
        return False

    def _decorated(self, st, func):
        key = ("Fraw", id(func.node), None)
        self.closures[key] = (func, None)
        gf = ("gf", func.module.rel)
        s = st.copy()
        s.frames.setdefault(gf, {})
        self.frame_info[gf] = (None, func.module, None, None)
        res = [(s, "v", ("fn", key))]
        for d, dn in reversed(list(zip(func.decorators, self.deco_names(func)))):
            if dn is not None and (dn in TRANSPARENT_DECORATORS or dn.endswith((".setter", ".getter", ".deleter"))):
                continue
            nr = []
            for (s1, k, v) in res:
                if k == "x":
                    nr.append((s1, k, v))
                    continue
                for (s2, k2, dv) in self.deco_value(d, s1, func, gf):
                    if k2 == "x":
                        nr.append((s2, k2, dv))
                    elif dv[0] in ("ext", "pc", "res", "attr"):
                        nr.append((s2, "v", v))
                    else:
                        nr.extend(self.call_value(s2, dv, [v], {}, d, gf))
            res = nr
        return res

    def deco_value(self, d, st, func, gf):
        # decorators defined in the class body resolve through the class
        if isinstance(d, ast.Name) and func.cls is not None:
            r = self.p.find_member(func.cls, d.id)
            if r is not None and r[0] == "method":
                return [(st, "v", self.func_value(r[1]))]
        return self.ev(d, st, gf)

    def opaque_spec(self, func):
        for key in (func.qual, func.name):
            if key in self.opaque:
                return self.opaque[key]
        if self.opaque_default is not None:
            return self.opaque_default(func)
        return None

    def call_opaque(self, st, func, args, kwargs, node, fid, spec):
        if callable(spec):
            r = spec(self, st, func, args, kwargs, node, fid)
            if r is not None:
                return r
            spec = "event"
        if spec == "silent":
            return [(st, "v", NONE)]
        s = st.copy()
        ra = tuple(self.reify(s, a) for a in args)
        kw = self.kwt(s, kwargs)
        if spec == "pure":
            return [(s, "v", ("call", func.qual, ra, kw))]
        uid = self.uid(s, node, fid, "res")
        self.emit(s, "call", (func.qual, ra, kw, uid, self.snap(s, args, kwargs)), node, fid)
        r = ("res", func.name, uid)
        if spec == "noraise":
            return [(s, "v", r)]
        return self.maybe_raise(s, r, func.name)

    def is_generator(self, func):
        k = id(func.node)
        if k not in self.gen_cache:
            r = False
            stack = list(func.node.body) if isinstance(func.node.body, list) else [func.node.body]
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                    continue
                stack.extend(ast.iter_child_nodes(x))
            self.gen_cache[k] = r
        return self.gen_cache[k]

    def call_func(self, st, func, args, kwargs, node, fid, inline_always=False, closure=None, raw=False, hook=None):
        self.calls_seen += 1
        if not inline_always and hook is None:
            spec = self.opaque_spec(func)
            if spec is not None and spec != "inline":
                return self.call_opaque(st, func, args, kwargs, node, fid, spec)
        if not raw and self._needs_decoration(func):
            out = []
            for (s, k, v) in self._decorated(st, func):
                if k == "x":
                    out.append((s, k, v))
                else:
                    out.extend(self.call_value(s, v, args, kwargs, node, fid))
            return out
        if hook is None and any(d in CONTEXTMANAGER for d in self.deco_names(func)):
            return [(st, "v", ("cmgr", id(func.node), tuple(args), tuple(sorted(kwargs.items())), closure))] \
                if self.remember_cm(func) else []
        if self.callstack.count(id(func.node)) >= 1 and not (isinstance(func.node, ast.Lambda)):
            s = st.copy()
            ra = tuple(self.reify(s, a) for a in args)
            uid = self.uid(s, node, fid, "res")
            self.emit(s, "rec", (func.qual, ra, self.kwt(s, kwargs), uid, self.snap(s, args, kwargs)), node, fid)
            # the recursive call may change what it is handed
            return self.maybe_raise(s, ("res", func.name, uid), func.name)
        if len(self.callstack) > self.max_depth:
            raise Imprecise("call depth")
        self.funcs_seen.add(func.qual)
        s = st.copy()
        nf = ("f",) + self.uid(s, node if node is not None else func.node, fid, "frame:" + func.qual)
        self.frame_info[nf] = (func, func.module, closure, func.cls)
        s.frames[nf] = {}
        if hook is not None:
            self.yield_hooks[nf] = hook
        bound = self.bind(s, nf, func, args, kwargs, closure)
        out = []
        for (s1, k, v) in bound:
            if k == "x":
                out.append((s1, k, v))
                continue
            gen = hook is None and self.is_generator(func)
            if gen:
                y = self.new_obj(s1, "list", func.node, nf, tag="yield")
                s1.setvar(nf, "$yield", y)
            self.callstack.append(id(func.node))
            try:
                if isinstance(func.node, ast.Lambda):
                    res = self.ev(func.node.body, s1, nf)
                    res = [(s2, ("return", v2) if k2 == "v" else ("raise", v2)) for (s2, k2, v2) in res]
                else:
                    res = self.exec_block(func.node.body, s1, nf)
            finally:
                self.callstack.pop()
            for (s2, oc) in res:
                s2 = s2.copy()
                yv = s2.frames.get(nf, {}).get("$yield")
                if nf not in self.closure_frames:
                    s2.frames.pop(nf, None)
                if oc[0] == "raise":
                    out.append((s2, "x", oc[1]))
                elif gen:
                    out.append((s2, "v", yv))
                elif oc[0] == "return":
                    out.append((s2, "v", oc[1]))
                else:
                    out.append((s2, "v", NONE))
        keep = set(st.heap)
        for r in out:
            self.gc(r[0], r[2], keep)
        return self.merge_val(out)

    def remember_cm(self, func):
        self.cm_funcs[id(func.node)] = func
        return True

    def gc(self, st, val, keep):
        """drop objects the finished call created and nothing refers to, so that equal partitions merge"""
        if all(o in keep for o in st.heap):
            return
        live = set()
        stack = []

        def scan(t):
            for x in subterms(t):
                if x[0] == "o" and x[1] in st.heap and x[1] not in live:
                    live.add(x[1])
                    stack.append(x[1])
        if isinstance(val, tuple):
            scan(val)
        for fr in st.frames.values():
            for v in fr.values():
                scan(v)
        for kk, v in st.ext.items():
            scan(kk)
            scan(v)
        for v in st.exc:
            scan(v)
        for oid, h in st.heap.items():
            if (not h.fresh or isinstance(oid, str) or h.shared or oid in keep) and oid not in live:
                live.add(oid)
                stack.append(oid)
        while stack:
            h = st.heap[stack.pop()]
            for v in h.fields.values():
                scan(v)
            for x in h.items:
                scan(x)
        dead = [o for o in st.heap if o not in live]
        # closures keep their frames, frames are scanned above
        for o in dead:
            del st.heap[o]

    def bind(self, st, nf, func, args, kwargs, closure):
        a = func.node.args
        pos = list(a.posonlyargs) + list(a.args)
        vals = {}
        extra = []
        args = list(args)
        i = 0
        for v in args:
            if v[0] == "star":
                # unknown number of positional arguments
                while i < len(pos):
                    vals[pos[i].arg] = ("sub", v[1], C(i))
                    i += 1
                continue
            if i < len(pos):
                vals[pos[i].arg] = v
                i += 1
            else:
                extra.append(v)
        kw = dict(kwargs)
        spread = kw.pop("**", None)
        names = {p.arg for p in pos} | {p.arg for p in a.kwonlyargs}
        left = {}
        for k, v in kw.items():
            if k in names:
                if k in vals:
                    return [(st, "x", ("exc", "TypeError", (C("multiple values"),)))]
                vals[k] = v
            else:
                left[k] = v
        if extra and a.vararg is None:
            return [(st, "x", ("exc", "TypeError", (C("too many arguments"),)))]
        if left and a.kwarg is None:
            return [(st, "x", ("exc", "TypeError", (C("unexpected keyword"),)))]
        cur = [(st, "v", None)]
        defaults = dict(zip([p.arg for p in pos][len(pos) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        for p in pos + list(a.kwonlyargs):
            if p.arg in vals:
                continue
            if p.arg in defaults:
                if spread is not None:
                    vals[p.arg] = ("kwsub", spread, p.arg)
                    continue
                d = defaults[p.arg]
                if isinstance(d, ast.Constant):
                    vals[p.arg] = C(d.value)
                else:
                    oid = ("dflt", func.qual, p.arg)
                    if oid in st.heap:
                        vals[p.arg] = ("o", oid)
                        continue
                    ef = closure
                    if ef is None:
                        ef = ("gf", func.module.rel)
                        st.frames.setdefault(ef, {})
                        self.frame_info[ef] = (None, func.module, None, None)
                    res = self.ev(d, st, ef)
                    st2, k2, v = res[0]
                    if len(res) != 1 or k2 != "v":
                        v = ("top", "default")
                    elif v[0] == "o":
                        h = st2.heap[v[1]]
                        st2.heap.pop(v[1])
                        h2 = HObj(h.kind, h.cls, h.fresh, False, h.fields, h.items)
                        h2.shared = True
                        st2.heap[oid] = h2
                        v = ("o", oid)
                    st.heap.update(st2.heap)
                    st.alloc.update(st2.alloc)
                    vals[p.arg] = v
            elif spread is not None:
                vals[p.arg] = ("kwsub", spread, p.arg)
            else:
                return [(st, "x", ("exc", "TypeError", (C("missing argument " + p.arg),)))]
        if a.vararg is not None:
            vals[a.vararg.arg] = ("tuple", tuple(extra))
        if a.kwarg is not None:
            d = self.new_obj(st, "dict", func.node, nf, items=[("kv", C(k), v) for k, v in left.items()], tag="kw")
            if spread is not None:
                self.dict_update(st, d, spread, func.node, nf)
            vals[a.kwarg.arg] = d
        for k, v in vals.items():
            st.setvar(nf, k, v)
        return cur

    def instantiate(self, st, f, args, kwargs, node, fid):
        c = self.p.by_qual.get(f[1])
        ext = self.p.external_bases(c)
        if any(b.split(".")[-1].endswith(("Exception", "Error", "Warning")) for b in ext):
            return [(st, "v", ("exc", c.qual, tuple(self.reify(st, a) for a in args)))]
        spec = self.opaque.get(c.qual)
        if spec is not None:
            if callable(spec):
                r = spec(self, st, c, args, kwargs, node, fid)
                if r is not None:
                    return r
            s = st.copy()
            uid = self.uid(s, node, fid, "new")
            self.emit(s, "new", (c.qual, tuple(self.reify(s, a) for a in args), self.kwt(s, kwargs), uid), node, fid)
            return self.maybe_raise(s, ("s", uid, c.qual), c.qual)
        s = st.copy()
        o = self.new_obj(s, "inst", node, fid, cls=c, tag=c.qual)
        r = self.p.find_member(c, "__init__")
        if r is None or r[0] != "method":
            return [(s, "v", o)]
        return [(s2, k, o if k == "v" else v) for (s2, k, v) in self.call_func(s, r[1], [o] + args, kwargs, node, fid)]

    # ---- methods of values the program does not define
    def call_method_opaque(self, st, b, name, args, kwargs, node, fid):
        r = self.method_specs.get(name)
        if r is not None:
            out = r(self, st, b, name, args, kwargs, node, fid)
            if out is not None:
                return out
        if b[0] == "pp":
            r = self.path_method(st, b, name, args, kwargs, node, fid)
            if r is not None:
                return r
        if b[0] in ("rx", "rem"):
            r = self.fold_method(st, b, name, args, kwargs, node, fid)
            if r is not None:
                return r
        if name == "join" and len(args) == 1:
            j = self.fold_join(st, b, args[0])
            if j is not None:
                return [(st, "v", j)]
        if b[0] == "attr" and b[2] == "__dict__" and args and is_str_c(args[0]) and name in ("pop", "get", "setdefault", "__contains__"):
            return self.instance_dict(st, b[1], name, args, node, fid)
        if name == "setdefault" and args and not kwargs:
            b2 = self.norm_container(b)
            d = args[1] if len(args) > 1 else NONE
            f = st.facts.get(("cmp", "In", args[0], b2))
            if f is None and (b2, args[0]) in st.ext:
                f = True
            out = []
            for yes in (True, False):
                if f in (None, yes):
                    s = st.copy()
                    s.facts[("cmp", "In", args[0], b2)] = yes
                    out.append((s, "v", self.sub(s, b2, args[0])) if yes else (self.set_item(s, b2, args[0], d, node, fid), "v", d))
            return out
        if name in MUTATORS:
            s = st.copy()
            self.mutate_opaque(s, b, name, args, node, fid)
            if name in ("pop", "popitem", "setdefault", "popleft"):
                return [(s, "v", ("res", name, self.uid(s, node, fid, "res")))]
            return [(s, "v", NONE)]
        if name == "get" and args:
            b2 = self.norm_container(b)
            key = (b2, args[0])
            if key in st.ext:
                return [(st, "v", st.ext[key])]
            d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
            f = st.facts.get(("cmp", "In", args[0], b2))
            if f is True:
                return [(st, "v", self.sub(st, b2, args[0]))]
            if f is False:
                return [(st, "v", d)]
            if b2[0] == "ext" or self.split_get:
                s1, s2 = st.copy(), st.copy()
                s1.facts[("cmp", "In", args[0], b2)] = True
                s2.facts[("cmp", "In", args[0], b2)] = False
                return [(s1, "v", self.sub(s1, b2, args[0])), (s2, "v", d)]
        if name in PURE_METHODS:
            v = ("pm", name, self.reify(st, b), tuple(self.reify(st, a) for a in args)) + ((self.kwt(st, kwargs),) if kwargs else ())
            if name in FALLIBLE_METHODS and (self.implicit or self.try_depth > 0 and not self.calm):
                s2 = st.copy()
                return [(st, "v", v), (s2, "x", ("anyexc", name))]
            return [(st, "v", v)]
        s = st.copy()
        uid = self.uid(s, node, fid, "res")
        self.emit(s, "xm", (name, b, tuple(self.reify(s, a) for a in args), self.kwt(s, kwargs), uid), node, fid)
        return self.maybe_raise(s, ("res", name, uid), name)

    def instance_dict(self, st, obj, name, args, node, fid):
        """obj.__dict__.<name>(attribute, ...)"""
        out = []
        for (s, kk, hv) in self.x_hasattr(st, [obj, args[0]], {}, node, fid):
            if name == "__contains__":
                out.append((s, kk, hv))
                continue
            for (s2, yes) in self.truth(s, hv):
                if not yes:
                    if name == "setdefault":
                        v = args[1] if len(args) > 1 else NONE
                        out.extend((s3, k3, v if k3 == "v" else x) for (s3, k3, x) in self.set_attr(s2, obj, args[0][2], v, node, fid))
                    elif len(args) > 1 or name == "get":
                        out.append((s2, "v", args[1] if len(args) > 1 else NONE))
                    else:
                        out.append((s2, "x", ("exc", "KeyError", (args[0],))))
                    continue
                for (s3, k3, v) in self.get_attr(s2, obj, args[0][2], node, fid):
                    if name != "pop" or k3 == "x":
                        out.append((s3, k3, v))
                    else:
                        out.extend((s4, k4, v if k4 == "v" else x) for (s4, k4, x) in self.del_attr(s3, obj, args[0][2], node, fid))
        return out

    def x_vars(self, st, args, kwargs, node, fid):
        return [(st, "v", ("attr", args[0], "__dict__"))] if len(args) == 1 else None

    def fold_join(self, st, sep, lst):
        items = None
        if lst[0] == "tuple":
            items = [("i", x) for x in lst[1]]
        elif lst[0] == "o" and st.heap[lst[1]].kind in ("list",):
            items = list(st.heap[lst[1]].items)
        elif lst[0] == "L":
            items = list(lst[1:])
        elif lst[0] == "o" and st.heap[lst[1]].kind == "dict":
            k = self.elements(st, lst)
            items = None if k is None else [("i", x) for x in k]
        if items is None:
            return None
        parts = []
        simple = all(x[0] == "i" for x in items)
        if simple:
            for i, x in enumerate(items):
                if i:
                    parts.append(sep)
                parts.append(self.reify(st, x[1]))
            return cat(parts) if parts else C("")
        return ("join", self.reify(st, sep), ("L",) + tuple(self.reify_seg(st, x, 0) for x in items))

    def call_container(self, st, b, name, args, kwargs, node, fid):
        r = self.method_specs.get(name)
        if r is not None:
            out = r(self, st, b, name, args, kwargs, node, fid)
            if out is not None:
                return out
        if is_str_c(b) and name == "format":
            r = self.fold_format(st, b, args, kwargs)
            if r is not None:
                return [(st, "v", r)]
        if name == "join" and len(args) == 1:
            j = self.fold_join(st, b, args[0])
            if j is not None:
                return [(st, "v", j)]
        if is_str_c(b) and name in STR_FOLD and not kwargs and all(is_c(a) or name in ("startswith", "endswith") and a[0] == "tuple" and all(is_str_c(x) for x in a[1]) for a in args):
            try:
                v = getattr(b[2], name)(*[a[2] if is_c(a) else tuple(x[2] for x in a[1]) for a in args])
            except Exception:
                return [(st, "x", ("exc", "ValueError", ()))]
            return [self.const_value(st, v, node, fid)]
        if b[0] == "o":
            h = st.heap[b[1]]
            s = st.copy()
            rec = (not h.fresh) or h.shared or self.record_fresh
            if rec and name in MUTATORS:
                self.emit(s, "mut", (name, b, tuple(self.reify(s, a) for a in args)), node, fid)
            if h.kind in ("list", "set"):
                if name in ("append", "add"):
                    if h.kind == "set" and ("i", args[0]) in h.items:
                        return [(s, "v", NONE)]
                    s.heap[b[1]] = h.with_items(h.items + (("i", args[0]),))
                    return [(s, "v", NONE)]
                if name in ("extend", "update"):
                    segs = []
                    for a in args:
                        segs.extend(self.segments_of(s, a, node, fid))
                    h = s.heap[b[1]]
                    if h.kind == "set":
                        segs = [x for x in segs if x not in h.items]
                    s.heap[b[1]] = h.with_items(h.items + tuple(segs))
                    return [(s, "v", NONE)]
                if name == "insert" and is_int_c(args[0]) and cval(args[0]) == 0:
                    s.heap[b[1]] = h.with_items((("i", args[1]),) + h.items)
                    return [(s, "v", NONE)]
                if name == "insert" and is_int_c(args[0]) and all(x[0] == "i" for x in h.items):
                    it = list(h.items)
                    it.insert(cval(args[0]), ("i", args[1]))
                    s.heap[b[1]] = h.with_items(it)
                    return [(s, "v", NONE)]
                if name == "copy":
                    return [(s, "v", self.new_obj(s, h.kind, node, fid, items=h.items))]
                if name == "clear":
                    s.heap[b[1]] = h.with_items(())
                    return [(s, "v", NONE)]
                if name == "pop" and h.items and all(x[0] == "i" for x in h.items) and h.kind == "list" and (
                        not args or is_int_c(args[0])):
                    it = list(h.items)
                    try:
                        v = it.pop(*[cval(a) for a in args])
                    except IndexError:
                        return [(s, "x", ("exc", "IndexError", ()))]
                    s.heap[b[1]] = h.with_items(it)
                    return [(s, "v", v[1])]
                if name in ("remove", "discard") and ("i", args[0]) in h.items:
                    it = list(h.items)
                    it.remove(("i", args[0]))
                    s.heap[b[1]] = h.with_items(it)
                    return [(s, "v", NONE)]
                if name in ("remove", "discard") and args and is_c(args[0]) and all(x[0] == "i" and is_c(x[1]) and x[1][2] != args[0][2] for x in h.items):
                    return [(s, "v", NONE)] if name == "discard" else [(s, "x", ("exc", "KeyError" if h.kind == "set" else "ValueError", ()))]
                if name == "reverse" and all(x[0] == "i" for x in h.items):
                    s.heap[b[1]] = h.with_items(tuple(reversed(h.items)))
                    return [(s, "v", NONE)]
                if name == "sort":
                    for (s1, k1, t) in self.call_ext(s, "sorted", [b], kwargs, node, fid):
                        segs = self.segments_of(s1, t, node, fid)
                        s1.heap[b[1]] = s1.heap[b[1]].with_items(segs)
                        return [(s1, "v", NONE)]
                if name in ("union",):
                    segs = list(h.items)
                    for a in args:
                        segs.extend(x for x in self.segments_of(s, a, node, fid) if x not in segs)
                    return [(s, "v", self.new_obj(s, "set", node, fid, items=segs))]
                if name in ("index", "count", "issubset", "issuperset", "difference", "intersection", "isdisjoint"):
                    r = self.fold_list_method(s, b, name, args, node, fid)
                    if r is not None:
                        return r
                    return [(s, "v", ("pm", name, self.reify(s, b), tuple(self.reify(s, a) for a in args)))]
                if name in MUTATORS:
                    s.heap[b[1]] = h.with_items((("topseg", self.uid(s, node, fid, "top")),))
                    return [(s, "v", ("res", name, self.uid(s, node, fid, "res")))]
            elif h.kind == "dict":
                if name == "get":
                    d = args[1] if len(args) > 1 else NONE
                    return self.dict_get(s, b, args[0], node, fid, d)
                if name in ("items", "keys", "values"):
                    return [(s, "v", ("pm", name, b, ()))]
                if name == "copy":
                    return [(s, "v", self.new_obj(s, "dict", node, fid, items=h.items))]
                if name == "update":
                    for a in args:
                        self.dict_update(s, b, a, node, fid)
                    for kk, v in kwargs.items():
                        s = self.set_item(s, b, C(kk), v, node, fid)
                    return [(s, "v", NONE)]
                if name == "setdefault":
                    kk = args[0]
                    d = args[1] if len(args) > 1 else NONE
                    out = []
                    for (s1, bb) in (self.truth_in(s, kk, b) or [(s, False)]):
                        if bb:
                            out.extend(self.get_item(s1, b, kk, node, fid))
                        else:
                            out.append((self.set_item(s1, b, kk, d, node, fid), "v", d))
                    return out
                if name == "pop":
                    for x in h.items:
                        if x[0] == "kv" and x[1] == args[0]:
                            s.heap[b[1]] = h.with_items([y for y in h.items if y != x])
                            return [(s, "v", x[2])]
                    if all(x[0] == "kv" and self.decide_cmp(s, ("cmp", "Eq", x[1], args[0])) is False for x in h.items) and h.fresh:
                        return [(s, "v", args[1])] if len(args) > 1 else [(s, "x", ("exc", "KeyError", ()))]
                    return [(s, "v", ("res", "pop", self.uid(s, node, fid, "res")))]
                if name == "clear":
                    s.heap[b[1]] = h.with_items(())
                    return [(s, "v", NONE)]
        if b[0] == "o" and st.heap[b[1]].kind == "inst":
            return self.call_method_opaque(st, b, name, args, kwargs, node, fid)
        return self.call_method_opaque(st, b, name, args, kwargs, node, fid)

    def const_value(self, st, v, node, fid):
        if isinstance(v, (list, tuple)):
            vals = [C(x) for x in v]
            if isinstance(v, tuple):
                return (st, "v", ("tuple", tuple(vals)))
            s = st.copy()
            return (s, "v", self.new_obj(s, "list", node, fid, items=[("i", x) for x in vals]))
        return (st, "v", C(v))

    def fold_format(self, st, b, args, kwargs):
        import string
        try:
            pieces = list(string.Formatter().parse(b[2]))
        except ValueError:
            return None
        parts = []
        auto = 0
        for lit, field, spec, conv in pieces:
            if lit:
                parts.append(C(lit))
            if field is None:
                continue
            m = _re.match(r"^(\w*)$", field)
            if m is None:
                return None
            if field == "":
                if auto >= len(args):
                    return None
                v = args[auto]
                auto += 1
            elif field.isdigit():
                if int(field) >= len(args):
                    return None
                v = args[int(field)]
            elif field in kwargs:
                v = kwargs[field]
            else:
                return None
            if v[0] == "star":
                return None
            v = self.reify(st, v)
            if conv == "r":
                v = self.fold_repr(v)
            elif spec:
                v = ("pm", "format", C("{:" + spec + "}"), (v,))
            else:
                v = self.to_str(v)
            parts.append(v)
        return cat(parts)

    # ---- builtins and library functions
    def call_ext(self, st, name, args, kwargs, node, fid):
        spec = self.opaque.get("ext:" + name)
        if spec is not None:
            r = spec(self, st, name, args, kwargs, node, fid)
            if r is not None:
                return r
        m = getattr(self, "x_" + name.replace(".", "_"), None)
        if m is not None:
            r = m(st, args, kwargs, node, fid)
            if r is not None:
                return r
        last = name.split(".")[-1]
        bi = getattr(_bi, name, None) if "." not in name else None
        if isinstance(bi, type) and issubclass(bi, BaseException) or (bi is None and last.endswith(("Error", "Exception"))):
            return [(st, "v", ("exc", name, tuple(self.reify(st, a) for a in args)))]
        if "." in name and name.split(".")[0] not in ("os", "sys", "re", "shlex", "copy", "textwrap", "json", "inspect", "pathlib",
                                                       "subprocess", "shutil", "socket", "getpass", "traceback", "io", "uuid",
                                                       "itertools", "operator", "functools", "contextlib", "collections", "typing",
                                                       "configparser", "argparse", "logging", "types", "datetime", "pprint", "string",
                                                       "enum", "abc", "time", "tempfile", "importlib", "getopt", "stat", "warnings", "str",
                                                       "dict", "list", "set", "distro", "platform", "object"):
            # method of an opaque module-level object: treat like any method
            b, mth = name.rsplit(".", 1)
            return self.call_method_opaque(st, ("ext", b), mth, args, kwargs, node, fid)
        if name.startswith("os.environ."):
            return self.call_method_opaque(st, ("ext", "os.environ"), last, args, kwargs, node, fid)
        if name.startswith("str.") and args and name[4:] in PURE_METHODS:
            return self.call_container(st, args[0], last, args[1:], kwargs, node, fid)
        if name in PURE_FUNCS or name in self.pure_extra or name in ("functools.wraps", "typing.cast", "distro.name", "distro.version", "zip", "iter"):
            v = ("pc", name, tuple(self.reify(st, a) for a in args), self.kwt(st, kwargs))
            if name in FALLIBLE_PURE and (self.implicit or self.try_depth > 0 and not self.calm):
                s2 = st.copy()
                return [(st, "v", v), (s2, "x", ("anyexc", name))]
            return [(st, "v", v)]
        s = st.copy()
        uid = self.uid(s, node, fid, "res")
        self.emit(s, "x", (name, tuple(self.reify(s, a) for a in args), self.kwt(s, kwargs), uid), node, fid)
        return self.maybe_raise(s, ("res", name, uid), name)

    def x_property(self, st, args, kwargs, node, fid):
        names = ("fget", "fset", "fdel")
        v = list(args) + [kwargs.get(n, NONE) for n in names[len(args):]]
        return [(st, "v", ("propobj",) + tuple(v[:3]))]

    def x_print(self, st, args, kwargs, node, fid):
        s = st.copy()
        f = kwargs.get("file", NONE)
        if f != NONE and not (f[0] == "ext" and f[1].startswith("sys.")) and all(a[0] != "star" for a in args):
            sep, end = kwargs.get("sep", C(" ")), kwargs.get("end", C("\n"))
            parts = []
            for i, a in enumerate(args):
                parts += ([C(" ") if sep == NONE else sep] if i else []) + [self.to_str(self.reify(s, a)) if len(args) > 1 else self.reify(s, a)]
            parts.append(C("\n") if end == NONE else end)
            parts = [p for p in parts if p != C("")]
            text = C("") if not parts else self.to_str(parts[0]) if len(parts) == 1 else cat([self.to_str(p) for p in parts])
            uid = self.uid(s, node, fid, "res")
            self.emit(s, "xm", ("write", f, (text,), (), uid), node, fid)
            return [(s, "v", NONE)]
        self.emit(s, "print", (tuple(self.reify(s, a) for a in args), self.kwt(s, kwargs)), node, fid)
        return [(s, "v", NONE)]

    def x_sys_exit(self, st, args, kwargs, node, fid):
        s = st.copy()
        self.emit(s, "x", ("sys.exit", tuple(self.reify(s, a) for a in args), (), None), node, fid)
        return [(s, "x", ("exc", "SystemExit", tuple(args)))]

    x_exit = x_sys_exit
    x_quit = x_sys_exit

    def x_sys_exc_info(self, st, args, kwargs, node, fid):
        e = st.exc[-1] if st.exc else NONE
        t = ("ext", e[1]) if e[0] == "exc" else ("pc", "type", (e,), ())
        return [(st, "v", ("tuple", (t, e, ("top", "tb"))))]

    def x_len(self, st, args, kwargs, node, fid):
        a = self.norm_container(args[0])
        items = self.known_items(st, a)
        if items is not None:
            return [(st, "v", C(len(items)))]
        if is_str_c(a):
            return [(st, "v", C(len(a[2])))]
        if a == NONE:
            return [(st, "x", ("exc", "TypeError", ()))]
        if a[0] == "o":
            h = st.heap[a[1]]
            if h.kind in ("dict", "set") and all(x[0] in ("kv", "i") for x in h.items) and h.fresh and len(
                    [x for x in h.items if not is_c(x[1])]) <= 1:
                return [(st, "v", C(len(h.items)))]
            if h.kind == "inst":
                r = self.p.find_member(h.cls, "__len__")
                if r is not None and r[0] == "method":
                    return self.call_func(st, r[1], [a], {}, node, fid)
        if a[0] == "pm" and a[1] in ("items", "values") and not a[3]:
            return self.x_len(st, [a[2]], kwargs, node, fid)
        return [(st, "v", ("pc", "len", (self.reify(st, a),), ()))]

    def x_str(self, st, args, kwargs, node, fid):
        if not args:
            return [(st, "v", C(""))]
        a = args[0]
        if is_c(a):
            return [(st, "v", C(str(a[2])))]
        if a[0] == "pp":
            return [(st, "v", C(a[1]))]
        if a[0] == "o" and st.heap[a[1]].kind == "list":
            items = self.known_items(st, a)
            if items is not None and all(is_c(x) for x in items):
                return [(st, "v", C(str([x[2] for x in items])))]
        if a[0] in ("cat", "eachcat") or self.strish(st, a):
            return [(st, "v", a)]
        return [(st, "v", ("pc", "str", (self.reify(st, a),), ()))]

    def x_int(self, st, args, kwargs, node, fid):
        if len(args) == 1 and is_c(args[0]):
            try:
                return [(st, "v", C(int(args[0][2])))]
            except Exception:
                return [(st, "x", ("exc", "ValueError", ()))]
        return None

    def x_bool(self, st, args, kwargs, node, fid):
        out = []
        for (s, b) in self.truth(st, args[0] if args else FALSE):
            out.append((s, "v", C(b)))
        return out

    def _minmax(self, fn, st, args, kwargs, node=None, fid=None):
        key = kwargs.get("key", NONE)
        if key != NONE or len(args) == 1 and not all(is_int_c(a) for a in self.known_items(st, args[0]) or ()):
            items = (self.known_items(st, args[0]) or self.elements(st, args[0])) if len(args) == 1 else tuple(args)
            if items == () or items == []:
                return [(st, "v", kwargs["default"])] if "default" in kwargs else [(st, "x", ("exc", "ValueError", ()))]
            if items is None or not all(is_c(x) for x in items) or not set(kwargs) <= {"key", "default"}:
                return None
            ks, s = [], st
            for x in items:
                r = self.call_value(s, key, [x], {}, node, fid) if key != NONE else [(s, "v", x)]
                if len(r) != 1 or r[0][1] != "v" or not (is_c(r[0][2]) or r[0][2][0] == "tuple" and all(is_c(y) for y in r[0][2][1])):
                    return None
                s, kv = r[0][0], r[0][2]
                ks.append(kv[2] if is_c(kv) else tuple(y[2] for y in kv[1]))
            try:
                i = fn(range(len(ks)), key=lambda j: ks[j])
            except TypeError:
                return None
            return [(s, "v", items[i])]
        if len(args) > 1 and all(is_int_c(a) for a in args) and not kwargs:
            return [(st, "v", C(fn(cval(a) for a in args)))]
        if len(args) == 1 and set(kwargs) <= {"default"}:
            items = self.known_items(st, args[0])
            if items is not None and all(is_int_c(a) for a in items):
                if items:
                    return [(st, "v", C(fn(cval(a) for a in items)))]
                return [(st, "v", kwargs["default"])] if kwargs else [(st, "x", ("exc", "ValueError", ()))]
        return None

    def x_sum(self, st, args, kwargs, node, fid):
        items = self.known_items(st, args[0]) if len(args) == 1 and not kwargs else None
        if items is not None and all(is_int_c(a) for a in items):
            return [(st, "v", C(sum(cval(a) for a in items)))]
        return None

    def x_compile(self, st, args, kwargs, node, fid):
        """the text itself stands for the compiled code: only exec and eval take it"""
        return [(st, "v", args[0])] if args else None

    def x_abs(self, st, args, kwargs, node, fid):
        if len(args) == 1 and is_int_c(args[0]):
            return [(st, "v", C(abs(cval(args[0]))))]
        return None

    def x_max(self, st, args, kwargs, node, fid):
        return self._minmax(max, st, args, kwargs, node, fid)

    def x_min(self, st, args, kwargs, node, fid):
        return self._minmax(min, st, args, kwargs, node, fid)

    def x_isinstance(self, st, args, kwargs, node, fid):
        T = self.reify(st, args[1])
        ts = self.type_names(T)
        ds = [self.decide_isinst(st, args[0], t) for t in ts]
        if any(d is True for d in ds):
            return [(st, "v", TRUE)]
        if all(d is False for d in ds):
            return [(st, "v", FALSE)]
        return [(st, "v", ("pc", "isinstance", (args[0], T), ()))]

    def x_issubclass(self, st, args, kwargs, node, fid):
        a = args[0]
        if not (a[0] == "cls" or self.is_type_ext(a)):
            return [(st, "x", ("exc", "TypeError", ()))] if is_c(a) else None
        res = []
        for t in self.type_names(self.reify(st, args[1])):
            if a == t:
                return [(st, "v", TRUE)]
            if self.is_type_ext(a) and self.is_type_ext(t):
                if issubclass(getattr(_bi, a[1]), getattr(_bi, t[1])):
                    return [(st, "v", TRUE)]
                res.append(False)
            elif a[0] == "cls" and t[0] == "cls":
                c, d = self.p.by_qual.get(a[1]), self.p.by_qual.get(t[1])
                if c is None or d is None:
                    return None
                if d in self.p.mro(c):
                    return [(st, "v", TRUE)]
                res.append(False)
            elif self.is_type_ext(a) and t[0] == "cls":
                res.append(False)
            else:
                return None
        return [(st, "v", FALSE)] if res else None

    def x_type(self, st, args, kwargs, node, fid):
        if len(args) == 1:
            a = args[0]
            if a[0] == "o" and st.heap[a[1]].kind == "inst" and (st.heap[a[1]].fresh or a[1] in self.exact_class):
                return [(st, "v", ("cls", st.heap[a[1]].cls.qual))]
            if is_c(a):
                return [(st, "v", ("ext", a[1]))]
            if a[0] == "o" and st.heap[a[1]].kind in ("list", "dict", "set") and st.heap[a[1]].fresh:
                return [(st, "v", ("ext", st.heap[a[1]].kind))]
            if a[0] == "tuple":
                return [(st, "v", ("ext", "tuple"))]
        return None

    def x_hasattr(self, st, args, kwargs, node, fid):
        b, nm = args[0], args[1]
        if is_str_c(nm) and b[0] == "o" and st.heap[b[1]].kind == "inst":
            name = nm[2]
            h = st.heap[b[1]]
            if name in h.fields:
                return [(st, "v", C(h.fields[name] != ABSENT))]
            r = self.p.find_member(h.cls, name)
            if r is not None and not (r[0] == "prop" and r[1].typed is not None and False):
                return [(st, "v", TRUE)]
            if h.fresh and not self.p.external_bases(h.cls):
                return [(st, "v", FALSE)]
            return [(st, "v", ("has", b, name))]
        if self.dyn_has is not None:
            d = self.dyn_has(b, self.reify(st, nm))
            if d is not None:
                return [(st, "v", C(d))]
        return [(st, "v", ("has", b, nm if not is_str_c(nm) else nm[2]))]

    def dyn_attr(self, st, b, nm):
        t = ("attrdyn", b, self.reify(st, nm))
        if self.dyn_has is not None and self.dyn_has(b, t[2]):
            st = st.copy()
            st.facts[("isnone", t)] = False
            st.facts[t] = True
            st.facts[("pc", "callable", (t,), ())] = True
        return [(st, "v", t)]

    def x_getattr(self, st, args, kwargs, node, fid):
        b, nm = args[0], args[1]
        if len(args) == 2:
            if is_str_c(nm):
                return self.get_attr(st, b, nm[2], node, fid)
            return self.dyn_attr(st, b, nm)
        out = []
        for (s, k, hv) in self.x_hasattr(st, [b, nm], {}, node, fid):
            for (s2, bb) in self.truth(s, hv):
                if bb:
                    if is_str_c(nm):
                        out.extend(self.get_attr(s2, b, nm[2], node, fid))
                    else:
                        out.extend(self.dyn_attr(s2, b, nm))
                else:
                    out.append((s2, "v", args[2]))
        return out

    def x_setattr(self, st, args, kwargs, node, fid):
        b, nm, v = args
        if is_str_c(nm):
            return self.set_attr(st, b, nm[2], v, node, fid)
        s = st.copy()
        self.emit(s, "seta", (b, self.reify(s, nm), self.reify(s, v)), node, fid)
        return [(s, "v", NONE)]

    def x_delattr(self, st, args, kwargs, node, fid):
        b, nm = args
        if is_str_c(nm):
            return self.del_attr(st, b, nm[2], node, fid)
        s = st.copy()
        self.emit(s, "dela", (b, self.reify(s, nm)), node, fid)
        return [(s, "v", NONE)]

    def _build(self, kind):
        def f(st, args, kwargs, node, fid):
            s = st.copy()
            segs = self.segments_of(s, args[0], node, fid) if args else []
            if kind == "set":
                u = []
                for x in segs:
                    if x not in u:
                        u.append(x)
                segs = u
            return [(s, "v", self.new_obj(s, kind, node, fid, items=segs))]
        return f

    def x_list(self, st, args, kwargs, node, fid):
        return self._build("list")(st, args, kwargs, node, fid)

    def x_set(self, st, args, kwargs, node, fid):
        return self._build("set")(st, args, kwargs, node, fid)

    x_frozenset = x_set

    def x_tuple(self, st, args, kwargs, node, fid):
        if not args:
            return [(st, "v", ("tuple", ()))]
        items = self.known_items(st, args[0])
        if items is not None:
            return [(st, "v", ("tuple", tuple(items)))]
        return self._build("list")(st, args, kwargs, node, fid)

    def x_dict(self, st, args, kwargs, node, fid):
        s = st.copy()
        d = self.new_obj(s, "dict", node, fid)
        if args:
            a = self.norm_container(args[0])
            if a[0] == "o" and s.heap[a[1]].kind in ("list",) or a[0] == "tuple":
                items = self.known_items(s, a)
                if items is None or not all(x[0] == "tuple" and len(x[1]) == 2 for x in items):
                    s.heap[d[1]] = s.heap[d[1]].with_items((("spread", self.reify(s, a)),))
                else:
                    for x in items:
                        s = self.set_item(s, d, x[1][0], x[1][1], node, fid)
            else:
                self.dict_update(s, d, a, node, fid)
        for k, v in kwargs.items():
            if k == "**":
                self.dict_update(s, d, v, node, fid)
            else:
                s = self.set_item(s, d, C(k), v, node, fid)
        return [(s, "v", d)]

    x_collections_OrderedDict = x_dict
    x_OrderedDict = x_dict

    def x_enumerate(self, st, args, kwargs, node, fid):
        return [(st, "v", ("enumerate", args[0], args[1] if len(args) > 1 else kwargs.get("start", C(0))))]

    def x_zip(self, st, args, kwargs, node, fid):
        its = [self.known_items(st, a) for a in args]
        if all(i is not None for i in its):
            s = st.copy()
            return [(s, "v", self.new_obj(s, "list", node, fid, items=[("i", ("tuple", t)) for t in zip(*its)]))]
        return [(st, "v", ("zip", tuple(self.reify(st, a) for a in args)))]

    def x_reversed(self, st, args, kwargs, node, fid):
        items = self.known_items(st, args[0])
        if items is not None:
            return [(st, "v", ("tuple", tuple(reversed(items))))]
        return [(st, "v", ("reversed", self.reify(st, args[0])))]

    def x_sorted(self, st, args, kwargs, node, fid):
        key = kwargs.get("key")
        rev = kwargs.get("reverse", FALSE)
        items = self.known_items(st, args[0])
        if items is None and args[0][0] == "o" and st.heap[args[0][1]].kind == "set" and all(
                x[0] == "i" for x in st.heap[args[0][1]].items):
            items = tuple(x[1] for x in st.heap[args[0][1]].items)
        if items is None:
            items = self.elements(st, args[0])
        if items is not None and key is not None and key != NONE and all(is_c(x) or x[0] == "pp" for x in items) and is_c(rev):
            ks, s = [], st
            for x in items:
                r = self.call_value(s, key, [x], {}, node, fid)
                if len(r) != 1 or r[0][1] != "v" or not (is_c(r[0][2]) or r[0][2][0] == "tuple" and all(is_c(y) for y in r[0][2][1])):
                    ks = None
                    break
                s, kv = r[0][0], r[0][2]
                ks.append(kv[2] if is_c(kv) else tuple(y[2] for y in kv[1]))
            if ks is not None:
                try:
                    order = sorted(range(len(ks)), key=lambda i: ks[i], reverse=bool(rev[2]))
                    s = s.copy()
                    return [(s, "v", self.new_obj(s, "list", node, fid, items=[("i", items[i]) for i in order]))]
                except TypeError:
                    pass
        if items and (key is None or key == NONE) and all(x[0] == "pp" for x in items) and is_c(rev):
            s = st.copy()
            order = sorted(items, key=lambda x: posixpath.normpath(x[1]).split("/"), reverse=bool(rev[2]))
            return [(s, "v", self.new_obj(s, "list", node, fid, items=[("i", x) for x in order]))]
        if items is not None and (key is None or key == NONE) and all(is_c(x) for x in items) and is_c(rev):
            s = st.copy()
            try:
                vals = sorted((x[2] for x in items), reverse=bool(rev[2]))
                return [(s, "v", self.new_obj(s, "list", node, fid, items=[("i", C(x)) for x in vals]))]
            except TypeError:
                pass
        kt = NONE
        s = st
        if key is not None and key != NONE:
            ph = ("s", "$elem")
            res = self.call_value(st.copy(), key, [ph], {}, node, fid)
            if len(res) == 1 and res[0][1] == "v":
                kt = self.reify(res[0][0], res[0][2])
            else:
                kt = ("top", "sortkey")
        src = args[0]
        t = ("sorted", self.reify(s, src), kt, rev)
        return [(s, "v", t)]

    def _quant(self, st, args, want, node, fid):
        def body(s, v):
            out = []
            for (s2, b) in self.truth(s, v):
                out.append((s2, ("return", C(want)) if b == want else NEXT))
            return out
        res = self.iterate(st, args[0], node, fid, body, lambda s: [(s, NEXT)])
        out = []
        for (s, oc) in res:
            if oc[0] == "return":
                out.append((s, "v", oc[1]))
            elif oc[0] == "raise":
                out.append((s, "x", oc[1]))
            else:
                out.append((s, "v", C(not want)))
        return out

    def x_any(self, st, args, kwargs, node, fid):
        return self._quant(st, args, True, node, fid)

    def x_all(self, st, args, kwargs, node, fid):
        return self._quant(st, args, False, node, fid)

    def x_next(self, st, args, kwargs, node, fid):
        if args[0][0] not in ("o", "tuple", "L"):
            return None
        res = self.iterate(st, args[0], node, fid, lambda s, v: [(s, ("return", v))], lambda s: [(s, NEXT)])
        out = []
        for (s, oc) in res:
            if oc[0] == "return":
                out.append((s, "v", oc[1]))
            elif oc[0] == "raise":
                out.append((s, "x", oc[1]))
            elif len(args) > 1:
                out.append((s, "v", args[1]))
            else:
                out.append((s, "x", ("exc", "StopIteration", ())))
        return out

    def _mapfilter(self, st, args, node, fid, filt):
        s0 = st.copy()
        res = self.new_obj(s0, "list", node, fid, tag="mf")

        def body(s, v):
            out = []
            if filt and args[0] == NONE:
                rr = [(s, "v", v)]
            else:
                rr = self.call_value(s, args[0], [v], {}, node, fid)
            for (s2, k, r) in rr:
                if k == "x":
                    out.append((s2, ("raise", r)))
                    continue
                if filt:
                    for (s3, b) in self.truth(s2, r):
                        s3 = s3.copy()
                        if b:
                            h = s3.heap[res[1]]
                            s3.heap[res[1]] = h.with_items(h.items + (("i", v),))
                        out.append((s3, NEXT))
                else:
                    s2 = s2.copy()
                    h = s2.heap[res[1]]
                    s2.heap[res[1]] = h.with_items(h.items + (("i", r),))
                    out.append((s2, NEXT))
            return out
        out = []
        for (s, oc) in self.iterate(s0, args[1], node, fid, body, lambda s: [(s, NEXT)]):
            out.append((s, "x", oc[1]) if oc[0] == "raise" else (s, "v", res))
        return out

    def x_filter(self, st, args, kwargs, node, fid):
        return self._mapfilter(st, args, node, fid, True)

    def x_map(self, st, args, kwargs, node, fid):
        if len(args) != 2:
            return None
        return self._mapfilter(st, args, node, fid, False)

    def x_copy_deepcopy(self, st, args, kwargs, node, fid):
        a = args[0]
        if is_c(a) or a[0] in ("tuple", "cls", "fn", "cat") or self.is_type_ext(a):
            return [(st, "v", a)]
        if a[0] == "o" and st.heap[a[1]].kind in ("list", "dict", "set"):
            h = st.heap[a[1]]
            if h.fresh:
                s = st.copy()
                return [(s, "v", self.new_obj(s, h.kind, node, fid, items=h.items))]
        return None

    x_copy_copy = x_copy_deepcopy

    def x_functools_partial(self, st, args, kwargs, node, fid):
        return [(st, "v", ("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items()))))]

    x_partial = x_functools_partial

    def x_range(self, st, args, kwargs, node, fid):
        return [(st, "v", ("pc", "range", tuple(args), ()))]

    def x_iter(self, st, args, kwargs, node, fid):
        return [(st, "v", args[0])]

    def x_os_getenv(self, st, args, kwargs, node, fid):
        return self.call_method_opaque(st, ("ext", "os.environ"), "get", args, kwargs, node, fid)

    def x_typing_cast(self, st, args, kwargs, node, fid):
        return [(st, "v", args[1])]

    def x_operator_itemgetter(self, st, args, kwargs, node, fid):
        return None

    def x_itertools_chain(self, st, args, kwargs, node, fid):
        s = st.copy()
        segs = []
        for a in args:
            segs.extend(self.segments_of(s, a, node, fid))
        return [(s, "v", self.new_obj(s, "list", node, fid, items=segs))]

    def x_itertools_chain_from_iterable(self, st, args, kwargs, node, fid):
        items = self.known_items(st, args[0])
        if items is None:
            return None
        return self.x_itertools_chain(st, list(items), {}, node, fid)
