"""Expression, call and fact handling of the abstract interpreter (see engine.py)."""
import ast
import builtins as _bi
import posixpath
import re as _re

from model import Func, Class, Prop, dotted
from terms import *   # noqa: F401,F403

INF = 10 ** 9
STR_FOLD = {"strip", "lstrip", "rstrip", "upper", "lower", "replace", "split", "rsplit", "splitlines", "startswith",
            "endswith", "ljust", "rjust", "center", "title", "count", "find", "partition", "rpartition", "isspace",
            "removeprefix", "removesuffix", "casefold", "isdigit", "isupper", "islower", "isidentifier", "encode", "zfill",
            "index", "capitalize", "join"}
STR_METHODS = {"strip", "lstrip", "rstrip", "upper", "lower", "replace", "ljust", "rjust", "center", "title", "join",
               "removeprefix", "removesuffix", "casefold", "format", "zfill", "capitalize", "decode"}
BUILTIN_TYPES = {"str": str, "int": int, "list": list, "dict": dict, "bool": bool, "float": float, "tuple": tuple,
                 "set": set, "bytes": bytes}
HIGHER_ORDER = {"any", "all", "next", "filter", "map", "sorted", "max", "min", "sum"}


class ExprMixin:
    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fid):
        self.tick()
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Imprecise("expression %s at %s" % (type(n).__name__, self.loc(n, fid)))
        return m(n, st, fid)

    def ev_many(self, nodes, st, fid):
        """-> [(state, 'v', [values]) | (state, 'x', exc)]"""
        cur = [(st, "v", [])]
        for n in nodes:
            nxt = []
            for (s, k, vs) in cur:
                if k == "x":
                    nxt.append((s, k, vs))
                    continue
                for (s2, k2, v) in self.ev(n, s, fid):
                    nxt.append((s2, "x", v) if k2 == "x" else (s2, "v", vs + [v]))
            cur = nxt
        return cur

    def ev_Constant(self, n, st, fid):
        return [(st, "v", C(n.value))]

    def ev_Name(self, n, st, fid):
        return self.lookup(n.id, st, fid, n)

    def lookup(self, name, st, fid, node):
        f = fid
        while f is not None:
            fr = st.frames.get(f)
            if fr is not None and name in fr:
                return [(st, "v", fr[name])]
            f = self.frame_info[f][2] if f in self.frame_info else None
        mod = self.frame_info[fid][1]
        r = self.p.resolve_name(mod, name)
        if r is not None:
            if r[0] == "glob":
                return self.global_value(st, r[1], r[2])
            return [(st, "v", self.entity(r, name))]
        # a local variable that this path has not bound
        func = self.frame_info[fid][0]
        if func is not None and name in self.local_names(func):
            return [(st, "x", ("exc", "UnboundLocalError", (C(name),)))]
        if name == "__name__":
            return [(st, "v", ("s", "__name__"))]
        if hasattr(_bi, name) or self.bound_somewhere(mod, name, func):
            return [(st, "v", ("ext", name))]
        return [(st, "x", ("exc", "NameError", (C(name),)))]

    @staticmethod
    def outer_scope(tree):
        """the nodes outside of functions, and those of functions that hold other functions (what these may read)"""
        stack = [tree]
        while stack:
            n = stack.pop()
            yield n
            for c in ast.iter_child_nodes(n):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not tree and not any(
                        isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)) for y in ast.walk(n) if y is not n):
                    for y in ast.walk(c):
                        if isinstance(y, (ast.Global, ast.Nonlocal)):
                            yield y
                    continue
                stack.append(c)

    def bound_somewhere(self, mod, name, func=None):
        """the module or the function binds the name in some way (conservative: a star import binds everything)"""
        return self.bound_in(("bound", mod.rel), mod.tree, name) or func is not None and self.bound_in(("boundf", id(func.node)), func.node, name)

    def bound_in(self, k, tree, name):
        if k not in self.locals_cache:
            names = set()
            for x in self.outer_scope(tree):
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                    names.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    names.add(x.name)
                elif isinstance(x, ast.arg):
                    names.add(x.arg)
                elif isinstance(x, ast.alias):
                    names.add((x.asname or x.name).split(".")[0])
                elif isinstance(x, (ast.Global, ast.Nonlocal)):
                    names.update(x.names)
                elif isinstance(x, (ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and x.name:
                    names.add(x.name)
                elif isinstance(x, ast.MatchMapping) and x.rest:
                    names.add(x.rest)
                elif type(x).__name__ in ("TypeVar", "ParamSpec", "TypeVarTuple"):
                    names.add(x.name)
            self.locals_cache[k] = names
        names = self.locals_cache[k]
        return name in names or "*" in names or name.startswith("__")

    def local_names(self, func):
        k = id(func.node)
        if k not in self.locals_cache:
            names = set()
            for x in ast.walk(func.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
            self.locals_cache[k] = names
        return self.locals_cache[k]

    def global_value(self, st, mod, name):
        vals = mod.globals.get(name, [])
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, ast.Constant):
                return [(st, "v", C(v.value))]
            if ("g", mod.rel, name) in st.heap:
                return [(st, "v", ("o", ("g", mod.rel, name)))]
            if isinstance(v, (ast.Tuple, ast.Call, ast.Name, ast.Attribute, ast.BinOp, ast.List, ast.Dict, ast.Set, ast.Lambda)):
                key = (mod.rel, name)
                if key in self.global_busy:
                    return [(st, "v", ("gv", mod.rel, name))]
                self.global_busy.add(key)
                try:
                    s = st.copy()
                    gf = ("gf", mod.rel)
                    if gf not in s.frames:
                        s.frames[gf] = {}
                    self.frame_info[gf] = (None, mod, None, None)
                    tr = s.trace
                    res = self.ev(v, s, gf)
                    if len(res) == 1 and res[0][1] == "v" and res[0][0].trace == tr:
                        s2, _, val = res[0]
                        if val[0] == "o":
                            oid = ("g", mod.rel, name)
                            h = s2.heap.pop(val[1])
                            s2.heap[oid] = HObj(h.kind, h.cls, h.fresh, False, h.fields, h.items)
                            s2.heap[oid].shared = True
                            val = ("o", oid)
                        return [(s2, "v", val)]
                except Imprecise:
                    pass
                finally:
                    self.global_busy.discard(key)
        return [(st, "v", ("gv", mod.rel, name))]

    def ev_Tuple(self, n, st, fid):
        return self.ev_seq(n, st, fid, lambda s, segs: ("tuple", tuple(x[1] for x in segs)) if all(x[0] == "i" for x in segs)
                           else self.new_obj(s, "list", n, fid, items=segs))

    def ev_List(self, n, st, fid):
        return self.ev_seq(n, st, fid, lambda s, segs: self.new_obj(s, "list", n, fid, items=segs))

    def ev_Set(self, n, st, fid):
        return self.ev_seq(n, st, fid, lambda s, segs: self.new_obj(s, "set", n, fid, items=segs))

    def ev_seq(self, n, st, fid, make):
        out = []
        plain = [e.value if isinstance(e, ast.Starred) else e for e in n.elts]
        for (s, k, vs) in self.ev_many(plain, st, fid):
            if k == "x":
                out.append((s, k, vs))
                continue
            s = s.copy()
            segs = []
            for e, v in zip(n.elts, vs):
                if isinstance(e, ast.Starred):
                    segs.extend(self.segments_of(s, v, n, fid))
                else:
                    segs.append(("i", v))
            out.append((s, "v", make(s, segs)))
        return out

    def ev_Dict(self, n, st, fid):
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        out = []
        for (s, kk, vs) in self.ev_many(nodes, st, fid):
            if kk == "x":
                out.append((s, kk, vs))
                continue
            s = s.copy()
            d = self.new_obj(s, "dict", n, fid)
            it = iter(vs)
            for k in n.keys:
                if k is None:
                    self.dict_update(s, d, next(it), n, fid)
                else:
                    kv = next(it)
                    vv = next(it)
                    s = self.set_item(s, d, kv, vv, n, fid)
            out.append((s, "v", d))
        return out

    def dict_update(self, st, d, src, node, fid):
        src = self.norm_container(src)
        h = st.heap[d[1]]
        if src[0] == "o" and st.heap[src[1]].kind == "dict":
            for x in st.heap[src[1]].items:
                if x[0] == "kv":
                    h = st.heap[d[1]]
                    st.heap[d[1]] = h.with_items([y for y in h.items if not (y[0] == "kv" and y[1] == x[1])] + [x])
                else:
                    h = st.heap[d[1]]
                    st.heap[d[1]] = h.with_items(h.items + (x,))
        else:
            st.heap[d[1]] = h.with_items(h.items + (("spread", self.reify(st, src)),))

    def ev_JoinedStr(self, n, st, fid):
        nodes = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        out = []
        for (s, k, vs) in self.ev_many(nodes, st, fid):
            if k == "x":
                out.append((s, k, vs))
                continue
            it = iter(vs)
            parts = []
            for v in n.values:
                if isinstance(v, ast.FormattedValue):
                    val = next(it)
                    val = self.reify(s, val)
                    if v.conversion == 114:
                        val = self.fold_repr(val)
                    elif v.format_spec is not None:
                        spec = v.format_spec.values[0].value if len(v.format_spec.values) == 1 and isinstance(
                            v.format_spec.values[0], ast.Constant) else "?"
                        val = ("pm", "format", C("{:" + str(spec) + "}"), (val,))
                    else:
                        val = self.to_str(val)
                    parts.append(val)
                else:
                    parts.append(C(v.value))
            out.append((s, "v", cat(parts)))
        return out

    def fold_repr(self, v):
        if is_c(v):
            return C(repr(v[2]))
        return ("pc", "repr", (v,), ())

    def to_str(self, v):
        if v[0] == "pp":
            return C(v[1])
        if v[0] == "pc" and v[1] == "str" and len(v[2]) == 1 and not v[3]:
            return v[2][0] if v[2][0][0] != "cat" else v[2][0]
        return v

    def ev_FormattedValue(self, n, st, fid):
        return self.ev(n.value, st, fid)

    def ev_BoolOp(self, n, st, fid):
        isand = isinstance(n.op, ast.And)
        cur = [(st, "v", None)]
        done = []
        for i, e in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for (s, _, _) in cur:
                for (s2, k, v) in self.ev(e, s, fid):
                    if k == "x":
                        done.append((s2, k, v))
                    elif last:
                        done.append((s2, k, v))
                    else:
                        for (s3, b) in self.truth(s2, v):
                            if b == isand:
                                nxt.append((s3, "v", None))
                            else:
                                vv = v
                                if v[0] in ("cmp", "not"):
                                    vv = C(b)
                                done.append((s3, "v", vv))
            cur = nxt
        return self.merge_val(done)

    def ev_UnaryOp(self, n, st, fid):
        out = []
        for (s, k, v) in self.ev(n.operand, st, fid):
            if k == "x":
                out.append((s, k, v))
            elif isinstance(n.op, ast.Not):
                if is_c(v):
                    out.append((s, "v", C(not v[2])))
                else:
                    out.append((s, "v", ("not", v)))
            elif isinstance(n.op, ast.USub):
                out.append((s, "v", C(-v[2]) if is_int_c(v) else ("un", "USub", v)))
            else:
                out.append((s, "v", ("un", type(n.op).__name__, v)))
        return out

    def ev_Compare(self, n, st, fid):
        if len(n.ops) > 1:
            vals = []
            l = n.left
            for op, r in zip(n.ops, n.comparators):
                vals.append(ast.copy_location(ast.Compare(left=l, ops=[op], comparators=[r]), n))
                l = r
            return self.ev_BoolOp(ast.copy_location(ast.BoolOp(op=ast.And(), values=vals), n), st, fid)
        out = []
        for (s, k, vs) in self.ev_many([n.left, n.comparators[0]], st, fid):
            if k == "x":
                out.append((s, k, vs))
                continue
            op = type(n.ops[0]).__name__
            if op in ("In", "NotIn") and vs[1][0] == "attr" and vs[1][2] == "__dict__" and is_str_c(vs[0]):
                for (s2, k2, v) in self.x_hasattr(s, [vs[1][1], vs[0]], {}, n, fid):
                    out.append((s2, k2, v if op == "In" else C(not v[2]) if is_c(v) else ("not", v)))
                continue
            out.append((s, "v", self.compare(s, op, vs[0], vs[1])))
        return out

    def compare(self, st, op, a, b):
        neg = False
        if op in ("NotEq", "IsNot", "NotIn"):
            op = {"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}[op]
            neg = True
        if op == "Gt":
            op, a, b = "Lt", b, a
        elif op == "GtE":
            op, neg = "Lt", True
        elif op == "LtE":
            op, a, b, neg = "Lt", b, a, True
        if op == "In":
            b = self.norm_container(b)
        t = ("cmp", op, a, b)
        d = self.decide_cmp(st, t)
        if d is not None:
            return C(d != neg)
        if op == "Eq" and (a[0] == "o" or b[0] == "o"):
            t = ("cmp", op, self.reify(st, a), self.reify(st, b))      # by value: the container may change later
        return ("not", t) if neg else t

    def decide_cmp(self, st, t):
        _, op, a, b = t
        if self.decide_hook is not None and not (is_c(a) and is_c(b)):
            d = self.decide_hook(st, op, a, b)
            if d is not None:
                return d
        if is_c(a) and is_c(b):
            try:
                if op == "Eq":
                    return a[2] == b[2]
                if op == "Lt":
                    return a[2] < b[2]
                if op == "In":
                    return a[2] in b[2]
                if op == "Is":
                    return a[2] is b[2] or (a[2] == b[2] and type(a[2]) is type(b[2]))
            except TypeError:
                return None
        if op in ("Eq", "Is") and a == b and a[0] not in ("res",):
            return True
        if op in ("Is", "Eq"):
            for x, y in ((a, b), (b, a)):
                if y == NONE and self.never_none(st, x):
                    return False
                if y[0] == "c" and y[1] in ("bool",) and x[0] in ("o", "tuple", "cat", "fn", "bm"):
                    return False
                if y[0] == "c" and (x[0] == "tuple" and not isinstance(y[2], tuple) or x[0] == "o" and x[1] in st.heap and st.heap[x[1]].kind in ("list", "dict", "set")):
                    return False
            if a[0] == "cls" and b[0] == "cls":
                return a == b
            if self.is_type_ext(a) and self.is_type_ext(b):
                return a == b
            if a[0] == "pp" and (b[0] == "pp" or is_c(b)) or b[0] == "pp" and is_c(a):
                return a == b
            if a[0] == "o" and b[0] == "o" and op == "Is":
                ha, hb = st.heap.get(a[1]), st.heap.get(b[1])
                if ha is not None and hb is not None and (ha.fresh or hb.fresh):
                    return a == b
            if a[0] == "cls" and b[0] == "ext" or a[0] == "ext" and b[0] == "cls":
                return False
            if {a[0], b[0]} == {"exc", "c"}:
                return False
            if {a[0], b[0]} == {"cls", "c"} or {a[0], b[0]} == {"ext", "c"} and self.is_type_ext(a if a[0] == "ext" else b):
                return False
        if op == "Eq":
            if a[0] == "o" and b[0] == "o" and st.heap[a[1]].kind == st.heap[b[1]].kind == "list":
                x, y = self.known_items(st, a), self.known_items(st, b)
                if x is not None and y is not None:
                    return self.decide_cmp(st, ("cmp", "Eq", ("tuple", tuple(x)), ("tuple", tuple(y))))
            if a[0] == "tuple" and b[0] == "tuple":
                if len(a[1]) != len(b[1]):
                    return False
                r = [self.decide_cmp(st, ("cmp", "Eq", x, y)) for x, y in zip(a[1], b[1])]
                if any(x is False for x in r):
                    return False
                if all(x is True for x in r):
                    return True
            if is_str_c(a) and b[0] == "cat" or is_str_c(b) and a[0] == "cat":
                c, t2 = (a, b) if is_str_c(a) else (b, a)
                p = t2[1]
                if is_str_c(p[0]) and not c[2].startswith(p[0][2]):
                    return False
                if is_str_c(p[-1]) and not c[2].endswith(p[-1][2]):
                    return False
            if is_c(a) and not is_str_c(a) and b[0] == "cat" or is_c(b) and not is_str_c(b) and a[0] == "cat":
                return False
        return None

    def is_type_ext(self, t):
        return t[0] == "ext" and isinstance(getattr(_bi, t[1], None), type)

    def never_none(self, st, v):
        if is_c(v):
            return v[2] is not None
        if v[0] == "o":
            return True
        if v[0] in ("rx", "rem", "pp", "tuple", "cat", "fn", "bm", "cls", "exc", "eachcat", "cmp", "not", "sorted", "reversed", "zip", "enumerate", "ext", "excval", "mod", "sdict"):
            return True
        if v[0] == "pc" and v[1] in ("len", "str", "int", "repr", "type", "isinstance", "os.path.join", "os.getcwd", "pathlib.Path", "bool",
                                     "copy.deepcopy", "max", "min", "range", "float", "shlex.split", "re.findall", "re.sub", "re.escape",
                                     "json.dumps", "io.StringIO", "shlex.quote", "re.compile"):
            return True
        if v[0] == "pm" and v[1] in STR_METHODS | {"split", "keys", "items", "values", "splitlines", "startswith", "endswith"}:
            return True
        if v[0] in ("key", "cpe") or v[0] == "s" and v[1] in self.solid:
            return True
        return False

    def strish(self, st, v):
        return v[0] in ("cat", "eachcat") or is_str_c(v) or v in self.strish_terms or (
            v[0] == "pc" and v[1] in ("str", "repr", "os.path.join", "json.dumps", "shlex.quote", "re.escape", "textwrap.dedent")) or (
            v[0] == "pm" and v[1] in STR_METHODS)

    def ev_BinOp(self, n, st, fid):
        out = []
        for (s, k, vs) in self.ev_many([n.left, n.right], st, fid):
            if k == "x":
                out.append((s, k, vs))
            else:
                out.extend(self.binop(s, type(n.op).__name__, vs[0], vs[1], n, fid))
        return out

    def binop(self, st, op, a, b, node, fid):
        if is_c(a) and is_c(b):
            try:
                if op == "Add":
                    return [(st, "v", C(a[2] + b[2]))]
                if op == "Sub":
                    return [(st, "v", C(a[2] - b[2]))]
                if op == "Mult" and len(str(a[2])) * (b[2] if isinstance(b[2], int) else 1) < 10000:
                    return [(st, "v", C(a[2] * b[2]))]
                if op == "Mod" and isinstance(a[2], (int, str)):
                    return [(st, "v", C(a[2] % b[2]))]
                if op == "FloorDiv":
                    return [(st, "v", C(a[2] // b[2]))]
                if op == "BitOr":
                    return [(st, "v", C(a[2] | b[2]))]
                if op == "BitAnd":
                    return [(st, "v", C(a[2] & b[2]))]
            except Exception:
                pass
        if op == "Div" and (a[0] == "pp" or b[0] == "pp"):
            x, y = self.path_text_of(a), self.path_text_of(b)
            if x is not None and y is not None:
                return [(st, "v", self.pure_path(posixpath.join(x, y)))]
        if op == "Add":
            if self.strish(st, a) or self.strish(st, b):
                return [(st, "v", cat([self.reify(st, a), self.reify(st, b)]))]
            if a[0] == "tuple" and b[0] == "tuple":
                return [(st, "v", ("tuple", a[1] + b[1]))]
            if a[0] == "o" and st.heap[a[1]].kind == "list" or b[0] == "o" and st.heap[b[1]].kind == "list":
                s = st.copy()
                segs = self.segments_of(s, a, node, fid) + self.segments_of(s, b, node, fid)
                return [(s, "v", self.new_obj(s, "list", node, fid, items=segs))]
        if op == "Mod" and is_str_c(a):
            args = list(b[1]) if b[0] == "tuple" else [b]
            pieces = _re.split(r"(%[sdr%])", a[2])
            if sum(1 for p in pieces if p in ("%s", "%d", "%r")) == len(args) and "%" not in "".join(
                    p for p in pieces if p not in ("%s", "%d", "%r", "%%")):
                it = iter(args)
                parts = []
                for p in pieces:
                    if p in ("%s", "%d"):
                        parts.append(self.to_str(self.reify(st, next(it))))
                    elif p == "%r":
                        parts.append(self.fold_repr(self.reify(st, next(it))))
                    elif p == "%%":
                        parts.append(C("%"))
                    else:
                        parts.append(C(p))
                return [(st, "v", cat(parts))]
        if a[0] == "o" and st.heap[a[1]].kind == "set" and op in ("Sub", "BitAnd"):
            r = self.fold_list_method(st, a, {"Sub": "difference", "BitAnd": "intersection"}[op], [b], node, fid)
            if r is not None:
                return r
        if a[0] == "o" and b[0] == "o" and st.heap[a[1]].kind == "set" and op == "BitOr":
            s = st.copy()
            segs = self.segments_of(s, a, node, fid)
            for x in self.segments_of(s, b, node, fid):
                if x not in segs:
                    segs.append(x)
            return [(s, "v", self.new_obj(s, "set", node, fid, items=segs))]
        if op == "BitOr" and b[0] == "o" and st.heap[b[1]].kind in ("set",) or op == "BitOr" and a[0] == "o" and st.heap[a[1]].kind == "set":
            s = st.copy()
            segs = self.segments_of(s, a, node, fid) + self.segments_of(s, b, node, fid)
            return [(s, "v", self.new_obj(s, "set", node, fid, items=segs))]
        if op in ("Add", "Sub") and is_int_c(b) and a[0] == "bin" and a[1] in ("Add", "Sub") and is_int_c(a[3]):
            d = (cval(a[3]) if a[1] == "Add" else -cval(a[3])) + (cval(b) if op == "Add" else -cval(b))
            if d == 0:
                return [(st, "v", a[2])]
            return [(st, "v", ("bin", "Add" if d > 0 else "Sub", a[2], C(abs(d))))]
        return [(st, "v", ("bin", op, self.reify(st, a), self.reify(st, b)))]

    def ev_IfExp(self, n, st, fid):
        out = []
        for (s, k, b) in self.truth_of(n.test, st, fid):
            if k == "x":
                out.append((s, "x", b))
            else:
                out.extend(self.ev(n.body if b else n.orelse, s, fid))
        return self.merge_val(out)

    def ev_Lambda(self, n, st, fid):
        info = self.frame_info[fid]
        f = Func(n, info[1], None, "lambda", parent=info[0])
        f.qual = (info[0].qual if info[0] else info[1].short) + ".<lambda>"
        return [(st, "v", self.func_value(f, fid))]

    def ev_NamedExpr(self, n, st, fid):
        out = []
        for (s, k, v) in self.ev(n.value, st, fid):
            if k == "x":
                out.append((s, k, v))
            else:
                s = s.copy()
                f = fid
                while isinstance(f, tuple) and f and f[0] == "comp":
                    f = self.frame_info[f][2]
                s.setvar(f, n.target.id, v)
                out.append((s, "v", v))
        return out

    def ev_Starred(self, n, st, fid):
        return self.ev(n.value, st, fid)

    def ev_Await(self, n, st, fid):
        return self.ev(n.value, st, fid)

    def ev_Yield(self, n, st, fid):
        res = [(st, "v", NONE)] if n.value is None else self.ev(n.value, st, fid)
        hook = self.yield_hooks.get(fid)
        out = []
        for (s, k, v) in res:
            if k == "x":
                out.append((s, k, v))
                continue
            if hook is not None:
                for (s2, oc) in hook(s, v):
                    if oc == NEXT:
                        out.append((s2, "v", NONE))
                    elif oc[0] == "raise":
                        out.append((s2, "x", oc[1]))
                    else:
                        out.append((s2, "x", ("ctl", oc)))
                continue
            y = s.frames[fid].get("$yield")
            if y is None:
                raise Imprecise("yield outside generator")
            s = s.copy()
            h = s.heap[y[1]]
            s.heap[y[1]] = h.with_items(h.items + (("i", v),))
            out.append((s, "v", NONE))
        return out

    def ev_YieldFrom(self, n, st, fid):
        out = []
        for (s, k, v) in self.ev(n.value, st, fid):
            if k == "x":
                out.append((s, k, v))
                continue
            y = s.frames[fid].get("$yield")
            s = s.copy()
            segs = self.segments_of(s, v, n, fid)
            h = s.heap[y[1]]
            s.heap[y[1]] = h.with_items(h.items + tuple(segs))
            out.append((s, "v", NONE))
        return out

    # ---- comprehensions
    def comp(self, n, st, fid, kind, emit):
        """emit(state, compfid, resultobj) -> [(state, outcome)]"""
        st = st.copy()
        res = self.new_obj(st, kind, n, fid, tag="comp")
        cf = ("comp",) + self.uid(st, n, fid, "comp")
        info = self.frame_info[fid]
        self.frame_info[cf] = (info[0], info[1], fid, info[3])
        st.frames[cf] = {}

        def level(i, s):
            if i == len(n.generators):
                return emit(s, cf, res)
            g = n.generators[i]
            out = []
            for (s1, k, it) in self.ev(g.iter, s, cf):
                if k == "x":
                    out.append((s1, ("raise", it)))
                    continue

                def body(s2, v):
                    o2 = []
                    for (s3, oc) in self.assign_in(g.target, v, s2, cf):
                        if oc != NEXT:
                            o2.append((s3, oc))
                            continue
                        cur = [(s3, NEXT)]
                        for c in g.ifs:
                            nx = []
                            for (s4, oc4) in cur:
                                if oc4 != NEXT:
                                    nx.append((s4, oc4))
                                    continue
                                for (s5, k5, b) in self.truth_of(c, s4, cf):
                                    if k5 == "x":
                                        nx.append((s5, ("raise", b)))
                                    else:
                                        nx.append((s5, NEXT if b else CONT))
                            cur = nx
                        for (s4, oc4) in cur:
                            if oc4 == NEXT:
                                o2.extend(level(i + 1, s4))
                            elif oc4 == CONT:
                                o2.append((s4, NEXT))
                            else:
                                o2.append((s4, oc4))
                    return o2
                out.extend(self.iterate(s1, it, n, cf, body, lambda s9: [(s9, NEXT)]))
            return out
        out = []
        for (s, oc) in level(0, st):
            if oc[0] == "raise":
                out.append((s, "x", oc[1]))
            else:
                s = s.copy()
                if cf not in self.closure_frames:
                    s.frames.pop(cf, None)
                out.append((s, "v", res))
        return out

    def assign_in(self, target, v, st, cf):
        if isinstance(target, ast.Name):
            st = st.copy()
            st.setvar(cf, target.id, v)
            return [(st, NEXT)]
        return self.assign(target, v, st, cf)

    def ev_ListComp(self, n, st, fid):
        def emit(s, cf, res):
            out = []
            for (s2, k, v) in self.ev(n.elt, s, cf):
                if k == "x":
                    out.append((s2, ("raise", v)))
                    continue
                s2 = s2.copy()
                h = s2.heap[res[1]]
                s2.heap[res[1]] = h.with_items(h.items + (("i", v),))
                out.append((s2, NEXT))
            return out
        return self.comp(n, st, fid, "set" if isinstance(n, ast.SetComp) else "list", emit)

    ev_GeneratorExp = ev_ListComp
    ev_SetComp = ev_ListComp

    def ev_DictComp(self, n, st, fid):
        def emit(s, cf, res):
            out = []
            for (s2, k, vs) in self.ev_many([n.key, n.value], s, cf):
                if k == "x":
                    out.append((s2, ("raise", vs)))
                    continue
                out.append((self.set_item(s2, res, vs[0], vs[1], n, cf), NEXT))
            return out
        return self.comp(n, st, fid, "dict", emit)

    # ---- attributes
    def mangle(self, name, fid):
        if name.startswith("__") and not name.endswith("__"):
            f = self.frame_info[fid][0]
            while f is not None and f.cls is None:
                f = f.parent
            if f is not None and f.cls is not None:
                return "_%s%s" % (f.cls.name.lstrip("_"), name)
        return name

    def ev_Attribute(self, n, st, fid):
        out = []
        for (s, k, b) in self.ev(n.value, st, fid):
            if k == "x":
                out.append((s, k, b))
            else:
                out.extend(self.get_attr(s, b, n.attr, n, fid))
        return out

    def catches(self, *names):
        for c in self.catch:
            for t in c:
                if t in names:
                    return True
        return False

    def get_attr(self, st, b, name, node, fid):
        k = b[0]
        mname = self.mangle(name, fid) if fid is not None and fid in self.frame_info else name
        if k == "ext":
            return [(st, "v", ("ext", b[1] + "." + name))]
        if k == "excval":
            return [(st, "v", ("attr", b, name))]
        if k == "pp":
            r = self.path_attr(st, b, name)
            if r is not None:
                return [(st, "v", r)]
        if k == "stat" and name == "st_size" and self.path_size is not None:
            return [(st, "v", C(self.path_size))]
        if k == "stat" and self.path_time is not None and name in ("st_mtime", "st_ctime", "st_atime", "st_mtime_ns", "st_ctime_ns"):
            return [(st, "v", C(self.path_time(b[1]) * (10 ** 9 if name.endswith("ns") else 1)))]
        if k == "propobj" and name in ("getter", "setter", "deleter"):
            return [(st, "v", ("propupd", b, name))]
        if k == "super":
            r = self.p.find_member(b[2], name, after=b[3])
            if r is None:
                return [(st, "v", ("attr", b, name))]
            if r[0] == "method":
                return [(st, "v", ("bm", b[1], self.method_value(st, r[1])))]
            if r[0] == "prop" and r[1].getter is not None:
                return self.call_func(st, r[1].getter, [b[1]], {}, node, fid)
            return [(st, "v", ("attr", b, name))]
        if k == "mod":
            m = self.p.modules[b[1]]
            r = self.p.resolve_name(m, name)
            if r is None:
                return [(st, "v", ("ext", m.short + "." + name))]
            if r[0] == "glob":
                return self.global_value(st, r[1], r[2])
            return [(st, "v", self.entity(r, name))]
        if k == "cls":
            c = self.p.by_qual.get(b[1])
            if c is not None:
                if name in ("__name__", "__qualname__"):
                    return [(st, "v", C(c.name))]
                r = self.p.find_member(c, mname)
                if r is not None:
                    if r[0] == "method":
                        return [(st, "v", self.method_value(st, r[1]))]
                    if r[0] == "attr":
                        return self.class_attr(st, r[2], mname)
                    if r[0] == "inner":
                        return [(st, "v", ("cls", r[1].qual))]
            return [(st, "v", ("attr", b, name))]
        if k == "o":
            h = st.heap[b[1]]
            if h.kind != "inst":
                return [(st, "v", ("bm", b, ("cm", name)))]
            if name == "__class__":
                if b[1] in self.exact_class or h.fresh:
                    return [(st, "v", ("cls", h.cls.qual))]
                return [(st, "v", ("pc", "type", (b,), ()))]
            if name == "__dict__":
                return [(st, "v", ("attr", b, "__dict__"))]
            spec = self.attr_specs.get(name)
            if spec is not None:
                r = spec(self, st, b, name, node, fid)
                if r is not None:
                    return r
            r = self.p.find_member(h.cls, mname)
            if r is not None and r[0] == "prop":
                p = r[1]
                if p.typed is not None:
                    return self.typed_get(st, b, p, r[2], node, fid)
                if p.getter is not None:
                    return self.call_func(st, p.getter, [b], {}, node, fid)
                return [(st, "v", ("attr", b, name))]
            if mname in h.fields:
                v = h.fields[mname]
                if v == ABSENT:
                    return [(st, "x", ("exc", "AttributeError", (C(mname),)))]
                return [(st, "v", v)]
            if r is not None:
                if r[0] == "method":
                    f = r[1]
                    fv = self.method_value(st, f)
                    if f.kind == "static":
                        return [(st, "v", fv)]
                    if f.kind == "classmethod":
                        return [(st, "v", ("bm", ("cls", h.cls.qual), fv))]
                    return [(st, "v", ("bm", b, fv))]
                if r[0] == "attr":
                    if self.ever_assigned(h.cls, mname) and not h.fresh:
                        return [(st, "v", ("init", b[1], mname))]
                    return self.class_attr(st, r[2], mname)
                if r[0] == "inner":
                    return [(st, "v", ("cls", r[1].qual))]
            if h.fresh and not self.p.external_bases(h.cls):
                return [(st, "x", ("exc", "AttributeError", (C(mname),)))]
            has = ("has", b, mname)
            f = st.facts.get(has)
            if f is False:
                return [(st, "x", ("exc", "AttributeError", (C(mname),)))]
            v = ("init", b[1], mname)
            if f is None and self.catches("AttributeError"):
                s1 = st.copy()
                s1.facts[has] = True
                s2 = st.copy()
                s2.facts[has] = False
                return [(s1, "v", v), (s2, "x", ("exc", "AttributeError", (C(mname),)))]
            return [(st, "v", v)]
        if b == NONE and not hasattr(None, name):
            return [(st, "x", ("exc", "AttributeError", (C(name),)))]
        if k == "tuple" or is_c(b) or k == "cat":
            return [(st, "v", ("bm", b, ("cm", name)))]
        if k == "bm" and name in ("__func__",):
            return [(st, "v", b[2])]
        if k in ("bm", "fn") and name == "__name__":
            f = self.func_of(b)
            if f is not None:
                return [(st, "v", C(f.name))]
        # opaque value
        key = ("A", b, name)
        if key in st.ext:
            return [(st, "v", st.ext[key])]
        r = self.member_of_term(st, b, mname)
        if r is not None and r[0] == "method":
            return [(st, "v", ("bm", b, self.method_value(st, r[1])))]
        return [(st, "v", ("attr", b, name))]

    def term_class(self, st, b):
        """Statically inferred program class of an opaque term (from constructor assignments)."""
        if b[0] == "o":
            h = st.heap.get(b[1])
            return h.cls if h is not None else None
        if b[0] == "init":
            h = st.heap.get(b[1])
            if h is not None and h.cls is not None:
                return self.field_class(h.cls, b[2])
        if b[0] == "s" and len(b) > 2 and b[2] in self.p.by_qual:
            return self.p.by_qual[b[2]]
        if b[0] == "attr":
            c = self.term_class(st, b[1])
            if c is not None:
                return self.field_class(c, b[2])
        return None

    def field_class(self, cls, field):
        key = (cls.qual, field)
        if key in self.fieldtypes_cache:
            return self.fieldtypes_cache[key]
        self.fieldtypes_cache[key] = None
        found = set()
        for k in self.p.mro(cls):
            for f in list(k.methods.values()) + [g for p in k.props.values() for g in (p.getter, p.setter) if g]:
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call):
                        for t in x.targets:
                            if isinstance(t, ast.Attribute) and t.attr in (field, "_" + field) and isinstance(t.value, ast.Name):
                                d = dotted(x.value.func)
                                if d is None:
                                    continue
                                r = self.p.resolve_name(f.module, d.split(".")[0])
                                c = None
                                if r is not None and r[0] == "cls" and "." not in d:
                                    c = r[1]
                                elif r is None or r[0] in ("mod", "ext"):
                                    c = self.p.cls(d.split(".")[-1], required=False)
                                if c is not None:
                                    found.add(c)
        res = found.pop() if len(found) == 1 else None
        self.fieldtypes_cache[key] = res
        return res

    def member_of_term(self, st, b, name):
        c = self.term_class(st, b)
        if c is None:
            return None
        return self.p.find_member(c, name)

    def func_of(self, v):
        if v[0] == "bm":
            return self.func_of(v[2])
        if v[0] == "fn":
            return self.closures[v[1]][0]
        return None

    def ever_assigned(self, cls, name):
        key = ("assigned", cls.qual, name)
        if key not in self.fieldtypes_cache:
            r = False
            for k in self.p.mro(cls):
                for x in ast.walk(k.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr == name:
                        r = True
            self.fieldtypes_cache[key] = r
        return self.fieldtypes_cache[key]

    def class_attr(self, st, owner, name):
        expr = owner.attrs[name]
        oid = ("ca", owner.qual, name)
        if oid in st.heap:
            return [(st, "v", ("o", oid))]
        gf = ("gf", owner.module.rel)
        s = st.copy()
        if gf not in s.frames:
            s.frames[gf] = {}
        self.frame_info[gf] = (None, owner.module, None, None)
        try:
            tr = s.trace
            res = self.ev(expr, s, gf)
            if len(res) == 1 and res[0][1] == "v" and res[0][0].trace == tr:
                s2, _, v = res[0]
                if v[0] == "o":
                    h = s2.heap.pop(v[1])
                    s2.heap[oid] = HObj(h.kind, h.cls, h.fresh, False, h.fields, h.items)
                    s2.heap[oid].shared = True
                    v = ("o", oid)
                return [(s2, "v", v)]
        except Imprecise:
            pass
        return [(st, "v", ("clsattr", owner.qual, name))]

    def typed_get(self, st, b, p, owner, node, fid):
        h = st.heap[b[1]]
        fld = "_" + p.name
        if fld in h.fields and h.fields[fld] != ABSENT:
            return [(st, "v", h.fields[fld])]
        if not h.fresh:
            return [(st, "v", ("init", b[1], fld))]
        dflt = None
        for k in p.typed.keywords:
            if k.arg == "default":
                dflt = k.value
            if k.arg == "default_factory" and isinstance(k.value, ast.Name) and k.value.id in ("list", "dict", "set"):
                dflt = {"list": ast.List(elts=[], ctx=ast.Load()), "dict": ast.Dict(keys=[], values=[]),
                        "set": ast.Call(func=ast.Name(id="set", ctx=ast.Load()), args=[], keywords=[])}[k.value.id]
                ast.fix_missing_locations(ast.copy_location(dflt, k.value))
        if len(p.typed.args) > 2 and dflt is None:
            dflt = p.typed.args[2]
        if dflt is None:
            return [(st, "v", ("tpdefault", owner.qual, p.name))]
        gf = ("gf", owner.module.rel)
        s = st.copy()
        s.frames.setdefault(gf, {})
        self.frame_info[gf] = (None, owner.module, None, None)
        out = []
        for (s2, k2, v) in self.ev(dflt, s, gf):
            if k2 == "v":
                s2 = s2.copy()
                s2.heap[b[1]] = s2.heap[b[1]].with_field(fld, v)
            out.append((s2, k2, v))
        return out

    def set_attr(self, st, b, name, v, node, fid):
        if b[0] == "o" and st.heap[b[1]].kind == "inst":
            h = st.heap[b[1]]
            r = self.p.find_member(h.cls, name) if h.cls is not None else None
            if r is not None and r[0] == "prop":
                p = r[1]
                if p.typed is not None:
                    s = st.copy()
                    s.heap[b[1]] = h.with_field("_" + p.name, v)
                    if not h.fresh or self.record_fresh:
                        self.emit(s, "setf", (b, "_" + p.name, self.reify(s, v)), node, fid)
                    return [(s, "v", NONE)]
                if p.setter is not None:
                    res = self.call_func(st, p.setter, [b, v], {}, node, fid)
                    return [(s, k, NONE if k == "v" else x) for (s, k, x) in res]
                return [(st, "x", ("exc", "AttributeError", (C(name),)))]
            s = st.copy()
            s.heap[b[1]] = s.heap[b[1]].with_field(name, v)
            s.facts.pop(("has", b, name), None)
            if not h.fresh or self.record_fresh:
                self.emit(s, "setf", (b, name, self.reify(s, v)), node, fid)
            return [(s, "v", NONE)]
        s = st.copy()
        s.ext[("A", b, name)] = v
        self.emit(s, "seta", (b, name, self.reify(s, v)), node, fid)
        return [(s, "v", NONE)]

    def del_attr(self, st, b, name, node, fid):
        if b[0] == "o" and st.heap[b[1]].kind == "inst":
            h = st.heap[b[1]]
            r = self.p.find_member(h.cls, name) if h.cls is not None else None
            if r is not None and r[0] == "prop" and r[1].deleter is not None:
                return self.call_func(st, r[1].deleter, [b], {}, node, fid)
            if r is not None and r[0] == "prop" and r[1].typed is not None:
                s = st.copy()
                s.heap[b[1]] = h.with_field("_" + r[1].name, ABSENT)
                if not h.fresh or self.record_fresh:
                    self.emit(s, "delf", (b, "_" + r[1].name), node, fid)
                return [(s, "v", NONE)]
            out = []
            cur = h.fields.get(name)
            has = ("has", b, name)
            may_lack = cur == ABSENT or (cur is None and st.facts.get(has) is not True and not (h.fresh and False))
            if cur == ABSENT or st.facts.get(has) is False and cur is None:
                return [(st, "x", ("exc", "AttributeError", (C(name),)))]
            if cur is None and may_lack and (self.catches("AttributeError") or self.implicit):
                s0 = st.copy()
                s0.facts[has] = False
                out.append((s0, "x", ("exc", "AttributeError", (C(name),))))
            s = st.copy()
            s.heap[b[1]] = s.heap[b[1]].with_field(name, ABSENT)
            if not h.fresh or self.record_fresh:
                self.emit(s, "delf", (b, name), node, fid)
            out.append((s, "v", NONE))
            return out
        s = st.copy()
        s.ext.pop(("A", b, name), None)
        self.emit(s, "dela", (b, name), node, fid)
        return [(s, "v", NONE)]

    # ---- subscripts
    def ev_index(self, n, st, fid):
        if isinstance(n, ast.Slice):
            nodes = [x if x is not None else ast.Constant(value=None) for x in (n.lower, n.upper, n.step)]
            out = []
            for (s, k, vs) in self.ev_many(nodes, st, fid):
                out.append((s, k, vs) if k == "x" else (s, "v", ("slice",) + tuple(vs)))
            return out
        return self.ev(n, st, fid)

    def ev_Subscript(self, n, st, fid):
        out = []
        for (s, k, b) in self.ev(n.value, st, fid):
            if k == "x":
                out.append((s, k, b))
                continue
            for (s2, k2, i) in self.ev_index(n.slice, s, fid):
                if k2 == "x":
                    out.append((s2, k2, i))
                    continue
                out.extend(self.get_item(s2, b, i, n, fid))
        return out

    def norm_container(self, b):
        if b[0] == "pm" and b[1] == "keys" and not b[3]:
            return b[2]
        return b

    def get_item(self, st, b, i, node, fid):
        b = self.norm_container(b)
        if b == NONE:
            return [(st, "x", ("exc", "TypeError", ()))]
        if b[0] == "attr" and b[2] == "__dict__" and is_str_c(i):
            return self.instance_dict(st, b[1], "__getitem__", [i], node, fid)
        if b[0] == "rem":
            r = self.fold_method(st, b, "__getitem__", [i], {}, node, fid)
            if r is not None:
                return r
        if b[0] == "o":
            h = st.heap[b[1]]
            if h.kind == "inst":
                r = self.p.find_member(h.cls, "__getitem__")
                if r is not None and r[0] == "method":
                    return self.call_func(st, r[1], [b, i], {}, node, fid)
                return [(st, "v", ("sub", b, i))]
            if h.kind == "dict":
                return self.dict_get(st, b, i, node, fid, None)
        known = self.known_items(st, b)
        if known is not None:
            if is_int_c(i):
                try:
                    return [(st, "v", known[cval(i)])]
                except IndexError:
                    return [(st, "x", ("exc", "IndexError", ()))]
            if i[0] == "slice" and all(is_c(x) for x in i[1:]):
                part = known[slice(*[x[2] for x in i[1:]])]
                if b[0] == "tuple":
                    return [(st, "v", ("tuple", tuple(part)))]
                if is_str_c(b):
                    return [(st, "v", C(b[2][slice(*[x[2] for x in i[1:]])]))]
                s = st.copy()
                return [(s, "v", self.new_obj(s, "list", node, fid, items=[("i", x) for x in part]))]
        v = self.sub(st, b, i)
        out = [(st, "v", v)]
        inb = st.facts.get(("cmp", "In", i, b))
        exc = None
        if is_int_c(i):
            if self.catches("IndexError", "LookupError", "KeyError") or self.implicit_lookup:
                exc = ("exc", "IndexError" if self.catches("IndexError") or not self.catches("KeyError") else "KeyError", ())
        elif i[0] != "slice":
            if inb is not True and (self.catches("KeyError", "LookupError") or self.implicit_lookup):
                exc = ("exc", "KeyError", (i,))
        if inb is False:
            return [(st, "x", ("exc", "KeyError", (i,)))]
        if exc is not None:
            s1 = st.copy()
            s2 = st.copy()
            if exc[1] == "KeyError":
                s1.facts[("cmp", "In", i, b)] = True
                s2.facts[("cmp", "In", i, b)] = False
            out = [(s1, "v", v), (s2, "x", exc)]
        elif self.try_depth > 0 and not self.calm and self.catch and not self.catches("AttributeError") and self.catch_broad():
            s1 = st.copy()
            s2 = st.copy()
            out = [(s1, "v", v), (s2, "x", ("exc", "LookupError", ()))]
        return out

    def catch_broad(self):
        return any(t in ("Exception", "BaseException", "*") for c in self.catch for t in c)

    def dict_get(self, st, d, i, node, fid, default):
        """default None -> KeyError"""
        h = st.heap[d[1]]
        out = []
        cur = st
        opened = False
        for x in h.items:
            if x[0] == "kv":
                if x[1] == i:
                    out.append((cur, "v", x[2]))
                    return out
                dcd = self.decide_cmp(cur, ("cmp", "Eq", i, x[1]))
                if dcd is True:
                    out.append((cur, "v", x[2]))
                    return out
                if dcd is False:
                    continue
                if cur.facts.get(self.eq_atom(i, x[1])[0]) is False:
                    continue
                s1 = cur.copy()
                if self.assume(s1, ("cmp", "Eq", i, x[1]), True):
                    out.append((s1, "v", x[2]))
                cur = cur.copy()
                if not self.assume(cur, ("cmp", "Eq", i, x[1]), False):
                    return out
            else:
                opened = True
        if opened or not h.fresh:
            out.append((cur, "v", ("sub", self.reify(cur, d), i) if h.fresh else ("sub", d, i)))
            if default is not None:
                out.append((cur, "v", default))
            return out
        if default is not None:
            out.append((cur, "v", default))
        else:
            out.append((cur, "x", ("exc", "KeyError", (i,))))
        return out

    def sub(self, st, b, i):
        b = self.norm_container(b)
        if b[0] == "tuple" and is_int_c(i):
            try:
                return b[1][cval(i)]
            except IndexError:
                pass
        key = (b, i)
        if key in st.ext:
            return st.ext[key]
        return ("sub", self.reify(st, b), i)

    def set_item(self, st, b, i, v, node, fid):
        st = st.copy()
        b = self.norm_container(b)
        if b[0] == "o":
            h = st.heap[b[1]]
            if h.kind == "dict":
                items = [x for x in h.items if not (x[0] == "kv" and x[1] == i)]
                had = len(items) != len(h.items)
                if had:
                    items = [("kv", i, v) if (x[0] == "kv" and x[1] == i) else x for x in h.items]
                else:
                    items.append(("kv", i, v))
                st.heap[b[1]] = h.with_items(items)
                if not h.fresh or h.shared or self.record_fresh:
                    self.emit(st, "seti", (b, i, self.reify(st, v)), node, fid)
                return st
            if h.kind == "list" and is_int_c(i) and all(x[0] == "i" for x in h.items):
                items = list(h.items)
                try:
                    items[cval(i)] = ("i", v)
                    st.heap[b[1]] = h.with_items(items)
                except IndexError:
                    pass
                if not h.fresh or h.shared:
                    self.emit(st, "seti", (b, i, self.reify(st, v)), node, fid)
                return st
            if h.kind == "list" and i[0] == "slice" and all(x[0] == "i" for x in h.items) and all(x == NONE or is_int_c(x) for x in i[1:]):
                new = self.known_items(st, v)
                if new is not None:
                    items = list(h.items)
                    try:
                        items[slice(*[cval(x) for x in i[1:]])] = [("i", x) for x in new]
                        st.heap[b[1]] = h.with_items(items)
                        if not h.fresh or h.shared:
                            self.emit(st, "seti", (b, i, self.reify(st, v)), node, fid)
                        return st
                    except ValueError:
                        pass
            if h.kind == "inst":
                r = self.p.find_member(h.cls, "__setitem__")
                self.emit(st, "seti", (b, i, self.reify(st, v)), node, fid)
                st.ext[(b, i)] = v
                return st
            st.heap[b[1]] = h.with_items((("topseg", self.uid(st, node, fid, "top")),))
            return st
        self.emit(st, "seti", (b, i, self.reify(st, v)), node, fid)
        for key in list(st.ext):
            if key[0] == b and not (is_c(key[1]) and is_c(i) and key[1] != i):
                del st.ext[key]
        self.invalidate(st, b, keep_in=True)
        st.ext[(b, i)] = v
        st.facts[("cmp", "In", i, b)] = True
        return st

    def invalidate(self, st, b, keep_in=False):
        for a in list(st.facts):
            if a[0] in ("isnone", "isinst", "has"):
                continue
            if keep_in and a[0] == "cmp" and a[1] == "In" and a[3] == b and st.facts[a] is True:
                continue
            if mentions(a, b):
                del st.facts[a]
        for a in list(st.ranges):
            if mentions(a, b):
                del st.ranges[a]

    def mutate_opaque(self, st, b, meth, args, node, fid, kwargs=()):
        ra = tuple(self.reify(st, a) for a in args)
        self.emit(st, "mut", (meth, b, ra), node, fid)
        keep = {}
        for a in list(st.facts):
            if a[0] == "cmp" and a[1] == "In" and a[3] == b:
                keep[a] = st.facts[a]
        self.invalidate(st, b)
        if meth in ("add", "append", "setdefault", "extend", "insert", "update"):
            for a, v in keep.items():
                if v:
                    st.facts[a] = v
            if meth in ("add", "append", "setdefault") and args:
                for a, v in keep.items():
                    if not v and self.decide_cmp(st, ("cmp", "Eq", a[2], args[0])) is False:
                        st.facts[a] = v
                st.facts[("cmp", "In", args[0], b)] = True
        elif meth in ("remove", "discard", "pop") and args:
            for a, v in keep.items():
                if not v:
                    st.facts[a] = v
                elif self.decide_cmp(st, ("cmp", "Eq", a[2], args[0])) is False:
                    st.facts[a] = v
            st.facts[("cmp", "In", args[0], b)] = False
        for key in list(st.ext):
            if key[0] == b and meth not in ("add",):
                del st.ext[key]

    # ---- reification of fresh containers into immutable terms
    def reify(self, st, v, depth=0):
        if depth > 8:
            return v
        if v[0] == "o":
            h = st.heap.get(v[1])
            if h is None or h.kind == "inst" or not h.fresh:
                return v
            if h.kind == "dict":
                return ("D",) + tuple(self.reify_seg(st, x, depth + 1) for x in h.items)
            return ({"list": "L", "set": "S"}[h.kind],) + tuple(self.reify_seg(st, x, depth + 1) for x in h.items)
        if v[0] == "tuple":
            return ("tuple", tuple(self.reify(st, x, depth + 1) for x in v[1]))
        if v[0] in ("cat", "pc", "pm", "sub", "bin", "not", "cmp"):
            if any(x[0] == "o" for x in subterms(v)):
                return self.reify_deep(st, v, depth + 1)
        return v

    def reify_deep(self, st, v, depth):
        if not isinstance(v, tuple):
            return v
        if v and v[0] == "o":
            return self.reify(st, v, depth)
        return tuple(self.reify_deep(st, x, depth + 1) if isinstance(x, tuple) and depth < 12 else x for x in v)

    def reify_seg(self, st, x, depth):
        if x[0] == "i":
            return ("i", self.reify(st, x[1], depth))
        if x[0] == "kv":
            return ("kv", self.reify(st, x[1], depth), self.reify(st, x[2], depth))
        return x

    def segments_of(self, st, v, node, fid):
        out = []
        for sg in self.iter_segments(st, v, node, fid):
            if sg[0] == "src":
                uid = ("seg", self.reify(st, sg[1]), sg[2])
                self.loop_sources.setdefault(uid, (sg[1], sg[2]))
                out.append(("each", uid, (self.reify(st, sg[1]), sg[2]), ((frozenset(), (self.elem_value(st, sg[1], sg[2], uid),)),)))
            else:
                out.append(sg)
        return out

    # ------------------------------------------------------------ truth and facts
    def truth_of(self, n, st, fid):
        """-> [(state, 'v', bool) | (state, 'x', exc)]"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur = [st]
            done = []
            for i, e in enumerate(n.values):
                nxt = []
                for s in cur:
                    for (s2, k, b) in self.truth_of(e, s, fid):
                        if k == "x":
                            done.append((s2, k, b))
                        elif b == isand:
                            nxt.append(s2)
                        else:
                            done.append((s2, "v", b))
                cur = nxt
            done.extend((s, "v", isand) for s in cur)
            return self.merge_val(done)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, k, (not b) if k == "v" else b) for (s, k, b) in self.truth_of(n.operand, st, fid)]
        out = []
        for (s, k, v) in self.ev(n, st, fid):
            if k == "x":
                out.append((s, k, v))
            else:
                out.extend((s2, "v", b) for (s2, b) in self.truth(s, v))
        return self.merge_val(out)

    def truth(self, st, v):
        """-> [(state, bool)]"""
        t = self.static_truth(st, v)
        if t is not None:
            return [(st, t)]
        if v[0] == "not":
            return [(s, not b) for (s, b) in self.truth(st, v[1])]
        if v[0] == "cmp" and v[1] == "In":
            r = self.truth_in(st, v[2], v[3])
            if r is not None:
                return r
        if v[0] == "pc" and v[1] == "isinstance" and len(v[2]) == 2:
            return self.truth_isinst(st, v[2][0], v[2][1])
        if v[0] == "pc" and v[1] == "bool" and len(v[2]) == 1:
            return self.truth(st, v[2][0])
        out = []
        for b in (True, False):
            s = st.copy()
            if self.assume(s, v, b):
                out.append((s, b))
        return out

    def static_truth(self, st, v):
        k = v[0]
        if k == "cpe" or k == "s" and v[1] in self.solid:
            return True
        if k == "c":
            return bool(v[2])
        if k == "o":
            h = st.heap[v[1]]
            if h.kind == "inst":
                if self.p.find_member(h.cls, "__len__") or self.p.find_member(h.cls, "__bool__"):
                    return None
                return True
            if not h.items:
                return False if h.fresh else None
            if any(x[0] in ("i", "kv") for x in h.items):
                return True
            return None
        if k == "tuple":
            return len(v[1]) > 0
        if k in ("fn", "bm", "cls", "ext", "mod", "exc", "excval", "rx", "rem", "pp"):
            if k == "ext" and v[1].startswith("os.environ"):
                return None
            return True
        if k == "cat":
            if any(is_str_c(p) for p in v[1]):
                return True
            return None
        if k == "L" or k == "S" or k == "D":
            if len(v) == 1:
                return False
            if any(x[0] in ("i", "kv") for x in v[1:]):
                return True
            return None
        if k == "not":
            t = self.static_truth(st, v[1])
            return None if t is None else not t
        if k == "cmp":
            return self.decide_cmp(st, v)
        if k == "pc" and v[1] == "callable" and v[2] and v[2][0][0] in ("fn", "bm", "cls"):
            return True
        return None

    def truth_in(self, st, a, b):
        """membership in a container with known items: case split; None when unknown"""
        items = None
        opened = False
        if b[0] == "tuple":
            items = list(b[1])
        elif b[0] in ("L", "S"):
            items = [x[1] for x in b[1:] if x[0] == "i"]
            opened = len(items) != len(b) - 1
        elif b[0] == "D":
            items = [x[1] for x in b[1:] if x[0] == "kv"]
            opened = len(items) != len(b) - 1
        elif b[0] == "o":
            h = st.heap[b[1]]
            if h.kind in ("list", "set"):
                items = [x[1] for x in h.items if x[0] == "i"]
            elif h.kind == "dict":
                items = [x[1] for x in h.items if x[0] == "kv"]
            else:
                r = self.p.find_member(h.cls, "__contains__") if h.cls is not None else None
                return None
            opened = len(items) != len(h.items) or not h.fresh
        if items is None:
            return None
        out = []
        cur = st
        atom = ("cmp", "In", self.reify(st, a), self.reify(st, b))
        for x in items:
            d = self.decide_eq(cur, a, x)
            if d is True:
                out.append((cur, True))
                return out
            if d is False:
                continue
            s1 = cur.copy()
            if self.assume(s1, ("cmp", "Eq", a, x), True):
                out.append((s1, True))
            cur = cur.copy()
            if not self.assume(cur, ("cmp", "Eq", a, x), False):
                return out
        if opened:
            f = cur.facts.get(atom)
            for bb in (True, False):
                if f is None or f == bb:
                    s = cur.copy()
                    s.facts[atom] = bb
                    out.append((s, bb))
        else:
            out.append((cur, False))
        return out

    def decide_eq(self, st, a, b):
        d = self.decide_cmp(st, ("cmp", "Eq", a, b))
        if d is not None:
            return d
        at, neg = self.eq_atom(a, b)
        f = st.facts.get(at)
        if f is not None:
            return f
        if is_c(b):
            for (x, bb) in st.facts.items():
                if bb and x[0] == "eqc" and x[1] == a and x[2] != b:
                    return False
            r = st.ranges.get(a)
            if r is not None and is_int_c(b):
                if cval(b) < r[0] or cval(b) > r[1] or cval(b) in r[2]:
                    return False
                if r[0] == r[1] == cval(b):
                    return True
        return None

    def eq_atom(self, a, b):
        if is_c(a) and not is_c(b):
            a, b = b, a
        if is_c(b):
            return ("eqc", a, b), False
        return ("cmp", "Eq") + tuple(sorted((a, b), key=repr)), False

    def type_names(self, t):
        if t[0] == "tuple":
            out = []
            for x in t[1]:
                out.extend(self.type_names(x))
            return out
        if t[0] in ("L",):
            return [y for x in t[1:] for y in self.type_names(x[1])]
        return [t]

    def truth_isinst(self, st, v, T):
        ts = self.type_names(T)
        out = []
        cur = st
        for t in ts:
            d = self.decide_isinst(cur, v, t)
            if d is True:
                out.append((cur, True))
                return out
            if d is False:
                continue
            s1 = cur.copy()
            if self.assume(s1, ("isinst", v, t), True):
                out.append((s1, True))
            cur = cur.copy()
            if not self.assume(cur, ("isinst", v, t), False):
                return out
        out.append((cur, False))
        return out

    def decide_isinst(self, st, v, t):
        name = t[1] if t[0] in ("ext", "cls") else None
        if v[0] in ("c", "tuple") or v[0] == "o" and st.heap[v[1]].kind in ("list", "dict", "set"):
            if t[0] == "cls" or name is not None and name.split(".")[-1] in ("Path", "PurePath", "PosixPath", "IOBase", "TextIOBase"):
                return False
            if v[0] != "c" and name in ("NoneType", "types.NoneType"):
                return False
        if is_c(v):
            ty = BUILTIN_TYPES.get(name)
            if ty is None and self.is_type_ext(t):
                ty = getattr(_bi, name)
            if ty is not None:
                return isinstance(v[2], ty)
            if name == "NoneType" or name == "types.NoneType":
                return v[2] is None
            if t[0] == "cls":
                return False
            if name is not None and name.split(".")[-1] in ("Path", "PurePath"):
                return False
            if name is not None and name.split(".")[-1] == "Iterable":
                return v[1] in ("str", "bytes")
            return None
        if v[0] == "pp" and name is not None:
            return False if name in BUILTIN_TYPES or t[0] == "cls" else True if name.split(".")[-1] in ("Path", "PurePath", "PosixPath", "PathLike") else None
        if v[0] in ("cat", "eachcat"):
            return name == "str" if name in BUILTIN_TYPES else None
        if v[0] == "tuple":
            if name in BUILTIN_TYPES:
                return name == "tuple"
            if name is not None and name.split(".")[-1] == "Iterable":
                return True
        if v[0] == "o":
            h = st.heap[v[1]]
            if h.kind in ("list", "dict", "set"):
                if name in BUILTIN_TYPES:
                    return name == h.kind
                if name is not None and name.split(".")[-1] == "Iterable":
                    return True
            if h.kind == "inst" and t[0] == "cls":
                c = self.p.by_qual.get(name)
                if c is not None and c in self.p.mro(h.cls):
                    return True
                if h.fresh or v[1] in self.exact_class:
                    return False
            if h.kind == "inst" and name in BUILTIN_TYPES:
                return False
        f = st.facts.get(("isinst", v, t))
        if f is not None:
            return f
        if v[0] == "ext" and "." in v[1] and v[1].split(".")[-1][:1].isupper() and name in BUILTIN_TYPES:
            return False                    # a class of a library
        if v[0] == "cls" or self.is_type_ext(v):
            if name == "type":
                return True
            if name in BUILTIN_TYPES:
                return False
            if v[0] == "ext" and self.is_type_ext(t):
                return isinstance(getattr(_bi, v[1]), getattr(_bi, name))
            if v[0] == "ext" and name is not None and name.split(".")[-1] in ("Iterable", "Sequence", "Collection", "Container", "Sized"):
                return False
        return None

    def rng(self, st, t):
        r = st.ranges.get(t)
        if r is None:
            lo = 0 if (t[0] == "pc" and t[1] == "len") else -INF
            r = (lo, INF, frozenset())
        return r

    def set_rng(self, st, t, lo=None, hi=None, ex=None):
        r = self.rng(st, t)
        lo2 = r[0] if lo is None else max(r[0], lo)
        hi2 = r[1] if hi is None else min(r[1], hi)
        ex2 = r[2] if ex is None else r[2] | {ex}
        while lo2 in ex2:
            lo2 += 1
        while hi2 in ex2:
            hi2 -= 1
        if lo2 > hi2:
            return False
        st.ranges[t] = (lo2, hi2, frozenset(x for x in ex2 if lo2 <= x <= hi2))
        return True

    def assume(self, st, v, b):
        """Add the fact "v is truthy == b" to st. False when it contradicts what is known."""
        while v[0] == "not":
            v, b = v[1], not b
        t = self.static_truth(st, v) if v[0] not in ("isinst", "isnone", "eqc", "has") else None
        if t is not None:
            return t == b
        if v[0] == "cmp":
            _, op, x, y = v
            if op == "Lt":
                # length comparisons with 0/1 are emptiness tests
                if is_int_c(y) and not is_c(x):
                    c = cval(y)
                    if b:
                        if not self.set_rng(st, x, hi=c - 1):
                            return False
                    else:
                        if not self.set_rng(st, x, lo=c):
                            return False
                    return self.sync_len(st, x)
                if is_int_c(x) and not is_c(y):
                    c = cval(x)
                    if b:
                        if not self.set_rng(st, y, lo=c + 1):
                            return False
                    else:
                        if not self.set_rng(st, y, hi=c):
                            return False
                    return self.sync_len(st, y)
                f = st.facts.get(v)
                if f is not None:
                    return f == b
                st.facts[v] = b
                return True
            if op == "Is":
                if y == NONE or x == NONE:
                    return self.assume(st, ("isnone", x if y == NONE else y), b)
                if y[0] == "c" and y[1] == "bool":
                    if b:
                        if not self.assume(st, ("eqc", x, y), True):
                            return False
                        return True
                    f = st.facts.get(("eqc", x, y))
                    if f is not None:
                        return f is False
                    st.facts[("eqc", x, y)] = False
                    return self.bool_link(st, x)
                if self.exact_cmp(x, y):
                    v = ("cmp", "Eq", x, y)
                    op = "Eq"
                else:
                    at = ("cmp", "Is") + tuple(sorted((x, y), key=repr))
                    f = st.facts.get(at)
                    if f is not None:
                        return f == b
                    st.facts[at] = b
                    return True
            if op == "Eq":
                at, _ = self.eq_atom(x, y)
                if at[0] == "eqc":
                    return self.assume(st, at, b)
                f = st.facts.get(at)
                if f is not None:
                    return f == b
                st.facts[at] = b
                return True
            if op == "In":
                f = st.facts.get(v)
                if f is not None:
                    return f == b
                # x == k decided?
                st.facts[v] = b
                return True
        if v[0] == "isnone":
            x = v[1]
            if self.never_none(st, x):
                return not b
            if x == NONE:
                return b
            f = st.facts.get(v)
            if f is not None:
                return f == b
            if b:
                if st.facts.get(x) is True:
                    return False
                for (a, bb) in st.facts.items():
                    if bb and a[0] == "eqc" and a[1] == x and a[2] != NONE:
                        return False
                    if bb and a[0] == "isinst" and a[1] == x:
                        return False
            st.facts[v] = b
            return True
        if v[0] == "eqc":
            x, c = v[1], v[2]
            if c == NONE:
                return self.assume(st, ("isnone", x), b)
            f = st.facts.get(v)
            if f is not None:
                return f == b
            if is_int_c(c) and c[1] == "int":
                if b:
                    if not self.set_rng(st, x, lo=cval(c), hi=cval(c)):
                        return False
                else:
                    if not self.set_rng(st, x, ex=cval(c)):
                        return False
                if not self.sync_len(st, x):
                    return False
            if b:
                for (a, bb) in list(st.facts.items()):
                    if a[0] == "eqc" and a[1] == x:
                        if bb and a[2] != c and not (is_int_c(a[2]) and is_int_c(c) and a[2][2] == c[2]):
                            return False
                        if not bb and a[2] == c:
                            return False
                    if a[0] == "isnone" and a[1] == x and bb:
                        return False
                    if a[0] == "isinst" and a[1] == x:
                        d = self.decide_isinst(st, c, a[2])
                        if d is not None and d != bb:
                            return False
                    if a[0] == "cmp" and a[1] == "In" and a[2] == x and a[3][0] in ("tuple",) and bb:
                        if c not in a[3][1]:
                            return False
                if x in st.facts and st.facts[x] != bool(c[2]):
                    return False
                st.facts[x] = bool(c[2])
            else:
                if c == C("") or c == C(0):
                    pass
                if not self.bool_neq(st, x, c):
                    return False
            st.facts[v] = b
            if not b:
                return self.bool_link(st, x)
            return True
        if v[0] == "isinst":
            d = self.decide_isinst(st, v[1], v[2])
            if d is not None:
                return d == b
            if b:
                tn = v[2][1] if v[2][0] in ("ext", "cls") else None
                for (a, bb) in st.facts.items():
                    if bb and a[0] == "isinst" and a[1] == v[1] and a[2] != v[2]:
                        on = a[2][1] if a[2][0] in ("ext", "cls") else None
                        if tn in BUILTIN_TYPES and on in BUILTIN_TYPES and {tn, on} != {"int", "bool"}:
                            return False
                    if bb and a[0] == "isnone" and a[1] == v[1]:
                        return False
                    if bb and a[0] == "eqc" and a[1] == v[1]:
                        d2 = self.decide_isinst(st, a[2], v[2])
                        if d2 is False:
                            return False
            st.facts[v] = b
            return True
        if v[0] == "has":
            f = st.facts.get(v)
            if f is not None:
                return f == b
            st.facts[v] = b
            return True
        # truthiness of an opaque value
        f = st.facts.get(v)
        if f is not None:
            return f == b
        if v[0] == "pc" and v[1] == "len":
            if not self.set_rng(st, v, lo=1 if b else None, hi=None if b else 0):
                return False
            return self.sync_len(st, v)
        if v in st.ranges:
            r = st.ranges[v]
            if b and not self.set_rng(st, v, ex=0):
                return False
            if not b and not self.set_rng(st, v, lo=0, hi=0):
                return False
        if b:
            if st.facts.get(("isnone", v)) is True:
                return False
            st.facts.setdefault(("isnone", v), False)
        for (a, bb) in st.facts.items():
            if bb and a[0] == "eqc" and a[1] == v and bool(a[2][2]) != b:
                return False
        st.facts[v] = b
        ln = ("pc", "len", (v,), ())
        if ln in st.ranges or b is not None:
            r = st.ranges.get(ln)
            if r is not None:
                if b and r[1] < 1 or not b and r[0] > 0:
                    return False
        if b:
            self.bool_link(st, v)
        return True

    def bool_neq(self, st, x, c):
        """x != c for a bool constant: when x is known to be a bool this decides it"""
        return True

    def bool_link(self, st, x):
        if st.facts.get(("isinst", x, ("ext", "bool"))) is True or x in self.bool_terms:
            t = st.facts.get(("eqc", x, TRUE))
            f = st.facts.get(("eqc", x, FALSE))
            if t is False and f is False:
                return False
            if t is False:
                if st.facts.get(x) is True:
                    return False
                st.facts[x] = False
            if f is False:
                if st.facts.get(x) is False:
                    return False
                st.facts[x] = True
        return True

    def sync_len(self, st, x):
        """keep emptiness and length intervals of the same container consistent"""
        if x[0] == "pc" and x[1] == "len":
            r = self.rng(st, x)
            c = x[2][0]
            t = self.static_truth(st, c)
            f = st.facts.get(c) if t is None else t
            if r[0] >= 1:
                if f is False:
                    return False
                if t is None:
                    st.facts[c] = True
            if r[1] <= 0:
                if f is True:
                    return False
                if t is None:
                    st.facts[c] = False
        return True

    def exact_cmp(self, x, y):
        return x[0] in ("cls", "ext") or y[0] in ("cls", "ext") or is_c(x) or is_c(y)
