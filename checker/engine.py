"""Abstract interpreter over the program's syntax trees.

Abstract values are provenance terms (where a value comes from), containers are lists of segments
(known elements and "one per iteration" elements), integers compared with constants are intervals.
Branches partition the abstract traces on the *atoms* they test; contradicting atoms (same atom with
both polarities, empty interval, two different constants) close a partition.  Loops over unknown
collections are summarised: the variables and containers the body changes are widened until stable, and
the body is kept as a nested set of abstract paths.  Calls are resolved statically (methods through the
MRO, properties, closures, decorators) and analysed in the caller's context; recursion and the calls a
rule declares opaque become effect events.  The program is never imported or run.
"""
import ast
import builtins as _bi

from model import Func, Class, Module, Prop, dotted
from terms import *   # noqa: F401,F403
from terms import ABSENT
from exprs import ExprMixin
from calls import CallMixin
from fold import FoldMixin


def ece_spec(eng, st, func, args, kwargs, node, fid):
    """Conditional exception: CATASTROPHIC always raises, anything else raises or continues."""
    s = st.copy()
    names = [a.arg for a in func.node.args.args]
    vals = dict(zip(names, args))
    vals.update(kwargs)
    ev = vals.get("event_type", ("top", "event"))
    et = vals.get("exception_type", ("top", "exc"))
    eng.emit(s, "ece", (ev, et), node, fid)
    name = et[1] if et[0] in ("ext", "cls", "exc") else None
    exc = ("exc", name, (("ece", ev),)) if name else ("raised", et)
    if is_str_c(ev) and ev[2].upper() == "CATASTROPHIC":
        return [(s, "x", exc)]
    s2 = s.copy()
    return [(s, "v", NONE), (s2, "x", exc)]


DEFAULT_OPAQUE = {"debug_message": "silent", "exception_control_event": ece_spec}


class Engine(ExprMixin, CallMixin, FoldMixin):
    def __init__(self, prog, opaque=None, implicit_raises=False, max_states=3000, max_steps=200000, unroll=24,
                 branch_hook=None, pure_extra=(), typed_fields=True):
        self.p = prog
        self.opaque = dict(opaque or {})
        self.opaque_default = None      # Func -> spec, for functions the table does not name
        self.implicit = implicit_raises
        self.max_states = max_states
        self.steps = 0
        self.max_steps = max_steps
        self.unroll = unroll
        self.closures = {}
        self.closure_frames = set()
        self.callstack = []
        self.try_depth = 0
        self.next_fid = 0
        self.frame_info = {}
        self.funcs_seen = set()
        self.calls_seen = 0
        self.loop_sources = {}
        self.pure_extra = set(pure_extra)
        self.typed_fields = typed_fields
        self.cur_loc = None
        self.fieldtypes_cache = {}
        self.max_depth = 40
        self.locals_cache = {}
        self.gen_cache = {}
        self.global_busy = set()
        self.strish_terms = set()
        self.bool_terms = set()
        self.exact_class = set()
        self.record_fresh = False
        self.snap_objs = set()
        self.dyn_has = None
        self.decide_hook = None
        self.attr_specs = {}
        self.method_specs = {}
        self.yield_hooks = {}
        self.cm_funcs = {}
        self.catch = []
        self.implicit_lookup = False
        self.split_get = False
        self.fold_compile = True
        self.solid = set()          # names of symbols that stand for objects (never None, true)
        self.fold_paths = False     # pathlib paths with constant text are followed
        self.path_exists = None     # text -> bool, for those paths
        self.path_size = None       # their size, when the rule fixes it
        self.path_time = None       # text -> time of modification, when the rule fixes it
        self.path_link = False      # whether they are symbolic links
        self.unroll_while = 0       # iterations a `while` with decided conditions is followed exactly
        self.calm = False           # calls the rule answers itself do not raise on their own
        for k, v in DEFAULT_OPAQUE.items():
            self.opaque.setdefault(k, v)

    # ------------------------------------------------------------ utilities
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("analysis budget exceeded")

    def site(self, node, fid):
        fi = self.frame_info.get(fid)
        return (fi[0].module.rel if fi and fi[0] is not None else "?", getattr(node, "lineno", 0), getattr(node, "col_offset", 0))

    def uid(self, st, node, fid, tag=""):
        s = self.site(node, fid) + (tag,)
        n = st.alloc.get(s, 0)
        st.alloc[s] = n + 1
        return (s, n)

    def loc(self, node, fid):
        fi = self.frame_info.get(fid)
        if fi is None or fi[0] is None:
            return "?"
        f = fi[0]
        return "%s:%s (%s)" % (f.module.rel, getattr(node, "lineno", "?"), f.qual)

    def emit(self, st, kind, args, node=None, fid=None):
        st.trace = st.trace + (Event(kind, args, self.loc(node, fid) if node is not None else None, None),)

    def note(self, st, text):
        st.notes = st.notes | {text}

    def new_obj(self, st, kind, node, fid, cls=None, items=(), fields=None, fresh=True, tag=""):
        oid = self.uid(st, node, fid, "o" + kind + tag)
        st.heap[oid] = HObj(kind, cls, fresh, False, fields, tuple(items))
        return ("o", oid)

    def named_obj(self, st, name, cls, fresh=False, fields=None, kind="inst", items=()):
        st.heap[name] = HObj(kind, cls, fresh, False, dict(fields or {}), tuple(items))
        return ("o", name)

    def dedupe(self, results, keyf):
        """Merge partitions that only differ in the facts that led to them."""
        if len(results) <= 1:
            return results
        seen = {}
        out = []
        for r in results:
            k = keyf(r)
            if k in seen:
                s = seen[k]
                o = r[0]
                s.facts = {a: b for a, b in s.facts.items() if o.facts.get(a) is b}
                rng = {}
                for t, v in s.ranges.items():
                    w = o.ranges.get(t)
                    if w is not None:
                        rng[t] = (min(v[0], w[0]), max(v[1], w[1]), v[2] & w[2])
                s.ranges = rng
                s.alloc = {x: max(s.alloc.get(x, 0), o.alloc.get(x, 0)) for x in set(s.alloc) | set(o.alloc)}
                s.notes = s.notes | o.notes
            else:
                s2 = r[0].copy()
                seen[k] = s2
                out.append((s2,) + tuple(r[1:]))
        if len(out) > self.max_states:
            raise Budget("too many abstract traces")
        return out

    def merge_stmt(self, results):
        return self.dedupe(results, lambda r: (r[0].key(), r[1]))

    def merge_val(self, results):
        return self.dedupe(results, lambda r: (r[0].key(), r[1], r[2]))

    # ------------------------------------------------------------ entry points
    def frame_unused(self, st, func, module, parent=None, cls=None):
        self.next_fid += 1
        fid = self.next_fid
        st.frames[fid] = {}
        self.frame_info[fid] = (func, module, parent, cls)
        return fid

    def run(self, func, args, state=None, kwargs=None):
        """Analyse a function from abstract arguments. -> [(state, ('return',v)|('raise',v))]"""
        st = state or State()
        if func.kind in ("method",) and self._needs_decoration(func):
            fv = self._decorated(st, func)
            out = []
            for (s, k, v) in fv:
                if k == "x":
                    out.append((s, ("raise", v)))
                    continue
                for (s2, k2, v2) in self.call_value(s, v, list(args), dict(kwargs or {}), func.node, None):
                    out.append((s2, ("return", v2) if k2 == "v" else ("raise", v2)))
            return out
        res = self.call_func(st, func, list(args), dict(kwargs or {}), func.node, None, inline_always=True)
        return [(s, ("return", v) if k == "v" else ("raise", v)) for (s, k, v) in res]

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fid):
        cur = [st]
        done = []
        for stmt in stmts:
            nxt = []
            for s in cur:
                for (s2, oc) in self.exec_stmt(stmt, s, fid):
                    if oc is NEXT or oc == NEXT:
                        nxt.append((s2, NEXT))
                    else:
                        done.append((s2, oc))
            nxt = self.merge_stmt(nxt)
            cur = [s for s, _ in nxt]
            if not cur:
                break
        return self.merge_stmt(done + [(s, NEXT) for s in cur])

    def exec_stmt(self, n, st, fid):
        self.tick()
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            raise Imprecise("statement %s at %s" % (type(n).__name__, self.loc(n, fid)))
        return m(n, st, fid)

    def st_Pass(self, n, st, fid):
        return [(st, NEXT)]

    def st_Expr(self, n, st, fid):
        if isinstance(n.value, ast.Constant):
            return [(st, NEXT)]
        return [(s, NEXT if k == "v" else ("raise", v)) for (s, k, v) in self.ev(n.value, st, fid)]

    def st_Import(self, n, st, fid):
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            tgt = a.name if a.asname else a.name.split(".")[0]
            mod = self.frame_info[fid][1]
            r = self.p.resolve_import(mod, tgt)
            st = st.copy()
            st.setvar(fid, nm, self.entity(r, tgt))
        return [(st, NEXT)]

    def st_ImportFrom(self, n, st, fid):
        mod = self.frame_info[fid][1]
        modname = "." * n.level + (n.module or "")
        st = st.copy()
        for a in n.names:
            tgt = (modname + "." if not modname.endswith(".") else modname) + a.name
            r = self.p.resolve_import(mod, tgt)
            st.setvar(fid, a.asname or a.name, self.entity(r, tgt.lstrip(".")))
        return [(st, NEXT)]

    def entity(self, r, tgt):
        if r is None:
            return ("ext", tgt)
        if r[0] == "cls":
            return ("cls", r[1].qual)
        if r[0] == "func":
            return self.func_value(r[1][0])
        if r[0] == "mod":
            return ("mod", r[1].rel)
        if r[0] == "glob":
            return ("glob", r[1].rel, r[2])
        return ("ext", r[1]) if r[0] == "ext" else ("ext", tgt)

    def func_value(self, func, frame=None):
        k = ("F", id(func.node), frame)
        self.closures[k] = (func, frame)
        if frame is not None:
            self.closure_frames.add(frame)
        return ("fn", k)

    def st_FunctionDef(self, n, st, fid):
        info = self.frame_info[fid]
        f = Func(n, info[1], None, "nested", parent=info[0])
        f.qual = (info[0].qual if info[0] else info[1].short) + "." + n.name
        v = self.func_value(f, fid)
        st = st.copy()
        # decorators on nested functions
        res = [(st, "v", v)]
        for d in reversed(n.decorator_list):
            nr = []
            for (s, k, val) in res:
                for (s2, k2, dv) in self.ev(d, s, fid):
                    if k2 == "x":
                        nr.append((s2, k2, dv))
                    elif dv == ("ext", "property"):
                        nr.append((s2, "v", ("propobj", val, NONE, NONE)))
                    elif dv[0] == "ext" or (dv[0] in ("call", "res", "pc")):
                        nr.append((s2, "v", val))   # external decorator: treated as transparent
                    else:
                        nr.extend(self.call_value(s2, dv, [val], {}, d, fid))
            res = nr
        out = []
        for (s, k, val) in res:
            if k == "x":
                out.append((s, ("raise", val)))
            else:
                s = s.copy()
                s.setvar(fid, n.name, val)
                out.append((s, NEXT))
        return out

    def st_ClassDef(self, n, st, fid):
        st = st.copy()
        st.setvar(fid, n.name, ("top", "localclass", n.name))
        return [(st, NEXT)]

    def st_Global(self, n, st, fid):
        return [(st, NEXT)]

    st_Nonlocal = st_Global

    def st_Return(self, n, st, fid):
        if n.value is None:
            return [(st, ("return", NONE))]
        return [(s, ("return", v) if k == "v" else ("raise", v)) for (s, k, v) in self.ev(n.value, st, fid)]

    def st_Raise(self, n, st, fid):
        if n.exc is None:
            cur = st.exc[-1] if st.exc else ("anyexc", "reraise")
            return [(st, ("raise", cur))]
        out = []
        for (s, k, v) in self.ev(n.exc, st, fid):
            if v[0] in ("c", "tuple", "cat") and k == "v":      # not an exception
                v = ("exc", "TypeError", (C("not an exception"),))
            out.append((s, ("raise", v)))
        return out

    def st_Assert(self, n, st, fid):
        out = []
        for (s, k, b) in self.truth_of(n.test, st, fid):
            if k == "x":
                out.append((s, ("raise", b)))
            elif b:
                out.append((s, NEXT))
            else:
                self.emit(s, "assertfail", (), n, fid)
                out.append((s, ("raise", ("exc", "AssertionError", ()))))
        return out

    def st_Delete(self, n, st, fid):
        cur = [(st, NEXT)]
        for t in n.targets:
            nxt = []
            for (s, oc) in cur:
                if oc != NEXT:
                    nxt.append((s, oc))
                    continue
                nxt.extend(self.delete(t, s, fid))
            cur = nxt
        return cur

    def delete(self, t, st, fid):
        if isinstance(t, ast.Name):
            st = st.copy()
            f = dict(st.frames[fid])
            f.pop(t.id, None)
            st.frames[fid] = f
            return [(st, NEXT)]
        if isinstance(t, ast.Attribute):
            out = []
            for (s, k, b) in self.ev(t.value, st, fid):
                if k == "x":
                    out.append((s, ("raise", b)))
                    continue
                for (s2, k2, v2) in self.del_attr(s, b, self.mangle(t.attr, fid), t, fid):
                    out.append((s2, NEXT if k2 == "v" else ("raise", v2)))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for (s, k, b) in self.ev(t.value, st, fid):
                if k == "x":
                    out.append((s, ("raise", b)))
                    continue
                for (s2, k2, i) in self.ev_index(t.slice, s, fid):
                    if k2 == "x":
                        out.append((s2, ("raise", i)))
                        continue
                    s2 = s2.copy()
                    b2 = self.norm_container(b)
                    if b2[0] == "attr" and b2[2] == "__dict__" and is_str_c(i):
                        for (s3, k3, v3) in self.del_attr(s2, b2[1], i[2], t, fid):
                            out.append((s3, NEXT if k3 == "v" else ("raise", v3)))
                        continue
                    if b2[0] == "o" and s2.heap[b2[1]].kind == "dict":
                        h = s2.heap[b2[1]]
                        if h.fresh and is_c(i) and all(x[0] == "kv" and is_c(x[1]) and x[1] != i for x in h.items):
                            out.append((s2, ("raise", ("exc", "KeyError", (i,)))))
                            continue
                        s2.heap[b2[1]] = h.with_items([x for x in h.items if not (x[0] == "kv" and x[1] == i)])
                        if not h.fresh:
                            self.emit(s2, "deli", (b2, i), t, fid)
                    elif b2[0] == "o" and s2.heap[b2[1]].kind == "list" and s2.heap[b2[1]].fresh and all(x[0] == "i" for x in s2.heap[b2[1]].items) and (is_int_c(i) or i[0] == "slice" and all(is_c(x) for x in i[1:])):
                        h = s2.heap[b2[1]]
                        left = list(h.items)
                        try:
                            del left[i[2] if is_int_c(i) else slice(*[x[2] for x in i[1:]])]
                        except IndexError:
                            out.append((s2, ("raise", ("exc", "IndexError", ()))))
                            continue
                        s2.heap[b2[1]] = h.with_items(left)
                    else:
                        self.emit(s2, "deli", (b2, i), t, fid)
                        s2.ext.pop((b2, i), None)
                        self.invalidate(s2, b2)
                    out.append((s2, NEXT))
            return out
        raise Imprecise("del target")

    def st_Assign(self, n, st, fid):
        out = []
        for (s, k, v) in self.ev(n.value, st, fid):
            if k == "x":
                out.append((s, ("raise", v)))
                continue
            cur = [(s, NEXT)]
            for t in n.targets:
                nxt = []
                for (s2, oc) in cur:
                    if oc != NEXT:
                        nxt.append((s2, oc))
                    else:
                        nxt.extend(self.assign(t, v, s2, fid))
                cur = nxt
            out.extend(cur)
        return out

    def st_AnnAssign(self, n, st, fid):
        if n.value is None:
            return [(st, NEXT)]
        out = []
        for (s, k, v) in self.ev(n.value, st, fid):
            if k == "x":
                out.append((s, ("raise", v)))
            else:
                out.extend(self.assign(n.target, v, s, fid))
        return out

    def st_AugAssign(self, n, st, fid):
        load = ast.copy_location(self._as_load(n.target), n.target)
        out = []
        for (s, k, a) in self.ev(load, st, fid):
            if k == "x":
                out.append((s, ("raise", a)))
                continue
            for (s2, k2, b) in self.ev(n.value, s, fid):
                if k2 == "x":
                    out.append((s2, ("raise", b)))
                    continue
                # in-place container updates
                done = self.inplace(s2, a, type(n.op).__name__, b, n, fid)
                if done is not None:
                    out.extend(done)
                    continue
                for (s3, k3, v) in self.binop(s2, type(n.op).__name__, a, b, n, fid):
                    if k3 == "x":
                        out.append((s3, ("raise", v)))
                    else:
                        out.extend(self.assign(n.target, v, s3, fid))
        return out

    def _as_load(self, t):
        import copy as _c
        t2 = _c.copy(t)
        t2.ctx = ast.Load()
        return t2

    def inplace(self, st, a, op, b, n, fid):
        if a[0] == "o":
            h = st.heap[a[1]]
            if h.kind in ("list", "set", "dict") and op in ("Add", "BitOr"):
                st = st.copy()
                segs = self.segments_of(st, b, n, fid)
                if h.kind == "dict":
                    return None
                h = st.heap[a[1]]
                st.heap[a[1]] = h.with_items(h.items + tuple(segs))
                if not h.fresh:
                    for sg in segs:
                        self.emit(st, "mut", ("append" if h.kind == "list" else "add", a, (sg[1],) if sg[0] == "i" else (sg,)), n, fid)
                return [(st, NEXT)]
            return None
        if op in ("BitOr", "Sub") and b[0] == "o" and st.heap[b[1]].kind == "set":
            st = st.copy()
            for sg in st.heap[b[1]].items:
                if sg[0] == "i":
                    self.mutate_opaque(st, a, "add" if op == "BitOr" else "discard", [sg[1]], n, fid)
            return [(st, NEXT)]
        return None

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            st = st.copy()
            st.setvar(self.var_frame(t.id, fid, st), t.id, v)
            return [(st, NEXT)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, st, fid, t)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fid)
        if isinstance(t, ast.Attribute):
            out = []
            for (s, k, b) in self.ev(t.value, st, fid):
                if k == "x":
                    out.append((s, ("raise", b)))
                    continue
                for (s2, k2, v2) in self.set_attr(s, b, self.mangle(t.attr, fid), v, t, fid):
                    out.append((s2, NEXT if k2 == "v" else ("raise", v2)))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for (s, k, b) in self.ev(t.value, st, fid):
                if k == "x":
                    out.append((s, ("raise", b)))
                    continue
                for (s2, k2, i) in self.ev_index(t.slice, s, fid):
                    if k2 == "x":
                        out.append((s2, ("raise", i)))
                        continue
                    out.append((self.set_item(s2, b, i, v, t, fid), NEXT))
            return out
        raise Imprecise("assignment target")

    def var_frame(self, name, fid, st):
        """frame that an assignment to name in fid writes to (nonlocal support)"""
        info = self.frame_info[fid]
        f = info[0]
        if f is not None and hasattr(f.node, "body") and isinstance(f.node.body, list):
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Nonlocal, ast.Global)) and name in x.names:
                    if isinstance(x, ast.Nonlocal):
                        p = info[2]
                        while p is not None:
                            if p in st.frames and name in st.frames[p]:
                                return p
                            p = self.frame_info[p][2]
        return fid

    def unpack(self, elts, v, st, fid, node):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.known_items(st, v)
        vals = []
        if items is None and is_c(v) and (v[2] is None or isinstance(v[2], (bool, int, float))):
            return [(st, ("raise", ("exc", "TypeError", ())))]
        if items is not None and (len(items) < len(elts) - 1 if star else len(items) != len(elts)):
            return [(st, ("raise", ("exc", "ValueError", ())))]
        if items is not None and not star and len(items) == len(elts):
            vals = list(items)
        elif items is not None and star and len(items) >= len(elts) - 1:
            i = star[0]
            after = len(elts) - i - 1
            st = st.copy()
            mid = items[i: len(items) - after]
            lst = self.new_obj(st, "list", node, fid, items=[("i", x) for x in mid])
            vals = list(items[:i]) + [lst] + (list(items[len(items) - after:]) if after else [])
        elif not star:
            vals = [self.sub(st, v, C(i)) for i in range(len(elts))]
        else:
            i = star[0]
            vals = [self.sub(st, v, C(j)) for j in range(i)]
            vals.append(self.sub(st, v, ("slice", C(i), NONE if i == len(elts) - 1 else C(i - len(elts) + 1), NONE)))
            vals += [self.sub(st, v, C(j - len(elts))) for j in range(i + 1, len(elts))]
        cur = [(st, NEXT)]
        for e, val in zip(elts, vals):
            nxt = []
            for (s, oc) in cur:
                if oc != NEXT:
                    nxt.append((s, oc))
                else:
                    nxt.extend(self.assign(e, val, s, fid))
            cur = nxt
        return cur

    def known_items(self, st, v):
        if v[0] == "tuple":
            return v[1]
        if v[0] == "o":
            h = st.heap[v[1]]
            if h.kind in ("list",) and all(s[0] == "i" for s in h.items):
                return tuple(s[1] for s in h.items)
        if is_str_c(v):
            return tuple(C(ch) for ch in v[2])
        return None

    def st_If(self, n, st, fid):
        out = []
        for (s, k, b) in self.truth_of(n.test, st, fid):
            if k == "x":
                out.append((s, ("raise", b)))
            else:
                out.extend(self.exec_block(n.body if b else n.orelse, s, fid))
        return self.merge_stmt(out)

    # ---- exceptions
    def st_Try(self, n, st, fid):
        names = []
        for h in n.handlers:
            if h.type is None:
                names.append("*")
            for x in ([h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts) if h.type is not None else []:
                names.append(dotted(x) or "?")
        if n.finalbody:
            names.append("finally")
        self.try_depth += 1
        self.catch.append(names)
        try:
            body = self.exec_block(n.body, st, fid)
        finally:
            self.try_depth -= 1
            self.catch.pop()
        out = []
        for (s, oc) in body:
            if oc[0] == "raise" and n.handlers and oc[1][0] != "ctl":
                out.extend(self.handle(n.handlers, s, oc[1], fid))
            elif oc == NEXT and n.orelse:
                out.extend(self.exec_block(n.orelse, s, fid))
            else:
                out.append((s, oc))
        out = self.merge_stmt(out)
        if n.finalbody:
            fin = []
            for (s, oc) in out:
                for (s2, oc2) in self.exec_block(n.finalbody, s, fid):
                    fin.append((s2, oc if oc2 == NEXT else oc2))
            out = self.merge_stmt(fin)
        return out

    st_TryStar = st_Try

    def exc_types(self, texpr, st, fid):
        """-> list of value terms for the handler's type expression (evaluated without effects)"""
        if texpr is None:
            return None
        res = self.ev(texpr, st, fid)
        v = res[0][2]
        if v[0] == "tuple":
            return list(v[1])
        items = self.known_items(st, v)
        return list(items) if items is not None else [v]

    def exc_match(self, st, exc, types):
        """-> True / False / None(unknown)"""
        if types is None:
            return True
        r = False
        for t in types:
            m = self.exc_match1(st, exc, t)
            if m is True:
                return True
            if m is None:
                r = None
        return r

    def exc_name(self, exc):
        if exc[0] == "exc":
            return exc[1]
        if exc[0] == "ext":
            return exc[1]
        if exc[0] == "cls":
            return exc[1]
        if exc[0] == "o":
            return None
        return None

    def exc_match1(self, st, exc, t):
        tn = None
        if t[0] == "ext":
            tn = t[1]
        elif t[0] == "cls":
            tn = t[1]
        if tn in ("BaseException",):
            return True
        en = self.exc_name(exc)
        if en is None:
            if exc[0] == "o":
                h = st.heap.get(exc[1])
                en = h.cls.qual if h is not None and h.cls is not None else None
            if en is None:
                if exc == t:
                    return True
                if exc[0] == "raised" and exc[1] == t:
                    return True
                if tn == "Exception" and exc[0] == "anyexc":
                    return None
                return None
        if tn is None:
            return None
        if en == tn:
            return True
        eb = getattr(_bi, en.split(".")[-1], None) if "." not in en else None
        tb = getattr(_bi, tn.split(".")[-1], None) if "." not in tn else None
        if isinstance(eb, type) and isinstance(tb, type):
            return issubclass(eb, tb)
        if tn == "Exception":
            if en in ("SystemExit", "KeyboardInterrupt", "GeneratorExit", "BaseException"):
                return False
            return True
        c = self.p.cls(en, required=False) if en in self.p.by_qual else None
        if c is not None:
            bases = {b for k in self.p.mro(c) for b in k.base_names} | {k.qual for k in self.p.mro(c)}
            if tn in bases:
                return True
            for b in bases:
                bb = getattr(_bi, b, None)
                if isinstance(bb, type) and isinstance(tb, type) and issubclass(bb, tb):
                    return True
            return False
        if isinstance(tb, type) and eb is None:
            return None
        if isinstance(eb, type) and tb is None:
            return False
        return None

    def handle(self, handlers, st, exc, fid):
        out = []
        cur = st
        for h in handlers:
            types = self.exc_types(h.type, cur, fid)
            m = self.exc_match(cur, exc, types)
            if m is False:
                continue
            s = cur.copy()
            e = exc
            if m is None and types is not None:
                names = [self.exc_name(t) for t in types]
                if exc[0] == "anyexc" and len(names) == 1 and names[0]:
                    e = ("exc", names[0], (exc,))
            s.exc = s.exc + (e,)
            if h.name:
                s.setvar(fid, h.name, ("excval", e))
            for (s2, oc) in self.exec_block(h.body, s, fid):
                s2 = s2.copy()
                s2.exc = s2.exc[:-1]
                if oc[0] == "raise" and oc[1][0] == "excval":
                    oc = ("raise", oc[1][1])
                out.append((s2, oc))
            if m is True:
                return out
        out.append((cur, ("raise", exc)))
        return out

    def st_With(self, n, st, fid):
        return self.merge_stmt(self.with_items(n, 0, st, fid))

    st_AsyncWith = st_With

    def with_items(self, n, i, st, fid):
        if i == len(n.items):
            return self.exec_block(n.body, st, fid)
        item = n.items[i]
        out = []

        def body(s, val):
            if item.optional_vars is None:
                return self.with_items(n, i + 1, s, fid)
            o2 = []
            for (s1, oc) in self.assign(item.optional_vars, val, s, fid):
                o2.extend(self.with_items(n, i + 1, s1, fid) if oc == NEXT else [(s1, oc)])
            return o2
        for (s, k, v) in self.ev(item.context_expr, st, fid):
            if k == "x":
                out.append((s, ("raise", v)))
                continue
            if v[0] == "cmgr":
                func = self.cm_funcs[v[1]]
                if "contextlib.suppress" == func:
                    continue
                for (s2, k2, v2) in self.call_func(s, func, list(v[2]), dict(v[3]), n, fid, closure=v[4], hook=body):
                    if k2 == "v":
                        out.append((s2, NEXT))
                    elif v2[0] == "ctl":
                        out.append((s2, v2[1]))
                    else:
                        out.append((s2, ("raise", v2)))
                continue
            if v[0] == "o" and s.heap[v[1]].kind == "inst" and self.p.find_member(s.heap[v[1]].cls, "__exit__"):
                for (s1, k1, ent) in self.call_method(s, v, "__enter__", [], n, fid):
                    if k1 == "x":
                        out.append((s1, ("raise", ent)))
                        continue
                    self.try_depth += 1
                    self.catch.append(["finally"])
                    try:
                        res = body(s1, ent)
                    finally:
                        self.try_depth -= 1
                        self.catch.pop()
                    for (s2, oc) in res:
                        a3 = [("pc", "type", (oc[1],), ()), oc[1], ("top", "tb")] if oc[0] == "raise" else [NONE, NONE, NONE]
                        for (s3, k3, v3) in self.call_method(s2, v, "__exit__", a3, n, fid):
                            if k3 == "x":
                                out.append((s3, ("raise", v3)))
                            elif oc[0] == "raise":
                                for (s4, b4) in self.truth(s3, v3):
                                    out.append((s4, NEXT if b4 else oc))
                            else:
                                out.append((s3, oc))
                continue
            sup = v[0] in ("res", "call", "pc") and str(v[1]).split(".")[-1] == "suppress"
            s = s.copy()
            self.emit(s, "with", (v,), n, fid)
            if sup:
                self.try_depth += 1
                self.catch.append([t[1] for t in v[2] if t[0] in ("ext", "cls")] if v[0] == "pc" else ["*"])
            try:
                res = body(s, v)
            finally:
                if sup:
                    self.try_depth -= 1
                    self.catch.pop()
            for (s2, oc) in res:
                s2 = s2.copy()
                self.emit(s2, "endwith", (v,), n, fid)
                if sup and oc[0] == "raise":
                    m = self.exc_match(s2, oc[1], list(v[2]) if v[0] == "pc" else None)
                    if m is not False:
                        out.append((s2, NEXT))
                    if m is not True:
                        out.append((s2.copy(), oc))
                else:
                    out.append((s2, oc))
        return out

    def call_method(self, st, obj, name, args, node, fid):
        out = []
        for (s, k, f) in self.get_attr(st, obj, name, node, fid):
            if k == "x":
                out.append((s, k, f))
            else:
                out.extend(self.call_value(s, f, args, {}, node, fid))
        return out

    # ---- loops
    def st_For(self, n, st, fid):
        out = []
        for (s, k, it) in self.ev(n.iter, st, fid):
            if k == "x":
                out.append((s, ("raise", it)))
                continue
            if it == NONE:
                out.append((s, ("raise", ("exc", "TypeError", ()))))
                continue
            out.extend(self.iterate(s, it, n, fid,
                                    lambda s1, v: self._for_body(n, s1, v, fid),
                                    lambda s1: self.exec_block(n.orelse, s1, fid) if n.orelse else [(s1, NEXT)]))
        return self.merge_stmt(out)

    st_AsyncFor = st_For

    def _for_body(self, n, st, v, fid):
        out = []
        for (s, oc) in self.assign(n.target, v, st, fid):
            if oc != NEXT:
                out.append((s, oc))
            else:
                out.extend(self.exec_block(n.body, s, fid))
        return out

    def st_While(self, n, st, fid):
        def body(s, _v):
            out = []
            for (s2, k, b) in self.truth_of(n.test, s, fid):
                if k == "x":
                    out.append((s2, ("raise", b)))
                elif b:
                    out.extend(self.exec_block(n.body, s2, fid))
                else:
                    out.append((s2, ("stop",)))
            return out
        limit = self.unroll_while or (0 if isinstance(n.test, ast.Constant) else 12)
        res = self.unroll_loop(n, st, fid, limit) if limit else None
        if res is None:
            res = self.abstract_loop(st, ("while", self.site(n, fid)), None, n, fid, body, is_while=True)
        out = []
        for (s, oc) in res:
            if oc == NEXT and n.orelse:
                out.extend(self.exec_block(n.orelse, s, fid))
            else:
                out.append((s, NEXT if oc == ("broke",) else oc))
        return self.merge_stmt(out)

    def unroll_loop(self, n, st, fid, limit):
        """the loop iteration by iteration while its condition is decided; None when it is not"""
        cur, out = [st], []
        for _ in range(limit):
            if len(cur) > 40:
                return None
            nxt = []
            for s in cur:
                tests = self.truth_of(n.test, s, fid)
                if len(tests) != 1:
                    return None
                s2, k, b = tests[0]
                if k == "x":
                    out.append((s2, ("raise", b)))
                elif not b:
                    out.append((s2, NEXT))
                else:
                    for (s3, oc) in self.exec_block(n.body, s2, fid):
                        if oc in (NEXT, CONT):
                            nxt.append(s3)
                        else:
                            out.append((s3, ("broke",) if oc == BREAK else oc))
            cur = nxt
            if not cur:
                return out
        return None

    def st_Break(self, n, st, fid):
        return [(st, BREAK)]

    def st_Continue(self, n, st, fid):
        return [(st, CONT)]

    def iter_segments(self, st, it, node, fid):
        """Describe an iterable: list of ('i', value) and ('src', base, mode) / ('each', ...)"""
        if it[0] == "tuple":
            return [("i", x) for x in it[1]]
        if is_str_c(it):
            return [("i", C(ch)) for ch in it[2]]
        if it[0] == "o":
            h = st.heap[it[1]]
            if h.kind in ("list", "set"):
                return list(h.items)
            if h.kind == "dict":
                if all(x[0] == "kv" for x in h.items) and (h.fresh):
                    return [("i", x[1]) for x in h.items]
                return [("src", it, "keys")]
            return [("src", it, "elem")]
        if it[0] == "pm" and it[1] in ("items", "keys", "values") and not it[3]:
            base = it[2]
            if base[0] == "o" and st.heap[base[1]].kind == "dict" and st.heap[base[1]].fresh and all(
                    x[0] == "kv" for x in st.heap[base[1]].items):
                items = st.heap[base[1]].items
                if it[1] == "items":
                    return [("i", ("tuple", (x[1], x[2]))) for x in items]
                if it[1] == "keys":
                    return [("i", x[1]) for x in items]
                return [("i", x[2]) for x in items]
            return [("src", base, it[1])]
        if it[0] == "enumerate":
            inner = self.iter_segments(st, it[1], node, fid)
            if all(x[0] == "i" for x in inner):
                start = it[2]
                return [("i", ("tuple", (C(cval(start) + i) if is_int_c(start) else ("idx", i), x[1]))) for i, x in enumerate(inner)]
            return [("src", it, "enumerate")]
        if it[0] == "pc" and it[1] == "range" and all(is_int_c(a) for a in it[2]):
            r = range(*[cval(a) for a in it[2]])
            if len(r) <= self.unroll:
                return [("i", C(x)) for x in r]
        if it[0] == "phi":
            return [("src", it, "elem")]
        return [("src", it, "elem")]

    def elem_value(self, st, src, mode, uid):
        if mode == "items":
            return ("tuple", (("key", uid, src), ("val", uid, src)))
        if mode == "keys":
            return ("key", uid, src)
        if mode == "values":
            return ("val", uid, src)
        if mode == "enumerate":
            inner = src[1]
            segs = self.iter_segments(st, inner, None, None)
            if len(segs) == 1 and segs[0][0] == "src":
                return ("tuple", (("idx", uid, inner), self.elem_value(st, segs[0][1], segs[0][2], uid)))
            return ("tuple", (("idx", uid, inner), ("elem", uid, inner)))
        if src[0] in ("s", "init", "attr", "sub", "call", "res", "pc", "pm", "o", "elem", "val", "key", "phi", "sorted", "reversed", "zip"):
            return ("elem", uid, src)
        return ("elem", uid, src)

    def iterate(self, st, it, node, fid, body, orelse):
        """Run body(state, element) over an iterable. -> statement results"""
        if it[0] == "enumerate":
            inner = self.iter_segments(st, it[1], node, fid)
            if not all(x[0] == "i" for x in inner):
                # the positions are unknown numbers; the elements are those of what is enumerated
                return self.iterate(st, it[1], node, fid, lambda s, v: body(s, ("tuple", (("idx", v), v))), orelse)
        segs = self.iter_segments(st, it, node, fid)
        if len(segs) > self.unroll and all(s[0] == "i" for s in segs):
            segs = [("src", it, "elem")]
        cur = [(st, NEXT)]
        done = []
        for sg in segs:
            nxt = []
            for (s, oc) in cur:
                if sg[0] == "i":
                    for (s2, oc2) in body(s, sg[1]):
                        if oc2 == NEXT or oc2 == CONT:
                            nxt.append((s2, NEXT))
                        elif oc2 == BREAK:
                            done.append((s2, NEXT))
                        else:
                            done.append((s2, oc2))
                elif sg[0] == "each":
                    # elements produced by an earlier loop/comprehension: same source, same conditions
                    _, uid0, src, opts = sg

                    def body_each(s1, _v, opts=opts):
                        res = []
                        skip = False
                        for (facts, vals) in opts:
                            if not vals:
                                skip = True
                                continue
                            s2 = s1.copy()
                            if not self.assume_all(s2, facts):
                                continue
                            cur2 = [(s2, NEXT)]
                            for val in vals:
                                n2 = []
                                for (s3, oc3) in cur2:
                                    if oc3 not in (NEXT, CONT):
                                        n2.append((s3, oc3))
                                    else:
                                        n2.extend(body(s3, val))
                                cur2 = n2
                            res.extend(cur2)
                        if skip:
                            for (facts, vals) in opts:
                                if not vals:
                                    s2 = s1.copy()
                                    if self.assume_all(s2, facts):
                                        res.append((s2, NEXT))
                        return res
                    for (s2, oc2) in self.abstract_loop(s, src, uid0, node, fid, body_each):
                        if oc2 == NEXT:
                            nxt.append((s2, NEXT))
                        elif oc2 == ("broke",):
                            done.append((s2, NEXT))
                        else:
                            done.append((s2, oc2))
                elif sg[0] == "src":
                    def body_src(s1, uid, sg=sg):
                        return body(s1, self.elem_value(s1, sg[1], sg[2], uid))
                    for (s2, oc2) in self.abstract_loop(s, (sg[1], sg[2]), None, node, fid, body_src):
                        if oc2 == NEXT:
                            nxt.append((s2, NEXT))
                        elif oc2 == ("broke",):
                            done.append((s2, NEXT))
                        else:
                            done.append((s2, oc2))
                else:
                    def body_top(s1, uid, sg=sg):
                        return body(s1, ("elem", uid, sg))
                    for (s2, oc2) in self.abstract_loop(s, (sg, "elem"), None, node, fid, body_top):
                        if oc2 == NEXT:
                            nxt.append((s2, NEXT))
                        elif oc2 == ("broke",):
                            done.append((s2, NEXT))
                        else:
                            done.append((s2, oc2))
            cur = self.merge_stmt(nxt)
            if not cur:
                break
        out = list(done)
        for (s, oc) in cur:
            out.extend(orelse(s))
        return self.merge_stmt(out)

    def assume_all(self, st, facts):
        for (a, b) in facts:
            if not self.assume(st, a, b):
                return False
        return True

    def abstract_loop(self, st, src, uid, node, fid, body, is_while=False):
        """Summarise a loop over an unknown number of iterations.

        -> [(state, NEXT | ('broke',) | ('return',v) | ('raise',v))]
        """
        st = st.copy()
        if uid is None:
            uid = self.uid(st, node, fid, "loop")
        else:
            uid = (uid, self.uid(st, node, fid, "loop2"))
        self.loop_sources[uid] = src
        base = st
        widened = {}      # ('var', fid, name) | ('field', oid, name) | ('items', oid) | ('ext', k) -> placeholder
        start = None
        for _round in range(8):
            start = base.copy()
            self.apply_widening(start, base, widened, uid)
            base_trace = start.trace
            start.trace = ()
            start_facts = dict(start.facts)
            start_ranges = dict(start.ranges)
            results = body(start.copy(), uid)
            new = False
            for (s, oc) in results:
                if oc == NEXT or oc == CONT:
                    for key in self.diff(start, s):
                        if key not in widened:
                            widened[key] = True
                            new = True
            if not new:
                break
        else:
            raise Imprecise("loop does not stabilise at %s" % self.loc(node, fid))
        paths = []
        ends_of = {}
        exits = []
        any_next = False
        for (s, oc) in results:
            fd = frozenset((a, b) for a, b in s.facts.items() if start_facts.get(a) is not b)
            rd = tuple(sorted(((repr(t), t, v) for t, v in s.ranges.items() if start_ranges.get(t) != v), key=lambda x: x[0]))
            ends = frozenset((key, self.current(s, key)) for key in widened)
            o = oc
            if oc == CONT:
                o = NEXT
            paths.append((LoopPath(fd, s.trace, o, ends, tuple((t, v) for _, t, v in rd)), s, o))
        uniq = []
        seenp = set()
        for (p, s, o) in paths:
            if p not in seenp:
                seenp.add(p)
                uniq.append(p)
        srcd = src
        ev = Event("loop", (srcd, uid, tuple(uniq)), self.loc(node, fid))
        out = []
        # normal exit
        after = base.copy()
        nextpaths = [(p, s) for (p, s, o) in paths if o == NEXT]
        self.apply_exit(after, base, widened, uid, src, nextpaths)
        after.trace = base.trace + (ev,)
        for (p, s, o) in paths:
            after.alloc = {x: max(after.alloc.get(x, 0), s.alloc.get(x, 0)) for x in set(after.alloc) | set(s.alloc)}
            after.notes = after.notes | s.notes
        if not is_while:
            out.append((after, NEXT))
        for (p, s, o) in paths:
            if o == NEXT:
                continue
            s2 = s.copy()
            s2.trace = base.trace + (ev,) + (Event("iter", (uid,), None),) + s.trace
            if o == BREAK:
                out.append((s2, ("broke",)))
            elif o == ("stop",):
                out.append((s2, NEXT))
            else:
                out.append((s2, o))
        return self.merge_stmt(out)

    def diff(self, a, b):
        """locations whose content differs between two states (b reached from a)"""
        out = []
        for f, vars_ in a.frames.items():
            bv = b.frames.get(f)
            if bv is None:
                continue
            for k, v in vars_.items():
                if bv.get(k, ABSENT) != v:
                    out.append(("var", f, k))
            # variables first defined inside the loop: keep them as maybe-defined
        for oid, h in a.heap.items():
            hb = b.heap.get(oid)
            if hb is None or hb == h:
                continue
            if hb.items != h.items:
                out.append(("items", oid))
            for k in set(h.fields) | set(hb.fields):
                if h.fields.get(k, ABSENT) != hb.fields.get(k, ABSENT):
                    if h.fields.get(k) is None and hb.fields.get(k) == ("init", oid, k):
                        continue
                    out.append(("field", oid, k))
        for k in set(a.ext) | set(b.ext):
            if a.ext.get(k) != b.ext.get(k):
                out.append(("ext", k))
        return out

    def current(self, st, key):
        if key[0] == "var":
            return st.frames.get(key[1], {}).get(key[2], ABSENT)
        if key[0] == "field":
            return st.heap[key[1]].fields.get(key[2], ABSENT)
        if key[0] == "items":
            return ("segs",) + tuple(st.heap[key[1]].items)
        return st.ext.get(key[1], ABSENT)

    def apply_widening(self, st, base, widened, uid):
        for key in widened:
            pre = self.current(base, key)
            if key[0] != "items" and self.strish(base, pre):
                self.strish_terms.add(self.current_lv(key, uid))
            if key[0] == "var":
                st.setvar(key[1], key[2], ("lv", uid, key[2]))
            elif key[0] == "field":
                h = st.heap[key[1]]
                st.heap[key[1]] = h.with_field(key[2], ("lv", uid, ("field", key[1], key[2])))
            elif key[0] == "items":
                h = st.heap[key[1]]
                st.heap[key[1]] = h.with_items(h.items + (("lvseg", uid),))
            else:
                st.ext[key[1]] = ("lv", uid, key)

    def apply_exit(self, st, base, widened, uid, src, nextpaths):
        for key in widened:
            if key[0] == "items":
                h = st.heap[key[1]]
                pre = base.heap[key[1]].items
                opts = []
                ok = True
                for (p, s) in nextpaths:
                    items = s.heap[key[1]].items
                    if items[: len(pre)] == pre and len(items) > len(pre) and items[len(pre)] == ("lvseg", uid):
                        added = items[len(pre) + 1:]
                        if all(x[0] == "i" for x in added):
                            opts.append((p.facts, tuple(x[1] for x in added)))
                        elif h.kind == "dict" and all(x[0] == "kv" for x in added):
                            opts.append((p.facts, tuple(("tuple", (x[1], x[2])) for x in added)))
                        elif len(added) == 1 and added[0][0] == "each":
                            opts.append((p.facts, (("flat", added[0]),)))
                        else:
                            ok = False
                    else:
                        ok = False
                if ok:
                    uo = []
                    for o in opts:
                        if o not in uo:
                            uo.append(o)
                    seg = ("each" if h.kind != "dict" else "eachkv", uid, src, tuple(uo))
                    st.heap[key[1]] = h.with_items(pre + (seg,))
                else:
                    st.heap[key[1]] = h.with_items((("topseg", uid),))
                continue
            pre = self.current(base, key)
            vals = []
            for (p, s) in nextpaths:
                v = self.current(s, key)
                if v not in vals:
                    vals.append(v)
            lv = self.current_lv(key, uid)
            # string accumulation:  s = s + ...
            if vals and all(v == lv or (v[0] == "cat" and v[1] and v[1][0] == lv and not any(mentions(x, lv) for x in v[1][1:]))
                            for v in vals):
                opts = []
                for (p, s) in nextpaths:
                    v = self.current(s, key)
                    o = (p.facts, () if v == lv else (("cat", v[1][1:]) if len(v[1]) > 2 else v[1][1],))
                    if o not in opts:
                        opts.append(o)
                post = cat([pre, ("eachcat", uid, src, tuple(opts))])
            else:
                cand = [pre] + [v for v in vals if v != lv and v != pre]
                post = cand[0] if len(cand) == 1 else ("phi", uid, key[2] if key[0] == "var" else key, tuple(cand))
            if key[0] == "var":
                st.setvar(key[1], key[2], post)
            elif key[0] == "field":
                h = st.heap[key[1]]
                st.heap[key[1]] = h.with_field(key[2], post)
            else:
                st.ext[key[1]] = post

    def current_lv(self, key, uid):
        if key[0] == "var":
            return ("lv", uid, key[2])
        if key[0] == "field":
            return ("lv", uid, ("field", key[1], key[2]))
        return ("lv", uid, key)
