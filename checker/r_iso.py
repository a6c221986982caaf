"""Debug output never changes results; instances never share state."""
import ast

from kit import *   # noqa: F401,F403
from terms import *   # noqa: F401,F403
from r_exc import Prop, DEF
from r_core import CPE, CPD, CPED, SEC, QUIET, HANDLER_EVENTS, USED, ACTIVE, hp_of, is_call
from r_global import own_walk, self_name, cache_decorated

SELF = ("o", "self")
LEVEL = ("debug_level", "_debug_level")


# ============================================================ C15
def msg_run(k, lvl, mlvl, prefix=None, end=None):
    e = k.engine()
    st = State()
    s = e.named_obj(st, "self", k.p.cls("Debuggable"), fields={"_debug_level": C(lvl)})
    e.record_fresh = True
    kw = {}
    if prefix is not None:
        kw["useprefix"] = C(prefix)
    if end is not None:
        kw["end"] = end
    return e, k.run(e, k.p.method("Debuggable", "debug_message"), [s, C(mlvl), ("s", "MSG")], st, kw)


def prints(tr):
    return [ev for ev in flat(tr) if ev.kind == "print"]


def noise(ev):
    """output and log recording"""
    if ev.kind == "print":
        return True
    txt = repr(ev.a)[:400]
    if ev.kind in ("callx", "ext") and ("flush" in txt or "stdout" in txt):
        return True
    return "_loginfo" in txt or "flush" in txt


def canon(trace):
    out = []
    for ev in trace:
        if ev.kind == "loop":
            alts = frozenset((canon(p.trace), repr(p.outcome[:1])) for p in ev.a[2])
            out.append(("loop", repr(ev.a[0]), alts))
            continue
        if noise(ev):
            continue
        out.append((ev.kind, repr(ev.a)))
    return tuple(out)


def debug_state(e, k, st, lvl, cname=CPE):
    return e.named_obj(st, "self", k.p.cls(cname), fields={"_debug_level": C(lvl)})


def dbg_parse(k, lvl):
    op = {x: "silent" for x in ("_validate_parameter", "_validate_handlerparameters")}
    op.update(HANDLER_EVENTS)
    e = k.engine(opaque=op)
    e.attr_specs = {"configparserdata": lambda en, s, b, n, nd, f: [(s, "v", CPD)] if b == SELF else None,
                    "configparserenhanceddata": lambda en, s, b, n, nd, f: [(s, "v", CPED)] if b == SELF else None}
    st = State()
    s = debug_state(e, k, st, lvl)
    e.bool_terms |= {("s", "INIT"), ("s", "FINAL")}
    return e, k.run(e, k.p.method(CPE, "parse_section"), [s, SEC, ("s", "INIT"), ("s", "FINAL")], st)


def dbg_raw(cname, mname):
    def go(k, lvl):
        e = k.engine(opaque=dict({x: "silent" for x in ("_validate_parameter", "_validate_handlerparameters")}, _parse_section_r="event"))
        e.attr_specs = {"configparserdata": lambda en, s, b, n, nd, f: [(s, "v", CPD)] if b == SELF else None,
                        "configparserenhanceddata": lambda en, s, b, n, nd, f: [(s, "v", CPED)] if b == SELF else None}
        st = State()
        s = debug_state(e, k, st, lvl, cname)
        sh = e.named_obj(st, "SH", None, kind="dict", items=(("kv", C("setenvironment"), ("s", "LIST")),))
        di = e.named_obj(st, "DI", None, kind="dict", items=(("kv", C("processed_sections"), ACTIVE),))
        hp = e.named_obj(st, "HP", k.p.cls("HandlerParameters"))
        st.heap["HP"] = HObj("inst", k.p.cls("HandlerParameters"), False, False, {
            "_params": ("s", "PARAMS"), "_section_root": ("s", "ROOT"), "_op": ("s", "OP"), "_data_internal": di, "_data_shared": sh,
            "_handler_name": ("s", "HNAME"), "_raw_option": ("tuple", (("s", "RAWKEY"), ("s", "RAWVAL"))), "_value": ("s", "RAWVAL")})
        f = k.p.method(cname, mname)
        res = e.call_func(st, f, [s, SEC, hp], {}, f.node, None, inline_always=True, raw=True)
        k.paths += len(res)
        return e, [(s2, ("return", v) if kk == "v" else ("raise", v)) for (s2, kk, v) in res]
    return go


def dbg_call(cname, mname, args):
    def go(k, lvl):
        e = k.engine(opaque=dict({x: "silent" for x in ("_validate_parameter",)}, parse_section="event", get_known_operations_message="pure"))
        e.attr_specs = {"configparserdata": lambda en, s, b, n, nd, f: [(s, "v", CPD)] if b == SELF else None,
                        "configparserenhanceddata": lambda en, s, b, n, nd, f: [(s, "v", CPED)] if b == SELF else None}
        st = State()
        s = debug_state(e, k, st, lvl, cname)
        return e, k.run(e, k.p.method(cname, mname), [s] + args, st)
    return go


def path_key(st, oc):
    return (canon(st.trace), oc[0], repr(oc[1]) if len(oc) > 1 else "")


def C15(k):
    dm = "Debuggable.debug_message"
    with k.rule("R1", "a debug message is printed once exactly when the level reaches it, with its text, and does nothing else", dm):
        for lvl in range(6):
            for ml in range(-3, 6):
                for pre in (None, False):
                    e, res = msg_run(k, lvl, ml, pre)
                    for st, oc in res:
                        pr = prints(st.trace)
                        k.ob(oc[0] == "return", dm, "debug message of level %d at level %d ends with %s" % (ml, lvl, oc[0]))
                        if lvl < ml:
                            k.ob(not pr, dm, "a debug message of level %d is printed at level %d" % (ml, lvl), path=path_text(st, oc))
                        else:
                            k.ob(len(pr) == 1 and mentions_ev(pr[0], ("s", "MSG")), dm, "a debug message of level %d is printed %d times at level %d" % (ml, len(pr), lvl), path=path_text(st, oc))
                            if ml > 0 and pre is None and pr:
                                k.ob("[D-%d]" % ml in repr(pr[0].a), dm, "the message of level %d carries the prefix of its level" % ml)
                            if (ml <= 0 or pre is False) and pr:
                                k.ob("[D-" not in repr(pr[0].a), dm, "no prefix where none is asked for")
                        other = [ev for ev in flat(st.trace) if ev.kind in ("setf", "seta", "mut", "delf", "seti")]
                        k.ob(not other, dm, "printing changes state: %s" % [repr(x)[:80] for x in other[:2]])
        e, res = msg_run(k, 3, 1, None, ("s", "END"))
        for st, oc in res:
            pr = prints(st.trace)
            k.ob(len(pr) == 1 and mentions_ev(pr[0], ("s", "END")), dm, "the caller's line end is used")
    with k.rule("R2", "the debug level is a non-negative integer, 0 at the start", "Debuggable.debug_level"):
        for v, want in ((-5, 0), (-1, 0), (0, 0), (1, 1), (5, 5), (100, 100)):
            e = k.engine()
            st = State()
            s = e.named_obj(st, "self", k.p.cls("Debuggable"))
            for st2, kk, x in e.set_attr(st, s, "debug_level", C(v), k.p.cls("Debuggable").node, None):
                if kk != "v":
                    k.ob(False, "Debuggable.debug_level", "assigning %d raises" % v)
                    continue
                for st3, k3, y in e.get_attr(st2, s, "debug_level", k.p.cls("Debuggable").node, None):
                    k.ob(k3 == "v" and y == C(want), "Debuggable.debug_level", "assigned %d, reads %s" % (v, show(y)))
        e = k.engine()
        st = State()
        s = e.named_obj(st, "self", k.p.cls("Debuggable"), fresh=True)
        for st3, k3, y in e.get_attr(st, s, "debug_level", k.p.cls("Debuggable").node, None):
            k.ob(k3 == "v" and y == C(0), "Debuggable.debug_level", "unassigned, reads %s" % show(y))
    with k.rule("R3", "code that runs only at some debug level prints or logs, and nothing else", "program"):
        n = 0
        logs = log_functions(k)
        for f in k.p.all_functions():
            if f.cls is not None and f.cls.name == "Debuggable":
                continue
            n += 1
            for what, node in debug_branches(f):
                bad, unknown = debug_effects(f, node, f in logs)
                if bad:
                    k.ob(False, f.qual, "code under a debug-level condition %s" % bad[0], where="%s:%d" % (f.module.rel, node[0].lineno))
                elif unknown:
                    k.undecided(f.qual, "code under a debug-level condition: %s" % unknown[0])
                else:
                    k.ob(True, f.qual, "code under a debug-level condition only prints or logs")
        k.ob(True, "program", "%d functions scanned for debug-level conditions" % n)
    runs = [("ConfigParserEnhanced.parse_section", dbg_parse), ("ConfigParserEnhanced._handler_use", dbg_raw(CPE, "_handler_use")),
            ("ConfigParserEnhanced._generic_option_handler", dbg_raw(CPE, "_generic_option_handler")),
            ("SetEnvironment._handler_envvar_remove", dbg_raw("SetEnvironment", "_handler_envvar_remove")),
            ("SetEnvironment._handler_module_remove", dbg_raw("SetEnvironment", "_handler_module_remove")),
            ("SetEnvironment._handler_envvar_set", dbg_raw("SetEnvironment", "_handler_envvar_set")),
            ("SetEnvironment._handler_module_load", dbg_raw("SetEnvironment", "_handler_module_load")),
            ("SetEnvironment.handler_finalize", dbg_raw("SetEnvironment", "handler_finalize")),
            ("ConfigParserEnhanced.assert_section_all_options_handled", dbg_call(CPE, "assert_section_all_options_handled", [SEC])),
            ("ConfigParserEnhanced.get_known_operations", dbg_call(CPE, "get_known_operations", [])),
            ("SetEnvironment.apply", dbg_call("SetEnvironment", "apply", [SEC])),
            ("SetEnvironment.generate_actions_script", dbg_call("SetEnvironment", "generate_actions_script", [SEC])),
            ]
    for name, go in runs:
        with k.rule("R4", "the same paths, effects and results at debug level 0 and at a high one, apart from output and log", name):
            base = None
            for lvl in (0, 5):
                e, res = go(k, lvl)
                keys = {path_key(st, oc) for st, oc in res}
                if base is None:
                    base = keys
                    continue
                k.ob(True, name, "%d paths compared" % len(keys)) if keys == base else differ(k, name, base, keys)


def differ(k, name, a, b):
    """the sets of effect traces with outcomes differ (the facts of a path do not enter the comparison)"""
    for x in (b - a) or (a - b):
        k.ob(False, name, "with debug output %s, there is a path that acts or ends differently: %s %s" % ("on" if b - a else "off", x[1], x[2][:120]))
        return


def mentions_ev(ev, t):
    return any(mentions(x, t) for x in ev.a if isinstance(x, tuple))


def reads_level(n, locals_):
    for x in ast.walk(n):
        if isinstance(x, ast.Attribute) and x.attr in LEVEL:
            return True
        if isinstance(x, ast.Name) and x.id in locals_:
            return True
    return False


def debug_branches(f):
    """(kind, statements) that run depending on the debug level"""
    locs = set()
    for n in own_walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            if isinstance(n.value, ast.Attribute) and n.value.attr in LEVEL or isinstance(n.value, ast.Compare) and reads_level(n.value, set()):
                locs.add(n.targets[0].id)
    for n in own_walk(f.node):
        if isinstance(n, (ast.If, ast.While)) and reads_level(n.test, locs):
            if n.body:
                yield "body", n.body
            if n.orelse:
                yield "else", n.orelse
        if isinstance(n, ast.IfExp) and reads_level(n.test, locs):
            yield "ifexp", [n]


LOGCALLS = {"print", "debug_message", "_loginfo_add", "_loginfo_print", "flush", "format", "str", "repr", "len", "ljust", "rjust", "join", "items", "keys", "values", "isinstance", "write",
            "info", "debug", "sorted", "list", "dict", "append", "max", "pprint", "dumps", "replace", "enumerate", "TypeError"}
STATEMUT = {"append", "update", "pop", "clear", "extend", "insert", "remove", "setdefault", "add", "discard", "write"}


def log_functions(k):
    """the functions that keep the log records: named so, or called from no other function than those"""
    funcs = list(k.p.all_functions())
    calls = {}
    for f in funcs:
        for n in own_walk(f.node):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if nm is not None:
                calls.setdefault(nm, set()).add(f)
    logs = {f for f in funcs if f.name.startswith("_loginfo")}
    while True:
        more = {f for f in funcs if f not in logs and f.name.startswith("_") and calls.get(f.name) and calls[f.name] <= logs}
        if not more:
            return logs
        logs |= more


def debug_effects(f, stmts, log):
    bad, unknown = [], []
    local = set()
    for st in stmts:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                local.add(n.id)
    for st in stmts:
        if isinstance(st, ast.IfExp):
            unknown.append("a value chosen by the debug level")
            continue
        for n in ast.walk(st):
            if isinstance(n, ast.Return):
                if stmts is not None and n.value is not None or True:
                    (unknown if log else bad).append("returns")
            elif isinstance(n, (ast.Break, ast.Continue)):
                bad.append("leaves or continues a loop") if not inside_loop(st, n) else None
            elif isinstance(n, ast.Raise):
                if not log:
                    unknown.append("raises")
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if "log" not in n.attr and "debug" not in n.attr:
                    bad.append("assigns the attribute %s" % n.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                base = n.value
                if not (isinstance(base, ast.Name) and (base.id in local or log)) and not (isinstance(base, ast.Attribute) and "log" in base.attr):
                    bad.append("stores an item of %s" % ast.unparse(base))
            elif isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "?")
                if nm in STATEMUT and isinstance(n.func, ast.Attribute):
                    b = n.func.value
                    if isinstance(b, ast.Name) and b.id in local or "log" in ast.unparse(b) or "stdout" in ast.unparse(b) or "stderr" in ast.unparse(b):
                        continue
                    unknown.append("changes %s" % ast.unparse(b))
                elif nm not in LOGCALLS:
                    unknown.append("calls %s" % nm)
    # locals assigned there and read elsewhere
    inside = {id(n) for st in stmts for n in ast.walk(st)}
    for n in own_walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local and id(n) not in inside:
            unknown.append("assigns %s, which is read elsewhere" % n.id)
            break
    return bad, unknown


def inside_loop(root, node):
    for n in ast.walk(root):
        if isinstance(n, (ast.For, ast.While)) and any(x is node for x in ast.walk(n)):
            return True
    return False


# ============================================================ C16
MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MUTCALLS = {"list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter", "bytearray"}
MUTMETH = {"append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "add", "discard", "sort", "reverse", "appendleft"}


def is_mutable_expr(v):
    if isinstance(v, MUTABLE):
        return True
    return isinstance(v, ast.Call) and (getattr(v.func, "id", None) or getattr(v.func, "attr", None)) in MUTCALLS


def mutations(f, pred):
    """places where an object denoted by an expression satisfying pred is changed"""
    for n in own_walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTMETH and pred(n.func.value):
            yield n, "%s()" % n.func.attr
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and pred(n.value):
            yield n, "item assignment"
        if isinstance(n, ast.AugAssign) and pred(n.target):
            yield n, "in-place operator"


def C16(k):
    funcs = list(k.p.all_functions())
    with k.rule("R1", "no mutable class attribute is changed or handed out through instances", "program"):
        n = 0
        for c in k.p.by_qual.values():
            for name, v in c.attrs.items():
                n += 1
                if not isinstance(v, ast.AST) or not is_mutable_expr(v):
                    continue
                users = [f for f in funcs if f.cls is not None and (c in k.p.mro(f.cls) or f.cls in k.p.mro(c))]
                inst = [f for f in users for x in own_walk(f.node) if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == self_name(f)]
                hit = [(f, x, w) for f in users for x, w in mutations(f, lambda b: isinstance(b, ast.Attribute) and b.attr == name)]
                # also through a property or function that returns it
                ret = [f for f in users for x in own_walk(f.node) if isinstance(x, ast.Return) and isinstance(x.value, ast.Attribute) and x.value.attr == name]
                if hit and not any(f.name == "__init__" for f in inst):
                    k.ob(False, "%s.%s" % (c.qual, name), "the class attribute is shared by all instances and changed in %s (%s)" % (hit[0][0].qual, hit[0][2]), where=hit[0][0].loc)
                elif ret and any(hands_out(k, c, name, f) for f in ret):
                    rr = [g for g in funcs for x, w in mutations(g, lambda b, r=ret: isinstance(b, ast.Attribute) and b.attr in {y.name for y in r})]
                    if rr:
                        k.ob(False, "%s.%s" % (c.qual, name), "the class attribute, shared by all instances, is handed out by %s and changed in %s" % (ret[0].qual, rr[0].qual), where=rr[0].loc)
                    else:
                        k.undecided("%s.%s" % (c.qual, name), "a mutable class attribute is handed out")
        k.ob(True, "program", "%d classes, %d class attributes" % (len(k.p.by_qual), n))
    with k.rule("R2", "no function stores into a class or a module-level object", "program"):
        n = 0
        classes = {c.name for c in k.p.by_qual.values()}
        for f in funcs:
            n += 1
            me = self_name(f)
            is_cm = any(getattr(d, "id", "") == "classmethod" for d in f.decorators)
            for x in own_walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    b = x.value
                    t = None
                    if isinstance(b, ast.Name) and (b.id in classes and b.id not in local_names(f) or is_cm and b.id == me):
                        t = b.id
                    if isinstance(b, ast.Call) and getattr(b.func, "id", "") == "type" or isinstance(b, ast.Attribute) and b.attr == "__class__":
                        t = ast.unparse(b)
                    if t:
                        k.ob(False, f.qual, "assigns %s.%s, which all instances share" % (t, x.attr), where="%s:%d" % (f.module.rel, x.lineno))
                if isinstance(x, ast.Call) and getattr(x.func, "id", "") in ("setattr", "delattr") and x.args:
                    b = x.args[0]
                    if isinstance(b, ast.Name) and b.id in classes and b.id not in local_names(f) or isinstance(b, ast.Call) and getattr(b.func, "id", "") == "type" or isinstance(b, ast.Attribute) and b.attr == "__class__":
                        k.ob(False, f.qual, "sets an attribute of the class %s, which all instances share" % ast.unparse(b), where="%s:%d" % (f.module.rel, x.lineno))
            # module-level objects
            gl = set()
            for x in own_walk(f.node):
                if isinstance(x, ast.Global):
                    gl |= set(x.names)
            stores = [x for x in own_walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in gl]
            if stores:
                k.ob(False, f.qual, "assigns the module-level name %s, which all instances share" % stores[0].id, where="%s:%d" % (f.module.rel, stores[0].lineno))
            modmut = {g for g, v in module_globals(f.module).items() if is_mutable_expr(v)}
            loc = local_names(f)
            for x, w in mutations(f, lambda b: isinstance(b, ast.Name) and b.id in modmut and b.id not in loc):
                k.ob(False, f.qual, "changes the module-level object %s (%s), which all instances share" % (ast.unparse(x)[:40], w), where="%s:%d" % (f.module.rel, x.lineno))
            # objects kept in a class or a function: Class.x[...] = ..., function.x.append(...), also through a local name
            fnames = set(f.module.functions)
            alias = {}
            for x in own_walk(f.node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            alias.setdefault(t.id, []).append(x.value)

            def shared(b, depth=0):
                """an object reached from a class or function of the program, not from an instance"""
                inner = False
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    if isinstance(b, ast.Attribute) and b.attr == "__class__":
                        return inner
                    inner = True
                    b = b.value
                if isinstance(b, ast.Call) and getattr(b.func, "id", "") == "type" and len(b.args) == 1:
                    return inner
                if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "globals" and not b.args:
                    return True
                if not isinstance(b, ast.Name):
                    return False
                if b.id in loc:
                    vs = alias.get(b.id, ())
                    return depth < 4 and len(vs) == 1 and isinstance(vs[0], (ast.Attribute, ast.Subscript, ast.Call)) and shared(vs[0], depth + 1)
                return inner and (b.id in classes or b.id in fnames or is_cm and b.id == me)
            for x, w in mutations(f, shared):
                k.ob(False, f.qual, "changes an object kept in a class or function, which all instances share: %s (%s)" % (ast.unparse(x)[:60], w), where="%s:%d" % (f.module.rel, x.lineno))
        k.ob(True, "program", "%d functions scanned" % n)
    with k.rule("R3", "no mutable default argument is changed, kept or returned", "program"):
        n = 0
        for f in funcs:
            a = f.node.args
            pos = list(a.posonlyargs) + list(a.args)
            pairs = list(zip(reversed(pos), reversed(a.defaults))) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            for arg, d in pairs:
                n += 1
                if not is_mutable_expr(d):
                    continue
                nm = arg.arg
                # rebinding the name before use makes a private object
                hit = list(mutations(f, lambda b: isinstance(b, ast.Name) and b.id == nm))
                kept = [x for x in own_walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == nm and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in x.targets)]
                retd = [x for x in own_walk(f.node) if isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == nm]
                rebound = any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == nm for x in own_walk(f.node))
                if (hit or kept or retd) and not rebound:
                    what = "changed" if hit else "kept" if kept else "returned"
                    k.ob(False, f.qual, "the default of %s is one object for all calls, and it is %s" % (nm, what), where=f.loc)
                elif hit or kept or retd:
                    k.undecided(f.qual, "mutable default of %s" % nm)
        k.ob(True, "program", "%d defaults" % n)
    with k.rule("R4", "no memoised function hands the same mutable object to different instances", "program"):
        n = 0
        for f in funcs:
            n += 1
            cd = cache_decorated(f)
            if not cd or cd == "cached_property":
                continue
            rets = [x.value for x in own_walk(f.node) if isinstance(x, ast.Return) and x.value is not None]
            mut = [r for r in rets if is_mutable_expr(r) or isinstance(r, ast.Call) and (getattr(r.func, "id", None) or getattr(r.func, "attr", None)) in {c.name for c in k.p.by_qual.values()} | {"ConfigParser"}]
            names = {x.targets[0].id: x.value for x in own_walk(f.node) if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)}
            mut += [r for r in rets if isinstance(r, ast.Name) and r.id in names and (is_mutable_expr(names[r.id]) or isinstance(names[r.id], ast.Call) and (getattr(names[r.id].func, "attr", None) or getattr(names[r.id].func, "id", None)) in {"ConfigParser"} | {c.name for c in k.p.by_qual.values()})]
            a = f.node.args.args
            if mut and (f.cls is None or not a or any(getattr(d, "id", "") == "staticmethod" for d in f.decorators)):
                k.ob(False, f.qual, "memoised for all callers, and what it returns can be changed by any of them", where=f.loc)
            else:
                k.undecided(f.qual, "memoised function")
        k.ob(True, "program", "%d functions scanned" % n)
    fn = "ConfigParserEnhanced.parse_section"
    with k.rule("R5", "every parse starts from its own, empty shared data", fn):
        from r_core import root_run
        e, res = root_run(k)
        n = 0
        for st, oc in res:
            evs = [ev for ev in st.trace if is_call(ev, "handler_initialize")]
            for ev in evs[:1]:
                f = hp_of(ev)
                if f is None or "_data_shared" not in f:
                    continue
                d = f["_data_shared"]
                cont, idn = content(d), identity(d)
                n += 1
                fresh = idn[0] == "o" and idn[1] not in ("self",) or cont == ("D",)
                k.ob(fresh, fn, "the shared data of a parse is %s" % show(idn)[:60], path=path_text(st, oc))
                if cont[0] == "D":
                    k.ob(cont == ("D",), fn, "the shared data starts as %s" % show(cont)[:60], path=path_text(st, oc))
        if not n:
            raise Undecided("no parse with an initialize handler found")
    with k.rule("R6", "the default of a typed property is copied in depth for every object, so no part of it is shared", "TypedProperty.typed_property"):
        P = Prop(k, default=DEF)
        s, o = P.fresh()
        for (s1, kk, v) in P.call(s, 1, [o]):
            if kk != "v":
                continue
            if v[0] == "pc" and v[1] == "copy.deepcopy" and v[2] == (DEF,):
                k.ob(True, "TypedProperty.typed_property", "deep copy")
            elif v == DEF or v[0] == "pc" and v[1] == "copy.copy":
                k.ob(False, "TypedProperty.typed_property", "an unassigned property reads as %s: objects share (parts of) the default" % show(v), path=path_text(s1, ("return", v)))
            else:
                k.undecided("TypedProperty.typed_property", "unassigned property reads as %s" % show(v))


def hands_out(k, c, name, f):
    """on a fresh instance, the reader returns without having made an instance attribute of its own"""
    if len(f.node.args.args) != 1:
        return False
    e = k.engine(opaque=dict(QUIET))
    st = State()
    s = e.named_obj(st, "self", c, fresh=True)
    try:
        res = e.call_func(st, f, [s], {}, f.node, None)
    except Imprecise:
        return False
    return any(kk == "v" and name not in s2.heap["self"].fields for s2, kk, v in res)


def local_names(f):
    a = f.node.args
    out = {x.arg for x in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs)} | {x.arg for x in (a.vararg, a.kwarg) if x}
    gl = set()
    for x in own_walk(f.node):
        if isinstance(x, ast.Global):
            gl |= set(x.names)
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
    return out - gl


def module_globals(m):
    out = {}
    for s in ast.walk(m.tree):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
    for s in m.tree.body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            out[s.target.id] = s.value
    return out
