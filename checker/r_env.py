"""SetEnvironment: recording, applying, scripting and removing actions."""
import ast
import itertools
import re
import string

from kit import *   # noqa: F401,F403
from terms import *   # noqa: F401,F403
from pools import counts
from r_core import CPE, CPD, CPED, SEC, QUIET, is_dispatch

SE = "SetEnvironment"
SELF = ("o", "self")

ENV1 = ("unset",)
ENV2 = ("append", "assert_not_empty", "find_in_path", "prepend", "remove_path_entry", "remove_substr", "set", "set_if_empty")
MODS = ("load", "purge", "swap", "unload", "use")


def operations(k):
    """recording operations of the class, from its handler methods: [(op, kind)]"""
    c = k.p.cls(SE)
    out = {}
    for kls in k.p.mro(c):
        for n in kls.methods:
            for pre in ("_handler_", "handler_"):
                if n.startswith(pre):
                    op = n[len(pre):]
                    if op.split("_")[0] in ("envvar", "module") and op not in ("envvar_remove", "module_remove"):
                        out[op] = kls.methods[n]
    return out


def specs(**m):
    return {n: (lambda v: lambda en, s, b, nm, nd, f: [(s, "v", v)] if b == SELF else None)(v) for n, v in m.items()}


def se_engine(k, opaque=None, **kw):
    e = k.engine(opaque=dict(QUIET, **(opaque or {})), **kw)
    return e


def se_obj(k, e, st, fields=None):
    return e.named_obj(st, "self", k.p.cls(SE), fields=fields)


# ---------------------------------------------------------------- handlers
def handler_run(k, func, op, params, value=("s", "VALUE"), shared="missing"):
    e = se_engine(k)
    st = State()
    s = se_obj(k, e, st)
    if not is_c(value):
        st.facts[("isnone", value)] = False
        st.facts[e.eq_atom(value, C(""))[0]] = False
    items = ()
    if shared == "missing":
        items = ()
    else:
        l = e.named_obj(st, "LIST", None, fresh=True, kind="list", items=(("i", ("s", "BEFORE")),))
        items = (("kv", C("setenvironment"), l),)
    sh = e.named_obj(st, "SH", None, fresh=True, kind="dict", items=items)
    hp = e.named_obj(st, "HP", k.p.cls("HandlerParameters"))
    st.heap["HP"] = HObj("inst", k.p.cls("HandlerParameters"), False, False, {
        "_params": ("tuple", tuple(params)), "_section_root": ("s", "ROOT"), "_op": C(op), "_data_shared": sh,
        "_handler_name": C(func.name), "_raw_option": ("tuple", (("s", "RAWKEY"), ("s", "RAWVAL"))), "_value": value})
    res = e.call_func(st, func, [s, ("s", "CUR"), hp], {}, func.node, None, inline_always=True, raw=True)
    k.paths += len(res)
    return e, res


def shared_list(st):
    d = st.heap["SH"]
    for x in d.items:
        if x[0] == "kv" and x[1] == C("setenvironment"):
            v = x[2]
            if v[0] == "o":
                return st.heap[v[1]].items
    return None


def dict_of(st, v):
    if v[0] == "o" and st.heap[v[1]].kind == "dict":
        return {x[1][2]: x[2] for x in st.heap[v[1]].items if x[0] == "kv" and is_c(x[1])}
    if v[0] == "D":
        return {x[1][2]: x[2] for x in v[1:] if x[0] == "kv" and is_c(x[1])}
    return None


# ---------------------------------------------------------------- execution of generated commands
def exec_spec(results, fail=False):
    """exec(code, globals, locals): one EXEC event; the result of the statement is results(code)"""
    def spec(eng, st, name, args, kwargs, node, fid):
        s = st.copy()
        code = eng.reify(s, args[0])
        eng.emit(s, "EXEC", (code,), node, fid)
        if fail:
            return [(s, "x", ("anyexc", "command"))]
        val = results(code)
        if name == "eval":
            return [(s, "v", val)]
        parts = code[1] if code[0] == "cat" else (code,)
        key = None
        if is_str_c(parts[0]) and "=" in parts[0][2]:
            key = parts[0][2].split("=")[0].strip()
        for ns in (args[1:] or []):
            if ns[0] == "o" and s.heap[ns[1]].kind == "dict" and key:
                h = s.heap[ns[1]]
                s.heap[ns[1]] = h.with_items(tuple(x for x in h.items if not (x[0] == "kv" and x[1] == C(key))) + (("kv", C(key), val),))
        return [(s, "v", NONE)]
    return spec


def call_spec(results, fail=False):
    def spec(eng, st, func, args, kwargs, node, fid):
        s = st.copy()
        code = ("cat", (C(func.name + "("),) + tuple(eng.reify(s, a) for a in args) + tuple(eng.reify(s, v) for v in kwargs.values()))
        eng.emit(s, "EXEC", (code,), node, fid)
        return [(s, "x", ("anyexc", "command"))] if fail else [(s, "v", results(code))]
    return spec


ACTS = (("envvar_set", "envvar", "1"), ("module_load", "module", "2"), ("envvar_prepend", "envvar", "3"))


def mk_actions(e, st, acts, names=True):
    items = []
    for op, kind, tag in acts:
        d = e.named_obj(st, "ACT" + tag, None, fresh=True, kind="dict", items=(("kv", C("op"), C(op)), ("kv", C(kind), ("s", "NAME" + tag)), ("kv", C("value"), ("s", "VAL" + tag))))
        for t in (("s", "NAME" + tag), ("s", "VAL" + tag)):
            st.facts[("isnone", t)] = False
            st.facts[("eqc", t, C(""))] = False
            st.facts[e.eq_atom(t, C(""))[0]] = False
        items.append(("i", d))
    l = e.named_obj(st, "ALIST", None, fresh=True, kind="list", items=tuple(items))
    return e.named_obj(st, "ADICT", None, fresh=True, kind="dict", items=(("kv", SEC, l),))


def apply_run(k, results=None, fail=False, actions=None, acts=ACTS, insec=True):
    results = results or (lambda code: C(0))
    e = se_engine(k, {"ext:exec": exec_spec(results, fail), "ext:eval": exec_spec(results, fail), "envvar_op": call_spec(results, fail), "ModuleHelper:module": call_spec(results, fail), "parse_section": "event"})
    st = State()
    a = actions or mk_actions(e, st, acts)
    e.attr_specs = specs(actions=a, configparserenhanceddata=CPED, inifilepath=("s", "FILES"))
    s = se_obj(k, e, st, {"_exception_control_level": ("s", "LEVEL")})
    if insec is not None:
        st.facts[("cmp", "In", SEC, CPED)] = insec
        st.facts[("pm", "has_section", CPED, (SEC,))] = insec
    return e, k.run(e, k.p.method(SE, "apply"), [s, SEC], st)


def execs(tr):
    return [ev for ev in flat(tr) if ev.kind == "EXEC"]


def tag_of(code):
    tags = {x[1][4:] for x in subterms(code) if x[0] == "s" and x[1].startswith("NAME")}
    return sorted(tags)


def S03(k):
    fn = "SetEnvironment.apply"
    with k.rule("R1", "every recorded action is carried out exactly once, in the recorded order", fn):
        e, res = apply_run(k)
        n = 0
        for st, oc in res:
            if oc[0] != "return":
                k.ob(False, fn, "applying three actions that succeed raises %s" % show(oc[1])[:80], path=path_text(st, oc))
                continue
            n += 1
            got = [tag_of(ev.a[0]) for ev in execs(st.trace)]
            k.ob(got == [["1"], ["2"], ["3"]], fn, "actions 1, 2, 3 are carried out as %s" % got, path=path_text(st, oc))
            for ev, (op, kind, t) in zip(execs(st.trace), ACTS):
                k.ob(mentions(ev.a[0], ("s", "NAME" + t)) and mentions(ev.a[0], ("s", "VAL" + t)), fn, "action %s carries its name and value" % t, ev.loc)
        if not n:
            raise Undecided("no normal path")
        rep = (ACTS[0], ACTS[1], ACTS[0], ACTS[1], ACTS[0])
        for st, oc in apply_run(k, acts=rep)[1]:
            if oc[0] == "return":
                got = [tag_of(ev.a[0]) for ev in execs(st.trace)]
                k.ob(got == [[t] for _, _, t in rep], fn, "an action recorded more than once is carried out each time (%s)" % got, path=path_text(st, oc))
    with k.rule("R2", "for an action list of any length, each iteration carries out one action and never ends the walk early", fn):
        e = se_engine(k, {"ext:exec": exec_spec(lambda c: ("s", "RV")), "ext:eval": exec_spec(lambda c: ("s", "RV")), "envvar_op": call_spec(lambda c: ("s", "RV")), "ModuleHelper:module": call_spec(lambda c: ("s", "RV")),
                          "_gen_actioncmd_envvar": "pure", "_gen_actioncmd_module": "pure", "parse_section": "event"})
        st = State()
        ACT = ("s", "ACTIONS")
        e.attr_specs = specs(actions=ACT, configparserenhanceddata=CPED, inifilepath=("s", "FILES"))
        s = se_obj(k, e, st)
        st.facts[("cmp", "In", SEC, CPED)] = True
        st.facts[("cmp", "In", SEC, ACT)] = True
        n = 0
        for st2, oc in k.run(e, k.p.method(SE, "apply"), [s, SEC], st):
            for lp in [ev for ev in st2.trace if ev.kind == "loop" and mentions(ev.a[0], ACT)]:
                n += 1
                if not any(execs(p.trace) for p in lp.a[2]):
                    continue
                src = lp.a[0][0] if isinstance(lp.a[0][0], tuple) else lp.a[0]
                bad = [x for x in subterms(src) if x[0] == "slice" or x[0] == "pc" and x[1] in ("reversed", "sorted", "set", "filter")]
                k.ob(not bad, fn, "the actions are walked as %s" % show(src)[:80])
                for p in lp.a[2]:
                    f = dict(p.facts)
                    kinds = [t for t in ("envvar", "module") if any(a[0] == "cmp" and a[1] == "In" and a[2] == C(t) and b for a, b in f.items())]
                    ne = len(execs(p.trace))
                    if p.outcome[0] == "next":
                        if len(kinds) == 1:
                            k.ob(ne == 1, fn, "an action (%s) is carried out %d times" % (kinds[0], ne), lp.loc)
                    elif p.outcome[0] in ("break", "return"):
                        k.ob(False, fn, "the walk over the actions ends early", lp.loc)
        if not n:
            raise Undecided("no loop over the recorded actions found")
    with k.rule("R3", "the result is 0 exactly when every action succeeded; a failing action is reported as a CRITICAL RuntimeError event", fn):
        single = sorted({x * s for x in counts(k.p, "SetEnvironment") + [1, 4, 127, 128, 254, 255, 256, 257, 512, 1000, 32768, 65280, 65536, 2 ** 31, 2 ** 32] for s in (1, -1)} - {0})
        for rv in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 7, 0), (1, 0, 2), (0, -9, 0), (-1, 0, 0), (0, -1, 1), (0, 0, -15), (3, -3, 0)] + [t for x in single for t in ((x, 0, 0), (0, x, 0), (0, -x, x))]:
            def results(code, rv=rv):
                t = tag_of(code)
                return C(rv[int(t[0]) - 1]) if t else C(0)
            e, res = apply_run(k, results)
            for st, oc in res:
                bad = [x for x in rv if x]
                if oc[0] == "return":
                    ok = is_int_c(oc[1]) and (cval(oc[1]) == 0) == (not bad)
                    if not is_c(oc[1]):
                        k.undecided(fn, "result %s" % show(oc[1])[:80])
                    else:
                        k.ob(ok, fn, "actions returning %s give %s" % (rv, show(oc[1])), path=path_text(st, oc))
                    ece = [ev for ev in flat(st.trace) if ev.kind == "ece"]
                    k.ob(len(ece) == len(bad), fn, "%d failing actions are reported by %d events" % (len(bad), len(ece)), path=path_text(st, oc))
                    for ev in ece:
                        k.ob(ev.a[0] == C("CRITICAL") and ev.a[1] == ("ext", "RuntimeError"), fn, "a failing action is reported as %s %s" % (show(ev.a[0]), show(ev.a[1])), ev.loc)
                else:
                    k.ob(bool(bad), fn, "actions that all succeed raise %s" % show(oc[1])[:80], path=path_text(st, oc))
    with k.rule("R4", "an exception in an action reaches the caller", fn):
        for st, oc in apply_run(k, fail=True)[1]:
            k.ob(oc[0] == "raise", fn, "an action that raises ends the call with %s" % oc[0], path=path_text(st, oc))
            k.ob(len(execs(st.trace)) <= 1, fn, "actions go on after one has raised", path=path_text(st, oc))
    with k.rule("R5", "the section is parsed before its actions are used; a section that does not exist is an error, and nothing is carried out", fn):
        e, res = apply_run(k, insec=None)
        for st, oc in res:
            if oc[0] == "return":
                seen = any(mentions(a, CPED) and mentions(a, SEC) for a in st.facts) or any(mentions_ev(ev, CPED) or ev.kind == "call" and "parse_section" in ev.a[0] for ev in flat(st.trace))
                k.ob(seen, fn, "the section is looked up in the parsed data first", path=path_text(st, oc))
        e = se_engine(k, {"ext:exec": exec_spec(lambda c: C(0)), "parse_section": "event"})
        st = State()
        empty = e.named_obj(st, "ADICT", None, fresh=True, kind="dict", items=())
        e.attr_specs = specs(actions=empty, configparserenhanceddata=CPED, inifilepath=("s", "FILES"))
        st.facts[("cmp", "In", SEC, CPED)] = False
        st.facts[("pm", "has_section", CPED, (SEC,))] = False
        s = se_obj(k, e, st)
        for st2, oc in k.run(e, k.p.method(SE, "apply"), [s, SEC], st):
            k.ob(oc[0] == "raise" or not (is_int_c(oc[1]) and cval(oc[1]) == 0), fn, "applying a section that does not exist ends with %s" % (show(oc[1])[:60]), path=path_text(st2, oc))
            k.ob(not execs(st2.trace), fn, "nothing is carried out for a missing section")


def mentions_ev(ev, t):
    return any(mentions(x, t) for x in ev.a if isinstance(x, tuple))


# ---------------------------------------------------------------- S01
def cmd_run(k, op, kind, interp, name=("s", "NAME"), value=("s", "VALUE")):
    e = se_engine(k)
    st = State()
    s = se_obj(k, e, st)
    for t in (name, value):
        if not is_c(t):
            st.facts[("isnone", t)] = False
            st.facts[e.eq_atom(t, C(""))[0]] = False
    m = k.p.method(SE, "_gen_actioncmd_" + kind, required=False)
    if m is None:
        raise Undecided("the command generator of %s operations is gone" % kind)
    return e, k.run(e, m, [s, C(op), name, value], st, {"interp": C(interp)})


def S01(k):
    ops = operations(k)
    with k.rule("R1", "every environment operation has a handler that records exactly one action: operation, name and value, at the end of the list", SE):
        want = ["envvar_" + x for x in ENV1 + ENV2] + ["module_" + x for x in MODS]
        for op in want:
            if op not in ops:
                k.ob(False, SE + "." + op, "there is no handler for the operation %s" % op)
        for op, f in sorted(ops.items()):
            kind = op.split("_")[0]
            c = f.qual
            for shared in ("missing", "there"):
                for params in ([("s", "NAME")], [("s", "NAME"), ("s", "EXTRA")]) + (([],) if kind == "module" else ()):
                    for value in (("s", "VALUE"), NONE, C("")):
                        e, res = handler_run(k, f, op, params, value, shared)
                        for st, kk, v in res:
                            if kk != "v":
                                k.ob(False, c, "recording %s raises %s" % (op, show(v)[:60]))
                                continue
                            k.ob(v == C(0), c, "recording %s returns %s" % (op, show(v)))
                            items = shared_list(st)
                            if items is None or not all(x[0] == "i" for x in items):
                                raise Undecided("the recorded list has a form the rule does not know")
                            base = 0 if shared == "missing" else 1
                            k.ob(len(items) == base + 1 and (not base or items[0] == ("i", ("s", "BEFORE"))), c, "%s leaves %d recorded actions instead of %d, in order" % (op, len(items), base + 1))
                            d = dict_of(st, items[-1][1]) if items else None
                            if d is None:
                                raise Undecided("the recorded action has a form the rule does not know")
                            k.ob(d.get("op") == C(op), c, "%s is recorded as operation %s" % (op, show(d.get("op", NONE))))
                            nm = params[0] if params else NONE
                            k.ob(d.get(kind) == nm, c, "%s records the name %s instead of the first parameter" % (op, show(d.get(kind, ("s", "nothing")))))
                            k.ob(("envvar" in d) + ("module" in d) == 1, c, "%s is recorded as one kind of action" % op)
                            wantv = value
                            if op == "envvar_assert_not_empty" and value == NONE:
                                wantv = C("")
                            k.ob(d.get("value") == wantv, c, "%s records the value %s instead of the option's" % (op, show(d.get("value", ("s", "nothing")))))
    with k.rule("R2", "every recorded operation yields a command with its operation, name and value, in both script languages", SE):
        for op in sorted(ops):
            kind, short = op.split("_", 1)
            for interp in ("python", "bash"):
                e, res = cmd_run(k, op, kind, interp)
                c = "SetEnvironment._gen_actioncmd_" + kind
                for st, oc in res:
                    ece = [ev for ev in flat(st.trace) if ev.kind == "ece"]
                    k.ob(oc[0] == "return" and not ece, c, "%s has no %s command: %s" % (op, interp, show(oc[1])[:60]), path=path_text(st, oc))
                    if oc[0] != "return" or ece:
                        continue
                    words = const_words(oc[1])
                    if words is None:
                        k.undecided(c, "the command of %s is %s" % (op, show(oc[1])[:80]))
                        continue
                    k.ob(short in words, c, "the %s command of %s does not name the operation: %s" % (interp, op, show(oc[1])[:100]))
                    need_n = short not in ("purge", "use")
                    need_v = short not in ("unset", "purge", "unload")
                    syms = [x[1] for x in syms_in_order(oc[1])]
                    want = (["NAME"] if need_n else []) + (["VALUE"] if need_v else [])
                    k.ob(syms == want, c, "the %s command of %s carries %s instead of %s" % (interp, op, syms, want), path=path_text(st, oc))
        for interp in ("python", "bash"):
            for val in (NONE, C("")):
                e, res = cmd_run(k, "module_load", "module", interp, value=val)
                for st, oc in res:
                    c = "SetEnvironment._gen_actioncmd_module"
                    if oc[0] != "return":
                        k.ob(False, c, "loading a module without version raises %s" % show(oc[1])[:60])
                        continue
                    words = const_words(oc[1])
                    if words is None:
                        raise Undecided("command text of unknown form")
                    txt = flat_text(oc[1])
                    k.ob([x[1] for x in syms_in_order(oc[1])] == ["NAME"] and "None" not in words and (txt is None or "/" not in txt), c, "loading a module without version (%s) gives %s" % (show(val), show(oc[1])[:80]))
        for bad in ("envvar_no_such_op", "module_no_such_op"):
            e, res = cmd_run(k, bad, bad.split("_")[0], "python")
            for st, oc in res:
                ece = [ev for ev in flat(st.trace) if ev.kind == "ece" and ev.a[0] in (C("SERIOUS"), C("CRITICAL"), C("CATASTROPHIC"))]
                k.ob(bool(ece) or oc[0] == "raise", "SetEnvironment._gen_actioncmd_" + bad.split("_")[0], "an unknown operation is reported")
    with k.rule("R3", "the Python and the bash helper know every variable operation that can be recorded", "envvar_op"):
        op_f = k.p.function("SetEnvironment", "envvar_op")
        known = strings_compared(op_f.node)
        hdr = k.p.method(SE, "_gen_script_header_bash", required=False)
        text = "\n".join(n.value for n in ast.walk(hdr.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)) if hdr else None
        for op in sorted(ops):
            kind, short = op.split("_", 1)
            if kind != "envvar":
                continue
            e = k.engine()
            res = None
            if short in known:
                k.ob(True, "envvar_op", "%s is handled" % short)
            else:
                k.ob(False, "envvar_op", "the operation %s can be recorded, but applying it is not handled" % short, where=op_f.loc)
            if text is not None and "envvar_op" in text:
                k.ob(re.search(r'"%s"|\b%s\)' % (short, short), text) is not None, "SetEnvironment._gen_script_header_bash", "the bash helper knows %s" % short)
    with k.rule("R4", "every recorded operation is shown by the printed action list", "SetEnvironment.pretty_print_actions"):
        for op in sorted(ops):
            kind = op.split("_")[0]
            e = se_engine(k)
            st = State()
            a = mk_actions(e, st, ((op, kind, "1"),))
            e.attr_specs = specs(actions=a, configparserenhanceddata=CPED)
            st.facts[("cmp", "In", SEC, CPED)] = True
            s = se_obj(k, e, st)
            for st2, oc in k.run(e, k.p.method(SE, "pretty_print_actions"), [s, SEC], st):
                pr = [ev for ev in flat(st2.trace) if ev.kind == "print"]
                k.ob(oc[0] == "return" and not any("unhandled" in repr(ev.a) for ev in pr), "SetEnvironment.pretty_print_actions", "%s is printed" % op, path=path_text(st2, oc))
                k.ob(any(mentions_ev(ev, C(op)) or op in repr(ev.a) for ev in pr), "SetEnvironment.pretty_print_actions", "the printed line names %s" % op)
        fn = "SetEnvironment.pretty_print_actions"
        names = sorted(ops)
        for order in (names, names[::-1], [n for n in names for _ in (0, 1)]):
            e = se_engine(k)
            e.unroll = e.unroll_while = 400
            st = State()
            acts = [(op, op.split("_")[0], "%d" % i) for i, op in enumerate(order)]
            a = mk_actions(e, st, acts)
            e.attr_specs = specs(actions=a, configparserenhanceddata=CPED)
            st.facts[("cmp", "In", SEC, CPED)] = True
            s = se_obj(k, e, st)
            for st2, oc in k.run(e, k.p.method(SE, "pretty_print_actions"), [s, SEC], st):
                if oc[0] != "return":
                    k.ob(False, fn, "printing all operations raises %s" % show(oc[1])[:60], path=path_text(st2, oc))
                    continue
                seq = []
                for ev in flat(st2.trace):
                    if ev.kind == "print":
                        seq += [x[1] for arg in ev.a[0] for x in syms_in_order(arg) if x[1][:4] in ("NAME", "VALU") or x[1][:3] == "VAL"]
                if not seq:
                    raise Undecided("nothing is printed")
                tags = [int(re.sub(r"\D", "", x)) for x in seq]
                k.ob(tags == sorted(tags), fn, "the recorded actions are printed out of order, or with parts of another action: %s" % seq[:12])
                for i, (op, kind, tag) in enumerate(acts):
                    short = op.split("_", 1)[1]
                    want = {x + tag for x, n in (("NAME", short not in ("purge", "use")), ("VAL", short not in ("unset", "purge", "unload", "assert_not_empty"))) if n}
                    got = {x for x, t in zip(seq, tags) if t == i}
                    k.ob(want <= got, fn, "the printed line of %s shows %s" % (op, sorted(got)))
                    shown = [x for x, t in zip(seq, tags) if t == i]
                    if "remove" not in short and {"NAME" + tag, "VAL" + tag} <= set(shown):
                        k.ob(shown.index("NAME" + tag) < shown.index("VAL" + tag), fn, "the printed line of %s shows the value in the place of the name" % op)
    with k.rule("R5", "a section that records no action has the empty list of actions; looking at the actions of a section parses it first", "SetEnvironment"):
        e = se_engine(k)
        st = State()
        old = e.named_obj(st, "ADICT", None, fresh=True, kind="dict", items=())
        s = se_obj(k, e, st, {"_var_actions_cache": old})
        sh = e.named_obj(st, "SH", None, fresh=True, kind="dict", items=())
        hp = e.named_obj(st, "HP", k.p.cls("HandlerParameters"))
        st.heap["HP"] = HObj("inst", k.p.cls("HandlerParameters"), False, False, {"_params": ("tuple", ()), "_data_shared": sh, "_op": C(""), "_value": NONE, "_handler_name": C("h"), "_section_root": SEC, "_raw_option": ("tuple", ())})
        cur = [(st, "v", NONE)]
        for m in ("handler_initialize", "handler_finalize"):
            f = k.p.method(SE, m)
            cur = [r for st1, kk, v in cur for r in ([(st1, kk, v)] if kk != "v" else e.call_func(st1, f, [s, SEC, hp], {}, f.node, None, inline_always=True, raw=True))]
        for st1, kk, v in cur:
            k.ob(kk == "v", "SetEnvironment.handler_finalize", "a section without actions raises %s" % show(v)[:60])
            if kk != "v":
                continue
            for st3, k3, acts in e.get_attr(st1, s, "actions", f.node, None):
                d = dict((x[1], x[2]) for x in st3.heap[acts[1]].items if x[0] == "kv") if acts[0] == "o" else None
                got = d.get(SEC) if d is not None else None
                if got is None or got[0] != "o":
                    k.undecided("SetEnvironment.handler_finalize", "the kept actions have a form the rule does not know")
                else:
                    k.ob(st3.heap[got[1]].kind == "list" and st3.heap[got[1]].items == (), "SetEnvironment.handler_finalize", "a section without actions has actions")
        for m in ("pretty_print_actions", "apply"):
            VIEWM = ("__getitem__", "get", "has_section", "__contains__", "options", "has_option", "items")
            e = se_engine(k, dict({"parse_section": "event", "_apply_envvar": "event", "_apply_module": "event", "_gen_actioncmd_envvar": "pure", "_gen_actioncmd_module": "pure",
                                   "_gen_script_header_bash": "pure", "_gen_script_header_python": "pure"}, **{x: "event" for x in VIEWM}))
            st = State()
            view = e.named_obj(st, "VIEW", k.p.cls("ConfigParserEnhancedData"))
            e.attr_specs = specs(actions=("s", "ACTIONS"), configparserenhanceddata=view, inifilepath=("s", "FILES"))
            s = se_obj(k, e, st)
            for st2, oc in k.run(e, k.p.method(SE, m), [s, SEC], st):
                if oc[0] == "return":
                    looked = any(ev.kind == "call" and mentions_ev(ev, SEC) and any(ev.a[0].endswith("." + x) for x in VIEWM + ("parse_section",)) for ev in flat(st2.trace))
                    other = any(mentions_ev(ev, view) for ev in flat(st2.trace)) or any(mentions(a, view) for a in st2.facts)
                    if not looked and other:
                        k.undecided("SetEnvironment." + m, "the parsed data is used in a way the rule does not know")
                    else:
                        k.ob(looked, "SetEnvironment." + m, "the section is looked up in the parsed data first", path=path_text(st2, oc))


def const_words(t):
    s = ""
    for x in parts_of(t):
        if is_str_c(x):
            s += x[2]
        elif x[0] == "pc" and len(x[2]) == 1 and is_str_c(x[2][0]):
            s += '"' + x[2][0][2] + '"'
        else:
            s += " \x00 "
    return re.findall(r"[A-Za-z_]+", s)


def parts_of(t):
    return t[1] if t[0] == "cat" else (t,)


def syms_in_order(t):
    out = []
    for x in parts_of(t):
        for y in subterms(x):
            if y[0] == "s" and y not in out:
                out.append(y)
    return out


def strings_compared(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Compare):
            for x in [n.left] + n.comparators:
                for y in ast.walk(x):
                    if isinstance(y, ast.Constant) and isinstance(y.value, str):
                        out.add(y.value)
        if isinstance(n, ast.Dict):
            out |= {y.value for y in n.keys if isinstance(y, ast.Constant) and isinstance(y.value, str)}
        if isinstance(n, ast.MatchValue) and isinstance(n.value, ast.Constant):
            out.add(n.value.value)
    return out


# ---------------------------------------------------------------- S04
def quoted_python(t, sym):
    """every occurrence of the symbol in the command is inside a Python literal encoder"""
    if t == sym:
        return False
    if t[0] == "pc" and t[1] in ("json.dumps", "repr", "ascii") and len(t[2]) == 1:
        return True
    if t[0] == "cat" or t[0] in ("pm", "pc", "str1"):
        return all(quoted_python(x, sym) for x in flat_args(t) if mentions(x, sym))
    if t[0] == "repr":
        return True
    return not mentions(t, sym)


def flat_args(t):
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            else:
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        yield y


def bash_escapes(t):
    """replacements applied to a term, innermost first; the symbol at the core"""
    reps = []
    while t[0] == "pm" and t[1] == "replace" and len(t[3]) == 2:
        reps.append(t[3])
        t = t[2]
    return t, list(reversed(reps))


def bash_words(text):
    """the words bash reads in the text, references and command substitutions inside double quotes kept as they are; None when
    something outside of quotes means more than itself"""
    out, cur, i = [], None, 0
    while i < len(text):
        c = text[i]
        if c in " \t":
            if cur is not None:
                out.append(cur)
            cur = None
        elif c == "'":
            j = text.find("'", i + 1)
            if j < 0:
                return None
            cur, i = (cur or "") + text[i + 1:j], j
        elif c == '"':
            cur, i = cur or "", i + 1
            while i < len(text) and text[i] != '"':
                if text[i] == "\\" and text[i + 1:i + 2] in ("\\", '"'):
                    i += 1
                elif text[i] == "\\" and text[i + 1:i + 2] in ("$", "`", "\n"):
                    return None         # not the text of the file: a reference taken literally, a line break lost
                cur += text[i]
                i += 1
            if i >= len(text):
                return None
        elif c == "\\" and i + 1 < len(text) and text[i + 1] != "\n":
            i += 1
            cur = (cur or "") + text[i]
        elif c in ";&|<>()$`*?[]{}!^\\\n" or c == "#" and cur is None:
            return None
        else:
            cur = (cur or "") + c
        i += 1
    return out + ([cur] if cur is not None else [])


def bash_quoted(cmd, sym):
    """True / False / None: is the value one bash word?"""
    ps = parts_of(cmd)
    for i, x in enumerate(ps):
        if not mentions(x, sym):
            continue
        if x[0] == "pc" and x[1] in ("shlex.quote", "pipes.quote"):
            continue
        core, reps = bash_escapes(x)
        if core != sym:
            return None
        pre = ps[i - 1][2] if i and is_str_c(ps[i - 1]) else ""
        post = ps[i + 1][2] if i + 1 < len(ps) and is_str_c(ps[i + 1]) else ""
        if not (pre.endswith('"') and post.startswith('"')):
            return False
        have = [(cval(a), cval(b)) for a, b in reps if is_str_c(a) and is_str_c(b)]
        if ('"', '\\"') not in have:
            return False
        if ("\\", "\\\\") not in have:
            return False
        if have.index(("\\", "\\\\")) > have.index(('"', '\\"')):
            return False
    return True


def script_run(k, interp, hdr=True, body=True, shebang=True, acts=ACTS, parsed=True):
    e = se_engine(k, {"_gen_script_header_bash": "pure", "_gen_script_header_python": "pure", "parse_section": "event"})
    st = State()
    a = mk_actions(e, st, acts)
    e.attr_specs = specs(actions=a, configparserenhanceddata=CPED)
    s = se_obj(k, e, st)
    return e, k.run(e, k.p.method(SE, "generate_actions_script"), [s, SEC], st,
                    {"incl_hdr": C(hdr), "incl_body": C(body), "incl_shebang": C(shebang), "interp": C(interp)})


def flat_text(t):
    """the text with generated parts as \\x01name\\x02 markers"""
    out = ""
    for x in parts_of(t):
        if is_str_c(x):
            out += x[2]
        elif x[0] == "call":
            out += "\x01" + x[1].split(".")[-1] + "\x02"
        elif x[0] == "pc" and len(x[2]) == 1 and is_str_c(x[2][0]):
            out += "\x01lit:" + x[2][0][2] + "\x02"
        else:
            sy = [y[1] for y in subterms(x) if y[0] == "s"]
            if not sy:
                return None
            out += "\x01" + ",".join(sy) + "\x02"
    return out


def S04(k):
    gen = "SetEnvironment.generate_actions_script"
    with k.rule("R1", "the script body has one command line per recorded action, in order, and nothing else executable", gen):
        for interp in ("bash", "python"):
            for hdr, shebang in itertools.product((True, False), repeat=2):
                e, res = script_run(k, interp, hdr, True, shebang)
                for st, oc in res:
                    if oc[0] != "return":
                        k.ob(False, gen, "generating a %s script raises %s" % (interp, show(oc[1])[:60]), path=path_text(st, oc))
                        continue
                    txt = flat_text(oc[1])
                    if txt is None:
                        raise Undecided("the script text has a form the rule does not know")
                    lines = [l for l in txt.split("\n") if "NAME" in l or "VAL" in l]
                    tags = [sorted({c for c in l.split("NAME")[1:] for c in c[:1]}) for l in lines]
                    k.ob(tags == [["1"], ["2"], ["3"]], gen, "the %s script has the actions %s" % (interp, tags), path=path_text(st, oc))
                    rest = [l for l in txt.split("\n") if l.strip() and not l.lstrip().startswith("#") and "NAME" not in l and "_gen_script_header" not in l]
                    k.ob(not rest, gen, "the script has further lines: %s" % rest[:2])
        rep = (ACTS[0], ACTS[1], ACTS[0], ACTS[1])
        for interp in ("bash", "python"):
            for st, oc in script_run(k, interp, False, True, False, acts=rep)[1]:
                txt = flat_text(oc[1]) if oc[0] == "return" else None
                if txt is None:
                    raise Undecided("the script text has a form the rule does not know")
                tags = [l.split("NAME")[1][:1] for l in txt.split("\n") if "NAME" in l]
                k.ob(tags == ["1", "2", "1", "2"], gen, "an action recorded more than once has a line each time (%s)" % tags, path=path_text(st, oc))
            e = se_engine(k, {"_gen_script_header_bash": "pure", "_gen_script_header_python": "pure", "parse_section": "event", "_gen_actioncmd_envvar": "pure", "_gen_actioncmd_module": "pure"})
            st = State()
            ACT = ("s", "ACTIONS")
            e.attr_specs = specs(actions=ACT, configparserenhanceddata=CPED)
            st.facts[("cmp", "In", SEC, ACT)] = True
            st.facts[("cmp", "In", SEC, ("pm", "keys", ACT, ()))] = True
            for st2, oc in k.run(e, k.p.method(SE, "generate_actions_script"), [se_obj(k, e, st), SEC], st, {"interp": C(interp)}):
                for lp in [ev for ev in st2.trace if ev.kind == "loop" and mentions(ev.a[0], ACT)]:
                    src = lp.a[0][0] if isinstance(lp.a[0][0], tuple) else lp.a[0]
                    bad = [x for x in subterms(src) if x[0] == "slice" or x[0] == "pc" and x[1] in ("reversed", "sorted", "set", "filter")]
                    k.ob(not bad, gen, "the actions are walked as %s" % show(src)[:80])
                    for p in lp.a[2]:
                        k.ob(p.outcome[0] in ("next", "raise"), gen, "the walk over the actions ends early", lp.loc)
        for interp in ("bash", "python"):
            for other in (False, True):
                def parse(eng, st, func, args, kwargs, node, fid):
                    s2 = st.copy()
                    eng.emit(s2, "PARSE", tuple(args[1:2]), node, fid)
                    h = s2.heap["ADICT"]
                    s2.heap["ADICT"] = h.with_items(tuple(x for x in h.items if x[1] != SEC) + (("kv", SEC, ("o", "ALIST")),))
                    return [(s2, "v", ("s", "SHAREDRESULT"))]
                e = se_engine(k, {"_gen_script_header_bash": "pure", "_gen_script_header_python": "pure", "parse_section": parse})
                st = State()
                a = mk_actions(e, st, ACTS)
                st.heap["ADICT"] = st.heap["ADICT"].with_items((("kv", C("earlier"), ("s", "EARLIER")),) if other else ())
                e.decide_hook = lambda st_, op, x, y: False if op == "Eq" and {x, y} == {SEC, C("earlier")} else None
                e.attr_specs = specs(actions=a)
                st.facts[("cmp", "In", SEC, CPED)] = True

                def cped(en, s_, b, n, nd, f):
                    return [(s2, "v", CPED) for s2, _, _ in parse(en, s_, None, [SELF, SEC], {}, nd, f)] if b == SELF else None
                e.attr_specs["configparserenhanceddata"] = cped
                for st2, oc in k.run(e, k.p.method(SE, "generate_actions_script"), [se_obj(k, e, st), SEC], st, {"interp": C(interp), "incl_hdr": C(False)}):
                    txt = flat_text(oc[1]) if oc[0] == "return" else ""
                    if txt is None:
                        raise Undecided("the script text has a form the rule does not know")
                    tags = [l.split("NAME")[1][:1] for l in txt.split("\n") if "NAME" in l]
                    k.ob(tags == ["1", "2", "3"], gen, "a section that was not parsed yet is parsed and its actions are written (%s)" % tags, path=path_text(st2, oc))
    with k.rule("R2", "header, body and interpreter line appear exactly when asked for; the interpreter line is the first line", gen):
        for interp, she in (("bash", "bash"), ("python", "python")):
            for hdr, body, shebang in itertools.product((True, False), repeat=3):
                e, res = script_run(k, interp, hdr, body, shebang)
                for st, oc in res:
                    if oc[0] != "return":
                        continue
                    txt = flat_text(oc[1])
                    if txt is None:
                        raise Undecided("the script text has a form the rule does not know")
                    case = "%s, header=%s body=%s interpreter line=%s" % (interp, hdr, body, shebang)
                    k.ob(("_gen_script_header_" + interp in txt) == hdr and txt.count("_gen_script_header") == (1 if hdr else 0), gen, "header present as asked (%s)" % case)
                    k.ob(("NAME1" in txt) == body, gen, "body present as asked (%s)" % case)
                    want = shebang and (hdr or body)
                    k.ob(txt.startswith("#!") == want and txt.count("#!") == (1 if want else 0), gen, "interpreter line as asked (%s)" % case)
                    if want and txt.startswith("#!"):
                        k.ob(she in txt.split("\n")[0], gen, "the interpreter line names %s" % she)
                    if hdr and body:
                        k.ob(txt.index("_gen_script_header") < txt.index("NAME1"), gen, "the helpers come before the commands (%s)" % case)
    with k.rule("R3", "names and values are quoted: no text of the .ini file can end or change the command around it", "SetEnvironment._gen_actioncmd_envvar"):
        for op in sorted(operations(k)):
            kind, short = op.split("_", 1)
            c = "SetEnvironment._gen_actioncmd_" + kind
            e, res = cmd_run(k, op, kind, "python")
            for st, oc in res:
                if oc[0] != "return":
                    continue
                for sym in (("s", "NAME"), ("s", "VALUE")):
                    k.ob(quoted_python(oc[1], sym), c, "the Python command of %s holds its text unquoted: %s" % (op, show(oc[1])[:100]))
            if kind == "envvar":
                e, res = cmd_run(k, op, kind, "bash")
                for st, oc in res:
                    if oc[0] != "return":
                        continue
                    for sym in (("s", "NAME"), ("s", "VALUE")):
                        q = bash_quoted(oc[1], sym)
                        if q is None:
                            k.undecided(c, "the bash command of %s: %s" % (op, show(oc[1])[:100]))
                        else:
                            k.ob(q, c, "the bash command of %s does not quote its text: %s" % (op, show(oc[1])[:120]))
            pool = ["", "x", "gcc/9.1-a_b+c", "/a/b:~c", "a b", "a  b", "\u00e9", "~/m"] + [w for ch in string.punctuation + "\n\t\x0b\u00a0" for w in (ch, "a" + ch, ch + "a", "a" + ch + "b c")] + ["a;b", 'a"b"', "'q r'", "$V", "${V}x", "a\\", '\\"', "a && b", "a | b", "x>y", "# c", "a #c"]
            for text in pool:
                for args in ([("NAME", text), (text, "VALUE")] if short in ("swap", "load") else [(text, text)]):
                    e, res = cmd_run(k, op, kind, "bash", C(args[0]), C(args[1]))
                    full = args[:1] if short in ("unset", "unload") else () if short == "purge" else args[1:] if short == "use" else ("/".join(args),) if short == "load" and args[1] else args[:1] if short == "load" else args
                    want = ["envvar_op" if kind == "envvar" else "module", short] + list(full)

                    def told(oc):
                        if oc[0] != "return" or not is_str_c(oc[1]):
                            return None
                        w = bash_words(oc[1][2])
                        if w is None:
                            return "text outside of quotes: " + oc[1][2]
                        return w if kind == "envvar" else " ".join(" ".join(w).split())
                    k.table([told(oc) for st, oc in res], want if kind == "envvar" else " ".join(" ".join(want).split()), c + "(bash)", "the words of the bash command of %s with %r" % (op, args))
    with k.rule("R4", "what is applied and what the Python script says are the same commands", "SetEnvironment.apply"):
        code = None
        for st, oc in apply_run(k)[1]:
            if oc[0] == "return":
                code = [ev.a[0] for ev in execs(st.trace)]
        e, res = script_run(k, "python", False, True, False)
        for st, oc in res:
            if oc[0] != "return" or code is None:
                continue
            body = flat_text(oc[1])
            for cc in code:
                ct = flat_text(cc)
                if ct is None or body is None:
                    raise Undecided("command text of unknown form")
                stmt = ct.split("=", 1)[1].strip() if "=" in ct.split("(")[0] else ct
                k.ob(stmt in body.split("\n"), "SetEnvironment.apply", "the applied command %s is a line of the script" % stmt.replace("\x01", "<").replace("\x02", ">")[:80])
    with k.rule("R5", "an interpreter that is not bash or python is a SERIOUS ValueError event and produces no script", gen):
        for bad in ("sh", "Bash", "", "python3"):
            e, res = script_run(k, bad)
            for st, oc in res:
                ece = [ev for ev in flat(st.trace) if ev.kind == "ece"]
                k.ob(bool(ece) and ece[0].a == (C("SERIOUS"), ("ext", "ValueError")), gen, "interpreter %r gives %s" % (bad, [show(x.a[0]) for x in ece]), path=path_text(st, oc))
                if oc[0] == "return":
                    k.ob(oc[1] == C(""), gen, "interpreter %r gives a script" % bad)
    wr = "SetEnvironment.write_actions_to_file"
    with k.rule("R6", "writing puts exactly the generated script, for the arguments given, into the named file; a bad interpreter writes nothing", wr):
        for interp in ("bash", "python", "tcsh"):
            for hdr, body, shebang in ((True, True, True), (False, True, True), (True, False, True), (True, True, False)):
                e = se_engine(k, {"generate_actions_script": "event"})
                st = State()
                s = se_obj(k, e, st)
                res = k.run(e, k.p.method(SE, "write_actions_to_file"), [s, ("s", "FILE"), SEC], st,
                            {"include_header": C(hdr), "include_body": C(body), "include_shebang": C(shebang), "interpreter": C(interp)})
                for st2, oc in res:
                    opens = [ev for ev in flat(st2.trace) if ev.kind == "x" and ev.a[0] in ("open", "io.open")]
                    writes = [ev for ev in flat(st2.trace) if ev.kind == "xm" and ev.a[0] in ("write", "writelines", "write_text")]
                    if interp == "tcsh":
                        k.ob(not opens and not writes, wr, "a bad interpreter still opens the file", path=path_text(st2, oc))
                        continue
                    calls = [ev for ev in flat(st2.trace) if ev.kind == "call" and ev.a[0].endswith("generate_actions_script")]
                    if len(calls) != 1 or not writes:
                        raise Undecided("the script is generated or written in a way the rule does not know")
                    b = bound(k.p, calls[0])
                    want = {"section": SEC, "incl_hdr": C(hdr), "incl_body": C(body), "incl_shebang": C(shebang), "interp": C(interp)}
                    for a, w in want.items():
                        k.ob(b.get(a) == w, wr, "%s is handed on as %s instead of %s" % (a, show(b.get(a, NONE)), show(w)), calls[0].loc)
                    k.ob(len(writes) == 1 and any(x[0] == "res" and x[1] == "generate_actions_script" for y in writes[0].a if isinstance(y, tuple) for x in subterms(y)), wr, "the generated text is written once", writes[0].loc)
                    if opens:
                        k.ob(mentions_ev(opens[0], ("s", "FILE")), wr, "the named file is opened", opens[0].loc)
                        mode = [a for a in opens[0].a[1][1:2]] or [v for n, v in opens[0].a[2] if n == "mode"]
                        k.ob(bool(mode) and mode[0] in (C("w"), C("wt"), C("w+"), C("x")), wr, "the file is opened for (over)writing", opens[0].loc)


# ---------------------------------------------------------------- S05
def about_item(a, kind):
    """the fact only concerns the looked-at action's own name (and, for modules, value)"""
    keys = (C(kind),) if kind == "envvar" else (C(kind), C("value"))
    elems = [x for x in subterms(a) if x[0] == "elem"]
    if not elems:
        return False
    for x in subterms(a):
        if x[0] == "sub" and x[1][0] == "elem" and x[2] not in keys:
            return False
        if x[0] == "pc" and x[1] == "len" or x[0] in ("lv", "phi"):
            return False
        if x[0] == "pm" and x[1] == "get" and x[3] and x[3][0] not in keys:
            return False
    return True


def item_field(x):
    if x[0] == "sub" and x[1][0] == "elem":
        return x[2]
    if x[0] == "pm" and x[1] == "get" and x[2][0] == "elem" and x[3]:
        return x[3][0]
    return None


def remove_any(k, kind, T, hook):
    """the remove handler on a list of unknown length"""
    f = k.p.method(SE, "_handler_%s_remove" % kind, required=False) or k.p.method(SE, "handler_%s_remove" % kind)
    e = se_engine(k)
    e.decide_hook = hook
    st = State()
    s = se_obj(k, e, st)
    sh = e.named_obj(st, "SH", None, fresh=True, kind="dict", items=(("kv", C("setenvironment"), ("s", "LIST")),))
    hp = e.named_obj(st, "HP", k.p.cls("HandlerParameters"))
    st.heap["HP"] = HObj("inst", k.p.cls("HandlerParameters"), False, False, {"_params": ("tuple", (T,)), "_data_shared": sh, "_op": C(kind + "_remove"), "_value": NONE, "_handler_name": C("h"), "_section_root": SEC, "_raw_option": ("tuple", (("s", "RAWKEY"), NONE))})
    res = e.call_func(st, f, [s, ("s", "CUR"), hp], {}, f.node, None, inline_always=True, raw=True)
    k.paths += len(res)
    return e, st, res, f


def remove_run(k, kind, idata, target=("s", "TARGET")):
    """the remove handler on a list of three actions; idata: the middle one"""
    f = k.p.method(SE, "_handler_%s_remove" % kind, required=False) or k.p.method(SE, "handler_%s_remove" % kind)
    e = se_engine(k)
    st = State()
    s = se_obj(k, e, st)
    l = e.named_obj(st, "LIST", None, fresh=True, kind="list", items=())
    its = []
    for i, d in enumerate(idata):
        o = e.named_obj(st, "I%d" % i, None, fresh=True, kind="dict", items=tuple(("kv", C(a), b) for a, b in d.items()))
        its.append(("i", o))
    st.heap["LIST"] = st.heap["LIST"].with_items(tuple(its))
    sh = e.named_obj(st, "SH", None, fresh=True, kind="dict", items=(("kv", C("setenvironment"), l),))
    hp = e.named_obj(st, "HP", k.p.cls("HandlerParameters"))
    st.heap["HP"] = HObj("inst", k.p.cls("HandlerParameters"), False, False, {
        "_params": ("tuple", (target,)), "_section_root": ("s", "ROOT"), "_op": C(kind + "_remove"), "_data_shared": sh,
        "_handler_name": C(f.name), "_raw_option": ("tuple", (("s", "RAWKEY"), ("s", "RAWVAL"))), "_value": NONE})
    res = e.call_func(st, f, [s, ("s", "CUR"), hp], {}, f.node, None, inline_always=True, raw=True)
    k.paths += len(res)
    return e, res, f


def S05(k):
    T = C("TGT")
    O = C("OTHER")
    env = lambda n, v=C("x"): {"op": C("envvar_set"), "envvar": n, "value": v}
    mod = lambda n, v: {"op": C("module_load"), "module": n, "value": v}
    cases = {
        "envvar": [
            ([env(T), env(O), env(T)], [1]), ([env(O), env(T), mod(T, C("1"))], [0, 2]), ([mod(T, NONE), env(O), mod(O, T)], [0, 1, 2]),
            ([env(C("TGT2")), env(C("tgt")), env(C("XTGT"))], [0, 1, 2]), ([], []), ([env(T)], []), ([env(O, T), env(T, O), env(O)], [0, 2]),
            ([env(T), env(T), env(T)], []), ([env(C("")), mod(NONE, NONE), env(T)], [0, 1]),
        ],
        "module": [
            ([mod(T, C("1")), mod(O, C("2")), mod(T, NONE)], [1]), ([env(T), mod(T, C("9")), env(O)], [0, 2]), ([env(T), env(T), env(T)], [0, 1, 2]),
            ([mod(O, NONE), mod(C("TGT2"), C("1")), mod(C("tgt"), C("1"))], [0, 1, 2]), ([], []), ([mod(T, NONE), mod(T, NONE)], []),
            ([mod(NONE, C("/some/dir")), mod(O, C("")), mod(T, C(""))], [0, 1]), ([mod(O, T), mod(O, C("v"))], [1]),
        ],
    }
    for kind, cs in cases.items():
        fn = "SetEnvironment._handler_%s_remove" % kind
        with k.rule("R1", "removing drops exactly the recorded actions on that %s, whatever their position, and keeps all others in order" % ("variable" if kind == "envvar" else "module"), fn):
            odd = []
            mk = env if kind == "envvar" else (lambda n, v=C("1"): mod(n, v))
            names = ("TGT", "$TGT", "TGT$", " TGT", "TGT ", "tgt", "TGT/1", "TGT_", "${TGT}", "'TGT'", "T.T", "TGT:", "")
            for n in names:
                acts = [mk(C(x)) for x in names]
                if n or kind == "envvar":
                    odd.append((acts, [i for i, x in enumerate(names) if x != n], C(n)))
            for acts, keep, tgt in [(a, b, T) for a, b in cs] + odd:
                e, res, f = remove_run(k, kind, acts, tgt)
                for st, kk, v in res:
                    if kk != "v":
                        k.ob(False, fn, "removing raises %s" % show(v)[:60])
                        continue
                    items = shared_list(st)
                    if items is None or not all(x[0] == "i" for x in items):
                        raise Undecided("the recorded list has a form the rule does not know")
                    got = [x[1][1] for x in items if x[1][0] == "o"]
                    k.ob(got == ["I%d" % i for i in keep], fn, "of the %s actions on %s removing %s keeps %s instead of %s" % (len(acts), [show(a.get("envvar", a.get("module"))) for a in acts], show(tgt), got, keep))
                    k.ob(v == C(0), fn, "removing returns %s" % show(v))
                    for i in keep:
                        d = dict_of(st, ("o", "I%d" % i))
                        k.ob(d == acts[i], fn, "a kept action is changed")
        with k.rule("R2", "for a list of any length each action is looked at once and the walk never ends early", fn):
            f = k.p.method(SE, "_handler_%s_remove" % kind, required=False) or k.p.method(SE, "handler_%s_remove" % kind)
            e = se_engine(k)
            st = State()
            s = se_obj(k, e, st)
            sh = e.named_obj(st, "SH", None, fresh=True, kind="dict", items=(("kv", C("setenvironment"), ("s", "LIST")),))
            hp = e.named_obj(st, "HP", k.p.cls("HandlerParameters"))
            st.heap["HP"] = HObj("inst", k.p.cls("HandlerParameters"), False, False, {"_params": ("tuple", (T,)), "_data_shared": sh, "_op": C("x"), "_value": NONE, "_handler_name": C("h"), "_section_root": SEC})
            res = e.call_func(st, f, [s, ("s", "CUR"), hp], {}, f.node, None, inline_always=True, raw=True)
            n = 0
            for st2, kk, v in res:
                lps = [ev for ev in st2.trace if ev.kind == "loop" and mentions(ev.a[0], ("s", "LIST"))]
                for lp in lps:
                    n += 1
                    src = lp.a[0][0] if isinstance(lp.a[0][0], tuple) else lp.a[0]
                    bad = [x for x in subterms(src) if x[0] == "slice" or x[0] == "pc" and x[1] in ("reversed", "sorted", "set", "filter")]
                    k.ob(not bad, fn, "the recorded actions are walked as %s" % show(src)[:80])
                    for p in lp.a[2]:
                        k.ob(p.outcome[0] in ("next", "continue", "raise"), fn, "the walk over the recorded actions ends early", lp.loc)
                if kk != "v":
                    continue
                items = shared_list(st2)
                if items is None or len(items) != 1 or items[0][0] != "each" or items[0][2] != (("s", "LIST"), "elem"):
                    k.undecided(fn, "the remaining list has a form the rule does not know")
                    continue
                for facts_, el in items[0][3]:
                    if el == ():
                        fd = dict(facts_)
                        odd = [(a, b) for a, b in fd.items() if not about_item(a, kind)]
                        k.ob(not odd, fn, "whether an action is dropped also depends on: %s" % facts_text(odd)[:120])
                        hit = kind == "module" and any(b and a[0] == "cmp" and a[1] == "In" and a[2] == C(kind) for a, b in fd.items()) or any(b and (a[0] == "eqc" or a[0] == "cmp" and a[1] in ("Eq", "In")) and mentions(a, T) for a, b in fd.items())
                        k.ob(hit, fn, "an action is dropped without comparing it with the name: %s" % facts_text(fd)[:120])
                    else:
                        k.ob(len(el) == 1 and el[0][0] == "elem", fn, "a kept action is replaced or doubled: %s" % [show(x)[:60] for x in el])
            if not n:
                k.undecided(fn, "no explicit walk over the recorded actions")
        with k.rule("R4", "in a list of any length an action that matches never stays, and one that does not match is never dropped", fn):
            other = "module" if kind == "envvar" else "envvar"
            for what, isk, eq, inval in (("a matching action", True, True, False), ("an action with another name", True, False, False), ("an action of the other kind", False, False, False)) + (
                    (("a module whose value holds the name", True, False, True),) if kind == "module" else ()):
                def hook(st_, op, a, b):
                    for x, y in ((a, b), (b, a)):
                        if op == "In" and x == C(kind) and y[0] == "elem":
                            return isk
                        if op == "In" and x == C(other) and y[0] == "elem":
                            return not isk
                        if op == "Eq" and y == T and item_field(x) == C(kind):
                            return eq
                        if op in ("Eq", "Is") and y == NONE and item_field(x) in (C(kind), C("value")):
                            return False
                        if op == "In" and x == T and item_field(y) == C("value"):
                            return inval
                    return None
                e, st, res, f = remove_any(k, kind, T, hook)
                for st2, kk, v in res:
                    items = shared_list(st2) if kk == "v" else None
                    if items == ():
                        k.ob(eq or inval, fn, "%s can be dropped" % what)
                        continue
                    if items is None or len(items) != 1 or items[0][0] != "each" or items[0][2] != (("s", "LIST"), "elem"):
                        k.undecided(fn, "the remaining list has a form the rule does not know")
                        continue
                    for facts_, el in items[0][3]:
                        k.ob(len(el) == (0 if eq or inval else 1), fn, "%s can be %s" % (what, "kept" if el else "dropped"))
    with k.rule("R3", "finishing a section keeps its recorded actions under the section's own name", "SetEnvironment.handler_finalize"):
        fn = "SetEnvironment.handler_finalize"
        f = k.p.method(SE, "handler_finalize")
        for root in (("s", "CUR"),):
            e = se_engine(k)
            st = State()
            old = e.named_obj(st, "ADICT", None, fresh=True, kind="dict", items=(("kv", C("earlier"), ("s", "EARLIER")),))
            s = se_obj(k, e, st, {"_var_actions_cache": old})
            sh = e.named_obj(st, "SH", None, fresh=True, kind="dict", items=(("kv", C("setenvironment"), ("s", "LIST")),))
            hp = e.named_obj(st, "HP", k.p.cls("HandlerParameters"))
            st.heap["HP"] = HObj("inst", k.p.cls("HandlerParameters"), False, False, {"_params": ("tuple", ()), "_data_shared": sh, "_op": C("x"), "_value": NONE, "_handler_name": C("h"), "_section_root": ("s", "CUR"), "_raw_option": ("tuple", ())})
            res = e.call_func(st, f, [s, ("s", "CUR"), hp], {}, f.node, None, inline_always=True, raw=True)
            for st2, kk, v in res:
                if kk != "v":
                    k.ob(False, fn, "finishing raises %s" % show(v)[:60])
                    continue
                for st3, k3, acts in e.get_attr(st2, s, "actions", f.node, None):
                    d = dict((x[1], x[2]) for x in st3.heap[acts[1]].items if x[0] == "kv") if acts[0] == "o" else None
                    if d is None:
                        raise Undecided("the kept actions have a form the rule does not know")
                    got = d.get(("s", "CUR"))
                    if got is not None and got[0] == "pc":
                        got = got[2][0]
                    k.ob(got is not None and mentions(e.reify(st3, got), ("s", "LIST")), fn, "the section's actions are kept as %s" % show(got or NONE)[:60])
                    k.ob(d.get(C("earlier")) == ("s", "EARLIER"), fn, "the actions of other sections are untouched")
