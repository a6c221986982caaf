"""The effect of one environment operation: the helper functions `apply` and the generated Python scripts call."""
import itertools
import re

from kit import *   # noqa: F401,F403
from terms import *   # noqa: F401,F403
from r_core import QUIET
import shell
from r_env import se_engine, se_obj, specs, SEC, CPED, SE
from r_load import Stub, outcome, plain

OPS = ("set", "set_if_empty", "append", "prepend", "unset", "remove_substr", "remove_path_entry", "find_in_path", "assert_not_empty")
OLD = (None, "", "a", "/bar", "/foo:/bar:/bar/baz:/bar:/bif", ":a::b:", "/bar/:/bar:/BAR: /bar", "aXaX", "x y  z", "#a#", "$Q")
NEW = ("", "a", "/bar", "X", "x y", "/bar:/bif", "/bar/", "$Q", "pre/${Q}/post", "$UNSET/x", "a\\b\"c", "${Q", "tool", "#", "$V", ".")
REST = (("Q", "q1"), ("VV", "other"), ("PATH", "/bin:/usr/bin"), ("v", "low"))


def expand(text, env):
    return re.sub(r"\$(?:(\w+)|\{([^}]*)\})", lambda m: env.get(m.group(1) or m.group(2), m.group(0)), text)


def effect(op, env, value, allow, found):
    """(environment afterwards, failure, text of it)"""
    if not allow and value == "":
        return env, "ValueError", None
    old, out = env.get("V"), dict(env)
    value = expand(value, env)
    if op == "set":
        new = value
    elif op == "set_if_empty":
        if old:
            return env, None, None
        new = value
    elif op in ("append", "prepend"):
        new = value if old is None else old + ":" + value if op == "append" else value + ":" + old
    elif op == "unset":
        out.pop("V", None)
        return out, None, None
    elif op in ("remove_substr", "remove_path_entry"):
        if old is None:
            return env, None, None
        new = old.replace(value, "") if op == "remove_substr" else ":".join(x for x in old.split(":") if x != value)
    elif op == "find_in_path":
        new = found.get(value, "")
    else:
        return (env, None, None) if old else (env, "ValueError", value or None)
    if new == "" and not allow:
        return env, "ValueError", None
    out["V"] = new
    return out, None, None


def run_op(k, f, op, env, value, extra, found, first="spawn"):
    e = k.engine(opaque=dict(QUIET), max_steps=200000)
    e.calm = True
    e.unroll = e.unroll_while = 60
    sb = Stub(e)
    st = State()
    data = e.named_obj(st, "ENVIRON", None, fresh=True, kind="dict", items=tuple(("kv", C(a), C(b)) for a, b in env.items()))
    sb.attrs[(("ext", "os"), "environ")] = data
    sb.attrs[(("ext", "os"), "pathsep")] = C(":")

    def now(s):
        it = s.heap["ENVIRON"].items
        return {x[1][2]: x[2][2] for x in it} if all(x[0] == "kv" and is_str_c(x[1]) and is_str_c(x[2]) for x in it) else UNK

    def expandvars(en, s, name, args, kwargs, node, fid):
        d = now(s)
        return [(s, "v", C(expand(args[0][2], d)))] if d is not UNK and is_str_c(args[0]) else None

    def getenv(en, s, name, args, kwargs, node, fid):
        d = now(s)
        return [(s, "v", C(d[args[0][2]]) if args[0][2] in d else args[1] if len(args) > 1 else NONE)] if d is not UNK and is_str_c(args[0]) else None

    def find(which):
        def h(en, s, name, args, kwargs, node, fid):
            if which == "missing":      # the module is not part of this Python
                return [(s, "x", ("exc", "ModuleNotFoundError", ()))]
            v = found.get(plain(args[0])) if plain(args[0]) is not UNK else None
            return [(s, "v", NONE if v is None else C(v))]
        return h
    e.opaque.update({"ext:os.path.expandvars": expandvars, "ext:os.getenv": getenv, "ext:distutils.spawn.find_executable": find("missing" if first == "which" else "spawn"), "ext:shutil.which": find("which")})
    res = k.run(e, f, [C(op), C("V"), C(value)], st, extra)
    return e, res, now


def S08(k):
    fn = "SetEnvironment.envvar_op"
    fs = [f for m in k.p.modules.values() if m.short == "SetEnvironment" for f in m.functions.get("envvar_op", [])]
    with k.rule("R1", "every operation changes the variable as documented, and no other one; a failing one changes nothing", fn):
        if not fs:
            raise Undecided("no function envvar_op")
        f = fs[-1]
        found = {"tool": "/bin/tool", "q1": "/bin/q1"}
        for op, old, value in itertools.product(OPS, OLD, NEW):
            for allow, first in ((True, "spawn"), (False, "spawn"), (True, "which")):
                if first == "which" and (op != "find_in_path" or value not in ("tool", "$Q", "a")):
                    continue
                if not allow and not (value in ("", "a", "/bar") and old in (None, "", "a", "/bar")):
                    continue
                env = dict(REST, **({} if old is None else {"V": old}))
                e, res, now = run_op(k, f, op, env, value, {} if allow else {"allow_empty": FALSE}, found, first)
                want, exc, text = effect(op, env, value, allow, found)
                what = "%s of %r on %s%s" % (op, value, "an unset variable" if old is None else repr(old), "" if allow else ", empty values refused")
                k.table([now(st) for st, oc in res], want, fn, what + ": the environment afterwards")
                k.table([outcome(e, st, *oc) for st, oc in res], ("raise", exc) if exc else ("return", 0), fn, what + ": result")
                if text:
                    k.table([plain(oc[1][2][0]) if oc[0] == "raise" and oc[1][0] == "exc" and len(oc[1]) > 2 and oc[1][2] else UNK for st, oc in res], text, fn, what + ": the message")
    with k.rule("R2", "an unknown operation is an error and changes nothing", fn):
        for op in ("", "Set", "sets", "remove", "envvar_set", "load"):
            for old in (None, "a"):
                env = dict(REST, **({} if old is None else {"V": old}))
                e, res, now = run_op(k, fs[-1], op, env, "a", {}, {})
                k.table([now(st) for st, oc in res], env, fn, "%r: the environment afterwards" % op)
                k.table([outcome(e, st, *oc) for st, oc in res], ("raise", "ValueError"), fn, "%r: result" % op)


class Sourced(shell.Shell):
    """the script is sourced in a shell whose programs are described by `found`"""
    found = {}

    def do_which(self, a, reds):
        p = self.found.get(a[1]) if len(a) == 2 else None
        if p:
            self.emit(p + "\n", reds)
        self.status = 0 if p else 1


def first(text):
    return (text.split() or [""])[0]


# What the functions of the script are known to do instead (their text is compared with stored copies by the existing tests, so they are not repaired).
def known_wrong(op, old, value):
    """(kind of the deviation, value afterwards | 'exit')"""
    if value == "" and op in ("append", "prepend", "remove_substr", "remove_path_entry", "find_in_path"):
        return "empty-value", "exit"
    if op == "remove_path_entry":
        v = ":" + (old or "") + ":"
        return "missing-variable-or-colons-or-white-space", ("" if v[:1] == " " else first(v.replace(":" + value + ":", ":")))
    if op == "remove_substr":
        if "#" in value:
            return "number-sign", old
        return "missing-variable-or-pattern-or-white-space", first(re.sub(shell.basic(value), "", " ".join((old or "").split())))
    return None, None


def S09(k):
    fn = "SetEnvironment._gen_script_header_bash"
    found = {"tool": "/bin/tool", "q1": "/bin/q1"}
    with k.rule("R1", "sourcing the generated bash script leaves every variable with the value that applying the action gives", fn):
        for op, value in itertools.product(OPS, NEW):
            if "$UNSET" in value or value == "${Q" or (op.startswith("remove") and re.search(r"[\\\s]", value)):
                continue        # outside the property
            text = script_text(k, (("envvar_" + op, "V", value),))
            for old in OLD:
                if value == "$V" and (old is None or op == "remove_substr" and re.search(r"\s", old)):
                    continue
                if op == "unset" and value != "a" or old == "$Q" and op == "find_in_path":
                    continue
                env = dict(REST, **({} if old is None else {"V": old}))
                want, exc, msg = effect(op, env, value, True, found)
                what = "%s of %r on %s" % (op, value, "an unset variable" if old is None else repr(old))
                got, how, printed = source_script(text, env, found)
                wrong = ("envvar_op(bash):%s:" % op)
                if got is None:
                    k.undecided(fn, "%s: %s" % (what, how))
                    continue
                right = got == want and how == ("exit" if exc else "end")
                if right and msg and msg not in printed:
                    k.ob(False, wrong + "message", "%s: the message %r is not shown" % (what, msg))
                    continue
                if right:
                    k.ob(True, fn, what)
                    continue
                kind, bad = known_wrong(op, old, expand(value, env))
                same = how == "exit" and got == env if bad == "exit" else how == "end" and kind and (got.get("V") == bad) and {a: b for a, b in got.items() if a != "V"} == REST_D
                k.ob(False, wrong + (kind if same else "effect"), "%s: %s, V is %r instead of %r" % (what, how, got.get("V"), want.get("V")))
    with k.rule("R2", "the actions of a script take effect one after the other: a value refers to what the earlier ones have set", fn):
        steps = [("set", "V", "n1"), ("set", "W", "$V:$Q"), ("prepend", "V", "p:$W"), ("append", "W", "${V}z"), ("set_if_empty", "W", "e$V"), ("unset", "V", None), ("find_in_path", "W", "tool"), ("assert_not_empty", "V", "none!"), ("set_if_empty", "V", "$Q\\\"")]
        for acts in itertools.permutations(steps, 2):
            for old in (None, "o l d"):
                env = dict(REST, W="w", **({} if old is None else {"V": old}))
                now, exc = dict(env), None
                for op, name, value in acts:
                    if exc is None:
                        now, exc = named_effect(op, name, value or "", now, found)
                if any("$V" in (v or "") or "${V}" in (v or "") for _, _, v in acts) and (old is None or acts[0][0] == "unset"):
                    continue        # an unset reference
                text = script_text(k, tuple(("envvar_" + op, name, value) for op, name, value in acts))
                got, how, printed = source_script(text, env, found)
                what = " then ".join("%s %s %r" % a for a in acts)
                if got is None:
                    k.undecided(fn, "%s: %s" % (what, how))
                else:
                    k.ob(got == now and how == ("exit" if exc else "end"), fn, "%s with V %r: %s, V is %r and W is %r instead of %r and %r" % (what, old, how, got.get("V"), got.get("W"), now.get("V"), now.get("W")))


def named_effect(op, name, value, env, found):
    """the effect of an operation on the variable `name`"""
    env = dict(env)
    value = expand(value, env)
    other = env.pop("V", None) if name != "V" else None
    e = dict(env, V=env[name]) if name != "V" and name in env else dict(env)
    if name != "V":
        e.pop(name, None)
    out, exc, _ = effect(op, e, value, True, found)
    out = dict(out)
    if name != "V":
        v = out.pop("V", None)
        if v is not None:
            out[name] = v
        if other is not None:
            out["V"] = other
    return out, exc


REST_D = dict(REST)


def script_text(k, acts):
    """the text generate_actions_script gives for recorded actions with known names and values"""
    e = se_engine(k)
    st = State()
    ds = [e.named_obj(st, "ACT%d" % n, None, fresh=True, kind="dict", items=(("kv", C("op"), C(op)), ("kv", C("envvar"), C(name)), ("kv", C("value"), C(value)))) for n, (op, name, value) in enumerate(acts)]
    l = e.named_obj(st, "ALIST", None, fresh=True, kind="list", items=tuple(("i", d) for d in ds))
    adict = e.named_obj(st, "ADICT", None, fresh=True, kind="dict", items=(("kv", SEC, l),))
    e.attr_specs = specs(actions=adict, configparserenhanceddata=CPED)
    st.facts[("cmp", "In", SEC, CPED)] = True
    out = set()
    for st2, oc in k.run(e, k.p.method(SE, "generate_actions_script"), [se_obj(k, e, st), SEC], st, {"interp": C("bash")}):
        if oc[0] != "return" or not is_str_c(oc[1]):
            raise Undecided("the text of the script is not known: %s %s" % (oc[0], show(oc[1])[:160]))
        out.add(oc[1][2])
    if len(out) != 1:
        raise Undecided("%d texts" % len(out))
    return out.pop()


def source_script(text, env, found):
    """(variables afterwards, how the script ended, what it printed) of the only path"""
    prog = shell.parse(text)
    sh = Sourced(env=env, sourced=True)
    sh.found = found
    sh.exported = set(env)
    how = "end"
    try:
        sh.run(prog)
    except shell.Exit:
        how = "exit"
    except shell.Return:
        how = "return"
    except (shell.Unknown, shell.Hang) as ex:
        return None, str(ex), ""
    if sh.taken:
        return None, "more than one path", ""
    got = {a: b for a, b in sh.vars.items() if b is not None and (a in sh.exported or a not in env)}
    return got, how, "".join(ev[2] for ev in sh.events if ev[0] == "print")
