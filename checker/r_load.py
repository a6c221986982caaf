"""load_env.py and gen_config.py: which files and names are used, when scripts and fragments are written, and when the tools refuse."""
import itertools
import posixpath
import re

from kit import *   # noqa: F401,F403
from terms import *   # noqa: F401,F403
from pools import words, counts
from r_tools import tool_engine, config_dict, outcome, pyval, seq

ARGS = ("s", "ARGS")


class Stub:
    """answers attributes and methods of the named opaque objects of a scenario"""

    def __init__(self, e):
        self.e = e
        self.attrs = {}
        self.methods = {}
        orig = e.get_attr

        def get_attr(s, b, name, node, fid):
            f = self.attrs.get((b, name))
            if f is None and b[0] == "cpe":
                f = self.attrs.get(("cpe", name))
            if f is None and b[:2] == ("s", "UUID") and name == "hex":
                return [(s, "v", C(("%08x" % (0xa0 + b[2])) * 4))]
            if f is not None:
                key = ("A", b, name)
                if key in s.ext and not callable(f):
                    return [(s, "v", s.ext[key])]
                return f(s, b, name, node, fid) if callable(f) else [(s, "v", f)]
            return orig(s, b, name, node, fid)
        e.get_attr = get_attr
        oldm = e.call_method_opaque

        def call_method_opaque(s, b, name, args, kwargs, node, fid):
            f = self.methods.get((b, name))
            if f is not None:
                return f(s, b, name, args, kwargs, node, fid)
            return oldm(s, b, name, args, kwargs, node, fid)
        e.call_method_opaque = call_method_opaque

    def event(self, kind, value=NONE, raises=None):
        def f(s, b, name, args, kwargs, node, fid):
            s = s.copy()
            self.e.emit(s, kind, (tuple(self.e.reify(s, a) for a in args), self.e.kwt(s, kwargs)), node, fid)
            if raises:
                return [(s, "x", ("exc", raises, ()))]
            return [(s, "v", value)]
        return f


def load_engine(k, data=None, exists=None, answers=(), opaque=None):
    """-> engine, stub; every ConfigParserEnhanced view is data(state)"""
    def new_parser(en, s, c, args, kwargs, node, fid):
        s = s.copy()
        a = list(args) + list(kwargs.values())
        en.emit(s, "CPE", (en.reify(s, a[0]) if a else NONE,), node, fid)
        return [(s, "v", ("cpe", en.reify(s, a[0]) if a else NONE))]

    def inp(en, s, name, args, kwargs, node, fid):
        s = s.copy()
        i = len([ev for ev in s.trace if ev.kind == "ASK"])
        en.emit(s, "ASK", (), node, fid)
        if i >= len(answers):
            return [(s, "x", ("exc", "EOFError", ()))]
        return [(s, "v", C(answers[i]))]
    op = {"ConfigParserEnhanced": new_parser, "ext:input": inp,
          "ext:argparse.ArgumentParser": lambda en, s, name, args, kwargs, node, fid: [(s, "v", ("s", "PARSER"))],
          "ext:getpass.getuser": lambda en, s, name, args, kwargs, node, fid: [(s, "v", C("me"))],
          "ext:socket.gethostname": lambda en, s, name, args, kwargs, node, fid: [(s, "v", C("host"))]}
    def uuid4(en, s, name, args, kwargs, node, fid):
        s = s.copy()
        n = len([ev for ev in flat(s.trace) if ev.kind == "UUID"]) + 1
        en.emit(s, "UUID", (n,), node, fid)
        return [(s, "v", ("s", "UUID", n))]
    def expand(f):
        def spec(en, s, name, args, kwargs, node, fid):
            t = args[0][2] if args and is_str_c(args[0]) else args[0][1] if args and args[0][0] == "pp" else None
            return None if t is None or kwargs or len(args) != 1 else [(s, "v", C(f(t)))]
        return spec
    # one possible environment: every variable has the value `env`, the home directories are below /home
    op["ext:os.path.expandvars"] = expand(lambda t: re.sub(r"\$(\w+|\{\w+\})", "env", t))
    op["ext:os.path.expanduser"] = expand(lambda t: re.sub(r"^~([^/]*)", r"/home/\1", t))
    op["ext:uuid.uuid4"] = op["ext:uuid.uuid1"] = uuid4
    op.update(opaque or {})
    e = tool_engine(k, opaque=op)
    e.fold_paths = True
    e.path_exists = exists
    e.calm = True
    e.solid = {"DS", "EK", "SEO", "EKO", "DSO", "LEO", "ARGS", "PARSER"}
    sb = Stub(e)
    if data is not None:
        sb.attrs[("cpe", "configparserenhanceddata")] = data
    P = ("s", "PARSER")
    sb.methods[(P, "add_argument")] = lambda s, b, name, args, kwargs, node, fid: _addarg(e, s, args, kwargs, node, fid)
    sb.methods[(P, "add_argument_group")] = lambda s, b, name, args, kwargs, node, fid: [(s, "v", P)]
    sb.methods[(P, "add_mutually_exclusive_group")] = sb.methods[(P, "add_argument_group")]
    sb.methods[(P, "parse_args")] = lambda s, b, name, args, kwargs, node, fid: [(s, "v", ARGS)]
    return e, sb


def _addarg(e, s, args, kwargs, node, fid):
    s = s.copy()
    e.emit(s, "OPTION", (tuple(args), tuple(sorted(kwargs.items()))), node, fid)
    return [(s, "v", NONE)]


def set_args(st, **kw):
    for n, v in kw.items():
        st.ext[("A", ARGS, n)] = v if isinstance(v, tuple) else C(v)


def args_of(st, names):
    out = {}
    for n in names:
        v = st.ext.get(("A", ARGS, n))
        out[n] = None if v is None else plain(v)
    return out


def get(e, s, name, node):
    return lambda st: e.get_attr(st, s, name, node, None)


def call(e, m, args):
    return lambda st: e.call_func(st, m, list(args), {}, m.node, None, inline_always=True)


def events(st, *kinds):
    return [ev for ev in flat(st.trace) if ev.kind in kinds]


def new_spec(kind, value):
    """constructor of a program class: one event with the arguments by parameter name"""
    def spec(en, s, c, args, kwargs, node, fid):
        s = s.copy()
        r = en.p.find_member(c, "__init__")
        names = [a.arg for a in r[1].node.args.args][1:] if r is not None and r[0] == "method" else []
        d = {n: en.reify(s, v) for n, v in zip(names, args)}
        d.update({n: en.reify(s, v) for n, v in kwargs.items()})
        en.emit(s, kind, (tuple((n, d[n]) for n in names + sorted(set(d) - set(names)) if n in d),), node, fid)
        return [(s, "v", value)]
    return spec


def plain(v):
    return v[1] if v[0] == "pp" else v[2] if is_c(v) else UNK


# ---------------------------------------------------------------- LoadEnv
KEYS = (("supported_systems_file", "supported-systems"), ("supported_envs_file", "supported-envs"), ("environment_specs_file", "environment-specs"))


def le_new(k, sec, ini, cli, argv=["x"], extra=None, opaque=None, exists=None):
    e, sb = load_engine(k, opaque=opaque, exists=exists)
    st = State()
    data = config_dict(e, st, "DATA", sec)
    sb.attrs[("cpe", "configparserenhanceddata")] = data
    cls = k.p.cls("LoadEnv")
    s = e.named_obj(st, "self", cls, fresh=True)
    full = dict(build_name=C("sysA_gnu_debug"), force=FALSE, output=NONE, list_envs=FALSE, load_matching_env_location=NONE)
    full.update(cli)
    full.update(extra or {})
    set_args(st, **full)
    al = e.named_obj(st, "ARGV", None, fresh=True, kind="list", items=tuple(("i", C(a)) for a in argv)) if isinstance(argv, list) else argv
    init = k.p.find_member(cls, "__init__")[1]
    res = e.call_func(st, init, [s, al, C(ini)], {}, init.node, None, inline_always=True)
    k.paths += len(res)
    return e, sb, s, res


def resolved(ini, v):
    p = v if posixpath.isabs(v) else posixpath.join(posixpath.dirname(ini), v)
    return posixpath.normpath(posixpath.join("/cwd", p))


def L03(k):
    fn = "LoadEnv.args"
    cls = k.p.cls("LoadEnv")
    nd = k.p.find_member(cls, "args")[1].getter.node
    names = [n for n, _ in KEYS]
    with k.rule("R1", "a file given on the command line is used as given; otherwise the one named in load-env.ini, a relative name being relative to that file's directory", fn):
        for ini in ("/etc/le/load-env.ini", "conf/load-env.ini", "load-env.ini"):
            for vals in (("/a/s.ini", "/a/e.ini", "/a/p.ini"), ("s.ini", "sub/e.ini", "../p.ini"), ("/a/s.ini", "e.ini", "/q/../p.ini"), ("~/s.ini", "$H/e.ini", "c:/p q.ini")):
                for given, ex in itertools.product(itertools.product((None, "/cli/%s"), repeat=3), (True, False)):
                    cli = {n: (("pp", g % n) if g else NONE) for (n, _), g in zip(KEYS, given)}
                    e, sb, s, res = le_new(k, {"load-env": {key: v for (_, key), v in zip(KEYS, vals)}}, ini, cli, exists=lambda t, ex=ex: ex)
                    want = {n: g % n if g else resolved(ini, v) for (n, _), g, v in zip(KEYS, given, vals)}
                    rs = [x for r in res for x in ([r] if r[1] == "x" else seq(e, r[0], [get(e, s, "args", nd)]))]
                    k.table([("args", args_of(x[0], names)) if x[1] == "v" and x[2] == ARGS else outcome(e, *x) for x in rs], ("args", want), fn, "load-env.ini %s: %s, command line %s%s" % (ini, vals, given, "" if ex else ", files missing"))
    with k.rule("R2", "a load-env.ini without its section, one of its options or a value for it is refused with ValueError", "LoadEnv.__init__"):
        ok = {key: "/a/%s.ini" % key for _, key in KEYS}
        cases = [({"other": ok}, True), ({}, True), ({"load-env": ok}, False)]
        for _, key in KEYS:
            cases.append(({"load-env": {a: b for a, b in ok.items() if a != key}}, True))
            cases.append(({"load-env": {a: ("" if a == key else b) for a, b in ok.items()}}, True))
            cases.append(({"load-env": {a: (None if a == key else b) for a, b in ok.items()}}, True))
        for sec, bad in cases:
            e, sb, s, res = le_new(k, sec, "/etc/le/load-env.ini", {n: NONE for n in names})
            k.table([("raise", "ValueError") if outcome(e, *x) == ("raise", "ValueError") else "ok" if x[1] == "v" else outcome(e, *x) for x in res],
                    ("raise", "ValueError") if bad else "ok", "LoadEnv.__init__", "load-env.ini holds %s" % sec)
        for argv in (C("x"), NONE, ("tuple", (C("x"),))):
            e, sb, s, res = le_new(k, {"load-env": ok}, "/etc/le/load-env.ini", {n: NONE for n in names}, argv=argv)
            k.table([outcome(e, *x) if x[1] == "x" else "ok" for x in res], ("raise", "TypeError"), "LoadEnv.__init__", "arguments %s" % show(argv))
    with k.rule("R3", "the system, the environment and the specifications are determined from the chosen build name, files and force flag", "LoadEnv"):
        sec = {"load-env": {key: "/a/%s.ini" % key for _, key in KEYS}}
        for force in (True, False):
            for given in ((None, None, None), ("/c/s", "/c/e", "/c/p"), (None, "/c/e", None)):
                cli = {n: (("pp", g) if g else NONE) for (n, _), g in zip(KEYS, given)}
                cli["force"] = C(force)
                f = {n: (g or "/a/%s.ini" % key) for (n, key), g in zip(KEYS, given)}
                DSO, EKO, SEO = ("s", "DSO"), ("s", "EKO"), ("s", "SEO")
                e, sb, s, res = le_new(k, sec, "/etc/load-env.ini", cli, opaque={"DetermineSystem": new_spec("DS", DSO), "EnvKeywordParser": new_spec("EK", EKO), "SetEnvironment": new_spec("SE", SEO)})
                sb.attrs[(DSO, "system_name")] = C("sysA")
                sb.attrs[(EKO, "qualified_env_name")] = C("sysA_gnu")
                sb.methods[(SEO, "assert_file_all_sections_handled")] = sb.event("VALIDATE")
                rs = [x for r in res for x in ([r] if r[1] == "x" else seq(e, r[0], [get(e, s, "parsed_env_name", nd)]))]
                k.table([outcome(e, *x) for x in rs], ("return", "sysA_gnu"), "LoadEnv.parsed_env_name", "the environment matched by the parser")

                def seen(st, kind):
                    return [{n: plain(v) for n, v in ev.a[0]} for ev in events(st, kind)]
                wantek = ["sysA_gnu_debug", "sysA", f["supported_envs_file"]]
                wantds = ["sysA_gnu_debug", f["supported_systems_file"], force]
                k.table([list(d.values())[:2] + [d.get("force_build_name", False)] for x in rs for d in seen(x[0], "DS")[:1]], wantds, "LoadEnv.system_name", "the system is determined with")
                k.table([list(d.values()) for x in rs for d in seen(x[0], "EK")[:1]], wantek, "LoadEnv.load_env_keyword_parser", "the environment is matched with")
                m = k.p.method("LoadEnv", "load_set_environment")
                rs = [x for r in res if r[1] == "v" for x in seq(e, r[0], [call(e, m, [s])])]
                k.table([list(d.values()) for x in rs for d in seen(x[0], "SE")], [f["environment_specs_file"]], "LoadEnv.load_set_environment", "the specifications are read from")
    with k.rule("R6", "listing shows the environments of the determined system from the chosen file and ends the program successfully", "LoadEnv.list_envs"):
        fn = "LoadEnv.list_envs"
        m = k.p.method("LoadEnv", "list_envs")
        sec = {"load-env": {key: "/a/%s.ini" % key for _, key in KEYS}}
        DSO, EKO = ("s", "DSO"), ("s", "EKO")
        for before in ((), ("parsed_env_name",)):
            e, sb, s, res = le_new(k, sec, "/etc/load-env.ini", {n: NONE for n in names}, opaque={"DetermineSystem": new_spec("DS", DSO), "EnvKeywordParser": new_spec("EK", EKO)})
            sb.attrs[(DSO, "system_name")] = C("sysA")
            sb.attrs[(EKO, "qualified_env_name")] = C("sysA_gnu")
            sb.methods[(EKO, "get_msg_showing_supported_environments")] = lambda s_, b, name, args, kwargs, node, fid: [(s_, "v", C("the environments"))]
            rs = [x for r in res for x in ([r] if r[1] == "x" else seq(e, r[0], [get(e, s, x, nd) for x in before] + [call(e, m, [s])]))]
            k.table([outcome(e, *x) for x in rs], ("raise", "SystemExit"), fn, "listing ends the program")
            k.table([(plain(x[2][2][0]) if x[2][2] else None) in (None, 0) if x[1] == "x" and x[2][0] == "exc" else "no end" for x in rs], True, fn, "the exit status is a success")
            k.table([[1 for ev in flat(x[0].trace) if ev.kind == "print" and "the environments" in [y[2] for y in ev.a[0] if is_str_c(y)]] for x in rs], [1], fn, "the environments are shown once")
            k.table([[[plain(v) for _, v in ev.a[0]] for ev in events(x[0], "EK")] for x in rs], [["sysA_gnu_debug", "sysA", "/a/supported-envs.ini"]], fn, "the environments come from")
    with k.rule("R5", "after the build name is changed, system and environment are determined anew from the new name", "LoadEnv.build_name"):
        sec = {"load-env": {key: "/a/%s.ini" % key for _, key in KEYS}}
        bn = k.p.find_member(cls, "build_name")[1]

        def setbn(v):
            return lambda st_: [(a, "v", NONE) if b == "v" else (a, b, c) for (a, b, c) in e.set_attr(st_, s, "build_name", C(v), bn.setter.node, None)]
        for before in ((), ("parsed_env_name",), ("system_name",), ("system_name", "parsed_env_name"), ("env_stripped_build_name",), ("parsed_env_name", "env_stripped_build_name"), ("system_name", "parsed_env_name", "env_stripped_build_name")):
            for name in ("sysB_intel_opt", "sysA_gnu_opt"):
                def ds(en, s_, c, args, kwargs, node, fid):
                    b = en.reify(s_, args[0] if args else kwargs["build_name"])
                    return [(s_, "v", ("s", "DS", b))]

                def ek(en, s_, c, args, kwargs, node, fid):
                    l = list(args) + list(kwargs.values())
                    return [(s_, "v", ("s", "EK", en.reify(s_, l[0]), en.reify(s_, l[1])))]
                e, sb, s, res = le_new(k, sec, "/etc/load-env.ini", {n: NONE for n in names}, opaque={"DetermineSystem": ds, "EnvKeywordParser": ek})
                orig = e.get_attr

                def get_attr(s_, b, nm, node, fid, orig=orig, e=e):
                    if b[:2] == ("s", "DS") and is_str_c(b[2]):
                        if nm == "system_name":
                            return [(s_, "v", C(b[2][2].split("_")[0]))]
                        if nm == "supported_sys_names":
                            s_ = s_.copy()
                            return [(s_, "v", e.new_obj(s_, "list", node, fid, items=[("i", C("sysA")), ("i", C("sysB"))]))]
                    if b[:2] == ("s", "EK") and is_str_c(b[2]) and is_str_c(b[3]):
                        if nm == "qualified_env_name":
                            return [(s_, "v", C(b[3][2] + "/" + b[2][2].split("_")[1]))]
                        if nm == "delim":
                            return [(s_, "v", C("_"))]
                        if nm in ("env_names", "aliases"):
                            s_ = s_.copy()
                            return [(s_, "v", e.new_obj(s_, "list", node, fid, items=[("i", C(b[2][2].split("_")[1]))] if nm == "env_names" else []))]
                    return orig(s_, b, nm, node, fid)
                e.get_attr = get_attr
                steps = [get(e, s, x, nd) for x in before] + [setbn(name)]
                a, b, c = name.split("_")
                for attr, want in (("build_name", name), ("system_name", a), ("parsed_env_name", a + "/" + b), ("env_stripped_build_name", c)):
                    rs = [x for r in res for x in ([r] if r[1] == "x" else seq(e, r[0], steps + [get(e, s, attr, nd)]))]
                    k.table([outcome(e, *x) for x in rs], ("return", want), "LoadEnv.build_name", "%s after %s and the build name changed to %s" % (attr, ", ".join(before) or "nothing", name))
    with k.rule("R4", "the command line options store into the settings the tool reads", "LoadEnv"):
        e, sb, s, res = le_new(k, {"load-env": {key: "/a/%s.ini" % key for _, key in KEYS}}, "/etc/load-env.ini", {n: NONE for n in names})
        option_rule(k, res, {"--supported-systems": "supported_systems_file", "--supported-envs": "supported_envs_file", "--environment-specs": "environment_specs_file"},
                    {"--output": "output", "-o": "output", "--list-envs": "list_envs", "-l": "list_envs", "--force": "force", "-f": "force", "--load-matching-env-location": "load_matching_env_location", "--ci-mode": None}, "LoadEnv", e)


def option_rule(k, res, files, flags, fn, e):
    for (st, kd, v) in res:
        ops = {}
        for ev in events(st, "OPTION"):
            kw = dict(ev.a[1])
            for a in ev.a[0]:
                if is_str_c(a):
                    longs = [x[2] for x in ev.a[0] if is_str_c(x) and x[2].startswith("--")]
                    dest = kw["dest"][2] if "dest" in kw and is_c(kw["dest"]) else (longs or [a[2]])[0].lstrip("-").replace("-", "_")
                    ops[a[2]] = (dest, kw, ev)
        if not ops:
            raise Undecided("no add_argument call found")
        for o, d in dict(files, **flags).items():
            k.ob(o in ops and d in (ops[o][0], None), fn, "%s sets %s" % (o, ops[o][0] if o in ops else "nothing"))
        free = [o for o in ops if not o.startswith("-")]
        k.ob(free == ["build_name"], fn, "the words of the command line that are not options set %s" % free)
        for o in free:
            kw = ops[o][1]
            k.ob(kw.get("nargs") == C("?") and kw.get("default", NONE) == C(""), fn, "the build name may be left out and is then empty: nargs %s, default %s" % (show(kw.get("nargs", NONE)), show(kw.get("default", NONE))), ops[o][2].loc)
            k.ob(kw.get("type", ("ext", "str")) == ("ext", "str") and "choices" not in kw and "action" not in kw, fn, "the build name is taken as it is given", ops[o][2].loc)
        for o, (d, kw, ev) in ops.items():
            k.ob(kw.get("required", FALSE) == FALSE, fn, "%s need not be given" % o, ev.loc)
        for o, d in files.items():
            if o not in ops:
                continue
            kw = ops[o][1]
            k.ob(kw.get("default", NONE) == NONE, fn, "%s is unset unless given" % o)
            t = kw.get("type")
            if t is not None:
                k.table([plain(v) if kd2 == "v" else None for (s2, kd2, v) in e.call_value(st, t, [C("rel/../f.ini")], {}, ops[o][2], None)], "/cwd/f.ini", fn, "%s rel/../f.ini means" % o)
        for o, d in flags.items():
            if o in ops and o in ("--force", "--yes", "--list-envs", "--list-configs", "--list-config-flags", "--ci-mode"):
                kw = ops[o][1]
                if d is None:
                    k.ob(kw.get("action") in (C("store_true"), C("store_false")), fn, "%s takes no argument" % o)
                    continue
                k.ob(kw.get("action") == C("store_true") and kw.get("default", FALSE) in (FALSE, NONE), fn, "%s is off unless given, on when given" % o)


SEO = ("s", "SEO")


def le_obj(k, rval=0, bad_specs=False, fields=None, setenv=None, extra=None, exists=None, write_raises=None):
    """a LoadEnv object with its environment already matched; -> engine, stub, self, state"""
    e, sb = load_engine(k, opaque={"SetEnvironment": new_spec("SE", SEO), "tmp_load_matching_env_file": "pure"}, exists=exists)
    st = State()
    cls = k.p.cls("LoadEnv")
    f = {"set_environment": NONE if setenv is None else setenv, "silent": FALSE, "env_keyword_parser": ("s", "EKO")}
    f.update(fields or {})
    s = e.named_obj(st, "self", cls, fresh=True, fields=f)
    full = dict(build_name=C("sysA_gnu_debug"), force=FALSE, output=NONE, list_envs=FALSE, load_matching_env_location=NONE, environment_specs_file=("pp", "/a/p.ini"),
                supported_systems_file=("pp", "/a/s.ini"), supported_envs_file=("pp", "/a/e.ini"))
    full.update(extra or {})
    set_args(st, **full)
    e.attr_specs.update({"args": lambda en, s_, b, n, nd, fi: [(s_, "v", ARGS)] if b == s else None,
                         "parsed_env_name": lambda en, s_, b, n, nd, fi: [(s_, "v", C("sysA_gnu"))] if b == s else None,
                         "tmp_load_matching_env_file": lambda en, s_, b, n, nd, fi: [(s_, "v", ("pp", "/tmp/me/lme.sh"))] if b == s else None})
    sb.methods[(SEO, "apply")] = sb.event("APPLY", C(rval) if rval != "raise" else NONE, raises="OSError" if rval == "raise" else None)

    def validate(s_, b, name, args, kwargs, node, fid):
        s_ = s_.copy()
        lv = s_.ext.get(("A", SEO, "exception_control_level"))
        e.emit(s_, "VALIDATE", (lv,), node, fid)
        return [(s_, "x", ("exc", "ValueError", ()))] if bad_specs else [(s_, "v", NONE)]
    sb.methods[(SEO, "assert_file_all_sections_handled")] = validate
    sb.attrs[(SEO, "exception_control_level")] = C(4)         # the default: C06 R4
    sb.methods[(SEO, "write_actions_to_file")] = sb.event("SCRIPT", C(0), raises=write_raises)
    return e, sb, s, st


class Disk:
    """a file system that fails as the real one does: directories that are missing or already there, files that are not there"""

    def __init__(self, e, dirs, files=()):
        self.init = {d: "dir" for d in dirs}
        self.init.update({f: True for f in files})
        e.path_exists = lambda t: self.init.get(t, False)
        e.path_is = lambda name, text, st=None: self.is_(name, text, st)
        times = dict(files) if isinstance(files, dict) else {}
        e.path_time = lambda t: times.get(t, 100)
        old = e.diskless = getattr(e, "diskless", e.call_method_opaque)

        def method(s, b, name, args, kwargs, node, fid):
            if b[0] == "pp":
                x = self.fails(s, name, b[1], args, kwargs)
                if x:
                    return [(s, "x", ("exc", x, ()))]
            return old(s, b, name, args, kwargs, node, fid)
        e.call_method_opaque = method

        def ext(en, s, name, args, kwargs, node, fid):
            t = en.path_text_of(args[0]) if args else None
            x = self.fails(s, name, t, args[1:], kwargs) if t is not None else None
            return [(s, "x", ("exc", x, ()))] if x else None
        for n in ("open", "io.open", "os.mkdir", "os.makedirs", "os.remove", "os.unlink"):
            e.opaque["ext:" + n] = ext
        self.e = e

    def now(self, st, text):
        r = self.init.get(text, False)
        for ev in flat(st.trace) if st is not None else ():
            if ev.kind == "xm" and ev.a[1][0] == "pp":
                p, n = ev.a[1][1], ev.a[0]
                deep = any(x == TRUE for x in list(ev.a[2][1:2]) + [dict(ev.a[3]).get("parents", FALSE)])
            elif ev.kind == "x" and ev.a[1]:
                p, n = self.e.path_text_of(ev.a[1][0]), ev.a[0]
                deep = n == "os.makedirs"
            elif ev.kind == "SCRIPT" and (ev.a[0] or ev.a[1]):
                p, n, deep = plain((list(ev.a[0]) + [dict(ev.a[1]).get("filename", NONE)])[0]), "touch", False
            else:
                continue
            if p == text and n in ("unlink", "os.remove", "os.unlink", "rename", "replace", "rmdir", "os.rename", "os.replace", "shutil.move"):
                r = False
            elif p == text and n in ("touch", "write_text", "open", "io.open"):
                r = r or True
            elif n in ("mkdir", "os.mkdir", "os.makedirs") and p is not None and p is not UNK and (p == text or deep and p.startswith(text.rstrip("/") + "/")):
                r = "dir"
        return r

    def is_(self, name, text, st):
        r = self.now(st, text)
        return bool(r) if name == "exists" else r == "dir" if name in ("is_dir", "isdir") else bool(r) and r != "dir"

    def fails(self, st, name, text, args, kwargs):
        def flag(n, i, d=FALSE):
            return kwargs.get(n, args[i] if len(args) > i else d) == TRUE
        here, up = self.now(st, text), posixpath.dirname(text)
        if name in ("mkdir", "os.mkdir", "os.makedirs"):
            if here:
                return None if here == "dir" and flag("exist_ok", {"mkdir": 2, "os.makedirs": 1}.get(name, 9)) else "FileExistsError"
            return None if name == "os.makedirs" or name == "mkdir" and flag("parents", 1) or self.now(st, up) == "dir" else "FileNotFoundError"
        if name in ("unlink", "os.remove", "os.unlink"):
            return None if here is True or not here and flag("missing_ok", 0) else "IsADirectoryError" if here else "FileNotFoundError"
        if name in ("open", "io.open", "write_text", "touch"):
            m = "w" if name in ("write_text", "touch") else plain(kwargs.get("mode", args[0] if args else C("r")))
            if here == "dir":
                return "IsADirectoryError"
            if m is UNK or m[:1] == "r":
                return None if here or m is UNK else "FileNotFoundError"
            return "FileExistsError" if m[:1] == "x" and here else None if self.now(st, up) == "dir" else "FileNotFoundError"
        return None


def disks(files):
    """(what is there, directories, files): nothing, the outer directories, all of them, and the files themselves"""
    inner = {posixpath.dirname(f) for f in files}
    outer = {posixpath.dirname(d) for d in inner} | {"/", "/tmp"}
    yield "no directory", {"/"}, ()
    yield "outer directories", outer, ()
    yield "directories", outer | inner, ()
    yield "everything", outer | inner, dict.fromkeys(files, 50)
    yield "everything, newer than the input files", outer | inner, dict.fromkeys(files, 150)


def file_acts(trace, unlink=True):
    """[(what, file, ...)] of the file effects of a path; UNK where the analysis does not know"""
    acts, openf = [], {}
    for ev in flat(trace):
        if ev.kind == "x" and ev.a[0] in ("open", "io.open"):
            mode = ev.a[1][1] if len(ev.a[1]) > 1 else dict(ev.a[2]).get("mode", C("r"))
            openf[ev.a[3]] = (plain(ev.a[1][0]), plain(mode))
            acts.append(("open", plain(ev.a[1][0]), plain(mode)))
        elif ev.kind == "xm" and ev.a[0] == "open" and ev.a[1][0] == "pp":
            md = plain(ev.a[2][0]) if ev.a[2] else plain(dict(ev.a[3]).get("mode", C("r")))
            openf[ev.a[4]] = (ev.a[1][1], md)
            acts.append(("open", ev.a[1][1], md))
        elif ev.kind == "xm" and ev.a[0] == "write" and ev.a[1][0] == "res" and ev.a[1][2] in openf:
            acts.append(("write", openf[ev.a[1][2]][0], plain(ev.a[2][0]) if not ev.a[2] or ev.a[2][0][0] != "pp" else "<TypeError: a path is not text>"))
        elif ev.kind == "xm" and ev.a[0] in ("write", "writelines"):
            acts.append(("write", UNK, UNK))
        elif ev.kind == "xm" and ev.a[0] == "write_text":
            acts.append(("open", plain(ev.a[1]), "w"))
            acts.append(("write", plain(ev.a[1]), plain(ev.a[2][0])))
        elif ev.kind == "print" and any(n == "file" for n, _ in ev.a[1]):
            acts.append(("write", UNK, UNK))
        elif ev.kind == "SCRIPT" and len(ev.a) == 2:
            d = dict(zip(("filename", "section", "include_header", "include_body", "include_shebang", "interpreter"), ev.a[0]))
            d.update(dict(ev.a[1]))
            f = plain(d.get("filename", NONE))
            what = [plain(d.get("section", NONE)), plain(d.get("include_header", TRUE)), plain(d.get("include_body", TRUE)), plain(d.get("interpreter", C("bash")))]
            acts += [("open", f, "w"), ("write", f, UNK if UNK in what else "<script of %s, helpers %s, actions %s, %s>" % tuple(what))]
        elif unlink and ev.kind == "xm" and ev.a[0] in ("unlink", "rename", "replace", "touch", "rmdir") and ev.a[1][0] == "pp":
            acts.append((ev.a[0], ev.a[1][1]))
        elif unlink and ev.kind == "x" and ev.a[0] in ("os.remove", "os.unlink", "os.rename", "os.replace", "shutil.move", "shutil.rmtree"):
            acts.append(("unlink", plain(ev.a[1][0])))
    return acts


def content_of(acts, f, exists=False):
    """text the file f holds after the acts"""
    text = "<old text>" if exists else None
    for a in acts:
        if UNK in a:
            return UNK
        if a[0] == "open" and a[1] == f and a[2][:1] in ("w", "x"):
            text = ""
        elif a[0] == "open" and a[1] == f and a[2][:1] == "a":
            text = text or ""
        elif a[0] == "write" and a[1] == f:
            text = (text or "") + a[2]
        elif a[0] == "unlink" and a[1] == f:
            text = None
    return "<no file>" if text is None else text


def L02(k):
    fn = "LoadEnv.apply_env"
    m = k.p.method("LoadEnv", "apply_env")
    with k.rule("R1", "the matched environment is applied once, after the specifications were checked completely; any status but 0 is a RuntimeError", fn):
        for rval in (0, 1, 2, 255, -1, -9, "raise"):
            for bad in (False, True):
                e, sb, s, st = le_obj(k, rval, bad)
                res = call(e, m, [s])(st)
                k.paths += len(res)
                want = ("raise", "ValueError") if bad else ("return", None) if rval == 0 else ("raise", "OSError" if rval == "raise" else "RuntimeError")
                k.table([outcome(e, *x) for x in res], want, fn, "apply gives %s%s" % (rval, ", the specifications are bad" if bad else ""))
                order = [[(ev.kind, plain(ev.a[0][0]) if ev.kind == "APPLY" else None) for ev in events(x[0], "VALIDATE", "APPLY")] for x in res]
                k.table(order, [("VALIDATE", None)] + ([] if bad else [("APPLY", "sysA_gnu")]), fn, "what is done%s" % (", the specifications are bad" if bad else ""))
                k.table([[plain(ev.a[0]) if ev.a[0] is not None else None for ev in events(x[0], "VALIDATE")] for x in res], [5], fn, "the check runs at the strictest level")
        for bad in (False, True):
            e, sb, s, st = le_obj(k, 0, bad)
            res = [y for x in call(e, m, [s])(st) for y in call(e, m, [s])(x[0])]
            k.table([outcome(e, *x) for x in res], ("raise", "ValueError") if bad else ("return", None), fn, "applying again%s" % (", the specifications are bad" if bad else ""))
    fn = "LoadEnv.write_load_matching_env"
    m = k.p.method("LoadEnv", "write_load_matching_env")
    with k.rule("R2", "the script of the matched environment, with helper functions and the name of the environment, is written to the temporary file and to the requested one", fn):
        for out in (None, "/o/d/env.sh"):
            files = ["/tmp/me/lme.sh"] + ([out] if out else [])
            for there, dirs, old in disks(files):
                ex = there.startswith("everything")
                e, sb, s, st = le_obj(k, extra={"output": ("pp", out) if out else NONE})
                disk = Disk(e, dirs, old)
                script = sb.methods[(SEO, "write_actions_to_file")]

                def wr(s_, b, name, args, kwargs, node, fid, script=script, disk=disk):
                    f = plain(kwargs.get("filename", args[0] if args else NONE))
                    x = disk.fails(s_, "write_text", f, [], {}) if isinstance(f, str) else None
                    return [(s_, "x", ("exc", x, ()))] if x else script(s_, b, name, args, kwargs, node, fid)
                sb.methods[(SEO, "write_actions_to_file")] = wr
                res = call(e, m, [s])(st)
                k.paths += len(res)
                k.table([plain(x[2]) if x[1] == "v" else outcome(e, *x) for x in res], files[-1], fn, "the returned file (output %s, there: %s)" % (out, there))
                acts = [file_acts(x[0].trace) for x in res]
                for f in files:
                    text = [content_of(a, f, ex) for a in acts]
                    k.table([t if t is UNK else t.rstrip("\n") for t in text], "<script of sysA_gnu, helpers True, actions True, bash>export LOADED_ENV_NAME=sysA_gnu", fn, "the text of %s (output %s, there: %s)" % (f, out, there))
                k.table([UNK if any(y[1] is UNK for y in a) else sorted({y[1] for y in a if y[0] == "write"}) for a in acts], sorted(files), fn, "the files written (output %s)" % out)
        e, sb, s, st = le_obj(k, bad_specs=True, exists=lambda t: True)
        res = call(e, m, [s])(st)
        k.table([outcome(e, *x) for x in res], ("raise", "ValueError"), fn, "the specifications are bad")
        k.table([len(events(x[0], "SCRIPT")) for x in res], 0, fn, "the specifications are bad: scripts written")
    with k.rule("R4", "the place of the temporary script is one of its own per run and stays the same within it", "LoadEnv.tmp_load_matching_env_file"):
        e, sb = load_engine(k)
        st = State()
        cls = k.p.cls("LoadEnv")
        s, s2 = e.named_obj(st, "self", cls, fresh=True), e.named_obj(st, "other", cls, fresh=True)
        nd = k.p.find_member(cls, "tmp_load_matching_env_file")[1].getter.node
        for n in (1, 2, 3):
            vals = [[r for r in seq(e, st, [get(e, s, "tmp_load_matching_env_file", nd)] * i)] for i in (1, n)]
            k.paths += sum(map(len, vals))
            k.table([outcome(e, *r) if r[1] == "x" else "a place" for r in vals[0]], "a place", "LoadEnv.tmp_load_matching_env_file", "asked")
            first = {plain(r[2]) if r[1] == "v" else UNK for r in vals[0]}
            k.table([plain(r[2]) if r[1] == "v" else outcome(e, *r) for r in vals[1]], first.pop() if len(first) == 1 else UNK, "LoadEnv.tmp_load_matching_env_file", "asked %d times" % n)
        both = [(plain(a[2]), plain(b[2])) for a in seq(e, st, [get(e, s, "tmp_load_matching_env_file", nd)]) if a[1] == "v" for b in seq(e, a[0], [get(e, s2, "tmp_load_matching_env_file", nd)]) if b[1] == "v"]
        k.table([UNK if UNK in x else "different" if x[0] != x[1] else x for x in both], "different", "LoadEnv.tmp_load_matching_env_file", "two runs")
    fn = "load_env.main"
    mains = [f for m_ in k.p.modules.values() if m_.short == "load_env" for f in m_.functions.get("main", [])]
    with k.rule("R3", "the tool applies the environment before it writes the script, and records where the script is when asked", fn):
        if not mains:
            raise Undecided("no function main")
        LEO = ("s", "LEO")
        for lst, loc, fails in itertools.product((False, True), (None, "/q/loc"), (False, True)):
            e, sb = load_engine(k, opaque={"LoadEnv": new_spec("LE", LEO)})
            st = State()
            set_args(st, list_envs=C(lst), load_matching_env_location=("pp", loc) if loc else NONE)
            sb.attrs[(LEO, "args")] = ARGS
            sb.attrs[(LEO, "parsed_env_name")] = C("sysA_gnu")
            sb.attrs[(LEO, "tmp_load_matching_env_file")] = ("pp", "/tmp/me/lme.sh")
            sb.methods[(LEO, "list_envs")] = sb.event("LIST", raises="SystemExit")
            sb.methods[(LEO, "apply_env")] = sb.event("APPLY", raises="RuntimeError" if fails else None)
            sb.methods[(LEO, "write_load_matching_env")] = sb.event("WRITE")
            res = call(e, mains[0], [("s", "ARGV")])(st)
            k.paths += len(res)
            want = ("raise", "SystemExit") if lst else ("raise", "RuntimeError") if fails else ("return", None)
            k.table([outcome(e, *x) for x in res], want, fn, "list %s, location %s, failing %s" % (lst, loc, fails))
            seqs = [[ev.kind for ev in events(x[0], "LIST", "APPLY", "WRITE")] for x in res]
            k.table(seqs, ["LIST"] if lst else ["APPLY"] if fails else ["APPLY", "WRITE"], fn, "order of the steps (list %s, failing %s)" % (lst, fails))
            if not lst and not fails:
                acts = [[y for y in file_acts(x[0].trace) if y[0] in ("open", "write")] for x in res]
                if loc:
                    k.table([content_of(a, loc) for a in acts], "/tmp/me/lme.sh", fn, "the text of the location file")
                k.table([UNK if any(y[1] is UNK for y in a) else sorted({y[1] for y in a}) for a in acts], [loc] if loc else [], fn, "the files written")


STRIP_NAMES = ("", "sysA_gnu_debug", "debug_sysA_gcc_static", "gnu", "sysA", "a_b_c", "gnux_gnu_xgnu", "debug_gnu_debug", "sysA_sysB_g7_opt-x", "_x_", "gcc7_g7_gcc", "GNU_sysA", "gnu-sys_z", "z_gnu-7.2.0", "debug__static", "x_gnu_y_gcc_z_sysB")


def L04(k):
    fn = "LoadEnv.env_stripped_build_name"
    cls = k.p.cls("LoadEnv")
    nd = k.p.find_member(cls, "env_stripped_build_name")[1].getter.node
    envs, aliases, systems = ["gnu-7.2.0", "gnu"], ["gcc", "g7"], ["sysA", "sysB", "gnu-sys"]
    ws = [w for w in words(k.p, "load_env") if not re.search(r"[\s#]", w)]
    cases = [(envs, aliases, systems, b) for b in STRIP_NAMES]
    for i, w in enumerate(ws):
        g = [ws[(i + j) % len(ws)] for j in (3, 8, 13, 21, 34)]
        if w in g:
            continue
        cases.append(([w, g[0]], [g[1]], ["sysA", g[2]], "_".join([g[3], w, g[0] + "x", w.swapcase(), g[4], w])))
        cases.append(([g[0]], [w, g[1]], ["sysA", g[2]], "_".join([w, g[3], "x" + w, g[3], g[2], w + "-1"])))
        cases.append(([g[0]], [g[1]], ["sysA", w], "_".join(["b", w, g[3], w + w, "b"])))
        cases.append(([g[0]], [], ["sysA"], "_".join(["", w, "", w, g[3], ""])))
    for n in counts(k.p, "load_env"):
        cases.append((["e%d" % j for j in range(n)], ["a%d" % j for j in range(n)], ["s%d" % j for j in range(n)], "_".join("x%d" % j for j in range(n)) + "_e%d_a%d_s%d_e0x" % (n - 1, n - 1, n - 1)))
    with k.rule("R1", "the stripped build name is the build name without the parts that are exactly an environment, alias or system name, in order", fn):
        for envs, aliases, systems, b in cases:
            EKO, DSO = ("s", "EKO"), ("s", "DSO")
            e, sb = load_engine(k, opaque={"DetermineSystem": new_spec("DS", DSO), "EnvKeywordParser": new_spec("EK", EKO)})
            st = State()
            s = e.named_obj(st, "self", cls, fresh=True, fields={"env_keyword_parser": NONE, "silent": FALSE, "set_environment": NONE})
            set_args(st, build_name=b, force=False, supported_systems_file=("pp", "/a/s.ini"), supported_envs_file=("pp", "/a/e.ini"))
            e.attr_specs["args"] = lambda en, s_, bb, n, nd_, f, s=s: [(s_, "v", ARGS)] if bb == s else None

            def lst(name, vals):
                return e.named_obj(st, name, None, fresh=True, kind="list", items=tuple(("i", C(v)) for v in vals))
            sb.attrs[(EKO, "delim")] = C("_")
            sb.attrs[(EKO, "env_names")] = lst("ENVL", envs)
            sb.attrs[(EKO, "aliases")] = lst("ALL", aliases)
            sb.attrs[(DSO, "supported_sys_names")] = lst("SYSL", systems)
            sb.attrs[(DSO, "system_name")] = C("sysA")
            want = "_".join(t for t in b.split("_") if t not in envs + aliases + systems)
            res = seq(e, st, [get(e, s, "env_stripped_build_name", nd)])
            k.paths += len(res)
            k.table([outcome(e, *x) for x in res], ("return", want), fn, "build name %r (environments %s, aliases %s, systems %s)" % (b, envs[:3], aliases[:3], systems[:3]))
            res = seq(e, st, [get(e, s, "env_stripped_build_name", nd)] * 2)
            k.table([outcome(e, *x) for x in res], ("return", want), fn, "build name %r, asked again" % b)
