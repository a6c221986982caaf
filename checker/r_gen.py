"""gen_config.py: when the fragment is written, what is validated before options are generated, and which files are used."""
import itertools

from kit import *   # noqa: F401,F403
from terms import *   # noqa: F401,F403
from pools import words, counts
from r_tools import config_dict, outcome, seq
from r_load import Disk, disks, ARGS, Stub, load_engine, set_args, args_of, get, call, events, new_spec, plain, resolved, option_rule, file_acts, content_of

LEO, CKO, SPO, LEARGS = ("s", "LEO"), ("s", "CKO"), ("s", "SPO"), ("s", "LEARGS")


# ---------------------------------------------------------------- a GenConfig object with stand-ins for the tools it drives
SYSTEMS = ("sysA", "sysB")
ENVS = {"gnu": "gnu-7", "gnu-7": "gnu-7", "intel": "intel-9", "intel-9": "intel-9"}


def env_of(build, force):
    t = build.split("_")
    sysn = ([x for x in t if x in SYSTEMS] or ["sysH"])[0] if force else "sysH"
    env = ([ENVS[x] for x in t if x in ENVS] or ["gnu-7"])[0]
    return sysn + "_" + env


def opts_of(build):
    t = build.split("_")
    if "debug" in t and "release" in t:
        return None
    return "_" + ("release" if "release" in t else "debug") + "_" + ("static" if "static" in t else "shared")


def new_spo(en, s, name, args, kwargs, node, fid):
    s = s.copy()
    en.emit(s, "SPO", tuple(plain(en.reify(s, x)) for x in list(args) + list(kwargs.values())), node, fid)
    return [(s, "v", SPO)]


def gc_obj(k, specs=None, build="gnu_release", force=False, exists=None, answers=(), options=("-DB=1", "-DA=2"), fields=None, env_fails=(), **cli):
    e, sb = load_engine(k, opaque={"ConfigKeywordParser": new_spec("CK", CKO), "LoadEnv": new_spec("LE", LEO),
                                   "ext:setprogramoptions.SetProgramOptionsCMake": new_spo,
                                   "ext:contextlib.redirect_stdout": lambda en, s, name, args, kwargs, node, fid: [(s, "v", ("s", "CTX"))]},
                        exists=exists, answers=answers)
    e.solid |= {"CKO", "SPO", "LEARGS", "CTX"}
    st = State()
    cls = k.p.cls("GenConfig")
    f = {"argv": ("s", "ARGV"), "gen_config_ini_file": ("pp", "/g/gen-config.ini"), "_gen_config_config_data": NONE, "config_keyword_parser": NONE, "set_program_options": NONE, "load_env": NONE, "has_been_validated": FALSE}
    f.update(fields or {})
    s = e.named_obj(st, "self", cls, fresh=True, fields=f)
    full = dict(build_name=C(build), force=C(force), yes=FALSE, ci_mode=FALSE, cmake_fragment=("pp", "/o/f.cmake"), config_specs_file=("pp", "/a/specs.ini"),
                supported_config_flags_file=("pp", "/a/flags.ini"), supported_systems_file=("pp", "/a/sys.ini"), supported_envs_file=("pp", "/a/envs.ini"),
                environment_specs_file=("pp", "/a/env-specs.ini"), list_configs=FALSE, list_config_flags=FALSE, save_load_env_args=NONE)
    full.update(cli)
    set_args(st, **full)
    e.attr_specs["args"] = lambda en, s_, b, n, nd, fi: [(s_, "v", ARGS)] if b == s else None
    for (o, n, v) in ((LEO, "build_name", build), (LEARGS, "force", force), (CKO, "build_name", build)):
        st.ext[("A", o, n)] = C(v)
    sb.attrs[(LEO, "args")] = LEARGS
    data = config_dict(e, st, "SPECS", {x: {} for x in (specs or [])})
    sb.attrs[("cpe", "configparserenhanceddata")] = data

    def known(s_, *ks):
        v = [s_.ext.get(x) for x in ks]
        return None if any(x is None or not is_c(x) for x in v) else [x[2] for x in v]

    def env_name(s_, b, name, node, fid):
        v = known(s_, ("A", LEO, "build_name"), ("A", LEARGS, "force"))
        if v is None:
            return [(s_, "v", ("s", "?env"))]
        if v[0] in env_fails:
            return [(s_, "x", ("exc", "SystemExit", ()))]
        return [(s_, "v", C(env_of(*v)))]

    def options_str(s_, b, name, node, fid):
        v = known(s_, ("A", CKO, "build_name"))
        if v is None:
            return [(s_, "v", ("s", "?opts"))]
        o = opts_of(v[0])
        return [(s_, "x", ("exc", "ValueError", (C("multiple options"),)))] if o is None else [(s_, "v", C(o))]
    sb.attrs[(LEO, "parsed_env_name")] = env_name
    sb.attrs[(LEO, "system_name")] = C("sysA")
    sb.attrs[(CKO, "selected_options_str")] = options_str

    def gen(s_, b, name, args, kwargs, node, fid):
        s_ = s_.copy()
        a = list(args) + list(kwargs.values())
        e.emit(s_, "GEN", tuple(plain(e.reify(s_, x)) for x in a), node, fid)
        return [(s_, "v", e.new_obj(s_, "list", node, fid, items=[("i", C(o)) for o in options]))]
    sb.methods[(SPO, "gen_option_list")] = gen
    sb.methods[(CKO, "get_msg_showing_supported_flags")] = lambda s_, b, name, args, kwargs, node, fid: [(s_, "v", C("the flags"))]
    return e, sb, s, st


def ends(e, res):
    return [outcome(e, *x) for x in res]


def field(st, s, name):
    v = st.heap[s[1]].fields.get(name)
    return UNK if v is None else plain(v)


def G01(k):
    fn = "GenConfig.write_cmake_fragment"
    m = k.p.method("GenConfig", "write_cmake_fragment")
    F = "/o/f.cmake"
    ask = [(), ("y",), ("Y",), ("yes",), ("Yes please",), ("n",), ("N",), ("no",), ("NO",), ("",), ("", "y"), ("maybe", "n"), ("", "x", "Y"), ("1", " ", "no"), ("q", "q", "q", "q", "y"), (" y", "n"), ("ja", "yes"),
           ("oui", "non"), ("true", "n"), ("ok", "y")]
    with k.rule("R1", "an existing fragment is replaced only after --yes or an answer beginning with y; otherwise nothing is touched and the tool ends with an error status", fn):
        ws = words(k.p, "gen_config", sep="")
        rows = [(ex, yes, ans, opts, other, 7, False) for ex, yes, ans, opts, other in itertools.product((False, True), (False, True), ask, (("set(B 2)", "set(A 1)", "set(A 1)"), (), ("one",)), (False, True))]
        rows += [(True, yes, ans, ("one",), False, size, link) for yes in (False, True) for ans in ((), ("y",), ("n",), ("", "n"), ("q", "y")) for size in [0, 1] + counts(k.p, "gen_config")[-3:] for link in (False, True)]
        rows += [(True, False, (w, last), ("one",), False, 7, False) for w in ws for last in ("n", "y")] + [(True, False, ("?", c + w), ("one",), False, 7, False) for w in ws[::4] for c in "ynYN"]
        rows += [(True, False, ("q",) * n + (last,), ("one",), False, 7, False) for n in (6, 11, 40) for last in ("n", "Y")]
        rows += [(ex, True, (), tuple(ws[i:i + 9]), False, 7, False) for i in range(0, len(ws), 9) for ex in (False, True)] + [(ex, False, ("y",), tuple("o%d" % j for j in range(n)), False, 7, False) for n in counts(k.p, "gen_config") for ex in (False, True)]
        for ex, yes, ans, opts, other, size, link in rows:
            e, sb, s, st = gc_obj(k, ["sysA_gnu-7_debug_static"], exists=lambda t, ex=ex: ex, answers=ans, options=opts, yes=C(yes), force=other, ci_mode=C(other))
            e.path_size, e.path_link = size, link
            res = call(e, m, [s])(st)
            k.paths += len(res)
            what = "file %s, --yes %s, answers %s%s" % ("exists" if ex else "missing", "given" if yes else "not given", list(ans), ", --force --ci-mode" if other else "") + (", size %d%s" % (size, ", a link" if link else "") if (size, link) != (7, False) else "")
            first = next((a.lower()[:1] for a in ans if a.lower()[:1] in ("y", "n")), None)
            written = not ex or yes or first == "y"
            acts = [file_acts(x[0].trace) for x in res]
            if written:
                k.table([plain(x[2]) if x[1] == "v" else outcome(e, *x) for x in res], F, fn, what + ": result")
                k.table([content_of(a, F, ex) for a in acts], "\n".join(opts), fn, what + ": text of the fragment")
            else:
                k.table([UNK if any(UNK in y for y in a) else a for a in acts], [], fn, what + ": file effects")
                k.table(["ends" if x[1] == "x" else "returns" for x in res], "ends", fn, what + ": the tool")
                if first == "n":
                    k.table([("SystemExit", bool(plain(x[2][2][0])) if x[2][2] else False) if x[1] == "x" and x[2][0] == "exc" and x[2][1] == "SystemExit" else outcome(e, *x) for x in res], ("SystemExit", True), fn, what + ": exit with error status")
            k.table([len(events(x[0], "ASK")) for x in res], 0 if not ex or yes else next((i + 1 for i, a in enumerate(ans) if a.lower()[:1] in ("y", "n")), len(ans) + 1), fn, what + ": questions asked")
    with k.rule("R3", "missing directories of the fragment are created, existing ones are no obstacle", fn):
        G = "/o/d/f.cmake"
        for there, dirs, old in disks([G]):
            e, sb, s, st = gc_obj(k, ["sysA_gnu-7_debug_static"], yes=TRUE, cmake_fragment=("pp", G))
            Disk(e, dirs, old)
            res = call(e, m, [s])(st)
            k.paths += len(res)
            k.table([plain(x[2]) if x[1] == "v" else outcome(e, *x) for x in res], G, fn, "there: %s: result" % there)
            k.table([content_of(file_acts(x[0].trace), G, there.startswith("everything")) for x in res], "-DB=1\n-DA=2", fn, "there: %s: text of the fragment" % there)
    with k.rule("R2", "a refusal is not remembered as a written fragment, and a written fragment is not written twice", fn):
        e, sb, s, st = gc_obj(k, ["sysA_gnu-7_debug_static"], exists=lambda t: True, answers=("n", "y"))
        res = [y for x in call(e, m, [s])(st) for y in call(e, m, [s])(x[0])]
        k.table([plain(x[2]) if x[1] == "v" else outcome(e, *x) for x in res], F, fn, "refused, then accepted: result")
        k.table([content_of(file_acts(x[0].trace), F, True) for x in res], "-DB=1\n-DA=2", fn, "refused, then accepted: text")
        e, sb, s, st = gc_obj(k, ["sysA_gnu-7_debug_static"], exists=lambda t: False)
        res = [y for x in call(e, m, [s])(st) for y in call(e, m, [s])(x[0])]
        k.table([len([a for a in file_acts(x[0].trace) if a[0] == "open"]) for x in res], 1, fn, "asked twice: times written")
        k.table([plain(x[2]) if x[1] == "v" else outcome(e, *x) for x in res], F, fn, "asked twice: result")


def text_of(t):
    """all constant text inside a term"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "c":
            return [str(t[2])]
        return [y for x in t for y in text_of(x)]
    return []


VALID = ["sysA_gnu-7_debug_static", "sysB_intel-9_release_shared", "sysA_gnu-7_debug_shared"]
BAD = ["sysA_gnu-7_static_debug", "sysB_gnu_debug_shared", "sysA_gnu-7", "sysB_intel-9_release_shared_x", "sysH_gnu-7_debug_shared_", "debug_static", "Common", "sysA_GNU-7_debug_static", "sysa_gnu-7_debug_static",
       "COMMON_debug_static", "SYSA_gnu-7_debug_static", "sysA_gnu-7_DEBUG_STATIC", "9_gnu-7_debug", "COMMOn"]
CONFLICT = "sysA_gnu-7_debug_release_static"
UPPER = ["COMMON", "BUILD-TYPE|DEBUG", "A_B", "GNU-7_DEBUG", "X Y"]


def spec_lists():
    yield []
    yield UPPER
    yield VALID
    yield [UPPER[0]] + VALID + UPPER[1:]
    for b in BAD:
        yield [b] + VALID
        yield VALID[:1] + [b] + VALID[1:]
        yield VALID + UPPER + [b]
    yield BAD
    yield [BAD[0], VALID[0], BAD[1], UPPER[0], BAD[2]]
    yield [CONFLICT]
    yield VALID + [CONFLICT]
    yield [BAD[0], CONFLICT] + VALID


def G02(k):
    fn = "GenConfig.validate_config_specs_ini"
    m = k.p.method("GenConfig", "validate_config_specs_ini")
    with k.rule("R1", "validation accepts the specifications exactly when every section that is not all upper case is its own complete configuration name", fn):
        for specs, force, build in itertools.product(spec_lists(), (False, True), ("gnu_release", "sysB_intel_static", "")):
            e, sb, s, st = gc_obj(k, specs, build=build, force=force)
            res = call(e, m, [s])(st)
            k.paths += len(res)
            bad = [x for x in specs if x not in UPPER and (opts_of(x) is None or env_of(x, True) + opts_of(x) != x)]
            what = "sections %s, build name %r, force %s" % (specs, build, force)
            k.table(ends(e, res), ("raise", "ValueError") if bad else ("return", None), fn, what)
            if bad and CONFLICT not in specs:
                def missing(x):
                    t = "\n".join(text_of(x[2]))
                    return [b for b in bad if b not in t or env_of(b, True) + opts_of(b) not in t]
                k.table([missing(x) if x[1] == "x" and x[2][0] == "exc" else None for x in res], [], fn, what + ": invalid sections the error does not name")
            after = [(plain(x[0].ext[("A", LEO, "build_name")]), plain(x[0].ext[("A", LEARGS, "force")]), plain(x[0].ext[("A", CKO, "build_name")])) for x in res]
            k.table(after, (build, force, build), fn, what + ": build name and force afterwards")
            k.table([field(x[0], s, "has_been_validated") for x in res], not bad, fn, what + ": marked as validated")
        for specs in (VALID, [VALID[0], BAD[0]]):
            e, sb, s, st = gc_obj(k, specs, env_fails=(VALID[0],))
            res = call(e, m, [s])(st)
            k.table(ends(e, res), ("raise", "SystemExit"), fn, "an environment that can not be determined")
            k.table([(plain(x[0].ext[("A", LEO, "build_name")]), plain(x[0].ext[("A", LEARGS, "force")]), plain(x[0].ext[("A", CKO, "build_name")]), field(x[0], s, "has_been_validated")) for x in res],
                    ("gnu_release", False, "gnu_release", False), fn, "an environment that can not be determined: state afterwards")
    nd = m.node
    for (fn, kind, sep) in (("GenConfig.generated_config_flags_str", "bash", " \\\n    "), ("GenConfig.write_cmake_fragment", "cmake_fragment", "\n")):
        def ask(e, s):
            return get(e, s, "generated_config_flags_str", nd) if kind == "bash" else call(e, k.p.method("GenConfig", "write_cmake_fragment"), [s])

        def result(e, s, x):
            if x[1] == "x":
                return outcome(e, *x)
            return ("text", plain(x[2]) if kind == "bash" else content_of(file_acts(x[0].trace), "/o/f.cmake"))
        with k.rule("R2" if kind == "bash" else "R3", "options are generated, for the complete configuration of the build name asked for, only after the whole file was validated", fn):
            for specs, force, build, opts in itertools.product(spec_lists(), (False, True), ("gnu_release", "sysB_intel_static"), (("-DB=1", "-DA=a b", "-DB=1"), ("x",), ())):
                e, sb, s, st = gc_obj(k, specs, build=build, force=force, options=opts, exists=lambda t: False)
                res = seq(e, st, [ask(e, s)])
                k.paths += len(res)
                bad = [x for x in specs if x not in UPPER and (opts_of(x) is None or env_of(x, True) + opts_of(x) != x)]
                what = "sections %s, build name %r, force %s, options %s" % (specs, build, force, list(opts))
                k.table([result(e, s, x) for x in res], ("raise", "ValueError") if bad else ("text", sep.join(opts)), fn, what)
                k.table([[ev.a for ev in events(x[0], "GEN")] for x in res], [] if bad else [(env_of(build, force) + opts_of(build), kind)], fn, what + ": option lists asked for")
                k.table([sorted({ev.a[0] if len(ev.a) == 1 else ev.a for ev in events(x[0], "SPO")} | {plain(v) for v in [x[0].ext.get(("A", SPO, "filename"))] if v is not None}) or ["no file"] for x in res if bad == [] or events(x[0], "SPO")] or [["/a/specs.ini"]],
                        ["/a/specs.ini"], fn, what + ": the options are read from")
                k.table([sorted({plain(ev.a[0]) for ev in events(x[0], "CPE")}) for x in res], ["/a/specs.ini"], fn, what + ": the validated file")
                if not bad and len(specs) == 3:
                    res = seq(e, st, [ask(e, s), get(e, s, "complete_config", nd)])
                    k.table(ends(e, res), ("return", env_of(build, force) + opts_of(build)), "GenConfig.complete_config", what)
                    res = seq(e, st, [get(e, s, "complete_config", nd), ask(e, s)])
                    k.table([result(e, s, x) for x in res], ("text", sep.join(opts)), fn, what + ", after complete_config")
                    k.table([[ev.a for ev in events(x[0], "GEN")] for x in res], [(env_of(build, force) + opts_of(build), kind)], fn, what + ", after complete_config: option lists asked for")
            # a failed validation is repeated, not forgotten
            e, sb, s, st = gc_obj(k, [BAD[0]], exists=lambda t: False)
            res = [y for x in seq(e, st, [ask(e, s)]) for y in seq(e, x[0], [ask(e, s)])]
            k.table([result(e, s, x) for x in res], ("raise", "ValueError"), fn, "asked again after a failed validation")


# ---------------------------------------------------------------- files and arguments
GKEYS = (("supported_config_flags_file", "gen-config", "supported-config-flags"), ("config_specs_file", "gen-config", "config-specs"), ("supported_systems_file", "load-env", "supported-systems"),
         ("supported_envs_file", "load-env", "supported-envs"), ("environment_specs_file", "load-env", "environment-specs"))


def gc_new(k, secs, ini, cli, exists=lambda t: True, argv=["x"]):
    e, sb = load_engine(k, exists=exists)
    st = State()
    sb.attrs[("cpe", "configparserenhanceddata")] = config_dict(e, st, "DATA", secs)
    cls = k.p.cls("GenConfig")
    s = e.named_obj(st, "self", cls, fresh=True)
    full = dict(build_name=C("b"), force=FALSE, ci_mode=FALSE)
    full.update(cli)
    set_args(st, **full)
    al = e.named_obj(st, "ARGV", None, fresh=True, kind="list", items=tuple(("i", C(a)) for a in argv)) if isinstance(argv, list) else argv
    init = k.p.find_member(cls, "__init__")[1]
    res = e.call_func(st, init, [s, al, C(ini)], {}, init.node, None, inline_always=True)
    k.paths += len(res)
    return e, sb, s, res


def secs_of(vals, drop=None):
    out = {"gen-config": {}, "load-env": {}}
    for (n, sec, key), v in zip(GKEYS, vals):
        if key != drop:
            out[sec][key] = v
    return out


def G03(k):
    fn = "GenConfig.args"
    cls = k.p.cls("GenConfig")
    nd = k.p.find_member(cls, "args")[1].getter.node
    names = [n for n, _, _ in GKEYS]
    with k.rule("R1", "a file given on the command line is used as given; otherwise the one named in gen-config.ini, a relative name being relative to that file's directory", fn):
        for ini in ("/etc/gc/gen-config.ini", "conf/gen-config.ini", "gen-config.ini"):
            for vals in (tuple("/a/%s.ini" % n for n in names), ("f.ini", "sub/c.ini", "../s.ini", "./e.ini", "p.ini"), ("/a/f.ini", "c.ini", "/a/s.ini", "e.ini", "/q/../p.ini"), ("~/f.ini", "$H/c.ini", "c:/s q.ini", "${H}.ini", "~u/p.ini")):
                for given in itertools.chain(itertools.product((None, "/cli/%s"), repeat=5)):
                    if sum(x is None for x in given) not in (0, 1, 4, 5):
                        continue
                    cli = {n: (("pp", g % n) if g else NONE) for n, g in zip(names, given)}
                    want = {n: g % n if g else resolved(ini, v) for n, g, v in zip(names, given, vals)}
                    there = {resolved(ini, v) for v in vals} | set(vals)
                    e, sb, s, res = gc_new(k, secs_of(vals), ini, cli, exists=lambda t: resolved("/cwd/x", t) in {resolved("/cwd/x", y) for y in there if y[0] == "/"})
                    rs = [x for r in res for x in ([r] if r[1] == "x" else seq(e, r[0], [get(e, s, "args", nd)] * 2))]
                    k.table([("args", args_of(x[0], names)) if x[1] == "v" and x[2] == ARGS else outcome(e, *x) for x in rs], ("args", want), fn, "gen-config.ini %s: %s, command line %s" % (ini, vals, given))
    ok = tuple("/a/%s.ini" % n for n in names)
    with k.rule("R2", "a gen-config.ini that lacks a section, an option, its value or the file it names is refused with ValueError", fn):
        cases = [(secs_of(ok), None, False), ({"gen-config": secs_of(ok)["gen-config"]}, None, True), ({"load-env": secs_of(ok)["load-env"]}, None, True), ({}, None, True)]
        for i, (n, sec, key) in enumerate(GKEYS):
            cases.append((secs_of(ok, drop=key), None, True))
            cases.append((secs_of(ok[:i] + ("",) + ok[i + 1:]), None, True))
            cases.append((secs_of(ok[:i] + (None,) + ok[i + 1:]), None, True))
            cases.append((secs_of(ok), ok[i], True))
            rel = ok[:i] + ("rel.ini",) + ok[i + 1:]
            cases.append((secs_of(rel), "/etc/gc/rel.ini", True))
            cases.append((secs_of(rel), "/cwd/rel.ini", False))
        for secs, missing, bad in cases:
            e, sb, s, res = gc_new(k, secs, "/etc/gc/gen-config.ini", {n: NONE for n in names}, exists=lambda t: resolved("/cwd/x", t) != missing)
            for times in (1, 2):
                rs = [x for r in res for x in [r]]
                for _ in range(times):
                    rs = [y for x in rs for y in ([x] if x[1] == "x" and x[0] is x else seq(e, x[0], [get(e, s, "args", nd)]))]
                k.table([("raise", "ValueError") if outcome(e, *x) == ("raise", "ValueError") else "ok" if x[1] == "v" else outcome(e, *x) for x in rs], ("raise", "ValueError") if bad else "ok", fn,
                        "gen-config.ini holds %s%s%s" % (secs, ", missing: %s" % missing if missing else "", ", asked again" if times == 2 else ""))
        for argv in (C("x"), NONE, ("tuple", (C("x"),))):
            e, sb, s, res = gc_new(k, secs_of(ok), "/etc/gc/gen-config.ini", {n: NONE for n in names}, argv=argv)
            k.table([outcome(e, *x) if x[1] == "x" else "ok" for x in res], ("raise", "TypeError"), "GenConfig.__init__", "arguments %s" % show(argv))
    fn = "GenConfig.load_env_args"
    with k.rule("R3", "LoadEnv is driven with the chosen files, the force and ci-mode switches and the build name", fn):
        for force, ci, build in itertools.product((False, True), (False, True), ("gnu_debug", "", "a b")):
            e, sb, s, st = gc_obj(k, [], build=build, force=force, ci_mode=C(ci))
            want = ["--supported-systems", "/a/sys.ini", "--supported-envs", "/a/envs.ini", "--environment-specs", "/a/env-specs.ini"] + ["--force"] * force + ["--ci-mode"] * ci + [build]
            res = seq(e, st, [get(e, s, "load_env_args", nd)])
            k.table([canonical(outcome(e, *x)) for x in res], canonical(("return", want)), fn, "force %s, ci-mode %s, build name %r" % (force, ci, build))
            m = k.p.method("GenConfig", "load_load_env")
            res = call(e, m, [s])(st)
            k.table([canonical(("return", listed(v))) for x in res for ev in events(x[0], "LE") for v in [dict(ev.a[0]).get("argv", NONE)]],
                    canonical(("return", want)), "GenConfig.load_load_env", "force %s, ci-mode %s, build name %r" % (force, ci, build))
            m = k.p.method("GenConfig", "load_config_keyword_parser")
            res = call(e, m, [s])(st)
            k.table([[plain(v) for _, v in ev.a[0]] for x in res for ev in events(x[0], "CK")], [build, "/a/flags.ini"], "GenConfig.load_config_keyword_parser", "build name %r" % build)
    with k.rule("R4", "the command line options store into the settings the tool reads", "GenConfig"):
        e, sb, s, res = gc_new(k, secs_of(ok), "/etc/gc/gen-config.ini", {n: NONE for n in names})
        rs = [x for r in res if r[1] == "v" for x in seq(e, r[0], [get(e, s, "args", nd)])]
        option_rule(k, rs, {"--supported-config-flags": "supported_config_flags_file", "--config-specs": "config_specs_file", "--supported-systems": "supported_systems_file", "--supported-envs": "supported_envs_file",
                            "--environment-specs": "environment_specs_file", "--cmake-fragment": "cmake_fragment", "--save-load-env-args": "save_load_env_args"},
                    {"--force": "force", "-f": "force", "--yes": "yes", "-y": "yes", "--ci-mode": "ci_mode", "--list-configs": "list_configs", "-l": "list_configs", "--list-config-flags": "list_config_flags"}, "GenConfig", e)
    fn = "gen_config.main"
    mains = [f for m_ in k.p.modules.values() if m_.short == "gen_config" for f in m_.functions.get("main", [])]
    with k.rule("R5", "each way of calling the tool does its one job", fn):
        if not mains:
            raise Undecided("no function main")
        GCO = ("s", "GCO")
        for lf, lc, sv, cm in itertools.product((False, True), (False, True), (None, "/q/args"), (None, "/q/f.cmake")):
            e, sb = load_engine(k, opaque={"GenConfig": new_spec("GC", GCO)})
            e.solid.add("GCO")
            st = State()
            set_args(st, list_config_flags=C(lf), list_configs=C(lc), save_load_env_args=("pp", sv) if sv else NONE, cmake_fragment=("pp", cm) if cm else NONE)
            sb.attrs[(GCO, "args")] = ARGS
            sb.attrs[(GCO, "load_env_args")] = ("tuple", (C("--force"), C("b")))

            def flags(s_, b, name, node, fid):
                s_ = s_.copy()
                e.emit(s_, "FLAGS", (), node, fid)
                return [(s_, "v", C("-DA=1"))]
            sb.attrs[(GCO, "generated_config_flags_str")] = flags
            sb.methods[(GCO, "list_config_flags")] = sb.event("LISTFLAGS", raises="SystemExit")
            sb.methods[(GCO, "list_configs")] = sb.event("LIST", raises="SystemExit")
            sb.methods[(GCO, "write_cmake_fragment")] = sb.event("FRAGMENT")
            res = call(e, mains[0], [("s", "ARGV")])(st)
            k.paths += len(res)
            job = "LISTFLAGS" if lf else "LIST" if lc else "SAVE" if sv else "FRAGMENT" if cm else "FLAGS"
            what = "list flags %s, list configurations %s, save %s, fragment %s" % (lf, lc, sv, cm)
            k.table([[ev.kind for ev in events(x[0], "LISTFLAGS", "LIST", "FRAGMENT", "FLAGS")] for x in res], [] if job == "SAVE" else [job], fn, what)
            if job == "SAVE":
                k.table([content_of(file_acts(x[0].trace), sv) for x in res], "--force b", fn, what + ": saved arguments")
            elif job == "FLAGS":
                k.table([UNK if any(UNK in a for a in file_acts(x[0].trace)) else outcome(e, *x) for x in res], ("return", None), fn, what + ": result")
                for there, dirs, old in disks(["/tmp/me/.bash_cmake_args_loc"]):
                    Disk(e, dirs, old)
                    rs = call(e, mains[0], [("s", "ARGV")])(st)
                    k.table([outcome(e, *x) for x in rs], ("return", None), fn, what + ": there: %s" % there)
                    k.table([content_of(file_acts(x[0].trace), "/tmp/me/.bash_cmake_args_loc", there.startswith("everything")) for x in rs], next((a[1] for x in rs for a in file_acts(x[0].trace) if a[0] == "write" and a[2] == "-DA=1"), UNK), fn,
                            what + ": there: %s: the location file" % there)
                k.table([[a[2] for a in file_acts(x[0].trace) if a[0] == "write"][:1] for x in res], ["-DA=1"], fn, what + ": saved flags")
                loc = [[(a[1], a[2]) for a in file_acts(x[0].trace) if a[0] == "write"] for x in res]
                k.table([UNK if any(UNK in y for y in l) else "same" if len(l) == 2 and l[0][0] == l[1][1] else l for l in loc], "same", fn, what + ": the location file names the file with the flags")
            else:
                k.table([[a for a in file_acts(x[0].trace) if a[0] != "open" or a[2][:1] != "r"] for x in res], [], fn, what + ": files written by main itself")
    fn = "GenConfig.list_config_flags"
    with k.rule("R7", "the listed flags are those of the flags file, and listing ends the program", fn):
        m = k.p.method("GenConfig", "list_config_flags")
        for fields in ({}, {"config_keyword_parser": CKO}):
            e, sb, s, st = gc_obj(k, [], fields=fields)
            res = call(e, m, [s])(st)
            k.paths += len(res)
            k.table(ends(e, res), ("raise", "SystemExit"), fn, "ends the tool")
            k.table([[y for y in [t for ev in flat(x[0].trace) if ev.kind == "print" for t in text_of(ev.a)] + (text_of(x[2]) if x[1] == "x" else []) if y == "the flags"][:1] for x in res], ["the flags"], fn, "the flags are shown")
            k.table([[[plain(v) for _, v in ev.a[0]] for ev in events(x[0], "CK")] for x in res], [] if fields else [["gnu_release", "/a/flags.ini"]], fn, "the flags come from")
    fn = "GenConfig.list_configs"
    with k.rule("R6", "the configurations listed are those of config-specs.ini that begin with the system's name", fn):
        m = k.p.method("GenConfig", "list_configs")
        for specs in ([], ["sysA_x", "sysB_y", "sysA_gnu", "COMMON", "xsysA", "SYSA_z"], ["sysB_sysA"], ["sysA", "sysA-2_k", "sys", "sysAA_m", "x_sysA_n"]):
            e, sb, s, st = gc_obj(k, specs)
            res = call(e, m, [s])(st)
            want = [x for x in specs if x.startswith("sysA")]
            got = []
            for x in res:
                t = [y for ev in flat(x[0].trace) if ev.kind == "print" for y in text_of(ev.a)] if x[1] == "x" else None
                got.append(None if t is None else [y for y in specs if y in t] if any(y in t for y in specs) or not specs else [])
            k.table(got, want, fn, "sections %s" % specs)
            k.table(ends(e, res), ("raise", "SystemExit"), fn, "ends the tool")


def listed(v):
    """the constants of a reified list, None when not known"""
    if v[0] == "snapped":
        v = v[1]
    if v[0] == "tuple":
        return [plain(x) for x in v[1]]
    if v[0] == "L" and all(isinstance(x, tuple) and x[0] == "i" for x in v[1:]):
        return [plain(x[1]) for x in v[1:]]
    return None


def canonical(o):
    """an argument list as its options: the order of the options does not matter"""
    if o is not None and o[0] == "return" and (o[1] is None or UNK in o[1]):
        return None
    if not o or o[0] != "return" or not isinstance(o[1], list):
        return o
    l, out, i = o[1], {}, 0
    while i < len(l):
        if isinstance(l[i], str) and l[i].startswith("--") and l[i] not in ("--force", "--ci-mode") and i + 1 < len(l):
            out[l[i]] = l[i + 1]
            i += 2
        else:
            out["build name" if not str(l[i]).startswith("--") else l[i]] = l[i]
            i += 1
    return ("return", dict(sorted(out.items())))
