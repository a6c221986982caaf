"""ModuleHelper: the two `module` functions report every failing command."""
import ast
import itertools
import re

import shell
from kit import *   # noqa: F401,F403
from terms import *   # noqa: F401,F403
from model import AnchorMissing


def variants(k):
    """(modulecmd variant, Lmod variant) of the public function `module`"""
    fs = []
    for m in k.p.modules.values():
        if m.short == "ModuleHelper":
            fs = m.functions.get("module", [])
    if not fs:
        raise AnchorMissing("function ModuleHelper.module not found")
    lmod = [f for f in fs if any(isinstance(n, ast.Name) and n.id == "env_modules_python" for n in ast.walk(f.node))]
    cmd = [f for f in fs if f not in lmod]
    return cmd, lmod


PROC, PROBE = ("s", "PROC"), ("s", "PROBE")
CMD = "/opt/m/modulecmd"


def const(v):
    if isinstance(v, dict):
        return lambda en, s, name, args, kwargs, node, fid: [(s, "v", C(v.get(args[0][2])))] if args and is_str_c(args[0]) else None
    return lambda en, s, name, args, kwargs, node, fid: [(s, "v", C(v) if not isinstance(v, tuple) else v)]


def printed(e, st):
    """the text shown on a path, as far as it is known"""
    out = ""
    for ev in flat(st.trace):
        if ev.kind == "print" or ev.kind == "xm" and ev.a and ev.a[0] == "write":
            for t in ev.a[0] if ev.kind == "print" else [x for y in ev.a[1:] if isinstance(y, tuple) for x in y if isinstance(x, tuple)]:
                for x in (t[1] if t[0] == "cat" else (t,)):
                    out += x[2] if is_str_c(x) else "\x00"
            out += "\n"
    return out


def confirms(text, loaded, there):
    """does the shell command end with 0 when the modules of `loaded` are loaded and the paths of `there` exist?  None: not known"""
    def run(sh, a, reds):
        if a[0] == "module" and len(a) == 3 and a[1] == "is-loaded":
            return 0 if a[2] in loaded else 1
        raise shell.Unknown("command " + a[0])

    sh = shell.Shell(hooks={"run": run, "exists": lambda s, op, v: v in there})
    try:
        sh.run(shell.parse(text))
    except (shell.Unknown, shell.Hang, shell.Return, shell.Exit, ValueError):
        return None
    return None if sh.taken else sh.ok()


def shows(k, e, res, texts, fn, what):
    """on a path that ends with a failure, the tool's own words are shown"""
    for st, oc in res:
        if oc[0] == "return" and status(e, st, oc) == "nonzero":
            p = printed(e, st)
            miss = [t for t in texts if not all(w in p for w in t.split())]
            if miss and "\x00" in p:
                k.undecided(fn, "%s: part of the shown text is not known" % what)
            else:
                k.ob(not miss, fn, "%s: %r is not shown to the user" % (what, miss))


def run_cmd(k, f, command, arguments, code=0, out="OUT", err="", ml=None, exec_fails=False, which=CMD, spawn=CMD, probe=""):
    """the modulecmd variant with the external command answering (code, out, err)"""
    OUT, ERR = C(out), C(err)
    BOUT, BERR = ("s", "BOUT"), ("s", "BERR")

    def popen(en, s, name, args, kwargs, node, fid):
        s = s.copy()
        a = en.elements(s, args[0]) if args else None
        shell = kwargs.get("shell")
        is_probe = args and is_str_c(args[0]) or shell == TRUE
        en.emit(s, "PROBE" if is_probe else "RUN", (tuple(en.reify(s, x) for x in a) if a is not None else (en.reify(s, args[0]),),), node, fid)
        return [(s, "v", PROBE if is_probe else PROC)]

    def communicate(en, s, b, name, args, kwargs, node, fid):
        return [(s, "v", ("tuple", (BOUT, BERR)))] if b == PROC else [(s, "v", ("tuple", (("s", "POUT"), ("s", "PERR"))))]

    def decode(en, s, b, name, args, kwargs, node, fid):
        v = {"BOUT": OUT, "BERR": ERR, "POUT": C(probe), "PERR": C("")}.get(b[1]) if b[0] == "s" else None
        return [(s, "v", v)] if v is not None else None

    def ret(en, s, b, name, args, kwargs, node, fid):
        return [(s, "v", C(code))] if b == PROC else None

    def ex(en, s, name, args, kwargs, node, fid):
        s = s.copy()
        en.emit(s, "EXEC", (en.reify(s, args[0]),), node, fid)
        if exec_fails:
            return [(s, "x", ("exc", "KeyboardInterrupt" if exec_fails == "base" else "NameError", ()))]
        if ml is not None:
            for ns in args[1:]:
                if ns[0] == "o" and s.heap[ns[1]].kind == "dict":
                    h = s.heap[ns[1]]
                    s.heap[ns[1]] = h.with_items(h.items + (("kv", C("_mlstatus"), C(ml)),))
        return [(s, "v", NONE)]

    def loc(en, s, name, args, kwargs, node, fid):
        s = s.copy()
        ran = any(ev.kind == "EXEC" for ev in s.trace)
        return [(s, "v", en.new_obj(s, "dict", node, fid, items=(("kv", C("_mlstatus"), C(ml)),) if ml is not None and ran else ()))]

    attrs = {("PROC", "returncode"): C(code), ("PROC", "stdout"): BOUT, ("PROC", "stderr"): BERR, ("PROBE", "stdout"): ("s", "POUT"), ("PROBE", "stderr"): ("s", "PERR"),
             ("PROBE", "returncode"): C(0)}
    e = k.engine(opaque={"ext:subprocess.Popen": popen, "ext:subprocess.run": popen, "ext:shutil.which": const(which), "ext:distutils.spawn.find_executable": const(spawn),
                         "ext:exec": ex, "ext:locals": loc, "ext:os.path.isfile": const(True)})
    e.method_specs.update(communicate=communicate, decode=decode, wait=ret, poll=ret)
    e.calm = True
    orig = e.get_attr

    def get_attr(s, b, name, node, fid):
        if b[0] == "s" and (b[1], name) in attrs:
            return [(s, "v", attrs[(b[1], name)])]
        return orig(s, b, name, node, fid)
    e.get_attr = get_attr
    st = State()
    if isinstance(command, list):
        command = e.named_obj(st, "CMDLIST", None, fresh=True, kind="list", items=tuple(("i", C(x)) for x in command))
    else:
        command = C(command)
    st.facts[("isnone", PROC)] = False
    res = k.run(e, f, [command] + [C(a) for a in arguments], st)
    return e, res


def status(e, st, oc):
    """'zero' | 'nonzero' | 'raise X' | None"""
    if oc[0] == "raise":
        return "raise " + (exc_name(oc[1]) or "?") if oc[1][0] == "exc" else None
    v = oc[1]
    if is_c(v):
        return "zero" if v[2] == 0 and v[2] is not None else "none" if v[2] is None else "nonzero"
    return None


def row(k, e, res, want, fn, what):
    """want: set of accepted statuses"""
    outs = []
    for st, oc in res:
        s = status(e, st, oc)
        outs.append(None if s is None else "ok" if s in want else s)
    if outs and None not in outs and "ok" not in outs:
        k.ob(False, fn, "%s: the result is %s" % (what, ", ".join(sorted(set(outs)))), path=path_text(*res[0]))
    else:
        k.table(outs, "ok", fn, what)


def count(k, res, kind, want, fn, what):
    k.table([len([ev for ev in flat(st.trace) if ev.kind == kind]) for st, oc in res], want, fn, what)


NZ = {"nonzero", "raise RuntimeError"}


def S06(k):
    cmd, lmod = variants(k)
    fn = "ModuleHelper.module"
    with k.rule("R1", "with modulecmd: 0 is returned only when the command exited with 0, printed no ERROR: and its output ran without failure; output of a failed command is not executed", fn):
        if not cmd:
            raise Undecided("no modulecmd variant found")
        for f in cmd:
            rows = list(itertools.product((("load", ["a/1"]),), (0, 1, 2, 127, -1, -9),
                                          ("", "warning: x", "ERROR: not found", "Module ERROR: a\nb", "line1\nx.c(1):ERROR:105: Unable", "noise\n\nERROR:1"), (None, True, False)))
            rows += itertools.product((("purge", []), (["load", "a/1"], []), ("swap", ["a/1", "b/2"]), ("load", ["a/1 b/2"]), ("list", ["-t", "x", "y"])), (0, 1, -9), ("", "ERROR: not found"), (None, False))
            rows += itertools.product((("load", ["a/1"]),), (2, 3, 15, 125, 126, 128, 255, 256, -15, -127, -128, -255, -256), ("", "x"), (None, True))
            for (command, args), code, err, ml in rows:
                e, res = run_cmd(k, f, command, args, code, "print(1)", err, ml)
                what = "module(%r, %s): exit status %s, stderr %r, _mlstatus %s" % (command, args, code, err, ml)
                bad = code != 0 or "ERROR:" in err
                row(k, e, res, {"zero"} if not bad and (ml is None or ml != 0) else NZ, fn, what)
                count(k, res, "EXEC", 0 if bad else 1, fn, what + ", times the output is executed")
                shows(k, e, res, ["print(1)", err], fn, what)
            for kind in ("plain", "base"):
                e, res = run_cmd(k, f, "load", ["a/1"], exec_fails=kind)
                row(k, e, res, {"raise KeyboardInterrupt", "raise NameError"} | NZ, fn, "the output raises")
            for text in ("OUT", "import os\nos.environ['A'] = 'x#y;Z'\n", "  \nA = \"\"\"p\n q\"\"\"\n\n\nB = \"It's; $X\"", "os.environ['P']='/a:/B c'; # E\\\n\n", "\nif 1:\n\tA = 'e'\n"):
                e, res = run_cmd(k, f, "load", ["a/1"], out=text)
                for st, oc in res:
                    ran = [ev.a[0] for ev in flat(st.trace) if ev.kind == "EXEC"]
                    if len(ran) == 1 and is_str_c(ran[0]):
                        k.ob(ran[0][2].strip() == text.strip(), fn, "the tool prints %r: %r is executed" % (text, ran[0][2]))
                    elif len(ran) == 1:
                        k.undecided(fn, "the tool prints %r: what is executed is not known" % text)
                    else:
                        k.ob(False, fn, "the tool prints %r: %d texts are executed" % (text, len(ran)))
    with k.rule("R2", "the command line is modulecmd, python, the command and its arguments in order", fn):
        for f in cmd:
            for command, args in (("load", ["a/1"]), ("swap", ["a/1", "b/2"]), ("purge", []), ("use", ["/p/q"]), (["load", "x"], []), (["swap"], ["a", "b"]), ("load", ["a b"]), ("unload", ["q"]), ("list", ["-t", "x", "y"])):
                e, res = run_cmd(k, f, command, args)
                full = (command if isinstance(command, list) else [command]) + [x for a in args for x in (a.split() if len(args) == 1 else [a])]
                want = [[CMD, "python"] + full]
                k.table([[[x[2] if is_c(x) else show(x) for x in ev.a[0]] for ev in flat(st.trace) if ev.kind == "RUN"] for st, oc in res], want, fn, "module(%r, %s)" % (command, args))
    with k.rule("R3", "modulecmd is searched on the path and then in the shell's `module` function; one that can not be found is reported", fn):
        for f in cmd:
            for spawn, which, probe, want in (("/a/modulecmd", {"modulecmd": "/a/modulecmd"}, "", "/a/modulecmd"), (None, {"modulecmd": "/b/modulecmd"}, "", "/b/modulecmd"),
                                              (None, {"/x/modulecmd": "/x/modulecmd"}, "module is a function\nmodule ()\n{\n    eval `/x/modulecmd bash $*`\n}\n", "/x/modulecmd"),
                                              (None, {"/y z/modulecmd": "/y"}, "eval `/y/modulecmd bash $*`", None), (None, {"/x/modulecmd": "/x/modulecmd"}, "eval `/x/modulecmd tcsh $*`", None)):
                e, res = run_cmd(k, f, "load", ["a"], spawn=spawn, which=which, probe=probe)
                what = "modulecmd %s, `type module` prints %r" % (which, probe[:40])
                row(k, e, res, {"zero"} if want else {"raise FileNotFoundError"}, fn, what)
                k.table([[ev.a[0][0][2] if is_c(ev.a[0][0]) else show(ev.a[0][0]) for ev in flat(st.trace) if ev.kind == "RUN"] for st, oc in res], [want] if want else [], fn, what + ": the tool run")
            for spawn, which in ((None, None),):
                for probe in ("", "module is a function", "eval `/x/modulecmd bash $*`\neval `/y/modulecmd bash $*`", "eval `/x/modulecmd bash $*`"):
                    e, res = run_cmd(k, f, "load", ["a"], spawn=spawn, which=which, probe=probe)
                    row(k, e, res, {"raise FileNotFoundError"}, fn, "no modulecmd, `type module` prints %r" % probe)
                    count(k, res, "RUN", 0, fn, "no modulecmd: commands run")
    fn = "ModuleHelper.module (Lmod)"
    with k.rule("R4", "with Lmod: 0 is returned only when the command printed no error: and the state it should reach is confirmed", fn):
        for f in lmod:
            if not any(isinstance(n, ast.Attribute) and n.attr == "system" for n in ast.walk(f.node)):
                raise Undecided("the state is not confirmed through os.system")
            checks = {"load": 1, "unload": 1, "swap": 2, "use": 1, "purge": 0}
            for command, n in checks.items():
                args = {"load": ["a/1"], "unload": ["a/1"], "swap": ["a/1", "b/2"], "use": ["/p"], "purge": []}[command]
                for aslist in (False, True):
                    for err in ("", "Loading x", "Lmod has detected the following ERROR: x", "error: y", "\n  Error:\nz"):
                        for stats in ([0] * n, [256] + [0] * (n - 1), [0] * (n - 1) + [1], [-1] * n):
                            if len(stats) != n:
                                continue
                            e, res = run_lmod(k, f, command, args, aslist, err, stats)
                            bad = "error:" in err.lower() or any(stats)
                            row(k, e, res, NZ if bad else {"zero"}, fn, "module %s, stderr %r, confirmation status %s" % (command, err, stats))
                            if bad:
                                shows(k, e, res, [err, "some output"], fn, "module %s, stderr %r, confirmation status %s" % (command, err, stats))
                    asked = []
                    for st, oc in run_lmod(k, f, command, args, aslist, "", [0] * n)[1]:
                        sys_ = [ev.a[0] for ev in flat(st.trace) if ev.kind == "SYS"]
                        asked.append([" ".join(x[2].split()) for x in sys_] if all(is_str_c(x) for x in sys_) else None)
                    okay = [a for a in asked if a is not None]
                    if len(okay) != len(asked) or not okay:
                        k.undecided(fn, "module %s: the confirmation commands are not known" % command)
                    for a in okay:
                        for state in range(8):
                            loaded = {m for i, m in enumerate(("a/1", "b/2")) if state >> i & 1}
                            there = {"/p"} if state & 4 else set()
                            got = [confirms(y, loaded, there) for y in a]
                            want = {"load": "a/1" in loaded, "unload": "a/1" not in loaded, "swap": "a/1" not in loaded and "b/2" in loaded, "use": bool(there), "purge": True}[command]
                            if None in got and False not in got:
                                k.undecided(fn, "module %s: what %s confirms is not known" % (command, a))
                            else:
                                k.ob(all(got) == want, fn, "module %s %s: with %s loaded%s the confirmation %s %s" % (command, " ".join(args), " ".join(sorted(loaded)) or "nothing", ", /p there" if there else "", a,
                                     "succeeds" if all(got) else "fails"))
            for exc in ("NameError", "SystemExit", "OSError", "KeyboardInterrupt"):
                e, res = run_lmod(k, f, "load", ["a"], False, "", [0], raises=exc)
                row(k, e, res, {"raise RuntimeError" if exc == "NameError" else "raise " + exc} | NZ, fn, "the module command raises %s" % exc)
            for v in (None, ""):
                e, res = run_lmod(k, f, "load", ["a"], False, "", [0], lmod_cmd=v)
                row(k, e, res, {"raise FileNotFoundError"}, fn, "LMOD_CMD is %r" % v)
                count(k, res, "RUN", 0, fn, "LMOD_CMD is %r: commands run" % v)


def run_lmod(k, f, command, arguments, aslist, err, stats, raises=None, lmod_cmd="/x/lmod"):
    def modcall(en, s, b, name, args, kwargs, node, fid):
        if b != ("ext", "env_modules_python"):
            return None
        s = s.copy()
        en.emit(s, "RUN", (tuple(en.reify(s, a) for a in args),), node, fid)
        return [(s, "x", ("exc", raises, ()))] if raises else [(s, "v", NONE)]

    def modcall2(en, s, name, args, kwargs, node, fid):
        return modcall(en, s, ("ext", "env_modules_python"), name, args, kwargs, node, fid)

    def sio(en, s, name, args, kwargs, node, fid):
        s = s.copy()
        return [(s, "v", ("s", "SIO", en.uid(s, node, fid, "sio")))]

    def redirect(en, s, name, args, kwargs, node, fid):
        s = s.copy()
        en.emit(s, "REDIR", (name.split(".")[-1], args[0]), node, fid)
        return [(s, "v", ("s", "CM", name))]

    def getvalue(en, s, b, name, args, kwargs, node, fid):
        for ev in reversed(s.trace):
            if ev.kind == "REDIR" and ev.a[1] == b:
                return [(s, "v", C(err if ev.a[0] == "redirect_stderr" else "some output"))]
        return [(s, "v", C(""))]

    def system(en, s, name, args, kwargs, node, fid):
        s = s.copy()
        i = len([ev for ev in s.trace if ev.kind == "SYS"])
        en.emit(s, "SYS", (en.reify(s, args[0]),), node, fid)
        return [(s, "v", C(stats[i]) if i < len(stats) else C(0))]

    def getenv(en, s, name, args, kwargs, node, fid):
        return [(s, "v", C(lmod_cmd))] if args and args[0] == C("LMOD_CMD") else None
    e = k.engine(opaque={"ext:env_modules_python.module": modcall2, "ext:io.StringIO": sio, "ext:contextlib.redirect_stderr": redirect, "ext:contextlib.redirect_stdout": redirect,
                         "ext:os.system": system, "ext:os.getenv": getenv, "ext:os.environ.get": getenv})
    e.method_specs.update(module=modcall, getvalue=getvalue)
    e.calm = True
    st = State()
    if lmod_cmd is None:
        st.facts[("cmp", "In", C("LMOD_CMD"), ("ext", "os.environ"))] = False
    else:
        st.facts[("cmp", "In", C("LMOD_CMD"), ("ext", "os.environ"))] = True
        st.ext[(("ext", "os.environ"), C("LMOD_CMD"))] = C(lmod_cmd)
    c = C(command)
    args = [C(a) for a in arguments]
    if aslist:
        c = e.named_obj(st, "CMDLIST", None, fresh=True, kind="list", items=tuple(("i", x) for x in [c] + args[:1]))
        args = args[1:]
    return e, k.run(e, f, [c] + args, st)
