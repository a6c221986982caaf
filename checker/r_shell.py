"""The scripts that users source: load-env.sh and gen-config.sh."""
import ast
import os
import re

import shell
from kit import *   # noqa: F401,F403
from model import AnchorMissing

LOADENV = "wip/loadenv/load-env.sh"
GENCONFIG = "wip/genconfig/gen-config.sh"
OLD, NEW = (3, 5, 9, "final", 0), (3, 9, 1, "final", 0)


def source_of(k, rel):
    if rel in k.p.overlay:
        return k.p.overlay[rel]
    p = os.path.join(k.p.repo, rel)
    if not os.path.exists(p):
        raise AnchorMissing(rel)
    k.functions.add(rel)
    with open(p, encoding="utf-8") as fp:
        return fp.read()


def py_eval(n, ver):
    """value of an expression over sys.version_info"""
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.Tuple):
        return tuple(py_eval(x, ver) for x in n.elts)
    if isinstance(n, ast.Attribute) and n.attr == "version_info":
        return ver
    if isinstance(n, ast.Attribute) and n.attr in ("major", "minor", "micro"):
        return py_eval(n.value, ver)[("major", "minor", "micro").index(n.attr)]
    if isinstance(n, ast.Subscript):
        v = py_eval(n.value, ver)
        if isinstance(n.slice, ast.Slice):
            return v[slice(*(None if x is None else py_eval(x, ver) for x in (n.slice.lower, n.slice.upper, n.slice.step)))]
        return v[py_eval(n.slice, ver)]
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        a, b = py_eval(n.left, ver), py_eval(n.comparators[0], ver)
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b, ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b}[type(n.ops[0])]()
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return not py_eval(n.operand, ver)
    if isinstance(n, ast.BoolOp):
        v = [py_eval(x, ver) for x in n.values]
        return all(v) if isinstance(n.op, ast.And) else any(v)
    if isinstance(n, ast.IfExp):
        return py_eval(n.body if py_eval(n.test, ver) else n.orelse, ver)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("int", "bool", "str") and len(n.args) == 1:
        return {"int": int, "bool": bool, "str": str}[n.func.id](py_eval(n.args[0], ver))
    raise shell.Unknown("python: " + ast.dump(n)[:60])


def snippet(code, ver):
    """(output, status) of a version check written in Python"""
    out, st = "", 0
    try:
        tree = ast.parse(code)
    except SyntaxError:
        raise shell.Unknown("python -c with %s" % code[:40])
    for s in tree.body:
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            continue
        if isinstance(s, ast.Assert):
            if not py_eval(s.test, ver):
                return out, 1
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            f = s.value.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            v = py_eval(s.value.args[0], ver) if s.value.args else ""
            if name == "print":
                out += "%s\n" % (v,)
                continue
            if name in ("exit", "_exit", "quit"):
                return out, int(v or 0) if not isinstance(v, str) else 1
        raise shell.Unknown("python -c with %s" % code[:40])
    return out, 0


def is_python(sh, w):
    if len(w) == 1 and sh.is_sym(w):
        key = sh.syms[ord(w) - shell.BASE][0]
        return key[0] == "path of" and key[1].startswith("python")
    return re.search(r"(^|/)python3?$", w) is not None


def run_hook(sh, a, reds):
    if not is_python(sh, a[0]):
        return None
    if "-c" in a:
        code = a[a.index("-c") + 1]
        if "version_info" in code:
            if "old" not in sh.note:
                sh.note["old"] = sh.choose(2, "python too old") == 1
            out, st = snippet(code, OLD if sh.note["old"] else NEW)
            sh.emit(out, reds)
            return st
        return None
    if "--version" in a or "-V" in a:
        sh.note["version"] = True
        sh.emit(sh.sym("python version") + "\n", reds)
        return 0
    scripts = [i for i, x in enumerate(a) if x.endswith(".py")]
    if not scripts:
        return None
    i = scripts[0]
    name, args = re.split(r"/", a[i])[-1], a[i + 1:]
    sh.stdout(reds)
    sh.note.setdefault("progs", []).append((name, tuple(args), len(sh.events)))
    sh.note.setdefault("places", []).append((a[i], sh.cwd == sh.sym("cwd")))
    if "--help" in args:
        sh.note.setdefault("results", []).append((name, 0))
        return 0
    signal(sh, name)
    st = sh.fresh_status(name)
    sh.note.setdefault("results", []).append((name, st))
    user = "/tmp/" + sh.sym("USER")
    late = st != 0 and name == "load_env.py" and "--load-matching-env-location" in args and "--list-envs" not in args and sh.choose(2, "it fails after it wrote its files") == 1
    if name == "load_env.py" and (st == 0 or late) and "--load-matching-env-location" in args:
        loc = args[args.index("--load-matching-env-location") + 1]
        if late:
            sh.files[loc] = True
            sh.content[loc] = user + "/" + sh.sym("ENVFILE") + ".sh"
            sh.made.add(loc)
            sh.files[sh.content[loc]] = True
        elif "--list-envs" not in args:
            sh.files[loc] = True
            sh.content[loc] = user + "/" + sh.sym("ENVFILE") + ".sh"
            sh.made.add(loc)
            if sh.choose(2, "the environment file exists") == 0:
                sh.files[sh.content[loc]] = True
                sh.made.add(sh.content[loc])
            else:
                sh.files[sh.content[loc]] = False
                sh.note["no env file"] = True
    if name == "gen_config.py" and st == 0:
        if "--save-load-env-args" in args:
            p = args[args.index("--save-load-env-args") + 1]
            sh.files[p], sh.content[p] = True, "--envs " + sh.sym("LA1") + " " + sh.sym("LA2")
            sh.made.add(p)
        elif "--cmake-fragment" not in args:
            p = user + "/.bash_cmake_args_loc"
            sh.files[p], sh.content[p] = True, user + "/" + sh.sym("CMAKEARGS")
            sh.made.add(p)
            if sh.choose(2, "the file of cmake arguments exists") == 0:
                sh.files[sh.content[p]], sh.content[sh.content[p]] = True, "-DA -G\n  " + sh.sym("GEN") + " -DB=1 "
            else:
                sh.files[sh.content[p]] = False
        else:
            sh.files[user + "/.bash_cmake_args_loc"] = False
    return st


def signal(sh, where):
    """an interrupt while a program runs"""
    acts = [sh.traps[s] for s in ("INT", "TERM", "HUP") if s in sh.traps]
    if not sh.child and sh.choose(2, "interrupted in " + where) == 1:
        sh.note["interrupted"] = True
        sh.event("interrupted")
        if not acts:
            sh.note["no trap"] = True
            sh.status = 130
            raise shell.Return()
        sh.status = 130
        sh.run(shell.parse(sh.traps.get("INT", acts[0])))


def exists_hook(sh, op, v):
    if op == "-d":
        return v == sh.sym("DIR") or v.rstrip("/") in ("/tmp", "/tmp/" + sh.sym("USER"))
    if v in (sh.sym("DIR"), sh.sym("FILE")):
        return op in ("-e", "-r") or v == sh.sym("FILE") and op in ("-f", "-s")
    if v in (sh.sym("NAME"), sh.sym("FRAG")):
        return False
    if any(sh.is_sym(c) and sh.syms[ord(c) - shell.BASE][0][0] in ("RANDOM", "pid", "mktemp") for c in v):
        return False        # a new name
    if v.startswith("/tmp/"):
        r = sh.ask(("left over", v))
        sh.files[v] = r
        return r
    return None


def source_hook(sh, p, args):
    if p.endswith("load-env.sh"):
        sh.note["load-env"] = tuple(args)
        signal(sh, "load-env.sh")
        f = sh.funcs.get("gen_config_helper")
        if f is not None:
            sh.note["helper"] = True
            n = len(sh.events)
            before, sh.reads = dict(sh.set_here), set()
            sh.in_child(lambda: sh.command(["gen_config_helper"], []))
            sh.note["helper events"] = sh.events[n:]
            sh.note["exported"] = set(sh.exported)
            sh.note["missing"] = sorted(x for x in sh.reads if before.get(x) == 0 and sh.vars.get(x) is not None and x not in sh.exported)
        for x in ("python_too_old", "script_dir", "ci_mode", "cleanup", "env_file", "ret"):
            sh.unset(x)
        st = sh.fresh_status("load-env.sh")
        sh.note.setdefault("results", []).append(("load-env.sh", st))
        return st
    return None


def shell_hook(sh, a):
    signal(sh, "the new shell")


def declared(sh, name):
    return sh.ask(("declared", name))


class Fork(shell.Shell):
    def __init__(self, **kw):
        super().__init__(**kw)
        self.note, self.made = {}, set()
        self.args = [self.sym(x) if x.isupper() and len(x) > 1 else x for x in self.args]
        self.arg0 = list(self.args)


def explore(text, args, sourced=True, env=None):
    prog = shell.parse(text)
    todo, n = [[]], 0
    hooks = {"run": run_hook, "exists": exists_hook, "source": source_hook, "shell": shell_hook, "declared": declared}
    while todo:
        ch = todo.pop()
        sh = Fork(args=args, choices=ch, env=env, hooks=hooks, sourced=sourced)
        sh.unk = None
        how = "end"
        try:
            sh.run(prog)
        except shell.Return:
            how = "return"
        except shell.Exit:
            how = "exit"
        except shell.Hang:
            how = "hang"
        except shell.Unknown as ex:
            how, sh.unk = "unknown", str(ex)
        n += 1
        if n > 6000:
            raise Undecided("more than 6000 paths")
        for j in range(len(ch), len(sh.taken)):
            for c in range(1, sh.alts[j]):
                todo.append(sh.taken[:j] + [c])
        yield sh, how


def failed(sh):
    """why the script can not do its work, or None"""
    if sh.facts.get(("found", "python3")) is False:
        return "python3 is missing"
    if sh.note.get("old"):
        return "python3 is too old"
    if sh.note.get("interrupted"):
        return "an interrupt"
    for name, st in sh.note.get("results", ()):
        if not sh.ok(st):
            return "%s failed" % name
    if sh.note.get("no env file"):
        return "the environment file is missing"
    return None


def after_failure(sh):
    """what was started although a step before it had failed"""
    out = []
    bad = [n for n, (name, st) in enumerate(sh.note.get("results", ())) if not sh.ok(st)]
    if bad and len(sh.note["results"]) > bad[0] + 1:
        out.append(sh.note["results"][bad[0] + 1][0])
    return out


def desc(sh):
    return "arguments %s; %s" % (sh.show(" ".join(sh.arg0)) or "none", ", ".join("%s=%s" % (sh.show(str(w) if not isinstance(w, tuple) else " ".join(str(x) for x in w)), c) for w, c in sh.why))


def clip(s):
    return s[:300]


SCEN = {LOADENV: ([], ["NAME"], ["--ci-mode", "NAME"], ["NAME", "--ci-mode"], ["--list-envs"], ["--force", "NAME"], ["--ci-mode", "--force", "NAME"]),
        GENCONFIG: ([], ["--help"], ["NAME", "--help"], ["NAME"], ["NAME", "FILE"], ["--yes", "--cmake-fragment", "FRAG", "NAME"], ["NAME", "DIR"], ["--cmake-fragment", "FRAG", "NAME"], ["--force", "NAME", "DIR"], ["--cmake-fragment", "FRAG", "--yes", "NAME", "DIR"],
                    ["--ci-mode", "NAME", "DIR"], ["--help", "NAME", "DIR"], ["NAME", "--help", "DIR"])}


def each(k, rel, scen=None, partial=False, **kw):
    """the paths that were followed to the end; the others are undecided (and given too with `partial`: what they did so far is certain)"""
    text = source_of(k, rel)
    for args in scen if scen is not None else SCEN[rel]:
        try:
            for sh, how in explore(text, args, **kw):
                k.paths += 1
                k.steps += sh.steps
                if how == "unknown":
                    k.undecided(rel, "%s (%s)" % (sh.unk, clip(desc(sh))))
                    if not partial:
                        continue
                yield args, sh, how
        except shell.Unknown as ex:
            k.undecided(rel, str(ex))


def refused(sh, rel, args):
    if not args or rel == GENCONFIG and "--help" in args:
        return "no build name"
    if rel == GENCONFIG and args[-1] != "DIR" and "--cmake-fragment" not in args:
        return "no source directory"
    return None


def B01(k):
    for rel, rid in ((LOADENV, "R1"), (GENCONFIG, "R2")):
        with k.rule(rid, "%s gives control back with status 0 exactly when every step succeeded; nothing is started after a failed step" % os.path.basename(rel), rel):
            for args, sh, how in each(k, rel):
                why = failed(sh) or refused(sh, rel, args)
                k.ob(how != "exit", rel, "the calling shell is ended (%s)" % clip(desc(sh)))
                k.ob(how != "hang", rel, "control is never given back: a loop that does not end (%s)" % clip(desc(sh)))
                if how == "hang":
                    continue
                if [1 for n, a, _ in sh.note.get("progs", ()) if "--help" not in a]:
                    k.ob("old" in sh.note or "version" in sh.note, rel, "python3 is used without a look at its version (%s)" % clip(desc(sh)))
                if why:
                    k.ob(not sh.ok(), rel, "%s, but the status is 0 (%s)" % (why, clip(desc(sh))))
                    late = after_failure(sh)
                    k.ob(not late, rel, "%s, but %s is started all the same (%s)" % (why, ", ".join(late), clip(desc(sh))))
                    if not sh.note.get("interrupted") and why != "load-env.sh failed":
                        k.ob(not [e for e in sh.events if e[0] in ("source", "shell")], rel, "%s, but an environment is loaded (%s)" % (why, clip(desc(sh))))
                else:
                    k.ob(sh.ok(), rel, "everything succeeded, but the status is %s (%s)" % (sh.show(str(sh.status)), clip(desc(sh))))
                if refused(sh, rel, args):
                    k.ob(not [n for n, a, _ in sh.note.get("progs", ()) if "--help" not in a], rel, "%s, but the program is run (%s)" % (why, clip(desc(sh))))
                ran = [r for r in sh.note.get("progs", ())]
                if sh.facts.get(("found", "python3")) is False or sh.note.get("old"):
                    k.ob(not ran, rel, "%s, but the program is run (%s)" % (why, clip(desc(sh))))
    with k.rule("R3", "a script that is executed instead of sourced ends with an error before it does anything", "the sourced scripts"):
        for rel in (LOADENV, GENCONFIG):
            for args, sh, how in each(k, rel, (["NAME"], ["NAME", "DIR"]), sourced=False):
                k.ob(how == "exit" and not sh.ok() and not sh.note.get("progs"), rel, "executed directly: ends by %s, status %s (%s)" % (how, sh.show(str(sh.status)), clip(desc(sh))))
    with k.rule("R4", "a second environment is refused, with an error and before anything is done, while one is loaded", LOADENV):
        for args, sh, how in each(k, LOADENV, env={"LOAD_ENV_INTERACTIVE_MODE": "True"}):
            k.ob(how != "exit" and not sh.ok() and not [e for e in sh.events if e[0] not in ("print",)], LOADENV, "an environment is loaded: status %s, %s (%s)" % (
                sh.show(str(sh.status)), [e[0] for e in sh.events if e[0] != "print"][:4], clip(desc(sh))))


def B02(k):
    for rel, rid in ((LOADENV, "R1"), (GENCONFIG, "R2")):
        with k.rule(rid, "%s leaves no variable, function, trap, directory change or file of its own behind, and removes no other file" % os.path.basename(rel), rel):
            for args, sh, how in each(k, rel):
                if sh.note.get("no trap"):
                    k.ob(False, rel, "an interrupt is not cleaned up after (%s)" % clip(desc(sh)))
                    continue
                left = sorted(n for n, c in sh.set_here.items() if c == 0 and sh.vars.get(n) is not None)
                k.ob(not left, rel, "variables left: %s (%s)" % (", ".join(left), clip(desc(sh))))
                k.ob(not sh.funcs, rel, "functions left: %s (%s)" % (", ".join(sorted(sh.funcs)), clip(desc(sh))))
                k.ob(not sh.traps, rel, "traps left: %s (%s)" % (", ".join(sorted(sh.traps)), clip(desc(sh))))
                moved = [e for e in sh.events if e[0] == "cd" and e[1] == 0]
                k.ob(not moved or sh.cwd == sh.sym("cwd"), rel, "the working directory is changed (%s)" % clip(desc(sh)))
                opts = [e for e in sh.events if e[0] == "set" and e[1] == 0]
                k.ob(not opts, rel, "shell options are changed: %s (%s)" % (opts, clip(desc(sh))))
                mine = sh.made | {e[2] for e in sh.events if e[0] == "write"}
                keep = {p for p in mine if sh.files.get(p)}
                k.ob(not keep, rel, "files left: %s (%s)" % (", ".join(sh.show(p) for p in sorted(keep)), clip(desc(sh))))
                user = "/tmp/" + sh.sym("USER") + "/"
                mine |= {a[i + 1] for _, a, _ in sh.note.get("progs", ()) for i in range(len(a) - 1) if a[i] == "--load-matching-env-location"}
                other = [e[2] for e in sh.events if e[0] == "remove" and e[2] not in mine and not (e[2].startswith(user) and len(e[2]) > len(user))]
                k.ob(not other, rel, "removes `%s`, which is not its own (%s)" % (", ".join(sh.show(p) for p in other), clip(desc(sh))))


def own_args(args, drop):
    """the arguments without the options (with a value) of `drop`"""
    out, i = [], 0
    while i < len(args):
        if args[i] in drop:
            i += 2
        else:
            out.append(args[i])
            i += 1
    return out


def place(k, rel, sh):
    """the programs are the ones beside the script"""
    def ours(p):
        d = p.rsplit("/", 1)[0] if "/" in p else "."
        return not sh.const(d) and d[0] not in (sh.sym("cwd"), sh.sym("dir of", sh.sym("shell")), sh.sym("shell"))
    for p, here in sh.note.get("places", ()):
        k.ob(not here or ours(p), rel, "`%s` is run, not the program beside the script (%s)" % (sh.show(p), clip(desc(sh))))
    for e in sh.events:
        if e[0] == "source" and e[2].endswith("load-env.sh"):
            k.ob(ours(e[2]), rel, "`%s` is sourced, not LoadEnv's script beside this one (%s)" % (sh.show(e[2]), clip(desc(sh))))


def B03(k):
    with k.rule("R1", "load_env.py is run once, with the user's arguments unchanged and in order, and a location file of its own for every run", LOADENV):
        for args, sh, how in each(k, LOADENV, partial=True):
            place(k, LOADENV, sh)
            if failed(sh) in ("python3 is missing", "python3 is too old") or not args:
                continue
            runs = [a for n, a, _ in sh.note.get("progs", ()) if n == "load_env.py"]
            k.ob(len(runs) == 1 and len(sh.note["progs"]) == 1 or how == "unknown" and not runs, LOADENV, "load_env.py runs %d times (%s)" % (len(runs), clip(desc(sh))))
            for a in runs:
                k.ob(own_args(a, ("--load-matching-env-location",)) == sh.arg0, LOADENV, "load_env.py gets `%s` (%s)" % (sh.show(" ".join(a)), clip(desc(sh))))
                loc = [a[i + 1] for i, x in enumerate(a[:-1]) if x == "--load-matching-env-location"]
                own = [x for x in loc if any(sh.is_sym(c) and sh.syms[ord(c) - shell.BASE][0][0] in ("RANDOM", "pid", "mktemp") for c in x)]
                k.ob(len(loc) == 1 and own == loc, LOADENV, "the location file is `%s` (%s)" % (sh.show(" ".join(loc)), clip(desc(sh))))
    with k.rule("R2", "the environment is loaded into the current shell in CI mode only, otherwise into one new interactive shell", LOADENV):
        for args, sh, how in each(k, LOADENV):
            if failed(sh) not in (None, "an interrupt") or not args:
                continue
            env = "/tmp/" + sh.sym("USER") + "/" + sh.sym("ENVFILE") + ".sh"
            src = [e[1] for e in sh.events if e[0] == "source" and e[2] == env]
            shells = [e for e in sh.events if e[0] == "shell"]
            seen = "sourced %s, new shells %d" % (["in the new shell" if x else "here" for x in src], len(shells))
            if "--list-envs" in args or (sh.note.get("interrupted") and not shells):
                k.ob(not src and not shells, LOADENV, "%s (%s)" % (seen, clip(desc(sh))))
                continue
            ci = "--ci-mode" in args
            k.ob(src == ([0] if ci else [1]) and len(shells) == (0 if ci else 1), LOADENV, "%s (%s)" % (seen, clip(desc(sh))))
            marks = [e[1] for e in sh.events if e[0] == "export" and e[2] == "LOAD_ENV_INTERACTIVE_MODE"]
            k.ob(marks == ([] if ci else [1]), LOADENV, "the mark of a loaded environment is set %s (%s)" % (marks, clip(desc(sh))))
            for e in shells:
                k.ob("-i" in e[2] and not [x for x in e[2] if x in ("-c", "--norc")], LOADENV, "the new shell is `%s` (%s)" % (sh.show(" ".join(e[2])), clip(desc(sh))))
            order = [i for i, e in enumerate(sh.events) if e[0] == "source" and e[2] == env]
            calls = [(i, e[1]) for i, e in enumerate(sh.events) if e[0] == "run" and e[2][:1] == ("gen_config_helper",)]
            has = sh.facts.get(("declared", "gen_config_helper"))
            k.ob([c for _, c in calls] == ([] if not has else [0 if ci else 1]) and all(i > o for i, _ in calls for o in order), LOADENV,
                 "the helper of gen-config.sh %s and runs %d times (%s)" % ("exists" if has else "does not exist", len(calls), clip(desc(sh))))
            k.ob(has is not None, LOADENV, "whether gen-config.sh asked for its helper is not looked at (%s)" % clip(desc(sh)))


def B04(k):
    with k.rule("R1", "gen_config.py gets the user's arguments without the source directory, then once more to save LoadEnv's arguments", GENCONFIG):
        for args, sh, how in each(k, GENCONFIG, partial=True):
            place(k, GENCONFIG, sh)
            if failed(sh) in ("python3 is missing", "python3 is too old") or refused(sh, GENCONFIG, args):
                continue
            want = sh.arg0[:-1] if args[-1] == "DIR" else sh.arg0
            progs = sh.note.get("progs", ())
            k.ob(all(n == "gen_config.py" for n, a, _ in progs) and (len(progs) in (1, 2) or how == "unknown" and not progs), GENCONFIG, "programs run: %s (%s)" % ([n for n, a, _ in progs], clip(desc(sh))))
            for n, a, _ in progs:
                k.ob(own_args(a, ("--save-load-env-args",)) == want, GENCONFIG, "gen_config.py gets `%s` (%s)" % (sh.show(" ".join(a)), clip(desc(sh))))
            saved = ["--save-load-env-args" in a for n, a, _ in progs]
            k.ob(how == "unknown" or saved in ([False], [False, True]) and (failed(sh) is not None or len(saved) == 2), GENCONFIG, "LoadEnv's arguments are saved in %s (%s)" % (saved, clip(desc(sh))))
    with k.rule("R2", "LoadEnv is started once, with exactly the arguments gen_config.py saved", GENCONFIG):
        for args, sh, how in each(k, GENCONFIG):
            if failed(sh) not in (None, "load-env.sh failed") or refused(sh, GENCONFIG, args):
                continue
            runs = [e for e in sh.events if e[0] == "source" and e[2].endswith("load-env.sh")]
            k.ob(len(runs) == 1 and runs[0][1] == 0 and sh.note.get("load-env") == ("--envs", sh.sym("LA1"), sh.sym("LA2")), GENCONFIG, "load-env.sh is sourced %d times with %s (%s)" % (
                len(runs), [sh.show(x) for x in sh.note.get("load-env", ())], clip(desc(sh))))
            k.ob(bool(sh.note.get("helper")), GENCONFIG, "the helper is not there for load-env.sh (%s)" % clip(desc(sh)))
    with k.rule("R3", "cmake is run once, with exactly the generated arguments and then the source directory, and only when there are both", GENCONFIG):
        for args, sh, how in each(k, GENCONFIG):
            if not sh.note.get("helper"):
                k.ob(not [e for e in sh.events if e[0] == "run" and e[2][:1] == ("cmake",)], GENCONFIG, "cmake is run outside of the environment (%s)" % clip(desc(sh)))
                continue
            runs = [e[2] for e in sh.note["helper events"] if e[0] == "run" and e[2][:1] == ("cmake",)]
            both = args[-1] == "DIR" and sh.files.get("/tmp/" + sh.sym("USER") + "/" + sh.sym("CMAKEARGS")) is True and "--cmake-fragment" not in args
            want = [("cmake", "-DA", "-G", sh.sym("GEN"), "-DB=1", sh.sym("DIR"))] if both else []
            k.ob(runs == want, GENCONFIG, "cmake runs as %s instead of %s (%s)" % ([sh.show(" | ".join(r)) for r in runs], [sh.show(" | ".join(r)) for r in want], clip(desc(sh))))
            k.ob(not [e for e in sh.events if e[0] == "run" and e[2][:1] == ("cmake",) and e not in sh.note["helper events"]], GENCONFIG, "cmake is run outside of the environment (%s)" % clip(desc(sh)))
    with k.rule("R4", "what the helper needs in the new shell is exported to it", GENCONFIG):
        for args, sh, how in each(k, GENCONFIG):
            if sh.note.get("helper"):
                k.ob("gen_config_helper" in sh.note["exported"], GENCONFIG, "the helper itself is not exported (%s)" % clip(desc(sh)))
                k.ob(not sh.note["missing"], GENCONFIG, "the helper reads %s, which is not exported (%s)" % (", ".join(sh.note["missing"]), clip(desc(sh))))
