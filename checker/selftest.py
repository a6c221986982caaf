"""Rule self-test (thorough tier): small changes of the analysed functions, applied to the source in memory only, and which of them the rules of
the property notice. It measures the rules and never changes the verdict: many of the changes are harmless for the property at hand."""
import ast
import copy
import multiprocessing
import os
import random
import re
import time

QUIET_CALLS = {"print", "debug_message", "get_formatted_msg", "get_msg_for_list", "fill", "_loginfo_add", "add_argument", "format", "center", "ljust", "dedent"}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
UNWRAP_M = {"lower", "upper", "strip", "lstrip", "rstrip", "copy", "resolve", "split", "items"}
UNWRAP_F = {"str", "sorted", "list", "set", "len", "int", "repr"}


def call_name(n):
    return n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""


def sites(fn):
    """(kind, path to the node) pairs; a path is a list of (field, index)"""
    out = []

    def walk(n, path, quiet):
        if isinstance(n, ast.Call) and call_name(n) in QUIET_CALLS:
            quiet = True
        if isinstance(n, (ast.JoinedStr, ast.Raise)):
            quiet = quiet or isinstance(n, ast.JoinedStr)
        if not quiet:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                out.append(("cmp", path))
                if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    out.append(("cmpneg", path))
            if isinstance(n, ast.BoolOp):
                out.append(("boolop", path))
                for i in range(len(n.values)):
                    out.append(("booldrop%d" % i, path))
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                out.extend([("condtrue", path), ("condfalse", path)])
            if isinstance(n, ast.Constant) and n.value is not None and isinstance(n.value, (int, bool)):
                out.append(("const", path))
            if isinstance(n, ast.Call):
                for i in range(len(n.keywords)):
                    out.append(("dropkw%d" % i, path))
                nm = call_name(n)
                if isinstance(n.func, ast.Attribute) and nm in UNWRAP_M and not n.args:
                    out.append(("unwrapm", path))
                if nm in UNWRAP_F | {"deepcopy", "escape", "quote"} and len(n.args) == 1:
                    out.append(("unwrapf", path))
                if len(n.args) == 2:
                    out.append(("swapargs", path))
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                out.append(("slice", path))
            if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                out.append(("retnone", path))
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Break, ast.Continue)) and not (
                    isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or isinstance(n.value, ast.Call) and call_name(n.value) in QUIET_CALLS)):
                out.append(("drop", path))
            if isinstance(n, ast.Return):
                out.append(("drop", path))
            if isinstance(n, ast.Try) and n.finalbody:
                out.append(("dropfinally", path))
            if isinstance(n, ast.For):
                out.extend([("firstonly", path), ("reversed", path)])
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.AST):
                walk(v, path + [(f, None)], quiet)
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        walk(x, path + [(f, i)], quiet)
    for i, x in enumerate(fn.body):
        walk(x, [("body", i)], False)
    return out


def apply(tree_fn, kind, path):
    """change the copy tree_fn in place; False when the change is not possible"""
    par, n, last = None, tree_fn, None
    for (f, i) in path:
        par, last = n, (f, i)
        n = getattr(n, f) if i is None else getattr(n, f)[i]

    def put(x):
        f, i = last
        if i is None:
            setattr(par, f, x)
        else:
            getattr(par, f)[i] = x
    if kind == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == "cmpneg":
        put(ast.UnaryOp(ast.Not(), n))
    elif kind == "boolop":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind.startswith("booldrop"):
        vals = [v for i, v in enumerate(n.values) if i != int(kind[8:])]
        put(vals[0] if len(vals) == 1 else ast.BoolOp(n.op, vals))
    elif kind in ("condtrue", "condfalse"):
        if isinstance(n, ast.While) and kind == "condtrue":
            return False
        n.test = ast.Constant(kind == "condtrue")
    elif kind == "const":
        n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1
    elif kind.startswith("dropkw"):
        del n.keywords[int(kind[6:])]
    elif kind == "unwrapm":
        put(n.func.value)
    elif kind == "unwrapf":
        put(n.args[0])
    elif kind == "swapargs":
        n.args.reverse()
    elif kind == "slice":
        put(n.value)
    elif kind == "retnone":
        n.value = ast.Constant(None)
    elif kind == "drop":
        put(ast.Pass())
    elif kind == "dropfinally":
        n.finalbody = []
        if not n.handlers:
            put(ast.If(ast.Constant(True), n.body, []))
    elif kind == "firstonly":
        n.body.append(ast.Break())
    elif kind == "reversed":
        n.iter = ast.Call(ast.Name("reversed", ast.Load()), [ast.Call(ast.Name("list", ast.Load()), [n.iter], [])], [])
    return True


def functions(tree):
    out = []

    def walk(n, qual):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((".".join(qual + [c.name]), c))
                continue
            walk(c, qual + [c.name] if isinstance(c, ast.ClassDef) else qual)
    walk(tree, [])
    return out


def mutants(src, want=None):
    """[(function, kind, line, new source)]"""
    tree = ast.parse(src)
    fns = functions(tree)
    for k, (q, fn) in enumerate(fns):
        if want is not None and not want(q):
            continue
        for kind, path in sites(fn):
            t2 = ast.parse(src)
            f2 = functions(t2)[k][1]
            node = f2
            line = None
            for (f, i) in path:
                node = getattr(node, f) if i is None else getattr(node, f)[i]
                line = getattr(node, "lineno", line)
            try:
                if not apply(f2, kind, path):
                    continue
                new = ast.unparse(ast.fix_missing_locations(t2))
                ast.parse(new)
            except Exception:
                continue
            yield q, kind, line, new


SH_EDITS = [(r"\$@", "$1"), (r" == ", " != "), (r" != ", " == "), (r"-eq", "-ne"), (r"-ne", "-eq"), (r"! -z", "-z"), (r"&&", "||"), (r"return 1", "return 0"), (r"return \$\w+", "return 0"), (r"return \$\?", "return 0"),
            (r"exit 1", "exit 0"), (r"-f ", "-d "), (r"-d ", "-e "), (r">>", ">"), (r"export ", ""), (r"; ret=\$\?", ""), (r"cleanup; ", ""), (r"\$RANDOM", "1"), (r" -i$", ""), (r"\$\w+ ", " "), (r"\$\{\w+\}", "")]


def sh_mutants(src):
    """the same for a bash script: one command dropped or one operator changed"""
    import shell
    lines = src.split("\n")
    out = []
    for i, ln in enumerate(lines):
        if not ln.strip() or ln.strip().startswith("#"):
            continue
        ind = ln[:len(ln) - len(ln.lstrip())]
        out.append(("drop", i, ind + ":"))
        for pat, rep in SH_EDITS:
            for m in re.finditer(pat, ln):
                out.append(("%s to %s" % (m.group(0), rep), i, ln[:m.start()] + rep + ln[m.end():]))
    for kind, i, new in out:
        if new == lines[i]:
            continue
        text = "\n".join(lines[:i] + [new] + lines[i + 1:])
        try:
            shell.parse(text)
        except shell.Unknown:
            continue
        yield "", kind, i + 1, text


def _one(job):
    import check
    pid, rel, q, kind, line, new = job
    try:
        k = check.analyse(pid, "quick", overlay={rel: new})
    except BaseException as ex:
        return (rel, q, kind, line, "error %s" % type(ex).__name__)
    v = sorted({o["rule"] for o in k.obs if o["status"] == "violation"})
    return (rel, q, kind, line, ",".join(v) if v else "undecided" if any(o["status"] == "undecided" for o in k.obs) else "quiet")


def run(pid, kit, budget=240.0, limit=160):
    t0 = time.time()
    names = {f.split(":")[-1].split(".")[-1] for f in kit.functions}
    jobs = []
    for m in kit.p.modules.values():
        for q, kind, line, new in mutants(m.src,
                                          lambda q: q.split(".")[-1] in names):
            jobs.append((pid, m.rel, q, kind, line, new))
    for rel in sorted(f for f in kit.functions if f.endswith(".sh")):
        with open(os.path.join(kit.p.repo, rel), encoding="utf-8") as fp:
            for q, kind, line, new in sh_mutants(fp.read()):
                jobs.append((pid, rel, q, kind, line, new))
    random.Random(int(os.environ.get("VERIF_SEED", "1") or 1)).shuffle(jobs)
    total = len(jobs)
    res = []
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
        it = pool.imap_unordered(_one, jobs[:limit])
        for _ in range(min(limit, total)):
            left = budget - (time.time() - t0)
            if left <= 0:
                break
            try:
                res.append(it.next(timeout=left))
            except (StopIteration, multiprocessing.TimeoutError):
                break
        pool.terminate()
    noticed = [r for r in res if r[4] not in ("quiet", "undecided") and not r[4].startswith("error")]
    return {"possible": total, "tried": len(res), "noticed": len(noticed), "undecided": sum(1 for r in res if r[4] == "undecided"),
            "mutants": ["%s %s:%s %s -> %s" % (r[1], os.path.basename(r[0]), r[3], r[2], r[4]) for r in sorted(res, key=str)]}
