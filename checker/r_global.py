"""Whole-program rules: memoised results follow their inputs, failures are not memoised, debug settings and instances do not interfere."""
import ast

from kit import *   # noqa: F401,F403
from terms import *   # noqa: F401,F403
from r_core import CPE, CPD, CPED, SEC, QUIET
from r_view import pure_ext

SELF = ("o", "self")


# ---------------------------------------------------------------- memo discovery
def self_name(f):
    a = f.node.args
    names = [x.arg for x in list(a.posonlyargs) + list(a.args)]
    return names[0] if names else None


def self_attr(n, me):
    return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me else None


def own_walk(node):
    stack = [node]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(ast.iter_child_nodes(x))


def str_arg(call, i):
    if len(call.args) > i and isinstance(call.args[i], ast.Constant) and isinstance(call.args[i].value, str):
        return call.args[i].value
    return None


def tests_of(f):
    """fields whose presence the function tests"""
    me, out = self_name(f), set()
    for n in own_walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
            s = str_arg(n, 1)
            if s and (n.func.id == "hasattr" or len(n.args) == 3):
                out.add(s)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = n.left, n.comparators[0]
            if isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(b, ast.Constant) and b.value is None and self_attr(a, me):
                out.add(self_attr(a, me))
            if isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(a, ast.Constant) and isinstance(a.value, str) and (
                    self_attr(b, me) == "__dict__" or isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "vars"):
                out.add(a.value)
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if h.type is not None and "AttributeError" in ast.dump(h.type):
                    for s in n.body:
                        for m in own_walk(s):
                            if self_attr(m, me) and isinstance(m.ctx, ast.Load):
                                out.add(m.attr)
    return out


def writes_of(f):
    me, out = self_name(f), set()
    for n in own_walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and self_attr(n, me):
            out.add(n.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
            s = str_arg(n, 1)
            if s:
                out.add(s)
    return out


def self_reads(f):
    me = self_name(f)
    out = {n.attr for n in own_walk(f.node) if self_attr(n, me) and isinstance(n.ctx, ast.Load)}
    for n in own_walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
            s = str_arg(n, 1)
            if s:
                out.add(s)
    return out


def member_funcs(prog, c):
    """name -> Func of zero-argument readers (property getters and methods) in the class's resolution order"""
    out = {}
    for kls in prog.mro(c):
        for n, p in kls.props.items():
            if p.getter is not None:
                out.setdefault(n, p.getter)
        for n, f in kls.methods.items():
            out.setdefault(n, f)
    return out


def closure(prog, c, f, fs=None):
    """self attributes read by f or, transitively, by the members of the class it uses"""
    fs = fs or member_funcs(prog, c)
    seen, todo = set(), [f]
    done = set()
    while todo:
        g = todo.pop()
        if id(g) in done:
            continue
        done.add(id(g))
        for a in self_reads(g):
            seen.add(a)
            if a in fs:
                todo.append(fs[a])
    return seen


def memos(prog, c):
    """(reader name, field, Func) of every memoised member: it tests the field and (itself or a member it calls) writes it"""
    fs = member_funcs(prog, c)
    out = []
    for n, f in sorted(fs.items()):
        if n.startswith("__") or len([a for a in f.node.args.args]) > 1 or f.kind == "setter":
            continue
        tested = tests_of(f)
        if not tested:
            continue
        w = {x: f for x in writes_of(f)}
        for a in sorted(self_reads(f)):
            if a in fs and a != n:
                for x in writes_of(fs[a]):
                    w.setdefault(x, fs[a])
        for fld in sorted(tested & set(w)):
            r = prog.find_member(c, fld)
            if r is not None and r[0] in ("prop", "method"):
                continue
            out.append((n, fld, f, w[fld]))
    return out


CACHES = ("lru_cache", "cache", "cached_property")


def cache_decorated(f):
    for d in f.decorators:
        t = d.func if isinstance(d, ast.Call) else d
        nm = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "")
        if nm in CACHES:
            return nm
    return None


# ---------------------------------------------------------------- C09
REQUIRED = [
    # class, input, readers whose answer depends on it, fields standing for the memo of a reader that is an object built on demand
    (CPE, "inifilepath", ("configparserdata", "configparserenhanceddata", "parse_section_last_result")),
    (CPE, "configparser_delimiters", ("configparserdata", "configparserenhanceddata", "parse_section_last_result")),
    ("SetEnvironment", "inifilepath", ("configparserdata", "configparserenhanceddata", "parse_section_last_result", "actions")),
    ("SetEnvironment", "configparser_delimiters", ("configparserdata", "configparserenhanceddata", "parse_section_last_result", "actions")),
    ("ConfigKeywordParser", "build_name", ("selected_options", "selected_options_str")),
    ("LoadEnv", "build_name", ("system_name", "parsed_env_name", "env_stripped_build_name")),
]


def old(f):
    return ("s", "OLD:" + f)


def setter_run(k, c, inp, fields):
    e = k.engine(opaque=dict(QUIET))
    e.record_fresh = True
    st = State()
    args = ("s", "ARGS")
    e.opaque["ext:pathlib.Path"] = pure_ext
    e.opaque["ext:Path"] = pure_ext
    fl = {f: old(f) for f in fields}
    fl["_args"] = args
    for f in fl:
        st.facts[("isnone", old(f))] = False
        st.facts[old(f)] = True
    p = k.p.prop(c.qual, inp)
    backing = writes_of(p.setter) if p.setter else set()
    for b in backing:
        if b not in fl and k.p.find_member(c, b) is None:
            fl[b] = ("s", "PREV:" + b)
    s = e.named_obj(st, "self", c, fields=fl)
    e.attr_specs = {}
    new = ("s", "NEW")
    st.facts[("isnone", new)] = False
    for t in ("str", "list"):
        st.facts[("isinst", new, ("ext", t))] = t == "str"
    r = e.set_attr(st, s, inp, new, c.node, None)
    k.paths += len(r)
    return e, r


def whole(e, st, a):
    """the comparison looks at the whole new value (not only at a size, an element or an unordered form of it)"""
    NEW = ("s", "NEW")
    sides = [e.reify(st, x) for x in a[1:] if isinstance(x, tuple)]
    sides = [x for x in sides if mentions(x, NEW)]
    part = lambda y: (y[0] == "pc" and y[1] in ("len", "set", "frozenset", "sorted", "sum", "max", "min", "type", "hash", "isinstance", "id") and any(mentions(z, NEW) for z in y[2])) \
        or (y[0] == "sub" and mentions(y[1], NEW))
    return bool(sides) and not all(any(part(y) for y in subterms(x)) for x in sides)


def C09(k):
    for cn, inp, readers in REQUIRED:
        c = k.p.cls(cn)
        construct = "%s.%s" % (cn, inp)
        with k.rule("R1", "after an input is assigned, nothing computed from its old value is answered any more", construct):
            p = k.p.prop(cn, inp)
            if p.setter is None:
                raise Undecided("the input has no setter")
            fs = member_funcs(k.p, c)
            found = memos(k.p, c)
            backing = writes_of(p.setter) | {inp}
            dep = []
            for n, fld, f, w in found:
                if n in readers or (closure(k.p, c, w, fs) & backing) and fld not in backing and n != inp:
                    dep.append((n, fld, f))
            for kls in k.p.mro(c):
                for n, pr in kls.props.items():
                    if pr.typed is not None and n in readers:
                        dep.append((n, "_" + n, None))
            covered = {n for n, _, _ in dep}
            for n in readers:
                if n not in fs and not any(n in kls.props for kls in k.p.mro(c)):
                    raise AnchorMissing("%s.%s not found" % (cn, n))
                f = fs.get(n)
                if n not in covered and f is not None:
                    cd = cache_decorated(f)
                    if cd is None:
                        k.ob(True, construct, "%s is computed on every read" % n)
            # memoising decorators are never dropped by an attribute reset
            for n, f in fs.items():
                cd = cache_decorated(f)
                if cd and (n in readers or closure(k.p, c, f, fs) & backing):
                    text = " ".join(ast.dump(g.node) for g in reach(k.p, c, p.setter, fs))
                    if "cache_clear" in text or repr(n) in text:
                        k.undecided(construct, "%s is memoised by %s, which the setter seems to clear" % (n, cd))
                    else:
                        k.ob(False, construct, "%s is memoised by %s and assigning %s does not drop it" % (n, cd, inp), where=f.loc)
            fields = sorted({fld for _, fld, _ in dep})
            e, res = setter_run(k, c, inp, fields)
            for n, fld, f in dep:
                for st, kind, v in res:
                    if kind != "v":
                        continue
                    h = st.heap["self"]
                    cur = h.fields.get(fld)
                    if cur is None or cur == ABSENT or cur != old(fld):
                        k.ob(True, construct, "assigning %s drops what %s keeps in %s" % (inp, n, fld))
                        continue
                    if any(b and a[0] in ("eq", "eqc", "cmp") and whole(e, st, a) for a, b in st.facts.items()):
                        k.undecided(construct, "the setter compares the new value with something and then keeps %s" % fld)
                        continue
                    touched = [ev for ev in flat(st.trace) if ev.kind != "setf" and mentions_any(ev, old(fld))]
                    if touched:
                        k.undecided(construct, "the kept object of %s is changed in place" % n)
                        continue
                    nf, nt = len(st.facts), len(st.trace)
                    rr = e.get_attr(st, SELF, n, c.node, None) if n not in [m for kl in k.p.mro(c) for m in kl.methods] else e.call_func(st, f, [SELF], {}, c.node, None)
                    stale = [(s2, x) for (s2, kk, x) in rr if kk == "v" and (mentions(x, old(fld)) or s2.heap["self"].fields.get(fld) == old(fld))]
                    sure = [s2 for s2, x in stale if len(s2.facts) == nf]
                    if sure:
                        k.ob(False, construct, "after assigning %s, reading %s still answers what was computed before" % (inp, n), where=(p.setter.loc), path=path_text(sure[0], ("return", stale[0][1])))
                    elif stale:
                        k.undecided(construct, "%s may answer the old value under a condition the rule does not know" % n)
                    else:
                        k.ob(True, construct, "reading %s computes again" % n)
        with k.rule("R2", "the assignment takes effect: no path refuses or forgets the new value silently", construct):
            e, res = setter_run(k, c, inp, [])
            n = 0
            for st, kind, v in res:
                if kind != "v":
                    continue
                got = e.get_attr(st, SELF, inp, c.node, None)
                for s2, kk, x in got:
                    n += 1
                    k.ob(kk == "v" and mentions(e.reify(s2, x), ("s", "NEW")), construct, "after the assignment %s reads as %s" % (inp, show(e.reify(s2, x))[:80]), path=path_text(s2, ("return", x)))
            if not n:
                raise Undecided("no path of the setter returns")
    with k.rule("R3", "a reset of the parsed data leaves no view, log or last result behind", "ConfigParserEnhanced"):
        # the same facts seen from the object the user holds: the view is rebuilt, its owner is the parser
        e = k.engine(opaque=QUIET)
        st = State()
        s = e.named_obj(st, "self", k.p.cls(CPE), fields={"_configparserenhanceddata": ABSENT})
        n = 0
        for s2, kk, x in e.get_attr(st, s, "configparserenhanceddata", k.p.cls(CPE).node, None):
            if kk != "v" or x[0] != "o":
                continue
            n += 1
            fl = s2.heap[x[1]].fields
            k.ob(SELF in fl.values(), "ConfigParserEnhanced.configparserenhanceddata", "a fresh view is built for this parser")
        if not n:
            raise Undecided("the view is not built in a way the rule knows")


def mentions_any(ev, t):
    return any(mentions(a, t) for a in ev.a if isinstance(a, tuple))


def reach(prog, c, f, fs):
    done, todo = [], [f]
    while todo:
        g = todo.pop()
        if g in done:
            continue
        done.append(g)
        for a in self_reads(g):
            if a in fs:
                todo.append(fs[a])
        for n in own_walk(g.node):        # super().m()
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, "id", "") == "super":
                for kls in prog.mro(c):
                    if n.func.attr in kls.methods:
                        todo.append(kls.methods[n.func.attr])
    return done


# ---------------------------------------------------------------- C10
MEMO_SITES = [
    # class, reader, field holding the result, what is kept
    (CPE, "configparserdata", "_configparserdata", "the loaded .ini data"),
    ("DetermineSystem", "system_name", "_system_name", "the system name"),
    ("ConfigKeywordParser", "selected_options", "_selected_options", "the selected options"),
    ("ConfigKeywordParser", "selected_options_str", "_selected_options_str", "the selected options"),
    ("EnvKeywordParser", "qualified_env_name", "_qualified_env_name", "the environment name"),
    ("LoadEnv", "parsed_env_name", "_parsed_env_name", "the environment name"),
    ("LoadEnv", "system_name", "_system_name", "the system name"),
    ("LoadEnv", "env_stripped_build_name", "_env_stripped_build_name", "the stripped build name"),
    ("LoadEnv", "load_set_environment", "set_environment", "the environment specification"),
    ("LoadEnv", "args", "_args", "the arguments"),
    ("GenConfig", "complete_config", "_complete_config", "the configuration name"),
    ("GenConfig", "args", "_args", "the arguments"),
    ("GenConfig", "generated_config_flags_str", "_generated_config_flags_str", "the generated flags"),
    ("GenConfig", "write_cmake_fragment", "_cmake_fragment_file", "the fragment file"),
    ("GenConfig", "validate_config_specs_ini", "has_been_validated", "the validation mark"),
]
HARMLESS = {"exception_control_level", "print", "str", "repr", "len", "join", "format", "lower", "upper", "strip", "append", "keys", "items", "debug_message", "get_formatted_msg", "hasattr", "sorted", "list", "dict", "tuple", "bool"}


def harmless(prog, f, depth=0):
    """the function can be seen not to raise: only printing and formatting"""
    if f.name in HARMLESS:
        return True
    for n in own_walk(f.node):
        if isinstance(n, (ast.Raise, ast.Assert, ast.With, ast.Subscript)):
            return False
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
            if nm not in HARMLESS:
                return False
    return True


def writers(prog, c, fld):
    """members that write the field, and those that (through self) call them"""
    fs = {}
    for kls in prog.mro(c):
        for n, p in kls.props.items():
            for g in (p.getter, p.setter, p.deleter):
                if g is not None:
                    fs.setdefault(n, []).append(g)
        for n, f in kls.methods.items():
            fs.setdefault(n, []).append(f)
    direct = {n for n, l in fs.items() for f in l if fld in writes_of(f)}
    out = set(direct)
    while True:
        more = {n for n, l in fs.items() if n not in out for f in l if self_reads(f) & out}
        if not more:
            break
        out |= more
    return direct, out, fs


def memo_engine(k, c, name, fld):
    direct, chain, fs = writers(k.p, c, fld)
    # functions between the reader and the stores
    reach_ = {name}
    todo = [name]
    while todo:
        x = todo.pop()
        for f in fs.get(x, []):
            for a in self_reads(f):
                if a in chain and a not in reach_ and a in fs:
                    reach_.add(a)
                    todo.append(a)
    inl = {id(f) for n in reach_ for f in fs.get(n, []) if n in chain or n == name}
    # helpers that store a result only on behalf of the reader (mangled or plain) are inlined as well
    e = k.engine(opaque=dict(QUIET), implicit_raises=True)

    def dflt(func):
        if id(func) in inl:
            return None
        if func.cls is not None and func.name == "args" and name != "args":
            return "noraise"       # the arguments are remembered once parsed; every entry point parses them first
        return "noraise" if harmless(k.p, func) else "event"
    e.opaque_default = dflt
    return e


def read_member(e, st, c, s, name):
    m = e.p.find_member(c, name)
    if m is None:
        raise AnchorMissing("%s.%s not found" % (c.qual, name))
    if m[0] == "prop":
        return e.get_attr(st, s, name, c.node, None)
    return e.call_func(st, m[1], [s], {}, c.node, None)


def C10(k):
    for cn, name, fld, what in MEMO_SITES:
        c = k.p.cls(cn)
        construct = "%s.%s" % (cn, name)
        with k.rule("R1", "when computing a remembered result fails, nothing is remembered: the next request computes (and fails) again", construct):
            if k.p.find_member(c, name) is None:
                raise AnchorMissing("%s not found" % construct)
            direct, chain, fs = writers(k.p, c, fld)
            if name not in chain:
                if cache_decorated(fs[name][0]):
                    k.ob(True, construct, "memoised by a decorator, which keeps only returned values")
                    continue
                raise Undecided("%s is no longer kept in %s" % (what, fld))
            e = memo_engine(k, c, name, fld)
            st = State()
            none_based = fld == "set_environment"
            s = e.named_obj(st, "self", c, fields={fld: NONE} if none_based else ({fld: FALSE} if fld == "has_been_validated" else {fld: ABSENT}))
            res = read_member(e, st, c, s, name)
            k.paths += len(res)
            nx = 0
            for st2, kind, v in res:
                if kind != "x":
                    continue
                nx += 1
                cur = st2.heap["self"].fields.get(fld)
                if cur in (None, ABSENT, NONE, FALSE) or cur[0] == "o" and cur[1] in st2.heap and st2.heap[cur[1]].kind in ("list", "dict", "set") and not st2.heap[cur[1]].items:
                    k.ob(True, construct, "failure (%s) leaves %s unset" % (show(v)[:60], fld))
                    continue
                nt, nf = len(st2.trace), len(st2.facts)
                again = read_member(e, st2, c, s, name)
                sure = [s3 for (s3, kk, x) in again if kk == "v" and not any(ev.kind in ("call", "callm", "callx", "rec") for ev in s3.trace[nt:])]
                if fld == "has_been_validated":
                    sure = [st2]
                if fld == "set_environment":
                    e3 = memo_engine(k, c, "apply_env", fld)
                    e3.opaque["load_set_environment"] = "event"
                    sure = [s3 for (s3, kk, x) in read_member(e3, st2, c, s, "apply_env") if not any(ev.kind == "call" and "load_set_environment" in ev.a[0] for ev in s3.trace[nt:])]
                if sure:
                    k.ob(False, construct, "%s fails (%s) after %s was already stored; the next request answers it without the failed step" % (name, show(v)[:80], what), path=path_text(st2, ("raise", v)))
                else:
                    k.undecided(construct, "a failure leaves %s set, and the next request does more than answering it" % fld)
            if not nx:
                k.ob(True, construct, "the computation has no failing path after its start")
    with k.rule("R2", "a section whose parse fails is forgotten: the next look parses it again", "ConfigParserEnhanced.parse_section"):
        failed_parse(k)


def failed_parse(k):
    fn = "ConfigParserEnhanced.parse_section"
    e = k.engine(opaque=dict(QUIET, _reset_lazy_attr="silent"), implicit_raises=True)
    st = State()
    c = k.p.cls(CPE)
    s = e.named_obj(st, "self", c)
    e.opaque["_discard_section"] = "event"
    e.opaque["_parse_section_r"] = lambda eng, st_, f, a, kw, nd, fid: [(st_, "v", ("s", "RESULT")), (st_, "x", ("anyexc", "parse"))]
    e.attr_specs = {"configparserenhanceddata": lambda en, s_, b, n, nd, f: [(s_, "v", ("s", "VIEW"))] if b == SELF else None}
    st.facts[("isnone", SEC)] = False
    res = k.run(e, k.p.method(CPE, "parse_section"), [s, SEC], st)
    n = 0
    for st2, oc in res:
        if oc[0] != "raise" or oc[1] != ("anyexc", "parse"):
            continue
        n += 1
        dis = [ev for ev in flat(st2.trace) if "_discard_section" in repr(ev.a[:2])[:200] and mentions_any(ev, SEC)]
        other = [ev for ev in flat(st2.trace) if mentions_any(ev, ("s", "VIEW"))]
        if not dis and other:
            k.undecided(fn, "the failed parse changes the view in a way the rule does not know")
            continue
        k.ob(bool(dis), fn, "a failing parse makes the view forget the section", path=path_text(st2, oc))
        lr = st2.heap["self"].fields.get("_parse_section_last_result")
        k.ob(lr in (None, ABSENT, NONE), fn, "a failing parse leaves no last result")
    swallowed = [(st2, oc) for st2, oc in res if oc[0] == "return" and not mentions(oc[1], ("s", "RESULT"))]
    for st2, oc in swallowed:
        k.ob(False, fn, "a failing parse returns %s instead of raising" % show(oc[1])[:60], path=path_text(st2, oc))
    if not n:
        raise Undecided("no failing path found")
    # forgetting removes both the mark and the data of the section
    m = k.p.method("ConfigParserEnhancedData", "_discard_section", required=False)
    if m is None:
        return
    e = k.engine()
    st = State()
    chk = e.named_obj(st, "CHK", None, fresh=True, kind="set", items=(("i", C("S")), ("i", C("T"))))
    dat = e.named_obj(st, "DAT", None, fresh=True, kind="dict", items=(("kv", C("S"), ("s", "OPTS")), ("kv", C("T"), ("s", "OPTT"))))
    v = e.named_obj(st, "view", k.p.cls("ConfigParserEnhancedData"))
    V = ("o", "view")
    e.attr_specs = {"_sections_checked": lambda en, s_, b, n_, nd, f: [(s_, "v", chk)] if b == V else None,
                    "data": lambda en, s_, b, n_, nd, f: [(s_, "v", dat)] if b == V else None}
    fn = "ConfigParserEnhancedData._discard_section"
    for sec, left in (("S", ["T"]), ("T", ["S"]), ("U", ["S", "T"])):
        res = k.run(e, m, [v, C(sec)], st.copy())
        for what in ("CHK", "DAT"):
            outs = []
            for st2, oc in res:
                its = st2.heap[what].items
                outs.append(sorted(x[1][2] for x in its) if oc[0] == "return" and all(x[0] in ("i", "kv") and is_str_c(x[1]) for x in its) else "raises" if oc[0] == "raise" else None)
            k.table(outs, left, fn, "forgetting %s leaves in %s" % (sec, "the list of parsed sections" if what == "CHK" else "the data"))
