"""Rules about the enhanced data view, .ini loading, the all-handled assertions and unrolling."""
import itertools
from kit import *   # noqa: F401,F403
from terms import *   # noqa: F401,F403
from r_core import CPE, CPD, CPED, SEC, QUIET

VIEW = "ConfigParserEnhancedData"
DATA, DATA2, CHECKED, CHECKED2, OPT = (("s", x) for x in ("DATA", "DATA2", "CHECKED", "CHECKED2", "OPT"))
SELF = ("o", "self")
FILES, DELIMS = ("s", "FILES"), ("s", "DELIMS")


def const_specs(**m):
    return {n: (lambda v: lambda en, s, b, nm, nd, f: [(s, "v", v)] if b == SELF else None)(v) for n, v in m.items()}


def get_prop(k, e, st, obj, name):
    c = k.p.cls(CPE)
    r = e.get_attr(st, obj, name, c.node, None)
    k.paths += len(r)
    return [(s, ("return", v) if kk == "v" else ("raise", v)) for (s, kk, v) in r]


# ============================================================ C11
class Scn:
    """a state of the view: section in the file? parsed? in the data? option present?"""
    def __init__(self, infile, checked, indata, opt=True):
        self.infile, self.checked, self.indata, self.opt = infile, checked, indata, opt

    def text(self):
        return "%s, %s, %s" % ("section in the file" if self.infile else "section not in the file", "already parsed" if self.checked else "not parsed yet",
                               "present in the data" if self.indata else "absent from the data")


def view_run(k, scn, method, args, opt_fact=None, node=None, owner=False):
    e = k.engine()
    e.calm = True
    st = State()
    c = k.p.cls(VIEW)
    own = e.named_obj(st, "OWNER", k.p.cls(CPE), fields={"_exception_control_level": C(3), "_debug_level": C(0)})
    s = e.named_obj(st, "self", c, fields={"_owner_data": own, "$data": DATA, "$checked": CHECKED, "_exception_control_level": C(3), "_debug_level": C(0)})
    fld = lambda n: (lambda en, s_, b, nm, nd, f: [(s_, "v", s_.heap["self"].fields[n])] if b == SELF else None)
    e.attr_specs = {"configparserdata": lambda en, s_, b, n, nd, f: [(s_, "v", CPD)] if b == ("o", "OWNER") else None,
                    "_owner": lambda en, s_, b, n, nd, f: [(s_, "v", ("o", "OWNER"))] if b == SELF else None,
                    "configparserenhanceddata": lambda en, s_, b, n, nd, f: [(s_, "v", SELF)] if b == ("o", "OWNER") else None,
                    "data": fld("$data"), "_sections_checked": fld("$checked")}

    def parse(eng, st_, func, a, kw, nd, fid):
        s2 = st_.copy()
        eng.emit(s2, "parse", (tuple(a[1:]), tuple(sorted(kw.items()))), nd, fid)
        if a[1:] and a[1] == SEC and not scn.infile:
            return [(s2, "x", ("exc", "KeyError", ()))]
        h = s2.heap["self"]
        fl = dict(h.fields)
        fl["$data"], fl["$checked"] = DATA2, CHECKED2
        s2.heap["self"] = h._clone(fl, h.items)
        return [(s2, "v", ("s", "PARSED"))]
    e.opaque["parse_section"] = parse
    e.opaque["_discard_section"] = "event"
    F = st.facts
    for x in (("pm", "has_section", CPD, (SEC,)), ("pm", "has_section", CPD, (SEC,), ()), ("cmp", "In", SEC, CPD), ("cmp", "In", SEC, ("pm", "sections", CPD, ())), ("cmp", "In", SEC, ("pm", "sections", CPD, (), ()))):
        F[x] = scn.infile
        F[("isnone", x)] = False
    F[("cmp", "In", SEC, CHECKED)] = scn.checked
    F[("cmp", "In", SEC, DATA)] = scn.indata
    F[("cmp", "In", SEC, CHECKED2)] = True
    F[("cmp", "In", SEC, DATA2)] = True
    for d in (DATA, DATA2):
        F[("cmp", "In", OPT, ("sub", d, SEC))] = scn.opt
    F[("isnone", OPT)] = False
    F[("isnone", SEC)] = False
    res = k.run(e, k.p.method(CPE if owner else VIEW, method), [own if owner else s] + args, st)
    return e, res


def parses(trace, what=SEC):
    return [ev for ev in flat(trace) if ev.kind == "parse" and ev.a[0] and ev.a[0][0] == what]


def truthval(e, st, v):
    t = e.static_truth(st, v)
    if t is None and v[0] == "cmp":
        t = st.facts.get(v)
    return t


def made(e, st, ev):
    """the entry (section, content) of the data that the event makes; None when it is of another form"""
    if ev.kind == "seti" and ev.a[0] == DATA:
        v = e.reify(st, ev.a[2])
        return (ev.a[1], ("D",) if v == ("dict", ()) else v)
    if ev.kind == "mut" and ev.a[0] == "update" and ev.a[1] == DATA and len(ev.a[2]) == 1:
        d = e.reify(st, ev.a[2][0])
        if d[0] == "D" and len(d) == 2 and d[1][0] == "kv":
            return (d[1][1], e.reify(st, d[1][2]))
    if ev.kind == "mut" and ev.a[0] == "setdefault" and ev.a[1] == DATA:
        return (ev.a[2][0], ("nothing",) if st.facts.get(("cmp", "In", ev.a[2][0], DATA)) else ("D",))
    return None


def guard_view(k):
    """the names the view rules hang on are still used by the code"""
    import ast
    c = k.p.cls(VIEW)
    names = {n.attr for f in c.methods.values() for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
    for pr in c.props.values():
        for f in (getattr(pr, "getter", None), getattr(pr, "setter", None)):
            if f is not None:
                names |= {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
    need = {"_sections_checked", "data", "_owner"}
    if not need <= names:
        raise Undecided("the view no longer uses %s" % sorted(need - names))


A1 = Scn(True, False, False)
A2 = Scn(True, False, True)
B1 = Scn(True, True, True)
C1 = Scn(False, False, False)
D1 = Scn(True, True, False)


def C11(k):
    V = VIEW
    reads = (("has_section", [SEC]), ("options", [SEC]), ("__getitem__", [SEC]), ("get", [SEC]), ("items", [SEC]), ("has_option", [SEC, OPT]), ("get", [SEC, OPT]))
    with k.rule("R1", "a section of the file that was not parsed yet is parsed exactly once before it is looked at, also when another section's `use` already left an entry for it", V):
        guard_view(k)
        for scn in (A1, A2):
            for m, args in reads:
                fn = "%s.%s" % (V, m)
                e, res = view_run(k, scn, m, args)
                n = 0
                for st, oc in res:
                    ps = parses(st.trace)
                    if oc[0] == "raise" and exc_name(oc[1]) is None:
                        continue
                    k.ob(len(ps) == 1, fn, "%s(%s): the section is parsed %d times (%s)" % (m, ", ".join(map(show, args)), len(ps), scn.text()), path=path_text(st, oc))
                    if oc[0] == "return":
                        n += 1
                        k.ob(not mentions(oc[1], DATA), fn, "%s: answers from the data before parsing" % m, path=path_text(st, oc))
                k.ob(n > 0, fn, "%s(%s) never answers (%s)" % (m, ", ".join(map(show, args)), scn.text()))
    with k.rule("R2", "a parsed section is answered from the parsed data without parsing again", V):
        guard_view(k)
        for m, args in reads:
            fn = "%s.%s" % (V, m)
            for scn, d in ((B1, DATA), (A1, DATA2), (A2, DATA2)):
                e, res = view_run(k, scn, m, args)
                for st, oc in res:
                    if scn is B1:
                        k.ob(not parses(st.trace), fn, "%s: a parsed section is parsed again" % m, path=path_text(st, oc))
                    if oc[0] == "raise":
                        if exc_name(oc[1]) is not None:
                            k.ob(False, fn, "%s raises %s for an existing section and option" % (m, show(oc[1])), path=path_text(st, oc))
                        continue
                    v = oc[1]
                    want = ("sub", d, SEC)
                    if m in ("has_section", "has_option"):
                        t = truthval(e, st, v)
                        if t is None:
                            k.undecided(fn, "answer %s" % show(v))
                        else:
                            k.ob(t is True, fn, "%s answers False for something that exists" % m, path=path_text(st, oc))
                    elif len(args) == 2:
                        k.ob(v == ("sub", want, OPT), fn, "%s gives %s" % (m, show(v)), path=path_text(st, oc))
                    elif m == "items":
                        k.ob(v == want or (v[0] == "pm" and v[1] == "items" and v[2] == want) or (v[0] != "c" and mentions(v, want)), fn, "items gives %s" % show(v), path=path_text(st, oc))
                    else:
                        k.ob(v == want or (v[0] == "pm" and v[2] == want), fn, "%s gives %s" % (m, show(v)), path=path_text(st, oc))
    with k.rule("R3", "a missing section or option is reported: has_* is False, the others raise KeyError", V):
        guard_view(k)
        for m, args in reads:
            fn = "%s.%s" % (V, m)
            e, res = view_run(k, C1, m, args)
            for st, oc in res:
                if m == "has_section":
                    t = truthval(e, st, oc[1]) if oc[0] == "return" else None
                    if oc[0] == "return" and t is None:
                        k.undecided(fn, "answer %s" % show(oc[1]))
                    else:
                        k.ob(oc[0] == "return" and t is False, fn, "has_section of an unknown section ends with %s" % show(oc[1]), path=path_text(st, oc))
                elif m == "has_option":
                    t = truthval(e, st, oc[1]) if oc[0] == "return" else False
                    if t is None:
                        k.undecided(fn, "answer %s" % show(oc[1]))
                    else:
                        k.ob(t is False, fn, "has_option in an unknown section answers True", path=path_text(st, oc))
                else:
                    k.ob(oc[0] == "raise" and exc_name(oc[1]) == "KeyError", fn, "%s of an unknown section ends with %s instead of KeyError" % (m, show(oc[1])), path=path_text(st, oc))
        for scn in (Scn(True, True, True, False), Scn(True, False, False, False)):
            e, res = view_run(k, scn, "has_option", [SEC, OPT])
            for st, oc in res:
                if oc[0] == "return":
                    t = truthval(e, st, oc[1])
                    if t is None:
                        k.undecided(V + ".has_option", "answer %s" % show(oc[1]))
                    else:
                        k.ob(t is False, V + ".has_option", "has_option answers True for a missing option", path=path_text(st, oc))
            e, res = view_run(k, scn, "get", [SEC, OPT])
            for st, oc in res:
                k.ob(oc[0] == "raise" and (exc_name(oc[1]) in ("KeyError", None)), V + ".get", "get of a missing option gives %s" % show(oc[1]), path=path_text(st, oc))
    with k.rule("R4", "while a section is being parsed its entry is not parsed again", V):
        guard_view(k)
        for scn in (D1, B1):
            for m, args in (("has_section", [SEC]), ("set", [SEC, OPT, ("s", "VAL")]), ("add_section", [SEC])):
                e, res = view_run(k, scn, m, args)
                for st, oc in res:
                    k.ob(not parses(st.trace), V + "." + m, "%s parses a section whose parse is under way (endless recursion)" % m, path=path_text(st, oc))
                    if scn is D1 and m == "has_section" and oc[0] == "return":
                        k.ob(truthval(e, st, oc[1]) is not True, V + "." + m, "has_section is True although there is no data", path=path_text(st, oc))
        e, res = view_run(k, B1, "set", [SEC, OPT, ("s", "VAL")])
        for st, oc in res:
            w = [ev for ev in flat(st.trace) if ev.kind in ("seti", "mut", "delit", "setf", "xm")]
            if oc[0] != "return":
                k.ob(False, V + ".set", "set raises %s" % show(oc[1]), path=path_text(st, oc))
                continue
            hit = [ev for ev in w if ev.kind == "seti" and tuple(ev.a[:3]) == (("sub", DATA, SEC), OPT, ("s", "VAL"))]
            k.ob(len(hit) == 1 and len([x for x in w if mentions(x.a, DATA)]) == 1, V + ".set", "set on an existing section does %s" % [repr(x) for x in w], path=path_text(st, oc))
        e, res = view_run(k, B1, "add_section", [SEC])
        for st, oc in res:
            w = [ev for ev in flat(st.trace) if ev.kind in ("seti", "mut", "delit", "setf") and mentions(ev.a, DATA)]
            k.ob(not w, V + ".add_section", "add_section on an existing section drops its options: %s" % [repr(x) for x in w], path=path_text(st, oc))
        for scn, force in ((B1, True), (D1, True), (D1, False)):
            e, res = view_run(k, scn, "add_section", [SEC, C(force)])
            for st, oc in res:
                w = [ev for ev in flat(st.trace) if ev.kind in ("seti", "mut", "delit", "setf") and mentions(ev.a, DATA)]
                got = [made(e, st, ev) for ev in w]
                if any(g is None for g in got):
                    k.undecided(V + ".add_section", "add_section(force=%s) does %s" % (force, [repr(x) for x in w]))
                    continue
                k.ob(got == [(SEC, ("D",))], V + ".add_section", "add_section(force=%s), %s: no new, empty section is made: %s" % (force, scn.text(), [repr(x) for x in w]), path=path_text(st, oc))
    with k.rule("R5", "keys, sections, iteration and length cover every section of the file, parsed or not", V):
        guard_view(k)
        allsec = ("pm", "sections", CPD, ())
        for m, args in (("keys", []), ("sections", [C(False)]), ("sections", []), ("__len__", []), ("__iter__", [])):
            fn = "%s.%s" % (V, m)
            e, res = view_run(k, A1, m, args)
            for st, oc in res:
                if oc[0] != "return":
                    k.ob(False, fn, "%s raises %s" % (m, show(oc[1])), path=path_text(st, oc))
                    continue
                k.ob(not [ev for ev in flat(st.trace) if ev.kind == "parse"], fn, "%s parses sections" % m, path=path_text(st, oc))
                v = e.reify(st, oc[1])
                t = v[2][0] if m == "__len__" and v[0] == "pc" and v[1] == "len" else v
                r = covers_all(t, allsec)
                if r is None:
                    k.undecided(fn, "%s gives %s" % (m, show(v)))
                else:
                    k.ob(r, fn, "%s gives %s, not all sections of the file" % (m, show(v)), path=path_text(st, oc))
    with k.rule("R6", "asking for parsed sections parses each section that was not parsed; `force` parses every section again", V):
        guard_view(k)
        for m, args, force in (("sections", [C(True)], False), ("items", [], False), ("items", [NONE], False), ("sections", [C("force")], True), ("sections", [C("FORCE")], True),
                               ("parse_all_sections", [], False)):
            own = m == "parse_all_sections"
            fn = "%s.%s" % ("ConfigParserEnhanced" if own else V, m)
            e, res = view_run(k, A1, m, args, owner=own)
            n = 0
            for st, oc in res:
                if oc[0] != "return":
                    continue
                n += 1
                lps = [ev for ev in st.trace if ev.kind == "loop" and mentions(ev.a[0], CPD)]
                if not lps:
                    k.ob(False, fn, "%s(%s) parses nothing" % (m, ", ".join(map(show, args))), path=path_text(st, oc))
                    continue
                par = False
                for lp in lps:
                    for p in lp.a[2]:
                        ps = [ev for ev in flat(p.trace) if ev.kind == "parse"]
                        par = par or bool(ps)
                        if p.outcome[0] in ("break", "return"):
                            k.ob(False, fn, "%s stops before all sections are parsed" % m, lp.loc)
                        if p.outcome[0] in ("next", "continue") and not ps:
                            chk = [b for a, b in p.facts if a[0] == "cmp" and a[1] == "In" and a[3] in (CHECKED, CHECKED2) or a[0] == "cmp" and a[1] == "In" and a[3][0] in ("phi", "lv")]
                            k.ob(not force and True in chk, fn, "%s(%s) skips a section that %s" % (m, ", ".join(map(show, args)), "must be parsed again" if force else "was not parsed"), lp.loc)
                        for ev in ps:
                            k.ob(ev.a[0] and ev.a[0][0][0] in ("elem", "key"), fn, "%s parses %s" % (m, show(ev.a[0])), ev.loc)
                k.ob(par, fn, "%s(%s) parses nothing" % (m, ", ".join(map(show, args))), path=path_text(st, oc))
            k.ob(n > 0, fn, "%s never answers" % m)
        for bad, ex in ((C("all"), "ValueError"), (C(3), "TypeError"), (NONE, "TypeError")):
            e, res = view_run(k, A1, "sections", [bad])
            for st, oc in res:
                k.ob(oc[0] == "raise" and exc_name(oc[1]) == ex, V + ".sections", "sections(parse=%s) ends with %s" % (show(bad), show(oc[1])), path=path_text(st, oc))


def covers_all(t, allsec):
    n = 0
    while n < 10:
        n += 1
        if t[:4] == allsec[:4]:
            return True
        if t[0] == "pc" and t[1] in ("list", "tuple", "iter"):
            t = t[2][0]
            continue
        if t[0] == "L" and len(t) == 2 and t[1][0] == "each":
            alts = t[1][3]
            if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0][0] == "elem":
                src = t[1][2]
                t = src[0] if isinstance(src[0], tuple) else src
                continue
            return False
        if t[0] == "sub" and t[2][0] == "slice" or t[0] == "L" and len(t) > 1 and all(x[0] == "i" or x[0] == "elem" for x in t[1:]):
            return False
        if t in (("pm", "keys", DATA, ()), DATA) or (t[0] == "pm" and t[1] in ("keys",) and t[2] == DATA):
            return False
        return None
    return None


# ============================================================ C12
def pure_ext(eng, st, name, args, kwargs, node, fid):
    return [(st, "v", ("pc", name, tuple(eng.reify(st, a) for a in args), ()))]


def load_run(k, imp=False, has=None):
    e = k.engine(opaque=QUIET, implicit_raises=imp)
    st = State()
    s = e.named_obj(st, "self", k.p.cls(CPE))
    e.attr_specs = const_specs(inifilepath=FILES, configparser_delimiters=DELIMS)
    if has is not None:
        st.facts[("has", SELF, "_configparserdata")] = has
    return e, get_prop(k, e, st, s, "configparserdata")


def table_load(k, kinds, order=None):
    """load a list of files of the given kinds; `order`: the list names them in this order, with repetitions"""
    e = k.engine(opaque=QUIET)
    st = State()
    s = e.named_obj(st, "self", k.p.cls(CPE))
    paths = ["/f/%d.ini" % i for i in range(len(kinds))]
    kind = dict(zip(paths, kinds))
    e.fold_paths = True
    e.path_exists = lambda t: {"file": True, "dir": "dir"}.get(kind.get(t), False)
    lst = e.named_obj(st, "FL", None, fresh=True, kind="list", items=tuple(("i", ("pp", paths[n])) for n in (range(len(paths)) if order is None else order)))
    e.attr_specs = const_specs(inifilepath=lst, configparser_delimiters=DELIMS)
    st.facts[("has", SELF, "_configparserdata")] = False
    return e, get_prop(k, e, st, s, "configparserdata")


def reads_of(st, READS):
    """(paths read in order, encodings, parser objects) or (None, ..) when not understood"""
    got, encs, objs, openf = [], [], [], {}

    def text(v):
        return v[1] if v[0] == "pp" else v[2] if is_str_c(v) else None
    for ev in flat(st.trace):
        if ev.kind == "loop":
            if any(x.kind == "xm" and x.a[0] in READS for x in flat([ev])):
                return None, [], []
        elif ev.kind == "x" and ev.a[0] in ("open", "io.open"):
            mode = ev.a[1][1] if len(ev.a[1]) > 1 else dict(ev.a[2]).get("mode", C("r"))
            openf[("res", ev.a[3])] = (text(ev.a[1][0]), dict(ev.a[2]).get("encoding", NONE))
        elif ev.kind == "xm" and ev.a[0] == "open" and ev.a[1][0] == "pp":
            openf[("res", ev.a[4])] = (ev.a[1][1], dict(ev.a[3]).get("encoding", NONE))
        elif ev.kind == "xm" and ev.a[0] in READS:
            objs.append(ev.a[1])
            src = strip_list(ev.a[2][0]) if ev.a[2] else strip_list(dict(ev.a[3]).get("filenames", NONE))
            if ev.a[0] == "read":
                encs.append(dict(ev.a[3]).get("encoding", ev.a[2][1] if len(ev.a[2]) > 1 else NONE))
                if src[0] == "o" and st.heap[src[1]].kind == "list" and all(x[0] == "i" for x in st.heap[src[1]].items):
                    ps = [text(x[1]) for x in st.heap[src[1]].items]
                elif src[0] in ("L", "tuple"):
                    ps = [text(x) for x in ([y[1] if y[0] == "i" else y for y in src[1:]] if src[0] == "L" else src[1])]
                else:
                    ps = [text(src)]
                if None in ps:
                    return None, [], []
                got += ps
            elif ev.a[0] in ("read_file", "readfp") and src[0] == "res" and ("res", src[2]) in openf:
                p, en = openf[("res", src[2])]
                if p is None:
                    return None, [], []
                got.append(p)
                encs.append(en)
            else:
                return None, [], []
    return got, encs, objs


def partial_of(t, whole):
    """the iterated term is built from slices of the list only"""
    if not isinstance(t, tuple):
        return False
    slices = [x for x in subterms(t) if x[0] == "sub" and isinstance(x[2], tuple) and x[2][0] == "slice" and x[1] == whole and x[2] not in (("slice", NONE, NONE, NONE), ("slice", NONE, NONE))]
    bare = [x for x in t[1:] if x == whole] if t[0] != "sub" else []
    return bool(slices) and not bare


def strip_list(t):
    while t[0] == "pc" and t[1] in ("list", "tuple", "iter") and len(t[2]) == 1:
        t = t[2][0]
    return t


def C12(k):
    from r_tools import outcome
    fn = "ConfigParserEnhanced.configparserdata"
    READS = ("read", "read_file", "read_string", "readfp", "read_dict")
    cases = [c for n in range(0, 5 if k.tier == "thorough" else 4) for c in itertools.product(("file", "dir", "none"), repeat=n)] + [("file",) * 6, ("file",) * 5 + ("none",), ("file",) * 5 + ("dir",)]
    runs = [(c, table_load(k, c)) for c in cases]
    with k.rule("R1", "the parser is built with the chosen delimiters, accepts keys without value and keeps the case of keys, before any file is read", fn):
        for c, (e, res) in runs:
            if "file" not in c or set(c) != {"file"}:
                continue
            for st, oc in res:
                if oc[0] != "return":
                    continue
                tr = list(flat(st.trace))
                ctor = [ev for ev in tr if ev.kind == "x" and ev.a[0].split(".")[-1] in ("ConfigParser", "RawConfigParser", "SafeConfigParser")]
                rd = [i for i, ev in enumerate(tr) if ev.kind == "xm" and ev.a[0] in READS]
                if not ctor or not rd:
                    k.undecided(fn, "no parser is seen to be built and read into")
                    continue
                obj = tr[rd[0]].a[1]
                mine = [ev for ev in ctor if obj == ("res",) + obj[1:] and obj[0] == "res" and ev.a[3] == obj[2]] or ctor[-1:]
                kw = dict(mine[0].a[2])
                if any(x is None for x in kw) or mine[0].a[1]:
                    k.undecided(fn, "arguments of the parser not understood")
                    continue
                k.ob(strip_list(kw.get("delimiters", NONE)) == DELIMS, fn, "the parser is built with delimiters %s" % show(kw.get("delimiters", NONE)), mine[0].loc)
                k.ob(kw.get("allow_no_value") == C(True), fn, "keys without value are not accepted", mine[0].loc)
                for opt, std in (("inline_comment_prefixes", (None, ())), ("comment_prefixes", (("#", ";"),)), ("empty_lines_in_values", (True,)), ("defaults", (None, {})), ("dict_type", None), ("converters", (None, {}))):
                    if opt in kw:
                        v = outcome(e, st, "v", kw[opt])
                        if std is None or v is None:
                            k.undecided(fn, "the parser is built with %s = %s" % (opt, show(kw[opt])))
                        else:
                            k.ob(any(v[1] == x or isinstance(v[1], (list, tuple)) and tuple(v[1]) == x for x in std), fn, "the parser is built with %s = %s" % (opt, show(kw[opt])), mine[0].loc)
                if "strict" in kw:
                    k.ob(kw["strict"] != C(False), fn, "repeated options in a section are silently overwritten", mine[0].loc)
                ds = kw.get("default_section", C("DEFAULT"))
                k.ob(ds != C("DEFAULT") and not mentions(ds, ("attr", SELF, "_default_section_name")), fn, "the stock parser applies its own default section %s" % show(ds), mine[0].loc)
                ox = [ev for ev in tr[:rd[0]] if ev.kind == "seta" and ev.a[1] == "optionxform" and ev.a[0] == obj]
                if not ox:
                    k.ob(False, fn, "the case of keys is not kept: optionxform is not replaced before reading", path=path_text(st, oc))
                    continue
                for word in ("MixedCase", "UP", "low er"):
                    try:
                        r = e.call_value(st, ox[-1].a[2], [C(word)], {}, k.p.cls(CPE).node, None)
                        vals = [x[2] for x in r if x[1] == "v"]
                    except Exception as ex:
                        k.undecided(fn, "optionxform %s: %s" % (show(ox[-1].a[2]), ex))
                        break
                    if len(vals) == 1 and is_c(vals[0]):
                        k.ob(vals[0] == C(word), fn, "the key %r becomes %s" % (word, show(vals[0])), ox[-1].loc)
                    else:
                        k.undecided(fn, "optionxform %s" % show(ox[-1].a[2]))
    with k.rule("R2", "a missing file or a directory anywhere in the list raises IOError before anything is read; an empty list raises ValueError", fn):
        for c, (e, res) in runs:
            if set(c) == {"file"}:
                continue
            for st, oc in res:
                rd = [ev for ev in flat(st.trace) if ev.kind == "xm" and ev.a[0] in READS]
                what = "a list of (%s)" % ", ".join(c) if c else "an empty list"
                want = ("IOError", "OSError", "FileNotFoundError", "IsADirectoryError") if c else ("ValueError",)
                if oc[0] == "raise" and exc_name(oc[1]) in (None, "obj"):
                    k.undecided(fn, "%s raises %s" % (what, show(oc[1])))
                    continue
                k.ob(oc[0] == "raise" and exc_name(oc[1]) in want, fn, "%s ends with %s" % (what, show(oc[1])), path=path_text(st, oc))
                k.ob(not rd, fn, "%s: files are read before the bad one is noticed" % what, path=path_text(st, oc))
    with k.rule("R3", "all files of the list are read, once each, in order, as UTF-8, into the object that is returned and kept", fn):
        lists = [(tuple(range(len(c))), r) for c, r in runs if set(c) == {"file"}]
        lists += [(o, table_load(k, ("file",) * (max(o) + 1), o)) for o in ((0, 0), (0, 1, 0), (1, 0), (2, 0, 1), (0, 1, 1, 0), (3, 3, 1, 2, 0))]
        for c, (e, res) in lists:
            for st, oc in res:
                if oc[0] == "raise" and any(ev.kind == "xm" and ev.a[0] in READS for ev in flat(st.trace)):
                    continue        # the text of a file is refused
                if not k.ob(oc[0] == "return", fn, "%d existing files end with %s" % (len(c), show(oc[1])), path=path_text(st, oc)):
                    continue
                got, encs, objs = reads_of(st, READS)
                if got is None:
                    k.undecided(fn, "what is read is not understood")
                    continue
                k.ob(got == ["/f/%d.ini" % i for i in c], fn, "of the list %s the files %s are read" % (list(c), got), path=path_text(st, oc))
                for enc in encs:
                    k.ob(is_str_c(enc) and enc[2].lower().replace("-", "").replace("_", "") in ("utf8",), fn, "files are decoded as %s, not UTF-8" % show(enc))
                k.ob(set(objs) == {oc[1]} and oc[1][0] == "res", fn, "returns %s, not the parser that read the files" % show(oc[1]), path=path_text(st, oc))
                kept = [n for n, v in st.heap["self"].fields.items() if v == oc[1]]
                k.ob(kept, fn, "the loaded configuration is not kept", path=path_text(st, oc))
        e, res = load_run(k, has=True)
        for st, oc in res:
            if any(ev.kind == "x" for ev in flat(st.trace)):
                k.ob(False, fn, "a loaded configuration is loaded again on the next access", path=path_text(st, oc))
    with k.rule("R5", "the file list keeps every given path, in order; one path and a list of paths are both accepted", "ConfigParserEnhanced.inifilepath"):
        fn2 = "ConfigParserEnhanced.inifilepath"
        for val, lab in ((("s", "ONE"), "one"), (None, "list"), (None, "again")):
            e = k.engine(opaque=dict(QUIET, _reset_configparserdata="silent", **{"ext:Path": pure_ext, "ext:pathlib.Path": pure_ext}))
            st = State()
            s = e.named_obj(st, "self", k.p.cls(CPE))
            if val is None:
                v = e.named_obj(st, "VL", None, kind="list", items=(("i", ("s", "F1")), ("i", ("s", "F2")), ("i", ("s", "F3" if lab == "list" else "F1"))))
            else:
                v = val
                st.facts[("isinst", v, ("ext", "list"))] = False
                st.facts[("isinst", v, ("ext", "tuple"))] = False
            for r in e.set_attr(st, s, "inifilepath", v, k.p.cls(CPE).node, None):
                if r[1] == "x":
                    continue
                cur = e.reify(r[0], r[0].heap["self"].fields.get("_inifilepath", NONE))
                if cur == NONE:
                    k.undecided(fn2, "the list is kept elsewhere")
                    continue
                want = ["ONE"] if lab == "one" else ["F1", "F2", "F3" if lab == "list" else "F1"]
                got = [sorted(x[1] for x in subterms(i) if x[0] == "s") for i in cur[1:]] if cur[0] == "L" else None
                if got is None:
                    k.undecided(fn2, "the kept list is %s" % show(cur))
                else:
                    k.ob(got == [[w] for w in want], fn2, "assigning %s keeps %s" % (want, show(cur)))
        names = ("/d/a:b.ini", "/d/x y.ini ", "~/x.ini", "$HOME/${X}.ini", "/D/b.INI", "/d/a,b;c.ini", "/d/[1]*.ini")
        for names_ in [(n,) for n in names] + [names]:
            e = k.engine(opaque=dict(QUIET, _reset_configparserdata="silent"))
            e.fold_paths = True
            st = State()
            s = e.named_obj(st, "self", k.p.cls(CPE))
            v = C(names_[0]) if len(names_) == 1 else e.named_obj(st, "VL", None, kind="list", items=tuple(("i", C(n)) for n in names_))
            res = list(e.set_attr(st, s, "inifilepath", v, k.p.cls(CPE).node, None))
            k.ob(any(r[1] != "x" for r in res), fn2, "assigning %s always raises an exception" % (list(names_),))
            for r in res:
                if r[1] == "x":
                    continue
                cur = e.reify(r[0], r[0].heap["self"].fields.get("_inifilepath", NONE))
                items = [i[1] if i[0] == "i" else i for i in cur[1:]] if cur[0] == "L" else None
                if items is None:
                    k.undecided(fn2, "the kept list is %s" % show(cur))
                    continue
                got = [i[1] if i[0] == "pp" else i[2] if is_str_c(i) else None for i in items]
                if None in got:
                    odd = [x[1] for i in items for x in subterms(i) if x[0] == "pc" and x[1] in ("os.path.expandvars", "os.path.expanduser", "glob.glob", "os.path.normcase", "os.path.basename")]
                    odd += [x[1] for i in items for x in subterms(i) if x[0] == "pm" and x[1] in ("expanduser", "glob")]
                    if odd:
                        k.ob(False, fn2, "%s is applied to the paths of the list" % odd[0])
                    else:
                        k.undecided(fn2, "the kept list is %s" % show(cur))
                else:
                    k.ob(got == list(names_), fn2, "assigning %s keeps the files %s" % (list(names_), got))
    with k.rule("R6", "reading the file list before it is set raises ValueError", "ConfigParserEnhanced.inifilepath"):
        e = k.engine(opaque=QUIET)
        st = State()
        s = e.named_obj(st, "self", k.p.cls(CPE))
        st.facts[("has", SELF, "_inifilepath")] = False
        for st, oc in get_prop(k, e, st, s, "inifilepath"):
            k.ob(oc[0] == "raise" and exc_name(oc[1]) == "ValueError", "ConfigParserEnhanced.inifilepath", "it ends with %s" % show(oc[1]), path=path_text(st, oc))


# ============================================================ C13
def sec_ok_run(k, do_raise, empty):
    e = k.engine(opaque=dict(QUIET, get_known_operations_message="pure"))
    st = State()
    s = e.named_obj(st, "self", k.p.cls(CPE))
    e.attr_specs = const_specs(configparserenhanceddata=CPED, inifilepath=FILES)
    for t in (("pm", "get", CPED, (SEC,)), ("pm", "get", CPED, (SEC,), ()), ("sub", CPED, SEC), ("pm", "options", CPED, (SEC,)), ("pm", "options", CPED, (SEC,), ())):
        st.facts[t] = not empty
    e.decide_hook = None
    return e, k.run(e, k.p.method(CPE, "assert_section_all_options_handled"), [s, SEC] + ([] if do_raise is None else [C(do_raise)]), st)


def C13(k):
    from r_exc import is_output
    fn = "ConfigParserEnhanced.assert_section_all_options_handled"
    with k.rule("R1", "a section with options left over is reported by a SERIOUS ValueError event (when raising is asked for) and a non-zero result; a clean one gives 0 and no event", fn):
        for do_raise in (None, True, False):
            for empty in (True, False):
                e, res = sec_ok_run(k, do_raise, empty)
                n = 0
                for st, oc in res:
                    ece = [ev for ev in flat(st.trace) if ev.kind == "ece"]
                    if oc[0] == "raise" and not ece:
                        k.ob(exc_name(oc[1]) in (None, "KeyError"), fn, "raises %s" % show(oc[1]), path=path_text(st, oc))
                        continue
                    n += 1
                    if empty:
                        k.ob(not ece and oc == ("return", C(0)), fn, "a section without leftover options ends with %s and %d events" % (show(oc[1]), len(ece)), path=path_text(st, oc))
                        continue
                    want = do_raise is not False
                    k.ob(len(ece) == (1 if want else 0), fn, "leftover options with do_raise=%s give %d events" % (do_raise, len(ece)), path=path_text(st, oc))
                    for ev in ece:
                        k.ob(ev.a[0] == C("SERIOUS") and show(ev.a[1]) == "ValueError", fn, "leftover options give the event %s, %s" % (show(ev.a[0]), show(ev.a[1])), ev.loc)
                    if oc[0] == "return":
                        v = oc[1]
                        t = e.static_truth(st, v)
                        if v[0] == "c":
                            k.ob(bool(v[2]), fn, "leftover options give the result %s" % show(v), path=path_text(st, oc))
                        elif t is False:
                            k.ob(False, fn, "leftover options give an empty result", path=path_text(st, oc))
                        else:
                            k.ob(True, fn)
                k.ob(n > 0, fn, "no path decides (do_raise=%s)" % do_raise)
    fn = "ConfigParserEnhanced.assert_file_all_sections_handled"
    with k.rule("R2", "the file check looks at every section, goes on after a bad one, and reports any bad section by one SERIOUS ValueError event and a non-zero result", fn):
        for bad in (False, True):
            e = k.engine(opaque=dict(QUIET, get_known_operations_message="pure"))
            st = State()
            s = e.named_obj(st, "self", k.p.cls(CPE))
            e.attr_specs = const_specs(configparserenhanceddata=CPED, inifilepath=FILES)

            def spec(eng, st_, func, a, kw, nd, fid, bad=bad):
                s2 = st_.copy()
                eng.emit(s2, "call", (func.qual, tuple(a), tuple(sorted(kw.items())), 0, ("snap", ())), nd, fid)
                return [(s2, "v", C("unhandled") if bad else C(0))]
            e.opaque["assert_section_all_options_handled"] = spec
            f = k.p.method(CPE, "assert_file_all_sections_handled")
            res = k.run(e, f, [s], st)
            for st, oc in res:
                ece = [ev for ev in flat(st.trace) if ev.kind == "ece"]
                calls = [ev for ev in flat(st.trace) if ev.kind == "call"]
                lps = [ev for ev in st.trace if ev.kind == "loop" and mentions(ev.a[0], CPED) and any(x.kind == "call" for x in flat([ev]))]
                if oc[0] == "raise" and not ece:
                    continue
                if len(lps) != 1:
                    k.ob(False, fn, "the sections of the file are not walked", path=path_text(st, oc)) if not calls else k.undecided(fn, "walk not understood")
                    continue
                src = strip_list(lps[0].a[0][0])
                okc = src == CPED or (src[0] == "pm" and src[1] in ("sections", "keys") and src[2] == CPED)
                k.ob(True, fn, "walks %s" % show(src)) if okc else k.undecided(fn, "walks %s" % show(src))
                for p in lps[0].a[2]:
                    c = [ev for ev in flat(p.trace) if ev.kind == "call"]
                    if p.outcome[0] in ("next", "continue"):
                        k.ob(len(c) == 1 and c[0].a[1][1][0] in ("elem", "key"), fn, "a section is skipped when %s" % facts_text(p.facts), lps[0].loc)
                        for ev in c:
                            b = bound(k.p, ev)
                            k.ob(b.get("do_raise") == C(False), fn, "the first bad section ends the check of the others", ev.loc)
                    elif p.outcome[0] in ("break", "return"):
                        k.ob(False, fn, "the check ends before all sections were looked at", lps[0].loc)
                if bad:
                    # zero iterations give 0; otherwise one event and a non-zero result
                    if oc[0] == "return" and not ece:
                        v = oc[1]
                        zero = e.decide_eq(st, v, C(0))
                        k.ob(zero is True or v == C(0) or any(b and a[0] == "eqc" and a[2] == C(0) for a, b in st.facts.items()), fn, "bad sections give the result %s without an event" % show(v), path=path_text(st, oc))
                    for ev in ece:
                        k.ob(ev.a[0] == C("SERIOUS") and show(ev.a[1]) == "ValueError", fn, "bad sections give the event %s, %s" % (show(ev.a[0]), show(ev.a[1])), ev.loc)
                    if oc[0] == "return" and ece:
                        k.ob(oc[1] != C(0) and e.decide_eq(st, oc[1], C(0)) is not True, fn, "bad sections give the result 0", path=path_text(st, oc))
                else:
                    k.ob(not ece and oc[0] == "return" and (oc[1] == C(0) or e.decide_eq(st, oc[1], C(0)) is True), fn, "a file without leftover options ends with %s and %d events" % (show(oc[1]), len(ece)), path=path_text(st, oc))
            if bad:
                k.ob(any(ev.kind == "ece" for st, oc in res for ev in flat(st.trace)), fn, "bad sections never cause an event")
    with k.rule("R3", "for every number and position of bad sections (up to %d sections) there is an event and a non-zero result exactly when one is bad" % (6 if k.tier == "thorough" else 4), fn):
        for n in range(7 if k.tier == "thorough" else 5):
            for bits in itertools.product((False, True), repeat=n):
                e = k.engine(opaque=dict(QUIET, get_known_operations_message="pure", debug_message="event"))
                st = State()
                s = e.named_obj(st, "self", k.p.cls(CPE))
                lst = e.named_obj(st, "SECS", None, fresh=True, kind="list", items=tuple(("i", C("S%d" % i)) for i in range(n)))
                e.attr_specs = const_specs(configparserenhanceddata=lst, inifilepath=FILES)
                e.method_specs = {m: (lambda en, s_, b, nm, a, kw, nd, f: [(s_, "v", lst)] if b == lst else None) for m in ("sections", "keys")}

                def one(eng, st_, func, a, kw, nd, fid, bits=bits):
                    s2 = st_.copy()
                    i = int(cval(a[1])[1:])
                    eng.emit(s2, "LOOK", (a[1],), nd, fid)
                    return [(s2, "v", C("unhandled <%d>" % i) if bits[i] else C(0))]
                e.opaque["assert_section_all_options_handled"] = one
                for st2, oc in k.run(e, k.p.method(CPE, "assert_file_all_sections_handled"), [s], st):
                    ece = [ev for ev in flat(st2.trace) if ev.kind == "ece"]
                    looks = [cval(ev.a[0]) for ev in flat(st2.trace) if ev.kind == "LOOK"]
                    case = "sections %s" % "".join("x" if b else "." for b in bits)
                    if not looks and n:
                        raise Undecided("the walk over the sections has a form the rule does not know")
                    said = [x for ev in flat(st2.trace) if is_output(ev) or ev.kind == "ece" or ev.kind == "call" and ev.a[0].endswith("debug_message") and bound(k.p, ev).get("debug_level", NONE) == C(0) for x in [repr(ev.a)]]
                    mute = [i for i, b in enumerate(bits) if b and not any("unhandled <%d>" % i in x for x in said)]
                    k.ob(not mute, fn, "%s (x: bad): the reports of the sections %s are not shown" % (case, mute), path=path_text(st2, oc))
                    k.ob(sorted(looks) == ["S%d" % i for i in range(n)], fn, "%s: looked at %s" % (case, looks), path=path_text(st2, oc))
                    k.ob(len(ece) == (1 if any(bits) else 0), fn, "%s (x: bad): %d events" % (case, len(ece)), path=path_text(st2, oc))
                    if oc[0] == "return":
                        z = e.decide_eq(st2, oc[1], C(0)) if not is_c(oc[1]) else cval(oc[1]) == 0
                        if z is None:
                            k.undecided(fn, "result %s" % show(oc[1])[:60])
                        else:
                            k.ob(bool(z) == (not any(bits)), fn, "%s (x: bad): result %s" % (case, show(oc[1])), path=path_text(st2, oc))
    fn = "ConfigParserEnhanced.assert_section_all_options_handled"
    with k.rule("R4", "the result and the event's message name every leftover option, and the message every known operation", fn):
        n_ok = lambda t: t is not None and is_str_c(t)

        def event(en, s_, f, a, kw, nd, fid):
            b = dict(zip([x.arg for x in f.node.args.args], a))
            b.update(kw)
            s2 = s_.copy()
            en.emit(s2, "ece", (b.get("event_type", NONE), b.get("exception_type", NONE), en.reify(s2, b["message"]) if b.get("message") else None), nd, fid)
            return [(s2, "v", NONE)]
        for keys in ([], ["k"], ["op a"], ["a", "b"], ["key-1 x", "k2", "zz"], ["k%d" % i for i in range(12)], ["K", "k"]):
            for vals in (C("v"), NONE, C("")):
                for do_raise in (True, False):
                    e = k.engine(opaque=dict(QUIET, exception_control_event=event, get_known_operations=lambda en, s_, f, a, kw, nd, fid: [(s_, "v", ("o", "OPS"))]))
                    e.unroll = e.unroll_while = 400
                    st = State()
                    s = e.named_obj(st, "self", k.p.cls(CPE))
                    dat = e.named_obj(st, "SECDATA", None, fresh=True, kind="dict", items=tuple(("kv", C(x), vals) for x in keys))
                    view = e.named_obj(st, "VIEWDATA", None, fresh=True, kind="dict", items=(("kv", C("sec"), dat),))
                    e.named_obj(st, "OPS", None, fresh=True, kind="list", items=tuple(("i", C(x)) for x in ("opone", "op-two", "third")))
                    files = e.named_obj(st, "FILELIST", None, fresh=True, kind="list", items=(("i", C("/d/one.ini")),))
                    e.attr_specs = const_specs(configparserenhanceddata=view, inifilepath=files)
                    what = "options %s, do_raise=%s" % (keys, do_raise)
                    outs, texts = [], []
                    for st2, oc in k.run(e, k.p.method(CPE, "assert_section_all_options_handled"), [s, C("sec"), C(do_raise)], st):
                        ece = [ev for ev in flat(st2.trace) if ev.kind == "ece"]
                        if oc[0] == "raise" and not ece:
                            outs.append("raises %s" % (exc_name(oc[1]) or show(oc[1])))
                            continue
                        for ev in ece:
                            texts.append((ev.a[2] if len(ev.a) > 2 else None, keys + ["opone", "op-two", "third"]))
                        if oc[0] == "return" and (not is_c(oc[1]) or isinstance(oc[1][2], str)):
                            texts.append((oc[1], keys))
                        outs.append("answers")
                    k.table(outs, "answers", fn, what)
                    for t, need in texts:
                        if not n_ok(t):
                            k.undecided(fn, "%s: text %s" % (what, show(t or NONE)[:60]))
                            continue
                        miss = [x for x in need if x not in cval(t)]
                        k.ob(not miss, fn, "%s: %s not named in the message" % (what, miss))


# ============================================================ C14
def unroll_run(k, section, own=False, imp=False, space=True):
    e = k.engine(opaque=dict(QUIET), implicit_raises=imp)
    st = State()
    s = e.named_obj(st, "self", k.p.cls(CPE), fields={"_exception_control_level": C(3)})
    e.attr_specs = const_specs(inifilepath=FILES, configparser_delimiters=DELIMS, default_section_name=("s", "DEFSEC"))
    e.attr_specs["configparserenhanceddata"] = lambda en, s_, b, n, nd, f: [(s_, "v", ("attr", b, "VIEW"))] if b[0] == "o" else None
    e.record_fresh = True
    st.facts[("isnone", SEC)] = False
    st.facts[("isnone", FILES)] = False
    st.facts[("isinst", FILES, ("ext", "list"))] = True
    kw = {"section": section, "space_around_delimiters": C(space), "use_base_class_parser": C(not own)}
    return e, k.run(e, k.p.method(CPE, "unroll_to_str"), [s], st, kw)


def unroll_table(k, fn, model, ask, own, space):
    """the text unrolled from closed data, read back by the stock parser"""
    from r_tools import config_dict, view_methods
    e = k.engine(opaque=dict(QUIET))
    e.calm = True
    st = State()
    s = e.named_obj(st, "self", k.p.cls(CPE), fields={"_exception_control_level": C(3)})
    view = config_dict(e, st, "VIEWDATA", model)
    view_methods(e)
    subs = {cval(x[1]): x[2] for x in st.heap[view[1]].items}

    def section(en, s_, b, name, args, kwargs, node, fid):
        if b != view or not args or not is_c(args[0]):
            return None
        if cval(args[0]) not in subs:
            return [(s_, "x", ("exc", "KeyError", (args[0],)))]
        d = subs[cval(args[0])]
        if name == "items":
            return [(s_, "v", ("pm", "items", d, ()))]
        return en.get_item(s_, d, args[1], node, fid) if len(args) > 1 else [(s_, "v", d)]
    e.method_specs.update(items=section, options=section, get=section)
    e.attr_specs = const_specs(inifilepath=FILES, configparser_delimiters=DELIMS, default_section_name=("s", "DEFSEC"))
    e.attr_specs["configparserenhanceddata"] = lambda en, s_, b, n, nd, f: [(s_, "v", view)] if b[0] == "o" else None
    st.facts[("isinst", FILES, ("ext", "list"))] = True
    st.facts[("isnone", FILES)] = False
    what = "sections %s, asked for %s" % (list(model), "all" if ask is None else repr(ask))
    for st2, oc in k.run(e, k.p.method(CPE, "unroll_to_str"), [s], st, {"section": C(ask), "space_around_delimiters": C(space), "use_base_class_parser": C(not own)}):
        if ask is not None and ask not in model:
            if oc[0] == "raise" and exc_name(oc[1]) is None:
                k.undecided(fn, "raises %s" % show(oc[1]))
            else:
                k.ob(oc[0] == "raise" and exc_name(oc[1]) == "KeyError", fn, "%s ends with %s" % (what, show(oc[1])), path=path_text(st2, oc))
            continue
        if oc[0] != "return":
            k.ob(False, fn, "%s raises %s" % (what, show(oc[1])), path=path_text(st2, oc)) if exc_name(oc[1]) else k.undecided(fn, show(oc[1]))
            continue
        if not is_str_c(oc[1]):
            k.undecided(fn, "the unrolled text is not understood: %s" % show(oc[1])[:120])
            continue
        want = [(n, [(a, b or "") for a, b in d.items()]) for n, d in model.items() if ask in (None, n)]
        got = read_back(oc[1][2])
        k.ob(got == want, fn, "%s: the text reads back as %s instead of %s" % (what, got, want), path=path_text(st2, oc))


def read_back(text):
    import configparser
    p = configparser.ConfigParser(delimiters=(":",), allow_no_value=True, default_section="\0", interpolation=None)
    p.optionxform = str
    try:
        p.read_string(text)
    except configparser.Error as ex:
        return "%s: %s" % (type(ex).__name__, str(ex)[:80])
    return [(n, [(a, b or "") for a, b in p[n].items()]) for n in p.sections()]


def views_in(trace):
    out = set()
    for ev in flat(trace):
        for t in subterms(ev.a):
            if t[0] == "attr" and t[2] == "VIEW":
                out.add(t[1])
    return out


def C14(k):
    fn = "ConfigParserEnhanced.unroll_to_str"
    with k.rule("R1", "the caller's exception control level is the same after unrolling as before, whether it succeeds or fails", fn):
        for section in (NONE, SEC):
            for own in (False, True):
                e, res = unroll_run(k, section, own, imp=True)
                for st, oc in res:
                    lv = st.heap["self"].fields.get("_exception_control_level")
                    k.ob(lv == C(3), fn, "after unrolling (%s parser, %s) the level is %s instead of 3" % ("own" if own else "base", oc[0], show(lv) if lv else "?"), path=path_text(st, oc))
                    if not own:
                        w = [ev for ev in flat(st.trace) if ev.kind in ("setf", "delf") and ev.a[0] == SELF]
                        k.ob(not w, fn, "unrolling with the base parser changes this parser: %s" % [repr(x) for x in w], path=path_text(st, oc))
    with k.rule("R2", "the base parser used for unrolling reads the same files with the same delimiters and default section", fn):
        n = 0
        for st, oc in unroll_run(k, NONE)[1] + unroll_run(k, SEC)[1]:
            if oc[0] != "return":
                continue
            vs = views_in(st.trace)
            fresh = [v for v in vs if v != SELF]
            if not fresh:
                k.ob(False, fn, "the default unrolling walks this parser's own handlers' data", path=path_text(st, oc))
                continue
            n += 1
            for o in fresh:
                h = st.heap.get(o[1])
                if h is None:
                    k.undecided(fn, "the base parser is not known at the end")
                    continue
                k.ob(h.cls is not None and h.cls.name == CPE, fn, "unrolls with a %s" % (h.cls.name if h.cls else "?"))
                fl = {a: e.reify(st, b) for a, b in h.fields.items()}
                k.ob(mentions(fl.get("_inifilepath", NONE), FILES) or any(mentions(x, FILES) for x in fl.values()), fn, "the base parser does not read this parser's files", path=path_text(st, oc))
                k.ob(any(mentions(x, DELIMS) for x in fl.values()), fn, "the base parser does not get this parser's delimiters", path=path_text(st, oc))
                k.ob(any(mentions(x, ("s", "DEFSEC")) for x in fl.values()), fn, "the base parser does not get this parser's default section name", path=path_text(st, oc))
        k.ob(n > 0, fn, "no path unrolls")
        e, res = unroll_run(k, NONE, own=True)
        for st, oc in res:
            if oc[0] == "return":
                k.ob(views_in(st.trace) <= {SELF}, fn, "unrolling with the own parser walks another parser", path=path_text(st, oc))
    with k.rule("R3", "every section (or the one asked for) is written once with all its options, in order; a section that does not exist raises KeyError", fn):
        opts = {"a": "1", "B b": "x y", "none": None, "empty": "", "C": "v", "d": "w"}
        models = [{}, {"S": {}}, {"S": {"a": "1"}}, {"S": dict(opts)}, {"Z": {"b": "2", "a": "1"}, "A": {"a": "3"}}, {"S1": {"a": "1"}, "S2": {}, "S3": dict(opts), "S0": {"z": "0", "a": "9"}},
                  {"T%d" % i: {"k%d" % j: "v%d" % (i * j) for j in range(i)} for i in range(6, 0, -1)}]
        for m in models:
            for ask in [None] + list(m) + ["missing", ""]:
                for own in (False, True):
                    for space in (True, False):
                        unroll_table(k, fn, m, ask, own, space)
        for own in (False, True):
            e, res = unroll_run(k, NONE, own)
            for st, oc in res:
                if oc[0] == "return":
                    check_text(k, fn, e, st, oc, own)
    with k.rule("R5", "write puts exactly the unrolled text, once, into the given file object, handing its options on", "ConfigParserEnhanced.write"):
        fn2 = "ConfigParserEnhanced.write"
        e = k.engine(opaque=dict(QUIET, unroll_to_str="event"))
        st = State()
        s = e.named_obj(st, "self", k.p.cls(CPE))
        FH = ("s", "FH")
        res = k.run(e, k.p.method(CPE, "write"), [s, FH, ("s", "SPACE"), SEC, ("s", "BASE")], st)
        n = 0
        for st, oc in res:
            if oc[0] != "return":
                continue
            n += 1
            w = [ev for ev in flat(st.trace) if ev.kind == "xm" and ev.a[1] == FH]
            u = [ev for ev in flat(st.trace) if ev.kind == "call" and ev.a[0].endswith("unroll_to_str")]
            if not k.ob(len(u) == 1 and len(w) == 1 and w[0].a[0] == "write", fn2, "unrolls %d times and writes %d times" % (len(u), len(w)), path=path_text(st, oc)):
                continue
            if w:
                k.ob(w[0].a[2] and w[0].a[2][0][0] == "res" and w[0].a[2][0][1] == "unroll_to_str", fn2, "writes %s" % show(w[0].a[2][0]), w[0].loc)
            b = bound(k.p, u[0])
            for n2, t in (("section", SEC), ("space_around_delimiters", ("s", "SPACE")), ("use_base_class_parser", ("s", "BASE"))):
                k.ob(b.get(n2) == t, fn2, "the option %s is handed on as %s" % (n2, show(b.get(n2, NONE))), u[0].loc)
            k.ob(oc[1] == C(0), fn2, "returns %s" % show(oc[1]))
        k.ob(n > 0, fn2, "write never succeeds")


def check_text(k, fn, e, st, oc, own):
    """each option contributes its key, the delimiter and its value"""
    v = oc[1]
    txt = repr(v)
    cats = [t for t in subterms(v) if t[0] == "eachcat" and any(x[0] == "pm" and x[1] in ("items",) or x[0] == "sub" for x in subterms(t[2]))]
    inner = [t for t in cats if not any(t is not u and t in subterms(u[3]) and False for u in cats)]
    inner = [t for t in cats if not any(x[0] == "eachcat" for x in subterms(t[3]))]
    if not inner:
        k.undecided(fn, "the unrolled text is not understood: %s" % show(v)[:120])
        return
    for t in subterms(v):
        if t[0] != "pm" or not any(x in inner or x[0] in ("key", "val", "elem") for x in subterms(t[2])):
            continue
        if t[1] in ("strip", "rstrip", "lstrip") and t[3]:
            if t[3][0] == NONE or is_str_c(t[3][0]):
                k.ob(t[3][0] == NONE or not t[3][0][2].strip(), fn, "the characters %s are cut off the text of options" % show(t[3][0]))
            else:
                k.undecided(fn, "the text is cut by %s" % show(t[3][0]))
        elif t[1] in ("lower", "upper", "title", "capitalize", "casefold", "swapcase"):
            k.ob(False, fn, "the letter case of the text is changed by %s" % t[1])
    for t in inner:
        for facts, parts in t[3]:
            ts = list(subterms(parts))
            key = any(x[0] == "key" or x[0] == "sub" and x[2] == C(0) and x[1][0] == "elem" for x in ts)
            val = any(x[0] == "val" or x[0] == "sub" and x[2] == C(1) and x[1][0] == "elem" for x in ts)
            none = any(a[0] == "isnone" and b for a, b in facts)
            k.ob(key, fn, "an option is written without its key when %s" % facts_text(facts, 3))
            k.ob(val or none or any(x[0] == "elem" for x in ts), fn, "an option is written without its value when %s" % facts_text(facts, 3))
            lit = [x[2] for x in ts if is_str_c(x)]
            k.ob(any(":" in x or "=" in x for x in lit), fn, "key and value are written without delimiter")
            k.ob(any("\n" in x for x in lit), fn, "an option is written without line end")
