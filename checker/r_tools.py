"""Keyword files, system determination and environment matching: decision tables read off the abstract interpretation."""
import itertools
import re

from kit import *   # noqa: F401,F403
from r_exc import is_output
from terms import *   # noqa: F401,F403
from r_core import QUIET
from pools import words, counts

SELF = ("o", "self")


# ---------------------------------------------------------------- helpers
def config_dict(e, st, name, secs):
    """closed {section: {key: text}} with constant contents"""
    items = []
    for i, (s, d) in enumerate(secs.items()):
        o = e.named_obj(st, "%s#%d" % (name, i), None, fresh=True, kind="dict", items=tuple(("kv", C(a), C(b)) for a, b in d.items()))
        items.append(("kv", C(s), o))
    return e.named_obj(st, name, None, fresh=True, kind="dict", items=tuple(items))


def view_methods(e):
    """the section/option questions of the enhanced data view, answered from a closed dictionary"""
    def sections(en, s, b, name, args, kwargs, node, fid):
        if b[0] == "o" and s.heap[b[1]].kind == "dict":
            s = s.copy()
            return [(s, "v", en.new_obj(s, "list", node, fid, items=[("i", x[1]) for x in s.heap[b[1]].items]))]
        return None

    def has_section(en, s, b, name, args, kwargs, node, fid):
        if b[0] == "o" and s.heap[b[1]].kind == "dict" and is_c(args[0]):
            return [(s, "v", C(any(x[1] == args[0] for x in s.heap[b[1]].items)))]
        return None

    def has_option(en, s, b, name, args, kwargs, node, fid):
        if b[0] == "o" and s.heap[b[1]].kind == "dict" and len(args) == 2 and all(is_c(a) for a in args):
            for x in s.heap[b[1]].items:
                if x[1] == args[0]:
                    return [(s, "v", C(any(y[1] == args[1] for y in s.heap[x[2][1]].items)))]
            return [(s, "x", ("exc", "KeyError", (args[0],)))]      # asking for an option parses the section
        return None

    def options(en, s, b, name, args, kwargs, node, fid):
        if b[0] == "o" and s.heap[b[1]].kind == "dict" and len(args) == 1:
            for x in s.heap[b[1]].items:
                if x[1] == args[0]:
                    s = s.copy()
                    return [(s, "v", en.new_obj(s, "list", node, fid, items=[("i", y[1]) for y in s.heap[x[2][1]].items]))]
        return None
    e.method_specs.update(sections=sections, has_section=has_section, has_option=has_option, options=options)


def tool_engine(k, secs_by_name=None, attrs=None, opaque=None, **kw):
    """engine whose ConfigParserEnhanced views are closed dictionaries; the messages' text is irrelevant"""
    op = dict(QUIET, get_formatted_msg="pure", get_msg_for_list="pure", get_msg_showing_supported_flags="pure",
              get_msg_showing_supported_environments="pure")
    op.update(opaque or {})
    e = k.engine(opaque=op, max_steps=400000, **kw)
    view_methods(e)
    e.unroll = 400
    e.unroll_while = 400
    return e


def attr_const(e, **m):
    for n, v in m.items():
        e.attr_specs[n] = (lambda v: lambda en, s, b, nm, nd, f: [(s, "v", v)] if b == SELF else None)(v)


def pyval(e, st, v):
    """constant value of a term, or raises Undecided"""
    if is_c(v):
        return v[2]
    if v[0] == "tuple":
        return tuple(pyval(e, st, x) for x in v[1])
    if v[0] == "o":
        h = st.heap[v[1]]
        if h.kind in ("list", "set") and all(x[0] == "i" for x in h.items):
            l = [pyval(e, st, x[1]) for x in h.items]
            return l if h.kind == "list" else sorted(l)
        if h.kind == "dict" and all(x[0] == "kv" for x in h.items):
            return {pyval(e, st, x[1]): pyval(e, st, x[2]) for x in h.items}
    raise Undecided("result %s is not a constant of the table" % show(v)[:80])


def outcome(e, st, kind, v):
    """('return', value) | ('raise', class name) | None when the analysis does not know it"""
    if kind in ("x", "raise"):
        return ("raise", exc_name(v)) if v[0] == "exc" else None
    try:
        return ("return", pyval(e, st, v))
    except Undecided:
        return None


def seq(e, st, steps):
    """run (state -> [(state, kind, value)]) steps one after the other; stop at the first exception.
    -> [(state, kind, value)] of the last step (or the exception)"""
    cur = [(st, "v", NONE)]
    for f in steps:
        nxt = []
        for (s, kd, v) in cur:
            if kd == "x":
                nxt.append((s, kd, v))
            else:
                nxt.extend(f(s))
        cur = nxt
    return cur


def node_of(f):
    return f.node


# ---------------------------------------------------------------- K01: keyword files
SPECIAL = ("SELECT_ONE", "SELECT_MANY")


def ref_values(text):
    out = []
    for line in (text or "").split("\n"):
        v = line.split("#", 1)[0].strip()
        if v:
            out.append(v)
    return out


def ref_bad(values, keys):
    if len(set(values)) != len(values):
        return "a duplicate"
    if any(re.search(r"[\s_]", v) for v in values if v not in SPECIAL):
        return "white space or an underscore"
    if any(v in keys for v in values):
        return "the name of a key"
    return None


LINES = ("a", "b", "a  # note", "# only a comment", "", "a b", "a\tb", "c_d", "_", "k2", "SELECT_ONE", "SELECT_MANY", "SELECT_ONE x", "a-1.2+x", "k2 # c", "d#e f_g", "KEY", "k2x", "select_one", "#a", "ab", "Ab", "n\u00a0b", "m\u2003b")


def kp_run(k, cls, meth, args, secs, **kw):
    e = tool_engine(k, **kw)
    st = State()
    cfg = config_dict(e, st, "CFG", secs)
    attr_const(e, config=cfg)
    s = e.named_obj(st, "self", k.p.cls(cls), fields={"config_filename": C("/x/file.ini")})
    return e, k.run(e, k.p.method(cls, meth), [s] + [C(a) for a in args], st)


def texts(tier):
    pool = LINES
    for a in pool:
        yield a
    for a, b in itertools.product(pool, repeat=2):
        yield a + "\n" + b
    small = ("a", "b", "c_d", "# x", "", "a # y", "k2", "SELECT_ONE") if tier == "quick" else LINES[:14]
    for t in itertools.product(small, repeat=3):
        yield "\n".join(t)
    yield None
    yield "\na\n\nb # t\n# c\n\nc"
    yield "a\nb\nc\nd\ne\na"
    yield "a\nb\nc\nd\ne\nf_g"
    yield "a\nb\nc\nd\ne\nk1"
    yield "k1\na"


def word_texts(ws):
    for w in ws:
        yield w
        yield "b\n" + w + "  # note\nc"
        yield w + "\nb\n" + w
        yield "c\n" + w + " z"
    good = [w for w in ws if not re.search(r"[\s_#]", w)]
    yield "\n".join(good[::2])
    yield "\n".join(reversed(good[1::2]))


def K01(k):
    fn = "KeywordParser.get_values_for_section_key"
    keys = ("k1", "k2", "KEY")
    with k.rule("R1", "the values of a key are its lines in order without comments and blank lines; a repeated value, a value with white space or `_` "
                "(other than SELECT_ONE/SELECT_MANY) and a value equal to a key of the section end the program", fn):
        for t in itertools.chain(texts(k.tier), word_texts(words(k.p, "KeywordParser", sep=""))):
            vals = ref_values(t)
            bad = ref_bad(vals, keys)
            e, res = kp_run(k, "KeywordParser", "get_values_for_section_key", ["sec", "k1"], {"other": {"z": "q"}, "sec": {"k1": t, "k2": "zz", "KEY": None}})
            want = ("raise", "SystemExit") if bad else ("return", vals)
            k.table([outcome(e, st, *oc) for st, oc in res], want, fn, "the text %r%s" % (t, " (it has %s)" % bad if bad else ""))
    fn = "KeywordParser.get_key_for_section_value"
    with k.rule("R2", "looking up a value gives the key whose values contain exactly it and ends the program when there is none", fn):
        secs = {"sec": {"k1": "a\nb", "k2": "ab # a1\nc", "k3": None, "k4": "d"}, "oth": {"q": "zz"}}
        for v, want in (("a", "k1"), ("b", "k1"), ("ab", "k2"), ("c", "k2"), ("d", "k4"), ("zz", None), ("k1", None), ("A", None), ("a1", None), ("", None)):
            e, res = kp_run(k, "KeywordParser", "get_key_for_section_value", ["sec", v], secs)
            k.table([outcome(e, st, *oc) for st, oc in res], ("return", want) if want else ("raise", "SystemExit"), fn, "value %r" % v)
        ws = [w for w in words(k.p, "KeywordParser") if "#" not in w and not re.search(r"\s", w)]
        for w in ws:
            near = [x for x in (w + "x", "x" + w, w + ",", w + "-1", w.swapcase(), w[:-1], w[1:]) if x and x != w and "#" not in x and x not in ("_",)]
            near = list(dict.fromkeys(x for x in near if x not in ("kq", "kr", "ks")))
            texts_ = {"kq": "\n".join(near[:4]), "kr": "qq\n" + w, "ks": "\n".join(near[4:]) or None}
            for v, want in ((w, "kr"), (near[0], "kq" if near[0] in near[:4] else "ks"), (w + "zz", None)):
                e, res = kp_run(k, "KeywordParser", "get_key_for_section_value", ["sec", v], {"sec": texts_})
                k.table([outcome(e, st, *oc) for st, oc in res], ("return", want) if want else ("raise", "SystemExit"), fn, "value %r of %s" % (v, texts_))
            e, res = kp_run(k, "KeywordParser", "get_key_for_section_value", ["sec", w], {"sec": {a: b for a, b in texts_.items() if a != "kr"}})
            k.table([outcome(e, st, *oc) for st, oc in res], ("raise", "SystemExit"), fn, "value %r, which only stands inside others" % w)
    fn = "KeywordParser.config"
    with k.rule("R3", "the values come from the configuration file of the object itself", fn):
        e = tool_engine(k, opaque={"ConfigParserEnhanced": "event"})
        st = State()
        FILE = ("s", "FILE")
        s = e.named_obj(st, "self", k.p.cls("KeywordParser"), fields={"config_filename": FILE})
        st.facts[("has", s, "_config")] = False
        n = 0
        p = k.p.find_member(k.p.cls("KeywordParser"), "config")
        for st2, oc in k.run(e, p[1].getter, [s], st):
            news = [ev for ev in st2.trace if ev.kind == "new" and ev.a[0].endswith("ConfigParserEnhanced")]
            if oc[0] != "return":
                continue
            n += 1
            k.ob(len(news) == 1 and (news[0].a[1] + tuple(v for _, v in news[0].a[2]))[:1] == (FILE,), fn, "parser objects made: %s" % [show(x) for ev in news for x in ev.a[1]])
            k.ob(bool(news) and mentions(oc[1], ("s", news[0].a[3], news[0].a[0])), fn, "the data is that parser's (%s)" % show(oc[1])[:80])
        if not n:
            raise Undecided("no normal path")


# ---------------------------------------------------------------- K02: option selection
def ref_select(flags, build):
    """flags: [(name, type, options)] -> ('return', str, dict) or ('raise', type)"""
    tokens = build.split("_")
    allopts = [o for _, _, os_ in flags for o in os_]
    if any(t not in SPECIAL for _, t, _ in flags):
        return ("raise", "ValueError")
    if len(set(allopts)) != len(allopts):
        return ("raise", "SystemExit")
    sel = {}
    for n, t, os_ in flags:
        found = [o for o in os_ if o in tokens]
        if t == "SELECT_ONE" and len(found) > 1:
            return ("raise", "ValueError")
        sel[n] = os_[0] if not found else found[0] if len(found) == 1 else sorted(found)
    return ("return", sel)


def flat_sel(sel):
    return "".join("_" + o for v in sel.values() for o in (v if isinstance(v, list) else [v]))


def ckp_new(k, flags, build):
    e = tool_engine(k)
    st = State()
    sec = {}
    for n, t, os_ in flags:
        sec[n] = "\n".join(((t,) if t else ()) + tuple(os_))
    cfg = config_dict(e, st, "CFG", {"configure-flags": sec})
    attr_const(e, config=cfg)
    cls = k.p.cls("ConfigKeywordParser")
    s = e.named_obj(st, "self", cls, fresh=True)
    init = k.p.find_member(cls, "__init__")[1]
    res = e.call_func(st, init, [s, C(build), C("/x/flags.ini")], {}, init.node, None, inline_always=True)
    k.paths += len(res)
    return e, s, res


FLAGS = [("use-mpi", "SELECT_ONE", ("mpi", "no-mpi")), ("lib-type", "SELECT_MANY", ("static", "shared", "part")), ("build", "SELECT_ONE", ("debug", "release", "rel"))]
BUILDS = ("", "mpi", "no-mpi", "machine_no-mpi_gcc", "shared", "static_shared", "shared_static", "part_shared_static", "debug_release", "mpi_no-mpi",
          "release_shared_no-mpi", "no-mpi_release_part", "nompi", "MPI", "no-mpi_x_debug", "rel", "release", "xrelease_rel", "debug-rel", "rel_rel",
          "shared_shared", "mpi_mpi", "debug_release_rel", "a_static_b_part_c_release_d", "no-mpi__release", "_release_", "use-mpi", "lib-type_build", "part_static", "SELECT_ONE", "release-1_no-mpi", "x_ debug_y", "x_debug \ty", "static shared_rel", " no-mpi ", "a_no-mpi _part", "release_ ")


def K02(k):
    cls = k.p.cls("ConfigKeywordParser")
    fn = "ConfigKeywordParser.selected_options"

    def node():
        return k.p.find_member(cls, "selected_options")[1].getter.node

    def ask(e, s, name):
        return lambda st: e.get_attr(st, s, name, node(), None)

    got_of = outcome

    def final(e, s, res, steps):
        out = []
        for (st, kd, v) in res:
            if kd == "x":
                out.append((st, kd, v))
            else:
                out.extend(seq(e, st, steps))
        return out
    with k.rule("R1", "per flag: the options that stand between `_` in the build name; the first listed one when none does; more than one is an error for SELECT_ONE "
                "and all of them, sorted, for SELECT_MANY", fn):
        variants = [FLAGS, list(reversed(FLAGS)), FLAGS[:1], [("z", "SELECT_MANY", ("zz", "aa"))] + FLAGS[2:]]
        for flags in variants:
            for b in BUILDS + (("aa_zz", "zz_aa") if flags[0][0] == "z" else ()):
                want = ref_select(flags, b)
                e, s, res = ckp_new(k, flags, b)
                k.table([got_of(e, *r) for r in final(e, s, res, [ask(e, s, "selected_options")])], want, fn, "build name %r" % b)
                e, s, res = ckp_new(k, flags, b)
                w = ("return", flat_sel(want[1])) if want[0] == "return" else want
                k.table([got_of(e, *r) for r in final(e, s, res, [ask(e, s, "selected_options_str")])], w, "ConfigKeywordParser.selected_options_str", "build name %r" % b)
        ws = [w for w in words(k.p, "config_keyword_parser") if "#" not in w and w not in SPECIAL]
        for i in range(0, len(ws) - 5, 3):
            g = ws[i:i + 6]
            for ty in SPECIAL:
                flags = [("f1", ty, tuple(g[:3])), ("f2", "SELECT_MANY", tuple(g[3:]))]
                for b in ("", g[2], g[1] + "_" + g[0], "_".join(reversed(g)), g[5] + "_" + g[3], g[0] + "x_" + g[4], "y-" + g[1], (g[1] + "_" + g[4]).swapcase()):
                    want = ref_select(flags, b)
                    for name in ("selected_options", "selected_options_str"):
                        e, s, res = ckp_new(k, flags, b)
                        w = want if name == "selected_options" or want[0] == "raise" else ("return", flat_sel(want[1]))
                        k.table([got_of(e, *r) for r in final(e, s, res, [ask(e, s, name)])], w, "ConfigKeywordParser." + name, "flags %s, build name %r" % (flags, b))
        for n in counts(k.p, "config_keyword_parser"):
            if n < 2 or n > 130:
                continue
            many = tuple("o%d" % j for j in range(n))
            flags = [("f%d" % j, "SELECT_ONE", ("p%d" % j, "q%d" % j)) for j in range(n if n < 70 else 2)] + [("m", "SELECT_MANY", many)]
            for b in ("", many[-1], "_".join(reversed(many)), "_".join("q%d" % j for j in range(min(n, 70))))[:4 if n < 70 else 3]:
                want = ref_select(flags, b)
                e, s, res = ckp_new(k, flags, b)
                k.table([got_of(e, *r) for r in final(e, s, res, [ask(e, s, "selected_options")])], want, fn, "%d options, build name %r" % (n, b[:40]))
    with k.rule("R2", "a flag whose list does not begin with SELECT_ONE or SELECT_MANY and an option listed for several flags are errors", fn):
        bads = [[("f", "ANY", ("x", "y"))], [("f", None, ("x", "y"))], FLAGS + [("g", "select-one", ("q",))],
                [("f", "SELECT_ONE", ("x", "y")), ("g", "SELECT_MANY", ("y", "z"))], [("f", "SELECT_ONE", ("x", "y")), ("g", "SELECT_ONE", ("z", "x"))],
                [("f", "SELECT_MANY", ("x", "y")), ("g", "SELECT_MANY", ("z", "w")), ("h", "SELECT_ONE", ("u", "x"))], FLAGS]
        for flags in bads:
            for b in ("", "x", "x_y", "z", "w"):
                want = ref_select([(n, t if t else "", o) for n, t, o in flags], b)
                e, s, res = ckp_new(k, flags, b)
                k.table([got_of(e, *r) for r in final(e, s, res, [ask(e, s, "selected_options")])], want, fn, "flags %s, build name %r" % (flags, b))
    with k.rule("R3", "a new build name is answered from the new name; a selection that failed fails again", fn):
        for b1, b2 in (("release", "no-mpi_rel"), ("static_shared", ""), ("debug_release", "rel"), ("", "debug_release"), ("mpi", "mpi")):
            want = ref_select(FLAGS, b2)
            w = ("return", flat_sel(want[1])) if want[0] == "return" else want
            w1 = ref_select(FLAGS, b1)
            w1 = ("return", flat_sel(w1[1])) if w1[0] == "return" else w1
            e, s, res = ckp_new(k, FLAGS, b1)
            first = [x for (st, kd, v) in res for x in ask(e, s, "selected_options_str")(st)]
            k.table([got_of(e, *y) for x in first for y in ask(e, s, "selected_options_str")(x[0])], w1, fn, "asked twice for %r" % b1)
            k.table([got_of(e, *y) for x in first for z in e.set_attr(x[0], s, "build_name", C(b2), node(), None) for y in ask(e, s, "selected_options_str")(z[0])],
                    w, fn, "build name %r then %r" % (b1, b2))
    fn = "ConfigKeywordParser.is_default_option"
    with k.rule("R4", "an option is a default exactly when it is the first of its flag", fn):
        for o in ("mpi", "no-mpi", "static", "shared", "debug", "rel", "x", "SELECT_ONE", "use-mpi"):
            e, s, res = ckp_new(k, FLAGS, "release_no-mpi")
            m = k.p.method("ConfigKeywordParser", "is_default_option")
            outs = []
            for (st, kd, v) in final(e, s, res, [lambda st: e.call_func(st, m, [s, C(o)], {}, m.node, None)]):
                outs.extend([outcome(e, st, kd, v)] if kd == "x" else [("return", b) for (s2, b) in e.truth(st, v)])
            k.table(outs, ("return", o in ("mpi", "static", "debug")), fn, "is %r a default" % o)
        ws = [w for w in words(k.p, "config_keyword_parser") if "#" not in w and w not in SPECIAL]
        for i in range(0, len(ws) - 5, 6):
            g = ws[i:i + 6]
            flags = [("f1", SPECIAL[i % 2], tuple(g[:2])), ("f2", SPECIAL[1 - i % 2], tuple(g[2:5])), ("f3", "SELECT_ONE", (g[5],))]
            for o in g:
                e, s, res = ckp_new(k, flags, "_".join(g[1:2]))
                outs = []
                for (st, kd, v) in final(e, s, res, [lambda st: e.call_func(st, m, [s, C(o)], {}, m.node, None)]):
                    outs.extend([outcome(e, st, kd, v)] if kd == "x" else [("return", b) for (s2, b) in e.truth(st, v)])
                k.table(outs, ("return", o in (g[0], g[2], g[5])), fn, "is %r a default of %s" % (o, flags))


# ---------------------------------------------------------------- D01: system determination
SYSTEMS = {"machine-1": {"mach1.*": None, "login\\d+\\.one  # comment": None}, "machine-2": {"^mach2$": None}, "m": {"mm+": None}, "machine": {"mach1x": None, "zz": None}}


def ref_host(systems, host):
    for s, d in systems.items():
        if s == "DEFAULT":
            continue
        for key in d:
            if re.search(key.split("#")[0].strip(), host):
                return s
    return None


def ref_system(systems, host, build, force):
    toks = build.lower().split("_")
    named = [s for s in systems if s != "DEFAULT" and s in toks]
    if len(named) > 1:
        return ("raise", "SystemExit")
    h = ref_host(systems, host)
    b = named[0] if named else None
    if h is None and b is None:
        return ("raise", "SystemExit")
    if b is not None and b != h and not force:
        return ("raise", "SystemExit")
    return ("return", b if b is not None else h)


def ds_new(k, systems, host, build, force, silent, record=None):
    e = tool_engine(k)
    st = State()
    data = config_dict(e, st, "SYS", systems)
    e.attr_specs["configparserenhanceddata"] = lambda en, s, b, n, nd, f: [(s, "v", data)]
    e.opaque["ConfigParserEnhanced"] = "event"
    e.opaque["ext:socket.gethostname"] = e.opaque["ext:platform.node"] = lambda en, s, name, args, kwargs, node, fid: [(s, "v", C(host))]
    e.opaque["ext:socket.getfqdn"] = lambda en, s, name, args, kwargs, node, fid: [(s, "v", C(host + ".fq.dn") if not args else args[0])]
    e.attr_hook = None
    cls = k.p.cls("DetermineSystem")
    s = e.named_obj(st, "self", cls, fresh=True)
    # the enhanced view of whatever parser object is made is the table's data
    orig = e.get_attr

    def get_attr(st_, b, name, node, fid):
        if name == "configparserenhanceddata" and b[0] != "o":
            return [(st_, "v", data)]
        return orig(st_, b, name, node, fid)
    e.get_attr = get_attr
    init = k.p.find_member(cls, "__init__")[1]
    res = e.call_func(st, init, [s, C(build), C("/x/systems.ini")], {"force_build_name": C(force), "silent": C(silent)}, init.node, None, inline_always=True)
    k.paths += len(res)
    return e, s, res


HOSTS = ("mach1", "mach1-login", "login7.one", "loginx.one", "mach2", "xmach2", "mach2b", "mmm", "nohost", "mach1x", "zz", "axx-mach1", "")
DBUILDS = ("", "machine-1", "machine-2_gcc", "gcc_machine-2", "Machine-2", "gcc_MACHINE-1_x", "machine-1_machine-2", "machine", "machine-11", "xmachine-2", "m", "m_machine", "machine-2-gcc", "gcc-machine-2",
           "m1", "machine-2_machine-2", "_machine-1_", "DEFAULT", "default")


PATTERNS = ("node\\d+(-login)?", "(a|b)c(d)?$", "(?:x|y)[0-9]{2}", "^(sk|eclipse)-", "ser\\d+(-ib)?\\.(one|two)", "[a-f]+\\d?-n", "n(o)(d)(e)x", "(?i)Cray", "t.*z", "\\bgw\\b")
PHOSTS = ("node12", "node12-login", "node", "ac", "acd", "bcx", "x07", "y7", "sk-1", "eclipse-2", "ask-1", "ser1.one", "ser22-ib.two", "ser.two", "ab-n", "c9-n2", "nodex", "cray7", "tz", "t-9-z", "gw", "agw", "gw.x")


def pattern_systems():
    """patterns with groups, alternatives, classes and anchors"""
    for n, host in itertools.product(range(len(PATTERNS)), PHOSTS):
        yield {"none": {"nohost": None}, "pat": {"zz9": None, PATTERNS[n]: None}, "rest": {PATTERNS[(n + 3) % len(PATTERNS)] + "  # note": None, "gw": None}}, host, "build", False


def word_systems(ws):
    """every word as the name of a system, as a part of the build name and as a host name with the pattern that finds it"""
    for i, w in enumerate(ws):
        low, v = w.lower(), ws[(i + 7) % len(ws)]
        pat = re.escape(w).replace("#", "[#]")
        if low != "default":
            systems = {"first": {"nohost": None}, low: {"^" + pat + "$": None}, "last": {pat + "1": None, "." + pat + "  # note": None}}
            if low in ("first", "last"):
                continue
            for build in (w, low + "_x", "x_" + w.upper(), w + "x", v, "x-" + w):
                for host, force in ((w, False), ("other", True), (w + "1", False), ("other", False)):
                    yield systems, host, build, force
        other = {"first": {"nohost": None}, "second": {pat: None}, "third": {"^" + pat: None, "zz": None}}
        for host in (w, "n" + w, w + ".x.org", "a." + w + ".b", v, "zz"):
            yield other, host, "build", False
            yield other, host, "third_x", False
    for n in (1, 2, 9, 20):
        yield {"s%d" % j: {"h%d$" % x: None for x in range(j * n, j * n + n)} for j in range(n)}, "h%d" % (n * n - 1), "b", False
        yield {"s%d" % j: {"h%d$" % j: None} for j in range(n)}, "h%d" % (n - 1), "_".join("x%d" % j for j in range(n)) + "_s%d" % (n - 1), False
        yield {"s%d" % j: {"h%d$" % j: None} for j in range(n)}, "h0", "s0_" * n, False


def D01(k):
    fn = "DetermineSystem.system_name"
    cls = k.p.cls("DetermineSystem")
    nd = k.p.find_member(cls, "system_name")[1].getter.node
    with k.rule("R1", "the system is the one named between `_` in the build name (in any case), else the first one with a hostname pattern that matches; no system, several "
                "systems in the build name, or a build name that contradicts the host without force end the program", fn):
        hosts = HOSTS if k.tier == "thorough" else HOSTS[:10]
        for systems in (SYSTEMS, dict([("DEFAULT", {"nohost": None})] + list(reversed(list(SYSTEMS.items()))))):
            for host, build, force in itertools.product(hosts, DBUILDS, (False, True)):
                want = ref_system(systems, host, build, force)
                e, s, res = ds_new(k, systems, host, build, force, False)
                k.table([outcome(e, *x) for (st, kd, v) in res for x in e.get_attr(st, s, "system_name", nd, None)], want, fn, "host %r, build name %r, force %s" % (host, build, force))
        for systems, host, build, force in itertools.chain(pattern_systems(), word_systems([w for w in words(k.p, "DetermineSystem") if not re.search(r"[\s#]", w)])):
            want = ref_system(systems, host, build, force)
            e, s, res = ds_new(k, systems, host, build, force, False)
            k.table([outcome(e, *x) for (st, kd, v) in res for x in e.get_attr(st, s, "system_name", nd, None)], want, fn, "systems %s, host %r, build name %r, force %s" % (systems, host, build, force))
    with k.rule("R2", "silent suppresses the messages, which otherwise name the system, and changes nothing else", fn):
        for host, build, force in itertools.product(("mach1", "mach2", "nohost"), ("", "machine-1", "machine-2_x", "machine-1_machine-2"), (False, True)):
            want = ref_system(SYSTEMS, host, build, force)
            e, s, res = ds_new(k, SYSTEMS, host, build, force, True)
            rs = [x for (st, kd, v) in res for x in e.get_attr(st, s, "system_name", nd, None)]
            k.table([outcome(e, *x) for x in rs], want, fn, "silent: host %r, build name %r, force %s" % (host, build, force))
            k.table([len([ev for ev in flat(x[0].trace) if ev.kind == "print"]) for x in rs], 0, fn, "silent: messages printed")
            if want[0] != "return":
                continue
            e, s, res = ds_new(k, SYSTEMS, host, build, force, False)
            rs = [x for (st, kd, v) in res for x in e.get_attr(st, s, "system_name", nd, None)]
            texts_ = [[ev for ev in flat(x[0].trace) if is_output(ev)] for x in rs]
            k.table([any(want[1] in repr(ev.a) for ev in t) for t in texts_], True, fn, "not silent: host %r, build name %r, force %s: the system is named in a message" % (host, build, force))
    with k.rule("R3", "asking again gives the same answer; a failed determination fails again", fn):
        for host, build, force in itertools.product(("mach1", "mach2", "nohost"), ("", "machine-1", "machine-2_x", "machine-1_machine-2"), (False, True)):
            e, s, res = ds_new(k, SYSTEMS, host, build, force, True)
            want = ref_system(SYSTEMS, host, build, force)
            k.table([outcome(e, *y) for (st, kd, v) in res for x in e.get_attr(st, s, "system_name", nd, None) for y in e.get_attr(x[0], s, "system_name", nd, None)],
                    want, fn, "asked again: host %r, build name %r, force %s" % (host, build, force))


# ---------------------------------------------------------------- L01: environment matching
ENVS = {"gnu": "gcc\ng++", "gnu-7.2.0": "gnu-7 # old\ngcc-7", "gnu-7.2.0-openmpi": "ompi", "intel-19": None, "intel-19_mpich": "mpich\nintel", "arm+x": "a.b", "x(y)": "p|q\n[z]"}
EBUILDS = ("", "gnu", "gnu-7.2.0", "gnu-7.2.0-openmpi", "gnu-7.2.0_openmpi", "sys_gnu-7.2.0_debug", "gcc", "gcc-7", "gnu-7", "gnu-7x2x0", "gnu-7.2.0-openmp", "intel-19_mpich", "intel-19_x", "x_intel-19_mpich_y",
           "intel-19-mpich", "intel", "mpich", "mpich_intel-19", "gcc_gnu-7.2.0", "ompi_gnu", "g++", "g+++", "a.b", "axb", "arm+x", "armmx", "x(y)", "xy", "p|q", "p", "q", "[z]", "z", "GNU", "Gcc", "gnux", "xgnu", "gnu_gnu-7.2.0",
           "gcc-7_gcc", "gcc_ompi", "intel_ompi", "a_b_c", "gnu-7.2.0-openmpi_gnu", "ompi_mpich", "_gcc_", "gnu-7_ompi", "sys", "intel_gnu-7", "q_gcc")


def tokmatch(name, build):
    return ("_" + name + "_") in ("_" + build + "_")


def ref_env(envs, build, system="sys"):
    al = {n: ref_values(t) for n, t in envs.items()}
    alla = [a for l in al.values() for a in l]
    if len(set(alla)) != len(alla):
        return ("raise", "SystemExit"), False
    m = sorted([n for n in envs if tokmatch(n, build)], key=len, reverse=True)
    if m:
        return ("return", system + "_" + m[0]), len(m) > 1 and len(m[0]) == len(m[1])
    m = sorted([a for a in alla if tokmatch(a, build)], key=len, reverse=True)
    if m:
        return ("return", system + "_" + [n for n in al if m[0] in al[n]][0]), len(m) > 1 and len(m[0]) == len(m[1])
    return ("raise", "SystemExit"), False


def ekp_ask(k, envs, build, name="qualified_env_name", again=False):
    e = tool_engine(k)
    st = State()
    cfg = config_dict(e, st, "CFG", {"other": {"gnu-9": "gcc-9"}, "sys": envs})
    attr_const(e, config=cfg)
    cls = k.p.cls("EnvKeywordParser")
    s = e.named_obj(st, "self", cls, fresh=True)
    init = k.p.find_member(cls, "__init__")[1]
    out = []
    nd = init.node
    for (st1, kd, v) in e.call_func(st, init, [s, C(build), C("sys"), C("/x/envs.ini")], {}, nd, None, inline_always=True):
        if kd == "x":
            out.append((st1, kd, v))
            continue
        for (st2, kd2, v2) in e.get_attr(st1, s, name, nd, None):
            if again:
                out.extend(e.get_attr(st2, s, name, nd, None))
            else:
                out.append((st2, kd2, v2))
    k.paths += len(out)
    return [outcome(e, *x) for x in out]


def word_envs(ws):
    """every word as an environment name and as an alias, alone and against longer, shorter and similar ones"""
    for i, w in enumerate(ws):
        v = ws[(i + 11) % len(ws)]
        if w == v or v in (w + "-long", w + "al", "zz"):
            continue
        envs = {"zz": "n" + w + "\nq" + v, w + "-long": w + "al\n" + "k" * 80, w: v if v not in (w + "-long", w, "zz") else None}
        if len({a for t in envs.values() for a in ref_values(t)} & set(envs)):
            continue
        for b in (w, w + "_x", "x_" + w + "_y", "x-" + w, w + "x", w.swapcase(), v, "a_" + v + "_" + "q" + v, v + "_" + w, w + "_" + w + "-long", w + "al_n" + w, "k" * 80 + "_" + v, "_" + w, w[:-1] or "y", "x" + v):
            yield envs, b
    for a in ("aa", "mm", "zz"):           # length decides, not the alphabet, the file order or the place in the build name
        for b_ in ("aaaa", "nnnnn", "zzzzzz"):
            for pair in ((a, b_), (b_, a)):
                for b in ("%s_%s" % pair, "%s_x_%s" % pair, "%s_%s" % (pair[1], pair[0])):
                    yield {n: None for n in pair}, b
                    yield {"e1": pair[0], "e2": pair[1]}, b
                    yield {"e1": "\n".join(pair), "e2": "w"}, b
    for pair in (("a-b-c", "abcdefgh"), ("a1-22", "abcdefg"), ("ABC", "abcdefg"), ("a.b.c", "abcdefgh"), ("z9.9", "a10.10"), ("a-1.2.3", "abcdefgh-1")):
        for p_ in (pair, pair[::-1]):
            for b in ("%s_%s" % p_, "x_%s_y_%s" % p_):
                for q in (pair, pair[::-1]):
                    yield {n: None for n in q}, b
                    yield {"e1": q[0], "e2": q[1]}, b
    for n in (9, 18):
        envs = {"e%d" % j: "\n".join("a%d-%d" % (j, x) for x in range(n)) for j in range(n)}
        for b in ("e%d" % (n - 1), "x_a%d-%d" % (n - 1, n - 1), "_".join("y%d" % j for j in range(n)) + "_e1", "a0-0_e%d" % (n - 1)):
            yield envs, b


def L01(k):
    fn = "EnvKeywordParser.qualified_env_name"
    with k.rule("R1", "the environment is the longest environment name that stands, literally, between `_` or the ends of the build name, else the environment of the longest such alias; none ends the program", fn):
        for envs in (ENVS, dict(reversed(list(ENVS.items())))):
            for b in EBUILDS:
                want, tie = ref_env(envs, b)
                if tie:
                    continue
                k.table(ekp_ask(k, envs, b), want, fn, "build name %r" % b)
                k.table(ekp_ask(k, envs, b, again=True), want, fn, "build name %r, asked again" % b)
        for envs, b in word_envs([w for w in words(k.p, "EnvKeywordParser", "KeywordParser") if not re.search(r"[\s#]", w)]):
            want, tie = ref_env(envs, b)
            if not tie:
                k.table(ekp_ask(k, envs, b), want, fn, "environments %s, build name %r" % (envs, b))
    with k.rule("R2", "an alias listed for two environments, an alias equal to an environment name, or with `_` or white space ends the program", fn):
        for envs, ok in (({"a": "x\ny", "b": "y"}, False), ({"a": "x", "b": "y\nz", "c": "w\nx"}, False), ({"a": "b", "b": "z"}, False), ({"a": "x_y"}, False), ({"a": "x y", "b": None}, False), ({"a": "x\nx"}, False),
                         ({"a": "x", "b": "y"}, True), ({"a": None, "b": None}, True), ({"a": "x # y", "b": "y"}, True)):
            k.table(ekp_ask(k, envs, "a"), ("return", "sys_a") if ok else ("raise", "SystemExit"), "EnvKeywordParser", "environments %s" % envs)
