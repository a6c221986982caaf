"""Rules about parsing: option processing, `use` expansion, lifecycle, handler lookup, handler parameters."""
import re

from kit import *   # noqa: F401,F403
from terms import *   # noqa: F401,F403

CPE = "ConfigParserEnhanced"
CPD = ("s", "CPD")          # the loaded configuration (configparser object)
CPED = ("s", "CPED")        # the enhanced data view
SEC = ("s", "SECTION")
ROOT = ("s", "ROOT")
TARGET = ("s", "TARGET")

QUIET = {"_loginfo_add": "silent", "_validate_parameter": "silent", "_validate_handlerparameters": "silent"}
HANDLER_EVENTS = {"handler_initialize": "event", "handler_finalize": "event", "_generic_option_handler": "event"}


def parse_engine(k, **kw):
    op = dict(QUIET)
    op.update(HANDLER_EVENTS)
    op.update(kw.pop("opaque", {}))
    e = k.engine(opaque=op, **kw)
    e.attr_specs = {"configparserdata": lambda en, s, b, n, nd, f: [(s, "v", CPD)] if b == ("o", "self") else None,
                    "configparserenhanceddata": lambda en, s, b, n, nd, f: [(s, "v", CPED)] if b == ("o", "self") else None}
    return e


def not_lifecycle(st, op, a, b):
    """the option's operation is neither `initialize` nor `finalize`"""
    for x, y in ((a, b), (b, a)):
        if op == "Eq" and is_str_c(y) and y[2].replace("-", "_").lstrip("_") in ("initialize", "finalize", "handler_initialize", "handler_finalize"):
            pre, rest = split_name(x)
            if is_token0(norm_op_term(rest)[0]):
                return False
    if op in ("Eq", "In"):
        t = ("cmp", op, a, b)
        if with_word(t, "op") != t:
            words = [w for w in WORDS_PROBE if w not in LIFECYCLE]
            for c in texts(t):
                words += [w for w in (c, re.sub("^_?handler_", "", c), c.replace("_", "-")) if w and w not in LIFECYCLE]
            try:
                got = [cval_eval(with_word(t, w), "") for w in words]
            except Exception:
                return None
            if all(g is False for g in got):
                return False
    return None


LIFECYCLE = ("initialize", "finalize")


def texts(t):
    """the constant texts in a term"""
    if not isinstance(t, tuple):
        return set()
    if len(t) == 3 and t[0] == "c":
        return {t[2]} if isinstance(t[2], str) else set()
    return set().union(*[texts(x) for x in t]) if t else set()


def root_run(k, pub=None, priv=None, section=None, default=None):
    """parse_section(SECTION): the whole root parse, recursion summarised as events;
    pub/priv: whether the option's public/private handler method exists"""
    e = parse_engine(k)
    if pub is not None:
        e.dyn_has = lambda b, nm: {"handler_": pub, "_handler_": priv}.get(split_name(nm)[0]) if b == ("o", "self") else None
        e.decide_hook = not_lifecycle
    st = State()
    s = e.named_obj(st, "self", k.p.cls(CPE))
    e.bool_terms |= {("s", "INIT"), ("s", "FINAL")}
    if default is not None:
        e.attr_specs = dict(e.attr_specs or {}, default_section_name=lambda en, s_, b, nm, nd, f: [(s_, "v", default)] if b == ("o", "self") else None)
    res = k.run(e, k.p.method(CPE, "parse_section"), [s, section or SEC, ("s", "INIT"), ("s", "FINAL")], st)
    return e, res


ACTIVE = ("s", "ACTIVE")
USED = ("sub", ("s", "PARAMS"), C(0))


def use_run(k, active=None):
    """the `use` handler on an arbitrary option, with the expansion of the named section analysed in place;
    active: whether the named section is being expanded when the handler runs"""
    e = parse_engine(k)
    st = State()
    c = k.p.cls(CPE)
    s = e.named_obj(st, "self", c)
    hp = e.named_obj(st, "HP", k.p.cls("HandlerParameters"))
    e.snap_objs.add("HP")
    di = e.named_obj(st, "DI", None, kind="dict", items=(("kv", C("processed_sections"), ("s", "ACTIVE")),))
    st.heap["HP"] = HObj("inst", k.p.cls("HandlerParameters"), False, False, {
        "_params": ("s", "PARAMS"), "_section_root": ROOT, "_op": C("use"),
        "_data_internal": di, "_data_shared": ("s", "SHARED"), "_handler_name": C("_handler_use"),
        "_raw_option": ("tuple", (("s", "RAWKEY"), ("s", "RAWVAL"))), "_value": ("s", "RAWVAL")})
    if active is not None:
        st.facts[("cmp", "In", USED, ACTIVE)] = active
        if active is False:
            st.facts[e.eq_atom(USED, ROOT)[0]] = False       # the root section is always being expanded
    f = k.p.method(CPE, "_handler_use")
    # the undecorated body: the decorator is judged by its own rules
    res = e.call_func(st, f, [s, SEC, hp], {}, f.node, None, inline_always=True, raw=True)
    k.paths += len(res)
    return e, [(s2, ("return", v) if kk == "v" else ("raise", v)) for (s2, kk, v) in res]


def is_dispatch(ev):
    """handing an option to a handler: a dynamically looked-up method, or the generic handler"""
    if ev.kind == "callv":
        t = ev.a[0]
        return t[0] == "attrdyn" or (t[0] == "getattr")
    if ev.kind == "call":
        return ev.a[0].split(".")[-1] == "_generic_option_handler"
    return False


def direct(t, what):
    """does t mention `what` other than through an element of a collection?"""
    if t == what:
        return True
    if isinstance(t, tuple):
        if t and t[0] in ("key", "val", "elem", "res"):
            return False
        return any(direct(x, what) for x in t if isinstance(x, tuple))
    return False


def option_loops(trace, section):
    """loops over the options of `section` (with the value terms of key and value)"""
    out = []
    for ev in trace:
        if ev.kind == "loop" and direct(ev.a[0], section) and direct(ev.a[0], CPD):
            out.append(ev)
    return out


ORDER_BREAKERS = {"sorted", "reversed", "set", "frozenset", "random.sample", "filter"}


def loop_order(src):
    """'file' when the source iterates the section itself in order, 'other' when it certainly does not, None unknown"""
    t = src
    n = 0
    while True:
        n += 1
        if n > 30:
            return None
        if isinstance(t, tuple) and t and not isinstance(t[0], str):
            t = t[0]
            continue
        if t[0] == "sub" and t[1] == CPD:
            return "file"
        if t[0] == "sub" and t[2][0] == "slice":
            a, b = t[2][1], t[2][2]
            step = t[2][3] if len(t[2]) > 3 else NONE
            if a == NONE and b == NONE and step == NONE:
                t = t[1]
                continue
            return "other"
        if t[0] == "pm" and t[1] in ("items", "keys", "copy", "options"):
            t = t[2] if t[2] != CPD else ("sub", CPD, t[3][0] if t[3] else NONE)
            continue
        if t[0] == "pc":
            nm = t[1]
            if nm in ORDER_BREAKERS:
                return "other"
            if nm in ("list", "tuple", "iter", "dict", "enumerate"):
                t = t[2][0]
                continue
            return None
        if t[0] in ("S",):
            return "other"
        if t[0] in ("L", "D") and len(t) == 2 and t[1][0] == "each":
            t = t[1][2]
            continue
        return None


def key_val_terms(lp):
    """(key term, val term) of the elements of an options loop, from its source"""
    return None


def norm_key(t):
    """strip the harmless normalisations of the raw key: str(), strip()"""
    while True:
        if t[0] == "str1":
            t = t[1]
        elif t[0] == "cat" and len(t[1]) == 1:
            t = t[1][0]
        elif t[0] == "pc" and t[1] == "str" and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == "pm" and t[1] == "strip" and not t[3]:
            t = t[2]
        elif t[0] == "sub" and t[1][0] in ("elem",) and t[2] == C(0):
            return ("key", t[1][1], t[1][2])
        else:
            return t


def norm_val(t):
    while True:
        if t[0] == "str1":
            t = t[1]
        elif t[0] == "cat" and len(t[1]) == 1:
            t = t[1][0]
        elif t[0] == "pc" and t[1] == "str" and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == "pm" and t[1] == "strip" and (not t[3] or t[3] == (C('"'),)):
            t = t[2]
        else:
            return t


def raw_kind(t):
    """'key' / 'val' when the term is the option's key / value"""
    t = norm_val(t)
    if t[0] == "key":
        return "key"
    if t[0] == "val":
        return "val"
    if t[0] == "elem":
        return "key"
    if t[0] == "sub" and t[2][0] in ("elem", "key"):
        return "val"
    if t[0] == "pm" and t[1] == "get" and t[3] and t[3][0][0] in ("elem", "key"):
        return "val"
    return None


def stores(trace):
    """[(section, key, value)] written to the enhanced data; None in place of a store that is not understood"""
    out = []
    for ev in flat(trace):
        if ev.kind == "xm" and ev.a[1] == CPED:
            if ev.a[0] == "set" and len(ev.a[2]) == 3:
                out.append(ev.a[2])
            elif ev.a[0] == "set":
                kw = dict(ev.a[3])
                names = ["section", "option", "value"]
                vals = list(ev.a[2]) + [kw.get(n) for n in names[len(ev.a[2]):]]
                out.append(tuple(vals) if all(v is not None for v in vals) else None)
            elif ev.a[0] in ("add_section", "has_section", "has_section_no_parse", "_discard_section"):
                continue
            else:
                out.append(None)
        elif ev.kind in ("seti",) and any(mentions(x, CPED) for x in ev.a[:1]):
            b = ev.a[0]
            if b[0] == "sub" and mentions(b[1], CPED):
                out.append((b[2], ev.a[1], ev.a[2]))
            elif b[0] == "res":
                out.append(None)
            else:
                out.append(None)
        elif ev.kind == "mut" and mentions(ev.a[1], CPED) and not mentions(ev.a[1], ("attr", CPED, "_sections_checked")):
            out.append(None)
    return out


def dyn_name(t):
    """name term of a dynamically looked-up method"""
    return t[2]


def norm_op_term(t):
    """collapse repeated '-' -> '_' replacement; returns (base term, replaced?)"""
    rep = False
    while t[0] == "pm" and t[1] == "replace" and tuple(t[3]) == (C("-"), C("_")):
        rep = True
        t = t[2]
    return t, rep


def split_name(t):
    """'handler_'/'_handler_' prefix and the rest of a looked-up name"""
    if t[0] == "cat" and is_str_c(t[1][0]):
        rest = t[1][1:]
        return t[1][0][2], (rest[0] if len(rest) == 1 else ("cat", rest))
    return None, t


def hp_of(ev):
    return snap_fields(ev, "HandlerParameters")


def where_of(ev):
    return ev.loc


def sec_paths(k, res, section):
    """(state, outcome, loop event) for the returning paths, requiring one options loop on each"""
    for st, oc in res:
        lps = option_loops(st.trace, section)
        yield st, oc, lps


# ============================================================ C01
def C01(k):
    for name, runner, section, root in (("parse_section", root_run, SEC, SEC), ("use", use_run, None, ROOT)):
        fn = "ConfigParserEnhanced.%s" % ("parse_section" if name == "parse_section" else "_handler_use")
        with k.rule("R1", "every abstract path that finishes a section walks all its options once, in file order", fn):
            e, res = runner(k) if name != "use" else use_run(k, False)
            if section is None:
                section = USED
            n = 0
            for st, oc in res:
                if oc[0] != "return":
                    continue
                lps = option_loops(st.trace, section)
                if not lps and name == "use":
                    continue        # the not-expanded branch is judged by C02
                n += 1
                recs = [ev for ev in flat(st.trace) if ev.kind in ("rec", "call") and mentions(ev.a[1], section) and not is_dispatch(ev)
                        and ev.a[0].split(".")[-1] not in ("handler_initialize", "handler_finalize")]
                if not lps and recs:
                    k.undecided(fn, "the options are processed by %s" % recs[0].a[0])
                    continue
                if not lps:
                    other = [ev for ev in flat(st.trace) if ev.kind == "loop" and mentions(ev.a[0], CPD)]
                    if other:
                        k.undecided(fn, "loop source not understood: %s" % show(other[0].a[0]))
                    else:
                        k.ob(False, fn, "a path returns without looking at the section's options (%s)" % facts_text(st.facts), path=path_text(st, oc))
                    continue
                k.ob(len(lps) == 1, fn, "the options of the section are walked %d times" % len(lps), lps[0].loc, path_text(st, oc) if len(lps) != 1 else None)
                o = loop_order(lps[0].a[0])
                if o is None:
                    k.undecided(fn, "order of %s not understood" % show(lps[0].a[0]))
                else:
                    k.ob(o == "file", fn, "options are walked as %s, which is not the file order" % show(lps[0].a[0]), lps[0].loc)
            k.ob(n > 0, fn, "no path processes the section's options")
        with k.rule("R2", "on every iteration path that goes on, the option is handed to exactly one handler; no early end of the walk", fn):
            seen = set()
            for st, oc in res:
                for lp in option_loops(st.trace, section):
                    for p in lp.a[2]:
                        if p in seen:
                            continue
                        seen.add(p)
                        d = [ev for ev in flat(p.trace) if is_dispatch(ev)]
                        unk = [ev for ev in flat(p.trace) if ev.kind in ("callv", "rec", "call") and not is_dispatch(ev)]
                        txt = facts_text(p.facts)
                        if p.outcome[0] in ("break", "return"):
                            k.ob(False, fn, "the walk over the options ends early when: %s" % txt, lp.loc)
                        elif p.outcome[0] == "raise":
                            k.ob(len(d) <= 1, fn, "several handlers run for one option when: %s" % txt, lp.loc)
                        elif len(d) == 0 and unk:
                            k.undecided(fn, "dispatch through %r not understood" % (unk[0],))
                        else:
                            k.ob(len(d) == 1, fn, "an option is handed to %d handlers when: %s" % (len(d), txt), lp.loc)
                        for ev in d:
                            args = ev.a[1]
                            a = [x for x in args if x != ("o", "self")]
                            k.ob(bool(a) and a[0] == section, fn, "the handler is told section %s instead of the section that holds the option" % (show(a[0]) if a else "?"), ev.loc)
        with k.rule("R3", "an option without handler is stored once, as key and value, under the section being parsed; a handled one is not stored", fn):
            seen = set()
            for st, oc in res:
                for lp in option_loops(st.trace, section):
                    for p in lp.a[2]:
                        if p in seen or p.outcome[0] not in ("next", "continue"):
                            continue
                        seen.add(p)
                        d = [ev for ev in flat(p.trace) if is_dispatch(ev)]
                        if len(d) != 1:
                            continue
                        sto = stores(p.trace)
                        if None in sto:
                            k.undecided(fn, "a store to the enhanced data is not understood")
                            continue
                        txt = facts_text(p.facts, 5)
                        if d[0].kind == "call":
                            if k.ob(len(sto) == 1, fn, "a generic option is stored %d times when: %s" % (len(sto), txt), lp.loc):
                                sc, ky, vl = sto[0]
                                k.ob(sc == root, fn, "a generic option is stored under %s instead of the section being parsed" % show(sc), lp.loc)
                                k.ob(raw_kind(ky) == "key" and norm_key(ky)[0] in ("key", "elem"), fn, "a generic option is stored under the key %s" % show(ky), lp.loc)
                                k.ob(raw_kind(vl) == "val" or (vl == NONE and none_val(p.facts)), fn, "a generic option is stored with the value %s" % show(vl), lp.loc)
                        else:
                            k.ob(not sto, fn, "an option that has a handler is stored as unhandled", lp.loc)
    with k.rule("R4", "storing an option writes exactly section, option and value (the last one wins)", "ConfigParserEnhancedData.set"):
        view_set(k)


def none_val(facts):
    return any(a[0] == "isnone" and b and a[1][0] in ("val", "sub", "pm") for a, b in facts)


def view_set(k):
    cls = CPE + ".ConfigParserEnhancedData"
    c = k.p.cls(cls)
    e = k.engine(opaque={"_parse_owner_section": "event"})
    e.record_fresh = True
    st = State()
    s = e.named_obj(st, "self", c)
    d = e.named_obj(st, "DATA", None, kind="dict", fresh=False)
    st.heap["self"] = HObj("inst", c, False, False, {"_data": d, "_owner_data": NONE})
    f = k.p.method(cls, "set")
    e.attr_specs = {"data": lambda en, s_, b, n, nd, fi: [(s_, "v", ("s", "DATA"))] if b == ("o", "self") else None}
    res = k.run(e, f, [s, ("s", "A"), ("s", "B"), ("s", "V")], st)
    for st2, oc in res:
        if oc[0] != "return":
            continue
        sets = [ev for ev in flat(st2.trace) if ev.kind == "seti"]
        tgt = [ev for ev in sets if ev.a[1] == ("s", "B")]
        good = len(tgt) == 1 and tgt[0].a[2] == ("s", "V")
        weak = [ev for ev in flat(st2.trace) if ev.kind in ("xm", "mut") and ev.a[0] == "setdefault" and ("s", "B") in [y for x in ev.a if isinstance(x, tuple) for y in subterms(x)]]
        if not tgt and weak:
            k.ob(False, "ConfigParserEnhancedData.set", "an option that is given again keeps its first value", weak[0].loc, path=path_text(st2, oc))
            continue
        if not tgt and any(ev.kind in ("mut", "xm", "call") for ev in st2.trace):
            k.undecided("ConfigParserEnhancedData.set", "store not understood")
            continue
        k.ob(good, "ConfigParserEnhancedData.set", "set(section, option, value) writes %s" % [repr(x) for x in sets], path=path_text(st2, oc))
        for ev in tgt:
            b = ev.a[0]
            k.ob(mentions(b, ("s", "A")) or b[0] == "o", "ConfigParserEnhancedData.set", "the option is written to %s" % show(b))



# ============================================================ C02
def C02(k):
    fn = "ConfigParserEnhanced._handler_use"
    with k.rule("R1", "`use` of a section that is not being expanded always expands it, in place, exactly once", fn):
        e, res = use_run(k, False)
        n = 0
        for st, oc in res:
            if oc[0] != "return":
                continue
            lps = option_loops(st.trace, USED)
            recs = [ev for ev in flat(st.trace) if ev.kind in ("rec", "call") and mentions(ev.a[1], USED)]
            if not lps and recs:
                k.undecided(fn, "expansion through %s" % recs[0].a[0])
                continue
            n += 1
            k.ob(len(lps) == 1, fn, "a `use` of a section that is not being expanded expands it %d times (%s)" % (len(lps), facts_text(st.facts)), path=path_text(st, oc))
            ece = [ev for ev in st.trace if ev.kind == "ece"]
            k.ob(not ece, fn, "a `use` without cycle is reported: %s" % ece, path=path_text(st, oc))
        k.ob(n > 0, fn, "no path expands a section that is not being expanded")
    with k.rule("R2", "`use` of a section that is being expanded is skipped, reported as one WARNING, and parsing goes on", fn):
        e2, res2 = use_run(k, True)
        n = 0
        for st, oc in res2:
            lps = option_loops(st.trace, USED)
            k.ob(not lps and not [ev for ev in st.trace if ev.kind == "rec"], fn, "a section that is being expanded is expanded again", path=path_text(st, oc))
            ece = [ev for ev in st.trace if ev.kind == "ece"]
            if oc[0] == "return":
                n += 1
                k.ob(oc[1] == C(0), fn, "a skipped cycle makes the handler return %s instead of 0" % show(oc[1]))
                k.ob(len(ece) == 1 and ece[0].a[0] == C("WARNING"), fn, "a cycle is reported as %s instead of one WARNING event" % [show(x.a[0]) for x in ece], path=path_text(st, oc))
            else:
                k.ob(bool(ece) or exc_name(oc[1]) == "ValueError", fn, "a cycle raises %s instead of going through exception control" % show(oc[1]), path=path_text(st, oc))
            muts = [ev for ev in flat(st.trace) if ev.kind == "mut" and ev.a[1] == ACTIVE]
            k.ob(not muts, fn, "skipping a cycle changes the set of sections being expanded", path=path_text(st, oc))
        k.ob(n > 0, fn, "a cycle never lets parsing go on")
    with k.rule("R3", "while a section's options are handled the section counts as being expanded; afterwards it does not", fn):
        for name, rs, section in (("use", use_run(k, False)[1], USED), ("root", root_run(k)[1], SEC)):
            cn = fn if name == "use" else "ConfigParserEnhanced.parse_section"
            for st, oc in rs:
                lps = option_loops(st.trace, section)
                if not lps:
                    continue
                for p in lps[0].a[2]:
                    for ev in flat(p.trace):
                        if is_dispatch(ev):
                            r = active_in_snapshot(hp_of(ev), section, st, lps[0])
                            if r is None:
                                k.undecided(cn, "the set of sections being expanded is not found in the handler parameters")
                            else:
                                k.ob(r, cn, "while the options of a section are handled the section is not marked as being expanded", lps[0].loc)
                if oc[0] == "return" and name == "use":
                    idx = {id(ev): i for i, ev in enumerate(st.trace)}
                    mine = [ev for ev in st.trace if ev.kind == "mut" and ev.a[1] == ACTIVE and ev.a[2] == (USED,)]
                    if any(ev.a[0] == "add" for ev in mine):
                        k.ob(mine[-1].a[0] in ("remove", "discard") and idx[id(mine[-1])] > idx[id(lps[0])], cn,
                             "a section stays marked as being expanded after its expansion, so a second `use` of it is dropped", path=path_text(st, oc))
                    for ev in flat(st.trace):
                        if ev.kind == "mut" and ev.a[1] == ACTIVE and (ev.a[0] not in ("add", "remove", "discard") or ev.a[2] != (USED,)):
                            k.ob(False, cn, "the expansion of one section changes the marks of others: %r" % ev, ev.loc)
    with k.rule("R4", "the section being parsed is marked before the default section is expanded", "ConfigParserEnhanced.parse_section"):
        for st, oc in root_run(k)[1]:
            for ev in flat(st.trace):
                if ev.kind == "rec" and hp_of(ev) is not None:
                    r = set_in_snapshot(hp_of(ev))
                    if r is None or r[0] != "S":
                        k.undecided("ConfigParserEnhanced.parse_section", "set not found")
                    else:
                        k.ob(("i", SEC) in r[1:], "ConfigParserEnhanced.parse_section", "the default section is expanded before the section being parsed is marked as being expanded", ev.loc)


def set_in_snapshot(f):
    if not f:
        return None
    d = content(f.get("_data_internal", ("x",)))
    if d[0] == "D":
        for kv in d[1:]:
            if kv[0] == "kv" and kv[1] == C("processed_sections"):
                return kv[2]
    for v in f.values():
        c = content(v)
        if c[0] == "S":
            return c
    return None


def active_in_snapshot(f, section, st, lp):
    s = set_in_snapshot(f)
    if s is not None and s[0] == "S":
        return ("i", section) in s[1:]
    pre = []
    for ev in st.trace:
        if ev is lp:
            break
        pre.append(ev)
    mine = [ev for ev in pre if ev.kind == "mut" and ev.a[1] == ACTIVE and ev.a[2] == (section,)]
    if mine:
        return mine[-1].a[0] == "add"
    if f is not None and (s is None or s == ACTIVE):
        return False
    return None


# ============================================================ C03
def is_call(ev, name):
    return ev.kind in ("call", "rec") and ev.a[0].split(".")[-1] == name


def flag(st, t):
    """truth of a symbolic boolean on this path"""
    f = st.facts.get(t)
    if f is None:
        for v in (True, False):
            x = st.facts.get(("eqc", t, C(v)))
            if x is not None:
                return v if x else (not v)
    return f


def C03(k):
    fn = "ConfigParserEnhanced.parse_section"
    e, res = root_run(k)
    ini, fin = ("s", "INIT"), ("s", "FINAL")
    rets = [(st, oc) for st, oc in res if oc[0] == "return"]
    with k.rule("R0", "a section that exists can be parsed with either hook on or off", fn):
        for a in (ini, fin):
            for want in (True, False):
                k.ob(any(flag(st, a) in (want, None) for st, oc in rets), fn, "no parse with %s=%s gets to its end" % ("initialize" if a == ini else "finalize", want))
        for st, oc in res:
            k.ob(not (oc[0] == "raise" and exc_name(oc[1]) in ("NameError", "UnboundLocalError")), fn, "a parse ends with %s" % show(oc[1]), path=path_text(st, oc))
    with k.rule("R1", "with initialize set, the initialize handler runs exactly once, before anything else is handled; otherwise never", fn):
        for st, oc in rets:
            top = list(st.trace)
            i = [j for j, ev in enumerate(top) if is_call(ev, "handler_initialize")]
            nested = [ev for lp in top if lp.kind == "loop" for p in lp.a[2] for ev in flat(p.trace) if is_call(ev, "handler_initialize")]
            k.ob(not nested, fn, "the initialize handler runs inside the walk over the options")
            v = flag(st, ini)
            if v is None:
                k.ob(False, fn, "the initialize argument is ignored (%d runs of the initialize handler)" % len(i), path=path_text(st, oc))
                continue
            k.ob(len(i) == (1 if v else 0), fn, "initialize=%s runs the initialize handler %d times" % (v, len(i)), path=path_text(st, oc))
            first = [j for j, ev in enumerate(top) if ev.kind == "loop" and mentions(ev.a[0], CPD) or ev.kind == "rec" or is_call(ev, "handler_finalize")]
            if i and first:
                k.ob(i[0] < first[0], fn, "options are handled before the initialize handler", path=path_text(st, oc))
            for j in i:
                a = [x for x in top[j].a[1] if x != ("o", "self")]
                k.ob(a and a[0] == SEC, fn, "the initialize handler is told section %s" % show(a[0]), top[j].loc)
    with k.rule("R2", "with finalize set, the finalize handler runs exactly once, after all options; otherwise never", fn):
        for st, oc in rets:
            top = list(st.trace)
            i = [j for j, ev in enumerate(top) if is_call(ev, "handler_finalize")]
            nested = [ev for lp in top if lp.kind == "loop" for p in lp.a[2] for ev in flat(p.trace) if is_call(ev, "handler_finalize")]
            k.ob(not nested, fn, "the finalize handler runs inside the walk over the options")
            v = flag(st, fin)
            if v is None:
                k.ob(False, fn, "the finalize argument is ignored (%d runs of the finalize handler)" % len(i), path=path_text(st, oc))
                continue
            k.ob(len(i) == (1 if v else 0), fn, "finalize=%s runs the finalize handler %d times" % (v, len(i)), path=path_text(st, oc))
            last = [j for j, ev in enumerate(top) if ev.kind == "loop" and mentions(ev.a[0], CPD) or ev.kind == "rec"]
            if i and last:
                k.ob(i[0] > last[-1], fn, "options are handled after the finalize handler", path=path_text(st, oc))
            for j in i:
                a = [x for x in top[j].a[1] if x != ("o", "self")]
                k.ob(a and a[0] == SEC, fn, "the finalize handler is told section %s" % show(a[0]), top[j].loc)
    with k.rule("R3", "the default section, when there is one and it is not the section itself, is expanded once between initialize and the options", fn):
        n = 0
        for st, oc in rets:
            top = list(st.trace)
            dflt = ("init", "self", "_default_section_name")
            rec = [j for j, ev in enumerate(top) if ev.kind == "rec" or (ev.kind == "loop" and mentions(ev.a[0], CPD) and not mentions(ev.a[0], SEC))]
            has = [b for a, b in st.facts.items() if a[0] == "pm" and a[1] == "has_section" and a[2] == CPD and a[3] != (SEC,)]
            has += [b for a, b in st.facts.items() if a[0] == "cmp" and a[1] == "In" and a[3] in (CPD, ("pm", "sections", CPD, ()), ("pm", "keys", CPD, ())) and a[2] != SEC]
            lps = [j for j, ev in enumerate(top) if ev.kind == "loop" and mentions(ev.a[0], CPD) and mentions(ev.a[0], SEC)]
            v = flag(st, ini)
            if len(rec) > 1:
                k.ob(False, fn, "the default section is expanded %d times" % len(rec), path=path_text(st, oc))
            if rec:
                n += 1
                ev = top[rec[0]]
                k.ob(v is not False, fn, "the default section is expanded although initialize is off", path=path_text(st, oc))
                k.ob(not lps or rec[0] < lps[0], fn, "the default section is expanded after the section's own options", path=path_text(st, oc))
                i = [j for j, x in enumerate(top) if is_call(x, "handler_initialize")]
                k.ob(not i or i[0] < rec[0], fn, "the default section is expanded before the initialize handler", path=path_text(st, oc))
                if ev.kind == "rec":
                    b = bound(k.p, ev)
                    secarg = [x for x in ev.a[1] if x != ("o", "self")] + [v2 for n2, v2 in ev.a[2] if n2 in ("section_name", "section")]
                    k.ob(bool(secarg) and mentions(secarg[0], C("DEFAULT")) or bool(secarg) and "_default_section_name" in show(secarg[0]), fn,
                         "the section expanded first is %s, not the default section" % (show(secarg[0]) if secarg else "?"), ev.loc)
                    for nm in ("initialize", "finalize"):
                        if nm in b:
                            hpr = hp_of(ev)
                            k.ob(b[nm] == FALSE or hpr is not None and hpr.get("_section_root") == SEC, fn, "the default section runs the %s handler" % nm, ev.loc)
                    hpf = hp_of(ev)
                    if hpf is not None:
                        k.ob(hpf.get("_section_root") == SEC, fn, "options of the default section are attributed to %s" % show(hpf.get("_section_root", NONE)), ev.loc)
            elif v is True and True in has and not eq_default(st):
                k.ob(False, fn, "the default section exists and is not expanded", path=path_text(st, oc))
        k.ob(n > 0, fn, "no path expands the default section")
        for own in (C("DEFAULT"), C("COMMON"), C("default")):
            for st, oc in root_run(k, section=own, default=own)[1]:
                if oc[0] == "return":
                    walks = [ev for ev in st.trace if ev.kind == "rec" or ev.kind == "loop" and mentions(ev.a[0], CPD)]
                    k.ob(len(walks) <= 1, fn, "parsing the default section %s itself walks its options %d times" % (show(own), len(walks)), path=path_text(st, oc))
        for own, default in (("DEFAULT", "COMMON"), ("COMMON", "DEFAULT"), ("default", "DEFAULT")):
            for st, oc in root_run(k, section=C(own), default=C(default))[1]:
                rec = [ev for ev in st.trace if ev.kind == "rec" or ev.kind == "loop" and mentions(ev.a[0], CPD) and mentions(ev.a[0], C(default))]
                has = [b for a, b in st.facts.items() if a[0] == "pm" and a[1] == "has_section" and a[2] == CPD and a[3] == (C(default),)]
                if oc[0] == "return" and flag(st, ini) is True and True in has:
                    k.ob(len(rec) == 1, fn, "the default section %s is expanded %d times before section %s" % (default, len(rec), own), path=path_text(st, oc))
    with k.rule("R4", "initialize and finalize handlers run only for the section being parsed, never for a section pulled in by `use`", "ConfigParserEnhanced._handler_use"):
        for st, oc in use_run(k, False)[1]:
            evs = [ev for ev in flat(st.trace) if is_call(ev, "handler_initialize") or is_call(ev, "handler_finalize")]
            k.ob(not evs, "ConfigParserEnhanced._handler_use", "a section pulled in by `use` runs %s" % (evs[0].a[0] if evs else ""), path=path_text(st, oc) if evs else None)
            dfl = [ev for ev in flat(st.trace) if ev.kind == "rec" and "_default_section_name" in repr(ev.a[1])]
            k.ob(not dfl, "ConfigParserEnhanced._handler_use", "a section pulled in by `use` expands the default section again", path=path_text(st, oc) if dfl else None)
    with k.rule("R5", "initialize, the option handlers and finalize see one shared data dictionary, and parsing returns it", fn):
        for st, oc in rets:
            ids = set()
            for ev in flat(st.trace):
                if is_dispatch(ev) or is_call(ev, "handler_initialize") or is_call(ev, "handler_finalize") or ev.kind == "rec":
                    f = hp_of(ev)
                    if f is not None and "_data_shared" in f:
                        ids.add(identity(f["_data_shared"]))
            if not ids:
                continue        # nothing was handled on this path
            k.ob(len(ids) == 1, fn, "handlers of one parse see %d different shared dictionaries" % len(ids), path=path_text(st, oc))
            k.ob(oc[1] in ids, fn, "parsing returns %s instead of the shared data of its handlers" % show(oc[1]), path=path_text(st, oc))
        for st, oc in use_run(k, False)[1]:
            for ev in flat(st.trace):
                if is_dispatch(ev) and hp_of(ev) is not None:
                    k.ob(identity(hp_of(ev).get("_data_shared", NONE)) == ("s", "SHARED"), "ConfigParserEnhanced._handler_use",
                         "a section pulled in by `use` gets its own shared data", ev.loc)
    with k.rule("R6", "a section that does not exist raises KeyError", fn):
        n = 0
        for st, oc in res:
            if st.facts.get(("cmp", "In", SEC, CPD)) is False or any(a[0] == "pm" and a[1] == "has_section" and a[3] == (SEC,) and b is False for a, b in st.facts.items()):
                n += 1
                k.ob(oc[0] == "raise", fn, "a section that does not exist is parsed without error", path=path_text(st, oc))
                if oc[0] == "raise":
                    k.ob(exc_name(oc[1]) in ("KeyError", "ValueError", None), fn, "a section that does not exist raises %s" % show(oc[1]))
        if n == 0:
            k.undecided(fn, "no path for a missing section")


def eq_default(st):
    return any(b and a[0] in ("eqv", "eq", "cmp") and mentions(a, SEC) and "_default_section_name" in show(a) for a, b in st.facts.items())


# ============================================================ C04
OPS_PROBE = ["use", "my-op", "my_op", "op1", "a.b", "a b", "x/y", "", "-", "é", "opt$"]


def dispatch_paths(k):
    for name, rs, section, root in (("root", root_run(k)[1], SEC, SEC), ("use", use_run(k, False)[1], USED, ROOT)):
        seen = set()
        for st, oc in rs:
            for lp in option_loops(st.trace, section):
                for p in lp.a[2]:
                    if p not in seen:
                        seen.add(p)
                        yield name, lp, p, root


def run_paths(rs, section):
    seen = set()
    for st, oc in rs:
        for lp in option_loops(st.trace, section):
            for p in lp.a[2]:
                if p not in seen:
                    seen.add(p)
                    yield lp, p


def looked_up(p):
    """is this the path of an option whose first word is an operation name?"""
    for a, b in p.facts:
        if (a[0] == "pc" and a[1] in ("re.match", "re.fullmatch", "re.search")) or (a[0] == "pm" and a[1] in ("match", "fullmatch", "search")):
            if b is False:
                return False
        if a[0] == "isnone" and a[1][0] in ("pc", "pm") and b is True:
            return False
    return True


def plain_split(t):
    """shlex.split with another idea of a word: `#` starts a comment, or quotes stay in the words"""
    got = dict(zip(("s", "comments", "posix"), t[2]))
    got.update({a: b for a, b in t[3]} if len(t) > 3 and all(isinstance(x, tuple) and len(x) == 2 for x in t[3]) else {})
    com, pos = got.get("comments", C(False)), got.get("posix", C(True))
    return not (com[0] == "c" and com[2]) and not (pos[0] == "c" and not pos[2])


def is_token0(t):
    """first shell token of the option's key"""
    return t[0] == "sub" and t[2] == C(0) and t[1][0] == "pc" and t[1][1] == "shlex.split" and raw_kind(t[1][2][0]) == "key" and plain_split(t[1])


WORDS_PROBE = ["op", "my-op", "my_op", "initialize", "finalize", "init", "final", "initialize2", "pre-initialize", "re-finalize", "Initialize", "FINALIZE", "use", "use2", "handler_x", "x", "_x", "9", "initialize-x", "finalize_x", "module-load"]


def with_word(t, op):
    """the term with the first word of the key replaced by a constant"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == "sub" and isinstance(t[1], tuple) and len(t[1]) > 2 and t[1][:2] == ("pc", "shlex.split") and is_token0(t):
        return C(op)
    return tuple(with_word(x, op) for x in t)


def words_of(p):
    """(operation names of the probe list for which the path is taken, is a condition on the name not understood?)"""
    facts = [(a, b) for a, b in p.facts if with_word(a, "op") != a]
    probes = list(WORDS_PROBE)
    for a, b in facts:
        if a[0] == "eqc" and is_str_c(a[2]):
            probes += [x for x in (a[2][2], re.sub("^_?handler_", "", a[2][2])) if x not in probes]
    odd, out = False, []
    for op in probes:
        ok = True
        for a, b in facts:
            if a[0] in ("has", "attrdyn") or "attrdyn" in repr(a):
                continue
            try:
                v = cval_eval(with_word(a, op), "")
            except Exception:
                v = UNKNOWN
            if v is UNKNOWN:
                odd = True
            elif bool(v) != b:
                ok = False
                break
        if ok:
            out.append(op)
    return out, odd


def C04(k):
    fn = "ConfigParserEnhanced._locate_handler_method"

    def judged(p):
        """is the path one of ordinary operation names: True, False, None when that is not known"""
        ops, odd = words_of(p)
        if odd:
            return None
        return not ops or any(x not in ("initialize", "finalize") for x in ops)
    sup = {"found": 0}
    with k.rule("R1", "the handler looked up for an option is handler_<op> or _handler_<op>, <op> the first word of the key with '-' as '_'", fn):
        for name, lp, p, root in dispatch_paths(k):
            for ev in flat(p.trace):
                if is_dispatch(ev) and ev.kind == "callv":
                    pre, rest = split_name(dyn_name(ev.a[0]))
                    base, rep = norm_op_term(rest)
                    sup["found"] += 1
                    k.ob(pre in ("handler_", "_handler_"), fn, "the method looked up is named %s" % show(dyn_name(ev.a[0])), ev.loc)
                    if is_token0(base):
                        k.ob(rep, fn, "'-' is not mapped to '_' in the looked-up name", ev.loc)
                    elif base[0] == "sub" and base[1][0] == "pc" and base[1][1] == "shlex.split" or raw_kind(base) == "key":
                        k.ob(False, fn, "the operation looked up is %s, not the first word of the key" % show(base), ev.loc)
                    else:
                        k.undecided(fn, "operation term %s" % show(base))
        k.ob(sup["found"] > 0, fn, "no option is dispatched to a looked-up handler")
    with k.rule("R2", "only one of the two exists: that one is called; neither exists: the generic handler is called", fn):
        for pub, priv, want in ((True, False, "handler_"), (False, True, "_handler_"), (False, False, None)):
            n = 0
            for lp, p in run_paths(root_run(k, pub, priv)[1], SEC):
                d = [ev for ev in flat(p.trace) if is_dispatch(ev)]
                if len(d) != 1 or p.outcome[0] == "raise":
                    continue
                if not looked_up(p):
                    continue
                n += 1
                got = None if d[0].kind == "call" else split_name(dyn_name(d[0].a[0]))[0]
                if got != want:
                    j = judged(p)
                    if j is None:
                        k.undecided(fn, "a condition on the operation's name is not understood")
                    if not j:
                        continue
                k.ob(got == want, fn, "handler_<op> %s and _handler_<op> %s: %s is called" % (
                    "exists" if pub else "is missing", "exists" if priv else "is missing", (got + "<op>") if got else "the generic handler"), d[0].loc)
                ece = [ev for ev in flat(p.trace) if ev.kind == "ece"]
                k.ob(not ece, fn, "an unambiguous operation raises the event %r" % (ece[:1],), d[0].loc)
            k.ob(n > 0, fn, "no path looks up a handler")
    with k.rule("R3", "both exist: one SERIOUS event of AmbiguousHandlerError before any call", fn):
        n = 0
        for lp, p in run_paths(root_run(k, True, True)[1], SEC):
            if not looked_up(p):
                continue
            n += 1
            ece = [(i, ev) for i, ev in enumerate(p.trace) if ev.kind == "ece"]
            if p.outcome[0] == "raise" and not ece and not [x for x in p.trace if is_dispatch(x)]:
                continue        # the key could not be split
            if len(ece) != 1:
                j = judged(p)
                if j is None:
                    k.undecided(fn, "a condition on the operation's name is not understood")
                if not j:
                    continue
            k.ob(len(ece) == 1, fn, "two handlers for one operation raise %d events" % len(ece), lp.loc)
            for i, ev in ece:
                k.ob(ev.a[0] == C("SERIOUS") and "AmbiguousHandlerError" in show(ev.a[1]), fn, "the event is %r" % ev, ev.loc)
                k.ob(not [x for x in p.trace[:i] if is_dispatch(x)], fn, "the ambiguity is reported after the handler ran", ev.loc)
        k.ob(n > 0, fn, "two handlers for one operation are not reported")
    with k.rule("R4", "a key whose first word is an operation name is looked up, any other key goes to the generic handler", fn):
        rx = set()
        for name, lp, p, root in dispatch_paths(k):
            d = [ev for ev in flat(p.trace) if is_dispatch(ev)]
            atoms = [(a, b) for a, b in p.facts if a[0] == "pc" and a[1] in ("re.match", "re.fullmatch", "re.search") and is_str_c(a[2][0])]
            atoms += [(a, b) for a, b in p.facts if a[0] == "pm" and a[1] in ("match", "fullmatch", "search") and a[2][0] == "pc" and a[2][1] == "re.compile"]
            for a, b in atoms:
                pat = a[2][0][2] if a[0] == "pc" else a[2][2][0][2]
                fnm = a[1].split(".")[-1]
                arg = a[2][1] if a[0] == "pc" else a[3][0]
                rx.add((fnm, pat, is_token0(arg)))
                looked = [x for x, _ in p.facts if x[0] == "has"] or (d and d[0].kind == "callv")
                if p.outcome[0] != "raise" and len(d) == 1 and b is False:
                    k.ob(not looked and d[0].kind == "call", fn, "a key that is not an operation is handed to a looked-up handler", lp.loc)
        for fnm, pat, tok in rx:
            try:
                m = getattr(re, fnm)
                got = {w: bool(m(pat, w)) for w in OPS_PROBE}
            except re.error:
                k.ob(False, fn, "invalid pattern %r" % pat)
                continue
            want = {w: bool(re.match(r"^[\w\-]+$", w)) for w in OPS_PROBE}
            bad = [w for w in OPS_PROBE if got[w] != want[w]]
            k.ob(not bad, fn, "the pattern %r classifies %s differently from operation names" % (pat, bad))
        if not rx:
            k.undecided(fn, "pattern for operation names not found")
    with k.rule("R5", "the words initialize and finalize are ordinary option names", fn):
        bad = 0
        for name, lp, p, root in dispatch_paths(k):
            d = [ev for ev in flat(p.trace) if is_dispatch(ev)]
            if len(d) != 1 or d[0].kind != "callv":
                continue
            pre, rest = split_name(dyn_name(d[0].a[0]))
            excl = set()
            for a, b in p.facts:
                if a[0] == "eqc" and b is False and is_str_c(a[2]):
                    excl.add(a[2][2])
            ok = {"initialize", "finalize"} <= {x.replace("handler_", "").lstrip("_") for x in excl}
            if not ok:
                ops, odd = words_of(p)
                ok = not {"initialize", "finalize"} & set(ops)
                if not ok and odd:
                    k.undecided(fn, "a condition on the operation's name is not understood")
                    continue
            k.ob(ok, fn, "an option named initialize or finalize is handed to the lifecycle handler", d[0].loc)
    known_ops(k)


def known_ops(k):
    fn = "ConfigParserEnhanced.get_known_operations"
    with k.rule("R6", "the list of known operations has one entry per handler method, named as options name it, without initialize and finalize", fn):
        e = k.engine()
        st = State()
        s = e.named_obj(st, "self", k.p.cls(CPE))
        res = k.run(e, k.p.method(CPE, "get_known_operations"), [s], st)
        names = {"handler_foo": "foo", "_handler_foo_bar": "foo-bar", "handler_initialize": None, "_handler_finalize": None, "handler_finalize": None,
                 "xhandler_foo": None, "enter_handler": None, "handler": None, "_generic_option_handler": None, "handler_initialize_x": "initialize-x",
                 "handler_finalizer": "finalizer", "_handler_use": "use", "handler_a_handler_b": "a-handler-b", "handlerfoo": None, "my_handler_x": None}
        for st2, oc in res:
            if oc[0] != "return":
                continue
            v = oc[1]
            segs = v[1:] if v[0] == "L" else (st2.heap[v[1]].items if v[0] == "o" else None)
            if segs is None or len(segs) != 1 or segs[0][0] != "each":
                k.undecided(fn, "result not understood: %s" % show(v))
                continue
            alts = segs[0][3]
            for nm, want in names.items():
                got = []
                for facts, els in alts:
                    r = True
                    for a, b in facts:
                        x = cval_eval(a, nm)
                        if x is UNKNOWN:
                            r = UNKNOWN
                            break
                        if bool(x) != b:
                            r = False
                            break
                    if r is UNKNOWN:
                        got = UNKNOWN
                        break
                    if r:
                        for el in els:
                            y = cval_eval(el, nm)
                            got.append(y)
                if got is UNKNOWN or UNKNOWN in got:
                    k.undecided(fn, "entry for %s not understood" % nm)
                else:
                    k.ob(got == ([want] if want is not None else []), fn, "a method named %s gives the known operations %s" % (nm, got))


UNKNOWN = ("unknown",)


def cval_eval(t, name):
    """Evaluate a term over literals for one element name (constant folding of string and regex operations only)."""
    if not isinstance(t, tuple):
        return UNKNOWN
    if t[0] == "c":
        return t[2]
    if t[0] in ("sub",) and t[2] == C(0) and t[1][0] == "elem":
        return name
    if t[0] in ("key",):
        return name
    if t[0] == "elem":
        return name if not (isinstance(t[2], tuple) and "getmembers" in show(t[2])) else (name, None)
    if t[0] == "isnone":
        v = cval_eval(t[1], name)
        return UNKNOWN if v is UNKNOWN else v is None
    if t[0] == "not":
        v = cval_eval(t[1], name)
        return UNKNOWN if v is UNKNOWN else not v
    if t[0] in ("eqc",):
        a, b = cval_eval(t[1], name), cval_eval(t[2], name)
        return UNKNOWN if UNKNOWN in (a, b) else a == b
    if t[0] == "cmp" and t[1] in ("Eq", "In"):
        a, b = cval_eval(t[2], name), cval_eval(t[3], name)
        if a is UNKNOWN or b is UNKNOWN:
            return UNKNOWN
        return a == b if t[1] == "Eq" else a in b
    if t[0] in ("L", "S"):
        r = [cval_eval(x[1], name) if x[0] == "i" else UNKNOWN for x in t[1:]]
        return UNKNOWN if UNKNOWN in r else r
    if t[0] == "tuple":
        r = [cval_eval(x, name) for x in t[1]]
        return UNKNOWN if UNKNOWN in r else tuple(r)
    if t[0] == "cat":
        r = [cval_eval(x, name) for x in t[1]]
        return UNKNOWN if UNKNOWN in r else "".join(map(str, r))
    if t[0] == "sub" and t[2][0] == "slice":
        b = cval_eval(t[1], name)
        sl = [cval_eval(x, name) for x in t[2][1:]]
        if b is UNKNOWN or UNKNOWN in sl:
            return UNKNOWN
        return b[slice(*sl)]
    if t[0] == "sub" and is_int_c(t[2]):
        b = cval_eval(t[1], name)
        return UNKNOWN if b is UNKNOWN else b[t[2][2]]
    if t[0] == "pc" and t[1].startswith("re."):
        a = [cval_eval(x, name) for x in t[2]]
        if UNKNOWN in a:
            return UNKNOWN
        if t[1] in ("re.match", "re.search", "re.fullmatch"):
            return getattr(re, t[1][3:])(*a)
        if t[1] == "re.sub":
            return re.sub(*a)
        if t[1] == "re.compile":
            return re.compile(*a)
        return UNKNOWN
    if t[0] == "pc" and t[1] in ("len", "str", "bool"):
        a = [cval_eval(x, name) for x in t[2]]
        return UNKNOWN if UNKNOWN in a else {"len": len, "str": str, "bool": bool}[t[1]](*a)
    if t[0] == "pm" and t[1] in ("match", "search", "fullmatch", "sub", "startswith", "endswith", "replace", "lstrip", "strip", "lower", "upper", "removeprefix", "removesuffix", "split", "rsplit", "partition", "rpartition", "rstrip", "find", "count", "isidentifier", "group"):
        b = cval_eval(t[2], name)
        a = [cval_eval(x, name) for x in t[3]]
        if b is UNKNOWN or b is None or UNKNOWN in a:
            return UNKNOWN
        return getattr(b, t[1])(*a)
    return UNKNOWN


# ============================================================ C05 (handler return codes)
def C05(k):
    fn = "ConfigParserEnhanced.operation_handler"
    with k.rule("R1", "a handler's result 0 is accepted silently, 1..10 and negatives raise a WARNING event, above 10 a CATASTROPHIC one", fn):
        rets = wrapper_run(k)
        lims = {}
        for st, oc in rets:
            callv = [ev for ev in st.trace if ev.kind == "callv" and ev.a[0] == ("s", "HANDLER")]
            if not callv:
                k.ob(oc[0] == "raise", fn, "the wrapped handler is not called", path=path_text(st, oc))
                continue
            k.ob(len(callv) == 1, fn, "the wrapped handler is called %d times" % len(callv), path=path_text(st, oc))
            a = callv[0].a[1]
            k.ob(a == (("o", "self"), SEC, ("o", "HP")), fn, "the wrapped handler is called with %s" % [show(x) for x in a], path=path_text(st, oc))
            res = [t for t in st.ranges if t[0] == "res"]
            ece = [ev for ev in st.trace if ev.kind == "ece"]
            rv = None
            for t in list(st.ranges) + [a_[1] for a_ in st.facts if a_[0] == "eqc"]:
                if t[0] == "res" and t[1] == "callv":
                    rv = t
            lo, hi, ex = st.ranges.get(rv, (float("-inf"), float("inf"), frozenset())) if rv else (float("-inf"), float("inf"), frozenset())
            zero = bool(rv) and (st.facts.get(("eqc", rv, C(0))) is True or lo == hi == 0)
            kinds = [show(ev.a[0]) for ev in ece]
            txt = "a handler result in [%s, %s] %s" % (lo, hi, "(zero)" if zero else "")
            if rv is None:
                k.ob(False, fn, "the handler's result is not checked", path=path_text(st, oc))
                continue
            if zero:
                k.ob(not ece and oc[0] == "return", fn, txt + " raises the events %s" % kinds, path=path_text(st, oc))
            elif hi <= 10:
                k.ob(len(ece) == 1 and ece[0].a[0] == C("WARNING"), fn, txt + " gives the events %s instead of one WARNING" % kinds, path=path_text(st, oc))
                lims["warn"] = max(lims.get("warn", -1), hi)
            elif lo > 10:
                k.ob(len(ece) == 1 and ece[0].a[0] == C("CATASTROPHIC"), fn, txt + " gives the events %s instead of one CATASTROPHIC" % kinds, path=path_text(st, oc))
                k.ob(oc[0] == "raise", fn, txt + " does not raise", path=path_text(st, oc))
                lims["cat"] = min(lims.get("cat", 1 << 30), lo)
            else:
                k.ob(False, fn, txt + " is treated alike across the limit 10 (%s)" % kinds, path=path_text(st, oc))
            if oc[0] == "return":
                k.ob(oc[1] == rv, fn, "the decorated handler returns %s instead of the handler's result" % show(oc[1]), path=path_text(st, oc))
            for ev in ece:
                k.ob(show(ev.a[1]) == "RuntimeError", fn, "the event carries %s instead of RuntimeError" % show(ev.a[1]), ev.loc)
        k.ob(lims.get("warn") == 10 and lims.get("cat") == 11, fn, "limits found: %s" % lims)
    with k.rule("R2", "every handler method of the program checks its result through the decorator", "handler methods"):
        base = k.p.cls(CPE)
        n = 0
        for c in k.p.subclasses(base):
            for nm, f in c.methods.items():
                if re.match(r"^_?handler_", nm) or nm == "_generic_option_handler":
                    n += 1
                    names = [d or "" for d in Engine(k.p).deco_names(f)]
                    k.ob(any(x.split(".")[-1] == "operation_handler" for x in names), f.qual, "handler %s is not decorated with operation_handler, so its result is never checked" % f.qual, f.loc)
        k.ob(n >= 10, "handler methods", "only %d handler methods found" % n)
    with k.rule("R3", "enter and exit are recorded once around every handler call", fn):
        for st, oc in wrapper_run(k, log=True):
            callv = [i for i, ev in enumerate(st.trace) if ev.kind == "callv" and ev.a[0] == ("s", "HANDLER")]
            if oc[0] != "return" or len(callv) != 1:
                continue
            en = [i for i, ev in enumerate(st.trace) if is_call(ev, "enter_handler")]
            ex = [i for i, ev in enumerate(st.trace) if is_call(ev, "exit_handler")]
            k.ob(len(en) == 1 and len(ex) == 1 and en[0] < callv[0] < ex[0], fn, "enter and exit hooks do not bracket the handler", path=path_text(st, oc))


def wrapper_run(k, log=False):
    op = {"_loginfo_add": "silent", "_validate_parameter": "silent", "_validate_handlerparameters": "silent"}
    op.update({"enter_handler": "noraise", "exit_handler": "noraise"} if log else {"enter_handler": "silent", "exit_handler": "silent"})
    e = k.engine(opaque=op)
    st = State()
    s = e.named_obj(st, "self", k.p.cls(CPE))
    hp = e.named_obj(st, "HP", k.p.cls("HandlerParameters"))
    f = k.p.method(CPE, "operation_handler")
    out = []
    for (s1, kk, v) in e.call_func(st, f, [("s", "HANDLER")], {}, f.node, None, inline_always=True):
        if kk != "v":
            continue
        for (s2, k2, v2) in e.call_value(s1, v, [s, SEC, hp], {}, f.node, None):
            out.append((s2, ("return", v2) if k2 == "v" else ("raise", v2)))
    k.paths += len(out)
    return out


# ============================================================ C08 (handler parameters)
def C08(k):
    fn = "ConfigParserEnhanced._parse_section_r"
    carried = lambda t: any(x[0] == "lv" for x in subterms(t))
    with k.rule("R1", "every handler sees the option's own key and value", fn):
        for name, lp, p, root in dispatch_paths(k):
            for ev in flat(p.trace):
                if not is_dispatch(ev):
                    continue
                f = hp_of(ev)
                if f is None:
                    k.undecided(fn, "handler parameters not found at %r" % ev)
                    continue
                ro = f.get("_raw_option", NONE)
                k.ob(ro[0] == "tuple" and len(ro[1]) == 2 and raw_kind(ro[1][0]) == "key" and (raw_kind(ro[1][1]) == "val" or ro[1][1] == NONE and none_val(p.facts)), fn,
                     "the raw option shown to the handler is %s" % show(ro), ev.loc)
                v = f.get("_value", C(""))
                k.ob(raw_kind(v) == "val" or v == NONE and none_val(p.facts), fn, "the value shown to the handler is %s" % show(v), ev.loc)
                if ro[0] == "tuple" and len(ro[1]) == 2:
                    k.ob(v == ro[1][1], fn, "the value shown to the handler differs from the one in the raw option", ev.loc)
    with k.rule("R2", "an operation handler sees its operation and the remaining words of the key; nothing is left over from the option before", fn):
        for name, lp, p, root in dispatch_paths(k):
            for ev in flat(p.trace):
                if not is_dispatch(ev) or hp_of(ev) is None:
                    continue
                f = hp_of(ev)
                op = f.get("_op", C(""))
                pr = content(f.get("_params", ("L",)))
                k.ob(not carried(op) and not carried(pr), fn, "operation or parameters of an earlier option are shown: op %s, params %s" % (show(op), show(pr)), ev.loc)
                if ev.kind == "callv":
                    base, rep = norm_op_term(op)
                    k.ob(is_token0(base), fn, "the operation shown to the handler is %s" % show(op), ev.loc)
                    r = params_ok(pr)
                    if r is None:
                        k.undecided(fn, "params %s" % show(pr))
                    else:
                        k.ob(r, fn, "the parameters shown to the handler are %s, not the words after the operation" % show(pr), ev.loc)
                else:
                    base, rep = norm_op_term(op)
                    k.ob(op == C("") or is_token0(base), fn, "the generic handler is shown the operation %s" % show(op), ev.loc)
                    r = params_ok(pr)
                    k.ob(pr == ("L",) or r is not False, fn, "the generic handler is shown the parameters %s" % show(pr), ev.loc)
    with k.rule("R3", "every handler is told its own name", fn):
        for name, lp, p, root in dispatch_paths(k):
            for ev in flat(p.trace):
                if not is_dispatch(ev) or hp_of(ev) is None:
                    continue
                hn = hp_of(ev).get("_handler_name", C(""))
                if ev.kind == "callv":
                    a, b = split_name(hn), split_name(dyn_name(ev.a[0]))
                    k.ob(a[0] == b[0] and norm_op_term(a[1])[0] == norm_op_term(b[1])[0], fn, "the handler %s is told the name %s" % (show(dyn_name(ev.a[0])), show(hn)), ev.loc)
                else:
                    k.ob(hn == C("_generic_option_handler"), fn, "the generic handler is told the name %s" % show(hn), ev.loc)
        for st, oc in root_run(k)[1]:
            for ev in st.trace:
                for h in ("handler_initialize", "handler_finalize"):
                    if is_call(ev, h) and hp_of(ev) is not None:
                        k.ob(hp_of(ev).get("_handler_name") == C(h), fn, "%s is told the name %s" % (h, show(hp_of(ev).get("_handler_name", NONE))), ev.loc)
                        k.ob(not carried(hp_of(ev).get("_op", C(""))) and hp_of(ev).get("_op", C("")) == C(""), fn, "%s is shown the operation of an option" % h, ev.loc)
                        for fld in ("_params", "_value", "_raw_option"):
                            v = content(hp_of(ev).get(fld, C("")))
                            if fld == "_params" and v[0] not in ("L", "c", "tuple", "lv", "o", "phi"):
                                k.undecided(fn, "%s is shown %s" % (h, show(v)[:60]))
                                continue
                            k.ob(not carried(v) and v in (C(""), NONE, ("L",), ("tuple", ()), ("tuple", (C(""), C("")))), fn, "%s is shown the %s of an option: %s" % (h, fld.strip("_"), show(v)[:60]), ev.loc)
    with k.rule("R4", "every handler is told the section being parsed as root, also inside `use`", fn):
        for name, lp, p, root in dispatch_paths(k):
            for ev in flat(p.trace):
                if is_dispatch(ev) and hp_of(ev) is not None:
                    sr = hp_of(ev).get("_section_root", NONE)
                    k.ob(sr == root, fn, "the root section told to a handler is %s" % show(sr), ev.loc)
        for st, oc in root_run(k)[1]:
            for ev in st.trace:
                if (is_call(ev, "handler_initialize") or is_call(ev, "handler_finalize")) and hp_of(ev) is not None:
                    sr = hp_of(ev).get("_section_root", NONE)
                    k.ob(sr == SEC, fn, "the root section told to %s is %s" % (ev.a[0], show(sr)), ev.loc)
    with k.rule("R5", "the expansion of a used section works on its own parameters object and shares the two dictionaries", "ConfigParserEnhanced._handler_use"):
        n = 0
        for st, oc in use_run(k, False)[1]:
            for ev in flat(st.trace):
                if is_dispatch(ev) and hp_of(ev) is not None:
                    n += 1
                    k.ob(("o", "HP") not in ev.a[1], "ConfigParserEnhanced._handler_use", "the handlers of a used section get the caller's parameters object", ev.loc)
                    k.ob(identity(hp_of(ev).get("_data_shared", NONE)) == ("s", "SHARED"), "ConfigParserEnhanced._handler_use", "the used section does not share data_shared", ev.loc)
                    k.ob(identity(hp_of(ev).get("_data_internal", NONE)) == ("o", "DI"), "ConfigParserEnhanced._handler_use", "the used section does not share data_internal", ev.loc)
            for ev in flat(st.trace):
                if ev.kind in ("setf", "seta") and ev.a[0] == ("o", "HP"):
                    k.ob(False, "ConfigParserEnhanced._handler_use", "expanding a used section changes the caller's parameters: %r" % ev, ev.loc)
        k.ob(n > 0, "ConfigParserEnhanced._handler_use", "no dispatch inside `use`")


def params_ok(pr):
    if pr == ("L",):
        return None
    if pr[0] == "sub":
        return tokens_tail(pr)
    if pr[0] == "L" and len(pr) == 2 and pr[1][0] == "each":
        src = pr[1][2]
        src = src[0] if isinstance(src[0], tuple) else src
        alts = pr[1][3]
        if len(alts) != 1 or alts[0][0]:
            return False        # elements are dropped or changed under conditions
        el = alts[0][1]
        if len(el) != 1 or el[0][0] != "elem":
            return False
        return tokens_tail(src)
    return None


def tokens_tail(t):
    if t[0] == "sub" and t[2][0] == "slice" and t[1][0] == "pc" and t[1][1] == "shlex.split":
        return t[2][1] == C(1) and t[2][2] == NONE and plain_split(t[1])
    if t[0] == "pc" and t[1] == "shlex.split":
        return False
    return None
