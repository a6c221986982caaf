"""Wrong kinds of arguments: refused with TypeError before anything is done or stored."""
from engine import Budget
from kit import *   # noqa: F401,F403
from terms import *   # noqa: F401,F403
from r_tools import outcome
from r_load import file_acts, call

CPE, SE, VIEW = "ConfigParserEnhanced", "SetEnvironment", "ConfigParserEnhanced.ConfigParserEnhancedData"
TUP = ("tuple", (C("a"), C("b")))
LST, DCT = ("o", "ALIST"), ("o", "ADICT")
NOTSTR = (C(5), NONE, TRUE, C(2.5), C(b"x"), TUP, LST, DCT)
NOTBOOL = (C(0), C(1), C("yes"), C(""), NONE, C(1.0), LST)
NOTDICT = (C("x"), NONE, LST, TUP, C(5))
NOTINT = (C("0"), NONE, C(0.0), LST, C(""))

METHODS = (
    (CPE, "parse_section", (("section", NOTSTR, C("SEC")),)),
    (CPE, "parse_section", (("section", None, C("SEC")), ("initialize", NOTBOOL, TRUE))),
    (CPE, "parse_section", (("section", None, C("SEC")), ("finalize", NOTBOOL, TRUE))),
    (CPE, "unroll_to_str", (("section", (C(5), TRUE, C(b"x"), TUP, LST, DCT), C("SEC")),)),
    (CPE, "write", (("file_object", (C("f.ini"), NONE, C(1), LST), None),)),
    (SE, "parse_section", (("section", NOTSTR, C("SEC")),)),
    (SE, "apply", (("section", NOTSTR, None),)),
    (SE, "pretty_print_actions", (("section", NOTSTR, None),)),
    (SE, "pretty_print_envvars", (("envvar_filter", (C("PATH"), C(""), C(5), TRUE, TUP, DCT), None),)),
    (SE, "pretty_print_envvars", (("filtered_keys_only", NOTBOOL, None),)),
    (SE, "write_actions_to_file", (("filename", (C(5), NONE, C(b"x"), LST), None), ("section", None, C("SEC")))),
    (SE, "write_actions_to_file", (("filename", None, C("f.sh")), ("section", NOTSTR, None))),
) + tuple((SE, "write_actions_to_file", (("filename", None, C("f.sh")), ("section", None, C("SEC")), (n, v, None)))
          for n, v in (("include_header", NOTBOOL), ("include_body", NOTBOOL), ("include_shebang", NOTBOOL), ("interpreter", NOTSTR))) + (
    (SE, "generate_actions_script", (("section", NOTSTR, None),)),
) + tuple((SE, "generate_actions_script", (("section", None, C("SEC")), (n, v, None)))
          for n, v in (("incl_hdr", NOTBOOL), ("incl_body", NOTBOOL), ("incl_shebang", NOTBOOL), ("interp", NOTSTR)))

PROPS = (
    (CPE, "inifilepath", (C(5), NONE, C(2.5), C(b"x"), TRUE, DCT, TUP)),
    (CPE, "configparser_delimiters", (C(5), NONE, TRUE, C(b"="), DCT)),
    (SE, "actions", NOTDICT),
)


def setup(k, cls, level):
    # what lies behind the checks is cut off where it can be (a helper that is not on the list is followed)
    e = k.engine(opaque=dict({"exception_control_event": "inline", "debug_message": "event", "_loginfo_add": "event"},
                             **{n: "event" for n in ("_apply_envvar", "_apply_module",
                                                     "_gen_actioncmd_envvar", "_gen_actioncmd_module", "_gen_script_header_bash", "_gen_script_header_python")}))
    st = State()
    s = e.named_obj(st, "self", k.p.cls(cls), fields={"_exception_control_level": C(level), "_debug_level": C(0)})
    e.named_obj(st, "ALIST", None, fresh=True, kind="list", items=(("i", C("x")),))
    e.named_obj(st, "ADICT", None, fresh=True, kind="dict", items=(("kv", C("x"), C("y")),))
    return e, s, st


def no_section(e, w):
    """nothing but text names a section of the files"""
    cfg = ("s", "CFG")

    def has(en, s_, b, nm, a, kw, nd, f):
        if b != cfg or w not in list(a) + list(kw.values()):
            return None
        return [(s_, "x", ("exc", "TypeError", ()))] if w in (LST, DCT) else [(s_, "v", FALSE)]
    e.attr_specs = {"configparserdata": lambda en, s_, b, n, nd, f: [(s_, "v", cfg)] if b == ("o", "self") else None}
    e.method_specs = {"has_section": has}


def done(e, st):
    """effects of the path besides messages"""
    return [ev.kind for ev in flat(st.trace) if ev.kind in ("x", "xm", "exec", "environ")] if file_acts(st.trace) else []


def how(e, x):
    """what the caller sees: the exception, where it comes at once, or that the argument was accepted"""
    st, kd, v = x
    if kd != "x":
        return "accepted"
    o = outcome(e, st, kd, v)
    late = [ev for ev in flat(st.trace) if ev.kind in ("xm", "seta", "exec", "environ")]
    return o if o == ("raise", "TypeError") and not late else "accepted, fails later"


def C17(k):
    levels = (0, 5) if k.tier == "quick" else range(6)
    with k.rule("R1", "a parameter of the wrong kind is a TypeError at every exception control level, before any file is touched", "the public methods"):
        for cls, name, params in METHODS:
            m = k.p.method(cls, name)
            fn = "%s.%s" % (cls, name)
            for (pn, wrong, _) in params:
                for w in wrong or ():
                    for lv in levels:
                        e, s, st = setup(k, cls, lv)
                        kw = {n: good for n, _, good in params if n != pn}
                        kw[pn] = w
                        what = "%s = %s at level %d" % (pn, kind(w), lv)
                        e.max_steps = min(e.max_steps, 20000)
                        if pn != "section" and name != "parse_section":
                            e.opaque["parse_section"] = "event"
                        if pn == "section":
                            no_section(e, w)
                        if name == "write":
                            e.opaque["unroll_to_str"] = "event"
                        try:
                            res = e.call_func(st, m, [s], kw, m.node, None, inline_always=True)
                        except Budget:
                            k.undecided(fn, what + ": the paths are too many")
                            continue
                        k.paths += len(res)
                        k.table([how(e, x) for x in res], ("raise", "TypeError"), fn, what)
                        k.table([done(e, x[0]) for x in res], [], fn, what + ": done before")
    with k.rule("R2", "a refused assignment is a TypeError and leaves the property as it was", "the properties"):
        for cls, name, wrong in PROPS:
            pr = k.p.find_member(k.p.cls(cls), name)[1]
            fn = "%s.%s" % (cls, name)
            for w in wrong:
                for lv in levels:
                    e, s, st = setup(k, cls, lv)
                    old = dict(st.heap["self"].fields)
                    res = e.set_attr(st, s, name, w, pr.setter.node, None)
                    k.paths += len(res)
                    what = "assigning %s at level %d" % (kind(w), lv)
                    k.table([how(e, x) for x in res], ("raise", "TypeError"), fn, what)
                    k.table([sorted(n for n, v in x[0].heap["self"].fields.items() if n.startswith("_") and n not in old) for x in res if x[1] == "x"] or [[]], [], fn, what + ": stored all the same")
    with k.rule("R3", "a handler that gives back something other than a number is a TypeError, not a success", "ConfigParserEnhanced._check_handler_rval"):
        m = k.p.method(CPE, "_check_handler_rval")
        for w in NOTINT:
            for lv in levels:
                e, s, st = setup(k, CPE, lv)
                res = e.call_func(st, m, [s, C("handler_x"), w], {}, m.node, None, inline_always=True)
                k.table([how(e, x) for x in res], ("raise", "TypeError"), CPE + "._check_handler_rval", "a handler gives %s at level %d" % (kind(w), lv))


def kind(v):
    return "a list" if v == LST else "a dict" if v == DCT else show(v)
