"""What the tools show: framed messages, lists of choices and the filtered environment listing."""
import itertools
import re

from kit import *   # noqa: F401,F403
from terms import *   # noqa: F401,F403
from r_core import QUIET
from r_tools import config_dict, attr_const, outcome, view_methods
from r_load import Stub
from pools import words, counts

SELF = ("o", "self")


def shown_lines(t):
    """content of a framed message: its lines without frame and margin, blank ones dropped"""
    out = []
    for l in t.split("\n"):
        if re.fullmatch(r"\+=+\+", l.strip()):
            continue
        l = re.sub(r"^\|\s*", "", l).strip()
        if l:
            out.append(l)
    return out


def msg_engine(k):
    e = k.engine(opaque=dict(QUIET), max_steps=400000)
    view_methods(e)
    e.fold_paths = True
    e.calm = True
    e.unroll = e.unroll_while = 400
    return e


def text_result(e, res):
    """constant text of each path, UNK when it is not known"""
    out = []
    for st, oc in res:
        o = outcome(e, st, *oc)
        out.append(o if o is None or o[0] == "raise" else o[1])
    return out


def K03(k):
    fn = "FormattedMsg.get_formatted_msg"
    m = k.p.method("FormattedMsg", "get_formatted_msg")
    ml = k.p.method("FormattedMsg", "get_msg_for_list")
    cls = k.p.cls("FormattedMsg")
    MSGS = ("", "one", "one\ntwo", "a\n\nb\nc", "x  \ny", "one\none", "  lead", "|pipe", "+==+ not a frame", "long " * 30, "tab\tbed", "ERROR: e", "a\n b\n  c")
    ws = [w for w in words(k.p, "FormattedMsg", "DetermineSystem", sep="") if not set(w) <= set("+=|") and not re.match(r"\+=|\|", w)]
    with k.rule("R1", "a framed message shows its kind, then every line of the message and of the extra text, once and in order, between two frame lines", fn):
        more = [(w + "\nsecond " + w, "INFO", "  " + w + "\n\nx " + w + " y") for w in ws] + [("first\n" + w, "WARNING", w + "\n" + w) for w in ws]
        more += [("\n".join("l%d" % j for j in range(n)), "ERROR", "\n".join("  e%d" % j for j in range(m))) for n in counts(k.p, "FormattedMsg") for m in (0, 2, n)]
        more += [("word " * n, "ERROR", ("x" * n) + "\n" + "y " * n) for n in counts(k.p, "FormattedMsg")]
        for msg, kind, extras in itertools.chain(itertools.product(MSGS, ("ERROR", "INFO", "WARNING"), ("", "e1", "e1\ne2", "\n  - x\n  - y\n", "one")), more):
            e = msg_engine(k)
            st = State()
            s = e.named_obj(st, "self", cls, fresh=True)
            res = k.run(e, m, [s, C(msg)], st, {"kind": C(kind), "extras": C(extras)})
            first = msg.splitlines()[:1]
            want = ([kind + ":  " + first[0].strip()] if first and first[0].strip() else [kind + ":"] if first else []) + [l.strip() for l in msg.splitlines()[1:] + extras.splitlines() if l.strip()]
            want = [re.sub(r"^\|\s*", "", w) for w in want]
            k.table([squeeze(shown_lines(t)) if isinstance(t, str) else t for t in text_result(e, res)], squeeze(want), fn, "message %r, kind %s, extras %r" % (msg[:40], kind, extras))
            k.table([len(re.findall(r"(?m)^\+=+\+$", t)) if isinstance(t, str) else None for t in text_result(e, res)], 2, fn, "frame lines of message %r, extras %r" % (msg[:40], extras))
            k.table([all(l.startswith("|") for l in t.split("\n") if l.strip() and not re.fullmatch(r"\+=+\+", l)) if isinstance(t, str) else None for t in text_result(e, res)], True, fn, "margin of message %r, extras %r" % (msg[:40], extras))
    fn = "FormattedMsg.get_msg_for_list"
    with k.rule("R2", "a list message shows every item, once and in order, after the message and before the extra text", fn):
        more = [("pick", ws[i:i + 7], "see", "INFO") for i in range(0, len(ws), 5)] + [("pick", [w, "b", w], "", "ERROR") for w in ws]
        more += [("pick", ["i%d" % j for j in range(n)], x, "ERROR") for n in counts(k.p, "FormattedMsg", "KeywordParser", "EnvKeywordParser") for x in ("", "see\nfile")]
        for msg, items, extras, kind in itertools.chain(itertools.product(("pick one", "pick\none"), ([], ["a"], ["b", "a", "c"], ["a", "a"], ["x y", "b-1"], ["%d" % i for i in range(12)]), ("", "see file", "\n"), ("ERROR", "INFO")), more):
            e = msg_engine(k)
            st = State()
            s = e.named_obj(st, "self", cls, fresh=True)
            l = e.named_obj(st, "ITEMS", None, fresh=True, kind="list", items=tuple(("i", C(x)) for x in items))
            res = k.run(e, ml, [s, C(msg), l], st, {"kind": C(kind), "extras": C(extras)})
            want = squeeze([kind + ":  " + msg.splitlines()[0]] + msg.splitlines()[1:] + ["- " + x for x in items] + [x for x in extras.splitlines() if x.strip()])
            k.table([squeeze(shown_lines(t)) if isinstance(t, str) else t for t in text_result(e, res)], want, fn, "items %s, extras %r" % (items, extras))
    fn = "EnvKeywordParser.get_msg_showing_supported_environments"
    with k.rule("R3", "the list of environments shows every environment of the system and every alias under its environment, and none of another system", fn):
        envs = {"sysA": {"gnu-7": "gcc\ng7 # c", "intel-9": None, "clang": "cl\n\nbang"}, "sysB": {"xl": "ibm"}, "sysC": {}}
        wo = [w for w in words(k.p, "EnvKeywordParser", "KeywordParser") if not re.search(r"[\s#]", w) and not set(w) <= set("+=|") and not re.match(r"\+=|\|", w)]
        for i in range(0, len(wo) - 9, 6):
            g = wo[i:i + 9]
            envs["sys%d" % i] = {g[0]: None, g[1]: g[2] + "\n" + g[3], g[4]: "\n".join(g[5:8]), g[8]: "zz-%d" % i}
        for n in (25, 101):
            envs["big%d" % n] = {"e%d" % j: "a%d" % j if j % 3 else None for j in range(n)}
            envs["wide%d" % n] = {"e": "\n".join("a%d" % j for j in range(n)), "f": None}
        for sysn in envs:
            e = msg_engine(k)
            st = State()
            cfg = config_dict(e, st, "CFG", envs)
            attr_const(e, config=cfg)
            names = list(envs[sysn])
            s = e.named_obj(st, "self", k.p.cls("EnvKeywordParser"), fields={"config_filename": C("/x/envs.ini"), "system_name": C(sysn), "build_name": C("b"), "delim": C("_"),
                                                                             "env_names": e.named_obj(st, "EN", None, fresh=True, kind="list", items=tuple(("i", C(x)) for x in names))})
            e.opaque["ext:os.path.relpath"] = lambda en, s_, name, args, kwargs, node, fid: [(s_, "v", C("envs.ini"))]
            res = k.run(e, k.p.method("EnvKeywordParser", "get_msg_showing_supported_environments"), [s, C("pick")], st, {"kind": C("INFO")})
            want = []
            for n in sorted(names):
                want.append("- " + n)
                want += ["- " + a for a in sorted(x.split("#")[0].strip() for x in (envs[sysn][n] or "").split("\n") if x.split("#")[0].strip())]
            k.table([[l for l in shown_lines(t) if l.startswith("- ") and not l.lower().startswith("- supported")] if isinstance(t, str) else t for t in text_result(e, res)], want, fn, "system %s" % sysn)
            k.table([[x for x in ("INFO", "pick", "'" + sysn + "'") if x not in t] if isinstance(t, str) else t for t in text_result(e, res)], [], fn, "system %s: parts missing" % sysn)
    fn = "ConfigKeywordParser.get_msg_showing_supported_flags"
    with k.rule("R4", "the list of flags shows every flag in file order with its selection type and options, the first option as the default", fn):
        wo = [w for w in words(k.p, "config_keyword_parser", "KeywordParser") if not re.search(r"[\s#]", w) and not set(w) <= set("+=|") and not re.match(r"\+=|\|", w)]
        secs = [{"f1": "SELECT_ONE\na\nb", "f2": "SELECT_MANY\nz # note\ny\n\nx", "f3": "SELECT_ONE\nq"}, {"z": "SELECT_MANY\nm\nn"}]
        secs += [{"A" + wo[i] + "f": "SELECT_ONE\n" + "\n".join(wo[i + 1:i + 4]), "b" + wo[i]: "SELECT_MANY\n" + "\n".join(wo[i + 4:i + 7])} for i in range(0, len(wo) - 7, 5)]
        secs += [{"f%d" % j: "SELECT_%s\no%d\np%d" % (("ONE", "MANY")[j % 2], j, j) for j in range(n)} for n in (12, 60)] + [{"f": "SELECT_ONE\n" + "\n".join("o%d" % j for j in range(n)), "g": "SELECT_MANY\nx"} for n in (1, 12, 101)]
        for sec in secs:
            e = msg_engine(k)
            st = State()
            cfg = config_dict(e, st, "CFG", {"configure-flags": sec})
            attr_const(e, config=cfg)
            cl = k.p.cls("ConfigKeywordParser")
            s = e.named_obj(st, "self", cl, fresh=True)
            init = k.p.find_member(cl, "__init__")[1]
            mm = k.p.method("ConfigKeywordParser", "get_msg_showing_supported_flags")
            outs = []
            for (s2, kd, v) in e.call_func(st, init, [s, C("b"), C("/x/flags.ini")], {}, init.node, None, inline_always=True):
                outs += [(s2, ("raise", v))] if kd == "x" else k.run(e, mm, [s, C("pick")], s2, {"kind": C("INFO")})
            want = []
            for f, t in sec.items():
                vals = [x.split("#")[0].strip() for x in t.split("\n") if x.split("#")[0].strip()]
                want.append(f)
                want.append(vals[0])
                want += [x + (" (default)" if i == 0 else "") for i, x in enumerate(vals[1:])]

            def items(t):
                out = []
                for l in shown_lines(t):
                    q = re.fullmatch(r"\* Options? \((\w+)\):", l)
                    if q:
                        out.append(q.group(1))
                    elif l.startswith("- ") and not l.lower().startswith("- supported"):
                        out.append(l[2:])
                return out
            k.table([items(t) if isinstance(t, str) else t for t in text_result(e, outs)], want, fn, "flags %s" % sec)


def squeeze(lines):
    return [re.sub(r"\s+", " ", l) for l in lines]


def printed(st):
    out = ""
    for ev in flat(st.trace):
        if ev.kind != "print":
            continue
        kw = dict(ev.a[1])
        sep, end = kw.get("sep", C(" ")), kw.get("end", C("\n"))
        parts = [a[2] if is_c(a) else None for a in ev.a[0]]
        if None in parts or not is_c(sep) or not is_c(end) or "file" in kw:
            return UNK
        out += (" " if sep[2] is None else sep[2]).join(str(x) for x in parts) + ("\n" if end[2] is None else end[2])
    return out


def S07(k):
    fn = "SetEnvironment.pretty_print_envvars"
    m = k.p.method("SetEnvironment", "pretty_print_envvars")
    VARS = (("HOME", "/h"), ("FOO", "1"), ("FOO_BAR", "two"), ("xFOO", "secret"), ("PATH", "/a:/b"), ("foo", "low"), ("EMPTY", ""), ("EQ", "a=b"))
    with k.rule("R1", "without a filter every variable is shown with its value; with one, the value is shown exactly for names that contain a filter entry and the other names are shown bare or, when asked, not at all", fn):
        ws = [w for w in words(k.p, "SetEnvironment", sep="") if not re.search(r"[\s=]", w)]
        cases = [(env, filt, only) for env in (VARS, VARS[:1], ()) for filt, only in itertools.product((None, [], ["FOO"], ["FOO", "PATH"], ["PATH", "FOO"], ["foo"], ["O"], ["FOO_BAR", "FOO"], ["nothing"], ["secret"], ["EMPTY", "zz"], [""], ["HOME", "HOME"], ["zz", "EQ"]), (False, True, None))]
        for i, w in enumerate(ws):
            env = (("v" + w, "1"), (w, ws[i - 1]), ("other" + ws[i - 2], w), (w.swapcase() + "q", "2"), (w[:1], ws[i - 3] + "=" + w))
            env = tuple(dict(env).items())
            cases += [(env, [w], bool(i % 2)), (env, ["zz", w], None), (env, None, True), (env, ["v" + w, "other"], i % 2 == 0)]
        for n in counts(k.p, "SetEnvironment"):
            cases += [(tuple(("V%d" % j, "x%d" % j) for j in range(n)), f, o) for f in (None, ["V1"], ["zz%d" % j for j in range(n)] + ["V%d" % (n - 1)]) for o in (True, False)]
        for _ in (1,):
            for env, filt, only in cases:
                e = k.engine(opaque=dict(QUIET), max_steps=400000)
                e.calm = True
                e.unroll = e.unroll_while = 400
                sb = Stub(e)
                st = State()
                data = e.named_obj(st, "ENVIRON", None, fresh=True, kind="dict", items=tuple(("kv", C(a), C(b)) for a, b in env))
                sb.attrs[(("ext", "os"), "environ")] = data
                s = e.named_obj(st, "self", k.p.cls("SetEnvironment"))
                fl = NONE if filt is None else e.named_obj(st, "FILTER", None, fresh=True, kind="list", items=tuple(("i", C(x)) for x in filt))
                res = k.run(e, m, [s, fl] + ([] if only is None else [C(only)]), st)
                want = []
                for a, b in env:
                    hit = filt is None or any(x in a for x in filt)
                    if hit:
                        want.append("[envvar]: %s = %s" % (a, b))
                    elif not only:
                        want.append("[envvar]: %s" % a)
                what = "filter %s, only matching %s, %d variables" % (filt, only, len(env))

                def lines(st_):
                    t = printed(st_)
                    return t if t is UNK else [l for l in t.split("\n") if l.startswith("[envvar]")]
                k.table([lines(x[0]) for x in res], want, fn, what)
                k.table([outcome(e, x[0], *x[1]) for x in res], ("return", 0), fn, what + ": result")
