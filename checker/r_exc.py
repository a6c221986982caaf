"""Rules about exception control and typed properties."""
from kit import *   # noqa: F401,F403
from terms import *   # noqa: F401,F403

EC = "ExceptionControl"
REQ = {"SILENT": 5, "WARNING": 5, "MINOR": 4, "SERIOUS": 3, "CRITICAL": 2, "CATASTROPHIC": 0}
VARIANTS = {"quick": (str.upper, str.lower), "thorough": (str.upper, str.lower, str.capitalize, str.swapcase)}


def event_run(k, name, level, silent=None, compact=None, msg=("s", "MSG"), exc=("ext", "RuntimeError"), cls=EC):
    e = k.engine(opaque={"exception_control_event": "inline"})
    st = State()
    fl = {"_exception_control_level": level if isinstance(level, tuple) else C(level)}
    if silent is not None:
        fl["_exception_control_silent_warnings"] = C(silent)
    if compact is not None:
        fl["_exception_control_compact_warnings"] = C(compact)
    s = e.named_obj(st, "self", k.p.cls(cls), fields=fl)
    return k.run(e, k.p.method(cls, "exception_control_event"), [s, name if isinstance(name, tuple) else C(name), exc, msg], st)


# ============================================================ C06
def C06(k):
    fn = "ExceptionControl.exception_control_event"
    variants = VARIANTS[k.tier]
    with k.rule("R1", "for every event type (any letter case) and level 0..5 the event raises exactly when the level reaches the type's requirement", fn):
        for ev, req in sorted(REQ.items()):
            for lvl in range(6):
                for case in variants:
                    name = case(ev)
                    res = event_run(k, name, lvl)
                    ocs = {oc[0] for st, oc in res}
                    want = "raise" if lvl >= req else "return"
                    bad = [(st, oc) for st, oc in res if oc[0] != want]
                    k.ob(not bad and ocs, fn, "an event `%s` at level %d can %s (it must %s)" % (name, lvl, "return" if want == "raise" else "raise " + show(bad[0][1][1]) if bad else "?", want),
                         path=path_text(*bad[0]) if bad else None)
        for exc in (("ext", "KeyboardInterrupt"), ("ext", "SystemExit"), ("ext", "OSError"), ("cls", k.p.cls("AmbiguousHandlerError").qual)):
            for ev, req in sorted(REQ.items()):
                for lvl in range(6):
                    res = event_run(k, ev, lvl, exc=exc)
                    outs = [None if oc[0] == "raise" and exc_name(oc[1]) is None else "raise of " + exc_name(oc[1]) if oc[0] == "raise" else "return" for st, oc in res]
                    k.table(outs, "raise of " + exc[1].split(".")[-1] if lvl >= req else "return", fn, "an event `%s` with %s at level %d" % (ev, exc[1], lvl))
    with k.rule("R2", "a raised event carries the caller's exception type and, when given, the caller's message", fn):
        for ev, req in sorted(REQ.items()):
            for msg in (NONE, ("s", "MSG"), C("a message"), C("")):
                for st, oc in event_run(k, ev, 5, msg=msg):
                    if oc[0] != "raise":
                        continue
                    v = oc[1]
                    nm = exc_name(v)
                    k.ob(nm == "RuntimeError", fn, "event `%s` raises %s instead of the given exception type" % (ev, show(v)), path=path_text(st, oc))
                    if msg != NONE and v[0] == "exc" and len(v) > 2:
                        none = st.facts.get(("isnone", msg)) is True
                        k.ob(none or mentions(v, msg) or len(v) < 3, fn, "event `%s` drops the message" % ev, path=path_text(st, oc))
                    if msg == C("") and v[0] == "exc":
                        k.ob(v[2][:1] == (msg,), fn, "event `%s` drops the empty message" % ev, path=path_text(st, oc))
                    if msg[0] == "c" and v[0] != "exc":
                        k.ob(msg == NONE, fn, "event `%s` drops the message" % ev, path=path_text(st, oc))
    with k.rule("R3", "a skipped event prints a notice exactly at levels 1..4, never for SILENT events and never with silenced warnings", fn):
        for ev, req in sorted(REQ.items()):
            for lvl in range(req):
                for silent in (False, True):
                    for compact in (False, True):
                        for st, oc in event_run(k, ev, lvl, silent, compact):
                            if oc[0] != "return":
                                continue
                            n = sum(1 for x in flat(st.trace) if is_output(x))
                            want = lvl > 0 and not silent and ev != "SILENT"
                            k.ob((n > 0) == want, fn, "a skipped `%s` event at level %d (silenced: %s, compact: %s) prints %d notices" % (ev, lvl, silent, compact, n), path=path_text(st, oc))
                            if want and compact:
                                k.ob(n == 1, fn, "the compact notice of a skipped `%s` event takes %d lines" % (ev, n), path=path_text(st, oc))
                            if want and n:
                                txt = " ".join(show(x.a[0]) for x in flat(st.trace) if is_output(x))
                                k.ob(ev in txt and "RuntimeError" in txt, fn, "the notice of a skipped `%s` event does not name event and exception" % ev, path=path_text(st, oc))
    with k.rule("R4", "the level property keeps any assigned integer within 0..5 and defaults to 4", "ExceptionControl.exception_control_level"):
        for v in (-100, -1, 0, 1, 2, 3, 4, 5, 6, 99):
            for st, oc, got in set_get(k, EC, "exception_control_level", C(v)):
                if oc == "raise":
                    k.ob(False, "ExceptionControl.exception_control_level", "assigning %d raises %s" % (v, show(got)))
                    continue
                k.ob(got == C(min(5, max(0, v))), "ExceptionControl.exception_control_level", "after assigning %d the level reads %s" % (v, show(got)))
        for st, oc, got in set_get(k, EC, "exception_control_level", None):
            k.ob(got == C(4), "ExceptionControl.exception_control_level", "the default level is %s" % show(got))
    with k.rule("R5", "an event with something that is not an exception raises TypeError at every level", fn):
        for lvl in range(6):
            for ev in ("SILENT", "CATASTROPHIC"):
                for bad in (C(5), C("text")):
                    for st, oc in event_run(k, ev, lvl, exc=bad):
                        k.ob(oc[0] == "raise" and exc_name(oc[1]) == "TypeError", fn, "an event carrying %s at level %d ends with %s" % (show(bad), lvl, oc[0]), path=path_text(st, oc))
    with k.rule("R6", "an unknown event type is an error, not a skipped event", fn):
        names = ["NO-SUCH-EVENT", "", " ", "0", "5", "NONE", "WARN", "WARNINGS", "ERROR", "CRITICA", "RITICAL"]
        names += [a + ev + b for ev in sorted(REQ) for a, b in ((" ", ""), ("", " "), ("", "\n"), ("", "."), ("", "_EVENT"), ("X", ""))] + [ev[:-1] for ev in sorted(REQ)]
        for name in names:
            for lvl in (0, 3, 5):
                for st, oc in event_run(k, name, lvl):
                    k.ob(oc[0] == "raise" and exc_name(oc[1]) != "RuntimeError", fn, "an unknown event type %r at level %d is %s" % (name, lvl, "ignored" if oc[0] != "raise" else "taken for a known one"), path=path_text(st, oc))
    with k.rule("R7", "the two notice switches accept only bool, keep the assigned value, and default to False", EC):
        for prop in ("exception_control_silent_warnings", "exception_control_compact_warnings"):
            c = EC + "." + prop
            for v in (True, False):
                for st, oc, got in set_get(k, EC, prop, C(v)):
                    k.ob(oc == "return" and got == C(v), c, "after assigning %s it reads %s" % (v, show(got)))
            for v in (0, 1, "yes", None):
                for st, oc, got in set_get(k, EC, prop, C(v)):
                    k.ob(oc == "raise" and exc_name(got) == "TypeError", c, "assigning %r is accepted" % (v,))
            for st, oc, got in set_get(k, EC, prop, None):
                k.ob(got == C(False), c, "the default is %s" % show(got))


def is_output(ev):
    if ev.kind == "print":
        return True
    return ev.kind == "x" and ev.a[0] in ("sys.stdout.write", "sys.stderr.write", "pprint.pprint", "logging.warning")


def set_get(k, cls, prop, value):
    """assign (unless None) and read back a property on a fresh object"""
    c = k.p.cls(cls)
    pr = c.props[prop] if hasattr(c, "props") and prop in getattr(c, "props", {}) else None
    e = k.engine()
    st = State()
    o = e.named_obj(st, "OBJ", c, fresh=True)
    e.exact_class.add("OBJ") if hasattr(e, "exact_class") and isinstance(e.exact_class, set) else None
    node = c.node
    sts = [(st, "v", NONE)]
    if value is not None:
        sts = e.set_attr(st, o, prop, value, node, None)
    out = []
    for r in sts:
        s = r[0]
        bad = (r[1] == "x") if len(r) == 3 else (r[1][0] == "raise")
        if bad:
            out.append((s, "raise", r[2] if len(r) == 3 else r[1][1]))
            continue
        for (s2, kk, v) in e.get_attr(s, o, prop, node, None):
            out.append((s2, "return" if kk == "v" else "raise", v))
    k.paths += len(out)
    return out


# ============================================================ C07
V = ("s", "V")
DEF, DFACT, ITYPE, VALID, TRANS = (("s", x) for x in ("DEFAULT", "FACTORY", "ITYPE", "VALID", "TRANS"))
TYPES = ("tuple", (("ext", "int"), ("ext", "str")))


class Prop:
    def __init__(self, k, implicit=False, name="x", **knobs):
        self.k = k
        self.f = k.p.func("TypedProperty", "typed_property") if False else next(f for f in k.p.all_functions() if f.name == "typed_property" and f.cls is None)
        self.e = k.engine(implicit_raises=implicit, record_fresh=True)
        st = State()
        for t in (ITYPE, VALID, TRANS, DFACT, DEF):
            st.facts[("isnone", t)] = False
        kw = {"expected_type": TYPES}
        kw.update(knobs)
        rs = self.e.call_func(st, self.f, [C(name)], kw, self.f.node, None, inline_always=True)
        rs = [r for r in rs if r[1] == "v"]
        if len(rs) != 1 or rs[0][2][0] != "propobj":
            raise Undecided("the property object made by typed_property is not understood")
        self.st, _, self.po = rs[0]
        for t in (VALID, TRANS, DFACT):
            self.st.facts[("pc", "callable", (t,), ())] = True
        # an explicit default is not the "no default" marker
        self.e.decide_hook = lambda st, op, a, b: False if op in ("Eq", "Is") and DEF in (a, b) and (a[0] in ("cls", "gv", "o", "ext") or b[0] in ("cls", "gv", "o", "ext")) else None

    def fresh(self):
        s = self.st.copy()
        o = self.e.named_obj(s, "OBJ", self.k.p.cls("HandlerParameters"), fresh=True)
        return s, o

    def call(self, s, i, args):
        r = self.e.call_value(s.copy(), self.po[i], args, {}, self.f.node, None)
        self.k.paths += len(r)
        return r


def writes(trace, o=("o", "OBJ")):
    return [ev for ev in flat(trace) if ev.kind in ("setf", "delf", "seta", "dela") and ev.a[0] == o]


def C07(k):
    fn = "TypedProperty.typed_property"
    O = ("o", "OBJ")
    with k.rule("R1", "before any assignment the property reads as its own deep copy of the default, made once", fn):
        P = Prop(k, default=DEF)
        s, o = P.fresh()
        n = 0
        for (s1, kk, v) in P.call(s, 1, [o]):
            if kk != "v":
                k.ob(False, fn, "reading an unassigned property with a default raises %s" % show(v), path=path_text(s1, ("raise", v)))
                continue
            n += 1
            cp = v[0] == "pc" and v[1] == "copy.deepcopy" and v[2] == (DEF,)
            if cp:
                k.ob(True, fn)
            elif v == DEF or (v[0] == "pc" and v[1] == "copy.copy") or not mentions(v, DEF):
                k.ob(False, fn, "an unassigned property reads as %s instead of a deep copy of its default" % show(v), path=path_text(s1, ("return", v)))
            else:
                k.undecided(fn, "unassigned property reads as %s" % show(v))
            for (s2, k2, v2) in P.call(s1, 1, [o]):
                w = [ev for ev in s2.trace[len(s1.trace):] if ev.kind == "setf" and mentions(ev.a[2], DEF)]
                k.ob(k2 == "v" and not w, fn, "a second read makes a new default value: in-place changes to the first are lost", path=path_text(s2, ("return", v2)))
        k.ob(n > 0, fn, "no path reads the default")
    with k.rule("R2", "without a default the factory provides the initial value, once", fn):
        P = Prop(k, default_factory=DFACT)
        s, o = P.fresh()
        for (s1, kk, v) in P.call(s, 1, [o]):
            calls = [ev for ev in s1.trace if ev.kind == "callv" and ev.a[0] == DFACT]
            k.ob(kk == "v" and len(calls) == 1 and v[0] == "res" and not calls[0].a[1], fn, "an unassigned property without default reads as %s, with %d factory calls" % (show(v), len(calls)), path=path_text(s1, ("return", v)))
            if kk != "v":
                continue
            for (s2, k2, v2) in P.call(s1, 1, [o]):
                calls = [ev for ev in s2.trace if ev.kind == "callv" and ev.a[0] == DFACT]
                k.ob(k2 == "v" and len(calls) == 1 and v2 == v, fn, "a second read calls the factory again or gives another value", path=path_text(s2, ("return", v2)))
    with k.rule("R3", "a property that must be assigned first raises UnboundLocalError until it is, and again after deletion", fn):
        P = Prop(k, default=DEF, req_assign_before_use=C(True))
        s, o = P.fresh()
        for (s1, kk, v) in P.call(s, 1, [o]):
            k.ob(kk == "x" and exc_name(v) == "UnboundLocalError", fn, "reading before assignment gives %s" % show(v), path=path_text(s1, ("return", v)))
            if kk == "x":       # still unassigned after the failed read
                for (s2, k2, v2) in P.call(s1, 1, [o]):
                    k.ob(k2 == "x", fn, "the second read before assignment gives %s" % show(v2), path=path_text(s2, ("return", v2)))
        s, o = P.fresh()
        n = 0
        for (s1, kk, v) in P.call(s, 2, [o, V]):
            if kk != "v":
                continue
            n += 1
            for (s2, k2, v2) in P.call(s1, 1, [o]):
                k.ob(k2 == "v" and v2 == V, fn, "after assignment the property reads as %s" % show(v2), path=path_text(s2, ("return", v2)))
            for (s2, k2, v2) in P.call(s1, 3, [o]):
                if k2 != "v":
                    k.ob(False, fn, "deleting an assigned property raises", path=path_text(s2, ("raise", v2)))
                    continue
                for (s3, k3, v3) in P.call(s2, 1, [o]):
                    k.ob(k3 == "x" and exc_name(v3) == "UnboundLocalError", fn, "after deletion the property reads as %s" % show(v3), path=path_text(s3, ("return", v3)))
        k.ob(n > 0, fn, "no path assigns the property")
    with k.rule("R4", "deletion brings back the default and is harmless on an unassigned property", fn):
        P = Prop(k, default=DEF)
        s, o = P.fresh()
        for (s1, kk, v) in P.call(s, 3, [o]):
            k.ob(kk == "v", fn, "deleting an unassigned property raises %s" % show(v), path=path_text(s1, ("raise", v)))
        for (s1, kk, v) in P.call(s, 2, [o, V]):
            if kk != "v":
                continue
            for (s2, k2, v2) in P.call(s1, 3, [o]):
                if k2 != "v":
                    k.ob(False, fn, "deleting an assigned property raises", path=path_text(s2, ("raise", v2)))
                    continue
                for (s3, k3, v3) in P.call(s2, 1, [o]):
                    k.ob(k3 == "v" and v3 != V and mentions(v3, DEF), fn, "after deletion the property reads as %s" % show(v3), path=path_text(s3, ("return", v3)))
    with k.rule("R5", "only values of the expected types are stored; a refused assignment leaves the property untouched", fn):
        for et, label in ((TYPES, "several types"), (("ext", "int"), "one type")):
            P = Prop(k, expected_type=et, default=DEF)
            members = et[1] if et[0] == "tuple" else (et,)
            for old in (None, ("s", "OLD")):
                for hit in [None] + list(members):
                    s0, o = P.fresh()
                    if old is not None:
                        s0.facts[("isinst", old, members[0])] = True
                        r = [x for x in P.call(s0, 2, [o, old]) if x[1] == "v"]
                        if not r:
                            k.ob(False, fn, "no value can be assigned (%s)" % label)
                            continue
                        s0 = r[0][0]
                    for m in members:
                        s0.facts[("isinst", V, m)] = m == hit
                    s0.facts[("isinst", V, et)] = hit is not None
                    for (s1, kk, v) in P.call(s0, 2, [o, V]):
                        w = writes(s1.trace[len(s0.trace):])
                        if hit is None:
                            k.ob(kk == "x" and exc_name(v) == "TypeError", fn, "a value of none of the expected types ends with %s (%s)" % ("acceptance" if kk == "v" else show(v), label), path=path_text(s1, ("return", v)))
                            k.ob(not w, fn, "a refused assignment changes the property: %s" % [repr(x) for x in w], path=path_text(s1, ("raise", v)))
                        else:
                            k.ob(kk == "v", fn, "a value of type %s is refused with %s (%s)" % (show(hit), show(v), label), path=path_text(s1, ("raise", v)))
                            k.ob(kk != "v" or any(ev.kind == "setf" and ev.a[2] == V for ev in w), fn, "an accepted value is not stored", path=path_text(s1, ("return", v)))
    with k.rule("R6", "conversion and transformation come before validation; exactly the validated value is stored, a failed one never", fn):
        for names in ((), ("internal_type",), ("transform",), ("validator",), ("internal_type", "transform"), ("internal_type", "validator"), ("transform", "validator"), ("internal_type", "transform", "validator")):
            full = {"internal_type": ITYPE, "transform": TRANS, "validator": VALID}
            P = Prop(k, implicit=True, default=DEF, **{n: full[n] for n in names})
            s, o = P.fresh()
            lab = "+".join(names) or "plain"
            n = 0
            for (s1, kk, v) in P.call(s, 2, [o, V]):
                tr = list(flat(s1.trace))
                w = [ev for ev in writes(tr)]
                calls = [ev for ev in tr if ev.kind == "callv" and ev.a[0] in (ITYPE, TRANS, VALID)]
                order = [ev.a[0] for ev in calls]
                if kk == "x":
                    k.ob(not w, fn, "%s: an assignment that raises leaves the property changed" % lab, path=path_text(s1, ("raise", v)))
                    if order and order[-1] == VALID and exc_name(v) == "TypeError" and not (v[0] == "exc" and "any" in str(v)):
                        pass
                    continue
                n += 1
                st_val = [ev for ev in w if ev.kind == "setf" and ev.a[2] not in (C(True), C(False))]
                if not k.ob(len(st_val) == 1, fn, "%s: %d stores in one assignment" % (lab, len(st_val)), path=path_text(s1, ("return", v))):
                    continue
                val = st_val[0].a[2]
                if VALID in full.values() and "validator" in names:
                    vc = [ev for ev in calls if ev.a[0] == VALID]
                    if k.ob(len(vc) >= 1, fn, "%s: a value is stored without validation" % lab, path=path_text(s1, ("return", v))):
                        k.ob(vc[-1].a[1] == (val,), fn, "%s: the stored value %s is not the validated one %s" % (lab, show(val), [show(x) for x in vc[-1].a[1]]), path=path_text(s1, ("return", v)))
                        truth = [b for a, b in s1.facts.items() if a[0] == "res" and a[1] == "callv"]
                        k.ob(truth and truth[-1] is True, fn, "%s: a value is stored without checking the validator's answer" % lab, path=path_text(s1, ("return", v)))
                        k.ob(order[-1] == VALID, fn, "%s: conversion or transformation follows validation" % lab, path=path_text(s1, ("return", v)))
                if "transform" in names:
                    k.ob(TRANS in order, fn, "%s: the transform is not applied" % lab, path=path_text(s1, ("return", v)))
                if "internal_type" in names:
                    k.ob(ITYPE in order, fn, "%s: the conversion is not applied" % lab, path=path_text(s1, ("return", v)))
                    if "transform" in names:
                        noval = [x for x in order if x != VALID]
                        k.ob(noval and noval[-1] == ITYPE and noval.index(ITYPE) < noval.index(TRANS), fn, "%s: conversion does not frame the transformation: %s" % (lab, [show(x) for x in noval]), path=path_text(s1, ("return", v)))
                noval = [ev for ev in calls if ev.a[0] != VALID]
                if not noval:
                    k.ob(val == V, fn, "%s: stored %s" % (lab, show(val)), path=path_text(s1, ("return", v)))
                else:
                    k.ob(noval[0].a[1] == (V,) and val[0] == "res", fn, "%s: stored %s" % (lab, show(val)), path=path_text(s1, ("return", v)))
            k.ob(n > 0, fn, "%s: no assignment succeeds" % lab)
        P = Prop(k, default=DEF, validator=VALID)
        s, o = P.fresh()
        for (s1, kk, v) in P.call(s, 2, [o, V]):
            truth = [b for a, b in s1.facts.items() if a[0] == "res" and a[1] == "callv"]
            if truth and truth[-1] is False:
                k.ob(kk == "x" and exc_name(v) == "ValueError", fn, "a value that fails validation ends with %s" % show(v), path=path_text(s1, ("return", v)))
    with k.rule("R7", "two instances never share state through the property", fn):
        P = Prop(k, default=DEF)
        s, o = P.fresh()
        o2 = P.e.named_obj(s, "OBJ2", k.p.cls("HandlerParameters"), fresh=True)
        for (s1, kk, v) in P.call(s, 2, [o, V]):
            if kk != "v":
                continue
            bad = [ev for ev in flat(s1.trace) if ev.kind in ("setf", "seta", "seti", "mut", "setg", "setnl") and ev.a[0] != O]
            k.ob(not bad, fn, "assigning the property on one instance writes elsewhere: %s" % [repr(x) for x in bad], path=path_text(s1, ("return", v)))
            for (s2, k2, v2) in P.call(s1, 1, [o2]):
                k.ob(not (k2 == "v" and v2 == V), fn, "another instance reads the assigned value", path=path_text(s2, ("return", v2)))
    with k.rule("R8", "two typed properties of one object do not share their values or their set state", fn):
        V2 = ("s", "V2")
        for na, nb in (("x", "y"), ("x", "xx"), ("xx", "x"), ("a", "A"), ("a_b", "b"), ("y", "x")):
            P = Prop(k, name=na, default=DEF)
            rs = [r for r in P.e.call_func(P.st.copy(), P.f, [C(nb)], {"expected_type": TYPES, "default": DEF, "req_assign_before_use": C(True)}, P.f.node, None, inline_always=True) if r[1] == "v"]
            if len(rs) != 1 or rs[0][2][0] != "propobj":
                raise Undecided("the property object made by typed_property is not understood")
            P.st, other = rs[0][0], rs[0][2]
            s, o = P.fresh()

            def on(s_, i, args):
                r = P.e.call_value(s_.copy(), other[i], args, {}, P.f.node, None)
                k.paths += len(r)
                return r
            what = "properties %s and %s" % (na, nb)
            for (s1, kk, v) in P.call(s, 2, [o, V]):
                if kk != "v":
                    continue
                for (s2, k2, v2) in on(s1, 1, [o]):
                    k.ob(k2 == "x" and exc_name(v2) == "UnboundLocalError", fn, "%s: after an assignment to the first the other one reads as %s" % (what, show(v2)), path=path_text(s2, ("return", v2)))
                for (s2, k2, v2) in on(s1, 2, [o, V2]):
                    if k2 != "v":
                        continue
                    for (s3, k3, v3) in P.call(s2, 1, [o]):
                        k.ob(k3 == "v" and v3 == V, fn, "%s: after an assignment to the other one the first reads as %s" % (what, show(v3)), path=path_text(s3, ("return", v3)))
                    for (s3, k3, v3) in on(s2, 3, [o]):
                        for (s4, k4, v4) in (P.call(s3, 1, [o]) if k3 == "v" else ()):
                            k.ob(k4 == "v" and v4 == V, fn, "%s: after the other one is deleted the first reads as %s" % (what, show(v4)), path=path_text(s4, ("return", v4)))
