"""Rule kit: obligations, findings, and helpers to read abstract traces."""
import contextlib
import traceback

from model import Program, AnchorMissing
from engine import Engine
from terms import *   # noqa: F401,F403
from terms import Event, State


class Kit:
    def __init__(self, pid, prog, tier="quick"):
        self.pid = pid
        self.p = prog
        self.tier = tier
        self.obs = []           # dicts: rule, construct, status, detail
        self.rules = {}         # rule -> text
        self.cur = None
        self.functions = set()
        self.steps = 0
        self.paths = 0
        self.engines = []
        self.notes = []

    # -- rules ----------------------------------------------------------
    @contextlib.contextmanager
    def rule(self, rid, text, construct=""):
        prev = self.cur
        self.cur = rid
        self.rules[rid] = text
        try:
            yield self
        except AnchorMissing:
            raise
        except Imprecise as ex:
            self.undecided(construct, "analysis not precise enough: %s" % ex)
        except Undecided as ex:
            self.undecided(construct, str(ex))
        except Exception as ex:       # a construct the rule's reader does not know
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            self.undecided(construct, "rule could not read the code: %s: %s (%s:%s)" % (type(ex).__name__, ex, tb.name, tb.lineno))
        finally:
            self.cur = prev

    def ob(self, cond, construct, detail="", where=None, path=None):
        self.obs.append({"rule": self.cur, "construct": construct, "status": "ok" if cond else "violation",
                         "detail": detail, "where": where, "path": path})
        return bool(cond)

    def table(self, outs, want, construct, what, where=None, path=None):
        """one row of a decision table: `outs` are the outcomes of all abstract paths (None: not known). The paths over-approximate
        the program, so the row is violated when no path has the wanted outcome and held when every path has it."""
        outs = list(outs)
        good = [o for o in outs if o is not None and same_value(o, want)]
        if len(good) == len(outs) and outs:
            return self.ob(True, construct, "%s: %s" % (what, short(want)))
        if not outs or any(o is None or may_equal(o, want) for o in outs):
            self.undecided(construct, "%s: %s" % (what, "no path" if not outs else "several abstract outcomes %s" % short([o for o in outs][:4])))
            return True
        return self.ob(False, construct, "%s: %s instead of %s" % (what, short(outs[0]), short(want)), where, path)

    def undecided(self, construct, detail):
        self.obs.append({"rule": self.cur, "construct": construct, "status": "undecided", "detail": detail,
                         "where": None, "path": None})

    # -- engines --------------------------------------------------------
    def engine(self, **kw):
        e = Engine(self.p, **{k: v for k, v in kw.items() if k in ("opaque", "implicit_raises", "max_states", "max_steps", "pure_extra")})
        for k, v in kw.items():
            if k not in ("opaque", "implicit_raises", "max_states", "max_steps", "pure_extra"):
                setattr(e, k, v)
        if self.tier == "thorough":
            e.max_steps *= 5
            e.max_states *= 4
        self.engines.append(e)
        return e

    def run(self, eng, func, args, state=None, kwargs=None):
        res = eng.run(func, args, state, kwargs)
        self.paths += len(res)
        return res

    def finish(self):
        for e in self.engines:
            self.functions |= e.funcs_seen
            self.steps += e.steps


class Undecided(Exception):
    pass


def short(v, n=160):
    t = repr(v)
    return t if len(t) <= n else t[:n] + "..."


class _Unknown:
    def __repr__(self):
        return "?"


UNK = _Unknown()     # part of an outcome the analysis does not know


def may_equal(a, b):
    if a is UNK or b is UNK:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(may_equal(a[x], b[x]) for x in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(may_equal(x, y) for x, y in zip(a, b))
    return a == b


def same_value(a, b):
    """equal, and dictionaries in the same order"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_value(a[x], b[x]) for x in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return a == b


# ---------------------------------------------------------------- reading traces
def flat(trace):
    """All events, loop bodies included (each abstract iteration once)."""
    for ev in trace:
        yield ev
        if ev.kind == "loop":
            for p in ev.a[2]:
                for x in flat(p.trace):
                    yield x


def loops(trace):
    return [ev for ev in flat(trace) if ev.kind == "loop"]


def facts_text(facts, limit=8):
    items = facts.items() if isinstance(facts, dict) else list(facts)
    t = [("" if b else "not ") + show(a) for a, b in items]
    return "; ".join(t[:limit]) + (" ..." if len(t) > limit else "")


def path_text(st, oc, limit=12):
    ev = [repr(e)[:160] for e in st.trace][:limit]
    return {"facts": facts_text(st.facts, 12), "events": ev, "outcome": oc[0] + (" " + show(oc[1])[:80] if len(oc) > 1 else "")}


def bound(prog, ev):
    """parameter name -> term of a 'call'/'rec' event of a program function"""
    qual, args, kw = ev.a[0], ev.a[1], dict(ev.a[2])
    f = find_func(prog, qual)
    out = {}
    if f is None:
        return out
    a = f.node.args
    names = [x.arg for x in list(a.posonlyargs) + list(a.args)]
    for n, v in zip(names, args):
        out[n] = v
    out.update(kw)
    import ast
    for n, d in zip(reversed(names), reversed(a.defaults)):
        if n not in out and isinstance(d, ast.Constant):
            out[n] = C(d.value)
    return out


def find_func(prog, qual):
    for f in prog.all_functions():
        if f.qual == qual:
            return f
    return None


def snap_of(ev):
    for x in ev.a:
        if isinstance(x, tuple) and x and x[0] == "snap":
            return x[1]
    return ()


def snap_fields(ev, cls):
    for (oid, qual, fields) in snap_of(ev):
        if qual == cls or qual.endswith("." + cls):
            return dict(fields)
    return None


def content(v):
    return v[1] if isinstance(v, tuple) and v and v[0] == "snapped" else v


def identity(v):
    return v[2] if isinstance(v, tuple) and v and v[0] == "snapped" else v


def exc_name(v):
    """class name of a raised exception value, or None"""
    if v[0] == "exc":
        return v[1]
    if v[0] == "cls":
        return v[1]
    if v[0] == "ext":
        return v[1]
    if v[0] == "o":
        return "obj"
    return None


def unwrap(t, kinds=()):
    return t
