"""Abstract values, events and states of the abstract interpreter."""


class Imprecise(Exception):
    """The analysis cannot describe this code; the obligation is left undecided."""


class Budget(Imprecise):
    pass


# ------------------------------------------------------------------ terms
def C(v):
    return ("c", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_c(t):
    return t[0] == "c"


def cval(t):
    return t[2]


def is_str_c(t):
    return t[0] == "c" and t[1] == "str"


def is_int_c(t):
    return t[0] == "c" and t[1] in ("int", "bool")


def cat(parts):
    out = []
    for p in parts:
        if p[0] == "cat":
            sub = p[1]
        elif p[0] == "str1":
            sub = (p[1],)
            if p[1][0] == "cat":
                sub = p[1][1]
        else:
            sub = (p,)
        for s in sub:
            if is_c(s) and s[1] in ("int", "float", "bool", "NoneType"):
                s = C(str(s[2]))
            if is_str_c(s):
                if s[2] == "":
                    continue
                if out and is_str_c(out[-1]):
                    out[-1] = C(out[-1][2] + s[2])
                    continue
            out.append(s)
    if not out:
        return C("")
    if len(out) == 1 and is_str_c(out[0]):
        return out[0]
    return ("cat", tuple(out))


def subterms(t):
    """All sub-terms of a term (tuples whose first entry is a str tag)."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            for y in reversed(x):
                if isinstance(y, tuple):
                    stack.append(y)


def mentions(t, what):
    return any(x == what for x in subterms(t))


def show(t, depth=0):
    """Readable form of a term for reports."""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if depth > 7:
        return "..."
    d = depth + 1
    if not isinstance(k, str) or k in ("",):
        return "(" + ", ".join(show(x, d) for x in t) + ")"
    try:
        if k == "c" and len(t) == 3:
            r = repr(t[2])
            return r if len(r) < 60 else r[:57] + "..."
        if k == "s":
            return str(t[1])
        if k == "cat":
            return "+".join(show(x, d) for x in t[1])
        if k == "attr":
            return show(t[1], d) + "." + str(t[2])
        if k == "init":
            return "%s.%s" % (t[1] if isinstance(t[1], str) else "obj", t[2])
        if k == "sub":
            return "%s[%s]" % (show(t[1], d), show(t[2], d))
        if k == "slice":
            return ":".join("" if x == NONE else show(x, d) for x in t[1:3])
        if k in ("call", "pc"):
            return "%s(%s)" % (t[1], ", ".join(show(x, d) for x in t[2]))
        if k == "pm":
            return "%s.%s(%s)" % (show(t[2], d), t[1], ", ".join(show(x, d) for x in t[3]))
        if k in ("L", "S", "D"):
            return {"L": "[%s]", "S": "{%s}", "D": "{%s}"}[k] % ", ".join(show(x, d) for x in t[1:])
        if k == "i":
            return show(t[1], d)
        if k == "kv":
            return show(t[1], d) + ": " + show(t[2], d)
        if k == "each":
            return "each(%s)" % show(t[2], d)
        if k == "tuple":
            return "(" + ", ".join(show(x, d) for x in t[1]) + ")"
        if k == "ext":
            return t[1]
        if k == "cmp":
            return "%s %s %s" % (show(t[2], d), {"Eq": "==", "Lt": "<", "In": "in", "Is": "is"}.get(t[1], t[1]), show(t[3], d))
        if k == "eqc":
            return "%s == %s" % (show(t[1], d), show(t[2], d))
        if k == "isnone":
            return "%s is None" % show(t[1], d)
        if k == "isinst":
            return "isinstance(%s, %s)" % (show(t[1], d), show(t[2], d))
        if k == "has":
            return "hasattr(%s, %s)" % (show(t[1], d), show(t[2], d))
        if k == "o":
            return "<%s>" % (t[1] if isinstance(t[1], str) else "object from line %s" % (t[1][0][1] if isinstance(t[1][0], tuple) else "?"))
        if k in ("key", "val", "elem"):
            return "%s-of(%s)" % (k, show(t[2], d))
        if k == "res":
            return "result-of-%s" % (t[1],)
        if k in ("cls",):
            return t[1]
        if k == "fn":
            return "function"
        if k == "exc":
            return "%s(...)" % (t[1],)
        if k == "bin":
            return "(%s %s %s)" % (show(t[2], d), t[1], show(t[3], d))
    except Exception:
        pass
    return "%s(%s)" % (k, ", ".join(str(show(x, d)) if isinstance(x, tuple) else str(x) for x in t[1:]))


# ------------------------------------------------------------------ events, heap, state
class Event:
    __slots__ = ("kind", "a", "loc", "facts", "_h")

    def __init__(self, kind, a, loc=None, facts=None):
        self.kind = kind
        self.a = a
        self.loc = loc
        self.facts = facts
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Event) and self.kind == o.kind and self.a == o.a

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.kind, self.a))
        return self._h

    def __repr__(self):
        if self.kind == "loop":
            return "loop<%s>" % (show(self.a[0]),)
        return "%s(%s)" % (self.kind, ", ".join(show(x) for x in self.a))


class LoopPath:
    __slots__ = ("facts", "trace", "outcome", "ends", "ranges")

    def __init__(self, facts, trace, outcome, ends, ranges=()):
        self.facts = facts      # frozenset of (atom, bool) added during the iteration
        self.trace = trace      # events of the iteration
        self.outcome = outcome  # ('next',)|('break',)|('return',v)|('raise',v)
        self.ends = ends        # frozenset of (var, value) at the end, for widened variables
        self.ranges = ranges

    def key(self):
        return (self.facts, self.trace, self.outcome, self.ends)

    def __eq__(self, o):
        return isinstance(o, LoopPath) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "path[%s | %s -> %s]" % ("; ".join(("" if b else "not ") + show(a) for a, b in self.facts),
                                        " ; ".join(map(repr, self.trace)), self.outcome[0])


class HObj:
    __slots__ = ("kind", "cls", "fresh", "nullable", "fields", "items", "shared")

    def __init__(self, kind, cls=None, fresh=True, nullable=False, fields=None, items=()):
        self.kind = kind
        self.cls = cls
        self.fresh = fresh
        self.nullable = nullable
        self.fields = fields or {}
        self.items = items
        self.shared = False

    def _clone(self, fields, items):
        h = HObj(self.kind, self.cls, self.fresh, self.nullable, fields, items)
        h.shared = self.shared
        return h

    def with_field(self, n, v):
        f = dict(self.fields)
        f[n] = v
        return self._clone(f, self.items)

    def with_items(self, items):
        return self._clone(self.fields, tuple(items))

    def key(self):
        return (self.kind, id(self.cls), self.fresh, self.nullable, frozenset(self.fields.items()), self.items)

    def __eq__(self, o):
        return isinstance(o, HObj) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


ABSENT = ("absent",)


class State:
    __slots__ = ("frames", "heap", "ext", "facts", "ranges", "trace", "exc", "alloc", "notes")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.ext = {}
        self.facts = {}
        self.ranges = {}
        self.trace = ()
        self.exc = ()
        self.alloc = {}
        self.notes = frozenset()

    def copy(self):
        s = State()
        s.frames = dict(self.frames)
        s.heap = dict(self.heap)
        s.ext = dict(self.ext)
        s.facts = dict(self.facts)
        s.ranges = dict(self.ranges)
        s.trace = self.trace
        s.exc = self.exc
        s.alloc = dict(self.alloc)
        s.notes = self.notes
        return s

    def setvar(self, fid, name, v):
        f = dict(self.frames[fid])
        f[name] = v
        self.frames[fid] = f

    def key(self):
        return (
            frozenset((k, frozenset(v.items())) for k, v in self.frames.items()),
            frozenset(self.heap.items()), frozenset(self.ext.items()), self.trace, self.exc)


# results of expression evaluation: (state, 'v', value) or (state, 'x', exception)
# results of statements: (state, outcome) with outcome ('next',)|('return',v)|('raise',v)|('break',)|('continue',)

NEXT = ("next",)
BREAK = ("break",)
CONT = ("continue",)

PURE_FUNCS = {
    "len", "str", "int", "repr", "isinstance", "issubclass", "type", "bool", "float", "max", "min", "abs", "callable",
    "sum", "id", "hash", "ord", "chr", "format", "range", "iter",
    "re.compile", "re.match", "re.search", "re.findall", "re.sub", "re.fullmatch", "re.split", "re.escape", "re.finditer",
    "os.path.join", "os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.realpath", "os.path.relpath",
    "os.path.basename", "os.path.dirname", "os.path.expandvars", "os.getcwd", "os.path.abspath", "os.fspath",
    "pathlib.Path", "shlex.split", "copy.deepcopy", "copy.copy", "textwrap.dedent", "textwrap.fill", "json.dumps",
    "inspect.getmembers", "inspect.getsource", "inspect.ismethod", "socket.gethostname", "getpass.getuser",
    "shutil.which", "traceback.format_stack", "io.StringIO", "os.getenv", "uuid.uuid4", "sys.exc_info", "shlex.quote",
    "frozenset", "object", "slice", "divmod", "round", "vars", "dir", "locals", "globals", "bytes",
    "textwrap.indent", "contextlib.suppress", "itertools.chain", "operator.itemgetter", "operator.attrgetter",
}
# may raise on some inputs (only matters inside try or when implicit raises are modelled)
FALLIBLE_PURE = {"int", "float", "shlex.split", "re.compile", "re.match", "re.search", "re.findall", "re.sub", "pathlib.Path",
                 "os.path.relpath", "re.fullmatch"}
PURE_METHODS = {
    "strip", "lstrip", "rstrip", "upper", "lower", "replace", "split", "rsplit", "splitlines", "join", "format", "startswith",
    "endswith", "keys", "values", "items", "get", "copy", "ljust", "rjust", "center", "title", "count", "index", "find",
    "exists", "is_file", "is_dir", "is_absolute", "resolve", "decode", "encode", "sections", "has_section", "has_option",
    "options", "isspace", "search", "match", "findall", "sub", "fullmatch", "getvalue", "group", "groups", "partition", "rpartition",
    "isupper", "islower", "removeprefix", "removesuffix", "casefold", "union", "intersection", "difference", "issubset",
    "absolute", "with_suffix", "joinpath", "capitalize", "isdigit", "hex", "isalnum", "__contains__", "expanduser", "isidentifier",
    "as_posix", "symmetric_difference", "isdisjoint", "issuperset", "zfill", "expandtabs", "translate", "swapcase",
}
# of those, the ones that can raise
FALLIBLE_METHODS = {"index", "decode", "encode", "resolve", "exists", "is_file", "sections", "has_section"}
MUTATORS = {"add", "append", "remove", "discard", "pop", "popitem", "update", "clear", "extend", "insert", "setdefault",
            "sort", "reverse", "__setitem__", "__delitem__", "appendleft", "popleft"}
ORDER_PRESERVING_WRAPPERS = {"list", "tuple", "iter"}


def norm_op(op):
    return type(op).__name__

__all__ = [n for n in dir() if not n.startswith("__")]
