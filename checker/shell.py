"""A parser and a path-partitioned abstract interpreter for the part of bash the repository's sourced scripts are written in.

Values are Python strings in which each unknown piece of text is one private-use character (a symbol); whatever a path depends on
(exit statuses, existing files, outputs of programs) is a choice, and every combination of choices is one abstract path.
Nothing is run. A construct that is not understood raises Unknown, which makes the obligation undecided."""
import re


class Unknown(Exception):
    pass


class ParseError(Unknown):
    pass


# ------------------------------------------------------------------------------------------------------------------ parser
RESERVED = {"if", "then", "elif", "else", "fi", "while", "until", "do", "done", "for", "in", "case", "esac", "{", "}", "!", "[[", "]]", "function", "select", "time"}
META = set(" \t\n;|&()<>")


class Parser:
    def __init__(self, text):
        self.s, self.i, self.heredocs = text.replace("\\\n", ""), 0, []

    def err(self, what):
        raise ParseError("line %d: %s" % (self.s.count("\n", 0, self.i) + 1, what))

    def peek(self, n=1):
        return self.s[self.i:self.i + n]

    def line(self):
        return self.s.count("\n", 0, self.i) + 1

    def blanks(self):
        while self.i < len(self.s):
            c = self.s[self.i]
            if c in " \t\r":
                self.i += 1
            elif c == "#":
                while self.i < len(self.s) and self.s[self.i] != "\n":
                    self.i += 1
            else:
                return

    def newlines(self):
        while True:
            self.blanks()
            if self.peek() == "\n":
                self.newline()
            else:
                return

    def newline(self):
        self.i += 1
        for node, end, strip in self.heredocs:
            body = []
            while True:
                if self.i >= len(self.s):
                    self.err("here-document without end")
                j = self.s.find("\n", self.i)
                j = len(self.s) if j < 0 else j
                ln = self.s[self.i:j]
                self.i = j + 1
                ln = ln.lstrip("\t") if strip else ln
                if ln == end:
                    break
                body.append(ln + "\n")
            node["body"] = "".join(body)
        self.heredocs = []

    def reserved(self):
        """the reserved word at this place, if any"""
        self.blanks()
        m = re.compile(r"\[\[|\]\]|[a-z]+|[{}!]").match(self.s, self.i)
        if m and m.group(0) in RESERVED:
            e = m.end()
            if e >= len(self.s) or self.s[e] in META or m.group(0) == "}":
                return m.group(0)
        return None

    def eat(self, w):
        self.blanks()
        if not self.s.startswith(w, self.i):
            self.err("expected `%s`" % w)
        self.i += len(w)

    def program(self):
        out = self.list(())
        self.newlines()
        if self.i < len(self.s):
            self.err("unexpected `%s`" % self.peek())
        return out

    def list(self, ends):
        """commands up to one of the closing words/characters"""
        out = []
        while True:
            self.newlines()
            if self.i >= len(self.s) or self.reserved() in ends or self.peek() in ends or self.peek(2) in ends:
                return ("list", out)
            c = self.andor()
            self.blanks()
            bg = False
            if self.peek() == "&" and self.peek(2) != "&&":
                bg = True
                self.i += 1
            elif self.peek() == ";" and self.peek(2) != ";;":
                self.i += 1
            elif self.peek() == "\n":
                self.newline()
            elif self.i < len(self.s) and self.peek() not in ends and self.peek(2) not in ends and self.reserved() not in ends:
                self.err("unexpected `%s`" % self.peek())
            out.append(("bg", c) if bg else c)

    def andor(self):
        c = self.pipeline()
        while True:
            self.blanks()
            op = self.peek(2)
            if op not in ("&&", "||"):
                return c
            self.i += 2
            self.newlines()
            c = (op, c, self.pipeline())

    def pipeline(self):
        neg = False
        while self.reserved() == "!":
            self.eat("!")
            neg = not neg
        cmds = [self.command()]
        while True:
            self.blanks()
            if self.peek() == "|" and self.peek(2) != "||":
                self.i += 2 if self.peek(2) == "|&" else 1
                self.newlines()
                cmds.append(self.command())
            else:
                break
        c = cmds[0] if len(cmds) == 1 else ("pipe", cmds)
        return ("not", c) if neg else c

    def command(self):
        w, ln = self.reserved(), None
        self.blanks()
        ln = self.line()
        if w == "if":
            self.eat("if")
            arms, other = [], None
            cond = self.list(("then",))
            self.eat("then")
            body = self.list(("elif", "else", "fi"))
            arms.append((cond, body))
            while self.reserved() == "elif":
                self.eat("elif")
                cond = self.list(("then",))
                self.eat("then")
                arms.append((cond, self.list(("elif", "else", "fi"))))
            if self.reserved() == "else":
                self.eat("else")
                other = self.list(("fi",))
            self.eat("fi")
            c = ("if", arms, other)
        elif w in ("while", "until"):
            self.eat(w)
            cond = self.list(("do",))
            self.eat("do")
            body = self.list(("done",))
            self.eat("done")
            c = (w, cond, body)
        elif w == "for":
            self.eat("for")
            self.blanks()
            name = self.name()
            self.newlines()
            words = None
            if self.reserved() == "in":
                self.eat("in")
                words = []
                while True:
                    self.blanks()
                    if self.peek() in ("\n", ";"):
                        break
                    words.append(self.word())
            self.blanks()
            if self.peek() == ";":
                self.i += 1
            self.newlines()
            self.eat("do")
            body = self.list(("done",))
            self.eat("done")
            c = ("for", name, words, body)
        elif w == "case":
            self.eat("case")
            self.blanks()
            subj = self.word()
            self.newlines()
            self.eat("in")
            arms = []
            while True:
                self.newlines()
                if self.reserved() == "esac":
                    break
                self.blanks()
                if self.peek() == "(":
                    self.i += 1
                pats = [self.word_b()]
                self.blanks()
                while self.peek() == "|":
                    self.i += 1
                    pats.append(self.word_b())
                    self.blanks()
                self.eat(")")
                body = self.list((";;", ";&", "esac"))
                self.blanks()
                if self.peek(2) == ";;":
                    self.i += 2
                elif self.peek(2) == ";&":
                    self.err("`;&` is not read")
                arms.append((pats, body))
            self.eat("esac")
            c = ("case", subj, arms)
        elif w == "{":
            self.eat("{")
            c = ("group", self.list(("}",)))
            self.eat("}")
        elif w == "[[":
            self.eat("[[")
            c = ("cond", self.cond_or())
            self.newlines()
            self.eat("]]")
        elif w == "function":
            self.eat("function")
            self.blanks()
            name = self.fname()
            self.blanks()
            if self.peek() == "(":
                self.eat("(")
                self.eat(")")
            self.newlines()
            return ("function", name, self.command())
        elif w in RESERVED and w != "!":
            self.err("unexpected `%s`" % w)
        elif self.peek(2) == "((":
            j = self.s.find("))", self.i)
            c = ("arith", Parser(self.s[self.i + 2:j]).dq_all())
            self.i = j + 2
        elif self.peek() == "(":
            self.eat("(")
            c = ("subshell", self.list((")",)))
            self.eat(")")
        else:
            return self.simple()
        return self.redirs_after(c)

    def redirs_after(self, c):
        reds = []
        while True:
            self.blanks()
            r = self.redir()
            if r is None:
                return ("redir", c, reds) if reds else c
            reds.append(r)

    def name(self):
        m = re.compile(r"[A-Za-z_]\w*").match(self.s, self.i)
        if not m:
            self.err("expected a name")
        self.i = m.end()
        return m.group(0)

    def fname(self):
        m = re.compile(r"[\w\-.:]+").match(self.s, self.i)
        if not m:
            self.err("expected a function name")
        self.i = m.end()
        return m.group(0)

    def redir(self):
        m = re.compile(r"(\d*)(&>>|&>|>>|>&|>\||>|<<<|<<-|<<|<&|<)").match(self.s, self.i)
        if not m or (m.group(1) == "" and False):
            return None
        self.i = m.end()
        fd, op = m.group(1), m.group(2)
        self.blanks()
        if op in ("<<", "<<-"):
            raw = self.word()
            node = {"end": "".join(p[1] for p in raw if p[0] == "lit"), "quoted": any(p[-1] for p in raw)}
            self.heredocs.append((node, node["end"], op == "<<-"))
            return (fd, op, node)
        return (fd, op, self.word())

    def simple(self):
        assigns, words, reds, ln = [], [], [], self.line()
        while True:
            self.blanks()
            if self.i >= len(self.s):
                break
            c = self.peek()
            if c in "\n;|)" or (c == "&" and self.peek(2) != "&>"):
                break
            r = self.redir()
            if r is not None:
                reds.append(r)
                continue
            if c == "(":
                if len(words) == 1 and not assigns and re.match(r"\(\s*\)", self.s[self.i:]):
                    self.eat("(")
                    self.eat(")")
                    self.newlines()
                    return ("function", "".join(p[1] for p in words[0]), self.command())
                self.err("unexpected `(`")
            m = re.compile(r"([A-Za-z_]\w*)(\[[^\]]*\])?(\+?=)").match(self.s, self.i)
            if m and (not words or (words and words[0] and words[0][0][0] == "lit" and words[0][0][1] in ("local", "export", "declare", "readonly", "typeset"))):
                if m.group(2) or self.s[m.end():m.end() + 1] == "(":
                    self.err("arrays are not read")
                self.i = m.end()
                val = self.word() if self.i < len(self.s) and self.s[self.i] not in META else []
                if words:
                    words.append([("assign", m.group(1), m.group(3), val)])
                else:
                    assigns.append((m.group(1), m.group(3), val))
                continue
            words.append(self.word())
        if not assigns and not words and not reds:
            self.err("expected a command")
        return ("simple", assigns, words, reds, ln)

    # words: lists of (kind, ..., quoted)
    def word_b(self):
        self.blanks()
        return self.word()

    def word(self, stop=META):
        out = []
        start = self.i
        while self.i < len(self.s):
            c = self.s[self.i]
            if c in stop:
                break
            if c == "\\":
                out.append(("lit", self.s[self.i + 1:self.i + 2], True))
                self.i += 2
            elif c == "'":
                j = self.s.find("'", self.i + 1)
                if j < 0:
                    self.err("quote without end")
                out.append(("lit", self.s[self.i + 1:j], True))
                self.i = j + 1
            elif c == '"':
                self.i += 1
                out.append(("lit", "", True))
                self.dq(out)
                if self.peek() != '"':
                    self.err("quote without end")
                self.i += 1
            elif c == "$" and self.peek(2) == "$'":
                self.err("$'...' is not read")
            elif c in "$`":
                out.append(self.dollar(False))
            else:
                out.append(("lit", c, False))
                self.i += 1
        if self.i == start:
            self.err("expected a word")
        return self.merge(out)

    @staticmethod
    def merge(parts):
        out = []
        for p in parts:
            if p[0] == "lit" and out and out[-1][0] == "lit" and out[-1][2] == p[2]:
                out[-1] = ("lit", out[-1][1] + p[1], p[2])
            else:
                out.append(p)
        return out

    def dq(self, out, end='"'):
        while self.i < len(self.s) and (end is None or self.s[self.i] != end):
            c = self.s[self.i]
            if c == "\\" and self.s[self.i + 1:self.i + 2] in ("$", "`", '"', "\\"):
                out.append(("lit", self.s[self.i + 1], True))
                self.i += 2
            elif c in "$`":
                out.append(self.dollar(True))
            else:
                out.append(("lit", c, True))
                self.i += 1

    def dq_all(self):
        """the whole text as if in double quotes"""
        out = []
        self.dq(out, None)
        return self.merge(out)

    def dollar(self, q):
        if self.peek() == "`":
            j = self.i + 1
            buf = ""
            while j < len(self.s) and self.s[j] != "`":
                if self.s[j] == "\\":
                    j += 1
                buf += self.s[j]
                j += 1
            self.i = j + 1
            return ("cmd", Parser(buf).program(), q)
        if self.peek(3) == "$((":
            depth, j = 0, self.i + 1
            while j < len(self.s):
                depth += {"(": 1, ")": -1}.get(self.s[j], 0)
                j += 1
                if depth == 0:
                    break
            txt = self.s[self.i + 3:j - 2]
            self.i = j
            return ("arith", Parser(txt).dq_all(), q)
        if self.peek(2) == "$(":
            self.i += 2
            body = self.list((")",))
            self.eat(")")
            return ("cmd", body, q)
        if self.peek(2) == "${":
            self.i += 2
            m = re.compile(r"(#|!)?([A-Za-z_]\w*|[0-9]+|[@*#?$!\-])(\[[^\]]*\])?").match(self.s, self.i)
            if not m:
                self.err("parameter expansion is not read")
            if m.group(1) == "#" and m.group(2) == "" or (m.group(1) is None and m.group(2) == "#" and False):
                self.err("parameter expansion is not read")
            self.i = m.end()
            rest = []
            while self.i < len(self.s) and self.s[self.i] != "}":
                c = self.s[self.i]
                if c == "\\":
                    rest.append(("lit", self.s[self.i + 1], True))
                    self.i += 2
                elif c == "'" and not q:
                    j = self.s.find("'", self.i + 1)
                    rest.append(("lit", self.s[self.i + 1:j], True))
                    self.i = j + 1
                elif c == '"':
                    self.i += 1
                    self.dq(rest)
                    self.i += 1
                elif c in "$`":
                    rest.append(self.dollar(True))
                else:
                    rest.append(("lit", c, False))
                    self.i += 1
            self.eat("}")
            return ("param", m.group(1) or "", m.group(2), m.group(3) or "", self.merge(rest), q)
        m = re.compile(r"\$([A-Za-z_]\w*|[0-9@*#?$!\-])").match(self.s, self.i)
        if not m:
            self.i += 1
            return ("lit", "$", q)
        self.i = m.end()
        return ("param", "", m.group(1), "", [], q)

    # [[ ... ]]
    def cond_or(self):
        c = self.cond_and()
        while True:
            self.newlines()
            if self.peek(2) != "||":
                return c
            self.i += 2
            self.newlines()
            c = ("||", c, self.cond_and())

    def cond_and(self):
        c = self.cond_not()
        while True:
            self.newlines()
            if self.peek(2) != "&&":
                return c
            self.i += 2
            self.newlines()
            c = ("&&", c, self.cond_not())

    def cond_not(self):
        self.newlines()
        if self.peek() == "!" and self.s[self.i + 1:self.i + 2] in " \t\n":
            self.i += 1
            return ("not", self.cond_not())
        if self.peek() == "(":
            self.i += 1
            c = self.cond_or()
            self.newlines()
            self.eat(")")
            return c
        a = self.word_b()
        if len(a) == 1 and a[0][0] == "lit" and not a[0][2] and re.match(r"-[a-zA-Z]$", a[0][1]):
            self.blanks()
            return ("unary", a[0][1], self.word())
        self.blanks()
        if self.peek(2) in ("]]", "&&", "||") or self.peek() in ")\n":
            return ("unary", "-n", a)
        m = re.compile(r"(==|=~|!=|=|<|>|-[a-z]{2})(?=\s)").match(self.s, self.i)
        if not m:
            self.err("condition is not read")
        self.i = m.end()
        self.blanks()
        if m.group(1) == "=~":
            return ("binary", "=~", a, self.word(set(" \t\n")))
        return ("binary", m.group(1), a, self.word())


def parse(text):
    return Parser(text).program()


# -------------------------------------------------------------------------------------------------------------- interpreter
class Hang(Exception):
    """a loop that does not end"""


def arithmetic(text):
    """the value of a shell arithmetic expression over numbers; None when it is none that is known"""
    toks = re.findall(r"\d+|==|!=|<=|>=|&&|\|\||[-+*/%<>()!]|\S", text)
    levels = (("||",), ("&&",), ("==", "!="), ("<", ">", "<=", ">="), ("+", "-"), ("*", "/", "%"))
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else None

    def level(n):
        nonlocal pos
        if n == len(levels):
            t = peek()
            pos += 1
            if t == "(":
                v = level(0)
                if peek() != ")":
                    raise ValueError
                pos += 1
                return v
            if t in ("-", "+", "!"):
                v = level(n)
                return -v if t == "-" else v if t == "+" else int(not v)
            if t is None or not t.isdigit() or (len(t) > 1 and t[0] == "0"):
                raise ValueError
            return int(t)
        v = level(n + 1)
        while peek() in levels[n]:
            o = peek()
            pos += 1
            w = level(n + 1)
            if o in "/%":
                if not w:
                    raise ValueError
                q = abs(v) // abs(w) * (1 if v * w >= 0 else -1)
                v = q if o == "/" else v - q * w
            else:
                v = int({"||": bool(v or w), "&&": bool(v and w), "==": v == w, "!=": v != w, "<": v < w, ">": v > w, "<=": v <= w, ">=": v >= w, "+": v + w, "-": v - w, "*": v * w}[o])
        return v
    try:
        v = level(0) if toks else 0
    except ValueError:
        return None
    return v if pos >= len(toks) else None


class Return(Exception):
    pass


class Exit(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


BASE = 0xE000


def basic(text):
    """a basic regular expression (without back-slashes) in Python's notation"""
    return re.sub(r"[+?(){}|]|(?<!^)\^|\$(?!$)|^\*", r"\\\g<0>", text)


class Shell:
    """One abstract path; `choices` replays the decisions taken so far and new ones take the first alternative."""

    def __init__(self, args=(), choices=(), env=None, hooks=None, sourced=True, path="SCRIPT"):
        self.syms, self.symkeys = [], {}
        self.choices, self.taken, self.alts = list(choices), [], []
        self.args = list(args)
        self.vars, self.funcs, self.traps, self.files, self.content = dict(env or {}), {}, {}, {}, {}
        self.exported, self.scopes, self.set_here = set(), [], {}
        self.status, self.events, self.depth, self.steps = 0, [], 0, 0
        self.out = None
        self.cwd = self.sym("cwd")
        self.hooks = hooks or {}
        self.sourced, self.child = sourced, 0
        self.facts, self.reads = {}, set()
        self.why = []
        self.path = self.sym(path)

    # symbols -----------------------------------------------------------------------------------------------------------
    def sym(self, *key, plain=True):
        if key not in self.symkeys:
            self.symkeys[key] = chr(BASE + len(self.syms))
            self.syms.append((key, plain))
        return self.symkeys[key]

    def is_sym(self, c):
        return BASE <= ord(c) < BASE + 6000

    def const(self, s):
        return not any(self.is_sym(c) for c in s)

    def show(self, s):
        return "".join("<%s>" % " ".join(self.show(str(x)) for x in self.syms[ord(c) - BASE][0]) if self.is_sym(c) else c for c in s)

    # choices -----------------------------------------------------------------------------------------------------------
    def choose(self, n, what):
        k = len(self.taken)
        c = self.choices[k] if k < len(self.choices) else 0
        self.taken.append(c)
        self.alts.append(n)
        self.why.append((what, c))
        return c

    def ask(self, key):
        """a fact that may hold or not, the same on the whole path"""
        if key not in self.facts:
            self.facts[key] = self.choose(2, key) == 1
        return self.facts[key]

    def event(self, kind, *data):
        self.events.append((kind, self.child) + data)

    def fresh_status(self, what):
        """0 or something else"""
        return 0 if self.choose(2, ("status", what)) == 0 else self.sym("status", what, len(self.taken))

    def ok(self, st=None):
        st = self.status if st is None else st
        if isinstance(st, int):
            return st == 0
        return False    # a status symbol stands for a status other than 0

    # expansion ---------------------------------------------------------------------------------------------------------
    def lookup(self, name):
        self.reads.add(name)
        for sc in reversed(self.scopes):
            if name in sc:
                return sc[name]
        return self.vars.get(name)

    def assign(self, name, val, local=False):
        if local and self.scopes:
            self.scopes[-1][name] = val
            return
        for sc in reversed(self.scopes):
            if name in sc:
                sc[name] = val
                return
        self.vars[name] = val
        self.set_here[name] = self.child

    def unset(self, name):
        for sc in reversed(self.scopes):
            if name in sc:
                sc[name] = None
                return
        if self.vars.get(name) is not None:
            self.vars[name] = None
            self.exported.discard(name)
        elif name in self.funcs:
            del self.funcs[name]

    def status_text(self):
        return str(self.status) if isinstance(self.status, int) else self.status

    def param(self, p):
        """-> list of strings (more than one only for $@)"""
        _, pre, name, idx, rest, q = p
        op = "".join(x[1] for x in rest if x[0] == "lit")
        if name in ("@", "*"):
            vals = list(self.args)
            if rest:
                r = self.flat(rest).strip()
                m = re.match(r":([^:]*)(?::([^:]*))?$", r)
                m = m and re.match(r":(-?\d+)(?::(-?\d+))?$", ":" + ":".join(self.arith(x) for x in m.groups() if x is not None))
                if not m:
                    raise Unknown("${@%s}" % self.show(r))
                a = int(m.group(1))
                base = ["bash"] + vals
                a = len(base) + a if a < 0 else a
                if a < 0:
                    vals = []
                else:
                    n = m.group(2)
                    vals = base[a:] if n is None else base[a:a + int(n)]
            if pre == "#":
                return [str(len(self.args))]
            return [" ".join(vals)] if name == "*" and q else vals
        if name == "#":
            v = str(len(self.args))
        elif name == "?":
            v = self.status_text()
        elif name == "$":
            v = self.sym("pid")
        elif name.isdigit():
            n = int(name)
            v = self.path if n == 0 and not self.sourced else self.sym("shell") if n == 0 else self.args[n - 1] if n <= len(self.args) else None
        elif name == "BASH_SOURCE":
            v = self.path
        elif name in ("USER", "HOME", "RANDOM", "PWD", "HOSTNAME", "UID", "SECONDS", "EPOCHSECONDS") and self.lookup(name) is None:
            v = self.cwd if name == "PWD" else self.sym(name)
        elif idx:
            raise Unknown("${%s%s}" % (name, idx))
        else:
            v = self.lookup(name)
        if pre == "!" and v and v.isdigit() and 0 < int(v) <= len(self.args):
            name, v = v, self.args[int(v) - 1]
        elif pre == "!":
            if not v or not self.const(v) or not re.fullmatch(r"[A-Za-z_]\w*", v):
                raise Unknown("${!%s}" % name)
            name, v = v, self.lookup(v)
        if pre == "#":
            if self.const(v or ""):
                return [str(len(v or ""))]
            return [self.sym("len", v)]
        if not rest:
            return [v or ""]
        v0 = v
        v = v or ""
        m = re.match(r"(:?[-+=?]|%%|%|##|#|//|/|:|\^\^|,,|\^|,)", op if rest[0][0] == "lit" else "")
        if not m:
            raise Unknown("${%s%s}" % (name, op))
        o = m.group(1)
        tail = list(rest)
        tail[0] = ("lit", tail[0][1][len(o):], tail[0][2])
        if o[-1] in "-+=?" and o != "-" or o in ("-", "+", "=", "?"):
            unset = v0 is None or (o[0] == ":" and v == "")
            if o[-1] == "-":
                return [self.flat(tail) if unset else v]
            if o[-1] == "+":
                return ["" if unset else self.flat(tail)]
            if o[-1] == "=":
                if unset:
                    v = self.flat(tail)
                    self.assign(name, v)
                return [v]
            if unset:
                self.event("refused", name)
                raise Exit()
            return [v]
        if o in ("/", "//"):
            return [self.replace(v, o, tail)]
        arg = self.flat(tail)
        if o == ":":
            m = re.match(r"\s*(-?\d*)\s*(?::\s*(-?\d*))?$", arg)
            if not m:
                raise Unknown("${%s:%s}" % (name, self.show(arg)))
            a = int(m.group(1) or 0)
            n = m.group(2)
            if self.const(v):
                if a < 0:
                    v2 = v[a:] if -a <= len(v) else ""
                else:
                    v2 = v[a:]
                if n is not None:
                    n = int(n or 0)
                    v2 = v2[:n]
                return [v2]
            if a == 0 and n is not None and int(n) < 0:
                k = -int(n)
                tailc = v[-k:]
                if len(tailc) == k and self.const(tailc):
                    return [v[:-k]]
            return [self.sym("part", name, o + arg, v)]
        if o in ("%", "%%", "#", "##"):
            if self.const(arg) and not re.search(r"[*?\[]", arg):
                if o[0] == "%" and v.endswith(arg):
                    return [v[:len(v) - len(arg)]]
                if o[0] == "#" and v.startswith(arg):
                    return [v[len(arg):]]
                if self.const(v):
                    return [v]
            return [self.sym("part", o + arg, v)]
        if self.const(v) and o in ("^^", ",,") and not arg:
            return [v.upper() if o == "^^" else v.lower()]
        return [self.sym("part", o + arg, v)]

    def replace(self, v, o, tail):
        """${name/pattern/text} for a pattern without wild cards"""
        pat, new, in_new = "", "", False
        for p in tail:
            text = p[1] if p[0] == "lit" else " ".join(self.part(p))
            if not in_new and p[0] == "lit" and not p[-1] and "/" in text:
                text, after = text.split("/", 1)
                new, in_new = after, True
            elif in_new:
                new += text
                continue
            if not (p[0] == "lit" and p[-1] and "'" not in text) and re.search(r"[*?\[\\]", text):
                raise Unknown("a pattern")
            pat += text
        if not self.const(v + pat) or pat[:1] in ("#", "%"):
            return self.sym("part", o + pat + "/" + new, v)
        return v if not pat else v.replace(pat, new) if o == "//" else v.replace(pat, new, 1)

    def flat(self, word):
        """the text of a word without splitting"""
        out = ""
        for p in word:
            out += p[1] if p[0] == "lit" else " ".join(self.part(p))
        return out

    def part(self, p):
        if p[0] == "lit":
            return [p[1]]
        if p[0] == "param":
            return self.param(p)
        if p[0] == "cmd":
            return [self.capture(p[1])]
        if p[0] == "arith":
            return [self.arith(self.flat(p[1]))]
        raise Unknown(p[0])

    def arith(self, text):
        t = re.sub(r"\$?\b([A-Za-z_]\w*)\b", lambda m: self.lookup(m.group(1)) or "0", text).strip()
        if not self.const(t):
            m = re.fullmatch(r"\s*(\S+?)\s*(==|!=|<=|>=|<|>)\s*(\S+?)\s*", t)
            if m:
                return "1" if self.binary({"==": "-eq", "!=": "-ne", "<": "-lt", ">": "-gt", "<=": "-le", ">=": "-ge"}[m.group(2)], m.group(1), m.group(3)) else "0"
            if len(t) == 1 and self.syms[ord(t) - BASE][0][0] == "status":
                return "1"
            return self.sym("arith", t)
        if not re.fullmatch(r"[\d\s+\-*()<>=!&|%/]*", t):
            raise Unknown("$((%s))" % t)
        v = arithmetic(t)
        if v is None:
            raise Unknown("$((%s))" % t)
        return str(v)

    def words(self, word):
        """the fields a word expands to (splitting of unquoted expansions; names are not matched against files)"""
        if any(p[0] == "assign" for p in word):
            return [word[0]]
        fields, cur, have = [], "", False
        for p in word:
            vals = self.part(p)
            q = p[-1]
            if p[0] == "lit":
                cur += p[1]
                have = have or q or p[1] != ""
                continue
            if q:
                if p[0] == "param" and p[2] == "@":
                    if not vals:
                        continue
                    for k, v in enumerate(vals):
                        if k:
                            fields.append(cur)
                            cur = ""
                        cur += v
                        have = True
                    continue
                cur += vals[0]
                have = True
                continue
            for k, v in enumerate(vals):
                if k and (cur or have):
                    fields.append(cur)
                    cur, have = "", False
                if v and v[0] in " \t\n" and (cur or have):
                    fields.append(cur)
                    cur, have = "", False
                pieces = v.split()
                for n, x in enumerate(pieces):
                    if n:
                        fields.append(cur)
                        cur = ""
                    cur += x
                    have = True
                if pieces and v[-1] in " \t\n":
                    fields.append(cur)
                    cur, have = "", False
        if cur or have:
            fields.append(cur)
        return fields

    # running -----------------------------------------------------------------------------------------------------------
    def snapshot(self):
        return dict(self.vars), dict(self.funcs), list(self.args), self.cwd, [dict(s) for s in self.scopes], dict(self.traps), set(self.exported), dict(self.set_here)

    def restore(self, s):
        self.vars, self.funcs, self.args, self.cwd, self.scopes, self.traps, self.exported, self.set_here = s

    def in_child(self, f):
        """what a child process does to variables stays there"""
        s = self.snapshot()
        self.child += 1
        try:
            f()
        except (Return, Exit):
            pass
        self.child -= 1
        self.restore(s)

    def capture(self, body):
        old, self.out, before = self.out, "", self.status
        self.in_child(lambda: self.run(body))
        v, self.out = self.out, old
        self.subst, self.status = self.status, before
        return v.rstrip("\n")

    def emit(self, text, reds):
        """text on standard output"""
        dest = self.stdout(reds)
        if dest is None:
            if self.out is not None:
                self.out += text
            else:
                self.event("print", text)
        elif dest[1] != "/dev/null":
            self.write(dest, text)

    def stdout(self, reds):
        """(append?, path) when standard output goes to a file; the files named are created"""
        dest = None
        for fd, op, w in reds:
            if op in ("<", "<<", "<<-", "<<<", "<&"):
                continue
            t = w if isinstance(w, str) else self.flat(w)
            if op == ">&" and t in ("1", "2", "-"):
                if fd in ("", "1") and t == "2":
                    dest = (True, "/dev/null")
                continue
            d = (op in (">>", "&>>"), t)
            if t != "/dev/null" and op in (">", ">|", "&>", ">&", ">>", "&>>"):
                if not d[0]:
                    self.content[t] = ""
                self.files[t] = True
                self.event("write", t)
            if fd in ("", "1"):
                dest = d
        return dest

    def write(self, dest, text):
        self.content[dest[1]] = self.content.get(dest[1], "") + text

    def run(self, n):
        self.steps += 1
        if self.steps > 20000:
            raise Unknown("too many steps")
        k = n[0]
        if k == "list":
            for c in n[1]:
                self.run(c)
        elif k == "bg":
            raise Unknown("a background command")
        elif k == "&&":
            self.run(n[1])
            if self.ok():
                self.run(n[2])
        elif k == "||":
            self.run(n[1])
            if not self.ok():
                self.run(n[2])
        elif k == "not":
            self.run(n[1])
            self.status = 1 if self.ok() else 0
        elif k == "if":
            for cond, body in n[1]:
                self.run(cond)
                if self.ok():
                    self.run(body)
                    return
            if n[2]:
                self.run(n[2])
            else:
                self.status = 0
        elif k in ("while", "until"):
            seen, last = None, 0
            for _ in range(400):
                now = (dict(self.vars), [dict(x) for x in self.scopes], list(self.args), dict(self.files), dict(self.content), dict(self.funcs), self.cwd, len(self.taken), self.facts.copy(),
                       len([e for e in self.events if e[0] != "print"]))
                if now == seen:
                    raise Hang()
                seen = now
                self.run(n[1])
                if self.ok() != (k == "while"):
                    self.status = last
                    return
                try:
                    self.run(n[2])
                except Break:
                    self.status = 0
                    return
                except Continue:
                    self.status = 0
                last = self.status
            raise Unknown("a loop whose end is not seen")
        elif k == "for":
            vals = list(self.args) if n[2] is None else [x for w in n[2] for x in self.words(w)]
            self.status = 0
            for v in vals:
                self.assign(n[1], v)
                try:
                    self.run(n[3])
                except Break:
                    break
                except Continue:
                    pass
        elif k == "case":
            v = self.flat(n[1])
            self.status = 0
            for pats, body in n[2]:
                if any(self.match(v, p) for p in pats):
                    self.run(body)
                    return
        elif k == "group":
            self.run(n[1])
        elif k == "subshell":
            self.in_child(lambda: self.run(n[1]))
        elif k == "function":
            self.funcs[n[1]] = n[2]
            self.event("define", n[1])
            self.status = 0
        elif k == "cond":
            self.status = 0 if self.cond(n[1]) else 1
        elif k == "arith":
            v = self.arith(self.flat(n[1]))
            if not self.const(v):
                raise Unknown("((%s))" % self.show(v))
            self.status = 1 if v == "0" else 0
        elif k == "redir":
            dest = self.stdout(n[2])
            if dest is None:
                self.run(n[1])
            else:
                old, self.out = self.out, ""
                self.run(n[1])
                text, self.out = self.out, old
                if dest[1] != "/dev/null":
                    self.write(dest, text)
        elif k == "pipe":
            texts = None
            for c in n[1][:-1]:
                old, self.out = self.out, ""
                self.in_child(lambda: self.run(c))
                texts, self.out = self.out, old
            self.stdin = texts
            self.in_child(lambda: self.run(n[1][-1]))
            self.stdin = None
        elif k == "simple":
            self.simple(n)
        else:
            raise Unknown(k)

    stdin, subst = None, 0

    def simple(self, n):
        _, assigns, words, reds, line = n
        self.line = line
        before = self.status
        if not words:
            if not assigns and reds and all(r[1] == "<" for r in reds):
                self.do_cat(["cat"], reds)
                return
            self.subst = 0
            for name, op, val in assigns:
                v = self.flat(val)
                self.assign(name, (self.lookup(name) or "") + v if op == "+=" else v)
            self.status = self.subst
            self.stdout(reds)
            return
        for name, op, val in assigns:
            self.flat(val)
        fields = [f for w in words for f in self.words(w)]
        if not fields:
            self.status = 0
            return
        if not isinstance(fields[0], str):
            raise Unknown("an assignment as a command")
        self.status_before = before
        self.command(fields, reds)

    def command(self, a, reds):
        name = a[0]
        if name in self.funcs:
            self.event("call", name)
            if name in self.hooks.get("stop", ()):
                self.status = 0
                return
            self.depth += 1
            if self.depth > 30:
                raise Unknown("deep recursion")
            old = self.args
            self.args = [x for x in a[1:]]
            self.scopes.append({})
            try:
                body = self.funcs[name]
                self.run(("redir", body, reds) if reds else body)
            except Return:
                pass
            finally:
                self.scopes.pop()
                self.args = old
                self.depth -= 1
            return
        f = getattr(self, "do_" + {".": "source", ":": "true", "[": "test"}.get(name, re.sub(r"\W", "_", name) if self.const(name) else "?"), None)
        if f is not None and self.const(name):
            f(a, reds)
        else:
            self.external(a, reds)

    def external(self, a, reds):
        self.event("run", tuple(self.text(x) for x in a))
        h = self.hooks.get("run")
        if h is not None:
            r = h(self, [self.text(x) for x in a], reds)
            if r is not None:
                self.status = r
                return
        self.emit(self.sym("output", " ".join(self.text(x) for x in a), plain=False) + "\n", reds)
        self.status = self.fresh_status(self.text(a[0]))

    def text(self, f):
        if isinstance(f, str):
            return f
        return f[1] + f[2] + self.flat(f[3])

    # builtins ----------------------------------------------------------------------------------------------------------
    def do_true(self, a, reds):
        self.stdout(reds)
        self.status = 0

    def do_false(self, a, reds):
        self.status = 1

    def do_echo(self, a, reds):
        a = [self.text(x) for x in a[1:]]
        nl = "\n"
        while a and re.fullmatch(r"-[neE]+", a[0]):
            if "n" in a[0]:
                nl = ""
            a = a[1:]
        self.emit(" ".join(a) + nl, reds)
        self.status = 0

    def do_printf(self, a, reds):
        a = [self.text(x) for x in a[1:]]
        if a and a[0] == "--":
            a = a[1:]
        if a and a[0] == "-v":
            raise Unknown("printf -v")
        fmt, rest, out = a[0], a[1:], ""
        if not self.const(fmt):
            raise Unknown("printf with an unknown format")
        while True:
            used = [0]

            def one(m):
                if m.group(0) == "%%":
                    return "%"
                if m.group(0)[0] == "\\":
                    return {"n": "\n", "t": "\t", "\\": "\\"}.get(m.group(0)[1], m.group(0))
                used[0] += 1
                return rest[used[0] - 1] if used[0] <= len(rest) else ""
            out += re.sub(r"%%|%[-\d]*[sdbq]|\\.", one, fmt)
            rest = rest[used[0]:]
            if not rest or not used[0]:
                break
        self.emit(out, reds)
        self.status = 0

    def do_cd(self, a, reds):
        a = [self.text(x) for x in a[1:] if x not in ("--", "-P", "-L")]
        self.stdout(reds)
        if not self.child:
            self.event("cd", a[0] if a else "~")
        self.cwd = a[0] if a else self.sym("HOME")
        self.status = 0

    def do_pushd(self, a, reds):
        self.stack = getattr(self, "stack", []) + [self.cwd]
        if len(a) > 1:
            self.cwd = self.text(a[1])
        self.status = 0

    def do_popd(self, a, reds):
        if getattr(self, "stack", None):
            self.cwd = self.stack.pop()
        self.status = 0

    def do_pwd(self, a, reds):
        self.emit(self.cwd + "\n", reds)
        self.status = 0

    def do_return(self, a, reds):
        self.status = self.as_status(a)
        raise Return()

    def do_exit(self, a, reds):
        self.status = self.as_status(a)
        raise Exit()

    def as_status(self, a):
        if len(a) == 1:
            return self.status_before
        t = self.text(a[1])
        if re.fullmatch(r"\d+", t):
            return int(t) % 256
        if len(t) == 1 and self.is_sym(t) and self.syms[ord(t) - BASE][0][0] == "status":
            return t
        if t == "":
            return self.status_before
        raise Unknown("the status %s" % self.show(t))

    def do_break(self, a, reds):
        raise Break()

    def do_continue(self, a, reds):
        raise Continue()

    def do_unset(self, a, reds):
        mode = ""
        for x in a[1:]:
            if x in ("-f", "-v"):
                mode = x
            elif mode == "-f":
                self.funcs.pop(x, None)
            else:
                self.unset(x)
        self.status = 0

    def do_trap(self, a, reds):
        a = [x for x in a[1:] if x != "--"]
        if not a:
            raise Unknown("trap without arguments")
        act, sigs = a[0], a[1:]
        if not sigs:
            act, sigs = "-", [act]
        for s in sigs:
            s = re.sub("^SIG", "", s)
            if act == "-":
                self.traps.pop(s, None)
            else:
                self.traps[s] = act
        self.status = 0

    def do_local(self, a, reds):
        self.status = 0
        for x in a[1:]:
            if isinstance(x, tuple):
                self.assign(x[1], self.flat(x[3]), local=True)
            elif not x.startswith("-"):
                if "=" in x:
                    self.assign(*x.split("=", 1), local=True)
                else:
                    self.scopes[-1][x] = None

    def do_export(self, a, reds):
        fn = False
        self.status = 0
        for x in a[1:]:
            if isinstance(x, tuple):
                self.assign(x[1], self.flat(x[3]))
                self.exported.add(x[1])
                self.event("export", x[1])
            elif x == "-f":
                fn = True
            elif x == "-n":
                raise Unknown("export -n")
            elif not x.startswith("-"):
                if "=" in x:
                    self.assign(*x.split("=", 1))
                self.exported.add(x.split("=", 1)[0])
                self.event("export", x.split("=", 1)[0])

    def do_readonly(self, a, reds):
        self.do_export(a, reds)

    def do_declare(self, a, reds):
        flags = "".join(x[1:] for x in a[1:] if isinstance(x, str) and x.startswith("-"))
        names = [x for x in a[1:] if not (isinstance(x, str) and x.startswith("-"))]
        if set(flags) - set("aAfFgiIlnrtuxp"):
            self.stdout(reds)
            self.status = 2
            return
        if ("f" in flags or "F" in flags) and "x" not in flags:
            st = 0
            for x in names:
                known = x in self.funcs or self.hooks.get("declared", lambda s, n: False)(self, x)
                if known:
                    self.emit(x + "\n", reds)
                st = st if known else 1
            self.status = st
            return
        if "f" in flags:
            self.exported |= set(names)
            self.status = 0
            return
        if self.scopes:
            self.do_local(["local"] + names, reds)
        else:
            self.do_export(["export"] + names, reds) if "x" in flags else [self.assign(x[1], self.flat(x[3])) for x in names if isinstance(x, tuple)]
        self.status = 0

    do_typeset = do_declare

    def do_shift(self, a, reds):
        n = int(a[1]) if len(a) > 1 else 1
        self.status = 0 if n <= len(self.args) else 1
        if n <= len(self.args):
            self.args = self.args[n:]

    def do_set(self, a, reds):
        if len(a) > 1 and a[1] == "--":
            self.args = a[2:]
        elif len(a) > 1:
            self.event("set", tuple(a[1:]))
        self.status = 0

    def do_shopt(self, a, reds):
        self.event("set", tuple(a[1:]))
        self.status = 0

    def do_eval(self, a, reds):
        self.run(parse(" ".join(self.text(x) for x in a[1:])))

    def do_command(self, a, reds):
        if len(a) > 1 and a[1] in ("-v", "-V"):
            a = ["which", a[2]]
        else:
            a = a[1:]
        self.command(a, reds)

    do_builtin = do_command

    def do_type(self, a, reds):
        a = [x for x in a[1:] if not x.startswith("-")]
        if a[0] in self.funcs or self.hooks.get("declared", lambda s, n: False)(self, a[0]):
            self.emit("function\n", reds)
            self.status = 0
        else:
            self.command(["which", a[0]], reds)

    def do_source(self, a, reds):
        if len(a) < 2:
            self.status = 2
            return
        p = self.text(a[1])
        self.event("source", p)
        if self.content.get(p) is not None and self.files.get(p):
            self.script(self.content[p], [self.text(x) for x in a[2:]] or None)
            return
        h = self.hooks.get("source")
        r = h(self, p, [self.text(x) for x in a[2:]]) if h else None
        self.status = self.fresh_status("source") if r is None else r

    def script(self, text, args=None):
        old = self.args
        if args is not None:
            self.args = args
        self.depth += 1
        if self.depth > 20:
            raise Hang()        # a file that sources itself
        try:
            self.run(parse(text))
        except Return:
            pass
        self.depth -= 1
        self.args = old

    def do_bash(self, a, reds):
        a = [self.text(x) for x in a]
        self.event("shell", tuple(a))
        for k, x in enumerate(a):
            if x in ("--init-file", "--rcfile") and k + 1 < len(a):
                p = a[k + 1]
                if self.content.get(p) is not None and self.files.get(p):
                    keep = {n: f for n, f in self.funcs.items()}
                    self.in_child(lambda: (self.event("source", p), self.script(self.content[p], [])))
                    self.funcs = keep
                else:
                    self.in_child(lambda: self.event("source", p))
        h = self.hooks.get("shell")
        if h:
            h(self, a)
        self.status = self.fresh_status("bash")

    do__bin_bash = do__usr_bin_bash = do_bash

    def do_test(self, a, reds):
        w = [self.text(x) for x in a[1:]]
        if a[0] == "[":
            if not w or w[-1] != "]":
                self.status = 2
                return
            w = w[:-1]
        r = self.test(w)
        self.status = 0 if r is True else 1 if r is False else 2

    def test(self, w):
        if not w:
            return False
        if len(w) == 1:
            return self.nonempty(w[0])
        if "-a" in w[1:-1] and len(w) > 4 or "-o" in w[1:-1] and len(w) > 4:
            op = "-o" if "-o" in w[1:-1] else "-a"
            k = w.index(op, 1)
            l, r = self.test(w[:k]), self.test(w[k + 1:])
            return (l or r) if op == "-o" else (l and r)
        if w[0] == "!" and len(w) in (2, 3, 4):
            r = self.test(w[1:])
            return None if r is None else not r
        if len(w) == 2:
            return self.unary(w[0], w[1])
        if len(w) == 3:
            return self.binary(w[1], w[0], w[2])
        return None

    def nonempty(self, v):
        if v == "":
            return False
        if not self.const(v):
            for c in v:
                if not self.is_sym(c) or self.syms[ord(c) - BASE][0][0] not in ("output", "content?"):
                    return True
            return self.ask(("nonempty", v))
        return True

    def unary(self, op, v):
        if op == "-z":
            return not self.nonempty(v)
        if op == "-n":
            return self.nonempty(v)
        if op in ("-f", "-d", "-e", "-s", "-r", "-x", "-w", "-L", "-h"):
            if v == "":
                return False
            if op in ("-f", "-e", "-s", "-r", "-w") and v in self.files:
                return self.files[v]
            h = self.hooks.get("exists")
            r = h(self, op, v) if h else None
            if r is not None:
                return r
            r = self.ask((op if op == "-d" else "-f", v))
            if op != "-d":
                self.files[v] = r
            return r
        if op == "-v":
            return self.lookup(v) is not None
        if op == "-t":
            return self.ask(("-t", v))
        if op == "!":
            return v == ""
        raise Unknown("test %s" % op)

    def binary(self, op, a, b):
        if op in ("=", "=="):
            return self.equal(a, b)
        if op == "!=":
            return not self.equal(a, b)
        if op in ("-eq", "-ne", "-lt", "-le", "-gt", "-ge"):
            def num(x):
                x = x.strip()
                if re.fullmatch(r"-?\d+", x):
                    return int(x)
                if len(x) == 1 and self.is_sym(x) and self.syms[ord(x) - BASE][0][0] == "status":
                    return x
                return None
            x, y = num(a), num(b)
            if x is None or y is None:
                if self.const(a) and self.const(b):
                    return None
                raise Unknown("comparing %s and %s" % (self.show(a), self.show(b)))
            if isinstance(x, int) and isinstance(y, int):
                return {"-eq": x == y, "-ne": x != y, "-lt": x < y, "-le": x <= y, "-gt": x > y, "-ge": x >= y}[op]
            if x == y:
                return op in ("-eq", "-le", "-ge")
            s, c, left = (x, y, True) if isinstance(x, str) else (y, x, False)
            if c == 0:    # a status that is not 0 is positive
                return {"-eq": False, "-ne": True, "-lt": not left, "-le": not left, "-gt": left, "-ge": left}[op]
            if isinstance(c, int) and (op in ("-eq", "-ne")):
                r = self.ask(("status is", s, c))
                return r if op == "-eq" else not r
            raise Unknown("comparing %s and %s" % (self.show(a), self.show(b)))
        raise Unknown("test %s" % op)

    def equal(self, a, b):
        if a == b:
            return True
        if self.const(a) and self.const(b):
            return False
        ca, cb = [c for c in a if not self.is_sym(c)], [c for c in b if not self.is_sym(c)]
        if (a == "" or b == ""):
            return not self.nonempty(a or b)
        if len(ca) == len(a) or len(cb) == len(b):    # one side is known: a symbol differs from any particular text, unless it is an output
            v = b if len(ca) == len(a) else a
            if any(self.is_sym(c) and self.syms[ord(c) - BASE][0][0] in ("output", "content?") for c in v):
                return self.ask(("equal", a, b))
            return False
        return False if {self.shape(a)} != {self.shape(b)} else self.ask(("equal", a, b))

    def shape(self, a):
        return a

    def pattern(self, word):
        """the regular expression of a pattern word"""
        out = ""
        for p in word:
            t = p[1] if p[0] == "lit" else " ".join(self.part(p))
            if p[-1] and p[0] != "lit" or p[0] == "lit" and p[2]:
                out += re.escape(t)
                continue
            i = 0
            while i < len(t):
                c = t[i]
                if c == "*":
                    out += "(?s:.*)"
                elif c == "?":
                    out += "(?s:.)"
                elif c == "[":
                    j = t.find("]", i + 2)
                    if j < 0:
                        out += re.escape(c)
                    else:
                        out += "[" + t[i + 1:j].replace("!", "^", 1) + "]"
                        i = j
                else:
                    out += re.escape(c)
                i += 1
        return out

    def match(self, v, word):
        """plain symbols (names, paths) hold none of the texts a pattern looks for"""
        rx = self.pattern(word)
        if re.fullmatch(rx, v):
            return True
        if any(self.is_sym(c) and self.syms[ord(c) - BASE][0][0] in ("output", "content?") for c in v):
            return self.ask(("match", v, rx))
        return False

    def cond(self, c):
        k = c[0]
        if k == "||":
            return self.cond(c[1]) or self.cond(c[2])
        if k == "&&":
            return self.cond(c[1]) and self.cond(c[2])
        if k == "not":
            return not self.cond(c[1])
        if k == "unary":
            return self.unary(c[1], self.flat(c[2]))
        if c[1] in ("==", "=", "!="):
            r = self.match(self.flat(c[2]), c[3])
            return r if c[1] != "!=" else not r
        if c[1] == "=~":
            v, rx = self.flat(c[2]), "".join(re.escape(self.flat([p])) if p[-1] else self.flat([p]) for p in c[3])
            try:
                if re.search(rx, v):
                    return True
            except re.error:
                raise Unknown("=~ %s" % rx)
            if any(self.is_sym(c) and self.syms[ord(c) - BASE][0][0] in ("output", "content?") for c in v):
                return self.ask(("match", v, rx))
            return False
        return self.binary(c[1], self.flat(c[2]), self.flat(c[3]))

    # a few programs ----------------------------------------------------------------------------------------------------
    def do_which(self, a, reds):
        names = [x for x in a[1:] if not x.startswith("-")]
        if self.ask(("found", names[0])):
            self.emit(self.sym("path of", names[0]) + "\n", reds)
            self.status = 0
        else:
            self.stdout(reds)
            self.status = 1

    def do_sed(self, a, reds):
        """s#a#b#g on one line of known text"""
        m = re.fullmatch(r"s(\W)(.*?)\1(.*?)\1(g?)", a[1]) if len(a) == 2 and isinstance(a[1], str) else None
        if self.stdin is None or not m or not self.const(self.stdin + a[1]) or m.group(1) == "\\" or re.search(r"[\\&]", m.group(2) + m.group(3)):
            return self.external(a, reds)
        try:
            pat = re.compile(basic(m.group(2)))
        except re.error:
            raise Unknown("a pattern of sed")
        if not m.group(2):
            raise Unknown("the empty pattern of sed")
        self.emit("".join(pat.sub(lambda x: m.group(3), l, count=0 if m.group(4) else 1) + "\n" for l in self.stdin.splitlines()), reds)
        self.status = 0

    def do_dirname(self, a, reds):
        self.emit(self.sym("dir of", self.text(a[-1])) + "\n", reds)
        self.status = 0

    def do_basename(self, a, reds):
        self.emit(self.sym("base of", self.text(a[1])) + "\n", reds)
        self.status = 0

    def do_realpath(self, a, reds):
        self.emit(self.text(a[-1]) + "\n", reds)
        self.status = 0

    do_readlink = do_realpath

    def do_expr(self, a, reds):
        v = self.arith(" ".join(self.text(x) for x in a[1:]))
        self.emit(v + "\n", reds)
        self.status = 1 if v == "0" else 0

    def do_cat(self, a, reds):
        paths = [self.text(x) for x in a[1:] if x != "--"]
        ins = [self.flat(w) for fd, op, w in reds if op == "<"]
        for fd, op, w in reds:
            if op in ("<<", "<<-"):
                self.emit(w["body"] if w["quoted"] else self.flat(Parser(w["body"]).dq_all()), [r for r in reds if r[1] not in ("<<", "<<-")])
                self.status = 0
                return
        st = 0
        reds = [r for r in reds if r[1] != "<"]
        text = ""
        for p in paths or ins:
            if not self.unary("-f", p):
                st = 1
                continue
            text += self.content.get(p) if self.content.get(p) is not None else self.sym("content", p, plain=False)
        self.emit(text, reds)
        self.status = st

    def do_rm(self, a, reds):
        self.stdout(reds)
        for x in a[1:]:
            x = self.text(x)
            if not x.startswith("-"):
                self.event("remove", x, self.files.get(x))
                self.files[x] = False
                self.content.pop(x, None)
        self.status = 0

    do_unlink = do_rm

    def do_mktemp(self, a, reds):
        n = self.sym("mktemp", len(self.symkeys))
        p = (re.sub(r"X+$", "", self.text(a[-1])) if len(a) > 1 and not a[-1].startswith("-") else "/tmp/tmp.") + n
        if "-u" not in a and "--dry-run" not in a:
            self.files[p], self.content[p] = True, ""
            self.event("write", p)
        self.emit(p + "\n", reds)
        self.status = 0

    def do_mkdir(self, a, reds):
        self.status = 0

    def do_sleep(self, a, reds):
        self.status = 0

    def do_clear(self, a, reds):
        self.status = 0


def paths(text, limit=4000, **kw):
    """every abstract path of the script: (shell after the path, how it ended: return, exit or end)"""
    prog = parse(text)
    todo, n = [[]], 0
    while todo:
        ch = todo.pop()
        sh = Shell(choices=ch, **kw)
        how = "end"
        try:
            sh.run(prog)
        except Return:
            how = "return"
        except Exit:
            how = "exit"
        except (Break, Continue):
            raise Unknown("break outside a loop")
        n += 1
        if n > limit:
            raise Unknown("more than %d paths" % limit)
        for k in range(len(ch), len(sh.taken)):
            for c in range(1, sh.alts[k]):
                todo.append(sh.taken[:k] + [c])
        yield sh, how
