"""Constant folding of standard-library functions (regular expressions, containers, paths) used by the abstract interpreter.

Only library functions without effects are folded, and only when every operand is a compile-time constant of the
abstract state; the analysed program itself is never imported or run.
"""
import pathlib
import json
import posixpath
import shlex
import textwrap
import re

from terms import *   # noqa: F401,F403

RE_FLAGS = {"re.I": re.I, "re.IGNORECASE": re.I, "re.M": re.M, "re.MULTILINE": re.M, "re.S": re.S, "re.DOTALL": re.S,
            "re.X": re.X, "re.VERBOSE": re.X, "re.A": re.A, "re.ASCII": re.A}


class FoldMixin:
    def re_flags(self, v):
        if v is None:
            return 0
        if v[0] == "ext" and v[1] in RE_FLAGS:
            return int(RE_FLAGS[v[1]])
        if is_int_c(v):
            return cval(v)
        if v[0] == "bin" and v[1] == "BitOr":
            a, b = self.re_flags(v[2]), self.re_flags(v[3])
            return None if a is None or b is None else a | b
        return None

    def lift(self, st, v, node, fid):
        """a Python constant, list or tuple of constants, or match object as an abstract value"""
        if v is None or isinstance(v, (str, int, bool, float)):
            return (st, C(v))
        if isinstance(v, tuple):
            vals = []
            for x in v:
                st, y = self.lift(st, x, node, fid)
                vals.append(y)
            return (st, ("tuple", tuple(vals)))
        if isinstance(v, list):
            st = st.copy()
            vals = []
            for x in v:
                st, y = self.lift(st, x, node, fid)
                vals.append(("i", y))
            return (st, self.new_obj(st, "list", node, fid, items=vals))
        if isinstance(v, re.Match):
            return (st, ("rem", v.re.pattern, v.re.flags & ~re.U, v.string, v.span()))
        raise ValueError(type(v))

    def fold_re(self, st, fn, args, kwargs, node, fid):
        kw = dict(kwargs)
        fl = kw.pop("flags", None)
        n = {"findall": 2, "search": 2, "match": 2, "fullmatch": 2, "finditer": 2, "split": 2, "sub": 3, "escape": 1, "compile": 1}[fn]
        args = list(args)
        if fn in ("findall", "search", "match", "fullmatch", "finditer", "compile") and len(args) == n + 1 and fl is None:
            fl = args.pop()
        if kw or len(args) != n:
            return None
        flags = self.re_flags(fl)
        if flags is None:
            return None
        a0 = args[0]
        if a0[0] == "rx":
            pat, flags = a0[1], a0[2] | flags
        elif is_str_c(a0):
            pat = a0[2]
        else:
            return None
        if fn == "compile":
            return [(st, "v", ("rx", pat, flags))]
        if not all(is_str_c(a) for a in args[1:]):
            if not all(is_c(a) for a in args[1:]):
                return None
            return [(st, "x", ("exc", "TypeError", ()))]
        try:
            if fn == "escape":
                v = re.escape(pat)
            elif fn == "finditer":
                v = list(re.finditer(pat, args[1][2], flags))
            else:
                v = getattr(re, fn)(pat, *[a[2] for a in args[1:]], **({"flags": flags} if flags else {}))
        except re.error:
            return [(st, "x", ("exc", "re.error", ()))]
        s, t = self.lift(st, v, node, fid)
        return [(s, "v", t)]

    def x_re_findall(self, st, args, kwargs, node, fid):
        return self.fold_re(st, "findall", args, kwargs, node, fid)

    def x_re_search(self, st, args, kwargs, node, fid):
        return self.fold_re(st, "search", args, kwargs, node, fid)

    def x_re_match(self, st, args, kwargs, node, fid):
        return self.fold_re(st, "match", args, kwargs, node, fid)

    def x_re_fullmatch(self, st, args, kwargs, node, fid):
        return self.fold_re(st, "fullmatch", args, kwargs, node, fid)

    def x_re_finditer(self, st, args, kwargs, node, fid):
        return self.fold_re(st, "finditer", args, kwargs, node, fid)

    def x_re_split(self, st, args, kwargs, node, fid):
        return self.fold_re(st, "split", args, kwargs, node, fid)

    def x_re_sub(self, st, args, kwargs, node, fid):
        return self.fold_re(st, "sub", args, kwargs, node, fid)

    def x_os_fspath(self, st, args, kwargs, node, fid):
        if len(args) == 1 and args[0][0] == "pp":
            return [(st, "v", C(args[0][1]))]
        if len(args) == 1 and args[0][0] == "c" and isinstance(args[0][2], str):
            return [(st, "v", args[0])]
        return None

    def x_shlex_quote(self, st, args, kwargs, node, fid):
        if len(args) == 1 and not kwargs and is_str_c(args[0]):
            return [(st, "v", C(shlex.quote(args[0][2])))]
        return None

    def x_json_dumps(self, st, args, kwargs, node, fid):
        if len(args) == 1 and set(kwargs) <= {"ensure_ascii"} and is_str_c(args[0]) and all(is_c(v) for v in kwargs.values()):
            return [(st, "v", C(json.dumps(args[0][2], **{n: v[2] for n, v in kwargs.items()})))]
        return None

    def x_re_escape(self, st, args, kwargs, node, fid):
        return self.fold_re(st, "escape", args, kwargs, node, fid)

    def x_re_compile(self, st, args, kwargs, node, fid):
        return self.fold_re(st, "compile", args, kwargs, node, fid) if args and is_str_c(args[0]) and self.fold_compile else None

    def fold_method(self, st, b, name, args, kwargs, node, fid):
        """methods of compiled patterns and match objects; None: not folded"""
        if b[0] == "rx" and name in ("findall", "search", "match", "fullmatch", "finditer", "split", "sub") and not kwargs:
            r = self.fold_re(st, name, [b] + list(args), {}, node, fid)
            if r is None:
                return [(st, "v", ("pc", "re." + name, (C(b[1]),) + tuple(self.reify(st, a) for a in args), ()))]
            return r
        if b[0] == "rem":
            m = self.match_of(b)
            try:
                if name in ("group", "groups", "start", "end", "span", "__getitem__") and all(is_c(a) for a in args) and not kwargs:
                    s, t = self.lift(st, getattr(m, name)(*[a[2] for a in args]), node, fid)
                    return [(s, "v", t)]
            except IndexError:
                return [(st, "x", ("exc", "IndexError", ()))]
        return None

    def match_of(self, b):
        for m in re.finditer(b[1], b[3], b[2]):
            if m.span() == b[4]:
                return m
        m = re.fullmatch(b[1], b[3], b[2])
        if m is not None and m.span() == b[4]:
            return m
        return re.match(b[1], b[3], b[2])

    # ---- containers with known elements
    def elements(self, st, v):
        v = self.norm_container(v)
        k = self.known_items(st, v)
        if k is not None:
            return list(k)
        if v[0] == "o":
            h = st.heap[v[1]]
            if h.kind == "set" and all(x[0] == "i" for x in h.items):
                return [x[1] for x in h.items]
            if h.kind == "dict" and h.fresh and all(x[0] == "kv" for x in h.items):
                return [x[1] for x in h.items]
        if v[0] == "pm" and v[1] in ("items", "values") and v[2][0] == "o":
            segs = self.iter_segments(st, v, None, None)
            if all(x[0] == "i" for x in segs):
                return [x[1] for x in segs]
        return None

    def fold_contains(self, st, items, x):
        """True/False/None"""
        unk = False
        for y in items:
            d = self.decide_eq(st, x, y)
            if d is True:
                return True
            if d is None:
                unk = True
        return None if unk else False

    def fold_list_method(self, st, b, name, args, node, fid):
        items = self.elements(st, b)
        if items is None:
            return None
        if name == "count" and len(args) == 1:
            ds = [self.decide_eq(st, x, args[0]) for x in items]
            if None not in ds:
                return [(st, "v", C(sum(ds)))]
        if name == "index" and len(args) == 1:
            for i, x in enumerate(items):
                d = self.decide_eq(st, x, args[0])
                if d is None:
                    return None
                if d:
                    return [(st, "v", C(i))]
            return [(st, "x", ("exc", "ValueError", ()))]
        if name in ("difference", "intersection", "issubset", "issuperset", "isdisjoint") and len(args) == 1:
            other = self.elements(st, args[0])
            if other is None:
                return None
            ins = [self.fold_contains(st, other, x) for x in items]
            if None in ins:
                return None
            if name == "isdisjoint":
                return [(st, "v", C(not any(ins)))]
            if name == "issubset":
                return [(st, "v", C(all(ins)))]
            if name == "issuperset":
                o = [self.fold_contains(st, items, x) for x in other]
                return None if None in o else [(st, "v", C(all(o)))]
            keep = [("i", x) for x, f in zip(items, ins) if f == (name == "intersection")]
            s = st.copy()
            return [(s, "v", self.new_obj(s, "set", node, fid, items=keep))]
        return None

    def x_collections_Counter(self, st, args, kwargs, node, fid):
        items = self.elements(st, args[0]) if len(args) == 1 else None
        if items is None or not all(is_c(x) for x in items):
            return None
        c = {}
        for x in items:
            c[x] = c.get(x, 0) + 1
        s = st.copy()
        return [(s, "v", self.new_obj(s, "dict", node, fid, items=[("kv", x, C(n)) for x, n in c.items()]))]

    def x_os_path_join(self, st, args, kwargs, node, fid):
        t = [self.path_text_of(a) for a in args]
        if t and None not in t:
            return [(st, "v", C(posixpath.join(*t)))]
        return None

    def x_sum(self, st, args, kwargs, node, fid):
        items = self.elements(st, args[0])
        if items is not None and all(is_int_c(x) or is_c(x) and isinstance(x[2], bool) for x in items):
            return [(st, "v", C(sum(x[2] for x in items) + (cval(args[1]) if len(args) > 1 else 0)))]
        return None

    def x_textwrap_dedent(self, st, args, kwargs, node, fid):
        if len(args) == 1 and is_str_c(args[0]) and not kwargs:
            return [(st, "v", C(textwrap.dedent(args[0][2])))]
        return None

    # ---- paths (only when the rule asks for it): ("pp", text)
    CWD = "/cwd"

    def path_text_of(self, v):
        if v[0] == "pp":
            return v[1]
        if is_str_c(v):
            return v[2]
        return None

    def pure_path(self, text):
        return ("pp", str(pathlib.PurePosixPath(text)))

    def x_pathlib_Path(self, st, args, kwargs, node, fid):
        if not self.fold_paths or not args or kwargs:
            return None
        t = [self.path_text_of(a) for a in args]
        if None in t:
            return None
        return [(st, "v", self.pure_path(posixpath.join(*t)))]

    x_pathlib_PurePath = x_pathlib_Path
    x_pathlib_PosixPath = x_pathlib_Path

    def x_pathlib_Path_cwd(self, st, args, kwargs, node, fid):
        return [(st, "v", ("pp", self.CWD))] if self.fold_paths else None

    def x_os_getcwd(self, st, args, kwargs, node, fid):
        return [(st, "v", C(self.CWD))] if self.fold_paths else None

    def x_dict_fromkeys(self, st, args, kwargs, node, fid):
        items = self.elements(st, args[0])
        s = st.copy()
        d = self.new_obj(s, "dict", node, fid)
        v = args[1] if len(args) > 1 else NONE
        if items is not None:
            for x in items:
                s = self.set_item(s, d, x, v, node, fid)
        else:
            s.heap[d[1]] = s.heap[d[1]].with_items((("spread", self.reify(s, args[0])),))
        return [(s, "v", d)]

    def resolve_text(self, t):
        return posixpath.normpath(posixpath.join(self.CWD, t))

    def path_attr(self, st, b, name):
        p = pathlib.PurePosixPath(b[1])
        if name == "parent":
            return self.pure_path(p.parent)
        if name in ("name", "stem", "suffix"):
            return C(getattr(p, name))
        if name == "parents":
            return ("tuple", tuple(self.pure_path(x) for x in p.parents))
        return None

    def path_method(self, st, b, name, args, kwargs, node, fid):
        p = pathlib.PurePosixPath(b[1])
        if name in ("resolve", "absolute"):
            return [(st, "v", ("pp", self.resolve_text(b[1])))]
        if name == "is_absolute":
            return [(st, "v", C(p.is_absolute()))]
        if name in ("as_posix", "__str__", "__fspath__"):
            return [(st, "v", C(b[1]))]
        if name == "joinpath":
            t = [self.path_text_of(a) for a in args]
            if None not in t:
                return [(st, "v", self.pure_path(p.joinpath(*t)))]
        if name in ("exists", "is_file", "is_dir") and self.path_exists is not None:
            return [(st, "v", C(self.path_is(name, b[1], st)))]
        if name == "is_symlink" and self.path_exists is not None:
            return [(st, "v", C(self.path_link))]
        if name in ("stat", "lstat") and self.path_exists is not None and (self.path_size is not None or self.path_time is not None):
            return [(st, "v", ("stat", b[1]))] if self.path_is("exists", b[1], st) or self.path_time is not None and self.path_time(b[1]) == 100 else [(st, "x", ("exc", "FileNotFoundError", ()))]
        return None

    def path_is(self, name, text, st=None):
        """path_exists answers False, True (a file) or "dir"; what the path itself did before counts """
        r = self.path_exists(text)
        for ev in (st.trace if st is not None else ()):
            if ev.kind == "xm" and ev.a[1] == ("pp", text) and ev.a[0] in ("unlink", "rename", "replace", "rmdir"):
                r = False
            elif ev.kind == "xm" and ev.a[1] == ("pp", text) and ev.a[0] in ("touch", "write_text", "open", "mkdir"):
                r = r or (True if ev.a[0] != "mkdir" else "dir")
            elif ev.kind == "x" and ev.a[1] and self.path_text_of(ev.a[1][0]) == text:
                if ev.a[0] in ("os.remove", "os.unlink", "os.rename", "os.replace", "os.rmdir", "shutil.rmtree", "shutil.move"):
                    r = False
                elif ev.a[0] in ("open", "io.open"):
                    mode = ev.a[1][1] if len(ev.a[1]) > 1 else dict(ev.a[2]).get("mode", C("r"))
                    r = r or (is_str_c(mode) and mode[2][:1] in ("w", "a", "x"))
        return bool(r) if name == "exists" else r == "dir" if name in ("is_dir", "isdir") else bool(r) and r != "dir"

    def x_os_fspath(self, st, args, kwargs, node, fid):
        return [(st, "v", C(args[0][1]))] if args and args[0][0] == "pp" else None

    def os_path(self, st, name, args):
        if not self.fold_paths:
            return None
        t = [self.path_text_of(a) for a in args]
        if None in t or not t:
            return None
        if name in ("exists", "isfile", "isdir"):
            return None if self.path_exists is None else [(st, "v", C(self.path_is(name, t[0], st)))]
        if name == "getsize":
            return None if self.path_exists is None or self.path_size is None else [(st, "v", C(self.path_size))] if self.path_is("exists", t[0], st) else [(st, "x", ("exc", "FileNotFoundError", ()))]
        if name in ("getmtime", "getctime"):
            return None if self.path_exists is None or self.path_time is None else [(st, "v", C(self.path_time(t[0])))]
        if name in ("islink", "lexists"):
            return None if self.path_exists is None else [(st, "v", C(self.path_link if name == "islink" else self.path_is("exists", t[0], st)))]
        if name in ("realpath", "abspath"):
            return [(st, "v", C(self.resolve_text(t[0])))]
        return [(st, "v", C(getattr(posixpath, name)(*t)))]

    def x_os_path_exists(self, st, args, kwargs, node, fid):
        return self.os_path(st, "exists", args)

    def x_os_path_isfile(self, st, args, kwargs, node, fid):
        return self.os_path(st, "isfile", args)

    def x_os_path_isdir(self, st, args, kwargs, node, fid):
        return self.os_path(st, "isdir", args)

    def x_os_path_getsize(self, st, args, kwargs, node, fid):
        return self.os_path(st, "getsize", args)

    def x_os_path_getmtime(self, st, args, kwargs, node, fid):
        return self.os_path(st, "getmtime", args)

    def x_os_path_getctime(self, st, args, kwargs, node, fid):
        return self.os_path(st, "getctime", args)

    def x_os_path_islink(self, st, args, kwargs, node, fid):
        return self.os_path(st, "islink", args)

    def x_os_path_lexists(self, st, args, kwargs, node, fid):
        return self.os_path(st, "lexists", args)

    def x_os_stat(self, st, args, kwargs, node, fid):
        t = self.path_text_of(args[0]) if args else None
        if not self.fold_paths or t is None:
            return None
        return self.path_method(st, ("pp", t), "stat", args[1:], kwargs, node, fid)

    def x_os_access(self, st, args, kwargs, node, fid):
        t = self.path_text_of(args[0]) if args else None
        if not self.fold_paths or t is None or self.path_exists is None:
            return None
        return [(st, "v", C(self.path_is("exists", t, st)))]

    def x_os_path_realpath(self, st, args, kwargs, node, fid):
        return self.os_path(st, "realpath", args)

    def x_os_path_abspath(self, st, args, kwargs, node, fid):
        return self.os_path(st, "abspath", args)

    def x_os_path_isabs(self, st, args, kwargs, node, fid):
        return self.os_path(st, "isabs", args)

    def x_os_path_dirname(self, st, args, kwargs, node, fid):
        return self.os_path(st, "dirname", args)

    def x_os_path_basename(self, st, args, kwargs, node, fid):
        return self.os_path(st, "basename", args)
