"""Inputs of the decision tables. Besides a fixed pool of character classes, every table is extended by the literals the
source itself mentions: a condition that singles out one text, one length or one count can only do so with a literal, so a
table that contains each of them (and its neighbours) meets every such special case, whatever the wanted outcome is."""
import ast
import re

ZOO = ("a", "B", "Zed", "ALLCAPS", "camelCase", "9", "10", "1.2", "a-b", "a.b", "x+y", "(x)", "[z]", "a,", ";", "a;b", "k=v", "c:", "'q'", '"d"', "\u00e9", "None", "True", "0", "-1", "-", "--f", "{x}", "${V}",
       "%s", "%%", "\\n", "*", "?", "^", "$x", "a/b", "~", "@", "!", "|", "x" * 70, "default", "DEFAULT", "all", "none")


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            out.add(id(n.value))
        if isinstance(n, ast.JoinedStr):
            out.update(id(x) for v in n.values for x in ([v] if isinstance(v, ast.Constant) else []))
    return out


def literals(prog, shorts):
    """-> (short texts, small numbers) the modules mention outside docstrings and message texts"""
    strs, ints = [], set()
    for m in prog.modules.values():
        if m.short not in shorts:
            continue
        skip = docstrings(m.tree)
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Constant) or id(n) in skip:
                continue
            v = n.value
            if isinstance(v, str) and v and len(v) <= 24 and v.count(" ") <= 2 and v not in strs:
                strs.append(v)
            elif isinstance(v, int) and not isinstance(v, bool) and 1 < v <= 300:
                ints.add(v)
    return strs, sorted(ints)


def words(prog, *shorts, sep="_"):
    """tokens without white space and separator: the pool and everything made of the source's literals"""
    strs, ints = literals(prog, shorts)
    out = list(ZOO)
    for s in strs:
        t = re.sub(r"[\s%s]+" % re.escape(sep), "", s) if sep else re.sub(r"\s+", "", s)
        if t:
            out += [t, "a" + t, t + "a", "a" + t + "b"]
    for n in ints:
        out += ["w" * n, "w" * (n + 1)] if n <= 120 else []
    seen, res = set(), []
    for w in out:
        if w not in seen and (not sep or sep not in w):
            seen.add(w)
            res.append(w)
    return res


def counts(prog, *shorts):
    """list lengths around every number the modules mention"""
    _, ints = literals(prog, shorts)
    return sorted({0, 1, 2, 3, 5, 12, 60, 130} | {n + d for n in ints for d in (0, 1)})
