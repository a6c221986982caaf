"""Call-graph effect analysis: which public operations can change the process environment, run code or commands, or write files."""
import ast

from kit import *   # noqa: F401,F403
from model import dotted
from r_global import self_name

ENV, RUN, FILES, CWD = "changes the process environment", "runs a command or generated code", "writes or removes files", "changes the working directory or the interpreter's state"
ALL = (ENV, RUN, FILES, CWD)

RUN_CALLS = {"exec", "eval", "os.system", "os.popen", "subprocess.run", "subprocess.Popen", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.getoutput", "subprocess.getstatusoutput",
             "os.execv", "os.execve", "os.execvp", "os.execvpe", "os.spawnv", "os.spawnl", "os.fork", "env_modules_python.module", "runpy.run_path", "runpy.run_module"}
FILE_CALLS = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.mkdir", "os.makedirs", "os.rmdir", "os.removedirs", "os.truncate", "os.chmod", "os.symlink", "os.link", "shutil.rmtree", "shutil.move", "shutil.copy",
              "shutil.copy2", "shutil.copyfile", "shutil.copytree", "tempfile.mkstemp", "tempfile.mkdtemp", "tempfile.NamedTemporaryFile", "tempfile.TemporaryDirectory", "tempfile.TemporaryFile"}
FILE_METHODS = {"write_text", "write_bytes", "unlink", "rmdir", "touch", "symlink_to", "hardlink_to", "mkdir"}
ENV_METHODS = {"update", "pop", "clear", "setdefault", "popitem", "__setitem__", "__delitem__"}
CWD_CALLS = {"os.chdir", "os.umask", "os.fchdir", "os.chroot", "os.setuid", "os.kill", "signal.signal", "sys.setrecursionlimit", "locale.setlocale", "socket.setdefaulttimeout", "logging.disable", "warnings.simplefilter"}
COMMON = {"append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault", "get", "keys", "values", "items", "copy", "index", "count", "sort", "reverse", "add", "discard", "join", "split", "strip", "replace", "format",
          "startswith", "endswith", "lower", "upper", "write", "read", "close", "open", "group", "match", "search", "exists", "resolve", "name", "args", "value", "params", "op"}

# public operations (at the commit the property was written for) and what they are for
PURE = {
    "ConfigParserEnhanced": ["__init__", "assert_file_all_sections_handled", "assert_section_all_options_handled", "configparser_delimiters", "configparserdata", "configparserenhanceddata", "default_section_name", "enter_handler", "exit_handler",
                             "get_known_operations", "get_known_operations_message", "handler_finalize", "handler_initialize", "inifilepath", "operation_handler", "parse_all_sections", "parse_section", "parse_section_last_result",
                             "unroll_to_str", "write", "debug_message", "debug_level", "exception_control_event", "exception_control_level", "exception_control_compact_warnings", "exception_control_silent_warnings"],
    "ConfigParserEnhanced.ConfigParserEnhancedData": ["__init__", "__getitem__", "__len__", "__iter__", "items", "keys", "sections", "has_section", "options", "has_option", "get", "__contains__"],
    "Debuggable": ["debug_message", "debug_level"], "ExceptionControl": ["exception_control_event"],
    "SetEnvironment": ["__init__", "actions", "generate_actions_script", "handler_finalize", "handler_initialize", "pretty_print_actions", "pretty_print_envvars", "assert_file_all_sections_handled", "assert_section_all_options_handled",
                       "parse_section", "parse_all_sections", "configparserdata", "configparserenhanceddata", "unroll_to_str", "inifilepath", "exception_control_event"],
    "FormattedMsg": ["get_formatted_msg", "get_msg_for_list"],
    "KeywordParser": ["assert_no_value_is_equal_to_a_key_name", "assert_values_are_unique", "assert_values_do_not_contain_whitespace_or_delimiter", "config", "get_key_for_section_value", "get_values_for_section_key"],
    "DetermineSystem": ["__init__", "determine_system", "get_sys_name_from_build_name", "get_sys_name_from_hostname", "parse_supported_systems_file", "supported_sys_names", "system_name"],
    "LoadEnv": ["__init__", "args", "build_name", "env_stripped_build_name", "list_envs", "load_env_keyword_parser", "load_set_environment", "parse_supported_systems_file", "parse_top_level_config_file", "parsed_env_name", "system_name",
                "tmp_load_matching_env_file"],
    "EnvKeywordParser": ["__init__", "assert_alias_list_values_are_unique", "get_aliases", "get_msg_showing_supported_environments", "qualified_env_name"],
    "GenConfig": ["__init__", "args", "complete_config", "gen_config_config_data", "generated_config_flags_str", "list_config_flags", "list_configs", "load_config_keyword_parser", "load_env_args", "load_load_env", "load_set_program_options",
                  "validate_config_specs_ini", "validate_gen_config_config_data"],
    "ConfigKeywordParser": ["__init__", "assert_options_are_unique_across_all_flags", "build_name", "get_msg_showing_supported_flags", "get_options_and_flag_type_for_flag", "get_options_list_for_all_flags", "is_default_option",
                            "parse_selected_options", "selected_options", "selected_options_str"],
}
ALLOWED = {("SetEnvironment", "write_actions_to_file"): (FILES,), ("SetEnvironment", "apply"): (ENV, RUN), ("LoadEnv", "apply_env"): (ENV, RUN), ("LoadEnv", "write_load_matching_env"): (FILES,),
           ("GenConfig", "write_cmake_fragment"): (FILES,), ("load_env", "main"): (ENV, RUN, FILES), ("gen_config", "main"): (FILES,)}


class Graph:
    def __init__(self, prog):
        self.p = prog
        self.cache = {}
        self.by_name = {}
        for c in prog.by_qual.values():
            for n in list(c.methods) + list(c.props):
                self.by_name.setdefault(n, []).append(c)

    def members(self, c, name, ctx):
        """functions behind member `name` of class c"""
        r = self.p.find_member(c, name)
        if r is None:
            return []
        if r[0] == "method":
            return [r[1]]
        if r[0] == "prop":
            p = r[1]
            return [f for f in ((p.setter,) if ctx == "store" else (p.getter,)) if f is not None]
        if r[0] == "inner":
            i = self.p.find_member(r[1], "__init__")
            return [i[1]] if i is not None and i[0] == "method" else []
        return []

    def facts(self, f, c):
        """-> ([(effect, line, text)], [(callee Func, class, line)]) of function f run on an object of class c"""
        key = (id(f.node), c.qual if c else None)
        if key in self.cache:
            return self.cache[key]
        eff, out = [], []
        self.cache[key] = (eff, out)
        m = f.module
        me = self_name(f) if f.cls is not None else None
        local = {}
        alias = set()
        imports = {}
        args = {a.arg for a in list(f.node.args.posonlyargs) + list(f.node.args.args) + list(f.node.args.kwonlyargs)}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Import):
                for a in n.names:
                    imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    imports[a.asname or a.name] = (n.module or "") + "." + a.name
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                local.setdefault(n.targets[0].id, []).append(n.value)
            elif isinstance(n, (ast.FunctionDef,)) and n is not f.node:
                local.setdefault(n.name, []).append(None)

        def full(n):
            """dotted name of an expression with imports followed"""
            d = dotted(n)
            if d is None:
                return None
            h, _, t = d.partition(".")
            if h in imports:
                base = imports[h]
            elif h in local or h in args:
                return None
            else:
                r = self.p.resolve_name(m, h)
                base = r[1] if r is not None and r[0] == "ext" else None if r is not None else h
            return None if base is None else base + ("." + t if t else "")

        def environ(n):
            if full(n) in ("os.environ", "os.environb"):
                return True
            if isinstance(n, ast.Name) and n.id in local and n.id not in args:
                return len(local[n.id]) == 1 and local[n.id][0] is not None and full(local[n.id][0]) == "os.environ"
            return False

        def add(e, n, text):
            eff.append((e, n.lineno, text))

        def prog_func(n):
            """functions and constructors a bare name stands for"""
            if not isinstance(n, ast.Name) or n.id in local or n.id in args:
                return []
            r = self.p.resolve_import(m, imports[n.id]) if n.id in imports else self.p.resolve_name(m, n.id)
            if r is None:
                return []
            if r[0] == "func":
                return [(x, None) for x in r[1]]
            if r[0] == "cls":
                i = self.p.find_member(r[1], "__init__")
                return [(i[1], r[1])] if i is not None and i[0] == "method" else []
            return []

        used = set()       # names that are called or handed to a call (other than to look at their source)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                used.add(id(n.func))
                if not (full(n.func) or "").startswith("inspect.") and not (isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add", "extend")):
                    used |= {id(a) for a in n.args} | {id(a.value) for a in n.keywords}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and environ(n.value):
                add(ENV, n, ast.unparse(n))
            elif isinstance(n, ast.AugAssign) and environ(n.target):
                add(ENV, n, ast.unparse(n))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) in used:
                out.extend((g, gc, n.lineno) for g, gc in prog_func(n))
            elif isinstance(n, ast.Attribute):
                ctx = "load" if isinstance(n.ctx, ast.Load) else "store"
                if isinstance(n.value, ast.Name) and n.value.id == me and c is not None:
                    name = n.attr
                    if name.startswith("__") and not name.endswith("__") and f.cls is not None:
                        name = "_" + f.cls.name.lstrip("_") + name
                    out.extend((g, c, n.lineno) for g in self.members(c, name, ctx))
                elif isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super" and c is not None and f.cls is not None:
                    r = self.p.find_member(c, n.attr, after=f.cls)
                    if r is not None and r[0] == "method":
                        out.append((r[1], c, n.lineno))
                elif full(n) is None or dotted(n) is None:
                    r = self.p.resolve_name(m, n.value.id) if isinstance(n.value, ast.Name) and n.value.id not in local and n.value.id not in args else None
                    if r is not None and r[0] == "mod":
                        out.extend((g, None, n.lineno) for g in r[1].functions.get(n.attr, []))
                    elif n.attr not in COMMON and not n.attr.startswith("__"):
                        for c2 in self.by_name.get(n.attr, []):
                            out.extend((g, c2, n.lineno) for g in self.members(c2, n.attr, ctx))
            if isinstance(n, ast.Call):
                d = full(n.func)
                last = n.func.attr if isinstance(n.func, ast.Attribute) else None
                if d in RUN_CALLS:
                    add(RUN, n, d)
                elif d in ("os.putenv", "os.unsetenv"):
                    add(ENV, n, d)
                elif d in FILE_CALLS:
                    add(FILES, n, d)
                elif d in CWD_CALLS:
                    add(CWD, n, d)
                elif d in ("open", "io.open") or last == "open" and d is None:
                    i = 1 if d in ("open", "io.open") else 0
                    mode = n.args[i] if len(n.args) > i else next((k.value for k in n.keywords if k.arg == "mode"), None)
                    if isinstance(mode, ast.Constant) and isinstance(mode.value, str) and set(mode.value) & set("wax+"):
                        add(FILES, n, "open(..., %r)" % mode.value)
                elif last in FILE_METHODS and not self.by_name.get(last):
                    add(FILES, n, "." + last)
                elif last in ENV_METHODS and environ(n.func.value):
                    add(ENV, n, "os.environ." + last)
                elif d == "getattr" and len(n.args) > 1 and not isinstance(n.args[1], ast.Constant) and isinstance(n.args[0], ast.Name) and n.args[0].id == me and c is not None:
                    for k in self.p.mro(c):
                        for name, g in k.methods.items():
                            if "handler_" in name:
                                out.append((g, c, n.lineno))
        return eff, out

    def reach(self, f, c):
        """-> {effect: path} of the effects reachable from f on an object of class c; path = [(function, line)...]"""
        found, seen = {}, set()
        todo = [(f, c, ())]
        n = 0
        while todo:
            g, gc, path = todo.pop(0)
            key = (id(g.node), gc.qual if gc else None)
            if key in seen:
                continue
            seen.add(key)
            n += 1
            eff, out = self.facts(g, gc)
            for (e, line, text) in eff:
                found.setdefault(e, path + ((g.qual, line, text),))
            todo.extend((h, hc, path + ((g.qual, line, ""),)) for (h, hc, line) in out)
        return found, n


def S02(k):
    gr = Graph(k.p)

    def show_path(path):
        return " -> ".join("%s:%d%s" % (q, l, " " + t if t else "") for q, l, t in path)

    def judge(f, c, name, allowed):
        found, n = gr.reach(f, c)
        k.functions.add(f.qual)
        k.paths += n
        for e in ALL:
            if e in allowed:
                continue
            k.ob(e not in found, name, "%s %s%s" % (name, "never " if e not in found else "", e) + (": " + show_path(found[e]) if e in found else " (%d functions reachable)" % n))
    with k.rule("R1", "no path of the call graph leads from a reading, parsing, listing, matching, validating or generating operation to an effect", "whole program"):
        for cn, names in PURE.items():
            c = k.p.by_qual.get(cn)
            if c is None:
                continue
            for n in names:
                r = k.p.find_member(c, n)
                if r is None:
                    continue
                for f in [r[1]] if r[0] == "method" else [x for x in (r[1].getter, r[1].setter) if x is not None] if r[0] == "prop" else []:
                    judge(f, c, "%s.%s" % (cn, n), ())
    with k.rule("R2", "the operations that exist for an effect have no other one", "whole program"):
        for (cn, n), allowed in ALLOWED.items():
            c = k.p.by_qual.get(cn)
            fs = []
            if c is not None:
                r = k.p.find_member(c, n)
                fs = [(r[1], c)] if r is not None and r[0] == "method" else []
            else:
                fs = [(f, None) for m in k.p.modules.values() if m.short == cn for f in m.functions.get(n, [])]
            for f, c in fs:
                judge(f, c, "%s.%s" % (cn, n), allowed)
    with k.rule("R3", "importing a module has no effect on environment, files or commands", "module level"):
        for m in k.p.modules.values():
            if m.short in ("__main__",):
                continue
            asmain = {"__name__"}
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and names_in(s.value) & asmain:
                    asmain |= {t.id for t in s.targets if isinstance(t, ast.Name)}
            body = [s for s in m.tree.body if not (isinstance(s, ast.If) and names_in(s.test) & asmain)]
            node = ast.FunctionDef(name="<module>", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[s for s in flat_stmts(body) if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))],
                                   decorator_list=[], lineno=1, col_offset=0)

            class F:
                pass
            f = F()
            f.node, f.module, f.cls, f.qual = node, m, None, m.rel
            found, n = gr.reach(f, None)
            for e in ALL:
                k.ob(e not in found, m.rel, "importing %s %s%s" % (m.rel, "never " if e not in found else "", e) + (": " + show_path(found[e]) if e in found else ""))


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def flat_stmts(body):
    for s in body:
        if isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for part in ("body", "orelse", "finalbody"):
                yield from flat_stmts(getattr(s, part, []) or [])
            for h in getattr(s, "handlers", []):
                yield from flat_stmts(h.body)
        else:
            yield s
