"""Property -> rules."""
import r_core
import r_exc
import r_view
import r_global
import r_iso
import r_env
import r_tools
import r_module
import r_load
import r_gen
import r_effect
import r_msg
import r_types
import r_shell
import r_op

RULES = {}
for _m in (r_core, r_exc, r_view, r_global, r_iso, r_env, r_tools, r_module, r_load, r_gen, r_effect, r_msg, r_types, r_shell, r_op):
    for _n in dir(_m):
        if len(_n) == 3 and _n[0] in "CSKDLGB" and _n[1:].isdigit():
            RULES[_n] = getattr(_m, _n)

ASSUMPTIONS = [
    "only /repo's source text is read: nothing of it is imported or run; calls of the standard library whose arguments are all "
    "known constants (string methods, re, shlex, posixpath) are folded with Python's own implementation",
    "a call the analysis does not look into (standard library, configparser, subprocess) may return any value and, inside a try, raise; "
    "it does not change mutable objects of the program handed to it unless its effect is described (update, append, sort, write ...)",
    "one thread at a time uses an object; subclasses outside the repository are not analysed",
    "an obligation whose code has a form the rule cannot read is counted as undecided (listed in `undecided`), never as a violation",
]
_SH = ["python3, its programs, cmake and module tools are stand-ins that succeed, fail or are interrupted; their own effects are L01-L03 and G01-G03",
       "build names, file names and saved arguments hold no white space, globbing characters or quotes", "interrupts are considered while a program runs, not between two commands of the script",
       "decided for a table of argument shapes (number, order and kind of arguments)"]
EXTRA_ASSUMPTIONS = {
    "C12": ["configparser.ConfigParser does what its documentation says with the arguments it is given"],
    "C14": ["the text of an option line is fixed by the stand-in sections of the table (names, values, no value, empty section)"],
    "S02": ["a function kept in a variable or container is an edge of the call graph where it is referenced by name, not where it is called",
            "setprogramoptions (not part of the repository) is not analysed"],
    "S06": ["the module tools are stand-ins described by exit status, standard output, standard error and _mlstatus"],
    "S08": ["os.path.expandvars, os.getenv, shutil.which and find_executable are described by their documentation", "decided for a table of operations x old values x values x allow_empty"],
    "S09": ["the bash interpreter of the checker follows the bash manual (compared with bash 5.2 on 1351 rows while it was developed; bash is not run by the check)",
            "values hold no command substitution, unterminated `${` or reference to an unset variable; removed text holds no white space or back-slash", "`which` and the variables' values are described by the table"],
    "K01": ["decided for every text of up to three lines from a pool of line shapes (comments, blanks, tabs, underscores, keys, duplicates)"],
    "K02": ["decided for a table of flag files and build names; files and names outside the table are not covered"],
    "D01": ["decided for a table of systems, host names and build names; names outside the table are not covered"],
    "L01": ["decided for a table of environments, aliases and build names; names outside the table are not covered"],
    "L03": ["paths are resolved lexically (no symbolic links)"],
    "L04": ["decided for a table of build names"],
    "G01": ["decided for every sequence of up to three answers from a pool"],
    "G02": ["LoadEnv, ConfigKeywordParser and SetProgramOptions are stand-ins with the behaviour of L01-L04 and K02"],
    "B01": _SH, "B02": _SH, "B03": _SH, "B04": _SH,
    "G03": ["argparse stores an option under its destination name", "paths are resolved lexically (no symbolic links)"],
}
