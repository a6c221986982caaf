#!/usr/bin/env python3
"""The property list; running this file rewrites properties.jsonl and MANIFEST.json from it."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "checker"))

CPE = "src/configparserenhanced/ConfigParserEnhanced.py"
EXC = "src/configparserenhanced/ExceptionControl.py"
TYP = "src/configparserenhanced/TypedProperty.py"
DBG = "src/configparserenhanced/Debuggable.py"
HPR = "src/configparserenhanced/HandlerParameters.py"
SE = "wip/setenvironment/src/setenvironment/SetEnvironment.py"
MH = "wip/setenvironment/src/setenvironment/ModuleHelper.py"
KP = "wip/keywordparser/keywordparser/KeywordParser.py"
CKP = "wip/genconfig/src/config_keyword_parser.py"
EKP = "wip/loadenv/loadenv/EnvKeywordParser.py"
DS = "wip/determinesystem/determinesystem/DetermineSystem.py"
LE = "wip/loadenv/load_env.py"
GC = "wip/genconfig/gen_config.py"

P = {}


def prop(pid, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, title
    P[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na)


AI = "path-partitioned abstract interpretation over the AST (typestate and effect rules on abstract traces)"
NOTE = ("Every abstract path of the entry points is covered (loops by a widened invariant, calls inlined or summarised), so a held rule "
        "covers all inputs under the stated assumptions; code the analysis cannot follow is reported as undecided, never as held or violated.")

prop("C01", "Parsing a section handles every option once, in file order",
     "When a section is parsed, each of its options is processed exactly once and in the order of the file: an option that names an operation "
     "with a handler goes to that handler only, and every other option is stored, key and value unchanged, in the parsed result of the section "
     "being parsed. No option is dropped, duplicated, reordered or stored under another section, also when it was pulled in by `use`; for a key "
     "given twice the later one wins.",
     ["inputs", "programs"], "all .ini contents, all section graphs and all sets of handlers of a subclass",
     "The tests parse a handful of fixture files; order and completeness must hold for any number of options, any handler set and any mix of handled and plain options.",
     [CPE], [{"name": "section walk", "where": CPE + ": parse_section / _parse_section_r"}, {"name": "generic storage", "where": CPE + ": handler_generic, ConfigParserEnhancedData.set"}], AI, NOTE)
prop("C02", "`use` expands in place and cycles end with a warning",
     "`use <section>` expands the named section at that point, every time it occurs, including repeated and diamond-shaped use. Only a section "
     "whose own expansion is still in progress is skipped, with one WARNING event, and parsing then goes on with the next option; so every "
     "section graph, cyclic or not, including cycles through the default section, is parsed to the end.",
     ["inputs", "programs"], "all section graphs (self loops, mutual cycles, diamonds, default section included)",
     "The tests hold one or two cyclic fixtures; termination and exact expansion quantify over every graph.",
     [CPE], [{"name": "cycle detection", "where": CPE + ": _parse_section_r, _handler_use"}], AI, NOTE)
prop("C03", "Initialize, default section, options and finalize run in order, once each",
     "Parsing a section runs, in this order: the initialize handler, the expansion of the default section (if one is configured, exists and is "
     "not the section itself), the section's own options, the finalize handler; initialize and finalize run exactly once per parse, only when "
     "switched on, and never for a section pulled in by `use`. All handlers of one parse see the same shared-data dictionary, which is what the "
     "parse returns; a section that does not exist raises KeyError.",
     ["inputs", "configurations"], "all sections, all initialize/finalize switches, with and without default section",
     "Tests sample single runs of single configurations; the order and multiplicity must hold on every path, including nested expansion.",
     [CPE], [{"name": "parse lifecycle", "where": CPE + ": parse_section, handler_initialize, handler_finalize"}], AI, NOTE)
prop("C04", "Options find exactly the handler their first word names",
     "The operation of an option is the first word of its key with '-' read as '_', and the method handler_<op> or _handler_<op> handles it; if "
     "neither exists the generic handler gets the option, and if both exist an AmbiguousHandlerError of severity SERIOUS is reported before any handler is called. "
     "Option names that equal a life-cycle hook's name (initialize, finalize) are ordinary options, and the list of known operations names exactly the existing operation handlers.",
     ["inputs", "programs"], "all option keys and all handler sets of a subclass",
     "Tests use a few operation names; the lookup must agree for every key and every subclass.",
     [CPE], [{"name": "handler lookup", "where": CPE + ": _locate_class_method, _parse_section_r, _get_known_operations"}], AI,
     NOTE + " The key syntax itself is decided by folding the regular expression on a fixed list of probe words.")
prop("C05", "Handler return codes are never swallowed",
     "The return value of every handler call is checked: 0 is silent, 1 to 10 and negative values report a WARNING event, values above 10 report a "
     "CATASTROPHIC RuntimeError event, and the value is handed back unchanged. Every handler, built in or of the shipped subclasses, is covered by this check, "
     "and its entry and exit are recorded once around the call.",
     ["inputs", "programs"], "all handlers and all return values",
     "Tests try one value per class; the partition and the coverage of all handlers is a statement about all of them.",
     [CPE, SE, CKP], [{"name": "ConfigParserEnhanced.operation_handler", "where": CPE + ": operation_handler decorator"}], AI, NOTE)
prop("C06", "Exception control raises or reports exactly as the level table says",
     "An event raises its exception exactly when the exception control level reaches the event's requirement (CATASTROPHIC always, CRITICAL 2, SERIOUS 3, "
     "MINOR 4, WARNING and SILENT 5, letter case ignored); the exception has the caller's type and message. Otherwise a notice is printed at levels 1 to 4 unless the "
     "event is SILENT or warnings are silenced, and nothing else happens; an unknown event type or a non-exception argument is always an error, and assigned levels are kept within 0..5.",
     ["inputs", "configurations"], "all event types x levels x notice switches x messages",
     "The tests cover a subset of the table and few message forms.",
     [EXC], [{"name": "exception_control_event", "where": EXC}], AI + "; exhaustive over the finite event/level table", NOTE)
prop("C07", "Typed properties store only validated values, privately per instance",
     "A typed property only ever holds a value that passed type check, conversion, transformation and validation, in that order; a refused assignment "
     "raises and leaves the old value. Before the first assignment it reads as its own deep copy of the default (or the factory's result), or raises if "
     "assignment is required first; deletion restores that state, and neither two instances nor two properties of one instance share a value or its set state.",
     ["inputs", "histories", "programs"], "all option combinations of the property factory and all assign/read/delete histories",
     "Tests use a few option combinations and single histories.",
     [TYP], [{"name": "typed_property", "where": TYP}], AI, NOTE)
prop("C08", "Handlers get the right parameters, with nothing left over",
     "Every handler is told the key and value of the option it handles, the section that is being parsed as root (also inside `use`), and its own name; "
     "an operation handler additionally sees its operation and exactly the remaining words of the key. Nothing of one option's operation or parameters is visible to the handler of another, "
     "and a nested expansion cannot change the caller's parameters apart from the shared dictionaries.",
     ["inputs", "programs"], "all option sequences, nesting depths and handlers",
     "Left-over state shows only for particular option sequences, which tests do not enumerate.",
     [CPE, HPR], [{"name": "handler parameters", "where": CPE + ": _parse_section_r, _handler_use, _new_handler_parameters"}], AI, NOTE)
prop("C11", "The parsed view never shows an unparsed or stale section",
     "Reading a section through the enhanced view (item access, options, items, get, has_option) first parses it exactly once if it is in the file and not yet parsed, and answers "
     "later reads from the result without parsing again. Sections, iteration and length cover every section of the file; has_section is False for a section that is not in the file, has_option is never True for a missing option, and reading what is missing raises KeyError. Adding a section makes an empty one when there is none or when `force` is given, and otherwise keeps what is there.",
     ["histories", "inputs"], "all orders of reads over all files",
     "Laziness bugs need particular access orders; the tests use a few.",
     [CPE], [{"name": "ConfigParserEnhancedData", "where": CPE}], AI, NOTE)
prop("C12", "Loading reads all files, in order, with the configured syntax",
     "The .ini data is built from every file of the list, in order, as UTF-8, with the configured delimiters, with keys kept in their case and allowed without value. "
     "A missing file or a directory anywhere in the list raises IOError before anything is read, an empty list raises ValueError, and reading the list before it is set raises ValueError.",
     ["inputs", "configurations", "fault_sequences"], "all file lists and delimiter settings",
     "Tests use one or two files; a missing file in the middle or non-ASCII text is not sampled.",
     [CPE], [{"name": "configparserdata", "where": CPE + ": configparserdata, inifilepath"}], AI, NOTE)
prop("C13", "Unhandled options are always reported by the completeness checks",
     "Asserting that all options of a section are handled gives 0 and no event exactly when its parsed result is empty; otherwise it gives a non-zero result and, when raising is asked for, "
     "one SERIOUS ValueError event; the result and the event's message name every unhandled option. The whole-file check looks at every section, goes on after a bad one, shows the report of each bad one, and reports when any is bad.",
     ["inputs"], "all files and all positions of the offending section",
     "Tests place one bad section in one file.",
     [CPE], [{"name": "assert_section_all_options_handled / assert_file_all_sections_handled", "where": CPE}], AI, NOTE)
prop("C14", "Unrolling writes every section and leaves the parser's settings alone",
     "Unrolling writes every section (or the one asked for) once, with all its parsed options in order, using the same files, delimiters and default section as the parser itself; an unknown section raises KeyError. "
     "The caller's exception control level is unchanged afterwards, also when unrolling fails, and writing puts exactly that text, once, into the given file.",
     ["inputs", "fault_sequences", "configurations"], "all files, settings and failures during unrolling",
     "Tests compare a few default-configuration outputs; failure paths are not sampled.",
     [CPE], [{"name": "unroll_to_str / write", "where": CPE}], AI, NOTE)


exec(open(os.path.join(VERIF, "tools", "props2.py"), encoding="utf-8").read())


def main():
    import rules
    lines, checks, na = [], [], []
    for pid in sorted(P):
        d = P[pid]
        if d["na"] is None and pid not in rules.RULES:
            print("no rule yet:", pid)
            continue
        lines.append(json.dumps({"id": pid, "title": d["title"], "statement": d["statement"],
                                 "quantifier": {"over": d["over"], "text": d["qtext"]}, "why_tests_cant": d["why"],
                                 "anchors": {"files": d["files"], "mechanism": d["mech"]}}))
        if d["na"] is not None:
            na.append({"property": pid, "reason": d["na"]})
        else:
            checks.append({"property": pid, "quick_cmd": "python3 checker/check.py %s --tier quick" % pid,
                           "thorough_cmd": "python3 checker/check.py %s --tier thorough" % pid,
                           "technique": "static analysis: " + d["technique"], "level": "other", "level_note": d["note"]})
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as fp:
        fp.write("\n".join(lines) + "\n")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as fp:
        json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q checker", "checks": checks, "not_applicable": na,
                   "notes": "Pure static analysis with the Python standard library; nothing of /repo is imported or run. No hooks in /repo."}, fp, indent=1)
        fp.write("\n")
    missing = set(rules.RULES) - set(P)
    if missing:
        print("rules without property:", sorted(missing))


if __name__ == "__main__":
    main()
