# further properties (read by props.py)
prop("C20", "Unrolled text parses back to the same data",
     "Parsing the text written by unrolling, with the same settings, gives for every section the same options and values as the original parse.",
     ["inputs"], "all .ini contents", "Tests compare a few texts.", [CPE],
     [{"name": "unroll_to_str", "where": CPE}],
     na="Depends on the string-level behaviour of the standard library's .ini reader on arbitrary values (line breaks, delimiters inside keys, values equal to None); no static argument in reach bounds that. C14 decides the structural part.")
prop("S20", "The generated bash script has the same effect as applying directly",
     "Sourcing the generated bash script changes the environment exactly as applying the same actions in the running process does.",
     ["inputs"], "all action lists and initial environments", "Tests compare a few scripts textually.", [SE],
     [{"name": "generate_actions_script", "where": SE}],
     na="Full equivalence of bash and Python run-time semantics (every text, bash's expansion rules, what module commands do) is not decidable from the source by a static rule. The structural part (same actions, same order, quoted) is decided by S04, the effect on variables for a table of values by S09.")
FLOW = "whole-program cache-coherence dataflow plus " + AI
prop("C09", "Changing an input drops everything computed from the old one",
     "After the list of .ini files, the delimiters or (in LoadEnv and ConfigKeywordParser) the build name has been assigned a new value, no later question is answered from data computed from the old value: "
     "the raw .ini data, the parsed sections, the loop-detection log, the last results, the recorded environment actions, the determined system and environment name, the stripped build name and the selected options are all recomputed from the new value.",
     ["histories", "inputs"], "all orders of assigning inputs and asking for results",
     "Staleness needs a particular sequence of assigning and asking; the tests assign once and ask.",
     [CPE, SE, LE, CKP], [{"name": "inifilepath / configparser_delimiters setters, _reset_configparserdata", "where": CPE}, {"name": "actions cache", "where": SE}, {"name": "build_name setters", "where": LE + ", " + CKP}], FLOW, NOTE)
prop("C10", "A computation that fails leaves no half-made result behind",
     "When reading the .ini files, parsing a section, determining the system or validating the environment to load fails with an exception, nothing of the failed attempt is remembered: "
     "asking again repeats the work and fails again instead of answering with partial data, and a section whose parse failed is not listed as parsed.",
     ["fault_sequences", "histories"], "all failures during a lazily computed result and all later questions",
     "The tests stop at the first exception; the second question after a failure is never asked.",
     [CPE, DS, LE], [{"name": "configparserdata, ConfigParserEnhancedData.__getitem__", "where": CPE}, {"name": "system_name", "where": DS}, {"name": "set_environment", "where": LE}], AI, NOTE)
prop("C15", "The debug level changes what is printed and nothing else",
     "A debug message is printed, once and with its text, exactly when the debug level is at least the message's level. The debug level is a non-negative integer that starts at 0. "
     "Apart from console output and the loop-detection/log records no result, stored data, raised exception, file or environment variable depends on the debug level.",
     ["configurations", "inputs"], "all debug levels and all operations",
     "Tests fix one debug level; interference would need the same run at every level.",
     [DBG, CPE, SE], [{"name": "debug_message, debug_level", "where": DBG}], "effect analysis of code guarded by the debug level plus relational abstract interpretation at two levels", NOTE)
prop("C16", "Parser objects and parses do not share state",
     "Two parser objects never influence each other: no handler, property, cache or default argument is shared and modified between instances, and every parse of a section starts from its own empty shared-data dictionary. "
     "What one object parsed, recorded or was told can not show up in another.",
     ["histories", "inputs"], "all numbers of objects and all interleavings of their use",
     "Tests build one object at a time; leakage shows only across objects.",
     [CPE, TYP, HPR, EXC, DBG, SE, KP], [{"name": "class attributes, defaults, typed properties", "where": "all classes of the repository"}], "whole-program ownership/escape lint plus " + AI, NOTE)
prop("S01", "Every environment operation is recorded, generated and shown faithfully",
     "Every envvar-* and module-* operation of a section appends exactly one action (operation, name, value) to the end of the section's list, unchanged; names and values are not altered, merged or dropped. "
     "Each recorded operation has a Python and a bash command that carry the operation, then the name, then the value (for `module-load` name/version, only the name when there is no version; for `module-use` the path; none for purge), "
     "both helper libraries know it and the printed action list shows all actions in order, each with its own name and value, the name before a value assigned to it; an unknown operation is reported as an event. A section without operations has an empty list.",
     ["inputs", "programs"], "all operations, names and values",
     "The tests sample some operations with tame values.",
     [SE], [{"name": "_handler_envvar_*, _handler_module_*", "where": SE}, {"name": "_gen_actioncmd_*", "where": SE}], AI, NOTE)
prop("S03", "Applying carries out every action in order and reports every failure",
     "`apply` carries out all recorded actions of the section, each exactly once and in recorded order, also when an earlier one failed or is the same. It returns 0 exactly when every action returned 0: "
     "any action with a non-zero status, positive or negative, makes the result non-zero and is reported by one CRITICAL RuntimeError event, and an exception in an action reaches the caller. "
     "A section that does not exist is never applied successfully.",
     ["inputs", "fault_sequences"], "all action lists and all patterns of failing actions",
     "Tests run a few successful lists and one failure.",
     [SE], [{"name": "apply, _apply_envvar, _apply_module", "where": SE}], AI, NOTE)
prop("S04", "Generated scripts hold exactly the recorded actions, safely quoted",
     "A generated script contains one command per recorded action, in order, and, exactly when asked for, the helper functions before them and one interpreter line as the first line. "
     "Names and values from the .ini file appear as quoted literals: in Python as string literals, in bash inside double quotes with backslash and double quote escaped (plain text of module commands may stand without quotes), so no text can end the literal. "
     "The Python commands are the same ones `apply` executes. An interpreter other than bash and python is a SERIOUS ValueError event, gives an empty script and writes no file; writing stores exactly the generated text, replacing the file.",
     ["inputs", "configurations"], "all action lists, names, values and switch settings",
     "Tests compare a few scripts with tame values textually.",
     [SE], [{"name": "generate_actions_script, write_actions_to_file", "where": SE}, {"name": "_gen_actioncmd_*", "where": SE}], AI + " with taint/quoting rules on generated text", NOTE)
prop("S05", "Removing drops exactly the matching recorded actions",
     "`envvar-remove X` drops every earlier recorded action on exactly the variable X, and `module-remove M` every earlier module action whose name is exactly M or whose value contains M, wherever they stand in the list; "
     "all other actions, of either kind, stay unchanged and in order. When the section is finished the remaining actions are kept under the section's own name and those of other sections are untouched.",
     ["inputs", "histories"], "all action lists and positions of matches",
     "Tests remove one entry from one list.",
     [SE], [{"name": "_handler_envvar_remove, _handler_module_remove, handler_finalize", "where": SE}], AI, NOTE)
FM = "wip/keywordparser/keywordparser/FormattedMsg.py"
TAB = "constant-propagation abstract interpretation over the AST, compared with an independent decision table"
TNOTE = ("The source is abstractly interpreted with the tool's collaborators (file contents, host name, answers, other tools) replaced by abstract values; string operations on constants are folded. Each obligation is one row "
         "of a finite decision table that covers every branch combination and the boundary shapes of the strings; strings outside the table are covered only as far as the code treats them alike. A row the analysis cannot follow is "
         "reported as undecided, never as held or violated.")
prop("C17", "Arguments of the wrong kind are refused before anything is done",
     "An argument of the wrong kind given to a public operation (section names, switches, file names, the interpreter, the variable filter, the file to write to) or assigned to a property (the .ini file list, the delimiters, the actions) is a TypeError at every exception "
     "control level, not an event that a low level lets pass: no file is opened, nothing is applied and a refused assignment leaves the property as it was. A handler that returns something other than an integer is a TypeError as well, never a success.",
     ["inputs", "configurations"], "all public operations, wrong kinds and exception control levels",
     "The tests try one wrong kind for some parameters at one level.",
     [CPE, SE], [{"name": "_validate_parameter and its callers", "where": CPE}, {"name": "public operations", "where": SE}], TAB, TNOTE)
prop("S02", "Only the operations meant to change the outside world can do so",
     "Reading, parsing, validating, listing, matching, printing and generating never change the process environment, run commands or generated code, write or remove files, or change the working directory, whatever the .ini files contain. "
     "Only `apply`/`apply_env` change the environment and run commands, only `write_actions_to_file`, `write_load_matching_env` and `write_cmake_fragment` write files (besides the two command line programs), and importing a module does none of it.",
     ["inputs", "programs"], "all public operations, all inputs and all call paths",
     "A test sees the effects of one run; absence of an effect on every path needs the call graph.",
     [CPE, SE, KP, CKP, EKP, DS, LE, GC, FM], [{"name": "every public operation", "where": "all classes of the repository"}],
     "interprocedural effect analysis over the call graph (member, property, constructor and handler dispatch resolved per class)",
     "Every call path from each listed public operation is followed; calls through values the analysis cannot resolve (a function stored in a variable) are not followed.")
prop("S06", "A module command is a success only when it really succeeded",
     "`module` returns 0 only if the module tool exited with 0, its error output contains no error marker and (modulecmd) the commands it printed ran without failure or (Lmod) the state asked for was confirmed; any other outcome is a non-zero "
     "status or an exception. The output of a failed modulecmd is never executed. The command line is the tool, `python`, the command and its arguments, in order and unchanged. What a failing module tool printed is shown to the user. modulecmd is searched on the PATH and, failing that, in the shell's `module` function; a module tool that cannot be found is a FileNotFoundError and nothing is run.",
     ["inputs", "fault_sequences"], "all exit statuses, error outputs, commands and argument lists of the module tool",
     "The tests mock a few outcomes of the module tool.",
     [MH], [{"name": "module", "where": MH}], TAB, TNOTE)
prop("S07", "The environment listing shows values only where asked",
     "`pretty_print_envvars` shows every variable with its value when there is no filter. With a filter it shows a value exactly for the variables whose name contains one of the filter's entries (compared literally, case matters, never the value); the "
     "other variables are listed by name only or, when only matching ones are asked for, not at all. Each variable is shown at most once, in the environment's order, and the result is 0.",
     ["inputs", "configurations"], "all environments, filters and switch settings",
     "The tests print one environment with two filters and check that nothing fails.",
     [SE], [{"name": "pretty_print_envvars", "where": SE}], TAB, TNOTE)
prop("S08", "Every environment operation has its documented effect and no other",
     "`apply` and the generated Python scripts carry out: set (the value), set_if_empty (only when the variable is missing or empty), append/prepend (joined to the old value with `:`), unset, remove_substr (every occurrence, taken literally), remove_path_entry (every entry of "
     "the `:` list that equals the value exactly), find_in_path (the path of the program, or empty) and assert_not_empty (a ValueError with the given message when the variable is missing or empty). `$VAR` and `${VAR}` in the value are replaced from the environment, unknown "
     "ones stay. The removals leave a missing variable missing. An unknown operation and a refused empty value are ValueErrors. No other variable changes, a failing operation changes nothing, and success is 0.",
     ["inputs", "configurations"], "all operations, values and old values of the variable",
     "The tests apply a few operations to a few values.",
     [SE], [{"name": "envvar_op and its helpers", "where": SE}], TAB, TNOTE)
prop("S09", "The generated bash script sets the variables as applying does",
     "Sourcing the generated bash script leaves every environment variable with the value that applying the recorded actions in the running process gives it, exported, actions taking effect one after the other so that a value may refer to what earlier ones have set; other variables stay. "
     "A failed assert_not_empty shows its message and ends the script before later actions. Values may hold any text (quotes, back-slashes, spaces) except command substitution and references to unset variables.",
     ["inputs", "configurations"], "all operations, values, old values and orders of actions",
     "The tests compare the text of scripts and source a few.",
     [SE], [{"name": "generate_actions_script, _gen_script_header_bash, _gen_actioncmd_envvar", "where": SE}],
     "abstract interpretation of the generator folded to the text of the script, then of that text by a path-partitioned bash interpreter, compared with an independent decision table", TNOTE)
prop("K01", "Keyword values are read exactly and bad ones are refused",
     "The values of a key are its lines, in order, without comments (from `#`), surrounding white space and blank lines. A value listed twice, a value with white space or an underscore inside (other than SELECT_ONE/SELECT_MANY), and a value equal to a key of its "
     "section end the program. Looking up a value gives the key whose values contain exactly it and ends the program when there is none; the values come from the object's own file.",
     ["inputs"], "all values of keyword files",
     "The tests use a few files with one fault each.",
     [KP], [{"name": "get_values_for_section_key, get_key_for_section_value, assert_*", "where": KP}], TAB, TNOTE)
prop("K02", "Configuration options are selected exactly as the build name says",
     "For every flag the selected options are those that stand, literally, between underscores (or the ends) in the build name: none selects the first listed option, one selects it, several are a ValueError for SELECT_ONE and all of them, sorted, for SELECT_MANY. "
     "The option string lists the selections in the order of the flags. A flag without selection type is a ValueError and an option listed for several flags ends the program. A new build name is answered from the new name, and a failed selection fails again. "
     "An option is a default exactly when it is the first of its flag.",
     ["inputs", "histories"], "all flag files, build names and orders of asking",
     "The tests use a few build names.",
     [CKP, KP], [{"name": "selected_options, selected_options_str, is_default_option", "where": CKP}], TAB, TNOTE)
prop("K03", "Messages show every line, item and choice",
     "A framed message shows its kind and then every line of its text and of the extra text, once and in order, between two frame lines. A list message shows every item. The list of supported environments shows every environment of the system, each with all "
     "its aliases and none of another system; the list of supported flags shows every flag in file order with its selection type and all its options, marking exactly the first as the default.",
     ["inputs"], "all messages, item lists and configuration files",
     "The tests compare a few messages.",
     [FM, EKP, CKP], [{"name": "get_formatted_msg, get_msg_for_list", "where": FM}, {"name": "get_msg_showing_supported_environments", "where": EKP}, {"name": "get_msg_showing_supported_flags", "where": CKP}], TAB, TNOTE)
prop("D01", "The system is determined from build name and host consistently",
     "The system is the one whose name stands between underscores in the build name, compared in lower case, else the first system in file order one of whose patterns (without its comment) is found in the host name; the DEFAULT section is not a system. "
     "No system at all, several in the build name, or one in the build name that is not the host's system without force, end the program. `silent` only suppresses the messages, which otherwise name the system found. Asking again gives the same answer, and a failed determination fails again.",
     ["inputs", "configurations", "histories"], "all system files, host names, build names and switches",
     "The tests use a few systems and build names.",
     [DS], [{"name": "system_name, determine_system", "where": DS}], TAB, TNOTE)
prop("L01", "The environment is matched literally, longest name first",
     "The matched environment is the longest environment name that stands, as literal text in the same case, between underscores or the ends of the build name; when there is none, the environment that lists the longest such alias; when there is none either, the "
     "program ends. The result is the system name, an underscore and the environment name, the same when asked again. An alias listed for two environments, equal to an environment name, or with white space or an underscore ends the program.",
     ["inputs"], "all environment files and build names",
     "The tests use a few names, none with regular-expression characters.",
     [EKP, KP], [{"name": "qualified_env_name, get_aliases", "where": EKP}], TAB, TNOTE)
prop("L02", "An environment is applied only after complete validation, and verified",
     "`apply_env` and `write_load_matching_env` first check at the strictest exception control level that every operation of the specification file is handled; a bad file is a ValueError every time and nothing is applied or written. Applying carries out the matched "
     "environment once, and any status but 0 is a RuntimeError. The script (helpers and actions, bash) of the matched environment plus the line naming it is written, freshly, to a temporary file (the same one within a run, a new one for every run, its directory created when missing) and to the requested one. "
     "The program applies before it writes, writes nothing when applying fails, and records the script's place when asked.",
     ["fault_sequences", "configurations", "histories"], "all outcomes of validation and application, all switch settings",
     "LoadEnv's failing paths are not run by the tests.",
     [LE], [{"name": "apply_env, load_set_environment, write_load_matching_env, main", "where": LE}], TAB, TNOTE)
prop("L03", "LoadEnv uses the files and names it was told to",
     "A file given on the command line is used as given; otherwise the one named in load-env.ini, a relative name being relative to that file's directory and not to the working directory. A load-env.ini without its section, an option or a value is a ValueError and arguments "
     "that are not a list a TypeError. System, environment and specifications are determined from the chosen files, build name and force flag; after the build name is changed all of them are determined anew from the new name. Asking for the list of environments shows the supported ones and ends successfully.",
     ["configurations", "inputs", "histories"], "all combinations of command line and load-env.ini settings, all orders of asking",
     "The tests use one combination.",
     [LE], [{"name": "args, parse_top_level_config_file, build_name, system_name, parsed_env_name", "where": LE}], TAB, TNOTE)
prop("L04", "Stripping the environment from a build name removes exactly its parts",
     "The stripped build name consists of the parts of the build name between underscores, in order and with repetitions, that are not exactly the name of an environment, of an alias or of a supported system.",
     ["inputs"], "all build names and name lists",
     "The tests use a few names.",
     [LE], [{"name": "env_stripped_build_name", "where": LE}], TAB, TNOTE)
prop("G01", "An existing CMake fragment is overwritten only with consent",
     "`write_cmake_fragment` replaces an existing file only when --yes was given or the first answer that begins with y or n (in any case) begins with y; any other answer, an empty one too, is asked again. On refusal or end of input nothing is removed, created or "
     "written, and a refusal ends the program with an error status and is not remembered. When it writes, the file holds exactly the generated lines, in order, joined by line breaks, missing directories are created, and it is not written twice.",
     ["inputs", "histories"], "all answer sequences, existing or not, all switches",
     "The tests answer once.",
     [GC], [{"name": "write_cmake_fragment", "where": GC}], TAB, TNOTE)
prop("G02", "Options are generated only from validated specifications",
     "No option is generated before the whole config-specs.ini was validated: every section that is not all upper case must equal the complete configuration (environment and options, with force) determined for its own name; otherwise a ValueError names every offending section "
     "with the name it should have, every time it is asked. Validation leaves the build name and the force flag of the tools as they were, also when it fails, and only a success is remembered. Options are then generated for the complete configuration of the "
     "build name asked for, in the requested format, and joined in order.",
     ["inputs", "fault_sequences", "histories"], "all specification files, build names, switches and orders of asking",
     "GenConfig is driven by a few files; failing validation followed by further use is not.",
     [GC], [{"name": "validate_config_specs_ini, generated_config_flags_str, write_cmake_fragment, complete_config", "where": GC}], TAB, TNOTE)
prop("G03", "GenConfig uses the files and switches it was told to",
     "A file given on the command line is used as given; otherwise the one named in gen-config.ini, a relative name being relative to that file's directory. A gen-config.ini that lacks a section, an option, its value or the file it names is a ValueError, every time; arguments "
     "that are not a list are a TypeError. LoadEnv is driven with the chosen files, the force and ci-mode switches and the build name. Each way of calling the program does its one job and no other, and the listed configurations are the sections that begin with the system's name; asking for the flags shows the supported ones.",
     ["configurations", "inputs"], "all combinations of command line and gen-config.ini settings",
     "The tests use a few combinations.",
     [GC], [{"name": "args, gen_config_config_data, load_env_args, list_configs, main", "where": GC}], TAB, TNOTE)
LSH, GSH = "wip/loadenv/load-env.sh", "wip/genconfig/gen-config.sh"
SHT = "path-partitioned abstract interpretation of the bash syntax tree (own parser), exit-status, typestate and effect rules on every abstract path"
SHNOTE = ("The scripts are parsed and interpreted abstractly with their programs (load_env.py, gen_config.py, cmake, module tools) replaced by stand-ins that may succeed, fail or be interrupted; every combination of outcomes is followed for a table of "
          "argument shapes. A construct of bash the interpreter does not know makes its path undecided, never held or violated.")
prop("B01", "The sourced scripts report success exactly when every step succeeded",
     "Sourcing load-env.sh or gen-config.sh gives control back to the calling shell, with status 0 exactly when every step succeeded: a missing or too old python3, missing arguments, a failing load_env.py, gen_config.py or load-env.sh, a missing environment file or "
     "an interrupt give a non-zero status, and nothing is started after a failed step. A script that is executed instead of sourced ends with an error before it does anything, and a second environment is refused while one is loaded.",
     ["fault_sequences", "configurations"], "all patterns of failing, missing and interrupted steps and all ways of calling",
     "The scripts have no tests that run here; a failing step in the middle is not exercised at all.",
     [LSH, GSH], [{"name": "load-env.sh", "where": LSH}, {"name": "gen-config.sh", "where": GSH}], SHT, SHNOTE)
prop("B02", "The sourced scripts leave nothing of their own behind",
     "However load-env.sh or gen-config.sh ends, by success, failure or an interrupt, the calling shell has no new variable, function or trap, its working directory and options are as before, the temporary files are removed and no file that is not the scripts' own is.",
     ["fault_sequences", "crash_points"], "all ways the scripts can end, interrupts while a program runs included",
     "Leftovers show only in the shell of the user, after a particular failure or interrupt; no test looks.",
     [LSH, GSH], [{"name": "load-env.sh", "where": LSH}, {"name": "gen-config.sh", "where": GSH}], SHT, SHNOTE)
prop("B03", "load-env.sh loads exactly the environment asked for, in the right shell",
     "load-env.sh runs load_env.py once, with the user's arguments (words without white space) unchanged and in order and a location file that no other run uses. The environment is sourced once: into the current shell in CI mode only, otherwise into one new interactive shell, which alone is marked as having one loaded. "
     "When gen-config.sh asked for it, its helper runs exactly once, after the environment is loaded and in the same shell; asking for the list of environments loads nothing.",
     ["configurations", "schedules"], "all argument shapes, all outcomes, several runs at the same time",
     "The script has no tests that run here.",
     [LSH], [{"name": "load-env.sh", "where": LSH}], SHT, SHNOTE)
prop("B04", "gen-config.sh drives GenConfig, LoadEnv and CMake as asked",
     "gen-config.sh runs gen_config.py with the user's arguments (words without white space) less the source directory and once more to save LoadEnv's arguments, then starts load-env.sh once with exactly the saved arguments. CMake is run at most once, in the loaded environment, with the generated arguments and then the source directory, only if both "
     "exist; everything the new shell needs for that is exported.",
     ["configurations", "fault_sequences"], "all argument shapes and all outcomes of the steps",
     "The script has no tests that run here.",
     [GSH], [{"name": "gen-config.sh", "where": GSH}], SHT, SHNOTE)
