"""The properties, in one place; tools/gen_meta.py writes properties.jsonl and MANIFEST.json from it."""
CORE = "src/configparserenhanced/ConfigParserEnhanced.py"
EC = "src/configparserenhanced/ExceptionControl.py"
DBG = "src/configparserenhanced/Debuggable.py"
TP = "src/configparserenhanced/TypedProperty.py"
HP = "src/configparserenhanced/HandlerParameters.py"
SE = "wip/setenvironment/src/setenvironment/SetEnvironment.py"
MH = "wip/setenvironment/src/setenvironment/ModuleHelper.py"
KP = "wip/keywordparser/keywordparser/KeywordParser.py"
CKP = "wip/genconfig/src/config_keyword_parser.py"
DS = "wip/determinesystem/determinesystem/DetermineSystem.py"
EKP = "wip/loadenv/loadenv/EnvKeywordParser.py"
LE = "wip/loadenv/load_env.py"
GC = "wip/genconfig/gen_config.py"
LSH = "wip/loadenv/load-env.sh"
GSH = "wip/genconfig/gen-config.sh"
FM = "wip/keywordparser/keywordparser/FormattedMsg.py"


def P(id, title, statement, over, text, why, files, mech, observe, state=(), technique="", note=""):
    return dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                 "mechanism": [dict(name=n, where=w) for n, w in mech], "observe_at": observe, "hook_needed": None},
        technique=technique, note=note)


PROPS = [
    P("C01", "Section contents are the depth-first `use` expansion",
      "Reading a section yields exactly the options met by expanding the DEFAULT section first (if the file has one) and "
      "then walking the section in file order with every `use T` expanded in place, depth first; for a key met several "
      "times the value met last wins, and a `use` option never appears as a key. Keys keep their spelling and case and "
      "come in the order in which they are first met; values are read without surrounding blanks and double quotes, "
      "'' when there is a delimiter but no value and None when there is no delimiter. Every way of reading the section "
      "([], get, options, items, has_option, has_section) agrees with this.",
      ["inputs", "programs"],
      "for all .ini files, every graph of use links, every position of use among the options and every section read",
      "The tests read a handful of fixed files; whether order, override and DEFAULT rules hold depends on the shape of the "
      "use graph and on the position of each option, of which they sample about a dozen.",
      [CORE], [("_parse_section_r", CORE), ("_handler_use", CORE), ("_launch_generic_option_handler", CORE)],
      ["configparserenhanceddata"],
      technique="exhaustive enumeration of use graphs and spellings, real parser vs reference model",
      note="Exhaustive within the stated bounds; larger graphs only through scaling families."),
    P("C02", "Every `use` graph terminates; cycles are cut and reported once each",
      "Parsing any section of any file terminates, whatever cycles its `use` links form, including self links and links "
      "through the DEFAULT section. A `use` is skipped exactly when its target is already being expanded on the current "
      "path; everything else is still read, and a section reached again on another path is expanded again. Each skipped "
      "link causes exactly one WARNING event naming both sections: nothing at exception_control_level 0 or with warnings "
      "silenced, one printed warning at levels 1 to 4, ValueError at level 5.",
      ["inputs", "configurations"],
      "for all use graphs (cyclic or not), all roots, all exception control settings",
      "Tests have two or three hand-made cycles at one or two levels; the cut depends on the path that leads to the link.",
      [CORE], [("_handler_use", CORE), ("processed_sections bookkeeping in _parse_section_r", CORE)],
      ["configparserenhanceddata", "stdout", "ValueError"],
      state=[("data_internal['processed_sections']", "sections on the current path", CORE)],
      technique="exhaustive enumeration of use graphs x roots x levels against a path-based reference model",
      note="All graphs on 3 sections (+DEFAULT) with at most 2-3 options per section, all levels."),
    P("C03", "Each option goes to exactly the right handler, once per visit, in order",
      "During a parse every visited option whose first word ('-' read as '_') names an operation for which the parser has "
      "a method handler_<op> or _handler_<op> is passed to that method exactly once per visit, in visit order, with the "
      "operation, the remaining shell-style words as parameters, the value, the raw key/value pair and the root section; "
      "it does not appear in the section data, and every other option does. handler_initialize runs once before the first "
      "option and handler_finalize once after the last (each unless disabled in the call), and never for an option. Where "
      "both handler_<op> and _handler_<op> exist the public one is called, after a SERIOUS AmbiguousHandlerError event.",
      ["programs", "inputs", "configurations"],
      "for all files, all sets of handlers a subclass may define, all sections parsed",
      "Tests check a few handlers of one or two fixed subclasses on fixed files.",
      [CORE, HP], [("_locate_handler_method", CORE), ("_parse_section_r", CORE), ("operation_handler", CORE)],
      ["handler calls of a subclass", "configparserenhanceddata"],
      technique="exhaustive enumeration of files x handler sets; recorded call sequence vs reference model",
      note="Handlers are observed through the documented subclass interface only."),
    P("C04", "Reads depend on the file only, not on what was read before",
      "Whatever sequence of reads and parses was made before (any order, any repetition, forced re-parses, failed reads, "
      "reads from inside handlers), each read answers as it would on a parser that has just loaded the same files; only an "
      "explicit set() changes an answer, and then only for that option of that section, until that section is parsed again "
      "on request. A section that has been parsed completely is not parsed again by a read, so its handlers do not run again.",
      ["histories"],
      "for all sequences of reads, parses (with default flags) and set operations over the sections of a file",
      "The data are computed lazily and cached, so a fault shows only after particular earlier operations; tests use one "
      "short sequence each.",
      [CORE], [("ConfigParserEnhancedData", CORE), ("_parse_owner_section", CORE)],
      ["configparserenhanceddata", "parse_section"],
      state=[("_sections_checked", "sections parsed so far", CORE), ("data", "options found so far", CORE)],
      technique="all operation sequences up to a depth on the real object, checked step by step against a model",
      note="Every sequence of up to 3 (quick) or 4 (thorough) operations over 5 files."),
    P("C05", "A reconfigured parser answers like a new one",
      "After assigning inifilepath (another file, a list, or the same file rewritten in between) or "
      "configparser_delimiters, every later read, parse result and generated action list is what a newly created parser "
      "with that configuration would give; nothing of the former configuration remains visible. A rejected assignment "
      "changes nothing.",
      ["histories", "configurations"],
      "for all sequences of reads, file rewrites and reassignments",
      "Caches survive reassignment only for data read before it; the tests reassign once, mostly before reading.",
      [CORE, SE], [("inifilepath setter", CORE), ("configparser_delimiters setter", CORE),
                   ("_reset_configparserdata", CORE)],
      ["configparserdata", "configparserenhanceddata", "parse_section_last_result", "SetEnvironment actions and scripts"],
      technique="all sequences of read/rewrite/reassign operations, each state compared with a fresh parser",
      note="Differential: the oracle is a new parser object plus the reference model."),
    P("C06", "A failed load or parse is never turned into a silent partial success",
      "If a file is missing or malformed, a `use` names a missing section, or a handler fails, the access raises, and "
      "every further access that needs the same data raises again for as long as the cause persists; no access returns "
      "partial or empty data instead. Once the cause is gone, the next access gives the complete contents.",
      ["fault_sequences", "histories"],
      "for all faults, at every point of a parse where one can occur, followed by all short sequences of accesses",
      "Tests stop at the first exception; what the object answers after a failure is not looked at.",
      [CORE, SE], [("configparserdata", CORE), ("parse_section", CORE), ("_parse_owner_section", CORE)],
      ["configparserdata", "configparserenhanceddata", "parse_section"],
      technique="fault injection at every handler call and every kind of load fault x all access sequences to a depth",
      note="Faults: missing file, not a file, no header, duplicate section/option, bad interpolation, missing use target, "
           "handler exception or failing return code at the k-th call for every k."),
    P("C07", "Unrolled output is a faithful plain .ini of the parsed data",
      "unroll_to_str gives text that an ordinary parser with the same delimiters reads back as the same sections in the "
      "same order with the same keys and values as configparserenhanceddata ('' and None are the same), for one section "
      "or the whole file, with or without blanks around delimiters, and write() writes exactly that text. With the base "
      "class parser only `use` is expanded; with the own class handled options are left out. It changes neither the "
      "parser's settings nor its data, also when it fails: an unknown section raises KeyError, a non-string TypeError.",
      ["inputs", "configurations"],
      "for all files, delimiter settings and argument combinations",
      "Tests compare the output for a few files with expected text; none reads it back.",
      [CORE], [("unroll_to_str", CORE), ("write", CORE)],
      ["unroll_to_str", "write"],
      technique="exhaustive enumeration of files and arguments; round trip through configparser vs reference model",
      note="Values that start or end with blanks inside double quotes are outside the domain."),
    P("C08", "Exception control: raise, warn or stay silent exactly by level and severity",
      "An event of a given severity raises its exception exactly when the level reaches 5 for WARNING and SILENT, 4 for "
      "MINOR, 3 for SERIOUS, 2 for CRITICAL, and always for CATASTROPHIC, with the given message; below that it raises "
      "nothing and prints one warning naming severity and exception, or nothing at level 0, for SILENT events and when "
      "silenced. The level is clamped to 0..5 (default 4); flags accept only bool; unknown severities and things that "
      "cannot be raised are rejected at every level; earlier events and settings of other objects have no influence.",
      ["configurations", "histories"],
      "for all levels, flags, severities, exception types and messages, in all sequences",
      "Tests check selected cells of the level x severity matrix.",
      [EC], [("exception_control_event", EC), ("exception_control_level", EC)],
      ["exception_control_event", "stdout"],
      technique="complete enumeration of the setting x event matrix and of short event sequences",
      note="The matrix is enumerated completely; sequences up to length 2-3."),
    P("C09", "Typed properties never hold a value that violates their declaration",
      "Assigning a typed property stores the value converted and transformed as declared if its type is allowed and the "
      "validator accepts it; otherwise it raises TypeError or ValueError and the property keeps its former value and "
      "assigned state. Reading before assignment gives a fresh copy of the default (or of the factory's result), or "
      "UnboundLocalError when assignment is required; deleting returns to that initial state. Instances and properties "
      "do not influence each other.",
      ["histories", "configurations"],
      "for all declarations and all sequences of set, get, delete and in-place modification on two instances",
      "Tests make single assignments for each feature, not sequences or combinations.",
      [TP, HP], [("typed_property", TP)], ["attribute access"],
      technique="all operation sequences to a depth x all declarations from a small grammar, against a model",
      note="Depth 3 (quick) / 4 (thorough)."),
    P("C10", "Diagnostics never change results",
      "debug_level, warning flags and (below the level at which an event raises) exception_control_level have no effect on "
      "parsed data, handler calls, return values or exceptions of the parser; they only change what is printed. At "
      "debug_level 0 with nothing to report, nothing is printed.",
      ["configurations", "inputs"],
      "for all debug levels, warning flags and exception control levels, for all files",
      "Tests run most files at one debug level only.",
      [CORE, DBG, EC], [("debug_message", DBG), ("_loginfo_add", CORE)], ["configparserenhanceddata", "handler calls"],
      technique="exhaustive product of diagnostic settings x files, results compared with the reference model",
      note=""),
    P("C11", "Handler context: shared data per parse, own fields per call",
      "Within one parse all handlers, across all used sections, see one shared data dictionary, which parse_section "
      "returns and keeps as its last result; a new parse starts with an empty one. Changes a handler makes to its "
      "operation, parameters, value and option fields affect no other handler call. Handlers wrapped as operation handlers are bracketed by one "
      "enter_handler before and one exit_handler after, with the same parameters, properly nested.",
      ["programs", "histories"],
      "for all files, all sequences of parses, and handlers that modify what they are given",
      "Tests only look at the shared data of one parse.",
      [CORE, HP], [("_new_handler_parameters", CORE), ("operation_handler", CORE), ("parse_section", CORE)],
      ["handler_parameters", "parse_section", "parse_section_last_result"],
      technique="exhaustive enumeration of files x mutating handlers x parse sequences, recorded contexts vs model",
      note=""),
    P("C12", "All-handled validation agrees with dispatch",
      "assert_section_all_options_handled succeeds exactly when no option in the section's expansion is left unhandled, "
      "and otherwise reports every unhandled key; assert_file_all_sections_handled succeeds exactly when all sections do. "
      "The failure is a SERIOUS ValueError event (a nonzero result at lower levels or with do_raise=False for a section). "
      "get_known_operations names exactly the operations that are dispatched to a handler.",
      ["programs", "inputs", "configurations"],
      "for all files, handler sets and exception control levels",
      "Tests check one good and one bad file.",
      [CORE], [("assert_section_all_options_handled", CORE), ("get_known_operations", CORE)],
      ["return value", "ValueError"],
      technique="exhaustive enumeration of files x handler sets x levels against the dispatch model", note=""),
    P("C13", "Parsers do not influence each other",
      "Any number of parsers in a process (same or different classes, same or different files), used in any interleaving "
      "including one parser being used from inside another one's handlers, each give the answers they would give alone; "
      "this includes their settings. A new parser for a file that was rewritten sees the new contents.",
      ["histories", "schedules"],
      "for all interleavings of operations on two parsers",
      "Each test uses one parser at a time.",
      [CORE, TP, HP], [("instance attributes, deep-copied defaults", TP)], ["configparserenhanceddata", "settings"],
      technique="all interleavings of operation sequences of two parsers, each compared with its solo run", note=""),
    P("C14", "Handler return codes are enforced",
      "A handler (wrapped as an operation handler) that returns 0 is silent; a nonzero value up to 10 causes exactly one WARNING RuntimeError event, a value "
      "above 10 always raises RuntimeError, and a non-integer raises TypeError; this holds for operation, initialize and "
      "finalize handlers at every depth of use and at every position.",
      ["programs", "configurations"],
      "for all return values, handler kinds, positions and exception control levels",
      "Tests call the checking function directly with a few values.",
      [CORE], [("_check_handler_rval", CORE), ("operation_handler", CORE)], ["RuntimeError", "TypeError", "stdout"],
      technique="exhaustive enumeration of return code x position x level", note=""),
    P("C15", "A list of files is loaded as one, in order",
      "With a list of files the contents are their merge in list order: a later file adds sections and options and "
      "replaces values of equal keys, and `use` links work across files; str, Path and one-element lists are equivalent. "
      "A missing file anywhere in the list, or an empty list, is an error and nothing is loaded.",
      ["inputs", "configurations"],
      "for all lists of up to 3 files and all distributions of sections and options over them",
      "Tests load one pair of files.",
      [CORE], [("configparserdata", CORE), ("inifilepath", CORE)], ["configparserenhanceddata", "configparserdata"],
      technique="exhaustive enumeration of file lists and distributions against a merge model", note=""),
    P("C16", "Debug messages appear exactly when the debug level asks for them",
      "debug_message(n, text) prints exactly when n <= debug_level: the bare text for n = 0, the text with the prefix "
      "[D-n] (unless disabled) for n > 0, followed by the requested line end, and prints nothing otherwise. debug_level "
      "defaults to 0, is converted to int, and negative values become 0.",
      ["configurations"],
      "for all levels, messages, prefixes and line ends in all orders of assignment",
      "Tests check a few level pairs.",
      [DBG], [("debug_message", DBG)], ["stdout"],
      technique="complete enumeration of level x message level x options matrix and assignment sequences", note=""),
    P("C20", "apply() changes the environment exactly as the section's actions say",
      "SetEnvironment.apply(section) performs the section's envvar operations in expansion order, each with its "
      "documented effect (set, set-if-empty, unset, append, prepend, remove-substr, remove-path-entry, find-in-path, "
      "assert-not-empty) on the value present at that point, with $VAR and ${VAR} references replaced by current values "
      "at that point; the resulting environment differs from the initial one in nothing else. Values are taken literally "
      "otherwise, whatever characters they contain.",
      ["programs", "inputs"],
      "for all action sequences over a few variables and all initial environments",
      "Tests apply a few fixed sections to a fixed environment.",
      [SE], [("envvar_op", SE), ("apply", SE), ("_gen_actioncmd_envvar", SE)], ["os.environ"],
      technique="all action sequences up to a length x initial environments, os.environ vs reference fold", note=""),
    P("C21", "Generated scripts have the effect of apply()",
      "Running the python or bash script generated for a section, in any initial environment, leaves the same values in "
      "the variables that the section's actions name as apply() does in that environment, and fails when apply() fails on a variable assertion; "
      "write_actions_to_file writes exactly the generated script.",
      ["programs", "inputs"],
      "for all action sequences and initial environments within the value alphabet on which the two languages agree",
      "Tests compare script text with stored files and never run most of them.",
      [SE], [("generate_actions_script", SE), ("_gen_script_header_bash", SE), ("_gen_script_header_python", SE)],
      ["environment after the script"],
      technique="translation of every action sequence up to a length, run in both interpreters and compared with apply()",
      note="Known deviations of the bash functions are listed as findings and modelled exactly."),
    P("C22", "Action lists are exactly what the section asks for",
      "The actions of a section are its envvar and module operations in expansion order with name and value as written; "
      "envvar-remove deletes the earlier actions on that variable, module-remove the earlier module actions that name that "
      "module or mention it in their value, and neither affects later ones. Parsing again or reading other sections never "
      "duplicates, loses or mixes actions, and pretty_print_actions lists them one per line in order.",
      ["programs", "histories"],
      "for all sequences of operations and all histories of parses",
      "Tests check one or two lists per operation.",
      [SE], [("_helper_handler_common_envvar", SE), ("_handler_module_remove", SE), ("handler_finalize", SE)],
      ["actions", "pretty_print_actions"],
      technique="all operation sequences up to a length and parse histories, real action list vs reference model", note=""),
    P("C23", "A module operation succeeds only if the module command did",
      "module() runs the module command with exactly the given operation and arguments and returns 0 only if it exited "
      "with 0, reported no error and did not signal failure in its output; its output is executed only if it exited with 0 "
      "and reported no error, and output that cannot be executed raises. apply() turns such a failure into a nonzero result or RuntimeError by level, and "
      "executes the actions that follow only as the level allows; with LMOD, load, unload and swap succeed only if the "
      "module state afterwards is as requested (a swap may replace a module by another version of it).",
      ["fault_sequences"],
      "for all module operations and all behaviours of the module command",
      "Tests mock one or two behaviours.",
      [MH, SE], [("module", MH), ("_apply_module", SE)], ["return value", "os.environ", "arguments of modulecmd"],
      technique="enumeration of all environment answers of a scripted module command x operations x positions", note=""),
    P("C24", "Keyword values: exactly the uncommented words, validated",
      "The values of a key are the words on its lines without comments and blanks, in order; duplicates, values with "
      "whitespace or the '_' delimiter and values equal to a key of the section are rejected with an error exit. Looking "
      "up a value gives the key that lists it, and an error exit if no key does.",
      ["inputs"],
      "for all value lists, comment placements and sections",
      "Tests cover a few lists.",
      [KP], [("get_values_for_section_key", KP), ("get_key_for_section_value", KP)], ["return value", "SystemExit"],
      technique="exhaustive enumeration of value blocks from a line grammar against a reference parser", note=""),
    P("C25", "Selected options follow the build name, flag by flag",
      "For every supported flag the selected option is the flag's option that the build name contains as a whole "
      "'_'-separated word, the first listed option if none is contained; several are an error for SELECT_ONE and the "
      "sorted list for SELECT_MANY, and an option that appears under two flags, or a flag without a type, is an error. "
      "Assigning another build name gives the result a new parser would give, and the options string is a fixed point: "
      "as a build name it selects the same options.",
      ["inputs", "histories"],
      "for all flag files and build names over a small vocabulary, and all sequences of build names",
      "Tests use one flag file and a few build names.",
      [CKP, KP], [("parse_selected_options", CKP), ("build_name", CKP)], ["selected_options", "selected_options_str"],
      technique="exhaustive enumeration of flag files x build names x build-name sequences against a model", note=""),
    P("C26", "The system is determined by host and build name, and conflicts are errors",
      "The system is the one named as a '_'-separated word in the build name (any case), if that agrees with the system "
      "whose patterns match the host name or if force is set; it is the first system matching the host name if the build "
      "name names none. Naming several systems, none at all when the host is unknown, or one that contradicts the host "
      "without force is an error exit, and asking again never turns an error into a name.",
      ["inputs", "histories"],
      "for all supported-systems files, host names, build names, force and repeated queries",
      "Tests check a few cells of the decision table, each with one query.",
      [DS], [("determine_system", DS), ("get_sys_name_from_hostname", DS), ("get_sys_name_from_build_name", DS)],
      ["system_name", "SystemExit"],
      technique="complete enumeration of the decision table over small files, with repeated queries", note=""),
    P("C27", "The longest matching environment name wins, names before aliases",
      "The environment is the longest environment name of the system that the build name contains between '_' or ends, "
      "taken literally; failing that, the environment that lists the longest alias so contained; failing that, an error "
      "exit. The qualified name is the system, '_' and the environment; duplicate aliases, and aliases that equal an "
      "environment name or contain blanks or '_', are errors.",
      ["inputs"],
      "for all environment files and build names over a small vocabulary",
      "loadenv's tests do not run in this build; they cover a few names.",
      [EKP, KP], [("qualified_env_name", EKP), ("get_aliases", EKP)], ["qualified_env_name", "SystemExit"],
      technique="exhaustive enumeration of environment files x build names against a reference matcher", note=""),
    P("C28", "Loading an environment is coherent with the current build name",
      "For every sequence of build names assigned and queries made, system name, parsed environment name and stripped "
      "build name (the build name without system, environment and alias words) are those a new tool started with that "
      "build name would give, or the same error exit. The environment "
      "applied and the script written are those of the parsed environment, the script also exports that name, a "
      "specification file with an unknown operation or a cycle of `use` is refused, every time, before anything is applied or written, and a "
      "failing action is an error.",
      ["histories", "inputs"],
      "for all sequences of build names and queries, all small configuration files",
      "loadenv's tests do not run in this build and use one build name per object.",
      [LE, EKP, DS, SE], [("build_name setter", LE), ("apply_env", LE), ("write_load_matching_env", LE)],
      ["system_name", "parsed_env_name", "env_stripped_build_name", "os.environ", "files written"],
      technique="all operation sequences to a depth, each state compared with a fresh object and a reference model", note=""),
    P("C29", "Configuration generation matches the build name and never overwrites unasked",
      "The complete configuration name is the parsed environment name followed by the selected options; validation of the "
      "specification file succeeds exactly when every section not in capitals is in that canonical form, and a successful "
      "validation leaves the results for the user's build name unchanged. An existing fragment file is replaced only after --yes or an answer "
      "starting with y, is left untouched on an answer starting with n (exit 1), and any other answer is asked again.",
      ["inputs", "histories"],
      "for all build names, specification sections, existing files and answer sequences",
      "genconfig's tests for this tool do not run in this build.",
      [GC, CKP], [("validate_config_specs_ini", GC), ("write_cmake_fragment", GC), ("complete_config", GC)],
      ["complete_config", "files written", "SystemExit"],
      technique="exhaustive enumeration of specification files, build names and answer sequences against a model",
      note="Collaborators that are not part of this repository are replaced by stubs that record their calls."),
    P("C30", "Listings show exactly what is there",
      "list_envs, and the error for a build name without environment, list exactly the environments of the determined system, each once "
      "and with exactly its aliases; list_config_flags lists the flags in file order with their type and options in order, the "
      "first one marked as default; list_configs lists, in file order, exactly the sections of the specification file whose names "
      "begin with the determined system's name and '_'. A listing ends the program, applies and writes nothing, and does not "
      "change later answers. pretty_print_envvars prints each environment variable once, with its value if there is no filter "
      "or its name contains one of the filter strings; with filtered_keys_only and a filter it prints only those.",
      ["inputs", "histories"],
      "for all specification files, systems, preceding queries, environments and filters",
      "Most of the tests of these listings do not run in this build, and those look for some expected lines in one file each.",
      [LE, EKP, GC, CKP, SE, FM], [("get_msg_showing_supported_environments", EKP), ("get_msg_showing_supported_flags", CKP), ("list_configs", GC), ("pretty_print_envvars", SE)],
      ["stdout", "SystemExit"],
      technique="exhaustive enumeration of keyword files, query orders and filters against a model of the lists",
      note="Items are recognised by their list marks, not by exact layout."),
    P("C31", "The tools use the files named on the command line, else those of their .ini",
      "LoadEnv and GenConfig use, for each of their configuration files separately, the one named on the command line, else the one "
      "their .ini file names, where a relative path is relative to the directory of the .ini file (to the working directory on the "
      "command line); later changes of the working directory have no effect. A missing section or key, or an empty path, in the .ini "
      "file is a ValueError, every time, and nothing is applied; arguments that are not a list are a TypeError. The arguments that GenConfig hands to "
      "LoadEnv (also through --save-load-env-args) name the same files, build name, force and CI mode.",
      ["inputs", "configurations"],
      "for all combinations of ways of naming the files, working directories and faults",
      "The tools' tests do not run in this build; they give all files in one way at a time.",
      [LE, GC], [("parse_top_level_config_file", LE), ("args", LE), ("validate_gen_config_config_data", GC), ("args", GC), ("load_env_args", GC)],
      ["args", "system_name", "parsed_env_name", "complete_config", "ValueError"],
      technique="exhaustive enumeration of the ways of naming each file, with decoy files at every other place",
      note="Decoy files with other contents lie at every place that a wrong rule would look at."),
    P("C32", "load-env.sh gives the shell the environment of the build name, or nothing",
      "Sourcing load-env.sh with --ci-mode leaves in the current shell exactly the exported environment that the actions of the build "
      "name's environment make of the one before, plus LOADED_ENV_NAME, and returns 0; without --ci-mode a subshell gets it, the current shell "
      "keeps its environment, and loading another environment in that subshell is refused. When the environment cannot be determined or an "
      "action fails, when nothing is to be loaded (--list-envs, --help, no arguments) or Python is missing or too old, the environment of the shell is unchanged, and every failure "
      "returns nonzero. The shell itself goes on with its working directory, options and signal handlers, no temporary files are left, and no files of the caller are removed.",
      ["inputs", "histories", "fault_sequences"],
      "for all build names, hosts, argument orders, states of the caller's shell, faults and sequences of calls in one shell",
      "There are no tests of the shell script.",
      [LSH, LE], [("cleanup", LSH), ("sourcing of the generated script", LSH), ("write_load_matching_env", LE)],
      ["environment of the shell", "return status", "files"],
      technique="exhaustive enumeration of situations, faults and call sequences of the real script in bash against the environment model",
      note="python3 on PATH is a stand-in that runs the tree's code with a given host name."),
    P("C33", "gen-config.sh runs cmake with the generated options in the environment, or fails",
      "Sourcing gen-config.sh with a build name and a source directory loads the environment as load-env.sh does and in it runs cmake "
      "exactly once, with exactly the generated options (as quoted) and the source directory as arguments; with --cmake-fragment it writes the fragment and "
      "loads the environment without running cmake. When the configuration or the environment fails, no source directory (or fragment) is given, or the fragment is not to be overwritten, it returns nonzero, does not run "
      "cmake and leaves the environment of the shell unchanged.",
      ["inputs", "histories", "fault_sequences"],
      "for all build names, hosts, options, modes, faults and sequences of calls in one shell",
      "There are no tests of the shell script.",
      [GSH, LSH, GC], [("gen_config_helper", GSH), ("cleanup_gc", GSH), ("main", GC)],
      ["arguments and environment of cmake", "environment of the shell", "return status"],
      technique="exhaustive enumeration of situations, options, faults and call sequences of the real script in bash against a model",
      note="python3, cmake and sleep on PATH are stand-ins; what cmake itself returns is not claimed."),
    P("C34", "Shells that load or configure at the same time do not disturb each other",
      "When two shells of one user source load-env.sh or gen-config.sh at the same time in the same directory, with different build names, each ends as it would alone, whatever the order of their steps: "
      "the same return status, environment, arguments and environment of cmake, and fragment. Neither leaves files in the working directory.",
      ["schedules"],
      "for all interleavings of the steps of two shells within the preemption bound",
      "There are no tests of the shell scripts, and a test cannot control the order in which two shells run.",
      [GSH, LSH, GC, LE], [("gen-config.sh", GSH), ("load-env.sh", LSH), ("main", GC), ("main", LE)],
      ["arguments and environment of cmake", "environment of the shells", "return status", "files"],
      technique="stateless model checking of the real scripts under a controlled scheduler, all schedules up to a preemption bound",
      note="A shell can be switched at every external command it starts and where its Python programs open a file for writing."),
    P("C35", "An interrupted or failing step leaves the shell usable, all or nothing",
      "When SIGINT, SIGTERM or SIGHUP reaches the shell (alone or with its programs) while load-env.sh or gen-config.sh waits for a program, or when one of their Python programs fails or is killed at any "
      "point, the shell goes on, and its environment is as before if the environment was not loaded yet (then sourcing returns nonzero and cmake is not run), else the complete loaded one. "
      "No files are left in the working directory, and the same call made again in the same shell gives what it gives in a fresh one.",
      ["crash_points", "fault_sequences"],
      "for all programs the scripts start, all points where they write files, and all these signals and failures",
      "There are no tests of the shell scripts, and a test cannot interrupt them at a chosen step.",
      [GSH, LSH, GC, LE], [("cleanup", LSH), ("cleanup_gc", GSH), ("trap", LSH), ("trap", GSH)],
      ["environment of the shell", "return status", "cmake", "files"],
      technique="stateless model checking of the real scripts with a fault injector: every interruption point and failure, then recovery",
      note="The steps are the external commands the scripts start and the files their Python programs open for writing."),
]
