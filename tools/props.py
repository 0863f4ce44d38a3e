"""property id -> verified units and settings of its bounded stand-in / replay search"""
VERUS = "contract-based deductive verification: Verus on functions extracted from /repo on every run"
FC = [r"core/src/(range|text/mod|diagnostics/\w+)\.rs", r"filecheck/src/(input|cursor|context)\.rs", r"matcher/result\.rs", r"pattern/matches\.rs", r"test/result\.rs",
      r"rules/(mod|plain)\.rs", r"check/mod\.rs\S* (check_group|check_tree|check_block_section|check_group_sections|check_blocks|impl Checker::check_input|impl BlockInfo::range)$",
      r"check/program\.rs\S* .*(compile_body\)|CheckProgram#\d::compile)$", r"ast/file\.rs"]
FCNOTE = ("from the directives of a check file to the verdict -- compilation of directives into groups and sections, cursor, input, rules, groups, label regions -- proved against a semantics "
          "of the directive list over the leftmost-match relation of a pattern; the lexing and parsing of check files into directives, the pattern matchers (substring and regex crates, patterns without variables) "
          "and the construction of diagnostics are assumed and covered by the bounded search; no --implicit-check-not; texts with LF line ends of at most 2^32-1 bytes")
EX = [r"matchers/smart(/\w+)?\.rs", r"matchers/regex\.rs\S* ", r"result\.rs\S* .*bind_captures_in$", r"ast/mod\.rs", r"expr/mod\.rs"]
PT = [r"pattern/mod\.rs", r"ast/pattern\.rs", r"pattern/prefix\.rs", r"matchers/(substring|regex|always|whitespace|simple)\.rs", r"smart/builder\.rs", r"text/mod\.rs", r"core/src/variables/mod\.rs\S* .*as_str$"]
EXNOTE = ("from the parts of a directive to the text it matches: compaction of the parts, the builder and the driver of the smart matcher, the binding of captures, expression trees, the value of an expression over the definitions in force, "
          "formats of operands, conversion of captured text and the environment (definitions, labels, guards, command line) proved; "
          "assumed, and covered by the bounded search only: the lexer and the grammar (lalrpop) that build the parts, the regex and aho-corasick crates")
PROPS = {
    "P01": dict(units=["program"], technique=VERUS, budget=20, note=FCNOTE, scope=FC + [r"as cg_(ordered|repeated)\)", r"compile_rule|as compile_(ordered|count)\)"]),
    "P02": dict(units=["program"], technique=VERUS, budget=20, note=FCNOTE, scope=FC + [r"rules/(same|next|empty)\.rs", r"as cg_ordered\)", r"compile_rule|as compile_ordered\)"]),
    "P03": dict(units=["program"], technique=VERUS, budget=20, note=FCNOTE, scope=FC + [r"discover_blocks", r"CheckProgram#\d::compile_(blocks|lines)$", r"rt_can_insert"]),
    "P04": dict(units=["program"], technique=VERUS, budget=20, note=FCNOTE, scope=FC + [r"matchers/all\.rs", r"rules/dag\.rs", r"as cg_unordered\)", r"as compile_dags\)"]),
    "P05": dict(units=["program"], technique=VERUS, budget=20, note=FCNOTE, scope=FC + [r"check_not", r"as cg_(never|bounded|merge|mark)\)", r"as ct_\w+\)", r"as compile_nots\)", r"matchers/any\.rs", r"MatchAll#\d::compile"]),
    "P06": dict(units=["compile"], technique=VERUS, budget=25, scope=EX + [r"expr/num\.rs\S* .*infer_expression_format$", r"pseudo_line_for_offset|match_file_bytes|ContextGuard::env$", r"num\.rs\S* .*(Display for Number::fmt|is_representable)$", r"env\.rs\S* .*::get\w*$"],
                note=EXNOTE),
    "P07": dict(units=["compile"], technique=VERUS, budget=25, scope=EX + PT + [r"filecheck/src/env\.rs", r"core/src/variables", r"filecheck/src/context\.rs"],
                note=EXNOTE),
    "P26": dict(units=["compile"], technique=VERUS, budget=20, scope=PT + [r"matchers/smart\.rs"],
                note="the pattern compiled from the parts of a directive and what it searches for proved part by part; the lexer that cuts the text into parts, the regex, regex-syntax and aho-corasick crates assumed (bounded search from the text of the directive, against a matcher of its own)"),
    "P08": dict(units=["num"], technique=VERUS, budget=15,
                note="reading, writing, the regular expression of a format and the round trip proved for every value, format and text; std's integer parser and formatter and the meaning of a regular expression of the given source are assumed"),
    "P16": dict(units=["bool_expr"], technique=VERUS,
                note="the recursive-descent parser/evaluator proved against the grammar as a relation; tokenizer, term matching and the regex crate are assumed (bounded search on the real code)"),
    "P15": dict(units=["range"], technique=VERUS,
                note="range.rs at usize and the newline searches of text/mod.rs; memchr's searches are assumed to find the first/last occurrence"),
    "P12": dict(units=["symbol"], technique=VERUS,
                note="the interner as an injective, append-only table; the generated keyword table enters as an assumption on its content, checked by the bounded search on the built crate; the lock around the table is assumed to serialise"),
    "P10": dict(units=["source"], technique=VERUS,
                note="line table, offset/position conversions of SourceContent proved inverse of each other; str operations are assumed at the level of UTF-8 bytes"),
    "P11": dict(units=["source"], technique=VERUS,
                note="SourceContent::update proved to splice the text and to leave the line table of the new text (texts below 2^31 bytes)"),
    "P24": dict(units=["not"], technique=VERUS, bin=True, budget=12,
                note="the whole of Not::run proved for every outcome of the command; std::process::Command is assumed to run the program with the arguments it was given and to report its end"),
    "P25": dict(units=["manager"], technique=VERUS, budget=15,
                note="insert, get, find, update of the source manager and the id encoding proved for every history; BTreeMap, Arc::make_mut and the lock are assumed"),
    "P21": dict(units=["subst"], technique=VERUS, budget=20,
                note="apply, the scope iterator, DEFINE/REDEFINE and their order over a script proved against sequential rewriting; the regex crate and IndexMap are assumed"),
    "P17": dict(units=["verdict"], technique=VERUS, bin=True, budget=20,
                note="conditions, retries, expected failures, both formats, the text given to the shell, the directory and environment of the process and its outcome proved for every script, feature set and end of a process; std::process is assumed to run the command it is given and to report its end, and the shell to execute `a && b` in order; quoting of the echoed command, the substitutions (unit subst) and the directive parser (unit script) enter as functions of the test"),
    "P19": dict(units=["run"], technique=VERUS, bin=True, budget=20, scope=[r"commands/lit\.rs", r"lit/src/config/mod\.rs", r"status\.rs\S* .*is_failure$", r"result\.rs\S* .*(is_failure|::new)$"],
                note="selection, reporting, collection of the reports and the exit status proved for every list of tests and every outcome; rayon's try_for_each_with over par_bridge is read as a loop that hands every test to one worker and may go on after an error; channel and BTreeMap assumed; printing covered by the bounded search only"),
    "P20": dict(units=["local"], technique=VERUS, bin=True, budget=25, scope=[r"test/config\.rs", r"registry/default\.rs", r"features\.rs\S* .*(is_empty|extend)$", r"substitutions\.rs\S* .*impl SubstitutionSet.*extend$"],
                note="inheritance of every setting, and the configuration computed for a directory from every level of its suite (whatever is cached), proved for every configuration and depth; reading a configuration file, std::path, the collections and the path tree (unit paths) enter by their contracts; discovery (which file is a test, and that whole-suite discovery does not look for local configurations: known finding) by the bounded search only"),
    "P13": dict(units=["paths"], technique=VERUS, budget=15,
                note="lookup, insertion with splitting and merging of nodes, nearest ancestor and depth-first iteration proved for every tree and path; std::path assumed by its components, the canonical form and type of a path taken as functions of the path (bounded search only), sort taken as a permutation; children() with a depth limit not covered"),
    "P22": dict(units=["script"], technique=VERUS, budget=20,
                note="line splitting, directive scanning, continuations, line numbers, conditions and definitions of the parser proved against a reading of the text; the regex crate is assumed to match its three patterns, str methods by their documentation, feature expressions by unit bool_expr"),
}
