"""the semantic properties of litcheck (source of properties.jsonl)"""
NOT_YET = "no check registered yet"
CATALOGUE = []


def P(id, title, statement, over, forall, why, files, mech, observe=None, na=NOT_YET):
    CATALOGUE.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why,
                          files=files, mech=mech, observe=observe, na=na))


# ------------------------------------------------------------------ FileCheck
P("P01", "A check file passes exactly when its positive checks match in order",
  "For a check file of plain and COUNT directives, verification succeeds exactly when, taking directives in order, each one has a leftmost match "
  "(COUNT-n: n successive non-overlapping leftmost matches) in the part of the input after the end of the previous match. "
  "The reported match of every directive is that leftmost match, so reported matches never overlap and never run backwards.",
  ["inputs", "programs"], "every check file of plain/COUNT directives with non-empty matches and every non-empty input text",
  "integration tests hold a handful of check/input pairs; verdict and match position must agree for all pairs",
  ["filecheck/src/check/mod.rs", "filecheck/src/check/program.rs", "filecheck/src/rules/plain.rs", "filecheck/src/cursor.rs", "filecheck/src/input.rs"],
  [("plain and count rule evaluation", "filecheck/src/rules/plain.rs, filecheck/src/check/mod.rs"), ("cursor over the input", "filecheck/src/cursor.rs")],
  ["Test::verify result", "litcheck filecheck exit status"])

P("P02", "NEXT, SAME and EMPTY bind to the line of the previous match",
  "A NEXT directive is satisfied only by its leftmost match on the line directly after the line on which the previous match ended, a SAME directive only by "
  "its leftmost match in the rest of the line on which the previous match ended, and an EMPTY directive only when the previous match ends its line and the line directly after it exists and is empty. "
  "When such a match does not exist verification fails, and when it exists matching continues from its end.",
  ["inputs", "programs"], "every check file of plain/COUNT/NEXT/SAME/EMPTY directives and every input text, including ones without a final newline",
  "the tests use a few short inputs; the boundary cases (end of input, empty lines, match at end of line) are unbounded",
  ["filecheck/src/rules/next.rs", "filecheck/src/rules/same.rs", "filecheck/src/rules/empty.rs", "filecheck/src/cursor.rs"],
  [("line-relative rules", "filecheck/src/rules/{next,same,empty}.rs"), ("line search in the cursor", "filecheck/src/cursor.rs")],
  ["Test::verify result"])

P("P03", "LABEL directives split input and checks into independent regions",
  "Every LABEL directive is matched first, in order, each on a later line than the label before it; the directives between two consecutive labels are then matched only against "
  "input after the line of the first label and before the line of the second. "
  "A check in one region can therefore never be satisfied (or violated, for NOT) by text in another, and no combination of labels and other directives makes verification abort.",
  ["inputs", "programs"], "every check file with LABEL directives and every input",
  "region bounds interact with every other directive; tests sample a few label layouts",
  ["filecheck/src/check/mod.rs", "filecheck/src/check/program.rs", "filecheck/src/cursor.rs", "filecheck/src/input.rs"],
  [("block discovery", "filecheck/src/check/mod.rs"), ("bounded searches", "filecheck/src/cursor.rs, filecheck/src/input.rs")],
  ["Test::verify result"])

P("P04", "A DAG group matches all its directives, in any order, without overlap",
  "Consecutive DAG directives succeed only when each of them has a match of its own after the previous match and no two of these matches overlap, in whatever order they stand; identical directives need distinct matches. "
  "They do succeed whenever giving the directives, in order, each its first match in the text not taken by an earlier one finds a match for all of them. "
  "Directives after the group match only after the end of the last match of the group.",
  ["inputs", "programs"], "every group of DAG directives (duplicates and common prefixes included) and every input",
  "the interesting groups (duplicates, shared prefixes, overlapping candidates) grow combinatorially; tests hold a few",
  ["filecheck/src/rules/dag.rs", "filecheck/src/pattern/matcher/matchers/all.rs", "filecheck/src/pattern/prefix.rs"],
  [("DAG rule", "filecheck/src/rules/dag.rs"), ("match-all matcher", "filecheck/src/pattern/matcher/matchers/all.rs")],
  ["Test::verify result"])

P("P05", "A NOT directive rejects exactly the inputs that match it in its region",
  "A NOT directive fails verification exactly when its pattern matches inside the text between the end of the match before it (or the start of the region) and the start of the match of the next positive directive (or the end of the region). "
  "Several NOT directives in a row share that text, and a match outside of it never fails verification.",
  ["inputs", "programs"], "every placement of NOT directives among the other directives and every input",
  "absence must hold over an unbounded region whose ends depend on other directives; tests sample some",
  ["filecheck/src/check/mod.rs", "filecheck/src/check/program.rs", "filecheck/src/pattern/search"],
  [("exclusion regions", "filecheck/src/check/mod.rs"), ("pattern sets", "filecheck/src/pattern/search/*")],
  ["Test::verify result"])

P("P06", "Numeric expressions evaluate to their mathematical value",
  "A numeric substitution expression evaluates to the mathematical value of its arithmetic over the captured or defined variables, or is reported as an error when that value is not representable or a divisor is zero; it never wraps around, aborts or matches some other number. "
  "A numeric match with an equality constraint succeeds only for text denoting the value the expression has.",
  ["inputs", "programs"], "every expression over +, -, *, / and the built-in functions, every operand value in range, every input number",
  "values range over 128 bits and expressions are unbounded; tests try a few small numbers",
  ["filecheck/src/pattern/matcher/matchers/smart/searcher.rs", "filecheck/src/pattern/matcher/matchers/smart.rs", "filecheck/src/pattern/matcher/matchers/smart/builder.rs", "filecheck/src/expr/mod.rs", "filecheck/src/expr/num.rs"],
  [("expression evaluation", "filecheck/src/pattern/matcher/matchers/smart/searcher.rs")],
  ["Test::verify result", "captured numeric variables"])

P("P07", "A variable use matches exactly the text its latest definition captured",
  "A string substitution matches exactly, character by character, the text captured by the most recent definition of that variable (or given on the command line), including a definition earlier in the same pattern. "
  "With variable scoping on, a LABEL forgets every definition made by the check file of a variable whose name does not start with `$` (such a name then stands for its value on the command line again, if it has one) and keeps the others; a use of a variable with no definition in force fails verification.",
  ["inputs", "programs", "histories"], "every sequence of definitions, uses and labels, every captured text",
  "captured text is arbitrary (including pattern metacharacters) and histories of definitions are unbounded",
  ["filecheck/src/env.rs", "filecheck/src/context.rs", "filecheck/src/pattern/matcher/matchers/smart/searcher.rs", "filecheck/src/pattern/matcher/matchers/smart.rs", "filecheck/src/pattern/matcher/matchers/regex.rs"],
  [("variable environment", "filecheck/src/env.rs"), ("substitution in patterns", "filecheck/src/pattern/matcher/matchers/smart/searcher.rs")],
  ["Test::verify result"])

P("P08", "Numeric literals and formats round-trip between text and value",
  "Reading text as a number in a given format yields the value the text denotes in that format, or an error when it denotes none or the value does not fit; writing a value in a format yields text of at least the requested precision that reads back to the same value. "
  "Sign, the alternate-form prefix and letter case are those of the format.",
  ["inputs"], "every 128-bit value, every format and precision, every text",
  "the value range is 2^128 per format; tests check a handful",
  ["filecheck/src/expr/num.rs"],
  [("number parsing and formatting", "filecheck/src/expr/num.rs")],
  ["captured numeric variables", "Number parsing API"])

P("P26", "A pattern denotes the concatenation of its parts",
  "The pattern of a directive denotes the concatenation of its parts in order: text outside of blocks stands for itself, character for character, whatever characters it contains (blanks at the ends of a pattern, and horizontal white space other than the space, are left out of this), "
  "`{{re}}` and `[[V:re]]` stand for the texts the regular expression denotes as a unit, so an alternation in it never extends to its neighbours, and a numeric block without expression stands for the numerals of its format. "
  "A directive without variable uses or expressions finds the leftmost text its pattern denotes, and what it finds does not depend on how its text is cut into blocks.",
  ["inputs", "programs"], "every sequence of parts, every literal text (pattern metacharacters included) and every input",
  "the ways parts combine (metacharacters next to regular expressions, alternations, captures) are unbounded; tests hold a few",
  ["filecheck/src/ast/pattern.rs", "filecheck/src/pattern/mod.rs", "filecheck/src/pattern/matcher/matchers/substring.rs", "filecheck/src/pattern/matcher/matchers/regex.rs", "filecheck/src/pattern/matcher/matchers/smart/builder.rs"],
  [("compaction of parts", "filecheck/src/ast/pattern.rs"), ("pattern compilation", "filecheck/src/pattern/mod.rs, filecheck/src/pattern/matcher/matchers/smart/builder.rs")],
  ["Test::verify result and match positions"])

# ------------------------------------------------------------------ core
P("P10", "Byte offsets and line/column positions convert consistently",
  "For every source text, the line reported for a byte offset is the number of newlines before it, the column is its distance from the start of that line, and converting a valid line and column back to an offset is the inverse. "
  "Line contents and line ranges partition the text, and positions outside of the text are rejected and never mapped somewhere else.",
  ["inputs"], "every source text and every offset, line and column, in and out of range",
  "texts and positions are unbounded; off-by-one cases at empty lines and end of text are easily missed",
  ["core/src/diagnostics/source_file.rs", "core/src/diagnostics/location.rs", "core/src/diagnostics/selection.rs"],
  [("line start table", "core/src/diagnostics/source_file.rs")],
  ["SourceFile/SourceContent position API", "locations in diagnostics"])

P("P11", "An incremental source edit is a text splice with a fresh line index",
  "Applying an incremental edit replaces exactly the bytes of the selected range with the new text and leaves all other bytes unchanged, and afterwards every line and position query answers as if the new text had been loaded from scratch. "
  "An edit whose range is invalid is rejected and changes nothing.",
  ["inputs", "histories"], "every text, every sequence of edits",
  "equivalence with re-indexing must hold after every history of edits; tests apply one or two",
  ["core/src/diagnostics/source_file.rs"],
  [("content update", "core/src/diagnostics/source_file.rs")],
  ["SourceContent::update and later queries"])

P("P12", "Interned symbols are equal exactly when their strings are",
  "Interning a string returns a symbol that resolves to exactly that string for the rest of the process, two symbols are equal exactly when their strings are equal, and predefined keywords keep their fixed symbols. "
  "This holds for every history of interning operations, from any thread.",
  ["inputs", "histories", "schedules"], "every sequence of interned strings",
  "needs all histories of insertions, not a few lookups",
  ["core/src/symbol/mod.rs", "core/build.rs"],
  [("symbol table", "core/src/symbol/mod.rs")],
  ["Symbol API"])

P("P13", "The path-prefix tree is a map from paths with nearest-directory lookup",
  "After any sequence of insertions, looking a path up returns the last value stored under exactly that path, and a path that was never stored is not found; paths are compared in canonical form (that of the file system, otherwise without `.` and with `..` resolved) and are not empty. "
  "Asking for the nearest ancestor returns the value of the longest stored directory strictly above the path, by whole components, where a path is a directory when it is one in the file system or when something was stored below it. "
  "Iteration visits every stored path exactly once with its value, and iteration over files leaves out exactly the directories. An insertion that is refused leaves what was stored as it was.",
  ["inputs", "histories"], "every sequence of inserted paths and every query",
  "the tree splits and merges nodes depending on insertion order; tests try a few orders",
  ["core/src/fs/path_tree.rs"],
  [("radix tree insert and lookup", "core/src/fs/path_tree.rs")],
  ["PathPrefixTree API", "which suite or config a test belongs to"])

P("P15", "Range algebra and line searches agree with sets of positions",
  "Taking an element from either end of a range, shrinking, truncating and measuring it, testing membership and resolving bounds of every kind against an allowed range produce exactly the positions the operation names, and arguments that leave the range are rejected. "
  "Searching forwards or backwards for a line end (of either style) finds the nearest one inside the searched part, reports its style and where the next line starts, and reports none when there is none; it never answers with a position outside of it.",
  ["inputs"], "every range, every argument, every text",
  "arithmetic edge cases over all 64-bit bounds and all texts",
  ["core/src/range.rs", "core/src/text/mod.rs"],
  [("range operations", "core/src/range.rs"), ("newline search", "core/src/text/mod.rs")],
  ["Range and Newline API"])

P("P25", "Source ids are stable handles on their text",
  "Loading a text yields a source id that reads exactly that text until the source is updated; loading or updating other sources never changes it, the latest source of a name is found under that name, and loading the same name and text again yields the same source. "
  "An id that was never handed out is rejected, and a handle already taken keeps reading the text it was taken from, whatever is updated later.",
  ["inputs", "histories"], "every history of loads, updates and reads of files and command-line arguments",
  "must hold after every history of loads and updates; tests do one of each",
  ["core/src/diagnostics/source_manager.rs", "core/src/diagnostics/source_file.rs"],
  [("id allocation and lookup", "core/src/diagnostics/source_manager.rs")],
  ["SourceManager API"])

# ------------------------------------------------------------------ lit
P("P16", "Boolean feature expressions evaluate by their grammar",
  "A condition given to REQUIRES, UNSUPPORTED or XFAIL is accepted exactly when it is derivable from the grammar (`||` loosest, then `&&`, then `!`, then parentheses and terms made of literal characters and {{regex}} parts), and is reported as an error otherwise. "
  "An accepted condition evaluates to the value its structure has when each term is true exactly when it equals or fully matches one of the available features, and `true`/`false` are constants.",
  ["inputs", "configurations"], "every condition text and every set of available features",
  "the grammar is infinite; unit tests evaluate a few dozen strings",
  ["lit/src/config/expr/boolean.rs"],
  [("recursive-descent parser/evaluator", "lit/src/config/expr/boolean.rs")],
  ["BooleanExpr parsing and evaluation", "which tests are skipped or expected to fail"])

P("P17", "A test's verdict follows its conditions and its script's outcome",
  "A test runs exactly when all of its REQUIRES conditions hold and no UNSUPPORTED condition holds, and is otherwise reported unsupported without being run; a test whose directives are malformed is unresolved. "
  "A script runs in the working directory of its suite with the environment of its own configuration: its RUN commands in order, each only when those before it succeeded, and the run ends with the status of the last one executed. "
  "A run passes when it exits with status 0, fails when it exits with another one, and is unresolved when it could not be started or was ended by a signal; a test that fails is run again while retries are allowed, and passing then is reported as such. "
  "A test that runs and one of whose XFAIL conditions holds is reported as an expected failure when it fails and as an unexpected pass when it passes; otherwise it passes or fails as its last run does.",
  ["inputs", "configurations"], "every set of conditions, every feature set, every sequence of outcomes of its runs, both test formats",
  "the product of conditions, features, retries and outcomes is unbounded; tests cover a few combinations",
  ["lit/src/config/features.rs", "lit/src/formats/sh/mod.rs", "lit/src/formats/sh/engine.rs", "lit/src/formats/executable.rs", "lit/src/format.rs", "lit/src/utils.rs"],
  [("feature gating", "lit/src/config/features.rs, lit/src/formats/sh/mod.rs"), ("verdict computation", "lit/src/formats/sh/mod.rs, lit/src/formats/sh/engine.rs"), ("outcome of a process", "lit/src/utils.rs")],
  ["reported status of each test"])

P("P19", "Every selected test is reported once and decides the exit status",
  "A run reports exactly one result for every discovered test -- excluded for those the filters leave out, its verdict for the others --, its summary counts add up to the number of tests, and the exit status is success exactly when no reported result is a failure. "
  "In particular a failing, unresolved, timed-out or unexpectedly passing test always makes the run fail, and so does a test that aborts the run, after which the tests never started are reported as skipped.",
  ["inputs", "histories", "configurations"], "every set of tests, every selection and every combination of their results",
  "combinations of results are unbounded; tests check single outcomes",
  ["litcheck/src/commands/lit.rs", "lit/src/config/mod.rs"],
  [("status accounting", "litcheck/src/commands/lit.rs"), ("selection", "lit/src/config/mod.rs")],
  ["litcheck lit summary and exit status"])

P("P20", "A local configuration overrides only what it sets",
  "The configuration of a test is that of the nearest enclosing local configuration, where every setting it leaves out has the value inherited from the configuration enclosing it. "
  "Features, environment variables and substitutions of the enclosing configuration stay in force unless the local one redefines the same entry.",
  ["configurations"], "every chain of nested configurations",
  "combinations of set and unset fields over arbitrary nesting; tests have one or two",
  ["lit/src/suite/registry/default.rs", "lit/src/test/config.rs", "lit/src/config/features.rs", "lit/src/config/substitutions.rs"],
  [("configuration inheritance", "lit/src/test/config.rs"), ("configuration of a directory", "lit/src/suite/registry/default.rs")],
  ["environment, features and substitutions a test runs with"])

P("P21", "Substitutions rewrite a command line completely and once",
  "Applying substitutions to a command replaces every occurrence of a key with its value and changes nothing else, a doubled percent sign yields a literal one, and the innermost definition of a key wins. "
  "Text that contains no key comes out unchanged, and expansion always terminates.",
  ["inputs", "configurations"], "every command text and every set of substitutions",
  "texts and substitution sets are unbounded; interactions between keys (prefixes, nested values) are not sampled",
  ["lit/src/config/substitutions.rs", "core/src/variables/mod.rs"],
  [("substitution sets", "lit/src/config/substitutions.rs")],
  ["commands a test runs"])

P("P22", "Test scripts parse to the directives their lines contain",
  "Parsing a test file yields, in order, exactly the commands and conditions its directive lines contain, with continued lines joined, and everything after an END directive ignored. "
  "Malformed directives are reported as errors and never silently dropped, and the meaning does not depend on the surrounding text of the line or on line length.",
  ["inputs"], "every test file",
  "test files are unbounded text; unit tests hold a few scripts",
  ["lit/src/formats/sh/script/parser.rs", "lit/src/formats/sh/script/directives.rs", "lit/src/formats/sh/script/mod.rs"],
  [("directive scanner", "lit/src/formats/sh/script/parser.rs")],
  ["parsed script of a test"])

P("P24", "`not` inverts the outcome of the command it runs",
  "`not CMD` succeeds exactly when CMD ran and exited with a failure status of its own; a command that succeeds, or cannot be run, makes it fail. "
  "With `--crash`, it succeeds exactly when the command was ended abnormally by a signal.",
  ["inputs", "fault_sequences"], "every command outcome: exit codes 0-255, signals, spawn failure",
  "tests cover two exit codes",
  ["litcheck/src/commands/not.rs"],
  [("exit status mapping", "litcheck/src/commands/not.rs")],
  ["exit status of litcheck not"])
