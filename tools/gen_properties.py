"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
  a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
  if state: a["state"] = [{"name": state, "meaning": state, "where": mech[0][1]}]
  if observe: a["observe_at"] = [observe]
  P.append({"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why, "anchors": a})

prop("C01", "Every input token reaches the parse tree exactly once and in order",
 "When a listfile is parsed, every token of the input (other than a leading byte-order mark) is stored in the resulting tree exactly once, and a left-to-right walk of the tree yields the tokens in input order. No command-specific parser may drop, duplicate, reorder or abandon a token it has taken from the input.",
 ["inputs", "programs"], "all token sequences, all registered command parsers including ones reached only with unusual argument shapes (comments, pragmas or parentheses in odd places)",
 "Tests check the trees of a few dozen hand-written snippets; there are more than a hundred command parsers and each has branches for comments, pragmas and truncated argument lists that no sample visits.",
 ["cmakelang/parse/__init__.py", "cmakelang/parse/body_nodes.py", "cmakelang/parse/statement_node.py", "cmakelang/parse/simple_nodes.py", "cmakelang/parse/argument_nodes.py", "cmakelang/parse/additional_nodes.py", "cmakelang/parse/funs/"],
 [("recursive-descent consumption", "cmakelang/parse/body_nodes.py BodyNode.consume"), ("command dispatch", "cmakelang/parse/statement_node.py StatementNode.consume"), ("argument groups", "cmakelang/parse/argument_nodes.py"), ("command parsers", "cmakelang/parse/funs/*.py")],
 "remaining token list and children lists of the tree under construction", "tree returned by parse")

prop("C02", "Parsing terminates on every input",
 "For every input, parsing finishes: every repetition in the parser either uses up at least one more token of the input on each round or ends by returning or raising. No combination of keywords, nested parentheses, comments or malformed text can make it loop forever.",
 ["inputs"], "all token sequences through every parser loop",
 "A hang needs one specific token at the head of one specific loop; sampled inputs only show that the sampled ones end.",
 ["cmakelang/parse/"], [("token loops", "every while loop over the token list in cmakelang/parse/")],
 "remaining token list")

prop("C03", "Truncated or malformed input is diagnosed, not a crash",
 "A file that ends in the middle of a construct, or has an unexpected token where the grammar needs a particular one, is reported as a user-level error naming the problem. The parser never looks at or takes a token past the end of the input, and every error it raises is of a kind the command-line programs turn into a message and failing exit status.",
 ["inputs"], "all inputs cut at any token boundary, and all token sequences",
 "There are as many truncation points as tokens and parser branches; tests include a handful of malformed files.",
 ["cmakelang/parse/", "cmakelang/format/__main__.py", "cmakelang/lint/__main__.py", "cmakelang/common.py"],
 [("token look-ahead", "every subscript/pop of the token list in cmakelang/parse/"), ("error conversion", "main() of cmakelang/format/__main__.py and cmakelang/lint/__main__.py")])

prop("C04", "A comment or format pragma is never treated as an argument",
 "Comments, whitespace and cmake-format on/off pragmas inside a command are kept as comments, whitespace and pragmas in the tree; they are never stored as arguments, flags, keywords or command names, and arguments are never stored as comments.",
 ["inputs", "programs"], "all token kinds at every place where a command parser stores a token",
 "Needs a comment or pragma at an unusual argument position of a particular command; each command parser has its own classification chain.",
 ["cmakelang/parse/"], [("node construction", "every TreeNode(...) / *Node creation in cmakelang/parse/ that receives a token")])

prop("C05", "The lexer is lossless and recognises CMake's literal forms",
 "Tokenising any text yields tokens whose spellings concatenate back to exactly that text (minus a leading byte-order mark), or a user-level error. A bracket argument or bracket comment ends at the first closing bracket with the same number of '=' signs, a quoted argument at the first unescaped quote, and a line comment at the end of its line. An unquoted argument is a single token, escape sequences, variable references and embedded quoted substrings included, and a format pragma is a comment of its own line only.",
 ["inputs"], "all character strings",
 "It is a statement about regular languages over all strings; tests tokenise short samples.",
 ["cmakelang/lex/__init__.py"], [("scanner rule table", "cmakelang/lex/__init__.py tokenize")])

prop("C06", "Tokens carry the true line, column and byte offset of their text",
 "Every token records the line, the column and the byte offset (in the UTF-8 encoding of the source, a byte-order mark included) where its text really begins and where it ends, for multi-line tokens, tokens after multi-line tokens, and non-ASCII text.",
 ["inputs"], "all character strings, including multi-line literals and multi-byte characters",
 "Locations drive verbatim copying and comment placement; tests check few tokens and no multi-byte text after multi-line tokens.",
 ["cmakelang/lex/__init__.py", "cmakelang/format/formatter.py"], [("location bookkeeping", "cmakelang/lex/__init__.py tokenize / Token")])

prop("C07", "Everything that was laid out is written",
 "For every kind of node, formatting emits all of the node's own text and all of its children, each once and in order; every child is positioned before it is written, and a node kind the parser can produce is always one the formatter knows how to build, measure and write. Nothing is written for a node only when formatting is switched off around it.",
 ["inputs", "configurations"], "all trees the parser can build, all node kinds and all configurations",
 "The set of (parent kind, child kind, wrap decision) combinations is far larger than the formatted samples.",
 ["cmakelang/format/formatter.py", "cmakelang/parse/common.py"], [("layout tree construction", "formatter.py create_box_tree / LayoutNode.create"), ("reflow", "formatter.py *Node._reflow"), ("writing", "formatter.py *Node.write")])

prop("C08", "Argument text is never altered; only command and keyword case may change",
 "The formatter writes every argument, quoted or bracket literal with exactly its source spelling, except that the line endings inside it follow the configured line ending. Only command names, keywords and flags may change, and then only in letter case (every built-in canonical command spelling equals the command name ignoring case). What separates arguments in the source still separates them in the output, and the text that was measured for the layout is the text that is written.",
 ["inputs", "configurations"], "all token spellings and all configurations",
 "Requires that no code path applies a string transformation to argument text, for all text.",
 ["cmakelang/format/formatter.py", "cmakelang/configuration.py", "cmakelang/parse/funs/standard_funs.py"], [("spelling transformation", "formatter.py ScalarNode / StatementNode / normalize_line_endings"), ("canonical spellings", "configuration.py resolve_for_command, cmakelang/parse/funs CANONICAL_SPELLINGS")])

prop("C09", "A line comment never swallows following code",
 "In the formatted output nothing but a line break follows a line comment: whenever the text placed last is a line comment (or ends with one), the next argument, keyword, parenthesis or statement starts on a later line.",
 ["inputs", "configurations"], "all comment positions in all node kinds and all wrapping decisions",
 "Each container has its own placement loop and wrap decision; sampled comments exercise a few of the (container, child, wrap) combinations.",
 ["cmakelang/format/formatter.py"], [("placement", "formatter.py *._reflow row arithmetic"), ("terminal comment test", "formatter.py has_terminal_comment")])

prop("C10", "Text between format-off and format-on is reproduced verbatim",
 "The source text from a format-off pragma up to the matching format-on pragma (or the end of the file when it is never switched on again) appears byte-for-byte in the output once, and nothing inside it is formatted or emitted a second time; outside such regions everything is emitted.",
 ["inputs"], "all placements, repetitions and nestings of the pragmas",
 "Depends on the pragma's position and on source offsets; tests have a few well-formed regions.",
 ["cmakelang/format/formatter.py", "cmakelang/lex/__init__.py"], [("region copy", "formatter.py OnOffSwitchNode.write / WriteContext / write_tree")])

prop("C11", "Sorting arguments only permutes, and only where enabled and sortable",
 "When argument sorting is enabled the formatter may only permute whole arguments together with the comments attached to them within one positional group that is marked sortable; no argument or comment is lost, duplicated or moved across groups, and arguments keep their order when sorting is disabled or the group is not sortable.",
 ["inputs", "configurations"], "all argument groups and sort settings",
 "A sort that drops or detaches comments shows only with comments between particular arguments.",
 ["cmakelang/format/formatter.py"], [("sorting", "formatter.py sort_arguments and its caller")])

prop("C12", "Formatting never damages or touches files it should not",
 "A source file is replaced only in in-place mode, only after the whole input has been read and formatted successfully (and, if required, validly laid out), and only by moving a completely written and closed temporary file over it with the original permissions. Check mode writes no file, an output file is not created or truncated before formatting succeeded, and unchanged files are not rewritten.",
 ["fault_sequences", "configurations"], "all option combinations and failures at any step",
 "Tests run the happy path; a failure between two particular steps or an option combination is not sampled.",
 ["cmakelang/format/__main__.py"], [("file update protocol", "format/__main__.py onefile_main")])

prop("C13", "Exit status tells the truth",
 "The format and lint programs return a non-zero status whenever a file could not be processed, a check failed, or a lint problem was reported for any of the files, no matter which file in the list it was; diagnosed errors are turned into a message and non-zero status instead of being swallowed.",
 ["inputs", "fault_sequences", "histories"], "all sequences of input files and outcomes",
 "Tests run single files; the outcome of the first of several files, or an error kind, must not be lost.",
 ["cmakelang/format/__main__.py", "cmakelang/lint/__main__.py", "cmakelang/annotate.py", "cmakelang/common.py"], [("status accumulation", "inner_main / main of the programs")])

prop("C14", "Every configuration option and every allowed value is honoured",
 "Every option the program declares is read by the code that should act on it, and for every option with a fixed list of values each listed value is accepted and handled without an internal error.",
 ["configurations"], "all declared options and all allowed values",
 "The product of options and values is not sampled; an unhandled value crashes only when chosen.",
 ["cmakelang/configuration.py", "cmakelang/config_util.py", "cmakelang/format/formatter.py", "cmakelang/lint/basic_checker.py"], [("option declaration", "configuration.py FieldDescriptor declarations"), ("option use", "cmakelang/format, cmakelang/lint, cmakelang/markup.py")])

prop("C15", "Command-line beats config file beats default, for every file alike",
 "An option given on the command line takes effect for every input file, overriding any config file; a config-file value overrides the default; and options picked up for one input file never influence another.",
 ["configurations", "histories"], "all option sources and all sequences of input files",
 "State leaking between files needs a multi-file run with different configs.",
 ["cmakelang/format/__main__.py", "cmakelang/lint/__main__.py", "cmakelang/config_util.py", "cmakelang/configuration.py"], [("merge", "legacy_consume / get_config / onefile_main")])

prop("C16", "Bad config files are reported; includes always resolve and end",
 "A missing, unreadable or ill-formed config file is reported as a user-level error. Includes are resolved relative to the including file, later values override earlier ones without losing unrelated settings, and loading ends even when files include each other.",
 ["inputs", "configurations"], "all config file contents and include graphs",
 "Include cycles and format-specific parse errors are not sampled.",
 ["cmakelang/format/__main__.py"], [("config loading", "get_configdict / get_one_config_dict / map_merge")])

prop("C17", "Formatting a file is a deterministic function of file and configuration",
 "The result for a file depends only on its text, its configuration and the command databases: processing one file never changes module-level tables, shared default values, or class-level state that a later file reads, and no output order depends on hash order, time or environment.",
 ["histories", "inputs"], "all sequences of files processed in one process",
 "Leaks through shared tables appear only in a particular order of files within one process.",
 ["cmakelang/"], [("shared state", "module globals, class attributes, mutable defaults")])

prop("C18", "Text files are read and written with explicit encoding and exact newlines",
 "Every place that reads or writes a listfile, config or output file uses an explicit text encoding (the configured one for listfiles) and no newline translation for listfiles, so that line endings and characters survive unless a setting asks otherwise.",
 ["inputs", "configurations"], "all open sites of the programs and all platforms' locale settings",
 "Only visible under a different locale, encoding or line ending than the tests'.",
 ["cmakelang/format/__main__.py", "cmakelang/lint/__main__.py", "cmakelang/annotate.py", "cmakelang/ctest_to.py", "cmakelang/genparsers.py"], [("file opening", "io.open calls")])

prop("C19", "The command database is well-formed",
 "Every built-in command entry can actually be dispatched: command names are lower case, keyword names are in the normalised case used for lookup, every entry is callable the way the parser calls it, and no entry is silently overridden or left unregistered by the module that defines it.",
 ["programs"], "all entries of the built-in command tables",
 "Hundreds of table entries; tests touch a small part.",
 ["cmakelang/parse/funs/"], [("tables", "populate_db functions and the tables they merge")])

prop("C20", "Every lint report names a known rule with the right arguments",
 "Every place that reports a lint problem uses an identifier present in the lint database and supplies exactly the values its message needs, so that reporting never fails and each documented rule keeps its meaning.",
 ["inputs"], "all report sites",
 "A mismatch crashes or garbles only when that particular problem occurs in a file.",
 ["cmakelang/lint/", "cmakelang/parse/"], [("report sites", "record_lint calls"), ("database", "lint/lintdb.py")])

prop("C21", "Disabled lint rules stay silent and suppression is scoped",
 "A lint rule disabled by configuration or by a pragma is not reported where it is disabled and is reported again after the scope of the pragma ends; suppression never leaks to another scope or file and never silences other rules, and the number of reported problems equals the number counted.",
 ["inputs", "configurations"], "all nestings of scopes and suppressions",
 "Needs particular nestings of scopes and pragmas.",
 ["cmakelang/lint/lint_util.py", "cmakelang/lint/basic_checker.py", "cmakelang/lint/__main__.py"], [("suppression", "lint_util.py LintContext / FileContext"), ("pragmas", "basic_checker.py")])

prop("C22", "All tools interpret a listfile with the same configured grammar",
 "Formatter, linter, annotator and the other readers of listfiles parse with the same command database, extended by the user's additional commands from the configuration, and with the user's configuration in effect; analysing a tree never modifies it.",
 ["configurations"], "all tools and user-defined command specifications",
 "Each tool builds its own context; tests do not compare tools.",
 ["cmakelang/format/__main__.py", "cmakelang/lint/__main__.py", "cmakelang/annotate.py", "cmakelang/parse/__init__.py"], [("context construction", "ParseContext calls")])

prop("C23", "Reflowing comments keeps every word and every kind of comment block",
 "When comment markup is processed, every line of the comment ends up in some block and every block is written back: no comment line, list item, ruler, fence or preformatted line is dropped, and each kind of block the markup reader can produce is handled by the writer.",
 ["inputs", "configurations"], "all comment texts",
 "Line classification depends on regexes and state across lines; tests have samples.",
 ["cmakelang/markup.py", "cmakelang/format/formatter.py"], [("markup", "markup.py parse / format_items / format_item")])

prop("C24", "Annotated HTML shows the exact source, escaped",
 "In annotated output every token's text appears once, in order, HTML-escaped, and no text from the listfile is ever emitted as raw markup.",
 ["inputs"], "all listfiles",
 "Needs hostile characters at unusual token kinds.",
 ["cmakelang/annotate.py", "cmakelang/render.py"], [("rendering", "annotate.py / render.py dump functions")])

prop("C25", "Every configuration view lists every option",
 "The dictionary, ordered-dictionary, text dump and command-line views of the configuration all cover the same declared options and sections, so that no declared option is missing from a dump or unsettable, and cloning a configuration preserves every option. A text dump can be loaded again: every setting stands on a line of its own, inside its section.",
 ["configurations"], "all declared options and sections",
 "A forgotten option shows only when that option is set and dumped.",
 ["cmakelang/config_util.py", "cmakelang/configuration.py"], [("views", "config_util.py ConfigObject methods")])

prop("C26", "Command-line options map to configuration options one to one",
 "Every configuration option reachable from the command line has its own unambiguous flag and destination: no two options share a destination, none collides with a program's own options, and every option left over after removing the program's own options is a declared configuration option. The text given for a boolean or numeric option becomes the value it names (yes, true and 1 mean true; no, false and 0 mean false; in any case of letters).",
 ["configurations"], "all options of all programs",
 "A collision shows only when both options are used together.",
 ["cmakelang/format/__main__.py", "cmakelang/lint/__main__.py", "cmakelang/config_util.py", "cmakelang/configuration.py"], [("argparse setup", "setup_argparser / add_to_argparser / get_argdict")])

prop("C27", "Formatting twice gives the same text as formatting once",
 "Formatting the output of the formatter again with the same configuration leaves it unchanged.",
 ["inputs", "configurations"], "all inputs and configurations",
 "Quantifies over all inputs.",
 ["cmakelang/format/formatter.py"], [("layout", "formatter.py reflow")])
prop("C28", "Formatted output has the same meaning to CMake",
 "CMake evaluates the formatted file exactly as the original: same commands, same arguments, same order.",
 ["inputs", "configurations"], "all inputs and configurations",
 "Quantifies over all inputs.",
 ["cmakelang/format/formatter.py"], [("whole pipeline", "format/__main__.py process_file")])
prop("C29", "Lines fit the configured width whenever a valid layout exists",
 "Whenever some allowed layout keeps within the configured line width and group limits, the chosen one does; otherwise the layout is reported as invalid.",
 ["inputs", "configurations"], "all inputs and configurations",
 "Quantifies over all token widths.",
 ["cmakelang/format/formatter.py"], [("wrap search", "formatter.py LayoutNode.reflow")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
  for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
