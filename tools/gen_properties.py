#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
AST = "src/parser/lua_ast.rs"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Formatting never changes the program",
 "For every Lua source the formatter accepts and every combination of documented option values (hints and indentation made of blanks, field separator ',' or ';'), with or without a line range, the output is Lua again and consists of exactly the same code tokens in the same order, spelled the same. The only token-level differences allowed are the ones an option explicitly asks for: the character used between table fields, the separator after the last table field, and the quote style of single-quoted strings. No two tokens are ever glued together, split, dropped, duplicated or swallowed by a comment.",
 ["programs", "configurations"], "every accepted program (every statement, expression and literal form, every placement of spaces, newlines and comments between tokens) x every combination of option values x every line range",
 "The unit tests compare a few hundred hand-written (source, options, output) triples; none of them re-lexes the output, and the interplay of ~45 options with every token gap is far outside any hand-written list.",
 [AST, "src/formatting/loc_hint.rs", "src/formatting/list.rs", "src/formatting/decoration.rs", "src/parser/lua_lexer.rs", "src/parser/lexer_util.rs", "src/parser/lua_syntax.lalrpop"],
 [("per-node printer writes every child and keyword", AST), ("gap writer between tokens", "src/formatting/loc_hint.rs"), ("list writer with separators", "src/formatting/list.rs"), ("lexers", "src/parser/lua_lexer.rs")],
 ["result of formatting a buffer", "stdout / rewritten file of the luafmt command"])

prop("C02", "Comments survive: same text, same order, same place",
 "Unless comment removal is requested, every comment of the source appears in the output exactly once, in the same order, between the same two code tokens, with the same delimiters and the same text except for blanks at the edges of the text where a comment-text hint is configured. When comment removal is requested no comment is left and nothing else than comments (and line breaks that belong to them) goes away. A comment can never turn into code, nor code into a comment.",
 ["programs", "configurations"], "every accepted program with comments of every form (one-line, long with any level, at any gap, at end of file, unterminated last line) x every combination of option values",
 "Tests place comments at chosen gaps under 3-4 option sets; the guarantee is about all gaps of all constructs under all option combinations.",
 ["src/parser/comment_ast.rs", "src/parser/comment_lexer.rs", "src/parser/comment_syntax.lalrpop", "src/parser/lexer_util.rs", "src/formatting/loc_hint.rs", "src/formatting/decoration.rs", AST],
 [("comment blocks of each gap are re-parsed and re-printed", "src/formatting/loc_hint.rs"), ("comment printer", "src/parser/comment_ast.rs"), ("gap positions recorded in the syntax tree", "src/parser/lua_syntax.lalrpop")])

prop("C03", "No formatting options means byte-identical output",
 "With no format option set, with or without a line range, the output for every accepted source is the source itself, byte for byte. The only addition allowed is the final line break after a one-line comment or shebang that ends the file without one.",
 ["programs"], "every accepted program, including unusual spacing, tabs, carriage returns, non-ASCII text in strings and comments, and every line range",
 "The round-trip tests use about 300 inputs; the guarantee covers every syntax tree shape and every gap content, and every line range.",
 [AST, "src/parser/lua_syntax.lalrpop", "src/parser/common.rs", "src/formatting/reconstruction.rs", "src/formatting/loc_hint.rs"],
 [("every gap is recorded and reprinted verbatim", AST), ("character to byte index map", "src/formatting/reconstruction.rs"), ("substring extraction", "src/parser/common.rs")])

prop("C04", "Every valid Lua 5.3 program is accepted, broken ones are refused",
 "Every source that is a valid Lua 5.3 chunk is formatted rather than refused. A source with a lexical error (unterminated string or long bracket, unknown character) or whose token sequence is not a program (missing or extra keyword, bracket, operand or separator) yields a parse error and no formatted text.",
 ["programs"], "all programs derivable from the Lua 5.3 grammar up to a size bound, and all single-token deletions, insertions, replacements and swaps of them",
 "Tests list some accepted and some rejected snippets; grammar conflicts and lexer corner cases show only on specific combinations of neighbouring constructs.",
 ["src/parser/lua_syntax.lalrpop", "src/parser/lua_lexer.rs", "src/parser/lexer_util.rs", "src/formatter.rs"],
 [("LALR grammar", "src/parser/lua_syntax.lalrpop"), ("hand-written lexer", "src/parser/lua_lexer.rs")])

prop("C05", "Any text and any options: a result or an error, never a crash or hang",
 "For every input text (not only Lua), every combination of option values and every line range, formatting terminates and returns either the formatted text or an error. It never panics, never overflows and never runs away; the same holds for reading options from any config file and for the command on any input, path or directory.",
 ["inputs", "configurations"], "all short strings over the characters the lexers distinguish, all truncations and single edits of a program corpus, all option subsets of small size, all line ranges including 0, reversed and beyond the end",
 "Tests feed well-formed input with chosen options; panics hide behind rare pairs of option and construct or behind truncated text.",
 ["src/formatter.rs", "src/formatting/util.rs", "src/formatting/loc_hint.rs", "src/formatting/reconstruction.rs", AST, "src/parser/lexer_util.rs", "src/config.rs", "src/main.rs"],
 [("one-line trials that assume a maximum width", "src/formatting/util.rs"), ("line range to character range", "src/formatting/util.rs"), ("lexer helpers with index arithmetic", "src/parser/lexer_util.rs")])

prop("C06", "Formatting already formatted text changes nothing",
 "Under the shipped default options, whatever the maximum width is, formatting the output of a previous formatting run gives the same text again, for every accepted source. Formatting repeatedly therefore never drifts: blank lines, indentation and comments do not accumulate or disappear.",
 ["programs", "histories"], "every accepted program with any comment and blank-line placement, any number of re-formatting steps, under the shipped options and single-option variations of them",
 "No test formats twice.",
 [AST, "src/formatting/list.rs", "src/formatting/decoration.rs", "src/formatting/loc_hint.rs", "src/formatting/util.rs", ".luafmt.lua"],
 [("one-line trial decides layout from the written prefix, not from the source layout", "src/formatting/util.rs"), ("line break writer trims and re-creates breaks", "src/formatting/decoration.rs")])

prop("C07", "Layout does not depend on how the source was spaced",
 "Under the shipped default options the output depends only on the code tokens, the comments and the blank lines of the source: two sources that differ only in the amount of blanks and tabs between tokens, or in where single line breaks were put, format to the same text (as long as no construct that could stand on one line is spelled with more than twice the maximum width). In particular, minified and spread-out spellings of one program come out identical.",
 ["programs"], "every accepted program x every re-spacing of its token gaps (blanks, tabs, carriage returns, single line breaks) that keeps the tokens, comments and blank lines",
 "A test fixes one spelling per expectation; the guarantee relates all spellings of a program to each other.",
 [AST, "src/formatting/loc_hint.rs", "src/parser/comment_ast.rs", "src/formatting/util.rs"],
 [("source blanks are dropped and replaced by hints", "src/formatting/loc_hint.rs"), ("single line breaks are dropped", "src/parser/comment_ast.rs")])

prop("C08", "Text outside the selected lines is never touched",
 "With a line range, every byte of the source before the first and after the last top-level statement or comment touched by the range is reproduced exactly, whatever the options are. A bound that is 0, missing or beyond the end is replaced by the file's own bound and a reversed range selects the whole file; the text never changes outside the range so clamped. (Only the line break that ends the last selected line may be formatted with it.)",
 ["programs", "configurations"], "all programs of several top-level statements with any nesting and comments x all line ranges x option sets",
 "Two files and a handful of ranges are tested; the guarantee must hold for all statements crossing or touching a range boundary.",
 ["src/formatting/reconstruction.rs", "src/formatting/util.rs", "src/formatting/loc_hint.rs", AST, "src/formatting/list.rs"],
 [("range widened to whole top-level statements", "src/formatting/reconstruction.rs"), ("out-of-range nodes and gaps are copied verbatim", "src/formatting/util.rs")])

prop("C09", "Selected lines are formatted exactly as in a whole-file run",
 "With a line range, each top-level statement touched by the range comes out exactly as it does when the whole file is formatted with the same options. A range covering all lines, a reversed one and one with bounds beyond the file give the whole-file result, and characters, not bytes, are counted, so non-ASCII text does not shift the range.",
 ["programs", "configurations"], "all programs of several top-level statements x all line ranges x option sets, with and without multi-byte text",
 "Existing tests compare four fixed outputs.",
 ["src/formatting/reconstruction.rs", "src/formatting/util.rs", "src/formatting/loc_hint.rs", AST],
 [("line range to character range", "src/formatting/util.rs"), ("range widened to whole top-level statements", "src/formatting/reconstruction.rs")])

prop("C10", "Blocks: one statement per line, indented by nesting depth",
 "When the line-break options for statements and blocks are set and one-line collapsing is off, every statement after the first and the closing keyword of every block that holds statements starts its own line; the statement is indented exactly one indentation string deeper than the keyword that closes its block, top-level statements not at all, and the closing keyword aligns with the line on which its statement begins. Table fields on their own lines are indented one level deeper than the closing brace, which aligns with the line that opens the table when that line begins a statement or field.",
 ["programs", "configurations"], "all programs over all block constructs nested to a bound, with comments and blank lines between statements x indentation strings x width settings",
 "Tests fix about twenty nestings; indentation is a running counter, so a mistake in one construct shows only in what follows or surrounds it.",
 [AST, "src/formatting/decoration.rs", "src/formatting/list.rs", "src/formatting/util.rs"],
 [("indent counter and stack", "src/formatting/decoration.rs"), ("line break writer", "src/formatting/decoration.rs")],
 None, [("indent level and stack", "current nesting while printing", "src/config.rs")])

prop("C11", "A construct is put on one line exactly when it fits the width",
 "With a maximum width and the single-line option of a construct (if, function body, table, binary operator with its right operand, expression list item, call suffix) set, the construct is written on one line when that line, up to the end of the construct, is shorter than the maximum width, and is broken over lines, or starts a new line, otherwise. Widths count characters, include the indentation and everything before the construct on its line. A construct containing a one-line comment or forced line break is never collapsed, and a function is collapsed only by the option for its own kind (top-level or nested).",
 ["programs", "configurations"], "all collapsible constructs with contents of growing length at several nesting depths x every width around the length of the one-line form",
 "Tests use a few widths per construct; the boundary has to be right for every construct, prefix and nesting depth.",
 [AST, "src/formatting/util.rs", "src/formatting/list.rs"],
 [("one-line trial", "src/formatting/util.rs"), ("length of the line so far and of the trial", "src/formatting/util.rs")])

prop("C12", "An option means the same however it is given, and only itself",
 "Every documented option with a valid value has the same effect when given on the command line, in a config file or through the library; booleans, numbers and quoted or unquoted strings included. In a config file a value is a number, true, false or a quoted string of either kind, whose characters are taken as written; anything else is reported. An invalid value or unknown name is reported and changes no option; setting one option never changes another; the last setting wins, and the verbose listing shows exactly the options that are set.",
 ["configurations", "histories"], "all options x representative valid and invalid values x the channels command line, config file and programmatic setting x all sequences of two settings",
 "One test loads one config file and one test parses five options; there are 46 options wired by hand through a name table.",
 ["src/config.rs", "src/main.rs"],
 [("name to field table", "src/config.rs"), ("config file evaluation", "src/config.rs"), ("command line parsing", "src/main.rs")])

prop("C13", "Options come from the nearest config file, or from the command line",
 "When no format option is given, a file is formatted with the options of the config file in its own directory (the directory the file really lies in, also when it is named through a symbolic link or a relative path) or, failing that, in the nearest ancestor directory that has one: a regular file whose name begins with .luafmt and ends with .lua. Without any, and when the nearest one cannot be used, this is reported and the file is left alone; a directory that cannot be listed counts as one without config file. When a format option is given on the command line, config files are not used at all; a line range on the command line applies in both cases.",
 ["configurations", "inputs"], "all placements of valid, broken and decoy config files in a directory chain (including symbolic links and relative paths) x presence of command line options",
 "Two placements are tested.",
 ["src/file_util.rs", "src/formatter.rs", "src/config.rs"],
 [("upward search", "src/file_util.rs"), ("empty-format test", "src/config.rs"), ("choice between the two", "src/formatter.rs")])

prop("C14", "Exactly the right files are selected from the given paths",
 "A path naming a file selects that file whatever its name. A path naming a directory selects every regular file directly in it (or link to one) whose extension is lua and whose name does not begin with .luafmt, each once, and with the recursive option also those of all directories below it, links to directories included unless they lead back to a directory being walked. Nothing else is selected, and a path that does not exist is reported as an error.",
 ["inputs"], "all small directory trees over a set of names, extensions, depths and entry kinds (file, directory, symbolic link, dangling link) x recursive or not x path kind",
 "One fixture tree is tested.",
 ["src/file_util.rs", "src/main.rs"],
 [("directory walk", "src/file_util.rs")])

prop("C15", "The command rewrites exactly what it formatted and isolates failures",
 "For every list of paths, the command with the in-place option replaces the content of each selected file that can be formatted by its formatted text and leaves every other file untouched; without it the formatted texts go to standard output, in the order of the path names, and no file changes. A file that cannot be read, parsed or written is reported on the error output with its name and affects no other file. With no path, standard input is formatted to standard output with the command line options.",
 ["inputs", "histories", "fault_sequences"], "all batches of up to a few files over the kinds (formattable, already formatted, syntax error, not text, unreadable, read-only, empty, missing, duplicate) x in-place, recursive and verbose flags x option sets x stdin",
 "The command itself is not run by any test.",
 ["src/main.rs", "src/formatter.rs", "src/file_util.rs"],
 [("per file processing and error reporting", "src/main.rs")],
 ["exit, standard output and error of the command", "files after the run"])

prop("C16", "In-place formatting never loses a source file",
 "At every point of an in-place run, whatever system call fails and wherever the process is killed, the file being rewritten holds either its complete old content or its complete formatted content. A failed rewrite is reported and leaves the old content.",
 ["crash_points", "fault_sequences"], "every file-system call of an in-place run x {error, short write, process killed before or after it}",
 "No test injects an I/O error or stops the process.",
 ["src/main.rs"],
 [("writing of the result over the source", "src/main.rs")],
 ["file content after the interrupted run"])

prop("C17", "The result depends only on the text and the options",
 "Formatting the same text with the same options always gives the same text, whatever was formatted before in the same process, in whatever order or in parallel, and whatever the file is called. Files of one command run therefore do not influence each other.",
 ["histories", "schedules"], "all call sequences up to a bound over a set of (text, options) pairs, including failing ones; concurrent calls; the same text under different file names and run positions",
 "Each test calls the formatter on fresh state and looks at one result.",
 ["src/formatter.rs", "src/config.rs", AST, "src/formatting/reconstruction.rs"],
 [("printing state created per call", "src/formatter.rs"), ("mutable flags stored in the syntax tree", AST)],
 None, [("printing state and tree flags", "indent, range, one-line flags", "src/config.rs")])

prop("C18", "Quote conversion keeps every string's value",
 "With quote conversion on, every single-quoted string comes out double-quoted and denotes the same sequence of bytes, for every combination of quotes, backslashes and escapes; double-quoted and long strings are unchanged. With it off or unset no string changes at all.",
 ["inputs", "configurations"], "all string bodies over quotes, backslash, letters, escapes, line continuations and non-ASCII characters up to a length bound, at every syntactic position a string can take",
 "Four bodies are tested.",
 ["src/formatting/util.rs", "src/formatting/reconstruction.rs", "src/parser/lexer_util.rs"],
 [("conversion", "src/formatting/util.rs"), ("tree rewriting reaches every string", "src/formatting/reconstruction.rs")])

prop("C19", "Blank lines and line-break options do what they say",
 "Under the shipped default options the blank lines a user put between two statements are kept in number, and a line break alone adds or removes no blank line: a single line break between tokens is dropped (the layout decides), two or more are kept. With the option that removes all line breaks no line break of the source remains except where a one-line comment or a string needs it; with the option for the end of the file the text ends with a line break.",
 ["programs", "configurations"], "all programs of a few statements and comments x all numbers of line breaks in each gap x the line-break options",
 "Tests cover a few gaps.",
 ["src/parser/comment_ast.rs", "src/formatting/decoration.rs", "src/formatting/loc_hint.rs", AST],
 [("line break runs in gaps", "src/parser/comment_ast.rs"), ("line break writer", "src/formatting/decoration.rs")])

prop("C20", "Table separators follow the options, in every table",
 "With a field separator configured every separator between the fields of every table is that separator; without one each separator is kept. The separator after the last field is added, removed or kept as the option says; a table that the one-line option puts on one line has none, a table written over several lines follows the option. A table's fields themselves never change.",
 ["programs", "configurations"], "all tables with up to a few fields of all kinds, nested and in every syntactic position x mixed separators x separator, trailing-separator and one-line options",
 "About thirty tables are tested.",
 [AST, "src/formatting/list.rs"],
 [("separator choice", AST), ("separated list writer", "src/formatting/list.rs")])

prop("C21", "Formatted text is tidy: single blanks, no trailing blanks, final newline",
 "Under the shipped default options, for every accepted source without carriage returns, no line of the output ends in a blank, outside strings and comments two tokens on one line are separated by at most one blank and no tab, every line starts with a whole number of indentation strings, and the text ends with exactly one line break unless the source ended in blank lines.",
 ["programs"], "every accepted program with any spacing, comments and blank lines, under the shipped options",
 "Tests look at chosen snippets; tidiness is a property of every gap of every construct in every context.",
 [AST, "src/formatting/decoration.rs", "src/formatting/loc_hint.rs", "src/formatting/list.rs"],
 [("trailing blanks removed before a line break", "src/formatting/decoration.rs"), ("hints between tokens", AST)])

prop("C22", "Blanks between code tokens are those the options ask for",
 "Where no comment stands and no option breaks the line, the text between two neighbouring tokens is fixed by the options alone. With missing blanks filled in (replace_zero_spaces_with_hint) and the source's blanks dropped (remove_spaces_between_tokens) it is one blank around binary operators and `=`, after commas, separators, `not` and keywords and between statements; none inside round and square brackets, before commas and separators, around `.`, `:` and the name of a label, before the arguments of a call (brackets, table or string) and the parameters of a function, after the other unary operators, and before a semicolon that follows a statement; and the configured table hint inside the braces of a table. Without the first option nothing is added to a gap that is empty, without the second the source's blanks stay; line breaks of the source go only as the options for them say.",
 ["programs", "configurations"], "every accepted program, every pair of neighbouring tokens in every construct x every blank content of the gap x every combination of the options about blanks, line break removal and the table hint",
 "The hint is written by hand at each of about 200 places in the printer; tests look at some of them under three option sets.",
 [AST, "src/formatting/loc_hint.rs", "src/formatting/list.rs", "src/parser/comment_ast.rs"],
 [("per-construct hints", AST), ("gap writer", "src/formatting/loc_hint.rs"), ("list hints", "src/formatting/list.rs")])

prop("C23", "Comments are laid out as the comment options say",
 "A gap that holds comments is written as the options say, in every position: hint_before_comment stands before the first comment of a gap (not when the comment begins the file or a line that is indented), hint_after_multiline_comment after a long comment that ends the gap, the text hints replace the blanks at the edges of the comment texts (an empty one-line comment stays `--`), the four newline_format_*comment options put the first or each later comment of their kind on its own line, indented like the code around it; blanks and line breaks between comments are kept or removed as the options for them say, and remove_comments leaves only the line break a one-line comment needed. Nothing else of the gap changes.",
 ["programs", "configurations"], "every accepted program x every sequence of comments of both kinds and line breaks in every gap x every combination of the comment, removal and indentation options",
 "Tests place one or two comments at chosen gaps under a few option sets; the printer of comment blocks has about a dozen interacting options.",
 ["src/parser/comment_ast.rs", "src/parser/comment_syntax.lalrpop", "src/formatting/loc_hint.rs", "src/formatting/decoration.rs", AST],
 [("comment printer", "src/parser/comment_ast.rs"), ("gap writer", "src/formatting/loc_hint.rs"), ("line break writer", "src/formatting/decoration.rs")])

prop("C24", "Each line-break option breaks lines at its own places, well indented",
 "Each newline_format_* and write_newline_* option, one-line options aside, starts a new line exactly at the places of its own construct (statements; the contents and the end of do, while, repeat, for, if and function blocks; table fields and braces; before or after binary operators; suffixes; list items; the first list item; tables; the end of the file), in every construct of that kind however nested, and at no other place. The new line is indented by one indentation string for every enclosing block, broken table, parameter list, operation (a chain of one operator counts once) and, where their options ask for it, expression list and suffix chain.",
 ["programs", "configurations"], "every accepted program with constructs nested in each other x every combination of line-break and indentation options x comments and line breaks in the source",
 "Tests set the options one by one on chosen snippets; there are 17 such options, each wired into several constructs (twelve kinds of `if` alone), and the indentation is a running counter.",
 [AST, "src/formatting/decoration.rs", "src/formatting/list.rs"],
 [("line break writer", "src/formatting/decoration.rs"), ("per-construct line breaks", AST), ("indentation stack", "src/formatting/decoration.rs"), ("list line breaks", "src/formatting/list.rs")])

prop("C25", "A refused text is reported at its first offending token",
 "When a text is refused, the error names the first token (or unknown character) that no continuation could turn the text before it into a program, spelled as in the source, and its position counted in characters from the beginning of the text; a text that only ends too early is reported at its end. Comments, line breaks, a first `#!` line and non-ASCII text before it do not shift the position.",
 ["inputs"], "every text over the Lua tokens that is no program: all minimal wrong sequences to a length bound, all one-token edits and truncations of programs x separators made of blanks, line breaks, comments and multi-byte characters",
 "Tests check that some texts are refused; two of them look at a position.",
 ["src/parser/lua_lexer.rs", "src/parser/lexer_util.rs", "src/parser/lua_syntax.lalrpop", "src/formatter.rs"],
 [("token positions", "src/parser/lua_lexer.rs"), ("grammar", "src/parser/lua_syntax.lalrpop"), ("error text", "src/formatter.rs")])

prop("C26", "One-line layout under a maximum width leaves the rest of the layout right",
 "With a maximum width and any choice of the one-line options, the text is fixed by the program and the options: what is put on one line is written as it would be without its line-break option, blanks, comments and indentation included, a one-line table without a separator after its last field; what does not fit is laid out exactly as without the one-line option, and whether it was tried on one line, there or inside another construct, leaves no trace. Argument and value lists and suffix chains are indented exactly when one of their items starts a line or the option for one-line ones is set; positional and named fields share lines only where the options for them say so; and a table of several lines starts a new line where write_newline_at_multiline_table or, after the first item of a list, write_newline_at_explist_multiline_table asks for it, a one-line table never. Without a maximum width the one-line options that need one collapse nothing.",
 ["programs", "configurations"], "every accepted program with collapsible constructs inside each other, comments and line breaks of the source included x every maximum width x every combination of the one-line, line-break, separator and indentation options",
 "Tests set one option at one or two widths on a snippet; trials at a width write constructs repeatedly into scratch buffers with changed options, so a mistake shows only when one construct's trial happens inside another's.",
 [AST, "src/formatting/util.rs", "src/formatting/list.rs", "src/formatting/decoration.rs"],
 [("one-line trials", AST), ("list and chain indentation", AST), ("separated list writer", "src/formatting/list.rs"), ("line break writer", "src/formatting/decoration.rs")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
