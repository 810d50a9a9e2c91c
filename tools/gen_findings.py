#!/usr/bin/env python3
"""Write known_findings.json: open findings (exact cases) and the repaired ones (looked up in /repo's history)."""
import json, subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
def commit(text):
    for l in log:
        h, s = l.split(" ", 1)
        if s.startswith("fix: " + text):
            return h
    raise SystemExit("no commit: " + text)
FIXED = [
 ("C21", "do not write a spurious blank before a table", "two blanks before a table brace, and a second run changed the text (C06): `f{1}`, `a = {b}` with a table hint"),
 ("C04", "accept an explicit plus sign", "`a = 1e+5` was refused or split"),
 ("C04", "accept hexadecimal integers with an upper-case prefix", "`a = 0XA` was refused"),
 ("C01", "a backslash escapes nothing inside long brackets", "`a = [[\\]]` was read past its end"),
 ("C02", "keep the text of a comment that ends the file", "`--[` at the end of the file lost its bracket"),
 ("C05", "do not panic when a single-line option is set without", "force_single_line_* without max_width panicked"),
 ("C08", "keep the suffixes of a parenthesised expression", "`(a).b` partly outside the line range lost its suffixes"),
 ("C01", "removing comments, line breaks or blanks never merges", "`return--c<newline>a` came out as `returna`, `a - --c<newline> -b` as a comment"),
 ("C06", "do not write two blanks where a dropped trailing separator", "a dropped trailing separator after a comment left two blanks, changed by a second run"),
 ("C08", "write no newline at the end of the file when it is outside", "a line range that ends before the last line still added a line break at the end of the file"),
 ("C09", "widen the line range to the whole return statement", "a range over part of a return statement, or over a statement after `;`, formatted a part of it"),
 ("C04", "accept vertical tabs and form feeds", "vertical tab and form feed between tokens were refused"),
 ("C05", "report an unreadable config file", "a config file that is not UTF-8 or cannot be read made the command panic"),
 ("C05", "report unreadable standard input", "standard input that is not UTF-8 made the command panic"),
 ("C16", "rewrite a file in place in one step", "a failed or interrupted write left the source file truncated"),
 ("C14", "do not follow a symbolic link back to a directory", "a symbolic link loop was walked until the path was too long; files were selected many times"),
 ("C02", "an empty comment-text hint never changes", "with an empty text hint `--[==[c` style comments could turn into long comments"),
 ("C03", "no format option, no change inside an empty table", "`{ --c<newline>}` changed with no option set"),
 ("C06", "re-formatting keeps the indentation after a comment", "a comment that breaks a line changed the indentation on the second run"),
 ("C04", "accept a unary operator before another one", "`- not x`, `2^-3` were refused"),
 ("C05", "a huge maximum width does not overflow", "max_width above half of the number range overflowed"),
 ("C05", "do not split a multi-byte character before a comment", "an indentation or hint that ends in a multi-byte character made the formatter panic at a following comment"),
 ("C09", "blanks between comments of a block are formatted by the position in the file", "with a line range, the blanks between two comments of one gap were formatted or kept by a position counted from the beginning of the gap"),
 ("C09", "format the gap before a selected return", "the gap before a selected return statement was not formatted as in a whole-file run"),
 ("C08", "leave the text next to the selected lines alone", "comments and blanks next to the selected statements, outside the selected lines, were changed"),
 ("C05", "accept paths that are not valid UTF-8", "a path that is not UTF-8 on the command line made the command panic"),
 ("C14", "select files whose name is not valid UTF-8", "a file whose name is not UTF-8 was not selected in a directory"),
 ("C15", "a directory that cannot be read does not affect the others", "one unreadable directory below a path given with -r made the command skip every file of that path"),
 ("C12", "do not ignore the options of a config file that ends", "a config file whose last statement is a return had all its options ignored without a report"),
 ("C21", "write no hint before a comment that begins the file or a line", "` --c` at the beginning of a file was written behind a blank under the shipped options, and `#!a` + `--c` gave a blank at the beginning of the second line"),
 ("C22", "write no blank before a semicolon that is followed by", "`a = b;(c)()` was written as `a = b ; (c)()`"),
 ("C24", "indent the suffixes of a parenthesised expression after a comment", "`(b)--c<newline>.d` after a comment that breaks the line was not indented, while `b--c<newline>.d` was"),
 ("C22", "write no blank before a string argument that follows", "`x.y''` was written as `x.y ''`, and `x''` as `x''`"),
 ("C24", "remove all the blanks before a line break", "write_newline_at_multiline_table left a line of blanks before a nested table when the indentation has more than one character"),
 ("C26", "break the line at every table of several lines", "`f({ a }, { [a] = a })` at width 20: the second table, of several lines, did not start a line although write_newline_at_multiline_table asks for it, because a trial at the left margin had fitted"),
 ("C26", "lay out a table without regard to earlier trials", "`x = { { a, b }, { c, d } }`: with the one-line options for tables and positional fields the layout of the inner tables depended on a trial elsewhere"),
 ("C12", "report config file options whose value is not a literal", "`max_width = -1` or `max_width = [[1]]` in a config file was ignored without a report"),
]
def case(src, opts=None, cfg="empty", rng=None, extra=None):
    c = {"src": src, "cfg": cfg, "opts": opts or {}}
    if rng: c["range"] = rng
    if extra: c["extra"] = extra
    return c
def shipped(width):
    o = {}
    for line in open("/repo/.luafmt.lua"):
        line = line.split("--")[0].strip()
        if "=" in line:
            k, v = [x.strip() for x in line.split("=", 1)]
            v = v.rstrip(";").strip()
            o[k] = True if v == "true" else False if v == "false" else int(v) if v.isdigit() else v[1:-1]
    o["max_width"] = width
    return o
OPEN = [
 ("C01", "remove_spaces_between_tokens without replace_zero_spaces_with_hint joins `local a` into `locala` (the repository's tests pin this)",
  case("local a", {"remove_spaces_between_tokens": True}, "merge")),
 ("C04", "a hexadecimal float is refused", case("a=0x1.8", extra="valid")),
 ("C04", "a hexadecimal exponent is refused", case("a=0x1p4", extra="valid")),
 ("C04", "a minus directly after a unary minus is refused (the repository's tests pin this)", case("a=- -b", extra="valid")),
 ("C04", "a parenthesis after a number is taken for a call or refused", case("a=1 (f)()", extra="valid")),
 ("C06", "a long comment before an operator inside brackets in the right operand of another operator: at a width where the line is broken next to the comment, a second run puts the outer operator back on its line (same class: comment next to such an operator)",
  case("x=a..(a--[[c]]..(b))", shipped(25), "shipped max_width=25")),
 ("C07", "a construct written with so many blanks that its source is longer than twice the maximum width is not put on one line",
  case("if a then" + " " * 221 + "b() end", shipped(110), "shipped", extra="if a then b() end")),
 ("C05", "a sum of 5000 terms overflows the stack", case("", extra="gen:sum:5000")),
 ("C05", "5000 nested parentheses overflow the stack", case("", extra="gen:parens:5000")),
 ("C05", "100 nested index expressions do not finish (time doubles with every level)", case("", extra="gen:index:100")),
]
import sys, os
extra = os.path.join(os.path.dirname(__file__), "more_findings.json")
more = json.load(open(extra)) if os.path.exists(extra) else []
out = {"findings":
  [{"property": p, "status": "open", "what": w, "case": c} for p, w, c in OPEN] + more +
  [{"property": p, "status": "fixed", "commit": commit(t), "what": w, "line": f"fixed: property={p} {commit(t)} {w}"} for p, t, w in FIXED]}
json.dump(out, open("/verif/known_findings.json", "w"), indent=1, ensure_ascii=False)
print(len(out["findings"]))
