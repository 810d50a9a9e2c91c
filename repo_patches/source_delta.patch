From 5bb9c66c293250a1db0bccc6c39f4550f245bcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 01/37] fix: do not write a spurious blank before a table's
 opening brace

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 3577d98..b35e7aa 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -580,7 +580,7 @@ impl ConfiguredWrite for Node {
                 let bnl = cfg.fmt.write_newline_at_multiline_table == Some(true) && !opts.is_oneline.get();
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
-                cfg_write!(f, cfg, buf, state, IfNewLine(bnl, Hint(&Loc(0, 0), &hint)), "{{", IncFuncLevel())?;
+                cfg_write!(f, cfg, buf, state, IfNewLine(bnl, Hint(&Loc(0, 0), "")), "{{", IncFuncLevel())?;
 
                 let ind = match cfg.fmt.force_single_line_table == Some(true)
                     && opts.is_iv_table == Some(true)
-- 
2.43.0


From 8248f3b02ab937479eca979d4a9b3e358e4638db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 02/37] fix: accept an explicit plus sign in the exponent of a
 numeral

---
 src/parser/lexer_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index d0db6e5..378b5a7 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -74,9 +74,9 @@ pub fn get_float_end(chars: &mut TChars, start: usize) -> (usize, bool, String)
 
             let mut cur_ind = i;
             match chars.peek() {
-                Some(&(si, '-')) => {
+                Some(&(si, sign @ '-')) | Some(&(si, sign @ '+')) => {
                     chars.next();
-                    result.push('-');
+                    result.push(sign);
                     cur_ind = si;
                 }
                 Some(&(_, _)) => {}
-- 
2.43.0


From 89ccd0a199632104ba23d324d40e8fa27ba263be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 03/37] fix: accept hexadecimal integers with an upper-case
 prefix

---
 src/parser/lua_lexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/lua_lexer.rs b/src/parser/lua_lexer.rs
index 4b85454..6a17b40 100644
--- a/src/parser/lua_lexer.rs
+++ b/src/parser/lua_lexer.rs
@@ -406,10 +406,11 @@ impl<'input> Iterator for Lexer<'input> {
                 Some(&(i, '0')) => {
                     self.chars.next();
                     match self.chars.peek() {
-                        Some(&(_, 'x')) => {
+                        Some(&(_, x @ 'x')) | Some(&(_, x @ 'X')) => {
                             self.chars.next();
                             let (end, succ, mut val) = get_hex_integer_end(&mut self.chars, i + 2);
-                            val.insert_str(0, "0x");
+                            val.insert(0, x);
+                            val.insert(0, '0');
 
                             match succ {
                                 true => return ok(i, Numeral(val), end),
-- 
2.43.0


From cc8fcfe80e37323c32f52ed6fbba56c3490ca280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 04/37] fix: a backslash escapes nothing inside long brackets

---
 src/parser/lexer_util.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 378b5a7..9fee021 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -147,13 +147,12 @@ pub fn get_multiline_string_level(chars: &mut TChars, start: usize) -> usize {
 pub fn get_multiline_string_ends(chars: &mut TChars, level: usize, start: usize) -> (usize, usize, bool, String) {
     // we already got "[==[" symbols
     let mut end = start;
-    let mut escaped = false;
     let mut result = String::new();
 
     loop {
         match chars.next() {
             Some((text_end, ch)) => {
-                if !escaped && ch == ']' {
+                if ch == ']' {
                     let cur_level = get_multiline_string_level(chars, text_end + 1);
 
                     if level == cur_level {
@@ -174,7 +173,6 @@ pub fn get_multiline_string_ends(chars: &mut TChars, level: usize, start: usize)
                 }
 
                 end = text_end;
-                escaped = ch == '\\';
             }
             None => return (end + 1, end + 1, false, result),
         }
-- 
2.43.0


From 082cd785fc25ff13a462f5d7276fadcf765f0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 05/37] fix: keep the text of a comment that ends the file
 right after an opening bracket

---
 src/parser/lexer_util.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 9fee021..25e9a44 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -208,7 +208,10 @@ pub fn get_comment_start_ends_and_type(chars: &mut TChars, start: usize) -> (usi
 
                             return (text_start, text_end, token_end, None, succ, result);
                         }
-                        None => return (text_start, text_start + level + 1, text_start + level + 1, None, true, String::new()),
+                        None => {
+                            let result = format!("[{}", "=".repeat(level));
+                            return (text_start, text_start + level + 1, text_start + level + 1, None, true, result);
+                        }
                     }
                 }
                 Some(&(square_2_index, '[')) => {
@@ -223,7 +226,7 @@ pub fn get_comment_start_ends_and_type(chars: &mut TChars, start: usize) -> (usi
                     result.insert(0, '[');
                     return (text_start, text_end, token_end, None, succ, result);
                 }
-                None => return (text_start, text_start + 1, text_start + 1, None, true, String::new()),
+                None => return (text_start, text_start + 1, text_start + 1, None, true, "[".to_string()),
             }
         }
         _ => {
-- 
2.43.0


From 3ca9bd3901705c2ad7829664e9091263210921e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 06/37] fix: do not panic when a single-line option is set
 without a maximum width

---
 src/formatting/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 835162a..3187766 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -48,9 +48,9 @@ macro_rules! test_oneline {
                 let left_len = util::get_len_after_newline($wrt, $cfg);
                 let right_len = util::get_len_till_newline(&buffer, $cfg);
 
-                match left_len + right_len < $cfg.fmt.max_width.unwrap() {
-                    true => Some(buffer),
-                    false => None,
+                match $cfg.fmt.max_width {
+                    Some(max_width) if left_len + right_len < max_width => Some(buffer),
+                    _ => None,
                 }
             }
             true => None
-- 
2.43.0


From f3ec564a99f48966a6ae3baab233b21c23689333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 07/37] fix: keep the suffixes of a parenthesised expression
 that a line range covers in part

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index b35e7aa..3aa8067 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -695,7 +695,7 @@ impl ConfiguredWrite for Node {
             }
 
             VarRoundSuffix(span, locs, n1, n2) => {
-                out_of_range_write!(f, cfg, buf, state, span, "(", locs[0], n1, locs[1], ")");
+                out_of_range_write!(f, cfg, buf, state, span, "(", locs[0], n1, locs[1], ")", locs[2], n2);
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, "(", Hint(&locs[0], ""), n1, Hint(&locs[1], ""), ")")?;
-- 
2.43.0


From 83cfb6e608414e5af8cc3cadfcbf72d8a8c300be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 08/37] fix: removing comments, line breaks or blanks never
 merges two tokens

---
 src/formatting/loc_hint.rs | 24 ++++++++++++++++++++----
 src/formatting/util.rs     | 20 ++++++++++++++++++++
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 6ff98b8..ea960be 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -36,13 +36,25 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
 }
 
 impl CommentLocHint<'_, '_> {
-    fn write_formatted_comment_block(&self, f: &mut String, cfg: &Config, _buf: &str, comment_block: &str) -> std::fmt::Result {
-
+    fn write_formatted_comment_block(
+        &self, f: &mut String, cfg: &Config, buf: &str, state: &State, comment_block: &str,
+    ) -> std::fmt::Result {
         // if `comment_block` is empty
         if comment_block.is_empty() {
-            if cfg.fmt.replace_zero_spaces_with_hint == Some(true) {
+            let replace_with_hint = cfg.fmt.replace_zero_spaces_with_hint == Some(true);
+            if replace_with_hint {
                 write!(f, "{}", self.1)?;
             }
+
+            // removed comments and newlines, or an empty hint, must not merge the surrounding tokens
+            let removed = self.0.substr(buf, state, 0);
+            if removed.contains(|ch: char| ch != ' ' && ch != '\t') || replace_with_hint && !removed.is_empty() {
+                let next_char = Loc(self.0.1, self.0.1 + 1).substr(buf, state, 0).chars().next();
+
+                if next_char.map_or(false, |ch| util::need_space_before(f, ch)) {
+                    write!(f, " ")?;
+                }
+            }
             return Ok(());
         }
 
@@ -51,6 +63,10 @@ impl CommentLocHint<'_, '_> {
             write!(f, "{}", cfg.fmt.hint_before_comment.as_ref().unwrap())?;
         }
 
+        if comment_block.starts_with('-') && f.ends_with('-') {
+            write!(f, " ")?;
+        }
+
         write!(f, "{}", comment_block)?;
 
         // hint after comment block, ending with ']'
@@ -79,7 +95,7 @@ impl ConfiguredWrite for CommentLocHint<'_, '_> {
                 formatted_comment_block.push(f.chars().last().unwrap_or(' '));
 
                 match node_tree.configured_write(&mut formatted_comment_block, cfg, &comment_buffer, state) {
-                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, &formatted_comment_block[1..]),
+                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, state, &formatted_comment_block[1..]),
                     Err(err) => Err(err),
                 }
             }
diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 3187766..8a09ada 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -100,6 +100,26 @@ pub fn has_newlines(s: &str) -> bool {
     return s.find('\n').is_some();
 }
 
+/// Returns true if the token starting with `next` would merge with the last token of `f`
+/// without a space between them.
+pub fn need_space_before(f: &str, next: char) -> bool {
+    let is_word = |ch: char| ch.is_ascii_alphanumeric() || ch == '_';
+
+    match f.chars().last() {
+        Some('-') => next == '-',
+        Some('[') => next == '[' || next == '=',
+        Some('.') => next == '.',
+        Some(ch) if is_word(ch) && next == '.' => {
+            // a period after a numeral would continue the numeral
+            let rest = f.trim_end_matches(is_word);
+            let exponent = rest.ends_with('.') && rest[..rest.len() - 1].ends_with(|ch: char| ch.is_ascii_digit());
+            f[rest.len()..].starts_with(|ch: char| ch.is_ascii_digit() || exponent && (ch == 'e' || ch == 'E'))
+        }
+        Some(ch) => is_word(ch) && is_word(next),
+        None => false,
+    }
+}
+
 pub fn charstring_to_normalstring(s: &str) -> String {
     let mut result = String::new();
     let mut escaped = false;
-- 
2.43.0


From 763c5821d0767b5a09133475d9074470768ab883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 09/37] fix: do not write two blanks where a dropped trailing
 separator follows a comment

---
 src/formatting/loc_hint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index ea960be..322e06f 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -42,7 +42,7 @@ impl CommentLocHint<'_, '_> {
         // if `comment_block` is empty
         if comment_block.is_empty() {
             let replace_with_hint = cfg.fmt.replace_zero_spaces_with_hint == Some(true);
-            if replace_with_hint {
+            if replace_with_hint && !f.ends_with(|ch: char| ch == ' ' || ch == '\t') {
                 write!(f, "{}", self.1)?;
             }
 
-- 
2.43.0


From 9222a0de85d26151a0f9a4715f0dad8de466b169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 10/37] fix: write no newline at the end of the file when it is
 outside the line range

---
 src/formatting/util.rs | 8 ++++++++
 src/parser/lua_ast.rs  | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 8a09ada..9220d50 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -84,6 +84,14 @@ pub fn test_not_completely_contained(range: &Option<(usize, usize)>, span: &Loc)
     return false;
 }
 
+pub fn test_eof_in_range(range: &Option<(usize, usize)>, last: &Loc) -> bool {
+    if let Some(&(_, r)) = range.as_ref() {
+        return r >= last.1;
+    }
+
+    return true;
+}
+
 pub fn trim_end_spaces_and_tabs<'a>(string: &'a String) -> &'a str {
     string.trim_end_matches(|ch: char| return ch == ' ' || ch == '\t')
 }
diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 3aa8067..6090e32 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -1205,11 +1205,11 @@ impl ConfiguredWrite for Node {
                 cfg_write!(f, cfg, buf, state, n1, IfNewLine(nl, Hint(&locs[0], " ")), n2)
             }
             Chunk(locl, n, locr) => {
-                let nl = cfg.fmt.write_newline_at_eof == Some(true);
+                let nl = cfg.fmt.write_newline_at_eof == Some(true) && util::test_eof_in_range(&state.pos_range, locr);
                 cfg_write!(f, cfg, buf, state, Hint(&locl, ""), n, IfNewLine(nl, Hint(&locr, "")))
             }
             SheBangChunk(locl, n, locm, b, locr) => {
-                let nl = cfg.fmt.write_newline_at_eof == Some(true);
+                let nl = cfg.fmt.write_newline_at_eof == Some(true) && util::test_eof_in_range(&state.pos_range, locr);
                 cfg_write!(f, cfg, buf, state, Hint(&locl, ""), n, Hint(&locm, ""), b, IfNewLine(nl, Hint(&locr, "")))
             }
 
-- 
2.43.0


From 2289441019320918fe43c5d48097117fcce164bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 11/37] fix: widen the line range to the whole return statement
 and to a statement after a semicolon

---
 src/formatting/reconstruction.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/formatting/reconstruction.rs b/src/formatting/reconstruction.rs
index d8ff175..19c8dc1 100644
--- a/src/formatting/reconstruction.rs
+++ b/src/formatting/reconstruction.rs
@@ -45,8 +45,6 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
         | GoTo(span, _, n)
         | WhileDo(span, _, n)
         | RepeatUntil(span, _, n)
-        | RetStatExpr(span, _, n)
-        | RetStatExprComma(span, _, n)
         | Chunk(span, n, _)
         | DoBEnd(span, _, n) => {
             update_pos_range(span, state);
@@ -128,8 +126,6 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
         | TableConstructorEmpty(span, _)
         | DoEnd(span, _)
         | Name(span, _)
-        | RetStatNone(span)
-        | RetStatNoneComma(span, _)
         | Semicolon(span)
         | SheBang(span, _)
         | FuncBody(span, _) => {
@@ -150,10 +146,31 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
                 reconstruct_node_tree(node, cfg, state);
             }
         }
+        // the return statement is not an item of the statement list of its block
+        RetStatNone(span) | RetStatNoneComma(span, _) => {
+            state.block_nested_level += 1;
+            update_pos_range(span, state);
+            state.block_nested_level -= 1;
+        }
+        RetStatExpr(span, _, n) | RetStatExprComma(span, _, n) => {
+            state.block_nested_level += 1;
+            update_pos_range(span, state);
+
+            reconstruct_node_tree(&mut *n, cfg, state);
+            state.block_nested_level -= 1;
+        }
         StatementList(_, v) => {
             state.block_nested_level += 1;
             for (_, node) in v {
-                reconstruct_node_tree(node, cfg, state);
+                match node {
+                    // a list in the list (`; (f)()`) belongs to the same block
+                    StatementList(_, nested) => {
+                        for (_, node) in nested {
+                            reconstruct_node_tree(node, cfg, state);
+                        }
+                    }
+                    _ => reconstruct_node_tree(node, cfg, state),
+                }
             }
             state.block_nested_level -= 1;
         }
-- 
2.43.0


From 96950bdd972b580833f6f76200354b0a20539576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 12/37] fix: accept vertical tabs and form feeds as blanks

---
 src/parser/comment_lexer.rs | 2 +-
 src/parser/lua_lexer.rs     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/comment_lexer.rs b/src/parser/comment_lexer.rs
index 509f0c4..3b4a197 100644
--- a/src/parser/comment_lexer.rs
+++ b/src/parser/comment_lexer.rs
@@ -80,7 +80,7 @@ impl<'input> Iterator for Lexer<'input> {
                     }
                     return None;
                 }
-                Some(&(_, ' ')) | Some(&(_, '\r')) | Some(&(_, '\t')) => {
+                Some(&(_, ' ')) | Some(&(_, '\r')) | Some(&(_, '\t')) | Some(&(_, '\x0b')) | Some(&(_, '\x0c')) => {
                     self.chars.next();
                 }
 
diff --git a/src/parser/lua_lexer.rs b/src/parser/lua_lexer.rs
index 6a17b40..deb3480 100644
--- a/src/parser/lua_lexer.rs
+++ b/src/parser/lua_lexer.rs
@@ -231,7 +231,8 @@ impl<'input> Iterator for Lexer<'input> {
                     return None;
                 }
 
-                Some(&(_, ' ')) | Some(&(_, '\n')) | Some(&(_, '\r')) | Some(&(_, '\t')) => {
+                Some(&(_, ' ')) | Some(&(_, '\n')) | Some(&(_, '\r')) | Some(&(_, '\t')) | Some(&(_, '\x0b'))
+                | Some(&(_, '\x0c')) => {
                     self.chars.next();
                 }
 
-- 
2.43.0


From 9ab4b30e1f6be27948e805a0d7ec4417170a3cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 13/37] fix: report an unreadable config file instead of
 panicking

---
 src/config.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index bea1310..a55adc1 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -303,8 +303,9 @@ impl Config {
     }
 
     pub fn reload_format_from_file(&self, file_path: &PathBuf) -> Result<Self, String> {
-        let content = fs::read_to_string(file_path)
-            .expect(&format!("An error occured while reading config file `{}`", file_path.display()));
+        let content = fs::read_to_string(file_path).map_err(|err| {
+            format!("An error occured while reading config file `{}`: {}", file_path.display(), err)
+        })?;
 
         let mut cfg = self.clone();
 
-- 
2.43.0


From 097b149cd38ab79ada0baad3a7a003f9f6485437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 14/37] fix: report unreadable standard input instead of
 panicking

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3872269..757f500 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -79,7 +79,10 @@ fn main() {
 
     if rel_paths.is_empty() {
         let mut buffer = String::new();
-        io::stdin().read_to_string(&mut buffer).unwrap();
+        if let Err(err) = io::stdin().read_to_string(&mut buffer) {
+            eprintln!("An error occured while reading the standard input: {}", err);
+            return;
+        }
 
         match formatter::process_buffer_with_config(&buffer, &config, program_opts.verbose) {
             Ok(output) => print!("{}", output),
-- 
2.43.0


From 450a3dd117df540b608b3df6cd26c782931e8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 15/37] fix: rewrite a file in place in one step, so that no
 failure or kill leaves it truncated

---
 src/file_util.rs | 32 +++++++++++++++++++++++++++++++-
 src/main.rs      |  3 +--
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index 216ddfd..b334f34 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -1,6 +1,6 @@
 use std::ffi::OsStr;
 use std::fs;
-use std::io::{self, Error, ErrorKind};
+use std::io::{self, Error, ErrorKind, Write};
 use std::path::{Path, PathBuf};
 
 pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix: &str) -> io::Result<Vec<PathBuf>> {
@@ -29,6 +29,36 @@ pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix:
     Ok(paths)
 }
 
+/// Replaces the content of an existing file in one step: the new content is written to a temporary file in the same
+/// directory, which is then renamed. If something fails, the file keeps its old content.
+pub fn replace_file_content(path: &Path, content: &str) -> io::Result<()> {
+    // keep a symbolic link, and refuse to replace a file that cannot be written
+    let path = fs::canonicalize(path)?;
+    let metadata = fs::OpenOptions::new().write(true).open(&path)?.metadata()?;
+
+    let tmp_path = path.with_file_name(format!(".luafmt-tmp-{}", std::process::id()));
+    let mut tmp_file = fs::OpenOptions::new().write(true).create_new(true).open(&tmp_path)?;
+
+    let mut write_and_rename = || -> io::Result<()> {
+        tmp_file.write_all(content.as_bytes())?;
+        tmp_file.sync_all()?;
+
+        #[cfg(unix)]
+        {
+            use std::os::unix::fs::MetadataExt;
+            let _ = std::os::unix::fs::fchown(&tmp_file, Some(metadata.uid()), Some(metadata.gid()));
+        }
+        tmp_file.set_permissions(metadata.permissions())?;
+
+        fs::rename(&tmp_path, &path)
+    };
+
+    write_and_rename().map_err(|err| {
+        let _ = fs::remove_file(&tmp_path);
+        err
+    })
+}
+
 pub fn test_file_in_dir(path: &Path, file_prefix: &str, file_ext: &str) -> io::Result<Option<PathBuf>> {
     if path.is_dir() {
         for entry in fs::read_dir(path)? {
diff --git a/src/main.rs b/src/main.rs
index 757f500..fbde933 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,5 @@
 use regex::Regex;
 use std::env;
-use std::fs;
 use std::io::{self, Read};
 use std::path::{Path, PathBuf};
 
@@ -54,7 +53,7 @@ fn parse_options(options: &Vec<String>) -> (Config, ProgramOpts) {
 fn process_file_path(file_path: &PathBuf, config: &Config, program_opts: &ProgramOpts) {
     match formatter::process_file(&file_path, &config, program_opts.verbose) {
         Ok(output) => match program_opts.inplace {
-            true => match fs::write(file_path, output) {
+            true => match file_util::replace_file_content(file_path, &output) {
                 Ok(..) => {}
                 Err(err) => {
                     eprintln!("{}", format!("An error occured while writing file `{}`: {}", file_path.display(), err))
-- 
2.43.0


From 8e75c605988aae7db4a90e781b8d2aa2665ccce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 16/37] fix: do not follow a symbolic link back to a directory
 that is being walked

---
 src/file_util.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index b334f34..b0c1af8 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -4,14 +4,27 @@ use std::io::{self, Error, ErrorKind, Write};
 use std::path::{Path, PathBuf};
 
 pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix: &str) -> io::Result<Vec<PathBuf>> {
+    get_path_files_below(path, recursive, ext, filter_prefix, &mut Vec::new())
+}
+
+// `parents` are the directories being walked: a symbolic link back to one of them is not followed
+fn get_path_files_below(
+    path: &PathBuf, recursive: bool, ext: &str, filter_prefix: &str, parents: &mut Vec<PathBuf>,
+) -> io::Result<Vec<PathBuf>> {
     let mut paths = Vec::new();
 
     if path.is_dir() {
+        let real_path = fs::canonicalize(path)?;
+        if parents.contains(&real_path) {
+            return Ok(paths);
+        }
+        parents.push(real_path);
+
         for entry in fs::read_dir(path)? {
             let inner_path = entry?.path();
 
             if inner_path.is_dir() && recursive {
-                paths.append(&mut get_path_files(&inner_path, true, ext, filter_prefix)?);
+                paths.append(&mut get_path_files_below(&inner_path, true, ext, filter_prefix, parents)?);
             } else if inner_path.is_file()
                 && inner_path.extension().and_then(OsStr::to_str) == Some(ext)
                 && inner_path.file_name().and_then(OsStr::to_str).and_then(|s| Some(!s.starts_with(filter_prefix)))
@@ -20,6 +33,8 @@ pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix:
                 paths.push(inner_path);
             }
         }
+
+        parents.pop();
     } else if path.is_file() {
         paths.push(path.to_path_buf());
     } else {
-- 
2.43.0


From b6f8300c7188bc660084d2a86dd257bda586ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 17/37] fix: an empty comment-text hint never changes where a
 comment ends

---
 src/parser/comment_ast.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/parser/comment_ast.rs b/src/parser/comment_ast.rs
index 9758393..d0e2db0 100644
--- a/src/parser/comment_ast.rs
+++ b/src/parser/comment_ast.rs
@@ -19,6 +19,10 @@ pub enum Node {
     Chunk(Loc, Box<Node>, Loc),
 }
 
+fn starts_with_long_bracket(s: &str) -> bool {
+    s.starts_with('[') && s[1..].trim_start_matches('=').starts_with('[')
+}
+
 impl list::ListOfItems<Node> for Node {
     fn items(&self) -> Option<&Vec<(Loc, Node)>> {
         use Node::*;
@@ -135,6 +139,9 @@ impl ConfiguredWrite for Node {
                             // do not print the `prefix` if trimmed `s` is empty
                             if strimmed.is_empty() {
                                 write!(f, "--\n")?;
+                            } else if prefix.is_empty() && starts_with_long_bracket(strimmed) {
+                                // do not turn the text into a multi-line comment
+                                write!(f, "-- {}\n", strimmed)?;
                             } else {
                                 write!(f, "--{}{}\n", prefix, strimmed)?;
                             }
@@ -152,10 +159,15 @@ impl ConfiguredWrite for Node {
                     Some(true) => Ok(()),
                     _ => {
                         let level_str = (0..*level).map(|_| "=").collect::<String>();
-                        match (
-                            cfg.fmt.hint_before_multiline_comment_text.as_ref(),
-                            cfg.fmt.hint_after_multiline_comment_text.as_ref(),
-                        ) {
+                        let space = " ".to_string();
+                        let suffix = match cfg.fmt.hint_after_multiline_comment_text.as_ref() {
+                            // do not close the comment earlier
+                            Some(suffix) if suffix.is_empty() && s.trim_end().ends_with(&format!("]{}", level_str)) => {
+                                Some(&space)
+                            }
+                            opt_suffix => opt_suffix,
+                        };
+                        match (cfg.fmt.hint_before_multiline_comment_text.as_ref(), suffix) {
                             (Some(prefix), Some(suffix)) => {
                                 write!(f, "--[{}[{}{}{}]{}]", level_str, prefix, s.trim(), suffix, level_str)
                             }
-- 
2.43.0


From d360623bee35e76d91318ec42d8d5a2731c4cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 18/37] fix: no format option, no change inside an empty table

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 6090e32..b276cf5 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -614,7 +614,7 @@ impl ConfiguredWrite for Node {
 
                 let mut test_str = String::new();
                 Hint(&locs[0], &hint).configured_write(&mut test_str, cfg, buf, state)?;
-                let nl = test_str.find('\n').is_some();
+                let nl = cfg.fmt.newline_format_table_constructor.is_some() && test_str.find('\n').is_some();
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, "{{", IfNewLine(nl, Hint(&locs[0], &hint)), "}}")
-- 
2.43.0


From be80915cbfe5f2db4be0939290ef42e91548d9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 19/37] fix: re-formatting keeps the indentation after a
 comment that breaks the line

---
 src/parser/lua_ast.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index b276cf5..41ffa74 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -231,7 +231,7 @@ impl<'a> list::AnyListItem<'a, Node> for Node {
                     if cfg.fmt.force_single_line_iv_table_field == Some(true) && opts.is_iv_table == Some(true)
                         || cfg.fmt.force_single_line_kv_table_field == Some(true) && opts.is_iv_table == Some(false)
                     {
-                        return self.test_oneline_table_field(f, cfg, buf, state) == None;
+                        return f.ends_with('\n') || self.test_oneline_table_field(f, cfg, buf, state) == None;
                     }
 
                     true
@@ -240,6 +240,8 @@ impl<'a> list::AnyListItem<'a, Node> for Node {
             },
             ExpList(..) => match cfg.fmt.newline_format_exp_list_first {
                 // first!
+                // the line is already broken after a comment
+                Some(1) if f.ends_with('\n') => true,
                 Some(1) => match cfg.fmt.force_single_line_exp_list {
                     Some(true) => test_oneline!(f, cfg, buf, state, self).is_none(),
                     _ => true,
@@ -247,6 +249,11 @@ impl<'a> list::AnyListItem<'a, Node> for Node {
                 _ => false,
             },
             VarSuffixList(span, _) => {
+                // the line is already broken after a comment
+                if cfg.fmt.newline_format_var_suffix.is_some() && f.ends_with('\n') {
+                    return true;
+                }
+
                 self.need_newline(&Node::Name(Loc(span.0, span.0), String::new()), parent, f, cfg, buf, state)
             }
             _ => false,
@@ -494,7 +501,11 @@ impl ConfiguredWrite for Node {
                 let mut nl1 = cfg.fmt.newline_format_binary_op == Some(1);
                 let mut nl2 = cfg.fmt.newline_format_binary_op == Some(2);
                 if (nl1 || nl2) && cfg.fmt.force_single_line_binary_op == Some(true) {
-                    if test_oneline!(f, cfg, buf, state, Hint(&locs[0], " "), tok, Hint(&locs[1], " "), r).is_some() {
+                    // keep the operator apart from the line of a comment that breaks the line
+                    let mut gap = String::new();
+                    cfg_write!(&mut gap, cfg, buf, state, Hint(if nl1 { &locs[0] } else { &locs[1] }, " "))?;
+
+                    if !util::has_newlines(&gap) && test_oneline!(f, cfg, buf, state, Hint(&locs[0], " "), tok, Hint(&locs[1], " "), r).is_some() {
                         nl1 = false;
                         nl2 = false;
                     }
-- 
2.43.0


From add11949581e997463da45068fef682485cd4b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 20/37] fix: accept a unary operator before another one and
 after the power operator

'- not x', '# - x' and '2^-3' are valid Lua and were refused.  A minus sign
directly followed by another one is still refused.
---
 src/parser/lua_syntax.lalrpop | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/parser/lua_syntax.lalrpop b/src/parser/lua_syntax.lalrpop
index 5dee540..9301527 100644
--- a/src/parser/lua_syntax.lalrpop
+++ b/src/parser/lua_syntax.lalrpop
@@ -529,24 +529,45 @@ Op9<T>: Node = {
 }
 
 Op10<T>: Node = {
+    <ls:@L> "-"   <l1:@R> <r1:@L> <e:Op10NoMinus<T>> <rs:@R>
+        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("-"), Box::new(e)),
+    Op10NoMinus<T>,
+}
+
+// a minus sign cannot be followed by another one
+Op10NoMinus<T>: Node = {
     <ls:@L> "not" <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
         => Node::UnaryNot(Loc(ls, rs), [Loc(l1, r1)], Box::new(e)),
-    <ls:@L> "#"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
+    <ls:@L> "#"   <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
         => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("#"), Box::new(e)),
-    <ls:@L> "-"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
-        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("-"), Box::new(e)),
-    <ls:@L> "~"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
+    <ls:@L> "~"   <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
         => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("~"), Box::new(e)),
     Op11<T>,
 }
 
 // right-associative operation, but we make it left-associative
 Op11<T>: Node = {
-    <ls:@L> <e1:Op11<T>> <l1:@R> <r1:@L> "^" <l2:@R> <r2:@L> <e2:T> <rs:@R>
+    <ls:@L> <e1:Op11<T>> <l1:@R> <r1:@L> "^" <l2:@R> <r2:@L> <e2:PowOperand<T>> <rs:@R>
         => Node::BinaryOp(Loc(ls, rs), [Loc(l1, r1), Loc(l2, r2)], Str("^"), Box::new(e1), Box::new(e2)),
     T,
 }
 
+PowOperand<T>: Node = {
+    <ls:@L> "-"   <l1:@R> <r1:@L> <e:PowOperandNoMinus<T>> <rs:@R>
+        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("-"), Box::new(e)),
+    PowOperandNoMinus<T>,
+}
+
+PowOperandNoMinus<T>: Node = {
+    <ls:@L> "not" <l1:@R> <r1:@L> <e:PowOperand<T>> <rs:@R>
+        => Node::UnaryNot(Loc(ls, rs), [Loc(l1, r1)], Box::new(e)),
+    <ls:@L> "#"   <l1:@R> <r1:@L> <e:PowOperand<T>> <rs:@R>
+        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("#"), Box::new(e)),
+    <ls:@L> "~"   <l1:@R> <r1:@L> <e:PowOperand<T>> <rs:@R>
+        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("~"), Box::new(e)),
+    T,
+}
+
 Name: Node = {
     <ls:@L> <s:LexVariable> <rs:@R> => Node::Name(Loc(ls, rs), s),
 }
-- 
2.43.0


From ea68f2e695f4328b5a776176d480ca244f5cd016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 21/37] fix: a huge maximum width does not overflow

---
 src/parser/lua_ast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 41ffa74..fc49f63 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -350,7 +350,7 @@ impl Node {
             if cfg.fmt.max_width.is_some()
                 && cfg.fmt.newline_format_table_constructor.is_some()
                 && cfg.fmt.force_single_line_table == Some(true)
-                && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0)
+                && span.1 - span.0 < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2)
             {
                 // disable IfNewLine within table constructor
                 // one-line tables are forced to have no trailing separator
@@ -373,7 +373,7 @@ impl Node {
             FieldNamedBracket(span, _, _, _) | FieldNamed(span, _, _, _) | FieldSequential(span, _)
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.newline_format_table_field.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0) =>
+                    && span.1 - span.0 < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2) =>
             {
                 return test_oneline_no_nl!(f, cfg, buf, state, self);
             }
@@ -399,7 +399,7 @@ impl Node {
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.force_single_line_if == Some(true)
                     && cfg.fmt.newline_format_if.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0) =>
+                    && span.1 - span.0 < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2) =>
             {
                 // disable IfNewLine within table constructor
                 let mut test_cfg = cfg.clone();
@@ -417,7 +417,7 @@ impl Node {
             FuncBody(span, _) | FuncPBody(span, _, _) | FuncBodyB(span, _, _) | FuncPBodyB(span, _, _, _)
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.newline_format_function.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0)
+                    && span.1 - span.0 < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2)
                     && ((state.function_nested_level == 0
                         && cfg.fmt.force_single_line_top_level_function == Some(true))
                         || (state.function_nested_level > 0
-- 
2.43.0


From 203a1a3199fd4f7eb71eacd612bb50fc2889e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:32 +0000
Subject: [PATCH 22/37] fix: do not split a multi-byte character before a
 comment

---
 src/formatting/loc_hint.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 322e06f..e355a54 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -92,10 +92,14 @@ impl ConfiguredWrite for CommentLocHint<'_, '_> {
         match parse_comment(&comment_buffer) {
             Ok(node_tree) => {
                 let mut formatted_comment_block = String::new();
-                formatted_comment_block.push(f.chars().last().unwrap_or(' '));
+                let last_char = f.chars().last().unwrap_or(' ');
+                formatted_comment_block.push(last_char);
 
                 match node_tree.configured_write(&mut formatted_comment_block, cfg, &comment_buffer, state) {
-                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, state, &formatted_comment_block[1..]),
+                    Ok(_) => {
+                        let comment_block = &formatted_comment_block[last_char.len_utf8()..];
+                        self.write_formatted_comment_block(f, cfg, buf, state, comment_block)
+                    }
                     Err(err) => Err(err),
                 }
             }
-- 
2.43.0


From 9ecec823e359b0a9fe5c6de81baeb73ed7420a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 23/37] fix: blanks between comments of a block are formatted
 by the position in the file

---
 src/formatting/list.rs     | 6 ++++--
 src/formatting/loc_hint.rs | 9 +++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/formatting/list.rs b/src/formatting/list.rs
index ccad8a5..d404b26 100644
--- a/src/formatting/list.rs
+++ b/src/formatting/list.rs
@@ -109,8 +109,10 @@ where
             for i in 1..items.len() {
                 let item = &items[i];
 
-                if util::test_out_of_range(&state.pos_range, &item.0) {
-                    cfg_write!(f, cfg, buf, state, item.0)?;
+                // the positions in a comment block are relative to its beginning
+                let loc_hint = Hint::new(&item.0, "");
+                if loc_hint.is_out_of_range(state) {
+                    cfg_write!(f, cfg, buf, state, loc_hint)?;
                 } else {
                     let prev_item_tp = &items[i - 1];
                     let hint = item.1.list_item_prefix_hint(cfg);
diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index e355a54..4832d67 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -13,6 +13,7 @@ pub struct SpaceLocHint<'a, 'b>(pub &'a Loc, pub &'b str);
 pub trait LocHintConstructible<'a, 'b> {
     fn new(loc: &'a Loc, s: &'b str) -> Self;
     fn get_loc(&self) -> &'a Loc;
+    fn is_out_of_range(&self, state: &State) -> bool;
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
@@ -23,6 +24,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
     fn get_loc(&self) -> &'a Loc {
         self.0
     }
+
+    fn is_out_of_range(&self, state: &State) -> bool {
+        util::test_out_of_range(&state.pos_range, self.0)
+    }
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
@@ -33,6 +38,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
     fn get_loc(&self) -> &'a Loc {
         self.0
     }
+
+    fn is_out_of_range(&self, state: &State) -> bool {
+        util::test_out_of_range(&state.comment_pos_range, self.0)
+    }
 }
 
 impl CommentLocHint<'_, '_> {
-- 
2.43.0


From 477ec53af067ca7618c99c9b8b98cf0a334d853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 24/37] fix: format the gap before a selected return statement
 like any other

---
 src/parser/lua_ast.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index fc49f63..ebe62f4 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -1210,9 +1210,10 @@ impl ConfiguredWrite for Node {
                 )
             }
             StatsRetStat(span, locs, n1, n2) => {
-                out_of_range_write!(f, cfg, buf, state, span, n1, locs[0], n2);
+                out_of_range_only_write!(f, cfg, buf, state, span);
 
-                let nl = cfg.fmt.newline_format_statement.is_some();
+                let nl = cfg.fmt.newline_format_statement.is_some()
+                    && !util::test_out_of_range(&state.pos_range, &locs[0]);
                 cfg_write!(f, cfg, buf, state, n1, IfNewLine(nl, Hint(&locs[0], " ")), n2)
             }
             Chunk(locl, n, locr) => {
-- 
2.43.0


From c099699f87c700eed6ed843947a00e996c0b0b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:51 +0000
Subject: [PATCH 25/37] fix: leave the text next to the selected lines alone,
 comments included

---
 src/formatting/list.rs     |  6 ++++--
 src/formatting/loc_hint.rs | 33 ++++++++++++++++++++++++++++++---
 src/parser/lua_ast.rs      |  3 ++-
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/formatting/list.rs b/src/formatting/list.rs
index d404b26..67ca8fe 100644
--- a/src/formatting/list.rs
+++ b/src/formatting/list.rs
@@ -99,8 +99,9 @@ where
             let first = &items[0];
 
             // first comment block is always empty
-            let need_newline =
-                list_node.need_newlines(cfg) && first.1.need_first_newline(list_node, f, cfg, buf, state);
+            let need_newline = list_node.need_newlines(cfg)
+                && !Hint::new(&first.0, "").begins_out_of_range(state)
+                && first.1.need_first_newline(list_node, f, cfg, buf, state);
             indent = indent || need_newline;
 
             #[cfg_attr(rustfmt, rustfmt_skip)]
@@ -117,6 +118,7 @@ where
                     let prev_item_tp = &items[i - 1];
                     let hint = item.1.list_item_prefix_hint(cfg);
                     let need_newline = list_node.need_newlines(cfg)
+                        && !loc_hint.ends_out_of_range(state)
                         && item.1.need_newline(&prev_item_tp.1, list_node, f, cfg, buf, state);
                     indent = indent || need_newline;
 
diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 4832d67..783260a 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -14,6 +14,8 @@ pub trait LocHintConstructible<'a, 'b> {
     fn new(loc: &'a Loc, s: &'b str) -> Self;
     fn get_loc(&self) -> &'a Loc;
     fn is_out_of_range(&self, state: &State) -> bool;
+    fn begins_out_of_range(&self, state: &State) -> bool;
+    fn ends_out_of_range(&self, state: &State) -> bool;
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
@@ -28,6 +30,14 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
     fn is_out_of_range(&self, state: &State) -> bool {
         util::test_out_of_range(&state.pos_range, self.0)
     }
+
+    fn begins_out_of_range(&self, state: &State) -> bool {
+        state.pos_range.map_or(false, |(l, _)| (self.0).0 < l)
+    }
+
+    fn ends_out_of_range(&self, state: &State) -> bool {
+        state.pos_range.map_or(false, |(_, r)| (self.0).1 > r)
+    }
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
@@ -42,6 +52,14 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
     fn is_out_of_range(&self, state: &State) -> bool {
         util::test_out_of_range(&state.comment_pos_range, self.0)
     }
+
+    fn begins_out_of_range(&self, state: &State) -> bool {
+        state.comment_pos_range.map_or(false, |(l, _)| (self.0).0 < l)
+    }
+
+    fn ends_out_of_range(&self, state: &State) -> bool {
+        state.comment_pos_range.map_or(false, |(_, r)| (self.0).1 > r)
+    }
 }
 
 impl CommentLocHint<'_, '_> {
@@ -68,7 +86,8 @@ impl CommentLocHint<'_, '_> {
         }
 
         // hint before comment block, starting with '-'
-        if cfg.fmt.hint_before_comment.is_some() && comment_block.chars().next() == Some('-') {
+        let hint_before = !self.begins_out_of_range(state);
+        if hint_before && cfg.fmt.hint_before_comment.is_some() && comment_block.chars().next() == Some('-') {
             write!(f, "{}", cfg.fmt.hint_before_comment.as_ref().unwrap())?;
         }
 
@@ -79,7 +98,8 @@ impl CommentLocHint<'_, '_> {
         write!(f, "{}", comment_block)?;
 
         // hint after comment block, ending with ']'
-        if cfg.fmt.hint_after_multiline_comment.is_some() && comment_block.chars().last() == Some(']') {
+        let hint_after = !self.ends_out_of_range(state);
+        if hint_after && cfg.fmt.hint_after_multiline_comment.is_some() && comment_block.chars().last() == Some(']') {
             write!(f, "{}", cfg.fmt.hint_after_multiline_comment.as_ref().unwrap())?;
         }
 
@@ -94,7 +114,14 @@ impl ConfiguredWrite for CommentLocHint<'_, '_> {
         let comment_buffer = self.0.substr(buf, state, 0);
         state.comment_offset = self.0.0;
         state.comment_pos_range = match state.pos_range.as_ref() {
-            Some(&(l, r)) => Some((l - min(l, self.0.0), r - min(r, self.0.0))),
+            Some(&(l, r)) => {
+                // the line break right before the first selected line belongs to the previous line
+                let l = match l > 0 && Loc(l, l + 1).substr(buf, state, 0) == "\n" {
+                    true => l + 1,
+                    false => l,
+                };
+                Some((l - min(l, self.0.0), r - min(r, self.0.0)))
+            }
             None => None,
         };
 
diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index ebe62f4..648ba1c 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -1213,7 +1213,8 @@ impl ConfiguredWrite for Node {
                 out_of_range_only_write!(f, cfg, buf, state, span);
 
                 let nl = cfg.fmt.newline_format_statement.is_some()
-                    && !util::test_out_of_range(&state.pos_range, &locs[0]);
+                    && !Hint(&locs[0], "").is_out_of_range(state)
+                    && !Hint(&locs[0], "").ends_out_of_range(state);
                 cfg_write!(f, cfg, buf, state, n1, IfNewLine(nl, Hint(&locs[0], " ")), n2)
             }
             Chunk(locl, n, locr) => {
-- 
2.43.0


From bdbe7c74a868b17dc4d1a55727d5c0fc4a6d27cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 26/37] fix: accept paths that are not valid UTF-8

---
 src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index fbde933..bf68cf9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,6 @@
 use regex::Regex;
 use std::env;
+use std::ffi::OsString;
 use std::io::{self, Read};
 use std::path::{Path, PathBuf};
 
@@ -7,12 +8,14 @@ use luafmt::config::Config;
 use luafmt::file_util;
 use luafmt::formatter;
 
-fn get_options_and_filenames() -> (Vec<String>, Vec<String>) {
-    let args: Vec<String> = env::args().skip(1).collect();
-    let (options, mut sources): (Vec<_>, Vec<_>) = args.into_iter().partition(|arg| arg.starts_with('-'));
+fn get_options_and_filenames() -> (Vec<String>, Vec<OsString>) {
+    // a path does not have to be valid UTF-8
+    let args: Vec<OsString> = env::args_os().skip(1).collect();
+    let (options, mut sources): (Vec<_>, Vec<_>) =
+        args.into_iter().partition(|arg| arg.to_string_lossy().starts_with('-'));
     sources.sort();
 
-    (options, sources)
+    (options.iter().map(|option| option.to_string_lossy().into_owned()).collect(), sources)
 }
 
 #[derive(Debug, PartialEq)]
@@ -97,7 +100,7 @@ fn main() {
                         process_file_path(file_path, &config, &program_opts);
                     }
                 }
-                Err(_) => eprintln!("Unresolved path: `{}`", rel_path),
+                Err(_) => eprintln!("Unresolved path: `{}`", path_buf.display()),
             }
         }
     }
-- 
2.43.0


From c92a1e1471e1bb907fc1cd0cd888ec5065024260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 27/37] fix: select files whose name is not valid UTF-8

---
 src/file_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index b0c1af8..f171cb9 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -27,7 +27,7 @@ fn get_path_files_below(
                 paths.append(&mut get_path_files_below(&inner_path, true, ext, filter_prefix, parents)?);
             } else if inner_path.is_file()
                 && inner_path.extension().and_then(OsStr::to_str) == Some(ext)
-                && inner_path.file_name().and_then(OsStr::to_str).and_then(|s| Some(!s.starts_with(filter_prefix)))
+                && inner_path.file_name().and_then(|s| Some(!s.to_string_lossy().starts_with(filter_prefix)))
                     == Some(true)
             {
                 paths.push(inner_path);
@@ -79,7 +79,7 @@ pub fn test_file_in_dir(path: &Path, file_prefix: &str, file_ext: &str) -> io::R
         for entry in fs::read_dir(path)? {
             let inner_path = entry?.path();
             if inner_path.is_file()
-                && inner_path.file_name().and_then(OsStr::to_str).and_then(|s| Some(s.starts_with(file_prefix)))
+                && inner_path.file_name().and_then(|s| Some(s.to_string_lossy().starts_with(file_prefix)))
                     == Some(true)
                 && inner_path.extension().and_then(OsStr::to_str) == Some(file_ext)
             {
-- 
2.43.0


From de0c2fdc456f27fcfd9c3012799639eef2d53f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 28/37] fix: a directory that cannot be read does not affect
 the others

---
 src/file_util.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index f171cb9..a728577 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -24,7 +24,13 @@ fn get_path_files_below(
             let inner_path = entry?.path();
 
             if inner_path.is_dir() && recursive {
-                paths.append(&mut get_path_files_below(&inner_path, true, ext, filter_prefix, parents)?);
+                // a directory that cannot be read does not affect the others
+                let depth = parents.len();
+                match get_path_files_below(&inner_path, true, ext, filter_prefix, parents) {
+                    Ok(mut inner_paths) => paths.append(&mut inner_paths),
+                    Err(_) => eprintln!("Unresolved path: `{}`", inner_path.display()),
+                }
+                parents.truncate(depth);
             } else if inner_path.is_file()
                 && inner_path.extension().and_then(OsStr::to_str) == Some(ext)
                 && inner_path.file_name().and_then(|s| Some(!s.to_string_lossy().starts_with(filter_prefix)))
-- 
2.43.0


From d2258d4b088bdeedb98d1788946001278ff201bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 29/37] fix: report config file options whose value is not a
 literal

---
 src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.rs b/src/config.rs
index a55adc1..a0c4a0b 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -287,6 +287,7 @@ impl Config {
 
                         (Name(_, str_name), True(..)) => self.set(str_name, "true"),
                         (Name(_, str_name), False(..)) => self.set(str_name, "false"),
+                        (Name(_, str_name), _) => eprintln!("Invalid `{}` option value: not a literal", str_name),
                         _ => {}
                     },
                     _ => {}
-- 
2.43.0


From f4c304e7dd1380a4502c9097d92c53c577e0ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 30/37] fix: do not ignore the options of a config file that
 ends with a return statement

---
 src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.rs b/src/config.rs
index a0c4a0b..c04e849 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -299,6 +299,7 @@ impl Config {
                     self.load_options_from_config(node);
                 }
             }
+            StatsRetStat(_, _, stts, _) => self.load_options_from_config(stts),
             _ => {}
         }
     }
-- 
2.43.0


From bf143d1dd83b8efbabf8d96bd5d7d507d848e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 31/37] fix: write no hint before a comment that begins the
 file or a line

With an indentation set, a comment at the beginning of the file, or after
another comment that ends its line, was written behind a blank.
---
 src/formatting/list.rs     | 6 +++++-
 src/formatting/loc_hint.rs | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/formatting/list.rs b/src/formatting/list.rs
index 67ca8fe..8f96121 100644
--- a/src/formatting/list.rs
+++ b/src/formatting/list.rs
@@ -116,7 +116,11 @@ where
                     cfg_write!(f, cfg, buf, state, loc_hint)?;
                 } else {
                     let prev_item_tp = &items[i - 1];
-                    let hint = item.1.list_item_prefix_hint(cfg);
+                    // only the indentation is written before an item, that begins the line
+                    let hint = match cfg.fmt.indentation_string.is_some() && f.ends_with('\n') {
+                        true => "",
+                        false => item.1.list_item_prefix_hint(cfg),
+                    };
                     let need_newline = list_node.need_newlines(cfg)
                         && !loc_hint.ends_out_of_range(state)
                         && item.1.need_newline(&prev_item_tp.1, list_node, f, cfg, buf, state);
diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 783260a..c53d13e 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -85,8 +85,12 @@ impl CommentLocHint<'_, '_> {
             return Ok(());
         }
 
-        // hint before comment block, starting with '-'
-        let hint_before = !self.begins_out_of_range(state);
+        // hint before comment block, starting with '-'. Only the indentation is written before
+        // a block, that begins the file or the line
+        let from = (self.0).0;
+        let begins_line = from == 0 || Loc(from - 1, from).substr(buf, state, 0) == "\n";
+        let hint_before =
+            !(cfg.fmt.indentation_string.is_some() && begins_line) && !self.begins_out_of_range(state);
         if hint_before && cfg.fmt.hint_before_comment.is_some() && comment_block.chars().next() == Some('-') {
             write!(f, "{}", cfg.fmt.hint_before_comment.as_ref().unwrap())?;
         }
-- 
2.43.0


From a8c76a960f8368ebbc0a29709f015bb680dfe5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 32/37] fix: write no blank before a semicolon that is followed
 by a parenthesis

In `a = b;(c)()` the semicolon is the first item of a nested statement list,
and got the blank of a statement.
---
 src/parser/lua_ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 648ba1c..b81dad5 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -133,9 +133,10 @@ pub enum Node {
 }
 
 impl<'a> list::AnyListItem<'a, Node> for Node {
-    fn list_item_prefix_hint(&self, _: &'a Config) -> &'a str {
+    fn list_item_prefix_hint(&self, cfg: &'a Config) -> &'a str {
         use Node::*;
         match self {
+            StatementList(_, items) if !items.is_empty() => items[0].1.list_item_prefix_hint(cfg),
             Semicolon(..)
             | ArgsRoundBrackets(..)
             | ArgsRoundBracketsEmpty(..)
-- 
2.43.0


From 750eab784ff8c9649a1247771a2637ef0f72d063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 33/37] fix: indent the suffixes of a parenthesised expression
 after a comment

The trial that decides the indentation looked at the gap after the opening
parenthesis instead of the one before the suffixes.
---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index b81dad5..e895c08 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -712,7 +712,7 @@ impl ConfiguredWrite for Node {
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, "(", Hint(&locs[0], ""), n1, Hint(&locs[1], ""), ")")?;
 
-                let ind = n2.test_indent(f, cfg, buf, state, Hint(&locs[0], "")) == Ok(true);
+                let ind = n2.test_indent(f, cfg, buf, state, Hint(&locs[2], "")) == Ok(true);
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, If(ind, &IncIndent(None)), Hint(&locs[2], ""), n2, If(ind, &DecIndent()))
-- 
2.43.0


From 6860e6bfd3e44b97014d3de19acd35de294b2759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 34/37] fix: write no blank before a string argument that
 follows a suffix

`x''` and `x.y{}` were written without a blank, `x.y''` as `x.y ''`.
---
 src/parser/lua_ast.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index e895c08..023a0e8 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -144,7 +144,10 @@ impl<'a> list::AnyListItem<'a, Node> for Node {
             | TableMember(..)
             | FnMethodCall(..)
             | TableConstructor(..)
-            | TableConstructorEmpty(..) => "",
+            | TableConstructorEmpty(..)
+            | NormalStringLiteral(..)
+            | CharStringLiteral(..)
+            | MultiLineStringLiteral(..) => "",
             _ => " ",
         }
     }
-- 
2.43.0


From 8b65277b9245a4a38ec946c8de784d170688ea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 35/37] fix: remove all the blanks before a line break

A table on a line of its own (write_newline_at_multiline_table) left a line of blanks behind when the indentation
had more than one character.
---
 src/formatting/decoration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatting/decoration.rs b/src/formatting/decoration.rs
index 764da8a..b02f273 100644
--- a/src/formatting/decoration.rs
+++ b/src/formatting/decoration.rs
@@ -29,7 +29,7 @@ where
                     // if there was trailing spaces in the line, we need remove them.
                     // But if at this point we are in the CommentLocHint, we have a pseudo-string, and we cannot
                     // remove the first letter.
-                    if f.len() > 1 && (f.chars().last() == Some(' ') || f.chars().last() == Some('\t')) {
+                    while f.len() > 1 && (f.chars().last() == Some(' ') || f.chars().last() == Some('\t')) {
                         f.pop();
                     }
 
-- 
2.43.0


From def8f5471ba74b8718ab49263368f47b2a357db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 36/37] fix: break the line at every table of several lines

A table that would have fitted on a line elsewhere (in a trial) was taken for one that stands on one line.
---
 src/parser/lua_ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 023a0e8..16be86c 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -584,7 +584,8 @@ impl ConfiguredWrite for Node {
                             #[cfg_attr(rustfmt, rustfmt_skip)]
                             return cfg_write!(f, cfg, buf, state, Str(&line));
                         }
-                        _ => {}
+                        // it could have been written in one line elsewhere
+                        _ => opts.is_oneline.set(false),
                     }
                 }
 
-- 
2.43.0


From 3dca63382c18cbb2b9d24e9ab4c36e3d30f36707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 37/37] fix: lay out a table without regard to earlier trials

Whether the fields of a nested table are indented depended on what a trial elsewhere had found.
---
 src/parser/lua_ast.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 16be86c..9c17d71 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -598,6 +598,11 @@ impl ConfiguredWrite for Node {
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, IfNewLine(bnl, Hint(&Loc(0, 0), "")), "{{", IncFuncLevel())?;
 
+                // nothing is left of what was found when the table was written elsewhere
+                if let Fields(_, _, fopts) = &**n {
+                    fopts.has_indent.set(false);
+                }
+
                 let ind = match cfg.fmt.force_single_line_table == Some(true)
                     && opts.is_iv_table == Some(true)
                     && opts.is_single_child == Some(true)
-- 
2.43.0

