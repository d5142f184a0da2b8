From e8ba0ef877426a8b35fbadd8e920ca89bfa716e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 01/16] fix: keep the suffixes of a parenthesised expression at
 the edge of line_range

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 3577d98..699a628 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -695,7 +695,7 @@ impl ConfiguredWrite for Node {
             }
 
             VarRoundSuffix(span, locs, n1, n2) => {
-                out_of_range_write!(f, cfg, buf, state, span, "(", locs[0], n1, locs[1], ")");
+                out_of_range_write!(f, cfg, buf, state, span, "(", locs[0], n1, locs[1], ")", locs[2], n2);
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, "(", Hint(&locs[0], ""), n1, Hint(&locs[1], ""), ")")?;
-- 
2.43.0


From 7de259200f55b17df0bdcc4dd3d20f1b6db7a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 02/16] fix: do not panic when a force_single_line option is
 used without max_width

---
 src/formatting/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 835162a..3187766 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -48,9 +48,9 @@ macro_rules! test_oneline {
                 let left_len = util::get_len_after_newline($wrt, $cfg);
                 let right_len = util::get_len_till_newline(&buffer, $cfg);
 
-                match left_len + right_len < $cfg.fmt.max_width.unwrap() {
-                    true => Some(buffer),
-                    false => None,
+                match $cfg.fmt.max_width {
+                    Some(max_width) if left_len + right_len < max_width => Some(buffer),
+                    _ => None,
                 }
             }
             true => None
-- 
2.43.0


From 89bd0ffd5561e80e8b9937cb0612777c950dbe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 03/16] fix: do not panic when a comment block follows a
 non-ASCII character

---
 src/formatting/loc_hint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 6ff98b8..3ade02d 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -77,9 +77,10 @@ impl ConfiguredWrite for CommentLocHint<'_, '_> {
             Ok(node_tree) => {
                 let mut formatted_comment_block = String::new();
                 formatted_comment_block.push(f.chars().last().unwrap_or(' '));
+                let prefix_len = formatted_comment_block.len();
 
                 match node_tree.configured_write(&mut formatted_comment_block, cfg, &comment_buffer, state) {
-                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, &formatted_comment_block[1..]),
+                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, &formatted_comment_block[prefix_len..]),
                     Err(err) => Err(err),
                 }
             }
-- 
2.43.0


From 3dcbc6824333879ba329045c48a5118db06c65f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 04/16] fix: keep the text of an unfinished long bracket
 comment at the end of the file

---
 src/parser/lexer_util.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index d0db6e5..4f12e87 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -210,7 +210,12 @@ pub fn get_comment_start_ends_and_type(chars: &mut TChars, start: usize) -> (usi
 
                             return (text_start, text_end, token_end, None, succ, result);
                         }
-                        None => return (text_start, text_start + level + 1, text_start + level + 1, None, true, String::new()),
+                        None => {
+                            let mut result = String::from("[");
+                            result.push_str(&(0..level).map(|_| "=").collect::<String>());
+
+                            return (text_start, text_start + level + 1, text_start + level + 1, None, true, result);
+                        }
                     }
                 }
                 Some(&(square_2_index, '[')) => {
@@ -225,7 +230,7 @@ pub fn get_comment_start_ends_and_type(chars: &mut TChars, start: usize) -> (usi
                     result.insert(0, '[');
                     return (text_start, text_end, token_end, None, succ, result);
                 }
-                None => return (text_start, text_start + 1, text_start + 1, None, true, String::new()),
+                None => return (text_start, text_start + 1, text_start + 1, None, true, String::from("[")),
             }
         }
         _ => {
-- 
2.43.0


From a18601de1ff9acc1685ad607655cb2fb5720a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 05/16] fix: use the range of the comment block for the gaps
 inside it

---
 src/formatting/list.rs     | 5 +++--
 src/formatting/loc_hint.rs | 9 +++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/formatting/list.rs b/src/formatting/list.rs
index ccad8a5..01d79b5 100644
--- a/src/formatting/list.rs
+++ b/src/formatting/list.rs
@@ -109,8 +109,9 @@ where
             for i in 1..items.len() {
                 let item = &items[i];
 
-                if util::test_out_of_range(&state.pos_range, &item.0) {
-                    cfg_write!(f, cfg, buf, state, item.0)?;
+                // locations within a comment block are relative to it, so only the hint knows its range
+                if Hint::new(&item.0, "").is_out_of_range(state) {
+                    cfg_write!(f, cfg, buf, state, Hint::new(&item.0, ""))?;
                 } else {
                     let prev_item_tp = &items[i - 1];
                     let hint = item.1.list_item_prefix_hint(cfg);
diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 3ade02d..2fc8740 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -13,6 +13,7 @@ pub struct SpaceLocHint<'a, 'b>(pub &'a Loc, pub &'b str);
 pub trait LocHintConstructible<'a, 'b> {
     fn new(loc: &'a Loc, s: &'b str) -> Self;
     fn get_loc(&self) -> &'a Loc;
+    fn is_out_of_range(&self, state: &State) -> bool;
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
@@ -23,6 +24,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
     fn get_loc(&self) -> &'a Loc {
         self.0
     }
+
+    fn is_out_of_range(&self, state: &State) -> bool {
+        util::test_out_of_range(&state.pos_range, self.0)
+    }
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
@@ -33,6 +38,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
     fn get_loc(&self) -> &'a Loc {
         self.0
     }
+
+    fn is_out_of_range(&self, state: &State) -> bool {
+        util::test_out_of_range(&state.comment_pos_range, self.0)
+    }
 }
 
 impl CommentLocHint<'_, '_> {
-- 
2.43.0


From c7eccde34998f64c36e263c79442bfcfb1472ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 06/16] fix: keep '-' and the comment after it apart when
 spaces are removed

---
 src/formatting/loc_hint.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 2fc8740..dfec2f3 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -60,6 +60,11 @@ impl CommentLocHint<'_, '_> {
             write!(f, "{}", cfg.fmt.hint_before_comment.as_ref().unwrap())?;
         }
 
+        // `-` followed by a comment would be read as another comment
+        if comment_block.starts_with('-') && f.ends_with('-') {
+            write!(f, " ")?;
+        }
+
         write!(f, "{}", comment_block)?;
 
         // hint after comment block, ending with ']'
-- 
2.43.0


From ba422b939280cd0e011d51874d89e3f9a1266866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 07/16] fix: keep '[' and the multiline string literal after it
 apart when spaces are removed

---
 src/parser/lua_ast.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 699a628..f2e3af5 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -360,6 +360,15 @@ impl Node {
         None
     }
 
+    // `[` followed by a multiline string literal would be read as an opening long bracket
+    fn bracket_hint(&self) -> &'static str {
+        match self {
+            Node::MultiLineStringLiteral(..) => " ",
+            Node::BinaryOp(_, _, _, l, _) => l.bracket_hint(),
+            _ => "",
+        }
+    }
+
     fn test_oneline_table_field(&self, f: &mut String, cfg: &Config, buf: &str, state: &mut State) -> Option<String> {
         use Node::*;
         match self {
@@ -630,7 +639,7 @@ impl ConfiguredWrite for Node {
                 out_of_range_write!(f, cfg, buf, state, span, "[", locs[0], e1, locs[1], "]", locs[2], "=", locs[3], e2);
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
-                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], ""), e1, Hint(&locs[1], ""), "]", Hint(&locs[2], " "),
+                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], e1.bracket_hint()), e1, Hint(&locs[1], ""), "]", Hint(&locs[2], " "),
                            "=", Hint(&locs[3], " "), e2)
             }
             FieldNamed(span, locs, e1, e2) => {
@@ -644,7 +653,7 @@ impl ConfiguredWrite for Node {
 
             TableIndex(span, locs, e) => {
                 out_of_range_write!(f, cfg, buf, state, span, "[", locs[0], e, locs[1], "]");
-                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], ""), e, Hint(&locs[1], ""), "]")
+                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], e.bracket_hint()), e, Hint(&locs[1], ""), "]")
             }
             TableMember(span, locs, n) => {
                 out_of_range_write!(f, cfg, buf, state, span, ".", locs[0], n);
-- 
2.43.0


From 61273413f2a195c1b356b91d441be5a37b83f844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 08/16] fix: keep '-' and the comment after it apart when a
 newline is written after the comment

---
 src/formatting/decoration.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/formatting/decoration.rs b/src/formatting/decoration.rs
index 764da8a..06ad44e 100644
--- a/src/formatting/decoration.rs
+++ b/src/formatting/decoration.rs
@@ -20,6 +20,11 @@ where
             Ok(..) => {
                 let trimmed = trim_end_spaces_and_tabs(&comment_block);
                 if !trimmed.is_empty() {
+                    // `-` followed by a comment would be read as another comment
+                    if trimmed.starts_with('-') && f.ends_with('-') {
+                        write!(f, " ")?;
+                    }
+
                     write!(f, "{}", &trimmed)?;
 
                     if trimmed.chars().last() != Some('\n') {
-- 
2.43.0


From 02a463df8f253460fc5f8e149fa79c6eb65c2e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 09/16] fix: a backslash does not escape the closing bracket of
 a long string or comment

---
 src/parser/lexer_util.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 4f12e87..dafa7bb 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -147,13 +147,12 @@ pub fn get_multiline_string_level(chars: &mut TChars, start: usize) -> usize {
 pub fn get_multiline_string_ends(chars: &mut TChars, level: usize, start: usize) -> (usize, usize, bool, String) {
     // we already got "[==[" symbols
     let mut end = start;
-    let mut escaped = false;
     let mut result = String::new();
 
     loop {
         match chars.next() {
             Some((text_end, ch)) => {
-                if !escaped && ch == ']' {
+                if ch == ']' {
                     let cur_level = get_multiline_string_level(chars, text_end + 1);
 
                     if level == cur_level {
@@ -174,7 +173,6 @@ pub fn get_multiline_string_ends(chars: &mut TChars, level: usize, start: usize)
                 }
 
                 end = text_end;
-                escaped = ch == '\\';
             }
             None => return (end + 1, end + 1, false, result),
         }
-- 
2.43.0


From b27d8451d1a0f8fc37f184c0df596a04f9d64e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 10/16] fix: keep the '+' of an exponent within the number

---
 src/parser/lexer_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index dafa7bb..eac57d7 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -74,9 +74,9 @@ pub fn get_float_end(chars: &mut TChars, start: usize) -> (usize, bool, String)
 
             let mut cur_ind = i;
             match chars.peek() {
-                Some(&(si, '-')) => {
+                Some(&(si, sign @ '-')) | Some(&(si, sign @ '+')) => {
                     chars.next();
-                    result.push('-');
+                    result.push(sign);
                     cur_ind = si;
                 }
                 Some(&(_, _)) => {}
-- 
2.43.0


From 7fd6014c0b31848ff70812f9b695ae21a070f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 11/16] fix: report an unreadable config file as an error
 instead of aborting the run

---
 src/config.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index bea1310..c4bb080 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -303,8 +303,12 @@ impl Config {
     }
 
     pub fn reload_format_from_file(&self, file_path: &PathBuf) -> Result<Self, String> {
-        let content = fs::read_to_string(file_path)
-            .expect(&format!("An error occured while reading config file `{}`", file_path.display()));
+        let content = match fs::read_to_string(file_path) {
+            Ok(content) => content,
+            Err(err) => {
+                return Err(format!("An error occured while reading config file `{}`: {}", file_path.display(), err))
+            }
+        };
 
         let mut cfg = self.clone();
 
-- 
2.43.0


From 4755bc55ccac618d2328937ed77b95012c1f2ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 12/16] fix: read the options of a config file that ends with a
 return statement

---
 src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.rs b/src/config.rs
index c4bb080..09a2f71 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -298,6 +298,7 @@ impl Config {
                     self.load_options_from_config(node);
                 }
             }
+            StatsRetStat(_, _, stts, _) => self.load_options_from_config(stts),
             _ => {}
         }
     }
-- 
2.43.0


From 5dc4952a3f4d37fbc6642d8b5d8f435dc09e2649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 13/16] verification hook: reach the lexers and parsers under
 --cfg luafmt_verif

---
 src/lib.rs        | 6 ++++++
 src/parser/mod.rs | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index bf2bdd3..bb67f0f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub mod config;
 pub mod file_util;
 pub mod formatter;
@@ -6,3 +8,7 @@ mod formatting;
 mod parser;
 
 pub static CFG_PREFIX: &str = ".luafmt";
+
+/// compiled only with `--cfg luafmt_verif`
+#[cfg(luafmt_verif)]
+pub use parser::verif;
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 5096bde..f4e81d8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -31,3 +31,11 @@ pub fn parse_comment(src: &str) -> Result<comment_ast::Node, CommentParserError>
     let lexer = comment_lexer::Lexer::new(src);
     comment_syntax::ChunkParser::new().parse(src, lexer)
 }
+
+/// access to the lexers for external checks; compiled only with `--cfg luafmt_verif`
+#[cfg(luafmt_verif)]
+pub mod verif {
+    pub use super::comment_lexer::{Lexer as CommentLexer, Token as CommentToken};
+    pub use super::lua_lexer::{Lexer, LexicalError, Token};
+    pub use super::{lua_ast, parse_comment, parse_lua};
+}
-- 
2.43.0


From 9745d26368b6b7ec81af9acd5575375ad4b24418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 14/16] fix: report a number without digits after its exponent
 or 0x as an error

---
 src/parser/lexer_util.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index eac57d7..f5a4011 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -40,25 +40,25 @@ pub fn get_shebang_ends(chars: &mut TChars, start: usize) -> (usize, usize, Stri
 }
 
 pub fn get_integer_end(chars: &mut TChars, start: usize) -> (usize, bool, String) {
-    let (end, succ, result) = seek_end_by_predicate(chars, start, &|ch: char, _| !ch.is_ascii_digit());
+    let (end, _, result) = seek_end_by_predicate(chars, start, &|ch: char, _| !ch.is_ascii_digit());
 
-    if start >= end && !succ {
+    if result.is_empty() {
         return (end, false, result);
     } else {
-        // integer numbers always end correctly
+        // integer numbers with at least one digit always end correctly
         return (end, true, result);
     }
 }
 
 pub fn get_hex_integer_end(chars: &mut TChars, start: usize) -> (usize, bool, String) {
-    let (end, succ, result) = seek_end_by_predicate(chars, start, &|ch: char, _| {
+    let (end, _, result) = seek_end_by_predicate(chars, start, &|ch: char, _| {
         !ch.is_ascii_digit() && !(ch >= 'A' && ch <= 'F') && !(ch >= 'a' && ch <= 'f')
     });
 
-    if start >= end && !succ {
+    if result.is_empty() {
         return (end, false, result);
     } else {
-        // hex integer numbers always end correctly
+        // hex integer numbers with at least one digit always end correctly
         return (end, true, result);
     }
 }
-- 
2.43.0


From 1a1ce04009907a49f6b456eef857a776dde8306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 15/16] verif hook: also export the parser's common types under
 cfg luafmt_verif

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index f4e81d8..cb848d8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -37,5 +37,5 @@ pub fn parse_comment(src: &str) -> Result<comment_ast::Node, CommentParserError>
 pub mod verif {
     pub use super::comment_lexer::{Lexer as CommentLexer, Token as CommentToken};
     pub use super::lua_lexer::{Lexer, LexicalError, Token};
-    pub use super::{lua_ast, parse_comment, parse_lua};
+    pub use super::{common, lua_ast, parse_comment, parse_lua};
 }
-- 
2.43.0


From 185c062540d84721362df81b5e0d92ef65648cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 16/16] verif hook: also export the comment tree under cfg
 luafmt_verif

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index cb848d8..22177d6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -37,5 +37,5 @@ pub fn parse_comment(src: &str) -> Result<comment_ast::Node, CommentParserError>
 pub mod verif {
     pub use super::comment_lexer::{Lexer as CommentLexer, Token as CommentToken};
     pub use super::lua_lexer::{Lexer, LexicalError, Token};
-    pub use super::{common, lua_ast, parse_comment, parse_lua};
+    pub use super::{comment_ast, common, lua_ast, parse_comment, parse_lua};
 }
-- 
2.43.0

