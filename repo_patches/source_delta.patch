From 0d2755c834ba0641271b9167df84d136946605ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:59 +0000
Subject: [PATCH 01/22] fix: keep recovered errors in Result::try_map

a successful map of a recovered result returned Success, dropping the errors
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0fffbf0..921b5ae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -90,7 +90,7 @@ impl<O, E> Result<O, E> {
         match self {
             Result::Success(o) => map(o),
             Result::Recovered(o, mut es) => match map(o) {
-                Result::Success(x) => Result::Success(x),
+                Result::Success(x) => Result::Recovered(x, es),
                 Result::Recovered(x, es2) => {
                     es.extend(es2);
                     Result::Recovered(x, es)
-- 
2.43.0


From 13075924a90ce4514e647c02ac02e1d935296a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:04 +0000
Subject: [PATCH 02/22] fix: keep recovered errors when a repetition ends

repeat() returned Success after earlier items had recovered
---
 src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index dbefab8..7ebf4ab 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -217,7 +217,7 @@ where
                         // fail.
                     } else if output.len() >= minimum {
                         // We've already matched enough, we're done.
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
@@ -261,7 +261,7 @@ where
                                 stream.restore(&state);
                             }
                         }
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
-- 
2.43.0


From 352ee82cf670c38555db996d094a1c32f9c6ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 03/22] fix: restore the stream when TryMap fails on Recovered

with recovery disabled the failed try_map left its tokens consumed
---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index d267a32..d3c2e11 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -290,6 +290,7 @@ where
                     if enable_recovery {
                         parser::Result::Recovered(o, es)
                     } else {
+                        stream.restore(&initial);
                         parser::Result::Failed(stream.index_at(&initial), es)
                     }
                 }
-- 
2.43.0


From 3a130f3799ecd44eba3fdd99374a2f9f4de6f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 04/22] fix: accept a leading separator without items

allow_leading() documents that this is allowed, but without allow_trailing() the separator was given back
---
 src/algorithm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 7ebf4ab..0b17626 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -255,9 +255,10 @@ where
                     if output.len() >= minimum {
                         // We've already matched enough, we're done. We may
                         // however need to restore the state to before the
-                        // separator, which already matched if there was one.
+                        // separator, which already matched if there was one,
+                        // unless it is a leading separator.
                         if let Some(state) = before_separator {
-                            if !allow_trailing {
+                            if !allow_trailing && !output.is_empty() {
                                 stream.restore(&state);
                             }
                         }
-- 
2.43.0


From 14952bff98f5f12f1f18d619d0ebdb2abdb69e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 05/22] fix: do not advance past the EOF sentinel in advance_to

an already buffered EOF was counted as a token
---
 src/stream.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index f423e90..dec21f6 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -344,7 +344,12 @@ where
 
         // Determine how many tokens we can advance by without refilling the
         // buffer, and do that.
-        let already_buffered = usize::min(self.buffer.len() - self.index_in_buffer, amount);
+        // The EOF sentinel is not a token, so we can't advance past it.
+        let mut buffered = self.buffer.len() - self.index_in_buffer;
+        if self.source_at_eof {
+            buffered -= 1;
+        }
+        let already_buffered = usize::min(buffered, amount);
         self.index += already_buffered;
         self.index_in_buffer += already_buffered;
         amount -= already_buffered;
-- 
2.43.0


From 1c6a3ec46dce4a4a4700310d664fda208bb6f088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 06/22] fix: protect the current position in save_at

advancing may drop tokens from the front of the buffer, invalidating the remembered buffer index
---
 src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index dec21f6..e031556 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -105,10 +105,10 @@ where
     /// Saves the location at the given current or future token index. Panics if
     /// the given token index lies before the current one.
     pub fn save_at(&mut self, index: usize) -> SavedState {
-        let restore = (self.index, self.index_in_buffer);
+        let current = self.save();
         self.advance_to(index);
         let state = self.save();
-        (self.index, self.index_in_buffer) = restore;
+        self.restore(&current);
         state
     }
 
-- 
2.43.0


From bc72a5204cf7bc056ae81197f75b1626bbae0ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 07/22] fix: allow looking at a saved state beyond the buffered
 tokens

token_at() and location_tracker_at() panicked for a state saved behind the last buffered token
---
 src/stream.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index e031556..054fa56 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -238,6 +238,13 @@ where
             return self.token();
         }
 
+        // Ensure that the requested token is in the buffer; the state may have
+        // been saved before that token was read.
+        let current = self.save();
+        self.restore(saved_state);
+        self.make_next_available();
+        self.restore(&current);
+
         // Return the requested token from the buffer.
         assert!(*saved_state.index >= self.start_of_buffer());
         self.buffer[*saved_state.index - self.start_of_buffer()]
@@ -272,9 +279,13 @@ where
             return self.location_tracker();
         }
 
-        // Return the requested token from the buffer.
+        // Return the requested location from the buffer, or the location of
+        // the token that will be read next.
         assert!(*saved_state.index >= self.start_of_buffer());
-        &self.buffer[*saved_state.index - self.start_of_buffer()].1
+        self.buffer
+            .get(*saved_state.index - self.start_of_buffer())
+            .map(|(_, x)| x)
+            .unwrap_or(&self.source_location)
     }
 
     /// Returns the current location.
-- 
2.43.0


From ce13f4a0c0872afe22050b720a70805c6f76236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 08/22] fix: do not repeat "at" when rendering delimiter errors

At renders as " at <location>" unless the alternate form is used
---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 6922689..0d38cbd 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -348,14 +348,14 @@ where
             Simple::UnmatchedLeftDelimiter(lt, ls, before) => {
                 write!(f, "unmatched left {lt} ({ls})")?;
                 if before.is_known() {
-                    write!(f, "; must be closed before {before}")?;
+                    write!(f, "; must be closed before {before:#}")?;
                 }
                 Ok(())
             }
             Simple::UnmatchedRightDelimiter(rt, rs, after) => {
                 write!(f, "unmatched right {rt} ({rs})")?;
                 if after.is_known() {
-                    write!(f, "; must be opened after {after}")?;
+                    write!(f, "; must be opened after {after:#}")?;
                 }
                 Ok(())
             }
-- 
2.43.0


From 1551825436e94c6b5828b583921dede3187d4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 09/22] fix: do not seek before the current token in recovery

Result::Failed may simply carry 0 if nothing matched, which made save_at() panic
---
 src/combinator.rs | 3 ++-
 src/recovery.rs   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index d3c2e11..7014229 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -697,7 +697,8 @@ where
                     parser::Result::Failed(last_token_matched, errors)
                 } else {
                     let started_at = stream.save();
-                    let mut failed_at = stream.save_at(last_token_matched);
+                    let mut failed_at =
+                        stream.save_at(usize::max(last_token_matched, stream.index()));
                     let recovery = recovery::Recover::recover(
                         &self.strategy,
                         &self.parser,
diff --git a/src/recovery.rs b/src/recovery.rs
index b83d034..29697de 100644
--- a/src/recovery.rs
+++ b/src/recovery.rs
@@ -957,7 +957,7 @@ where
                     if !self.silent {
                         errors.extend(es);
                     }
-                    *failed_at = stream.save_at(i);
+                    *failed_at = stream.save_at(usize::max(i, stream.index()));
                     None
                 }
             })
@@ -1041,7 +1041,7 @@ where
                     if !self.silent {
                         errors.extend(es);
                     }
-                    *failed_at = stream.save_at(i);
+                    *failed_at = stream.save_at(usize::max(i, stream.index()));
                     None
                 }
             })
-- 
2.43.0


From 3e735d974178a47ea572a71e12e83acc2816607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 10/22] fix: return the incoming token from just()

just() is documented to return the incoming token, but returned the pattern
---
 src/primitive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitive.rs b/src/primitive.rs
index 51cc36c..d0f3180 100644
--- a/src/primitive.rs
+++ b/src/primitive.rs
@@ -172,8 +172,9 @@ where
         let found = stream.token();
         if found == Some(&self.expected) {
             // Matched successfully, skip past it and return success.
+            let matched = found.cloned().unwrap();
             stream.advance();
-            parser::Result::Success(self.expected.clone())
+            parser::Result::Success(matched)
         } else {
             // Construct error message.
             let found = found.cloned();
-- 
2.43.0


From 7b57c0cddc4419c774aef39c26c41c5d52811f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:53 +0000
Subject: [PATCH 11/22] fix: report the most likely failure of alternatives

when it could not be merged, the second most likely failure was returned instead
---
 src/algorithm.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 0b17626..885c459 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -361,7 +361,6 @@ macro_rules! alternate {
             }
             parser::Result::Failed(last_token_matched, vec![e])
         } else {
-            let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
             parser::Result::Failed(last_token_matched, es)
         }
     }};
@@ -436,7 +435,6 @@ where
         }
         parser::Result::Failed(last_token_matched, vec![e])
     } else {
-        let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
         parser::Result::Failed(last_token_matched, es)
     }
 }
-- 
2.43.0


From b12770116340a1220cf78ae549944752fc1dca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 12/22] fix: bootstrap.py: accept grammars without a whitespace
 rule

---
 pangram/bootstrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index fa1f501..3ec7cf7 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -422,6 +422,9 @@ class AstGrammar:
         # Assert that all rules used in the grammar actually exist and are
         # defined as either a grammar rule or a token rule (but not both).
         for used_rule in used_rules:
+            if used_rule == "_":
+                # The whitespace rule is optional.
+                continue
             is_grammar = used_rule in self.grammar_rules
             is_token = used_rule in token_rule_map
             if is_token and is_grammar:
-- 
2.43.0


From 279d03b82ad60bae5605c674c44b53d23287bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 13/22] fix: bootstrap.py: comparing two character sets raised
 AttributeError

---
 pangram/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index 3ec7cf7..cc21be4 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -1220,7 +1220,7 @@ class AstCharacterSet:
         return None
 
     def __eq__(self, other):
-        return type(self) == type(other) and self.s == other.s
+        return type(self) == type(other) and self.inverted == other.inverted and self.ranges == other.ranges
 
     def __hash__(self):
         return hash((type(self), self.inverted, *self.ranges))
-- 
2.43.0


From 0463a98547ce82d85d605ae76f30e4f22da55be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 14/22] fix: bootstrap.py: nodes that match nothing after
 another node raised AttributeError

---
 pangram/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index cc21be4..fb1d632 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -99,7 +99,7 @@ class Node:
         for child in children:
             if span is None:
                 span = child.span
-            else:
+            elif child.span is not None:
                 span = span + child.span
         return cls(name, children, span)
 
-- 
2.43.0


From f832c2047158128e3ed23c4aaad56bea07e6b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 15/22] fix: bootstrap.py: tokenize_and_parse() passed its
 arguments to parse() in the wrong order

---
 pangram/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index fb1d632..11b48d6 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -458,7 +458,7 @@ class AstGrammar:
         return self.grammar_parsers[name].parse(tokens)
 
     def tokenize_and_parse(self, s, name=None):
-        return self.parse(name, list(self.tokenize(s)))
+        return self.parse(list(self.tokenize(s)), name)
 
 
 def chumsky_construct(elements, name_lookup, case_convert, type_name, variant_names):
-- 
2.43.0


From d139b3417d4485cd41a9e432f22b366269fb5091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 16/22] fix: bootstrap.py: generated code for nested
 alternations did not compile

---
 pangram/bootstrap.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index 11b48d6..4ff02df 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -685,7 +685,7 @@ class AstAlternation:
 
     def as_chumsky_type(self, name_lookup, case_convert):
         if len(self.elements) > 1:
-            return self.rust_enum_name
+            return f"{self.rust_enum_name}<'i, S>"
         return self.elements[0].as_chumsky_type(name_lookup, case_convert)
 
     def as_chumsky_tuple_length(self):
@@ -693,7 +693,7 @@ class AstAlternation:
 
     def define_chumsky_types(self, fil, name_lookup, case_convert):
         if len(self.elements) > 1:
-            return chumsky_define(
+            chumsky_define(
                 fil,
                 self.elements,
                 name_lookup,
@@ -710,7 +710,10 @@ class AstAlternation:
 
     def generate_traverse(self, name_lookup, case_convert, var_names, mutable):
         assert len(var_names) == 1
-        yield f"{var_names[0]}.traverse(visitor)"
+        if mutable:
+            yield f"{var_names[0]}.traverse_mut(visitor)?;"
+        else:
+            yield f"{var_names[0]}.traverse(visitor)?;"
 
     def last_terminal(self, name_lookup, case_convert):
         if not self.elements:
-- 
2.43.0


From c25aadcde522572c75c5d66062ff3195b39662a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 17/22] fix: bootstrap.py: unpack nested concatenations in
 generated code

---
 pangram/bootstrap.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index 4ff02df..f33b71e 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -794,7 +794,14 @@ class AstConcatenation:
     def generate_traverse(self, name_lookup, case_convert, var_names, mutable):
         assert len(var_names) == len(self.elements)
         for element, var_name in zip(self.elements, var_names):
-            yield from element.generate_traverse(name_lookup, case_convert, [var_name], mutable)
+            tup_len = element.as_chumsky_tuple_length()
+            if tup_len == 1:
+                child_var_names = [var_name]
+            else:
+                # Unpack the tuple for a nested concatenation.
+                child_var_names = [f"{var_name}_{i+1}" for i in range(tup_len)]
+                yield f"let ({', '.join(child_var_names)}) = {var_name};"
+            yield from element.generate_traverse(name_lookup, case_convert, child_var_names, mutable)
 
     def last_terminal(self, name_lookup, case_convert):
         if not self.elements:
-- 
2.43.0


From a5d1732bf1a12d206e9fa8d433f20006e3a0c68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 18/22] fix: bootstrap.py: escape the set operators of Rust's
 regular expressions

---
 pangram/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index f33b71e..98a2c4c 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -1027,7 +1027,7 @@ class AstLiteral:
     def escape_regex(s):
         escaped = ""
         for c in s:
-            if c in ".+*?^$()[]{}|\\-":
+            if c in ".+*?^$()[]{}|\\-&~":
                 escaped += f"\\{c}"
             else:
                 escaped += c
-- 
2.43.0


From 77319af6f00d4d74b62429ec2ceae610688e7bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 19/22] fix: do not allocate for the minimum number of
 repetitions up front

---
 src/algorithm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 885c459..40ada1e 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -177,8 +177,9 @@ where
     // error.
     let mut recovery: Option<Vec<C::Error>> = None;
 
-    // Gather the results in a vector.
-    let mut output = Vec::with_capacity(minimum);
+    // Gather the results in a vector. The minimum is only a hint here: it need
+    // not be satisfiable by the input.
+    let mut output = Vec::with_capacity(usize::min(minimum, 64));
 
     // Parse items.
     loop {
-- 
2.43.0


From 43cbd74cca30dbd9bd63c6aca0dc6b44523c54be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 20/22] fix: bootstrap.py: keep names clear of Self and of
 internal names

---
 pangram/bootstrap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index 98a2c4c..5bd1ea7 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -1332,7 +1332,12 @@ if __name__ == "__main__":
     # Analyze the self-specification.
     def case_convert(x):
         #return tuple(x.split("-"))
-        return "".join(map(str.title, x.split("-")))
+        x = "".join(map(str.title, x.split("-")))
+        # Keep clear of Rust's keyword, of TokenType::All, and of the names we
+        # use for nodes ourselves.
+        if x in ("Self", "All", "EOF", "ERR", "FLAT"):
+            x += "_"
+        return x
     grammar = AstGrammar(parse_tree, case_convert)
 
     # Parse the self-specification with the grammar we just constructed from
-- 
2.43.0


From 73a86a78583e15b416d54a25e97385c08f0f249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 21/22] fix: bootstrap.py: allow the empty character set

---
 pangram/bootstrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index 5bd1ea7..388a42f 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -1206,6 +1206,9 @@ class AstCharacterSet:
                 return f"[^{body}]"
             else:
                 return "."
+        if not body:
+            # Matches nothing; an empty set is not a valid regular expression.
+            return r"\b\B"
         return f"[{body}]"
 
     def as_parser(self, parser_lookup, case_convert):
-- 
2.43.0


From 07cfc524bb68e3d084d061e2d52631617e6034ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 22/22] fix: bootstrap.py: report that there are no grammar
 rules

---
 pangram/bootstrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index 388a42f..07e8c48 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -386,6 +386,8 @@ class AstGrammar:
         # Combine multiple definitions of grammar- and token rules as
         # alternatives. Note that token_rule_map contains fragments, but
         # token_order does not.
+        if not grammar_rules:
+            raise ValueError("there are no grammar rules")
         self.first_rule = grammar_rules[0][0]
         self.grammar_rules = {} # {name: (doc, [(alter_name, alter_doc, rule)])}
         self.token_order = [] # [name]
-- 
2.43.0

