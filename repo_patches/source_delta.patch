From fda33e02d0b1874ed9c02510734d37b57a505d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 01/28] fix: keep commit flag and drop stale values in the
 partial state of tuple parsers

---
 src/parser/sequence.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 8e0ecc9..e34d44a 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -94,6 +94,8 @@ macro_rules! tuple_parser {
             )*
             #[allow(dead_code)]
             offset: u8,
+            // Index + 1 of the last parser that committed, kept while the sequence is suspended
+            first_empty_parser: usize,
             _marker: PhantomData <( $h, $( $id),* )>,
         }
 
@@ -164,7 +166,11 @@ macro_rules! tuple_parser {
                 MODE: ParseMode,
             {
                 let (ref mut $h, $(ref mut $id),*) = *self;
-                let mut first_empty_parser = 0;
+                let mut first_empty_parser = if mode.is_first() {
+                    0
+                } else {
+                    state.first_empty_parser
+                };
                 #[allow(unused_mut)]
                 let mut current_parser = 0;
 
@@ -181,11 +187,13 @@ macro_rules! tuple_parser {
                     let temp = match $h.parse_mode(mode, input, &mut state.$h.state) {
                         CommitOk(x) => {
                             first_empty_parser = current_parser + 1;
+                            state.first_empty_parser = first_empty_parser;
                             x
                         }
                         PeekErr(err) => return PeekErr(err),
                         CommitErr(err) => return CommitErr(err),
                         PeekOk(x) => {
+                            state.first_empty_parser = first_empty_parser;
                             x
                         }
                     };
@@ -199,15 +207,20 @@ macro_rules! tuple_parser {
                 }
 
                 $(
+                    current_parser += 1;
                     if mode.is_first() || state.$id.value.is_none() {
-                        current_parser += 1;
                         let before = input.checkpoint();
                         let temp = match $id.parse_mode(mode, input, &mut state.$id.state) {
                             CommitOk(x) => {
                                 first_empty_parser = current_parser + 1;
+                                state.first_empty_parser = first_empty_parser;
                                 x
                             }
                             PeekErr(err) => {
+                                // The sequence failed so the values parsed so far must not be
+                                // used if the same state is used to parse again
+                                let offset = state.offset;
+                                *state = Default::default();
                                 if let Err(err) = input.reset(before) {
                                     return if first_empty_parser != 0 {
                                         CommitErr(err.into())
@@ -215,7 +228,7 @@ macro_rules! tuple_parser {
                                         PeekErr(err.into())
                                     };
                                 }
-                                return add_errors!(err, state.offset)
+                                return add_errors!(err, offset)
                             }
                             CommitErr(err) => return CommitErr(err),
                             PeekOk(x) => {
@@ -232,6 +245,7 @@ macro_rules! tuple_parser {
                     }
                 )*
 
+                state.first_empty_parser = 0;
                 // SAFETY: requires both $h and $id to be set, see previous SAFETY comments
                 let value = unsafe { (state.$h.unwrap_value(), $(state.$id.unwrap_value()),*) };
                 if first_empty_parser != 0 {
-- 
2.43.0


From 2b324c454f8bc3c141f0786762fc2b4ed8055ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 02/28] fix: keep the commit flag of repeat parsers when they
 are resumed

---
 src/parser/repeat.rs | 63 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 27543c3..942fbe0 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -123,7 +123,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (usize, F, P::PartialState);
+    type PartialState = (bool, usize, F, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -136,27 +136,40 @@ where
     where
         M: ParseMode,
     {
-        let (count, elements, child_state) = state;
+        let (committed, count, elements, child_state) = state;
 
-        let mut iter = self.parser.by_ref().partial_iter(mode, input, child_state);
+        let mut iter = Iter {
+            parser: self.parser.by_ref(),
+            committed: *committed,
+            input,
+            state: State::Ok,
+            partial_state: child_state,
+            mode,
+        };
         let remaining_min = self.min.saturating_sub(*count);
         let remaining_max = self.max - *count;
         elements.extend(suggest_size_hint(
             iter.by_ref().take(remaining_max).inspect(|_| *count += 1),
             (remaining_min, Some(remaining_max)),
         ));
-        if *count < self.min {
+        *committed = iter.committed;
+
+        let result = if *count < self.min {
             let err = StreamError::message_format(format_args!(
                 "expected {} more elements",
                 self.min - *count
             ));
             iter.fail(err)
         } else {
-            iter.into_result_fast(elements).map(|x| {
-                *count = 0;
-                x
-            })
+            iter.into_result_fast(elements)
+        };
+        if !matches!(result, CommitErr(_)) {
+            // Parsing ended (`CommitErr` may be resumed) so the state must be reset
+            *committed = false;
+            *count = 0;
+            *elements = F::default();
         }
+        result
     }
 
     fn add_error(&mut self, error: &mut Tracked<<Input as StreamOnce>::Error>) {
@@ -384,7 +397,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (bool, F, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -398,11 +411,23 @@ where
         M: ParseMode,
     {
         // TODO
-        let (ref mut elements, ref mut child_state) = *state;
+        let (ref mut committed_state, ref mut elements, ref mut child_state) = *state;
 
-        let mut iter = (&mut self.0).partial_iter(mode, input, child_state);
+        let mut iter = Iter {
+            parser: &mut self.0,
+            committed: *committed_state,
+            input,
+            state: State::Ok,
+            partial_state: child_state,
+            mode,
+        };
         elements.extend(iter.by_ref());
-        iter.into_result_fast(elements)
+        *committed_state = iter.committed;
+
+        iter.into_result_fast(elements).map(|x| {
+            *committed_state = false;
+            x
+        })
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
@@ -492,6 +517,7 @@ where
             mode,
         };
         elements.extend(iter.by_ref());
+        *committed_state = iter.committed;
 
         iter.into_result_fast(elements).map(|x| {
             *parsed_one = false;
@@ -708,7 +734,7 @@ where
     #[inline]
     fn parse_mode_impl<M>(
         &mut self,
-        mode: M,
+        mut mode: M,
         input: &mut Input,
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, Input::Error>
@@ -724,17 +750,23 @@ where
                     ctry!(self
                         .parser
                         .parse_mode(mode, input, &mut child_state.B.state));
+                *parsed_one = Some(rest);
                 elements.extend(Some(first));
+                mode.set_first();
                 rest
             }
         };
 
-        rest.combine_commit(move |_| {
+        rest.combine_commit(|_| {
             let rest = (&mut self.separator).with(&mut self.parser);
             let mut iter = Iter::new(rest, mode, input, child_state);
 
             elements.extend(iter.by_ref());
 
+            if iter.committed {
+                *parsed_one = Some(Commit::Commit(()));
+            }
+
             iter.into_result_fast(elements).map(|x| {
                 *parsed_one = None;
                 x
@@ -890,7 +922,7 @@ where
     #[inline]
     fn parse_mode_impl<M>(
         &mut self,
-        mode: M,
+        mut mode: M,
         input: &mut Input,
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, Input::Error>
@@ -908,6 +940,7 @@ where
                         .parse_mode(mode, input, &mut child_state.B.state));
                 *parsed_one = Some(rest);
                 elements.extend(Some(first));
+                mode.set_first();
                 rest
             }
         };
-- 
2.43.0


From 4dc38b5ac2e7f06d4c1ddffaa07be6488b640bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 03/28] fix: retry all parsers of an array or slice choice when
 it is resumed without having consumed input

---
 src/parser/choice.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index ad976a7..8d86d48 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -395,6 +395,7 @@ where
 {
     let mut prev_err = None;
     let mut last_parser_having_non_1_offset = 0;
+    let before_position = input.position();
     let before = input.checkpoint();
 
     let (ref mut index_state, ref mut child_state) = *state;
@@ -412,7 +413,13 @@ where
 
         match self_[i].parse_mode(mode, input, child_state) {
             committed_err @ CommitErr(_) => {
-                *index_state = i + 1;
+                // If the input is the same then this is a partial parse we cannot commit to so
+                // retry all the parsers on the next call to `parse_partial`
+                if input.position() != before_position {
+                    *index_state = i + 1;
+                } else {
+                    *child_state = Default::default();
+                }
                 return committed_err;
             }
             PeekErr(err) => {
-- 
2.43.0


From af5f8545439c47c36b8ac6589748653b47afca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 04/28] fix: make not_followed_by wait for more input when its
 parser needs it

---
 src/parser/combinator.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 97bae9a..3fc65de 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -44,7 +44,17 @@ where
         ctry!(input.reset(checkpoint).committed());
         match result {
             CommitOk(_) | PeekOk(_) => PeekErr(Input::Error::empty(input.position()).into()),
-            CommitErr(_) | PeekErr(_) => PeekOk(()),
+            CommitErr(err) => {
+                // The state of a failed parser must not be used again
+                *state = Default::default();
+                if input.is_partial() && err.is_unexpected_end_of_input() {
+                    // The parser may still succeed once there is more input
+                    CommitErr(err)
+                } else {
+                    PeekOk(())
+                }
+            }
+            PeekErr(_) => PeekOk(()),
         }
     }
 
-- 
2.43.0


From 791ecbe49e2a2b3ccef37273ad919a7e995abc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 05/28] fix: let attempt backtrack when it is resumed and clear
 the state of a failed parser

---
 src/parser/combinator.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 3fc65de..74ae11e 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -8,7 +8,7 @@ use crate::{
     },
     lib::{fmt, marker::PhantomData, mem, str},
     parser::ParseMode,
-    stream::{input_at_eof, span::Span, ResetStream, Stream, StreamErrorFor, StreamOnce},
+    stream::{input_at_eof, span::Span, uncons, ResetStream, Stream, StreamErrorFor, StreamOnce},
     Parser,
 };
 
@@ -104,7 +104,7 @@ where
     P: Parser<Input, Output = O>,
 {
     type Output = O;
-    type PartialState = P::PartialState;
+    type PartialState = (usize, P::PartialState);
 
     #[inline]
     fn parse_stream(&mut self, input: &mut Input) -> ParseResult<O, <Input as StreamOnce>::Error> {
@@ -135,12 +135,30 @@ where
     where
         M: ParseMode,
     {
-        match self.0.parse_committed_mode(mode, input, state) {
+        let (ref mut parsed, ref mut child_state) = *state;
+
+        let before = input.checkpoint();
+        // Continue after the tokens that were parsed before the parser was suspended
+        for _ in 0..mem::take(parsed) {
+            ctry!(uncons(input));
+        }
+        match self.0.parse_committed_mode(mode, input, child_state) {
             v @ CommitOk(_) | v @ PeekOk(_) | v @ PeekErr(_) => v,
             CommitErr(err) => {
                 if input.is_partial() && err.is_unexpected_end_of_input() {
+                    // Leave the input at the start so that it is still possible to backtrack when
+                    // parsing is resumed, and remember how far we got
+                    let suspended_at = input.position();
+                    ctry!(input.reset(before.clone()).committed());
+                    while input.position() != suspended_at {
+                        ctry!(uncons(input));
+                        *parsed += 1;
+                    }
+                    ctry!(input.reset(before).committed());
                     CommitErr(err)
                 } else {
+                    // The state of a failed parser must not be used again
+                    *child_state = Default::default();
                     PeekErr(err.into())
                 }
             }
-- 
2.43.0


From 9e4311b49c6784207965ad0de8da8cc7587492f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 06/28] fix: keep the commit flag of take_until and do not
 resume its end parser at another position

---
 src/parser/repeat.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 942fbe0..d8512e6 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1184,7 +1184,7 @@ where
     P: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (bool, F, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -1197,25 +1197,44 @@ where
     where
         M: ParseMode,
     {
-        let (ref mut output, ref mut end_state) = *state;
+        let (ref mut committed, ref mut output, ref mut end_state) = *state;
 
-        let mut committed = Commit::Peek(());
         loop {
+            let before_position = input.position();
             let before = input.checkpoint();
             match self.end.parse_mode(mode, input, end_state).into() {
                 Ok((_, rest)) => {
                     ctry!(input.reset(before).committed());
-                    return match committed.merge(rest) {
-                        Commit::Commit(()) => CommitOk(mem::take(output)),
-                        Commit::Peek(()) => PeekOk(mem::take(output)),
+                    return if mem::take(committed) || !rest.is_peek() {
+                        CommitOk(mem::take(output))
+                    } else {
+                        PeekOk(mem::take(output))
                     };
                 }
                 Err(Commit::Peek(_)) => {
                     ctry!(input.reset(before).committed());
-                    output.extend(Some(ctry!(uncons(input)).0));
-                    committed = Commit::Commit(());
+                    match uncons(input) {
+                        PeekOk(token) | CommitOk(token) => {
+                            output.extend(Some(token));
+                            *committed = true;
+                        }
+                        PeekErr(err) => {
+                            *output = F::default();
+                            return if mem::take(committed) {
+                                CommitErr(err.error)
+                            } else {
+                                PeekErr(err)
+                            };
+                        }
+                        CommitErr(err) => return CommitErr(err),
+                    }
                 }
                 Err(Commit::Commit(e)) => {
+                    // The parser is tried again from `before` so it can not continue from where
+                    // it stopped
+                    if input.position() != before_position {
+                        *end_state = Default::default();
+                    }
                     ctry!(input.reset(before).committed());
                     return CommitErr(e.error);
                 }
-- 
2.43.0


From 49448e961a360aebc7d107dd76225861db832cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 07/28] fix: keep the commit flag of repeat_until and do not
 resume its end parser at another position

---
 src/parser/repeat.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index d8512e6..0b9299f 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1327,7 +1327,7 @@ where
     E: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, bool, P::PartialState, E::PartialState);
+    type PartialState = (F, bool, bool, P::PartialState, E::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -1340,23 +1340,40 @@ where
     where
         M: ParseMode,
     {
-        let (output, is_parse, parse_state, end_state) = state;
+        let (output, is_parse, committed, parse_state, end_state) = state;
 
-        let mut committed = Commit::Peek(());
         loop {
             if *is_parse {
-                let (token, c) = ctry!(self.parser.parse_mode(mode, input, parse_state));
+                let token = match self.parser.parse_mode(mode, input, parse_state) {
+                    PeekOk(token) => token,
+                    CommitOk(token) => {
+                        *committed = true;
+                        token
+                    }
+                    PeekErr(err) => {
+                        *output = F::default();
+                        *is_parse = false;
+                        return if mem::take(committed) {
+                            CommitErr(err.error)
+                        } else {
+                            PeekErr(err)
+                        };
+                    }
+                    CommitErr(err) => return CommitErr(err),
+                };
                 output.extend(Some(token));
-                committed = committed.merge(c);
                 *is_parse = false;
+                mode.set_first();
             } else {
+                let before_position = input.position();
                 let before = input.checkpoint();
                 match self.end.parse_mode(mode, input, end_state).into() {
                     Ok((_, rest)) => {
                         ctry!(input.reset(before).committed());
-                        return match committed.merge(rest) {
-                            Commit::Commit(()) => CommitOk(mem::take(output)),
-                            Commit::Peek(()) => PeekOk(mem::take(output)),
+                        return if mem::take(committed) || !rest.is_peek() {
+                            CommitOk(mem::take(output))
+                        } else {
+                            PeekOk(mem::take(output))
                         };
                     }
                     Err(Commit::Peek(_)) => {
@@ -1365,6 +1382,11 @@ where
                         *is_parse = true;
                     }
                     Err(Commit::Commit(e)) => {
+                        // The parser is tried again from `before` so it can not continue from
+                        // where it stopped
+                        if input.position() != before_position {
+                            *end_state = Default::default();
+                        }
                         ctry!(input.reset(before).committed());
                         return CommitErr(e.error);
                     }
-- 
2.43.0


From 17b580c0fb94c75108a6fda92c32e930f7e69d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 08/28] fix: parse the first operand of chainl1 in the current
 mode

---
 src/parser/repeat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 0b9299f..ff60394 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1041,7 +1041,7 @@ where
         let (mut l, mut committed) = match l_state.take() {
             Some(x) => x,
             None => {
-                let x = ctry!(self.0.parse_partial(input, &mut child_state.B.state));
+                let x = ctry!(self.0.parse_mode(mode, input, &mut child_state.B.state));
                 mode.set_first();
                 x
             }
-- 
2.43.0


From a278f8430f900ea9adf70b70e5e81972107ec286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 09/28] fix: make chainr1 backtrack before, or fail after, an
 operator without an operand

---
 src/parser/repeat.rs | 45 ++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index ff60394..e7f8bc6 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1113,33 +1113,46 @@ where
     type PartialState = ();
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<P::Output, Input::Error> {
+        let start = input.checkpoint();
         // FIXME FastResult
         let (mut l, mut committed) = ctry!(self.0.parse_lazy(input));
         loop {
             let before = input.checkpoint();
-            let op = match self.1.parse_lazy(input).into() {
-                Ok((x, rest)) => {
-                    committed = committed.merge(rest);
-                    x
+            let (op, op_committed) = match self.1.parse_lazy(input) {
+                CommitOk(op) => (op, Commit::Commit(())),
+                PeekOk(op) => (op, Commit::Peek(())),
+                CommitErr(err) => {
+                    if input.is_partial() {
+                        // There is no state to resume from so parsing must start over
+                        ctry!(input.reset(start).committed());
+                    }
+                    return CommitErr(err);
                 }
-                Err(Commit::Commit(err)) => return CommitErr(err.error),
-                Err(Commit::Peek(_)) => {
+                PeekErr(_) => {
                     ctry!(input.reset(before).committed());
                     break;
                 }
             };
-            let before = input.checkpoint();
-            match self.parse_lazy(input).into() {
-                Ok((r, rest)) => {
-                    l = op(l, r);
-                    committed = committed.merge(rest);
+            let (r, rest) = match self.parse_lazy(input) {
+                CommitOk(r) => (r, Commit::Commit(())),
+                PeekOk(r) => (r, Commit::Peek(())),
+                CommitErr(err) => {
+                    if input.is_partial() {
+                        ctry!(input.reset(start).committed());
+                    }
+                    return CommitErr(err);
                 }
-                Err(Commit::Commit(err)) => return CommitErr(err.error),
-                Err(Commit::Peek(_)) => {
-                    ctry!(input.reset(before).committed());
-                    break;
+                // The operator was not followed by an operand
+                PeekErr(err) => {
+                    if op_committed.is_peek() {
+                        ctry!(input.reset(before).committed());
+                        break;
+                    }
+                    return CommitErr(err.error);
                 }
-            }
+            };
+            l = op(l, r);
+            committed = committed.merge(op_committed).merge(rest);
         }
         Ok((l, committed)).into()
     }
-- 
2.43.0


From 2182a77f43fc1c6958b201a33a470df6bd4f0cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 10/28] fix: start over when escaped is resumed instead of
 losing what was parsed

---
 src/parser/repeat.rs | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index e7f8bc6..6add66a 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1468,17 +1468,14 @@ pub struct Escaped<P, Q, I> {
     escape: I,
     escape_parser: Q,
 }
-impl<Input, P, Q> Parser<Input> for Escaped<P, Q, Input::Token>
-where
-    Input: Stream,
-    P: Parser<Input>,
-    <Input as StreamOnce>::Token: PartialEq,
-    Q: Parser<Input>,
-{
-    type Output = ();
-    type PartialState = EscapedState<P::PartialState, Q::PartialState>;
-
-    fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<Self::Output, Input::Error> {
+impl<P, Q, I> Escaped<P, Q, I> {
+    fn parse_escaped<Input>(&mut self, input: &mut Input) -> ParseResult<(), Input::Error>
+    where
+        Input: Stream<Token = I>,
+        P: Parser<Input>,
+        I: PartialEq,
+        Q: Parser<Input>,
+    {
         let mut committed = Commit::Peek(());
         loop {
             match self.parser.parse_lazy(input) {
@@ -1522,6 +1519,29 @@ where
             }
         }
     }
+}
+
+impl<Input, P, Q> Parser<Input> for Escaped<P, Q, Input::Token>
+where
+    Input: Stream,
+    P: Parser<Input>,
+    <Input as StreamOnce>::Token: PartialEq,
+    Q: Parser<Input>,
+{
+    type Output = ();
+    type PartialState = EscapedState<P::PartialState, Q::PartialState>;
+
+    fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<Self::Output, Input::Error> {
+        let start = input.checkpoint();
+        let result = self.parse_escaped(input);
+        if let CommitErr(_) = result {
+            if input.is_partial() {
+                // There is no state to resume from so parsing must start over
+                ctry!(input.reset(start).committed());
+            }
+        }
+        result
+    }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
         use crate::error;
-- 
2.43.0


From 4fdfe1fbc7b45bd8ce04d7453ceb0cfe5595305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 11/28] fix: do not keep the elements of a failed iterate
 parser in its state

---
 src/parser/repeat.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 6add66a..1c0859b 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1627,6 +1627,10 @@ where
         M: ParseMode,
     {
         let (opt_iter, committed, buf, next) = state;
+        if mode.is_first() {
+            *committed = false;
+            *buf = F::default();
+        }
         let (iter, next_item) = match opt_iter {
             Some(iter) if !mode.is_first() => iter,
             _ => {
@@ -1686,6 +1690,10 @@ where
 
         if let Err((item, err)) = result {
             *next_item = Some(item);
+            if let PeekErr(_) = err {
+                *opt_iter = None;
+                *buf = F::default();
+            }
             return err;
         }
 
-- 
2.43.0


From 04b7e13e752bb1db0fe7dafc8388c716a69fc591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 12/28] fix: start over a parser! parser without partial state
 instead of resuming it midway

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 04faeda..d952397 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -402,10 +402,10 @@ macro_rules! parser {
 #[macro_export]
 macro_rules! combine_parse_partial {
     ((()) $mode:ident $input:ident $state:ident $parser:block) => {{
-        let _ = $state;
-        let mut state = Default::default();
-        let state = &mut state;
-        $parser.parse_mode($mode, $input, state)
+        // The state of `$parser` can't be stored so on a partial stream the parser must be started
+        // over (which `parse_lazy` makes possible) instead of being resumed
+        let _ = ($mode, $state);
+        $parser.parse_lazy($input)
     }};
     (($ignored:ty) $mode:ident $input:ident $state:ident $parser:block) => {
         $parser.parse_mode($mode, $input, $state)
-- 
2.43.0


From 2bb8016060bdaf0e9743886fb3491ea23c98c791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 13/28] fix: try the escape from where the parser of escaped
 failed

---
 src/parser/repeat.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 1c0859b..5680c4d 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1478,24 +1478,24 @@ impl<P, Q, I> Escaped<P, Q, I> {
     {
         let mut committed = Commit::Peek(());
         loop {
+            let checkpoint = input.checkpoint();
             match self.parser.parse_lazy(input) {
                 PeekOk(_) => {}
                 CommitOk(_) => {
                     committed = Commit::Commit(());
                 }
                 PeekErr(_) => {
-                    let checkpoint = input.checkpoint();
+                    // `parser` may have moved the input before it failed
+                    ctry!(input.reset(checkpoint.clone()).committed());
                     match uncons(input) {
                         CommitOk(ref c) | PeekOk(ref c) if *c == self.escape => {
+                            committed = Commit::Commit(());
                             match self.escape_parser.parse_committed_mode(
                                 FirstMode,
                                 input,
                                 &mut Default::default(),
                             ) {
-                                PeekOk(_) => {}
-                                CommitOk(_) => {
-                                    committed = Commit::Commit(());
-                                }
+                                PeekOk(_) | CommitOk(_) => {}
                                 CommitErr(err) => return CommitErr(err),
                                 PeekErr(err) => {
                                     return CommitErr(err.error);
-- 
2.43.0


From e49dd5b100b16c4cbcc7c61da4287a0b9df21715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 14/28] fix: forward the expected errors of spanned parsers

---
 src/parser/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 74ae11e..b4bb1c5 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -1595,7 +1595,7 @@ where
         })
     }
 
-    forward_parser!(Input, add_error, add_committed_expected_error, 0);
+    forward_parser!(Input, add_error add_committed_expected_error parser_count, 0);
 }
 
 /// Equivalent to [`p.spanned()`].
-- 
2.43.0


From 267f73f98695ec7201ea1c2156d7c2e02d81e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 15/28] fix: start over when tokens is resumed in the middle of
 its tokens

---
 src/parser/token.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser/token.rs b/src/parser/token.rs
index fe41421..832e9c7 100644
--- a/src/parser/token.rs
+++ b/src/parser/token.rs
@@ -239,6 +239,7 @@ where
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<T, Input::Error> {
         let start = input.position();
+        let before = input.checkpoint();
         let mut committed = false;
         for c in self.tokens.clone() {
             match crate::stream::uncons(input) {
@@ -266,6 +267,10 @@ where
                     };
                 }
                 CommitErr(mut error) => {
+                    if input.is_partial() {
+                        // There is no state to resume from so parsing must start over
+                        ctry!(input.reset(before).committed());
+                    }
                     error.set_position(start);
                     return CommitErr(error);
                 }
@@ -343,6 +348,7 @@ where
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<T, Input::Error> {
         let start = input.position();
+        let before = input.checkpoint();
         let mut committed = false;
         for c in self.tokens.clone() {
             match crate::stream::uncons(input) {
@@ -369,6 +375,10 @@ where
                     };
                 }
                 CommitErr(mut error) => {
+                    if input.is_partial() {
+                        // There is no state to resume from so parsing must start over
+                        ctry!(input.reset(before).committed());
+                    }
                     error.set_position(start);
                     return CommitErr(error);
                 }
-- 
2.43.0


From ef56fec57e3e29e68bb76799bd834fd2b5793eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 16/28] fix: do not take the end of a partial stream for the
 end of input in eof

---
 src/parser/token.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/token.rs b/src/parser/token.rs
index 832e9c7..ed01b10 100644
--- a/src/parser/token.rs
+++ b/src/parser/token.rs
@@ -670,7 +670,13 @@ where
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<(), Input::Error> {
         let before = input.checkpoint();
         match input.uncons() {
-            Err(ref err) if err.is_unexpected_end_of_input() => PeekOk(()),
+            Err(err) if err.is_unexpected_end_of_input() => {
+                if input.is_partial() {
+                    // Only the end of the input so far
+                    return CommitErr(Input::Error::from_error(input.position(), err));
+                }
+                PeekOk(())
+            }
             _ => {
                 ctry!(input.reset(before).committed());
                 PeekErr(<Input as StreamOnce>::Error::empty(input.position()).into())
-- 
2.43.0


From 5a9726c9be2b9c897000aef4edb26d651f32c816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:04 +0000
Subject: [PATCH 17/28] fix: forward the committed expected errors of either
 and dispatch parsers

---
 src/parser/choice.rs     | 11 +++++++++++
 src/parser/combinator.rs |  7 +++++++
 2 files changed, 18 insertions(+)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index 8d86d48..01b8728 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -780,6 +780,17 @@ macro_rules! dispatch_parser_impl {
                     )*
                 }
             }
+
+            fn add_committed_expected_error(
+                &mut self,
+                error: &mut $crate::error::Tracked<<Input as $crate::StreamOnce>::Error>,
+            ) {
+                match self {
+                    $(
+                    $parser_name::$id($id) => $id.add_committed_expected_error(error),
+                    )*
+                }
+            }
         }
     }
 }
diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index b4bb1c5..2054844 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -655,6 +655,13 @@ where
             Either::Right(ref mut x) => x.add_error(error),
         }
     }
+
+    fn add_committed_expected_error(&mut self, error: &mut Tracked<<Input as StreamOnce>::Error>) {
+        match *self {
+            Either::Left(ref mut x) => x.add_committed_expected_error(error),
+            Either::Right(ref mut x) => x.add_committed_expected_error(error),
+        }
+    }
 }
 
 pub struct NoPartial<P>(P);
-- 
2.43.0


From 46ee2a8350f833426dba2d798c64283712bdf7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 18/28] fix: take_until_range: ask for more input although a
 partial character was seen first

---
 src/parser/range.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index 46353eb..f1a6138 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -437,7 +437,7 @@ where
 
         let len = self.0.len();
         let before = input.checkpoint();
-        let mut first_stream_error = None;
+        let mut first_stream_error: Option<(StreamErrorFor<Input>, usize)> = None;
 
         // Skip until the end of the last parse attempt
         ctry!(uncons_range(input, *to_consume));
@@ -480,7 +480,18 @@ where
                     // fail as only one `:` is present at this parse attempt. But when we later resume
                     // with more input we must start parsing again at the first time we errored so we
                     // can see the entire `::`
-                    if first_stream_error.is_none() {
+                    //
+                    // An error which more input can not resolve (such as taking half of a
+                    // character) only says that there is no match here, so it must not be
+                    // reported in place of the need for more input.
+                    let is_first = match &first_stream_error {
+                        None => true,
+                        Some((previous, _)) => {
+                            first_error.is_unexpected_end_of_input()
+                                && !previous.is_unexpected_end_of_input()
+                        }
+                    };
+                    if is_first {
                         first_stream_error = Some((first_error, input.distance(&before)));
                     }
 
-- 
2.43.0


From b6653860868342d41b6f737274db7df559b0bfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 19/28] fix: take_until_range: do not keep the scanned distance
 after a failure on a complete stream

---
 src/parser/range.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index f1a6138..9a7a022 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -504,7 +504,12 @@ where
 
                         // Reset the stream
                         ctry!(input.reset(before).committed());
-                        *to_consume = first_error_distance;
+                        // Only a partial parse is resumed
+                        *to_consume = if input.is_partial() {
+                            first_error_distance
+                        } else {
+                            0
+                        };
 
                         // Return the original error if uncons failed
                         return wrap_stream_error(input, first_error);
-- 
2.43.0


From 3b07fc0f6d1d96d28bd650bad0e46dce9a6e0523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 20/28] fix: take_fn: resume the search where the previous one
 stopped

---
 src/parser/range.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index 9a7a022..a0434da 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -608,7 +608,12 @@ where
                 result
             }
             TakeRange::NotFound(next_offset) => {
-                *offset = next_offset;
+                // The searcher only sees what follows the part which was already searched
+                *offset = if input.is_partial() {
+                    *offset + next_offset
+                } else {
+                    0
+                };
 
                 let range = input.range();
                 let _ = input.uncons_range(range.len());
-- 
2.43.0


From 3f641b3e1f7b609cb022b4714fc8b785ec66491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 21/28] fix: range: matching an empty range does not commit

---
 src/parser/range.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index a0434da..10056d5 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -48,10 +48,15 @@ where
         use crate::stream::Range;
 
         let position = input.position();
-        match input.uncons_range(self.0.len()) {
+        let len = self.0.len();
+        match input.uncons_range(len) {
             Ok(other) => {
                 if other == self.0 {
-                    CommitOk(other)
+                    if len == 0 {
+                        PeekOk(other)
+                    } else {
+                        CommitOk(other)
+                    }
                 } else {
                     PeekErr(Input::Error::empty(position).into())
                 }
-- 
2.43.0


From 85d4cc4da22fb63be0a6d61192dfc63535a2e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 22/28] fix: easy: converting a message error keeps it a
 message

---
 src/stream/easy.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/stream/easy.rs b/src/stream/easy.rs
index 0a54182..596f461 100644
--- a/src/stream/easy.rs
+++ b/src/stream/easy.rs
@@ -302,10 +302,10 @@ where
                 Info::Owned(x) => T::expected_format(x),
             },
             Error::Message(info) => match info {
-                Info::Token(x) => T::expected_token(x),
-                Info::Range(x) => T::expected_range(x),
-                Info::Static(x) => T::expected_static_message(x),
-                Info::Owned(x) => T::expected_format(x),
+                Info::Token(x) => T::message_token(x),
+                Info::Range(x) => T::message_range(x),
+                Info::Static(x) => T::message_static_message(x),
+                Info::Owned(x) => T::message_format(x),
             },
             Error::Other(err) => T::message_format(err),
         }
@@ -402,10 +402,10 @@ impl<Item, Range> crate::error::StreamErrorInto<Item, Range> for Error<Item, Ran
                 Info::Owned(x) => T::expected_format(x),
             },
             Error::Message(info) => match info {
-                Info::Token(x) => T::expected_token(x.into()),
-                Info::Range(x) => T::expected_range(x.into()),
-                Info::Static(x) => T::expected_static_message(x),
-                Info::Owned(x) => T::expected_format(x),
+                Info::Token(x) => T::message_token(x.into()),
+                Info::Range(x) => T::message_range(x.into()),
+                Info::Static(x) => T::message_static_message(x),
+                Info::Owned(x) => T::message_format(x),
             },
             Error::Other(err) => T::message_format(err),
         }
-- 
2.43.0


From 05667e37b084fe4913582d4cc0c14865a1ce3e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 23/28] fix: decode_futures_03: the form without an input
 stream expands

---
 src/stream/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index a395612..3badd40 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -1504,11 +1504,10 @@ macro_rules! decode {
 #[cfg_attr(docsrs, doc(cfg(feature = "futures-io-03")))]
 #[macro_export]
 macro_rules! decode_futures_03 {
-    ($decoder: expr, $read: expr, $parser: expr) => {
-        $crate::decode_futures_03!($decoder, $read, $parser, |x| x $(,)?)
+    ($decoder: expr, $read: expr, $parser: expr $(,)?) => {
+        $crate::decode_futures_03!($decoder, $read, $parser, |input, _position| input)
     };
 
-
     ($decoder: expr, $read: expr, $parser: expr, $input_stream: expr $(,)?) => {
         $crate::decode_futures_03!($decoder, $read, $parser, $input_stream, |x| x)
     };
-- 
2.43.0


From ea57e36851a6521837d6d77167117a9eb96ae6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 24/28] fix: decode: accept a decoder without an internal
 buffer

---
 src/stream/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream/decoder.rs b/src/stream/decoder.rs
index ad034f8..07ca2a4 100644
--- a/src/stream/decoder.rs
+++ b/src/stream/decoder.rs
@@ -139,12 +139,12 @@ where
     C: ,
 {
     #[doc(hidden)]
-    pub fn __before_parse<R>(&mut self, mut reader: R) -> io::Result<()>
+    pub fn __before_parse<R>(&mut self, reader: &mut R) -> io::Result<()>
     where
         R: Read,
         C: crate::stream::buf_reader::CombineSyncRead<R>,
     {
-        if self.buffer.extend_buf_sync(&mut reader)? == 0 {
+        if self.buffer.extend_buf_sync(reader)? == 0 {
             self.end_of_input = true;
         }
 
-- 
2.43.0


From b877fe928802fe3a961960e31f682c340e89d660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 25/28] fix: decode_futures_03: accept a decoder without an
 internal buffer

---
 src/stream/decoder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/stream/decoder.rs b/src/stream/decoder.rs
index 07ca2a4..c073985 100644
--- a/src/stream/decoder.rs
+++ b/src/stream/decoder.rs
@@ -214,7 +214,6 @@ impl<S, P, C> Decoder<S, P, C> {
     #[doc(hidden)]
     pub async fn __before_parse_async<R>(&mut self, reader: Pin<&mut R>) -> io::Result<()>
     where
-        R: futures_io_03::AsyncRead,
         C: crate::stream::buf_reader::CombineAsyncRead<R>,
     {
         let copied = self.buffer.extend_buf(reader).await?;
-- 
2.43.0


From 2079b00f7415a736c9b975a2b01a0d1a65d4a06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:30 +0000
Subject: [PATCH 26/28] fix: report what chainr1 expected after an operator

---
 src/parser/repeat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 5680c4d..a9e9674 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1133,7 +1133,7 @@ where
                     break;
                 }
             };
-            let (r, rest) = match self.parse_lazy(input) {
+            let (r, rest) = match self.parse_committed_mode(FirstMode, input, &mut ()) {
                 CommitOk(r) => (r, Commit::Commit(())),
                 PeekOk(r) => (r, Commit::Peek(())),
                 CommitErr(err) => {
-- 
2.43.0


From 183fefc5b2716da94d272969be7014ee3bf7b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:40 +0000
Subject: [PATCH 27/28] fix: the regex parsers build without std

---
 src/parser/regex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/regex.rs b/src/parser/regex.rs
index 2784958..0c784be 100644
--- a/src/parser/regex.rs
+++ b/src/parser/regex.rs
@@ -31,7 +31,7 @@
 //! }
 //! ```
 
-use std::{iter::FromIterator, marker::PhantomData};
+use crate::lib::{iter::FromIterator, marker::PhantomData};
 
 use crate::{
     error::{
@@ -119,7 +119,7 @@ where
 mod regex {
     pub extern crate regex;
 
-    use std::iter::FromIterator;
+    use crate::lib::iter::FromIterator;
 
     use super::{find_iter, MatchFind, Regex};
 
-- 
2.43.0


From c71429b2ed500a098e2b0e2381e9c86e80cb15ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:09 +0000
Subject: [PATCH 28/28] fix: spanned reported where it was resumed as the start
 of the span

---
 src/parser/combinator.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 2054844..b64e57b 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -1576,7 +1576,7 @@ where
     Q: Ord + Clone,
 {
     type Output = P::Output;
-    type PartialState = P::PartialState;
+    type PartialState = (Option<Q>, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -1584,22 +1584,29 @@ where
         &mut self,
         mode: M,
         input: &mut Input,
-        state: &mut Self::PartialState,
+        (ref mut start_state, ref mut child_state): &mut Self::PartialState,
     ) -> ParseResult<Self::Output, <Input as StreamOnce>::Error>
     where
         M: ParseMode,
     {
-        let start = input.position().start;
-        self.0.parse_mode(mode, input, state).map_err(|mut err| {
-            let error_span = err.position();
-            // If an inner `spanned` combinator has already attached its span that will be more
-            // specific so only set a span if the current error has a position, not a span
-            if error_span.start == error_span.end {
-                let end = input.position().end;
-                err.set_position(Span { start, end });
-            }
-            err
-        })
+        // When resuming the span starts where the parser was first started
+        let resumed = start_state.take().filter(|_| !mode.is_first());
+        let start = resumed.unwrap_or_else(|| input.position().start);
+        self.0
+            .parse_mode(mode, input, child_state)
+            .map_err(|mut err| {
+                if input.is_partial() && err.is_unexpected_end_of_input() {
+                    *start_state = Some(start.clone());
+                }
+                let error_span = err.position();
+                // If an inner `spanned` combinator has already attached its span that will be more
+                // specific so only set a span if the current error has a position, not a span
+                if error_span.start == error_span.end {
+                    let end = input.position().end;
+                    err.set_position(Span { start, end });
+                }
+                err
+            })
     }
 
     forward_parser!(Input, add_error add_committed_expected_error parser_count, 0);
-- 
2.43.0

