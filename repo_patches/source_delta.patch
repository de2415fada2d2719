From 6c039ef21e41931d8227efbb9532e5a5fd249c7a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 01/23] fix: report truncated unicode escapes as parse errors
 instead of panicking

parse_non_surrogate and the surrogate parsers used nom's *streaming* one_of,
so a query that ends inside an escape (e.g. `$["\u`) produced
nom::Err::Incomplete and JsonPath::parse hit unreachable!(). Use the complete
variant.
---
 serde_json_path/src/parser/primitive/string.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index bf7f61d..4c8d5f1 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -1,6 +1,5 @@
 use nom::bytes::complete::{tag, take_while};
-use nom::character::complete::{anychar, char};
-use nom::character::streaming::one_of;
+use nom::character::complete::{anychar, char, one_of};
 use nom::combinator::{cut, map, recognize, verify};
 use nom::error::context;
 use nom::sequence::{pair, separated_pair, tuple};
-- 
2.43.0


From ae0c2306b5f0aec7c8e60d7bf10e7b7d5ff36f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 02/23] fix: display descendant shorthand segments with two
 dots, not three

$..name and $..* were displayed (and therefore serialized) as $...name and
$...*, which do not parse, so such a query could not be deserialized again.
---
 serde_json_path_core/src/spec/segment.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/segment.rs b/serde_json_path_core/src/spec/segment.rs
index 20e036e..708dd7f 100644
--- a/serde_json_path_core/src/spec/segment.rs
+++ b/serde_json_path_core/src/spec/segment.rs
@@ -29,7 +29,11 @@ impl QuerySegment {
 impl std::fmt::Display for QuerySegment {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if matches!(self.kind, QuerySegmentKind::Descendant) {
-            write!(f, "..")?;
+            // The shorthand segments already write one of the two leading dots:
+            match self.segment {
+                Segment::LongHand(_) => write!(f, "..")?,
+                Segment::DotName(_) | Segment::Wildcard => write!(f, ".")?,
+            }
         }
         write!(f, "{segment}", segment = self.segment)
     }
-- 
2.43.0


From 1ff0aeef45c97748ebdcf6128eaee54c816b53f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 03/23] fix: escape names and string literals when displaying a
 query

A name selector or string literal holding a quote, a backslash or a control
character was displayed (and serialized) verbatim, giving a query that does not
parse or that means something else.
---
 .../src/spec/selector/filter.rs               |  8 ++++--
 .../src/spec/selector/name.rs                 | 26 ++++++++++++++++++-
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index a81b831..830f76d 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -11,7 +11,11 @@ use crate::{
     },
 };
 
-use super::{index::Index, name::Name, Selector};
+use super::{
+    index::Index,
+    name::{write_quoted, Name},
+    Selector,
+};
 
 mod sealed {
     use serde_json::Value;
@@ -472,7 +476,7 @@ impl std::fmt::Display for Literal {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Literal::Number(n) => write!(f, "{n}"),
-            Literal::String(s) => write!(f, "'{s}'"),
+            Literal::String(s) => write_quoted(f, s),
             Literal::Bool(b) => write!(f, "{b}"),
             Literal::Null => write!(f, "null"),
         }
diff --git a/serde_json_path_core/src/spec/selector/name.rs b/serde_json_path_core/src/spec/selector/name.rs
index 758ef66..6af15eb 100644
--- a/serde_json_path_core/src/spec/selector/name.rs
+++ b/serde_json_path_core/src/spec/selector/name.rs
@@ -16,10 +16,34 @@ impl Name {
 
 impl std::fmt::Display for Name {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "'{name}'", name = self.0)
+        write_quoted(f, &self.0)
     }
 }
 
+/// Write a string as a single-quoted JSONPath string literal, escaping it so that parsing the
+/// literal gives the same string back, as per [the specification][norm-paths]
+///
+/// [norm-paths]: https://www.rfc-editor.org/rfc/rfc9535#section-2.7
+pub(crate) fn write_quoted(f: &mut std::fmt::Formatter<'_>, s: &str) -> std::fmt::Result {
+    use std::fmt::Write;
+
+    f.write_char('\'')?;
+    for c in s.chars() {
+        match c {
+            '\u{0008}' => f.write_str("\\b")?,
+            '\u{0009}' => f.write_str("\\t")?,
+            '\u{000A}' => f.write_str("\\n")?,
+            '\u{000C}' => f.write_str("\\f")?,
+            '\u{000D}' => f.write_str("\\r")?,
+            '\'' => f.write_str("\\'")?,
+            '\\' => f.write_str("\\\\")?,
+            '\u{0000}'..='\u{001F}' => write!(f, "\\u{:04x}", c as u32)?,
+            _ => f.write_char(c)?,
+        }
+    }
+    f.write_char('\'')
+}
+
 impl Queryable for Name {
     #[cfg_attr(feature = "trace", tracing::instrument(name = "Query Name", level = "trace", parent = None, ret))]
     fn query<'b>(&self, current: &'b Value, _root: &'b Value) -> Vec<&'b Value> {
-- 
2.43.0


From dd6650d4a429f7bd4b5857edb921858e57c91a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 04/23] fix: escape member names when displaying a normalized
 path

NormalizedPath wrote member names verbatim between the quotes, so the location
of a member whose name holds a quote, a backslash or a control character was
not a valid normalized path (RFC 9535, section 2.7), or was one for another
node.
---
 serde_json_path_core/src/path.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/path.rs b/serde_json_path_core/src/path.rs
index d2c3d19..4f7fdea 100644
--- a/serde_json_path_core/src/path.rs
+++ b/serde_json_path_core/src/path.rs
@@ -9,6 +9,8 @@ use std::{
 
 use serde::Serialize;
 
+use crate::spec::selector::name::write_quoted;
+
 // Documented in the serde_json_path crate, for linking purposes
 #[allow(missing_docs)]
 #[derive(Debug, Default, Eq, PartialEq, Clone, PartialOrd)]
@@ -192,7 +194,11 @@ impl Display for NormalizedPath<'_> {
         write!(f, "$")?;
         for elem in &self.0 {
             match elem {
-                PathElement::Name(name) => write!(f, "['{name}']")?,
+                PathElement::Name(name) => {
+                    f.write_str("[")?;
+                    write_quoted(f, name)?;
+                    f.write_str("]")?;
+                }
                 PathElement::Index(index) => write!(f, "[{index}]")?,
             }
         }
-- 
2.43.0


From a3745f8b1bb8e621b03a893e37c2482838711b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 05/23] fix: keep the negation when displaying a negated
 function expression

$[?!match(@.a, 'b')] was displayed and serialized without its '!', so the
query read back selected the opposite nodes.
---
 serde_json_path_core/src/spec/selector/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 830f76d..9d7e54a 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -186,7 +186,7 @@ impl std::fmt::Display for BasicExpr {
             BasicExpr::Exist(exist) => write!(f, "{exist}"),
             BasicExpr::NotExist(exist) => write!(f, "!{exist}"),
             BasicExpr::FuncExpr(expr) => write!(f, "{expr}"),
-            BasicExpr::NotFuncExpr(expr) => write!(f, "{expr}"),
+            BasicExpr::NotFuncExpr(expr) => write!(f, "!{expr}"),
         }
     }
 }
-- 
2.43.0


From e650aeaf85645aa016552a7beb2fdb32f043f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 06/23] fix: resolve negative indexes in singular queries

A singular query used in a comparison or as a function argument treated a
negative index as selecting nothing, e.g. $[?@[-1] == 3], while the same segment
in any other query counts from the end of the array.
---
 serde_json_path_core/src/spec/selector/filter.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 9d7e54a..d70b4c6 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -565,10 +565,7 @@ impl SingularQuery {
                     }
                 }
                 SingularQuerySegment::Index(index) => {
-                    if let Some(t) = target
-                        .as_array()
-                        .and_then(|l| usize::try_from(index.0).ok().and_then(|i| l.get(i)))
-                    {
+                    if let Some(t) = index.query(target, root).pop() {
                         target = t;
                     } else {
                         return None;
-- 
2.43.0


From 216e095c7130717b062722172ae58837cf5c7a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 07/23] fix: compare numbers inside arrays and objects by value

1 == 1.0 held for bare numbers but not inside a structured value, so [1] and
[1.0] were unequal; RFC 9535 (section 2.3.5.2.2) defines array and object
equality by the equality of their elements.
---
 serde_json_path_core/src/spec/selector/filter.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index d70b4c6..904631c 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -262,6 +262,14 @@ fn check_equal_to(left: &JsonPathValue, right: &JsonPathValue) -> bool {
 fn value_equal_to(left: &Value, right: &Value) -> bool {
     match (left, right) {
         (Value::Number(l), Value::Number(r)) => number_equal_to(l, r),
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| value_equal_to(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| value_equal_to(l, r)))
+        }
         _ => left == right,
     }
 }
-- 
2.43.0


From 4d1fd9aad942628b2423ba9073099609d18f6550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 08/23] fix: accept lowercase hex digits in high surrogate
 escapes

\uD83D\uDE00 parsed but \ud83d\ude00 did not; hex digits of an escape are
case-insensitive in RFC 9535 (section 2.3.1.1).
---
 serde_json_path/src/parser/primitive/string.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index 4c8d5f1..db11538 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -70,7 +70,11 @@ fn parse_high_surrogate(input: &str) -> PResult<u16> {
     context(
         "high surrogate",
         map_res(
-            recognize(tuple((char('D'), one_of("89AB"), parse_n_hex_digits(2)))),
+            recognize(tuple((
+                one_of("Dd"),
+                one_of("89ABab"),
+                parse_n_hex_digits(2),
+            ))),
             |hex| u16::from_str_radix(hex, 16),
         ),
     )(input)
-- 
2.43.0


From cdd006603a5efdc421d872248f47e61fe0435d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 09/23] fix: accept function names of a single character

RFC 9535 (section 2.4) requires one leading letter and any number, including
none, of further characters.
---
 serde_json_path/src/parser/selector/function/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index d4aadfe..c8d046c 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -6,7 +6,7 @@ use nom::{
     branch::alt,
     character::complete::{multispace0, satisfy},
     combinator::map,
-    multi::fold_many1,
+    multi::fold_many0,
     sequence::{delimited, pair},
 };
 use serde_json_path_core::spec::functions::{
@@ -40,7 +40,7 @@ fn parse_function_name(input: &str) -> PResult<String> {
     map(
         pair(
             parse_function_name_first,
-            fold_many1(
+            fold_many0(
                 parse_function_name_char,
                 String::new,
                 |mut string, fragment| {
-- 
2.43.0


From 87b98c1eed8e2bbb4c846acb354af4a2a7e3d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 10/23] fix: accept whitespace before a descendant segment

Whitespace is allowed between any two segments (RFC 9535, section 2.1.1), and
was accepted before child segments only.
---
 serde_json_path/src/parser/segment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/segment.rs b/serde_json_path/src/parser/segment.rs
index 6ff4528..fa42ac2 100644
--- a/serde_json_path/src/parser/segment.rs
+++ b/serde_json_path/src/parser/segment.rs
@@ -112,7 +112,7 @@ fn parse_child_segment(input: &str) -> PResult<Segment> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_descendant_segment(input: &str) -> PResult<Segment> {
     preceded(
-        tag(".."),
+        pair(multispace0, tag("..")),
         alt((
             map(parse_wildcard_selector, |_| Segment::Wildcard),
             parse_child_long_hand,
-- 
2.43.0


From 1fef5631669a0d494e679346c25297e0d1f2f392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 11/23] fix: report expected and received argument counts the
 right way round

The error for a function called with the wrong number of arguments swapped the
two numbers.
---
 serde_json_path_macros/src/internal/common/define.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 9902b8b..8dd5f06 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -78,8 +78,8 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
             std::boxed::Box::new(|a: &[#core::FunctionExprArg]| {
                 if a.len() != #args_len {
                     return #res::Err(#core::FunctionValidationError::NumberOfArgsMismatch {
-                        expected: a.len(),
-                        received: #args_len,
+                        expected: #args_len,
+                        received: a.len(),
                     });
                 }
                 #(#arg_checks)*
-- 
2.43.0


From cc16ad6ffa184cf9c0aadb32a80d7178d610272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 12/23] fix: report exact size hints from Locations and Nodes

---
 serde_json_path_core/src/node.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serde_json_path_core/src/node.rs b/serde_json_path_core/src/node.rs
index 3b9577e..a1f1f0f 100644
--- a/serde_json_path_core/src/node.rs
+++ b/serde_json_path_core/src/node.rs
@@ -550,6 +550,10 @@ impl<'a> Iterator for Locations<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|l| l.location())
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for Locations<'_> {
@@ -580,6 +584,10 @@ impl<'a> Iterator for Nodes<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|l| l.node())
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for Nodes<'_> {
-- 
2.43.0


From c774759b445b6d796454ec28efd7caaf613f5af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 13/23] fix: order only numbers and strings, and let <= and >=
 hold for equal values

---
 .../src/spec/selector/filter.rs               | 34 +++----------------
 1 file changed, 4 insertions(+), 30 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 904631c..c4e5a88 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -304,25 +304,6 @@ fn check_less_than(left: &JsonPathValue, right: &JsonPathValue) -> bool {
     }
 }
 
-fn value_same_type(left: &Value, right: &Value) -> bool {
-    matches!((left, right), (Value::Null, Value::Null))
-        | matches!((left, right), (Value::Bool(_), Value::Bool(_)))
-        | matches!((left, right), (Value::Number(_), Value::Number(_)))
-        | matches!((left, right), (Value::String(_), Value::String(_)))
-        | matches!((left, right), (Value::Array(_), Value::Array(_)))
-        | matches!((left, right), (Value::Object(_), Value::Object(_)))
-}
-
-fn check_same_type(left: &JsonPathValue, right: &JsonPathValue) -> bool {
-    match (left, right) {
-        (JsonPathValue::Node(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
-        (JsonPathValue::Node(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
-        (JsonPathValue::Value(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
-        (JsonPathValue::Value(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
-        _ => false,
-    }
-}
-
 impl std::fmt::Display for ComparisonExpr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(
@@ -343,20 +324,13 @@ impl TestFilter for ComparisonExpr {
         match self.op {
             ComparisonOperator::EqualTo => check_equal_to(&left, &right),
             ComparisonOperator::NotEqualTo => !check_equal_to(&left, &right),
-            ComparisonOperator::LessThan => {
-                check_same_type(&left, &right) && check_less_than(&left, &right)
-            }
-            ComparisonOperator::GreaterThan => {
-                check_same_type(&left, &right)
-                    && !check_less_than(&left, &right)
-                    && !check_equal_to(&left, &right)
-            }
+            ComparisonOperator::LessThan => check_less_than(&left, &right),
+            ComparisonOperator::GreaterThan => check_less_than(&right, &left),
             ComparisonOperator::LessThanEqualTo => {
-                check_same_type(&left, &right)
-                    && (check_less_than(&left, &right) || check_equal_to(&left, &right))
+                check_less_than(&left, &right) || check_equal_to(&left, &right)
             }
             ComparisonOperator::GreaterThanEqualTo => {
-                check_same_type(&left, &right) && !check_less_than(&left, &right)
+                check_less_than(&right, &left) || check_equal_to(&left, &right)
             }
         }
     }
-- 
2.43.0


From f7b5b59aaf53112107d7076de6dbe1bfb8fd556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 14/23] fix: calls of functions without arguments never parsed

---
 .../src/parser/selector/function/mod.rs            | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index c8d046c..514b40b 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -1,5 +1,5 @@
 use nom::character::complete::char;
-use nom::combinator::{cut, map_res};
+use nom::combinator::{cut, map_res, peek, value};
 use nom::multi::separated_list0;
 use nom::sequence::{preceded, terminated};
 use nom::{
@@ -71,10 +71,14 @@ pub(crate) fn parse_function_expr(input: &str) -> PResult<FunctionExpr<Validated
             parse_function_name,
             delimited(
                 terminated(char('('), multispace0),
-                separated_list0(
-                    delimited(multispace0, char(','), multispace0),
-                    parse_function_argument,
-                ),
+                alt((
+                    // a function without arguments:
+                    value(Vec::new(), peek(char(')'))),
+                    separated_list0(
+                        delimited(multispace0, char(','), multispace0),
+                        parse_function_argument,
+                    ),
+                )),
                 preceded(multispace0, char(')')),
             ),
         ),
-- 
2.43.0


From 4feb7daca4747d2a8a7b96b427c7d96b0a9c3cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 15/23] Revert "fix: order only numbers and strings, and let <=
 and >= hold for equal values"

This reverts commit c774759b445b6d796454ec28efd7caaf613f5af3.
---
 .../src/spec/selector/filter.rs               | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index c4e5a88..904631c 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -304,6 +304,25 @@ fn check_less_than(left: &JsonPathValue, right: &JsonPathValue) -> bool {
     }
 }
 
+fn value_same_type(left: &Value, right: &Value) -> bool {
+    matches!((left, right), (Value::Null, Value::Null))
+        | matches!((left, right), (Value::Bool(_), Value::Bool(_)))
+        | matches!((left, right), (Value::Number(_), Value::Number(_)))
+        | matches!((left, right), (Value::String(_), Value::String(_)))
+        | matches!((left, right), (Value::Array(_), Value::Array(_)))
+        | matches!((left, right), (Value::Object(_), Value::Object(_)))
+}
+
+fn check_same_type(left: &JsonPathValue, right: &JsonPathValue) -> bool {
+    match (left, right) {
+        (JsonPathValue::Node(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
+        (JsonPathValue::Node(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
+        (JsonPathValue::Value(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
+        (JsonPathValue::Value(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
+        _ => false,
+    }
+}
+
 impl std::fmt::Display for ComparisonExpr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(
@@ -324,13 +343,20 @@ impl TestFilter for ComparisonExpr {
         match self.op {
             ComparisonOperator::EqualTo => check_equal_to(&left, &right),
             ComparisonOperator::NotEqualTo => !check_equal_to(&left, &right),
-            ComparisonOperator::LessThan => check_less_than(&left, &right),
-            ComparisonOperator::GreaterThan => check_less_than(&right, &left),
+            ComparisonOperator::LessThan => {
+                check_same_type(&left, &right) && check_less_than(&left, &right)
+            }
+            ComparisonOperator::GreaterThan => {
+                check_same_type(&left, &right)
+                    && !check_less_than(&left, &right)
+                    && !check_equal_to(&left, &right)
+            }
             ComparisonOperator::LessThanEqualTo => {
-                check_less_than(&left, &right) || check_equal_to(&left, &right)
+                check_same_type(&left, &right)
+                    && (check_less_than(&left, &right) || check_equal_to(&left, &right))
             }
             ComparisonOperator::GreaterThanEqualTo => {
-                check_less_than(&right, &left) || check_equal_to(&left, &right)
+                check_same_type(&left, &right) && !check_less_than(&left, &right)
             }
         }
     }
-- 
2.43.0


From e0d206f91778b5a66cb048eb80f2fb48894f7a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 16/23] Revert "fix: compare numbers inside arrays and objects
 by value"

This reverts commit 216e095c7130717b062722172ae58837cf5c7a82.
---
 serde_json_path_core/src/spec/selector/filter.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 904631c..d70b4c6 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -262,14 +262,6 @@ fn check_equal_to(left: &JsonPathValue, right: &JsonPathValue) -> bool {
 fn value_equal_to(left: &Value, right: &Value) -> bool {
     match (left, right) {
         (Value::Number(l), Value::Number(r)) => number_equal_to(l, r),
-        (Value::Array(l), Value::Array(r)) => {
-            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| value_equal_to(l, r))
-        }
-        (Value::Object(l), Value::Object(r)) => {
-            l.len() == r.len()
-                && l.iter()
-                    .all(|(k, l)| r.get(k).is_some_and(|r| value_equal_to(l, r)))
-        }
         _ => left == right,
     }
 }
-- 
2.43.0


From 51b885c9139a190c6b7aad77dfa8c1202450ec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 17/23] Revert "fix: resolve negative indexes in singular
 queries"

This reverts commit e650aeaf85645aa016552a7beb2fdb32f043f65b.
---
 serde_json_path_core/src/spec/selector/filter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index d70b4c6..9d7e54a 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -565,7 +565,10 @@ impl SingularQuery {
                     }
                 }
                 SingularQuerySegment::Index(index) => {
-                    if let Some(t) = index.query(target, root).pop() {
+                    if let Some(t) = target
+                        .as_array()
+                        .and_then(|l| usize::try_from(index.0).ok().and_then(|i| l.get(i)))
+                    {
                         target = t;
                     } else {
                         return None;
-- 
2.43.0


From c9030994ca01e12d545a71f92e9bbcdfd8724ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 18/23] Revert "fix: keep the negation when displaying a
 negated function expression"

This reverts commit a3745f8b1bb8e621b03a893e37c2482838711b9b.
---
 serde_json_path_core/src/spec/selector/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 9d7e54a..830f76d 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -186,7 +186,7 @@ impl std::fmt::Display for BasicExpr {
             BasicExpr::Exist(exist) => write!(f, "{exist}"),
             BasicExpr::NotExist(exist) => write!(f, "!{exist}"),
             BasicExpr::FuncExpr(expr) => write!(f, "{expr}"),
-            BasicExpr::NotFuncExpr(expr) => write!(f, "!{expr}"),
+            BasicExpr::NotFuncExpr(expr) => write!(f, "{expr}"),
         }
     }
 }
-- 
2.43.0


From 233ca801a9738ab4c918f5ae8536d5c2745b0cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 19/23] Revert "fix: escape names and string literals when
 displaying a query"

This reverts commit 1ff0aeef45c97748ebdcf6128eaee54c816b53f9.
---
 .../src/spec/selector/filter.rs               |  8 ++----
 .../src/spec/selector/name.rs                 | 26 +------------------
 2 files changed, 3 insertions(+), 31 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 830f76d..a81b831 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -11,11 +11,7 @@ use crate::{
     },
 };
 
-use super::{
-    index::Index,
-    name::{write_quoted, Name},
-    Selector,
-};
+use super::{index::Index, name::Name, Selector};
 
 mod sealed {
     use serde_json::Value;
@@ -476,7 +472,7 @@ impl std::fmt::Display for Literal {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Literal::Number(n) => write!(f, "{n}"),
-            Literal::String(s) => write_quoted(f, s),
+            Literal::String(s) => write!(f, "'{s}'"),
             Literal::Bool(b) => write!(f, "{b}"),
             Literal::Null => write!(f, "null"),
         }
diff --git a/serde_json_path_core/src/spec/selector/name.rs b/serde_json_path_core/src/spec/selector/name.rs
index 6af15eb..758ef66 100644
--- a/serde_json_path_core/src/spec/selector/name.rs
+++ b/serde_json_path_core/src/spec/selector/name.rs
@@ -16,34 +16,10 @@ impl Name {
 
 impl std::fmt::Display for Name {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write_quoted(f, &self.0)
+        write!(f, "'{name}'", name = self.0)
     }
 }
 
-/// Write a string as a single-quoted JSONPath string literal, escaping it so that parsing the
-/// literal gives the same string back, as per [the specification][norm-paths]
-///
-/// [norm-paths]: https://www.rfc-editor.org/rfc/rfc9535#section-2.7
-pub(crate) fn write_quoted(f: &mut std::fmt::Formatter<'_>, s: &str) -> std::fmt::Result {
-    use std::fmt::Write;
-
-    f.write_char('\'')?;
-    for c in s.chars() {
-        match c {
-            '\u{0008}' => f.write_str("\\b")?,
-            '\u{0009}' => f.write_str("\\t")?,
-            '\u{000A}' => f.write_str("\\n")?,
-            '\u{000C}' => f.write_str("\\f")?,
-            '\u{000D}' => f.write_str("\\r")?,
-            '\'' => f.write_str("\\'")?,
-            '\\' => f.write_str("\\\\")?,
-            '\u{0000}'..='\u{001F}' => write!(f, "\\u{:04x}", c as u32)?,
-            _ => f.write_char(c)?,
-        }
-    }
-    f.write_char('\'')
-}
-
 impl Queryable for Name {
     #[cfg_attr(feature = "trace", tracing::instrument(name = "Query Name", level = "trace", parent = None, ret))]
     fn query<'b>(&self, current: &'b Value, _root: &'b Value) -> Vec<&'b Value> {
-- 
2.43.0


From ec93affeed26a89367ed4ca07a033437850bfc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 20/23] Revert "fix: display descendant shorthand segments with
 two dots, not three"

This reverts commit ae0c2306b5f0aec7c8e60d7bf10e7b7d5ff36f9b.
---
 serde_json_path_core/src/spec/segment.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/serde_json_path_core/src/spec/segment.rs b/serde_json_path_core/src/spec/segment.rs
index 708dd7f..20e036e 100644
--- a/serde_json_path_core/src/spec/segment.rs
+++ b/serde_json_path_core/src/spec/segment.rs
@@ -29,11 +29,7 @@ impl QuerySegment {
 impl std::fmt::Display for QuerySegment {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if matches!(self.kind, QuerySegmentKind::Descendant) {
-            // The shorthand segments already write one of the two leading dots:
-            match self.segment {
-                Segment::LongHand(_) => write!(f, "..")?,
-                Segment::DotName(_) | Segment::Wildcard => write!(f, ".")?,
-            }
+            write!(f, "..")?;
         }
         write!(f, "{segment}", segment = self.segment)
     }
-- 
2.43.0


From c0fc7e1423a7e459321d0c0a7606dfc8cc68cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:46 +0000
Subject: [PATCH 21/23] fix: escape member names when displaying a normalized
 path

The first version of this fix borrowed its helper from the selectors, whose
files stay as they were: the escaping now lies in the one place that needs it.
---
 serde_json_path_core/src/path.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/serde_json_path_core/src/path.rs b/serde_json_path_core/src/path.rs
index 4f7fdea..17bf1e9 100644
--- a/serde_json_path_core/src/path.rs
+++ b/serde_json_path_core/src/path.rs
@@ -9,8 +9,6 @@ use std::{
 
 use serde::Serialize;
 
-use crate::spec::selector::name::write_quoted;
-
 // Documented in the serde_json_path crate, for linking purposes
 #[allow(missing_docs)]
 #[derive(Debug, Default, Eq, PartialEq, Clone, PartialOrd)]
@@ -195,9 +193,21 @@ impl Display for NormalizedPath<'_> {
         for elem in &self.0 {
             match elem {
                 PathElement::Name(name) => {
-                    f.write_str("[")?;
-                    write_quoted(f, name)?;
-                    f.write_str("]")?;
+                    f.write_str("['")?;
+                    for c in name.chars() {
+                        match c {
+                            '\u{0008}' => f.write_str("\\b")?,
+                            '\u{0009}' => f.write_str("\\t")?,
+                            '\u{000A}' => f.write_str("\\n")?,
+                            '\u{000C}' => f.write_str("\\f")?,
+                            '\u{000D}' => f.write_str("\\r")?,
+                            '\'' => f.write_str("\\'")?,
+                            '\\' => f.write_str("\\\\")?,
+                            '\u{0000}'..='\u{001F}' => write!(f, "\\u{:04x}", c as u32)?,
+                            _ => write!(f, "{c}")?,
+                        }
+                    }
+                    f.write_str("']")?;
                 }
                 PathElement::Index(index) => write!(f, "[{index}]")?,
             }
-- 
2.43.0


From e803a87bb3b3ef45889054c0abb4ee4660e5a8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:07 +0000
Subject: [PATCH 22/23] fix: parsing nested filters took time exponential in
 their depth

---
 serde_json_path/src/parser/selector/filter.rs | 62 ++++++++++++++-----
 .../src/parser/selector/function/mod.rs       |  9 ++-
 2 files changed, 53 insertions(+), 18 deletions(-)

diff --git a/serde_json_path/src/parser/selector/filter.rs b/serde_json_path/src/parser/selector/filter.rs
index 40c332c..9463e90 100644
--- a/serde_json_path/src/parser/selector/filter.rs
+++ b/serde_json_path/src/parser/selector/filter.rs
@@ -1,5 +1,5 @@
 use nom::character::complete::{char, multispace0};
-use nom::combinator::{cut, map, map_res};
+use nom::combinator::{cut, map, map_res, peek, success};
 use nom::multi::separated_list1;
 use nom::sequence::{delimited, pair, preceded, separated_pair, tuple};
 use nom::{branch::alt, bytes::complete::tag, combinator::value};
@@ -54,8 +54,17 @@ fn parse_exist_expr_inner(input: &str) -> PResult<ExistExpr> {
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-fn parse_exist_expr(input: &str) -> PResult<BasicExpr> {
-    map(parse_exist_expr_inner, BasicExpr::Exist)(input)
+fn parse_query_expr(input: &str) -> PResult<BasicExpr> {
+    // Whether this is an existence test or a comparison shows only after the query, which must not
+    // be parsed again to find out: with nested filters that would take exponential time.
+    let (rest, query) = parse_query(input)?;
+    if let Ok((rest, (op, right))) = parse_comparison_tail(rest) {
+        if let Ok(left) = query.clone().try_into().map(Comparable::SingularQuery) {
+            let comparison = ComparisonExpr { left, op, right };
+            return Ok((rest, BasicExpr::Relation(comparison)));
+        }
+    }
+    Ok((rest, BasicExpr::Exist(ExistExpr(query))))
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
@@ -66,17 +75,33 @@ fn parse_not_exist_expr(input: &str) -> PResult<BasicExpr> {
     )(input)
 }
 
-#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-fn parse_func_expr_inner(input: &str) -> PResult<FunctionExpr<Validated>> {
-    cut(map_res(parse_function_expr, |fe| match fe.return_type {
+fn check_func_expr(
+    fe: FunctionExpr<Validated>,
+) -> Result<FunctionExpr<Validated>, FunctionValidationError> {
+    match fe.return_type {
         FunctionArgType::Logical | FunctionArgType::Nodelist => Ok(fe),
         _ => Err(FunctionValidationError::IncorrectFunctionReturnType),
-    }))(input)
+    }
+}
+
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_func_expr_inner(input: &str) -> PResult<FunctionExpr<Validated>> {
+    cut(map_res(parse_function_expr, check_func_expr))(input)
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_func_expr(input: &str) -> PResult<BasicExpr> {
-    map(parse_func_expr_inner, BasicExpr::FuncExpr)(input)
+    // As with queries, the function expression is parsed only once for either purpose.
+    let (rest, func) = parse_function_expr(input)?;
+    if func.return_type == FunctionArgType::Value {
+        if let Ok((rest, (op, right))) = parse_comparison_tail(rest) {
+            let left = Comparable::FunctionExpr(func);
+            let comparison = ComparisonExpr { left, op, right };
+            return Ok((rest, BasicExpr::Relation(comparison)));
+        }
+    }
+    let (_, func) = cut(map_res(success(func), check_func_expr))(input)?;
+    Ok((rest, BasicExpr::FuncExpr(func)))
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
@@ -114,9 +139,12 @@ fn parse_basic_expr(input: &str) -> PResult<BasicExpr> {
     alt((
         parse_not_parent_expr,
         parse_paren_expr,
-        map(parse_comp_expr, BasicExpr::Relation),
+        preceded(
+            peek(parse_literal),
+            map(parse_comp_expr, BasicExpr::Relation),
+        ),
         parse_not_exist_expr,
-        parse_exist_expr,
+        parse_query_expr,
         parse_not_func_expr,
         parse_func_expr,
     ))(input)
@@ -125,15 +153,19 @@ fn parse_basic_expr(input: &str) -> PResult<BasicExpr> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_comp_expr(input: &str) -> PResult<ComparisonExpr> {
     map(
-        separated_pair(
-            parse_comparable,
-            multispace0,
-            separated_pair(parse_comparison_operator, multispace0, parse_comparable),
-        ),
+        pair(parse_comparable, parse_comparison_tail),
         |(left, (op, right))| ComparisonExpr { left, op, right },
     )(input)
 }
 
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_comparison_tail(input: &str) -> PResult<(ComparisonOperator, Comparable)> {
+    preceded(
+        multispace0,
+        separated_pair(parse_comparison_operator, multispace0, parse_comparable),
+    )(input)
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_comparison_operator(input: &str) -> PResult<ComparisonOperator> {
     alt((
diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index 514b40b..0612c5d 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -19,7 +19,7 @@ use crate::parser::{parse_query, PResult};
 
 use self::registry::REGISTRY;
 
-use super::filter::{parse_literal, parse_logical_or_expr, parse_singular_path};
+use super::filter::{parse_literal, parse_logical_or_expr};
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_function_name_first(input: &str) -> PResult<char> {
@@ -57,8 +57,11 @@ fn parse_function_name(input: &str) -> PResult<String> {
 fn parse_function_argument(input: &str) -> PResult<FunctionExprArg> {
     alt((
         map(parse_literal, FunctionExprArg::Literal),
-        map(parse_singular_path, FunctionExprArg::SingularQuery),
-        map(parse_query, FunctionExprArg::FilterQuery),
+        // parsed once for both, or else nested filters would take exponential time
+        map(parse_query, |query| match query.clone().try_into() {
+            Ok(singular) => FunctionExprArg::SingularQuery(singular),
+            Err(_) => FunctionExprArg::FilterQuery(query),
+        }),
         map(parse_function_expr, FunctionExprArg::FunctionExpr),
         map(parse_logical_or_expr, FunctionExprArg::LogicalExpr),
     ))(input)
-- 
2.43.0


From f2b2fb86dfb6fe634c868eafb5122ee8046324ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:02 +0000
Subject: [PATCH 23/23] fix: dedup of located nodes from different documents
 panicked

---
 serde_json_path_core/src/path.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/path.rs b/serde_json_path_core/src/path.rs
index 17bf1e9..e2e12ad 100644
--- a/serde_json_path_core/src/path.rs
+++ b/serde_json_path_core/src/path.rs
@@ -274,7 +274,9 @@ impl PartialOrd for PathElement<'_> {
         match (self, other) {
             (PathElement::Name(a), PathElement::Name(b)) => a.partial_cmp(b),
             (PathElement::Index(a), PathElement::Index(b)) => a.partial_cmp(b),
-            _ => None,
+            // These meet only where locations in different documents are compared.
+            (PathElement::Index(_), PathElement::Name(_)) => Some(Ordering::Less),
+            (PathElement::Name(_), PathElement::Index(_)) => Some(Ordering::Greater),
         }
     }
 }
-- 
2.43.0

