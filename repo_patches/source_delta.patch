From d28c9ebf8cf50ff0e226037257c37cb24853a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 01/25] fix: unique search ended at the first node that was
 queued twice

---
 search/src/search.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/search/src/search.rs b/search/src/search.rs
index 726b78f..03c1349 100644
--- a/search/src/search.rs
+++ b/search/src/search.rs
@@ -139,20 +139,19 @@ pub mod unique {
                 ref mut elements,
             } = self;
 
-            if let Some(item) = search.agenda.pop() {
+            // skip nodes that already occured
+            while let Some(item) = search.agenda.pop() {
                 if elements.insert(item.clone()) {
                     search.agenda.extend(
                         (search.successors)(&item)
                             .into_iter()
                             .filter(|i| !elements.contains(i)),
                     );
-                    Some(item)
-                } else {
-                    None
+                    return Some(item);
                 }
-            } else {
-                None
             }
+
+            None
         }
     }
 }
-- 
2.43.0


From 1a5a06df33a066e4e1ab61761651501dc2dfead0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 02/25] fix: a unique heap made from a vector held duplicate
 items

---
 unique-heap/src/lib.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/unique-heap/src/lib.rs b/unique-heap/src/lib.rs
index 427af98..b72d97a 100644
--- a/unique-heap/src/lib.rs
+++ b/unique-heap/src/lib.rs
@@ -134,11 +134,7 @@ where
     B: BuildHasher + Default,
 {
     fn from(vec: Vec<(W, I)>) -> Self {
-        let current_items = vec.iter().map(|(_, i)| i).cloned().collect();
-        UniqueHeap {
-            heap: vec.into(),
-            current_items,
-        }
+        vec.into_iter().map(|(weight, item)| (item, weight)).collect()
     }
 }
 
-- 
2.43.0


From cff77b7d98f00037adbdeae1a05e3e0d0e1f7528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 03/25] fix: a leading terminal before a variable was not
 separated

---
 src/grammars/pmcfg/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/grammars/pmcfg/mod.rs b/src/grammars/pmcfg/mod.rs
index cfcb779..66ef688 100644
--- a/src/grammars/pmcfg/mod.rs
+++ b/src/grammars/pmcfg/mod.rs
@@ -478,6 +478,7 @@ where
             for variable in component {
                 match variable {
                     &VarT::Var(num_nonter, num_compon) => {
+                        contains_only_one_terminal = false;
                         new_component.push(VarT::Var(num_nonter, num_compon));
                     }
                     &VarT::T(ref terminal) => {
-- 
2.43.0


From 53dad43e9815c7f727281a166e5dbaf0cb22e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 04/25] fix: reading a partition with overlapping cells aborted

---
 src/util/partition.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/partition.rs b/src/util/partition.rs
index 17e8a6d..fe32112 100644
--- a/src/util/partition.rs
+++ b/src/util/partition.rs
@@ -3,7 +3,7 @@ use std::collections::{BTreeMap, BTreeSet};
 use std::ops::Deref;
 use std::rc::Rc;
 
-use serde::de::{Deserialize, Deserializer};
+use serde::de::{Deserialize, Deserializer, Error};
 use serde::ser::{Serialize, Serializer};
 
 /// A partition Π = {π₁, …, πₙ} of an alpbabet Σ, such that
@@ -76,7 +76,8 @@ impl<T: Serialize + Ord + Clone> Serialize for Partition<T> {
 impl<'de, T: Deserialize<'de> + Ord + Clone> Deserialize<'de> for Partition<T> {
     fn deserialize<D: Deserializer<'de>>(des: D) -> Result<Self, D::Error> {
         match Vec::deserialize(des) {
-            Ok(cells) => Ok(Partition::new(cells).unwrap()),
+            Ok(cells) => Partition::new(cells)
+                .ok_or_else(|| D::Error::custom("the cells of a partition must be disjoint")),
             Err(e) => Err(e),
         }
     }
-- 
2.43.0


From 2de2d51d729c30602bc2ab0cff24c557d56f8ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 05/25] fix: an indented declaration of initial symbols was
 rejected

---
 src/util/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/parsing.rs b/src/util/parsing.rs
index d0bbad6..d10e12b 100644
--- a/src/util/parsing.rs
+++ b/src/util/parsing.rs
@@ -130,7 +130,7 @@ where
 
     while let Some(l) = it.next() {
         if l.trim_start().starts_with("initial:") {
-            match parse_initials(l.as_bytes()) {
+            match parse_initials(l.trim_start().as_bytes()) {
                 IResult::Done(_, mut result) => initial.append(&mut result),
                 _ => {
                     return Err(format!(
-- 
2.43.0


From c3383fb2cd2ee2a146e5fa067c5a4bd529ff238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 06/25] fix: lines of white space were not treated as blank
 lines

---
 src/approximation/equivalence_classes.rs        | 2 +-
 src/automata/finite_state_automaton/from_str.rs | 2 +-
 src/automata/tree_stack_automaton/from_str.rs   | 2 +-
 src/util/parsing.rs                             | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index a3e3eb7..a59c430 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -140,7 +140,7 @@ where
         let mut default = None;
 
         for l in s.lines() {
-            if !l.is_empty() {
+            if !l.trim().is_empty() {
                 match l.trim().parse()? {
                     EquivalenceClass {
                         label,
diff --git a/src/automata/finite_state_automaton/from_str.rs b/src/automata/finite_state_automaton/from_str.rs
index ff542cd..1ea58a8 100644
--- a/src/automata/finite_state_automaton/from_str.rs
+++ b/src/automata/finite_state_automaton/from_str.rs
@@ -41,7 +41,7 @@ where
                     }
                     _ => return Err(format!("Malformed final declaration: {}", l)),
                 }
-            } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+            } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
                 transitions.push(l.trim().parse()?);
             }
         }
diff --git a/src/automata/tree_stack_automaton/from_str.rs b/src/automata/tree_stack_automaton/from_str.rs
index 3150cc4..197d6c3 100644
--- a/src/automata/tree_stack_automaton/from_str.rs
+++ b/src/automata/tree_stack_automaton/from_str.rs
@@ -35,7 +35,7 @@ where
                     }
                     _ => return Err(format!("Malformed initial declaration: {}", l)),
                 }
-            } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+            } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
                 transitions.push(l.trim().parse()?);
             }
         }
diff --git a/src/util/parsing.rs b/src/util/parsing.rs
index d10e12b..2645278 100644
--- a/src/util/parsing.rs
+++ b/src/util/parsing.rs
@@ -139,7 +139,7 @@ where
                     ))
                 }
             }
-        } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+        } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
             rules.push(l.trim().parse()?);
         }
     }
-- 
2.43.0


From daeef85ee85fc4cb001fd4f241fb680c92a58cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 07/25] fix: classes defined twice silently lost elements when
 an equivalence relation was read

---
 src/approximation/equivalence_classes.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index a59c430..19f8059 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -146,10 +146,14 @@ where
                         label,
                         set: Some(elements),
                     } => {
-                        map.insert(label, elements);
+                        if map.insert(label, elements).is_some() {
+                            return Err(format!("Multiple definitions of a class in {}", s));
+                        }
                     }
                     EquivalenceClass { label, set: None } => {
-                        default = Some(label);
+                        if default.replace(label).is_some() {
+                            return Err(format!("Multiple default classes in {}", s));
+                        }
                     }
                 }
             }
-- 
2.43.0


From 8a1d14cca971ee4fada1a4aad932bf8ead6e4b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 08/25] fix: malformed numbers in PMCFG rules caused a panic

---
 src/grammars/pmcfg/from_str.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/grammars/pmcfg/from_str.rs b/src/grammars/pmcfg/from_str.rs
index 274de4e..6057627 100644
--- a/src/grammars/pmcfg/from_str.rs
+++ b/src/grammars/pmcfg/from_str.rs
@@ -75,7 +75,8 @@ where
                     tag!("#")
                         >> take_while!(is_space)
                         >> weight_s: map_res!(is_not!(" "), from_utf8)
-                        >> (weight_s.parse().unwrap())
+                        >> weight: expr_res!(weight_s.parse())
+                        >> (weight)
                 )))
             >> take_while!(is_space)
             >> many0!(tag!("%"))
@@ -103,13 +104,12 @@ where
                 do_parse!(
                     tag!("Var")
                         >> take_while!(is_space)
-                        >> i: digit
+                        >> i_s: map_res!(digit, from_utf8)
+                        >> i: expr_res!(i_s.parse())
                         >> take_while!(is_space)
-                        >> j: digit
-                        >> (VarT::Var(
-                            from_utf8(i).unwrap().parse().unwrap(),
-                            from_utf8(j).unwrap().parse().unwrap(),
-                        ))
+                        >> j_s: map_res!(digit, from_utf8)
+                        >> j: expr_res!(j_s.parse())
+                        >> (VarT::Var(i, j))
                 ) | do_parse!(
                     tag!("T") >> take_while!(is_space) >> token: parse_token >> (VarT::T(token))
                 )
-- 
2.43.0


From 8057a917c5a58cb2f8ab52d0767694aceccd7264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 09/25] fix: anything was accepted after a PMCFG rule

---
 src/grammars/pmcfg/from_str.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/grammars/pmcfg/from_str.rs b/src/grammars/pmcfg/from_str.rs
index 6057627..b235c2f 100644
--- a/src/grammars/pmcfg/from_str.rs
+++ b/src/grammars/pmcfg/from_str.rs
@@ -79,8 +79,7 @@ where
                         >> (weight)
                 )))
             >> take_while!(is_space)
-            >> many0!(tag!("%"))
-            >> take_while!(|_| true)
+            >> alt!(eof!() | preceded!(tag!("%"), take_while!(|_| true)))
             >> (PMCFGRule {
                 head: head,
                 tail: tail,
-- 
2.43.0


From 0a89a870723ae0391e91e956ed0fe7cd4cbf5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 10/25] fix: malformed weights and instructions of transitions
 caused a panic

---
 src/recognisable/from_str.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/recognisable/from_str.rs b/src/recognisable/from_str.rs
index bc21893..4b7efe8 100644
--- a/src/recognisable/from_str.rs
+++ b/src/recognisable/from_str.rs
@@ -20,7 +20,7 @@ where
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match parse_transition(s.as_bytes()) {
-            IResult::Done(_, result) => Ok(result),
+            IResult::Done(rest, result) if rest.is_empty() => Ok(result),
             _ => Err(format!("Could not parse: {}", s)),
         }
     }
@@ -41,25 +41,27 @@ where
             >> take_while!(is_space)
             >> word: parse_word
             >> take_while!(is_space)
-            >> instruction:
+            >> instruction_s:
                 map_res!(
                     delimited!(tag!("("), take_until!(")"), tag!(")")),
                     from_utf8
                 )
+            >> instruction: expr_res!(instruction_s.parse())
             >> take_while!(is_space)
             >> weight_o:
                 opt!(complete!(do_parse!(
                     tag!("#")
                         >> take_while!(is_space)
                         >> weight_s: map_res!(is_not!(" "), from_utf8)
-                        >> (weight_s.parse().unwrap())
+                        >> weight: expr_res!(weight_s.parse())
+                        >> (weight)
                 )))
             >> take_while!(is_space)
             >> opt!(complete!(parse_comment))
             >> (Transition {
                 word: word,
                 weight: weight_o.unwrap_or(W::one()),
-                instruction: instruction.parse().unwrap(),
+                instruction: instruction,
             })
     )
 }
-- 
2.43.0


From fb89f2bd9e93d18a6f6d232d97e14b8bf24df53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 11/25] fix: an empty tree stack instruction caused a panic

---
 src/automata/tree_stack_automaton/from_str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/from_str.rs b/src/automata/tree_stack_automaton/from_str.rs
index 197d6c3..7f28466 100644
--- a/src/automata/tree_stack_automaton/from_str.rs
+++ b/src/automata/tree_stack_automaton/from_str.rs
@@ -53,7 +53,7 @@ impl<A: FromStr> FromStr for TreeStackInstruction<A> {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let v: Vec<&str> = s.split_whitespace().collect();
         let e: String = "Malformed node label.".to_string();
-        match v[0] {
+        match v.first().map_or("", |x| *x) {
             "Up" if v.len() == 5 => {
                 let n: usize = v[1].parse().map_err(|e: ParseIntError| e.to_string())?;
                 let cur_val: A = v[2].parse().map_err(|_| e.clone())?;
-- 
2.43.0


From d751c14e25405d703ee8aae4bf400cf8f81f2ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 12/25] fix: malformed symbols and weights in rparse clauses
 caused a panic

---
 src/grammars/lcfrs/from_rparse.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/grammars/lcfrs/from_rparse.rs b/src/grammars/lcfrs/from_rparse.rs
index 3de68a4..c380d41 100644
--- a/src/grammars/lcfrs/from_rparse.rs
+++ b/src/grammars/lcfrs/from_rparse.rs
@@ -51,21 +51,25 @@ where
             tag!("\n"),
             do_parse!(
                 terminated!(digit, space)
-                    >> weight: take_while1!(|c| is_token(c) && c != ':')
+                    >> weight_s: take_while1!(|c| is_token(c) && c != ':')
+                    >> weight: expr_res!(weight_s.parse())
                     >> tag!(":")
-                    >> lhs: take_while1!(is_token)
+                    >> lhs_s: take_while1!(is_token)
+                    >> lhs: expr_res!(lhs_s.parse())
                     >> delimited!(space, tag!("-->"), space)
-                    >> rhs1: take_while1!(is_token)
+                    >> rhs1_s: take_while1!(is_token)
+                    >> rhs1: expr_res!(rhs1_s.parse())
                     >> space
-                    >> o_rhs2: opt!(delimited!(not!(tag!("[[[")), take_while1!(is_token), space))
+                    >> o_rhs2_s: opt!(delimited!(not!(tag!("[[[")), take_while1!(is_token), space))
+                    >> o_rhs2: expr_res!(o_rhs2_s.map(|rhs2_s| rhs2_s.parse()).transpose())
                     >> y: complete!(parse_rparse_yield)
                     >> (
-                        weight.parse().unwrap(),
-                        lhs.parse().unwrap(),
+                        weight,
+                        lhs,
                         if let Some(rhs2) = o_rhs2 {
-                            Rhs::Binary(rhs1.parse().unwrap(), rhs2.parse().unwrap())
+                            Rhs::Binary(rhs1, rhs2)
                         } else {
-                            Rhs::Chain(rhs1.parse().unwrap())
+                            Rhs::Chain(rhs1)
                         },
                         y
                     )
-- 
2.43.0


From 5c3bca220afe251bee391ae8b6ac36ffc729673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 13/25] fix: imports of rparse and disco-dop files silently
 dropped everything after a malformed line

---
 src/grammars/lcfrs/from_discodop.rs | 12 ++++++++++--
 src/grammars/lcfrs/from_rparse.rs   |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index 96a76ef..fc236a7 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -31,6 +31,14 @@ fn is_binary_digit(c: char) -> bool {
     c == '0' || c == '1'
 }
 
+/// Accepts the result of a parser only if nothing but white space is left of its input.
+fn complete_text<O>(parsed: IResult<&str, O>) -> IResult<&str, O> {
+    match parsed {
+        IResult::Done(rest, _) if !rest.trim().is_empty() => IResult::Error(ErrorKind::Eof),
+        _ => parsed,
+    }
+}
+
 /// Interprets a string over { '0', '1' } in reverse as an integer in binary format.
 fn from_binary(s: &str) -> Option<u64> {
     s.chars()
@@ -332,7 +340,7 @@ where
     type Err = nom::Err<u32>;
     fn from_str(constituent_str: &str) -> Result<Self, Self::Err> {
         Ok(DiscoDopGrammar {
-            constituents: parse_discodop_constituents(constituent_str).to_result()?,
+            constituents: complete_text(parse_discodop_constituents(constituent_str)).to_result()?,
             lexer: None,
         })
     }
@@ -349,7 +357,7 @@ where
 {
     type Err = nom::Err<u32>;
     fn from_str(lexer_str: &str) -> Result<Self, Self::Err> {
-        parse_discodop_lexer(lexer_str).to_result()
+        complete_text(parse_discodop_lexer(lexer_str)).to_result()
     }
 }
 
diff --git a/src/grammars/lcfrs/from_rparse.rs b/src/grammars/lcfrs/from_rparse.rs
index c380d41..093338d 100644
--- a/src/grammars/lcfrs/from_rparse.rs
+++ b/src/grammars/lcfrs/from_rparse.rs
@@ -89,7 +89,7 @@ where
     type Err = ();
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match parse_rparse_clauses(s) {
-            IResult::Done(_, clauses) => Ok(clauses),
+            IResult::Done(rest, clauses) if rest.trim().is_empty() => Ok(clauses),
             _ => Err(()),
         }
     }
-- 
2.43.0


From 2bb819e8e8cd17988f24a37cf9ca01df5e3e471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 14/25] fix: disco-dop yield functions with more than 64
 variables caused an overflow

---
 src/grammars/lcfrs/from_discodop.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index fc236a7..8a07368 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -41,6 +41,10 @@ fn complete_text<O>(parsed: IResult<&str, O>) -> IResult<&str, O> {
 
 /// Interprets a string over { '0', '1' } in reverse as an integer in binary format.
 fn from_binary(s: &str) -> Option<u64> {
+    if s.len() > 64 {
+        return None;
+    }
+
     s.chars()
         .enumerate()
         .map(|(i, c)| match c {
-- 
2.43.0


From 51ac1018204eeb92ba3472e106608a40d24fccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 15/25] fix: Lcfrs::new panicked on a right-hand side
 nonterminal without rules

---
 src/grammars/lcfrs/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index c0eeadd..89662f3 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -31,8 +31,11 @@ where
             // scope for lieftime of `fanouts` that borrows from rules
             let fanouts = read_fanouts(&rules)?;
             let check_fanouts = |rule: &PMCFGRule<N, T, W>| -> bool {
-                let fanouts: Vec<usize> = rule.tail.iter().map(|nt| fanouts[nt]).collect();
-                check_composition(&rule.composition.composition, &fanouts)
+                let fanouts: Option<Vec<usize>> =
+                    rule.tail.iter().map(|nt| fanouts.get(nt).cloned()).collect();
+                fanouts.map_or(false, |fanouts| {
+                    check_composition(&rule.composition.composition, &fanouts)
+                })
             };
 
             // check initial fanout
-- 
2.43.0


From 81c125607cad95e2d076ebcfd04d1359ad55eace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 16/25] fix: conversion of an MCFG with a nonterminal without
 rules into an LCFRS panicked

---
 src/grammars/lcfrs/conversion.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grammars/lcfrs/conversion.rs b/src/grammars/lcfrs/conversion.rs
index ef428e9..39c61ba 100644
--- a/src/grammars/lcfrs/conversion.rs
+++ b/src/grammars/lcfrs/conversion.rs
@@ -70,7 +70,10 @@ where
         .uniques()
         {
             for rule in rulemap.get(a).unwrap_or(&Vec::new()) {
-                rules.push(to_lcfrs_rule((*rule).clone(), deletions.clone(), &fanouts));
+                // a nonterminal without rules has no fanout, and a rule with it derives nothing
+                if rule.tail.iter().all(|nt| fanouts.contains_key(nt)) {
+                    rules.push(to_lcfrs_rule((*rule).clone(), deletions.clone(), &fanouts));
+                }
             }
         }
 
-- 
2.43.0


From 7a367db1beb1c25c8b8f8c2e8b79a255f32d3172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 17/25] fix: LCFRS rules whose last successor has fanout 0 were
 rejected

---
 src/grammars/lcfrs/mod.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index 89662f3..157d67a 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -127,15 +127,14 @@ fn check_composition<T>(composition: &[Vec<VarT<T>>], fanouts: &[usize]) -> bool
         VecMultiMapAdapter(&mut variable_occurances)[i].push(j);
     }
 
-    variable_occurances.len() == fanouts.len()
-        && variable_occurances
-            .into_iter()
-            .enumerate()
-            .all(|(i, mut js)| {
-                js.sort();
-                let js_: Vec<usize> = (0..fanouts[i]).collect();
-                js == js_
-            })
+    // there are no occurances for the last successors if they have fanout 0
+    variable_occurances.len() <= fanouts.len()
+        && fanouts.iter().enumerate().all(|(i, &fanout)| {
+            let mut js = variable_occurances.get(i).cloned().unwrap_or_default();
+            js.sort();
+            let js_: Vec<usize> = (0..fanout).collect();
+            js == js_
+        })
 }
 
 #[cfg(test)]
-- 
2.43.0


From f8c052bce71a9816f40d4f2f257b7c9e66762a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 18/25] fix: the initial nonterminal of a printed LCFRS could
 not be read back

---
 src/grammars/lcfrs/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index 157d67a..113a4d2 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -79,7 +79,7 @@ impl<N: Display, T: Display, W: Display> Display for Lcfrs<N, T, W> {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let mut buffer = "".to_string();
 
-        buffer.push_str(format!("initial: [{}]\n\n", self.init).as_str());
+        buffer.push_str(format!("initial: [\"{}\"]\n\n", self.init).as_str());
 
         for r in &self.rules {
             buffer.push_str(format!("{}\n", r).as_str());
-- 
2.43.0


From 6dce6b2444c7b7ca58bf8ac34e1a3720c1e1eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 19/25] fix: read unquoted tokens with characters that share
 bytes with an arrow

---
 src/util/parsing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/parsing.rs b/src/util/parsing.rs
index 2645278..3eb44dd 100644
--- a/src/util/parsing.rs
+++ b/src/util/parsing.rs
@@ -20,7 +20,10 @@ where
                     tag!("\""),
                     escaped!(is_not!("\"\\"), '\\', one_of!("\\\"")),
                     tag!("\"")
-                ) | is_not!(" \\\"-→,;)]%#")
+                ) | recognize!(many1!(complete!(preceded!(
+                    not!(tag!("→")),
+                    none_of!(" \\\"-,;)]%#")
+                ))))
             ),
             from_utf8
         )
-- 
2.43.0


From d3bff9217af6c6ccfba8be236e0844ce9f0646de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:03 +0000
Subject: [PATCH 20/25] fix: disco-dop yields and weights with trailing
 characters were read in part

---
 src/grammars/lcfrs/from_discodop.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index 8a07368..94403e9 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -181,8 +181,8 @@ where
                     } else {
                         (DiscoDeriv::Chain{lhs, rhs}, s_rhs_or_y, s_y_or_w)
                     };
-                    let ys = parse_yield(y).to_result().map_err(|_| ParseConsituentsError::Yield)?;
-                    let weight = parse_pseudocount(w).to_result().map_err(|_| ParseConsituentsError::Weight)?;
+                    let ys = complete_text(parse_yield(y)).to_result().map_err(|_| ParseConsituentsError::Yield)?;
+                    let weight = complete_text(parse_pseudocount(w)).to_result().map_err(|_| ParseConsituentsError::Weight)?;
                     Ok((deriv, ys, weight))
                 }
             )
-- 
2.43.0


From a7f48777ef7f376519d463c4e720298ad7013acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:38 +0000
Subject: [PATCH 21/25] fix: text behind an equivalence class was ignored

---
 src/approximation/equivalence_classes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index 19f8059..11a2e2e 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -179,8 +179,8 @@ where
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        match parse_class(s.as_bytes()) {
-            IResult::Done(_, result) => Ok(result),
+        match parse_class(s.trim_end().as_bytes()) {
+            IResult::Done(b"", result) => Ok(result),
             _ => Err(format!("Could not parse {}", s)),
         }
     }
-- 
2.43.0


From e3fe87490fc07489bb06de18506f4800b672628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:22 +0000
Subject: [PATCH 22/25] fix: the Down transitions of a PMCFG's automaton read
 all trailing terminals of a component

The buffer of trailing terminals was cleared before each token, so that only
the last terminal of a component was read.
---
 src/automata/tree_stack_automaton/from_pmcfg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/from_pmcfg.rs b/src/automata/tree_stack_automaton/from_pmcfg.rs
index 005b2e9..8033afe 100644
--- a/src/automata/tree_stack_automaton/from_pmcfg.rs
+++ b/src/automata/tree_stack_automaton/from_pmcfg.rs
@@ -77,8 +77,8 @@ impl<
             let mut down_buffer: Vec<T> = Vec::new();
             for component in &r.composition.composition {
                 i = 0;
+                down_buffer.clear();
                 for ntt in component {
-                    down_buffer.clear();
                     match *ntt {
                         VarT::Var(_, _) => {
                             i += 1;
-- 
2.43.0


From 402e429f646230a2e934b8223d38bb690dbe2da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:45 +0000
Subject: [PATCH 23/25] fix: coarse-to-fine recognition reads all coarse parses

The buffer for the next coarse parse stayed filled with None after its first
use, so only the first coarse parse was ever translated back.
---
 src/recognisable/coarse_to_fine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/recognisable/coarse_to_fine.rs b/src/recognisable/coarse_to_fine.rs
index 5f24832..f6d4a6c 100644
--- a/src/recognisable/coarse_to_fine.rs
+++ b/src/recognisable/coarse_to_fine.rs
@@ -70,8 +70,8 @@ where
         if self.input_buffer.is_none() {
             self.input_buffer = Some(self.sublevel_parses.next());
         }
-        match self.input_buffer {
-            Some(ref mut x) => x.take(),
+        match self.input_buffer.take() {
+            Some(x) => x,
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From cf6b405e8f03793d5d90b28f5adb5317c3e7c45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:35 +0000
Subject: [PATCH 24/25] fix: approximated transitions are found again whatever
 their weights

A pushdown automaton adds up the weights of equal transitions, so the
transitions of a coarse run were not found in the map back to the fine
transitions and coarse-to-fine recognition lost these parses.
---
 src/approximation/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/approximation/mod.rs b/src/approximation/mod.rs
index 7087d92..26e518b 100644
--- a/src/approximation/mod.rs
+++ b/src/approximation/mod.rs
@@ -54,7 +54,7 @@ where
     W: Clone + MulAssign + One + Ord,
 {
     reverse_transition_map:
-        BTreeMap<Transition<Strategy::I2, T, W>, Vec<Transition<Strategy::I1, T, W>>>,
+        BTreeMap<(Vec<T>, Strategy::I2), Vec<Transition<Strategy::I1, T, W>>>,
     strategy: Strategy,
 }
 
@@ -95,7 +95,7 @@ where
             weight: t1.weight.clone(),
         };
         self.reverse_transition_map
-            .entry(t2.clone())
+            .entry((t2.word.clone(), t2.instruction.clone()))
             .or_insert(Vec::new())
             .push(t1);
         t2
@@ -105,7 +105,9 @@ where
         &self,
         t2: &Transition<Strategy::I2, T, W>,
     ) -> Vec<Transition<Strategy::I1, T, W>> {
-        match self.reverse_transition_map.get(t2) {
+        // an automaton may have merged transitions that differ only in their weights
+        let key = (t2.word.clone(), t2.instruction.clone());
+        match self.reverse_transition_map.get(&key) {
             None => Vec::new(),
             Some(v) => v.clone(),
         }
-- 
2.43.0


From e3e3afd2547bf514602b201ac5c4b1ca7f9b78f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:42 +0000
Subject: [PATCH 25/25] fix: parses use only the terminal rules for the word's
 own terminals
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The enumeration of derivations took every terminal rule of a state at a
span of one word, whatever the word's terminal there: with A → a | b and
S → A A, parsing ab yielded derivations of aa, bb and ba as well.
---
 .../lcfrs/csparsing/automaton/kbest/mod.rs    | 35 ++++++++++++++++---
 src/grammars/lcfrs/csparsing/automaton/mod.rs |  2 +-
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index c0d476d..d0e3c75 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -1,6 +1,6 @@
 use super::{
-    Automaton, Bracket, BracketContent, DenseChart, RangeT, RuleIdT, StateT, TdBinary, TdBrackets,
-    TdNullary, TdUnary,
+    Automaton, Bracket, BracketContent, BuRule, DenseChart, RangeT, RuleIdT, StateT, TdBinary,
+    TdBrackets, TdNullary, TdUnary,
 };
 use fnv::FnvHashMap;
 use num_traits::Zero;
@@ -21,6 +21,8 @@ where
     nullaries: &'a [Vec<TdNullary<W>>],
     rules_to_brackets: &'a [TdBrackets],
     rulefilter: Vec<bool>,
+    // the rules for the terminal at each position of the word
+    initials: Option<Vec<&'a [(RuleIdT, BuRule<W>)]>>,
 
     // caches already queried hyperpaths and holds the next candidates
     // for each span and state
@@ -52,6 +54,7 @@ impl<'a, W: Ord> ChartIterator<'a, W> {
             nullaries: &automaton.5,
             rules_to_brackets: &automaton.8,
             rulefilter,
+            initials: None,
             // we need at most `beam` entries for each span
             d: FnvHashMap::with_capacity_and_hasher(
                 n * (n + 1) * min(states, beamwidth) / 2,
@@ -62,6 +65,16 @@ impl<'a, W: Ord> ChartIterator<'a, W> {
             initial: automaton.7,
         }
     }
+
+    /// Restricts the terminal rules at each position to those for the terminal in `word`.
+    pub fn for_word<T: Eq + Hash>(mut self, automaton: &'a Automaton<T, W>, word: &[T]) -> Self {
+        self.initials = Some(
+            word.iter()
+                .map(|t| automaton.2.get(t).map_or(&[][..], |rules| &rules[..]))
+                .collect(),
+        );
+        self
+    }
 }
 
 impl<'a, W> ChartIterator<'a, W>
@@ -94,6 +107,7 @@ where
         unaries: &[Vec<TdUnary<W>>],
         nullaries: &[Vec<TdNullary<W>>],
         filter: &[bool],
+        initials: Option<&[&[(RuleIdT, BuRule<W>)]]>,
         i: RangeT,
         j: RangeT,
         q: StateT,
@@ -127,6 +141,9 @@ where
             for &(r, w) in nullaries[q as usize]
                 .iter()
                 .filter(|&(r, _)| filter[*r as usize])
+                .filter(|&(r, _)| {
+                    initials.map_or(true, |is| is[i as usize].iter().any(|(id, _)| id == r))
+                })
             {
                 // is is not correct in general, but ok for terminal-seperated rules
                 heap.push(IndexedBacktrace::Nullary(r, w), w);
@@ -154,12 +171,22 @@ where
                 ref unaries,
                 ref nullaries,
                 ref rulefilter,
+                ref initials,
                 ..
             } = *self;
             match deriv_cache.entry((i, j, q)) {
                 Entry::Vacant(ve) => {
-                    let mut bts =
-                        Self::backtraces(chart, binaries, unaries, nullaries, &rulefilter, i, j, q);
+                    let mut bts = Self::backtraces(
+                        chart,
+                        binaries,
+                        unaries,
+                        nullaries,
+                        &rulefilter,
+                        initials.as_ref().map(|is| &is[..]),
+                        i,
+                        j,
+                        q,
+                    );
                     if let Some((first, vit)) = bts.pop() {
                         let mut vec = Vec::with_capacity(bts.len() + 1);
                         vec.push((first, vit));
diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index 13f33b7..90a0407 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -256,7 +256,7 @@ impl<T: Eq + Hash, W> Automaton<T, W> {
         W: Ord + Copy + Mul<Output = W> + Zero + One,
     {
         let chart = self.fill_chart(word, beam, delta, estimates, &rulefilter);
-        ChartIterator::new(chart, self, rulefilter)
+        ChartIterator::new(chart, self, rulefilter).for_word(self, word)
     }
 
     pub fn states(&self) -> usize {
-- 
2.43.0

