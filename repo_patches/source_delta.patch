From 696710c1229ace3c2aee9f9ca804260800396af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 01/25] fix: keep transitions into the start state of an
 appended part

Appending a part whose automaton loops back to its start state merged that
state with whichever state had the largest id, losing self-loops of the
previous part or leading back to an unrelated state.
---
 packages/compiler/src/regex.rs | 44 ++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index d3571b4..a77262e 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -880,6 +880,49 @@ fn process_accept_state(accept_state: &mut DFAStateNode, start_state: &DFAStateN
     update_state_type(accept_state, start_state);
 }
 
+/// Gives the start state of a graph an identity of its own if the graph's transitions re-enter it.
+///
+/// When a graph is appended to the net DFA, its start state is merged into the net DFA's accept states,
+/// so a transition back to the start state needs a state to lead to. That is the accept state itself if it is
+/// the only one and nothing else leaves it; otherwise it is a new state with the start state's transitions.
+///
+/// # Arguments
+///
+/// * `net_dfa` - A reference to the cumulative DFAGraph built so far.
+/// * `graph` - A mutable reference to the DFAGraph about to be appended.
+fn resolve_start_reentry(net_dfa: &DFAGraph, graph: &mut DFAGraph) {
+    if net_dfa.states.is_empty() || graph.states.is_empty() {
+        return;
+    }
+
+    let start_id = graph.states[0].state_id;
+    let is_reentered = graph
+        .states
+        .iter()
+        .any(|state| state.transitions.contains_key(&start_id));
+    if !is_reentered {
+        return;
+    }
+
+    let (accepting_states, _) = collect_accepting_states(net_dfa);
+    let reentry_id = match accepting_states.as_slice() {
+        [accept_state] if accept_state.transitions.is_empty() => accept_state.state_id,
+        _ => {
+            let mut reentry_state = graph.states[0].clone();
+            reentry_state.state_id = get_max_state(graph) + 1;
+            let reentry_id = reentry_state.state_id;
+            graph.states.push(reentry_state);
+            reentry_id
+        }
+    };
+
+    for state in &mut graph.states {
+        if let Some(chars) = state.transitions.remove(&start_id) {
+            state.transitions.insert(reentry_id, chars);
+        }
+    }
+}
+
 /// Adds a new DFA graph to an existing net DFA graph.
 ///
 /// # Arguments
@@ -968,6 +1011,7 @@ pub(crate) fn get_regex_and_dfa(
             .unwrap_or(0);
 
         dfa_graph = rename_states(&dfa_graph, max_state_index);
+        resolve_start_reentry(&net_dfa_graph, &mut dfa_graph);
 
         if regex.is_public {
             let (public_edges, (substr_starts, substr_ends)) =
-- 
2.43.0


From de4468ec2c2d9e9558f5f3e2cb146053a08365d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 02/25] fix: let nothing follow ^ inside its own alternation

The start-of-message transition led to the first accept state even when the
other alternatives continue from there, so (^|x|xy)a matched "ya" at the start.
---
 packages/compiler/src/regex.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index a77262e..6e2f7a1 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -556,7 +556,7 @@ fn convert_dfa_to_graph(dfa: DFA<Vec<u32>>) -> Result<DFAGraph, CompilerError> {
 /// # Function Behavior
 ///
 /// 1. Clears the state type of the start state.
-/// 2. Finds the accept state in the graph.
+/// 2. Finds an accept state without transitions in the graph, or adds one.
 /// 3. Adds a transition from the start state to the accept state with byte value 255.
 fn modify_graph_for_caret(graph: &mut DFAGraph) -> Result<(), CompilerError> {
     if let Some(start_state) = graph.states.get_mut(0) {
@@ -567,17 +567,38 @@ fn modify_graph_for_caret(graph: &mut DFAGraph) -> Result<(), CompilerError> {
         ));
     }
 
-    let accepted_state = graph
+    if !graph
         .states
         .iter()
-        .find(|state| state.state_type == "accept")
-        .ok_or_else(|| CompilerError::GraphError("Accept state not found".to_string()))?
-        .clone();
+        .any(|state| state.state_type == "accept")
+    {
+        return Err(CompilerError::GraphError(
+            "Accept state not found".to_string(),
+        ));
+    }
+
+    // Nothing may follow the caret within its own part, so it needs an accept state without transitions.
+    let accepted_state_id = match graph
+        .states
+        .iter()
+        .find(|state| state.state_type == "accept" && state.transitions.is_empty())
+    {
+        Some(state) => state.state_id,
+        None => {
+            let state_id = get_max_state(graph) + 1;
+            graph.states.push(DFAStateNode {
+                state_type: "accept".to_string(),
+                state_id,
+                transitions: BTreeMap::new(),
+            });
+            state_id
+        }
+    };
 
     if let Some(start_state) = graph.states.get_mut(0) {
         start_state
             .transitions
-            .entry(accepted_state.state_id)
+            .entry(accepted_state_id)
             .or_insert_with(BTreeSet::new)
             .insert(255u8);
     }
-- 
2.43.0


From 56d71315957cce36a527f2ee2d667d5f9e275c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 03/25] fix: do not take an escaped dollar sign for the end
 anchor

---
 packages/compiler/src/regex.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 6e2f7a1..79d47cf 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -111,6 +111,22 @@ fn process_caret_in_regex(
     Ok(caret_position)
 }
 
+/// Checks if a regex ends with the end anchor ($), as opposed to an escaped dollar sign.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// A boolean indicating whether the regex ends with an end anchor.
+fn ends_with_end_anchor(regex: &str) -> bool {
+    regex.strip_suffix('$').map_or(false, |rest| {
+        let backslashes = rest.len() - rest.trim_end_matches('\\').len();
+        backslashes % 2 == 0
+    })
+}
+
 /// Validates the end anchor ($) in a regex part.
 ///
 /// # Arguments
@@ -128,7 +144,7 @@ fn validate_end_anchor(
     regex: &RegexPartConfig,
 ) -> Result<bool, CompilerError> {
     let is_last_part = idx == decomposed_regex.parts.len() - 1;
-    let ends_with_dollar = regex.regex_def.ends_with('$');
+    let ends_with_dollar = ends_with_end_anchor(&regex.regex_def);
 
     if ends_with_dollar && !is_last_part {
         return Err(CompilerError::GenericError(
@@ -1160,7 +1176,7 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     Ok(RegexAndDFA {
         regex_pattern: regex_str.to_string(),
         dfa,
-        has_end_anchor: regex_str.ends_with('$'),
+        has_end_anchor: ends_with_end_anchor(regex_str),
         substrings,
     })
 }
-- 
2.43.0


From 6d8883e25079fcd53eb7578d7baa69bbaef7b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 04/25] fix: find the caret anchor through nested groups and
 character classes

A caret inside a character class was taken for the start anchor, and nested
groups in the first part tripped the unmatched parenthesis assertion.
---
 packages/compiler/src/regex.rs | 48 +++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 79d47cf..9765789 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -29,7 +29,7 @@ fn create_dfa_config() -> Config {
         .accelerate(true)
 }
 
-/// Finds the index of the first caret (^) in a regex string that is not inside parentheses.
+/// Finds where the part of a regex that holds its first caret (^) anchor ends.
 ///
 /// # Arguments
 ///
@@ -37,10 +37,11 @@ fn create_dfa_config() -> Config {
 ///
 /// # Returns
 ///
-/// An `Option<usize>` containing the index of the caret if found, or `None` if not found.
+/// An `Option<usize>` containing the index after the caret, or after the outermost parenthesis around it,
+/// or `None` if the regex has no caret outside of character classes.
 fn find_caret_index(regex: &str) -> Option<usize> {
     let regex_bytes = regex.as_bytes();
-    let mut is_in_parenthesis = false;
+    let mut paren_depth = 0usize;
     let mut caret_found = false;
     let mut idx = 0;
 
@@ -50,24 +51,23 @@ fn find_caret_index(regex: &str) -> Option<usize> {
                 idx += 2;
             }
             b'(' => {
-                is_in_parenthesis = true;
+                paren_depth += 1;
                 idx += 1;
             }
             b'[' => {
-                idx += 2;
+                idx = skip_char_class(regex_bytes, idx);
             }
             b')' => {
-                debug_assert!(is_in_parenthesis, "Unmatched parenthesis");
-                is_in_parenthesis = false;
+                paren_depth = paren_depth.saturating_sub(1);
                 idx += 1;
-                if caret_found {
+                if caret_found && paren_depth == 0 {
                     break;
                 }
             }
             b'^' => {
                 caret_found = true;
                 idx += 1;
-                if !is_in_parenthesis {
+                if paren_depth == 0 {
                     break;
                 }
             }
@@ -78,12 +78,40 @@ fn find_caret_index(regex: &str) -> Option<usize> {
     }
 
     if caret_found {
-        Some(idx)
+        Some(idx.min(regex_bytes.len()))
     } else {
         None
     }
 }
 
+/// Returns the index after the character class that starts at `start`.
+///
+/// # Arguments
+///
+/// * `regex_bytes` - The bytes of the regex pattern.
+/// * `start` - The index of the opening bracket.
+fn skip_char_class(regex_bytes: &[u8], start: usize) -> usize {
+    let mut idx = start + 1;
+    if regex_bytes.get(idx) == Some(&b'^') {
+        idx += 1;
+    }
+    // A closing bracket in the first place is a member of the class
+    if regex_bytes.get(idx) == Some(&b']') {
+        idx += 1;
+    }
+
+    while idx < regex_bytes.len() {
+        match regex_bytes[idx] {
+            b'\\' => idx += 2,
+            b'[' => idx = skip_char_class(regex_bytes, idx),
+            b']' => return idx + 1,
+            _ => idx += 1,
+        }
+    }
+
+    idx
+}
+
 /// Processes the caret (^) in a regex, splitting it into two parts if necessary.
 ///
 /// # Arguments
-- 
2.43.0


From e9c887a92d9ead198dd72664974ae30f4dc94d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 05/25] fix: report a decomposed regex without parts instead of
 panicking

---
 packages/compiler/src/regex.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 9765789..ac8caed 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -124,7 +124,10 @@ fn skip_char_class(regex_bytes: &[u8], start: usize) -> usize {
 fn process_caret_in_regex(
     decomposed_regex: &mut DecomposedRegexConfig,
 ) -> Result<Option<usize>, CompilerError> {
-    let caret_position = find_caret_index(&decomposed_regex.parts[0].regex_def);
+    let first_part = decomposed_regex.parts.front().ok_or_else(|| {
+        CompilerError::GenericError("The decomposed regex has no parts".to_string())
+    })?;
+    let caret_position = find_caret_index(&first_part.regex_def);
 
     if let Some(index) = caret_position {
         let caret_regex = decomposed_regex.parts[0].regex_def[0..index].to_string();
-- 
2.43.0


From 952998f2f9a82dba69027d371bb8d072c26d17c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 06/25] fix: anchor all alternatives of a raw regex

---
 packages/compiler/src/regex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index ac8caed..ad663ed 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1126,7 +1126,7 @@ fn create_dfa_graph_from_regex(regex: &str) -> Result<DFAGraph, CompilerError> {
 
     let dfa = DFA::builder()
         .configure(config)
-        .build(&format!(r"^{}$", regex))
+        .build(&format!(r"^({})$", regex))
         .map_err(|e| CompilerError::BuildError {
             regex: regex.to_string(),
             source: e,
-- 
2.43.0


From 5f68a54b304001fc14cd166b8466c84f82158b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 07/25] fix: generate no gate for a transition without
 characters

The AND gate of such a transition lacked its second input, which circom rejects.
---
 packages/compiler/src/circom.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index f7d319f..14ea777 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -479,13 +479,19 @@ fn generate_state_transition_logic(
         zero_starting_and_idxes.insert(i, vec![]);
 
         for (prev_i, chars) in rev_graph.get(&i).unwrap_or(&BTreeMap::new()) {
-            if *prev_i == 0 {
-                zero_starting_states.push(i);
-            }
             let mut k = chars.clone();
             k.retain(|&x| x != 0);
             k.sort();
 
+            // A transition on no character (but padding) is never taken
+            if k.is_empty() {
+                continue;
+            }
+
+            if *prev_i == 0 {
+                zero_starting_states.push(i);
+            }
+
             let mut eq_outputs = vec![];
 
             let (min_maxes, individual_chars) = optimize_char_ranges(&k);
-- 
2.43.0


From cf3555a136bc516b93ca6645a9106011d61a5746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 08/25] fix: close the template when no substrings are
 generated

---
 packages/compiler/src/circom.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 14ea777..a1a80e2 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -986,6 +986,8 @@ pub(crate) fn gen_circom_template(
     if gen_substrs {
         let substrs = add_substrs_constraints(regex_and_dfa)?;
         file.write_all(substrs.as_bytes())?;
+    } else {
+        file.write_all(b"\n}")?;
     }
 
     file.flush()?;
-- 
2.43.0


From 35d6025a9ad503048e6614aff60f3bf357588342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 09/25] fix: generate a valid circuit for a substring without
 transitions

This is what the raw command defaults to when it is given no substring definitions.
---
 packages/compiler/src/circom.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index a1a80e2..a1bb808 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -887,6 +887,16 @@ fn write_is_reveal_and_reveal(idx: usize) -> String {
 /// A String containing the generated Circom code for the complete substring logic.
 fn write_substr_logic(idx: usize, ranges: &[(usize, usize)]) -> String {
     let mut logic = String::new();
+
+    // A substring without transitions reveals nothing
+    if ranges.is_empty() {
+        logic += &format!("\tsignal output reveal{idx}[msg_bytes];\n");
+        logic += "\tfor (var i = 0; i < msg_bytes; i++) {\n";
+        logic += &format!("\t\treveal{idx}[i] <== 0;\n");
+        logic += "\t}\n";
+        return logic;
+    }
+
     logic += &format!("\tsignal prev_states{idx}[{}][msg_bytes];\n", ranges.len());
     logic += &format!("\tsignal is_substr{idx}[msg_bytes];\n");
     logic += &format!("\tsignal is_reveal{idx}[msg_bytes];\n");
-- 
2.43.0


From 13720e9c54f4501367949b93237b8c611c23bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 10/25] fix: check the end anchor at the last position of an
 unpadded message

---
 packages/compiler/src/circom.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index a1bb808..a993079 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -700,9 +700,9 @@ fn generate_accept_logic(
     accept_lines.push("\t}".to_string());
 
     if end_anchor {
-        accept_lines.push("\tsignal end_anchor_check[num_bytes+1][2];".to_string());
+        accept_lines.push("\tsignal end_anchor_check[num_bytes+2][2];".to_string());
         accept_lines.push("\tend_anchor_check[0][1] <== 0;".to_string());
-        accept_lines.push("\tfor (var i = 0; i < num_bytes; i++) {".to_string());
+        accept_lines.push("\tfor (var i = 0; i <= num_bytes; i++) {".to_string());
         accept_lines.push(
             "\t\tend_anchor_check[i+1][0] <== IsEqual()([i, padding_start[num_bytes]]);"
                 .to_string(),
@@ -712,7 +712,7 @@ fn generate_accept_logic(
         );
         accept_lines.push("\t}".to_string());
         accept_lines
-            .push("\tout <== is_accepted.out * end_anchor_check[num_bytes][1];".to_string());
+            .push("\tout <== is_accepted.out * end_anchor_check[num_bytes+1][1];".to_string());
     } else {
         accept_lines.push("\tout <== is_accepted.out;".to_string());
     }
-- 
2.43.0


From fc33a450d6f1ab7855ced1205cba5c32cbb1d59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 11/25] fix: accept ^ beside an alternative that loops

The start state of such a part was stripped of its accepting type although its
own transitions lead back to it, so (^|x+) was refused and (^|(xy)+|z) lost xy.
---
 packages/compiler/src/regex.rs | 71 ++++++++++++++++++++++++++--------
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index ad663ed..854c686 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -590,6 +590,51 @@ fn convert_dfa_to_graph(dfa: DFA<Vec<u32>>) -> Result<DFAGraph, CompilerError> {
     Ok(graph)
 }
 
+/// Checks if any transition of the DFA graph leads to the given state.
+///
+/// # Arguments
+///
+/// * `graph` - A reference to the DFAGraph.
+/// * `state_id` - The ID of the state.
+fn has_transition_into(graph: &DFAGraph, state_id: usize) -> bool {
+    graph
+        .states
+        .iter()
+        .any(|state| state.transitions.contains_key(&state_id))
+}
+
+/// Appends a copy of the start state to the DFA graph.
+///
+/// # Arguments
+///
+/// * `graph` - A mutable reference to the DFAGraph, which must have a state.
+///
+/// # Returns
+///
+/// The ID of the copy.
+fn copy_start_state(graph: &mut DFAGraph) -> usize {
+    let mut state = graph.states[0].clone();
+    state.state_id = get_max_state(graph) + 1;
+    let state_id = state.state_id;
+    graph.states.push(state);
+    state_id
+}
+
+/// Makes all transitions into one state of the DFA graph lead to another state.
+///
+/// # Arguments
+///
+/// * `graph` - A mutable reference to the DFAGraph.
+/// * `old_id` - The ID of the state the transitions lead to.
+/// * `new_id` - The ID of the state they are to lead to.
+fn redirect_transitions(graph: &mut DFAGraph, old_id: usize, new_id: usize) {
+    for state in &mut graph.states {
+        if let Some(chars) = state.transitions.remove(&old_id) {
+            state.transitions.insert(new_id, chars);
+        }
+    }
+}
+
 /// Modifies the DFA graph to handle the caret (^) anchor at the start of a regex.
 ///
 /// # Arguments
@@ -606,6 +651,12 @@ fn convert_dfa_to_graph(dfa: DFA<Vec<u32>>) -> Result<DFAGraph, CompilerError> {
 /// 2. Finds an accept state without transitions in the graph, or adds one.
 /// 3. Adds a transition from the start state to the accept state with byte value 255.
 fn modify_graph_for_caret(graph: &mut DFAGraph) -> Result<(), CompilerError> {
+    // An alternative that loops back to the start state is still accepted there
+    if has_transition_into(graph, 0) {
+        let reentry_id = copy_start_state(graph);
+        redirect_transitions(graph, 0, reentry_id);
+    }
+
     if let Some(start_state) = graph.states.get_mut(0) {
         start_state.state_type.clear();
     } else {
@@ -964,31 +1015,17 @@ fn resolve_start_reentry(net_dfa: &DFAGraph, graph: &mut DFAGraph) {
     }
 
     let start_id = graph.states[0].state_id;
-    let is_reentered = graph
-        .states
-        .iter()
-        .any(|state| state.transitions.contains_key(&start_id));
-    if !is_reentered {
+    if !has_transition_into(graph, start_id) {
         return;
     }
 
     let (accepting_states, _) = collect_accepting_states(net_dfa);
     let reentry_id = match accepting_states.as_slice() {
         [accept_state] if accept_state.transitions.is_empty() => accept_state.state_id,
-        _ => {
-            let mut reentry_state = graph.states[0].clone();
-            reentry_state.state_id = get_max_state(graph) + 1;
-            let reentry_id = reentry_state.state_id;
-            graph.states.push(reentry_state);
-            reentry_id
-        }
+        _ => copy_start_state(graph),
     };
 
-    for state in &mut graph.states {
-        if let Some(chars) = state.transitions.remove(&start_id) {
-            state.transitions.insert(reentry_id, chars);
-        }
-    }
+    redirect_transitions(graph, start_id, reentry_id);
 }
 
 /// Adds a new DFA graph to an existing net DFA graph.
-- 
2.43.0


From 0ff61e6e4c1de7483a81a27b51c9c834a42bf53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 12/25] fix: let the command line tool start in debug builds

---
 packages/compiler/src/bin/compiler.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/bin/compiler.rs b/packages/compiler/src/bin/compiler.rs
index ba53749..1e0b628 100644
--- a/packages/compiler/src/bin/compiler.rs
+++ b/packages/compiler/src/bin/compiler.rs
@@ -45,7 +45,7 @@
 //! zk-regex raw -r "a*b+c?" -s substrings.json -h ./halo2_output -c ./circom_output.circom -t MyTemplate -g true
 //! ```
 
-use clap::{Parser, Subcommand};
+use clap::{ArgAction, Parser, Subcommand};
 use zk_regex_compiler::{gen_from_decomposed, gen_from_raw};
 
 #[derive(Parser, Debug, Clone)]
@@ -55,8 +55,10 @@ struct Cli {
     pub command: Commands,
 }
 
+// `-h` is the Halo2 directory in both commands, so their help is available as `--help` only.
 #[derive(Debug, Subcommand, Clone)]
 enum Commands {
+    #[command(disable_help_flag = true)]
     Decomposed {
         #[arg(short, long)]
         decomposed_regex_path: String,
@@ -68,7 +70,10 @@ enum Commands {
         template_name: Option<String>,
         #[arg(short, long)]
         gen_substrs: Option<bool>,
+        #[arg(long, action = ArgAction::Help, help = "Print help")]
+        help: Option<bool>,
     },
+    #[command(disable_help_flag = true)]
     Raw {
         #[arg(short, long)]
         raw_regex: String,
@@ -82,6 +87,8 @@ enum Commands {
         template_name: Option<String>,
         #[arg(short, long)]
         gen_substrs: Option<bool>,
+        #[arg(long, action = ArgAction::Help, help = "Print help")]
+        help: Option<bool>,
     },
 }
 
@@ -100,6 +107,7 @@ fn process_decomposed(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_decomposed(
@@ -123,6 +131,7 @@ fn process_raw(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_raw(
-- 
2.43.0


From 6fcf3ef63eefc1471b12905d0d18ef0c6aa310f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 13/25] fix: anchor a raw regex that starts with a caret

---
 packages/compiler/src/regex.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 854c686..46b5d61 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1224,7 +1224,18 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     regex_str: &str,
     substrs_defs_json: SubstringDefinitionsJson,
 ) -> Result<RegexAndDFA, CompilerError> {
-    let dfa = create_dfa_graph_from_regex(regex_str)?;
+    let dfa = if find_caret_index(regex_str).is_some() {
+        // The caret is handled in the same way as in a decomposed regex
+        let mut decomposed_regex = DecomposedRegexConfig {
+            parts: VecDeque::from([RegexPartConfig {
+                is_public: false,
+                regex_def: regex_str.to_string(),
+            }]),
+        };
+        get_regex_and_dfa(&mut decomposed_regex)?.dfa
+    } else {
+        create_dfa_graph_from_regex(regex_str)?
+    };
 
     let substring_ranges = substrs_defs_json
         .transitions
-- 
2.43.0


From c24faab5675f36cff52d5fbf04b89a4b9febe67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 14/25] fix: refuse a raw transition between states the DFA
 does not have

---
 packages/compiler/src/regex.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 46b5d61..6be3c13 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1245,7 +1245,19 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
                 .into_iter()
                 .collect::<BTreeSet<(usize, usize)>>()
         })
-        .collect();
+        .collect::<Vec<_>>();
+
+    let max_state = get_max_state(&dfa);
+    if let Some((from, to)) = substring_ranges
+        .iter()
+        .flatten()
+        .find(|&&(from, to)| from.max(to) > max_state)
+    {
+        return Err(CompilerError::GraphError(format!(
+            "The transition {} -> {} is not in the DFA, whose last state is {}",
+            from, to, max_state
+        )));
+    }
 
     let substrings = SubstringDefinitions {
         substring_ranges,
-- 
2.43.0


From a69dcb9ec9d0af784906ec0a66f5126cae5d9572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 15/25] fix: report a missing template name instead of
 panicking

---
 packages/compiler/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/lib.rs b/packages/compiler/src/lib.rs
index 2767c52..8076180 100644
--- a/packages/compiler/src/lib.rs
+++ b/packages/compiler/src/lib.rs
@@ -77,8 +77,12 @@ fn generate_outputs(
 
     if let Some(circom_file_path) = circom_file_path {
         let circom_file_path = PathBuf::from(circom_file_path);
-        let circom_template_name = circom_template_name
-            .expect("circom template name must be specified if circom file path is specified");
+        let circom_template_name = circom_template_name.ok_or_else(|| {
+            CompilerError::GenericError(
+                "circom template name must be specified if circom file path is specified"
+                    .to_string(),
+            )
+        })?;
 
         gen_circom_template(
             regex_and_dfa,
-- 
2.43.0


From 8596dde9ddabdfe0fe466968a95d0cd87cc8afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 16/25] fix: substring boundaries at the first part and after
 parts that may be empty

---
 packages/compiler/src/regex.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 6be3c13..570349c 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -949,9 +949,18 @@ fn process_public_regex(
         return (BTreeSet::new(), (BTreeSet::new(), BTreeSet::new()));
     }
 
-    let (accepting_states, substring_starts) = collect_accepting_states(net_dfa);
+    let (accepting_states, mut substring_starts) = collect_accepting_states(net_dfa);
     let mut public_edges = collect_public_edges(graph);
-    let substring_ends = collect_substr_ends(graph);
+    let mut substring_ends = collect_substr_ends(graph);
+
+    if let Some(start_state) = graph.states.first() {
+        if net_dfa.states.is_empty() {
+            substring_starts.insert(start_state.state_id);
+        } else if substring_ends.remove(&start_state.state_id) {
+            // The start state is merged into the accept states of the net DFA
+            substring_ends.extend(&substring_starts);
+        }
+    }
 
     update_public_edges(&mut public_edges, previous_max_state_id, &accepting_states);
 
-- 
2.43.0


From 16c39f2cdaf4799f79a6dffb9f739c9bb77e7bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 17/25] fix: write substring boundaries for raw regexes instead
 of panicking

---
 packages/compiler/src/regex.rs | 44 +++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 570349c..f01e3a2 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1219,6 +1219,43 @@ fn match_string_with_dfa_graph(graph: &DFAGraph, input: &str) -> bool {
     graph.states[current_state].state_type == "accept"
 }
 
+/// Collects the states where a substring given by its transitions starts and ends.
+///
+/// # Arguments
+///
+/// * `graph` - A reference to the DFAGraph.
+/// * `ranges` - The transitions of the substring.
+///
+/// # Returns
+///
+/// A tuple containing:
+/// 1. The states the substring leaves that can be reached from outside of it.
+/// 2. The states the substring leads to where it can be left, or where the match is complete.
+fn collect_raw_boundaries(
+    graph: &DFAGraph,
+    ranges: &BTreeSet<(usize, usize)>,
+) -> (BTreeSet<usize>, BTreeSet<usize>) {
+    let outside: BTreeSet<_> = collect_public_edges(graph)
+        .difference(ranges)
+        .cloned()
+        .collect();
+
+    let starts = ranges
+        .iter()
+        .map(|&(from, _)| from)
+        .filter(|&from| from == 0 || outside.iter().any(|&(_, to)| to == from))
+        .collect();
+    let ends = ranges
+        .iter()
+        .map(|&(_, to)| to)
+        .filter(|&to| {
+            graph.states[to].state_type == "accept" || outside.iter().any(|&(from, _)| from == to)
+        })
+        .collect();
+
+    (starts, ends)
+}
+
 /// Creates a `RegexAndDFA` from a regex string and substring definitions.
 ///
 /// # Arguments
@@ -1268,9 +1305,14 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
         )));
     }
 
+    let substring_boundaries = substring_ranges
+        .iter()
+        .map(|ranges| collect_raw_boundaries(&dfa, ranges))
+        .collect();
+
     let substrings = SubstringDefinitions {
         substring_ranges,
-        substring_boundaries: None,
+        substring_boundaries: Some(substring_boundaries),
     };
 
     Ok(RegexAndDFA {
-- 
2.43.0


From 4346fdabdde4e3f6ee455e34aa71430b84d3d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 18/25] fix: refuse Halo2 tables for a DFA without a single
 accepting state

---
 packages/compiler/src/halo2.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index d8e2048..71ba61d 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -17,9 +17,21 @@ use std::{
 ///
 /// # Returns
 ///
-/// A String containing the text representation of the DFA.
-fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> String {
-    let accepted_state = get_accepted_state(&regex_and_dfa.dfa).unwrap();
+/// A Result containing the text representation of the DFA, or a CompilerError if the DFA does not have exactly one
+/// accepting state.
+fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> Result<String, CompilerError> {
+    let accepted_state =
+        get_accepted_state(&regex_and_dfa.dfa).ok_or(CompilerError::NoAcceptedState)?;
+    let accepted_states = regex_and_dfa
+        .dfa
+        .states
+        .iter()
+        .filter(|state| state.state_type == "accept");
+    if accepted_states.count() != 1 {
+        return Err(CompilerError::AcceptNodesError(
+            "The size of accept nodes must be one".to_string(),
+        ));
+    }
     let max_state = get_max_state(&regex_and_dfa.dfa);
     let mut text = format!("0\n{}\n{}\n", accepted_state, max_state);
 
@@ -30,7 +42,7 @@ fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> String {
             }
         }
     }
-    text
+    Ok(text)
 }
 
 /// Generates Halo2 tables from a RegexAndDFA structure.
@@ -51,7 +63,7 @@ pub(crate) fn gen_halo2_tables(
     substr_file_paths: &[PathBuf],
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
-    let regex_text = dfa_to_regex_def_text(regex_and_dfa);
+    let regex_text = dfa_to_regex_def_text(regex_and_dfa)?;
     std::fs::write(allstr_file_path, regex_text)?;
 
     if !gen_substrs {
-- 
2.43.0


From a9e6b089cdd1de29729e3f6e7de3aeccb4bf3db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 19/25] fix: leave the parentheses of regex parts as they are
 when extracting

---
 packages/apis/src/extract_substrs.rs | 33 ++++++++++++++--------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/packages/apis/src/extract_substrs.rs b/packages/apis/src/extract_substrs.rs
index f975e5e..c9cc761 100644
--- a/packages/apis/src/extract_substrs.rs
+++ b/packages/apis/src/extract_substrs.rs
@@ -43,25 +43,25 @@ pub fn extract_substr_idxes(
     regex_config: &DecomposedRegexConfig,
     reveal_private: bool,
 ) -> Result<Vec<(usize, usize)>, ExtractSubstrssError> {
-    // Validate each regex part individually, to throw better errors
-    for (i, part) in regex_config.parts.iter().enumerate() {
-        Regex::new(&part.regex_def).map_err(|e| ExtractSubstrssError::InvalidRegexPart {
-            part_index: i,
-            regex_def: part.regex_def.clone(),
-            error: e,
-        })?;
-    }
-
-    // Construct the full regex pattern with groups for each part
+    // Validate each regex part individually, to throw better errors, and construct the full regex pattern with a
+    // group for each part. The groups within a part are numbered after the group of that part.
     let mut entire_regex_str = String::new();
-    for (_, part) in regex_config.parts.iter().enumerate() {
-        let adjusted_regex_def = part.regex_def.replace("(", "(?:");
-        entire_regex_str += &format!("({})", adjusted_regex_def);
+    let mut part_groups = vec![];
+    let mut next_group = 1;
+    for (i, part) in regex_config.parts.iter().enumerate() {
+        let part_regex =
+            Regex::new(&part.regex_def).map_err(|e| ExtractSubstrssError::InvalidRegexPart {
+                part_index: i,
+                regex_def: part.regex_def.clone(),
+                error: e,
+            })?;
+        part_groups.push(next_group);
+        next_group += part_regex.captures_len();
+        entire_regex_str += &format!("({})", part.regex_def);
     }
 
     // Compile the entire regex
-    // This should be impossible to fail, since we tested the seperate regex parts before.
-    let entire_regex = Regex::new(&entire_regex_str).unwrap();
+    let entire_regex = Regex::new(&entire_regex_str)?;
 
     // Find the match for the entire regex
     let entire_captures = entire_regex
@@ -74,8 +74,7 @@ pub fn extract_substr_idxes(
     // Iterate over each part to extract the relevant indices
     for (i, part) in regex_config.parts.iter().enumerate() {
         if part.is_public || reveal_private {
-            if let Some(matched) = entire_captures.get(i + 1) {
-                // Capture group indices are 1-based
+            if let Some(matched) = entire_captures.get(part_groups[i]) {
                 public_idxes.push((matched.start(), matched.end()));
             }
         }
-- 
2.43.0


From 5029292a73d2053c9b75201f50b2c9ffb9bfab67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 20/25] fix: reveal nothing but the match at the end anchor

---
 packages/compiler/src/circom.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index a993079..c6bdf71 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -775,23 +775,31 @@ fn gen_circom_allstr(
 /// # Arguments
 ///
 /// * `accepted_state` - The index of the accepted state.
+/// * `end_anchor` - A boolean indicating whether an end anchor is present.
 ///
 /// # Returns
 ///
 /// A String containing the generated Circom code for consecutive logic.
-fn write_consecutive_logic(accepted_state: usize) -> String {
+fn write_consecutive_logic(accepted_state: usize, end_anchor: bool) -> String {
+    // With an end anchor, only the accepted state at the end of the message completes a match
+    let is_match_end = if end_anchor {
+        "(end_anchor_check[num_bytes-i+1][1] - end_anchor_check[num_bytes-i][1])".to_string()
+    } else {
+        format!("states[num_bytes-i][{accepted_state}]")
+    };
+
     let mut logic = String::new();
     logic += "\n";
     logic += "\tsignal is_consecutive[msg_bytes+1][3];\n";
     logic += "\tis_consecutive[msg_bytes][2] <== 0;\n";
     logic += "\tfor (var i = 0; i < msg_bytes; i++) {\n";
     logic += &format!(
-        "\t\tis_consecutive[msg_bytes-1-i][0] <== states[num_bytes-i][{accepted_state}] * (1 - is_consecutive[msg_bytes-i][2]) + is_consecutive[msg_bytes-i][2];\n"
+        "\t\tis_consecutive[msg_bytes-1-i][0] <== {is_match_end} * (1 - is_consecutive[msg_bytes-i][2]) + is_consecutive[msg_bytes-i][2];\n"
     );
     logic +=
         "\t\tis_consecutive[msg_bytes-1-i][1] <== state_changed[msg_bytes-i].out * is_consecutive[msg_bytes-1-i][0];\n";
     logic += &format!(
-        "\t\tis_consecutive[msg_bytes-1-i][2] <== ORAnd()([(1 - from_zero_enabled[msg_bytes-i+1]), states[num_bytes-i][{accepted_state}], is_consecutive[msg_bytes-1-i][1]]);\n"
+        "\t\tis_consecutive[msg_bytes-1-i][2] <== ORAnd()([(1 - from_zero_enabled[msg_bytes-i+1]), {is_match_end}, is_consecutive[msg_bytes-1-i][1]]);\n"
     );
     logic += "\t}\n";
     logic
@@ -948,7 +956,7 @@ fn add_substrs_constraints(regex_dfa: &RegexAndDFA) -> Result<String, CompilerEr
         get_accepted_state(&regex_dfa.dfa).ok_or(CompilerError::NoAcceptedState)?;
     let mut circom = String::new();
 
-    circom += &write_consecutive_logic(accepted_state);
+    circom += &write_consecutive_logic(accepted_state, regex_dfa.has_end_anchor);
 
     circom += &format!(
         "\t// substrings calculated: {:?}\n",
-- 
2.43.0


From 9fa4010614a322bf742b78b64ab358157d52f600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 21/25] fix: refuse anchors and assertions where they would
 have no effect

---
 packages/compiler/src/regex.rs | 155 +++++++++++++++++++++++++++++++--
 1 file changed, 148 insertions(+), 7 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index f01e3a2..ac113de 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -112,6 +112,145 @@ fn skip_char_class(regex_bytes: &[u8], start: usize) -> usize {
     idx
 }
 
+/// Where anchors and alternations stand in a regex, outside of character classes.
+struct RegexLayout {
+    /// The indices of the carets (^).
+    carets: Vec<usize>,
+    /// The indices of the end anchors ($).
+    end_anchors: Vec<usize>,
+    /// The indices of the alternation operators (|), each with the number of groups around it.
+    alternations: Vec<(usize, usize)>,
+    /// The indices of the backslashes of other assertions, such as a word boundary.
+    assertions: Vec<usize>,
+    /// The indices of the closing parentheses of the outermost groups.
+    outermost_ends: Vec<usize>,
+}
+
+/// Finds the anchors and alternations of a regex.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+fn scan_regex(regex: &str) -> RegexLayout {
+    let regex_bytes = regex.as_bytes();
+    let mut layout = RegexLayout {
+        carets: Vec::new(),
+        end_anchors: Vec::new(),
+        alternations: Vec::new(),
+        assertions: Vec::new(),
+        outermost_ends: Vec::new(),
+    };
+    let mut paren_depth = 0usize;
+    let mut idx = 0;
+
+    while idx < regex_bytes.len() {
+        match regex_bytes[idx] {
+            b'\\' => {
+                if matches!(
+                    regex_bytes.get(idx + 1),
+                    Some(b'A' | b'z' | b'b' | b'B' | b'<' | b'>')
+                ) {
+                    layout.assertions.push(idx);
+                }
+                idx += 2;
+                continue;
+            }
+            b'[' => {
+                idx = skip_char_class(regex_bytes, idx);
+                continue;
+            }
+            b'(' => paren_depth += 1,
+            b')' => {
+                paren_depth = paren_depth.saturating_sub(1);
+                if paren_depth == 0 {
+                    layout.outermost_ends.push(idx);
+                }
+            }
+            b'|' => layout.alternations.push((idx, paren_depth)),
+            b'^' => layout.carets.push(idx),
+            b'$' => layout.end_anchors.push(idx),
+            _ => {}
+        }
+        idx += 1;
+    }
+
+    layout
+}
+
+/// Checks if the split-off caret part is `^` or a group with `^` as one of its alternatives.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the caret part.
+/// * `layout` - The layout of the caret part.
+fn is_caret_part(regex: &str, layout: &RegexLayout) -> bool {
+    if regex == "^" {
+        return true;
+    }
+    if !regex.starts_with('(')
+        || layout.carets.len() != 1
+        || layout.outermost_ends != [regex.len() - 1]
+    {
+        return false;
+    }
+
+    let body_start = if regex.starts_with("(?:") { 3 } else { 1 };
+    let caret = layout.carets[0];
+    let is_alternation =
+        |idx: usize| idx == regex.len() - 1 || layout.alternations.contains(&(idx, 1));
+    (caret == body_start || is_alternation(caret - 1)) && is_alternation(caret + 1)
+}
+
+/// Checks that every anchor of the regex is at a place where it takes effect.
+///
+/// # Arguments
+///
+/// * `decomposed_regex` - A reference to a `DecomposedRegexConfig`, with the caret part split off.
+/// * `has_caret` - A boolean indicating whether the first part is a caret part.
+///
+/// # Returns
+///
+/// A `Result` containing `()` if the anchors are well placed, or a `CompilerError`.
+fn validate_anchors(
+    decomposed_regex: &DecomposedRegexConfig,
+    has_caret: bool,
+) -> Result<(), CompilerError> {
+    let last_idx = decomposed_regex.parts.len() - 1;
+
+    for (idx, part) in decomposed_regex.parts.iter().enumerate() {
+        let regex = part.regex_def.as_str();
+        let layout = scan_regex(regex);
+        let is_caret_section = idx == 0 && has_caret;
+        let follows_caret = idx == 1 && has_caret;
+        let ends_with_dollar = idx == last_idx && ends_with_end_anchor(regex);
+        let has_alternatives = layout.alternations.iter().any(|&(_, depth)| depth == 0);
+
+        if is_caret_section && !is_caret_part(regex, &layout)
+            || !is_caret_section && !layout.carets.is_empty()
+            || follows_caret && has_alternatives
+        {
+            return Err(CompilerError::GenericError(
+                "Invalid regex, ^ can only be at the beginning of the regex or an alternative of a group there"
+                    .to_string(),
+            ));
+        }
+        if layout.end_anchors.len() != usize::from(ends_with_dollar)
+            || ends_with_dollar && has_alternatives
+        {
+            return Err(CompilerError::GenericError(
+                "Invalid regex, $ can only be at the end of the regex".to_string(),
+            ));
+        }
+        if !layout.assertions.is_empty() {
+            return Err(CompilerError::GenericError(
+                "Invalid regex, ^ and $ are the only supported assertions".to_string(),
+            ));
+        }
+    }
+
+    Ok(())
+}
+
 /// Processes the caret (^) in a regex, splitting it into two parts if necessary.
 ///
 /// # Arguments
@@ -1099,6 +1238,7 @@ pub(crate) fn get_regex_and_dfa(
     let config = create_dfa_config();
 
     let caret_position = process_caret_in_regex(decomposed_regex)?;
+    validate_anchors(decomposed_regex, caret_position.is_some())?;
 
     let mut end_anchor = false;
 
@@ -1270,16 +1410,17 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     regex_str: &str,
     substrs_defs_json: SubstringDefinitionsJson,
 ) -> Result<RegexAndDFA, CompilerError> {
+    // The anchors are handled in the same way as in a decomposed regex
+    let mut decomposed_regex = DecomposedRegexConfig {
+        parts: VecDeque::from([RegexPartConfig {
+            is_public: false,
+            regex_def: regex_str.to_string(),
+        }]),
+    };
     let dfa = if find_caret_index(regex_str).is_some() {
-        // The caret is handled in the same way as in a decomposed regex
-        let mut decomposed_regex = DecomposedRegexConfig {
-            parts: VecDeque::from([RegexPartConfig {
-                is_public: false,
-                regex_def: regex_str.to_string(),
-            }]),
-        };
         get_regex_and_dfa(&mut decomposed_regex)?.dfa
     } else {
+        validate_anchors(&decomposed_regex, false)?;
         create_dfa_graph_from_regex(regex_str)?
     };
 
-- 
2.43.0


From 2d67a00b6a41f04fddb4f1a20574b2bc2c3c3d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 22/25] fix: drop transitions that lost all characters to the
 next part

---
 packages/compiler/src/regex.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index ac113de..0acfe11 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1277,6 +1277,15 @@ pub(crate) fn get_regex_and_dfa(
         net_dfa_graph = add_dfa(&net_dfa_graph, &dfa_graph);
     }
 
+    // A transition that lost all its characters to the following part is none
+    for state in &mut net_dfa_graph.states {
+        state.transitions.retain(|_, chars| !chars.is_empty());
+    }
+    let edges = collect_public_edges(&net_dfa_graph);
+    for ranges in &mut substring_ranges_array {
+        ranges.retain(|range| edges.contains(range));
+    }
+
     let regex_str = decomposed_regex
         .parts
         .iter()
-- 
2.43.0


From 5b1c5024e508b42396484a45e04d8be69c61e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:48 +0000
Subject: [PATCH 23/25] fix: keep the extracted From and To address within its
 header line

The address may directly follow the colon in angle brackets, and a plain
address ends at the end of its line instead of at the end of a later one.
---
 packages/apis/src/decomposed_defs/from_addr.json | 4 ++--
 packages/apis/src/decomposed_defs/to_addr.json   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/apis/src/decomposed_defs/from_addr.json b/packages/apis/src/decomposed_defs/from_addr.json
index 6753257..1152228 100644
--- a/packages/apis/src/decomposed_defs/from_addr.json
+++ b/packages/apis/src/decomposed_defs/from_addr.json
@@ -6,11 +6,11 @@
     },
     {
       "is_public": false,
-      "regex_def": "([^\r\n]+<)?"
+      "regex_def": "([^\r\n]*<)?"
     },
     {
       "is_public": true,
-      "regex_def": "[^<>]+"
+      "regex_def": "[^<>\r\n]+"
     },
     {
       "is_public": false,
diff --git a/packages/apis/src/decomposed_defs/to_addr.json b/packages/apis/src/decomposed_defs/to_addr.json
index 394a26b..721851b 100644
--- a/packages/apis/src/decomposed_defs/to_addr.json
+++ b/packages/apis/src/decomposed_defs/to_addr.json
@@ -6,11 +6,11 @@
     },
     {
       "is_public": false,
-      "regex_def": "([^\r\n]+<)?"
+      "regex_def": "([^\r\n]*<)?"
     },
     {
       "is_public": true,
-      "regex_def": "[^<>]+"
+      "regex_def": "[^<>\r\n]+"
     },
     {
       "is_public": false,
-- 
2.43.0


From 53e3909f80bc5de4a69bf75624328acab308cb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:17 +0000
Subject: [PATCH 24/25] fix: report errors to JavaScript from the remaining
 compiler entry points

genFromRaw, genRegexAndDfa and genCircom panicked (an opaque trap in wasm) on
input that genFromDecomposed reports as an error.
---
 packages/compiler/src/wasm.rs | 57 +++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/packages/compiler/src/wasm.rs b/packages/compiler/src/wasm.rs
index 97ed29f..f78f825 100644
--- a/packages/compiler/src/wasm.rs
+++ b/packages/compiler/src/wasm.rs
@@ -30,32 +30,51 @@ pub fn genFromDecomposed(
 
 #[wasm_bindgen]
 #[allow(non_snake_case)]
-pub fn genFromRaw(rawRegex: &str, substrsJson: &str, circomTemplateName: &str) -> String {
-    let substrs_defs_json: SubstringDefinitionsJson =
-        serde_json::from_str(substrsJson).expect("failed to parse substrs json");
+pub fn genFromRaw(
+    rawRegex: &str,
+    substrsJson: &str,
+    circomTemplateName: &str,
+) -> Result<String, JsValue> {
+    let substrs_defs_json: SubstringDefinitionsJson = serde_json::from_str(substrsJson)
+        .map_err(|e| JsValue::from_str(&format!("failed to parse substrs json: {}", e)))?;
     let regex_and_dfa = create_regex_and_dfa_from_str_and_defs(rawRegex, substrs_defs_json)
-        .expect("failed to convert the raw regex and state transitions to dfa");
-    gen_circom_string(&regex_and_dfa, circomTemplateName).expect("failed to generate circom")
+        .map_err(|e| {
+            JsValue::from_str(&format!(
+                "failed to convert the raw regex and state transitions to dfa: {}",
+                e
+            ))
+        })?;
+    gen_circom_string(&regex_and_dfa, circomTemplateName)
+        .map_err(|e| JsValue::from_str(&format!("failed to generate circom: {}", e)))
 }
 
 #[wasm_bindgen]
 #[allow(non_snake_case)]
-pub fn genRegexAndDfa(decomposedRegex: JsValue) -> JsValue {
-    let mut decomposed_regex_config: DecomposedRegexConfig =
-        from_value(decomposedRegex).expect("failed to parse decomposed regex");
-    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config)
-        .expect("failed to convert the decomposed regex to dfa");
-    let dfa_val_str =
-        serde_json::to_string(&regex_and_dfa).expect("failed to convert the dfa to json");
-    JsValue::from_str(&dfa_val_str)
+pub fn genRegexAndDfa(decomposedRegex: JsValue) -> Result<JsValue, JsValue> {
+    let mut decomposed_regex_config: DecomposedRegexConfig = from_value(decomposedRegex)
+        .map_err(|e| JsValue::from_str(&format!("failed to parse decomposed regex: {}", e)))?;
+    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config).map_err(|e| {
+        JsValue::from_str(&format!(
+            "failed to convert the decomposed regex to dfa: {}",
+            e
+        ))
+    })?;
+    let dfa_val_str = serde_json::to_string(&regex_and_dfa)
+        .map_err(|e| JsValue::from_str(&format!("failed to convert the dfa to json: {}", e)))?;
+    Ok(JsValue::from_str(&dfa_val_str))
 }
 
 #[wasm_bindgen]
 #[allow(non_snake_case)]
-pub fn genCircom(decomposedRegex: JsValue, circomTemplateName: &str) -> String {
-    let mut decomposed_regex_config: DecomposedRegexConfig =
-        from_value(decomposedRegex).expect("failed to parse decomposed regex");
-    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config)
-        .expect("failed to convert the decomposed regex to dfa");
-    gen_circom_string(&regex_and_dfa, circomTemplateName).expect("failed to generate circom")
+pub fn genCircom(decomposedRegex: JsValue, circomTemplateName: &str) -> Result<String, JsValue> {
+    let mut decomposed_regex_config: DecomposedRegexConfig = from_value(decomposedRegex)
+        .map_err(|e| JsValue::from_str(&format!("failed to parse decomposed regex: {}", e)))?;
+    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config).map_err(|e| {
+        JsValue::from_str(&format!(
+            "failed to convert the decomposed regex to dfa: {}",
+            e
+        ))
+    })?;
+    gen_circom_string(&regex_and_dfa, circomTemplateName)
+        .map_err(|e| JsValue::from_str(&format!("failed to generate circom: {}", e)))
 }
-- 
2.43.0


From c8d4fef91863ee37fa8db956b48489efa19c301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:17 +0000
Subject: [PATCH 25/25] fix: refuse a part that matches nothing instead of
 dropping it or panicking

---
 packages/compiler/src/regex.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 0acfe11..4d1905f 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1254,6 +1254,14 @@ pub(crate) fn get_regex_and_dfa(
             })?;
 
         let mut dfa_graph = convert_dfa_to_graph(dfa)?;
+        // A part that matches no text at all, such as an empty character class
+        if !dfa_graph
+            .states
+            .iter()
+            .any(|state| state.state_type == "accept")
+        {
+            return Err(CompilerError::NoAcceptedState);
+        }
 
         handle_caret_regex(i, caret_position, regex, &mut dfa_graph)?;
 
-- 
2.43.0

