"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
C = "packages/compiler/src/circom.rs"
R = "packages/compiler/src/regex.rs"
X = "packages/apis/src/extract_substrs.rs"
H = "packages/circom/circuits/regex_helpers.circom"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})


T0 = "No Rust test looks at a generated circuit; the circuit tests of the repository prove a handful of fixed messages for a handful of regexes with the honest witness only."
prop("C01", "A circuit accepts only messages that contain a match",
     "Whatever witness a prover picks, a generated circuit that outputs 1 was given a message that contains a substring matching the whole regex, and its output is never anything but 0 or 1. This holds for every supported regex and every message.",
     ("programs", "inputs"), "every supported regex, every message of any length, every assignment to the circuit's signals that satisfies its constraints", T0,
     [C, R, H], [("state transitions, restart from state 0, acceptance", "circom.rs: gen_circom_allstr, add_state_transition, add_from_zero_enabled; regex.rs: get_regex_and_dfa, add_dfa"),
                 ("boolean gates", "regex_helpers.circom: MultiOR, MultiNOR, ORAnd")],
     [("states[i][s]", "the automaton is in state s before byte i", "generated template")], ["output signal out"])
prop("C02", "Every match is accepted, and every supported regex compiles to a valid circuit",
     "For every regex within the documented limitations the compiler succeeds and emits a well-formed circuit (every signal assigned once, quadratic constraints, component inputs complete). For every byte message the honest witness satisfies all constraints, and the output is 1 whenever the left-to-right scan for the regex finds a match and 0 when it finds none.",
     ("programs", "inputs"), "every supported regex, every byte message of any length", T0 + " A message that is missed needs a restart after a failed run, an optional part or an edge label that the samples do not have.",
     [C, R, H], [("automaton construction and concatenation of parts", "regex.rs: convert_dfa_to_graph, add_dfa, resolve_start_reentry"), ("edge labels", "circom.rs: optimize_char_ranges, add_range_check, add_eq_check"),
                 ("restart of a failed run", "circom.rs: states_tmp, from_zero_enabled")], (), ["compiler result", "constraint satisfaction", "output signal out"])
prop("C03", "Nothing outside the public parts of a match can be revealed",
     "Whatever witness a prover picks, a reveal output is zero at every position except where the message's own byte belongs to that public part in some match of the regex, and then it is that byte. Without a match all reveal outputs are zero.",
     ("programs", "inputs"), "every supported regex with public parts, every message, every satisfying assignment", T0 + " They look at what is revealed for an intended message, not at what could be revealed for others.",
     [C, R], [("substring transitions", "regex.rs: process_public_regex, update_public_edges"), ("backward consistency", "circom.rs: write_consecutive_logic, add_substrs_constraints")],
     [("is_consecutive", "the byte lies in a run that reaches acceptance", "generated template")], ["reveal outputs"])
prop("C04", "Each reveal output holds exactly the bytes of its public part",
     "For every byte message with a match, the k-th reveal output equals the message at the positions the left-to-right scan assigns to the k-th public part and is zero elsewhere. There is one reveal output per public part, in order.",
     ("programs", "inputs"), "every supported regex with public parts, every byte message", T0,
     [C, R], [("substring transitions", "regex.rs: process_public_regex, merge_edges"), ("reveal constraints", "circom.rs: write_substring_constraints")], (), ["reveal outputs"])
prop("C05", "The start anchor cannot be forged and is never silently lost",
     "A regex with a start anchor matches only from the first byte of the message (or through the alternatives given beside the anchor). No message element outside 0..254 is accepted, so the marker in front of the message cannot be imitated. An anchor at a place where it could not take effect is refused.",
     ("programs", "inputs"), "every regex with ^ in the documented positions, every message, every field value a prover may put into it, and every misplaced anchor",
     T0 + " Forging needs a message element no honest sender produces.", [C, R], [("marker and range check", "circom.rs: generate_state_transition... in[0]<==255, in_range_checks"), ("caret handling", "regex.rs: process_caret_in_regex, validate_anchors, modify_graph_for_caret")],
     (), ["output signal out", "constraint satisfaction", "compiler result"])
prop("C06", "The end anchor holds for matches at the end of the message only",
     "With a regex ending in $, the output is 1 exactly if a match ends at the last byte before the zero padding, and only that match reveals anything. An escaped dollar sign is an ordinary character.",
     ("programs", "inputs"), "every regex ending in $, every message followed by zero padding only, including none", T0,
     [C, R], [("end check", "circom.rs: end_anchor_logic, write_consecutive_logic"), ("anchor detection", "regex.rs: ends_with_end_anchor, validate_anchors")], (), ["output signal out", "reveal outputs"])
prop("C07", "The circuits shipped in the repository implement their definitions",
     "Every ready-made circuit accepts exactly the messages its decomposed definition describes and reveals exactly its public part, whatever witness a prover picks. The address circuits composed from others reveal the address in angle brackets if the line has one and the plain address otherwise, and only from within the From or To line.",
     ("inputs",), "each shipped circuit, every message of any length, every satisfying assignment",
     "The shipped circuits were generated by older compilers and are tested with a few addresses each.", ["packages/circom/circuits/common"],
     [("generated templates", "packages/circom/circuits/common/*_regex.circom"), ("composition", "from_addr_regex.circom, to_addr_regex.circom, email_addr_with_name_regex.circom")], (), ["outputs out and reveal0 of each template"])
prop("C08", "Every edge label selects exactly its characters",
     "A character class compiles to a circuit that accepts exactly the bytes of the class, at that position, for every class: single characters, runs of every length and bounds, several runs, complements, and characters that need quoting in textual forms of the automaton. The same bytes are in the lookup tables.",
     ("programs", "inputs"), "every set of bytes 1..127 (and UTF-8 sequences) as the label of a transition, every byte of the message",
     "Labels go through a textual form with quoting and through an optimisation of long runs; tests visit a few of them.", [C, R, "packages/compiler/src/halo2.rs"],
     [("label parsing", "regex.rs: parse_transition, process_edge, parse_char"), ("run optimisation", "circom.rs: optimize_char_ranges, add_range_check")], (), ["output signal out", "lookup table"])
prop("C09", "Raw regexes with listed transitions mean the same as documented",
     "A circuit from a raw regex accepts exactly the messages that contain a match of the regex, alternatives and anchors included. Its reveal outputs are the bytes consumed by the listed transitions of the automaton the compiler reports, within the match, and the documented state numbering is kept.",
     ("programs", "inputs"), "every supported raw regex, every list of transitions of its automaton, every message",
     "Tests cover raw regexes only through fixed automaton strings.", [C, R], [("raw path", "regex.rs: create_regex_and_dfa_from_str_and_defs, create_dfa_graph_from_regex, sort_and_rename_states")], (), ["outputs out and reveal"])
prop("C10", "The lookup tables describe the same automaton and substrings as the regex",
     "The transition table of a decomposed regex accepts exactly the byte strings the regex describes, is deterministic, and lists its first, accepting and largest state correctly. The substring tables list exactly the transitions of the public parts and the states where a part can begin and end.",
     ("programs", "inputs"), "every supported regex, every byte string", "No test reads the table files.", ["packages/compiler/src/halo2.rs", R],
     [("table writer", "halo2.rs: dfa_to_regex_def_text, gen_halo2_tables"), ("boundaries", "regex.rs: process_public_regex, collect_substr_ends")], (), ["the written table files"])
prop("C11", "Extraction returns the spans of the leftmost match, part by part",
     "Extraction succeeds exactly if the text contains a match of the concatenated parts. The spans it returns are those of the public parts (or of all parts on request) of the leftmost match, in order, each on character boundaries and matching its own part, whatever groups the parts themselves contain; the extracted strings are the text at these spans. The JavaScript wrappers return the same for a configuration given as a text or as an object, in either spelling of its fields.",
     ("programs", "inputs"), "every list of regex parts, every text", "Tests check a dozen fixed texts; groups inside parts, empty parts and texts with several candidates hardly occur.", [X, "packages/apis/src/wasm.rs"],
     [("group bookkeeping", "extract_substrs.rs: extract_substr_idxes, extract_substr")], (), ["returned spans and strings"])
prop("C12", "Extraction and the circuit agree on the public parts",
     "For a text whose match is unambiguous, the spans found by extraction are exactly the positions at which the generated circuit reveals bytes, for each public part. Extraction finds a match in every text the circuit accepts and in no text that has none, and the circuit accepts every text in which its left-to-right scan reaches a match.",
     ("programs", "inputs"), "every supported regex with public parts, every text with one way to match", "The two implementations are never compared by a test.", [X, C, R],
     [("extraction", "extract_substrs.rs: extract_substr_idxes"), ("circuit", "circom.rs: gen_circom_template")], (), ["returned spans", "reveal outputs"])
prop("C13", "Each built-in extractor finds the field its definition describes",
     "Each ready-made extractor (address, domain, From, To, subject, body hash, timestamp, message id) returns the span its shipped circuit's definition gives for the same text, and fails exactly if the definition matches nowhere; the JavaScript wrappers do the same. The From and To address extractors return the address in the last angle brackets of the header line, or the whole line if it has none, and never anything from another line.",
     ("inputs",), "each built-in extractor, every text", "One or two fixed headers per extractor are tested.", [X, "packages/apis/src/wasm.rs", "packages/apis/src/decomposed_defs"],
     [("definitions", "packages/apis/src/decomposed_defs/*.json"), ("extractors", "extract_substrs.rs: extract_*_idxes; wasm.rs: extract*Idxes")], (), ["returned spans"])
prop("C14", "Padding keeps the text and fills with zeros to the size asked for",
     "Padding a text returns exactly the requested number of bytes: the text's bytes, unchanged and complete, followed by zeros only, in Rust and in JavaScript. It never returns a truncated text.",
     ("inputs",), "every text and every size", "There is no test of padding.", ["packages/apis/src/padding.rs", "packages/apis/src/wasm.rs"], [("padding", "padding.rs: pad_string; wasm.rs: padString")], (), ["returned bytes"])
prop("C15", "Malformed input is reported, never a crash",
     "The compiler and the extraction library return an error for any regex, decomposition, transition list or configuration text they cannot handle, from Rust and from JavaScript; they do not panic, overflow or loop forever on it.",
     ("inputs", "programs"), "every regex text, every list of parts, every list of transitions", "Tests exercise one malformed regex part.", [R, C, X, "packages/compiler/src/wasm.rs", "packages/apis/src/wasm.rs"],
     [("error paths", "regex.rs, circom.rs, halo2.rs, extract_substrs.rs: Result plumbing, index and map accesses")], (), ["function results"])
prop("C16", "The helper templates compute their functions for every input",
     "The gate templates the generated circuits are built from compute OR and NOR of any number of inputs, the or-and combination and the conditional counter exactly, and force their outputs whatever witness a prover picks.",
     ("inputs", "configurations"), "every arity and every input in the documented domain", T0, [H], [("templates", "regex_helpers.circom: MultiOR, MultiNOR, ORAnd, IsNotZeroAcc")], (), ["template outputs"])
prop("C17", "All entry points give the same circuit, and options change only what they say",
     "Compiling a definition through the library with a structure, with a file, through the command line tool or through the JavaScript packages gives circuits that behave the same. Turning off substring generation removes the reveal outputs and the substring tables and changes nothing about acceptance; if the option is left out, decomposed definitions come without reveal outputs and raw regexes with them. The template carries the requested name, whatever it is. The automaton reported to JavaScript is that of the definition.",
     ("configurations", "programs", "inputs"), "every entry point and option combination, every supported regex, every message", "No test compares entry points; the command line tool and the generator's option are not tested at all.",
     ["packages/compiler/src/lib.rs", "packages/compiler/src/bin/compiler.rs", "packages/compiler/src/wasm.rs", "packages/apis/src/wasm.rs", C],
     [("entry points", "lib.rs: gen_from_decomposed, gen_from_raw, gen_circom_from_decomposed_regex; wasm.rs: gen*")], (), ["emitted circuits"])
prop("C18", "The message alone fixes the outputs, and they contain nothing but its bytes",
     "For any circuit the compiler emits, whatever the regex and whatever witness a prover picks, a message has one set of outputs: no second witness for the same bytes gives another out or shows more or less in a reveal output. out is 0 or 1; every element of a reveal output is 0 or the message's element at that very position, and all are 0 when out is 0.",
     ("programs", "inputs"), "every regex the compiler accepts (also beyond the documented limitations), decomposed or raw, every message, every witness", T0, [C, H, "packages/circom/circuits/common"],
     [("reveal emission", "circom.rs: add_reveal_code, add_state_code"), ("helper gates", "regex_helpers.circom")], (), ["output signal out", "reveal outputs"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
