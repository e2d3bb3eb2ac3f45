CC = "packages/compiler/src/circom.rs"
RX = "packages/compiler/src/regex.rs"
H2 = "packages/compiler/src/halo2.rs"
HELP = "packages/circom/circuits/regex_helpers.circom"
COM = "packages/circom/circuits/common/"

seed("S01", "C08", "two character classes of one regex with runs of 17 or more characters that start at the same character but end at different ones",
     "the cached range check of the first class is reused for the second, so the second accepts the first one's characters",
     [(CC, "if let Some((_, and_i)) = range_checks[min as usize][max as usize] {", "if let Some((_, and_i)) = range_checks[min as usize][min as usize] {"),
      (CC, "range_checks[min as usize][max as usize] = Some((*lt_i, *and_i));", "range_checks[min as usize][min as usize] = Some((*lt_i, *and_i));")],
     r"""
done(check([(False, "q"), (True, "[a-s][a-z]")], "qaz", 1, ".az"),
     check([(False, "q"), (True, "[a-s][a-z]")], "qzz", 0, "..."),
     check([(False, "q"), (True, "[a-z][a-s]")], "qzz", 0, "..."))
""")

seed("S02", "C01", "a class made of a run and single characters beside a class of single characters only, with gate numbers that coincide",
     "the shared OR gate is looked up by the numbers of its inputs without their kind, so a transition can listen to another class's gate",
     [(CC, "let eq_outputs_key = serde_json::to_string(&eq_outputs).unwrap();",
       "let eq_outputs_key = serde_json::to_string(\n            &eq_outputs\n                .iter()\n                .map(|(_, index)| index)\n                .collect::<Vec<_>>(),\n        )\n        .unwrap();")],
     r"""
p = [(False, "[A-Z!#]"), (True, "[A-Z#]"), (False, "[!#]")]
done(check(p, "Q#!", 1, ".#."), check(p, "!AB", 0, "..."), check(p, "!A!", 1, ".A."))
""")

seed("S03", "C04", "a state that loops on itself and is also entered from the initial state",
     "such states no longer count as active when deciding whether the scan is back at the start, so the public bytes after the first are lost or the scan restarts inside a match",
     [(CC, """            .map(|i| (if zero_starting_states.contains(&i) {
                format!("states_tmp[i+1][{}]", i)
            } else {""", """            .map(|i| (if zero_starting_states.contains(&i) {
                "0".to_string()
            } else {""")],
     r"""
p = [(True, "a+"), (False, "b")]
done(check(p, "xaaab", 1, ".aaa."), check(p, "aab", 1, "aa."))
""")

seed("S04", "C05", "a message that holds the byte 255 in the middle, with a regex anchored at the start",
     "the range check admits 255, which stands for the start of the message, so a prover can place the anchor anywhere",
     [(CC, "in_range_checks[i] <== LessThan(8)([msg[i], 255]);", "in_range_checks[i] <== LessEqThan(8)([msg[i], 255]);")],
     r"""
T = templates(compile([(False, "^"), (True, "ab")]))
f, o, _ = run(T, "T", b"zz\xffab")
print(f, o)
f2, o2, r2 = run(T, "T", b"abzzz")
done(bool(f) or o == 0, not f2, o2 == 1)
""")

seed("S05", "C03", "a public part in front of a private part that re-enters the state the public part ended in",
     "the transition from the initial state is not limited to the moments at which the scan restarts, so private bytes are revealed as part of the public one",
     [(CC, """<== from_zero_enabled[i+1] * states[i+1][{cur}];""", """<== 1 * states[i+1][{cur}];""")],
     r"""
p = [(True, "[a-c]"), (False, "[d-f]*;")]
done(check(p, "addd;", 1, "a...."), check(p, "xb;", 1, ".b."), check([(True, "a"), (False, "b*c")], "abbc", 1, "a..."))
""")

seed("S06", "C06", "a match that ends before the end of the message while another accepted state is never reached there",
     "the end anchor is checked against the length of the message up to the last byte but one",
     [(CC, "end_anchor_check[i+1][0] <== IsEqual()([i, padding_start[num_bytes]]);", "end_anchor_check[i+1][0] <== IsEqual()([i, padding_start[num_bytes-1]]);")],
     r"""
p = [(False, "a"), (True, "b+"), (False, "c$")]
done(check(p, "abbc", 1, ".bb.", n=8), check(p, "xxabc", 1, "...b.", n=8), check(p, "zabc", 1, "..b.", n=4), check(p, "abcz", 0, "....", n=4))
""")

seed("S07", "C06", "a regex with an end anchor and a message of more than one character",
     "the accumulator that locates the end of the text stops at one",
     [(HELP, "    signal is_zero <== IsZero()(in);\n    out <== acc + (1 - is_zero);", "    signal is_zero <== IsZero()(in);\n    signal acc_is_zero <== IsZero()(acc);\n    out <== acc + (1 - is_zero) * (1 - acc_is_zero);")],
     r"""
p = [(False, "^"), (True, "a+"), (False, "$")]
q = [(False, "x"), (True, "a+"), (False, "$")]
done(check(p, "aaa", 1, "aaa", n=6), check(q, "zxaa", 1, "..aa", n=6), check(q, "zxaab", 0, n=6))
""")

seed("S08", "C16", "a prover who does not follow the witness generator",
     "the output of the OR gate is assigned without being constrained, so any state can be declared active",
     [(HELP, "    is_zero.in <== sums[n-1];\n    out <== 1 - is_zero.out;", "    is_zero.in <== sums[n-1];\n    out <-- 1 - is_zero.out;\n    out * (1 - out) === 0;")],
     r"""
T = templates(path=CIRC + "/regex_helpers.circom")
def gate(name, n, bits, **k):
    D = circom.FieldDomain(k)
    a = Arr([n], "sig", "in")
    a.cells = [V(b, 1) for b in bits]
    o = circom.Elaborator(D, *T).run_template(name, [n], {"in": a}, "main")
    return D.failed, o["out"].cells[0].v
h = gate("MultiOR", 3, [0, 0, 0])
ok = h == ([], 0) and gate("MultiOR", 3, [0, 1, 0]) == ([], 1)
# a prover who fills in whatever hint there is with 1
class Lie(circom.FieldDomain):
    def hint(self, v):
        return 1
D = Lie()
a = Arr([3], "sig", "in")
a.cells = [V(0, 1)] * 3
o = circom.Elaborator(D, *T).run_template("MultiOR", [3], {"in": a}, "main")["out"].cells[0].v
done(ok, bool(D.failed) or o == 0)
""")

seed("S09", "C07", "an address whose local part is preceded by the character just below the first run of its class",
     "the shipped address circuit takes '>' for a character of the local part",
     [(COM + "email_addr_regex.circom", "\t\tlt[0][i].in[0] <== 63;", "\t\tlt[0][i].in[0] <== 62;")],
     r"""
T = templates(path=CIRC + "/common/email_addr_regex.circom")
def r(m, rev):
    f, o, k = run(T, "EmailAddrRegex", m)
    print(repr(m), f, o, shown(k[0]))
    return not f and o == 1 and shown(k[0]) == rev
done(r("a@b.c", "a@b.c"), r("to a>b@c.d;", "." * 5 + "b@c.d" + "."), r("x?y@c.d", "x?y@c.d"))
""")

seed("S10", "C09", "a raw regex whose automaton branches, with transitions listed by state number",
     "the states are numbered depth first, so the listed transitions name other states than documented",
     [(RX, "while let Some(state_id) = queue.pop_front() {", "while let Some(state_id) = queue.pop_back() {")],
     r"""
T = templates(compile_raw("1=(a|b) (2=(b|c)+ )+d", [[[2, 3]], [[6, 7], [7, 7]]]))
f, o, k = run(T, "T", "1=a 2=b 2=bc 2=c d", 64)
print(f, o, k)
U = templates(compile_raw("x(ab|cd)y", [[[2, 4], [3, 4]]]))
g, p, l = run(U, "T", "xaby")
W = templates(compile_raw("x(ab|cde)y", [[[3, 5]]]))
h, q, m = run(W, "T", "xcdey")
print(shown(l[0]), shown(m[0]))
done(not f and o == 1 and shown(k[0])[:18] == "..a...............", shown(k[1])[:18] == "......b...bc...c..", shown(l[0]) == "..b.", shown(m[0]) == "..d..")
""")

seed("S11", "C10", "a private part that may end early in front of a public part",
     "the substring table lists only the last of the states in which the public part can begin",
     [(RX, """            accepting_states.push(state);
            substring_starts.insert(state.state_id);""", """            accepting_states.push(state);
            substring_starts = BTreeSet::from([state.state_id]);""")],
     r"""
import os
d = scratch()
open(d + "/r.json", "w").write(config([(False, "ab?"), (True, "c+"), (False, ";")]))
p = cli("decomposed", "-d", d + "/r.json", "-h", d, "-g", "true")
t = [[int(x) for x in l.split()] for l in open(d + "/allstr.txt") if len(l.split()) == 3]
s = [[int(x) for x in l.split()] for l in open(d + "/substr_0.txt")]
go = lambda w: __import__("functools").reduce(lambda q, c: next(e[1] for e in t if e[0] == q and e[2] == ord(c)), w, 0)
print(s, go("a"), go("ab"))
done(go("a") in s[0], go("ab") in s[0], go("ac") in s[1])
""")

seed("S12", "C08", "a class in which a run ends with the space",
     "a run's last character is taken from the wrong end when it is the space",
     [(RX, """        ("' '", 32),""", """        ("' '", 33),""")],
     r"""
p = [(False, "x"), (True, "[\x1e-\x20]"), (False, "y")]
done(check(p, "x y", 1, ". ."), check(p, "x!y", 0, "..."), check([(False, "x"), (True, "[ -#]"), (False, "y")], 'x y', 1, '. .'))
""")

seed("S13", "C08", "a class with several runs, one of which is broken by a single character",
     "the run after a gap of exactly one character is joined to the run before",
     [(CC, "} else if cur_max + 1 == val {", "} else if cur_max.wrapping_add(1) == val || (cur_max - cur_min >= 16 && cur_max.wrapping_add(2) == val) {")],
     r"""
p = [(False, "x"), (True, "[a-su-z]"), (False, ";")]
done(check(p, "xs;", 1, ".s."), check(p, "xt;", 0, "..."), check(p, "xu;", 1, ".u."))
""")

seed("S14", "C01", "a class that reaches down to the first byte above the padding",
     "the lower bound of such a run is widened to zero, so padding is matched as if it were text",
     [(CC, "lines.push(format!(\"\\t\\tlt[{}][i].in[0] <== {};\", *lt_i, min));", "lines.push(format!(\n            \"\\t\\tlt[{}][i].in[0] <== {};\",\n            *lt_i,\n            if min > 1 { min } else { 0 }\n        ));")],
     r"""
p = [(False, "a"), (False, "[^q]"), (False, "b")]
done(check(p, "axb", 1), check(p, b"a\x00b".decode(), 0), check(p, "aqb", 0))
""")

seed("S15", "C03", "a public part that comes after a private part with several accepting states and loops on its first state",
     "a transition of the public part between two of the states in which it can begin is attached to every pair of such states, private ones included",
     [(RX, """        } else if from == max_state_index {
            for &accept_state in accepting_states {
                public_edges.insert((accept_state.state_id, to));
            }""", """        } else if from == max_state_index {
            for &accept_state in accepting_states {
                public_edges.insert((accept_state.state_id, to));
                public_edges.extend(
                    accept_state
                        .transitions
                        .keys()
                        .map(|&next| (accept_state.state_id, next)),
                );
            }""")],
     r"""
p = [(False, "ab*"), (True, "c+"), (False, ";")]
done(check(p, "abbcc;", 1, "...cc."), check(p, "ac;", 1, ".c."))
""")

seed("S16", "C07", "a From line without an address and an address elsewhere in the header",
     "the plain address is searched in the whole header instead of the From line",
     [(COM + "from_addr_regex.circom", "EmailAddrRegex(msg_bytes)(fromReveal);", "EmailAddrRegex(msg_bytes)(msg);")],
     r"""
T = templates(path=CIRC + "/common/from_addr_regex.circom")
def r(m, out, rev):
    f, o, k = run(T, "FromAddrRegex", m)
    print(repr(m), f, o, shown(k[0]))
    return not f and o == out and (not out or shown(k[0]) == rev)
done(r("from:x@y.z\r\n", 1, ".....x@y.z.."), r("from:x\r\nto:a@b.c\r\n", 0, ""))
""")

AP = "packages/apis/src/"

seed("S17", "C14", "a text longer than the size asked for",
     "the text is cut off to the size instead of being refused, so a hash is computed over a different text",
     [(AP + "padding.rs", "    padded_bytes.append(&mut vec![0; padded_bytes_size - padded_bytes.len()]);", "    padded_bytes.resize(padded_bytes_size, 0);")],
     r"""
def pad(*a):
    try:
        return api("padString", *a)
    except SystemExit:
        return None
r = pad("abcdef", 4)
print(r)
done(pad("abc", 5) == [97, 98, 99, 0, 0], pad("abcd", 4) == [97, 98, 99, 100], not isinstance(r, list))
""")

seed("S18", "C14", "a text with a character beyond ASCII, padded from JavaScript",
     "bytes of 128 and more arrive in JavaScript as negative numbers",
     [(AP + "wasm.rs", "arr.set(i as u32, JsValue::from(*byte));", "arr.set(i as u32, JsValue::from(*byte as i8));")],
     r"""
print(api("padString", "a\u00e9", 5))
done(api("padString", "abc", 5) == [97, 98, 99, 0, 0], api("padString", "a\u00e9", 5) == [97, 0xc3, 0xa9, 0, 0])
""")

seed("S19", "C11", "a text with a multi-byte character before the public part",
     "the extracted string is cut out by characters at byte offsets",
     [(AP + "extract_substrs.rs", ".map(|&(start, end)| input_str[start..end].to_string())", ".map(|&(start, end)| input_str.chars().skip(start).take(end - start).collect())")],
     r"""
c = config([(False, "to:"), (True, "[a-z]+")])
print(api("extractSubstr", "\u00e9\u00e9 to:abc def", c, False))
done(api("extractSubstr", "x to:abc def", c, False) == ["abc"], api("extractSubstr", "\u00e9\u00e9 to:abc def", c, False) == ["abc"])
""")

seed("S20", "C13", "a To line with a name beside the address, from JavaScript",
     "the To address extractor of the JavaScript package returns the whole line",
     [(AP + "wasm.rs", 'include_str!("./decomposed_defs/to_addr.json")', 'include_str!("./decomposed_defs/to_all.json")')],
     r"""
t = "to:Al Bo <a@b.c>\r\n"
print(api("extractToAddrIdxes", t))
done(api("extractToAddrIdxes", t) == [[10, 15]], api("extractToAddrIdxes", "to:a@b.c\r\n") == [[3, 8]], api("extractToAllIdxes", t) == [[3, 16]])
""")

seed("S21", "C11", "all parts asked for, and a private part that matches the empty text",
     "empty private spans are left out, so the spans after them are taken for other parts'",
     [(AP + "extract_substrs.rs", "                public_idxes.push((matched.start(), matched.end()));", "                if part.is_public || matched.start() < matched.end() {\n                    public_idxes.push((matched.start(), matched.end()));\n                }")],
     r"""
c = config([(False, "[a-z]*"), (False, "="), (True, "[0-9]*"), (False, ";")])
print(api("extractSubstrIdxes", "=12;", c, True))
done(api("extractSubstrIdxes", "ab=12;", c, True) == [[0, 2], [2, 3], [3, 5], [5, 6]], api("extractSubstrIdxes", "=12;", c, True) == [[0, 0], [0, 1], [1, 3], [3, 4]])
""")

LIB = "packages/compiler/src/lib.rs"
seed("S22", "C17", "a decomposed definition compiled from a file with the option for substrings left out",
     "the circuit comes with reveal outputs although the documented default is without",
     [(LIB, """        serde_json::from_reader(File::open(decomposed_regex_path)?)?;
    let gen_substrs = gen_substrs.unwrap_or(false);""", """        serde_json::from_reader(File::open(decomposed_regex_path)?)?;
    let gen_substrs = gen_substrs.unwrap_or(circom_file_path.is_some());""")],
     r"""
d = scratch()
open(d + "/r.json", "w").write(config([(False, "a"), (True, "b+"), (False, "c")]))
p = cli("decomposed", "-d", d + "/r.json", "-c", d + "/a.circom", "-t", "T")
q = cli("decomposed", "-d", d + "/r.json", "-c", d + "/b.circom", "-t", "T", "-g", "true")
a, b = (run(templates(path=d + "/" + x), "T", "xabbc") for x in ("a.circom", "b.circom"))
print(a, b)
done(not a[0] and a[1] == 1 and a[2] == {}, not b[0] and b[1] == 1 and shown(b[2][0]) == "..bb.")
""")

seed("S23", "C17", "a template name that starts with a lower-case letter",
     "the template is emitted under another name than requested",
     [(CC, '        format!("template {}(msg_bytes) {{", template_name),', '        format!(\n            "template {}{}(msg_bytes) {{",\n            template_name[..1].to_uppercase(),\n            &template_name[1..]\n        ),')],
     r"""
p = [(False, "a"), (True, "b")]
print(list(templates(compile(p, "bodyHash"))[0]))
done("Ab" in templates(compile(p, "Ab"))[0], "bodyHash" in templates(compile(p, "bodyHash"))[0])
""")

seed("S24", "C15", "a file of transitions that is not valid JSON or not of the expected form",
     "the library panics on it instead of returning an error",
     [(LIB, "            serde_json::from_reader(file).map_err(CompilerError::JsonParseError)", '            Ok(serde_json::from_reader(file).expect("invalid substring definitions"))')],
     r"""
d = scratch()
open(d + "/bad.json", "w").write('{"transitions": [[1, 2]]}')
open(d + "/good.json", "w").write('{"transitions": [[[0, 1]]]}')
go = lambda f: cli("raw", "-r", "ab", "-s", d + "/" + f, "-c", d + "/o.circom", "-t", "T", "-g", "true")
a, b = go("good.json"), go("bad.json")
print(a.returncode, b.returncode, b.stderr[-300:])
done(a.returncode == 0, "panicked at packages/compiler/src/lib.rs" not in b.stderr)
""")

seed("S25", "C12", "a text with a tab where the regex has a space or excludes spaces",
     "extraction folds tabs into spaces before it matches, the circuit does not",
     [(AP + "extract_substrs.rs", "    let entire_captures = entire_regex\n        .captures(input_str)", "    let folded = input_str.replace('\\t', \" \");\n    let entire_captures = entire_regex\n        .captures(&folded)")],
     r"""
p = [(False, "a "), (True, "[b-z]"), (False, ";")]
def ex(parts, text):
    return api("extractSubstrIdxes", text, config(parts), False)
r = ex(p, "a\tb;")
print(r)
done(check(p, "a b;", 1, "..b."), check(p, "a\tb;", 0), ex(p, "a b;") == [[2, 3]], "err" in r)
""")

seed("S26", "C11", "a match that begins or ends beyond the first 65535 bytes, from JavaScript",
     "the offsets handed to JavaScript wrap around",
     [(AP + "wasm.rs", "        js_arr.set(0, JsValue::from(idx.0 as u32));\n        js_arr.set(1, JsValue::from(idx.1 as u32));", "        js_arr.set(0, JsValue::from(idx.0 as u16));\n        js_arr.set(1, JsValue::from(idx.1 as u16));")],
     r"""
c = config([(False, "q"), (True, "[a-z]")])
n = 70000
r = api("extractSubstrIdxes", "." * n + "qz", c, False)
print(r)
done(api("extractSubstrIdxes", "...qz", c, False) == [[4, 5]], r == [[n + 1, n + 2]])
""")

seed("S27", "C09", "transitions listed for several substrings in another order than the automaton's",
     "the reveal outputs are sorted by their transitions instead of following the list",
     [(RX, """                .collect::<BTreeSet<(usize, usize)>>()
        })
        .collect::<Vec<_>>();""", """                .collect::<BTreeSet<(usize, usize)>>()
        })
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect::<Vec<_>>();""")],
     r"""
f, o, k = run(templates(compile_raw("abc", [[[2, 3]], [[0, 1]]])), "T", "xabc")
g, p, l = run(templates(compile_raw("abc", [[[0, 1]], [[2, 3]]])), "T", "xabc")
print(k, l)
done(shown(k[0]) == "...c", shown(k[1]) == ".a..", shown(l[0]) == ".a..", shown(l[1]) == "...c")
""")

seed("S28", "C10", "a regex with a start anchor, as lookup tables",
     "the transition on the marker of the message's start is left out of the table",
     [(H2, "            for &char in chars {", "            for &char in chars.iter().filter(|char| char.wrapping_add(1) != 0) {")],
     r"""
d = scratch()
open(d + "/r.json", "w").write(config([(False, "^"), (True, "ab")]))
p = cli("decomposed", "-d", d + "/r.json", "-h", d, "-g", "true")
t = [[int(x) for x in l.split()] for l in open(d + "/allstr.txt") if len(l.split()) == 3]
print(t)
done(any(e[0] == 0 and e[2] == 255 for e in t), any(e[2] == 97 for e in t))
""")

seed("S29", "C01", "a regex with both an ASCII letter and a multi-byte character whose lead byte differs from it in the top bit only",
     "the equality gate of the one is reused for the other",
     [(CC, "    if let Some(index) = eq_checks[code as usize] {", "    if let Some(index) = eq_checks[code as usize & 0x7f] {"),
      (CC, "        eq_checks[code as usize] = Some(*eq_i);", "        eq_checks[code as usize & 0x7f] = Some(*eq_i);")],
     r"""
p = [(False, "C"), (True, "\u00e9"), (False, ";")]
done(check(p, "C\u00e9;", 1), check(p, b"CC\x29;".decode(), 0), check([(False, "a"), (True, "b")], "ab", 1, ".b"))
""")

seed("S30", "C15", "a regex part with a look-around or back reference that runs into the engine's backtracking limit",
     "extraction panics instead of reporting that nothing was found",
     [(AP + "extract_substrs.rs", "        .captures(input_str)\n        .map_err(|_| ExtractSubstrssError::SubstringOfEntireNotFound(entire_regex.clone()))?", "        .captures(input_str)\n        .expect(\"the regex was compiled\")")],
     r"""
def ex(parts, text):
    try:
        return api("extractSubstrIdxes", text, config(parts), False)
    except SystemExit as e:
        return str(e)
r = ex([(True, "(?!b)(a|b|ab)*(?<=z)c")], "ab" * 40)
print(str(r)[:200])
done(ex([(False, "a"), (True, "b")], "ab") == [[1, 2]], isinstance(r, dict) and "unreachable" not in r.get("err", "unreachable"))
""")

seed("S31", "C18", "a prover who does not follow the witness generator",
     "whether a byte of a public part is shown is left to the prover, who may show any subset of them",
     [(CC, '''    reveal += &format!(
        "\\t\\tis_reveal{idx}[i] <== MultiAND(3)([out, is_substr{idx}[i], is_consecutive[i][2]]);\\n"
    );''', '''    reveal += &format!(
        "\\t\\tmay_reveal{idx}[i] <== MultiAND(3)([out, is_substr{idx}[i], is_consecutive[i][2]]);\\n"
    );
    reveal += &format!(
        "\\t\\tis_reveal{idx}[i] <-- out * is_substr{idx}[i] * is_consecutive[i][2];\\n"
    );
    reveal += &format!("\\t\\tis_reveal{idx}[i] * (may_reveal{idx}[i] - 1) === 0;\\n");
    reveal += &format!("\\t\\tis_reveal{idx}[i] * (is_reveal{idx}[i] - 1) === 0;\\n");'''),
      (CC, '''    logic += &format!("\\tsignal is_reveal{idx}[msg_bytes];\\n");
''', '''    logic += &format!("\\tsignal may_reveal{idx}[msg_bytes];\\n");
    logic += &format!("\\tsignal is_reveal{idx}[msg_bytes];\\n");
''')],
     r"""
TF = templates(compile([(False, "a"), (True, "b+"), (False, "c")]))
honest = run(TF, "T", "abbc", 6)
print(honest)
other = []
for i in range(200):  # whatever the prover is free to choose, chosen otherwise
    for v in (0, 1, 2):
        failed, out, rev = run(TF, "T", "abbc", 6, hints={i: v})
        if not failed and (out, rev) != honest[1:]:
            other.append((i, v, out, rev))
print(other[:2])
done(not honest[0], honest[1] == 1, shown(honest[2][0])[:4] == ".bb.", not other)
""")

seed("S32", "C17", "a definition with two or more public parts, as lookup tables without substrings",
     "the substring tables are written although substring generation is off",
     [(H2, "    if !gen_substrs {\n        return Ok(());", "    if !gen_substrs && substr_file_paths.len() <= 1 {\n        return Ok(());")],
     r"""
d = scratch()
json.dump({"parts": [{"is_public": True, "regex_def": "a"}, {"is_public": False, "regex_def": "-"}, {"is_public": True, "regex_def": "b"}]}, open(d + "/d.json", "w"))
p = cli("decomposed", "-d", d + "/d.json", "-h", d, "-g", "false")
files = sorted(os.listdir(d))
print(p.returncode, p.stderr[-300:], files)
q = cli("decomposed", "-d", d + "/d.json", "-h", d, "-g", "true")
done(p.returncode == 0, q.returncode == 0, files == ["allstr.txt", "d.json"], sorted(os.listdir(d)) == ["allstr.txt", "d.json", "substr_0.txt", "substr_1.txt"])
""")

seed("S33", "C02", "two states each entered by several transitions whose gates agree in first, last and number only",
     "the OR gate of one state is reused for the other, so the circuit follows transitions it should not and misses others",
     [(CC, 'let outputs_key = serde_json::to_string(&outputs).expect("Failed to serialize outputs");',
       'let outputs_key = format!("{}", outputs.iter().sum::<usize>());')],
     r"""
p = [(False, ">"), (True, "[^<>]+"), (False, "<.*")]
q = [(False, "x"), (True, "(ab|cd|ef)+"), (False, ";")]
done(check(p, ">@<", 1, ".@."), check(p, ">a@b<xyz", 1, ".a@b...."), check(q, "xabcd;", 1), check(q, "xefab;", 1))
""")
