//! The real extraction API, padding and compiler behind plain wasm exports; crates/wsym executes them symbolically.
//! Results are written as words: a status (0 ok, 1 error returned) and its payload.
#![allow(static_mut_refs)]
use js_sys::Array;
use serde_json::Value;
use wasm_bindgen::{JsCast, JsValue};
use zk_regex_apis as api;
use zk_regex_apis::extract_substrs as x;

#[no_mangle]
pub extern "C" fn alloc(n: usize) -> *mut u8 {
    let mut v: Vec<u8> = Vec::with_capacity(n.max(1));
    let p = v.as_mut_ptr();
    std::mem::forget(v);
    p
}

fn out(words: Vec<u32>) -> *const u32 {
    let mut v = vec![words.len() as u32];
    v.extend(words);
    Box::leak(v.into_boxed_slice()).as_ptr()
}

fn text(p: *const u8, n: usize) -> &'static str {
    // the input domain admits well-formed UTF-8 only
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
}

fn spans(r: Result<Vec<(usize, usize)>, x::ExtractSubstrssError>) -> *const u32 {
    match r {
        Ok(s) => {
            let mut w = vec![0];
            for (a, b) in s {
                w.push(a as u32);
                w.push(b as u32);
            }
            out(w)
        }
        Err(_) => out(vec![1]),
    }
}

/// Entry points give a text, or a text or an error.
trait Emitted {
    fn words(self) -> Vec<u32>;
}
impl Emitted for String {
    fn words(self) -> Vec<u32> {
        let mut w = vec![0];
        w.extend(self.bytes().map(|b| b as u32));
        w
    }
}
impl<T: Emitted, E> Emitted for Result<T, E> {
    fn words(self) -> Vec<u32> {
        match self {
            Ok(s) => s.words(),
            Err(e) => {
                std::mem::forget(e);
                vec![1]
            }
        }
    }
}
impl Emitted for JsValue {
    fn words(self) -> Vec<u32> {
        self.as_string().map(|s| s.words()).unwrap_or(vec![97])
    }
}
fn js(r: impl Emitted) -> *const u32 {
    out(r.words())
}

fn elements(a: &Array) -> Vec<JsValue> {
    (0..a.length()).map(|i| a.get(i)).collect()
}
fn num(v: &JsValue) -> u32 {
    v.as_f64().map(|f| f as u32).unwrap_or(0xffff)
}
fn pieces(c: &Value) -> Value {
    let parts: Vec<Value> = c["parts"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| match c["style"].as_str() {
            Some("camel") => serde_json::json!({"isPublic": p[0], "regexDef": p[1]}),
            Some("extra") => serde_json::json!({"max_size": 7, "is_public": p[0], "solidity": null, "regex_def": p[1]}),
            _ => serde_json::json!({"is_public": p[0], "regex_def": p[1]}),
        })
        .collect();
    match c["style"].as_str() {
        Some("extra") => serde_json::json!({ "max_byte_size": 4000, "parts": parts }),
        _ => serde_json::json!({ "parts": parts }),
    }
}
fn config(c: &Value) -> JsValue {
    let t = pieces(c).to_string();
    if c["object"].as_bool().unwrap_or(false) {
        js_sys::JSON::parse(&t).unwrap()
    } else {
        JsValue::from_str(&t)
    }
}
/// What the JavaScript wrappers return: pairs of numbers.
fn js_spans(r: Result<Array, JsValue>) -> *const u32 {
    match r {
        Ok(a) => {
            let mut w = vec![0];
            for e in elements(&a) {
                let e: Array = e.unchecked_into();
                if e.length() != 2 {
                    return out(vec![96]);
                }
                w.push(num(&e.get(0)));
                w.push(num(&e.get(1)));
            }
            out(w)
        }
        Err(_) => out(vec![1]),
    }
}

/// `cp` is the job's configuration (JSON), `tp` the symbolic text.
#[no_mangle]
pub extern "C" fn go(cp: *const u8, cn: usize, tp: *const u8, tn: usize) -> *const u32 {
    let c: Value = match serde_json::from_str(text(cp, cn)) {
        Ok(v) => v,
        Err(_) => return out(vec![99]),
    };
    let t = text(tp, tn);
    let cfg = || x::DecomposedRegexConfig {
        parts: c["parts"]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| x::RegexPartConfig {
                is_public: p[0].as_bool().unwrap(),
                regex_def: p[1].as_str().unwrap().to_string(),
            })
            .collect(),
    };
    match c["op"].as_str().unwrap() {
        "idxes" => spans(x::extract_substr_idxes(t, &cfg(), c["all"].as_bool().unwrap())),
        "strs" => match x::extract_substr(t, &cfg(), c["all"].as_bool().unwrap()) {
            Ok(s) => {
                // number of strings, then each one's length and bytes
                let mut w = vec![0, s.len() as u32];
                for e in s {
                    w.push(e.len() as u32);
                    w.extend(e.bytes().map(|b| b as u32));
                }
                out(w)
            }
            Err(_) => out(vec![1]),
        },
        "email_addr" => spans(x::extract_email_addr_idxes(t)),
        "email_domain" => spans(x::extract_email_domain_idxes(t)),
        "from_all" => spans(x::extract_from_all_idxes(t)),
        "from_addr" => spans(x::extract_from_addr_idxes(t)),
        "to_all" => spans(x::extract_to_all_idxes(t)),
        "to_addr" => spans(x::extract_to_addr_idxes(t)),
        "subject_all" => spans(x::extract_subject_all_idxes(t)),
        "body_hash" => spans(x::extract_body_hash_idxes(t)),
        "timestamp" => spans(x::extract_timestamp_idxes(t)),
        "message_id" => spans(x::extract_message_id_idxes(t)),
        "pad" => {
            // the first `len` bytes of the symbolic input are the text, the next two (if asked for) the size
            let n = c["len"].as_u64().unwrap() as usize;
            let size = match c["size"].as_u64() {
                Some(s) => s as usize,
                None => t.as_bytes()[n] as usize,
            };
            let r = zk_regex_apis::padding::pad_string(text(tp, n), size);
            let mut w = vec![0, size as u32, r.len() as u32];
            w.extend(r.iter().map(|b| *b as u32));
            out(w)
        }
        "part" => {
            // the symbolic text is the regex of part `at`
            let mut k = cfg();
            k.parts[c["at"].as_u64().unwrap() as usize].regex_def = t.to_string();
            spans(x::extract_substr_idxes(c["input"].as_str().unwrap(), &k, c["all"].as_bool().unwrap()))
        }
        "raw" => {
            // the symbolic text is the list of transitions
            js(zk_regex_compiler::genFromRaw(c["regex"].as_str().unwrap(), t, "T"))
        }
        "rawre" => js(zk_regex_compiler::genFromRaw(t, c["subs"].as_str().unwrap(), "T")),
        "dec" => js(zk_regex_compiler::genFromDecomposed(t, "T")),
        "decpart" => {
            // the symbolic text is the regex of part `at`
            let mut k = pieces(&c);
            k["parts"][c["at"].as_u64().unwrap() as usize]["regex_def"] = Value::String(t.to_string());
            js(zk_regex_compiler::genFromDecomposed(&k.to_string(), "T"))
        }
        // the symbolic text is the template's name
        "name" => js(zk_regex_compiler::genFromDecomposed(&pieces(&c).to_string(), t)),
        "rawname" => js(zk_regex_compiler::genFromRaw(c["regex"].as_str().unwrap(), &c["subs"].to_string(), t)),
        "circomname" => js(zk_regex_compiler::genCircom(config(&c), t)),
        // the symbolic text is the configuration
        "js_cfg" => js_spans(api::extractSubstrIdxes(c["input"].as_str().unwrap(), JsValue::from_str(t), c["all"].as_bool().unwrap())),
        // the wrappers for JavaScript; the configuration is passed as a text or as an object
        "js_idxes" => js_spans(api::extractSubstrIdxes(t, config(&c), c["all"].as_bool().unwrap())),
        "js_strs" => match api::extractSubstr(t, config(&c), c["all"].as_bool().unwrap()) {
            Ok(a) => {
                let mut w = vec![0, a.length()];
                for e in elements(&a) {
                    let s = e.as_string().unwrap_or_default();
                    w.push(s.len() as u32);
                    w.extend(s.bytes().map(|b| b as u32));
                }
                out(w)
            }
            Err(_) => out(vec![1]),
        },
        "js_email_addr" => js_spans(api::extractEmailAddrIdxes(t)),
        "js_email_domain" => js_spans(api::extractEmailDomainIdxes(t)),
        "js_from_all" => js_spans(api::extractFromAllIdxes(t)),
        "js_from_addr" => js_spans(api::extractFromAddrIdxes(t)),
        "js_to_all" => js_spans(api::extractToAllIdxes(t)),
        "js_to_addr" => js_spans(api::extractToAddrIdxes(t)),
        "js_subject_all" => js_spans(api::extractSubjectAllIdxes(t)),
        "js_body_hash" => js_spans(api::extractBodyHashIdxes(t)),
        "js_timestamp" => js_spans(api::extractTimestampIdxes(t)),
        "js_message_id" => js_spans(api::extractMessageIdIdxes(t)),
        "js_pad" => {
            let n = c["len"].as_u64().unwrap() as usize;
            let size = match c["size"].as_u64() {
                Some(s) => s as usize,
                None => t.as_bytes()[n] as usize,
            };
            let a = api::padString(text(tp, n), size);
            let mut w = vec![0, size as u32, a.length()];
            w.extend(elements(&a).iter().map(num));
            out(w)
        }
        "js_circom" => js(zk_regex_compiler::genCircom(config(&c), c["name"].as_str().unwrap())),
        "js_dfa" => js(zk_regex_compiler::genRegexAndDfa(config(&c))),
        "js_dec" => js(zk_regex_compiler::genFromDecomposed(&pieces(&c).to_string(), c["name"].as_str().unwrap())),
        "js_raw" => js(zk_regex_compiler::genFromRaw(
            c["regex"].as_str().unwrap(),
            &c["subs"].to_string(),
            c["name"].as_str().unwrap(),
        )),
        #[cfg(feature = "files")]
        op if op.starts_with("file") => files::go(&c, op, t),
        _ => out(vec![98]),
    }
}

/// The entry points that read and write files (kept in memory, crates/memfs).
#[cfg(feature = "files")]
mod files {
    use super::*;
    use memfs::fs;
    use zk_regex_compiler as z;

    const OUT: [&str; 6] = ["o.circom", "h/allstr.txt", "h/substr_0.txt", "h/substr_1.txt", "h/substr_2.txt", "h/substr_3.txt"];

    /// Whether it succeeded, and the files it wrote; there are longer ones of the same names before.
    fn run(f: impl FnOnce() -> Result<(), ()>, stale: bool) -> (bool, Vec<Option<String>>) {
        let old = "stale\n".repeat(if stale { 9000 } else { 0 });
        for o in OUT {
            let _ = fs::remove_file(o);
        }
        if stale {
            fs::write(OUT[0], &old).unwrap();
        }
        let ok = f().is_ok();
        let mut files: Vec<Option<String>> = OUT.iter().map(|o| fs::read_to_string(o).ok()).collect();
        if stale && files[0].as_deref() == Some(&old[..]) {
            files[0] = None;
        }
        (ok, files)
    }

    fn opt(v: &Value) -> Option<bool> {
        v.as_bool()
    }

    pub fn go(c: &Value, op: &str, t: &str) -> *const u32 {
        let e = |_| ();
        match op {
            // the symbolic text is the file's content
            "filedec" => {
                fs::write("d.json", t).unwrap();
                let (ok, _) = run(|| z::gen_from_decomposed("d.json", Some("h"), Some("o.circom"), Some("T"), opt(&c["g"])).map_err(e), false);
                out(vec![!ok as u32])
            }
            "fileraw" => {
                fs::write("s.json", t).unwrap();
                let r = c["regex"].as_str().unwrap();
                let (ok, _) = run(|| z::gen_from_raw(r, Some("s.json"), Some("h"), Some("o.circom"), Some("T"), opt(&c["g"])).map_err(e), false);
                out(vec![!ok as u32])
            }
            // the symbolic text is a raw regex
            "filerawre" => {
                fs::write("s.json", c["subs"].as_str().unwrap()).unwrap();
                let (ok, _) = run(|| z::gen_from_raw(t, Some("s.json"), Some("h"), Some("o.circom"), Some("T"), opt(&c["g"])).map_err(e), false);
                out(vec![!ok as u32])
            }
            // which entry points disagree about a definition (or one with the symbolic text as regex of part `at`)
            "fileways" => {
                let def = if c["parts"].is_array() {
                    let mut k = pieces(c);
                    k["parts"][c["at"].as_u64().unwrap() as usize]["regex_def"] = Value::String(t.to_string());
                    k.to_string()
                } else {
                    t.to_string()
                };
                fs::write("d.json", &def).unwrap();
                ways(c, z::genFromDecomposed(&def, "T").ok(), false, |via, h, o, g| match via {
                    "file" => z::gen_from_decomposed("d.json", h, o, Some("T"), g).map_err(e),
                    _ => match serde_json::from_str::<z::DecomposedRegexConfig>(&def) {
                        Ok(mut k) => z::gen_circom_from_decomposed_regex(&mut k, o, Some("T"), g).map_err(e),
                        Err(_) => Err(()),
                    },
                })
            }
            "filerawways" => {
                let subs = c["subs"].to_string();
                fs::write("s.json", &subs).unwrap();
                ways(c, z::genFromRaw(t, &subs, "T").ok(), true, |_, h, o, g| z::gen_from_raw(t, Some("s.json"), h, o, Some("T"), g).map_err(e))
            }
            _ => out(vec![98]),
        }
    }

    /// Each run [way, tables?, circuit?, substrings, an older file there?] against the text for JavaScript:
    /// 0, or 1 if all refuse, or 2, the number of the run and what differs.
    fn ways(c: &Value, js: Option<String>, default: bool, f: impl Fn(&str, Option<&str>, Option<&str>, Option<bool>) -> Result<(), ()>) -> *const u32 {
        let public = c["public"].as_u64().unwrap() as usize;
        for (i, r) in c["runs"].as_array().unwrap().iter().enumerate() {
            let (h, o) = (r[1].as_bool().unwrap(), r[2].as_bool().unwrap());
            let subs = opt(&r[3]).unwrap_or(default);
            let (ok, files) = run(|| f(r[0].as_str().unwrap(), h.then_some("h"), o.then_some("o.circom"), opt(&r[3])), r[4].as_bool().unwrap());
            let bad = |k: u32| out(vec![2, i as u32, k]);
            let js = match &js {
                None if ok => return bad(1),
                None => continue,
                Some(_) if !ok => return bad(2),
                Some(t) => t,
            };
            match &files[0] {
                None if o => return bad(3),
                Some(_) if !o => return bad(4),
                None => (),
                Some(t) if subs => {
                    if t != js {
                        return bad(5);
                    }
                }
                Some(t) => {
                    // the same text up to where the substrings begin
                    let t = t.trim_end_matches('}');
                    if t.len() < 100 || !js.starts_with(t) || js == t || js[t.len()..].contains("out <==") || t.contains("reveal") {
                        return bad(6);
                    }
                }
            }
            // tables only where asked for, one per public part
            if files[1].is_some() != h || (0..4).any(|k| files[2 + k].is_some() != (h && subs && k < public)) {
                return bad(7);
            }
        }
        out(vec![if js.is_some() { 0 } else { 1 }])
    }
}
