//! Runs the real compiler and extraction API on requests read as JSON lines, one answer per line.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use zk_regex_compiler::{
    gen_circom_from_decomposed_regex, gen_from_decomposed, gen_from_raw, DecomposedRegexConfig, RegexPartConfig,
};

fn tmp() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("ZKDRIVE_TMP").expect("ZKDRIVE_TMP"))
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

fn config(v: &Value) -> DecomposedRegexConfig {
    DecomposedRegexConfig {
        parts: v["parts"]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| RegexPartConfig {
                is_public: p[0].as_bool().unwrap(),
                regex_def: p[1].as_str().unwrap().to_string(),
            })
            .collect(),
    }
}

fn read_out(dir: &std::path::Path, public: usize, halo2: bool) -> Value {
    let mut o = json!({"ok": true});
    if let Ok(s) = std::fs::read(dir.join("c.circom")) {
        o["circom"] = json!(String::from_utf8_lossy(&s));
    }
    if halo2 {
        o["allstr"] = json!(std::fs::read_to_string(dir.join("allstr.txt")).ok());
        o["substr"] = json!((0..public + 2)
            .map(|i| std::fs::read_to_string(dir.join(format!("substr_{i}.txt"))).ok())
            .collect::<Vec<_>>());
    }
    o
}

fn compile(v: &Value) -> Value {
    let dir = tmp().join(format!("d{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let circ = dir.join("c.circom");
    let circ = if v["nocircuit"] == json!(true) { None } else { Some(circ.to_str().unwrap()) };
    let d = dir.to_str().unwrap();
    let subs = v["subs"].as_bool();
    let halo2 = v["halo2"].as_bool().unwrap_or(false);
    let name = v["name"].as_str().unwrap_or("T");
    let mut public = 0;
    let r: Result<Result<(), String>, String> = match v["cmd"].as_str().unwrap() {
        "struct" => {
            let mut c = config(v);
            guarded(|| {
                if v["again"] == json!(true) {
                    // the same structure was used before, for another circuit
                    gen_circom_from_decomposed_regex(&mut c, circ, Some("Earlier"), Some(false)).map_err(|e| e.to_string())?;
                }
                gen_circom_from_decomposed_regex(&mut c, circ, circ.map(|_| name), subs).map_err(|e| e.to_string())
            })
        }
        "decomposed" => {
            let f = dir.join("in.json");
            let parts: Vec<Value> = v["parts"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| {
                    public += p[0].as_bool().unwrap() as usize;
                    json!({"is_public": p[0], "regex_def": p[1]})
                })
                .collect();
            std::fs::write(&f, json!({ "parts": parts }).to_string()).unwrap();
            let f = f.to_str().unwrap().to_string();
            guarded(|| {
                gen_from_decomposed(&f, if halo2 { Some(d) } else { None }, circ, circ.map(|_| name), subs)
                    .map_err(|e| e.to_string())
            })
        }
        "text" => {
            // the definition file's text is given verbatim
            let f = dir.join("in.json");
            std::fs::write(&f, v["text"].as_str().unwrap()).unwrap();
            let f = f.to_str().unwrap().to_string();
            guarded(|| {
                gen_from_decomposed(&f, if halo2 { Some(d) } else { None }, circ, circ.map(|_| name), subs)
                    .map_err(|e| e.to_string())
            })
        }
        "raw" => {
            let f = dir.join("subs.json");
            let fp = if v["transitions"].is_null() {
                None
            } else {
                public = v["transitions"].as_array().unwrap().len();
                std::fs::write(&f, json!({"transitions": v["transitions"]}).to_string()).unwrap();
                Some(f.to_str().unwrap().to_string())
            };
            let re = v["regex"].as_str().unwrap();
            guarded(|| {
                gen_from_raw(re, fp.as_deref(), if halo2 { Some(d) } else { None }, circ, circ.map(|_| name), subs)
                    .map_err(|e| e.to_string())
            })
        }
        other => panic!("unknown command {other}"),
    };
    match r {
        Ok(Ok(())) => read_out(&dir, public, halo2),
        Ok(Err(e)) => json!({"ok": false, "err": e}),
        Err(p) => json!({"ok": false, "panic": p}),
    }
}

fn extract(v: &Value) -> Value {
    use zk_regex_apis::extract_substrs as x;
    let input: String = match v["bytes"].as_array() {
        Some(b) => match String::from_utf8(b.iter().map(|c| c.as_u64().unwrap() as u8).collect()) {
            Ok(s) => s,
            Err(_) => return json!({"ok": false, "err": "not utf-8"}),
        },
        None => v["input"].as_str().unwrap().to_string(),
    };
    let r = guarded(|| {
        let fmt = |r: Result<Vec<(usize, usize)>, x::ExtractSubstrssError>| r.map_err(|e| format!("{e}"));
        match v["fn"].as_str() {
            None => {
                let cfg = x::DecomposedRegexConfig {
                    parts: v["parts"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|p| x::RegexPartConfig {
                            is_public: p[0].as_bool().unwrap(),
                            regex_def: p[1].as_str().unwrap().to_string(),
                        })
                        .collect(),
                };
                let rp = v["reveal_private"].as_bool().unwrap_or(false);
                let spans = fmt(x::extract_substr_idxes(&input, &cfg, rp))?;
                let strs = x::extract_substr(&input, &cfg, rp).map_err(|e| format!("{e}"))?;
                Ok((spans, Some(strs)))
            }
            Some("email_addr") => fmt(x::extract_email_addr_idxes(&input)).map(|s| (s, None)),
            Some("email_domain") => fmt(x::extract_email_domain_idxes(&input)).map(|s| (s, None)),
            Some("from_all") => fmt(x::extract_from_all_idxes(&input)).map(|s| (s, None)),
            Some("from_addr") => fmt(x::extract_from_addr_idxes(&input)).map(|s| (s, None)),
            Some("to_all") => fmt(x::extract_to_all_idxes(&input)).map(|s| (s, None)),
            Some("to_addr") => fmt(x::extract_to_addr_idxes(&input)).map(|s| (s, None)),
            Some("subject_all") => fmt(x::extract_subject_all_idxes(&input)).map(|s| (s, None)),
            Some("body_hash") => fmt(x::extract_body_hash_idxes(&input)).map(|s| (s, None)),
            Some("timestamp") => fmt(x::extract_timestamp_idxes(&input)).map(|s| (s, None)),
            Some("message_id") => fmt(x::extract_message_id_idxes(&input)).map(|s| (s, None)),
            Some(o) => Err(format!("no extractor {o}")),
        }
    });
    match r {
        Ok(Ok((s, t))) => json!({"ok": true, "spans": s, "strs": t}),
        Ok(Err(e)) => json!({"ok": false, "err": e}),
        Err(p) => json!({"ok": false, "panic": p}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let r = match v["cmd"].as_str().unwrap() {
            "extract" => extract(&v),
            "pad" => match guarded(|| {
                zk_regex_apis::padding::pad_string(v["input"].as_str().unwrap(), v["size"].as_u64().unwrap() as usize)
            }) {
                Ok(b) => json!({"ok": true, "bytes": b}),
                Err(p) => json!({"ok": false, "panic": p}),
            },
            _ => compile(&v),
        };
        let mut o = out.lock();
        writeln!(o, "{}", r).unwrap();
        o.flush().unwrap();
    }
}
