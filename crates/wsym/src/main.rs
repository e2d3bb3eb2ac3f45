//! Symbolic execution of a wasm module over symbolic input bytes.
//!
//! Every path's condition is a box: a set of byte values per input position. A branch on a value that depends on one
//! byte splits that byte's set; a branch on a value of several bytes is bit-blasted to a decision diagram, the top
//! byte's set is split into the classes with equal cofactors, and the instruction is executed again on each. The
//! boxes of the reported paths therefore partition the input space exactly.
mod bdd;
mod exec;
mod module;

use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn mask_of(h: &str) -> [u64; 4] {
    let mut m = [0u64; 4];
    for (i, c) in h.bytes().rev().enumerate() {
        let d = (c as char).to_digit(16).unwrap() as u64;
        m[i / 16] |= d << (4 * (i % 16));
    }
    m
}

fn hex(m: &[u64; 4]) -> String {
    let s = format!("{:x}{:016x}{:016x}{:016x}", m[3], m[2], m[1], m[0]);
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}

fn main() {
    let path = std::env::args().nth(1).expect("module");
    let bytes = std::fs::read(path).unwrap();
    let child = std::thread::Builder::new().stack_size(1 << 30).spawn(move || serve(&bytes)).unwrap();
    child.join().unwrap();
}

fn serve(bytes: &[u8]) {
    let m = module::load(bytes);
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let cfg = v["config"].to_string();
        let doms: Vec<[u64; 4]> = v["doms"].as_array().unwrap().iter().map(|h| mask_of(h.as_str().unwrap())).collect();
        let t0 = std::time::Instant::now();
        let mut e = exec::Engine::new(&m, v["max_paths"].as_u64().unwrap_or(20000) as usize,
            v["max_steps"].as_u64().unwrap_or(2_000_000_000), v["secs"].as_f64().unwrap_or(600.0));
        e.path_steps = v["path_steps"].as_u64().unwrap_or(u64::MAX);
        e.keep_sym = v["sym"].as_bool().unwrap_or(false);
        let r = e.job(cfg.as_bytes(), &doms);
        let mut paths = vec![];
        for p in &e.paths {
            let b: Vec<String> = p.doms.iter().map(hex).collect();
            paths.push(match &p.out {
                Ok(w) => json!({"box": b, "out": w.iter().map(|o| match o {
                    exec::Word::C(c) => json!(c),
                    exec::Word::Tab(j, t) => json!({"byte": j, "table": t}),
                }).collect::<Vec<_>>()}),
                Err(t) => json!({"box": b, "trap": t}),
            });
        }
        let fns: Vec<&str> = if v["fns"].as_bool().unwrap_or(false) {
            (0..m.funcs.len()).filter(|i| e.touched[*i]).map(|i| m.funcs[i].name.as_str()).collect()
        } else {
            vec![]
        };
        let o = json!({"complete": r.is_ok(), "why": r.err(), "paths": paths, "steps": e.steps, "forks": e.forks,
            "decisions": e.decisions, "nodes": e.node_count(), "bdd": e.bdd_size(), "fns": fns,
            "secs": t0.elapsed().as_secs_f64()});
        let mut w = out.lock();
        writeln!(w, "{o}").unwrap();
        w.flush().unwrap();
    }
}
