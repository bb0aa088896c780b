#[macro_use]
mod engine;
mod coh;
mod model;
mod obs;
mod ops;
mod props;
use engine::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::PathBuf;

fn verif() -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())) }

fn ctx(id: &str, seed: u64, thorough: bool, mode: Mode) -> Ctx {
    Ctx { id: id.into(), seed, thorough, mode, threads: 8, scale: std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
        stats: BTreeMap::new(), violations: vec![], replay_result: None, only: std::env::var("VH_ONLY").ok() }
}

fn replay(id: &str, sub: &str, value: &Value) -> Option<Check> {
    let mut c = ctx(id, 1, false, Mode::Replay { sub: sub.into(), value: value.clone() });
    let p = props::get(id)?;
    (p.run)(&mut c);
    c.replay_result
}

/// A run that does not finish is an error of the check, never a violation.
fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(secs));
        eprintln!("watchdog: no result after {secs} s");
        std::process::exit(3);
    });
}

fn check(id: &str, seed: u64, thorough: bool) -> i32 {
    let t0 = std::time::Instant::now();
    let Some(p) = props::get(id) else { eprintln!("unknown property {id}"); return 2 };
    let idc = id.to_string();
    on_abort(Box::new(move |sub, m, v| {
        let id = &idc;
        let n = std::cell::Cell::new(0);
        let v = if !m.contains("did not end") && sub_fails(id, sub, &v, &n) { json_shrink(&v, &|c| sub_fails(id, sub, c, &n), 45) } else { v };
        let f = verif().join("replays").join(format!("{id}-{sub}.json"));
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(&f, serde_json::to_string_pretty(&json!({"property": id, "sub": sub, "value": v, "message": m})).unwrap()).unwrap();
        let ev = json!({"property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": p.rule, "samples": [v], "note": "the run ended early: the failing case aborts the process"},
            "assumptions": p.assumptions, "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0, "violations": 1});
        std::fs::create_dir_all(verif().join("evidence")).unwrap();
        std::fs::write(verif().join("evidence").join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        println!("{m}\n  input: {v}\nVIOLATION property={id} replay={}", f.display());
        std::process::exit(1)
    }));
    hang_monitor();
    watchdog(if thorough { 4 * 3600 } else { 700 });
    // Recorded genuine defects: re-run each listed input strictly.
    let kf: Vec<Value> = match std::fs::read_to_string(verif().join("known_findings.json")) {
        Ok(s) => serde_json::from_str::<Value>(&s).expect("known_findings.json")["findings"].as_array().cloned().unwrap_or_default(),
        Err(_) => vec![],
    };
    let mut known = vec![];
    for f in kf.iter().filter(|f| f["property"] == id && f["status"] == "open") {
        set_strict(true);
        let r = replay(id, f["sub"].as_str().unwrap(), &f["value"]);
        set_strict(false);
        match r {
            Some(Err(m)) => {
                println!("KNOWN-FINDING: property={id} {}", f["what"].as_str().unwrap());
                known.push(json!({"what": f["what"], "observed": m.chars().take(300).collect::<String>()}));
            }
            Some(Ok(())) => println!("note: listed finding no longer occurs: {}", f["what"]),
            None => { eprintln!("known finding names an unknown sub-check {}", f["sub"]); return 2 }
        }
    }
    let mut c = ctx(id, seed, thorough, Mode::Run);
    (p.run)(&mut c);
    let mut eval = 0;
    let mut nontriv = 0;
    let mut samples = vec![];
    let mut subs = serde_json::Map::new();
    for (n, s) in &c.stats {
        println!("{n}: cases={} nontrivial={} {:?}", s.cases, s.nontrivial.len(), s.labels);
        eval += s.cases;
        nontriv += s.nontrivial.len();
        for x in s.samples.iter().take(2) { samples.push(json!({"sub_check": n, "case": x})); }
        subs.insert(n.clone(), json!({"cases": s.cases, "distinct_nontrivial": s.nontrivial.len(), "labels": s.labels}));
    }
    for v in &c.violations {
        let f = verif().join("replays").join(format!("{id}-{}.json", v.sub));
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(&f, serde_json::to_string_pretty(&json!({"property": id, "sub": v.sub, "value": v.value, "message": v.message, "debug": v.debug})).unwrap()).unwrap();
        println!("{}\n  input: {}", v.message, v.debug.chars().take(3000).collect::<String>());
        println!("VIOLATION property={id} replay={}", f.display());
    }
    let wall = t0.elapsed().as_secs_f64();
    if std::env::var_os("VH_TRIAGE").is_some() { triage_report(); }
    else if c.only.is_none() {
        let ev = json!({
            "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": eval, "distinct_nontrivial": nontriv, "rule": p.rule, "samples": samples, "sub_checks": subs, "known_findings_reproduced": known},
            "assumptions": p.assumptions, "wall_s": (wall * 100.0).round() / 100.0, "violations": c.violations.len(),
        });
        let d = verif().join("evidence");
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    println!("{id}: {eval} cases, {nontriv} distinct non-trivial, {} violation(s), {wall:.1} s", c.violations.len());
    if c.violations.is_empty() { 0 } else { 1 }
}

/// Replay a value in a subprocess: does it fail (or abort)?
fn sub_fails(id: &str, sub: &str, v: &Value, n: &std::cell::Cell<u32>) -> bool {
    n.set(n.get() + 1);
    let f = std::env::temp_dir().join(format!("vh-shrink-{}-{}.json", std::process::id(), n.get()));
    std::fs::write(&f, json!({"property": id, "sub": sub, "value": v}).to_string()).unwrap();
    let r = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&f).env("VH_NO_SHRINK", "1")
        .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
    let _ = std::fs::remove_file(&f);
    match r { Ok(s) => s.code() == Some(1) || s.code().is_none(), Err(_) => false }
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let tier = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let seed = get("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    match args.first().map(|s| s.as_str()) {
        Some("list") => for p in props::ALL { println!("{}", p.id) },
        Some("replay") => {
            let path = args[1].clone();
            on_abort(Box::new(move |_, m, _| { println!("{m}\nVIOLATION property=? replay={path}"); std::process::exit(1) }));
            let f: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
            watchdog(600);
            set_strict(args.iter().any(|a| a == "--strict"));
            let id = f["property"].as_str().unwrap();
            match replay(id, f["sub"].as_str().unwrap(), &f["value"]) {
                Some(Ok(())) => println!("holds"),
                Some(Err(m)) => { println!("{m}\nVIOLATION property={id} replay={}", args[1]); std::process::exit(1) }
                None => { println!("no such sub-check"); std::process::exit(2) }
            }
        }
        Some("check") => std::process::exit(check(&args[1], seed, tier == "thorough")),
        Some("trace") => {
            let f: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
            let h: ops::Hist = serde_json::from_value(f["value"].clone()).unwrap();
            let w = ops::start(&h.init).unwrap();
            let show = |w: &ops::World| {
                println!("   plain={:?} chars={} blocks={} cur={}/{}", w.doc.to_plain_text().unwrap_or_default(), w.doc.character_count(), w.doc.block_count(), w.cur.position(), w.cur.anchor());
                for b in w.doc.blocks() { println!("     {}+{} {:?}", b.position(), b.length(), b.text()); }
            };
            show(&w);
            for op in &h.ops {
                let r = w.apply(op, &mut Stats::default());
                println!("{op:?} -> {}", match &r { None => "skipped".into(), Some(Ok(())) => "ok".to_string(), Some(Err(e)) => format!("{e}") });
                show(&w);
                if let Err(m) = coh::coherent(&w.doc, true) { println!("   INCOHERENT: {m}"); }
            }
        }
        _ => { eprintln!("usage: vharness list | check ID [--tier T] [--seed N] | replay FILE [--strict] | trace FILE"); std::process::exit(2) }
    }
}
