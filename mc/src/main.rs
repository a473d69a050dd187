//! mc: bounded-exhaustive model checking of osmio (see /verif/DESIGN.md).
mod c_bad;
mod c_hist;
mod c_live;
mod c_fault;
mod c_file;
mod c_cs;
mod c_wr;
mod c_obj;
mod c_val;
mod c_pbf;
mod c_xml;
mod xmlgen;
mod xmlparse;
mod cal;
mod engine;
mod model;
mod pbfenc;
mod props;
mod rd;
mod src;

use engine::*;
use serde_json::{Value, json};
use std::collections::HashSet;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio, exit};
use std::time::{Duration, Instant};

const HANG_S: u64 = 60;

fn root() -> PathBuf {
    std::env::var("MC_ROOT").map(PathBuf::from).unwrap_or("/verif".into())
}
fn scratch_base() -> PathBuf {
    std::env::var("MC_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| scratch_dir())
}
/// A folder of our own, in memory where possible.
fn scratch_dir() -> PathBuf {
    let name = format!("osmio-mc-{}", std::process::id());
    let shm = PathBuf::from("/dev/shm").join(&name);
    if std::fs::create_dir_all(&shm).is_ok() { shm } else { std::env::temp_dir().join(name) }
}
struct Known {
    keys: HashSet<String>,
}
fn known(prop: &str) -> Known {
    let mut keys = HashSet::new();
    let t = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut w = r.split_whitespace();
            if w.next() == Some(&format!("property={prop}")) {
                if let Some(k) = w.next().and_then(|k| k.strip_prefix("key=")) {
                    keys.insert(k.to_string());
                }
            }
        }
    }
    Known { keys }
}
fn limit_memory() {
    unsafe {
        let r = libc::rlimit { rlim_cur: 26 << 30, rlim_max: 26 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}
fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}
fn time_limit(thorough: bool) -> f64 {
    std::env::var("MC_TIME").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3600.0 } else { 600.0 })
}

/// Explore every scenario of the property; the result goes to a file.
fn cmd_run(prop: &str, thorough: bool, journal: &str, result: &str, only: Option<&str>) -> i32 {
    install_hook();
    limit_memory();
    let scratch = scratch_base();
    let kn = known(prop);
    let states = StateSet::new(40_000_000);
    let jf = std::fs::OpenOptions::new().create(true).truncate(true).write(true).read(true).open(journal).unwrap();
    let slots = Slots::new(jf);
    let deadline = Instant::now() + Duration::from_secs_f64(time_limit(thorough));
    let rp = result.to_string();
    let on_hang = move |scen: &str, slot: usize| {
        let _ = std::fs::write(&rp, json!({"hang": {"scenario": scen, "slot": slot}}).to_string());
        exit(4);
    };
    let mut rows = vec![];
    let mut samples = vec![];
    let mut viol: Option<(Violation, u32)> = None;
    let mut findings: Vec<(String, String)> = vec![];
    let (mut ex, mut inn, mut tr) = (0u64, 0u64, 0u64);
    let mut exhaustive = true;
    for s in props::scenarios(prop, thorough) {
        if only.is_some_and(|o| o != s.name) {
            continue;
        }
        let env = Env { thorough, states: &states, slots: Some(&slots), workers: workers(), deadline, known: &kn.keys, scratch: scratch.clone(), hang_s: HANG_S, on_hang: &on_hang };
        let before = states.n.load(std::sync::atomic::Ordering::SeqCst);
        let o = explore(&s, &env);
        let ns = states.n.load(std::sync::atomic::Ordering::SeqCst) - before;
        println!(
            "  {:<34} bound {} executions {:>9} (+{} inner) steps {:>10} outcomes {:>8} depth {:>3} {:>7.2}s{}",
            s.name, s.bound, o.executions, o.inner, o.transitions, ns, o.max_depth, o.wall,
            if o.violation.is_some() { " VIOLATED" } else if o.exhaustive { "" } else { " CAPPED" }
        );
        let _ = std::io::stdout().flush();
        rows.push(json!({"scenario": s.name, "deviation_bound": s.bound, "executions": o.executions, "inner_executions": o.inner, "steps": o.transitions, "distinct_outcomes": ns, "max_choice_depth": o.max_depth, "exhaustive_within_bound": o.exhaustive, "wall_s": (o.wall * 1000.0).round() / 1000.0}));
        for c in o.samples.iter().take(2) {
            if samples.len() < 24 {
                samples.push(json!({"scenario": s.name, "choices": c}));
            }
        }
        ex += o.executions;
        inn += o.inner;
        tr += o.transitions;
        exhaustive &= o.exhaustive;
        for f in o.findings {
            if !findings.iter().any(|x| x.0 == f.0) {
                findings.push(f);
            }
        }
        if let Some(v) = o.violation {
            viol = Some((v, s.bound));
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let v = viol.map(|(v, b)| json!({"scenario": v.scenario, "choices": v.choices, "msg": v.msg, "bound": b, "deviations": v.deviations}));
    let out = json!({"rows": rows, "samples": samples, "executions": ex, "inner": inn, "transitions": tr,
        "states": states.n.load(std::sync::atomic::Ordering::SeqCst), "exhaustive": exhaustive, "violation": v,
        "findings": findings.iter().map(|f| json!([f.0, f.1])).collect::<Vec<_>>()});
    std::fs::write(result, out.to_string()).unwrap();
    0
}

/// One execution; exit 1 if it fails.
fn cmd_one(prop: &str, thorough: bool, scenario: &str, choices: Vec<u32>, bound: u32, verbose: bool, scratch: PathBuf) -> i32 {
    install_hook();
    limit_memory();
    let kn = known(prop);
    let Some(s) = props::scenarios(prop, thorough).into_iter().find(|s| s.name == scenario) else {
        eprintln!("no scenario {scenario} in {prop}");
        return 2;
    };
    // the harness's big stack
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || {
                let mut out = vec![];
                let n = if verbose { 2 } else { 1 };
                for i in 0..n {
                    let mut cx = Cx::new(thorough, verbose, scratch.join(format!("one{i}")));
                    let mut ch = Ch::replay(choices.clone(), bound.max(1000));
                    let r = run_once(&s, &mut ch, &mut cx);
                    let mut fails: Vec<Fail> = std::mem::take(&mut cx.findings);
                    if let Err(f) = r {
                        fails.push(f);
                    }
                    fails.retain(|f| f.key.as_ref().is_none_or(|k| !kn.keys.contains(k)));
                    out.push((fails, cx.notes));
                }
                out
            })
            .unwrap()
            .join()
            .unwrap()
    });
    let _ = std::fs::remove_dir_all(&scratch);
    let msg = |f: &[Fail]| f.iter().map(|f| match &f.key { Some(k) => format!("[{k}] {}", f.msg), None => f.msg.clone() }).collect::<Vec<_>>().join("\n");
    if verbose {
        println!("property {prop}, scenario {scenario}, choices {choices:?}");
        for n in &r[0].1 {
            println!("{n}");
        }
        println!("{}", if r[0].0.is_empty() { "no failure".into() } else { format!("FAILS: {}", msg(&r[0].0)) });
        if r.len() > 1 && msg(&r[0].0) != msg(&r[1].0) {
            println!("note: the second replay reports: {}", msg(&r[1].0));
        }
    } else if !r[0].0.is_empty() {
        println!("{}", msg(&r[0].0));
    }
    if r[0].0.is_empty() { 0 } else { 1 }
}

fn printable(s: &str) -> String {
    s.chars().map(|c| if c == '\n' || (c as u32 >= 32 && c != '\u{fffd}' && c != '\u{7f}') { c.to_string() } else { c.escape_default().to_string() }).collect()
}
fn level(prop: &str) -> &'static str {
    match prop {
        "C07" | "C08" | "C15" | "C24" => "fault_enumeration",
        _ => "model_checking",
    }
}

fn replay_file(prop: &str, tier: &str, v: &Value) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    use std::hash::{DefaultHasher, Hash, Hasher};
    let mut h = DefaultHasher::new();
    v.to_string().hash(&mut h);
    let p = dir.join(format!("{prop}-{:08x}.json", h.finish() as u32));
    let mut o = v.clone();
    o["property"] = json!(prop);
    o["tier"] = json!(tier);
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&o).unwrap());
    p
}

/// Run the command with a time limit; None on timeout.
fn with_timeout(c: &mut Command, s: u64) -> (Option<std::process::ExitStatus>, String) {
    use std::io::Read;
    let mut ch = c.stdout(Stdio::piped()).spawn().expect("spawn");
    let mut out = ch.stdout.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = out.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return (Some(st), t.join().unwrap());
        }
        if t0.elapsed().as_secs() >= s {
            let _ = ch.kill();
            let _ = ch.wait();
            return (None, t.join().unwrap());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn read_slots(journal: &Path) -> Vec<(usize, String, Vec<u32>)> {
    let b = std::fs::read(journal).unwrap_or_default();
    let mut out = vec![];
    for (w, c) in b.chunks(SLOT).enumerate() {
        let line = c.split(|x| *x == b'\n').next().unwrap_or(&[]);
        let t = String::from_utf8_lossy(line).into_owned();
        let mut it = t.split_whitespace();
        if let Some(n) = it.next() {
            if n.starts_with('\0') {
                continue;
            }
            out.push((w, n.to_string(), it.filter_map(|x| x.parse().ok()).collect()));
        }
    }
    out
}

fn cmd_check(prop: &str, tier: &str, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scratch = scratch_dir();
    std::fs::create_dir_all(&scratch).unwrap();
    let exe = std::env::current_exe().unwrap();
    let journal = scratch.join("journal");
    let result = scratch.join("result.json");
    let mut tries = 0;
    let code;
    let mut res: Value;
    println!("{prop} ({tier})");
    loop {
        tries += 1;
        let _ = std::fs::remove_file(&result);
        let mut c = Command::new(&exe);
        c.args(["run", prop, tier]).arg(&journal).arg(&result).env("MC_SCRATCH", scratch.join("work"));
        if let Some(o) = only {
            c.arg(o);
        }
        let st = c.status().expect("spawn");
        res = std::fs::read_to_string(&result).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
        if st.code() == Some(0) && res.get("rows").is_some() {
            code = 0;
            break;
        }
        let hang = res.get("hang").cloned();
        println!("  exploration ended abnormally: {st}{}", if hang.is_some() { " (an execution did not return)" } else { "" });
        // which of the executions in flight does it?
        let mut slots = read_slots(&journal);
        if let Some(h) = &hang {
            let s = h["slot"].as_u64().unwrap_or(0) as usize;
            slots.retain(|x| x.0 == s);
        }
        if st.code() == Some(2) {
            code = 2;
            break;
        }
        let mut found = None;
        for (_, sc, ch) in slots {
            let (st, out) = with_timeout(
                Command::new(&exe).args(["one", prop, tier, &sc]).args(ch.iter().map(|c| c.to_string())).env("MC_SCRATCH", scratch.join("one")),
                HANG_S,
            );
            let m = match st {
                None => Some(format!("the execution does not finish within {HANG_S} s")),
                Some(s) if s.code() == Some(0) => None,
                Some(s) if s.code() == Some(1) => Some(out.trim().to_string()),
                Some(s) => Some(format!("the process dies: {s}")),
            };
            if let Some(m) = m {
                found = Some(json!({"scenario": sc, "choices": ch, "msg": m, "bound": 1000}));
                break;
            }
        }
        if let Some(f) = found {
            res = json!({"rows": [], "samples": [], "executions": 0, "inner": 0, "transitions": 0, "states": 0, "exhaustive": false, "violation": f, "findings": []});
            code = 0;
            break;
        }
        if tries >= 2 {
            code = 2;
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    if code != 0 {
        println!("ERROR: the check could not complete");
        return 2;
    }
    for f in res["findings"].as_array().unwrap() {
        println!("KNOWN-FINDING: property={prop} {} ({})", f[1].as_str().unwrap().lines().next().unwrap_or(""), f[0].as_str().unwrap());
    }
    let ex = res["executions"].as_u64().unwrap();
    let inner = res["inner"].as_u64().unwrap();
    let tr = res["transitions"].as_u64().unwrap();
    let stn = res["states"].as_u64().unwrap();
    let lv = level(prop);
    let violated = !res["violation"].is_null();
    let mut cov = json!({
        "exhaustive": res["exhaustive"],
        "samples": res["samples"],
        "scenarios": res["rows"],
        "workers": workers(),
        "how": "every choice sequence of every scenario is executed on the real osmio code and compared with the reference model; deviation choices up to the stated bound per execution",
    });
    if lv == "model_checking" {
        cov["states"] = json!(stn);
        cov["transitions"] = json!(tr);
        cov["traces_validated_against_impl"] = json!(ex + inner);
    } else {
        cov["evaluations"] = json!(ex + inner);
        cov["distinct_nontrivial"] = json!(stn);
        cov["steps"] = json!(tr);
        cov["rule"] = json!("one evaluation is one run of the real code under one fault or delivery schedule; distinct outcomes (object lists, end conditions, received bytes) are counted by hash");
    }
    let e = json!({
        "property": prop, "tier": tier, "seed": seed, "level": lv, "coverage": cov,
        "assumptions": ["values outside the stated alphabets and bounds are not covered", "the reference model and the independent encoders/parsers in /verif/mc are right", "exploration is deterministic: no random choices, the seed is unused"],
        "wall_s": (t0.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
        "violations": if violated { 1 } else { 0 },
    });
    if only.is_none() {
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&e).unwrap()).unwrap();
    }
    println!("  total: {} executions, {tr} steps, {stn} distinct outcomes, {}, {:.1}s", ex + inner, if res["exhaustive"].as_bool().unwrap() { "exhaustive within bounds" } else { "NOT exhaustive" }, t0.elapsed().as_secs_f64());
    if violated {
        let v = &res["violation"];
        let p = replay_file(prop, tier, v);
        println!("{}: {}", v["scenario"].as_str().unwrap(), printable(v["msg"].as_str().unwrap()).chars().take(3000).collect::<String>());
        println!("replay: /verif/check replay {}", p.display());
        println!("VIOLATION property={prop} replay={}", p.display());
        return 1;
    }
    0
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str());
    let tier = || std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let code = match s(0) {
        Some("check") => cmd_check(s(1).unwrap(), s(2).filter(|s| !s.is_empty()).unwrap_or(&tier()), s(3)),
        Some("run") => cmd_run(s(1).unwrap(), s(2) == Some("thorough"), s(3).unwrap(), s(4).unwrap(), s(5)),
        Some("one") => cmd_one(s(1).unwrap(), s(2) == Some("thorough"), s(3).unwrap(), a[4..].iter().map(|x| x.parse().unwrap()).collect(), 1000, false, scratch_base()),
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(s(1).unwrap()).expect("replay file")).expect("json");
            let ch = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            cmd_one(v["property"].as_str().unwrap(), v["tier"] == "thorough", v["scenario"].as_str().unwrap(), ch, v["bound"].as_u64().unwrap_or(1000) as u32, true, scratch_base())
        }
        Some("list") => {
            for p in props::PROPS {
                for t in [false, true] {
                    for s in props::scenarios(p, t) {
                        println!("{p} {} {}", if t { "thorough" } else { "quick" }, s.name);
                    }
                }
            }
            0
        }
        _ => {
            eprintln!("usage: mc check PROP [quick|thorough] [SCENARIO] | replay FILE | list");
            2
        }
    };
    exit(code);
}
