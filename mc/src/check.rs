//! The checks: for every property what is explored at which tier; evidence, replays, listed findings.

use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::Ordering;

use serde_json::{json, Value};

use crate::exec::{self, Cfg};
use crate::explore;
use crate::plan;
use crate::world::{Opts, OPTS};

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

pub fn save_replay(prop: &str, stage: &str, ci: usize, cfg: &Cfg, dev: &[(u32, u8)], msg: &str, log: &[String]) -> String {
    let dir = root().join("out");
    let _ = std::fs::create_dir_all(&dir);
    let h = crate::types::h64(&(prop, stage, ci as u64, dev, cfg.variant, cfg!(feature = "single-term")));
    let p = dir.join(format!("{prop}-{h:016x}.json"));
    let (tier, st) = stage.split_once('/').unwrap_or(("quick", stage));
    let v = json!({
        "property": prop, "tier": tier, "stage": st, "index": ci, "deviations": dev,
        "single_term": cfg!(feature = "single-term"),
        "scenario": cfg.name, "ops": format!("{:?}", cfg.ops), "scheduling": cfg.variant,
        "message": msg, "trace": log,
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p.to_string_lossy().into_owned()
}

/// Lines `finding: property=<id> id=<K> ...` of the known-findings file.
fn listed() -> Vec<(String, String)> {
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("finding: ") else { continue };
        let f = |k: &str| r.split_whitespace().find_map(|x| x.strip_prefix(k)).map(|x| x.to_string());
        if let (Some(p), Some(i)) = (f("property="), f("id=")) {
            v.push((i, p));
        }
    }
    v
}

/// The same checker built with a single leader per term.
fn sibling() -> Option<PathBuf> {
    if cfg!(feature = "single-term") {
        return None;
    }
    let exe = std::env::current_exe().ok()?;
    let p = exe.parent()?.parent()?.join("single-term/release/mc");
    p.exists().then_some(p)
}

pub fn main(a: &[String]) -> i32 {
    let prop = arg(a, "--property").expect("--property");
    let tier = arg(a, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(1, 64);
    let t0 = std::time::Instant::now();
    let listed = listed();
    let _ = OPTS.set(Opts { want: Some(vec![prop.clone()]), listed: listed.clone() });
    let want = [prop.as_str()];

    // Listed findings still there?
    for (id, p) in &listed {
        if *p != prop {
            continue;
        }
        match plan::demo(id, p) {
            Some((cfg, dev)) => {
                let o = exec::run(&cfg, &dev, None, false);
                let k = o.known.iter().find(|k| k.0 == id && k.1 == p).map(|k| k.2.clone());
                let v = o.viols.iter().find(|v| v.0 == *p).map(|v| v.1.clone());
                if let Some(m) = k.or(v) {
                    println!("KNOWN-FINDING: property={p} {id}: {m}");
                }
            }
            None => println!("note: no demonstration for finding {id} of {p}"),
        }
    }

    let mut stages_ev = vec![];
    let mut tot: BTreeMap<&str, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut all_complete = true;
    let mut bad: Option<(String, String)> = None;
    let mut broken = None;
    let mut states = 0u64;
    let part = cfg!(feature = "single-term");
    for st in plan::stages(&prop, &tier) {
        if part && !plan::in_single_term(&prop, &tier, &st.name) {
            continue;
        }
        let t = std::time::Instant::now();
        let name = format!("{tier}/{}", st.name);
        let r = explore::explore(&st.cfgs, &want, threads, st.prune, st.max, true, &name);
        let s = &r.stats;
        let g = |x: &std::sync::atomic::AtomicU64| x.load(Ordering::Relaxed);
        for (k, v) in [
            ("executions", g(&s.execs)),
            ("transitions", g(&s.transitions)),
            ("choice_points", g(&s.choice_points)),
            ("message_deliveries", g(&s.deliveries)),
            ("acknowledged_writes", g(&s.acked)),
            ("executions_with_several_leaders", g(&s.multi_leader)),
            ("executions_with_crashes", g(&s.with_crash)),
            ("executions_with_faults_and_acknowledged_writes", g(&s.nontrivial)),
            ("executions_pruned_at_a_known_state", g(&s.pruned)),
            ("executions_cut_short_at_a_listed_finding", g(&s.excluded) + g(&s.known)),
        ] {
            *tot.entry(k).or_default() += v;
        }
        states += r.states as u64;
        all_complete &= r.complete && r.found.is_empty();
        stages_ev.push(json!({
            "stage": format!("{}{}", if part { "single leader per term: " } else { "" }, st.name), "what": st.what, "scenarios": st.cfgs.len(),
            "deviations_up_to": st.cfgs.iter().map(|c| c.k).max().unwrap_or(0),
            "executions": g(&s.execs), "states": r.states, "complete": r.complete, "seconds": t.elapsed().as_secs_f64(),
        }));
        println!(
            "{prop} {}{}: {} scenarios, {} executions, {} states, {} choice points, {:.1}s{}",
            if part { "single-term " } else { "" },
            st.name,
            st.cfgs.len(),
            g(&s.execs),
            r.states,
            g(&s.choice_points),
            t.elapsed().as_secs_f64(),
            if r.complete { "" } else { " (bound reached)" }
        );
        for x in r.samples.into_iter().take(3) {
            samples.push(json!(x));
        }
        if let Some(f) = r.found.iter().find(|f| f.prop == prop) {
            // Once more, with a trace: it has to come out the same.
            let c = &st.cfgs[f.cfg];
            let o = exec::run(c, &f.dev, None, true);
            if !o.viols.iter().any(|v| v.0 == prop) {
                broken = Some(format!("a violation did not come back when replayed: {} {:?} {}", c.name, f.dev, f.msg));
                break;
            }
            let path = save_replay(&prop, &name, f.cfg, c, &f.dev, &f.msg, &o.log);
            println!("{}: {:?} deviations {:?}", c.name, c.ops, f.dev);
            println!("{}", f.msg);
            bad = Some((f.msg.clone(), path));
            break;
        }
        if let Some(f) = r.found.iter().find(|f| f.prop == "MC") {
            broken = Some(format!("{} {:?}: {}", st.cfgs[f.cfg].name, f.dev, f.msg));
            break;
        }
    }
    if let (true, true, true, Some(exe)) = (bad.is_none(), broken.is_none(), plan::has_single_term(&prop), sibling()) {
        let o = std::process::Command::new(exe).args(["check", "--property", &prop, "--tier", &tier]).stderr(std::process::Stdio::inherit()).output();
        match o {
            Ok(o) => {
                for l in String::from_utf8_lossy(&o.stdout).lines() {
                    match l.strip_prefix(&format!("VIOLATION property={prop} replay=")) {
                        Some(path) => bad = Some((String::new(), path.to_string())),
                        None if l.starts_with("KNOWN-FINDING") || l.starts_with("note: no demonstration") => {}
                        None => println!("{l}"),
                    }
                }
                if o.status.code() != Some(if bad.is_some() { 1 } else { 0 }) {
                    broken = Some("the part with a single leader per term".into());
                }
                let v: Value = std::fs::read_to_string(root().join("out").join(format!("{prop}-single-term.json")))
                    .ok()
                    .and_then(|t| serde_json::from_str(&t).ok())
                    .unwrap_or_default();
                let c = &v["coverage"];
                states += c["states"].as_u64().unwrap_or(0);
                *tot.entry("transitions").or_default() += c["transitions"].as_u64().unwrap_or(0);
                *tot.entry("executions").or_default() += c["traces_validated_against_impl"].as_u64().unwrap_or(0);
                for x in c["stages"].as_array().cloned().unwrap_or_default() {
                    all_complete &= x["complete"] == true;
                    stages_ev.push(x);
                }
            }
            Err(e) => broken = Some(format!("the part with a single leader per term: {e}")),
        }
    }
    if bad.is_none() && broken.is_none() && (!part || matches!(prop.as_str(), "C01" | "C02" | "C07")) {
        for x in plan::extras(&prop, &tier) {
            println!(
                "{prop} {}: {} states, {} transitions, {:.1}s{}",
                x.name,
                x.states,
                x.transitions,
                x.seconds,
                x.note.as_ref().map(|n| format!(" ({n})")).unwrap_or_default()
            );
            states += x.states;
            *tot.entry("transitions").or_default() += x.transitions;
            *tot.entry("executions").or_default() += x.transitions;
            all_complete &= x.found.is_none() && x.note.is_none();
            stages_ev.push(json!({
                "stage": x.name, "what": x.what, "states": x.states, "transitions": x.transitions,
                "complete": x.found.is_none() && x.note.is_none(), "seconds": x.seconds,
            }));
            samples.push(json!(format!("{}: {}", x.name, x.what)));
            if let Some((m, how)) = x.found {
                println!("{m}");
                for h in &how {
                    println!("  {h}");
                }
                let dir = root().join("out");
                let _ = std::fs::create_dir_all(&dir);
                let p = dir.join(format!("{prop}-{}{}.json", x.name.replace(' ', "-"), if part { "-single-term" } else { "" }));
                let v = json!({"property": prop, "tier": tier, "stage": x.name, "extra": true, "single_term": part, "message": m, "trace": how});
                let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
                bad = Some((m, p.to_string_lossy().into_owned()));
                break;
            }
        }
    }
    if samples.is_empty() {
        samples.push(json!("fault-free scenarios only"));
    }
    let mut cov = serde_json::Map::new();
    cov.insert("states".into(), json!(states));
    cov.insert("transitions".into(), json!(tot.remove("transitions").unwrap_or(0)));
    // Every execution is the real code running under the explorer.
    cov.insert("traces_validated_against_impl".into(), json!(tot.remove("executions").unwrap_or(0)));
    for (k, v) in &tot {
        cov.insert((*k).into(), json!(v));
    }
    cov.insert("samples".into(), json!(samples));
    cov.insert("stages".into(), json!(stages_ev));
    cov.insert("exhaustive".into(), json!(all_complete && bad.is_none() && broken.is_none()));
    let ev = json!({
        "property": prop, "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": cov,
        "assumptions": plan::assumptions(&prop),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if bad.is_some() { 1 } else { 0 },
    });
    let dir = root().join(if part { "out" } else { "evidence" });
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{prop}{}.json", if part { "-single-term" } else { "" })), serde_json::to_string_pretty(&ev).unwrap() + "\n");
    if let Some((_, path)) = bad {
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    if let Some(b) = broken {
        println!("the check itself failed: {b}");
        return 2;
    }
    0
}

pub fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let prop = v["property"].as_str().unwrap().to_string();
    let _ = OPTS.set(Opts { want: Some(vec![prop.clone()]), listed: listed() });
    if v["single_term"] == true {
        if let Some(exe) = sibling() {
            let s = std::process::Command::new(exe).args(["replay", path]).status();
            return s.ok().and_then(|s| s.code()).unwrap_or(2);
        }
    }
    let tier = v["tier"].as_str().unwrap();
    let stage = v["stage"].as_str().unwrap();
    if v["extra"] == true {
        return match plan::extras(&prop, tier).into_iter().find_map(|x| x.found) {
            Some((m, how)) => {
                how.iter().for_each(|h| println!("  {h}"));
                println!("{m}\nVIOLATION property={prop} replay={path}");
                1
            }
            None => 0,
        };
    }
    let st = plan::stages(&prop, tier).into_iter().find(|s| s.name == stage).expect("stage");
    let cfg = &st.cfgs[v["index"].as_u64().unwrap() as usize];
    let dev: Vec<(u32, u8)> = v["deviations"]
        .as_array()
        .unwrap()
        .iter()
        .map(|d| (d[0].as_u64().unwrap() as u32, d[1].as_u64().unwrap() as u8))
        .collect();
    let o = exec::run(cfg, &dev, None, true);
    for l in &o.log {
        println!("{l}");
    }
    match o.viols.iter().find(|v| v.0 == prop) {
        Some((_, m)) => {
            println!("{m}");
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        None => 0,
    }
}
