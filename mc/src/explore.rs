//! Exhaustive exploration: every way of deviating from the fault-free course at up to `k` choice points.

use std::collections::{HashMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};

use crate::exec::*;

pub struct Found {
    pub cfg: usize,
    pub dev: Vec<(u32, u8)>,
    pub prop: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Stats {
    pub execs: AtomicU64,
    pub pruned: AtomicU64,
    pub excluded: AtomicU64,
    pub transitions: AtomicU64,
    pub deliveries: AtomicU64,
    pub choice_points: AtomicU64,
    pub multi_leader: AtomicU64,
    pub with_crash: AtomicU64,
    pub acked: AtomicU64,
    pub nontrivial: AtomicU64,
    pub others: AtomicU64,
    pub known: AtomicU64,
}

pub struct Report {
    pub stats: Stats,
    pub states: usize,
    pub found: Vec<Found>,
    pub samples: Vec<String>,
    pub complete: bool,
    pub by_cfg: Vec<(String, u64)>,
}

struct Queue {
    q: VecDeque<(usize, Vec<(u32, u8)>)>,
    busy: usize,
}

/// `want`: properties whose violation counts; exploration stops at the first one.
pub fn explore(cfgs: &[Cfg], want: &[&str], threads: usize, use_prune: bool, max_execs: u64, stop_first: bool, stage: &str) -> Report {
    let q = Mutex::new(Queue { q: VecDeque::new(), busy: 0 });
    {
        let mut g = q.lock().unwrap();
        for i in 0..cfgs.len() {
            g.q.push_back((i, vec![]));
        }
    }
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let stats = Stats::default();
    let shards: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    let seen: Vec<Mutex<HashMap<(u32, u16, u64), u8>>> = (0..64).map(|_| Mutex::new(HashMap::new())).collect();
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let by_cfg: Mutex<Vec<u64>> = Mutex::new(vec![0; cfgs.len()]);
    let slots: Vec<Mutex<Option<(std::time::Instant, usize, Vec<(u32, u8)>)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let over = AtomicBool::new(false);
    let alive = AtomicU64::new(threads as u64);
    std::thread::scope(|s| {
        // An execution that does not come to an end is a finding of its own.
        s.spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_millis(20));
            if alive.load(Ordering::Relaxed) == 0 {
                return;
            }
            for sl in &slots {
                if let Some((t, c, d)) = &*sl.lock().unwrap() {
                    if t.elapsed().as_secs() >= HANG_S {
                        hang(stage, *c, &cfgs[*c], d, want);
                    }
                }
            }
            let _ = over.load(Ordering::Relaxed);
        });
        for ti in 0..threads {
            let slots = &slots;
            let alive = &alive;
            let (q, cv, stop, capped, stats, shards, seen, found, samples, by_cfg) =
                (&q, &cv, &stop, &capped, &stats, &shards, &seen, &found, &samples, &by_cfg);
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || loop {
                let item = {
                    let mut g = q.lock().unwrap();
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            alive.fetch_sub(1, Ordering::Relaxed);
                            return;
                        }
                        if let Some(x) = g.q.pop_front() {
                            g.busy += 1;
                            break x;
                        }
                        if g.busy == 0 {
                            cv.notify_all();
                            alive.fetch_sub(1, Ordering::Relaxed);
                            return;
                        }
                        g = cv.wait(g).unwrap();
                    }
                };
                let (ci, dev) = item;
                let cfg = &cfgs[ci];
                let k = cfg.k;
                let prune = |op: usize, h: u64, used: usize| -> bool {
                    let rem = (k - used) as u8;
                    let mut m = seen[(h % 64) as usize].lock().unwrap();
                    match m.get_mut(&(ci as u32, op as u16, h)) {
                        Some(r) if *r >= rem => used > 0,
                        Some(r) => {
                            *r = rem;
                            false
                        }
                        None => {
                            m.insert((ci as u32, op as u16, h), rem);
                            false
                        }
                    }
                };
                *slots[ti].lock().unwrap() = Some((std::time::Instant::now(), ci, dev.clone()));
                let o = run(cfg, &dev, if use_prune { Some(&prune) } else { None }, false);
                *slots[ti].lock().unwrap() = None;
                let nx = stats.execs.fetch_add(1, Ordering::Relaxed);
                by_cfg.lock().unwrap()[ci] += 1;
                if o.pruned {
                    stats.pruned.fetch_add(1, Ordering::Relaxed);
                }
                if o.excluded.is_some() {
                    stats.excluded.fetch_add(1, Ordering::Relaxed);
                }
                stats.transitions.fetch_add(o.hashes.len() as u64 + o.trace.len() as u64, Ordering::Relaxed);
                stats.deliveries.fetch_add(o.deliveries, Ordering::Relaxed);
                stats.choice_points.fetch_add(o.trace.len() as u64, Ordering::Relaxed);
                stats.acked.fetch_add(o.acked as u64, Ordering::Relaxed);
                if o.others > 0 {
                    stats.others.fetch_add(1, Ordering::Relaxed);
                }
                if !o.known.is_empty() {
                    stats.known.fetch_add(1, Ordering::Relaxed);
                }
                if o.leaders > 1 {
                    stats.multi_leader.fetch_add(1, Ordering::Relaxed);
                }
                if o.crashes > 0 {
                    stats.with_crash.fetch_add(1, Ordering::Relaxed);
                }
                if o.acked > 0 && !dev.is_empty() {
                    stats.nontrivial.fetch_add(1, Ordering::Relaxed);
                }
                for h in &o.hashes {
                    shards[(*h % 64) as usize].lock().unwrap().insert(*h);
                }
                if nx % 997 == 5 {
                    let mut sm = samples.lock().unwrap();
                    if sm.len() < 8 {
                        let d: Vec<String> = dev.iter().map(|d| format!("{}:{:?}->{:?}", d.0, o.trace[d.0 as usize].kind, o.trace[d.0 as usize].fate)).collect();
                        sm.push(format!("{} ops={:?} deviations={:?} leaders={} committed={}", cfg.name, cfg.ops, d, o.leaders, o.commits));
                    }
                }
                let mut next = vec![];
                if dev.len() < k && o.viols.is_empty() {
                    let from = dev.last().map(|d| d.0 + 1).unwrap_or(0);
                    for i in from..o.trace.len() as u32 {
                        for a in 1..o.trace[i as usize].n {
                            let mut d = dev.clone();
                            d.push((i, a));
                            next.push((ci, d));
                        }
                    }
                }
                for (p, m) in &o.viols {
                    let hit = want.is_empty() || want.contains(&p.as_str()) || p == "MC";
                    if hit {
                        let mut f = found.lock().unwrap();
                        if f.len() < 200 {
                            f.push(Found { cfg: ci, dev: dev.clone(), prop: p.clone(), msg: m.clone() });
                        }
                        if stop_first {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                if nx + 1 >= max_execs {
                    capped.store(true, Ordering::Relaxed);
                    stop.store(true, Ordering::Relaxed);
                }
                let mut g = q.lock().unwrap();
                g.busy -= 1;
                g.q.extend(next);
                cv.notify_all();
            })
            .unwrap();
        }
    });
    let states = shards.iter().map(|s| s.lock().unwrap().len()).sum();
    let bc = by_cfg.into_inner().unwrap();
    Report {
        stats,
        states,
        found: found.into_inner().unwrap(),
        samples: samples.into_inner().unwrap(),
        complete: !capped.load(Ordering::Relaxed),
        by_cfg: cfgs.iter().map(|c| c.name.clone()).zip(bc).collect(),
    }
}

/// Seconds of real time after which an execution (normally a few ms) counts as hanging.
const HANG_S: u64 = 30;

fn hang(stage: &str, ci: usize, cfg: &Cfg, dev: &[(u32, u8)], want: &[&str]) -> ! {
    println!("an execution does not end: {} ops={:?} dev={dev:?}", cfg.name, cfg.ops);
    if let Some(p) = want.first() {
        println!("VIOLATION property={p} replay={}", crate::check::save_replay(p, stage, ci, cfg, dev, "the execution never comes to rest", &[]));
        std::process::exit(1);
    }
    std::process::exit(2);
}
