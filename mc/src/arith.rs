//! Quorum and configuration arithmetic: every configuration up to a size, every change, every reachable progress state.

pub struct Extra {
    pub name: &'static str,
    pub what: &'static str,
    pub states: u64,
    pub transitions: u64,
    pub seconds: f64,
    /// What fails, and how to get there.
    pub found: Option<(String, Vec<String>)>,
    pub note: Option<String>,
}

impl Extra {
    pub fn new(name: &'static str, what: &'static str) -> Self {
        Extra { name, what, states: 0, transitions: 0, seconds: 0.0, found: None, note: None }
    }
}

#[cfg(not(openraft_mc))]
pub fn run(_quick: bool) -> Vec<Extra> {
    let mut e = Extra::new("arithmetic", "not run");
    e.note = Some("the tree does not build with cfg(openraft_mc): direct enumeration of the arithmetic is skipped".into());
    vec![e]
}

#[cfg(openraft_mc)]
pub use hooked::run;

#[cfg(openraft_mc)]
mod hooked {
    use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
    use std::time::Instant;

    use openraft::mc_hooks::{change, is_quorum as sut_is_quorum, Tracker};
    use openraft::{ChangeMembers, Membership};

    use super::Extra;
    use crate::types::*;

    type Set = BTreeSet<u64>;

    fn set(mask: u32, base: u64) -> Set {
        (0..32).filter(|i| mask >> i & 1 == 1).map(|i| base + i as u64).collect()
    }
    fn nodes(s: &Set, salt: u32) -> BTreeMap<u64, Addr> {
        s.iter().map(|n| (*n, Addr(salt + *n as u32))).collect()
    }
    /// All voter sets over n ids: single, then joint pairs of different sets.
    fn configs(n: u32, joint: bool) -> Vec<Vec<Set>> {
        let all: Vec<Set> = (1..(1u32 << n)).map(|m| set(m, 1)).collect();
        let mut v: Vec<Vec<Set>> = all.iter().map(|s| vec![s.clone()]).collect();
        if joint {
            for a in &all {
                for b in &all {
                    if a != b {
                        v.push(vec![a.clone(), b.clone()]);
                    }
                }
            }
        }
        v
    }
    fn voters(c: &[Set]) -> Set {
        c.iter().flatten().copied().collect()
    }
    fn memb(c: &[Set], learners: &Set) -> Memb {
        let all: Set = voters(c).union(learners).copied().collect();
        Membership::new(c.to_vec(), nodes(&all, 100))
    }

    pub fn run(quick: bool) -> Vec<Extra> {
        let mut out = vec![];
        for f in [quorums as fn(bool) -> Extra, changes, progress, reconfigured] {
            let t = Instant::now();
            let mut e = f(quick);
            e.seconds = t.elapsed().as_secs_f64();
            let stop = e.found.is_some();
            out.push(e);
            if stop {
                break;
            }
        }
        out
    }

    /// Every configuration, every set of nodes.
    fn quorums(quick: bool) -> Extra {
        let mut e = Extra::new("quorums", "every set of nodes against every configuration: single up to 8 voters, joint pairs over 5 (6) ids, triples over 4; learners present");
        let mut one = |c: &[Set], n: u32| -> Option<String> {
            let l: Set = [20, 21].into();
            let m = memb(c, &l);
            for mask in 0..(1u32 << n) {
                for extra in [0u32, 3] {
                    let mut ids: Vec<u64> = set(mask, 1).into_iter().collect();
                    if extra == 3 {
                        ids.extend([20, 21]);
                    }
                    for rev in [false, true] {
                        if rev {
                            ids.reverse();
                        }
                        let want = is_quorum(c, &ids.iter().copied().collect());
                        let got = sut_is_quorum(&m, &ids);
                        e.transitions += 1;
                        if got != [want; 3] {
                            return Some(format!("{ids:?} against {c:?}: quorum {want}, reported {got:?}"));
                        }
                    }
                }
            }
            e.states += 1;
            None
        };
        let mut all: Vec<(Vec<Set>, u32)> = vec![];
        for m in 1..(1u32 << 8) {
            all.push((vec![set(m, 1)], 8));
        }
        let k = if quick { 5 } else { 6 };
        for c in configs(k, true) {
            if c.len() == 2 {
                all.push((c, k));
            }
        }
        for a in 1..16u32 {
            for b in 1..16 {
                for c in 1..16 {
                    all.push((vec![set(a, 1), set(b, 1), set(c, 1)], 4));
                }
            }
        }
        for (c, n) in all {
            if let Some(m) = one(&c, n) {
                e.found = Some((m, vec![format!("configuration {c:?}")]));
                break;
            }
        }
        e
    }

    /// Every change of every configuration.
    fn changes(quick: bool) -> Extra {
        let mut e = Extra::new("changes", "every membership change with every argument on every configuration (uniform and joint) with every learner set: direct steps intersect, goals are reached");
        let n = 4;
        let _ = quick;
        let total = n + 1;
        for c in configs(n, true) {
            let v = voters(&c);
            for lm in 0..(1u32 << total) {
                let l: Set = set(lm, 1).difference(&v).copied().collect();
                if l != set(lm, 1) {
                    continue;
                }
                let m = memb(&c, &l);
                e.states += 1;
                for am in 0..(1u32 << total) {
                    let a = set(am, 1);
                    let new_nodes = nodes(&a, 500);
                    let ops: Vec<(&str, ChangeMembers<C>)> = vec![
                        ("add voter ids", ChangeMembers::AddVoterIds(a.clone())),
                        ("add voters", ChangeMembers::AddVoters(new_nodes.clone())),
                        ("remove voters", ChangeMembers::RemoveVoters(a.clone())),
                        ("replace voters", ChangeMembers::ReplaceAllVoters(a.clone())),
                        ("add nodes", ChangeMembers::AddNodes(new_nodes.clone())),
                        ("set nodes", ChangeMembers::SetNodes(new_nodes.clone())),
                        ("remove nodes", ChangeMembers::RemoveNodes(a.clone())),
                        ("replace nodes", ChangeMembers::ReplaceAllNodes(new_nodes.clone())),
                    ];
                    for (what, op) in ops {
                        for retain in [false, true] {
                            e.transitions += 1;
                            let r = change(&m, op.clone(), retain);
                            if let Err(x) = judge(&c, &l, &m, what, &a, retain, &r.ok()) {
                                e.found = Some((
                                    format!("{what} {a:?} (retain {retain}) of {c:?} with learners {l:?}: {x}"),
                                    vec![],
                                ));
                                return e;
                            }
                        }
                    }
                }
            }
        }
        e
    }

    fn judge(c: &[Set], l: &Set, m: &Memb, what: &str, a: &Set, retain: bool, r: &Option<Memb>) -> Result<(), String> {
        let last = c.last().cloned().unwrap_or_default();
        let goal: Option<Set> = match what {
            "add voter ids" | "add voters" => Some(last.union(a).copied().collect()),
            "remove voters" => Some(last.difference(a).copied().collect()),
            "replace voters" => Some(a.clone()),
            _ => None,
        };
        let Some(r) = r else {
            // Refused: only where the goal is empty, or a voter would have no node.
            let have: Set = voters(c).union(l).copied().collect();
            let bad = match what {
                "add voter ids" | "replace voters" => !a.is_subset(&have) || goal.map(|g| g.is_empty()).unwrap_or(false),
                "remove voters" => goal.map(|g| g.is_empty()).unwrap_or(false),
                "remove nodes" => !voters(c).is_disjoint(a),
                "replace nodes" => !voters(c).is_subset(a),
                _ => false,
            };
            // A joint configuration may also lose a node it still needs when it steps.
            return if bad { Ok(()) } else { Err("refused".into()) };
        };
        let nc = r.get_joint_config();
        if nc.is_empty() || nc.iter().any(|s| s.is_empty()) {
            return Err(format!("accepted with an empty voter set: {nc:?}"));
        }
        for v in nc.iter().flatten() {
            if r.get_node(v).is_none() {
                return Err(format!("voter {v} has no node"));
            }
        }
        if !quorums_intersect(c, nc) {
            return Err(format!("steps to {nc:?}: disjoint quorums exist"));
        }
        let keep = |id: &u64, why: &str| -> Result<(), String> {
            if r.get_node(id) != m.get_node(id) {
                return Err(format!("{why} {id} changed from {:?} to {:?}", m.get_node(id), r.get_node(id)));
            }
            Ok(())
        };
        match &goal {
            Some(g) => {
                if nc.last() != Some(g) {
                    return Err(format!("steps to {nc:?}, which does not lead to {g:?}"));
                }
                // Once more: uniform.
                let again = change(r, ChangeMembers::ReplaceAllVoters(g.clone()), retain);
                match again {
                    Ok(f) if f.get_joint_config() == &vec![g.clone()] => {
                        if !quorums_intersect(nc, f.get_joint_config()) {
                            return Err("the second step has disjoint quorums".into());
                        }
                        for id in voters(c).difference(g) {
                            let there = f.get_node(id).is_some();
                            if there != retain {
                                return Err(format!("removed voter {id}: node kept {there}"));
                            }
                        }
                        for id in l.iter() {
                            if f.get_node(id).is_none() {
                                return Err(format!("learner {id} vanished"));
                            }
                        }
                    }
                    x => return Err(format!("the second step gives {x:?}")),
                }
                for id in l {
                    keep(id, "learner")?;
                }
                for id in g.intersection(&voters(c)) {
                    keep(id, "voter")?;
                }
            }
            None => {
                if nc != c {
                    return Err(format!("voters changed to {nc:?}"));
                }
                for id in voters(c).union(l) {
                    let touched = a.contains(id);
                    match what {
                        "add nodes" => keep(id, "node")?,
                        "set nodes" if !touched => keep(id, "node")?,
                        "remove nodes" if !touched => keep(id, "node")?,
                        _ => {}
                    }
                }
                let ids: Set = r.nodes().map(|x| *x.0).collect();
                let old: Set = voters(c).union(l).copied().collect();
                let want: Set = match what {
                    "remove nodes" => old.difference(a).copied().collect(),
                    "replace nodes" => a.clone(),
                    _ => old.union(a).copied().collect(),
                };
                if ids != want {
                    return Err(format!("nodes {ids:?}, expected {want:?}"));
                }
            }
        }
        Ok(())
    }

    fn granted(c: &[Set], vals: &BTreeMap<u64, u64>) -> u64 {
        let mut best = 0;
        for v in vals.values() {
            let s: Set = vals.iter().filter(|x| x.1 >= v).map(|x| *x.0).collect();
            if *v > best && is_quorum(c, &s) {
                best = *v;
            }
        }
        best
    }

    fn check(c: &[Set], l: &Set, t: &Tracker<C>, want: &BTreeMap<u64, u64>) -> Result<(), String> {
        let have: BTreeMap<u64, u64> = t.values().into_iter().collect();
        if &have != want || t.values().len() != want.len() {
            return Err(format!("values {:?}, expected {want:?}", t.values()));
        }
        for id in have.keys() {
            let v = voters(c).contains(id);
            if t.is_voter(id) != Some(v) || v == l.contains(id) {
                return Err(format!("node {id} counted as voter {:?}", t.is_voter(id)));
            }
        }
        let g = granted(c, want);
        if t.granted() != g {
            return Err(format!("reports {} as reached by a quorum, {g} is: {want:?} under {c:?}", t.granted()));
        }
        Ok(())
    }

    /// Every update in every reachable state. Returns (states, transitions) or what fails with the way there.
    fn walk(
        starts: Vec<(usize, Tracker<C>)>,
        cfgs: &[(Vec<Set>, Set)],
        max: u64,
        upgrades: bool,
    ) -> Result<(u64, u64), (String, Vec<String>)> {
        type Key = (usize, Vec<(u64, u64)>, u64);
        let key = |i: usize, t: &Tracker<C>| -> Key { (i, t.values(), t.granted()) };
        let mut seen: HashMap<Key, Option<(Key, String)>> = HashMap::new();
        let mut todo = VecDeque::new();
        let mut trans = 0u64;
        let path = |seen: &HashMap<Key, Option<(Key, String)>>, k: &Key, last: String| {
            let mut p = vec![last];
            let mut k = k.clone();
            while let Some(Some((b, s))) = seen.get(&k) {
                p.push(s.clone());
                k = b.clone();
            }
            p.push(format!("start with {:?}", cfgs[k.0]));
            p.reverse();
            p
        };
        for (i, t) in starts {
            let k = key(i, &t);
            let vals = t.values().into_iter().collect();
            if let Err(m) = check(&cfgs[i].0, &cfgs[i].1, &t, &vals) {
                return Err((m, vec![format!("start with {:?}", cfgs[i])]));
            }
            seen.insert(k, None);
            todo.push_back((i, t));
        }
        let membs: Vec<Memb> = cfgs.iter().map(|(c, l)| memb(c, l)).collect();
        while let Some((i, t)) = todo.pop_front() {
            let k = key(i, &t);
            let vals: BTreeMap<u64, u64> = t.values().into_iter().collect();
            for (id, cur) in &vals {
                for v in *cur..=max {
                    trans += 1;
                    let mut n = t.clone();
                    let r = if v % 2 == 0 { n.update(id, v) } else { n.increase_to(id, v) };
                    let mut want = vals.clone();
                    want.insert(*id, v);
                    let step = format!("node {id} reaches {v}");
                    let mut res = check(&cfgs[i].0, &cfgs[i].1, &n, &want);
                    if res.is_ok() && r != Ok(n.granted()) {
                        res = Err(format!("update returns {r:?}, {} is reached", n.granted()));
                    }
                    if let Err(m) = res {
                        return Err((m, path(&seen, &k, step)));
                    }
                    let nk = key(i, &n);
                    if !seen.contains_key(&nk) {
                        seen.insert(nk, Some((k.clone(), step)));
                        todo.push_back((i, n));
                    }
                }
                if *cur > 0 {
                    trans += 1;
                    let mut n = t.clone();
                    let _ = n.increase_to(id, cur - 1);
                    if let Err(m) = check(&cfgs[i].0, &cfgs[i].1, &n, &vals) {
                        return Err((m, path(&seen, &k, format!("node {id} increased to the smaller {}", cur - 1))));
                    }
                }
            }
            trans += 1;
            let mut n = t.clone();
            if n.update(&99, max) != Err(t.granted()) || n.values() != t.values() || n.granted() != t.granted() {
                return Err(("an unknown node was accepted".into(), path(&seen, &k, "update of node 99".into())));
            }
            if upgrades {
                for (j, (c, l)) in cfgs.iter().enumerate() {
                    trans += 1;
                    let n = t.clone().upgrade(&membs[j]);
                    let want: BTreeMap<u64, u64> =
                        voters(c).union(l).map(|id| (*id, vals.get(id).copied().unwrap_or(0))).collect();
                    let step = format!("configuration becomes {:?}", cfgs[j]);
                    if let Err(m) = check(c, l, &n, &want) {
                        return Err((m, path(&seen, &k, step)));
                    }
                    let nk = key(j, &n);
                    if !seen.contains_key(&nk) {
                        seen.insert(nk, Some((k.clone(), step)));
                        todo.push_back((j, n));
                    }
                }
            }
        }
        Ok((seen.len() as u64, trans))
    }

    fn parallel(jobs: Vec<(Vec<(Vec<Set>, Set)>, u64)>, e: &mut Extra) {
        let next = std::sync::atomic::AtomicUsize::new(0);
        let res = std::sync::Mutex::new((0u64, 0u64, None));
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= jobs.len() || res.lock().unwrap().2.is_some() {
                        return;
                    }
                    let (cfgs, max) = &jobs[i];
                    let start = vec![(0, Tracker::new(&memb(&cfgs[0].0, &cfgs[0].1)))];
                    let r = walk(start, cfgs, *max, false);
                    let mut g = res.lock().unwrap();
                    match r {
                        Ok((a, b)) => {
                            g.0 += a;
                            g.1 += b;
                        }
                        Err(f) => g.2 = Some(f),
                    }
                });
            }
        });
        let g = res.into_inner().unwrap();
        e.states += g.0;
        e.transitions += g.1;
        e.found = g.2;
    }

    /// Updates in any order under every configuration.
    fn progress(quick: bool) -> Extra {
        let mut e = Extra::new("progress", "every sequence of progress updates under every configuration: single over 5 ids (values to 3), joint pairs over 4 ids (values to 3), over 3 ids (values to 5); thorough: single over 5 (values to 4), joint over 5 ids (values to 2); a learner present");
        let l: Set = [9].into();
        let mut jobs = vec![];
        let mut dedup = HashSet::new();
        for (n, joint, max) in [(5, false, if quick { 3u64 } else { 4 }), (4, true, 3), (3, true, 5), (if quick { 4 } else { 5 }, true, 2)] {
            for c in configs(n, joint) {
                if dedup.insert((c.clone(), max)) {
                    jobs.push((vec![(c, l.clone())], max));
                }
            }
        }
        parallel(jobs, &mut e);
        e
    }

    /// Updates and configuration changes in any order.
    fn reconfigured(quick: bool) -> Extra {
        let mut e = Extra::new("reconfigured", "every sequence of progress updates and configuration changes over all configurations of 3 ids (values to 2, thorough 3), with and without the others as learners");
        let all: Set = [1, 2, 3].into();
        let mut cfgs = vec![];
        for c in configs(3, true) {
            let l: Set = all.difference(&voters(&c)).copied().collect();
            cfgs.push((c.clone(), Set::new()));
            if !l.is_empty() {
                cfgs.push((c, l));
            }
        }
        let start = vec![(0, Tracker::new(&memb(&cfgs[0].0, &cfgs[0].1)))];
        match walk(start, &cfgs, if quick { 2 } else { 3 }, true) {
            Ok((a, b)) => {
                e.states = a;
                e.transitions = b;
            }
            Err(f) => e.found = Some(f),
        }
        e
    }
}
