//! Public building blocks, over every input up to a size: waiting for metrics, and the order of votes and log ids.

use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering as AO};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use openraft::async_runtime::watch::{Watch, WatchSender};
use openraft::metrics::{Metric, Wait, WaitError};
use openraft::{Config, LogIdOptionExt, LogIndexOptionExt, Membership, RaftMetrics, ServerState, SnapshotPolicy, StoredMembership};

use crate::arith::Extra;
use crate::rt::{self, McWatch, WSender};
use crate::types::*;

// --------------------------------------------------------------------------------------------- waits

type M = RaftMetrics<C>;
type Res = Result<M, WaitError>;
type BoxRes = Pin<Box<dyn Future<Output = Res>>>;

fn lid(term: u64, index: u64) -> Lid {
    log_id(term, 1, index)
}
fn log_id(term: u64, node: u64, index: u64) -> Lid {
    Lid::new(openraft::CommittedLeaderId::new(term, node), index)
}

/// One call of the wait API: what it waits for, told twice.
struct Call {
    name: String,
    run: Box<dyn Fn(Wait<C>) -> BoxRes + Sync + Send>,
    /// Success needs all of these, each at some time of the wait in order, the last one for the result.
    want: Vec<Box<dyn Fn(&M) -> bool + Sync + Send>>,
    /// Which values the metrics take.
    dom: Vec<M>,
}

fn base() -> M {
    M::new_initial(1)
}

macro_rules! fut {
    ($w:ident, $e:expr) => {
        Box::new(move |$w: Wait<C>| -> BoxRes { Box::pin(async move { $e.await }) })
    };
}

fn with(f: impl FnOnce(&mut M)) -> M {
    let mut m = base();
    f(&mut m);
    m
}

fn memb(v: &[&[u64]], learners: &[u64]) -> M {
    with(|m| {
        let mut nodes: BTreeSet<u64> = v.iter().flat_map(|x| x.iter().copied()).collect();
        nodes.extend(learners);
        let c = Membership::new(
            v.iter().map(|x| x.iter().copied().collect()).collect(),
            nodes.into_iter().map(|n| (n, Addr(n as u32))).collect::<std::collections::BTreeMap<_, _>>(),
        );
        m.membership_config = std::sync::Arc::new(StoredMembership::new(Some(lid(1, 1)), c));
    })
}

#[allow(deprecated)]
fn calls() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    let idx = [None, Some(0u64), Some(1), Some(2)];
    let last: Vec<M> = idx.iter().map(|i| with(|m| m.last_log_index = *i)).collect();
    // Applied ids: leader ids must not decide what only the index should.
    let ids = [None, Some(lid(1, 0)), Some(lid(2, 1)), Some(lid(1, 2)), Some(lid(3, 1))];
    let applied: Vec<M> = ids.iter().map(|i| with(|m| m.last_applied = *i)).collect();
    let mut add = |name: String, run: Box<dyn Fn(Wait<C>) -> BoxRes + Sync + Send>, want: Vec<Box<dyn Fn(&M) -> bool + Sync + Send>>, dom: &[M]| {
        v.push(Call { name, run, want, dom: dom.to_vec() })
    };
    for i in idx {
        add(format!("log_index({i:?})"), fut!(w, w.log_index(i, "x")), vec![Box::new(move |m| m.last_log_index == i)], &last);
        add(format!("log_index_at_least({i:?})"), fut!(w, w.log_index_at_least(i, "x")), vec![Box::new(move |m| m.last_log_index >= i)], &last);
        let ai = move |m: &M| m.last_applied.map(|l| l.index);
        add(format!("applied_index({i:?})"), fut!(w, w.applied_index(i, "x")), vec![Box::new(move |m| ai(m) == i)], &applied);
        add(format!("applied_index_at_least({i:?})"), fut!(w, w.applied_index_at_least(i, "x")), vec![Box::new(move |m| ai(m) >= i)], &applied);
        let both: Vec<M> = [(None, None), (Some(1), None), (Some(1), Some(1)), (Some(2), Some(1)), (Some(2), Some(2)), (Some(3), Some(2))]
            .iter()
            .map(|(l, a): &(Option<u64>, Option<u64>)| {
                with(|m| {
                    m.last_log_index = *l;
                    m.last_applied = a.map(|a| lid(1, a));
                })
            })
            .collect();
        add(format!("log({i:?})"), fut!(w, w.log(i, "x")), vec![Box::new(move |m| m.last_log_index == i), Box::new(move |m| ai(m) == i)], &both);
        add(format!("log_at_least({i:?})"), fut!(w, w.log_at_least(i, "x")), vec![Box::new(move |m| m.last_log_index >= i), Box::new(move |m| ai(m) >= i)], &both);
    }
    let purged: Vec<M> = ids.iter().map(|i| with(|m| m.purged = *i)).collect();
    let snap: Vec<M> = ids.iter().map(|i| with(|m| m.snapshot = *i)).collect();
    for i in ids {
        add(format!("purged({i:?})"), fut!(w, w.purged(i, "x")), vec![Box::new(move |m| m.purged == i)], &purged);
        if let Some(i) = i {
            add(format!("snapshot({i:?})"), fut!(w, w.snapshot(i, "x")), vec![Box::new(move |m| m.snapshot == Some(i))], &snap);
        }
        for ge in [false, true] {
            let n = if ge { "ge" } else { "eq" };
            add(
                format!("{n}(Applied({i:?}))"),
                Box::new(move |w| Box::pin(async move { if ge { w.ge(Metric::Applied(i), "x").await } else { w.eq(Metric::Applied(i), "x").await } })),
                vec![Box::new(move |m| if ge { at_least(m.last_applied, i) } else { m.last_applied == i })],
                &applied,
            );
            add(
                format!("{n}(Snapshot({i:?}))"),
                Box::new(move |w| Box::pin(async move { if ge { w.ge(Metric::Snapshot(i), "x").await } else { w.eq(Metric::Snapshot(i), "x").await } })),
                vec![Box::new(move |m| if ge { at_least(m.snapshot, i) } else { m.snapshot == i })],
                &snap,
            );
            add(
                format!("{n}(Purged({i:?}))"),
                Box::new(move |w| Box::pin(async move { if ge { w.ge(Metric::Purged(i), "x").await } else { w.eq(Metric::Purged(i), "x").await } })),
                vec![Box::new(move |m| if ge { at_least(m.purged, i) } else { m.purged == i })],
                &purged,
            );
        }
    }
    let votes = [Vt::new(1, 1), Vt::new_committed(1, 1), Vt::new(1, 2), Vt::new(2, 1), Vt::new_committed(2, 1)];
    let dom: Vec<M> = votes.iter().map(|x| with(|m| m.vote = *x)).collect();
    for x in votes {
        add(format!("vote({x})"), fut!(w, w.vote(x, "x")), vec![Box::new(move |m| vkey(&m.vote) == vkey(&x))], &dom);
        add(format!("ge(Vote({x}))"), fut!(w, w.ge(Metric::Vote(x), "x")), vec![Box::new(move |m| matches!(vote_order(&m.vote, &x), Some(Ordering::Greater | Ordering::Equal)))], &dom);
    }
    let terms = [0u64, 1, 2, 3];
    let dom: Vec<M> = terms.iter().map(|t| with(|m| m.current_term = *t)).collect();
    for t in terms {
        add(format!("eq(Term({t}))"), fut!(w, w.eq(Metric::Term(t), "x")), vec![Box::new(move |m| m.current_term == t)], &dom);
        add(format!("ge(Term({t}))"), fut!(w, w.ge(Metric::Term(t), "x")), vec![Box::new(move |m| m.current_term >= t)], &dom);
    }
    let dom: Vec<M> = [None, Some(0), Some(1), Some(2)].iter().map(|x| with(|m| m.current_leader = *x)).collect();
    for n in [0u64, 1, 2] {
        add(format!("current_leader({n})"), fut!(w, w.current_leader(n, "x")), vec![Box::new(move |m| m.current_leader == Some(n))], &dom);
    }
    let all = [ServerState::Learner, ServerState::Follower, ServerState::Candidate, ServerState::Leader, ServerState::Shutdown];
    let dom: Vec<M> = all.iter().map(|x| with(|m| m.state = *x)).collect();
    for x in all {
        add(format!("state({x:?})"), fut!(w, w.state(x, "x")), vec![Box::new(move |m| m.state == x)], &dom);
    }
    let dom = [base(), memb(&[&[1]], &[]), memb(&[&[1, 2]], &[]), memb(&[&[1]], &[2]), memb(&[&[1], &[2]], &[]), memb(&[&[2]], &[1])];
    for x in [vec![], vec![1u64], vec![2], vec![1, 2], vec![2, 1, 2]] {
        let set: BTreeSet<u64> = x.iter().copied().collect();
        let s2 = set.clone();
        let s3 = set.clone();
        let is = |m: &M, s: &BTreeSet<u64>| m.membership_config.membership().get_joint_config().iter().flatten().copied().collect::<BTreeSet<u64>>() == *s;
        add(
            format!("voter_ids({x:?})"),
            Box::new(move |w| {
                let x = x.clone();
                Box::pin(async move { w.voter_ids(x, "x").await })
            }),
            vec![Box::new(move |m| is(m, &s2))],
            &dom,
        );
        add(
            format!("members({set:?})"),
            Box::new(move |w| {
                let x = set.clone();
                Box::pin(async move { w.members(x, "x").await })
            }),
            vec![Box::new(move |m| is(m, &s3))],
            &dom,
        );
    }
    // Any condition over several fields.
    let dom: Vec<M> = [(None, 0), (Some(1), 0), (None, 1), (Some(1), 1), (Some(2), 1)]
        .iter()
        .map(|(l, t)| {
            with(|m| {
                m.current_leader = *l;
                m.current_term = *t;
            })
        })
        .collect();
    add(
        "metrics(leader 1 and term 1)".into(),
        fut!(w, w.metrics(|m| m.current_leader == Some(1) && m.current_term == 1, "x")),
        vec![Box::new(|m| m.current_leader == Some(1) && m.current_term == 1)],
        &dom,
    );
    v
}

fn at_least(a: Option<Lid>, b: Option<Lid>) -> bool {
    a.map(|x| lkey(&x)) >= b.map(|x| lkey(&x))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    /// New metrics, seen at once.
    Pub(usize),
    /// New metrics, followed by more before anybody looks.
    Over(usize),
    Pass(u64),
    /// Time passes and new metrics come before the waiting side runs.
    Late(u64, usize),
    Gone,
}

const LIMIT_MS: u64 = 10;

/// One execution; `Err` says what is wrong.
fn one_wait(c: &Call, start: usize, limit: u64, acts: &[Act]) -> Result<u64, String> {
    rt::reset();
    let t0 = rt::now();
    let ms = |t: u64| (t - t0) / 1_000_000;
    let (tx, rx): (WSender<M>, _) = <McWatch as Watch>::channel(c.dom[start].clone());
    let mut tx = Some(tx);
    let got: Rc<RefCell<Option<Res>>> = Rc::new(RefCell::new(None));
    let mut fut = (c.run)(Wait { timeout: Duration::from_millis(limit), rx });
    // Polled by hand: woken or not is part of the question.
    let woken = std::sync::Arc::new(Flag::default());
    woken.0.store(1, AO::Relaxed);
    let waker = std::task::Waker::from(woken.clone());
    let mut cur = start;
    let polls = std::cell::Cell::new(0u64);
    let mut poll = |got: &RefCell<Option<Res>>| {
        while got.borrow().is_none() && woken.0.swap(0, AO::Relaxed) != 0 {
            polls.set(polls.get() + 1);
            if polls.get() > 1000 {
                break;
            }
            let mut cx = std::task::Context::from_waker(&waker);
            if let std::task::Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
                *got.borrow_mut() = Some(r);
            }
        }
    };
    // The phase reached, and when it began.
    let mut phase = 0;
    let mut since = t0;
    let mut alive = true;
    let mut hidden = false;
    let steps = std::iter::once(None).chain(acts.iter().map(|a| Some(*a))).chain([Some(Act::Pass(2 * LIMIT_MS)), Some(Act::Pass(2 * LIMIT_MS))]);
    for a in steps {
        let mut run = true;
        // Both a deadline that passed and a new value may be what the waiting side sees first.
        let mut either = hidden;
        match a {
            None => {}
            Some(Act::Pub(i)) | Some(Act::Over(i)) => {
                if let Some(tx) = &tx {
                    cur = i;
                    let _ = tx.send(c.dom[i].clone());
                }
                either = false;
                run = matches!(a, Some(Act::Pub(_)));
            }
            Some(Act::Pass(d)) => {
                let to = rt::now() + d * 1_000_000;
                while rt::step_time(to) {}
            }
            Some(Act::Late(d, i)) => {
                either = true;
                let to = rt::now() + d * 1_000_000;
                while rt::step_time(to) {}
                if let Some(tx) = &tx {
                    cur = i;
                    let _ = tx.send(c.dom[i].clone());
                }
            }
            Some(Act::Gone) => {
                tx = None;
                alive = false;
            }
        }
        hidden = !run;
        if !run {
            continue;
        }
        poll(&got);
        if polls.get() > 1000 {
            return Err("spins".into());
        }
        let m = &c.dom[cur];
        let now = rt::now();
        let over = now >= since + limit * 1_000_000;
        // Everything that could be concluded now.
        let was = phase;
        while phase < c.want.len() && c.want[phase](m) {
            phase += 1;
        }
        let done = phase == c.want.len();
        if phase > was && !done {
            since = now;
        }
        match &*got.borrow() {
            Some(Ok(r)) => {
                if !done {
                    return Err(format!("succeeds at {} ms although the condition is not met by {m}", ms(now)));
                }
                if r != m {
                    return Err(format!("succeeds with {r} while the metrics are {m}"));
                }
                return Ok(polls.get());
            }
            Some(Err(WaitError::Timeout(d, _))) => {
                if !over {
                    return Err(format!("times out at {} ms of {limit}", ms(now)));
                }
                if *d != Duration::from_millis(limit) {
                    return Err(format!("reports a timeout of {d:?} instead of {limit} ms"));
                }
                if done && !either {
                    return Err(format!("times out at {} ms although the condition is met by {m}", ms(now)));
                }
                return Ok(polls.get());
            }
            Some(Err(WaitError::ShuttingDown)) => {
                if alive {
                    return Err("reports shutdown of a node that is there".into());
                }
                if done && !either {
                    return Err(format!("reports shutdown although the condition is met by {m}"));
                }
                return Ok(polls.get());
            }
            None => {
                if done {
                    return Err(format!("still waits at {} ms although the condition is met by {m}", ms(now)));
                }
                if over {
                    return Err(format!("still waits at {} ms with a limit of {limit} ms", ms(now)));
                }
                if !alive {
                    return Err("still waits although the node is gone".into());
                }
            }
        }
    }
    Err("never returns".into())
}

#[derive(Default)]
struct Flag(AtomicU64);
impl std::task::Wake for Flag {
    fn wake(self: std::sync::Arc<Self>) {
        self.0.store(1, AO::Relaxed)
    }
}

pub fn waits(quick: bool) -> Vec<Extra> {
    let depth = if quick { 3 } else { 4 };
    let t = Instant::now();
    let mut e = Extra::new(
        "waits",
        "every method of the wait interface against every short history of metrics: values seen or overwritten, before, at and after the limit, the node going away",
    );
    let calls = calls();
    let next = AtomicU64::new(0);
    let (n, k) = (AtomicU64::new(0), AtomicU64::new(0));
    let bad: Mutex<Option<(String, Vec<String>)>> = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, AO::Relaxed) as usize;
                let Some(c) = calls.get(i) else { break };
                let mut alpha = vec![Act::Pass(4), Act::Pass(6), Act::Gone];
                for v in 0..c.dom.len() {
                    alpha.extend([Act::Pub(v), Act::Over(v)]);
                    alpha.push(Act::Late(6, v));
                }
                for start in 0..c.dom.len() {
                    for limit in [0, LIMIT_MS] {
                        let mut ix = vec![0usize; depth];
                        'seq: loop {
                            if bad.lock().unwrap().is_some() {
                                return;
                            }
                            let acts: Vec<Act> = ix.iter().map(|j| alpha[*j]).collect();
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one_wait(c, start, limit, &acts)))
                                .unwrap_or_else(|_| Err("panics".into()));
                            n.fetch_add(1, AO::Relaxed);
                            match r {
                                Ok(p) => {
                                    k.fetch_add(p, AO::Relaxed);
                                }
                                Err(m) => {
                                    let show = |i: usize| format!("{}", c.dom[i]);
                                    let mut how = vec![format!("Wait::{} with a limit of {limit} ms; metrics at first: {}", c.name, show(start))];
                                    how.extend(acts.iter().map(|a| match a {
                                        Act::Pub(i) => format!("published: {}", show(*i)),
                                        Act::Over(i) => format!("published, more follows at once: {}", show(*i)),
                                        Act::Pass(d) => format!("{d} ms pass"),
                                        Act::Late(d, i) => format!("{d} ms pass and published: {}", show(*i)),
                                        Act::Gone => "the node is gone".into(),
                                    }));
                                    *bad.lock().unwrap() = Some((format!("Wait::{}: {m}", c.name), how));
                                    return;
                                }
                            }
                            for p in (0..depth).rev() {
                                ix[p] += 1;
                                if ix[p] < alpha.len() {
                                    continue 'seq;
                                }
                                ix[p] = 0;
                            }
                            break;
                        }
                    }
                }
                rt::reset();
            });
        }
    });
    e.states = n.into_inner();
    e.transitions = k.into_inner();
    e.found = bad.into_inner().unwrap();
    e.seconds = t.elapsed().as_secs_f64();
    vec![e]
}

// --------------------------------------------------------------------------------------------- votes

/// The order the protocol needs: by term; within a term by node, or (one leader per term) only a committed one is
/// above the others; a committed vote is above the same one not yet committed.
fn vote_order(a: &Vt, b: &Vt) -> Option<Ordering> {
    let (ka, kb) = (vkey(a), vkey(b));
    if ka.0 != kb.0 {
        return Some(ka.0.cmp(&kb.0));
    }
    if cfg!(feature = "single-term") && ka.1 != kb.1 {
        if ka.1 == 0 || kb.1 == 0 {
            // Nobody voted for yet: below any vote of the term.
            return Some(ka.1.cmp(&kb.1));
        }
        return match (ka.2, kb.2) {
            (false, false) => None,
            (x, y) => Some(x.cmp(&y)),
        };
    }
    Some((ka.1, ka.2).cmp(&(kb.1, kb.2)))
}

pub fn votes(quick: bool) -> Vec<Extra> {
    let t = Instant::now();
    let mut e = Extra::new("vote order", "every pair and triple of votes, and of log ids, over small terms, nodes and indexes");
    let (terms, nodes) = if quick { (4u64, 4u64) } else { (6, 6) };
    let mut all = vec![Vt::default()];
    for term in 0..terms {
        for n in 0..nodes {
            all.push(Vt::new(term, n));
            all.push(Vt::new_committed(term, n));
        }
    }
    let both_committed = |a: &Vt, b: &Vt| {
        let (x, y) = (vkey(a), vkey(b));
        cfg!(feature = "single-term") && x.0 == y.0 && x.1 != y.1 && x.2 && y.2
    };
    let r = std::panic::catch_unwind(|| -> Result<(u64, u64), String> {
        let (mut pairs, mut triples) = (0, 0);
        for a in &all {
            if a.is_committed() != vkey(a).2 {
                return Err(format!("{a:?}: committed?"));
            }
            for b in &all {
                if both_committed(a, b) {
                    continue;
                }
                pairs += 1;
                let (want, got) = (vote_order(a, b), a.partial_cmp(b));
                if want != got {
                    return Err(format!("{a} compared with {b}: {got:?} instead of {want:?}"));
                }
                if (a == b) != (vkey(a) == vkey(b)) {
                    return Err(format!("{a} == {b} is {}", a == b));
                }
                for c in &all {
                    if both_committed(b, c) || both_committed(a, c) {
                        continue;
                    }
                    triples += 1;
                    // One leader per term: a committed vote and two that voted for others are the exception nobody meets
                    // as one candidate's vote is below it while a third one's is unordered with the first.
                    if a >= b && b >= c && !(a >= c) {
                        return Err(format!("{a} >= {b} >= {c} but not {a} >= {c}"));
                    }
                }
            }
        }
        let mut ids = vec![None];
        for term in 0..terms {
            for n in 0..nodes.min(3) {
                for i in 0..4 {
                    ids.push(Some(log_id(term, n, i)));
                }
            }
        }
        for a in &ids {
            if a.index() != a.map(|x| x.index) || a.next_index() != a.map(|x| x.index + 1).unwrap_or(0) || a.as_ref().next_index() != a.next_index() || a.as_ref().index() != a.index() {
                return Err(format!("index after {a:?}"));
            }
            for b in &ids {
                pairs += 1;
                let want = a.map(|x| lkey(&x)).cmp(&b.map(|x| lkey(&x)));
                if a.cmp(b) != want || a.partial_cmp(b) != Some(want) || (a == b) != (want == Ordering::Equal) {
                    return Err(format!("{a:?} compared with {b:?}: {:?} instead of {want:?}", a.cmp(b)));
                }
            }
        }
        for i in 0..6u64 {
            if Some(i).next_index() != i + 1 || None::<u64>.next_index() != 0 || Some(i).prev_index() != i.checked_sub(1) {
                return Err(format!("around index {i}"));
            }
        }
        Ok((pairs, triples))
    });
    match r {
        Ok(Ok((p, n))) => {
            e.states = p;
            e.transitions = n;
        }
        Ok(Err(m)) => e.found = Some((m, vec!["comparing votes or log ids".into()])),
        Err(_) => e.found = Some(("comparing votes or log ids panics".into(), vec![])),
    }
    e.seconds = t.elapsed().as_secs_f64();
    vec![e]
}

// ------------------------------------------------------------------------------------- configurations

/// Which configurations are accepted, what the command line means, and what timeouts are drawn.
pub fn configs(quick: bool) -> Vec<Extra> {
    let t = Instant::now();
    let mut e = Extra::new(
        "configurations",
        "every small combination of timeouts and sizes, every short command line for switches, policies and sizes, every timeout drawn from small ranges",
    );
    let top = if quick { 7u64 } else { 12 };
    let n = AtomicU64::new(0);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
        let hit = || {
            n.fetch_add(1, AO::Relaxed);
        };
        // Combinations that cannot work are refused, all others accepted as they are.
        for min in 0..top {
            for max in 0..top {
                for hb in 0..top {
                    for pay in 0..3u64 {
                        hit();
                        let c = Config {
                            election_timeout_min: min,
                            election_timeout_max: max,
                            heartbeat_interval: hb,
                            max_payload_entries: pay,
                            ..Default::default()
                        };
                        let want = min < max && hb < min && pay > 0;
                        let what = format!("election timeout {min}..{max}, heartbeat {hb}, payload {pay}");
                        let direct = c.clone().validate();
                        if direct.is_ok() != want {
                            return Err(format!("{what}: {}", if want { "refused" } else { "accepted" }));
                        }
                        let args = [
                            "app".to_string(),
                            format!("--election-timeout-min={min}"),
                            format!("--election-timeout-max={max}"),
                            format!("--heartbeat-interval={hb}"),
                            format!("--max-payload-entries={pay}"),
                        ];
                        let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
                        let built = Config::build(&args);
                        if built.is_ok() != want {
                            return Err(format!("{what} on the command line: {}", if want { "refused" } else { "accepted" }));
                        }
                        if let (Ok(a), Ok(b)) = (direct, built) {
                            let k = |c: &Config| (c.election_timeout_min, c.election_timeout_max, c.heartbeat_interval, c.max_payload_entries);
                            if k(&a) != (min, max, hb, pay) || k(&b) != (min, max, hb, pay) {
                                return Err(format!("{what}: becomes {:?} / {:?}", k(&a), k(&b)));
                            }
                        }
                    }
                }
            }
        }
        // Timeouts are drawn from the configured range.
        for min in 0..top * 2 {
            for max in min + 1..top * 2 + 1 {
                for owner in 0..4u8 {
                    hit();
                    rt::reset();
                    rt::set_draw(900 + owner as u32, owner);
                    let c = Config { election_timeout_min: min, election_timeout_max: max, ..Default::default() };
                    let d = rt::with_owner(900 + owner as u32, || c.new_rand_election_timeout::<rt::McRt>());
                    if d < min || d >= max {
                        return Err(format!("election timeout {d} drawn from {min}..{max}"));
                    }
                    if max - min >= 8 {
                        let q = (d - min) * 4 / (max - min);
                        if q.abs_diff(owner as u64) > 1 {
                            return Err(format!("election timeout {d} drawn from {min}..{max} for quarter {owner}"));
                        }
                    }
                }
            }
        }
        // Policies.
        let tokens = ["never", "since_last", ":", "5", "0", "18446744073709551615", "18446744073709551616", "x", " ", "-"];
        let mut words: Vec<Vec<&str>> = vec![vec![]];
        let depth = if quick { 4 } else { 5 };
        let mut at = 0;
        for _ in 0..depth {
            let end = words.len();
            for i in at..end {
                for t in tokens {
                    let mut v = words[i].clone();
                    v.push(t);
                    words.push(v);
                }
            }
            at = end;
        }
        for wd in &words {
            hit();
            let s: String = wd.concat();
            let want = if s == "never" {
                Some(SnapshotPolicy::Never)
            } else {
                s.strip_prefix("since_last:")
                    .filter(|x| !x.is_empty() && x.chars().all(|c| c.is_ascii_digit()))
                    .and_then(|x| x.parse::<u64>().ok())
                    .map(SnapshotPolicy::LogsSinceLast)
            };
            let arg = format!("--snapshot-policy={s}");
            let got = Config::build(&["app", &arg]).ok().map(|c| c.snapshot_policy);
            if got != want {
                return Err(format!("snapshot policy {s:?} is taken for {got:?}, means {want:?}"));
            }
        }
        // Switches.
        for (k, get) in [
            ("enable-tick", (|c: &Config| c.enable_tick) as fn(&Config) -> bool),
            ("enable-heartbeat", |c| c.enable_heartbeat),
            ("enable-elect", |c| c.enable_elect),
        ] {
            for (suffix, want) in [(None, Some(true)), (Some(""), Some(true)), (Some("=true"), Some(true)), (Some("=false"), Some(false)), (Some("=maybe"), None)] {
                hit();
                let arg = suffix.map(|s| format!("--{k}{s}"));
                let mut args = vec!["app"];
                args.extend(arg.as_deref());
                let got = Config::build(&args).ok();
                if got.as_ref().map(get) != want {
                    return Err(format!("{args:?}: {k} is {:?}", got.as_ref().map(get)));
                }
                // The other switches stay on.
                if let Some(c) = got {
                    let off = [c.enable_tick, c.enable_heartbeat, c.enable_elect].iter().filter(|x| !**x).count();
                    if off != (want == Some(false)) as usize {
                        return Err(format!("{args:?}: turns off {off} switches"));
                    }
                }
            }
        }
        // Sizes.
        for k in [0u64, 1, 3, 10, 1000] {
            for (unit, m) in [("", 1u64), ("B", 1), ("KB", 1000), ("KiB", 1024), ("MB", 1000_000), ("MiB", 1 << 20), ("GiB", 1 << 30)] {
                for gap in ["", " "] {
                    hit();
                    let arg = format!("--snapshot-max-chunk-size={k}{gap}{unit}");
                    let got = Config::build(&["app", &arg]).ok().map(|c| c.snapshot_max_chunk_size);
                    if got != Some(k * m) {
                        return Err(format!("{arg} is taken for {got:?}"));
                    }
                }
            }
        }
        // The rest of the numbers end up where they belong.
        let names = [
            "election-timeout-max",
            "heartbeat-interval",
            "install-snapshot-timeout",
            "send-snapshot-timeout",
            "max-payload-entries",
            "replication-lag-threshold",
            "max-in-snapshot-log-to-keep",
            "purge-batch-size",
        ];
        #[allow(deprecated)]
        let all = |c: &Config| {
            [
                c.election_timeout_max,
                c.heartbeat_interval,
                c.install_snapshot_timeout,
                c.send_snapshot_timeout,
                c.max_payload_entries,
                c.replication_lag_threshold,
                c.max_in_snapshot_log_to_keep,
                c.purge_batch_size,
            ]
        };
        let d = Config::default();
        if d.clone().validate().is_err() {
            return Err("the default configuration is refused".into());
        }
        for m in 0u32..1 << names.len() {
            hit();
            let mut want = all(&d);
            let mut args = vec!["app".to_string()];
            for (i, k) in names.iter().enumerate() {
                if m >> i & 1 == 1 {
                    want[i] += 1 + i as u64;
                    args.push(format!("--{k}={}", want[i]));
                }
            }
            let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
            let c = Config::build(&args).map_err(|e| format!("{args:?} refused: {e}"))?;
            if all(&c) != want {
                return Err(format!("{args:?} gives {:?} for {names:?}", all(&c)));
            }
            let last = Duration::from_millis(want[2]);
            #[allow(deprecated)]
            let (inst, send) = (c.install_snapshot_timeout(), c.send_snapshot_timeout());
            let part = if want[3] > 0 { Duration::from_millis(want[3]) } else { last };
            if inst != last || send != part {
                return Err(format!("{args:?}: snapshot timeouts {inst:?} and {send:?}"));
            }
        }
        Ok(())
    }));
    rt::reset();
    e.states = n.load(AO::Relaxed);
    e.transitions = e.states;
    e.seconds = t.elapsed().as_secs_f64();
    match r {
        Ok(Ok(())) => {}
        Ok(Err(m)) => e.found = Some((m, vec![])),
        Err(_) => e.found = Some(("panic while a configuration is read".into(), vec![])),
    }
    vec![e]
}
