use std::collections::{HashMap, VecDeque};
use std::fmt::Debug;
use std::io::Cursor;
use std::ops::{Bound, RangeBounds};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::Instant;

use futures_util::FutureExt;
use openraft::mc_hooks::{Known, Search, Sending};
use openraft::storage::{IOFlushed, LogState, RaftLogReader, RaftLogStorage, RaftSnapshotBuilder, RaftStateMachine, Snapshot};
use openraft::{
    CommittedLeaderId, EntryPayload, LogId, Membership, OptionalSend, SnapshotMeta, StorageError, StorageHelper, StoredMembership,
    Vote,
};

use super::Extra;
use crate::types::*;

/// Leaders in order.
const LEADERS: [(u64, u64); 8] = [(0, 0), (1, 1), (2, 2), (2, 3), (5, 1), (6, 2), (7, 1), (9, 3)];

fn id(leader: usize, index: u64) -> Lid {
    let (t, n) = LEADERS[leader];
    LogId::new(CommittedLeaderId::new(t, n), index)
}

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
        format!("panics: {}", m.unwrap_or_default())
    })
}

fn timed(mut e: Extra, f: impl FnOnce(&mut Extra)) -> Extra {
    let t = Instant::now();
    f(&mut e);
    e.seconds = t.elapsed().as_secs_f64();
    e
}

// --------------------------------------------------------------------------------------------- starts

/// What the stores hold when a node starts. Positions are counts: the entries before it.
#[derive(Clone, Debug)]
struct Case {
    /// Leader of each entry ever stored.
    leaders: Vec<usize>,
    /// Entries which are memberships.
    membs: Vec<usize>,
    purged: usize,
    committed: usize,
    /// May exceed the log: a snapshot was installed and the log not purged yet.
    applied: usize,
    /// 0: none.
    snap: usize,
    vote: u8,
}

struct Disk {
    log: Arc<Vec<Ent>>,
    purged: Option<Lid>,
    committed: Option<Lid>,
    vote: Option<Vt>,
    purges: Vec<Lid>,
    applied: Option<Lid>,
    memb: StoredMembership<C>,
    applies: Vec<Lid>,
    snap: Option<SnapshotMeta<C>>,
    built: u32,
}

#[derive(Clone)]
struct St(Arc<Mutex<Disk>>);

fn to_range<RB: RangeBounds<u64>>(r: &RB) -> (u64, u64) {
    let s = match r.start_bound() {
        Bound::Included(x) => *x,
        Bound::Excluded(x) => *x + 1,
        Bound::Unbounded => 0,
    };
    let e = match r.end_bound() {
        Bound::Included(x) => *x + 1,
        Bound::Excluded(x) => *x,
        Bound::Unbounded => u64::MAX,
    };
    (s, e)
}

impl RaftLogReader<C> for St {
    async fn try_get_log_entries<RB: RangeBounds<u64> + Clone + Debug + OptionalSend>(
        &mut self,
        range: RB,
    ) -> Result<Vec<Ent>, StorageError<C>> {
        let d = self.0.lock().unwrap();
        let (s, e) = to_range(&range);
        let s = s.max(d.purged.map(|x| x.index + 1).unwrap_or(0));
        let e = e.min(d.log.len() as u64);
        Ok(if s < e { d.log[s as usize..e as usize].to_vec() } else { vec![] })
    }
    async fn read_vote(&mut self) -> Result<Option<Vt>, StorageError<C>> {
        Ok(self.0.lock().unwrap().vote)
    }
}

impl RaftLogStorage<C> for St {
    type LogReader = St;
    async fn get_log_state(&mut self) -> Result<LogState<C>, StorageError<C>> {
        let d = self.0.lock().unwrap();
        Ok(LogState { last_purged_log_id: d.purged, last_log_id: d.purged.max(d.log.last().map(|x| x.log_id)) })
    }
    async fn get_log_reader(&mut self) -> St {
        self.clone()
    }
    async fn save_vote(&mut self, _vote: &Vt) -> Result<(), StorageError<C>> {
        Ok(())
    }
    async fn save_committed(&mut self, committed: Option<Lid>) -> Result<(), StorageError<C>> {
        self.0.lock().unwrap().committed = committed;
        Ok(())
    }
    async fn read_committed(&mut self) -> Result<Option<Lid>, StorageError<C>> {
        Ok(self.0.lock().unwrap().committed)
    }
    async fn append<I>(&mut self, _entries: I, _callback: IOFlushed<C>) -> Result<(), StorageError<C>>
    where
        I: IntoIterator<Item = Ent> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        panic!("appends while starting")
    }
    async fn truncate(&mut self, log_id: Lid) -> Result<(), StorageError<C>> {
        panic!("truncates from {log_id} while starting")
    }
    async fn purge(&mut self, log_id: Lid) -> Result<(), StorageError<C>> {
        let mut d = self.0.lock().unwrap();
        d.purges.push(log_id);
        d.purged = d.purged.max(Some(log_id));
        Ok(())
    }
}

#[derive(Clone)]
struct Sm(Arc<Mutex<Disk>>);

impl RaftSnapshotBuilder<C> for Sm {
    async fn build_snapshot(&mut self) -> Result<Snapshot<C>, StorageError<C>> {
        let mut d = self.0.lock().unwrap();
        d.built += 1;
        let meta = SnapshotMeta { last_log_id: d.applied, last_membership: d.memb.clone(), snapshot_id: "built".into() };
        d.snap = Some(meta.clone());
        Ok(Snapshot { meta, snapshot: Box::new(Cursor::new(vec![])) })
    }
}

impl RaftStateMachine<C> for Sm {
    type SnapshotBuilder = Sm;
    async fn applied_state(&mut self) -> Result<(Option<Lid>, StoredMembership<C>), StorageError<C>> {
        let d = self.0.lock().unwrap();
        Ok((d.applied, d.memb.clone()))
    }
    async fn apply<I>(&mut self, entries: I) -> Result<Vec<Resp>, StorageError<C>>
    where
        I: IntoIterator<Item = Ent> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        let mut d = self.0.lock().unwrap();
        let mut out = vec![];
        for e in entries {
            d.applies.push(e.log_id);
            d.applied = Some(e.log_id);
            if let EntryPayload::Membership(m) = &e.payload {
                d.memb = StoredMembership::new(Some(e.log_id), m.clone());
            }
            out.push(Resp { id: 0, pos: 0 });
        }
        Ok(out)
    }
    async fn get_snapshot_builder(&mut self) -> Sm {
        self.clone()
    }
    async fn begin_receiving_snapshot(&mut self) -> Result<Box<Cursor<Vec<u8>>>, StorageError<C>> {
        panic!("receives a snapshot while starting")
    }
    async fn install_snapshot(&mut self, _m: &SnapshotMeta<C>, _s: Box<Cursor<Vec<u8>>>) -> Result<(), StorageError<C>> {
        panic!("installs a snapshot while starting")
    }
    async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot<C>>, StorageError<C>> {
        let d = self.0.lock().unwrap();
        Ok(d.snap.clone().map(|meta| Snapshot { meta, snapshot: Box::new(Cursor::new(vec![])) }))
    }
}

fn memb_at(i: usize) -> Memb {
    let v = [vec![1u64, 2, 3], vec![1, 2], vec![1, 2, 3, 4]][i % 3].iter().copied().collect();
    Membership::new(vec![v], [1u64, 2, 3, 4].into_iter().map(|n| (n, Addr(1000 * i as u32 + n as u32))).collect::<std::collections::BTreeMap<_, _>>())
}

fn entries(leaders: &[usize], membs: &[usize]) -> Arc<Vec<Ent>> {
    let mut v: Vec<Ent> = leaders
        .iter()
        .enumerate()
        .map(|(i, l)| Ent { log_id: id(*l, i as u64), payload: EntryPayload::Normal(Req { id: i as u32 }) })
        .collect();
    for m in membs {
        if *m < v.len() {
            v[*m].payload = EntryPayload::Membership(memb_at(*m));
        }
    }
    Arc::new(v)
}

impl Case {
    fn n(&self) -> usize {
        self.leaders.len()
    }
    /// The id of the last of the first `k` entries.
    fn upto(&self, k: usize) -> Option<Lid> {
        if k == 0 {
            return None;
        }
        let l = if k <= self.n() { self.leaders[k - 1] } else { self.leaders.last().copied().unwrap_or(0).max(1) };
        Some(id(l, k as u64 - 1))
    }
    fn memb(&self, k: usize) -> StoredMembership<C> {
        match self.membs.iter().filter(|m| **m < k).max() {
            Some(m) => StoredMembership::new(self.upto(m + 1), memb_at(*m)),
            None => StoredMembership::default(),
        }
    }
    fn vote(&self) -> Option<Vt> {
        let top = self.upto(self.n().max(self.applied));
        match (self.vote, top) {
            (0, None) => None,
            (0, Some(l)) if lkey(&l).0 == 0 => None,
            (0, Some(l)) | (1, Some(l)) => {
                let (t, n) = (lkey(&l).0, lkey(&l).1);
                Some(Vote::new_committed(t, n))
            }
            (_, l) => Some(Vote::new(l.map(|l| lkey(&l).0).unwrap_or(0) + 1, 3)),
        }
    }

    fn check(&self, log: &Arc<Vec<Ent>>) -> Result<(), String> {
        let disk = Arc::new(Mutex::new(Disk {
            log: log.clone(),
            purged: self.upto(self.purged),
            committed: self.upto(self.committed),
            vote: self.vote(),
            purges: vec![],
            applied: self.upto(self.applied),
            memb: self.memb(self.applied),
            applies: vec![],
            snap: (self.snap > 0).then(|| SnapshotMeta {
                last_log_id: self.upto(self.snap),
                last_membership: self.memb(self.snap),
                snapshot_id: "kept".into(),
            }),
            built: 0,
        }));
        let (mut ls, mut sm) = (St(disk.clone()), Sm(disk.clone()));
        let st = StorageHelper::new(&mut ls, &mut sm)
            .get_initial_state()
            .now_or_never()
            .ok_or("does not finish")?
            .map_err(|e| format!("fails: {e}"))?;
        let k = Known::of(st.clone());
        let d = disk.lock().unwrap();
        let eq = |what: &str, got: String, want: String| {
            if got == want {
                Ok(())
            } else {
                Err(format!("{what}: {got}, the stores tell {want}"))
            }
        };
        macro_rules! same {
            ($what:expr, $got:expr, $want:expr) => {{
                let (g, w) = (&$got, &$want);
                if g != w {
                    eq($what, format!("{g:?}"), format!("{w:?}"))?;
                }
            }};
        }
        let upto = self.applied.max(self.committed);
        let n = self.n();
        let hole = self.applied > n;
        let purged = if hole { self.applied } else { self.purged };
        let last = n.max(purged);
        same!("vote", k.vote(), self.vote().unwrap_or_default());
        same!("committed", st.committed, self.upto(upto));
        same!("last log id", k.last(), self.upto(last));
        same!("purged", k.purged(), self.upto(purged));
        same!("to be purged", k.purge_upto(), self.upto(purged));
        for i in purged.saturating_sub(1)..last + 2 {
            let want = if i < last { self.upto(i + 1) } else { None };
            same!(&format!("log id at {i}"), k.log_id(i as u64), want);
        }
        // The state machine went from what it had to what is committed.
        let want: Vec<Lid> = (self.applied..upto).map(|i| self.upto(i + 1).unwrap()).collect();
        same!("applied", d.applies, want);
        same!("last applied", d.applied, self.upto(upto));
        same!("purges", d.purges, if hole { vec![self.upto(purged).unwrap()] } else { vec![] });
        let snap = if self.snap > 0 {
            self.snap
        } else if purged > 0 {
            upto
        } else {
            0
        };
        same!("snapshots built", d.built, (self.snap == 0 && purged > 0) as u32);
        same!("snapshot", st.snapshot_meta.last_log_id, self.upto(snap));
        same!("snapshot in effect", k.snapshot(), self.upto(snap));
        if snap > 0 {
            same!("membership of the snapshot", st.snapshot_meta.last_membership, self.memb(snap));
        }
        same!("applied, in a snapshot, purged", k.done(), [self.upto(upto), self.upto(snap), self.upto(purged)]);
        // The last configuration is in effect; the one before it can be gone back to.
        let eff = self.memb(last.max(upto));
        let pos = eff.log_id().map(|l| l.index as usize);
        let com = match pos {
            Some(p) if p >= upto => self.memb(p),
            _ => eff.clone(),
        };
        let [c, e] = k.memberships();
        same!("effective configuration", (e.log_id(), e.membership()), (eff.log_id(), eff.membership()));
        same!("configuration before it", (c.log_id(), c.membership()), (com.log_id(), com.membership()));
        Ok(())
    }
}

struct Tally {
    next: AtomicUsize,
    n: AtomicUsize,
    bad: Mutex<Option<(String, Vec<String>)>>,
}

/// Every case of every job, in parallel.
fn run_cases<J: Sync>(e: &mut Extra, jobs: &[J], f: impl Fn(&J, &mut dyn FnMut(&Case, &Arc<Vec<Ent>>) -> bool) + Sync) {
    if e.found.is_some() {
        return;
    }
    let t = Tally { next: AtomicUsize::new(0), n: AtomicUsize::new(0), bad: Mutex::new(None) };
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = t.next.fetch_add(1, Relaxed);
                if i >= jobs.len() || t.bad.lock().unwrap().is_some() {
                    return;
                }
                let mut k = 0;
                f(&jobs[i], &mut |c, log| {
                    k += 1;
                    match guard(|| c.check(log)).and_then(|x| x) {
                        Ok(()) => true,
                        Err(m) => {
                            t.bad.lock().unwrap().get_or_insert((m, vec![describe(c)]));
                            false
                        }
                    }
                });
                t.n.fetch_add(k, Relaxed);
            });
        }
    });
    e.states += t.n.load(Relaxed) as u64;
    e.transitions += t.n.load(Relaxed) as u64;
    e.found = t.bad.into_inner().unwrap();
}

fn describe(c: &Case) -> String {
    let f = |k: usize| c.upto(k).map(|l| l.to_string()).unwrap_or("none".into());
    let mut runs: Vec<String> = vec![];
    for i in 0..c.n() {
        if i == 0 || c.leaders[i] != c.leaders[i - 1] {
            runs.push(f(i + 1));
        }
    }
    format!(
        "a log of {} entries (first of each leader: {}; memberships at {:?}), purged {}, committed {}, applied {}, snapshot {}, vote {:?}",
        c.n(),
        runs.join(" "),
        c.membs,
        f(c.purged),
        f(c.committed),
        f(c.applied),
        f(c.snap),
        c.vote().map(|v| v.to_string())
    )
}

pub fn starts(quick: bool) -> Vec<Extra> {
    let mut out = vec![];
    let max = if quick { 6 } else { 7 };
    out.push(timed(
        Extra::new(
            "starts",
            "a node starts from stores of every shape: logs up to 6 (thorough 7) entries, every place of leader changes and memberships, everything purged, committed, applied, kept in a snapshot up to anywhere, snapshot installed past the log, votes",
        ),
        |e| {
            let mut jobs: Vec<(usize, u32)> = vec![];
            for n in 0..=max {
                for l in 0..1u32 << (n as u32).saturating_sub(1) {
                    jobs.push((n, l));
                }
            }
            jobs.reverse();
            run_cases(e, &jobs, |(n, l), one| {
                let n = *n;
                let mut leaders = vec![];
                let mut x = 0;
                for i in 0..n {
                    if i > 0 && l >> (i - 1) & 1 == 1 {
                        x += 1;
                    }
                    leaders.push(x);
                }
                for mm in 0..1u32 << n {
                    let membs: Vec<usize> = (0..n).filter(|i| mm >> i & 1 == 1).collect();
                    let log = entries(&leaders, &membs);
                    let mut c = Case { leaders: leaders.clone(), membs, purged: 0, committed: 0, applied: 0, snap: 0, vote: 0 };
                    for purged in 0..=n {
                        for applied in purged..=n + 2 {
                            for committed in 0..=n {
                                for snap in 0..=applied {
                                    if snap > 0 && snap < purged || applied > n && snap != applied {
                                        continue;
                                    }
                                    let votes = if n <= 4 { 0..3 } else { (mm % 3) as u8..(mm % 3) as u8 + 1 };
                                    for vote in votes {
                                        c.purged = purged;
                                        c.applied = applied;
                                        c.committed = committed;
                                        c.snap = snap;
                                        c.vote = vote;
                                        if !one(&c, &log) {
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            });
        },
    ));
    if out[0].found.is_some() {
        return out;
    }
    let lens: Vec<usize> = if quick { vec![31, 63, 64, 65, 127, 128, 129, 130] } else { (30..34).chain(62..68).chain(126..132).chain(191..195).collect() };
    out.push(timed(
        Extra::new(
            "long starts",
            "a node starts from a long log (lengths around the sizes of the batches it is read in): every pair of places where leaders change, every pair of places of memberships, everything committed, applied and purged up to every pair of places",
        ),
        |e| {
            let mut jobs: Vec<(usize, usize)> = vec![];
            for n in &lens {
                for x in 0..=*n {
                    jobs.push((*n, x));
                }
            }
            // Leader changes.
            run_cases(e, &jobs, |(n, x), one| {
                for y in *x..=*n {
                    for z in [y, (y + n) / 2, *n] {
                        let leaders: Vec<usize> =
                            (0..*n).map(|i| 1 + (i >= *x) as usize + (i >= y) as usize + (i >= z) as usize).collect();
                        let log = entries(&leaders, &[0]);
                        for purged in [0, 1, 2, *x, y, n / 2, n - 1, *n] {
                            let c = Case {
                                leaders: leaders.clone(),
                                membs: vec![0],
                                purged,
                                committed: 0,
                                applied: *n,
                                snap: purged.max(1),
                                vote: 1,
                            };
                            if !one(&c, &log) {
                                return;
                            }
                        }
                    }
                }
            });
            // Memberships.
            run_cases(e, &jobs, |(n, x), one| {
                for y in *x..*n {
                    let mut membs = vec![0, *x, y];
                    membs.dedup();
                    let leaders = vec![1; *n];
                    let log = entries(&leaders, &membs);
                    for applied in [0, 1, *x, x + 1, y, y + 1, n / 2, *n] {
                        for purged in [0, applied] {
                            for committed in [0, n / 2] {
                                let c = Case {
                                    leaders: leaders.clone(),
                                    membs: membs.clone(),
                                    purged: purged.min(*n),
                                    committed,
                                    applied: applied.min(*n),
                                    snap: purged.min(*n),
                                    vote: 1,
                                };
                                if !one(&c, &log) {
                                    return;
                                }
                            }
                        }
                    }
                }
            });
            // Applied and committed.
            run_cases(e, &jobs, |(n, x), one| {
                let leaders: Vec<usize> = (0..*n).map(|i| 1 + (i >= n / 3) as usize).collect();
                let membs = vec![0, n / 2];
                let log = entries(&leaders, &membs);
                for y in 0..=*n {
                    for purged in [0, x / 2, *x] {
                        for snap in [0, *x] {
                            let c = Case {
                                leaders: leaders.clone(),
                                membs: membs.clone(),
                                purged,
                                committed: y,
                                applied: *x,
                                snap,
                                vote: 1,
                            };
                            if !one(&c, &log) {
                                return;
                            }
                        }
                    }
                }
            });
        },
    ));
    out
}

// ---------------------------------------------------------------------------------------------- lists

/// A log as it is: what is purged, and the entries after it.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Log {
    purged: Option<(usize, u64)>,
    ents: Vec<usize>,
}

impl Log {
    fn first(&self) -> u64 {
        self.purged.map(|p| p.1 + 1).unwrap_or(0)
    }
    fn next(&self) -> u64 {
        self.first() + self.ents.len() as u64
    }
    fn last_leader(&self) -> Option<usize> {
        self.ents.last().copied().or(self.purged.map(|p| p.0))
    }
    fn at(&self, i: u64) -> Option<Lid> {
        if let Some(p) = self.purged {
            if p.1 == i {
                return Some(id(p.0, i));
            }
        }
        if i < self.first() || i >= self.next() {
            return None;
        }
        Some(id(self.ents[(i - self.first()) as usize], i))
    }
    fn check(&self, k: &Known<C>) -> Result<(), String> {
        let lo = self.first().saturating_sub(1);
        for i in lo..self.next() + 2 {
            let (got, want) = (k.log_id(i), self.at(i));
            if got != want {
                return Err(format!("log id at {i}: {got:?}, the log has {want:?}"));
            }
        }
        let last = if self.next() == 0 { None } else { self.at(self.next() - 1) };
        if k.last() != last {
            return Err(format!("last log id {:?}, the log has {last:?}", k.last()));
        }
        let purged = self.purged.map(|p| id(p.0, p.1));
        if k.purged() != purged {
            return Err(format!("purged {:?}, in the log {purged:?}", k.purged()));
        }
        // Is an entry there?
        for i in lo..self.next() + 1 {
            for l in 0..LEADERS.len() {
                let x = id(l, i);
                if k.has(&x) != (self.at(i) == Some(x)) {
                    return Err(format!("{x} is there: {}, the log has {:?}", k.has(&x), self.at(i)));
                }
            }
        }
        // The first entry of a batch which is not there.
        for from in self.first()..=self.next() {
            for len in 0..4u64 {
                for bump in 0..=len {
                    // Agrees with the log up to `bump`, then is of another leader.
                    let ids: Vec<Lid> = (0..len)
                        .map(|j| {
                            let i = from + j;
                            if j < bump {
                                self.at(i).unwrap_or(id(7, i))
                            } else {
                                id(7, i)
                            }
                        })
                        .collect();
                    let want = ids.iter().position(|x| self.at(x.index) != Some(*x)).unwrap_or(ids.len());
                    if k.first_conflict(&ids) != want {
                        return Err(format!("of {ids:?} the first conflict is {}, expected {want}", k.first_conflict(&ids)));
                    }
                }
            }
        }
        // Where the entries of the last leader begin and end.
        let mut want = vec![];
        if let Some(last) = last {
            let mut f = last;
            while f.index > lo {
                match self.at(f.index - 1) {
                    Some(p) if p.leader_id == last.leader_id => f = p,
                    _ => break,
                }
            }
            want.push(f);
            if f != last {
                want.push(last);
            }
        }
        if k.by_last_leader() != want {
            return Err(format!("of the last leader {:?}, in the log {want:?}", k.by_last_leader()));
        }
        Ok(())
    }
}

pub fn lists(quick: bool) -> Vec<Extra> {
    let (max, leaders) = if quick { (9u64, 5usize) } else { (11, 6) };
    vec![timed(
        Extra::new(
            "log id lists",
            "every sequence of appends, truncations and purges (also past the end) on the list of log ids, up to index 8 and 5 leaders (thorough 10 and 6), against the log itself",
        ),
        |e| {
            let start = (Log { purged: None, ents: vec![] }, Known::<C>::of(Default::default()));
            let key = |l: &Log, k: &Known<C>| (l.clone(), h64(&format!("{k:?}")));
            type Key = (Log, u64);
            let mut seen: HashMap<Key, Option<(Key, String)>> = HashMap::new();
            seen.insert(key(&start.0, &start.1), None);
            let mut todo = VecDeque::from([start]);
            while let Some((l, k)) = todo.pop_front() {
                let from = key(&l, &k);
                let mut steps: Vec<(String, Log, Box<dyn Fn(&mut Known<C>)>)> = vec![];
                let low = l.last_leader().unwrap_or(0);
                let next = l.next();
                // Appends of up to three.
                for a in low..leaders {
                    for b in a..leaders {
                        for c in b..leaders {
                            for (len, fresh) in [(1, a == b && b == c), (2, b == c), (3, true)] {
                                if !fresh || next + len > max {
                                    continue;
                                }
                                let ls = &[a, b, c][..len as usize];
                                let ids: Vec<Lid> = ls.iter().enumerate().map(|(i, x)| id(*x, next + i as u64)).collect();
                                let mut n = l.clone();
                                n.ents.extend(ls);
                                let x = ids.clone();
                                steps.push((format!("append {ids:?}"), n.clone(), Box::new(move |k| k.append(&x))));
                                if ls.iter().all(|x| *x == ls[0]) {
                                    let x = ids.clone();
                                    steps.push((format!("append {ids:?} of one leader"), n, Box::new(move |k| k.append_same(&x))));
                                }
                            }
                        }
                    }
                }
                for i in l.first()..next {
                    let mut n = l.clone();
                    n.ents.truncate((i - l.first()) as usize);
                    steps.push((format!("truncate from {i}"), n, Box::new(move |k| k.truncate(i))));
                    let upto = l.at(i).unwrap();
                    let n = Log {
                        purged: Some((l.ents[(i - l.first()) as usize], i)),
                        ents: l.ents[(i + 1 - l.first()) as usize..].to_vec(),
                    };
                    steps.push((format!("purge up to {upto}"), n, Box::new(move |k| k.purge(&upto))));
                }
                for i in next..max {
                    for a in low..leaders {
                        let upto = id(a, i);
                        let n = Log { purged: Some((a, i)), ents: vec![] };
                        steps.push((format!("purge up to {upto}"), n, Box::new(move |k| k.purge(&upto))));
                    }
                }
                for (what, want, f) in steps {
                    e.transitions += 1;
                    let r = guard(|| {
                        let mut n = k.clone();
                        f(&mut n);
                        want.check(&n).map(|_| n)
                    })
                    .and_then(|x| x);
                    match r {
                        Err(m) => {
                            let mut p = vec![what];
                            let mut at = from.clone();
                            while let Some(Some((b, s))) = seen.get(&at) {
                                p.push(s.clone());
                                at = b.clone();
                            }
                            p.reverse();
                            e.found = Some((m, p));
                            return;
                        }
                        Ok(n) => {
                            let nk = key(&want, &n);
                            if !seen.contains_key(&nk) {
                                seen.insert(nk, Some((from.clone(), what)));
                                todo.push_back((want, n));
                            }
                        }
                    }
                }
            }
            e.states = seen.len() as u64;
        },
    )]
}

// -------------------------------------------------------------------------------------------- searches

fn lid5(i: u64) -> Lid {
    id(1 + (i / 9) as usize, i)
}
fn upto(n: u64) -> Option<Lid> {
    (n > 0).then(|| lid5(n - 1))
}

/// A leader with `len` entries, those up to `purged` going away; the follower has the first `has` of them.
#[derive(Clone)]
struct Pair {
    known: Known<C>,
    search: Search<C>,
    len: u64,
    purged: u64,
    has: u64,
    grown: u64,
    moved: bool,
}

impl Pair {
    fn new(len: u64, end: u64, purged: u64, has: u64) -> Self {
        let mut known = Known::of(Default::default());
        let ids: Vec<Lid> = (0..len).map(lid5).collect();
        known.append(&ids);
        known.set_snapshot(upto(purged));
        known.set_purge_upto(upto(purged));
        Pair { known, search: Search::new(end), len, purged, has, grown: 0, moved: false }
    }
    fn key(&self) -> (u64, u64, u64, u64, bool, String) {
        (self.len, self.purged, self.has, self.grown, self.moved, format!("{:?} {:?}", self.search.range(), self.search.on_the_way()))
    }
    fn append(&mut self) {
        self.known.append(&[lid5(self.len)]);
        self.len += 1;
        self.grown += 1;
    }
    fn purge(&mut self, p: u64) {
        self.known.set_snapshot(upto(p));
        self.known.set_purge_upto(upto(p));
        self.purged = p;
        self.moved = true;
    }
    fn check(&self) -> Result<(), String> {
        let (m, _) = self.search.range();
        if m.map(|l| l.index + 1).unwrap_or(0) > self.has || m.map(|l| l != lid5(l.index)).unwrap_or(false) {
            return Err(format!("takes {m:?} for replicated, the follower has {:?}", upto(self.has)));
        }
        Ok(())
    }
    fn send(&mut self, max: u64) -> Result<(), String> {
        let idle = self.search.on_the_way() == Sending::Nothing;
        self.search.send(&self.known, max);
        if !idle {
            return Ok(());
        }
        match self.search.on_the_way() {
            Sending::Nothing => Ok(()),
            Sending::Snapshot(l) => {
                if l != upto(self.purged) {
                    return Err(format!("sends a snapshot of {l:?}, there is one of {:?}", upto(self.purged)));
                }
                Ok(())
            }
            Sending::Logs(a, b) => {
                let s = a.map(|x| x.index + 1).unwrap_or(0);
                let Some(b) = b else { return Err("sends no entries".into()) };
                if a.map(|x| x != lid5(x.index)).unwrap_or(false) || b != lid5(b.index) || b.index >= self.len {
                    return Err(format!("sends the entries after {a:?} up to {b:?}: not its log"));
                }
                if s < self.purged {
                    return Err(format!("sends the entries after {a:?}: they are purged up to {:?}", upto(self.purged)));
                }
                if b.index + 1 - s > max {
                    return Err(format!("sends {} entries, {max} are allowed", b.index + 1 - s));
                }
                Ok(())
            }
        }
    }
    /// The follower answers what is on the way; of entries, takes `part` or all.
    fn answer(&mut self, part: Option<u64>) {
        match self.search.on_the_way() {
            Sending::Nothing => {}
            Sending::Snapshot(l) => {
                self.has = self.has.max(l.map(|x| x.index + 1).unwrap_or(0));
                self.search.ack(l);
            }
            Sending::Logs(a, b) => {
                let s = a.map(|x| x.index + 1).unwrap_or(0);
                if s > self.has {
                    self.search.conflict(s - 1);
                } else {
                    let all = b.unwrap().index + 1 - s;
                    let k = s + part.unwrap_or(all).min(all);
                    self.has = self.has.max(k);
                    self.search.ack(upto(k));
                }
            }
        }
    }
    /// Without further events, and one more entry, the follower gets everything.
    fn settles(&self, max: u64) -> Result<(), String> {
        let mut p = self.clone();
        for extra in 0..2 {
            if extra == 1 {
                p.append();
            }
            let mut left = 40 + 3 * p.len;
            loop {
                p.send(max)?;
                p.check()?;
                if p.search.on_the_way() == Sending::Nothing {
                    break;
                }
                p.answer(None);
                p.check()?;
                if left == 0 {
                    return Err(format!("goes on without end: {:?}", p.search));
                }
                left -= 1;
            }
        }
        let (m, _) = p.search.range();
        if p.has != p.len || m != upto(p.len) {
            return Err(format!("stops at {:?} (known: {m:?}) of {:?}", upto(p.has), upto(p.len)));
        }
        Ok(())
    }
}

pub fn searches(quick: bool) -> Vec<Extra> {
    let lens: Vec<u64> = if quick { vec![1, 2, 5, 15, 16, 17, 18, 31, 32, 33, 34, 40] } else { (1..=50).collect() };
    let maxes = [1u64, 2, 5, 300];
    vec![timed(
        Extra::new(
            "searches",
            "a leader looks for where a follower's log agrees with its own and sends what is missing: every place of agreement, everything purged up to anywhere, logs up to 40 (thorough 50) entries, batches of 1, 2, 5 and all, entries appended (2) and purged (1 step) at any time meanwhile, entries taken in part",
        ),
        |e| {
            let mut jobs = vec![];
            for l in &lens {
                for has in 0..=*l {
                    for m in maxes {
                        jobs.push((*l, has, m));
                    }
                }
            }
            jobs.reverse();
            let next = AtomicUsize::new(0);
            let res: Mutex<(u64, u64, Option<(String, Vec<String>)>)> = Mutex::new((0, 0, None));
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= jobs.len() || res.lock().unwrap().2.is_some() {
                            return;
                        }
                        let (len, has, max) = jobs[i];
                        let r = guard(|| explore(len, has, max));
                        let mut g = res.lock().unwrap();
                        match r {
                            Ok(Ok((a, b))) => {
                                g.0 += a;
                                g.1 += b;
                            }
                            Ok(Err(f)) => g.2 = Some(f),
                            Err(m) => g.2 = Some((m, vec![format!("a log of {len}, the follower has {has} of it, batches of {max}")])),
                        }
                    });
                }
            });
            let g = res.into_inner().unwrap();
            e.states = g.0;
            e.transitions = g.1;
            e.found = g.2;
        },
    )]
}

fn explore(len: u64, has: u64, max: u64) -> Result<(u64, u64), (String, Vec<String>)> {
    let mut states = 0;
    let mut trans = 0;
    for end in [len, len - 1] {
        if has > end {
            continue;
        }
        for purged in 0..=len {
            type Key = (u64, u64, u64, u64, bool, String);
            let mut seen: HashMap<Key, Option<(Key, String)>> = HashMap::new();
            let start = Pair::new(len, end, purged, has);
            seen.insert(start.key(), None);
            let mut todo = VecDeque::from([start]);
            while let Some(p) = todo.pop_front() {
                let from = p.key();
                let mut steps: Vec<(String, Pair, Result<(), String>)> = vec![];
                match p.search.on_the_way() {
                    Sending::Nothing => {
                        let mut n = p.clone();
                        let r = n.send(max);
                        steps.push(("send".into(), n, r));
                    }
                    Sending::Logs(a, b) => {
                        let mut n = p.clone();
                        n.answer(None);
                        steps.push(("answer".into(), n, Ok(())));
                        let k = b.map(|x| x.index + 1).unwrap_or(0) - a.map(|x| x.index + 1).unwrap_or(0);
                        if k > 1 {
                            for part in [1, k / 2] {
                                let mut n = p.clone();
                                n.answer(Some(part));
                                steps.push((format!("answer to the first {part}"), n, Ok(())));
                            }
                        }
                    }
                    Sending::Snapshot(_) => {
                        let mut n = p.clone();
                        n.answer(None);
                        steps.push(("answer".into(), n, Ok(())));
                    }
                }
                if p.grown < 2 {
                    let mut n = p.clone();
                    n.append();
                    steps.push(("append".into(), n, Ok(())));
                }
                if !p.moved && purged == 0 {
                    for to in [1, len / 2, len - 1, len] {
                        if to > p.purged && to <= p.len {
                            let mut n = p.clone();
                            n.purge(to);
                            steps.push((format!("purge up to {:?}", upto(to)), n, Ok(())));
                        }
                    }
                }
                for (what, n, r) in steps {
                    trans += 1;
                    let nk = n.key();
                    let known = seen.contains_key(&nk);
                    if known && r.is_ok() {
                        continue;
                    }
                    let r = r.and_then(|_| n.check()).and_then(|_| n.settles(max));
                    if let Err(m) = r {
                        let mut v = vec![what];
                        let mut at = from.clone();
                        while let Some(Some((b, s))) = seen.get(&at) {
                            v.push(s.clone());
                            at = b.clone();
                        }
                        v.push(format!(
                            "a log of {len} purged up to {:?}; the follower has {has} of it and nothing from {end} on; batches of {max}",
                            upto(purged)
                        ));
                        v.reverse();
                        return Err((m, v));
                    }
                    seen.insert(nk, Some((from.clone(), what)));
                    todo.push_back(n);
                }
            }
            states += seen.len() as u64;
        }
    }
    Ok((states, trans))
}
