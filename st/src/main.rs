//! Explicit-state exploration of the bundled stores against a reference model of the storage contract.
//!
//! Every sequence of storage operations that a raft node may issue, up to a depth, is executed on the real store; after
//! each operation everything observable is compared with the model. Building a snapshot is split into its steps, which
//! interleave with the other operations; stores that claim persistence are closed and reopened between operations, and
//! killed or cut off from power between operations and at every file-system call inside one.

mod fsx;

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Instant;

use fsx::How;
use openraft::storage::{RaftLogReader, RaftLogStorage, RaftLogStorageExt, RaftSnapshotBuilder, RaftStateMachine, Snapshot};
use openraft::{CommittedLeaderId, Entry, EntryPayload, LogId, Membership, RaftTypeConfig, SnapshotMeta, StorageError, StoredMembership, Vote};
use serde_json::{json, to_value, Value};

type Lid = LogId<u64>;
type Pairs = BTreeMap<String, String>;

fn lid(term: u64, index: u64) -> Lid {
    LogId::new(CommittedLeaderId::new(term, 1), index)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Persist {
    /// Nothing outlives the process.
    Memory,
    /// The state machine is what the last snapshot holds.
    Snapshot,
    /// The state machine itself is durable.
    State,
}

trait Sut: Sized + Send + 'static {
    type C: RaftTypeConfig<NodeId = u64, Entry = Entry<Self::C>, SnapshotData = Cursor<Vec<u8>>>;
    type L: RaftLogStorage<Self::C>;
    type S: RaftStateMachine<Self::C>;
    const NAME: &'static str;
    const PERSIST: Persist;
    const COMMITTED: bool;
    const HAS_SM: bool = true;
    /// Can stop in the middle of building a snapshot.
    const HOLDS: bool = false;
    /// Stop a build before it looks at the state machine (false), or right after (true), until let go on.
    fn hold(_: &mut Self::S, _at: Option<bool>) {}
    fn open(dir: &Path) -> impl Future<Output = (Self::L, Self::S)>;
    fn req(key: &str, val: &str) -> <Self::C as RaftTypeConfig>::D;
    fn resp(r: &<Self::C as RaftTypeConfig>::R) -> Option<String>;
    /// What applying a write answers with.
    fn want(prev: Option<&String>, val: &str) -> Option<String>;
    fn node() -> <Self::C as RaftTypeConfig>::Node;
    fn encode(applied: Option<Lid>, memb: StoredMembership<Self::C>, data: &Pairs) -> Vec<u8>;
    fn decode(b: &[u8]) -> Result<(Option<Lid>, StoredMembership<Self::C>, Pairs), String>;
}

struct Mem;
impl Sut for Mem {
    type C = openraft_memstore::TypeConfig;
    type L = Arc<openraft_memstore::MemLogStore>;
    type S = Arc<openraft_memstore::MemStateMachine>;
    const NAME: &'static str = "memstore";
    const PERSIST: Persist = Persist::Memory;
    const COMMITTED: bool = true;
    const HOLDS: bool = true;
    fn hold(s: &mut Self::S, at: Option<bool>) {
        use openraft_memstore::BlockOperation::*;
        let mut b = s.block.clone();
        match at {
            None => {
                b.clear_blocking(DelayBuildingSnapshot);
                b.clear_blocking(BuildSnapshot);
            }
            Some(x) => b.set_blocking(if x { BuildSnapshot } else { DelayBuildingSnapshot }, std::time::Duration::from_millis(1)),
        }
    }
    async fn open(_: &Path) -> (Self::L, Self::S) {
        openraft_memstore::new_mem_store()
    }
    fn req(key: &str, val: &str) -> openraft_memstore::ClientRequest {
        openraft_memstore::ClientRequest { client: key.into(), serial: 0, status: val.into() }
    }
    fn resp(r: &openraft_memstore::ClientResponse) -> Option<String> {
        r.0.clone()
    }
    fn want(prev: Option<&String>, _: &str) -> Option<String> {
        prev.cloned()
    }
    fn node() {}
    fn encode(applied: Option<Lid>, memb: StoredMembership<Self::C>, data: &Pairs) -> Vec<u8> {
        let client_status = data.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        serde_json::to_vec(&openraft_memstore::MemStoreStateMachine { last_applied_log: applied, last_membership: memb, client_status }).unwrap()
    }
    fn decode(b: &[u8]) -> Result<(Option<Lid>, StoredMembership<Self::C>, Pairs), String> {
        let s: openraft_memstore::MemStoreStateMachine = serde_json::from_slice(b).map_err(|e| e.to_string())?;
        Ok((s.last_applied_log, s.last_membership, s.client_status.into_iter().collect()))
    }
}

/// The log store the examples share (with memstore's state machine beside it, which has checks of its own).
struct ExMem;
impl Sut for ExMem {
    type C = openraft_memstore::TypeConfig;
    type L = exmem::LogStore<Self::C>;
    type S = Arc<openraft_memstore::MemStateMachine>;
    const NAME: &'static str = "examples-memstore";
    const PERSIST: Persist = Persist::Memory;
    const COMMITTED: bool = true;
    const HAS_SM: bool = false;
    async fn open(_: &Path) -> (Self::L, Self::S) {
        (exmem::LogStore::default(), openraft_memstore::new_mem_store().1)
    }
    fn req(key: &str, val: &str) -> openraft_memstore::ClientRequest {
        Mem::req(key, val)
    }
    fn resp(r: &openraft_memstore::ClientResponse) -> Option<String> {
        r.0.clone()
    }
    fn want(prev: Option<&String>, v: &str) -> Option<String> {
        Mem::want(prev, v)
    }
    fn node() {}
    fn encode(applied: Option<Lid>, memb: StoredMembership<Self::C>, data: &Pairs) -> Vec<u8> {
        Mem::encode(applied, memb, data)
    }
    fn decode(b: &[u8]) -> Result<(Option<Lid>, StoredMembership<Self::C>, Pairs), String> {
        Mem::decode(b)
    }
}

struct Rocks;
impl Sut for Rocks {
    type C = openraft_rocksstore::TypeConfig;
    type L = openraft_rocksstore::RocksLogStore;
    type S = openraft_rocksstore::RocksStateMachine;
    const NAME: &'static str = "rocksstore";
    const PERSIST: Persist = Persist::Snapshot;
    const COMMITTED: bool = false;
    async fn open(d: &Path) -> (Self::L, Self::S) {
        openraft_rocksstore::new(d).await
    }
    fn req(key: &str, val: &str) -> openraft_rocksstore::RocksRequest {
        openraft_rocksstore::RocksRequest::Set { key: key.into(), value: val.into() }
    }
    fn resp(r: &openraft_rocksstore::RocksResponse) -> Option<String> {
        r.value.clone()
    }
    fn want(_: Option<&String>, val: &str) -> Option<String> {
        Some(val.into())
    }
    fn node() -> openraft::BasicNode {
        openraft::BasicNode::default()
    }
    fn encode(applied: Option<Lid>, memb: StoredMembership<Self::C>, data: &Pairs) -> Vec<u8> {
        serde_json::to_vec(&openraft_rocksstore::StateMachine { last_applied_log: applied, last_membership: memb, data: data.clone() }).unwrap()
    }
    fn decode(b: &[u8]) -> Result<(Option<Lid>, StoredMembership<Self::C>, Pairs), String> {
        let s: openraft_rocksstore::StateMachine = serde_json::from_slice(b).map_err(|e| e.to_string())?;
        Ok((s.last_applied_log, s.last_membership, s.data))
    }
}

struct Sled;
impl Sut for Sled {
    type C = openraft_sledstore::TypeConfig;
    type L = Arc<openraft_sledstore::SledStore>;
    type S = Arc<openraft_sledstore::SledStore>;
    const NAME: &'static str = "sledstore";
    const PERSIST: Persist = Persist::State;
    const COMMITTED: bool = false;
    async fn open(d: &Path) -> (Self::L, Self::S) {
        let mut last = None;
        // The lock of an instance just dropped is given up by a thread of its own.
        for _ in 0..2000 {
            match sled::Config::new().path(d).flush_every_ms(None).cache_capacity(1 << 20).open() {
                Ok(db) => return openraft_sledstore::SledStore::new(Arc::new(db)).await,
                Err(e) => last = Some(e),
            }
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        panic!("cannot open: {last:?}")
    }
    fn req(key: &str, val: &str) -> openraft_sledstore::ExampleRequest {
        openraft_sledstore::ExampleRequest::Set { key: key.into(), value: val.into() }
    }
    fn resp(r: &openraft_sledstore::ExampleResponse) -> Option<String> {
        r.value.clone()
    }
    fn want(_: Option<&String>, val: &str) -> Option<String> {
        Some(val.into())
    }
    fn node() -> openraft::BasicNode {
        openraft::BasicNode::default()
    }
    fn encode(applied: Option<Lid>, memb: StoredMembership<Self::C>, data: &Pairs) -> Vec<u8> {
        serde_json::to_vec(&openraft_sledstore::SerializableExampleStateMachine { last_applied_log: applied, last_membership: memb, data: data.clone() }).unwrap()
    }
    fn decode(b: &[u8]) -> Result<(Option<Lid>, StoredMembership<Self::C>, Pairs), String> {
        let s: openraft_sledstore::SerializableExampleStateMachine = serde_json::from_slice(b).map_err(|e| e.to_string())?;
        Ok((s.last_applied_log, s.last_membership, s.data))
    }
}

// ------------------------------------------------------------------------------------------------ model

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// Append entries of the current term / one entry of a new term.
    Append(u8),
    AppendTerm,
    /// Truncate the last entry / everything not applied.
    Trunc,
    TruncAll,
    Vote,
    VoteCommit,
    Committed,
    Apply,
    ApplyAll,
    /// Build a snapshot: at once, or get the builder / start / finish.
    Build,
    BuildGet,
    BuildStart,
    BuildHold,
    BuildEnd,
    /// Install a snapshot that many entries ahead of what is applied.
    Install(u8),
    /// Purge what the snapshot covers / one entry of it.
    Purge,
    PurgeOne,
    Reopen,
    Kill,
    Power,
    /// Killed (or the power fails) at the n-th file-system call inside the operation.
    KillIn(u8, How, Inner),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Inner {
    Append,
    Trunc,
    Vote,
    Apply,
    Build,
    Install,
    Purge,
}
use Op::*;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
struct SmM {
    applied: Option<Lid>,
    memb: Option<Lid>,
    data: Pairs,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
struct Model {
    term: u64,
    log: BTreeMap<u64, u64>,
    purged: Option<Lid>,
    vote: Option<(u64, bool)>,
    committed: Option<Lid>,
    sm: SmM,
    snap: Option<(SmM, String)>,
    /// Builder in flight: 1 obtained, 2 started.
    building: u8,
    built_from: Option<Lid>,
}
impl Model {
    fn last(&self) -> Option<Lid> {
        self.log.iter().next_back().map(|(i, t)| lid(*t, *i)).max(self.purged)
    }
    /// What an interrupted purge left behind is not part of the log.
    fn first(&self) -> Option<(u64, u64)> {
        self.log.range(self.purged.map(|l| l.index + 1).unwrap_or(0)..).next().map(|(i, t)| (*i, *t))
    }
    fn next(&self) -> u64 {
        self.last().map(|l| l.index + 1).unwrap_or(0)
    }
    fn unapplied(&self) -> Vec<Lid> {
        let a = self.sm.applied.map(|l| l.index + 1).unwrap_or(0);
        self.log.range(a..).map(|(i, t)| lid(*t, *i)).collect()
    }
    fn enabled(&self, op: Op, p: Persist) -> bool {
        let snap = self.snap.as_ref().and_then(|s| s.0.applied);
        match op {
            Append(_) | AppendTerm => self.sm.applied <= self.last(),
            Trunc | TruncAll => !self.unapplied().is_empty() && (op == TruncAll || self.log.len() > 1),
            Vote | Committed => true,
            VoteCommit => self.vote.map(|v| !v.1).unwrap_or(false),
            Apply => !self.unapplied().is_empty(),
            ApplyAll => self.unapplied().len() > 1,
            Build => self.sm.applied.is_some() && self.building == 0,
            BuildGet => self.sm.applied.is_some() && self.building == 0,
            BuildStart | BuildHold => self.building == 1,
            BuildEnd => self.building > 0,
            // As openraft does it, what conflicts is truncated first.
            Install(_) => true,
            Purge => snap > self.purged,
            PurgeOne => snap > self.purged && self.first().is_some(),
            Reopen | Kill | Power => p != Persist::Memory,
            KillIn(_, _, i) => {
                p != Persist::Memory
                    && match i {
                        Inner::Append => self.enabled(Append(2), p),
                        Inner::Trunc => self.enabled(TruncAll, p),
                        Inner::Vote => true,
                        Inner::Apply => self.enabled(ApplyAll, p),
                        Inner::Build => self.enabled(Build, p),
                        Inner::Install => true,
                        Inner::Purge => self.enabled(Purge, p),
                    }
            }
        }
    }
    /// Entries the snapshot to install would hold: canonical continuation.
    fn ahead(&self, k: u64) -> (SmM, Lid) {
        let mut sm = self.sm.clone();
        let from = sm.applied.map(|l| l.index + 1).unwrap_or(0);
        for i in from..from + k {
            let t = self.log.get(&i).copied().unwrap_or(self.term.max(1) + 1);
            let t = t.max(sm.applied.map(|l| l.leader_id.term).unwrap_or(0));
            apply_model(&mut sm, lid(t, i));
        }
        let l = sm.applied.unwrap();
        (sm, l)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Blank,
    Set(String, String),
    Memb,
}
/// The entry at a log id is always the same.
fn kind(l: &Lid) -> Kind {
    match (l.index + l.leader_id.term) % 4 {
        0 => Kind::Blank,
        1 => Kind::Set("a".into(), format!("{}.{}", l.leader_id.term, l.index)),
        2 => Kind::Memb,
        _ => Kind::Set(if l.index % 2 == 0 { "a" } else { "b" }.into(), format!("{}.{}", l.leader_id.term, l.index)),
    }
}
fn apply_model(m: &mut SmM, l: Lid) -> Option<(Option<String>, String)> {
    m.applied = Some(l);
    match kind(&l) {
        Kind::Blank => None,
        Kind::Memb => {
            m.memb = Some(l);
            None
        }
        Kind::Set(k, v) => {
            let p = m.data.insert(k, v.clone());
            Some((p, v))
        }
    }
}
fn memb<T: Sut>(l: Lid) -> Membership<T::C> {
    let ids: std::collections::BTreeSet<u64> = (1..=(1 + l.index % 3)).collect();
    let nodes: BTreeMap<u64, <T::C as RaftTypeConfig>::Node> = ids.iter().map(|i| (*i, T::node())).collect();
    Membership::new(vec![ids], nodes)
}
fn stored<T: Sut>(l: Option<Lid>) -> StoredMembership<T::C> {
    match l {
        None => StoredMembership::default(),
        Some(l) => StoredMembership::new(Some(l), memb::<T>(l)),
    }
}
fn entry<T: Sut>(l: Lid) -> Entry<T::C> {
    let payload = match kind(&l) {
        Kind::Blank => EntryPayload::Blank,
        Kind::Memb => EntryPayload::Membership(memb::<T>(l)),
        Kind::Set(k, v) => EntryPayload::Normal(T::req(&k, &v)),
    };
    Entry { log_id: l, payload }
}
fn same<T: Sut>(e: &Entry<T::C>, l: &Lid) -> bool {
    e.log_id == *l
        && match (&e.payload, kind(l)) {
            (EntryPayload::Blank, Kind::Blank) => true,
            (EntryPayload::Membership(m), Kind::Memb) => *m == memb::<T>(*l),
            (EntryPayload::Normal(d), Kind::Set(k, v)) => to_value(d).ok() == to_value(T::req(&k, &v)).ok(),
            _ => false,
        }
}

// ------------------------------------------------------------------------------------------------ execution

/// A waker another thread can be waited for with.
struct Park(Mutex<bool>, std::sync::Condvar);
impl Wake for Park {
    fn wake(self: Arc<Self>) {
        *self.0.lock().unwrap() = true;
        self.1.notify_all();
    }
}
impl Park {
    fn new() -> Arc<Park> {
        Arc::new(Park(Mutex::new(false), std::sync::Condvar::new()))
    }
    fn wait_for(&self, ms: u64) -> bool {
        let g = self.0.lock().unwrap();
        let (mut g, _) = self.1.wait_timeout_while(g, std::time::Duration::from_millis(ms), |x| !*x).unwrap();
        std::mem::replace(&mut *g, false)
    }
}
thread_local! {
    /// A snapshot build in progress. It goes on only when what runs waits for it.
    /// For how long to wait for other threads before.
    static ASIDE_MS: std::cell::Cell<u64> = const { std::cell::Cell::new(50) };
    static ASIDE: RefCell<Option<Pin<Box<dyn Future<Output = ()>>>>> = const { RefCell::new(None) };
}
fn aside(w: &Waker) {
    let f = ASIDE.with(|a| a.borrow_mut().take());
    if let Some(mut f) = f {
        if f.as_mut().poll(&mut Context::from_waker(w)).is_pending() {
            ASIDE.with(|a| *a.borrow_mut() = Some(f));
        }
    }
}
/// Timers of tokio, driven by a thread of their own.
fn timers() -> tokio::runtime::EnterGuard<'static> {
    static RT: std::sync::OnceLock<tokio::runtime::Handle> = std::sync::OnceLock::new();
    RT.get_or_init(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        let h = rt.handle().clone();
        std::thread::spawn(move || rt.block_on(std::future::pending::<()>()));
        h
    })
    .enter()
}
fn block<F: Future>(f: F) -> F::Output {
    let _t = timers();
    let mut f = std::pin::pin!(f);
    let p = Park::new();
    let w = Waker::from(p.clone());
    let mut waits = 0;
    loop {
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(x) => return x,
            Poll::Pending => {
                if ASIDE.with(|a| a.borrow().is_some()) {
                    let ms = ASIDE_MS.with(|m| m.get());
                    if !p.wait_for(ms) {
                        aside(&w);
                        p.wait_for(ms);
                    }
                } else if !p.wait_for(10_000) {
                    waits += 1;
                    assert!(waits < 3, "the operation does not return");
                }
            }
        }
    }
}

type Built<C> = Result<Snapshot<C>, StorageError<C>>;
enum Building<T: Sut> {
    No,
    Got(<T::S as RaftStateMachine<T::C>>::SnapshotBuilder),
    Started(Rc<RefCell<Option<Built<T::C>>>>),
}

struct Run<T: Sut> {
    dir: PathBuf,
    gen: u32,
    st: Option<(T::L, T::S)>,
    rd: Option<<T::L as RaftLogStorage<T::C>>::LogReader>,
    b: Building<T>,
    m: Model,
    snap_bytes: Option<Vec<u8>>,
    /// States the state machine went through, by log id.
    seen: BTreeMap<Option<Lid>, SmM>,
    kills_reached: u32,
    watch: Option<Arc<Mutex<fsx::Watch>>>,
    /// Positions of snapshot and purge that a power failure leaves.
    dur: (Option<Lid>, Option<Lid>),
}
impl<T: Sut> Drop for Run<T> {
    fn drop(&mut self) {
        self.close();
    }
}

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
fn ok<T, C: RaftTypeConfig>(r: Result<T, StorageError<C>>) -> Result<T, String> {
    r.map_err(|e| format!("storage error: {e}"))
}

impl<T: Sut> Run<T> {
    fn new(dir: PathBuf) -> Self {
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.join("0")).unwrap();
        ASIDE_MS.with(|m| m.set(if T::PERSIST == Persist::Memory { 2 } else { 50 }));
        let mut r: Run<T> = Run {
            dir,
            gen: 0,
            st: None,
            rd: None,
            b: Building::No,
            m: Model::default(),
            snap_bytes: None,
            seen: BTreeMap::from([(None, SmM::default())]),
            kills_reached: 0,
            watch: None,
            dur: (None, None),
        };
        r.open_store();
        r
    }
    fn l(&mut self) -> &mut T::L {
        &mut self.st.as_mut().unwrap().0
    }
    fn s(&mut self) -> &mut T::S {
        &mut self.st.as_mut().unwrap().1
    }
    fn close(&mut self) {
        self.b = Building::No;
        ASIDE.with(|a| *a.borrow_mut() = None);
        self.rd = None;
        self.st = None;
        if let Some(w) = self.watch.take() {
            fsx::unwatch(&w);
        }
    }
    fn cur(&self) -> PathBuf {
        self.dir.join(self.gen.to_string())
    }
    fn next_dir(&self) -> PathBuf {
        self.dir.join((self.gen + 1).to_string())
    }
    fn open_store(&mut self) {
        let d = self.cur();
        if T::PERSIST != Persist::Memory {
            self.watch = Some(fsx::watch(&d));
        }
        self.st = Some(block(T::open(&d)));
        let r = block(self.l().get_log_reader());
        self.rd = Some(r);
    }
    fn reopen(&mut self) {
        self.open_store();
        self.m.building = 0;
        if T::PERSIST == Persist::Snapshot {
            self.m.sm = self.m.snap.as_ref().map(|s| s.0.clone()).unwrap_or_default();
        }
    }
    /// The store as it is found in what was left.
    fn take_image(&mut self) {
        self.close();
        self.gen += 1;
        self.open_store();
    }

    fn append_ids(&mut self, k: u8) -> Vec<Lid> {
        let n = self.m.next();
        let t = self.m.term.max(1);
        (0..k as u64).map(|i| lid(t, n + i)).collect()
    }

    fn built(&mut self, r: Result<Snapshot<T::C>, StorageError<T::C>>) -> Result<(), String> {
        let s = ok(r)?;
        let l = s.meta.last_log_id;
        ensure!(l >= self.m.built_from && l <= self.m.sm.applied, "a snapshot of {l:?} is built, between {:?} and {:?} was applied", self.m.built_from, self.m.sm.applied);
        let want = self.seen.get(&l).cloned();
        let Some(want) = want else { return Err(format!("a snapshot of {l:?} is built, which is no state it was in")) };
        let bytes = s.snapshot.into_inner();
        self.check_snap(&s.meta, &bytes, &want, "built")?;
        // An older one does not replace what is there.
        let cur = self.m.snap.as_ref().and_then(|s| s.0.applied);
        if l >= cur {
            self.m.snap = Some((want, s.meta.snapshot_id.clone()));
            self.snap_bytes = None;
        }
        self.m.building = 0;
        Ok(())
    }
    fn check_snap(&self, meta: &SnapshotMeta<T::C>, bytes: &[u8], want: &SmM, what: &str) -> Result<(), String> {
        ensure!(meta.last_log_id == want.applied, "{what} snapshot is of {:?}, expected {:?}", meta.last_log_id, want.applied);
        ensure!(meta.last_membership == stored::<T>(want.memb), "{what} snapshot of {:?} has configuration {:?}, expected {:?}", want.applied, meta.last_membership, stored::<T>(want.memb));
        let (a, m, d) = T::decode(bytes).map_err(|e| format!("{what} snapshot does not decode: {e}"))?;
        ensure!(
            a == want.applied && m == stored::<T>(want.memb) && d == want.data,
            "{what} snapshot of {:?} holds {a:?} {m:?} {d:?}, expected {:?} {:?}",
            want.applied,
            want.memb,
            want.data
        );
        Ok(())
    }

    fn step(&mut self, op: Op) -> Result<(), String> {
        self.step0(op)?;
        // A build that came to its end.
        if let Building::Started(c) = &self.b {
            let r = c.borrow_mut().take();
            if let Some(r) = r {
                self.b = Building::No;
                self.built(r)?;
            }
        }
        Ok(())
    }
    fn durable(&mut self) {
        self.dur = (self.m.snap.as_ref().and_then(|s| s.0.applied), self.m.purged);
    }
    fn step0(&mut self, op: Op) -> Result<(), String> {
        match op {
            Append(k) => {
                let ids = self.append_ids(k);
                let es: Vec<_> = ids.iter().map(|l| entry::<T>(*l)).collect();
                ok(block(self.l().blocking_append(es)))?;
                for l in ids {
                    self.m.log.insert(l.index, l.leader_id.term);
                }
            }
            AppendTerm => {
                self.m.term = self.m.term.max(self.m.last().map(|l| l.leader_id.term).unwrap_or(0)) + 1;
                return self.step(Append(1));
            }
            Trunc | TruncAll => {
                let u = self.m.unapplied();
                let l = if op == Trunc { *u.last().unwrap() } else { u[0] };
                ok(block(self.l().truncate(l)))?;
                self.m.log.split_off(&l.index);
            }
            Op::Vote => {
                let t = self.m.vote.map(|v| v.0).unwrap_or(0) + 1;
                ok(block(self.l().save_vote(&openraft::Vote::new(t, t % 3))))?;
                self.m.vote = Some((t, false));
            }
            VoteCommit => {
                let t = self.m.vote.unwrap().0;
                ok(block(self.l().save_vote(&openraft::Vote::new_committed(t, t % 3))))?;
                self.m.vote = Some((t, true));
            }
            Committed => {
                let c = self.m.last();
                ok(block(self.l().save_committed(c)))?;
                self.m.committed = c;
            }
            Apply | ApplyAll => {
                let mut u = self.m.unapplied();
                if op == Apply {
                    u.truncate(1);
                }
                // What is applied is read back from the log.
                let (a, b) = (u[0].index, u[u.len() - 1].index + 1);
                let es = ok(block(self.rd.as_mut().unwrap().try_get_log_entries(a..b)))?;
                ensure!(es.len() == u.len(), "entries {a}..{b} to apply: {} found", es.len());
                let rs = ok(block(self.s().apply(es)))?;
                ensure!(rs.len() == u.len(), "{} entries applied, {} answers", u.len(), rs.len());
                for (l, r) in u.iter().zip(rs) {
                    let w = apply_model(&mut self.m.sm, *l).and_then(|(p, v)| T::want(p.as_ref(), &v));
                    ensure!(T::resp(&r) == w, "{l} applied answers {:?}, expected {w:?}", T::resp(&r));
                    self.seen.insert(Some(*l), self.m.sm.clone());
                }
            }
            Build => {
                self.m.built_from = self.m.sm.applied;
                let r = block(async { self.s().get_snapshot_builder().await.build_snapshot().await });
                self.built(r)?;
            }
            BuildGet => {
                self.m.built_from = self.m.sm.applied;
                self.m.building = 1;
                let b = block(self.s().get_snapshot_builder());
                self.b = Building::Got(b);
            }
            BuildStart | BuildHold => {
                let Building::Got(mut b) = std::mem::replace(&mut self.b, Building::No) else { unreachable!() };
                let cell = Rc::new(RefCell::new(None));
                let c = cell.clone();
                let mut f: Pin<Box<dyn Future<Output = ()>>> = Box::pin(async move {
                    let r = b.build_snapshot().await;
                    *c.borrow_mut() = Some(r);
                });
                let w = Waker::from(Park::new());
                T::hold(self.s(), Some(op == BuildHold));
                let _t = timers();
                if f.as_mut().poll(&mut Context::from_waker(&w)).is_pending() {
                    ASIDE.with(|a| *a.borrow_mut() = Some(f));
                }
                T::hold(self.s(), None);
                self.m.building = 2;
                self.b = Building::Started(cell);
            }
            BuildEnd => match std::mem::replace(&mut self.b, Building::No) {
                Building::Got(mut b) => {
                    let r = block(b.build_snapshot());
                    self.built(r)?;
                }
                Building::Started(c) => {
                    let f = ASIDE.with(|a| a.borrow_mut().take());
                    if let Some(f) = f {
                        block(f);
                    }
                    self.b = Building::Started(c);
                }
                Building::No => {}
            },
            Install(k) => {
                let (sm, l) = self.m.ahead(k as u64);
                // Entries in conflict with it go first, everything up to it after.
                if self.m.log.get(&l.index).map(|t| *t != l.leader_id.term).unwrap_or(false) || self.conflicts(&l) {
                    self.step(TruncAll)?;
                }
                let (meta, bytes) = self.snapshot_of(&sm);
                self.receive(meta.clone(), bytes.clone())?;
                self.m.snap = Some((sm.clone(), meta.snapshot_id));
                self.snap_bytes = Some(bytes);
                self.m.sm = sm.clone();
                self.seen.insert(Some(l), sm);
                self.m.term = self.m.term.max(l.leader_id.term);
            }
            Purge => {
                let l = self.m.snap.as_ref().unwrap().0.applied.unwrap();
                self.purge(l)?;
            }
            PurgeOne => {
                let (i, t) = self.m.first().unwrap();
                let s = self.m.snap.as_ref().unwrap().0.applied.unwrap();
                if i <= s.index {
                    self.purge(lid(t, i))?;
                }
            }
            Reopen | Kill | Power => {
                let before = self.m.clone();
                let mut after = before.clone();
                if before.building == 2 && self.m.sm.applied > self.m.snap.as_ref().and_then(|s| s.0.applied) {
                    // What was being built may be there.
                    after.snap = Some((self.m.sm.clone(), String::new()));
                }
                if op == Reopen {
                    self.close();
                    self.reopen();
                    if before.building == 2 {
                        self.adopt(&before, &after, How::Kill, None)?;
                    }
                } else {
                    let how = if op == Kill { How::Kill } else { How::Power };
                    fsx::image(self.watch.as_ref().unwrap(), how, &self.next_dir());
                    self.take_image();
                    self.adopt(&before, &after, how, None)?;
                }
            }
            KillIn(n, how, i) => self.kill_in(n, how, i)?,
        }
        if T::PERSIST == Persist::State || matches!(op, Append(_) | Trunc | TruncAll | Op::Vote | VoteCommit | Install(_)) {
            self.durable();
        }
        Ok(())
    }
    fn conflicts(&self, l: &Lid) -> bool {
        self.m.unapplied().iter().any(|u| u.index <= l.index && u.leader_id.term > l.leader_id.term)
    }
    fn snapshot_of(&self, sm: &SmM) -> (SnapshotMeta<T::C>, Vec<u8>) {
        let meta = SnapshotMeta { last_log_id: sm.applied, last_membership: stored::<T>(sm.memb), snapshot_id: format!("in-{}", sm.applied.unwrap()) };
        (meta, T::encode(sm.applied, stored::<T>(sm.memb), &sm.data))
    }
    fn receive(&mut self, meta: SnapshotMeta<T::C>, bytes: Vec<u8>) -> Result<(), String> {
        let mut b = ok(block(self.s().begin_receiving_snapshot()))?;
        ensure!(b.get_ref().is_empty(), "a snapshot to receive starts with {} bytes", b.get_ref().len());
        *b.as_mut() = Cursor::new(bytes);
        ok(block(self.s().install_snapshot(&meta, b)))
    }
    fn purge(&mut self, l: Lid) -> Result<(), String> {
        ok(block(self.l().purge(l)))?;
        self.m.log = self.m.log.split_off(&(l.index + 1));
        self.m.purged = Some(l);
        Ok(())
    }

    /// Everything observable equals the model.
    fn check(&mut self) -> Result<(), String> {
        let m = self.m.clone();
        let st = ok(block(self.l().get_log_state()))?;
        ensure!(st.last_purged_log_id == m.purged, "purged position is {:?}, expected {:?}", st.last_purged_log_id, m.purged);
        ensure!(st.last_log_id == m.last(), "last log id is {:?}, expected {:?}", st.last_log_id, m.last());
        let v = ok(block(self.rd.as_mut().unwrap().read_vote()))?;
        let want = m.vote.map(|(t, c)| if c { openraft::Vote::new_committed(t, t % 3) } else { Vote::new(t, t % 3) });
        ensure!(v == want, "vote is {v:?}, expected {want:?}");
        let c = ok(block(self.l().read_committed()))?;
        let want = if T::COMMITTED { m.committed } else { None };
        ensure!(c == want, "committed position is {c:?}, expected {want:?}");
        let lo = m.purged.map(|l| l.index).unwrap_or(0);
        let hi = m.next() + 1;
        let ids: Vec<Lid> = m.log.iter().map(|(i, t)| lid(*t, *i)).collect();
        let eq = |es: &[Entry<T::C>], a: u64, b: u64, what: &str| -> Result<(), String> {
            let w: Vec<Lid> = ids.iter().filter(|l| l.index >= a && l.index < b).copied().collect();
            ensure!(
                es.len() == w.len() && es.iter().zip(&w).all(|(e, l)| same::<T>(e, l)),
                "reading {what} gives {:?}, expected {w:?}",
                es.iter().map(|e| e.log_id.to_string()).collect::<Vec<_>>()
            );
            Ok(())
        };
        let rd = self.rd.as_mut().unwrap();
        for a in lo..=hi {
            for b in a..=hi {
                eq(&ok(block(rd.try_get_log_entries(a..b)))?, a, b, &format!("{a}..{b}"))?;
            }
            eq(&ok(block(rd.try_get_log_entries(a..=a)))?, a, a + 1, &format!("{a}..={a}"))?;
            eq(&ok(block(rd.try_get_log_entries(a..)))?, a, u64::MAX, &format!("{a}.."))?;
            use std::ops::Bound::*;
            eq(&ok(block(rd.try_get_log_entries((Excluded(a), Unbounded))))?, a + 1, u64::MAX, &format!("after {a}"))?;
        }
        eq(&ok(block(rd.try_get_log_entries(..)))?, 0, u64::MAX, "everything")?;
        for l in &ids {
            let es = ok(block(rd.limited_get_log_entries(l.index, m.next())))?;
            ensure!(!es.is_empty() && same::<T>(&es[0], l), "limited read at {} gives {:?}", l, es.first().map(|e| e.log_id));
        }
        if !T::HAS_SM {
            return Ok(());
        }
        let (a, mb) = ok(block(self.s().applied_state()))?;
        ensure!(a == m.sm.applied, "applied position is {a:?}, expected {:?}", m.sm.applied);
        ensure!(mb == stored::<T>(m.sm.memb), "applied configuration is {mb:?}, expected {:?}", stored::<T>(m.sm.memb));
        let s = ok(block(self.s().get_current_snapshot()))?;
        let at = m.snap.as_ref().and_then(|s| s.0.applied);
        match (&s, &m.snap) {
            (None, None) => {}
            // The one being built may be there already.
            (Some(s), _) if m.building == 2 && s.meta.last_log_id >= at.max(m.built_from) && s.meta.last_log_id <= m.sm.applied && !m.snap.as_ref().map(|x| x.1 == s.meta.snapshot_id).unwrap_or(false) => {
                let Some(w) = self.seen.get(&s.meta.last_log_id) else { return Err(format!("current snapshot is {:?}, which is no state it was in", s.meta)) };
                let bytes = s.snapshot.get_ref().clone();
                self.check_snap(&s.meta, &bytes, w, "current")?;
            }
            (Some(s), Some((w, id))) => {
                let bytes = s.snapshot.get_ref().clone();
                self.check_snap(&s.meta, &bytes, w, "current")?;
                // Two of the same position: either.
                ensure!(&s.meta.snapshot_id == id, "current snapshot is {}, expected {id}", s.meta.snapshot_id);
                if let Some(b) = &self.snap_bytes {
                    ensure!(b == &bytes, "current snapshot differs from the one installed");
                }
            }
            _ => return Err(format!("current snapshot is {:?}, expected {:?}", s.map(|s| s.meta), m.snap)),
        }
        Ok(())
    }

    /// The data itself, through a last snapshot.
    fn finish(&mut self) -> Result<(), String> {
        if T::HAS_SM && self.m.building == 0 && self.m.sm.applied.is_some() {
            self.step(Build)?;
            self.check()?;
        }
        Ok(())
    }

    /// Killed inside an operation.
    fn kill_in(&mut self, n: u8, how: How, i: Inner) -> Result<(), String> {
        if i == Inner::Install && !self.m.unapplied().is_empty() {
            self.step(TruncAll)?;
        }
        let before = self.m.clone();
        let mut after = before.clone();
        let mut seen = self.seen.clone();
        let image = self.next_dir();
        let w = self.watch.clone().unwrap();
        let st = self.st.as_mut().unwrap();
        let done = match i {
            Inner::Append => {
                let (nx, t) = (before.next(), before.term.max(1));
                let ids: Vec<Lid> = (0..2).map(|i| lid(t, nx + i)).collect();
                let es: Vec<_> = ids.iter().map(|l| entry::<T>(*l)).collect();
                for l in &ids {
                    after.log.insert(l.index, l.leader_id.term);
                }
                fsx::arm(&w, n as u32, how, &image);
                ok(block(st.0.blocking_append(es)))
            }
            Inner::Trunc => {
                let u = before.unapplied();
                after.log.split_off(&u[0].index);
                fsx::arm(&w, n as u32, how, &image);
                ok(block(st.0.truncate(u[0])))
            }
            Inner::Vote => {
                let t = before.vote.map(|v| v.0).unwrap_or(0) + 1;
                after.vote = Some((t, false));
                fsx::arm(&w, n as u32, how, &image);
                ok(block(st.0.save_vote(&openraft::Vote::new(t, t % 3))))
            }
            Inner::Apply => {
                let u = before.unapplied();
                let es: Vec<_> = u.iter().map(|l| entry::<T>(*l)).collect();
                for l in &u {
                    apply_model(&mut after.sm, *l);
                    seen.insert(Some(*l), after.sm.clone());
                }
                fsx::arm(&w, n as u32, how, &image);
                ok(block(st.1.apply(es))).map(|_| ())
            }
            Inner::Build => {
                after.snap = Some((after.sm.clone(), String::new()));
                fsx::arm(&w, n as u32, how, &image);
                ok(block(async { st.1.get_snapshot_builder().await.build_snapshot().await })).map(|_| ())
            }
            Inner::Install => {
                let (sm, l) = before.ahead(2);
                let meta = SnapshotMeta { last_log_id: sm.applied, last_membership: stored::<T>(sm.memb), snapshot_id: format!("in-{l}") };
                let bytes = T::encode(sm.applied, stored::<T>(sm.memb), &sm.data);
                after.sm = sm.clone();
                after.snap = Some((sm.clone(), meta.snapshot_id.clone()));
                after.term = after.term.max(l.leader_id.term);
                seen.insert(Some(l), sm);
                fsx::arm(&w, n as u32, how, &image);
                ok(block(st.1.install_snapshot(&meta, Box::new(Cursor::new(bytes)))))
            }
            Inner::Purge => {
                let l = before.snap.as_ref().unwrap().0.applied.unwrap();
                after.purged = Some(l);
                after.log = after.log.split_off(&(l.index + 1));
                fsx::arm(&w, n as u32, how, &image);
                ok(block(st.0.purge(l)))
            }
        };
        let hit = fsx::disarm(&w);
        done?;
        self.seen = seen;
        if hit {
            self.kills_reached += 1;
        } else {
            self.m = after.clone();
            if matches!(i, Inner::Append | Inner::Trunc | Inner::Vote | Inner::Install) {
                self.durable();
            }
            fsx::image(&w, how, &image);
        }
        self.take_image();
        self.adopt(if hit { &before } else { &after }, &after, how, Some(i))
    }

    /// What is found has to be what was there before or after (each part of it), or between; then it is what is there.
    fn adopt(&mut self, before: &Model, after: &Model, how: How, i: Option<Inner>) -> Result<(), String> {
        let what = match i {
            Some(i) => format!("after {how:?} in {i:?}"),
            None => format!("after {how:?}"),
        };
        let all = ok(block(self.rd.as_mut().unwrap().try_get_log_entries(..)))?;
        let st = ok(block(self.l().get_log_state()))?;
        let x: BTreeMap<u64, u64> = all.iter().map(|e| (e.log_id.index, e.log_id.leader_id.term)).collect();
        for e in &all {
            ensure!(same::<T>(e, &e.log_id), "{what} entry {} is not what was stored", e.log_id);
        }
        let p = st.last_purged_log_id;
        let lo = if how == How::Power { self.dur.1 } else { before.purged };
        ensure!(p >= lo && p <= after.purged, "{what} the purged position is {p:?}, not between {lo:?} and {:?}", after.purged);
        // Above what is purged: one of the two, or a part of what was being added or removed.
        let above = |m: &BTreeMap<u64, u64>| -> BTreeMap<u64, u64> { m.range(after.purged.map(|l| l.index + 1).unwrap_or(0)..).map(|(a, b)| (*a, *b)).collect() };
        let (b, a, o) = (above(&before.log), above(&after.log), above(&x));
        let (small, big) = if b.len() < a.len() { (&b, &a) } else { (&a, &b) };
        ensure!(
            small.iter().all(|(k, v)| o.get(k) == Some(v)) && o.iter().all(|(k, v)| big.get(k) == Some(v)) && contiguous(&x.range(p.map(|l| l.index + 1).unwrap_or(0)..).map(|(a, b)| (*a, *b)).collect()),
            "{what} the log is {x:?} (purged {p:?}), before {:?}, after {:?}",
            before.log,
            after.log
        );
        // Between what is found purged and what had been purged, nothing is missing.
        let from = p.map(|l| l.index + 1).unwrap_or(0);
        let to = after.purged.map(|l| l.index + 1).unwrap_or(0);
        if from < to && !o.is_empty() {
            ensure!(x.contains_key(&from), "{what} the log {x:?} has a gap after the purged position {p:?}");
        }
        let v = ok(block(self.rd.as_mut().unwrap().read_vote()))?;
        let of = |m: &Model| m.vote.map(|(t, c)| if c { openraft::Vote::new_committed(t, t % 3) } else { Vote::new(t, t % 3) });
        ensure!(v == of(before) || v == of(after), "{what} the vote is {v:?}, before {:?}, after {:?}", before.vote, after.vote);
        let (ap, mb) = ok(block(self.s().applied_state()))?;
        let s = ok(block(self.s().get_current_snapshot()))?;
        let snap = s.as_ref().and_then(|s| s.meta.last_log_id);
        let of = |m: &Model| m.snap.as_ref().and_then(|s| s.0.applied);
        let lo = if how == How::Power { self.dur.0 } else { of(before) };
        ensure!(snap >= lo && snap <= of(after), "{what} the current snapshot is of {snap:?}, not between {lo:?} and {:?}", of(after));
        ensure!(ap >= p, "{what} what is purged ({p:?}) is not in the state machine ({ap:?}, snapshot {snap:?})");
        if let Some(s) = &s {
            let want = self.seen.get(&snap).cloned().unwrap_or_default();
            let bytes = s.snapshot.get_ref().clone();
            self.check_snap(&s.meta, &bytes, &want, &format!("{what} the current"))?;
        }
        let mut m = before.clone();
        m.building = 0;
        m.vote = v.map(|v| (v.leader_id().get_term(), v.is_committed()));
        m.term = after.term;
        m.log = x;
        m.purged = p;
        m.snap = s.as_ref().map(|s| (self.seen.get(&snap).cloned().unwrap_or_default(), s.meta.snapshot_id.clone()));
        self.snap_bytes = None;
        match T::PERSIST {
            Persist::Snapshot => {
                ensure!(ap == snap, "{what} the state machine is at {ap:?}, its snapshot at {snap:?}");
                m.sm = m.snap.as_ref().map(|s| s.0.clone()).unwrap_or_default();
                self.m = m;
            }
            _ => {
                ensure!(ap >= before.sm.applied && ap <= after.sm.applied, "{what} the applied position is {ap:?}, before {:?}, after {:?}", before.sm.applied, after.sm.applied);
                let w = self.seen.get(&ap).cloned().unwrap_or_default();
                // A later configuration does no harm: what it comes from is applied next.
                ensure!(
                    mb == stored::<T>(w.memb) || (ap < after.sm.applied && mb == stored::<T>(after.sm.memb)),
                    "{what} the state machine is at {ap:?} with configuration {mb:?}, expected {:?}",
                    w.memb
                );
                m.sm = w;
                self.m = m;
                // What was begun is done again; then everything has to be as if nothing had happened.
                if i == Some(Inner::Apply) && !self.m.unapplied().is_empty() {
                    return self.step(ApplyAll);
                }
                if i == Some(Inner::Install) && ap < after.sm.applied {
                    return self.step(Install(2));
                }
            }
        }
        // What was opened is durable.
        self.durable();
        Ok(())
    }
}
fn contiguous(x: &BTreeMap<u64, u64>) -> bool {
    let k: Vec<u64> = x.keys().copied().collect();
    k.windows(2).all(|w| w[0] + 1 == w[1])
}

// ------------------------------------------------------------------------------------------------ exploration

fn alphabet(p: Persist, sm: bool, holds: bool) -> Vec<Op> {
    let mut v = vec![Append(1), Append(2), AppendTerm, Trunc, TruncAll, Op::Vote, VoteCommit, Committed, Apply, ApplyAll];
    if sm {
        v.extend([Build, BuildGet, BuildStart, BuildEnd, Install(1), Install(2), Purge, PurgeOne]);
    } else {
        // A log store on its own: the snapshot is someone else's.
        v.extend([Build, Install(2), Purge, PurgeOne]);
    }
    if holds {
        v.push(BuildHold);
    }
    if p != Persist::Memory {
        v.extend([Reopen, Kill, Power]);
    }
    v
}
fn kills() -> Vec<Op> {
    let mut v = vec![];
    for i in [Inner::Append, Inner::Trunc, Inner::Vote, Inner::Apply, Inner::Build, Inner::Install, Inner::Purge] {
        for h in [How::Kill, How::Torn, How::Power] {
            for n in 1..=40 {
                v.push(KillIn(n, h, i));
            }
        }
    }
    v
}

/// The model alone: which sequences make sense.
fn model_step(m: &mut Model, op: Op, p: Persist) {
    match op {
        Append(k) => {
            let (n, t) = (m.next(), m.term.max(1));
            for i in 0..k as u64 {
                m.log.insert(n + i, t);
            }
        }
        AppendTerm => {
            m.term = m.term.max(m.last().map(|l| l.leader_id.term).unwrap_or(0)) + 1;
            model_step(m, Append(1), p);
        }
        Trunc | TruncAll => {
            let u = m.unapplied();
            let l = if op == Trunc { *u.last().unwrap() } else { u[0] };
            m.log.split_off(&l.index);
        }
        Op::Vote => m.vote = Some((m.vote.map(|v| v.0).unwrap_or(0) + 1, false)),
        VoteCommit => m.vote = m.vote.map(|v| (v.0, true)),
        Committed => m.committed = m.last(),
        Apply | ApplyAll => {
            let mut u = m.unapplied();
            if op == Apply {
                u.truncate(1);
            }
            for l in u {
                apply_model(&mut m.sm, l);
            }
        }
        Build => m.snap = Some((m.sm.clone(), String::new())),
        BuildGet => {
            m.building = 1;
            m.built_from = m.sm.applied;
        }
        BuildStart | BuildHold => m.building = 2,
        BuildEnd => {
            m.building = 0;
            if m.snap.as_ref().map(|s| s.0.applied <= m.built_from).unwrap_or(true) {
                m.snap = Some((m.sm.clone(), String::new()));
            }
        }
        Install(k) => {
            let (sm, l) = m.ahead(k as u64);
            if m.log.get(&l.index).map(|t| *t != l.leader_id.term).unwrap_or(false) {
                let u = m.unapplied();
                m.log.split_off(&u[0].index);
            }
            m.snap = Some((sm.clone(), String::new()));
            m.sm = sm;
            m.term = m.term.max(l.leader_id.term);
        }
        Purge => {
            let l = m.snap.as_ref().unwrap().0.applied.unwrap();
            m.log = m.log.split_off(&(l.index + 1));
            m.purged = Some(l);
        }
        PurgeOne => {
            let (i, t) = m.first().unwrap();
            if i <= m.snap.as_ref().unwrap().0.applied.unwrap().index {
                m.log = m.log.split_off(&(i + 1));
                m.purged = Some(lid(t, i));
            }
        }
        Reopen | Kill | Power | KillIn(..) => {
            m.building = 0;
            if p == Persist::Snapshot {
                m.sm = m.snap.as_ref().map(|s| s.0.clone()).unwrap_or_default();
            }
        }
    }
}

/// All sequences of exactly `depth` operations (shorter ones are their beginnings).
fn sequences(p: Persist, ops: &[Op], prefix: &[Op], depth: usize) -> Vec<Vec<Op>> {
    fn rec(m: &Model, p: Persist, ops: &[Op], depth: usize, cur: &mut Vec<Op>, out: &mut Vec<Vec<Op>>) {
        if depth == 0 {
            out.push(cur.clone());
            return;
        }
        let mut any = false;
        for o in ops {
            if !m.enabled(*o, p) || (matches!(o, Reopen | Kill | Power | Committed) && cur.last() == Some(o)) {
                continue;
            }
            any = true;
            let mut n = m.clone();
            model_step(&mut n, *o, p);
            cur.push(*o);
            rec(&n, p, ops, depth - 1, cur, out);
            cur.pop();
        }
        if !any {
            out.push(cur.clone());
        }
    }
    let mut m = Model::default();
    for o in prefix {
        assert!(m.enabled(*o, p), "{prefix:?}");
        model_step(&mut m, *o, p);
    }
    let mut out = vec![];
    rec(&m, p, ops, depth, &mut prefix.to_vec(), &mut out);
    out
}

/// One sequence per (state, operation) reachable within `depth`, states told apart by the model.
fn transitions(p: Persist, ops: &[Op], depth: usize, max: usize) -> (Vec<Vec<Op>>, usize) {
    let mut seen: HashSet<String> = HashSet::new();
    let mut out = vec![];
    let mut front = vec![(Model::default(), vec![])];
    seen.insert(format!("{:?}", Model::default()));
    'd: for _ in 0..depth {
        let mut next = vec![];
        for (m, q) in &front {
            for o in ops {
                if !m.enabled(*o, p) {
                    continue;
                }
                let mut n = m.clone();
                model_step(&mut n, *o, p);
                let mut t: Vec<Op> = q.clone();
                t.push(*o);
                out.push(t.clone());
                if out.len() >= max {
                    break 'd;
                }
                if seen.insert(format!("{n:?}")) {
                    next.push((n, t));
                }
            }
        }
        front = next;
    }
    (out, seen.len())
}

fn run_one<T: Sut>(dir: &Path, q: &[Op], trace: bool) -> (Result<(), String>, u64, u32) {
    let mut checks = 0;
    let mut kr = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut r = Run::<T>::new(dir.to_path_buf());
        let mut res = Ok(());
        for (i, o) in q.iter().enumerate() {
            if !r.m.enabled(*o, T::PERSIST) {
                continue;
            }
            res = r.step(*o).and_then(|_| r.check()).map_err(|e| format!("step {i} {o:?}: {e}"));
            checks += 1;
            if trace {
                println!("{o:?}: log {:?} purged {:?} vote {:?} sm {:?} snap {:?} -> {res:?}", r.m.log, r.m.purged, r.m.vote, r.m.sm, r.m.snap.as_ref().map(|s| (&s.0.applied, &s.1)));
            }
            if res.is_err() {
                break;
            }
        }
        if res.is_ok() {
            res = r.finish().map_err(|e| format!("at the end: {e}"));
        }
        kr = r.kills_reached;
        r.close();
        res
    }));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            Err(format!("panic: {}", m.unwrap_or_default()))
        }
    };
    (r, checks, kr)
}

struct Found {
    store: &'static str,
    stage: String,
    ops: Vec<Op>,
    msg: String,
}
#[derive(Default)]
struct Total {
    seqs: u64,
    steps: u64,
    kills: u64,
    states: usize,
    notes: Vec<Value>,
    samples: Vec<String>,
    shard: Option<(usize, usize)>,
}

/// The exploration of a store spread over processes.
fn sharded<T: Sut>(tier: &str, tot: &mut Total, found: &mut Vec<Found>) {
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(1, 16);
    let me = std::env::current_exe().unwrap();
    let kids: Vec<_> = (0..n)
        .map(|i| std::process::Command::new(&me).args(["shard", tier, &i.to_string(), &n.to_string()]).stdout(std::process::Stdio::piped()).spawn().unwrap())
        .collect();
    let outs: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = kids.into_iter().map(|k| s.spawn(move || k.wait_with_output().unwrap())).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut stages: Vec<Value> = vec![];
    for o in outs {
        if !o.status.success() {
            eprintln!("a process that explores {} ended with {}", T::NAME, o.status);
            std::process::exit(2);
        }
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
            if let Some(f) = v["found"].as_array() {
                if !found.iter().any(|x| x.store == T::NAME && x.stage == v["stage"]) {
                    found.push(Found { store: T::NAME, stage: v["stage"].as_str().unwrap().into(), ops: parse(f[0].as_str().unwrap()), msg: f[1].as_str().unwrap().into() });
                }
            }
            match stages.iter_mut().find(|s| s["stage"] == v["stage"]) {
                Some(s) => {
                    for k in ["sequences", "operations", "kills"] {
                        s[k] = json!(s[k].as_u64().unwrap() + v[k].as_u64().unwrap());
                    }
                    s["seconds"] = json!(s["seconds"].as_f64().unwrap().max(v["seconds"].as_f64().unwrap()));
                }
                None => stages.push(v),
            }
        }
    }
    for s in stages {
        let g = |k: &str| s[k].as_u64().unwrap();
        note::<T>(s["stage"].as_str().unwrap(), g("sequences"), g("operations"), g("kills"), g("states"), s["seconds"].as_f64().unwrap(), tot);
    }
}
fn note<T: Sut>(what: &str, done: u64, steps: u64, kills: u64, states: u64, secs: f64, tot: &mut Total) {
    println!("C23 {} {what}: {done} sequences, {steps} operations checked, {kills} cut off inside, {secs:.1}s", T::NAME);
    tot.seqs += done;
    tot.steps += steps;
    tot.kills += kills;
    tot.states += states as usize;
    tot.notes.push(json!({"store": T::NAME, "stage": what, "sequences": done, "operations": steps, "model_states": states, "cut_off_inside_operations": kills, "seconds": secs}));
}

fn explore<T: Sut>(what: &str, qs: Vec<Vec<Op>>, states: usize, tot: &mut Total, found: &mut Vec<Found>) {
    let t0 = Instant::now();
    let next = AtomicUsize::new(0);
    let steps = AtomicU64::new(0);
    let kills = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let fs: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(1, 16);
    let n = std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(n);
    // One database of sled in a process: several starve each other of the threads they share.
    let (n, qs) = match tot.shard {
        Some((i, of)) => (1, qs.into_iter().skip(i).step_by(of).collect()),
        None => (n, qs),
    };
    std::thread::scope(|s| {
        for w in 0..n {
            let (next, steps, kills, stop, fs, qs) = (&next, &steps, &kills, &stop, &fs, &qs);
            s.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= qs.len() || stop.load(Ordering::Relaxed) {
                    break;
                }
                let d = scratch().join(format!("{}-{w}", T::NAME));
                let (r, c, k) = run_one::<T>(&d, &qs[i], false);
                let _ = std::fs::remove_dir_all(&d);
                steps.fetch_add(c, Ordering::Relaxed);
                kills.fetch_add(k as u64, Ordering::Relaxed);
                if let Err(e) = r {
                    fs.lock().unwrap().push((i, e));
                    stop.store(true, Ordering::Relaxed);
                }
            });
        }
    });
    let done = next.load(Ordering::Relaxed).min(qs.len());
    let mut f = fs.into_inner().unwrap();
    f.sort();
    if tot.shard.is_some() {
        let found = f.first().map(|(i, e)| json!([qs[*i].iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(";"), e]));
        println!(
            "{}",
            json!({"stage": what, "sequences": done, "operations": steps.load(Ordering::Relaxed), "kills": kills.load(Ordering::Relaxed), "states": states, "found": found,
                "seconds": t0.elapsed().as_secs_f64()})
        );
        return;
    }
    note::<T>(what, done as u64, steps.load(Ordering::Relaxed), kills.load(Ordering::Relaxed), states as u64, t0.elapsed().as_secs_f64(), tot);
    if let Some(q) = qs.get(qs.len() / 2) {
        tot.samples.push(format!("{}: {q:?}", T::NAME));
    }
    if let Some((i, e)) = f.into_iter().next() {
        found.push(Found { store: T::NAME, stage: what.into(), ops: qs[i].clone(), msg: e });
    }
}

fn scratch() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() && std::fs::create_dir_all("/dev/shm/st-probe").is_ok() {
        let _ = std::fs::remove_dir("/dev/shm/st-probe");
        PathBuf::from("/dev/shm")
    } else {
        std::env::temp_dir()
    };
    base.join(format!("st-{}", std::process::id()))
}

fn parse(s: &str) -> Vec<Op> {
    let mut all = alphabet(Persist::State, true, true);
    all.extend(kills());
    s.split(';').filter(|x| !x.trim().is_empty()).map(|x| *all.iter().find(|o| format!("{o:?}") == x.trim()).unwrap_or_else(|| panic!("operation {x}"))).collect()
}

fn replay(store: &str, q: &[Op]) -> Result<(), String> {
    let d = scratch().join("replay");
    let r = match store {
        "memstore" => run_one::<Mem>(&d, q, true).0,
        "examples-memstore" => run_one::<ExMem>(&d, q, true).0,
        "rocksstore" => run_one::<Rocks>(&d, q, true).0,
        _ => run_one::<Sled>(&d, q, true).0,
    };
    let _ = std::fs::remove_dir_all(scratch());
    r
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        Some("one") => {
            println!("{:?}", replay(&a[2], &parse(&a[3])));
            return;
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let r = replay(v["store"].as_str().unwrap(), &parse(v["ops"].as_str().unwrap()));
            println!("{r:?}");
            std::process::exit(if r.is_ok() { 0 } else { 1 });
        }
        _ => {}
    }
    if a.get(1).map(|s| s == "shard").unwrap_or(false) {
        shard(a[2] == "quick", a[3].parse().unwrap(), a[4].parse().unwrap());
        let _ = std::fs::remove_dir_all(scratch());
        return;
    }
    let tier = a.iter().position(|x| x == "--tier").and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| "quick".into());
    let quick = tier == "quick";
    let t0 = Instant::now();
    let mut tot = Total::default();
    let mut found = vec![];
    all(quick, &mut tot, &mut found);
    let _ = std::fs::remove_dir_all(scratch());
    let root = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let mut vs = vec![];
    for (n, f) in found.iter().enumerate() {
        let ops = f.ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(";");
        let _ = std::fs::create_dir_all(root.join("out"));
        let p = root.join("out").join(format!("C23-{}-{n}.json", f.store));
        std::fs::write(&p, serde_json::to_string_pretty(&json!({"property": "C23", "store": f.store, "ops": ops, "message": f.msg})).unwrap()).unwrap();
        println!("{}: {ops}\n{}", f.store, f.msg);
        println!("VIOLATION property=C23 replay={}", p.display());
        vs.push(json!({"store": f.store, "ops": ops, "message": f.msg}));
    }
    let _ = std::fs::create_dir_all(root.join("evidence"));
    let ev = evidence(&tier, &tot, &vs, t0.elapsed().as_secs_f64());
    std::fs::write(root.join("evidence/C23.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    std::process::exit(if found.is_empty() { 0 } else { 1 });
}

fn all(quick: bool, tot: &mut Total, found: &mut Vec<Found>) {
    let only = std::env::var("ST_ONLY").unwrap_or_default();
    let on = |n: &str| only.is_empty() || only == n;
    if on("rocks") {
        store::<Rocks>(if quick { 4 } else { 5 }, if quick { 4_000 } else { 60_000 }, 8, tot, found);
    }
    if on("sled") {
        sharded::<Sled>(if quick { "quick" } else { "thorough" }, tot, found);
    }
    if on("mem") {
        store::<Mem>(if quick { 6 } else { 7 }, if quick { 40_000 } else { 1_000_000 }, 9, tot, found);
    }
    if on("exmem") {
        store::<ExMem>(if quick { 6 } else { 7 }, if quick { 20_000 } else { 500_000 }, 9, tot, found);
    }
}
fn shard(quick: bool, i: usize, n: usize) {
    let mut tot = Total { shard: Some((i, n)), ..Default::default() };
    store::<Sled>(if quick { 5 } else { 6 }, if quick { 20_000 } else { 60_000 }, 8, &mut tot, &mut vec![]);
}
fn store<T: Sut>(depth: usize, max: usize, deep: usize, tot: &mut Total, found: &mut Vec<Found>) {
    let ops = alphabet(T::PERSIST, T::HAS_SM, T::HOLDS);
    if T::PERSIST != Persist::Memory {
        kill_points::<T>(tot, found);
    }
    let (q, n) = transitions(T::PERSIST, &ops, deep, max);
    explore::<T>("every operation in every model state", q, n, tot, found);
    let q = sequences(T::PERSIST, &ops, &[], depth);
    explore::<T>(&format!("all sequences of {depth}"), q, 0, tot, found);
}
/// Each operation in several states, cut off at each of its file-system calls in each way.
fn kill_points<T: Sut>(tot: &mut Total, found: &mut Vec<Found>) {
    let pres = [
        vec![],
        vec![Append(2), Op::Vote, Apply],
        vec![Append(2), ApplyAll, Build, Append(2)],
        vec![Append(2), ApplyAll, Build, Append(2), ApplyAll],
        vec![Append(2), Install(2)],
        vec![Append(1), Apply, Install(2)],
        vec![Append(1), Apply, Install(2), Purge, Append(2), AppendTerm],
    ];
    let tails = [vec![Append(2), ApplyAll, Build, Purge, Power], vec![Install(2), Purge, Append(1), Reopen], vec![Power, Append(1)]];
    let inner = [Inner::Append, Inner::Trunc, Inner::Vote, Inner::Apply, Inner::Build, Inner::Install, Inner::Purge];
    let mut qs = vec![];
    for pre in &pres {
        let mut m = Model::default();
        pre.iter().for_each(|o| model_step(&mut m, *o, T::PERSIST));
        for i in inner {
            for how in [How::Kill, How::Torn, How::Power] {
                for n in 1..=40 {
                    let k = KillIn(n, how, i);
                    if !m.enabled(k, T::PERSIST) {
                        break;
                    }
                    let d = scratch().join(format!("{}-count", T::NAME));
                    let q = [pre.clone(), vec![k]].concat();
                    let (r, _, hit) = run_one::<T>(&d, &q, false);
                    let _ = std::fs::remove_dir_all(&d);
                    if r.is_err() {
                        qs.push(q);
                        break;
                    }
                    for t in &tails {
                        qs.push([q.clone(), t.clone()].concat());
                    }
                    if hit == 0 {
                        break;
                    }
                }
            }
        }
    }
    explore::<T>("cut off at every file-system call of an operation", qs, 0, tot, found);
}

fn evidence(tier: &str, tot: &Total, vs: &[Value], secs: f64) -> Value {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0);
    json!({
        "property": "C23", "tier": tier, "seed": seed, "level": "model_checking", "wall_s": secs, "violations": vs.len(),
        "coverage": {
            "states": tot.states,
            "transitions": tot.steps,
            "traces_validated_against_impl": tot.seqs,
            "samples": tot.samples,
            "exhaustive": true,
            "rule": "every sequence of storage operations up to the depth (and one to each operation in each state of the reference model), executed on the real store; after each operation everything observable is compared with the model. Persistent stores are cut off at every file-system call of an operation, by a kill, a torn write and a power failure, and opened again",
            "cut_off_inside_operations": tot.kills,
            "stages": tot.notes,
            "findings": vs
        },
        "assumptions": [
            "names of files are durable at once; of their contents a power failure leaves what was last synced",
            "rocksdb and sled themselves are taken as they are"
        ]
    })
}
