//! The openraft type configuration the checker instantiates, and small helpers.

use std::collections::BTreeSet;
use std::fmt;
use std::io::Cursor;

use openraft::{EntryPayload, LogId, Membership, RaftTypeConfig, Vote};

use crate::rt::McRt;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Req {
    pub id: u32,
}
impl fmt::Display for Req {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "w{}", self.id)
    }
}
/// Reply of the state machine: which request, and how many requests had been applied including it.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Resp {
    pub id: u32,
    pub pos: u32,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, PartialOrd, Ord)]
pub struct Addr(pub u32);
impl fmt::Display for Addr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "a{}", self.0)
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct C;

impl RaftTypeConfig for C {
    type D = Req;
    type R = Resp;
    type NodeId = u64;
    type Node = Addr;
    type Entry = openraft::Entry<C>;
    type SnapshotData = Cursor<Vec<u8>>;
    type AsyncRuntime = McRt;
    type Responder = openraft::impls::OneshotResponder<C>;
}

pub type Nid = u64;
pub type Lid = LogId<u64>;
pub type Vt = Vote<u64>;
pub type Ent = openraft::Entry<C>;
pub type Raft = openraft::Raft<C>;
pub type Memb = Membership<C>;

/// Hashable log id: (term, leader node (0 in single-term mode), index).
pub type LKey = (u64, u64, u64);

pub fn lkey(l: &Lid) -> LKey {
    #[cfg(feature = "single-term")]
    {
        (l.leader_id.term, 0, l.index)
    }
    #[cfg(not(feature = "single-term"))]
    {
        (l.leader_id.term, l.leader_id.node_id, l.index)
    }
}
/// Hashable vote: (term, node + 1 or 0, committed).
pub fn vkey(v: &Vt) -> (u64, u64, bool) {
    (v.leader_id().get_term(), v.leader_id().voted_for().map(|n| n + 1).unwrap_or(0), v.is_committed())
}
/// The part of a vote that identifies leadership: its term and node.
pub fn leader_of(v: &Vt) -> (u64, u64) {
    (v.leader_id().get_term(), v.leader_id().voted_for().unwrap_or(0))
}
/// Does the log id belong to the leadership of vote `v`?
pub fn same_leadership(l: &Lid, v: &Vt) -> bool {
    let k = lkey(l);
    let (t, _n) = leader_of(v);
    #[cfg(feature = "single-term")]
    {
        k.0 == t
    }
    #[cfg(not(feature = "single-term"))]
    {
        k.0 == t && k.1 == _n
    }
}

pub fn h64<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn memb_digest(m: &Memb) -> u64 {
    let nodes: Vec<(u64, u32)> = m.nodes().map(|(a, b)| (*a, b.0)).collect();
    h64(&(m.get_joint_config(), nodes))
}

pub fn payload_digest(e: &Ent) -> u64 {
    match &e.payload {
        EntryPayload::Blank => 1,
        EntryPayload::Normal(r) => h64(&(2u8, r.id)),
        EntryPayload::Membership(m) => h64(&(3u8, memb_digest(m))),
    }
}

/// `set` contains a strict majority of every voter set of the configuration.
pub fn is_quorum(joint: &[BTreeSet<u64>], set: &BTreeSet<u64>) -> bool {
    joint.iter().all(|c| {
        let k = c.iter().filter(|x| set.contains(x)).count();
        2 * k > c.len()
    })
}

/// Every quorum of `a` intersects every quorum of `b` (decided by enumerating all subsets).
pub fn quorums_intersect(a: &[BTreeSet<u64>], b: &[BTreeSet<u64>]) -> bool {
    let all: Vec<u64> = a.iter().chain(b.iter()).flatten().copied().collect::<BTreeSet<_>>().into_iter().collect();
    let n = all.len();
    for m in 0u32..(1 << n) {
        let s: BTreeSet<u64> = (0..n).filter(|i| m >> i & 1 == 1).map(|i| all[i]).collect();
        if !is_quorum(a, &s) {
            continue;
        }
        // The complement of s must not be a quorum of b.
        let c: BTreeSet<u64> = all.iter().copied().filter(|x| !s.contains(x)).collect();
        if is_quorum(b, &c) {
            return false;
        }
    }
    true
}
