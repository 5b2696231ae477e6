//! What a node does by itself: elections, heartbeats and snapshots follow its switches and its configuration (C24).

use openraft::raft::VoteResponse;
use openraft::ServerState;

use crate::exec::{EL_MAX, EL_MIN, HB};
use crate::rt;
use crate::types::*;
use crate::world::*;

const MS: u64 = 1_000_000;
/// A tick comes every one and a half heartbeat intervals.
const TICK: u64 = HB * 3 / 2;
/// No voter stays silent longer: lease, election timeout, the delay for having seen a greater log, two ticks.
const MUST_ELECT: u64 = EL_MAX + EL_MAX + 2 * EL_MAX + 2 * TICK + 1;
/// A leader lets nobody wait longer: the tick after the next heartbeat is due, and an unanswered one before it.
const MUST_BEAT: u64 = 2 * TICK + HB + 1;

pub fn fresh(now: u64) -> Timing {
    Timing { started: now, last_in: now, quiet: ((0, 0), now + EL_MIN * MS), ..Default::default() }
}

impl World {
    pub fn held_up(&mut self) {
        self.blocked_at = rt::now();
        self.blocked_n += 1;
    }

    pub fn switched(&mut self, n: u64, hb: bool, elect: bool) {
        let now = rt::now();
        let t = &mut self.node(n).tm;
        t.hb_on = if hb { Some(t.hb_on.unwrap_or(now)) } else { None };
        t.elect_on = if elect { Some(t.elect_on.unwrap_or(now)) } else { None };
    }
    pub fn ticking(&mut self, n: u64, on: bool) {
        let now = rt::now();
        let t = &mut self.node(n).tm;
        t.tick_off = !on;
        t.tick_at = now;
    }

    /// Node `n` accepted a message of, or granted its vote to, the leadership of `v`.
    pub fn heard(&mut self, n: u64, v: &Vt, started: u64, leader: bool) {
        let lease = self.lease_ns;
        let x = self.node(n);
        let l = leader_of(v);
        if !x.up || x.vvote.map(|o| leader_of(&o)) != Some(l) {
            return;
        }
        let off = x.lease_off == Some(l);
        let t = started + EL_MIN * MS + if leader && !off { lease } else { 0 };
        if x.tm.quiet.0 == l {
            // What a transfer gave up stays given up.
            if !off {
                x.tm.quiet.1 = x.tm.quiet.1.max(t);
            }
        } else {
            x.tm.quiet = (l, t);
        }
    }

    /// The answer to a vote request reached the candidate.
    pub fn on_vote_answer(&mut self, n: u64, asked: &Vt, r: &VoteResponse<C>) {
        if self.nodes[&n].vvote != Some(*asked) {
            return;
        }
        if !r.vote_granted && r.vote <= *asked && r.last_log_id > self.last_lid(n) {
            self.node(n).tm.greater = true;
        }
    }

    /// Node `n` is about to store vote `v`.
    pub fn on_vote_timing(&mut self, n: u64, v: &Vt) {
        let now = rt::now();
        let l = leader_of(v);
        let old = self.nodes[&n].vvote;
        if l.1 != n {
            let t = &mut self.node(n).tm;
            t.greater = false;
            if t.quiet.0 != l {
                t.quiet = (l, 0);
            }
            return;
        }
        if v.is_committed() {
            let t = &mut self.node(n).tm;
            t.lead = now;
            t.greater = false;
            return;
        }
        if old.map(|o| leader_of(&o) == l).unwrap_or(false) {
            return;
        }
        // An election of its own.
        let late = self.blocked_at == now || self.nodes[&n].ioq.iter().any(|io| io.hold.is_some());
        let joint = self.effective(n).map(|(_, m)| m.get_joint_config().clone()).unwrap_or_default();
        let voter = joint.iter().any(|c| c.contains(&n));
        let sole = {
            let all: std::collections::BTreeSet<u64> = joint.iter().flatten().copied().collect();
            all.len() == 1
        };
        let t = self.nodes[&n].tm.clone();
        let due = t.quiet.1 + if t.greater { 2 * EL_MAX * MS } else { 0 };
        let timed = voter && t.elect_on.is_some() && (sole || now >= due) && (!t.tick_off || self.blocked_at >= t.tick_at);
        if !timed {
            if t.xfer {
                self.node(n).tm.xfer = false;
            } else if t.permits > 0 {
                self.node(n).tm.permits -= 1;
            } else {
                let why = if !voter {
                    "it is no voter".to_string()
                } else if t.elect_on.is_none() {
                    "its elections are switched off".to_string()
                } else if t.tick_off {
                    "its clock is switched off".to_string()
                } else {
                    format!("it has to wait {}us more", (due - now) / 1000)
                };
                self.viol("C24", format!("node {n} starts election {v} though nobody asked it to and {why}"));
            }
        }
        let t = &mut self.node(n).tm;
        t.campaign = now;
        t.greater = false;
        // What is stored late was decided earlier.
        t.quiet = (l, if late { 0 } else { now + EL_MIN * MS });
    }

    pub fn on_build(&mut self, n: u64) {
        let logs = self.snap_logs;
        let committed = self.g.commits.keys().next_back().map(|i| i + 1).unwrap_or(0);
        let x = &self.nodes[&n];
        if x.raft.is_none() {
            // A snapshot lost while the log it covered is gone is built anew on startup.
            return;
        }
        let from = x.snap.as_ref().and_then(|s| s.meta.last_log_id).map(|l| l.index + 1).unwrap_or(0);
        let due = logs.map(|k| committed >= from + k).unwrap_or(false);
        let ok = due || x.tm.snap_permits > 0;
        let x = self.node(n);
        x.tm.builds += 1;
        if !due {
            x.tm.snap_permits = x.tm.snap_permits.saturating_sub(1);
        }
        if !ok {
            self.viol(
                "C24",
                format!("node {n} builds a snapshot nobody asked for: {} entries since the last, policy {logs:?}", committed - from.min(committed)),
            );
        }
    }

    /// At a quiet point: who had to act by now has acted.
    pub fn check_timing(&mut self) {
        let now = rt::now();
        let busy = !self.gates.is_empty() || self.nodes.values().any(|x| !x.ioq.is_empty());
        if busy {
            self.held_up();
        }
        let ids: Vec<u64> = self.nodes.keys().copied().collect();
        for n in ids {
            let x = &self.nodes[&n];
            let Some(core) = x.core.clone() else { continue };
            if !x.up || x.raft.is_none() || x.failed || x.cb_failed || x.shut {
                continue;
            }
            let t = x.tm.clone();
            let since = |at: u64, ms: u64| at + ms * MS <= now;
            let calm = |ms: u64| since(self.blocked_at, ms) && since(t.started, ms);
            let ticks = |ms: u64| !t.tick_off && since(t.tick_at, ms);
            let mut bad = vec![];
            // Elections.
            let voters: std::collections::BTreeSet<u64> = core.eff.1.get_joint_config().iter().flatten().copied().collect();
            let must = if voters.len() == 1 { 2 * TICK + 1 } else { MUST_ELECT };
            if core.state != ServerState::Leader && voters.contains(&n) {
                let on = t.elect_on.map(|a| since(a, must)).unwrap_or(false);
                if on && calm(must) && ticks(must) && since(t.last_in, must) && since(t.campaign, must) && since(t.memb, must) {
                    bad.push(format!("node {n}, a voter, has heard nothing for {}ms and started no election", (now - t.last_in) / MS));
                }
            }
            // Heartbeats.
            if core.state == ServerState::Leader {
                let on = t.hb_on.map(|a| since(a, MUST_BEAT)).unwrap_or(false);
                if on && calm(MUST_BEAT) && ticks(MUST_BEAT) && since(t.lead, MUST_BEAT) && since(t.memb, MUST_BEAT) {
                    for (m, _) in core.eff.1.nodes() {
                        let at = t.sent.get(m).copied().unwrap_or(0);
                        if *m != n && since(at, MUST_BEAT) {
                            bad.push(format!("leader {n} has sent nothing to {m} for {}ms", (now - at) / MS));
                        }
                    }
                }
            }
            // Snapshots.
            let com = core.committed.map(|l| l.index);
            if let (Some(k), Some((c0, b0, inc0, n0))) = (self.snap_logs, t.before) {
                let next = com.map(|i| i + 1).unwrap_or(0);
                let from = core.snap.map(|l| l.index + 1).unwrap_or(0);
                if com > c0 && next >= from + k && t.builds == b0 && inc0 == x.inc && n0 == self.blocked_n {
                    bad.push(format!("node {n} committed up to {next}, its snapshot covers {from}, policy {k}: it builds none"));
                }
            }
            let (inc, bn) = (x.inc, self.blocked_n);
            let y = self.node(n);
            y.tm.before = Some((com, t.builds, inc, bn));
            if !busy {
                y.tm.permits = 0;
                y.tm.snap_permits = 0;
            }
            for b in bad {
                self.viol("C24", b);
            }
        }
    }

    fn untouched(&self) -> bool {
        self.dev.is_empty() && self.dev_next == 0
    }

    pub fn check_quiet(&mut self, n: u64, from: u64) {
        if !self.untouched() {
            return;
        }
        let sent = self.nodes[&n].tm.sent.clone();
        for (m, t) in sent {
            if t > from {
                self.viol("C24", format!("node {n} sends to {m} by itself, its switches are off"));
            }
        }
    }

    /// Everybody up, connected, following one leader, its switches on, nothing under way: who leads.
    pub fn calm(&self) -> Option<(u64, Vt)> {
        if !self.cut.is_empty() || !self.mute.is_empty() || !self.gates.is_empty() {
            return None;
        }
        let mut vs: Vec<Option<Vt>> = vec![];
        for x in self.nodes.values() {
            if !x.up || x.raft.is_none() || x.failed || x.cb_failed || x.shut || !x.ioq.is_empty() || x.tm.tick_off {
                return None;
            }
            vs.push(x.vvote);
        }
        let v = vs[0]?;
        if !v.is_committed() || vs.iter().any(|x| *x != Some(v)) {
            return None;
        }
        let l = leader_of(&v).1;
        let x = &self.nodes[&l];
        let hb = x.tm.hb_on.is_some();
        let core = x.core.as_ref()?;
        if !hb || core.state != ServerState::Leader || core.vote != v {
            return None;
        }
        let members: Vec<u64> = core.eff.1.nodes().map(|(a, _)| *a).collect();
        // Followers heard it a moment ago.
        let now = rt::now();
        for x in self.nodes.values() {
            if x.id != l && (!members.contains(&x.id) || x.tm.last_in + TICK * MS < now || x.tm.started + EL_MAX * MS > now) {
                return None;
            }
        }
        Some((l, v))
    }

    pub fn check_stable(&mut self, before: Option<(u64, Vt)>) {
        let Some((l, v)) = before else { return };
        // One message lost or late makes no difference; a crash or a slow disk may.
        let op = self.op;
        let odd = self.trace.iter().filter(|c| c.op == op && c.fate != F::Go).count();
        let io = self.trace.iter().any(|c| {
            c.op == op
                && c.fate != F::Go
                && !matches!(c.kind, K::AeReq | K::AeRep | K::SnapReq | K::SnapRep | K::VoteReq | K::VoteRep)
        });
        if odd > 1 || io || self.nodes.values().any(|x| !x.up) {
            return;
        }
        for n in self.nodes.keys().copied().collect::<Vec<_>>() {
            let now = self.nodes[&n].vvote;
            if now != Some(v) {
                self.viol("C24", format!("node {n} went from vote {v} to {now:?} while leader {l} was up and connected"));
            }
        }
    }
}
