//! Parts of the code on their own, over every shape of their input up to a size:
//! what a node makes of its stores when it starts, its list of log ids, the search for where a follower is.

use crate::arith::Extra;

#[cfg(not(openraft_mc))]
mod all {
    use super::Extra;
    fn none(name: &'static str) -> Vec<Extra> {
        let mut e = Extra::new(name, "not run");
        e.note = Some("the tree does not build with cfg(openraft_mc): this enumeration is skipped".into());
        vec![e]
    }
    pub fn starts(_q: bool) -> Vec<Extra> {
        none("starts")
    }
    pub fn lists(_q: bool) -> Vec<Extra> {
        none("log id lists")
    }
    pub fn searches(_q: bool) -> Vec<Extra> {
        none("searches")
    }
}

#[cfg(openraft_mc)]
#[path = "parts_hooked.rs"]
mod all;

pub use all::{lists, searches, starts};
