//! One module per group of properties.

use crate::ctx::*;
use crate::rng::Rng;

pub mod blocks;
pub mod damage;
pub mod extra;
pub mod index;
pub mod live;
pub mod read;
pub mod stream;
pub mod util;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub shards: u64,
    pub quick_s: u64,
    pub thorough_s: u64,
    pub mem_cap: usize,
    /// Least number of observed events for a verdict "held".
    pub minima: &'static [(&'static str, u64)],
    pub directed: fn(Tier) -> u64,
    pub run: fn(&mut Ctx, u64, &mut Rng) -> R,
}

pub const BASE: Prop = Prop {
    id: "",
    level: "exploration",
    rule: "",
    assumptions: &["The harness's own encoder (protobuf wire format, deflate) and model describe the format correctly."],
    shards: 8,
    quick_s: 14,
    thorough_s: 420,
    mem_cap: 3 << 30,
    minima: &[("evaluations", 20)],
    directed: |_| 0,
    run: |_, _, _| Ok(()),
};

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(blocks::props());
    v.extend(stream::props());
    v.extend(read::props());
    v.extend(index::props());
    v.extend(damage::props());
    v.extend(extra::props());
    v.extend(live::props());
    v.sort_by_key(|p| p.id);
    v
}
