//! Generators for histories.

use crate::world::*;
use proptest::prelude::*;

pub struct Profile {
    pub id: &'static str,
    pub weights: Vec<(K, u32)>,
    pub len: (usize, usize),
    pub pools: (usize, usize),
    /// leading deposits, so that the pools are not empty
    pub lead: Vec<K>,
    pub drain: bool,
    /// restrict price modes / tiers
    pub price_modes: Vec<u64>,
    pub rule: &'static str,
    /// unusual fee tiers and spacings as often as usual ones
    pub exotic: bool,
    pub nontrivial: fn(&World) -> bool,
}

pub fn base() -> Vec<(K, u32)> {
    use K::*;
    vec![
        (Advance, 6),
        (Swap, 16),
        (Mint, 12),
        (Burn, 7),
        (Collect, 4),
        (Single, 3),
        (Multi, 2),
        (NftMint, 3),
        (NftInc, 2),
        (NftDec, 3),
        (NftCollect, 3),
        (NftMove, 1),
        (Card, 1),
        (SetFeeProto, 1),
        (CollectProto, 1),
        (CloseTick, 1),
        (Donate, 1),
    ]
}

pub fn mixw(over: &[(K, u32)]) -> Vec<(K, u32)> {
    let mut v = base();
    for (k, n) in over {
        match v.iter_mut().find(|x| x.0 == *k) {
            Some(e) => e.1 = *n,
            None => v.push((*k, *n)),
        }
    }
    v.retain(|x| x.1 > 0);
    v
}

pub fn only(v: &[(K, u32)]) -> Vec<(K, u32)> {
    v.to_vec()
}

pub fn op_strategy(weights: &[(K, u32)]) -> impl Strategy<Value = Op> + Clone {
    let mut table = vec![];
    for (k, n) in weights {
        for _ in 0..*n {
            table.push(*k);
        }
    }
    (0..table.len(), any::<[u64; 6]>()).prop_map(move |(i, a)| Op { k: table[i], a })
}

pub fn cfg_strategy(pools: (usize, usize), modes: &[u64], exotic: bool) -> impl Strategy<Value = Cfg> {
    let modes = modes.to_vec();
    let pool = (any::<u64>(), any::<u64>(), any::<u64>()).prop_map(move |(t, m, v)| {
        let mode = if modes.is_empty() { m } else { modes[m as usize % modes.len()] };
        // common tiers more often than exotic ones
        let tier = if t % 3 == 0 || exotic { (t >> 8) << 8 | (t >> 32) % 12 } else { (t >> 8) << 8 | (t >> 32) % 4 };
        [tier, mode, v]
    });
    (proptest::collection::vec(pool, pools.0..=pools.1), any::<u64>(), any::<u64>())
        .prop_map(|(pools, clock, fee_protocol)| Cfg { pools, clock, fee_protocol })
}

pub fn case_strategy(p: &Profile) -> impl Strategy<Value = Case> {
    let lead: Vec<_> = p
        .lead
        .iter()
        .map(|k| {
            let k = *k;
            any::<[u64; 6]>().prop_map(move |a| Op { k, a })
        })
        .collect();
    (cfg_strategy(p.pools, &p.price_modes, p.exotic), lead, proptest::collection::vec(op_strategy(&p.weights), p.len.0..=p.len.1)).prop_map(
        |(cfg, lead, ops)| {
            let mut all = lead;
            all.extend(ops);
            Case { cfg, ops: all }
        },
    )
}
