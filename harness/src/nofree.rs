//! No sequence of operations by one party, ending where it started, takes value from the others.

use crate::cy::{self, *};
use crate::gen::*;
use crate::hist;
use crate::model::*;
use crate::ops::*;
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use solana_program::pubkey::Pubkey;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Round {
    pub cfg: Cfg,
    /// what everybody does before
    pub ops: Vec<Op>,
    /// what the lone party does
    pub solo: Vec<Op>,
    pub end: u64,
    /// how often each of its operations is repeated: a gain of one unit shows when it adds up
    #[serde(default)]
    pub reps: u64,
}

fn times(reps: u64, i: usize) -> u64 {
    let x = reps >> (i % 8 * 8) & 255;
    match x % 8 {
        6 => 2 + x / 8 % 4,
        7 => 4 + x / 8,
        _ => 1,
    }
}

pub fn strategy() -> impl Strategy<Value = Round> {
    use K::*;
    let lead: Vec<_> = [Mint, Mint, Mint].iter().map(|k| { let k = *k; any::<[u64; 6]>().prop_map(move |a| Op { k, a }) }).collect();
    let before = mixw(&[(NftMint, 0), (NftInc, 0), (NftDec, 0), (NftCollect, 0), (NftMove, 0), (CloseTick, 0), (Donate, 0)]);
    let solo = only(&[(Mint, 8), (Burn, 5), (Collect, 3), (Swap, 12), (Single, 3), (Multi, 3), (Advance, 1), (NftMint, 2), (NftInc, 1), (NftDec, 2), (NftCollect, 2)]);
    (
        cfg_strategy((1, 2), &[], false),
        lead,
        proptest::collection::vec(op_strategy(&before), 0..8),
        proptest::collection::vec(op_strategy(&solo), 1..9),
        any::<u64>(),
        any::<u64>(),
    )
        .prop_map(|(cfg, lead, ops, solo, end, reps)| {
            let mut all = lead;
            all.extend(ops);
            Round { cfg, ops: all, solo, end, reps }
        })
}

fn holdings(w: &World, who: &Pubkey) -> Vec<u64> {
    w.keys.mints.iter().map(|m| w.balance(&ata(who, m))).collect()
}

/// what the others could withdraw at the present price
fn others(w: &World, me: &Pubkey) -> Vec<((usize, Pubkey, i32, i32), [u128; 2])> {
    let mut v = vec![];
    for (i, p) in w.pools.iter().enumerate() {
        let Some(c) = w.svm.data(&p.pk.addr()).and_then(Pool::read) else { continue };
        for k in p.pos.keys().filter(|k| k.0 != *me && k.0 != factory_pda().0) {
            if let Some(q) = w.svm.data(&p.pk.position(&k.0, k.1, k.2).0).and_then(Position::read) {
                let pr = principal(c.price, c.tick, k.1, k.2, q.liquidity);
                let pe = crate::attack::pending_on_chain(&w.svm, p, &c, k, &q);
                v.push((
                    (i, k.0, k.1, k.2),
                    [pr[0] as u128 + q.owed0 as u128 + pe[0] as u128, pr[1] as u128 + q.owed1 as u128 + pe[1] as u128],
                ));
            }
        }
    }
    v
}

/// Brings the price back to where it was. None when that is out of reach for this party.
fn restore(w: &mut World, me: Pubkey, pool: usize, price: u64) -> Option<()> {
    for _ in 0..60 {
        let now = w.pools[pool].price;
        if now == price {
            return Some(());
        }
        let zfo = price < now;
        let mut limit = price;
        let pl = w.plan_swap(pool, zfo, i64::MAX, limit, MAX_STEPS);
        if pl.v == Verdict::TooLong {
            limit = pl.price;
            if limit == now {
                return None;
            }
        }
        let b = w.b_swap(pool, me, zfo, i64::MAX, limit, cy::ID);
        if !w.perform(b) {
            return None;
        }
        if w.pools[pool].price == now {
            return None;
        }
    }
    None
}

fn leave(w: &mut World, me: Pubkey) -> Option<()> {
    for n in 0..w.nfts.len() {
        let l = w.nfts[n].p.liq;
        let (who, acct) = w.nft_holder(n)?;
        if l > 0 {
            let b = w.b_nft_dec(n, who, acct, l, [0, 0], NO_DEADLINE);
            if !w.perform(b) {
                return None;
            }
        }
        let r = w.recipients(w.nfts[n].pool, who);
        let b = w.b_nft_collect(n, who, acct, r, [u64::MAX, u64::MAX]);
        w.perform(b);
    }
    for pool in 0..w.pools.len() {
        for k in w.own_positions(pool).into_iter().filter(|k| k.0 == me) {
            let l = w.pools[pool].pos[&k].liq;
            for part in [l.min(i64::MAX as u64), l - l.min(i64::MAX as u64)] {
                if part > 0 {
                    let b = w.b_burn(pool, k.0, k.1, k.2, part);
                    if !w.perform(b) {
                        return None;
                    }
                }
            }
            let b = w.b_collect(pool, k.0, k.1, k.2, w.recipients(pool, k.0), [u64::MAX, u64::MAX]);
            if !w.perform(b) {
                return None;
            }
        }
    }
    Some(())
}

pub fn play(r: &Round, traced: bool) -> (World, Option<String>, bool) {
    let mut w = World::new(&r.cfg);
    if traced {
        w.trace_log = Some(vec![]);
    }
    w.no_whale = true;
    for op in &r.ops {
        if !hist::guarded(&mut w, |w| {
            w.apply(op);
        }) {
            return (w, None, false);
        }
    }
    let me = w.keys.users[N_USERS];
    let prices: Vec<u64> = w.pools.iter().map(|p| p.price).collect();
    let start = holdings(&w, &me);
    let theirs = others(&w, &me);
    w.solo = Some(me);
    let moved0 = w.stat("mint") + w.stat("swap") + w.stat("exact_input_single") + w.stat("exact_input") + w.stat("mint_tokenized_position");
    for (i, op) in r.solo.iter().enumerate() {
        for _ in 0..times(r.reps, i) {
            if !hist::guarded(&mut w, |w| {
                w.apply(op);
            }) {
                return (w, None, false);
            }
        }
    }
    let moved = w.stat("mint") + w.stat("swap") + w.stat("exact_input_single") + w.stat("exact_input") + w.stat("mint_tokenized_position") - moved0;
    let mut done = true;
    if !hist::guarded(&mut w, |w| {
        if r.end % 2 == 0 {
            done &= leave(w, me).is_some();
        }
        for (i, p) in prices.iter().enumerate() {
            done &= restore(w, me, i, *p).is_some();
        }
        if r.end % 2 == 1 {
            done &= leave(w, me).is_some();
        }
    }) {
        return (w, None, false);
    }
    if let Some(f) = hist::verdict(&w, "C05", 0) {
        return (w, Some(f), true);
    }
    if w.pools.iter().any(|p| p.wrapped) {
        w.note("inconclusive: fee growth beyond the range of its counter");
        return (w, None, false);
    }
    if !done {
        w.note("inconclusive: could not return to the start");
        return (w, None, false);
    }
    w.note("round trip completed");
    let end = holdings(&w, &me);
    for (i, (a, b)) in start.iter().zip(&end).enumerate() {
        if b > a {
            let m = format!("the lone party gained {} of token {} (from {} to {}) with all prices back where they were", b - a, i, a, b);
            return (w, Some(m), true);
        }
        if b < a {
            w.note("round trip cost something");
        }
    }
    for (k, was) in theirs {
        let now = others(&w, &me).into_iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or_default();
        if now[0] < was[0] || now[1] < was[1] {
            let m = format!("position {:?} could withdraw {:?} before and {:?} after, with all prices back where they were", k, was, now);
            return (w, Some(m), true);
        }
    }
    (w, None, moved > 0)
}

pub fn one(r: &Round) -> One {
    let (w, fail, nt) = play(r, false);
    let sample = json!({
        "before": r.ops.iter().map(|o| format!("{:?}", o.k)).collect::<Vec<_>>().join(" "),
        "lone party": r.solo.iter().map(|o| format!("{:?}", o.k)).collect::<Vec<_>>().join(" "),
        "outcomes": w.stats,
    });
    hist::finish(w, "C05", fail, nt, sample)
}

pub fn check(cx: &Ctx, total: u64) -> Cover {
    search(cx, "lone party", total, strategy, one)
}

