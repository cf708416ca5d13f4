//! The properties and how each of them is searched.

use crate::gen::*;
use crate::hist;
use crate::nofree;
use crate::pure;
use crate::runner::*;
use crate::world::*;
use serde_json::Value;

pub const IDS: [&str; 27] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27",
];

pub fn id_static(id: &str) -> Option<&'static str> {
    IDS.iter().find(|x| **x == id).copied()
}

/// Whether C22 to C27 cannot call the library functions and look at them through instructions.
pub fn indirect(id: &str) -> bool {
    !cfg!(feature = "pure") && id >= "C22"
}

/// The properties of histories that show a wrong result of the arithmetic.
pub const ARITHMETIC: [&str; 4] = ["C02", "C03", "C04", "C21"];

pub fn profile(id: &'static str) -> Option<Profile> {
    use K::*;
    if indirect(id) {
        let mut p = profile("C04")?;
        p.id = id;
        return Some(p);
    }
    let mut p = Profile {
        id,
        weights: base(),
        len: (4, 28),
        pools: (1, 2),
        lead: vec![Mint, Mint],
        drain: false,
        price_modes: vec![],
        rule: "",
        exotic: false,
        nontrivial: |w| w.stat("swap") + w.stat("exact_input_single") + w.stat("exact_input") > 0 && w.stat("mint") > 0,
    };
    const HIGH: &[u64] = &[0, 2, 4, 4, 5, 6, 6, 7];
    match id {
        "C01" => {
            p.weights = mixw(&[(MintBig, 2), (SwapBig, 2)]);
            p.drain = true;
            p.rule = "the history has an accepted deposit and an accepted swap, and ends with everybody withdrawing";
        }
        "C02" => {
            p.weights = mixw(&[(Mint, 18), (Burn, 14), (Swap, 16), (Advance, 2), (CloseTick, 2), (NftDec, 4), (MintBig, 1), (SwapBig, 1)]);
            p.len = (6, 32);
            p.rule = "the history has deposits and withdrawals and at least one crossing of an initialised tick";
            p.nontrivial = |w| w.stat("mint") > 0 && w.stat("burn") + w.stat("decrease_liquidity") > 0 && w.stat("ticks crossed") > 0;
        }
        "C03" => {
            p.weights = mixw(&[(Swap, 30), (Single, 6), (Multi, 3), (Mint, 8), (Burn, 4), (CustomSwap, 2)]);
            p.price_modes = HIGH.to_vec();
            p.rule = "the price moved at least twice";
            p.nontrivial = |w| w.stat("swap") + w.stat("exact_input_single") + w.stat("exact_input") >= 2;
        }
        "C04" => {
            p.weights = mixw(&[(Swap, 34), (Single, 8), (Multi, 2), (Mint, 9), (Burn, 4), (SetFeeProto, 2), (MintBig, 5), (SwapBig, 8)]);
            p.price_modes = HIGH.to_vec();
            p.exotic = true;
            p.rule = "at least two accepted swaps, one of which crossed an initialised tick";
            p.nontrivial = |w| w.stat("swap") + w.stat("exact_input_single") >= 2 && w.stat("ticks crossed") > 0;
        }
        "C06" => {
            p.weights = mixw(&[(Swap, 22), (Mint, 14), (Burn, 10), (Collect, 8), (NftMint, 4), (NftDec, 4), (NftCollect, 4), (SetFeeProto, 2), (Advance, 2)]);
            p.len = (8, 34);
            p.drain = true;
            p.lead = vec![Mint, Mint, Mint];
            p.rule = "at least three swaps earned fees and positions of at least two ranges exist";
            p.nontrivial = |w| w.stat("swaps that earned fees") >= 3 && w.pools.iter().any(|p| p.pos.len() >= 2);
        }
        "C07" => {
            p.weights = mixw(&[(Advance, 26), (Card, 8), (Swap, 20), (Mint, 10), (Burn, 8), (NftMint, 2), (CloseTick, 0), (Donate, 0)]);
            p.len = (8, 40);
            p.rule = "the capacity was increased and observations were written to at least two slots";
            p.nontrivial = |w| w.stat("increase_observation_cardinality_next") > 0 && w.pools.iter().any(|p| p.obs.slots.iter().filter(|s| s.init).count() >= 2);
        }
        "C08" => {
            p.weights = only(&[(Advance, 22), (Swap, 22), (Mint, 8), (Burn, 4), (Snapshot, 26), (Card, 3), (Single, 2), (NftMint, 1)]);
            p.len = (10, 44);
            p.pools = (1, 1);
            p.rule = "a pair of snapshots was compared between which the price was inside of the range for a part of the time";
            p.nontrivial = |w| w.stat("snapshot pair: partly inside") > 0;
        }
        "C09" => {
            p.weights = mixw(&[(AttackAdmin, 30), (SetOwner, 8), (SetFeeProto, 6), (CollectProto, 6), (EnableFee, 4), (InitFactory, 3), (CreatePool, 1)]);
            p.lead = vec![Mint, Swap];
            p.rule = "an administrative action of the owner was accepted and an unauthorised one was tried";
            p.nontrivial = |w| {
                w.stats.keys().any(|k| k.starts_with("admin attack"))
                    && w.stat("set_owner") + w.stat("set_fee_protocol") + w.stat("collect_protocol") + w.stat("enable_fee_amount") > 0
            };
        }
        "C10" => {
            p.weights = mixw(&[(AttackAuth, 40), (NftMint, 6), (NftMove, 5), (NftDec, 6), (NftCollect, 5), (CloseTick, 0)]);
            p.lead = vec![Mint, NftMint, NftMint];
            p.rule = "an action in the name of somebody else was tried on a state where the honest action is accepted";
            p.nontrivial = |w| w.stats.keys().any(|k| k.starts_with("attack on"));
        }
        "C11" => {
            p.weights = mixw(&[(AttackSub, 60), (NftMint, 4), (Card, 2), (Donate, 0)]);
            p.pools = (2, 3);
            p.lead = vec![Mint, Mint, NftMint, NftMint, Swap];
            p.rule = "a transaction that is valid as it stands was run with at least one account replaced";
            p.nontrivial = |w| w.stats.keys().any(|k| k.starts_with("substitution"));
        }
        "C12" => {
            p.weights = mixw(&[(NftMint, 12), (NftInc, 10), (NftDec, 16), (NftCollect, 14), (NftMove, 3), (Swap, 18), (Mint, 4), (Burn, 2), (CloseTick, 2)]);
            p.lead = vec![NftMint, NftMint, Mint];
            p.len = (8, 34);
            p.drain = true;
            p.rule = "a position NFT was minted, changed and paid out, with fees earned in between";
            p.nontrivial = |w| w.stat("mint_tokenized_position") > 0 && w.stat("decrease_liquidity") > 0 && w.stat("swaps that earned fees") > 0;
        }
        "C13" => {
            p.weights = only(&[(NftMint, 14), (Meta, 10), (NftMove, 6), (NftInc, 3), (NftDec, 4), (NftCollect, 2), (Swap, 3), (Mint, 2), (NftAgain, 8)]);
            p.lead = vec![NftMint];
            p.rule = "an NFT was minted and metadata was attached or a second mint of the same NFT was tried";
            p.nontrivial = |w| w.stat("mint_tokenized_position") > 0 && w.stat("add_metaplex_metadata") + w.stat("refused: NFT exists") > 0;
        }
        "C14" => {
            p.weights = mixw(&[(CustomMint, 22), (CustomSwap, 22), (LockedProbe, 26), (Swap, 8), (Mint, 8), (NftMint, 6), (CloseTick, 0)]);
            p.lead = vec![Mint, Mint];
            p.rule = "a callback paid too little, or an operation was tried on a locked pool";
            p.nontrivial = |w| w.stat("custom: underpaid") > 0 || w.stats.keys().any(|k| k.starts_with("locked:"));
        }
        "C15" => {
            p.weights = only(&[(CreatePool, 14), (EnableFee, 12), (InitTick, 12), (InitBitmap, 12), (InitPos, 12), (InitFactory, 6), (Mint, 8), (Swap, 6), (NftMint, 2), (CloseTick, 2), (Card, 2), (SetOwner, 1)]);
            p.len = (6, 36);
            p.lead = vec![Mint];
            p.rule = "something was created and something invalid or already existing was refused";
            p.nontrivial = |w| {
                w.stat("create_and_init_pool") + w.stat("init_tick_account") > 0
                    && w.stats.keys().any(|k| k.starts_with("refused: exists") || k.starts_with("refused: invalid") || k.contains("out of range") || k.starts_with("refused: already") || k.starts_with("refused: no tick"))
            };
        }
        "C16" => {
            p.weights = mixw(&[(CloseTick, 20), (Mint, 14), (Burn, 18), (InitTick, 4), (Swap, 14), (Advance, 5), (NftMint, 3), (NftDec, 5), (NftInc, 2)]);
            p.len = (8, 36);
            p.rule = "a tick account was closed and closing a referenced one was refused";
            p.nontrivial = |w| w.stat("close_tick_account") > 0 && w.stat("refused: tick still referenced") > 0;
        }
        "C17" => {
            p.weights = mixw(&[(Swap, 26), (MintBig, 1), (SwapBig, 2), (Single, 4), (SetFeeProto, 10), (CollectProto, 12), (SetOwner, 2), (NftMint, 1), (NftInc, 0), (CloseTick, 0)]);
            p.exotic = true;
            p.rule = "protocol fees were earned at two swaps or more and collected";
            p.nontrivial = |w| w.stat("swaps that earned fees") >= 2 && w.stat("collect_protocol") > 0;
        }
        "C18" => {
            p.weights = mixw(&[(Single, 24), (Multi, 12), (Swap, 16), (NftMint, 8), (NftInc, 10), (NftDec, 10), (Mint, 6), (Burn, 2), (Collect, 1), (CloseTick, 0)]);
            p.lead = vec![Mint, Mint, NftMint];
            p.rule = "a user limit made an operation fail and another operation with limits was accepted";
            p.nontrivial = |w| {
                w.stat("refused: deadline") + w.stat("refused: minimum output") + w.stat("refused: minimum amounts") + w.stat("refused: price limit") > 0
                    && w.stat("exact_input_single") + w.stat("exact_input") + w.stat("increase_liquidity") + w.stat("decrease_liquidity") > 0
            };
        }
        "C19" => {
            p.weights = mixw(&[(MultiDiff, 26), (Multi, 16), (Mint, 12), (Burn, 4), (Collect, 1), (NftMint, 1), (NftInc, 0), (Card, 3), (Donate, 0)]);
            p.pools = (2, 4);
            p.lead = vec![Mint, Mint, Mint, Mint];
            p.rule = "a path of at least two hops was compared with its hops";
            p.nontrivial = |w| w.stat("path of 2 compared with its hops") + w.stat("path of 3 compared with its hops") > 0;
        }
        "C20" => {
            p.weights = mixw(&[(EnableFee, 2), (SetOwner, 2), (CreatePool, 2), (CollectProto, 4), (SetFeeProto, 3), (Card, 3), (NftMint, 5), (NftInc, 5), (NftDec, 5), (NftCollect, 5), (Multi, 4)]);
            p.len = (8, 32);
            p.rule = "events of at least four kinds of operations were compared with what happened";
            p.nontrivial = |w| {
                ["swap", "mint", "burn", "collect", "exact_input", "mint_tokenized_position", "increase_liquidity", "decrease_liquidity", "collect_from_tokenized", "collect_protocol", "set_owner", "increase_observation_cardinality_next"]
                    .iter()
                    .filter(|k| w.stat(k) > 0)
                    .count()
                    >= 4
            };
        }
        "C21" => {
            p.weights = mixw(&[(Mint, 26), (Burn, 20), (Collect, 16), (Swap, 14), (MintBig, 4), (SwapBig, 1), (NftInc, 4), (NftDec, 4)]);
            p.len = (6, 34);
            p.price_modes = HIGH.to_vec();
            p.rule = "a deposit, a withdrawal and a payout were accepted";
            p.nontrivial = |w| w.stat("mint") > 0 && w.stat("burn") > 0 && w.stat("collect") > 0;
        }
        _ => return None,
    }
    Some(p)
}

pub fn run(cx: &Ctx) -> Cover {
    let q = cx.tier == Tier::Quick;
    let n = |quick: u64, thorough: u64| if q { quick } else { thorough };
    match cx.id {
        id if indirect(id) => hist::check(cx, &profile(id).unwrap(), n(54000, 1_080_000)),
        "C22" => pure::run(cx, "muldiv", n(15_000_000, 200_000_000)),
        "C23" => {
            let mut c = pure::ticks_all(cx);
            if c.failures.is_empty() {
                c.absorb(pure::prices_low(cx, n(1 << 27, 1 << 32)));
            }
            if c.failures.is_empty() {
                c.absorb(pure::run(cx, "prices", n(15_000_000, 200_000_000)));
            }
            c
        }
        "C24" => pure::run(cx, "next price", n(10_000_000, 150_000_000)),
        "C25" => pure::run(cx, "amounts", n(5_000_000, 100_000_000)),
        "C26" => pure::run(cx, "step", n(20_000_000, 300_000_000)),
        "C27" => {
            let mut c = pure::bitmap_positions(cx);
            if c.failures.is_empty() {
                c.absorb(pure::run(cx, "bitmap", n(500_000, 8_000_000)));
            }
            c
        }
        "C05" => nofree::check(cx, n(60_000, 800_000)),
        id => {
            let quick = match id {
                "C19" => 36000,
                _ => 54000,
            };
            hist::check(cx, &profile(id).unwrap(), n(quick, quick * 20))
        }
    }
}

pub fn replay(id: &'static str, part: &str, case: &Value) -> Option<String> {
    match part {
        "history" => {
            let p = profile(id)?;
            let c: Case = serde_json::from_value(case.clone()).ok()?;
            let (w, f) = hist::run_history(&p, &c, true);
            for l in w.trace_log.unwrap_or_default() {
                eprintln!("{}", l);
            }
            f
        }
        "lone party" => {
            let r: nofree::Round = serde_json::from_value(case.clone()).ok()?;
            let (w, f, _) = nofree::play(&r, true);
            for l in w.trace_log.unwrap_or_default() {
                eprintln!("{}", l);
            }
            f
        }
        _ => pure::replay(part, case),
    }
}

pub fn rule(id: &'static str) -> String {
    match id {
        _ if indirect(id) => format!("{} (the library functions have other signatures: observed through instructions)", profile(id).unwrap().rule),
        "C05" => "the lone party deposited or traded something, left and brought every price back to where it was".into(),
        "C22" => "the product of the operands exceeds 64 bits; distinct by operands".into(),
        "C23" => "the price is legal; distinct by price (every tick is visited)".into(),
        "C24" => "the price moves; distinct by operands".into(),
        "C25" => "liquidity is positive, the prices differ and an amount fits 64 bits; distinct by operands".into(),
        "C26" => "the step exchanges something; distinct by operands".into(),
        "C27" => "the bitmap is not empty; distinct by bitmap and position".into(),
        _ => profile(id).map(|p| p.rule.to_string()).unwrap_or_default(),
    }
}

/// How the cases of a check are made.
pub fn made(id: &'static str) -> &'static str {
    match id {
        "C05" => "a generated market of several providers, then a generated strategy of one party and its complete exit, the prices being brought back",
        "C22" | "C23" | "C24" | "C25" | "C26" | "C27" if !indirect(id) => "operands of every magnitude shaped to lie on and around rounding and overflow edges",
        _ => "a case is a generated history of instructions by several users on generated pools, checked after every operation; distinct by the sequence of operations, outcomes and amounts",
    }
}
