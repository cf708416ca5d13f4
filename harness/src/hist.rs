//! Checks that run generated histories of the whole market against the model.

use crate::gen::*;
use crate::runner::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn tagged(tag: &str, id: &str) -> bool {
    tag.split(' ').any(|t| t == id || crate::props::indirect(id) && crate::props::ARITHMETIC.contains(&t))
}

/// first finding that concerns the property, and whether there were others
pub fn verdict(w: &World, id: &str, from: usize) -> Option<String> {
    w.findings[from.min(w.findings.len())..].iter().find(|f| tagged(&f.tag, id)).map(|f| f.msg.clone())
}

pub fn describe(case: &Case, w: &World) -> Value {
    json!({
        "pools": w.pools.iter().map(|p| json!({"fee": p.pk.fee, "spacing": p.spacing, "tick": p.tick, "liquidity": p.liq(), "positions": p.pos.len()})).collect::<Vec<_>>(),
        "operations": case.ops.iter().map(|o| format!("{:?}", o.k)).collect::<Vec<_>>().join(" "),
        "outcomes": w.stats,
    })
}

pub fn finish(w: World, id: &str, fail: Option<String>, nontrivial: bool, sample: Value) -> One {
    let mut stats: BTreeMap<String, u64> = w.stats.clone();
    let foreign = w.findings.iter().filter(|f| !tagged(&f.tag, id)).count() as u64;
    if foreign > 0 {
        stats.insert("deviations that belong to other properties".into(), foreign);
    }
    One { fail, hash: w.trace, nontrivial, stats, sample: Some(sample), evals: 1 }
}

/// After a deviation that belongs to another property the model may be too far off to go on: that
/// ends the case. Without such a deviation a panic of the harness is an error of the harness.
pub fn guarded(w: &mut World, f: impl FnOnce(&mut World)) -> bool {
    match crate::svm::catch(|| f(w)) {
        Ok(()) => true,
        Err(m) => {
            if w.deviations == 0 {
                panic!("the harness failed: {}", m);
            }
            w.note("ended early after a deviation");
            false
        }
    }
}

pub fn run_history(p: &Profile, case: &Case, traced: bool) -> (World, Option<String>) {
    let mut w = World::new(&case.cfg);
    if traced {
        w.trace_log = Some(vec![]);
    }
    let mut fail = verdict(&w, p.id, 0);
    for op in &case.ops {
        if fail.is_some() {
            break;
        }
        let n = w.findings.len();
        let done = guarded(&mut w, |w| {
            w.apply(op);
        });
        fail = verdict(&w, p.id, n);
        if !done {
            return (w, fail);
        }
        if w.findings.len() >= 60 {
            w.findings.clear();
        }
    }
    if fail.is_none() && p.drain {
        let n = w.findings.len();
        let order = case.cfg.pools.iter().fold(case.cfg.clock >> 32, |x, p| x ^ (p[2] >> 20));
        guarded(&mut w, |w| w.drain(order));
        fail = verdict(&w, p.id, n);
    }
    (w, fail)
}

pub fn one(p: &Profile, case: &Case) -> One {
    let (w, fail) = run_history(p, case, false);
    let nt = (p.nontrivial)(&w);
    let d = describe(case, &w);
    finish(w, p.id, fail, nt, d)
}

pub fn check(cx: &Ctx, p: &Profile, total: u64) -> Cover {
    search(cx, "history", total, || case_strategy(p), |c| one(p, c))
}
