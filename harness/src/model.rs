//! Reference model of the exchange, kept in terms of positions rather than ticks: a pool is a
//! price, a set of positions and the fees each of them has earned. Everything the program derives
//! and stores (active liquidity, tick records, bitmaps, fee growth outside ticks, accumulators) is
//! recomputed here from that.

use crate::cy::{word_of, PoolKey};
use crate::math::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct MPos {
    pub liq: u64,
    pub owed: [u64; 2],
    /// growth per unit of liquidity (Q32, modulo 2^64) earned since the last settlement
    pub acc: [u64; 2],
}

impl MPos {
    pub fn pending(&self, s: usize) -> Option<u64> {
        mul_div_floor(self.acc[s], self.liq, Q32)
    }
    pub fn settle(&mut self) -> Option<[u64; 2]> {
        let e = [self.pending(0)?, self.pending(1)?];
        for s in 0..2 {
            self.owed[s] = self.owed[s].wrapping_add(e[s]);
            self.acc[s] = 0;
        }
        Some(e)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MNft {
    pub mint: Pubkey,
    pub pool: usize,
    pub lo: i32,
    pub hi: i32,
    pub p: MPos,
    pub meta: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct MObs {
    pub ts: u32,
    pub tick_cum: i64,
    pub spl_cum: u64,
    pub init: bool,
}

#[derive(Clone, Debug)]
pub struct MOracle {
    pub slots: Vec<MObs>,
    pub index: u16,
    pub card: u16,
    /// the accumulators as they follow from the history alone: time, tick, seconds per liquidity
    pub truth: (u32, i64, u64),
}

impl MOracle {
    pub fn new(ts: u32) -> MOracle {
        MOracle {
            slots: vec![MObs { ts, init: true, ..Default::default() }],
            index: 0,
            card: 1,
            truth: (ts, 0, 0),
        }
    }
    pub fn last(&self) -> &MObs {
        &self.slots[self.index as usize]
    }
    pub fn next_index(&self) -> u16 {
        ((self.index as usize + 1) % self.slots.len()) as u16
    }
    /// whether a write at `now` goes to the next slot
    pub fn advances(&self, now: u32) -> bool {
        now / 14 > self.last().ts / 14
    }
    pub fn at(&self, now: u32, tick: i32, liq: u64) -> (i64, u64) {
        let l = self.last();
        let d = now.wrapping_sub(l.ts);
        (
            l.tick_cum.wrapping_add((tick as i64).wrapping_mul(d as i64)),
            l.spl_cum.wrapping_add(((d as u64) << 32) / liq.max(1)),
        )
    }
    pub fn true_at(&self, now: u32, tick: i32, liq: u64) -> (u32, i64, u64) {
        let (ts, t, s) = self.truth;
        let d = now.wrapping_sub(ts);
        (now, t.wrapping_add((tick as i64).wrapping_mul(d as i64)), s.wrapping_add(((d as u64) << 32) / liq.max(1)))
    }
    /// records the state that held until `now`
    pub fn write(&mut self, now: u32, tick: i32, liq: u64) {
        self.truth = self.true_at(now, tick, liq);
        if self.last().ts == now {
            return;
        }
        let (tick_cum, spl_cum) = self.at(now, tick, liq);
        if self.advances(now) {
            self.index = self.next_index();
            if self.index == self.card {
                // first slot beyond the old capacity: the grown capacity is in use from now on
                self.card = self.slots.len() as u16;
            }
        }
        self.slots[self.index as usize] = MObs { ts: now, tick_cum, spl_cum, init: true };
    }
}

#[derive(Clone, Copy, Debug)]
pub struct LogE {
    pub time: u32,
    pub tick: i32,
    pub spl: u64,
}

/// what a tick in use records about its other side
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct TOut {
    pub fg: [u64; 2],
    pub tc: i64,
    pub spl: u64,
    pub secs: u32,
}

#[derive(Clone, Debug)]
pub struct MPool {
    pub pk: PoolKey,
    pub spacing: u16,
    pub price: u64,
    pub tick: i32,
    pub pos: BTreeMap<(Pubkey, i32, i32), MPos>,
    pub proto: [u64; 2],
    pub obs: MOracle,
    /// every change of the tick, with the seconds per liquidity accumulated until then
    pub log: Vec<LogE>,
    /// some position earned more than 2^64 units of growth between two settlements
    pub wrapped: bool,
    /// fee growth per unit of active liquidity since creation
    pub fg: [u64; 2],
    pub touts: BTreeMap<i32, TOut>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    /// the operation must be accepted
    Must,
    /// it may be refused because an intermediate quantity exceeds 64 bits; if accepted the result
    /// must be the modelled one
    May,
    /// it must be refused
    Refuse(&'static str),
    /// outside of the modelled domain: anything goes, the chain state is adopted
    Any(&'static str),
    /// too many steps to be carried by a transaction
    TooLong,
}

#[derive(Clone, Debug)]
pub struct SwapPlan {
    pub v: Verdict,
    pub inn: u64,
    pub out: u64,
    pub price: u64,
    pub tick: i32,
    pub proto: u64,
    pub lp_fee: u64,
    /// (tick at the time, growth)
    pub growth: Vec<(i32, u64)>,
    pub rem: Vec<Pubkey>,
    pub crossed: Vec<i32>,
    /// growth within the swap until each crossing
    pub cross_fg: Vec<u64>,
    pub steps: usize,
    pub words: usize,
    pub obs_write: bool,
    pub exact_amount_met: bool,
}

#[derive(Clone, Debug)]
pub struct ModPlan {
    pub v: Verdict,
    /// tokens for the change in liquidity
    pub amt: [u64; 2],
    /// fees settled
    pub fees: [u64; 2],
    pub in_range: bool,
    pub obs_write: bool,
}

pub const MAX_STEPS: usize = 40;

impl MPool {
    pub fn active(&self) -> u128 {
        self.active_at(self.tick)
    }
    pub fn active_at(&self, tick: i32) -> u128 {
        self.pos
            .iter()
            .filter(|((_, lo, hi), _)| *lo <= tick && tick < *hi)
            .map(|(_, p)| p.liq as u128)
            .sum()
    }
    pub fn liq(&self) -> u64 {
        self.active() as u64
    }
    /// (gross, net) per referenced tick
    pub fn ticks(&self) -> BTreeMap<i32, (u128, i128)> {
        let mut m: BTreeMap<i32, (u128, i128)> = BTreeMap::new();
        for ((_, lo, hi), p) in &self.pos {
            if p.liq == 0 {
                continue;
            }
            let e = m.entry(*lo).or_default();
            e.0 += p.liq as u128;
            e.1 += p.liq as i128;
            let e = m.entry(*hi).or_default();
            e.0 += p.liq as u128;
            e.1 -= p.liq as i128;
        }
        m
    }

    pub fn plan_swap(
        &self,
        zfo: bool,
        amount: i64,
        limit: u64,
        fee_protocol: u8,
        now: u32,
        bitmap_exists: &dyn Fn(i16) -> bool,
        max_steps: usize,
    ) -> SwapPlan {
        let mut pl = SwapPlan {
            v: Verdict::Must,
            inn: 0,
            out: 0,
            price: self.price,
            tick: self.tick,
            proto: 0,
            lp_fee: 0,
            growth: vec![],
            rem: vec![],
            crossed: vec![],
            cross_fg: vec![],
            steps: 0,
            words: 0,
            obs_write: false,
            exact_amount_met: false,
        };
        if amount == 0 {
            pl.v = Verdict::Refuse("zero amount");
            return pl;
        }
        let ok = if zfo {
            limit < self.price && limit > MIN_SQRT
        } else {
            limit > self.price && limit < MAX_SQRT
        };
        if !ok {
            pl.v = Verdict::Refuse("price limit");
            // it is given the accounts with which it could be carried out if it were not refused
            let far = if zfo { MIN_SQRT + 1 } else { MAX_SQRT - 1 };
            let near = limit.clamp(MIN_SQRT + 1, MAX_SQRT - 1);
            let l = if (zfo && near < self.price) || (!zfo && near > self.price) { near } else { far };
            if (zfo && far < self.price) || (!zfo && far > self.price) {
                pl.rem = self.plan_swap(zfo, amount, l, fee_protocol, now, bitmap_exists, max_steps).rem;
            }
            return pl;
        }
        let exact_in = amount > 0;
        let sp = self.spacing as i32;
        let ticks = self.ticks();
        let mut rem = amount as i128;
        let (mut inn, mut out) = (0u128, 0u128);
        let mut cache: Option<i16> = None;
        let mut liq = self.active();
        while rem != 0 && pl.price != limit {
            if pl.steps >= max_steps {
                pl.v = Verdict::TooLong;
                pl.inn = inn as u64;
                pl.out = out as u64;
                return pl;
            }
            pl.steps += 1;
            let c = pl.tick.div_euclid(sp) + if zfo { 0 } else { 1 };
            let word = c.div_euclid(256) as i16;
            if cache != Some(word) {
                pl.rem.push(self.pk.bitmap(word).0);
                pl.words += 1;
                cache = if bitmap_exists(word) { Some(word) } else { None };
            }
            // nearest referenced tick in this word, else the end of the word
            let (next, init) = if zfo {
                let first = word as i32 * 256;
                match ticks.range(first * sp..=c * sp).next_back() {
                    Some((t, _)) => (*t, true),
                    None => (first * sp, false),
                }
            } else {
                let last = word as i32 * 256 + 255;
                match ticks.range(c * sp..=last * sp).next() {
                    Some((t, _)) => (*t, true),
                    None => (last * sp, false),
                }
            };
            let next = next.clamp(MIN_TICK, MAX_TICK);
            let np = sqrt_at(next);
            let target = if (zfo && np < limit) || (!zfo && np > limit) { limit } else { np };
            let start = pl.price;
            let Ok(l64) = u64::try_from(liq) else {
                pl.v = Verdict::Refuse("liquidity overflow");
                return pl;
            };
            let (st, soft) = match swap_step(pl.price, target, l64, rem as i64, self.pk.fee) {
                Ok(x) => x,
                Err(()) => {
                    pl.v = Verdict::Refuse("amount overflow");
                    return pl;
                }
            };
            if soft && pl.v == Verdict::Must {
                pl.v = Verdict::May;
            }
            pl.price = st.next;
            inn += st.inn as u128 + st.fee as u128;
            out += st.out as u128;
            rem = if exact_in {
                rem - st.inn as i128 - st.fee as i128
            } else {
                rem + st.out as i128
            };
            if inn > i64::MAX as u128 || out > 1 << 63 {
                pl.v = Verdict::Refuse("amount does not fit");
                return pl;
            }
            if out == 1 << 63 && pl.v == Verdict::Must {
                // fits as a negative number, but not in a single step
                pl.v = Verdict::May;
            }
            let delta = if fee_protocol > 0 { st.fee / fee_protocol as u64 } else { 0 };
            pl.proto += delta;
            pl.lp_fee += st.fee - delta;
            if l64 > 0 {
                match mul_div_floor(st.fee - delta, Q32, l64) {
                    Some(g) => {
                        if g > 0 {
                            pl.growth.push((pl.tick, g))
                        }
                    }
                    None => {
                        pl.v = Verdict::Any("fee growth overflow");
                        return pl;
                    }
                }
            }
            if pl.price == np {
                if init {
                    pl.rem.push(self.pk.tick(next).0);
                    pl.crossed.push(next);
                    pl.cross_fg.push(pl.growth.iter().fold(0, |a, g| a.wrapping_add(g.1)));
                }
                pl.tick = if zfo { next - 1 } else { next };
                if init {
                    liq = self.active_at(pl.tick);
                    if liq > u64::MAX as u128 {
                        pl.v = Verdict::Refuse("liquidity overflow");
                        return pl;
                    }
                }
            } else if pl.price != start {
                pl.tick = tick_at(pl.price).unwrap();
            }
        }
        if pl.tick != self.tick {
            pl.obs_write = true;
            if self.obs.advances(now) {
                pl.rem.push(self.pk.obs(self.obs.next_index()).0);
            }
        }
        pl.inn = inn as u64;
        pl.out = out as u64;
        pl.exact_amount_met = rem == 0;
        pl
    }

    pub fn earn(p: &mut MPos, lo: i32, hi: i32, zfo: bool, growth: &[(i32, u64)]) {
        let s = if zfo { 0 } else { 1 };
        if p.liq == 0 {
            return;
        }
        for (t, g) in growth {
            if lo <= *t && *t < hi {
                p.acc[s] = p.acc[s].wrapping_add(*g);
            }
        }
    }

    /// Applies the plan to the pool; NFTs are updated by the caller.
    pub fn apply_swap(&mut self, pl: &SwapPlan, zfo: bool, now: u32) {
        let side = if zfo { 0 } else { 1 };
        if !pl.crossed.is_empty() {
            let (tc, spl) = self.obs.at(now, self.tick, self.liq());
            for (t, g) in pl.crossed.iter().zip(&pl.cross_fg) {
                let mut fg = self.fg;
                fg[side] = fg[side].wrapping_add(*g);
                if let Some(o) = self.touts.get_mut(t) {
                    *o = TOut {
                        fg: [fg[0].wrapping_sub(o.fg[0]), fg[1].wrapping_sub(o.fg[1])],
                        tc: tc.wrapping_sub(o.tc),
                        spl: spl.wrapping_sub(o.spl),
                        secs: now.wrapping_sub(o.secs),
                    };
                }
            }
        }
        for (_, g) in &pl.growth {
            self.fg[side] = self.fg[side].wrapping_add(*g);
        }
        if pl.obs_write {
            let l = self.liq();
            let t = self.tick;
            self.obs.write(now, t, l);
            let spl = self.obs.truth.2;
            self.log.push(LogE { time: now, tick: pl.tick, spl });
        }
        for ((_, lo, hi), p) in self.pos.iter() {
            let s = if zfo { 0 } else { 1 };
            let g: u128 = pl.growth.iter().filter(|(t, _)| lo <= t && t < hi).map(|g| g.1 as u128).sum();
            self.wrapped |= p.liq > 0 && p.acc[s] as u128 + g > u64::MAX as u128;
        }
        for ((_, lo, hi), p) in self.pos.iter_mut() {
            Self::earn(p, *lo, *hi, zfo, &pl.growth);
        }
        let s = if zfo { 0 } else { 1 };
        self.proto[s] = self.proto[s].wrapping_add(pl.proto);
        self.price = pl.price;
        self.tick = pl.tick;
    }

    /// roughly how much can be bought before the limit is reached
    pub fn available(&self, zfo: bool, limit: u64) -> u128 {
        let mut sum = 0u128;
        for ((_, lo, hi), p) in &self.pos {
            let (a, b) = (sqrt_at(*lo), sqrt_at(*hi));
            let (x, y) = if zfo { (limit.max(a), self.price.min(b)) } else { (self.price.max(a), limit.min(b)) };
            if x < y {
                let n = if zfo { amount1(x, y, p.liq, false) } else { amount0(x, y, p.liq, false) };
                sum += n.low_u128();
            }
        }
        sum
    }

    /// Plans a change of a position's liquidity. `delta` of 0 is a poke.
    pub fn plan_mod(&self, owner: &Pubkey, lo: i32, hi: i32, delta: i128) -> ModPlan {
        let mut pl = ModPlan {
            v: Verdict::Must,
            amt: [0, 0],
            fees: [0, 0],
            in_range: lo <= self.tick && self.tick < hi,
            obs_write: false,
        };
        if lo >= hi {
            pl.v = Verdict::Refuse("tick order");
            return pl;
        }
        if delta.unsigned_abs() > i64::MAX as u128 {
            pl.v = Verdict::Refuse("liquidity does not fit");
            return pl;
        }
        let p = self.pos.get(&(*owner, lo, hi)).cloned().unwrap_or_default();
        if delta == 0 && p.liq == 0 {
            pl.v = Verdict::Refuse("poke of an empty position");
            return pl;
        }
        let nl = p.liq as i128 + delta;
        if nl < 0 {
            pl.v = Verdict::Refuse("more than the position holds");
            return pl;
        }
        if nl > u64::MAX as i128 {
            pl.v = Verdict::Refuse("liquidity overflow");
            return pl;
        }
        if delta != 0 {
            let t = self.ticks();
            for (tick, sign) in [(lo, 1i128), (hi, -1)] {
                let (g, n) = t.get(&tick).copied().unwrap_or_default();
                // everything at a tick has to fit its signed net liquidity
                if delta > 0 && g as i128 + delta > i64::MAX as i128 {
                    pl.v = Verdict::Refuse("tick liquidity overflow");
                    return pl;
                }
                let n = n + sign * delta;
                assert!(n.unsigned_abs() <= i64::MAX as u128);
            }
            if pl.in_range && self.active() as i128 + delta > u64::MAX as i128 {
                pl.v = Verdict::Refuse("active liquidity overflow");
                return pl;
            }
            pl.obs_write = pl.in_range;
            let (a, b) = (sqrt_at(lo), sqrt_at(hi));
            let l = delta.unsigned_abs() as u64;
            let up = delta > 0;
            let (x, y) = if self.tick < lo {
                (amount0(a, b, l, up), W::zero())
            } else if self.tick < hi {
                (amount0(self.price, b, l, up), amount1(a, self.price, l, up))
            } else {
                (W::zero(), amount1(a, b, l, up))
            };
            match (to64(x), to64(y)) {
                (Some(x), Some(y)) => pl.amt = [x, y],
                _ => {
                    pl.v = Verdict::Refuse("amount overflow");
                    return pl;
                }
            }
        }
        match (p.pending(0), p.pending(1)) {
            (Some(x), Some(y)) => pl.fees = [x, y],
            _ => pl.v = Verdict::Any("fee overflow"),
        }
        pl
    }

    pub fn apply_mod(&mut self, owner: &Pubkey, lo: i32, hi: i32, delta: i128, pl: &ModPlan, now: u32) {
        if delta > 0 {
            let (tc, spl) = self.obs.at(now, self.tick, self.liq());
            for t in [lo, hi] {
                // a tick that comes into use counts everything so far as having happened below
                let v = if t <= self.tick { TOut { fg: self.fg, tc, spl, secs: now } } else { TOut::default() };
                self.touts.entry(t).or_insert(v);
            }
        }
        if pl.obs_write {
            let (t, l) = (self.tick, self.liq());
            self.obs.write(now, t, l);
        }
        let p = self.pos.entry((*owner, lo, hi)).or_default();
        p.settle();
        p.liq = (p.liq as i128 + delta) as u64;
        if delta < 0 {
            for s in 0..2 {
                p.owed[s] = p.owed[s].wrapping_add(pl.amt[s]);
            }
        }
        if delta < 0 {
            let used = self.ticks();
            self.touts.retain(|t, _| used.contains_key(t));
        }
    }

    /// What a position would return if it were closed now, rounded as a withdrawal is.
    pub fn principal(&self, lo: i32, hi: i32, l: u64) -> [u64; 2] {
        principal(self.price, self.tick, lo, hi, l)
    }
    pub fn word(&self, tick: i32) -> i16 {
        word_of(tick, self.spacing)
    }
}

pub fn principal(price: u64, tick: i32, lo: i32, hi: i32, l: u64) -> [u64; 2] {
    let (a, b) = (sqrt_at(lo), sqrt_at(hi));
    let (x, y) = if tick < lo {
        (amount0(a, b, l, false), W::zero())
    } else if tick < hi {
        (amount0(price, b, l, false), amount1(a, price, l, false))
    } else {
        (W::zero(), amount1(a, b, l, false))
    };
    [x.low_u64(), y.low_u64()]
}
