//! Interpretation of abstract operations: six raw integers are resolved against the current state
//! into a concrete, mostly sensible transaction. Small raw values mean simple choices, so that
//! shrinking the integers simplifies the history.

use crate::cy::{self, *};
use crate::math::*;
use crate::model::*;
use crate::svm::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::rc::Rc;

/// consecutive small choices from one raw integer
pub struct Bits(pub u64);
impl Bits {
    pub fn n(&mut self, n: u64) -> u64 {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        // the shrunk value 0 means "no"
        self.n(n) == n - 1
    }
}

pub const NO_DEADLINE: i64 = i64::MAX;

impl World {
    pub fn pick_pool(&self, raw: u64) -> Option<usize> {
        if self.pools.is_empty() {
            None
        } else {
            Some((raw % 64) as usize % self.pools.len())
        }
    }
    pub fn usable(&self, pool: usize) -> (i32, i32) {
        let sp = self.pools[pool].spacing as i32;
        (MIN_TICK / sp * sp, MAX_TICK / sp * sp)
    }

    /// A valid range; often near the price, often sharing ticks with other positions.
    pub fn pick_range(&self, pool: usize, raw: u64) -> (i32, i32) {
        let mut b = Bits(raw);
        let sp = self.pools[pool].spacing as i32;
        let (min, max) = self.usable(pool);
        let cur = compress(self.pools[pool].tick, self.pools[pool].spacing);
        let mode = b.n(12);
        let scale = [1, 1, 3, 16, 100, 256][b.n(6) as usize];
        let d1 = b.n(6) as i32 * scale;
        let d2 = b.n(6) as i32 * scale;
        let known: Vec<i32> = self.tick_accts[pool].iter().copied().collect();
        let (lo, hi) = match mode {
            0..=4 => ((cur - d1) * sp, (cur + 1 + d2) * sp),
            5 => (min, max),
            6 => ((cur + 1 + d1) * sp, (cur + 2 + d1 + d2) * sp),
            7 => ((cur - 1 - d1 - d2) * sp, (cur - d1) * sp),
            8..=10 if known.len() >= 2 => {
                let i = b.n(64) as usize % known.len();
                let j = b.n(64) as usize % known.len();
                (known[i.min(j)], known[i.max(j)])
            }
            11 if !known.is_empty() => {
                let i = b.n(64) as usize % known.len();
                (known[i], known[i] + (1 + d2) * sp)
            }
            _ => ((cur - 1 - d1) * sp, (cur + d2) * sp),
        };
        let lo = lo.clamp(min, max - sp);
        let hi = hi.clamp(min + sp, max);
        if lo < hi {
            (lo, hi)
        } else {
            (lo, lo + sp)
        }
    }

    /// wide ranges for huge positions
    pub fn wide_range(&self, pool: usize, raw: u64) -> (i32, i32) {
        let mut b = Bits(raw);
        let sp = self.pools[pool].spacing as i32;
        let (min, max) = self.usable(pool);
        let cur = compress(self.pools[pool].tick, self.pools[pool].spacing) * sp;
        let mut d = |m: u64| -> i32 { (b.n(m) as i32) / sp * sp };
        let (lo, hi) = match raw % 4 {
            0 => (min, max),
            1 => (cur - d(60_000), cur + sp + d(60_000)),
            2 => (cur + d(2_000), cur + sp + d(2_000) + d(60_000)),
            _ => (cur - sp - d(2_000) - d(60_000), cur - d(2_000)),
        };
        let lo = lo.clamp(min, max - sp);
        let hi = hi.clamp(min + sp, max);
        if lo < hi { (lo, hi) } else { (lo, lo + sp) }
    }

    pub fn ensure_tick(&mut self, pool: usize, t: i32) {
        if !self.tick_accts[pool].contains(&t) {
            let b = self.b_init_tick(self.keys.users[0], pool, t);
            self.perform(b);
        }
        let w = word_of(t, self.pools[pool].spacing);
        if !self.bitmap_accts[pool].contains(&w) {
            let b = self.b_init_bitmap(self.keys.users[0], pool, w);
            self.perform(b);
        }
    }
    /// Creates whatever accounts a position needs.
    pub fn ensure(&mut self, pool: usize, owner: Pubkey, lo: i32, hi: i32) {
        self.ensure_tick(pool, lo);
        self.ensure_tick(pool, hi);
        if !self.pools[pool].pos.contains_key(&(owner, lo, hi)) {
            let b = self.b_init_pos(self.keys.users[0], pool, owner, lo, hi);
            self.perform(b);
        }
    }

    pub fn pick_liquidity(&self, raw: u64) -> u64 {
        let mut b = Bits(raw);
        match b.n(16) {
            0..=9 => 1 + log_amount(b.0, 40),
            10..=12 => 1 + log_amount(b.0, 52),
            13 => 1 + log_amount(b.0, 8),
            14 => 1 + log_amount(b.0, 62),
            _ => match b.n(4) {
                0 => 1_000_000_007,
                // around a power of two
                1 => 1u64 << (b.n(62) + 1),
                2 => (1u64 << (b.n(62) + 1)) - 1,
                _ => (1u64 << (b.n(61) + 1)) + 1,
            },
        }
    }

    /// non-custodial positions of a pool
    pub fn own_positions(&self, pool: usize) -> Vec<(Pubkey, i32, i32)> {
        let f = factory_pda().0;
        self.pools[pool].pos.keys().filter(|k| k.0 != f && self.solo.map_or(true, |s| s == k.0)).cloned().collect()
    }

    pub fn pick_part(&self, raw: u64, liq: u64) -> u64 {
        let mut b = Bits(raw);
        match b.n(10) {
            0..=2 => liq,
            3 => liq / 2,
            4 => 0,
            5 => liq.saturating_add(1),
            6 => 1,
            7 => liq.saturating_sub(1),
            8 => match b.n(3) {
                0 => ((1u64 << (1 + b.n(40))) - 1).min(liq),
                1 => (1u64 << b.n(40)).min(liq),
                _ => (1 + log_amount(b.0, 40)).min(liq),
            },
            _ => {
                if liq == 0 {
                    0
                } else {
                    1 + b.0 % liq
                }
            }
        }
    }

    /// (zero for one, amount, limit), possibly refused ones
    pub fn pick_swap(&self, pool: usize, a: [u64; 3]) -> (bool, i64, u64) {
        let p = &self.pools[pool];
        let mut b = Bits(a[0]);
        let zfo = b.n(2) == 1;
        let exact_out = b.n(3) == 2;
        let lim_mode = b.n(12);
        let amt_mode = b.n(12);
        let far = if zfo { MIN_SQRT + 1 } else { MAX_SQRT - 1 };
        let tick_ahead = |i: u64| -> Option<i32> {
            let t = p.ticks();
            if zfo {
                let v: Vec<i32> = t.range(..=p.tick).rev().map(|x| *x.0).collect();
                v.get(i as usize % v.len().max(1)).copied()
            } else {
                let v: Vec<i32> = t.range(p.tick + 1..).map(|x| *x.0).collect();
                v.get(i as usize % v.len().max(1)).copied()
            }
        };
        let r = a[2];
        let mut limit = match lim_mode {
            0..=4 => far,
            5 | 6 => {
                // somewhere nearby
                let d = log_amount(r, 34).max(1);
                if zfo {
                    p.price.saturating_sub(d).max(MIN_SQRT + 1)
                } else {
                    p.price.saturating_add(d).min(MAX_SQRT - 1)
                }
            }
            7 | 8 => match tick_ahead(r) {
                Some(t) => {
                    let x = sqrt_at(t);
                    [x, x, x - 1, x + 1][(r >> 32) as usize % 4]
                }
                None => far,
            },
            9 => {
                let t = (p.tick + if zfo { -1 } else { 1 } * (r % 3000) as i32).clamp(MIN_TICK, MAX_TICK);
                sqrt_at(t)
            }
            10 => {
                // invalid or extreme
                [p.price, MIN_SQRT, MAX_SQRT, 0, u64::MAX, p.price + 1, p.price - 1, MIN_SQRT + 1, MAX_SQRT - 1][r as usize % 9]
            }
            _ => far,
        };
        if lim_mode == 11 && p.price > MIN_SQRT + 1 && p.price < MAX_SQRT - 1 {
            limit = if zfo { p.price - 1 } else { p.price + 1 };
        }
        let mut amount: i64 = match amt_mode {
            0..=5 => log_amount(a[1], 44) as i64,
            6 => log_amount(a[1], 60) as i64,
            7 => 1 + (a[1] % 40) as i64,
            8 | 9 => {
                // to land exactly on, just before or just behind an initialised tick
                let lim = match tick_ahead(a[1]) {
                    Some(t) => sqrt_at(t).clamp(MIN_SQRT + 1, MAX_SQRT - 1),
                    None => limit,
                };
                let pl = self.plan_swap(pool, zfo, if exact_out { -(1 << 62) } else { 1 << 62 }, lim, MAX_STEPS);
                let d = [0i64, 0, 1, -1, 2, -2][(a[1] >> 40) as usize % 6];
                let base = if exact_out { pl.out } else { pl.inn };
                if pl.v == Verdict::Must {
                    (base as i64).saturating_add(d)
                } else {
                    1000
                }
            }
            10 => i64::MAX,
            _ => (a[1] >> 1) as i64,
        };
        if exact_out {
            amount = -amount;
            if amt_mode == 10 && a[1] % 2 == 1 {
                amount = i64::MIN;
            }
        }
        // a swap that would need too many steps is cut to what a transaction can carry
        let pl = self.plan_swap(pool, zfo, amount, limit, MAX_STEPS);
        if pl.v == Verdict::TooLong {
            limit = pl.price;
        }
        (zfo, amount, limit)
    }

    pub fn min_near(&self, raw: u64, out: u64) -> u64 {
        match raw % 8 {
            0..=3 => 0,
            4 => out,
            5 => out.saturating_add(1),
            6 => out.saturating_sub(1),
            _ => (raw >> 8) % out.saturating_mul(2).max(1),
        }
    }
    pub fn pick_deadline(&self, raw: u64) -> i64 {
        match raw % 16 {
            0..=9 => NO_DEADLINE,
            10 => self.svm.clock,
            11 => self.svm.clock - 1,
            12 => self.svm.clock + 1,
            13 => self.svm.clock - 1000,
            14 => 0,
            _ => self.svm.clock + 1000,
        }
    }

    /// a path of one to three hops; pools may repeat
    pub fn pick_path(&self, raw: u64) -> Vec<(usize, bool)> {
        let mut b = Bits(raw);
        let n = [2, 1, 2, 3][b.n(4) as usize];
        let mut path: Vec<(usize, bool)> = vec![];
        for _ in 0..n {
            let want = path.last().map(|(p, z)| self.token(*p, if *z { 1 } else { 0 }));
            let mut cand = vec![];
            for p in 0..self.pools.len() {
                for z in [true, false] {
                    if want.is_none() || want == Some(self.token(p, if z { 0 } else { 1 })) {
                        cand.push((p, z));
                    }
                }
            }
            // prefer a pool that has not been used yet
            let fresh: Vec<_> = cand.iter().filter(|c| !path.iter().any(|x| x.0 == c.0)).cloned().collect();
            let again = b.one_in(6);
            let from = if fresh.is_empty() || again { cand } else { fresh };
            if from.is_empty() {
                break;
            }
            path.push(from[b.n(16) as usize % from.len()]);
        }
        path
    }

    /// A user (index) and token account that hold the NFT.
    pub fn nft_holder(&self, nft: usize) -> Option<(Pubkey, Pubkey)> {
        let m = self.nfts[nft].mint;
        for u in self.keys.users.iter().chain([&self.keys.owner]) {
            let a = ata(u, &m);
            if self.balance(&a) == 1 {
                return Some((*u, a));
            }
        }
        None
    }
    /// who signs and which account is presented as proof
    fn pick_nft_auth(&mut self, nft: usize, raw: u64) -> Option<(Pubkey, Pubkey)> {
        let mut b = Bits(raw);
        let (holder, acct) = self.nft_holder(nft)?;
        Some(match b.n(10) {
            0..=6 => (holder, acct),
            7 => {
                // a delegate if there is one
                match self.delegate_of(&acct) {
                    Some(d) => (d, acct),
                    None => (holder, acct),
                }
            }
            8 => (self.user(b.n(64)), acct),
            _ => {
                let u = self.user(b.n(64));
                let m = self.nfts[nft].mint;
                let a = match b.n(3) {
                    0 => self.ensure_ata(&u, &m),
                    1 => ata(&u, &self.keys.mints[0]),
                    _ => {
                        let o = b.n(16) as usize % self.nfts.len();
                        self.nft_holder(o).map(|x| x.1).unwrap_or(acct)
                    }
                };
                (u, a)
            }
        })
    }
    pub fn delegate_of(&self, acct: &Pubkey) -> Option<Pubkey> {
        use solana_program::program_pack::Pack;
        let t = self.svm.data(acct).and_then(|d| spl_token::state::Account::unpack(d).ok())?;
        t.delegate.into()
    }

    pub fn recipients(&self, pool: usize, u: Pubkey) -> [Pubkey; 2] {
        let p = &self.pools[pool].pk;
        [ata(&u, &p.t0), ata(&u, &p.t1)]
    }

    pub fn pick_max(&self, raw: u64, owed: [u64; 2]) -> [u64; 2] {
        let mut b = Bits(raw);
        let mut f = |o: u64| match b.n(5) {
            0 | 1 => u64::MAX,
            2 => o / 2,
            3 => 0,
            _ => o,
        };
        [f(owed[0]), f(owed[1])]
    }

    /// Runs one abstract operation.
    pub fn apply(&mut self, op: &Op) -> bool {
        let a = op.a;
        let pool = self.pick_pool(a[0]);
        let mut sel = Bits(a[0] / 64);
        match op.k {
            K::Advance => {
                let mut b = Bits(a[0]);
                let d = match b.n(6) {
                    0 => 1 + b.0 % 13,
                    1 => 14,
                    2 => 14 + b.0 % 100,
                    3 => b.0 % 5000,
                    4 => b.0 % 1_000_000,
                    _ => 1,
                };
                // the 32 bit timestamps of the program wrap at most once
                if self.svm.clock + (d as i64) < u32::MAX as i64 + 1_500_000_000 {
                    self.svm.clock += d as i64;
                }
                self.note("advance");
                true
            }
            K::Mint => {
                let Some(pool) = pool else { return false };
                let minter = self.user(a[1]);
                let recipient = match sel.n(12) {
                    11 if self.solo.is_none() => factory_pda().0,
                    10 => self.user(a[1] / 11),
                    _ => minter,
                };
                let (lo, hi) = self.pick_range(pool, a[2]);
                self.ensure(pool, recipient, lo, hi);
                let amount = if sel.one_in(40) {
                    [0, u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1, 1][a[3] as usize % 5]
                } else {
                    self.pick_liquidity(a[3])
                };
                let b = self.b_mint(pool, minter, recipient, lo, hi, amount, cy::ID);
                self.perform(b)
            }
            K::Burn => {
                let Some(pool) = pool else { return false };
                let ps = self.own_positions(pool);
                if ps.is_empty() {
                    return false;
                }
                let k = ps[a[1] as usize % ps.len()];
                if !self.ticks_live(pool, k.1, k.2) {
                    return false;
                }
                let l = self.pools[pool].pos[&k].liq;
                let amount = self.pick_part(a[2], l);
                let b = self.b_burn(pool, k.0, k.1, k.2, amount);
                self.perform(b)
            }
            K::Collect => {
                let Some(pool) = pool else { return false };
                let ps = self.own_positions(pool);
                if ps.is_empty() {
                    return false;
                }
                let k = ps[a[1] as usize % ps.len()];
                let m = self.pools[pool].pos[&k].clone();
                let to = if a[3] % 4 == 3 { self.user(a[3] >> 2) } else { k.0 };
                let max = self.pick_max(a[2], m.owed);
                let b = self.b_collect(pool, k.0, k.1, k.2, self.recipients(pool, to), max);
                self.perform(b)
            }
            K::Swap => {
                let Some(pool) = pool else { return false };
                let u = self.user(a[1]);
                let (zfo, amount, limit) = self.pick_swap(pool, [a[2], a[3], a[4]]);
                let b = self.b_swap(pool, u, zfo, amount, limit, cy::ID);
                self.perform(b)
            }
            K::Single => {
                let Some(pool) = pool else { return false };
                let u = self.user(a[1]);
                let (zfo, amount, limit) = self.pick_swap(pool, [a[2], a[3], a[4]]);
                let far = if zfo { MIN_SQRT + 1 } else { MAX_SQRT - 1 };
                let amount = if a[3] % 50 == 49 { u64::MAX - (a[3] % 1000) } else { amount.unsigned_abs() };
                let mut limit = if limit == far && a[4] & 1 == 0 { 0 } else { limit };
                let mut pl = self.plan_swap(pool, zfo, amount as i64, if limit == 0 { far } else { limit }, MAX_STEPS);
                if pl.v == Verdict::TooLong {
                    limit = pl.price;
                    pl = self.plan_swap(pool, zfo, amount as i64, limit, MAX_STEPS);
                }
                let min = self.min_near(a[5], pl.out);
                let dl = self.pick_deadline(a[5] >> 48);
                let b = self.b_single(pool, u, zfo, dl, amount, min, limit);
                self.perform(b)
            }
            K::Multi => {
                let u = self.user(a[1]);
                let path = self.pick_path(a[0]);
                if path.is_empty() {
                    return false;
                }
                let amount = self.fit_multi(u, &path, if a[3] % 30 == 29 { a[4] } else { log_amount(a[3] >> 2, 42) });
                let dl = self.pick_deadline(a[5] >> 48);
                let probe = self.b_multi(u, &path, NO_DEADLINE, amount, 0);
                let out = match probe.eff.last() {
                    Some(Eff::Swap { plan, .. }) if probe.eff.len() == path.len() => plan.out,
                    _ => 0,
                };
                let min = self.min_near(a[5], out);
                let b = self.b_multi(u, &path, dl, amount, min);
                self.perform(b)
            }
            K::NftMint => {
                let Some(pool) = pool else { return false };
                if self.nfts.len() >= 8 {
                    return false;
                }
                let minter = self.user(a[1]);
                let recipient = if sel.n(4) == 3 { self.user(a[1] / 11) } else { minter };
                let (lo, hi) = self.pick_range(pool, a[2]);
                self.ensure(pool, factory_pda().0, lo, hi);
                let nft = key("nft", self.nft_counter);
                self.nft_counter += 1;
                let want = self.pick_desired(a[3], a[4]);
                let dl = self.pick_deadline(a[5] >> 48);
                let probe = self.b_nft_mint(pool, minter, recipient, nft, lo, hi, [want[0], want[1], 0, 0], NO_DEADLINE);
                let mins = self.pick_mins(a[5], &probe);
                let b = self.b_nft_mint(pool, minter, recipient, nft, lo, hi, [want[0], want[1], mins[0], mins[1]], dl);
                self.perform(b)
            }
            K::NftInc => {
                let Some(n) = self.pick_nft(a[0]) else { return false };
                let payer = self.user(a[1]);
                let want = self.pick_desired(a[3], a[4]);
                let dl = self.pick_deadline(a[5] >> 48);
                if !self.ticks_live_nft(n) {
                    let (p, lo, hi) = (self.nfts[n].pool, self.nfts[n].lo, self.nfts[n].hi);
                    if a[2] % 4 != 3 {
                        self.ensure_tick(p, lo);
                        self.ensure_tick(p, hi);
                    }
                }
                let probe = self.b_nft_inc(n, payer, [want[0], want[1], 0, 0], NO_DEADLINE);
                let mins = self.pick_mins(a[5], &probe);
                let b = self.b_nft_inc(n, payer, [want[0], want[1], mins[0], mins[1]], dl);
                self.perform(b)
            }
            K::NftDec => {
                let Some(n) = self.pick_nft(a[0]) else { return false };
                let Some((who, acct)) = self.pick_nft_auth(n, a[1]) else { return false };
                let l = self.pick_part(a[2], self.nfts[n].p.liq);
                let dl = self.pick_deadline(a[5] >> 48);
                let probe = self.b_nft_dec(n, who, acct, l, [0, 0], NO_DEADLINE);
                let mins = self.pick_mins(a[5], &probe);
                let b = self.b_nft_dec(n, who, acct, l, mins, dl);
                self.perform(b)
            }
            K::NftCollect => {
                let Some(n) = self.pick_nft(a[0]) else { return false };
                let Some((who, acct)) = self.pick_nft_auth(n, a[1]) else { return false };
                let mut m = self.nfts[n].p.clone();
                m.settle();
                let max = self.pick_max(a[2], m.owed);
                let to = if a[3] % 4 == 3 { self.user(a[3] >> 2) } else { who };
                let r = self.recipients(self.nfts[n].pool, to);
                let b = self.b_nft_collect(n, who, acct, r, max);
                self.perform(b)
            }
            K::NftMove => {
                let Some(n) = self.pick_nft(a[0]) else { return false };
                let Some((who, acct)) = self.nft_holder(n) else { return false };
                let other = self.user(a[2]);
                let m = self.nfts[n].mint;
                let ix = match a[1] % 3 {
                    0 => {
                        let to = self.ensure_ata(&other, &m);
                        spl_token::instruction::transfer(&SPL_TOKEN, &acct, &to, &who, &[], 1)
                    }
                    1 => spl_token::instruction::approve(&SPL_TOKEN, &acct, &other, &who, &[], (a[1] >> 8) % 4),
                    _ => spl_token::instruction::revoke(&SPL_TOKEN, &acct, &who, &[]),
                };
                let r = self.svm.run(&[ix.unwrap()]);
                self.note(if r.is_ok() { "nft moved" } else { "nft move failed" });
                r.is_ok()
            }
            K::Meta => {
                let Some(n) = self.pick_nft(a[0]) else { return false };
                let b = self.b_meta(n, self.user(a[1]));
                self.perform(b)
            }
            K::Card => {
                let Some(pool) = pool else { return false };
                let have = self.pools[pool].obs.slots.len();
                if have >= 12 {
                    return false;
                }
                let n = 1 + (a[1] % 4) as u16;
                let b = self.b_card(self.user(a[2]), pool, n);
                self.perform(b)
            }
            K::SetFeeProto => {
                let by = if a[1] % 4 == 3 { self.user(a[1] >> 2) } else { self.owner };
                let v = if a[2] % 5 == 4 { (a[2] >> 8) as u8 } else { 2 + (a[2] >> 8) as u8 % 9 };
                let b = self.b_set_fee_protocol(by, v);
                self.perform(b)
            }
            K::CollectProto => {
                let Some(pool) = pool else { return false };
                let by = if a[1] % 4 == 3 { self.user(a[1] >> 2) } else { self.owner };
                let to = if a[3] % 2 == 0 { self.owner } else { self.user(a[3] >> 1) };
                let max = self.pick_max(a[2], self.pools[pool].proto);
                let b = self.b_collect_protocol(by, pool, self.recipients(pool, to), max);
                self.perform(b)
            }
            K::SetOwner => {
                let by = if a[1] % 2 == 1 { self.user(a[1] >> 1) } else { self.owner };
                let new = if a[2] % 3 == 0 { self.keys.owner } else { self.user(a[2] / 3) };
                for m in self.keys.mints.clone() {
                    self.ensure_ata(&new, &m);
                }
                let b = self.b_set_owner(by, new);
                self.perform(b)
            }
            K::EnableFee => {
                let by = if a[1] % 4 == 3 { self.user(a[1] >> 2) } else { self.owner };
                let (f, s) = match a[2] % 3 {
                    0 => TIERS[(a[2] / 3) as usize % TIERS.len()],
                    1 => (
                        [999_999, 1_000_000, 1_000_001, u32::MAX, 0, 7][(a[2] / 3) as usize % 6],
                        [0, 1, 16383, 16384, 16385, u16::MAX][(a[2] / 18) as usize % 6],
                    ),
                    _ => ((a[2] / 3) as u32 % 1_100_000, (a[3] % 20_000) as u16),
                };
                let b = self.b_enable_fee(by, f, s);
                self.perform(b)
            }
            K::CreatePool => {
                if self.pools.len() >= 5 {
                    return false;
                }
                let mut b = Bits(a[1]);
                let (i, j) = [(0, 1), (1, 2), (0, 2), (1, 0), (1, 1)][b.n(5) as usize];
                let fees: Vec<u32> = self.fees.keys().copied().collect();
                let fee = if b.one_in(8) || fees.is_empty() { 12345 } else { fees[b.n(16) as usize % fees.len()] };
                let pk = PoolKey { t0: self.keys.mints[i], t1: self.keys.mints[j], fee };
                let sp = self.fees.get(&fee).copied().unwrap_or(1);
                let price = if b.one_in(4) {
                    [MIN_SQRT, MIN_SQRT - 1, MAX_SQRT, MAX_SQRT - 1, 0, u64::MAX, MAX_SQRT + 1, 1][b.n(8) as usize]
                } else {
                    pick_price(a[2], a[3], sp)
                };
                let bl = self.b_create_pool(self.user(a[4]), pk, price);
                self.perform(bl)
            }
            K::CloseTick => {
                let Some(pool) = pool else { return false };
                let ts: Vec<i32> = self.tick_accts[pool].iter().copied().collect();
                if ts.is_empty() {
                    return false;
                }
                let t = ts[a[1] as usize % ts.len()];
                let b = self.b_close_tick(pool, t, self.user(a[2]));
                self.perform(b)
            }
            K::InitTick => {
                let Some(pool) = pool else { return false };
                let sp = self.pools[pool].spacing as i32;
                let (min, max) = self.usable(pool);
                let t = match a[1] % 6 {
                    0 => self.pick_range(pool, a[2]).0,
                    1 => self.pick_range(pool, a[2]).1,
                    2 => self.pick_range(pool, a[2]).0 + (a[3] % sp as u64) as i32,
                    3 => [min, max, min - sp, max + sp, MIN_TICK, MAX_TICK, MIN_TICK - 1, MAX_TICK + 1][a[2] as usize % 8],
                    4 => [i32::MIN, i32::MAX, i32::MIN / sp * sp, i32::MAX / sp * sp][a[2] as usize % 4],
                    _ => (a[2] % 500_000) as i32 - 250_000,
                };
                let b = self.b_init_tick(self.user(a[4]), pool, t);
                self.perform(b)
            }
            K::InitBitmap => {
                let Some(pool) = pool else { return false };
                let sp = self.pools[pool].spacing as i32;
                let (lo, hi) = ((MIN_TICK / sp) >> 8, (MAX_TICK / sp) >> 8);
                let w = match a[1] % 4 {
                    0 => word_of(self.pools[pool].tick, self.pools[pool].spacing) as i32 + (a[2] % 5) as i32 - 2,
                    1 => [lo, hi, lo - 1, hi + 1, lo + 1, hi - 1][a[2] as usize % 6],
                    2 => [i16::MIN as i32, i16::MAX as i32][a[2] as usize % 2],
                    _ => (a[2] % 2000) as i32 - 1000,
                };
                let b = self.b_init_bitmap(self.user(a[4]), pool, w as i16);
                self.perform(b)
            }
            K::InitPos => {
                let Some(pool) = pool else { return false };
                let (mut lo, mut hi) = self.pick_range(pool, a[2]);
                let owner = self.user(a[3]);
                if a[1] % 4 != 3 {
                    self.ensure_tick(pool, lo);
                    self.ensure_tick(pool, hi);
                }
                if a[1] % 8 == 1 {
                    std::mem::swap(&mut lo, &mut hi);
                }
                if a[1] % 8 == 2 {
                    hi = lo;
                }
                let b = self.b_init_pos(self.user(a[4]), pool, owner, lo, hi);
                self.perform(b)
            }
            K::Donate => {
                let Some(pool) = pool else { return false };
                let s = (a[1] % 2) as usize;
                let w = self.keys.users[N_USERS];
                let from = ata(&w, &self.token(pool, s));
                let to = self.pools[pool].pk.vault(s);
                let n = log_amount(a[2], 40);
                let ix = spl_token::instruction::transfer(&SPL_TOKEN, &from, &to, &w, &[], n).unwrap();
                let r = self.svm.run(&[ix]);
                self.note("donate");
                r.is_ok()
            }
            K::Snapshot => {
                let Some(pool) = pool else { return false };
                self.take_snapshot(pool, a[1])
            }
            K::CustomMint | K::CustomSwap => self.custom(op),
            K::InitFactory => {
                let b = self.b_init_factory(self.user(a[1]));
                self.perform(b)
            }
            K::NftAgain => {
                // the same NFT once more, possibly for another range or pool
                let Some(n) = self.pick_nft(a[0]) else { return false };
                let mint = self.nfts[n].mint;
                let (pool, lo, hi) = match a[5] % 3 {
                    0 => (self.nfts[n].pool, self.nfts[n].lo, self.nfts[n].hi),
                    _ => {
                        let p = self.pick_pool(a[1]).unwrap_or(0);
                        let (lo, hi) = self.pick_range(p, a[2]);
                        (p, lo, hi)
                    }
                };
                self.ensure(pool, factory_pda().0, lo, hi);
                let (minter, to) = (self.user(a[4]), self.user(a[4] / 11));
                let mut b = self.b_nft_mint(pool, minter, to, mint, lo, hi, [1 << 30, 1 << 30, 0, 0], NO_DEADLINE);
                if b.v != Verdict::TooLong {
                    b.v = Verdict::Refuse("NFT exists");
                    b.rtag = "C13";
                }
                self.perform(b)
            }
            K::MintBig => {
                let Some(pool) = pool else { return false };
                let who = self.solo.unwrap_or(self.keys.users[N_USERS]);
                let (lo, hi) = if a[4] % 4 == 1 { self.pick_range(pool, a[2]) } else { self.wide_range(pool, a[2]) };
                self.ensure(pool, who, lo, hi);
                if a[4] % 8 < 2 {
                    // as much as a position there can hold, or one more
                    let (mut x, mut y) = (0u64, i64::MAX as u64);
                    while x < y {
                        let m = x + (y - x + 1) / 2;
                        if self.pools[pool].plan_mod(&who, lo, hi, m as i128).v == Verdict::Must {
                            x = m;
                        } else {
                            y = m - 1;
                        }
                    }
                    let l = [x, x, x.saturating_sub(1), x.saturating_add(1)][a[3] as usize % 4].clamp(1, i64::MAX as u64);
                    let b = self.b_mint(pool, who, who, lo, hi, l, cy::ID);
                    return self.perform(b);
                }
                let mut l = 1u64 << (54 + a[3] % 9);
                l += (a[3] >> 8) % l;
                let mut b = self.b_mint(pool, who, who, lo, hi, l.min(i64::MAX as u64), cy::ID);
                while b.v != Verdict::Must && l > 1 {
                    l /= 2;
                    b = self.b_mint(pool, who, who, lo, hi, l, cy::ID);
                }
                self.perform(b)
            }
            K::SwapBig => {
                // exact output of what is there, or a big part of it
                let Some(pool) = pool else { return false };
                let who = self.solo.unwrap_or(self.keys.users[N_USERS]);
                let mut bits = Bits(a[2]);
                let zfo = bits.n(2) == 1;
                let mut limit = if zfo { MIN_SQRT + 1 } else { MAX_SQRT - 1 };
                let exact_in = bits.n(4) == 3;
                let most = if exact_in { i64::MAX } else { -i64::MAX };
                let pl = self.plan_swap(pool, zfo, most, limit, MAX_STEPS);
                if pl.v == Verdict::TooLong {
                    limit = pl.price;
                }
                let whole = self.pools[pool].available(zfo, limit);
                let n = match bits.n(8) {
                    0 => most,
                    1..=4 => {
                        // around and beyond the largest amount that can be expressed
                        let (mut x, mut y) = (0i64, i64::MAX);
                        while x < y {
                            let m = x + (y - x) / 2 + 1;
                            let n = if exact_in { m } else { -m };
                            if self.plan_swap(pool, zfo, n, limit, MAX_STEPS).v == Verdict::Must {
                                x = m;
                            } else {
                                y = m - 1;
                            }
                        }
                        let room = (whole.min(i64::MAX as u128) as i64).saturating_sub(x).max(0) as u128;
                        let x = match bits.n(4) {
                            0 => x.saturating_add(a[3] as i64 % 3),
                            1 => x,
                            _ => x.saturating_add((room * (a[3] % 1024) as u128 / 1024) as i64),
                        };
                        let x = x.clamp(1, i64::MAX);
                        if exact_in { x } else { -x }
                    }
                    _ => {
                        let x = whole >> bits.n(5);
                        let x = x - x / (2 + a[3] as u128 % 1000);
                        let x = x.clamp(1, i64::MAX as u128) as i64;
                        if exact_in { x } else { -x }
                    }
                };
                let b = self.b_swap(pool, who, zfo, n, limit, cy::ID);
                self.perform(b)
            }
            K::LockedProbe => self.locked_probe(op),
            K::AttackAdmin => self.attack_admin(op),
            K::AttackAuth => self.attack_auth(op),
            K::AttackSub => self.attack_sub(op),
            K::MultiDiff => self.multi_diff(op),
        }
    }

    pub fn ticks_live(&self, pool: usize, lo: i32, hi: i32) -> bool {
        self.tick_accts[pool].contains(&lo) && self.tick_accts[pool].contains(&hi)
    }
    pub fn ticks_live_nft(&self, n: usize) -> bool {
        self.ticks_live(self.nfts[n].pool, self.nfts[n].lo, self.nfts[n].hi)
    }
    pub fn pick_nft(&self, raw: u64) -> Option<usize> {
        if self.nfts.is_empty() {
            None
        } else {
            Some((raw % 64) as usize % self.nfts.len())
        }
    }
    pub fn pick_desired(&self, x: u64, y: u64) -> [u64; 2] {
        let mut b = Bits(x);
        let m = b.n(8);
        let bits = if m == 7 { 64 } else { 40 };
        let p = log_amount(b.0, bits);
        match m {
            0 | 1 => [p, p],
            2 => [p, 0],
            3 => [0, p],
            4 => [p, u64::MAX],
            _ => [p, log_amount(y, bits)],
        }
    }
    pub fn pick_mins(&self, raw: u64, probe: &Built) -> [u64; 2] {
        let amt = probe
            .eff
            .iter()
            .find_map(|e| if let Eff::Mod { plan, .. } = e { Some(plan.amt) } else { None })
            .unwrap_or([0, 0]);
        [self.min_near(raw & 0xffff, amt[0]), self.min_near((raw >> 16) & 0xffff, amt[1])]
    }
    /// cuts the amount until no hop needs too many steps
    pub fn fit_multi(&self, u: Pubkey, path: &[(usize, bool)], mut amount: u64) -> u64 {
        for _ in 0..64 {
            if self.b_multi(u, path, NO_DEADLINE, amount, 0).v != Verdict::TooLong || amount <= 1 {
                break;
            }
            amount /= 4;
        }
        amount
    }

    // ------------------------------------------------------------ callbacks

    /// Mint or swap whose payment is made by the harness' own program: exactly, short or too much.
    pub fn custom(&mut self, op: &Op) -> bool {
        let a = op.a;
        let Some(pool) = self.pick_pool(a[0]) else { return false };
        let big = op.k == K::CustomMint && a[3] % 8 == 6;
        let user = if big { self.keys.users[N_USERS] } else { self.user(a[1]) };
        let h = handler_id();
        let mut b = if op.k == K::CustomMint {
            let (lo, hi) = if big { self.wide_range(pool, a[2]) } else { self.pick_range(pool, a[2]) };
            self.ensure(pool, user, lo, hi);
            let amount = match a[3] % 8 {
                6 => {
                    // as much as can be expressed at all
                    let (mut x, mut y) = (0u64, i64::MAX as u64);
                    while x < y {
                        let m = x + (y - x + 1) / 2;
                        if self.pools[pool].plan_mod(&user, lo, hi, m as i128).v == Verdict::Must {
                            x = m;
                        } else {
                            y = m - 1;
                        }
                    }
                    x.saturating_sub((a[3] >> 8) % 3)
                }
                7 => i64::MAX as u64 >> ((a[3] >> 8) % 12),
                _ => self.pick_liquidity(a[3] >> 3),
            };
            self.b_mint(pool, user, user, lo, hi, amount, h)
        } else {
            let (zfo, amount, limit) = self.pick_swap(pool, [a[2], a[3], a[4]]);
            self.b_swap(pool, user, zfo, amount, limit, h)
        };
        b.tag = "C14";
        let due: [u64; 2] = match b.eff.iter().next() {
            Some(Eff::Mod { plan, .. }) => plan.amt,
            Some(Eff::Swap { plan, .. }) => [plan.inn, 0],
            _ => [0, 0],
        };
        // "balance" refusals depend on what is actually paid
        let affordable = b.v != Verdict::Refuse("balance");
        let mut bits = Bits(a[5]);
        let mut pay = due;
        for s in 0..2 {
            pay[s] = match bits.n(8) {
                0..=2 => due[s],
                3 => due[s].saturating_sub(1),
                4 => 0,
                5 => due[s] / 2,
                6 => due[s].saturating_add(1 + bits.n(1000)),
                _ => due[s].saturating_sub(bits.n(1 << 20)),
            };
        }
        if op.k == K::CustomSwap {
            pay[1] = 0;
        }
        {
            let mut c = self.handler.borrow_mut();
            *c = HandlerCfg { pay, ..Default::default() };
        }
        let short = (0..2).any(|s| pay[s] < due[s]);
        let proceeds = matches!(b.v, Verdict::Must | Verdict::May) || !affordable;
        if proceeds {
            // replace the payment by what the handler really transfers
            let zfo = matches!(b.eff.first(), Some(Eff::Swap { zfo: true, .. }));
            let sides: Vec<(usize, u64)> = if op.k == K::CustomMint {
                vec![(0, pay[0]), (1, pay[1])]
            } else {
                vec![(if zfo { 0 } else { 1 }, pay[0])]
            };
            let outs: Vec<(Pubkey, i128)> = if op.k == K::CustomSwap {
                let Some(Eff::Swap { plan, .. }) = b.eff.first() else { unreachable!() };
                let o = if zfo { 1 } else { 0 };
                vec![
                    (ata(&user, &self.token(pool, o)), plan.out as i128),
                    (self.pools[pool].pk.vault(o), -(plan.out as i128)),
                ]
            } else {
                vec![]
            };
            b.toks = outs;
            let mut broke = false;
            for (s, n) in sides {
                let acct = ata(&user, &self.token(pool, s));
                broke |= self.balance(&acct) < n;
                b.toks.push((acct, -(n as i128)));
                b.toks.push((self.pools[pool].pk.vault(s), n as i128));
            }
            if short {
                b.v = Verdict::Refuse("callback did not pay what is due");
                b.rtag = "C14 C01";
            } else if broke {
                b.v = Verdict::Refuse("balance");
            } else if !affordable {
                b.v = Verdict::May;
            }
        }
        let must_call = matches!(b.v, Verdict::Must) || (short && proceeds && affordable);
        self.note(if short { "custom: underpaid" } else { "custom: paid" });
        let ok = self.perform(b);
        let c = self.handler.borrow().clone();
        if c.saw_unlocked {
            self.find("C14", "the pool was not locked while the callback ran".into());
        }
        if must_call && ok && c.calls != 1 {
            self.find("C14", format!("callback ran {} times", c.calls));
        }
        ok
    }

    // ------------------------------------------------------------ range snapshots

    pub fn take_snapshot(&mut self, pool: usize, raw: u64) -> bool {
        let ranges: Vec<(i32, i32)> = {
            let mut v: Vec<(i32, i32)> =
                self.pools[pool].pos.iter().filter(|(_, p)| p.liq > 0).map(|(k, _)| (k.1, k.2)).collect();
            v.sort();
            v.dedup();
            v
        };
        if ranges.is_empty() {
            return false;
        }
        let (lo, hi) = ranges[raw as usize % ranges.len()];
        self.snap_range(pool, lo, hi)
    }
    pub fn snap_range(&mut self, pool: usize, lo: i32, hi: i32) -> bool {
        let gen = |w: &World, t: i32| w.tick_gen.get(&(pool, t)).copied().unwrap_or(0);
        let generation = gen(self, lo) * 1_000_003 + gen(self, hi);
        let Some(val) = self.snapshot(pool, lo, hi) else {
            self.find("C08", format!("snapshot of [{},{}) failed", lo, hi));
            return false;
        };
        let want = self.inside_since_start(pool, lo, hi);
        let now = self.now();
        for s in self.snaps.clone() {
            if s.pool == pool && s.lo == lo && s.hi == hi && s.generation == generation {
                let got = (
                    val.0.wrapping_sub(s.val.0),
                    val.1.wrapping_sub(s.val.1),
                    val.2.wrapping_sub(s.val.2),
                );
                let exp = (
                    want.0.wrapping_sub(s.model.0),
                    want.1.wrapping_sub(s.model.1),
                    want.2.wrapping_sub(s.model.2),
                );
                if s.at != now {
                    self.note("snapshot pair");
                    if exp.2 > 0 && exp.2 < now - s.at {
                        self.note("snapshot pair: partly inside");
                    }
                }
                if got != exp {
                    self.find(
                        "C08",
                        format!(
                            "range [{},{}) between {} and {}: reported (tick cumulative, seconds per liquidity, seconds) {:?}, history gives {:?}",
                            lo, hi, s.at, now, got, exp
                        ),
                    );
                }
            }
        }
        self.snaps.push(Snap { pool, lo, hi, at: now, val, model: want, generation });
        true
    }

    /// integrals over the time the pool's tick was within the range, from the log of tick changes
    fn inside_since_start(&self, pool: usize, lo: i32, hi: i32) -> (i64, u64, u32) {
        let p = &self.pools[pool];
        let (now, spl_now) = (self.now(), p.obs.true_at(self.now(), p.tick, p.liq()).2);
        let mut r = (0i64, 0u64, 0u32);
        for (i, e) in p.log.iter().enumerate() {
            let (t2, s2) = match p.log.get(i + 1) {
                Some(n) => (n.time, n.spl),
                None => (now, spl_now),
            };
            if lo <= e.tick && e.tick < hi {
                let d = t2 - e.time;
                r.0 = r.0.wrapping_add(e.tick as i64 * d as i64);
                r.1 = r.1.wrapping_add(s2.wrapping_sub(e.spl));
                r.2 += d;
            }
        }
        r
    }

    // ------------------------------------------------------------ everybody leaves

    /// Every participant withdraws everything; all of it has to be accepted and paid.
    /// Everybody withdraws everything, in an order given by the case.
    pub fn drain(&mut self, order: u64) {
        #[derive(Clone, Copy)]
        enum Out {
            NftDec(usize),
            NftPay(usize),
            Burn(usize, (Pubkey, i32, i32)),
            Pay(usize, (Pubkey, i32, i32)),
            Proto(usize),
        }
        self.note("drain");
        // (what, what has to come after it)
        let mut all: Vec<Vec<Out>> = vec![];
        for n in 0..self.nfts.len() {
            if self.nft_holder(n).is_some() {
                all.push(vec![Out::NftDec(n), Out::NftPay(n)]);
            }
        }
        for pool in 0..self.pools.len() {
            for k in self.own_positions(pool) {
                if self.pools[pool].pos[&k] != MPos::default() {
                    all.push(vec![Out::Burn(pool, k), Out::Pay(pool, k)]);
                }
            }
            all.push(vec![Out::Proto(pool)]);
        }
        let o = self.owner;
        for m in self.keys.mints.clone() {
            self.ensure_ata(&o, &m);
        }
        let mut x = order;
        while !all.is_empty() {
            // splitmix64
            x = x.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^= z >> 31;
            let i = if order == 0 { 0 } else { (z % all.len() as u64) as usize };
            let what = all[i].remove(0);
            if all[i].is_empty() {
                all.remove(i);
            }
            match what {
                Out::NftDec(n) | Out::NftPay(n) => {
                    let (pool, lo, hi) = (self.nfts[n].pool, self.nfts[n].lo, self.nfts[n].hi);
                    let Some((who, acct)) = self.nft_holder(n) else { continue };
                    self.ensure_tick(pool, lo);
                    self.ensure_tick(pool, hi);
                    if matches!(what, Out::NftDec(_)) {
                        let l = self.nfts[n].p.liq;
                        if l > 0 {
                            let mut b = self.b_nft_dec(n, who, acct, l, [0, 0], NO_DEADLINE);
                            b.tag = "C01 C12 C21";
                            self.perform(b);
                        }
                    } else {
                        let mut b = self.b_nft_collect(n, who, acct, self.recipients(pool, who), [u64::MAX, u64::MAX]);
                        b.tag = "C01 C12 C21";
                        self.perform(b);
                    }
                }
                Out::Burn(pool, k) => {
                    self.ensure_tick(pool, k.1);
                    self.ensure_tick(pool, k.2);
                    let l = self.pools[pool].pos[&k].liq;
                    let parts = match l {
                        0 => vec![],
                        l if l > i64::MAX as u64 => vec![i64::MAX as u64, l - i64::MAX as u64],
                        l => vec![l],
                    };
                    for l in parts {
                        let mut b = self.b_burn(pool, k.0, k.1, k.2, l);
                        b.tag = "C01 C21";
                        self.perform(b);
                    }
                }
                Out::Pay(pool, k) => {
                    let mut b = self.b_collect(pool, k.0, k.1, k.2, self.recipients(pool, k.0), [u64::MAX, u64::MAX]);
                    b.tag = "C01 C21";
                    self.perform(b);
                }
                Out::Proto(pool) => {
                    let mut b = self.b_collect_protocol(o, pool, self.recipients(pool, o), [u64::MAX, u64::MAX]);
                    b.tag = "C01 C17";
                    self.perform(b);
                }
            }
        }
    }

    pub fn install_user_account(&mut self, k: Pubkey) {
        self.svm.accts.insert(
            k,
            Acct { lamports: 1 << 40, data: Rc::new(vec![]), owner: system_program::id(), executable: false },
        );
    }
}
