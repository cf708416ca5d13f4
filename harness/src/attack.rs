//! Adversarial operations. A valid transaction is built against the current state, then the
//! accounts, signatures or the lock are tampered with and the result is run on a copy.

use crate::cy::{self, *};
use crate::math::{mul_div_floor, Q32};
use crate::model::*;
use crate::ops::*;
use crate::svm::*;
use crate::world::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::collections::BTreeMap;
use std::rc::Rc;

impl World {
    /// The transaction that an operation would send now, together with the world (its accounts
    /// prepared) it is meant for.
    pub fn capture(&self, k: K, a: [u64; 6]) -> Option<(World, Built)> {
        let mut w = self.clone();
        w.capturing = true;
        w.captured = None;
        w.apply(&Op { k, a });
        w.capturing = false;
        let b = w.captured.take()?;
        Some((w, *b))
    }

    /// As above, but only transactions that are accepted as they are.
    fn capture_good(&self, k: K, a: [u64; 6]) -> Option<(World, Built, TxOut)> {
        let (w, b) = self.capture(k, a)?;
        if b.v != Verdict::Must {
            return None;
        }
        let (r, out) = w.svm.simulate(std::slice::from_ref(&b.ix));
        r.ok()?;
        Some((w, b, out))
    }

    pub fn b_init_factory(&self, by: Pubkey) -> Built {
        Built {
            kind: "init_factory",
            tag: "C15",
            rtag: "C15 C09",
            ix: init_factory(by),
            v: Verdict::Refuse("factory exists"),
            toks: vec![],
            events: vec![],
            eff: vec![],
            pool: vec![],
            extra: vec![],
            signer: by,
            limits: vec![],
            price_limit: None,
        }
    }

    fn refused(&mut self, w: &World, tag: Tag, ix: &Instruction, what: &str) {
        self.trace = self.trace.wrapping_mul(0x100000001b3).wrapping_add(ix.data.iter().fold(7, |h, x| h * 131u64.wrapping_add(*x as u64) % 0xfffffffb));
        if w.svm.simulate(std::slice::from_ref(ix)).0.is_ok() {
            self.find(tag, what.to_string());
        }
    }

    // ------------------------------------------------------------ administration

    pub fn attack_admin(&mut self, op: &Op) -> bool {
        let a = op.a;
        let mut bits = Bits(a[5]);
        let owner = self.owner;
        let mallory = self.user(a[1]);
        if mallory == owner {
            return false;
        }
        let mut w = self.clone();
        let kind = bits.n(4);
        let b = match kind {
            0 => w.b_set_fee_protocol(owner, 2 + (a[2] % 9) as u8),
            1 => w.b_set_owner(owner, mallory),
            2 => {
                let fee = (a[2] % 900_000) as u32;
                w.b_enable_fee(owner, fee, 1 + (a[3] % 16000) as u16)
            }
            _ => {
                let Some(pool) = self.pick_pool(a[0]) else { return false };
                let r = self.recipients(pool, mallory);
                w.b_collect_protocol(owner, pool, r, [u64::MAX, u64::MAX])
            }
        };
        if b.v != Verdict::Must || w.svm.simulate(std::slice::from_ref(&b.ix)).0.is_err() {
            return false;
        }
        let fac = factory_pda().0;
        let mut ix = b.ix.clone();
        let what = match bits.n(6) {
            0 => {
                ix.accounts.iter_mut().filter(|m| m.pubkey == owner).for_each(|m| m.is_signer = false);
                if kind == 2 {
                    // somebody has to pay for the account: nobody does
                }
                "without the owner's signature"
            }
            1 => {
                ix.accounts.iter_mut().filter(|m| m.pubkey == owner).for_each(|m| m.pubkey = mallory);
                "signed by somebody else"
            }
            2 => {
                // a look-alike owned by another program
                let fake = key("fake factory", 0);
                let mut acct = w.svm.get(&fac).unwrap().clone();
                let mut d = (*acct.data).clone();
                cy::encode(&mut d, cy::states::factory::FactoryState { bump: factory_pda().1, owner: mallory, fee_protocol: 3 });
                acct.data = Rc::new(d);
                acct.owner = handler_id();
                w.svm.accts.insert(fake, acct);
                for m in ix.accounts.iter_mut() {
                    if m.pubkey == owner {
                        m.pubkey = mallory;
                    } else if m.pubkey == fac {
                        m.pubkey = fake;
                    }
                }
                "with a factory account that is not the program's"
            }
            3 => {
                // any other account of the program
                let mut ks: Vec<Pubkey> = w.svm.accts.iter().filter(|(k, x)| x.owner == cy::ID && **k != fac).map(|x| *x.0).collect();
                ks.sort();
                if ks.is_empty() {
                    return false;
                }
                let other = ks[a[4] as usize % ks.len()];
                for m in ix.accounts.iter_mut() {
                    if m.pubkey == owner {
                        m.pubkey = mallory;
                    } else if m.pubkey == fac {
                        m.pubkey = other;
                    }
                }
                "with an unrelated account as the factory"
            }
            4 => {
                ix.accounts.iter_mut().filter(|m| m.pubkey == owner).for_each(|m| m.is_signer = false);
                ix.accounts.push(AccountMeta::new(mallory, true));
                "with a foreign signature appended"
            }
            _ => {
                // whoever owned it before has no say any more
                let mut next = w.clone();
                let give = next.b_set_owner(owner, mallory);
                if next.svm.run(std::slice::from_ref(&give.ix)).is_err() {
                    return false;
                }
                w = next;
                "signed by the previous owner"
            }
        };
        self.note(&format!("admin attack: {}", what));
        let msg = format!("{} was accepted {}", b.kind, what);
        self.refused(&w, "C09", &ix, &msg);
        true
    }

    // ------------------------------------------------------------ positions and payments

    pub fn attack_auth(&mut self, op: &Op) -> bool {
        let mut a = op.a;
        let mut bits = Bits(a[5]);
        let mode = bits.n(12);
        let mut_ = bits.n(4);
        let pick = bits.n(64);
        let who = bits.n(64);
        a[5] = 0;
        if mode >= 10 {
            return self.attack_custodian(a, mode == 11);
        }
        let k = [K::NftDec, K::NftCollect, K::Burn, K::Collect, K::NftDec, K::NftCollect, K::Mint, K::Swap, K::Single, K::NftMint][mode as usize];
        // the honest holder acts
        if matches!(k, K::NftDec | K::NftCollect) {
            a[1] = 0;
        }
        let Some((mut w, b, _)) = self.capture_good(k, a) else { return false };
        let signer = b.signer;
        let mallory = {
            let c: Vec<Pubkey> = w.keys.users.iter().filter(|u| **u != signer).cloned().collect();
            c[who as usize % c.len()]
        };
        // there has to be something at stake
        let stake = match b.eff.first() {
            Some(Eff::Mod { delta, plan, .. }) if matches!(k, K::Mint | K::NftMint) => *delta > 0 && plan.amt != [0, 0],
            Some(Eff::Swap { plan, .. }) => plan.inn > 0,
            _ => true,
        };
        if !stake {
            return false;
        }
        let nft = match k {
            K::NftDec | K::NftCollect => w.nfts.iter().position(|n| b.extra.contains(&tokenized_pda(&n.mint).0)),
            _ => None,
        };
        let mut ix = b.ix.clone();
        let what = match (nft, mut_) {
            (Some(n), 1..=3) => {
                let n_mint = w.nfts[n].mint;
                let Some((holder, acct)) = w.nft_holder(n) else { return false };
                if w.nft_authorised(&acct, &mallory, &n_mint) {
                    return false;
                }
                let mut cand: Vec<(&str, Pubkey)> = vec![("the victim's NFT account", acct)];
                let empty = w.ensure_ata(&mallory, &n_mint);
                cand.push(("an empty account for the NFT", empty));
                for (i, o) in w.nfts.iter().enumerate() {
                    if i != n {
                        if let Some((h, x)) = w.nft_holder(i) {
                            if h == mallory {
                                cand.push(("an account of another NFT", x));
                            }
                        }
                    }
                    let _ = o;
                }
                // worthless token with a single unit
                let junk = key("junk mint", 0);
                w.svm.accts.insert(junk, mint_acct(1, 0, None));
                let ja = ata(&mallory, &junk);
                w.svm.accts.insert(ja, token_acct(&junk, &mallory, 1));
                cand.push(("one unit of another token", ja));
                // forged token account, owned by another program
                let fake = key("forged", 0);
                let mut f = token_acct(&n_mint, &mallory, 1);
                f.owner = handler_id();
                w.svm.accts.insert(fake, f);
                cand.push(("a forged token account", fake));
                let own: Vec<_> = cand.iter().filter(|c| c.0 == "an account of another NFT").cloned().collect();
                let (name, proof) = if mut_ == 3 && !own.is_empty() { own[pick as usize % own.len()] } else { cand[pick as usize % cand.len()] };
                for m in ix.accounts.iter_mut() {
                    if m.pubkey == holder && m.is_signer {
                        m.pubkey = mallory;
                    } else if m.pubkey == acct {
                        m.pubkey = proof;
                    }
                }
                name
            }
            (_, 0) => {
                ix.accounts.iter_mut().filter(|m| m.pubkey == signer).for_each(|m| m.is_signer = false);
                "no signature"
            }
            (_, 1) => {
                ix.accounts.iter_mut().filter(|m| m.pubkey == signer).for_each(|m| m.is_signer = false);
                ix.accounts.push(AccountMeta::new(mallory, true));
                "a foreign signature appended"
            }
            _ => {
                ix.accounts.iter_mut().filter(|m| m.pubkey == signer).for_each(|m| m.pubkey = mallory);
                "a foreign signer"
            }
        };
        self.note(&format!("attack on {}: {}", b.kind, what));
        let msg = format!("{} of {} was accepted with {}", b.kind, signer, what);
        self.refused(&w, "C10", &ix, &msg);
        true
    }

    /// The custodian's positions cannot be touched directly.
    fn attack_custodian(&mut self, a: [u64; 6], collect: bool) -> bool {
        if self.nfts.is_empty() {
            return false;
        }
        let n = &self.nfts[a[0] as usize % self.nfts.len()];
        let (pool, lo, hi) = (n.pool, n.lo, n.hi);
        let f = factory_pda().0;
        let mallory = self.user(a[1]);
        let Some(p) = self.pools[pool].pos.get(&(f, lo, hi)) else { return false };
        if !self.ticks_live(pool, lo, hi) || p.liq == 0 {
            return false;
        }
        let r = self.recipients(pool, mallory);
        let mut ix = if collect {
            self.b_collect(pool, f, lo, hi, r, [u64::MAX, u64::MAX]).ix
        } else {
            self.b_burn(pool, f, lo, hi, (p.liq / 2).max(1)).ix
        };
        let what = if a[2] % 2 == 0 {
            ix.accounts[0].is_signer = false;
            "nobody's signature"
        } else {
            ix.accounts[0] = AccountMeta::new(mallory, true);
            "a foreign signature"
        };
        self.note(&format!("attack on the custodian: {}", what));
        let w = self.clone();
        let msg = format!("{} of the custodian's position was accepted with {}", if collect { "collect" } else { "burn" }, what);
        self.refused(&w, "C10", &ix, &msg);
        true
    }

    // ------------------------------------------------------------ the lock

    /// Whatever moves liquidity or tokens is refused while the pool is locked.
    pub fn locked_probe(&mut self, op: &Op) -> bool {
        let mut a = op.a;
        let k = [K::Swap, K::Mint, K::Burn, K::Collect, K::Card, K::CollectProto, K::Single, K::Multi, K::NftMint, K::NftInc, K::NftDec, K::NftCollect]
            [(a[5] % 12) as usize];
        a[5] = 0;
        if matches!(k, K::NftDec | K::NftCollect | K::CollectProto) {
            a[1] = 0;
        }
        let Some((mut w, b, _)) = self.capture_good(k, a) else { return false };
        let locked = b.pool[a[4] as usize % b.pool.len()];
        let addr = w.pools[locked].pk.addr();
        let mut acct = w.svm.get(&addr).unwrap().clone();
        let mut d = (*acct.data).clone();
        let mut s: cy::states::pool::PoolState = unsafe { std::ptr::read_unaligned(d[8..].as_ptr() as *const _) };
        s.unlocked = false;
        cy::encode(&mut d, s);
        acct.data = Rc::new(d);
        w.svm.accts.insert(addr, acct);
        self.note(&format!("locked: {}", b.kind));
        let msg = format!("{} was accepted by a locked pool", b.kind);
        self.refused(&w, "C14", &b.ix, &msg);
        true
    }

    // ------------------------------------------------------------ several hops at once

    /// A path in one transaction does exactly what its hops do one after the other.
    pub fn multi_diff(&mut self, op: &Op) -> bool {
        let a = op.a;
        let u = self.user(a[1]);
        let path = self.pick_path(a[0]);
        if path.is_empty() {
            return false;
        }
        let amount = self.fit_multi(u, &path, log_amount(a[3] >> 2, 42));
        let b = self.b_multi(u, &path, NO_DEADLINE, amount, 0);
        if !matches!(b.v, Verdict::Must | Verdict::May) || b.eff.len() != path.len() {
            return false;
        }
        let mut one = self.svm.clone();
        let first = one.run(std::slice::from_ref(&b.ix));
        // hop by hop: the measured output of one is the input of the next
        let mut w = self.clone();
        w.trace_log = None;
        let mut amt = amount;
        let mut failed = None;
        let mut last_out = 0;
        for (i, (pool, zfo)) in path.iter().enumerate() {
            let out_acct = ata(&u, &w.token(*pool, if *zfo { 1 } else { 0 }));
            let before = w.balance(&out_acct);
            let h = w.b_single(*pool, u, *zfo, NO_DEADLINE, amt, 0, 0);
            let Some(eff) = h.eff.first().cloned() else { return false };
            match w.svm.run(std::slice::from_ref(&h.ix)) {
                Ok(_) => {}
                Err(e) => {
                    failed = Some((i, e));
                    break;
                }
            }
            w.apply_eff(&eff);
            amt = w.balance(&out_acct) - before;
            last_out = amt;
        }
        self.note(&format!("path of {} compared with its hops", path.len()));
        match (&first, &failed) {
            (Ok(_), None) => {
                let mut diff = vec![];
                for (k, x) in &one.accts {
                    if w.svm.accts.get(k) != Some(x) {
                        diff.push(*k);
                    }
                }
                if one.accts.len() != w.svm.accts.len() {
                    diff.push(Pubkey::default());
                }
                if !diff.is_empty() {
                    self.find("C19", format!("path {:?} with {} leaves {} accounts different from what its hops leave ({} received hop by hop)", path, amount, diff.len(), last_out));
                }
                // the minimum applies to what the last hop delivers
                for (min, ok) in [(last_out, true), (last_out + 1, false)] {
                    let m = self.b_multi(u, &path, NO_DEADLINE, amount, min);
                    let r = self.svm.simulate(std::slice::from_ref(&m.ix)).0;
                    if r.is_ok() != ok {
                        self.find("C19 C18", format!("path {:?} with {} and minimum {} is {:?}, the hops deliver {}", path, amount, min, r, last_out));
                    }
                }
            }
            (Err(e), None) => self.find("C19", format!("path {:?} with {} is refused ({:?}), its hops are accepted", path, amount, e)),
            (Ok(_), Some((i, e))) => self.find("C19", format!("path {:?} with {} is accepted, its hop {} is refused ({:?})", path, amount, i, e)),
            _ => {}
        }
        true
    }

    // ------------------------------------------------------------ substituted accounts

    pub fn attack_sub(&mut self, op: &Op) -> bool {
        let mut a = op.a;
        let mut bits = Bits(a[5]);
        const KS: [K; 18] = [
            K::Mint, K::Burn, K::Collect, K::Swap, K::Single, K::Multi, K::NftMint, K::NftInc, K::NftDec, K::NftCollect, K::Burn,
            K::Collect, K::NftDec, K::NftCollect, K::CollectProto, K::Card, K::CloseTick, K::Meta,
        ];
        let k = KS[bits.n(18) as usize];
        if matches!(k, K::NftDec | K::NftCollect) {
            a[1] = 0;
        }
        if matches!(k, K::CollectProto) {
            a[1] = 0;
        }
        let raw = bits.0;
        a[5] = 0;
        let Some((mut w, b, good)) = self.capture_good(k, a) else { return false };
        let mut bits = Bits(raw);
        let n = 1 + bits.one_in(4) as usize;
        let mut ix = b.ix.clone();
        let mut what = vec![];
        for _ in 0..n {
            let i = bits.n(97) as usize % ix.accounts.len();
            let old = ix.accounts[i].pubkey;
            if let Some((name, new)) = w.substitute(old, &mut bits, &b) {
                if new != old {
                    ix.accounts[i].pubkey = new;
                    what.push(format!("account {} ({}) by {}", i, w.role(&old), name));
                }
            } else if ix.accounts.len() > i + 1 && bits.n(2) == 1 {
                let (x, y) = (ix.accounts[i].pubkey, ix.accounts[i + 1].pubkey);
                ix.accounts[i].pubkey = y;
                ix.accounts[i + 1].pubkey = x;
                what.push(format!("accounts {} and {} exchanged", i, i + 1));
            }
        }
        if what.is_empty() {
            return false;
        }
        *w.handler.borrow_mut() = HandlerCfg::default();
        let (r, out) = w.svm.simulate(std::slice::from_ref(&ix));
        self.trace = self.trace.wrapping_mul(0x100000001b3).wrapping_add(raw);
        if r.is_err() {
            self.note(&format!("substitution refused: {}", b.kind));
            return true;
        }
        if out.changed == good.changed {
            self.note("substitution without effect");
            return true;
        }
        if std::env::var_os("CYSUB").is_some() {
            self.note(&format!("sub ok: {} {}", b.kind, what.join(", ")));
        } else {
            self.note("substitution accepted");
        }
        let bad = w.consistent_after(&b, &out);
        // somebody else may receive, an NFT of the same range may be increased instead, and another
        // tick account may be closed; everything else that matters is bound to the pool and to the signer
        let free = |s: &String| s.contains("(token account)") || (b.kind == "increase_liquidity" && s.contains("(NFT record)"));
        if !what.iter().any(free) && b.kind != "close_tick_account" {
            self.find("C11", format!("{} was accepted with {}, with another effect than the intended transaction", b.kind, what.join(", ")));
        }
        for m in bad {
            self.find("C11", format!("{} with {}: {}", b.kind, what.join(", "), m));
        }
        true
    }

    pub fn role(&self, k: &Pubkey) -> &'static str {
        if let Some((_, kind)) = self.reg.get(k) {
            return match kind {
                AcctKind::Pool => "pool",
                AcctKind::Obs(_) => "observation",
                AcctKind::Tick(_) => "tick",
                AcctKind::Bitmap(_) => "bitmap",
                AcctKind::Pos(..) => "position",
            };
        }
        if *k == factory_pda().0 {
            return "factory";
        }
        if self.nfts.iter().any(|n| tokenized_pda(&n.mint).0 == *k) {
            return "NFT record";
        }
        if self.nfts.iter().any(|n| n.mint == *k) {
            return "NFT mint";
        }
        if self.keys.mints.contains(k) {
            return "mint";
        }
        if *k == cy::ID {
            return "core program";
        }
        if *k == SPL_TOKEN {
            return "token program";
        }
        if self.pools.iter().any(|p| p.pk.vault(0) == *k || p.pk.vault(1) == *k) {
            return "vault";
        }
        if let Some(a) = self.svm.get(k) {
            if a.owner == SPL_TOKEN {
                return "token account";
            }
        }
        if self.keys.users.contains(k) {
            return "user";
        }
        "other"
    }

    /// A plausible stand-in for an account.
    fn substitute(&mut self, old: Pubkey, bits: &mut Bits, b: &Built) -> Option<(&'static str, Pubkey)> {
        let role = self.role(&old);
        let mode = bits.n(4);
        let pick = bits.n(251) as usize;
        let mallory = self.keys.users[bits.n(N_USERS as u64) as usize];
        let of_reg = |w: &World, f: &dyn Fn(&AcctKind) -> bool| -> Vec<Pubkey> {
            let mut v: Vec<Pubkey> = w.reg.iter().filter(|(k, x)| **k != old && f(&x.1) && w.svm.accts.contains_key(*k)).map(|x| *x.0).collect();
            v.sort();
            v
        };
        let choose = |v: Vec<Pubkey>| -> Option<Pubkey> {
            if v.is_empty() {
                None
            } else {
                Some(v[pick % v.len()])
            }
        };
        match role {
            "pool" | "observation" | "tick" | "bitmap" | "position" | "factory" | "NFT record" => {
                if mode == 3 {
                    // a copy that belongs to another program, with contents of the attacker's choice
                    let fake = key("fake", pick as u64);
                    let mut acct = self.svm.get(&old)?.clone();
                    let mut d = (*acct.data).clone();
                    if role == "position" || role == "NFT record" {
                        // enormous claims
                        let n = d.len();
                        for x in d[n - 16..].iter_mut() {
                            if pick % 2 == 0 {
                                *x = 0x3f;
                            }
                        }
                    }
                    acct.data = Rc::new(d);
                    acct.owner = handler_id();
                    self.svm.accts.insert(fake, acct);
                    return Some(("a copy owned by another program", fake));
                }
                let same: Vec<Pubkey> = match role {
                    "pool" => of_reg(self, &|k| matches!(k, AcctKind::Pool)),
                    "observation" => of_reg(self, &|k| matches!(k, AcctKind::Obs(_))),
                    "tick" => of_reg(self, &|k| matches!(k, AcctKind::Tick(_))),
                    "bitmap" => of_reg(self, &|k| matches!(k, AcctKind::Bitmap(_))),
                    "position" => of_reg(self, &|k| matches!(k, AcctKind::Pos(..))),
                    "NFT record" => self.nfts.iter().map(|n| tokenized_pda(&n.mint).0).filter(|k| *k != old).collect(),
                    _ => vec![],
                };
                if mode == 2 || same.is_empty() {
                    return choose(of_reg(self, &|_| true)).map(|k| ("an account of another kind", k));
                }
                choose(same).map(|k| ("another account of its kind", k))
            }
            "vault" => match mode {
                0 => {
                    let v: Vec<Pubkey> = (0..self.pools.len()).flat_map(|p| [self.pools[p].pk.vault(0), self.pools[p].pk.vault(1)]).filter(|k| *k != old).collect();
                    choose(v).map(|k| ("another vault", k))
                }
                1 => {
                    // same mint, same owner, but not the vault
                    let t = self.svm.get(&old)?.clone();
                    let fake = key("side vault", pick as u64 % 2);
                    let mut t2 = t;
                    let mut d = (*t2.data).clone();
                    d[64..72].copy_from_slice(&(1u64 << 40).to_le_bytes());
                    t2.data = Rc::new(d);
                    self.svm.accts.insert(fake, t2);
                    Some(("another token account of the pool", fake))
                }
                2 => Some(("a user's token account", self.same_mint_of(&old, &mallory)?)),
                _ => self.forged_token(&old, pick),
            },
            "token account" => match mode {
                0 | 1 => Some(("somebody else's token account", self.same_mint_of(&old, &mallory)?)),
                2 => {
                    let v: Vec<Pubkey> = (0..self.pools.len()).flat_map(|p| [self.pools[p].pk.vault(0), self.pools[p].pk.vault(1)]).collect();
                    choose(v).map(|k| ("a vault", k))
                }
                _ => self.forged_token(&old, pick),
            },
            "token program" | "core program" => Some(("a program that does nothing", noop_id())),
            "NFT mint" => choose(self.nfts.iter().map(|n| n.mint).filter(|k| *k != old).collect()).map(|k| ("another NFT", k)),
            "user" if old != b.signer => Some(("another user", mallory)),
            _ => None,
        }
    }

    fn same_mint_of(&mut self, old: &Pubkey, who: &Pubkey) -> Option<Pubkey> {
        let d = self.svm.data(old)?;
        let mint = Pubkey::new(&d[..32]);
        Some(self.ensure_ata(who, &mint))
    }
    fn forged_token(&mut self, old: &Pubkey, pick: usize) -> Option<(&'static str, Pubkey)> {
        let fake = key("forged token account", pick as u64);
        let mut t = self.svm.get(old)?.clone();
        t.owner = handler_id();
        self.svm.accts.insert(fake, t);
        Some(("a forged token account", fake))
    }

    /// Which guarantees the state after a tampered transaction (simulated on this world) breaks.
    fn consistent_after(&self, b: &Built, out: &TxOut) -> Vec<String> {
        let mut bad = vec![];
        let mut svm = self.svm.clone();
        for (k, (_, post)) in &out.changed {
            if post.lamports == 0 {
                svm.accts.remove(k);
            } else {
                svm.accts.insert(*k, post.clone());
            }
        }
        let bal = |s: &Svm, k: &Pubkey| s.data(k).and_then(token_amount).unwrap_or(0);
        // administration
        if svm.data(&factory_pda().0) != self.svm.data(&factory_pda().0) {
            bad.push("the factory changed".to_string());
        }
        for (i, p) in self.pools.iter().enumerate() {
            let (Some(c0), Some(c)) = (self.svm.data(&p.pk.addr()).and_then(Pool::read), svm.data(&p.pk.addr()).and_then(Pool::read)) else {
                bad.push(format!("pool {} is gone", i));
                continue;
            };
            if (c.token_0, c.token_1, c.fee, c.tick_spacing, c.bump) != (c0.token_0, c0.token_1, c0.fee, c0.tick_spacing, c0.bump) || !c.unlocked {
                bad.push(format!("pool {} has another configuration", i));
            }
            if b.kind != "collect_protocol" && (c.proto0 < c0.proto0 || c.proto1 < c0.proto1) {
                bad.push(format!("protocol fees of pool {} fell", i));
            }
            let read = |s: &Svm| -> BTreeMap<(Pubkey, i32, i32), Position> {
                p.pos.keys().filter_map(|k| s.data(&p.pk.position(&k.0, k.1, k.2).0).and_then(Position::read).map(|q| (*k, q))).collect()
            };
            let (before, after) = (read(&self.svm), read(&svm));
            for (k, x) in &before {
                let Some(y) = after.get(k) else {
                    bad.push(format!("position {:?} is gone", k));
                    continue;
                };
                // the custodian acts through the program
                let acts = k.0 == b.signer || k.0 == factory_pda().0;
                if !acts && (y.liquidity < x.liquidity || y.owed0 < x.owed0 || y.owed1 < x.owed1) {
                    bad.push(format!("position {:?} of somebody else fell from {:?} to {:?}", k, x, y));
                }
            }
            // ticks may have been closed by the transaction
            let ticks = self.tick_accts[i].iter().copied().filter(|t| svm.accts.contains_key(&p.pk.tick(*t).0)).collect();
            for (t, m) in chain_invariants(&svm, p, &c, &after, &ticks, &self.bitmap_accts[i]) {
                bad.push(format!("pool {}: [{}] {}", i, t, m));
            }
            // what the vaults lose has to leave the books
            let claims = |c: &Pool, pos: &BTreeMap<(Pubkey, i32, i32), Position>, s: &Svm| -> [i128; 2] {
                let mut r = [c.proto0 as i128, c.proto1 as i128];
                for (k, q) in pos {
                    let pr = principal(c.price, c.tick, k.1, k.2, q.liquidity);
                    let pend = pending_on_chain(s, p, c, k, q);
                    r[0] += pr[0] as i128 + q.owed0 as i128 + pend[0] as i128;
                    r[1] += pr[1] as i128 + q.owed1 as i128 + pend[1] as i128;
                }
                r
            };
            let (q0, q1) = (claims(&c0, &before, &self.svm), claims(&c, &after, &svm));
            for s in 0..2 {
                let v = p.pk.vault(s);
                let dv = bal(&svm, &v) as i128 - bal(&self.svm, &v) as i128;
                let dc = q1[s] - q0[s];
                if dv < dc - (p.pos.len() as i128 + 2) {
                    bad.push(format!("vault {} of pool {} changed by {} and the claims by {}", s, i, dv, dc));
                }
            }
            // observations: only the current one and its successor
            let idx = c0.obs_index;
            for s in 0..c0.obs_card_next {
                let k = p.pk.obs(s).0;
                if svm.data(&k) != self.svm.data(&k) && s != idx && s != p.obs.next_index() {
                    bad.push(format!("observation {} of pool {} changed, {} is current", s, i, idx));
                }
            }
            let read = |s: &Svm, i: u16| s.data(&p.pk.obs(i).0).and_then(Obs::read);
            let newest = (0..c.obs_card_next).filter_map(|s| read(&svm, s)).filter(|o| o.init).map(|o| o.ts).max();
            if read(&svm, c.obs_index).map(|o| o.ts) != newest {
                bad.push(format!("observation {} of pool {} is not the newest", c.obs_index, i));
            }
        }
        // nobody else pays
        for (k, (pre, post)) in &out.changed {
            if pre.owner == SPL_TOKEN && pre.data.len() == 165 {
                let o = Pubkey::new(&pre.data[32..64]);
                let (x, y) = (token_amount(&pre.data).unwrap(), token_amount(&post.data).unwrap_or(0));
                let vault = self.pools.iter().any(|p| p.pk.vault(0) == *k || p.pk.vault(1) == *k);
                if y < x && o != b.signer && !vault && self.keys.users.contains(&o) {
                    bad.push(format!("{} lost {}", o, x - y));
                }
            }
        }
        // NFT records
        let mut sum: BTreeMap<(usize, i32, i32), u128> = BTreeMap::new();
        for n in &self.nfts {
            let k = tokenized_pda(&n.mint).0;
            let (Some(x), Some(y)) = (self.svm.data(&k).and_then(Tokenized::read), svm.data(&k).and_then(Tokenized::read)) else {
                bad.push("an NFT record is gone".into());
                continue;
            };
            if (x.mint, x.pool_id, x.lo, x.hi) != (y.mint, y.pool_id, y.lo, y.hi) {
                bad.push("an NFT record describes another position".into());
            }
            if y.liquidity < x.liquidity || y.owed0 < x.owed0 || y.owed1 < x.owed1 {
                let ok = self.nft_holder(self.nfts.iter().position(|m| m.mint == n.mint).unwrap()).map_or(false, |(h, acct)| {
                    h == b.signer || self.nft_authorised(&acct, &b.signer, &n.mint)
                });
                if !ok {
                    bad.push(format!("the NFT {} of somebody else fell from {:?} to {:?}", n.mint, x, y));
                }
            }
            *sum.entry((n.pool, n.lo, n.hi)).or_default() += y.liquidity as u128;
            // credited at most what the custodian received
        }
        let fac = factory_pda().0;
        // what the NFTs are owed, with what they are credited once they are settled against their position
        let nft_owed = |s: &Svm, pool: usize, lo: i32, hi: i32, c: &Position| -> [i128; 2] {
            let mut r = [0i128; 2];
            for n in self.nfts.iter().filter(|n| (n.pool, n.lo, n.hi) == (pool, lo, hi)) {
                if let Some(t) = s.data(&tokenized_pda(&n.mint).0).and_then(Tokenized::read) {
                    let credit = |now: u64, then: u64| mul_div_floor(now.wrapping_sub(then), t.liquidity, Q32).unwrap_or(0) as i128;
                    r[0] += t.owed0 as i128 + credit(c.fgi0, t.fgi0);
                    r[1] += t.owed1 as i128 + credit(c.fgi1, t.fgi1);
                }
            }
            r
        };
        for ((pool, lo, hi), s) in sum {
            let k = self.pools[pool].pk.position(&fac, lo, hi).0;
            let core = |s: &Svm| s.data(&k).and_then(Position::read);
            let (Some(c0), Some(c1)) = (core(&self.svm), core(&svm)) else { continue };
            if (c1.liquidity as u128) < s {
                bad.push(format!("NFTs promise {} of liquidity in [{},{}), the custodian holds {}", s, lo, hi, c1.liquidity));
            }
            let (o0, o1) = (nft_owed(&self.svm, pool, lo, hi, &c0), nft_owed(&svm, pool, lo, hi, &c1));
            let d = [c1.owed0 as i128 - c0.owed0 as i128, c1.owed1 as i128 - c0.owed1 as i128];
            let poked = c1.fgi0 != c0.fgi0 || c1.fgi1 != c0.fgi1;
            for s in 0..2 {
                // what leaves the custodian's position leaves the NFTs too
                if !poked && d[s] < 0 && o1[s] - o0[s] > d[s] {
                    bad.push(format!("the custodian paid {} of side {} but the NFTs' claims changed by {}", -d[s], s, o1[s] - o0[s]));
                }
            }
        }
        bad
    }
}

/// Fees a position would be credited with if it was settled now, derived from the accounts alone.
pub fn pending_on_chain(s: &Svm, p: &MPool, c: &Pool, k: &(Pubkey, i32, i32), q: &Position) -> [u64; 2] {
    let rd = |t: i32| s.data(&p.pk.tick(t).0).and_then(Tick::read);
    let (Some(l), Some(h)) = (rd(k.1), rd(k.2)) else { return [0, 0] };
    let inside = |g: u64, lo: u64, hi: u64| -> u64 {
        let below = if c.tick >= k.1 { lo } else { g.wrapping_sub(lo) };
        let above = if c.tick < k.2 { hi } else { g.wrapping_sub(hi) };
        g.wrapping_sub(below).wrapping_sub(above)
    };
    let d = [
        inside(c.fg0, l.fgo0, h.fgo0).wrapping_sub(q.fgi0),
        inside(c.fg1, l.fgo1, h.fgo1).wrapping_sub(q.fgi1),
    ];
    [
        crate::math::mul_div_floor(d[0], q.liquidity, crate::math::Q32).unwrap_or(0),
        crate::math::mul_div_floor(d[1], q.liquidity, crate::math::Q32).unwrap_or(0),
    ]
}

pub fn is_system(k: &Pubkey) -> bool {
    *k == system_program::id()
}
