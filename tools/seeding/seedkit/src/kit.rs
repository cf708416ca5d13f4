//! A small client over the emulated runtime: mints, users, pools, and one call per instruction.
#![allow(dead_code)]
pub use crate::cy::*;
pub use crate::svm::{Acct, Svm, TxErr, TxOut, SPL_TOKEN};
pub use solana_program::{
    instruction::{AccountMeta, Instruction},
    program_option::COption,
    program_pack::Pack,
    pubkey::Pubkey,
    system_program,
};
use std::rc::Rc;

pub type R = Result<TxOut, TxErr>;
pub const MIN_P: u64 = 65537;
pub const MAX_P: u64 = 281472331703918;
pub const Q32: u64 = 1 << 32;
pub const FAR: i64 = i64::MAX;

pub fn key(kind: &str, n: u64) -> Pubkey {
    let h = solana_program::hash::hashv(&[b"demo", kind.as_bytes(), &n.to_le_bytes()]);
    Pubkey::new_from_array(h.to_bytes())
}

pub fn token_acct(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Acct {
    let a = spl_token::state::Account {
        mint: *mint,
        owner: *owner,
        amount,
        delegate: COption::None,
        state: spl_token::state::AccountState::Initialized,
        is_native: COption::None,
        delegated_amount: 0,
        close_authority: COption::None,
    };
    let mut d = vec![0; spl_token::state::Account::LEN];
    a.pack_into_slice(&mut d);
    Acct { lamports: 10_000_000, data: Rc::new(d), owner: SPL_TOKEN, executable: false }
}

pub struct K {
    pub svm: Svm,
    pub admin: Pubkey,
    pub users: Vec<Pubkey>,
    pub mints: Vec<Pubkey>,
    n: u64,
}

pub fn sqrt_at(t: i32) -> u64 {
    cyclos_core::libraries::tick_math::get_sqrt_ratio_at_tick(t).unwrap()
}

impl K {
    pub fn new() -> K {
        crate::svm::init();
        let mut svm = Svm::default();
        svm.install_programs();
        svm.clock = 1_650_000_000;
        let admin = key("admin", 0);
        let users: Vec<Pubkey> = (0..4).map(|i| key("user", i)).collect();
        let mut mints: Vec<Pubkey> = (0..3).map(|i| key("mint", i)).collect();
        mints.sort();
        for u in users.iter().chain([&admin]) {
            svm.accts.insert(*u, Acct { lamports: 1 << 50, data: Rc::new(vec![]), owner: system_program::id(), executable: false });
        }
        for m in &mints {
            let s = spl_token::state::Mint {
                mint_authority: COption::None,
                supply: u64::MAX,
                decimals: 6,
                is_initialized: true,
                freeze_authority: COption::None,
            };
            let mut d = vec![0; spl_token::state::Mint::LEN];
            s.pack_into_slice(&mut d);
            svm.accts.insert(*m, Acct { lamports: 10_000_000, data: Rc::new(d), owner: SPL_TOKEN, executable: false });
            for u in &users {
                svm.accts.insert(ata(u, m), token_acct(m, u, 1 << 61));
            }
            svm.accts.insert(ata(&admin, m), token_acct(m, &admin, 0));
        }
        let mut k = K { svm, admin, users, mints, n: 0 };
        let a = k.admin;
        k.run(init_factory(a)).expect("factory");
        k
    }

    /// One pool of mints 0 and 1.
    pub fn with_pool(fee: u32, spacing: u16, price: u64) -> (K, PoolKey) {
        let mut k = K::new();
        let pk = k.pool(0, 1, fee, spacing, price);
        (k, pk)
    }

    pub fn run(&mut self, ix: Instruction) -> R {
        self.svm.run(&[ix])
    }

    pub fn wait(&mut self, s: i64) {
        self.svm.clock += s;
    }

    pub fn pool(&mut self, a: usize, b: usize, fee: u32, spacing: u16, price: u64) -> PoolKey {
        let pk = PoolKey { t0: self.mints[a], t1: self.mints[b], fee };
        let admin = self.admin;
        if self.svm.data(&fee_pda(fee).0).is_none() {
            self.run(enable_fee_amount(admin, fee, spacing)).expect("fee tier");
        }
        let u = self.users[0];
        self.run(create_pool(u, &pk, price)).expect("pool");
        for s in 0..2 {
            let m = if s == 0 { pk.t0 } else { pk.t1 };
            self.svm.accts.insert(pk.vault(s), token_acct(&m, &pk.addr(), 0));
        }
        pk
    }

    pub fn p(&self, pk: &PoolKey) -> Pool {
        Pool::read(self.svm.data(&pk.addr()).unwrap()).unwrap()
    }
    pub fn tick(&self, pk: &PoolKey, t: i32) -> Tick {
        Tick::read(self.svm.data(&pk.tick(t).0).unwrap()).unwrap()
    }
    pub fn bit(&self, pk: &PoolKey, t: i32) -> bool {
        let sp = self.p(pk).tick_spacing;
        let c = compress(t, sp);
        match self.svm.data(&pk.bitmap(word_of(t, sp)).0).and_then(Bitmap::read) {
            Some(b) => {
                let i = c.rem_euclid(256) as usize;
                b.word[i / 64] >> (i % 64) & 1 == 1
            }
            None => false,
        }
    }
    pub fn pos(&self, pk: &PoolKey, owner: &Pubkey, lo: i32, hi: i32) -> Position {
        Position::read(self.svm.data(&pk.position(owner, lo, hi).0).unwrap()).unwrap()
    }
    pub fn obs(&self, pk: &PoolKey, i: u16) -> Obs {
        Obs::read(self.svm.data(&pk.obs(i).0).unwrap()).unwrap()
    }
    pub fn nft(&self, m: &Pubkey) -> Tokenized {
        Tokenized::read(self.svm.data(&tokenized_pda(m).0).unwrap()).unwrap()
    }
    pub fn amount(&self, acct: &Pubkey) -> u64 {
        spl_token::state::Account::unpack_from_slice(self.svm.data(acct).unwrap()).unwrap().amount
    }
    pub fn vaults(&self, pk: &PoolKey) -> [u64; 2] {
        [self.amount(&pk.vault(0)), self.amount(&pk.vault(1))]
    }
    /// What a user holds of the two tokens of a pool.
    pub fn held(&self, pk: &PoolKey, u: &Pubkey) -> [u64; 2] {
        [self.amount(&ata(u, &pk.t0)), self.amount(&ata(u, &pk.t1))]
    }

    fn obs_idx(&self, pk: &PoolKey) -> (u16, u16) {
        let p = self.p(pk);
        (p.obs_index, (p.obs_index + 1) % p.obs_card_next)
    }

    /// Creates the accounts a position needs.
    pub fn prep(&mut self, pk: &PoolKey, owner: Pubkey, lo: i32, hi: i32) -> Result<(), TxErr> {
        let sp = self.p(pk).tick_spacing;
        let u = self.users[0];
        for t in [lo, hi] {
            if self.svm.data(&pk.tick(t).0).is_none() {
                self.run(init_tick(u, pk, t))?;
            }
            let w = word_of(t, sp);
            if self.svm.data(&pk.bitmap(w).0).is_none() {
                self.run(init_bitmap(u, pk, w))?;
            }
        }
        if self.svm.data(&pk.position(&owner, lo, hi).0).is_none() {
            self.run(init_position(u, pk, owner, lo, hi))?;
        }
        Ok(())
    }

    pub fn mint_ix(&mut self, pk: &PoolKey, minter: Pubkey, recipient: Pubkey, lo: i32, hi: i32, amount: u64, handler: Pubkey) -> Instruction {
        let (last_obs, next_obs) = self.obs_idx(pk);
        let m = MintAccs {
            minter,
            ta0: ata(&minter, &pk.t0),
            ta1: ata(&minter, &pk.t1),
            recipient,
            lo,
            hi,
            spacing: self.p(pk).tick_spacing,
            last_obs,
            next_obs,
            handler,
        };
        mint(pk, &m, amount)
    }

    pub fn mint(&mut self, pk: &PoolKey, user: Pubkey, lo: i32, hi: i32, amount: u64) -> R {
        self.prep(pk, user, lo, hi)?;
        let ix = self.mint_ix(pk, user, user, lo, hi, amount, ID);
        self.run(ix)
    }

    pub fn burn(&mut self, pk: &PoolKey, user: Pubkey, lo: i32, hi: i32, amount: u64) -> R {
        let (l, n) = self.obs_idx(pk);
        let sp = self.p(pk).tick_spacing;
        self.run(burn(pk, user, lo, hi, sp, l, n, amount))
    }

    pub fn collect(&mut self, pk: &PoolKey, user: Pubkey, lo: i32, hi: i32, a0: u64, a1: u64) -> R {
        self.run(collect(pk, user, lo, hi, ata(&user, &pk.t0), ata(&user, &pk.t1), a0, a1))
    }

    /// Every bitmap and initialized tick in the direction of a swap, in the order a swap meets them.
    fn path(&self, pk: &PoolKey, zfo: bool) -> Vec<Pubkey> {
        let p = self.p(pk);
        let sp = p.tick_spacing as i32;
        let mut c = compress(p.tick, p.tick_spacing);
        if !zfo {
            c += 1;
        }
        let mut w = c.div_euclid(256);
        let mut out = vec![];
        for _ in 0..40 {
            if w < (-221818i32).div_euclid(sp).div_euclid(256) || w > (221818 / sp).div_euclid(256) {
                break;
            }
            out.push(pk.bitmap(w as i16).0);
            let mut ts: Vec<i32> = (w * 256..w * 256 + 256)
                .filter(|x| if zfo { *x <= c } else { *x >= c })
                .map(|x| x * sp)
                .filter(|t| self.bit(pk, *t))
                .collect();
            if zfo {
                ts.reverse();
            }
            out.extend(ts.iter().map(|t| pk.tick(*t).0));
            w += if zfo { -1 } else { 1 };
        }
        out
    }

    /// The accounts a swap consumes: the first prefix of the path (then the next observation) it
    /// accepts. None when it accepts no prefix.
    pub fn accounts(&self, pk: &PoolKey, zfo: bool, f: impl Fn(&[Pubkey]) -> Instruction) -> Result<Vec<Pubkey>, TxErr> {
        let path = self.path(pk, zfo);
        let next = pk.obs(self.obs_idx(pk).1).0;
        let mut err = TxErr::Runtime("no path");
        for n in 1..=path.len() {
            let mut rem = path[..n].to_vec();
            rem.push(next);
            match self.svm.simulate(&[f(&rem)]).0 {
                Ok(()) => return Ok(rem),
                Err(e) => err = e,
            }
        }
        Err(err)
    }

    pub fn swap_ix(&self, pk: &PoolKey, user: Pubkey, zfo: bool, amount: i64, limit: u64, handler: Pubkey, rem: &[Pubkey]) -> Instruction {
        let limit = if limit == 0 { if zfo { MIN_P + 1 } else { MAX_P - 1 } } else { limit };
        let (i, o) = if zfo { (pk.t0, pk.t1) } else { (pk.t1, pk.t0) };
        swap(pk, user, ata(&user, &i), ata(&user, &o), zfo, self.obs_idx(pk).0, handler, rem, amount, limit)
    }

    /// The swap instruction, paid by the program's own callback. The limit 0 stands for none.
    pub fn swap(&mut self, pk: &PoolKey, user: Pubkey, zfo: bool, amount: i64, limit: u64) -> R {
        let rem = self.accounts(pk, zfo, |r| self.swap_ix(pk, user, zfo, amount, limit, ID, r))?;
        let ix = self.swap_ix(pk, user, zfo, amount, limit, ID, &rem);
        self.run(ix)
    }

    pub fn single(&mut self, pk: &PoolKey, user: Pubkey, zfo: bool, deadline: i64, amount: u64, min_out: u64, limit: u64) -> R {
        let (i, o) = if zfo { (pk.t0, pk.t1) } else { (pk.t1, pk.t0) };
        let last = self.obs_idx(pk).0;
        let f = |r: &[Pubkey]| exact_input_single(pk, user, ata(&user, &i), ata(&user, &o), zfo, last, r, deadline, amount, min_out, limit);
        let rem = self.accounts(pk, zfo, f)?;
        self.run(exact_input_single(pk, user, ata(&user, &i), ata(&user, &o), zfo, last, &rem, deadline, amount, min_out, limit))
    }

    /// A hop of a multi-hop swap, with the accounts that `amount` needs.
    pub fn hop(&self, pk: &PoolKey, user: Pubkey, zfo: bool, amount: i64) -> Result<Hop, TxErr> {
        let o = if zfo { pk.t1 } else { pk.t0 };
        let rem = self.accounts(pk, zfo, |r| self.swap_ix(pk, user, zfo, amount, 0, ID, r))?;
        Ok(Hop { pk: *pk, zfo, t_out: ata(&user, &o), last: self.obs_idx(pk).0, rem })
    }

    pub fn tok(&self, pk: &PoolKey, user: &Pubkey, lo: i32, hi: i32) -> TokAccs {
        let (last_obs, next_obs) = self.obs_idx(pk);
        TokAccs { lo, hi, spacing: self.p(pk).tick_spacing, last_obs, next_obs, ta0: ata(user, &pk.t0), ta1: ata(user, &pk.t1) }
    }

    /// Mints a position NFT to `user` and returns its mint.
    pub fn nft_mint(&mut self, pk: &PoolKey, user: Pubkey, lo: i32, hi: i32, a: [u64; 4]) -> Result<Pubkey, TxErr> {
        self.prep(pk, factory_pda().0, lo, hi)?;
        self.n += 1;
        let m = key("nft", self.n);
        let t = self.tok(pk, &user, lo, hi);
        self.run(mint_tokenized(pk, &t, user, user, m, a, FAR))?;
        Ok(m)
    }
    pub fn nft_inc(&mut self, pk: &PoolKey, user: Pubkey, m: &Pubkey, a: [u64; 4]) -> R {
        let n = self.nft(m);
        let t = self.tok(pk, &user, n.lo, n.hi);
        self.run(increase_liquidity(pk, &t, user, *m, a, FAR))
    }
    pub fn nft_dec(&mut self, pk: &PoolKey, user: Pubkey, m: &Pubkey, l: u64) -> R {
        let n = self.nft(m);
        let t = self.tok(pk, &user, n.lo, n.hi);
        self.run(decrease_liquidity(pk, &t, user, ata(&user, m), *m, l, 0, 0, FAR))
    }
    pub fn nft_collect(&mut self, pk: &PoolKey, user: Pubkey, m: &Pubkey, a0: u64, a1: u64) -> R {
        let n = self.nft(m);
        let t = self.tok(pk, &user, n.lo, n.hi);
        self.run(collect_tokenized(pk, &t, user, ata(&user, m), *m, a0, a1))
    }
    pub fn token_ix(&mut self, ix: Instruction) {
        self.run(ix).expect("token instruction");
    }
}
