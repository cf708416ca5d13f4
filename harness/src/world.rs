//! A market with several pools, traders, liquidity providers and position NFTs. Abstract
//! operations are resolved against the current state to concrete transactions, run against the
//! real program, and compared with the reference model. Deviations become findings tagged with
//! the property they belong to.

use crate::cy::{self, *};
use crate::math::*;
use crate::model::*;
use crate::svm::*;
use serde::{Deserialize, Serialize};
use solana_program::{
    account_info::AccountInfo, instruction::{AccountMeta, Instruction}, program_option::COption, program_pack::Pack,
    pubkey::Pubkey, system_program,
};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type Tag = &'static str;

#[derive(Clone, Debug)]
pub struct Finding {
    pub tag: String,
    pub msg: String,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum K {
    Mint,
    Burn,
    Collect,
    Swap,
    Single,
    Multi,
    NftMint,
    NftInc,
    NftDec,
    NftCollect,
    NftMove,
    Meta,
    Advance,
    Card,
    SetFeeProto,
    CollectProto,
    SetOwner,
    EnableFee,
    CreatePool,
    CloseTick,
    InitTick,
    InitBitmap,
    InitPos,
    Donate,
    Snapshot,
    CustomMint,
    CustomSwap,
    InitFactory,
    NftAgain,
    MintBig,
    SwapBig,
    LockedProbe,
    AttackAdmin,
    AttackAuth,
    AttackSub,
    MultiDiff,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub k: K,
    pub a: [u64; 6],
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    /// raw choices: [tier, price mode, price value] per pool
    pub pools: Vec<[u64; 3]>,
    pub clock: u64,
    pub fee_protocol: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}

pub const TIERS: [(u32, u16); 12] = [
    (3000, 60),
    (500, 10),
    (10000, 200),
    (100, 1),
    (0, 2),
    (2500, 16383),
    (500000, 7),
    (999999, 100),
    (1, 3),
    (30000, 1000),
    (40000, 867),
    (60000, 5000),
];

pub const N_USERS: usize = 4;

pub fn key(kind: &str, n: u64) -> Pubkey {
    let h = solana_program::hash::hashv(&[b"cyverif", kind.as_bytes(), &n.to_le_bytes()]);
    Pubkey::new_from_array(h.to_bytes())
}

thread_local! {
    static KEYS: Rc<Keys> = Rc::new(Keys::new());
}

pub struct Keys {
    pub mints: Vec<Pubkey>,
    pub users: Vec<Pubkey>,
    pub owner: Pubkey,
}
impl Keys {
    fn new() -> Keys {
        let mut mints: Vec<Pubkey> = (0..3).map(|i| key("mint", i)).collect();
        mints.sort();
        Keys { mints, users: (0..N_USERS as u64 + 1).map(|i| key("user", i)).collect(), owner: key("owner", 0) }
    }
}

/// Shrinks towards small exponents; about one in eight is near 2^63.
pub fn log_amount(raw: u64, max_bits: u32) -> u64 {
    let bits = (raw & 0xff) as u32 % (max_bits + 1);
    let m = raw >> 8;
    if bits == 0 {
        return 0;
    }
    let m = m.rotate_left(17) | (1 << 63);
    m >> (64 - bits)
}

#[derive(Clone, Debug)]
pub enum Eff {
    Swap { pool: usize, zfo: bool, plan: SwapPlan },
    Mod { pool: usize, owner: Pubkey, lo: i32, hi: i32, delta: i128, plan: ModPlan },
    Collect { pool: usize, owner: Pubkey, lo: i32, hi: i32, a: [u64; 2] },
    CollectProto { pool: usize, a: [u64; 2] },
    NftNew { mint: Pubkey, pool: usize, lo: i32, hi: i32, liq: u64 },
    NftAdd { nft: usize, liq: u64 },
    NftSub { nft: usize, liq: u64, amt: [u64; 2] },
    NftPay { nft: usize, a: [u64; 2] },
    NftMeta { nft: usize },
    Card { pool: usize, n: u16 },
    FeeProto(u8),
    Owner(Pubkey),
    Fee(u32, u16),
    Pool(Box<MPool>),
    Tick { pool: usize, tick: i32 },
    Bitmap { pool: usize, word: i16 },
    Pos { pool: usize, owner: Pubkey, lo: i32, hi: i32 },
    TickClosed { pool: usize, tick: i32 },
    None,
}

#[derive(Clone)]
pub struct Built {
    pub kind: &'static str,
    /// property for a deviation in the outcome
    pub tag: Tag,
    /// property for wrongly accepting what has to be refused
    pub rtag: Tag,
    pub ix: Instruction,
    pub v: Verdict,
    pub toks: Vec<(Pubkey, i128)>,
    pub events: Vec<Event>,
    pub eff: Vec<Eff>,
    pub pool: Vec<usize>,
    /// further accounts that may change
    pub extra: Vec<Pubkey>,
    pub signer: Pubkey,
    /// limits the user gave: bounds on the change of a token account
    pub limits: Vec<(Pubkey, i128, i128)>,
    /// pool, direction, price limit
    pub price_limit: Option<(usize, bool, u64)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum AcctKind {
    Pool,
    Obs(u16),
    Tick(i32),
    Bitmap(i16),
    Pos(Pubkey, i32, i32),
}

#[derive(Clone, Debug)]
pub struct Snap {
    pub pool: usize,
    pub lo: i32,
    pub hi: i32,
    pub at: u32,
    pub val: (i64, u64, u32),
    pub model: (i64, u64, u32),
    pub generation: u64,
}

#[derive(Clone)]
pub struct World {
    pub svm: Svm,
    pub keys: Rc<Keys>,
    pub pools: Vec<MPool>,
    pub nfts: Vec<MNft>,
    pub owner: Pubkey,
    pub fee_protocol: u8,
    pub fees: BTreeMap<u32, u16>,
    pub reg: HashMap<Pubkey, (usize, AcctKind)>,
    pub tick_accts: Vec<BTreeSet<i32>>,
    pub bitmap_accts: Vec<BTreeSet<i16>>,
    pub findings: Vec<Finding>,
    /// number of findings ever
    pub deviations: u64,
    pub stats: BTreeMap<String, u64>,
    pub trace: u64,
    pub nft_counter: u64,
    pub snaps: Vec<Snap>,
    /// per pool, bumped whenever a tick of a range was cleared (snapshots become incomparable)
    pub tick_gen: HashMap<(usize, i32), u64>,
    pub trace_log: Option<Vec<String>>,
    pub handler: Rc<std::cell::RefCell<HandlerCfg>>,
    /// exact surplus of a vault over all claims, in units of 2^-64
    pub surplus: HashMap<(usize, usize), (U512, bool)>,
    /// when set, operations are only built, the next one ends up in `captured`
    pub capturing: bool,
    pub captured: Option<Box<Built>>,
    /// when set, all operations are done by this user with its own positions
    pub solo: Option<Pubkey>,
    pub no_whale: bool,
}

/// What the harness' own callback program does when called.
#[derive(Clone, Debug, Default)]
pub struct HandlerCfg {
    /// amounts to transfer from the payer to each vault, in account order of the callback
    pub pay: [u64; 2],
    /// number of times called and whether the pool was locked at that time
    pub calls: u32,
    pub saw_unlocked: bool,
    pub reenter: Option<Instruction>,
    pub args: Vec<[u64; 2]>,
    pub swap: bool,
}

/// a program that accepts everything and does nothing
pub fn noop_id() -> Pubkey {
    key("noop", 0)
}

pub fn handler_id() -> Pubkey {
    key("handler", 0)
}

impl World {
    pub fn new(cfg: &Cfg) -> World {
        let keys = KEYS.with(|k| k.clone());
        let mut svm = Svm::default();
        svm.install_programs();
        let base = 1_600_000_000i64;
        svm.clock = match cfg.clock % 16 {
            0 => u32::MAX as i64 - (cfg.clock >> 4) as i64 % 4000,
            _ => base + (cfg.clock >> 4) as i64 % 100_000_000,
        };
        for u in keys.users.iter().chain([&keys.owner]) {
            svm.accts.insert(
                *u,
                Acct { lamports: 1 << 50, data: Rc::new(vec![]), owner: system_program::id(), executable: false },
            );
        }
        for m in &keys.mints {
            svm.accts.insert(*m, mint_acct(u64::MAX, 6, None));
            let mut left = u64::MAX;
            for (i, u) in keys.users.iter().enumerate() {
                let n = if i < N_USERS { 1u64 << 61 } else { left };
                left -= n.min(left);
                svm.accts.insert(ata(u, m), token_acct(m, u, n));
            }
            svm.accts.insert(ata(&keys.owner, m), token_acct(m, &keys.owner, 0));
        }
        let handler = Rc::new(std::cell::RefCell::new(HandlerCfg::default()));
        let h2 = handler.clone();
        svm.install_handler(handler_id(), Rc::new(move |id, infos, data| run_handler(&h2, id, infos, data)));
        svm.install_handler(noop_id(), Rc::new(|_, _, _| Ok(())));
        let mut wld = World {
            svm,
            owner: keys.owner,
            keys,
            pools: vec![],
            nfts: vec![],
            fee_protocol: 3,
            fees: BTreeMap::new(),
            reg: HashMap::new(),
            tick_accts: vec![],
            bitmap_accts: vec![],
            findings: vec![],
            deviations: 0,
            stats: BTreeMap::new(),
            trace: 0,
            nft_counter: 0,
            snaps: vec![],
            tick_gen: HashMap::new(),
            trace_log: None,
            handler,
            surplus: HashMap::new(),
            capturing: false,
            captured: None,
            solo: None,
            no_whale: false,
        };
        let b = Built {
            kind: "init_factory",
            tag: "C15",
            rtag: "C15",
            ix: init_factory(wld.owner),
            v: Verdict::Must,
            toks: vec![],
            events: vec![Event::OwnerChanged { old: Pubkey::default(), new: wld.owner }],
            eff: vec![Eff::None],
            pool: vec![],
            extra: vec![factory_pda().0],
            signer: wld.owner,
            limits: vec![],
            price_limit: None,
        };
        wld.perform(b);
        let fp = 2 + (cfg.fee_protocol % 9) as u8;
        if fp != 3 {
            let b = wld.b_set_fee_protocol(wld.owner, fp);
            wld.perform(b);
        }
        for p in &cfg.pools {
            wld.setup_pool(p);
        }
        wld
    }

    pub fn note(&mut self, s: &str) {
        *self.stats.entry(s.to_string()).or_default() += 1;
    }
    pub fn stat(&self, s: &str) -> u64 {
        self.stats.get(s).copied().unwrap_or(0)
    }
    pub fn find(&mut self, tag: impl Into<String>, msg: String) {
        let tag: String = tag.into();
        if let Some(t) = &mut self.trace_log {
            t.push(format!("!! {} {}", tag, msg));
        }
        if std::env::var_os("CYV").is_some() { eprintln!("FIND {} {}", tag, msg); }
        self.deviations += 1;
        if self.findings.len() < 64 {
            self.findings.push(Finding { tag, msg });
        }
    }
    pub fn now(&self) -> u32 {
        self.svm.clock as u32
    }
    pub fn user(&self, raw: u64) -> Pubkey {
        if let Some(s) = self.solo {
            return s;
        }
        if self.no_whale {
            return self.keys.users[raw as usize % 11 % N_USERS];
        }
        // the whale is rare
        let i = if raw % 11 == 10 { N_USERS } else { (raw % 11) as usize % N_USERS };
        self.keys.users[i]
    }
    pub fn balance(&self, acct: &Pubkey) -> u64 {
        self.svm.data(acct).and_then(token_amount).unwrap_or(0)
    }
    pub fn token(&self, pool: usize, side: usize) -> Pubkey {
        let pk = &self.pools[pool].pk;
        if side == 0 {
            pk.t0
        } else {
            pk.t1
        }
    }

    // ------------------------------------------------------------ setup

    fn setup_pool(&mut self, raw: &[u64; 3]) {
        let (fee, spacing) = TIERS[(raw[0] % 256) as usize % TIERS.len()];
        if !self.fees.contains_key(&fee) {
            let b = self.b_enable_fee(self.owner, fee, spacing);
            self.perform(b);
        }
        let pair = match (raw[0] >> 8) % 3 {
            0 => (0, 1),
            1 => (1, 2),
            _ => (0, 2),
        };
        let price = pick_price(raw[1], raw[2], spacing);
        let pk = PoolKey { t0: self.keys.mints[pair.0], t1: self.keys.mints[pair.1], fee };
        if self.pools.iter().any(|p| p.pk == pk) {
            return;
        }
        let b = self.b_create_pool(self.keys.users[0], pk, price);
        self.perform(b);
    }

    pub fn ensure_vaults(&mut self, pk: &PoolKey) {
        for s in 0..2 {
            let v = pk.vault(s);
            if !self.svm.accts.contains_key(&v) {
                let m = if s == 0 { pk.t0 } else { pk.t1 };
                self.svm.accts.insert(v, token_acct(&m, &pk.addr(), 0));
            }
        }
    }

    pub fn ensure_ata(&mut self, owner: &Pubkey, mint: &Pubkey) -> Pubkey {
        let a = ata(owner, mint);
        if !self.svm.accts.contains_key(&a) {
            self.svm.accts.insert(a, token_acct(mint, owner, 0));
        }
        a
    }

    // ------------------------------------------------------------ builders

    fn blank(&self, kind: &'static str, tag: Tag, ix: Instruction, signer: Pubkey) -> Built {
        Built {
            kind,
            tag,
            rtag: tag,
            ix,
            v: Verdict::Must,
            toks: vec![],
            events: vec![],
            eff: vec![],
            pool: vec![],
            extra: vec![],
            signer,
            limits: vec![],
            price_limit: None,
        }
    }

    pub fn b_set_fee_protocol(&self, by: Pubkey, v: u8) -> Built {
        let mut b = self.blank("set_fee_protocol", "C17", set_fee_protocol(by, v), by);
        b.rtag = "C09";
        b.extra.push(factory_pda().0);
        if by != self.owner {
            b.v = Verdict::Refuse("not the owner");
        } else if !(2..=10).contains(&v) {
            b.v = Verdict::Refuse("fee protocol out of range");
            b.rtag = "C17";
        }
        b.events = vec![Event::SetFeeProtocol { old: self.fee_protocol, new: v }];
        b.eff.push(Eff::FeeProto(v));
        b
    }
    pub fn b_set_owner(&self, by: Pubkey, new: Pubkey) -> Built {
        let mut b = self.blank("set_owner", "C09", set_owner(by, new), by);
        b.extra.push(factory_pda().0);
        if by != self.owner {
            b.v = Verdict::Refuse("not the owner");
        }
        b.events = vec![Event::OwnerChanged { old: self.owner, new }];
        b.eff.push(Eff::Owner(new));
        b
    }
    pub fn b_enable_fee(&self, by: Pubkey, fee: u32, spacing: u16) -> Built {
        let mut b = self.blank("enable_fee_amount", "C15", enable_fee_amount(by, fee, spacing), by);
        b.extra = vec![fee_pda(fee).0, factory_pda().0];
        if by != self.owner {
            b.v = Verdict::Refuse("not the owner");
            b.rtag = "C09";
        } else if self.fees.contains_key(&fee) {
            b.v = Verdict::Refuse("already enabled");
        } else if fee >= 1_000_000 || spacing == 0 || spacing >= 16384 {
            b.v = Verdict::Refuse("fee or spacing out of range");
        }
        b.events = vec![Event::FeeAmountEnabled { fee, spacing }];
        b.eff.push(Eff::Fee(fee, spacing));
        b
    }
    pub fn b_create_pool(&self, by: Pubkey, pk: PoolKey, price: u64) -> Built {
        let mut b = self.blank("create_and_init_pool", "C15", create_pool(by, &pk, price), by);
        b.extra = vec![pk.addr(), pk.obs(0).0];
        let spacing = self.fees.get(&pk.fee).copied();
        let tick = tick_at(price);
        if pk.t0 >= pk.t1 {
            b.v = Verdict::Refuse("token order");
        } else if spacing.is_none() {
            b.v = Verdict::Refuse("fee not enabled");
        } else if self.pools.iter().any(|p| p.pk == pk) {
            b.v = Verdict::Refuse("exists");
        } else if tick.is_none() {
            b.v = Verdict::Refuse("price out of range");
        }
        if b.v == Verdict::Must {
            let (spacing, tick) = (spacing.unwrap(), tick.unwrap());
            b.events = vec![Event::PoolCreated { t0: pk.t0, t1: pk.t1, fee: pk.fee, spacing, pool: pk.addr(), price, tick }];
            let now = self.now();
            b.eff.push(Eff::Pool(Box::new(MPool {
                pk,
                spacing,
                price,
                tick,
                pos: BTreeMap::new(),
                proto: [0, 0],
                obs: MOracle::new(now),
                log: vec![LogE { time: now, tick, spl: 0 }],
                wrapped: false,
                fg: [0, 0],
                touts: BTreeMap::new(),
            })));
        }
        b
    }
    pub fn b_collect_protocol(&self, by: Pubkey, pool: usize, r: [Pubkey; 2], a: [u64; 2]) -> Built {
        let p = &self.pools[pool];
        let mut b = self.blank("collect_protocol", "C17", collect_protocol(by, &p.pk, r[0], r[1], a[0], a[1]), by);
        b.rtag = "C09";
        b.pool.push(pool);
        if by != self.owner {
            b.v = Verdict::Refuse("not the owner");
        }
        let got = [a[0].min(p.proto[0]), a[1].min(p.proto[1])];
        for s in 0..2 {
            b.toks.push((p.pk.vault(s), -(got[s] as i128)));
            b.toks.push((r[s], got[s] as i128));
        }
        b.events = vec![Event::CollectProtocol { pool: p.pk.addr(), sender: by, r0: r[0], r1: r[1], a0: got[0], a1: got[1] }];
        b.eff.push(Eff::CollectProto { pool, a: got });
        b
    }
    pub fn b_card(&self, by: Pubkey, pool: usize, n: u16) -> Built {
        let p = &self.pools[pool];
        let from = p.obs.slots.len() as u16;
        let mut b = self.blank("increase_observation_cardinality_next", "C07", increase_cardinality(by, &p.pk, from, n), by);
        b.pool.push(pool);
        for i in 0..n {
            b.extra.push(p.pk.obs(from + i).0);
        }
        b.events = vec![Event::IncCardinality { old: from, new: from + n }];
        b.eff.push(Eff::Card { pool, n });
        b
    }
    pub fn tick_valid(&self, pool: usize, t: i32) -> bool {
        (MIN_TICK..=MAX_TICK).contains(&t) && t % self.pools[pool].spacing as i32 == 0
    }
    pub fn b_init_tick(&self, by: Pubkey, pool: usize, t: i32) -> Built {
        let p = &self.pools[pool];
        let mut b = self.blank("init_tick_account", "C16", init_tick(by, &p.pk, t), by);
        b.rtag = "C15";
        b.pool.push(pool);
        b.extra.push(p.pk.tick(t).0);
        if self.tick_accts[pool].contains(&t) {
            b.v = Verdict::Refuse("exists");
        } else if !self.tick_valid(pool, t) {
            b.v = Verdict::Refuse("invalid tick");
        }
        b.eff.push(Eff::Tick { pool, tick: t });
        b
    }
    pub fn b_init_bitmap(&self, by: Pubkey, pool: usize, word: i16) -> Built {
        let p = &self.pools[pool];
        let mut b = self.blank("init_bitmap_account", "C15", init_bitmap(by, &p.pk, word), by);
        b.pool.push(pool);
        b.extra.push(p.pk.bitmap(word).0);
        let sp = p.spacing as i32;
        if self.bitmap_accts[pool].contains(&word) {
            b.v = Verdict::Refuse("exists");
        } else if (word as i32) < (MIN_TICK / sp) >> 8 || word as i32 > (MAX_TICK / sp) >> 8 {
            b.v = Verdict::Refuse("no tick lies in this word");
        }
        b.eff.push(Eff::Bitmap { pool, word });
        b
    }
    pub fn b_init_pos(&self, by: Pubkey, pool: usize, owner: Pubkey, lo: i32, hi: i32) -> Built {
        let p = &self.pools[pool];
        let mut b = self.blank("init_position_account", "C15", init_position(by, &p.pk, owner, lo, hi), by);
        b.pool.push(pool);
        b.extra.push(p.pk.position(&owner, lo, hi).0);
        if p.pos.contains_key(&(owner, lo, hi)) {
            b.v = Verdict::Refuse("exists");
        } else if lo >= hi {
            b.v = Verdict::Refuse("tick order");
        } else if !self.tick_accts[pool].contains(&lo) || !self.tick_accts[pool].contains(&hi) {
            b.v = Verdict::Refuse("tick account missing");
        }
        b.eff.push(Eff::Pos { pool, owner, lo, hi });
        b
    }
    pub fn b_close_tick(&self, pool: usize, t: i32, recipient: Pubkey) -> Built {
        let p = &self.pools[pool];
        let k = p.pk.tick(t).0;
        let mut b = self.blank("close_tick_account", "C16", close_tick(k, recipient), recipient);
        b.extra.push(k);
        b.pool.push(pool);
        if !self.tick_accts[pool].contains(&t) {
            b.v = Verdict::Refuse("no such tick account");
        } else if p.ticks().contains_key(&t) {
            b.v = Verdict::Refuse("tick still referenced");
        }
        b.eff.push(Eff::TickClosed { pool, tick: t });
        b
    }

    fn afford(&self, b: &mut Built) {
        if !matches!(b.v, Verdict::Must | Verdict::May) {
            return;
        }
        for (k, d) in net(&b.toks) {
            let bal = self.balance(&k) as i128;
            if bal + d < 0 || bal + d > u64::MAX as i128 {
                // a vault that cannot pay is a solvency problem, not a reason to refuse
                if !self.pools.iter().any(|p| p.pk.vault(0) == k || p.pk.vault(1) == k) {
                    b.v = Verdict::Refuse("balance");
                }
            }
        }
    }

    pub fn b_mint(&self, pool: usize, minter: Pubkey, recipient: Pubkey, lo: i32, hi: i32, amount: u64, handler: Pubkey) -> Built {
        let p = &self.pools[pool];
        let accs = MintAccs {
            minter,
            ta0: ata(&minter, &p.pk.t0),
            ta1: ata(&minter, &p.pk.t1),
            recipient,
            lo,
            hi,
            spacing: p.spacing,
            last_obs: p.obs.index,
            next_obs: p.obs.next_index(),
            handler,
        };
        let mut b = self.blank("mint", "C21", cy::mint(&p.pk, &accs, amount), minter);
        b.pool.push(pool);
        let plan = p.plan_mod(&recipient, lo, hi, amount as i128);
        b.v = plan.v;
        if amount == 0 {
            b.v = Verdict::Refuse("zero amount");
        }
        for s in 0..2 {
            b.toks.push((ata(&minter, &self.token(pool, s)), -(plan.amt[s] as i128)));
            b.toks.push((p.pk.vault(s), plan.amt[s] as i128));
        }
        b.events = vec![Event::Mint { pool: p.pk.addr(), sender: minter, owner: recipient, lo, hi, amount, a0: plan.amt[0], a1: plan.amt[1] }];
        b.eff.push(Eff::Mod { pool, owner: recipient, lo, hi, delta: amount as i128, plan });
        self.afford(&mut b);
        b
    }
    pub fn b_burn(&self, pool: usize, owner: Pubkey, lo: i32, hi: i32, amount: u64) -> Built {
        let p = &self.pools[pool];
        let ix = cy::burn(&p.pk, owner, lo, hi, p.spacing, p.obs.index, p.obs.next_index(), amount);
        let mut b = self.blank("burn", "C21", ix, owner);
        b.pool.push(pool);
        let plan = p.plan_mod(&owner, lo, hi, -(amount as i128));
        b.v = plan.v;
        b.events = vec![Event::Burn { pool: p.pk.addr(), owner, lo, hi, amount, a0: plan.amt[0], a1: plan.amt[1] }];
        b.eff.push(Eff::Mod { pool, owner, lo, hi, delta: -(amount as i128), plan });
        b
    }
    pub fn b_collect(&self, pool: usize, owner: Pubkey, lo: i32, hi: i32, r: [Pubkey; 2], a: [u64; 2]) -> Built {
        let p = &self.pools[pool];
        let ix = cy::collect(&p.pk, owner, lo, hi, r[0], r[1], a[0], a[1]);
        let mut b = self.blank("collect", "C21", ix, owner);
        b.pool.push(pool);
        let m = p.pos.get(&(owner, lo, hi)).cloned().unwrap_or_default();
        let got = [a[0].min(m.owed[0]), a[1].min(m.owed[1])];
        if !self.tick_accts[pool].contains(&lo) || !self.tick_accts[pool].contains(&hi) {
            b.v = Verdict::Refuse("tick account closed");
        }
        for s in 0..2 {
            b.toks.push((p.pk.vault(s), -(got[s] as i128)));
            b.toks.push((r[s], got[s] as i128));
        }
        b.events = vec![Event::Collect { pool: p.pk.addr(), owner, lo, hi, a0: got[0], a1: got[1] }];
        b.eff.push(Eff::Collect { pool, owner, lo, hi, a: got });
        b
    }
    pub fn plan_swap(&self, pool: usize, zfo: bool, amount: i64, limit: u64, max_steps: usize) -> SwapPlan {
        let bm = &self.bitmap_accts[pool];
        self.pools[pool].plan_swap(zfo, amount, limit, self.fee_protocol, self.now(), &|w| bm.contains(&w), max_steps)
    }
    fn swap_event(&self, pool: usize, user: Pubkey, ta: [Pubkey; 2], zfo: bool, pl: &SwapPlan) -> Event {
        let (i, o) = (pl.inn as i64, -(pl.out as i64));
        Event::Swap {
            pool: self.pools[pool].pk.addr(),
            sender: user,
            ta0: ta[0],
            ta1: ta[1],
            a0: if zfo { i } else { o },
            a1: if zfo { o } else { i },
            price: pl.price,
            liquidity: self.pools[pool].active_at(pl.tick) as u64,
            tick: pl.tick,
        }
    }
    fn swap_toks(&self, pool: usize, ta: [Pubkey; 2], zfo: bool, pl: &SwapPlan) -> Vec<(Pubkey, i128)> {
        let p = &self.pools[pool];
        let (i, o) = if zfo { (0, 1) } else { (1, 0) };
        vec![
            (ta[i], -(pl.inn as i128)),
            (p.pk.vault(i), pl.inn as i128),
            (ta[o], pl.out as i128),
            (p.pk.vault(o), -(pl.out as i128)),
        ]
    }
    pub fn b_swap(&self, pool: usize, user: Pubkey, zfo: bool, amount: i64, limit: u64, handler: Pubkey) -> Built {
        let p = &self.pools[pool];
        let ta = [ata(&user, &p.pk.t0), ata(&user, &p.pk.t1)];
        let pl = self.plan_swap(pool, zfo, amount, limit, MAX_STEPS);
        let (ti, to) = if zfo { (ta[0], ta[1]) } else { (ta[1], ta[0]) };
        let ix = cy::swap(&p.pk, user, ti, to, zfo, p.obs.index, handler, &pl.rem, amount, limit);
        let mut b = self.blank("swap", "C04", ix, user);
        b.pool.push(pool);
        b.v = pl.v;
        if b.v == Verdict::Refuse("price limit") {
            b.rtag = "C03 C04 C18";
        }
        if handler == cy::ID {
            let big = i128::MAX;
            if amount > 0 {
                b.limits.push((ti, -(amount as i128), big));
            } else {
                b.limits.push((to, 0, -(amount as i128)));
            }
        }
        b.price_limit = Some((pool, zfo, limit));
        if matches!(b.v, Verdict::Must | Verdict::May) {
            b.toks = self.swap_toks(pool, ta, zfo, &pl);
            b.events = vec![self.swap_event(pool, user, ta, zfo, &pl)];
        }
        b.eff.push(Eff::Swap { pool, zfo, plan: pl });
        self.afford(&mut b);
        b
    }
    pub fn b_single(&self, pool: usize, user: Pubkey, zfo: bool, deadline: i64, amount: u64, min_out: u64, limit: u64) -> Built {
        let p = &self.pools[pool];
        let ta = [ata(&user, &p.pk.t0), ata(&user, &p.pk.t1)];
        let lim = if limit == 0 {
            if zfo {
                MIN_SQRT + 1
            } else {
                MAX_SQRT - 1
            }
        } else {
            limit
        };
        let pl = if amount > i64::MAX as u64 {
            let mut pl = self.plan_swap(pool, zfo, 0, lim, 1);
            pl.v = Verdict::Refuse("amount does not fit");
            pl
        } else {
            self.plan_swap(pool, zfo, amount as i64, lim, MAX_STEPS)
        };
        let (ti, to) = if zfo { (ta[0], ta[1]) } else { (ta[1], ta[0]) };
        let ix = exact_input_single(&p.pk, user, ti, to, zfo, p.obs.index, &pl.rem, deadline, amount, min_out, limit);
        let mut b = self.blank("exact_input_single", "C04", ix, user);
        b.rtag = if pl.v == Verdict::Refuse("price limit") { "C03 C04 C18" } else { "C04" };
        b.limits = vec![(ti, -(amount as i128), i128::MAX), (to, min_out as i128, i128::MAX)];
        b.price_limit = Some((pool, zfo, lim));
        b.pool.push(pool);
        b.v = pl.v;
        if matches!(b.v, Verdict::Must | Verdict::May) {
            b.toks = self.swap_toks(pool, ta, zfo, &pl);
            b.events = vec![self.swap_event(pool, user, ta, zfo, &pl)];
        }
        if b.v != Verdict::TooLong {
            let soft = matches!(b.v, Verdict::Must | Verdict::May);
            if self.svm.clock > deadline {
                b.v = Verdict::Refuse("deadline");
                b.rtag = "C18";
            } else if soft && pl.out < min_out {
                b.v = Verdict::Refuse("minimum output");
                b.rtag = "C18";
            } else if soft {
                b.tag = if min_out > 0 || limit > 0 { "C04 C18" } else { "C04" };
            }
        }
        b.eff.push(Eff::Swap { pool, zfo, plan: pl });
        self.afford(&mut b);
        b
    }
    /// `path`: (pool, zero for one)
    pub fn b_multi(&self, user: Pubkey, path: &[(usize, bool)], deadline: i64, amount: u64, min_out: u64) -> Built {
        let mut scratch: HashMap<usize, MPool> = HashMap::new();
        let (mut hops, mut toks, mut events, mut eff, mut pools) = (vec![], vec![], vec![], vec![], vec![]);
        let mut v = Verdict::Must;
        let mut rtag = "C19";
        let mut amt = amount;
        let now = self.now();
        let mut t_in = Pubkey::default();
        for (i, (pool, zfo)) in path.iter().enumerate() {
            let p = scratch.entry(*pool).or_insert_with(|| self.pools[*pool].clone());
            let ta = [ata(&user, &p.pk.t0), ata(&user, &p.pk.t1)];
            let (ti, to) = if *zfo { (ta[0], ta[1]) } else { (ta[1], ta[0]) };
            if i == 0 {
                t_in = ti;
            }
            let bm = &self.bitmap_accts[*pool];
            let lim = if *zfo { MIN_SQRT + 1 } else { MAX_SQRT - 1 };
            let big = amt > i64::MAX as u64;
            let pl = p.plan_swap(*zfo, if big { 0 } else { amt as i64 }, lim, self.fee_protocol, now, &|w| bm.contains(&w), MAX_STEPS);
            let pv = if big { Verdict::Refuse("amount does not fit") } else { pl.v };
            hops.push(Hop { pk: p.pk, zfo: *zfo, t_out: to, last: p.obs.index, rem: pl.rem.clone() });
            match pv {
                Verdict::Must => {}
                Verdict::May => v = Verdict::May,
                o => {
                    v = o;
                    break;
                }
            }
            let p0 = p.pk;
            let _ = p0;
            let liq_after = p.active_at(pl.tick) as u64;
            let (gi, go) = (pl.inn as i64, -(pl.out as i64));
            events.push(Event::Swap {
                pool: p.pk.addr(),
                sender: user,
                ta0: ta[0],
                ta1: ta[1],
                a0: if *zfo { gi } else { go },
                a1: if *zfo { go } else { gi },
                price: pl.price,
                liquidity: liq_after,
                tick: pl.tick,
            });
            toks.extend(self.swap_toks(*pool, ta, *zfo, &pl));
            // what the input account holds must cover this hop before later hops can refill it
            let bal = self.balance(&ti) as i128
                + toks[..toks.len() - 4].iter().filter(|t| t.0 == ti).map(|t| t.1).sum::<i128>();
            if bal < pl.inn as i128 {
                v = Verdict::Refuse("balance");
                break;
            }
            amt = pl.out;
            p.apply_swap(&pl, *zfo, now);
            pools.push(*pool);
            eff.push(Eff::Swap { pool: *pool, zfo: *zfo, plan: pl });
        }
        if v != Verdict::TooLong {
            if self.svm.clock > deadline {
                v = Verdict::Refuse("deadline");
                rtag = "C18";
            } else if matches!(v, Verdict::Must | Verdict::May) && amt < min_out {
                v = Verdict::Refuse("minimum output");
                rtag = "C18";
            }
        }
        let ix = exact_input(user, t_in, &hops, deadline, amount, min_out);
        let mut b = self.blank("exact_input", if min_out > 0 { "C19 C18" } else { "C19" }, ix, user);
        if let Some(h) = hops.last() {
            // a path may come back to its first token
            b.limits = if h.t_out == t_in {
                vec![(t_in, min_out as i128 - amount as i128, i128::MAX)]
            } else {
                vec![(t_in, -(amount as i128), i128::MAX), (h.t_out, min_out as i128, i128::MAX)]
            };
        }
        b.rtag = rtag;
        b.v = v;
        b.toks = toks;
        b.events = events;
        b.eff = eff;
        b.pool = pools;
        self.afford(&mut b);
        b
    }

    fn tok_accs(&self, pool: usize, lo: i32, hi: i32, ta: [Pubkey; 2]) -> TokAccs {
        let p = &self.pools[pool];
        TokAccs { lo, hi, spacing: p.spacing, last_obs: p.obs.index, next_obs: p.obs.next_index(), ta0: ta[0], ta1: ta[1] }
    }

    /// shared part of adding liquidity through an NFT
    fn nft_deposit(&self, b: &mut Built, pool: usize, payer: Pubkey, lo: i32, hi: i32, a: [u64; 4], deadline: i64) -> (u64, [u64; 2]) {
        let p = &self.pools[pool];
        let f = factory_pda().0;
        let liq = if lo < hi { liquidity_for(p.price, sqrt_at(lo), sqrt_at(hi), a[0], a[1]) } else { None };
        let l = liq.unwrap_or(0);
        let plan = p.plan_mod(&f, lo, hi, l as i128);
        b.v = plan.v;
        if liq.is_none() {
            b.v = Verdict::Refuse("liquidity does not fit");
        } else if l == 0 {
            b.v = Verdict::Refuse("zero liquidity");
        }
        b.pool.push(pool);
        for s in 0..2 {
            b.toks.push((ata(&payer, &self.token(pool, s)), -(plan.amt[s] as i128)));
            b.toks.push((p.pk.vault(s), plan.amt[s] as i128));
        }
        let amt = plan.amt;
        for s in 0..2 {
            // an impossible minimum makes any acceptance a violation
            b.limits.push((ata(&payer, &self.token(pool, s)), -(a[s] as i128), -(a[s + 2] as i128)));
        }
        b.events.push(Event::Mint { pool: p.pk.addr(), sender: payer, owner: f, lo, hi, amount: l, a0: amt[0], a1: amt[1] });
        b.eff.push(Eff::Mod { pool, owner: f, lo, hi, delta: l as i128, plan });
        self.afford(b);
        if matches!(b.v, Verdict::Must | Verdict::May) && (amt[0] < a[2] || amt[1] < a[3]) {
            b.v = Verdict::Refuse("minimum amounts");
            b.rtag = "C18";
        }
        if self.svm.clock > deadline {
            b.v = Verdict::Refuse("deadline");
            b.rtag = "C18";
        }
        (l, amt)
    }

    pub fn b_nft_mint(&self, pool: usize, minter: Pubkey, recipient: Pubkey, nft: Pubkey, lo: i32, hi: i32, a: [u64; 4], deadline: i64) -> Built {
        let p = &self.pools[pool];
        let ta = [ata(&minter, &p.pk.t0), ata(&minter, &p.pk.t1)];
        let ix = mint_tokenized(&p.pk, &self.tok_accs(pool, lo, hi, ta), minter, recipient, nft, a, deadline);
        let mut b = self.blank("mint_tokenized_position", "C12 C13 C21", ix, minter);
        let (liq, amt) = self.nft_deposit(&mut b, pool, minter, lo, hi, a, deadline);
        b.extra = vec![nft, ata(&recipient, &nft), tokenized_pda(&nft).0];
        b.toks.push((ata(&recipient, &nft), 1));
        b.events.push(Event::IncLiq { mint: nft, liquidity: liq, a0: amt[0], a1: amt[1] });
        b.eff.push(Eff::NftNew { mint: nft, pool, lo, hi, liq });
        b
    }
    pub fn b_nft_inc(&self, nft: usize, payer: Pubkey, a: [u64; 4], deadline: i64) -> Built {
        let n = &self.nfts[nft];
        let p = &self.pools[n.pool];
        let ta = [ata(&payer, &p.pk.t0), ata(&payer, &p.pk.t1)];
        let ix = increase_liquidity(&p.pk, &self.tok_accs(n.pool, n.lo, n.hi, ta), payer, n.mint, a, deadline);
        let mut b = self.blank("increase_liquidity", "C12 C21", ix, payer);
        let (liq, amt) = self.nft_deposit(&mut b, n.pool, payer, n.lo, n.hi, a, deadline);
        self.need_ticks(&mut b, n.pool, n.lo, n.hi);
        if n.p.pending(0).is_none() || n.p.pending(1).is_none() {
            b.v = Verdict::Any("fee overflow");
        }
        b.extra = vec![tokenized_pda(&n.mint).0];
        b.events.push(Event::IncLiq { mint: n.mint, liquidity: liq, a0: amt[0], a1: amt[1] });
        b.eff.push(Eff::NftAdd { nft, liq });
        b
    }
    fn need_ticks(&self, b: &mut Built, pool: usize, lo: i32, hi: i32) {
        if !self.tick_accts[pool].contains(&lo) || !self.tick_accts[pool].contains(&hi) {
            b.v = Verdict::Refuse("tick account closed");
        }
    }
    /// (holder token account state) whether `who` may act through `acct`
    pub fn nft_authorised(&self, acct: &Pubkey, who: &Pubkey, mint: &Pubkey) -> bool {
        let Some(t) = self.svm.data(acct).and_then(|d| spl_token::state::Account::unpack(d).ok()) else { return false };
        if &t.mint != mint || t.amount != 1 {
            return false;
        }
        &t.owner == who || (t.delegate == COption::Some(*who) && t.delegated_amount > 0)
    }
    pub fn b_nft_dec(&self, nft: usize, who: Pubkey, acct: Pubkey, liq: u64, mins: [u64; 2], deadline: i64) -> Built {
        let n = &self.nfts[nft];
        let p = &self.pools[n.pool];
        let f = factory_pda().0;
        let ix = decrease_liquidity(
            &p.pk,
            &self.tok_accs(n.pool, n.lo, n.hi, [f, f]),
            who,
            acct,
            n.mint,
            liq,
            mins[0],
            mins[1],
            deadline,
        );
        let mut b = self.blank("decrease_liquidity", "C12 C21", ix, who);
        let plan = p.plan_mod(&f, n.lo, n.hi, -(liq as i128));
        b.v = plan.v;
        b.pool.push(n.pool);
        self.need_ticks(&mut b, n.pool, n.lo, n.hi);
        if liq == 0 {
            b.v = Verdict::Refuse("zero amount");
        } else if liq > n.p.liq {
            b.v = Verdict::Refuse("more than the position holds");
        } else if n.p.pending(0).is_none() || n.p.pending(1).is_none() {
            b.v = Verdict::Any("fee overflow");
        }
        if matches!(b.v, Verdict::Must | Verdict::May) && (plan.amt[0] < mins[0] || plan.amt[1] < mins[1]) {
            b.v = Verdict::Refuse("minimum amounts");
            b.rtag = "C18";
        }
        if self.svm.clock > deadline {
            b.v = Verdict::Refuse("deadline");
            b.rtag = "C18";
        }
        if !self.nft_authorised(&acct, &who, &n.mint) {
            b.v = Verdict::Refuse("not authorised");
            b.rtag = "C10";
        }
        b.extra = vec![tokenized_pda(&n.mint).0];
        b.events = vec![
            Event::Burn { pool: p.pk.addr(), owner: f, lo: n.lo, hi: n.hi, amount: liq, a0: plan.amt[0], a1: plan.amt[1] },
            Event::DecLiq { mint: n.mint, liquidity: liq, a0: plan.amt[0], a1: plan.amt[1] },
        ];
        let amt = plan.amt;
        b.eff.push(Eff::Mod { pool: n.pool, owner: f, lo: n.lo, hi: n.hi, delta: -(liq as i128), plan });
        b.eff.push(Eff::NftSub { nft, liq, amt });
        b
    }
    pub fn b_nft_collect(&self, nft: usize, who: Pubkey, acct: Pubkey, r: [Pubkey; 2], max: [u64; 2]) -> Built {
        let n = &self.nfts[nft];
        let p = &self.pools[n.pool];
        let f = factory_pda().0;
        let ix = collect_tokenized(&p.pk, &self.tok_accs(n.pool, n.lo, n.hi, r), who, acct, n.mint, max[0], max[1]);
        let mut b = self.blank("collect_from_tokenized", "C12 C21", ix, who);
        b.pool.push(n.pool);
        let mut core = p.pos.get(&(f, n.lo, n.hi)).cloned().unwrap_or_default();
        let mut mine = n.p.clone();
        if mine.liq > 0 {
            let plan = p.plan_mod(&f, n.lo, n.hi, 0);
            b.v = plan.v;
            if core.settle().is_none() || mine.settle().is_none() {
                b.v = Verdict::Any("fee overflow");
            }
            b.events.push(Event::Burn { pool: p.pk.addr(), owner: f, lo: n.lo, hi: n.hi, amount: 0, a0: 0, a1: 0 });
            b.eff.push(Eff::Mod { pool: n.pool, owner: f, lo: n.lo, hi: n.hi, delta: 0, plan });
        }
        self.need_ticks(&mut b, n.pool, n.lo, n.hi);
        let want = [max[0].min(mine.owed[0]), max[1].min(mine.owed[1])];
        let paid = [want[0].min(core.owed[0]), want[1].min(core.owed[1])];
        if max == [0, 0] {
            b.v = Verdict::Refuse("nothing requested");
        }
        if !self.nft_authorised(&acct, &who, &n.mint) {
            b.v = Verdict::Refuse("not authorised");
            b.rtag = "C10";
        }
        for s in 0..2 {
            b.toks.push((p.pk.vault(s), -(paid[s] as i128)));
            b.toks.push((r[s], paid[s] as i128));
        }
        b.extra = vec![tokenized_pda(&n.mint).0];
        b.events.push(Event::Collect { pool: p.pk.addr(), owner: f, lo: n.lo, hi: n.hi, a0: paid[0], a1: paid[1] });
        b.events.push(Event::CollectTok { mint: n.mint, r0: r[0], r1: r[1], a0: want[0], a1: want[1] });
        b.eff.push(Eff::Collect { pool: n.pool, owner: f, lo: n.lo, hi: n.hi, a: paid });
        b.eff.push(Eff::NftPay { nft, a: want });
        b
    }
    pub fn b_meta(&self, nft: usize, payer: Pubkey) -> Built {
        let n = &self.nfts[nft];
        let mut b = self.blank("add_metaplex_metadata", "C13", add_metadata(payer, n.mint), payer);
        b.extra = vec![n.mint, metadata_pda(&n.mint)];
        if n.meta {
            b.v = Verdict::Refuse("already attached");
        }
        b.eff.push(Eff::NftMeta { nft });
        b
    }

    // ------------------------------------------------------------ execution

    pub fn apply_eff(&mut self, e: &Eff) {
        let now = self.now();
        match e {
            Eff::None => {}
            Eff::Swap { pool, zfo, plan } => {
                for n in self.nfts.iter_mut().filter(|n| n.pool == *pool) {
                    let (lo, hi) = (n.lo, n.hi);
                    MPool::earn(&mut n.p, lo, hi, *zfo, &plan.growth);
                }
                self.pools[*pool].apply_swap(plan, *zfo, now);
            }
            Eff::Mod { pool, owner, lo, hi, delta, plan } => {
                let before = self.pools[*pool].ticks();
                self.pools[*pool].apply_mod(owner, *lo, *hi, *delta, plan, now);
                let after = self.pools[*pool].ticks();
                for t in [*lo, *hi] {
                    if before.contains_key(&t) != after.contains_key(&t) {
                        *self.tick_gen.entry((*pool, t)).or_default() += 1;
                    }
                }
            }
            Eff::Collect { pool, owner, lo, hi, a } => {
                if let Some(p) = self.pools[*pool].pos.get_mut(&(*owner, *lo, *hi)) {
                    for s in 0..2 {
                        p.owed[s] = p.owed[s].wrapping_sub(a[s]);
                    }
                }
            }
            Eff::CollectProto { pool, a } => {
                for s in 0..2 {
                    self.pools[*pool].proto[s] -= a[s];
                }
            }
            Eff::NftNew { mint, pool, lo, hi, liq } => self.nfts.push(MNft {
                mint: *mint,
                pool: *pool,
                lo: *lo,
                hi: *hi,
                p: MPos { liq: *liq, ..Default::default() },
                meta: false,
            }),
            Eff::NftAdd { nft, liq } => {
                let n = &mut self.nfts[*nft].p;
                n.settle();
                n.liq += liq;
            }
            Eff::NftSub { nft, liq, amt } => {
                let n = &mut self.nfts[*nft].p;
                n.settle();
                n.liq -= liq;
                for s in 0..2 {
                    n.owed[s] = n.owed[s].wrapping_add(amt[s]);
                }
            }
            Eff::NftPay { nft, a } => {
                let n = &mut self.nfts[*nft].p;
                if n.liq > 0 {
                    n.settle();
                }
                for s in 0..2 {
                    n.owed[s] -= a[s];
                }
            }
            Eff::NftMeta { nft } => self.nfts[*nft].meta = true,
            Eff::Card { pool, n } => {
                let pk = self.pools[*pool].pk;
                for _ in 0..*n {
                    let i = self.pools[*pool].obs.slots.len() as u16;
                    self.reg.insert(pk.obs(i).0, (*pool, AcctKind::Obs(i)));
                    self.pools[*pool].obs.slots.push(MObs { ts: 1, ..Default::default() });
                }
            }
            Eff::FeeProto(v) => self.fee_protocol = *v,
            Eff::Owner(k) => self.owner = *k,
            Eff::Fee(f, s) => {
                self.fees.insert(*f, *s);
            }
            Eff::Pool(p) => {
                let i = self.pools.len();
                self.reg.insert(p.pk.addr(), (i, AcctKind::Pool));
                self.reg.insert(p.pk.obs(0).0, (i, AcctKind::Obs(0)));
                let pk = p.pk;
                self.pools.push((**p).clone());
                self.tick_accts.push(BTreeSet::new());
                self.bitmap_accts.push(BTreeSet::new());
                self.ensure_vaults(&pk);
            }
            Eff::Tick { pool, tick } => {
                self.tick_accts[*pool].insert(*tick);
                let k = self.pools[*pool].pk.tick(*tick).0;
                self.reg.insert(k, (*pool, AcctKind::Tick(*tick)));
            }
            Eff::Bitmap { pool, word } => {
                self.bitmap_accts[*pool].insert(*word);
                let k = self.pools[*pool].pk.bitmap(*word).0;
                self.reg.insert(k, (*pool, AcctKind::Bitmap(*word)));
            }
            Eff::Pos { pool, owner, lo, hi } => {
                let k = self.pools[*pool].pk.position(owner, *lo, *hi).0;
                self.reg.insert(k, (*pool, AcctKind::Pos(*owner, *lo, *hi)));
                self.pools[*pool].pos.insert((*owner, *lo, *hi), MPos::default());
            }
            Eff::TickClosed { pool, tick } => {
                self.tick_accts[*pool].remove(tick);
            }
        }
    }

    /// Runs the transaction, compares everything observable with the expectation and brings the
    /// model up to date. Returns whether the program accepted.
    pub fn perform(&mut self, b: Built) -> bool {
        if self.capturing && !HELPERS.contains(&b.kind) {
            self.captured = Some(Box::new(b));
            return false;
        }
        if b.v == Verdict::TooLong {
            self.note("skipped: too long");
            return false;
        }
        let r = self.svm.run(std::slice::from_ref(&b.ix));
        self.trace = self
            .trace
            .wrapping_mul(0x100000001b3)
            .wrapping_add(b.ix.data.iter().fold(r.is_ok() as u64, |h, x| h.wrapping_mul(131).wrapping_add(*x as u64)));
        if let Some(t) = &mut self.trace_log {
            let rs = match &r {
                Ok(_) => "ok".to_string(),
                Err(e) => format!("{:?}", e),
            };
            t.push(format!("{} expected {:?} got {} eff {:?}", b.kind, b.v, rs, b.eff));
        }
        if r.is_ok() {
            self.note(b.kind);
        } else {
            let why = match &b.v {
                Verdict::Refuse(w) => w,
                Verdict::Must => "unexpected",
                _ => "overflow",
            };
            self.note(&format!("refused: {}", why));
        }
        match (&b.v, &r) {
            (Verdict::Must, Err(e)) => {
                let m = format!("{} was refused ({:?}) although it has to be accepted", b.kind, e);
                let also = match b.kind {
                    "burn" | "collect" | "decrease_liquidity" | "collect_from_tokenized" => " C01",
                    "collect_protocol" => " C01 C09",
                    "set_owner" | "set_fee_protocol" | "enable_fee_amount" => " C09",
                    "init_tick_account" => " C15",
                    "swap" | "exact_input_single" | "exact_input" | "mint_tokenized_position" | "increase_liquidity" => " C18",
                    _ => "",
                };
                let also = if b.kind == "decrease_liquidity" { " C01 C18" } else { also };
                self.find(format!("{}{}", b.tag, also), m);
                return false;
            }
            (Verdict::Refuse(why), Ok(out)) => {
                let m = format!("{} was accepted although it has to be refused: {}", b.kind, why);
                self.find(b.rtag, m);
                let out = out.clone();
                self.check_limits(&b, &out);
                self.adopt_all(&out);
                return true;
            }
            (Verdict::Any(w), Ok(out)) => {
                self.note(w);
                let out = out.clone();
                self.adopt_all(&out);
                return true;
            }
            (_, Err(_)) => return false,
            _ => {}
        }
        let out = r.unwrap();
        self.check_tokens(&b, &out);
        self.check_events(&b, &out);
        self.check_scope(&b, &out);
        if b.kind == "close_tick_account" {
            let (k, to) = (b.ix.accounts[0].pubkey, b.ix.accounts[1].pubkey);
            let freed = out.changed.get(&k).map(|(x, y)| (x.lamports, y.lamports));
            let got = out.changed.get(&to).map(|(x, y)| y.lamports as i128 - x.lamports as i128).unwrap_or(0);
            match freed {
                Some((x, 0)) if got == x as i128 => {}
                o => self.find("C16", format!("closing a tick account: its lamports went {:?}, the recipient received {}", o, got)),
            }
        }
        for e in b.eff.clone() {
            self.apply_eff(&e);
        }
        for e in &b.eff {
            if let Eff::Swap { plan, .. } = e {
                let n = plan.crossed.len() as u64;
                if n > 0 {
                    *self.stats.entry("ticks crossed".into()).or_default() += n;
                }
                if plan.growth.len() > 0 {
                    *self.stats.entry("swaps that earned fees".into()).or_default() += 1;
                }
            }
        }
        for p in b.pool.clone() {
            self.check_pool(p, b.tag, b.kind);
        }
        for e in &b.eff {
            match e {
                Eff::Pool(_) => {
                    let p = self.pools.len() - 1;
                    self.check_pool(p, b.tag, b.kind);
                    self.check_new_pool(p);
                }
                Eff::FeeProto(_) | Eff::Owner(_) => self.check_factory(),
                Eff::Fee(f, s) => {
                    let got = self.svm.data(&fee_pda(*f).0).and_then(Fee::read);
                    if got.as_ref().map(|x| (x.fee, x.tick_spacing)) != Some((*f, *s)) {
                        self.find("C15", format!("fee tier {} stored as {:?}", f, got));
                    }
                }
                Eff::NftNew { .. } | Eff::NftAdd { .. } | Eff::NftSub { .. } | Eff::NftPay { .. } => {}
                Eff::NftMeta { nft } => {
                    let n = self.nfts[*nft].mint;
                    if let Err(m) = check_metadata(&self.svm, &n) {
                        self.find("C13", format!("metadata of NFT {}: {}", n, m));
                    }
                }
                _ => {}
            }
        }
        self.check_nfts();
        true
    }

    /// After an unexpected acceptance: take over what the chain says.
    pub fn adopt_all(&mut self, out: &TxOut) {
        let pools: BTreeSet<usize> = out.changed.keys().filter_map(|k| self.reg.get(k).map(|r| r.0)).collect();
        for p in pools {
            self.adopt_pool(p);
        }
        if let Some(f) = self.svm.data(&factory_pda().0).and_then(Factory::read) {
            self.owner = f.owner;
            self.fee_protocol = f.fee_protocol;
        }
        for i in 0..self.nfts.len() {
            self.adopt_nft(i);
        }
    }
    fn adopt_nft(&mut self, i: usize) {
        let n = &mut self.nfts[i];
        if let Some(t) = self.svm.data(&tokenized_pda(&n.mint).0).and_then(Tokenized::read) {
            n.p.liq = t.liquidity;
            n.p.owed = [t.owed0, t.owed1];
        }
    }
    pub fn adopt_pool(&mut self, i: usize) {
        let pk = self.pools[i].pk;
        let Some(c) = self.svm.data(&pk.addr()).and_then(Pool::read) else { return };
        let keys: Vec<_> = self.pools[i].pos.keys().cloned().collect();
        let pos: Vec<_> = keys
            .iter()
            .map(|(o, l, h)| self.svm.data(&pk.position(o, *l, *h).0).and_then(Position::read))
            .collect();
        let n = self.pools[i].obs.slots.len();
        let slots: Vec<_> = (0..n).map(|s| self.svm.data(&pk.obs(s as u16).0).and_then(Obs::read)).collect();
        let touts: Vec<_> = self.pools[i].touts.keys().map(|t| (*t, self.svm.data(&pk.tick(*t).0).and_then(Tick::read))).collect();
        let (t, now) = (c.tick, self.now());
        let m = &mut self.pools[i];
        if m.tick != t {
            let spl = m.obs.truth.2;
            m.log.push(LogE { time: now, tick: t, spl });
        }
        m.price = c.price;
        m.tick = c.tick;
        m.proto = [c.proto0, c.proto1];
        m.fg = [c.fg0, c.fg1];
        for (t, a) in touts {
            if let Some(a) = a {
                m.touts.insert(t, TOut { fg: [a.fgo0, a.fgo1], tc: a.tick_cum_out, spl: a.spl_out, secs: a.secs_out });
            }
        }
        m.obs.index = c.obs_index.min(n as u16 - 1);
        m.obs.card = c.obs_card;
        for (k, p) in keys.iter().zip(pos) {
            if let Some(p) = p {
                let e = m.pos.get_mut(k).unwrap();
                e.liq = p.liquidity;
                e.owed = [p.owed0, p.owed1];
            }
        }
        for (s, o) in slots.iter().enumerate() {
            if let Some(o) = o {
                m.obs.slots[s] = MObs { ts: o.ts, tick_cum: o.tick_cum, spl_cum: o.spl_cum, init: o.init };
            }
        }
    }

    // ------------------------------------------------------------ comparisons

    fn check_tokens(&mut self, b: &Built, out: &TxOut) {
        let mut want = net(&b.toks);
        let mut bad = vec![];
        for (k, (pre, post)) in &out.changed {
            if pre.owner != SPL_TOKEN && post.owner != SPL_TOKEN {
                continue;
            }
            if post.data.len() != 165 {
                continue;
            }
            let x = token_amount(&pre.data).unwrap_or(0) as i128;
            let y = token_amount(&post.data).unwrap_or(0) as i128;
            let w = want.remove(k).unwrap_or(0);
            if y - x != w {
                bad.push(format!("token account {} changed by {} instead of {}", k, y - x, w));
            }
        }
        for (k, w) in want {
            if w != 0 {
                bad.push(format!("token account {} did not change, expected {}", k, w));
            }
        }
        for m in bad {
            self.find(b.tag, format!("{}: {}", b.kind, m));
        }
        self.check_limits(b, out);
    }

    /// What the user was promised, whatever else happened.
    fn check_limits(&mut self, b: &Built, out: &TxOut) {
        for (k, lo, hi) in &b.limits {
            let d = out
                .changed
                .get(k)
                .map(|(x, y)| token_amount(&y.data).unwrap_or(0) as i128 - token_amount(&x.data).unwrap_or(0) as i128)
                .unwrap_or(0);
            if d < *lo || d > *hi {
                self.find("C18", format!("{}: token account {} changed by {}, the limits allow {} to {}", b.kind, k, d, lo, hi));
            }
        }
        if let Some((pool, zfo, lim)) = b.price_limit {
            if let Some(c) = self.svm.data(&self.pools[pool].pk.addr()).and_then(Pool::read) {
                if (zfo && c.price < lim) || (!zfo && c.price > lim) {
                    self.find("C18 C03", format!("{}: price {} is beyond the limit {}", b.kind, c.price, lim));
                }
                let was = self.pools[pool].price;
                if (zfo && c.price > was) || (!zfo && c.price < was) {
                    self.find("C03", format!("{}: the price moved from {} to {}, against the direction of the swap", b.kind, was, c.price));
                }
            }
        }
    }

    fn check_events(&mut self, b: &Built, out: &TxOut) {
        let got: Vec<Event> = out.events.iter().map(|e| parse_event(e)).collect();
        if got != b.events {
            self.find("C20", format!("{} emitted {:?}, what happened is {:?}", b.kind, got, b.events));
        }
    }

    /// Only accounts that belong to the operation may change.
    fn check_scope(&mut self, b: &Built, out: &TxOut) {
        let mut bad = vec![];
        for (k, (pre, post)) in &out.changed {
            if b.extra.contains(k) {
                continue;
            }
            if pre.data == post.data && pre.owner == post.owner {
                continue; // lamports only: fees of account creation
            }
            let cyc = pre.owner == cy::ID || post.owner == cy::ID;
            if cyc {
                match self.reg.get(k) {
                    Some((p, _)) if b.pool.contains(p) => {}
                    Some((p, kind @ AcctKind::Pos(..))) => bad.push(("C10 C11", format!("{:?} of pool {} changed", kind, p))),
                    Some((p, kind)) => bad.push(("C11", format!("{:?} of pool {} changed", kind, p))),
                    None if *k == factory_pda().0 => bad.push(("C09 C11", "the factory changed".to_string())),
                    None => bad.push(("C11", format!("unrelated program account {} changed", k))),
                }
            } else if pre.owner == SPL_TOKEN || post.owner == SPL_TOKEN {
                if !b.toks.iter().any(|t| t.0 == *k) {
                    bad.push(("C10 C11", format!("unrelated token account {} changed", k)));
                }
            } else {
                bad.push(("C11", format!("account {} changed", k)));
            }
        }
        for (t, m) in bad {
            self.find(t, format!("{}: {}", b.kind, m));
        }
    }

    fn check_factory(&mut self) {
        let f = self.svm.data(&factory_pda().0).and_then(Factory::read);
        let want = Some(Factory { bump: factory_pda().1, owner: self.owner, fee_protocol: self.fee_protocol });
        if f != want {
            self.find("C09 C17", format!("factory is {:?}, expected {:?}", f, want));
        }
    }

    fn check_new_pool(&mut self, i: usize) {
        let p = &self.pools[i];
        let c = self.svm.data(&p.pk.addr()).and_then(Pool::read);
        let want = Pool {
            bump: p.pk.pool().1,
            token_0: p.pk.t0,
            token_1: p.pk.t1,
            fee: p.pk.fee,
            tick_spacing: p.spacing,
            liquidity: 0,
            price: p.price,
            tick: p.tick,
            obs_index: 0,
            obs_card: 1,
            obs_card_next: 1,
            fg0: 0,
            fg1: 0,
            proto0: 0,
            proto1: 0,
            unlocked: true,
        };
        if c.as_ref() != Some(&want) {
            self.find("C15", format!("new pool is {:?}, expected {:?}", c, want));
        }
    }

    /// Compares a pool with the model (adopting deviations) and checks the invariants that only
    /// need the chain state.
    pub fn check_pool(&mut self, i: usize, tag: Tag, kind: &str) {
        let now = self.now();
        let _ = now;
        let Some(c) = self.svm.data(&self.pools[i].pk.addr()).and_then(Pool::read) else {
            self.find("C15", format!("pool {} unreadable", i));
            return;
        };
        let p = &self.pools[i];
        let mut f: Vec<(Tag, String)> = vec![];
        let swap = ["swap", "exact_input_single", "exact_input"].contains(&kind);
        if (c.token_0, c.token_1, c.fee, c.tick_spacing, c.bump) != (p.pk.t0, p.pk.t1, p.pk.fee, p.spacing, p.pk.pool().1) {
            f.push(("C15", format!("static configuration of the pool changed: {:?}", c)));
        }
        if c.price != p.price || c.tick != p.tick {
            let t = if tag.contains("C19") && c.price != p.price {
                "C04 C19"
            } else if tag.contains("C19") {
                "C03 C04 C19"
            } else if tag.contains("C04") && c.price != p.price {
                "C04"
            } else if tag.contains("C04") {
                "C03 C04"
            } else {
                "C03"
            };
            f.push((t, format!("price {} tick {}, expected price {} tick {}", c.price, c.tick, p.price, p.tick)));
        }
        if [c.proto0, c.proto1] != p.proto {
            let t = if swap { "C17 C04" } else { "C17" };
            f.push((t, format!("protocol fees {:?}, expected {:?}", [c.proto0, c.proto1], p.proto)));
        }
        if [c.fg0, c.fg1] != p.fg {
            f.push(("C04 C06", format!("fee growth {:?}, expected {:?}", [c.fg0, c.fg1], p.fg)));
        }
        if swap && c.liquidity as u128 != p.active() {
            f.push(("C04", format!("active liquidity {}, expected {}", c.liquidity, p.active())));
        }
        for (t, want) in &p.touts {
            let Some(a) = self.svm.data(&p.pk.tick(*t).0).and_then(Tick::read) else { continue };
            if [a.fgo0, a.fgo1] != want.fg {
                let g = if swap { "C06" } else { "C06 C16" };
                f.push((g, format!("tick {} records fee growth {:?} outside, expected {:?}", t, [a.fgo0, a.fgo1], want.fg)));
            }
            if (a.tick_cum_out, a.spl_out, a.secs_out) != (want.tc, want.spl, want.secs) {
                let g = if swap { "C08" } else { "C08 C16" };
                f.push((
                    g,
                    format!(
                        "tick {} records tick cumulative, seconds per liquidity and seconds outside as {:?}, expected {:?}",
                        t,
                        (a.tick_cum_out, a.spl_out, a.secs_out),
                        (want.tc, want.spl, want.secs)
                    ),
                ));
            }
        }
        if !c.unlocked {
            f.push(("C14", "pool left locked".into()));
        }
        // oracle
        let o = &p.obs;
        if (c.obs_index, c.obs_card, c.obs_card_next) != (o.index, o.card, o.slots.len() as u16) {
            f.push((
                "C07",
                format!(
                    "observation index/cardinality/next {:?}, expected {:?}",
                    (c.obs_index, c.obs_card, c.obs_card_next),
                    (o.index, o.card, o.slots.len())
                ),
            ));
        }
        for (s, want) in o.slots.iter().enumerate() {
            let got = self.svm.data(&p.pk.obs(s as u16).0).and_then(Obs::read);
            let w = Obs { bump: p.pk.obs(s as u16).1, index: s as u16, ts: want.ts, tick_cum: want.tick_cum, spl_cum: want.spl_cum, init: want.init };
            if got.as_ref() != Some(&w) {
                f.push(("C07", format!("observation {} is {:?}, expected {:?}", s, got, w)));
            }
        }
        // positions
        let mut chain: BTreeMap<(Pubkey, i32, i32), Position> = BTreeMap::new();
        for (k, want) in &p.pos {
            let Some(got) = self.svm.data(&p.pk.position(&k.0, k.1, k.2).0).and_then(Position::read) else {
                f.push(("C21", format!("position {:?} unreadable", k)));
                continue;
            };
            if got.liquidity != want.liq {
                f.push((if kind_is_nft(kind) { "C02 C12 C21" } else { "C02 C21" }, format!("position [{},{}) holds {} instead of {}", k.1, k.2, got.liquidity, want.liq)));
            }
            if [got.owed0, got.owed1] != want.owed {
                let t = match kind {
                    "burn" => "C06 C21",
                    "decrease_liquidity" | "collect_from_tokenized" => "C06 C12 C21",
                    "collect" => "C21",
                    "init_position_account" => "C15",
                    _ => "C06",
                };
                f.push((t, format!("position [{},{}) is owed {:?} instead of {:?}", k.1, k.2, [got.owed0, got.owed1], want.owed)));
            }
            if got.bump != p.pk.position(&k.0, k.1, k.2).1 {
                f.push(("C15", format!("position [{},{}) records bump {}", k.1, k.2, got.bump)));
            }
            chain.insert(*k, got);
        }
        f.extend(chain_invariants(&self.svm, p, &c, &chain, &self.tick_accts[i], &self.bitmap_accts[i]));
        let (sf, sur) = self.solvency(i, &c, &chain);
        f.extend(sf);
        for s in 0..2 {
            self.surplus.insert((i, s), sur[s]);
        }
        if !f.is_empty() {
            let creation = kind.starts_with("init_") || kind.starts_with("create_");
            for (t, m) in f {
                let t = if creation && !t.contains("C15") { format!("{} C15", t) } else { t.to_string() };
                self.find(t, format!("pool {}: {}", i, m));
            }
            self.adopt_pool(i);
            for s in 0..2 {
                self.surplus.remove(&(i, s));
            }
        }
    }

    /// Claims never exceed the vaults, and the surplus over the exact claims never shrinks.
    fn solvency(&self, i: usize, c: &Pool, chain: &BTreeMap<(Pubkey, i32, i32), Position>) -> (Vec<(Tag, String)>, [(U512, bool); 2]) {
        let p = &self.pools[i];
        let mut claim = [c.proto0 as u128, c.proto1 as u128];
        let mut exact = [w(c.proto0) << 64, w(c.proto1) << 64];
        for (k, q) in chain {
            let pr = principal(c.price, c.tick, k.1, k.2, q.liquidity);
            let m = &p.pos[k];
            let owed = [q.owed0, q.owed1];
            let ex = principal_exact(c.price, k.1, k.2, q.liquidity);
            for s in 0..2 {
                claim[s] += pr[s] as u128 + owed[s] as u128 + m.pending(s).unwrap_or(0) as u128;
                exact[s] = exact[s] + ex[s] + (w(owed[s]) << 64) + ((w(m.acc[s]) * w(m.liq)) << 32);
            }
        }
        let mut f = vec![];
        let mut sur = [(U512::zero(), false); 2];
        for s in 0..2 {
            let v = self.balance(&p.pk.vault(s)) as u128;
            if v < claim[s] {
                f.push(("C01", format!("vault {} holds {} but {} is owed to positions and the protocol", s, v, claim[s])));
            }
            let vx = w128(v) << 64;
            sur[s] = if vx >= exact[s] { (vx - exact[s], false) } else { (exact[s] - vx, true) };
            // the exact principals are rounded down to 2^-64 units each
            let tol = w(1 << 20);
            if let Some((was, neg)) = self.surplus.get(&(i, s)) {
                // new + tol >= old, as signed numbers
                let ok = match (sur[s], neg) {
                    ((x, false), false) => x + tol >= *was,
                    ((_, false), true) => true,
                    ((x, true), false) => *was + x <= tol,
                    ((x, true), true) => x <= *was + tol,
                };
                if !ok {
                    f.push(("C01", format!(
                        "the surplus of vault {} over the exact claims fell from {}{} to {}{} (in 2^-64)",
                        s, if *neg { "-" } else { "" }, was, if sur[s].1 { "-" } else { "" }, sur[s].0
                    )));
                }
            }
        }
        (f, sur)
    }

    fn check_nfts(&mut self) {
        let mut f = vec![];
        for n in &self.nfts {
            let p = &self.pools[n.pool];
            let Some(t) = self.svm.data(&tokenized_pda(&n.mint).0).and_then(Tokenized::read) else {
                f.push(("C12", format!("record of NFT {} unreadable", n.mint)));
                continue;
            };
            if (t.mint, t.pool_id, t.lo, t.hi) != (n.mint, p.pk.addr(), n.lo, n.hi) {
                f.push(("C13", format!("NFT record describes {:?}, expected range [{},{}) of {}", t, n.lo, n.hi, p.pk.addr())));
            }
            if t.liquidity != n.p.liq || [t.owed0, t.owed1] != n.p.owed {
                f.push((
                    if t.liquidity == n.p.liq { "C12 C06" } else { "C12" },
                    format!("NFT is credited with liquidity {} and {:?}, expected {} and {:?}", t.liquidity, [t.owed0, t.owed1], n.p.liq, n.p.owed),
                ));
            }
            let m = self.svm.data(&n.mint).and_then(|d| spl_token::state::Mint::unpack(d).ok());
            let auth = if n.meta { COption::None } else { COption::Some(factory_pda().0) };
            match m {
                Some(m) if m.supply == 1 && m.decimals == 0 && m.mint_authority == auth => {}
                o => f.push(("C13", format!("NFT mint is {:?} (metadata attached: {})", o, n.meta))),
            }
        }
        // the liquidity promised by the NFTs of a range is what the custodian holds
        let mut sum: BTreeMap<(usize, i32, i32), u128> = BTreeMap::new();
        for n in &self.nfts {
            if let Some(t) = self.svm.data(&tokenized_pda(&n.mint).0).and_then(Tokenized::read) {
                *sum.entry((n.pool, n.lo, n.hi)).or_default() += t.liquidity as u128;
            }
        }
        let fac = factory_pda().0;
        for ((pool, lo, hi), s) in sum {
            let core = self.svm.data(&self.pools[pool].pk.position(&fac, lo, hi).0).and_then(Position::read);
            let core = core.map(|c| c.liquidity as u128).unwrap_or(0);
            // anyone may mint core liquidity for the custodian, so it can only be more
            if core < s {
                f.push(("C12", format!("NFTs promise {} of liquidity in [{},{}), the custodian holds {}", s, lo, hi, core)));
            }
        }
        if !f.is_empty() {
            for (t, m) in f {
                self.find(t, m);
            }
            for i in 0..self.nfts.len() {
                self.adopt_nft(i);
            }
        }
    }

    /// The formula of range snapshots over the recorded accounts, for trees in which the library
    /// function cannot be called: the accounts are still those the program wrote.
    #[cfg(not(feature = "snapshot"))]
    pub fn snapshot(&self, pool: usize, lo: i32, hi: i32) -> Option<(i64, u64, u32)> {
        let p = &self.pools[pool];
        let c = Pool::read(self.svm.data(&p.pk.addr())?)?;
        let l = Tick::read(self.svm.data(&p.pk.tick(lo).0)?)?;
        let h = Tick::read(self.svm.data(&p.pk.tick(hi).0)?)?;
        let o = Obs::read(self.svm.data(&p.pk.obs(p.obs.index).0)?)?;
        let now = self.svm.clock as u32;
        let d = now.wrapping_sub(o.ts);
        let cum = (
            o.tick_cum.wrapping_add(c.tick as i64 * d as i64),
            o.spl_cum.wrapping_add(((d as u64) << 32) / c.liquidity.max(1)),
            now,
        );
        let out = |t: &Tick| (t.tick_cum_out, t.spl_out, t.secs_out);
        let sub = |a: (i64, u64, u32), b: (i64, u64, u32)| (a.0.wrapping_sub(b.0), a.1.wrapping_sub(b.1), a.2.wrapping_sub(b.2));
        Some(if c.tick < lo {
            sub(out(&l), out(&h))
        } else if c.tick < hi {
            sub(sub(cum, out(&l)), out(&h))
        } else {
            sub(out(&h), out(&l))
        })
    }

    /// What the program reports for a range right now.
    #[cfg(feature = "snapshot")]
    pub fn snapshot(&self, pool: usize, lo: i32, hi: i32) -> Option<(i64, u64, u32)> {
        use cyclos_core::states::{oracle::ObservationState, pool::PoolState, tick::TickState};
        let p = &self.pools[pool];
        fn rd<T: Copy>(d: &[u8]) -> Option<T> {
            if d.len() != 8 + std::mem::size_of::<T>() {
                return None;
            }
            Some(unsafe { std::ptr::read_unaligned(d[8..].as_ptr() as *const T) })
        }
        let ps: PoolState = rd(self.svm.data(&p.pk.addr())?)?;
        let l: TickState = rd(self.svm.data(&p.pk.tick(lo).0)?)?;
        let h: TickState = rd(self.svm.data(&p.pk.tick(hi).0)?)?;
        let o: ObservationState = rd(self.svm.data(&p.pk.obs(p.obs.index).0)?)?;
        let r = with_clock(self.svm.clock, || catch(|| ps.snapshot_cumulatives_inside(&l, &h, &o)));
        let r = r.ok()?;
        Some((r.tick_cumulative_inside, r.seconds_per_liquidity_inside_x32, r.seconds_inside))
    }
}

/// Invariants that relate chain accounts to each other, independent of the model's history.
pub fn chain_invariants(
    svm: &Svm,
    p: &MPool,
    c: &Pool,
    chain: &BTreeMap<(Pubkey, i32, i32), Position>,
    tick_accts: &BTreeSet<i32>,
    bitmap_accts: &BTreeSet<i16>,
) -> Vec<(Tag, String)> {
    let mut f = vec![];
    // price and tick
    if !(MIN_SQRT..MAX_SQRT).contains(&c.price) {
        f.push(("C03", format!("price {} outside of the legal range", c.price)));
    } else {
        let t = tick_at(c.price).unwrap();
        let on_boundary = c.tick == t - 1 && sqrt_at(t) == c.price;
        if c.tick != t && !on_boundary {
            f.push(("C03", format!("tick {} does not match price {} (tick {})", c.tick, c.price, t)));
        }
    }
    // liquidity
    let active: u128 = chain.iter().filter(|((_, lo, hi), _)| *lo <= c.tick && c.tick < *hi).map(|(_, q)| q.liquidity as u128).sum();
    if c.liquidity as u128 != active {
        f.push(("C02", format!("active liquidity {} but positions in range hold {}", c.liquidity, active)));
    }
    let mut ticks: BTreeMap<i32, (u128, i128)> = BTreeMap::new();
    for ((_, lo, hi), q) in chain {
        if q.liquidity > 0 {
            let e = ticks.entry(*lo).or_default();
            e.0 += q.liquidity as u128;
            e.1 += q.liquidity as i128;
            let e = ticks.entry(*hi).or_default();
            e.0 += q.liquidity as u128;
            e.1 -= q.liquidity as i128;
        }
    }
    for t in tick_accts {
        let Some(a) = svm.data(&p.pk.tick(*t).0).and_then(Tick::read) else {
            f.push(("C16", format!("tick account {} unreadable", t)));
            continue;
        };
        let (g, n) = ticks.get(t).copied().unwrap_or_default();
        if a.tick != *t || a.bump != p.pk.tick(*t).1 {
            f.push(("C15 C16", format!("tick account {} says tick {} bump {}", t, a.tick, a.bump)));
        }
        if a.gross as u128 != g || a.net as i128 != n {
            f.push(("C02", format!("tick {} records gross {} net {}, positions give {} {}", t, a.gross, a.net, g, n)));
        }
        if g == 0 && !a.is_clear() {
            f.push(("C16", format!("unreferenced tick {} is not cleared: {:?}", t, a)));
        }
    }
    for t in ticks.keys() {
        if !tick_accts.contains(t) {
            f.push(("C16", format!("tick {} is referenced by liquidity but has no account", t)));
        }
    }
    for wd in bitmap_accts {
        let Some(b) = svm.data(&p.pk.bitmap(*wd).0).and_then(Bitmap::read) else {
            f.push(("C02", format!("bitmap {} unreadable", wd)));
            continue;
        };
        let mut want = [0u64; 4];
        for t in ticks.keys() {
            let cmp = compress(*t, p.spacing);
            if cmp.div_euclid(256) == *wd as i32 {
                let bit = cmp.rem_euclid(256) as usize;
                want[bit / 64] |= 1 << (bit % 64);
            }
        }
        if b.word_pos != *wd || b.bump != p.pk.bitmap(*wd).1 {
            f.push(("C15", format!("bitmap {} is {:?}", wd, b)));
        }
        if b.word != want || b.word_pos != *wd || b.bump != p.pk.bitmap(*wd).1 {
            f.push(("C02", format!("bitmap {} is {:?}, referenced ticks give {:?}", wd, b, want)));
        }
    }
    f
}

fn check_metadata(svm: &Svm, mint: &Pubkey) -> Result<(), String> {
    use metaplex_token_metadata::state::{Key, Metadata, MAX_METADATA_LEN};
    let d = svm.data(&metadata_pda(mint)).ok_or("missing")?;
    let m: Metadata = metaplex_token_metadata::utils::try_from_slice_checked(d, Key::MetadataV1, MAX_METADATA_LEN).map_err(|e| format!("{:?}", e))?;
    let f = factory_pda().0;
    if &m.mint != mint || m.update_authority != f {
        return Err(format!("describes {} with authority {}", m.mint, m.update_authority));
    }
    if m.is_mutable {
        return Err("can be changed later".into());
    }
    let c = m.data.creators.as_ref().map(|c| c.iter().map(|c| (c.address, c.verified, c.share)).collect::<Vec<_>>());
    if c != Some(vec![(f, true, 100)]) || m.data.seller_fee_basis_points != 0 {
        return Err(format!("creators {:?}", m.data.creators));
    }
    if !m.data.uri.contains(&mint.to_string()) || !m.data.name.starts_with("Cyclos") {
        return Err(format!("name {:?} uri {:?}", m.data.name, m.data.uri));
    }
    Ok(())
}

/// What a position is worth at a price, in units of 2^-64, rounded down to such a unit.
pub fn principal_exact(price: u64, lo: i32, hi: i32, l: u64) -> [U512; 2] {
    let (a, b) = (sqrt_at(lo), sqrt_at(hi));
    let q = price.clamp(a, b);
    [((w(l) * w(b - q)) << 96) / (w(q) * w(b)), (w(l) * w(q - a)) << 32]
}

/// transactions that only prepare accounts
fn kind_is_nft(kind: &str) -> bool {
    ["mint_tokenized_position", "increase_liquidity", "decrease_liquidity", "collect_from_tokenized"].contains(&kind)
}

pub const HELPERS: [&str; 3] = ["init_tick_account", "init_bitmap_account", "init_position_account"];

pub fn net(t: &[(Pubkey, i128)]) -> BTreeMap<Pubkey, i128> {
    let mut m = BTreeMap::new();
    for (k, d) in t {
        *m.entry(*k).or_insert(0) += d;
    }
    m
}

pub fn token_amount(d: &[u8]) -> Option<u64> {
    if d.len() != 165 {
        return None;
    }
    Some(u64::from_le_bytes(d[64..72].try_into().unwrap()))
}

pub fn mint_acct(supply: u64, decimals: u8, auth: Option<Pubkey>) -> Acct {
    let m = spl_token::state::Mint {
        mint_authority: auth.map(COption::Some).unwrap_or(COption::None),
        supply,
        decimals,
        is_initialized: true,
        freeze_authority: COption::None,
    };
    let mut d = vec![0; spl_token::state::Mint::LEN];
    m.pack_into_slice(&mut d);
    Acct { lamports: 10_000_000, data: Rc::new(d), owner: SPL_TOKEN, executable: false }
}

pub fn token_acct(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Acct {
    let a = spl_token::state::Account {
        mint: *mint,
        owner: *owner,
        amount,
        delegate: COption::None,
        state: spl_token::state::AccountState::Initialized,
        is_native: COption::None,
        delegated_amount: 0,
        close_authority: COption::None,
    };
    let mut d = vec![0; spl_token::state::Account::LEN];
    a.pack_into_slice(&mut d);
    Acct { lamports: 10_000_000, data: Rc::new(d), owner: SPL_TOKEN, executable: false }
}

pub fn pick_price(mode: u64, v: u64, spacing: u16) -> u64 {
    let sp = spacing as i32;
    match mode % 8 {
        0 | 1 => Q32,
        2 | 3 => sqrt_at((v % 40001) as i32 - 20000) + (v >> 32) % 3,
        4 => {
            // anywhere
            let t = (v % 443_600) as i32 - 221_800;
            sqrt_at(t) + (v >> 40) % (sqrt_at(t + 1) - sqrt_at(t)).max(1)
        }
        5 => {
            // exactly on a usable tick
            let n = 20000 / sp.max(1);
            let k = if n > 0 { (v % (2 * n as u64 + 1)) as i32 - n } else { 0 };
            sqrt_at(k * sp)
        }
        6 => {
            // near the ends
            let t = 221_000 + (v % 815) as i32;
            sqrt_at(if v & (1 << 40) == 0 { t } else { -t })
        }
        _ => {
            // just below a usable tick
            let n = 20000 / sp.max(1);
            let k = if n > 0 { (v % (2 * n as u64 + 1)) as i32 - n } else { 0 };
            sqrt_at(k * sp) - 1
        }
    }
}

// ------------------------------------------------------------ the harness' callback program

fn run_handler(cfg: &Rc<std::cell::RefCell<HandlerCfg>>, _id: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> solana_program::entrypoint::ProgramResult {
    use solana_program::program::invoke;
    let (is_swap, x, y) = {
        let d: [u8; 8] = data[..8].try_into().unwrap();
        let x = u64::from_le_bytes(data[8..16].try_into().unwrap());
        let y = u64::from_le_bytes(data[16..24].try_into().unwrap());
        (d == ix_disc("swap_callback"), x, y)
    };
    let (pay, reenter) = {
        let mut c = cfg.borrow_mut();
        c.calls += 1;
        c.args.push([x, y]);
        for i in infos {
            if i.owner == &cy::ID {
                if let Some(p) = Pool::read(&i.data.borrow()) {
                    c.saw_unlocked |= p.unlocked;
                }
            }
        }
        (c.pay, c.reenter.clone())
    };
    if let Some(ix) = reenter {
        invoke(&ix, infos)?;
    }
    // mint: minter, ta0, ta1, vault0, vault1 / swap: signer, in, out, in_vault, out_vault
    let pairs = if is_swap { vec![(1, 3, pay[0])] } else { vec![(1, 3, pay[0]), (2, 4, pay[1])] };
    for (from, to, n) in pairs {
        if n > 0 {
            let ix = spl_token::instruction::transfer(&SPL_TOKEN, infos[from].key, infos[to].key, infos[0].key, &[], n)?;
            invoke(&ix, infos)?;
        }
    }
    Ok(())
}

pub fn meta_ro(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
