//! Client side of the program: addresses, instruction encoding, account and event decoding.

use crate::svm::SPL_TOKEN;
use cyclos_core::states::*;
use solana_program::{
    hash::hash,
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program, sysvar,
};
use std::cell::RefCell;
use std::collections::HashMap;

pub const ID: Pubkey = cyclos_core::ID;

thread_local! {
    static PDA_CACHE: RefCell<HashMap<Vec<u8>, (Pubkey, u8)>> = RefCell::new(HashMap::new());
    static DISC: RefCell<HashMap<&'static str, [u8; 8]>> = RefCell::new(HashMap::new());
}

pub fn pda(seeds: &[&[u8]]) -> (Pubkey, u8) {
    let mut k = vec![];
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    PDA_CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 200_000 {
            c.clear();
        }
        *c.entry(k).or_insert_with(|| Pubkey::find_program_address(seeds, &ID))
    })
}

pub fn ata(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    let mut k = vec![255u8, 255];
    k.extend_from_slice(owner.as_ref());
    k.extend_from_slice(mint.as_ref());
    PDA_CACHE.with(|c| {
        c.borrow_mut()
            .entry(k)
            .or_insert_with(|| {
                Pubkey::find_program_address(
                    &[owner.as_ref(), SPL_TOKEN.as_ref(), mint.as_ref()],
                    &spl_associated_token_account::ID,
                )
            })
            .0
    })
}

fn disc(prefix: &'static str, name: &'static str) -> [u8; 8] {
    DISC.with(|d| {
        let mut d = d.borrow_mut();
        let key: &'static str = name;
        if prefix == "global" {
            if let Some(x) = d.get(key) {
                return *x;
            }
        }
        let h = hash(format!("{}:{}", prefix, name).as_bytes());
        let mut r = [0u8; 8];
        r.copy_from_slice(&h.to_bytes()[..8]);
        if prefix == "global" {
            d.insert(key, r);
        }
        r
    })
}

pub fn ix_disc(name: &'static str) -> [u8; 8] {
    disc("global", name)
}

pub fn acct_disc(name: &'static str) -> [u8; 8] {
    disc("account", name)
}

pub fn event_disc(name: &'static str) -> [u8; 8] {
    disc("event", name)
}

// ------------------------------------------------------------------ addresses

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct PoolKey {
    pub t0: Pubkey,
    pub t1: Pubkey,
    pub fee: u32,
}

pub fn factory_pda() -> (Pubkey, u8) {
    pda(&[])
}

pub fn fee_pda(fee: u32) -> (Pubkey, u8) {
    pda(&[b"f", &fee.to_be_bytes()])
}

impl PoolKey {
    pub fn pool(&self) -> (Pubkey, u8) {
        pda(&[b"p", self.t0.as_ref(), self.t1.as_ref(), &self.fee.to_be_bytes()])
    }
    pub fn addr(&self) -> Pubkey {
        self.pool().0
    }
    pub fn obs(&self, i: u16) -> (Pubkey, u8) {
        pda(&[b"o", self.t0.as_ref(), self.t1.as_ref(), &self.fee.to_be_bytes(), &i.to_be_bytes()])
    }
    pub fn tick(&self, t: i32) -> (Pubkey, u8) {
        pda(&[b"t", self.t0.as_ref(), self.t1.as_ref(), &self.fee.to_be_bytes(), &t.to_be_bytes()])
    }
    pub fn bitmap(&self, w: i16) -> (Pubkey, u8) {
        pda(&[b"b", self.t0.as_ref(), self.t1.as_ref(), &self.fee.to_be_bytes(), &w.to_be_bytes()])
    }
    pub fn position(&self, owner: &Pubkey, lo: i32, hi: i32) -> (Pubkey, u8) {
        pda(&[
            b"ps",
            self.t0.as_ref(),
            self.t1.as_ref(),
            &self.fee.to_be_bytes(),
            owner.as_ref(),
            &lo.to_be_bytes(),
            &hi.to_be_bytes(),
        ])
    }
    pub fn vault(&self, side: usize) -> Pubkey {
        ata(&self.addr(), if side == 0 { &self.t0 } else { &self.t1 })
    }
}

pub fn tokenized_pda(mint: &Pubkey) -> (Pubkey, u8) {
    pda(&[b"ps", mint.as_ref()])
}

pub fn metadata_pda(mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(
        &[b"metadata", metaplex_token_metadata::ID.as_ref(), mint.as_ref()],
        &metaplex_token_metadata::ID,
    )
    .0
}

/// floor(tick / spacing), the bitmap coordinate of a tick
pub fn compress(tick: i32, spacing: u16) -> i32 {
    tick.div_euclid(spacing as i32)
}

pub fn word_of(tick: i32, spacing: u16) -> i16 {
    compress(tick, spacing).div_euclid(256) as i16
}

// ------------------------------------------------------------------ account decoding

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take<const N: usize>(&mut self) -> Option<[u8; N]> {
        if self.0.len() < N {
            return None;
        }
        let (a, b) = self.0.split_at(N);
        self.0 = b;
        a.try_into().ok()
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.take::<1>()?[0])
    }
    fn u16(&mut self) -> Option<u16> {
        Some(u16::from_le_bytes(self.take()?))
    }
    fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take()?))
    }
    fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take()?))
    }
    fn i16(&mut self) -> Option<i16> {
        Some(i16::from_le_bytes(self.take()?))
    }
    fn i32(&mut self) -> Option<i32> {
        Some(i32::from_le_bytes(self.take()?))
    }
    fn i64(&mut self) -> Option<i64> {
        Some(i64::from_le_bytes(self.take()?))
    }
    fn key(&mut self) -> Option<Pubkey> {
        Some(Pubkey::new_from_array(self.take()?))
    }
    fn done<T>(self, t: T) -> Option<T> {
        if self.0.is_empty() {
            Some(t)
        } else {
            None
        }
    }
}

/// Decodes an account of the program through the program's own state type, so that the field order
/// the compiler chose for it does not matter.
fn state<T: Copy>(d: &[u8], name: &'static str) -> Option<T> {
    if d.len() != 8 + std::mem::size_of::<T>() || d[..8] != acct_disc(name) {
        return None;
    }
    Some(unsafe { std::ptr::read_unaligned(d[8..].as_ptr() as *const T) })
}

/// Re-encodes a program state; used to inject states no instruction can produce between transactions.
pub fn encode<T: Copy>(d: &mut [u8], t: T) {
    assert_eq!(d.len(), 8 + std::mem::size_of::<T>());
    unsafe { std::ptr::write_unaligned(d[8..].as_mut_ptr() as *mut T, t) }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Factory {
    pub bump: u8,
    pub owner: Pubkey,
    pub fee_protocol: u8,
}
impl Factory {
    pub fn read(d: &[u8]) -> Option<Self> {
        let s: factory::FactoryState = state(d, "FactoryState")?;
        Some(Self {
            bump: s.bump,
            owner: s.owner,
            fee_protocol: s.fee_protocol,
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fee {
    pub bump: u8,
    pub fee: u32,
    pub tick_spacing: u16,
}
impl Fee {
    pub fn read(d: &[u8]) -> Option<Self> {
        let s: fee::FeeState = state(d, "FeeState")?;
        Some(Self {
            bump: s.bump,
            fee: s.fee,
            tick_spacing: s.tick_spacing,
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pool {
    pub bump: u8,
    pub token_0: Pubkey,
    pub token_1: Pubkey,
    pub fee: u32,
    pub tick_spacing: u16,
    pub liquidity: u64,
    pub price: u64,
    pub tick: i32,
    pub obs_index: u16,
    pub obs_card: u16,
    pub obs_card_next: u16,
    pub fg0: u64,
    pub fg1: u64,
    pub proto0: u64,
    pub proto1: u64,
    pub unlocked: bool,
}
impl Pool {
    pub fn read(d: &[u8]) -> Option<Self> {
        let s: pool::PoolState = state(d, "PoolState")?;
        Some(Self {
            bump: s.bump,
            token_0: s.token_0,
            token_1: s.token_1,
            fee: s.fee,
            tick_spacing: s.tick_spacing,
            liquidity: s.liquidity,
            price: s.sqrt_price_x32,
            tick: s.tick,
            obs_index: s.observation_index,
            obs_card: s.observation_cardinality,
            obs_card_next: s.observation_cardinality_next,
            fg0: s.fee_growth_global_0_x32,
            fg1: s.fee_growth_global_1_x32,
            proto0: s.protocol_fees_token_0,
            proto1: s.protocol_fees_token_1,
            unlocked: s.unlocked,
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obs {
    pub bump: u8,
    pub index: u16,
    pub ts: u32,
    pub tick_cum: i64,
    pub spl_cum: u64,
    pub init: bool,
}
impl Obs {
    pub fn read(d: &[u8]) -> Option<Self> {
        let s: oracle::ObservationState = state(d, "ObservationState")?;
        Some(Self {
            bump: s.bump,
            index: s.index,
            ts: s.block_timestamp,
            tick_cum: s.tick_cumulative,
            spl_cum: s.seconds_per_liquidity_cumulative_x32,
            init: s.initialized,
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tick {
    pub bump: u8,
    pub tick: i32,
    pub net: i64,
    pub gross: u64,
    pub fgo0: u64,
    pub fgo1: u64,
    pub tick_cum_out: i64,
    pub spl_out: u64,
    pub secs_out: u32,
}
impl Tick {
    pub fn read(d: &[u8]) -> Option<Self> {
        let s: tick::TickState = state(d, "TickState")?;
        Some(Self {
            bump: s.bump,
            tick: s.tick,
            net: s.liquidity_net,
            gross: s.liquidity_gross,
            fgo0: s.fee_growth_outside_0_x32,
            fgo1: s.fee_growth_outside_1_x32,
            tick_cum_out: s.tick_cumulative_outside,
            spl_out: s.seconds_per_liquidity_outside_x32,
            secs_out: s.seconds_outside,
        })
    }
    pub fn is_clear(&self) -> bool {
        self.net == 0
            && self.gross == 0
            && self.fgo0 == 0
            && self.fgo1 == 0
            && self.tick_cum_out == 0
            && self.spl_out == 0
            && self.secs_out == 0
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bitmap {
    pub bump: u8,
    pub word_pos: i16,
    pub word: [u64; 4],
}
impl Bitmap {
    pub fn read(d: &[u8]) -> Option<Self> {
        let s: tick_bitmap::TickBitmapState = state(d, "TickBitmapState")?;
        Some(Self {
            bump: s.bump,
            word_pos: s.word_pos,
            word: s.word,
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Position {
    pub bump: u8,
    pub liquidity: u64,
    pub fgi0: u64,
    pub fgi1: u64,
    pub owed0: u64,
    pub owed1: u64,
}
impl Position {
    pub fn read(d: &[u8]) -> Option<Self> {
        let s: position::PositionState = state(d, "PositionState")?;
        Some(Self {
            bump: s.bump,
            liquidity: s.liquidity,
            fgi0: s.fee_growth_inside_0_last_x32,
            fgi1: s.fee_growth_inside_1_last_x32,
            owed0: s.tokens_owed_0,
            owed1: s.tokens_owed_1,
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tokenized {
    pub bump: u8,
    pub mint: Pubkey,
    pub pool_id: Pubkey,
    pub lo: i32,
    pub hi: i32,
    pub liquidity: u64,
    pub fgi0: u64,
    pub fgi1: u64,
    pub owed0: u64,
    pub owed1: u64,
}
impl Tokenized {
    pub fn read(d: &[u8]) -> Option<Self> {
        let s: tokenized_position::TokenizedPositionState = state(d, "TokenizedPositionState")?;
        Some(Self {
            bump: s.bump,
            mint: s.mint,
            pool_id: s.pool_id,
            lo: s.tick_lower,
            hi: s.tick_upper,
            liquidity: s.liquidity,
            fgi0: s.fee_growth_inside_0_last_x32,
            fgi1: s.fee_growth_inside_1_last_x32,
            owed0: s.tokens_owed_0,
            owed1: s.tokens_owed_1,
        })
    }
}

// ------------------------------------------------------------------ events

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    OwnerChanged { old: Pubkey, new: Pubkey },
    FeeAmountEnabled { fee: u32, spacing: u16 },
    PoolCreated { t0: Pubkey, t1: Pubkey, fee: u32, spacing: u16, pool: Pubkey, price: u64, tick: i32 },
    IncCardinality { old: u16, new: u16 },
    SetFeeProtocol { old: u8, new: u8 },
    CollectProtocol { pool: Pubkey, sender: Pubkey, r0: Pubkey, r1: Pubkey, a0: u64, a1: u64 },
    Mint { pool: Pubkey, sender: Pubkey, owner: Pubkey, lo: i32, hi: i32, amount: u64, a0: u64, a1: u64 },
    Burn { pool: Pubkey, owner: Pubkey, lo: i32, hi: i32, amount: u64, a0: u64, a1: u64 },
    Collect { pool: Pubkey, owner: Pubkey, lo: i32, hi: i32, a0: u64, a1: u64 },
    Swap { pool: Pubkey, sender: Pubkey, ta0: Pubkey, ta1: Pubkey, a0: i64, a1: i64, price: u64, liquidity: u64, tick: i32 },
    IncLiq { mint: Pubkey, liquidity: u64, a0: u64, a1: u64 },
    DecLiq { mint: Pubkey, liquidity: u64, a0: u64, a1: u64 },
    CollectTok { mint: Pubkey, r0: Pubkey, r1: Pubkey, a0: u64, a1: u64 },
    Unknown(Vec<u8>),
}

const EVENTS: [&str; 13] = ["SwapEvent", "MintEvent", "BurnEvent", "CollectEvent", "OwnerChanged", "FeeAmountEnabled", "PoolCreatedAndInitialized", "IncreaseObservationCardinalityNext", "SetFeeProtocolEvent", "CollectProtocolEvent", "IncreaseLiquidityEvent", "DecreaseLiquidityEvent", "CollectTokenizedEvent"];

pub fn is_event(d: &[u8]) -> bool {
    d.len() >= 8 && EVENTS.iter().any(|n| d[..8] == event_disc(n))
}

pub fn parse_event(d: &[u8]) -> Event {
    parse_event_opt(d).unwrap_or_else(|| Event::Unknown(d.to_vec()))
}

fn parse_event_opt(d: &[u8]) -> Option<Event> {
    if d.len() < 8 {
        return None;
    }
    let tag: [u8; 8] = d[..8].try_into().ok()?;
    let mut r = Rd(&d[8..]);
    let is = |n: &'static str| tag == event_disc(n);
    let e = if is("SwapEvent") {
        Event::Swap {
            pool: r.key()?,
            sender: r.key()?,
            ta0: r.key()?,
            ta1: r.key()?,
            a0: r.i64()?,
            a1: r.i64()?,
            price: r.u64()?,
            liquidity: r.u64()?,
            tick: r.i32()?,
        }
    } else if is("MintEvent") {
        Event::Mint {
            pool: r.key()?,
            sender: r.key()?,
            owner: r.key()?,
            lo: r.i32()?,
            hi: r.i32()?,
            amount: r.u64()?,
            a0: r.u64()?,
            a1: r.u64()?,
        }
    } else if is("BurnEvent") {
        Event::Burn {
            pool: r.key()?,
            owner: r.key()?,
            lo: r.i32()?,
            hi: r.i32()?,
            amount: r.u64()?,
            a0: r.u64()?,
            a1: r.u64()?,
        }
    } else if is("CollectEvent") {
        Event::Collect { pool: r.key()?, owner: r.key()?, lo: r.i32()?, hi: r.i32()?, a0: r.u64()?, a1: r.u64()? }
    } else if is("OwnerChanged") {
        Event::OwnerChanged { old: r.key()?, new: r.key()? }
    } else if is("FeeAmountEnabled") {
        Event::FeeAmountEnabled { fee: r.u32()?, spacing: r.u16()? }
    } else if is("PoolCreatedAndInitialized") {
        Event::PoolCreated {
            t0: r.key()?,
            t1: r.key()?,
            fee: r.u32()?,
            spacing: r.u16()?,
            pool: r.key()?,
            price: r.u64()?,
            tick: r.i32()?,
        }
    } else if is("IncreaseObservationCardinalityNext") {
        Event::IncCardinality { old: r.u16()?, new: r.u16()? }
    } else if is("SetFeeProtocolEvent") {
        Event::SetFeeProtocol { old: r.u8()?, new: r.u8()? }
    } else if is("CollectProtocolEvent") {
        Event::CollectProtocol { pool: r.key()?, sender: r.key()?, r0: r.key()?, r1: r.key()?, a0: r.u64()?, a1: r.u64()? }
    } else if is("IncreaseLiquidityEvent") {
        Event::IncLiq { mint: r.key()?, liquidity: r.u64()?, a0: r.u64()?, a1: r.u64()? }
    } else if is("DecreaseLiquidityEvent") {
        Event::DecLiq { mint: r.key()?, liquidity: r.u64()?, a0: r.u64()?, a1: r.u64()? }
    } else if is("CollectTokenizedEvent") {
        Event::CollectTok { mint: r.key()?, r0: r.key()?, r1: r.key()?, a0: r.u64()?, a1: r.u64()? }
    } else {
        return None;
    };
    r.done(e)
}

// ------------------------------------------------------------------ instructions

fn w(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
fn ro(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, true)
}
fn s(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}

pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn new(name: &'static str) -> Enc {
        Enc(ix_disc(name).to_vec())
    }
    pub fn u8(mut self, v: u8) -> Self {
        self.0.push(v);
        self
    }
    pub fn u16(mut self, v: u16) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn i16(mut self, v: i16) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u32(mut self, v: u32) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn i32(mut self, v: i32) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn i64(mut self, v: i64) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn bytes(mut self, v: &[u8]) -> Self {
        self.0.extend_from_slice(&(v.len() as u32).to_le_bytes());
        self.0.extend_from_slice(v);
        self
    }
}

fn mk(e: Enc, accounts: Vec<AccountMeta>) -> Instruction {
    Instruction { program_id: ID, accounts, data: e.0 }
}

pub fn init_factory(owner: Pubkey) -> Instruction {
    mk(Enc::new("init_factory"), vec![ws(owner), w(factory_pda().0), ro(system_program::id())])
}

pub fn set_owner(owner: Pubkey, new_owner: Pubkey) -> Instruction {
    mk(Enc::new("set_owner"), vec![s(owner), ro(new_owner), w(factory_pda().0)])
}

pub fn enable_fee_amount(owner: Pubkey, fee: u32, spacing: u16) -> Instruction {
    mk(
        Enc::new("enable_fee_amount").u32(fee).u16(spacing),
        vec![ws(owner), w(factory_pda().0), w(fee_pda(fee).0), ro(system_program::id())],
    )
}

pub fn create_pool(creator: Pubkey, pk: &PoolKey, price: u64) -> Instruction {
    mk(
        Enc::new("create_and_init_pool").u64(price),
        vec![
            ws(creator),
            ro(pk.t0),
            ro(pk.t1),
            ro(fee_pda(pk.fee).0),
            w(pk.addr()),
            w(pk.obs(0).0),
            ro(system_program::id()),
            ro(sysvar::rent::id()),
        ],
    )
}

pub fn increase_cardinality(payer: Pubkey, pk: &PoolKey, from: u16, n: u16) -> Instruction {
    let mut bumps = vec![];
    let mut acc = vec![ws(payer), w(pk.addr()), ro(system_program::id())];
    for i in 0..n {
        let (k, b) = pk.obs(from.wrapping_add(i));
        bumps.push(b);
        acc.push(w(k));
    }
    mk(Enc::new("increase_observation_cardinality_next").bytes(&bumps), acc)
}

pub fn set_fee_protocol(owner: Pubkey, v: u8) -> Instruction {
    mk(Enc::new("set_fee_protocol").u8(v), vec![s(owner), w(factory_pda().0)])
}

pub fn collect_protocol(owner: Pubkey, pk: &PoolKey, r0: Pubkey, r1: Pubkey, a0: u64, a1: u64) -> Instruction {
    mk(
        Enc::new("collect_protocol").u64(a0).u64(a1),
        vec![
            s(owner),
            w(factory_pda().0),
            w(pk.addr()),
            w(pk.vault(0)),
            w(pk.vault(1)),
            w(r0),
            w(r1),
            ro(SPL_TOKEN),
        ],
    )
}

pub fn init_tick(payer: Pubkey, pk: &PoolKey, tick: i32) -> Instruction {
    mk(
        Enc::new("init_tick_account").i32(tick),
        vec![ws(payer), ro(pk.addr()), w(pk.tick(tick).0), ro(system_program::id())],
    )
}

pub fn close_tick(tick_state: Pubkey, recipient: Pubkey) -> Instruction {
    mk(Enc::new("close_tick_account"), vec![w(tick_state), w(recipient)])
}

pub fn init_bitmap(payer: Pubkey, pk: &PoolKey, word: i16) -> Instruction {
    mk(
        Enc::new("init_bitmap_account").i16(word),
        vec![ws(payer), ro(pk.addr()), w(pk.bitmap(word).0), ro(system_program::id())],
    )
}

pub fn init_position(payer: Pubkey, pk: &PoolKey, owner: Pubkey, lo: i32, hi: i32) -> Instruction {
    mk(
        Enc::new("init_position_account"),
        vec![
            ws(payer),
            ro(owner),
            ro(pk.addr()),
            ro(pk.tick(lo).0),
            ro(pk.tick(hi).0),
            w(pk.position(&owner, lo, hi).0),
            ro(system_program::id()),
        ],
    )
}

pub struct MintAccs {
    pub minter: Pubkey,
    pub ta0: Pubkey,
    pub ta1: Pubkey,
    pub recipient: Pubkey,
    pub lo: i32,
    pub hi: i32,
    pub spacing: u16,
    pub last_obs: u16,
    pub next_obs: u16,
    pub handler: Pubkey,
}

pub fn mint(pk: &PoolKey, m: &MintAccs, amount: u64) -> Instruction {
    mk(
        Enc::new("mint").u64(amount),
        vec![
            s(m.minter),
            w(m.ta0),
            w(m.ta1),
            w(pk.vault(0)),
            w(pk.vault(1)),
            ro(m.recipient),
            w(pk.addr()),
            w(pk.tick(m.lo).0),
            w(pk.tick(m.hi).0),
            w(pk.bitmap(word_of(m.lo, m.spacing)).0),
            w(pk.bitmap(word_of(m.hi, m.spacing)).0),
            w(pk.position(&m.recipient, m.lo, m.hi).0),
            w(pk.obs(m.last_obs).0),
            ro(SPL_TOKEN),
            ro(m.handler),
            w(pk.obs(m.next_obs).0),
        ],
    )
}

pub fn burn(pk: &PoolKey, owner: Pubkey, lo: i32, hi: i32, spacing: u16, last: u16, next: u16, amount: u64) -> Instruction {
    mk(
        Enc::new("burn").u64(amount),
        vec![
            s(owner),
            w(pk.addr()),
            w(pk.tick(lo).0),
            w(pk.tick(hi).0),
            w(pk.bitmap(word_of(lo, spacing)).0),
            w(pk.bitmap(word_of(hi, spacing)).0),
            w(pk.position(&owner, lo, hi).0),
            w(pk.obs(last).0),
            w(pk.obs(next).0),
        ],
    )
}

pub fn collect(pk: &PoolKey, owner: Pubkey, lo: i32, hi: i32, r0: Pubkey, r1: Pubkey, a0: u64, a1: u64) -> Instruction {
    mk(
        Enc::new("collect").u64(a0).u64(a1),
        vec![
            s(owner),
            w(pk.addr()),
            ro(pk.tick(lo).0),
            ro(pk.tick(hi).0),
            w(pk.position(&owner, lo, hi).0),
            w(pk.vault(0)),
            w(pk.vault(1)),
            w(r0),
            w(r1),
            ro(SPL_TOKEN),
        ],
    )
}

pub fn swap(
    pk: &PoolKey,
    signer: Pubkey,
    t_in: Pubkey,
    t_out: Pubkey,
    zfo: bool,
    last: u16,
    handler: Pubkey,
    rem: &[Pubkey],
    amount: i64,
    limit: u64,
) -> Instruction {
    let (vi, vo) = if zfo { (0, 1) } else { (1, 0) };
    let mut a = vec![
        s(signer),
        w(t_in),
        w(t_out),
        w(pk.vault(vi)),
        w(pk.vault(vo)),
        ro(SPL_TOKEN),
        ro(factory_pda().0),
        w(pk.addr()),
        w(pk.obs(last).0),
        ro(handler),
    ];
    a.extend(rem.iter().map(|k| w(*k)));
    mk(Enc::new("swap").i64(amount).u64(limit), a)
}

pub fn exact_input_single(
    pk: &PoolKey,
    signer: Pubkey,
    t_in: Pubkey,
    t_out: Pubkey,
    zfo: bool,
    last: u16,
    rem: &[Pubkey],
    deadline: i64,
    amount_in: u64,
    min_out: u64,
    limit: u64,
) -> Instruction {
    let (vi, vo) = if zfo { (0, 1) } else { (1, 0) };
    let mut a = vec![
        s(signer),
        ro(factory_pda().0),
        w(pk.addr()),
        w(t_in),
        w(t_out),
        w(pk.vault(vi)),
        w(pk.vault(vo)),
        w(pk.obs(last).0),
        ro(ID),
        ro(SPL_TOKEN),
    ];
    a.extend(rem.iter().map(|k| w(*k)));
    mk(Enc::new("exact_input_single").i64(deadline).u64(amount_in).u64(min_out).u64(limit), a)
}

#[derive(Clone)]
pub struct Hop {
    pub pk: PoolKey,
    pub zfo: bool,
    pub t_out: Pubkey,
    pub last: u16,
    pub rem: Vec<Pubkey>,
}

pub fn exact_input(signer: Pubkey, t_in: Pubkey, hops: &[Hop], deadline: i64, amount_in: u64, min_out: u64) -> Instruction {
    let mut a = vec![s(signer), ro(factory_pda().0), w(t_in), ro(ID), ro(SPL_TOKEN)];
    let mut n = vec![];
    for h in hops {
        let (vi, vo) = if h.zfo { (0, 1) } else { (1, 0) };
        a.push(w(h.pk.addr()));
        a.push(w(h.t_out));
        a.push(w(h.pk.vault(vi)));
        a.push(w(h.pk.vault(vo)));
        a.push(w(h.pk.obs(h.last).0));
        a.extend(h.rem.iter().map(|k| w(*k)));
        n.push(h.rem.len() as u8);
    }
    mk(Enc::new("exact_input").i64(deadline).u64(amount_in).u64(min_out).bytes(&n), a)
}

pub struct TokAccs {
    pub lo: i32,
    pub hi: i32,
    pub spacing: u16,
    pub last_obs: u16,
    pub next_obs: u16,
    pub ta0: Pubkey,
    pub ta1: Pubkey,
}

pub fn mint_tokenized(
    pk: &PoolKey,
    m: &TokAccs,
    minter: Pubkey,
    recipient: Pubkey,
    nft: Pubkey,
    a: [u64; 4],
    deadline: i64,
) -> Instruction {
    let f = factory_pda().0;
    mk(
        Enc::new("mint_tokenized_position").u64(a[0]).u64(a[1]).u64(a[2]).u64(a[3]).i64(deadline),
        vec![
            ws(minter),
            ro(recipient),
            ro(f),
            ws(nft),
            w(ata(&recipient, &nft)),
            w(pk.addr()),
            w(pk.position(&f, m.lo, m.hi).0),
            w(pk.tick(m.lo).0),
            w(pk.tick(m.hi).0),
            w(pk.bitmap(word_of(m.lo, m.spacing)).0),
            w(pk.bitmap(word_of(m.hi, m.spacing)).0),
            w(tokenized_pda(&nft).0),
            w(m.ta0),
            w(m.ta1),
            w(pk.vault(0)),
            w(pk.vault(1)),
            w(pk.obs(m.last_obs).0),
            ro(sysvar::rent::id()),
            ro(ID),
            ro(system_program::id()),
            ro(SPL_TOKEN),
            ro(spl_associated_token_account::ID),
            w(pk.obs(m.next_obs).0),
        ],
    )
}

pub fn add_metadata(payer: Pubkey, nft: Pubkey) -> Instruction {
    mk(
        Enc::new("add_metaplex_metadata"),
        vec![
            ws(payer),
            ro(factory_pda().0),
            w(nft),
            ro(tokenized_pda(&nft).0),
            w(metadata_pda(&nft)),
            ro(sysvar::rent::id()),
            ro(metaplex_token_metadata::ID),
            ro(SPL_TOKEN),
            ro(system_program::id()),
        ],
    )
}

pub fn increase_liquidity(pk: &PoolKey, m: &TokAccs, payer: Pubkey, nft: Pubkey, a: [u64; 4], deadline: i64) -> Instruction {
    let f = factory_pda().0;
    mk(
        Enc::new("increase_liquidity").u64(a[0]).u64(a[1]).u64(a[2]).u64(a[3]).i64(deadline),
        vec![
            s(payer),
            ro(f),
            w(tokenized_pda(&nft).0),
            w(pk.addr()),
            w(pk.position(&f, m.lo, m.hi).0),
            w(pk.tick(m.lo).0),
            w(pk.tick(m.hi).0),
            w(pk.bitmap(word_of(m.lo, m.spacing)).0),
            w(pk.bitmap(word_of(m.hi, m.spacing)).0),
            w(m.ta0),
            w(m.ta1),
            w(pk.vault(0)),
            w(pk.vault(1)),
            w(pk.obs(m.last_obs).0),
            ro(ID),
            ro(SPL_TOKEN),
            w(pk.obs(m.next_obs).0),
        ],
    )
}

pub fn decrease_liquidity(
    pk: &PoolKey,
    m: &TokAccs,
    owner: Pubkey,
    nft_account: Pubkey,
    nft: Pubkey,
    liquidity: u64,
    min0: u64,
    min1: u64,
    deadline: i64,
) -> Instruction {
    let f = factory_pda().0;
    mk(
        Enc::new("decrease_liquidity").u64(liquidity).u64(min0).u64(min1).i64(deadline),
        vec![
            s(owner),
            ro(nft_account),
            w(tokenized_pda(&nft).0),
            ro(f),
            w(pk.addr()),
            w(pk.position(&f, m.lo, m.hi).0),
            w(pk.tick(m.lo).0),
            w(pk.tick(m.hi).0),
            w(pk.bitmap(word_of(m.lo, m.spacing)).0),
            w(pk.bitmap(word_of(m.hi, m.spacing)).0),
            w(pk.obs(m.last_obs).0),
            ro(ID),
            w(pk.obs(m.next_obs).0),
        ],
    )
}

pub fn collect_tokenized(
    pk: &PoolKey,
    m: &TokAccs,
    owner: Pubkey,
    nft_account: Pubkey,
    nft: Pubkey,
    a0: u64,
    a1: u64,
) -> Instruction {
    let f = factory_pda().0;
    mk(
        Enc::new("collect_from_tokenized").u64(a0).u64(a1),
        vec![
            s(owner),
            ro(nft_account),
            w(tokenized_pda(&nft).0),
            ro(f),
            w(pk.addr()),
            w(pk.position(&f, m.lo, m.hi).0),
            w(pk.tick(m.lo).0),
            w(pk.tick(m.hi).0),
            w(pk.bitmap(word_of(m.lo, m.spacing)).0),
            w(pk.bitmap(word_of(m.hi, m.spacing)).0),
            w(pk.obs(m.last_obs).0),
            w(pk.vault(0)),
            w(pk.vault(1)),
            w(m.ta0),
            w(m.ta1),
            ro(ID),
            ro(SPL_TOKEN),
            w(pk.obs(m.next_obs).0),
        ],
    )
}
