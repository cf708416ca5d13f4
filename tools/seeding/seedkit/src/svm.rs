//! A small in-process emulation of the Solana runtime, enough to run the real program through its
//! entry point together with the real SPL token, associated token account and metaplex metadata
//! processors.
//!
//! Enforced, as on chain: transaction atomicity, signer and writable privileges (no escalation in
//! CPI except by PDA seeds), only the owner program may change data or debit lamports, read-only
//! accounts stay untouched, lamports are conserved, indirect reentrancy is refused, CPI depth,
//! accounts left without lamports disappear. A panic of a program fails the transaction.

use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, program_stubs, pubkey::Pubkey, rent::Rent, system_program,
    sysvar,
};
use std::cell::{Cell as StdCell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Acct {
    pub lamports: u64,
    pub data: Rc<Vec<u8>>,
    pub owner: Pubkey,
    pub executable: bool,
}

impl Acct {
    pub fn empty() -> Acct {
        Acct { lamports: 0, data: Rc::new(vec![]), owner: system_program::id(), executable: false }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TxErr {
    Program(u64),
    Panic(String),
    Runtime(&'static str),
}

impl TxErr {
    pub fn custom(&self) -> Option<u32> {
        match self {
            TxErr::Program(c) if *c < (1 << 32) => Some(*c as u32),
            _ => None,
        }
    }
}

/// Handler of an external (non-cyclos) program that the harness installs, e.g. a callback program.
pub type Handler = Rc<dyn Fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult>;

#[derive(Clone, Default)]
pub struct Svm {
    pub accts: HashMap<Pubkey, Acct>,
    pub clock: i64,
    pub handlers: HashMap<Pubkey, Handler>,
}

#[derive(Clone, Debug, Default)]
pub struct TxOut {
    /// Data of events logged by the cyclos program, in order.
    pub events: Vec<Vec<u8>>,
    /// Accounts before the transaction, for those that changed.
    pub changed: BTreeMap<Pubkey, (Acct, Acct)>,
}

struct Cell {
    key: Pubkey,
    lamports: Rc<RefCell<&'static mut u64>>,
    data: Rc<RefCell<&'static mut [u8]>>,
    /// the account's memory; a program may shorten its own view of it
    raw: StdCell<*mut [u8]>,
    owner: *mut Pubkey,
    executable: bool,
    signer: bool,
    writable: bool,
    pre: Acct,
}

impl Cell {
    fn current(&self) -> Result<Acct, TxErr> {
        // the runtime reads the program's memory whatever the program's own borrow bookkeeping says
        let lamports = unsafe { std::ptr::read_volatile(*(self.lamports.as_ptr() as *const *const u64)) };
        let data: &[u8] = unsafe { &*self.raw.get() };
        let owner = unsafe { std::ptr::read_volatile(self.owner) };
        let d: &[u8] = data;
        let data = if *self.pre.data == d { self.pre.data.clone() } else { Rc::new(d.to_vec()) };
        Ok(Acct { lamports, data, owner, executable: self.executable })
    }
}

struct Frame {
    program_id: Pubkey,
    cells: Vec<Cell>,
}

struct Ctx {
    frames: Vec<Frame>,
    clock: i64,
    events: Vec<Vec<u8>>,
    handlers: HashMap<Pubkey, Handler>,
    free: Vec<Box<dyn FnOnce()>>,
    /// set when the runtime (not a program) refused something inside a CPI
    runtime_err: Option<&'static str>,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: StdCell<bool> = const { StdCell::new(false) };
}

pub const SPL_TOKEN: Pubkey = Pubkey::new_from_array(SPL_TOKEN_BYTES);
// TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA
const SPL_TOKEN_BYTES: [u8; 32] = [
    6, 221, 246, 225, 215, 101, 161, 147, 217, 203, 225, 70, 206, 235, 121, 172, 28, 180, 133, 237,
    95, 91, 55, 145, 58, 140, 245, 133, 126, 255, 0, 169,
];

pub static LOG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

struct Stubs;

impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        if LOG.load(std::sync::atomic::Ordering::Relaxed) {
            eprintln!("log: {}", m);
        }
        // events travel as base64 log lines
        if let Some(v) = base64(m) {
            if crate::cy::is_event(&v) {
                CTX.with(|c| {
                    if let Some(c) = c.borrow_mut().as_mut() {
                        c.events.push(v);
                    }
                });
            }
        }
    }
    fn sol_log_compute_units(&self) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        match cpi(ix, infos, seeds) {
            Ok(()) => Ok(()),
            Err(TxErr::Program(c)) => Err(ProgramError::from(c)),
            Err(TxErr::Panic(m)) => panic!("{}", m),
            Err(TxErr::Runtime(m)) => {
                CTX.with(|c| {
                    if let Some(c) = c.borrow_mut().as_mut() {
                        c.runtime_err = Some(m)
                    }
                });
                // A runtime refusal inside a CPI aborts the whole transaction on chain.
                panic!("runtime: {}", m)
            }
        }
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let t = CTX.with(|c| c.borrow().as_ref().map(|c| c.clock).unwrap_or(0));
        let clock = Clock { unix_timestamp: t, ..Clock::default() };
        unsafe { *(p as *mut Clock) = clock };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    fn sol_log_data(&self, fields: &[&[u8]]) {
        CTX.with(|c| {
            if let Some(c) = c.borrow_mut().as_mut() {
                let mut v = vec![];
                for f in fields {
                    v.extend_from_slice(f);
                }
                c.events.push(v);
            }
        });
    }
}

fn base64(s: &str) -> Option<Vec<u8>> {
    if s.len() < 12 || s.len() % 4 != 0 {
        return None;
    }
    let mut out = Vec::with_capacity(s.len() / 4 * 3);
    let (mut acc, mut bits) = (0u32, 0);
    for c in s.trim_end_matches('=').bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        };
        acc = acc << 6 | v as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
        }
    }
    Some(out)
}

pub fn init() {
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        if !QUIET.with(|q| q.get()) {
            eprintln!("{}\n{}", msg, std::backtrace::Backtrace::force_capture());
        }
        PANIC_MSG.with(|m| *m.borrow_mut() = msg);
    }));
}

pub fn set_quiet(q: bool) {
    QUIET.with(|c| c.set(q));
}

/// Sets the clock that library code called outside of a transaction sees.
pub fn with_clock<R>(clock: i64, f: impl FnOnce() -> R) -> R {
    CTX.with(|c| {
        *c.borrow_mut() = Some(Ctx {
            frames: vec![],
            clock,
            events: vec![],
            handlers: HashMap::new(),
            free: vec![],
            runtime_err: None,
        })
    });
    let r = f();
    CTX.with(|c| *c.borrow_mut() = None);
    r
}

/// Runs `f`, turning a panic into an error message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

fn make_cell(free: &mut Vec<Box<dyn FnOnce()>>, key: Pubkey, a: &Acct, signer: bool, writable: bool) -> Cell {
    let l: *mut u64 = Box::into_raw(Box::new(a.lamports));
    let o: *mut Pubkey = Box::into_raw(Box::new(a.owner));
    let d: *mut [u8] = Box::into_raw(a.data.as_slice().to_vec().into_boxed_slice());
    free.push(Box::new(move || unsafe {
        drop(Box::from_raw(l));
        drop(Box::from_raw(o));
        drop(Box::from_raw(d));
    }));
    Cell {
        key,
        lamports: Rc::new(RefCell::new(unsafe { &mut *l })),
        data: Rc::new(RefCell::new(unsafe { &mut *d })),
        raw: StdCell::new(d),
        owner: o,
        executable: a.executable,
        signer,
        writable,
        pre: a.clone(),
    }
}

fn make_info(free: &mut Vec<Box<dyn FnOnce()>>, c: &Cell) -> AccountInfo<'static> {
    let k: *mut Pubkey = Box::into_raw(Box::new(c.key));
    free.push(Box::new(move || unsafe { drop(Box::from_raw(k)) }));
    AccountInfo {
        key: unsafe { &*k },
        is_signer: c.signer,
        is_writable: c.writable,
        lamports: c.lamports.clone(),
        data: c.data.clone(),
        owner: unsafe { &*c.owner },
        executable: c.executable,
        rent_epoch: 0,
    }
}

fn verify_change(program: &Pubkey, writable: bool, pre: &Acct, post: &Acct) -> Result<(), TxErr> {
    if pre == post {
        return Ok(());
    }
    if pre.owner != post.owner
        && (!writable || pre.executable || pre.owner != *program || post.data.iter().any(|b| *b != 0))
    {
        return Err(TxErr::Runtime("ModifiedProgramId"));
    }
    if pre.lamports != post.lamports {
        if !writable {
            return Err(TxErr::Runtime("ReadonlyLamportChange"));
        }
        if post.lamports < pre.lamports && pre.owner != *program {
            return Err(TxErr::Runtime("ExternalAccountLamportSpend"));
        }
        if pre.executable {
            return Err(TxErr::Runtime("ExecutableLamportChange"));
        }
    }
    if pre.data.len() != post.data.len()
        && (*program != system_program::id() || pre.owner != *program)
    {
        return Err(TxErr::Runtime("AccountDataSizeChanged"));
    }
    if pre.data != post.data {
        if pre.owner != *program {
            return Err(TxErr::Runtime("ExternalAccountDataModified"));
        }
        if !writable {
            return Err(TxErr::Runtime("ReadonlyDataModified"));
        }
        if pre.executable {
            return Err(TxErr::Runtime("ExecutableDataModified"));
        }
    }
    Ok(())
}

/// Checks the top frame's changes and adopts them as its new baseline.
fn verify_top(allow_mut: Option<&[(Pubkey, bool)]>) -> Result<(), TxErr> {
    let _ = allow_mut;
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        let f = c.frames.last_mut().unwrap();
        let (mut a, mut b) = (0u128, 0u128);
        for cell in f.cells.iter_mut() {
            let cur = cell.current()?;
            verify_change(&f.program_id, cell.writable, &cell.pre, &cur)?;
            a += cell.pre.lamports as u128;
            b += cur.lamports as u128;
            cell.pre = cur;
        }
        if a != b {
            return Err(TxErr::Runtime("UnbalancedInstruction"));
        }
        Ok(())
    })
}

fn system(cells: &[Cell], metas: &[(Pubkey, bool, bool)], data: &[u8]) -> Result<Vec<(Pubkey, Acct)>, TxErr> {
    use solana_program::system_instruction::SystemInstruction as SI;
    let ix: SI = bincode_lite(data).ok_or(TxErr::Runtime("bad system instruction"))?;
    let acct = |i: usize| -> Result<(&Cell, Acct), TxErr> {
        let k = metas.get(i).ok_or(TxErr::Program(ProgramError::NotEnoughAccountKeys.into()))?.0;
        let c = cells.iter().find(|c| c.key == k).unwrap();
        Ok((c, c.pre.clone()))
    };
    let e = |n: u32| TxErr::Program(n as u64);
    let transfer = |from: &Cell, f: &mut Acct, to: &mut Acct, l: u64| -> Result<(), TxErr> {
        if l == 0 {
            return Ok(());
        }
        if !from.signer {
            return Err(TxErr::Runtime("system: from must sign"));
        }
        if !f.data.is_empty() {
            return Err(TxErr::Runtime("system: from must not carry data"));
        }
        if f.lamports < l {
            return Err(e(1));
        }
        f.lamports -= l;
        to.lamports += l;
        Ok(())
    };
    match ix {
        SI::CreateAccount { lamports, space, owner } => {
            let (fc, mut f) = acct(0)?;
            let (tc, mut t) = acct(1)?;
            if t.lamports > 0 {
                return Err(e(0));
            }
            if !tc.signer {
                return Err(TxErr::Runtime("system: to must sign"));
            }
            if !t.data.is_empty() || t.owner != system_program::id() {
                return Err(e(0));
            }
            transfer(fc, &mut f, &mut t, lamports)?;
            t.data = Rc::new(vec![0; space as usize]);
            t.owner = owner;
            Ok(vec![(fc.key, f), (tc.key, t)])
        }
        SI::Transfer { lamports } => {
            let (fc, mut f) = acct(0)?;
            let (tc, mut t) = acct(1)?;
            if fc.key == tc.key {
                return Ok(vec![]);
            }
            transfer(fc, &mut f, &mut t, lamports)?;
            Ok(vec![(fc.key, f), (tc.key, t)])
        }
        SI::Allocate { space } => {
            let (tc, mut t) = acct(0)?;
            if !tc.signer {
                return Err(TxErr::Runtime("system: allocate must sign"));
            }
            if !t.data.is_empty() || t.owner != system_program::id() {
                return Err(e(0));
            }
            t.data = Rc::new(vec![0; space as usize]);
            Ok(vec![(tc.key, t)])
        }
        SI::Assign { owner } => {
            let (tc, mut t) = acct(0)?;
            if t.owner == owner {
                return Ok(vec![]);
            }
            if !tc.signer {
                return Err(TxErr::Runtime("system: assign must sign"));
            }
            if t.owner != system_program::id() {
                return Err(TxErr::Runtime("ModifiedProgramId"));
            }
            t.owner = owner;
            Ok(vec![(tc.key, t)])
        }
        _ => Err(TxErr::Runtime("system instruction not emulated")),
    }
}

fn bincode_lite(d: &[u8]) -> Option<solana_program::system_instruction::SystemInstruction> {
    use solana_program::system_instruction::SystemInstruction as SI;
    let tag = u32::from_le_bytes(d.get(0..4)?.try_into().ok()?);
    let u = |i: usize| -> Option<u64> { Some(u64::from_le_bytes(d.get(i..i + 8)?.try_into().ok()?)) };
    let p = |i: usize| -> Option<Pubkey> { Some(Pubkey::new(d.get(i..i + 32)?)) };
    Some(match tag {
        0 => SI::CreateAccount { lamports: u(4)?, space: u(12)?, owner: p(20)? },
        1 => SI::Assign { owner: p(4)? },
        2 => SI::Transfer { lamports: u(4)? },
        8 => SI::Allocate { space: u(4)? },
        _ => return None,
    })
}

/// Runs a program over the top frame.
fn run_program(program_id: &Pubkey, metas: &[(Pubkey, bool, bool)], data: &[u8]) -> Result<(), TxErr> {
    if *program_id == system_program::id() {
        let changes = CTX.with(|c| {
            let c = c.borrow();
            system(&c.as_ref().unwrap().frames.last().unwrap().cells, metas, data)
        })?;
        return CTX.with(|c| {
            let mut c = c.borrow_mut();
            let c = c.as_mut().unwrap();
            let f = c.frames.last_mut().unwrap();
            for (k, a) in changes {
                let cell = f.cells.iter_mut().find(|x| x.key == k).unwrap();
                verify_change(&system_program::id(), cell.writable, &cell.pre, &a)?;
                write_cell(&mut c.free, cell, &a);
                cell.pre = a;
            }
            Ok(())
        });
    }
    let (infos, handler) = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        let f = c.frames.last().unwrap();
        // duplicate entries share cells, as on chain
        let mut uniq: HashMap<Pubkey, AccountInfo<'static>> = HashMap::new();
        for cell in f.cells.iter() {
            let i = make_info(&mut c.free, cell);
            uniq.insert(cell.key, i);
        }
        let infos: Vec<AccountInfo<'static>> = metas.iter().map(|m| uniq[&m.0].clone()).collect();
        (infos, c.handlers.get(program_id).cloned())
    });
    let r = if *program_id == cyclos_core::ID {
        cyclos_core::entry(program_id, &infos, data)
    } else if *program_id == SPL_TOKEN {
        spl_token::processor::Processor::process(program_id, &infos, data)
    } else if *program_id == spl_associated_token_account::ID {
        spl_associated_token_account::processor::process_instruction(program_id, &infos, data)
    } else if *program_id == metaplex_token_metadata::ID {
        {
        // its signature wants one lifetime for everything; nothing escapes the call
        let (id, i, d): (&'static Pubkey, &'static [AccountInfo<'static>], &'static [u8]) =
            unsafe { (&*(program_id as *const _), &*(infos.as_slice() as *const _), &*(data as *const _)) };
        metaplex_token_metadata::processor::process_instruction(id, i, d)
    }
    } else if let Some(h) = handler {
        h(program_id, &infos, data)
    } else {
        return Err(TxErr::Runtime("unknown program"));
    };
    r.map_err(|e| TxErr::Program(u64::from(e)))?;
    verify_top(None)
}

fn write_cell(free: &mut Vec<Box<dyn FnOnce()>>, cell: &Cell, a: &Acct) {
    **cell.lamports.borrow_mut() = a.lamports;
    unsafe { std::ptr::write_volatile(cell.owner, a.owner) };
    let mut d = cell.data.borrow_mut();
    if cell.raw.get().len() == a.data.len() {
        unsafe { (&mut *cell.raw.get()).copy_from_slice(&a.data) };
    } else {
        let n: *mut [u8] = Box::into_raw(a.data.as_slice().to_vec().into_boxed_slice());
        free.push(Box::new(move || unsafe { drop(Box::from_raw(n)) }));
        cell.raw.set(n);
        *d = unsafe { &mut *n };
    }
}

fn merge_metas(ix: &Instruction) -> Vec<(Pubkey, bool, bool)> {
    ix.accounts.iter().map(|m| (m.pubkey, m.is_signer, m.is_writable)).collect()
}

fn uniq_metas(m: &[(Pubkey, bool, bool)]) -> Vec<(Pubkey, bool, bool)> {
    let mut out: Vec<(Pubkey, bool, bool)> = vec![];
    for x in m {
        if let Some(o) = out.iter_mut().find(|o| o.0 == x.0) {
            o.1 |= x.1;
            o.2 |= x.2;
        } else {
            out.push(*x);
        }
    }
    out
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), TxErr> {
    // the caller's pending changes must be legal before anything else runs
    verify_top(None)?;
    let metas = merge_metas(ix);
    let um = uniq_metas(&metas);
    CTX.with(|c| -> Result<(), TxErr> {
        let mut cb = c.borrow_mut();
        let c = cb.as_mut().unwrap();
        if c.frames.len() >= 5 {
            return Err(TxErr::Runtime("CallDepth"));
        }
        let caller = c.frames.last().unwrap();
        let caller_id = caller.program_id;
        if c.frames.iter().any(|f| f.program_id == ix.program_id) && caller_id != ix.program_id {
            return Err(TxErr::Runtime("ReentrancyNotAllowed"));
        }
        let mut pdas = vec![];
        for s in seeds {
            pdas.push(
                Pubkey::create_program_address(s, &caller_id)
                    .map_err(|_| TxErr::Runtime("InvalidSeeds"))?,
            );
        }
        let pcell = caller.cells.iter().find(|x| x.key == ix.program_id);
        match pcell {
            None => return Err(TxErr::Runtime("MissingAccount: program")),
            Some(p) if !p.executable => return Err(TxErr::Runtime("AccountNotExecutable")),
            _ => {}
        }
        let mut cells = vec![];
        for (k, s, w) in &um {
            let cc = caller
                .cells
                .iter()
                .find(|x| x.key == *k)
                .ok_or(TxErr::Runtime("MissingAccount"))?;
            if !infos.iter().any(|i| i.key == k) {
                return Err(TxErr::Runtime("MissingAccount: info"));
            }
            if *w && !cc.writable {
                return Err(TxErr::Runtime("writable privilege escalated"));
            }
            if *s && !cc.signer && !pdas.contains(k) {
                return Err(TxErr::Runtime("signer privilege escalated"));
            }
            let cur = cc.pre.clone();
            cells.push(make_cell(&mut c.free, *k, &cur, *s, *w));
        }
        c.frames.push(Frame { program_id: ix.program_id, cells });
        Ok(())
    })?;
    let r = run_program(&ix.program_id, &metas, &ix.data);
    CTX.with(|c| -> Result<(), TxErr> {
        let mut cb = c.borrow_mut();
        let c = cb.as_mut().unwrap();
        let callee = c.frames.pop().unwrap();
        r?;
        let Ctx { frames, free, .. } = c;
        let caller = frames.last_mut().unwrap();
        for cell in callee.cells {
            if !cell.writable {
                continue;
            }
            let cc = caller.cells.iter_mut().find(|x| x.key == cell.key).unwrap();
            if cc.pre != cell.pre {
                write_cell(free, cc, &cell.pre);
                cc.pre = cell.pre;
            }
        }
        Ok(())
    })
}

impl Svm {
    pub fn get(&self, k: &Pubkey) -> Option<&Acct> {
        self.accts.get(k)
    }

    pub fn data(&self, k: &Pubkey) -> Option<&[u8]> {
        self.accts.get(k).map(|a| a.data.as_slice())
    }

    /// Executes one atomic transaction. `ixs` are run in order; on any failure nothing changes.
    pub fn run(&mut self, ixs: &[Instruction]) -> Result<TxOut, TxErr> {
        let (r, out) = self.simulate(ixs);
        r?;
        for (k, (_, post)) in &out.changed {
            if post.lamports == 0 {
                self.accts.remove(k);
            } else {
                self.accts.insert(*k, post.clone());
            }
        }
        Ok(out)
    }

    /// Undo a transaction that `run` committed.
    pub fn undo(&mut self, out: &TxOut) {
        for (k, (pre, _)) in &out.changed {
            if pre.lamports == 0 {
                self.accts.remove(k);
            } else {
                self.accts.insert(*k, pre.clone());
            }
        }
    }

    /// Executes without committing.
    pub fn simulate(&self, ixs: &[Instruction]) -> (Result<(), TxErr>, TxOut) {
        let mut work: BTreeMap<Pubkey, Acct> = BTreeMap::new();
        let load = |work: &BTreeMap<Pubkey, Acct>, k: &Pubkey| -> Acct {
            work.get(k).or_else(|| self.accts.get(k)).cloned().unwrap_or_else(Acct::empty)
        };
        CTX.with(|c| {
            *c.borrow_mut() = Some(Ctx {
                frames: vec![],
                clock: self.clock,
                events: vec![],
                handlers: self.handlers.clone(),
                free: vec![],
                runtime_err: None,
            })
        });
        let mut result = Ok(());
        for ix in ixs {
            let metas = merge_metas(ix);
            let mut um = uniq_metas(&metas);
            // every account of the transaction is visible to the program only through its metas,
            // but its own id is always known to the runtime
            if !um.iter().any(|m| m.0 == ix.program_id) {
                um.push((ix.program_id, false, false));
            }
            CTX.with(|c| {
                let mut cb = c.borrow_mut();
                let c = cb.as_mut().unwrap();
                c.frames.clear();
                let mut cells = vec![];
                for (k, s, w) in &um {
                    let a = load(&work, k);
                    cells.push(make_cell(&mut c.free, *k, &a, *s, *w));
                }
                c.frames.push(Frame { program_id: ix.program_id, cells });
            });
            let r = catch(|| run_program(&ix.program_id, &metas, &ix.data));
            let r = match r {
                Ok(r) => r,
                Err(m) => {
                    let re = CTX.with(|c| c.borrow().as_ref().unwrap().runtime_err);
                    Err(match re {
                        Some(m) => TxErr::Runtime(m),
                        None => TxErr::Panic(m),
                    })
                }
            };
            match r {
                Ok(()) => CTX.with(|c| {
                    let cb = c.borrow();
                    let f = &cb.as_ref().unwrap().frames[0];
                    for cell in &f.cells {
                        let was = load(&work, &cell.key);
                        if was != cell.pre {
                            work.insert(cell.key, cell.pre.clone());
                        }
                    }
                }),
                Err(e) => {
                    result = Err(e);
                    break;
                }
            }
        }
        let (events, free) = CTX.with(|c| {
            let mut c = c.borrow_mut().take().unwrap();
            c.frames.clear();
            (std::mem::take(&mut c.events), std::mem::take(&mut c.free))
        });
        for f in free {
            f();
        }
        let mut out = TxOut { events, changed: BTreeMap::new() };
        if result.is_ok() {
            for (k, mut a) in work {
                let pre = self.accts.get(&k).cloned().unwrap_or_else(Acct::empty);
                if a.lamports == 0 {
                    a = Acct::empty();
                }
                if pre != a {
                    out.changed.insert(k, (pre, a));
                }
            }
        } else {
            out.events.clear();
        }
        (result, out)
    }

    pub fn install_programs(&mut self) {
        let loader = solana_program::bpf_loader::id();
        for id in [
            cyclos_core::ID,
            SPL_TOKEN,
            spl_associated_token_account::ID,
            metaplex_token_metadata::ID,
            system_program::id(),
        ] {
            self.install_program_account(id, loader);
        }
        let rent = Rent::default();
        let mut d = vec![];
        d.extend_from_slice(&rent.lamports_per_byte_year.to_le_bytes());
        d.extend_from_slice(&rent.exemption_threshold.to_le_bytes());
        d.push(rent.burn_percent);
        self.accts.insert(
            sysvar::rent::id(),
            Acct { lamports: 1, data: Rc::new(d), owner: sysvar::id(), executable: false },
        );
    }

    fn install_program_account(&mut self, id: Pubkey, loader: Pubkey) {
        self.accts.insert(
            id,
            Acct { lamports: 1, data: Rc::new(vec![]), owner: loader, executable: true },
        );
    }

    pub fn install_handler(&mut self, id: Pubkey, h: Handler) {
        self.install_program_account(id, solana_program::bpf_loader::id());
        self.handlers.insert(id, h);
    }
}
