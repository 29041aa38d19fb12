//! A small deterministic stand-in for the Solana runtime.
//!
//! It executes the *real* `process_instruction` of the program under check, fed
//! through the runtime's account serialization ABI, and enforces the runtime's
//! rules around it: native ed25519 precompile, system program, instructions
//! sysvar, per-instruction account change rules, rent-state rule, atomic
//! rollback.  Nothing in here knows anything about slashing.

use {
    crate::ed,
    solana_instruction::{BorrowedAccountMeta, BorrowedInstruction},
    solana_instructions_sysvar::{construct_instructions_data, store_current_index_checked},
    solana_program::{
        account_info::{AccountInfo, MAX_PERMITTED_DATA_INCREASE},
        clock::Clock,
        ed25519_program,
        entrypoint::{deserialize, ProgramResult},
        epoch_schedule::EpochSchedule,
        instruction::{AccountMeta, Instruction},
        program_error::ProgramError,
        program_stubs::{set_syscall_stubs, SyscallStubs},
        pubkey::Pubkey,
        rent::Rent,
        sysvar,
    },
    solana_system_interface::{instruction::SystemInstruction, program as system_program},
    std::{
        cell::RefCell,
        collections::{BTreeMap, BTreeSet},
        panic::{catch_unwind, AssertUnwindSafe},
        sync::Arc,
    },
};

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Account {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
}

pub type Ledger = BTreeMap<Pubkey, Arc<Account>>;

pub fn put(l: &mut Ledger, k: Pubkey, lamports: u64, data: Vec<u8>, owner: Pubkey) {
    l.insert(k, Arc::new(Account { lamports, data, owner }));
}

pub fn lamports_of(l: &Ledger, k: &Pubkey) -> u64 {
    l.get(k).map_or(0, |a| a.lamports)
}

pub fn total(l: &Ledger) -> u128 {
    l.values().map(|a| a.lamports as u128).sum()
}

#[derive(Clone, Debug)]
pub struct Env {
    pub clock: Clock,
    pub schedule: EpochSchedule,
    pub rent: Rent,
}

impl Env {
    /// Clock at `slot` under a schedule of `spe` slots per epoch, no warm-up.
    pub fn at(slot: u64, spe: u64) -> Self {
        Self {
            clock: Clock {
                slot,
                epoch_start_timestamp: 1_600_000_000,
                epoch: if spe == 0 { 0 } else { slot / spe },
                // deliberately distinct from `epoch`
                leader_schedule_epoch: (if spe == 0 { 0 } else { slot / spe }).wrapping_add(7),
                unix_timestamp: 1_700_000_000,
            },
            schedule: EpochSchedule {
                slots_per_epoch: spe,
                // deliberately distinct from slots_per_epoch
                leader_schedule_slot_offset: spe.wrapping_mul(2).wrapping_add(3),
                warmup: false,
                first_normal_epoch: 0,
                first_normal_slot: 0,
            },
            rent: Rent::default(),
        }
    }
    pub fn with_epoch(mut self, e: u64) -> Self {
        self.clock.epoch = e;
        self.clock.leader_schedule_epoch = e.wrapping_add(7);
        self
    }
}

/// One top-level instruction. With `inner`, the named program is an arbitrary
/// third-party program which calls `inner` (and, if `inner_twice`, again).
#[derive(Clone, Debug)]
pub struct Ix {
    pub ix: Instruction,
    pub inner: Vec<Instruction>,
}

impl From<Instruction> for Ix {
    fn from(ix: Instruction) -> Self {
        Self { ix, inner: vec![] }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum IxErr {
    /// The program returned this error.
    Program(ProgramError),
    /// The program aborted.
    Abort(String),
    /// The runtime refused what the program did.
    Runtime(&'static str),
    /// The precompile refused.
    Precompile,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TxErr {
    pub index: usize,
    pub err: IxErr,
}

impl TxErr {
    pub fn is_abort(&self) -> bool {
        matches!(self.err, IxErr::Abort(_))
    }
    pub fn label(&self) -> String {
        match &self.err {
            IxErr::Program(ProgramError::Custom(c)) => format!("ix{} custom:{c}", self.index),
            IxErr::Program(e) => format!("ix{} {e:?}", self.index),
            IxErr::Abort(m) => {
                // without the particular numbers
                let m: String = m.chars().filter(|c| !c.is_ascii_digit()).collect();
                format!("ix{} ABORT {m}", self.index)
            }
            IxErr::Runtime(m) => format!("ix{} runtime:{m}", self.index),
            IxErr::Precompile => format!("ix{} precompile", self.index),
        }
    }
}

// ---------------------------------------------------------------------------
// syscall stubs

struct Ctx {
    env: Env,
    program_id: Pubkey,
    depth: u64,
    privileges: Vec<(Pubkey, bool, bool)>,
    /// State of accounts when they were last handed over to the system program.
    baseline: BTreeMap<Pubkey, Account>,
    logs: Option<Vec<String>>,
    failed_call: Option<IxErr>,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static QUIET: RefCell<Option<String>> = const { RefCell::new(None) };
    static LOGGING: RefCell<bool> = const { RefCell::new(false) };
    static LOGS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

/// Turn log capture on for this thread (used by the mock cluster and replays).
pub fn capture_logs(on: bool) {
    LOGGING.with(|l| *l.borrow_mut() = on);
}
pub fn take_logs() -> Vec<String> {
    LOGS.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

struct Stubs;

fn with_env<R>(f: impl FnOnce(&Env) -> R) -> R {
    CTX.with(|c| f(&c.borrow().as_ref().expect("no program running").env))
}

fn sysvar_bytes(id: &Pubkey, env: &Env) -> Option<Vec<u8>> {
    if *id == sysvar::clock::id() {
        bincode::serialize(&env.clock).ok()
    } else if *id == sysvar::rent::id() {
        bincode::serialize(&env.rent).ok()
    } else if *id == sysvar::epoch_schedule::id() {
        bincode::serialize(&env.schedule).ok()
    } else {
        None
    }
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        crate::alloc::off_heap(|| CTX.with(|c| {
            if let Some(l) = c.borrow_mut().as_mut().and_then(|c| c.logs.as_mut()) {
                l.push(format!("Program log: {m}"));
            }
        }));
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_remaining_compute_units(&self) -> u64 {
        1_400_000
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Clock) = with_env(|e| e.clock.clone()) };
        0
    }
    fn sol_get_epoch_schedule_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut EpochSchedule) = with_env(|e| e.schedule.clone()) };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = with_env(|e| e.rent.clone()) };
        0
    }
    fn sol_get_sysvar(&self, id: *const u8, var: *mut u8, offset: u64, length: u64) -> u64 {
        let id = unsafe { *(id as *const Pubkey) };
        let Some(b) = with_env(|e| sysvar_bytes(&id, e)) else {
            return 2;
        };
        let (o, n) = (offset as usize, length as usize);
        if o.saturating_add(n) > b.len() {
            return 1;
        }
        unsafe { std::ptr::copy_nonoverlapping(b[o..].as_ptr(), var, n) };
        0
    }
    fn sol_get_stack_height(&self) -> u64 {
        CTX.with(|c| c.borrow().as_ref().map_or(0, |c| c.depth))
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        crate::alloc::off_heap(|| {
            cpi(ix, infos, seeds).map_err(|e| {
                // The caller does not survive a failed call, whatever it does
                // with the error it is shown here.
                let shown = match &e {
                    IxErr::Program(p) => p.clone(),
                    _ => ProgramError::IllegalOwner,
                };
                CTX.with(|c| {
                    c.borrow_mut().as_mut().unwrap().failed_call.get_or_insert(e);
                });
                shown
            })
        })
    }
}

pub fn init() {
    set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        let quiet = QUIET.with(|q| {
            let mut q = q.borrow_mut();
            if q.is_some() {
                *q = Some(m.clone());
                true
            } else {
                false
            }
        });
        if !quiet {
            eprintln!("harness panic: {m}");
        }
    }));
}

/// Run `f`, turning a panic into its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| *q.borrow_mut() = Some(String::new()));
    let r = catch_unwind(AssertUnwindSafe(f));
    let m = QUIET.with(|q| q.borrow_mut().take()).unwrap_or_default();
    r.map_err(|_| m.lines().collect::<Vec<_>>().join(" "))
}

// ---------------------------------------------------------------------------
// system program

/// What the system program sees of an account.
trait Acc {
    fn key(&self) -> Pubkey;
    fn signer(&self) -> bool;
    fn writable(&self) -> bool;
    fn owner(&self) -> Pubkey;
    fn lamports(&self) -> u64;
    fn data_len(&self) -> usize;
    fn data_zero(&self) -> bool;
    fn set_owner(&mut self, o: Pubkey);
    fn set_lamports(&mut self, l: u64);
    fn allocate(&mut self, n: usize) -> Result<(), ProgramError>;
}

fn sys_assign(a: &mut dyn Acc, owner: &Pubkey) -> Result<(), ProgramError> {
    if a.owner() == *owner {
        return Ok(());
    }
    if !a.signer() {
        return Err(ProgramError::MissingRequiredSignature);
    }
    // BorrowedAccount::set_owner
    if a.owner() != system_program::id() || !a.writable() || !a.data_zero() {
        return Err(ProgramError::IllegalOwner);
    }
    a.set_owner(*owner);
    Ok(())
}

fn sys_allocate(a: &mut dyn Acc, space: u64) -> Result<(), ProgramError> {
    if !a.signer() {
        return Err(ProgramError::MissingRequiredSignature);
    }
    if a.data_len() != 0 || a.owner() != system_program::id() {
        return Err(ProgramError::Custom(0));
    }
    if space > 10 * 1024 * 1024 {
        return Err(ProgramError::Custom(3));
    }
    if !a.writable() {
        return Err(ProgramError::InvalidArgument);
    }
    a.allocate(space as usize)
}

fn sys_transfer(f: &mut dyn Acc, t: &mut dyn Acc, lamports: u64) -> Result<(), ProgramError> {
    if !f.signer() {
        return Err(ProgramError::MissingRequiredSignature);
    }
    if f.data_len() != 0 || f.owner() != system_program::id() {
        return Err(ProgramError::InvalidArgument);
    }
    if f.lamports() < lamports {
        return Err(ProgramError::Custom(1));
    }
    if !f.writable() || !t.writable() {
        return Err(ProgramError::InvalidArgument);
    }
    if f.key() == t.key() {
        return Ok(());
    }
    let nt = t.lamports().checked_add(lamports).ok_or(ProgramError::ArithmeticOverflow)?;
    f.set_lamports(f.lamports().wrapping_sub(lamports));
    t.set_lamports(nt);
    Ok(())
}

fn system(data: &[u8], accs: &mut [&mut dyn Acc]) -> Result<(), ProgramError> {
    let ix: SystemInstruction =
        bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)?;
    let need = |n: usize| {
        (accs.len() >= n).then_some(()).ok_or(ProgramError::NotEnoughAccountKeys)
    };
    match ix {
        SystemInstruction::Assign { owner } => {
            need(1)?;
            sys_assign(accs[0], &owner)
        }
        SystemInstruction::Allocate { space } => {
            need(1)?;
            sys_allocate(accs[0], space)
        }
        SystemInstruction::Transfer { lamports } => {
            need(2)?;
            let (a, b) = accs.split_at_mut(1);
            sys_transfer(a[0], b[0], lamports)
        }
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            need(2)?;
            let (a, b) = accs.split_at_mut(1);
            if b[0].lamports() > 0 {
                return Err(ProgramError::Custom(0));
            }
            sys_allocate(b[0], space)?;
            sys_assign(b[0], &owner)?;
            sys_transfer(a[0], b[0], lamports)
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

struct InfoAcc<'a, 'b> {
    ai: &'a AccountInfo<'b>,
    signer: bool,
    writable: bool,
}

impl Acc for InfoAcc<'_, '_> {
    fn key(&self) -> Pubkey {
        *self.ai.key
    }
    fn signer(&self) -> bool {
        self.signer
    }
    fn writable(&self) -> bool {
        self.writable
    }
    fn owner(&self) -> Pubkey {
        *self.ai.owner
    }
    fn lamports(&self) -> u64 {
        self.ai.lamports()
    }
    fn data_len(&self) -> usize {
        self.ai.data_len()
    }
    fn data_zero(&self) -> bool {
        self.ai.data.borrow().iter().all(|b| *b == 0)
    }
    fn set_owner(&mut self, o: Pubkey) {
        self.ai.assign(&o)
    }
    fn set_lamports(&mut self, l: u64) {
        **self.ai.lamports.borrow_mut() = l
    }
    fn allocate(&mut self, n: usize) -> Result<(), ProgramError> {
        #[allow(deprecated)]
        self.ai.realloc(n, true)
    }
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), IxErr> {
    let (caller, privileges) = CTX.with(|c| {
        let c = c.borrow();
        let c = c.as_ref().expect("no program running");
        (c.program_id, c.privileges.clone())
    });
    let mut pdas = vec![];
    for s in seeds {
        pdas.push(
            Pubkey::create_program_address(s, &caller).map_err(|_| IxErr::Runtime("call: invalid seeds"))?,
        );
    }
    if ix.program_id != system_program::id() {
        return Err(IxErr::Runtime("call: program unknown to the stand-in"));
    }
    // The callee must be among the accounts of the calling instruction.
    if !privileges.iter().any(|(k, ..)| *k == ix.program_id) {
        return Err(IxErr::Runtime("call: missing account"));
    }
    let mut accs = vec![];
    for m in &ix.accounts {
        let Some((_, s, w)) = privileges.iter().find(|(k, ..)| *k == m.pubkey) else {
            return Err(IxErr::Runtime("call: missing account"));
        };
        // privilege escalation
        if (m.is_signer && !*s && !pdas.contains(&m.pubkey)) || (m.is_writable && !*w) {
            return Err(IxErr::Runtime("call: privilege escalation"));
        }
        let ai = infos
            .iter()
            .find(|i| *i.key == m.pubkey)
            .ok_or(IxErr::Runtime("call: missing account"))?;
        accs.push(InfoAcc { ai, signer: m.is_signer, writable: m.is_writable });
    }
    let snap = |ai: &AccountInfo| Account {
        lamports: ai.lamports(),
        data: ai.data.borrow().to_vec(),
        owner: *ai.owner,
    };
    for a in &accs {
        let base = CTX.with(|c| c.borrow().as_ref().unwrap().baseline.get(a.ai.key).cloned());
        let w = privileges.iter().any(|(k, _, w)| k == a.ai.key && *w);
        if let Some(base) = base {
            check_change(&caller, w, &base, &snap(a.ai)).map_err(IxErr::Runtime)?;
        }
    }
    let mut refs: Vec<&mut dyn Acc> = accs.iter_mut().map(|a| a as &mut dyn Acc).collect();
    system(&ix.data, &mut refs).map_err(IxErr::Program)?;
    for a in &accs {
        CTX.with(|c| c.borrow_mut().as_mut().unwrap().baseline.insert(*a.ai.key, snap(a.ai)));
    }
    Ok(())
}

struct OwnedAcc {
    key: Pubkey,
    a: Account,
    signer: bool,
    writable: bool,
}

impl Acc for OwnedAcc {
    fn key(&self) -> Pubkey {
        self.key
    }
    fn signer(&self) -> bool {
        self.signer
    }
    fn writable(&self) -> bool {
        self.writable
    }
    fn owner(&self) -> Pubkey {
        self.a.owner
    }
    fn lamports(&self) -> u64 {
        self.a.lamports
    }
    fn data_len(&self) -> usize {
        self.a.data.len()
    }
    fn data_zero(&self) -> bool {
        self.a.data.iter().all(|b| *b == 0)
    }
    fn set_owner(&mut self, o: Pubkey) {
        self.a.owner = o
    }
    fn set_lamports(&mut self, l: u64) {
        self.a.lamports = l
    }
    fn allocate(&mut self, n: usize) -> Result<(), ProgramError> {
        self.a.data = vec![0; n];
        Ok(())
    }
}

// ---------------------------------------------------------------------------
// program invocation through the serialized-accounts ABI

pub type Entry = for<'a, 'b, 'c, 'd> fn(&'a Pubkey, &'b [AccountInfo<'c>], &'d [u8]) -> ProgramResult;

fn empty() -> Account {
    Account { lamports: 0, data: vec![], owner: system_program::id() }
}

/// Accounts as `(meta, account)`; returns the accounts afterwards.
/// Repeated keys are passed as duplicates, as the runtime does.
pub fn call_program(
    entry: Entry,
    program_id: &Pubkey,
    env: &Env,
    depth: u64,
    accounts: &[(AccountMeta, Account)],
    data: &[u8],
) -> Result<Vec<Account>, IxErr> {
    let size: usize = 8
        + accounts
            .iter()
            .map(|(_, a)| 8 + 80 + a.data.len() + MAX_PERMITTED_DATA_INCREASE + 16 + 8)
            .sum::<usize>()
        + 8
        + data.len()
        + 32
        + 16;
    let mut backing = vec![0u64; size / 8 + 2];
    let buf: &mut [u8] = bytemuck::cast_slice_mut(&mut backing);
    let mut o = 0;
    buf[o..o + 8].copy_from_slice(&(accounts.len() as u64).to_le_bytes());
    o += 8;
    // (offset of owner, lamports, data) for first occurrences
    let mut spots: Vec<Option<usize>> = vec![];
    for (i, (m, a)) in accounts.iter().enumerate() {
        if let Some(j) = accounts[..i].iter().position(|(n, _)| n.pubkey == m.pubkey) {
            buf[o] = j as u8;
            o += 8;
            spots.push(None);
            continue;
        }
        buf[o] = 0xff;
        buf[o + 1] = m.is_signer as u8;
        buf[o + 2] = m.is_writable as u8;
        buf[o + 3] = 0;
        o += 8;
        buf[o..o + 32].copy_from_slice(m.pubkey.as_ref());
        o += 32;
        spots.push(Some(o));
        buf[o..o + 32].copy_from_slice(a.owner.as_ref());
        o += 32;
        buf[o..o + 8].copy_from_slice(&a.lamports.to_le_bytes());
        o += 8;
        buf[o..o + 8].copy_from_slice(&(a.data.len() as u64).to_le_bytes());
        o += 8;
        buf[o..o + a.data.len()].copy_from_slice(&a.data);
        o += a.data.len() + MAX_PERMITTED_DATA_INCREASE;
        o = o.next_multiple_of(8);
        buf[o..o + 8].copy_from_slice(&u64::MAX.to_le_bytes());
        o += 8;
    }
    buf[o..o + 8].copy_from_slice(&(data.len() as u64).to_le_bytes());
    o += 8;
    buf[o..o + data.len()].copy_from_slice(data);
    o += data.len();
    buf[o..o + 32].copy_from_slice(program_id.as_ref());

    let logging = LOGGING.with(|l| *l.borrow());
    let prev = CTX.with(|c| {
        c.borrow_mut().replace(Ctx {
            env: env.clone(),
            program_id: *program_id,
            depth,
            privileges: accounts
                .iter()
                .map(|(m, _)| (m.pubkey, m.is_signer, m.is_writable))
                .collect(),
            baseline: accounts.iter().map(|(m, a)| (m.pubkey, a.clone())).collect(),
            logs: logging.then(Vec::new),
            failed_call: None,
        })
    });
    let ptr = buf.as_mut_ptr();
    let res = guarded(|| {
        crate::alloc::on_chain_heap(|| {
            let (pid, infos, input) = unsafe { deserialize(ptr) };
            entry(pid, &infos, input)
        })
    });
    let done = CTX.with(|c| std::mem::replace(&mut *c.borrow_mut(), prev)).unwrap();
    if let Some(l) = done.logs {
        LOGS.with(|g| g.borrow_mut().extend(l));
    }
    if let Some(e) = done.failed_call {
        return Err(e);
    }
    let baseline = done.baseline;
    match res {
        Err(m) => return Err(IxErr::Abort(m)),
        Ok((_, false)) => return Err(IxErr::Abort("memory allocation failed, out of memory".into())),
        Ok((Err(e), _)) => return Err(IxErr::Program(e)),
        Ok((Ok(()), _)) => {}
    }
    let rd64 = |o: usize| u64::from_le_bytes(buf[o..o + 8].try_into().unwrap());
    let mut out: Vec<Account> = vec![];
    for (i, s) in spots.iter().enumerate() {
        match s {
            None => {
                let j = accounts[..i]
                    .iter()
                    .position(|(n, _)| n.pubkey == accounts[i].0.pubkey)
                    .unwrap();
                out.push(out[j].clone());
            }
            Some(o) => {
                let len = rd64(o + 40) as usize;
                if len > accounts[i].1.data.len() + MAX_PERMITTED_DATA_INCREASE {
                    return Err(IxErr::Runtime("invalid realloc"));
                }
                out.push(Account {
                    owner: Pubkey::try_from(&buf[*o..*o + 32]).unwrap(),
                    lamports: rd64(o + 32),
                    data: buf[o + 48..o + 48 + len].to_vec(),
                });
            }
        }
    }
    // Lamports are conserved, and every change since the last hand-over to the
    // system program is the program's own doing and must be within its rights.
    let mut before = 0u128;
    let mut after = 0u128;
    for (i, (m, a)) in accounts.iter().enumerate() {
        if spots[i].is_none() {
            continue;
        }
        before += a.lamports as u128;
        after += out[i].lamports as u128;
        let base = baseline.get(&m.pubkey).unwrap_or(a);
        check_change(program_id, m.is_writable, base, &out[i]).map_err(IxErr::Runtime)?;
    }
    if before != after {
        return Err(IxErr::Runtime("unbalanced instruction"));
    }
    Ok(out)
}

/// What a program may do to an account (solana-transaction-context).
fn check_change(program: &Pubkey, writable: bool, a: &Account, b: &Account) -> Result<(), &'static str> {
    if a == b {
        return Ok(());
    }
    if !writable {
        return Err("readonly account changed");
    }
    let mine = a.owner == *program;
    if b.lamports < a.lamports && !mine {
        return Err("external account lamport spend");
    }
    if b.data != a.data && !mine {
        return Err("external account data modified");
    }
    if b.owner != a.owner && (!mine || b.data.iter().any(|x| *x != 0)) {
        return Err("modified program id");
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// transactions

pub fn proxy_id() -> Pubkey {
    Pubkey::new_from_array(*b"ThirdPartyProgramThatCallsOthers")
}

/// Is this the id of a third party's program that differs from `of` in one bit?
pub fn lookalike(of: &Pubkey, k: &Pubkey) -> bool {
    of.as_ref().iter().zip(k.as_ref()).map(|(x, y)| (x ^ y).count_ones()).sum::<u32>() == 1
}

/// `of` with one bit changed.
pub fn nearly(of: &Pubkey, byte: usize, bit: u8) -> Pubkey {
    let mut b = of.to_bytes();
    b[byte] ^= bit;
    Pubkey::new_from_array(b)
}

/// The accounts a third-party program needs to call `ix`.
pub fn through(ix: &Instruction) -> Vec<AccountMeta> {
    let mut m = ix.accounts.clone();
    m.push(AccountMeta::new_readonly(ix.program_id, false));
    m
}

/// Ids the runtime never passes as writable.
pub fn reserved(k: &Pubkey) -> bool {
    *k == system_program::id()
        || *k == ed25519_program::id()
        || *k == sysvar::instructions::id()
        || *k == sysvar::clock::id()
        || *k == sysvar::rent::id()
        || *k == sysvar::epoch_schedule::id()
        || *k == solana_slashing_program::id()
        || *k == proxy_id()
}

fn record_entry(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    spl_record::processor::process_instruction(p, a, d)
}

fn slashing_entry(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    solana_slashing_program::processor::process_instruction(p, a, d)
}

pub struct Executed {
    pub result: Result<(), TxErr>,
    /// Equal to the input ledger when the transaction failed.
    pub ledger: Ledger,
}

impl Executed {
    pub fn ok(&self) -> bool {
        self.result.is_ok()
    }
    pub fn label(&self) -> String {
        match &self.result {
            Ok(()) => "ok".into(),
            Err(e) => e.label(),
        }
    }
}

pub fn execute(ledger: &Ledger, env: &Env, tx: &[Ix]) -> Executed {
    let ex = match try_execute(ledger, env, tx) {
        Ok(l) => Executed { result: Ok(()), ledger: l },
        Err(e) => Executed { result: Err(e), ledger: ledger.clone() },
    };
    crate::traces::record(ledger, env, tx, &ex);
    ex
}

pub fn instructions_sysvar(tx: &[Ix], signers: &BTreeSet<Pubkey>, writables: &BTreeSet<Pubkey>) -> Vec<u8> {
    let b: Vec<BorrowedInstruction> = tx
        .iter()
        .map(|i| BorrowedInstruction {
            program_id: &i.ix.program_id,
            accounts: i
                .ix
                .accounts
                .iter()
                .map(|a| BorrowedAccountMeta {
                    pubkey: &a.pubkey,
                    is_signer: signers.contains(&a.pubkey),
                    is_writable: writables.contains(&a.pubkey),
                })
                .collect(),
            data: &i.ix.data,
        })
        .collect();
    construct_instructions_data(&b)
}

fn try_execute(ledger: &Ledger, env: &Env, tx: &[Ix]) -> Result<Ledger, TxErr> {
    let mut signers = BTreeSet::new();
    let mut writables = BTreeSet::new();
    for i in tx {
        for m in &i.ix.accounts {
            if m.is_signer {
                signers.insert(m.pubkey);
            }
            if m.is_writable && !reserved(&m.pubkey) {
                writables.insert(m.pubkey);
            }
        }
    }
    let fail = |index: usize, err: IxErr| TxErr { index, err };
    let datas: Vec<&[u8]> = tx.iter().map(|i| i.ix.data.as_slice()).collect();
    let mut sysvar_data = instructions_sysvar(tx, &signers, &writables);
    let mut work = ledger.clone();
    for (n, i) in tx.iter().enumerate() {
        store_current_index_checked(&mut sysvar_data, n as u16).unwrap();
        if i.inner.is_empty() {
            // precompiles run in their turn
            if i.ix.program_id == ed25519_program::id() {
                ed::precompile(&i.ix.data, &datas).map_err(|_| fail(n, IxErr::Precompile))?;
                continue;
            }
            if i.ix.program_id == proxy_id() || lookalike(&ed25519_program::id(), &i.ix.program_id) {
                continue;
            }
            run_ix(&mut work, env, 1, &i.ix, &signers, &writables, &sysvar_data)
                .map_err(|e| fail(n, e))?;
        } else {
            for inner in &i.inner {
                if !i.ix.accounts.iter().any(|o| o.pubkey == inner.program_id) {
                    return Err(fail(n, IxErr::Runtime("missing account in caller")));
                }
                for m in inner.accounts.iter() {
                    let Some(outer) = i.ix.accounts.iter().find(|o| o.pubkey == m.pubkey) else {
                        return Err(fail(n, IxErr::Runtime("missing account in caller")));
                    };
                    if (m.is_signer && !signers.contains(&outer.pubkey))
                        || (m.is_writable && !writables.contains(&outer.pubkey))
                    {
                        return Err(fail(n, IxErr::Runtime("privilege escalation")));
                    }
                }
                // A CPI sees the privileges stated in the inner instruction.
                let s = inner.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
                let w = inner.accounts.iter().filter(|m| m.is_writable).map(|m| m.pubkey).collect();
                run_ix(&mut work, env, 2, inner, &s, &w, &sysvar_data).map_err(|e| fail(n, e))?;
            }
        }
    }
    // rent state
    for k in &writables {
        let post = work.get(k).map(|a| (**a).clone()).unwrap_or_else(empty);
        let pre = ledger.get(k).map(|a| (**a).clone()).unwrap_or_else(empty);
        if post.lamports == 0 {
            work.remove(k);
            continue;
        }
        if env.rent.is_exempt(post.lamports, post.data.len()) {
            continue;
        }
        let pre_paying = pre.lamports > 0 && !env.rent.is_exempt(pre.lamports, pre.data.len());
        if !(pre_paying && pre.data.len() == post.data.len() && post.lamports <= pre.lamports) {
            return Err(fail(tx.len(), IxErr::Runtime("insufficient funds for rent")));
        }
    }
    Ok(work)
}

fn run_ix(
    work: &mut Ledger,
    env: &Env,
    depth: u64,
    ix: &Instruction,
    signers: &BTreeSet<Pubkey>,
    writables: &BTreeSet<Pubkey>,
    sysvar_data: &[u8],
) -> Result<(), IxErr> {
    let metas: Vec<AccountMeta> = ix
        .accounts
        .iter()
        .map(|m| AccountMeta {
            pubkey: m.pubkey,
            is_signer: signers.contains(&m.pubkey),
            is_writable: writables.contains(&m.pubkey),
        })
        .collect();
    let load = |k: &Pubkey| -> Account {
        if *k == sysvar::instructions::id() {
            Account { lamports: 0, data: sysvar_data.to_vec(), owner: sysvar::id() }
        } else {
            work.get(k).map(|a| (**a).clone()).unwrap_or_else(empty)
        }
    };
    let entry: Entry = if ix.program_id == system_program::id() {
        let mut accs: Vec<OwnedAcc> = vec![];
        let mut index = vec![];
        for m in &metas {
            if let Some(j) = accs.iter().position(|a| a.key == m.pubkey) {
                index.push(j);
                continue;
            }
            index.push(accs.len());
            accs.push(OwnedAcc {
                key: m.pubkey,
                a: load(&m.pubkey),
                signer: m.is_signer,
                writable: m.is_writable,
            });
        }
        if index.iter().enumerate().any(|(i, j)| i != *j) {
            return Err(IxErr::Runtime("aliased system accounts unsupported"));
        }
        let mut refs: Vec<&mut dyn Acc> = accs.iter_mut().map(|a| a as &mut dyn Acc).collect();
        system(&ix.data, &mut refs).map_err(IxErr::Program)?;
        for a in accs {
            if a.writable {
                work.insert(a.key, Arc::new(a.a));
            }
        }
        return Ok(());
    } else if ix.program_id == solana_slashing_program::id() {
        slashing_entry
    } else if ix.program_id == spl_record::id() {
        record_entry
    } else {
        return Err(IxErr::Runtime("unknown program"));
    };
    let accounts: Vec<(AccountMeta, Account)> =
        metas.iter().map(|m| (m.clone(), load(&m.pubkey))).collect();
    let out = call_program(entry, &ix.program_id, env, depth, &accounts, &ix.data)?;
    for ((m, before), after) in accounts.iter().zip(out) {
        if *before != after {
            work.insert(m.pubkey, Arc::new(after));
        }
    }
    Ok(())
}
