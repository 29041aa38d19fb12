//! The scene every program check plays in: keys, accounts, and the wire-level
//! construction of report and close transactions.

use {
    crate::{
        ed,
        rt::{self, Env, Ix, Ledger},
        shreds::Shred,
    },
    solana_program::{
        ed25519_program,
        instruction::{AccountMeta, Instruction},
        pubkey::Pubkey,
        sysvar,
    },
    solana_system_interface::program as system_program,
    std::{cell::RefCell, collections::HashMap},
};

pub const HEADER: usize = 114;

pub fn slashing() -> Pubkey {
    // "S1ashing11111111111111111111111111111111111"
    let b = bs58::decode("S1ashing11111111111111111111111111111111111").into_vec().unwrap();
    Pubkey::try_from(b.as_slice()).unwrap()
}

pub fn name(tag: &str) -> Pubkey {
    Pubkey::new_from_array(solana_program::hash::hashv(&[b"verif-name", tag.as_bytes()]).to_bytes())
}

thread_local! {
    static PDAS: RefCell<HashMap<(Pubkey, u64, u8), Pubkey>> = RefCell::new(HashMap::new());
}

/// Address of the report for (node, slot, type), derived from first principles.
pub fn report_address(node: &Pubkey, slot: u64, ty: u8) -> Pubkey {
    PDAS.with(|p| {
        *p.borrow_mut().entry((*node, slot, ty)).or_insert_with(|| {
            Pubkey::find_program_address(&[node.as_ref(), &slot.to_le_bytes(), &[ty]], &slashing()).0
        })
    })
}

/// Everything that goes into a report instruction.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Report {
    pub offset: u64,
    pub slot: u64,
    pub node: Pubkey,
    pub reporter: Pubkey,
    pub destination: Pubkey,
    pub root1: [u8; 32],
    pub sig1: [u8; 64],
    pub root2: [u8; 32],
    pub sig2: [u8; 64],
}

pub const OFF_NODE: u16 = 17;
pub const OFF_ROOT1: u16 = 113;
pub const OFF_SIG1: u16 = 145;
pub const OFF_ROOT2: u16 = 209;
pub const OFF_SIG2: u16 = 241;
pub const REPORT_LEN: usize = 305;

impl Report {
    pub fn data(&self) -> Vec<u8> {
        let mut d = vec![1u8];
        d.extend_from_slice(&self.offset.to_le_bytes());
        d.extend_from_slice(&self.slot.to_le_bytes());
        d.extend_from_slice(self.node.as_ref());
        d.extend_from_slice(self.reporter.as_ref());
        d.extend_from_slice(self.destination.as_ref());
        d.extend_from_slice(&self.root1);
        d.extend_from_slice(&self.sig1);
        d.extend_from_slice(&self.root2);
        d.extend_from_slice(&self.sig2);
        d
    }
    pub fn address(&self) -> Pubkey {
        report_address(&self.node, self.slot, 1)
    }
    pub fn metas(&self, proof: &Pubkey) -> Vec<AccountMeta> {
        vec![
            AccountMeta::new_readonly(*proof, false),
            AccountMeta::new(self.address(), false),
            AccountMeta::new_readonly(sysvar::instructions::id(), false),
            AccountMeta::new_readonly(system_program::id(), false),
        ]
    }
    pub fn ix(&self, proof: &Pubkey) -> Instruction {
        Instruction { program_id: slashing(), accounts: self.metas(proof), data: self.data() }
    }
    /// Documented verification entries, the report being instruction `at`.
    pub fn entries(at: u16) -> [[u16; 7]; 2] {
        [
            [OFF_SIG1, at, OFF_NODE, at, OFF_ROOT1, 32, at],
            [OFF_SIG2, at, OFF_NODE, at, OFF_ROOT2, 32, at],
        ]
    }
    pub fn sigverify(at: u16) -> Instruction {
        ed_ix(ed::precompile_data(2, 0, &Self::entries(at), &[]))
    }
    pub fn of(node: Pubkey, slot: u64, a: &Shred, b: &Shred) -> Self {
        Self {
            offset: 0,
            slot,
            node,
            reporter: name("reporter"),
            destination: name("destination"),
            root1: a.root,
            sig1: a.sig,
            root2: b.root,
            sig2: b.sig,
        }
    }
}

pub fn ed_ix(data: Vec<u8>) -> Instruction {
    Instruction { program_id: ed25519_program::id(), accounts: vec![], data }
}

/// `verify, report` in one transaction.
pub fn report_tx(r: &Report, proof: &Pubkey) -> Vec<Ix> {
    vec![Report::sigverify(1).into(), r.ix(proof).into()]
}

pub fn close_ix(report: &Pubkey, destination: &Pubkey) -> Instruction {
    Instruction {
        program_id: slashing(),
        accounts: vec![AccountMeta::new(*report, false), AccountMeta::new(*destination, false)],
        data: vec![0],
    }
}

pub fn pack(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut d = (a.len() as u32).to_le_bytes().to_vec();
    d.extend_from_slice(a);
    d.extend_from_slice(&(b.len() as u32).to_le_bytes());
    d.extend_from_slice(b);
    d
}

/// Rent-exempt minimum, from the rent parameters.
pub fn minimum(env: &Env, len: usize) -> u64 {
    let per_year = (len as u64 + 128) * env.rent.lamports_per_byte_year;
    (per_year as f64 * env.rent.exemption_threshold) as u64
}

pub fn proof_account() -> Pubkey {
    name("proof-account")
}

/// A ledger with a proof account holding `proof` and the report address funded
/// to the brim.
pub fn scene(env: &Env, r: &Report, proof: &[u8]) -> Ledger {
    let mut l = Ledger::new();
    rt::put(&mut l, proof_account(), 1_000_000_000, proof.to_vec(), name("record-program"));
    rt::put(
        &mut l,
        r.address(),
        minimum(env, HEADER + proof.len() + 16),
        vec![],
        system_program::id(),
    );
    l
}

/// Run a plain report of shreds `a`, `b`.
pub fn run_report(env: &Env, r: &Report, a: &[u8], b: &[u8]) -> rt::Executed {
    let l = scene(env, r, &pack(a, b));
    rt::execute(&l, env, &report_tx(r, &proof_account()))
}

/// What must be stored for `r`, `proof` at `env`.
pub fn stored(env: &Env, r: &Report, a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut d = vec![1u8];
    d.extend_from_slice(r.reporter.as_ref());
    d.extend_from_slice(r.destination.as_ref());
    d.extend_from_slice(&env.clock.epoch.to_le_bytes());
    d.extend_from_slice(r.node.as_ref());
    d.extend_from_slice(&r.slot.to_le_bytes());
    d.push(1);
    d.extend_from_slice(&pack(a, b));
    d
}
