//! Transactions executed by the runtime stand-in, kept to be replayed on a real
//! bank (conf/conformance.rs): up to `per_class` of every class, a class being
//! an outcome together with the shape of the transaction.

use {
    crate::rt::{reserved, Env, Executed, Ix, IxErr, Ledger},
    serde_json::{json, Value},
    solana_program::{instruction::Instruction, pubkey::Pubkey, rent::Rent, sysvar},
    std::{
        collections::{BTreeMap, BTreeSet},
        hash::{Hash, Hasher},
        path::Path,
        process::{Command, Stdio},
        sync::{
            atomic::{AtomicU64, AtomicUsize, Ordering},
            Mutex,
        },
    },
};

type IxT = ([u8; 32], Vec<([u8; 32], bool, bool)>, Vec<u8>);
type AccT = ([u8; 32], u64, Vec<u8>, [u8; 32]);
type Outcome = (u8, u32, u64, String);
/// Plain tuples, so that the reading side needs nothing but bincode.
type Trace = (
    String,
    (u64, i64, u64, u64, i64),
    (u64, u64, bool, u64, u64),
    Vec<AccT>,
    Vec<(IxT, Vec<IxT>)>,
    Outcome,
    Vec<AccT>,
);

static PER_CLASS: AtomicUsize = AtomicUsize::new(0);
static SEEN: AtomicU64 = AtomicU64::new(0);
static KEPT: Mutex<BTreeMap<String, BTreeMap<u64, Trace>>> = Mutex::new(BTreeMap::new());
/// Outcomes the bank cannot be made to show, and how often they were met.
static LEFT_OUT: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());

pub fn collect(per_class: usize) {
    PER_CLASS.store(per_class, Ordering::Relaxed);
}

fn ix(i: &Instruction) -> IxT {
    (
        i.program_id.to_bytes(),
        i.accounts.iter().map(|m| (m.pubkey.to_bytes(), m.is_signer, m.is_writable)).collect(),
        i.data.clone(),
    )
}

fn accounts(l: &Ledger) -> Vec<AccT> {
    l.iter().map(|(k, a)| (k.to_bytes(), a.lamports, a.data.clone(), a.owner.to_bytes())).collect()
}

fn shape(tx: &[Ix], o: &mut String) {
    use std::fmt::Write;
    for i in tx {
        let one = |o: &mut String, i: &Instruction| {
            let keys: BTreeSet<&Pubkey> = i.accounts.iter().map(|m| &m.pubkey).collect();
            let _ = write!(
                o,
                " {:02x}/{}/{}:{}s{}w{}/{}",
                i.program_id.as_ref()[0],
                i.data.first().copied().unwrap_or(255).min(4),
                i.accounts.len(),
                keys.len(),
                i.accounts.iter().filter(|m| m.is_signer).count(),
                i.accounts.iter().filter(|m| m.is_writable).count(),
                i.data.len().min(400).ilog2(),
            );
        };
        if i.ix.data.is_empty() {
            let _ = write!(o, " {:02x}/e", i.ix.program_id.as_ref()[0]);
        } else {
            one(o, &i.ix);
        }
        for j in i.inner.iter().filter(|j| !j.data.is_empty()) {
            o.push('>');
            one(o, j);
        }
    }
}

fn why_not(ledger: &Ledger, env: &Env, tx: &[Ix], ex: &Executed) -> Option<&'static str> {
    if let Err(e) = &ex.result {
        match &e.err {
            IxErr::Abort(_) => return Some("the program aborted"),
            IxErr::Runtime("unknown program" | "aliased system accounts unsupported") => {
                return Some("outside the stand-in")
            }
            // program-test drops such changes, a validator refuses them
            IxErr::Runtime("readonly account changed") => return Some("change of a read-only account"),
            IxErr::Runtime(_) if tx.get(e.index).is_some_and(|i| !i.inner.is_empty()) => {
                return Some("runtime refusal inside a third-party call")
            }
            _ => {}
        }
    }
    if tx.iter().any(|i| crate::rt::lookalike(&solana_program::ed25519_program::id(), &i.ix.program_id)) {
        return Some("a program that is not deployed there");
    }
    if env.rent != Rent::default() {
        return Some("rent parameters of another cluster");
    }
    if ledger.values().any(|a| a.lamports == 0) {
        return Some("an account without lamports");
    }
    if ledger.keys().any(|k| reserved(k) || *k == sysvar::instructions::id()) {
        return Some("a program or sysvar among the accounts");
    }
    None
}

pub fn record(ledger: &Ledger, env: &Env, tx: &[Ix], ex: &Executed) {
    let k = PER_CLASS.load(Ordering::Relaxed);
    if k == 0 {
        return;
    }
    SEEN.fetch_add(1, Ordering::Relaxed);
    if let Some(w) = why_not(ledger, env, tx, ex) {
        *LEFT_OUT.lock().unwrap().entry(w).or_insert(0) += 1;
        return;
    }
    let mut class = ex.label();
    shape(tx, &mut class);
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    for i in tx {
        i.ix.data.hash(&mut h);
        for m in &i.ix.accounts {
            m.pubkey.hash(&mut h);
        }
        for j in &i.inner {
            j.data.hash(&mut h);
        }
    }
    env.clock.slot.hash(&mut h);
    let fp = h.finish();
    let mut kept = KEPT.lock().unwrap();
    let c = kept.entry(class.clone()).or_default();
    if c.contains_key(&fp) || (c.len() >= k && *c.last_key_value().unwrap().0 < fp) {
        return;
    }
    let outcome = match &ex.result {
        Ok(()) => (0, 0, 0, String::new()),
        Err(e) => {
            let (n, code, m) = match &e.err {
                IxErr::Program(p) => (1, u64::from(p.clone()), format!("{p:?}")),
                IxErr::Runtime(m) => (2, 0, m.to_string()),
                IxErr::Precompile => (3, 0, String::new()),
                IxErr::Abort(_) => unreachable!(),
            };
            (n, e.index as u32, code, m)
        }
    };
    let (c0, s) = (&env.clock, &env.schedule);
    c.insert(
        fp,
        (
            class,
            (c0.slot, c0.epoch_start_timestamp, c0.epoch, c0.leader_schedule_epoch, c0.unix_timestamp),
            (
                s.slots_per_epoch,
                s.leader_schedule_slot_offset,
                s.warmup,
                s.first_normal_epoch,
                s.first_normal_slot,
            ),
            accounts(ledger),
            tx.iter().map(|i| (ix(&i.ix), i.inner.iter().map(ix).collect())).collect(),
            outcome,
            accounts(&ex.ledger),
        ),
    );
    if c.len() > k {
        c.pop_last();
    }
}

pub struct Conformance {
    pub seen: u64,
    pub classes: usize,
    pub replayed: u64,
    pub matched: u64,
    /// Matched, although the bank names the refusal differently.
    pub renamed: u64,
    pub refused: Vec<String>,
    pub differ: Vec<String>,
    pub died: bool,
    pub left_out: BTreeMap<&'static str, u64>,
}

impl Conformance {
    pub fn json(&self) -> Value {
        json!({
            "transactions_executed": self.seen,
            "classes": self.classes,
            "replayed_on_bank": self.replayed,
            "agree": self.matched,
            "agree_up_to_the_name_of_the_runtime_error": self.renamed,
            "bank_would_not_take": self.refused.iter().fold(BTreeMap::new(), |mut m, r| {
                *m.entry(r.rsplit(": ").next().unwrap_or(r)).or_insert(0u64) += 1;
                m
            }),
            "differ": self.differ.iter().take(20).collect::<Vec<_>>(),
            "bank_died": self.died,
            "not_replayable": self.left_out,
        })
    }
}

/// Replay what was kept on a real bank.
pub fn replay_on(bank: &Path, dir: &Path, most: usize) -> Option<Conformance> {
    if PER_CLASS.swap(0, Ordering::Relaxed) == 0 {
        return None;
    }
    let kept = std::mem::take(&mut *KEPT.lock().unwrap());
    let classes = kept.len();
    // one of each class, then a second of each, ...
    let mut ranked: Vec<(usize, Trace)> =
        kept.into_values().flat_map(|c| c.into_values().enumerate()).collect();
    ranked.sort_by_key(|r| r.0);
    let all: Vec<Trace> = ranked.into_iter().map(|r| r.1).take(most).collect();
    let mut c = Conformance {
        seen: SEEN.load(Ordering::Relaxed),
        classes,
        replayed: 0,
        matched: 0,
        renamed: 0,
        refused: vec![],
        differ: vec![],
        died: false,
        left_out: std::mem::take(&mut *LEFT_OUT.lock().unwrap()),
    };
    if all.is_empty() {
        return Some(c);
    }
    let file = dir.join(format!("traces.{}", std::process::id()));
    let out = dir.join(format!("traces.{}.out", std::process::id()));
    std::fs::write(&file, bincode::serialize(&all).unwrap()).unwrap();
    let r = Command::new("timeout")
        .args(["-k", "5", "400"])
        .arg(bank)
        .args(["--test-threads", "1"])
        .env("MC_TRACES", &file)
        .env("MC_TRACES_OUT", &out)
        .env("RUST_LOG", "off")
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_file(&out);
    for l in text.lines() {
        c.replayed += 1;
        match l.split_once(' ').unwrap_or((l, "")) {
            ("same", _) => c.matched += 1,
            ("renamed", _) => {
                c.matched += 1;
                c.renamed += 1;
            }
            ("refused", m) => c.refused.push(m.into()),
            (_, m) => c.differ.push(m.into()),
        }
    }
    c.died = !r.is_ok_and(|s| s.success()) || c.replayed != all.len() as u64;
    Some(c)
}
