//! C06 / C07 / C09: explicit-state exploration of whole histories.
//!
//! A state is the ledger (all accounts), the clock and what has been observed
//! so far. Every enabled transaction of a finite alphabet is executed on the
//! real program in every reachable state, breadth first, with exact
//! deduplication. Each step is compared with a reference model of the ledger,
//! and the three properties are monitored on what really happened.

use super::common::*;
use crate::{
    ed::Key,
    explore::{fp, threads, Report as Out, Space, Tier, Verdict, Violation},
    rt::{self, execute, Env, Ix, Ledger},
    shreds::{Kind, Shred},
    world::*,
    Meta,
};
use serde_json::{json, Value};
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
use solana_system_interface::{instruction as system_instruction, program as system_program};
use std::{
    collections::{BTreeMap, HashSet},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::Instant,
};

const ASSUME: &[&str] = &[
    "runtime behaviour as modelled in mc/src/rt.rs",
    "SHA-256 and ed25519 are collision free / unforgeable",
    "the clock never goes back and epochs have constant length (no warm-up)",
    "histories are bounded by the listed clock range, violations, evidence, parties and number of deposits; transactions hold at most two report/close/deposit operations",
];
const RULE: &str = "breadth-first search over all histories: in every reachable state (ledger + clock + observations) every transaction of the alphabet is executed on the real program and compared with the reference ledger; non-trivial = transactions that changed the ledger; plus, for the listed product spaces, every combination of the listed values";
pub const META: Meta = Meta { level: "model_checking", rule: RULE, assumptions: ASSUME };

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Report { v: usize, ev: usize, who: usize, fund: bool },
    /// Good evidence for `v`, aimed at the address of another violation.
    Misdirected { v: usize, into: usize },
    Close { v: usize, to: usize, cpi: bool },
    Deposit { v: usize },
    Foreign { v: usize, how: usize },
    /// An instruction that fails, after whatever came before.
    Fail,
}

struct Config {
    name: String,
    spe: u64,
    /// Clock slots, in order.
    times: Vec<u64>,
    violations: Vec<(usize, u64)>,
    max_deposits: u8,
    /// Cap on the number of closes/deposits histories: none; kept finite by max_deposits.
    txs: Vec<Vec<Op>>,
    // derived
    keys: Vec<Key>,
    evidence: Vec<Vec<(Shred, Shred, bool)>>,
    base: Ledger,
}

const DEPOSIT: u64 = 1_000_000;

fn funder() -> Pubkey {
    name("funder")
}
fn thief() -> Pubkey {
    name("thief")
}

impl Config {
    fn new(name_: &str, spe: u64, times: Vec<u64>, violations: Vec<(usize, u64)>, max_deposits: u8, txs: Vec<Vec<Op>>) -> Self {
        let keys: Vec<Key> = (0..2).map(|i| Key::new(&format!("hist {i}"))).collect();
        let mut base = Ledger::new();
        let evidence: Vec<Vec<_>> = violations
            .iter()
            .map(|(k, slot)| {
                let key = &keys[*k];
                let (a, b) = root_conflict(key, *slot, 1, (Kind::Data, Kind::Data), 7);
                let (c, d) = root_conflict(key, *slot, 2, (Kind::Data, Kind::Code), 9);
                vec![(a.clone(), b.clone(), true), (b, a.clone(), true), (d, c, true), (a.clone(), a, false)]
            })
            .collect();
        for (v, evs) in evidence.iter().enumerate() {
            for (e, (a, b, _)) in evs.iter().enumerate() {
                rt::put(&mut base, Self::proof(v, e), 50_000_000, pack(&a.bytes, &b.bytes), spl_record::id());
            }
        }
        rt::put(&mut base, funder(), 1 << 50, vec![], system_program::id());
        rt::put(&mut base, thief(), 5_000_000, vec![], system_program::id());
        rt::put(&mut base, name("dest 0"), 3_000_000, vec![], system_program::id());
        // "dest 1" does not exist
        Self { name: name_.into(), spe, times, violations, max_deposits, txs, keys, evidence, base }
    }
    fn proof(v: usize, e: usize) -> Pubkey {
        name(&format!("proof {v} {e}"))
    }
    fn address(&self, v: usize) -> Pubkey {
        let (k, s) = self.violations[v];
        report_address(&self.keys[k].pubkey(), s, 1)
    }
    fn party(&self, v: usize, who: usize) -> (Pubkey, Pubkey) {
        match who {
            0 => (name("reporter 0"), name("dest 0")),
            1 => (name("reporter 1"), name("dest 1")),
            // pays into the report of another violation
            2 => (name("reporter 2"), self.address((v + 1) % self.violations.len())),
            _ => (name("reporter 3"), thief()),
        }
    }
    fn target(&self, v: usize, to: usize) -> Pubkey {
        match to {
            0 => name("dest 0"),
            1 => name("dest 1"),
            2 => self.address((v + 1) % self.violations.len()),
            3 => thief(),
            4 => name("reporter 0"),
            _ => self.address(v),
        }
    }
    fn report(&self, v: usize, ev: usize, who: usize) -> Report {
        let (k, s) = self.violations[v];
        let (a, b, _) = &self.evidence[v][ev];
        let mut r = Report::of(self.keys[k].pubkey(), s, a, b);
        (r.reporter, r.destination) = self.party(v, who);
        r
    }
    fn env(&self, t: usize) -> Env {
        Env::at(self.times[t], self.spe)
    }
    fn transfer(to: &Pubkey, lamports: u64) -> Instruction {
        system_instruction::transfer(&funder(), to, lamports)
    }
    fn size(&self, v: usize, ev: usize) -> usize {
        let (a, b, _) = &self.evidence[v][ev];
        HEADER + 8 + a.bytes.len() + b.bytes.len()
    }

    fn build(&self, env: &Env, tx: &[Op]) -> Vec<Ix> {
        let mut out: Vec<Ix> = vec![];
        for op in tx {
            match *op {
                Op::Report { v, ev, who, fund } => {
                    if fund {
                        out.push(Self::transfer(&self.address(v), minimum(env, self.size(v, ev))).into());
                    }
                    let at = out.len() as u16 + 1;
                    out.push(Report::sigverify(at).into());
                    out.push(self.report(v, ev, who).ix(&Self::proof(v, ev)).into());
                }
                Op::Misdirected { v, into } => {
                    out.push(Self::transfer(&self.address(into), minimum(env, self.size(v, 0))).into());
                    let at = out.len() as u16 + 1;
                    out.push(Report::sigverify(at).into());
                    let mut ix = self.report(v, 0, 0).ix(&Self::proof(v, 0));
                    ix.accounts[1].pubkey = self.address(into);
                    out.push(ix.into());
                }
                Op::Close { v, to, cpi } => {
                    let ix = close_ix(&self.address(v), &self.target(v, to));
                    if cpi {
                        let outer = Instruction {
                            program_id: rt::proxy_id(),
                            accounts: rt::through(&ix),
                            data: vec![],
                        };
                        out.push(Ix { ix: outer, inner: vec![ix] });
                    } else {
                        out.push(ix.into());
                    }
                }
                Op::Deposit { v } => out.push(Self::transfer(&self.address(v), DEPOSIT).into()),
                Op::Foreign { v, how } => {
                    let a = self.address(v);
                    let ix = match how {
                        // the record program is asked to close the report
                        0 => Instruction {
                            program_id: spl_record::id(),
                            accounts: vec![
                                AccountMeta::new(a, false),
                                AccountMeta::new_readonly(thief(), true),
                                AccountMeta::new(thief(), false),
                            ],
                            data: vec![3],
                        },
                        // the system program is asked to move its lamports without its signature
                        1 => {
                            let mut ix = system_instruction::transfer(&a, &thief(), 1);
                            ix.accounts[0].is_signer = false;
                            ix
                        }
                        // ... or to assign it
                        2 => {
                            let mut ix = system_instruction::assign(&a, &spl_record::id());
                            ix.accounts[0].is_signer = false;
                            ix
                        }
                        // closing it while it is read-only
                        3 => {
                            let mut ix = close_ix(&a, &self.target(v, 0));
                            ix.accounts[0].is_writable = false;
                            ix
                        }
                        // an unknown instruction naming it and the destination
                        _ => {
                            let mut ix = close_ix(&a, &self.target(v, 0));
                            ix.data = vec![2];
                            ix
                        }
                    };
                    out.push(ix.into());
                }
                Op::Fail => out.push(
                    Instruction { program_id: slashing(), accounts: vec![], data: vec![0] }.into(),
                ),
            }
        }
        out
    }

    /// The reference ledger after `tx`, or `None` if it must fail.
    fn predict(&self, l: &Ledger, env: &Env, tx: &[Op]) -> Option<Ledger> {
        let mut w = l.clone();
        let pay = |w: &mut Ledger, to: Pubkey, n: u64| {
            let f = w[&funder()].lamports - n;
            rt::put(w, funder(), f, vec![], system_program::id());
            credit(w, to, n);
        };
        for op in tx {
            match *op {
                Op::Report { v, ev, who, fund } => {
                    let (a, b, good) = &self.evidence[v][ev];
                    let min = minimum(env, self.size(v, ev));
                    let at = self.address(v);
                    if fund {
                        pay(&mut w, at, min);
                    }
                    let r = self.report(v, ev, who);
                    let elapsed = env.clock.slot as i128 - r.slot as i128;
                    let acc = w.get(&at).cloned();
                    if !good
                        || !(0..=self.spe as i128).contains(&elapsed)
                        || acc.as_ref().is_some_and(|a| a.owner == slashing())
                        || r.destination == at
                        || acc.as_ref().map_or(0, |a| a.lamports) < min
                    {
                        return None;
                    }
                    let lamports = acc.unwrap().lamports;
                    rt::put(&mut w, at, lamports, stored(env, &r, &a.bytes, &b.bytes), slashing());
                }
                Op::Misdirected { .. } | Op::Foreign { .. } | Op::Fail => return None,
                Op::Close { v, to, .. } => {
                    let at = self.address(v);
                    let acc = w.get(&at)?.clone();
                    if acc.owner != slashing() {
                        return None;
                    }
                    let s = parse_stored(&acc.data)?;
                    let dest = self.target(v, to);
                    if s.destination != dest || (env.clock.epoch as u128) < s.epoch as u128 + 3 {
                        return None;
                    }
                    w.remove(&at);
                    credit(&mut w, dest, acc.lamports);
                }
                Op::Deposit { v } => pay(&mut w, self.address(v), DEPOSIT),
            }
        }
        Some(w)
    }
}

fn credit(w: &mut Ledger, to: Pubkey, n: u64) {
    let mut a = w.get(&to).map(|a| (**a).clone()).unwrap_or(rt::Account {
        lamports: 0,
        data: vec![],
        owner: system_program::id(),
    });
    a.lamports += n;
    w.insert(to, Arc::new(a));
}

/// What has been observed of one violation.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Seen {
    /// Successful reports so far.
    reports: u8,
    deposits: u8,
    /// The stored report as first seen, and the epoch of the clock then.
    standing: Option<(Arc<Vec<u8>>, u64)>,
}

#[derive(Clone)]
struct State {
    t: usize,
    ledger: Ledger,
    seen: Vec<Seen>,
}

impl State {
    fn key(&self) -> (u64, u64) {
        let a = fp(&(self.t, &self.ledger, &self.seen));
        let b = fp(&(&self.seen, &self.ledger, self.t, 0x5EEDu64));
        (a, b)
    }
}

struct Step {
    label: String,
    /// Agrees with the reference model.
    conforms: bool,
    changed: bool,
    next: State,
    /// (property, what)
    broken: Vec<(&'static str, String)>,
}

fn step(c: &Config, s: &State, tx: &[Op]) -> Step {
    let env = c.env(s.t);
    let ixs = c.build(&env, tx);
    let want = c.predict(&s.ledger, &env, tx);
    let ex = execute(&s.ledger, &env, &ixs);
    let mut broken: Vec<(&'static str, String)> = vec![];
    let conforms = match &want {
        Some(w) => ex.ok() && *w == ex.ledger,
        None => !ex.ok() && ex.ledger == s.ledger,
    };
    let mut seen = s.seen.clone();
    let mut closed = vec![false; c.violations.len()];
    // standing reports, as each operation of a successful transaction finds them
    let mut lam: BTreeMap<Pubkey, u64> = s.ledger.iter().map(|(k, a)| (*k, a.lamports)).collect();
    if ex.ok() {
        for op in tx {
            match *op {
                Op::Report { v, ev, fund, .. } => {
                    if seen[v].standing.is_some() {
                        broken.push(("C06", format!("violation {v} was reported again while its report stands")));
                    }
                    if fund {
                        *lam.entry(c.address(v)).or_default() += minimum(&env, c.size(v, ev));
                    }
                    seen[v].reports = seen[v].reports.saturating_add(1);
                    if seen[v].reports > 1 {
                        broken.push(("C09", format!("violation {v} was reported successfully {} times", seen[v].reports)));
                    }
                    let data = ex.ledger.get(&c.address(v)).map(|a| a.data.clone()).unwrap_or_default();
                    if seen[v].standing.is_none() {
                        seen[v].standing = Some((Arc::new(data), env.clock.epoch));
                    }
                }
                Op::Misdirected { into, .. } => {
                    *lam.entry(c.address(into)).or_default() += minimum(&env, c.size(into, 0));
                    // whatever got stored there, it is not the report of `into`
                    broken.push(("C06", format!("a report was recorded into the account of violation {into}")));
                }
                Op::Close { v, to, .. } => {
                    let dest = c.target(v, to);
                    match seen[v].standing.take() {
                        None => {
                            if tx.len() == 1 && ex.ledger != s.ledger {
                                broken.push(("C07", "closing an account that is no stored report changed something".into()));
                            } else {
                                broken.push(("C07", "closing an account that is no stored report succeeded".into()));
                            }
                        }
                        Some((data, e0)) => {
                            let rec = parse_stored(&data);
                            let ok = rec.as_ref().is_some_and(|r| {
                                r.destination == dest && env.clock.epoch as u128 >= r.epoch as u128 + 3
                            });
                            if !ok {
                                let what = format!(
                                    "report of epoch {:?} for destination {:?} was closed in epoch {} to {dest}",
                                    rec.as_ref().map(|r| r.epoch), rec.as_ref().map(|r| r.destination), env.clock.epoch
                                );
                                broken.push(("C06", what.clone()));
                                broken.push(("C07", what));
                            } else if env.clock.epoch < e0 + 3 {
                                broken.push(("C07", format!("report made in epoch {e0} was closed in epoch {}", env.clock.epoch)));
                            }
                            closed[v] = true;
                            let n = lam.insert(c.address(v), 0).unwrap_or(0);
                            *lam.entry(dest).or_default() += n;
                        }
                    }
                }
                Op::Deposit { v } => {
                    *lam.entry(c.address(v)).or_default() += DEPOSIT;
                    seen[v].deposits += 1;
                }
                Op::Foreign { .. } | Op::Fail => {}
            }
        }
        // destinations
        for (v, was) in closed.iter().enumerate() {
            if *was && seen[v].standing.is_none() {
                let left = ex.ledger.get(&c.address(v));
                let want = lam.get(&c.address(v)).copied().unwrap_or(0);
                if left.is_some_and(|a| a.owner == slashing() || !a.data.is_empty())
                    || left.map_or(0, |a| a.lamports) != want
                {
                    broken.push(("C07", format!("violation {v}: the closed account is still there: {left:?}")));
                }
            }
        }
        if closed.contains(&true) {
            for (k, want) in &lam {
                if *k != funder() && rt::lamports_of(&ex.ledger, k) != *want {
                    broken.push(("C07", format!("after the close {k} holds {} lamports instead of {want}", rt::lamports_of(&ex.ledger, k))));
                }
            }
        }
        if rt::total(&ex.ledger) != rt::total(&s.ledger) {
            broken.push(("C07", "lamports were created or destroyed".into()));
        }
    } else if want.is_some() {
        let reports: Vec<usize> = tx.iter().filter_map(|o| if let Op::Report { v, .. } = o { Some(*v) } else { None }).collect();
        if reports.is_empty() && tx.iter().any(|o| matches!(o, Op::Close { .. })) {
            broken.push(("C07", format!("a legitimate close was refused: {}", ex.label())));
        } else if !reports.is_empty() {
            // does it work with the other reports out of the way?
            let mut alone = s.ledger.clone();
            for v in 0..c.violations.len() {
                if !reports.contains(&v) {
                    alone.remove(&c.address(v));
                }
            }
            let same = reports.len() > 1
                && tx.iter().enumerate().all(|(i, o)| {
                    !matches!(o, Op::Report { .. }) || execute(&s.ledger, &env, &c.build(&env, &tx[i..=i])).ok()
                });
            if same || execute(&alone, &env, &c.build(&env, tx)).ok() {
                broken.push(("C06", format!("a report fails because of another violation's report: {}", ex.label())));
            }
        }
    }
    // what stands is untouched
    for (v, x) in seen.iter().enumerate() {
        let Some((data, _)) = &x.standing else { continue };
        let at = c.address(v);
        match ex.ledger.get(&at) {
            Some(a) if a.owner == slashing() && a.data == **data => {
                let want = if ex.ok() { lam.get(&at).copied().unwrap_or(0) } else { rt::lamports_of(&s.ledger, &at) };
                if a.lamports != want {
                    broken.push(("C06", format!("violation {v}: its report holds {} lamports instead of {want}", a.lamports)));
                    broken.push(("C07", format!("violation {v}: its report holds {} lamports instead of {want}", a.lamports)));
                }
            }
            Some(a) => broken.push(("C06", format!(
                "violation {v}: its stored report changed (owner {}, {} bytes, {} before)", a.owner, a.data.len(), data.len()
            ))),
            None => {
                broken.push(("C06", format!("violation {v}: its report vanished")));
                broken.push(("C07", format!("violation {v}: its report vanished")));
            }
        }
    }
    let changed = ex.ledger != s.ledger;
    Step {
        label: ex.label(),
        conforms,
        changed,
        next: State { t: s.t, ledger: ex.ledger, seen },
        broken,
    }
}

fn start(c: &Config) -> State {
    State { t: 0, ledger: c.base.clone(), seen: vec![Seen::default(); c.violations.len()] }
}

/// May `tx` be sent within the bounds?
fn within(c: &Config, s: &State, tx: &[Op]) -> bool {
    let mut extra = vec![0u8; c.violations.len()];
    for op in tx {
        if let Op::Deposit { v } = op {
            extra[*v] += 1;
        }
    }
    extra.iter().zip(&s.seen).all(|(x, y)| *x == 0 || x + y.deposits <= c.max_deposits)
}

fn describe(c: &Config, trace: &[usize]) -> Vec<String> {
    let mut s = start(c);
    let mut out = vec![];
    for a in trace {
        if *a == 0 {
            s.t += 1;
            out.push(format!("clock -> slot {} epoch {}", c.times[s.t], c.env(s.t).clock.epoch));
        } else {
            let st = step(c, &s, &c.txs[a - 1]);
            out.push(format!("slot {}: {:?} -> {}", c.times[s.t], c.txs[a - 1], st.label));
            s = st.next;
        }
    }
    out
}

fn explore(c: &Config, idx: usize, prop: &str, cap: usize, out: &mut Out) {
    let t0 = Instant::now();
    let mut parents: Vec<(u32, u16)> = vec![(0, 0)];
    let mut visited: HashSet<(u64, u64)> = HashSet::new();
    let s0 = start(c);
    visited.insert(s0.key());
    let mut frontier: Vec<(u32, State)> = vec![(0, s0)];
    let (mut transitions, mut validated, mut changed, mut deviating) = (0u64, 0u64, 0u64, 0u64);
    let mut outcomes: BTreeMap<String, (u64, u32, u16)> = BTreeMap::new();
    let mut bad: Vec<(u32, u16, String)> = vec![];
    let mut depth = 0;
    let mut complete = true;
    while !frontier.is_empty() && bad.is_empty() {
        depth += 1;
        let next = AtomicUsize::new(0);
        type Found = (usize, u16, State, (u64, u64));
        type Local = (Vec<Found>, [u64; 4], BTreeMap<String, (u64, u32, u16)>, Vec<(u32, u16, String)>);
        let all: Mutex<Vec<Local>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for _ in 0..threads() {
                sc.spawn(|| {
                    let mut found: Vec<Found> = vec![];
                    let mut n = [0u64; 4];
                    let mut oc: BTreeMap<String, (u64, u32, u16)> = BTreeMap::new();
                    let mut bad = vec![];
                    let mut local: HashSet<(u64, u64)> = HashSet::new();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        let Some((id, s)) = frontier.get(i) else { break };
                        let mut keep = |a: u16, s: State, found: &mut Vec<Found>| {
                            let k = s.key();
                            if !visited.contains(&k) && local.insert(k) {
                                found.push((i, a, s, k));
                            }
                        };
                        if s.t + 1 < c.times.len() {
                            n[0] += 1;
                            let mut s2 = s.clone();
                            s2.t += 1;
                            keep(0, s2, &mut found);
                        }
                        for (a, tx) in c.txs.iter().enumerate() {
                            if !within(c, s, tx) {
                                continue;
                            }
                            let a = a as u16 + 1;
                            let st = step(c, s, tx);
                            n[0] += 1;
                            n[1] += st.conforms as u64;
                            n[2] += st.changed as u64;
                            n[3] += !st.conforms as u64;
                            let kinds: Vec<&str> = tx
                                .iter()
                                .map(|o| match o {
                                    Op::Report { .. } => "report",
                                    Op::Misdirected { .. } => "misdirected",
                                    Op::Close { .. } => "close",
                                    Op::Deposit { .. } => "deposit",
                                    Op::Foreign { .. } => "foreign",
                                    Op::Fail => "fail",
                                })
                                .collect();
                            let e = oc.entry(format!("{} -> {}", kinds.join("+"), st.label)).or_insert((0, *id, a));
                            e.0 += 1;
                            if (e.1, e.2) > (*id, a) {
                                (e.1, e.2) = (*id, a);
                            }
                            if let Some((_, w)) = st.broken.iter().find(|b| b.0 == prop) {
                                bad.push((*id, a, w.clone()));
                            }
                            if st.changed {
                                keep(a, st.next, &mut found);
                            }
                        }
                    }
                    all.lock().unwrap().push((found, n, oc, bad));
                });
            }
        });
        let mut found = vec![];
        for (f, n, oc, b) in all.into_inner().unwrap() {
            found.extend(f);
            transitions += n[0];
            validated += n[1];
            changed += n[2];
            deviating += n[3];
            for (k, (x, id, a)) in oc {
                let e = outcomes.entry(k).or_insert((0, id, a));
                e.0 += x;
                if (e.1, e.2) > (id, a) {
                    (e.1, e.2) = (id, a);
                }
            }
            bad.extend(b);
        }
        found.sort_by_key(|f| (f.0, f.1));
        let mut nf = vec![];
        for (i, a, s, k) in found {
            if visited.insert(k) {
                let id = parents.len() as u32;
                parents.push((frontier[i].0, a));
                nf.push((id, s));
            }
        }
        frontier = nf;
        if visited.len() > cap {
            complete = frontier.is_empty();
            break;
        }
    }
    let trace = |id: u32, last: u16| {
        let mut t = vec![last as usize];
        let mut i = id;
        while i != 0 {
            t.push(parents[i as usize].1 as usize);
            i = parents[i as usize].0;
        }
        t.reverse();
        t
    };
    bad.sort();
    for (id, a, w) in bad.iter().take(5) {
        let t = trace(*id, *a);
        out.violations.push(Violation {
            key: format!("history {}: {}", c.name, describe(c, &t).join("; ")),
            what: w.clone(),
            replay: json!({"history": idx, "config": c.name, "trace": t, "steps": describe(c, &t)}),
        });
    }
    out.evaluations += transitions;
    out.distinct.extend(visited.iter().map(|k| k.0));
    let add = |m: &mut serde_json::Map<String, Value>, k: &str, n: u64| {
        let x = m.get(k).and_then(|v| v.as_u64()).unwrap_or(0);
        m.insert(k.into(), json!(x + n));
    };
    add(&mut out.extra, "states", visited.len() as u64);
    add(&mut out.extra, "transitions", transitions);
    add(&mut out.extra, "traces_validated_against_impl", validated);
    add(&mut out.extra, "transitions_deviating_from_model", deviating);
    for (k, (n, id, a)) in &outcomes {
        *out.outcomes.entry(k.clone()).or_insert(0) += n;
        if out.samples.len() < 16 && k.ends_with("ok") {
            out.samples.push(json!({"history": c.name, "outcome": k, "trace": describe(c, &trace(*id, *a))}));
        }
    }
    out.spaces.insert(
        format!("history {}", c.name),
        json!({
            "slots_per_epoch": c.spe, "clock_slots": c.times, "violations(node,slot)": c.violations,
            "transactions_in_alphabet": c.txs.len(), "max_deposits_per_violation": c.max_deposits,
            "states": visited.len(), "transitions": transitions, "depth": depth,
            "transitions_changing_the_ledger": changed, "transitions_equal_to_model": validated,
            "complete": complete && bad.is_empty(), "wall_s": t0.elapsed().as_secs_f64(),
            "outcomes": outcomes.iter().map(|(k, v)| (k.clone(), json!(v.0))).collect::<serde_json::Map<_, _>>(),
        }),
    );
}

// ---------------------------------------------------------------------------
// alphabets

fn singles(nv: usize, rich: bool) -> Vec<Op> {
    let mut o = vec![];
    for v in 0..nv {
        for ev in 0..4 {
            for who in 0..if rich { 4 } else { 2 } {
                if who == 2 && nv == 1 {
                    continue;
                }
                if ev != 0 && who > 1 || (!rich && ev == 1) {
                    continue;
                }
                o.push(Op::Report { v, ev, who, fund: true });
            }
        }
        o.push(Op::Report { v, ev: 0, who: 0, fund: false });
        o.push(Op::Report { v, ev: 2, who: 1, fund: false });
        for to in 0..6 {
            if !rich && to > 3 {
                continue;
            }
            o.push(Op::Close { v, to, cpi: false });
        }
        o.push(Op::Close { v, to: 0, cpi: true });
        o.push(Op::Close { v, to: 3, cpi: true });
        o.push(Op::Deposit { v });
        if rich {
            for how in 0..5 {
                o.push(Op::Foreign { v, how });
            }
        }
        if nv > 1 {
            o.push(Op::Misdirected { v, into: (v + 1) % nv });
        }
    }
    o
}

fn pairs(nv: usize, rich: bool) -> Vec<Vec<Op>> {
    let mut p: Vec<Op> = vec![];
    for v in 0..nv {
        p.push(Op::Report { v, ev: 0, who: 0, fund: true });
        p.push(Op::Report { v, ev: 2, who: 1, fund: true });
        p.push(Op::Close { v, to: 0, cpi: false });
        p.push(Op::Close { v, to: 1, cpi: false });
        if rich {
            p.push(Op::Deposit { v });
            p.push(Op::Report { v, ev: 0, who: 1, fund: false });
            p.push(Op::Close { v, to: 3, cpi: false });
        }
    }
    let mut out = vec![];
    for a in &p {
        for b in &p {
            out.push(vec![*a, *b]);
        }
        out.push(vec![*a, Op::Fail]);
    }
    out
}

fn alphabet(nv: usize, rich: bool, with_pairs: bool) -> Vec<Vec<Op>> {
    let mut t: Vec<Vec<Op>> = singles(nv, rich).into_iter().map(|o| vec![o]).collect();
    if with_pairs {
        t.extend(pairs(nv, rich));
    }
    t
}

fn configs(tier: Tier) -> Vec<Config> {
    let mut out = vec![];
    // every clock slot, one violation, rich alphabet
    let spes: Vec<u64> = tier.pick(vec![1, 2, 3, 4], vec![1, 2, 3, 4, 5, 8]);
    for spe in spes {
        for off in 0..spe {
            let s = 2 * spe + off;
            // from one slot before the violation until no report can be open
            let times: Vec<u64> = (s - 1..=s + 5 * spe + 2).collect();
            let deps = tier.pick(1, 2);
            out.push(Config::new(
                &format!("single spe={spe} offset={off}"),
                spe,
                times,
                vec![(0, s)],
                deps,
                alphabet(1, true, true),
            ));
        }
    }
    // realistic epoch length, boundary slots only
    for off in tier.pick(vec![0u64, 431_999], vec![0, 1, 216_000, 431_998, 431_999]) {
        let spe = 432_000u64;
        let s = 70 * spe + off;
        let mut times = vec![s - 1, s, s + 1, s + spe - 1, s + spe, s + spe + 1];
        for e in 71..=75 {
            times.extend([e * spe - 1, e * spe, e * spe + 1]);
        }
        times.retain(|t| *t + 1 >= s);
        times.sort();
        times.dedup();
        out.push(Config::new(
            &format!("single spe=432000 offset={off}"),
            spe,
            times,
            vec![(0, s)],
            1,
            alphabet(1, true, true),
        ));
    }
    // two violations: same node other slot, same slot other node
    for (nm, vs) in [("same node", [(0usize, 0u64), (0, 1)]), ("same slot", [(0, 0), (1, 0)])] {
        for spe in tier.pick(vec![1u64, 2], vec![1, 2, 3]) {
            let s = 2 * spe;
            let times: Vec<u64> = (s..=s + 5 * spe + 1).collect();
            out.push(Config::new(
                &format!("pair {nm} spe={spe}"),
                spe,
                times,
                vs.iter().map(|(n, d)| (*n, s + d)).collect(),
                tier.pick(0, 1),
                alphabet(2, tier.thorough(), true),
            ));
        }
    }
    // reports that pay into one another's accounts
    for spe in tier.pick(vec![1u64], vec![1, 2]) {
        let s = 2 * spe;
        let times: Vec<u64> = (s..=s + 5 * spe + 1).collect();
        let mut txs = vec![];
        for v in 0..2 {
            for who in 0..3 {
                txs.push(vec![Op::Report { v, ev: 0, who, fund: true }]);
            }
            txs.push(vec![Op::Report { v, ev: 0, who: 2, fund: false }]);
            for to in [0, 1, 2, 3, 5] {
                txs.push(vec![Op::Close { v, to, cpi: false }]);
                for to2 in [0, 2, 3] {
                    txs.push(vec![Op::Close { v, to, cpi: false }, Op::Close { v: 1 - v, to: to2, cpi: false }]);
                }
            }
            txs.push(vec![Op::Close { v, to: 2, cpi: false }, Op::Report { v: 1 - v, ev: 0, who: 1, fund: false }]);
            txs.push(vec![Op::Close { v, to: 2, cpi: false }, Op::Report { v, ev: 0, who: 1, fund: true }]);
            txs.push(vec![Op::Deposit { v }]);
        }
        out.push(Config::new(
            &format!("entangled spe={spe}"),
            spe,
            times,
            vec![(0, s), (1, s)],
            1,
            txs,
        ));
    }
    // three violations, few transactions
    {
        let spe = 1;
        let s = 4;
        let mut txs = vec![];
        for v in 0..3 {
            txs.push(vec![Op::Report { v, ev: 0, who: 0, fund: true }]);
            txs.push(vec![Op::Report { v, ev: 2, who: 1, fund: true }]);
            txs.push(vec![Op::Close { v, to: 0, cpi: false }]);
            txs.push(vec![Op::Close { v, to: 1, cpi: true }]);
            txs.push(vec![Op::Misdirected { v, into: (v + 1) % 3 }]);
            txs.push(vec![
                Op::Report { v, ev: 0, who: 0, fund: true },
                Op::Report { v: (v + 1) % 3, ev: 0, who: 1, fund: true },
            ]);
        }
        out.push(Config::new(
            "triple spe=1",
            spe,
            (s..=s + 5 * spe + 1).collect(),
            vec![(0, s), (1, s), (0, s + 1)],
            0,
            txs,
        ));
    }
    out
}

pub fn run(id: &'static str, tier: Tier, out: &mut Out) {
    for (i, c) in configs(tier).iter().enumerate() {
        explore(c, i, id, tier.pick(400_000, 4_000_000), out);
        if !out.violations.is_empty() {
            break;
        }
    }
    out.explore(&spaces(id, tier));
}

pub fn replay(id: &'static str, tier: Tier, case: &Value) -> Option<Verdict> {
    let Some(i) = case["history"].as_u64() else {
        let coords: Vec<usize> =
            case["coords"].as_array()?.iter().map(|v| v.as_u64().unwrap_or(0) as usize).collect();
        return crate::explore::replay(&spaces(id, tier), case["space"].as_str()?, &coords);
    };
    let cs = configs(tier);
    let c = cs.get(i as usize)?;
    let mut s = start(c);
    let mut last = None;
    for a in case["trace"].as_array()? {
        let a = a.as_u64()? as usize;
        if a == 0 {
            s.t += 1;
            println!("clock -> slot {} epoch {}", c.times.get(s.t)?, c.env(s.t).clock.epoch);
            continue;
        }
        let st = step(c, &s, c.txs.get(a - 1)?);
        println!("slot {}: {:?} -> {}", c.times[s.t], c.txs[a - 1], st.label);
        s = st.next;
        last = Some((st.label, st.broken));
        if let Some((_, b)) = &last {
            if let Some((_, w)) = b.iter().find(|b| b.0 == id) {
                return Some(Verdict::bad("history", w.clone()));
            }
        }
    }
    Some(Verdict::ok(last?.0, None))
}

// ---------------------------------------------------------------------------
// product spaces

fn spaces(id: &str, tier: Tier) -> Vec<Space> {
    match id {
        "C06" => c06(tier),
        "C07" => c07(tier),
        _ => c09(tier),
    }
}

fn evidence(key: &Key, slot: u64) -> Vec<(&'static str, Vec<u8>, Vec<u8>, Shred, Shred)> {
    let mut v = vec![];
    for (f, n) in [(0, "plain"), (1, "chained"), (2, "resigned")] {
        for (kinds, m) in [
            ((Kind::Data, Kind::Data), "dd"),
            ((Kind::Data, Kind::Code), "dc"),
            ((Kind::Code, Kind::Data), "cd"),
            ((Kind::Code, Kind::Code), "cc"),
        ] {
            let (a, b) = root_conflict(key, slot, f, kinds, 70 + f as u64);
            let label: &'static str = Box::leak(format!("{n} {m}").into_boxed_str());
            v.push((label, a.bytes.clone(), b.bytes.clone(), a, b));
        }
    }
    // longer and much longer proofs
    for (grow, label) in [(1usize, "one byte more"), (29, "29 more"), (1232, "1232 more"), (4000, "4000 more")] {
        let (a, b) = root_conflict(key, slot, 1, (Kind::Data, Kind::Data), 71);
        let mut x = b.bytes.clone();
        x.resize(x.len() + grow, 0xEE);
        v.push((label, a.bytes.clone(), x, a, b));
    }
    v
}

fn c06(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    const SLOT: u64 = 31_000_777;
    {
        // a second report, with every kind of evidence, on top of every kind of first one
        let key = Key::new("leader");
        let evs = evidence(&key, SLOT);
        let labels: Vec<&str> = evs.iter().map(|e| e.0).collect();
        let later: Vec<u64> = vec![0, 1, 200_000, 432_000];
        let lt = later.clone();
        let surplus: Vec<u64> = vec![0, 1, 50_000_000, 1 << 40];
        let sp = surplus.clone();
        out.push(
            Space::new("second-report", move |c| {
                let e1 = Env::at(SLOT, 432_000);
                let e2 = Env::at(SLOT + later[c[2]], 432_000);
                let (x, y) = (&evs[c[0]], &evs[c[1]]);
                let mut r1 = Report::of(key.pubkey(), SLOT, &x.3, &x.4);
                r1.reporter = name("first");
                let mut r2 = Report::of(key.pubkey(), SLOT, &y.3, &y.4);
                match c[3] {
                    0 => r2.reporter = name("first"),
                    1 => {
                        r2.reporter = name("second");
                        r2.destination = name("second");
                    }
                    _ => r2.reporter = r1.address(),
                }
                let mut l = scene(&e1, &r1, &pack(&x.1, &x.2));
                rt::put(&mut l, name("proof 2"), 1_000_000_000, pack(&y.1, &y.2), name("record-program"));
                let ex = execute(&l, &e1, &report_tx(&r1, &proof_account()));
                if !ex.ok() {
                    return Some(Verdict::ok(format!("first report refused: {}", ex.label()), None));
                }
                let mut before = ex.ledger.clone();
                credit(&mut before, r1.address(), surplus[c[4]]);
                let tx2 = report_tx(&r2, &name("proof 2"));
                let ex2 = execute(&before, &e2, &tx2);
                let bad = ex2.ok() || ex2.ledger != before;
                Some(Verdict::check(
                    ex2.label(),
                    fp(&c),
                    !bad,
                    || format!("a second report changed the first one: {}", ex2.label()),
                ))
            })
            .dim("first evidence", &labels)
            .dim("second evidence", &labels)
            .dim("slots later", &lt)
            .dim("second reporter", &["same", "other", "the report itself"])
            .dim("deposited in between", &sp),
        );
    }
    {
        // neighbours: reports of related (node, slot) do not get in each other's way
        let mut slots: Vec<u64> = powers();
        slots.extend([SLOT, SLOT.swap_bytes(), SLOT + 256, SLOT + 1]);
        if !tier.thorough() {
            slots = slots.into_iter().enumerate().filter(|(i, s)| i % 2 == 0 || *s > 1 << 61 || *s < 300).map(|x| x.1).collect();
        }
        let sl = slots.clone();
        out.push(
            Space::new("neighbours", move |c| {
                let (s1, s2) = (slots[c[0]], slots[c[1]]);
                let same = c[2] == 0;
                if same && s1 == s2 {
                    return None;
                }
                let (k1, k2) = (Key::new("leader"), Key::new(if same { "leader" } else { "other leader" }));
                let (a, b) = root_conflict(&k1, s1, 1, (Kind::Data, Kind::Data), 80);
                let (x, y) = root_conflict(&k2, s2, 1, (Kind::Data, Kind::Code), 81);
                let r1 = Report::of(k1.pubkey(), s1, &a, &b);
                let mut r2 = Report::of(k2.pubkey(), s2, &x, &y);
                r2.reporter = name("second");
                let (e1, e2) = (Env::at(s1, 432_000), Env::at(s2, 432_000));
                let mut l = scene(&e1, &r1, &pack(&a.bytes, &b.bytes));
                let l2 = scene(&e2, &r2, &pack(&x.bytes, &y.bytes));
                rt::put(&mut l, name("proof 2"), 1_000_000_000, pack(&x.bytes, &y.bytes), name("record-program"));
                l.insert(r2.address(), l2[&r2.address()].clone());
                let tx2 = report_tx(&r2, &name("proof 2"));
                let alone = execute(&l, &e2, &tx2);
                let ex1 = execute(&l, &e1, &report_tx(&r1, &proof_account()));
                if !ex1.ok() || !alone.ok() {
                    return Some(Verdict::ok(format!("refused: {} / {}", ex1.label(), alone.label()), None));
                }
                let ex2 = execute(&ex1.ledger, &e2, &tx2);
                let first = |l: &Ledger| l.get(&r1.address()).map(|a| (**a).clone());
                let bad = if !ex2.ok() {
                    Some(format!("the second report fails after the first: {}", ex2.label()))
                } else if first(&ex1.ledger) != first(&ex2.ledger) {
                    Some("the first report changed".into())
                } else if ex2.ledger.get(&r2.address()) != alone.ledger.get(&r2.address()) {
                    Some("the second report differs from the same one made alone".into())
                } else {
                    None
                };
                Some(Verdict { class: "both stand".into(), nontrivial: Some(fp(&(s1, s2, same))), violation: bad })
            })
            .dim("slot 1", &sl)
            .dim("slot 2", &sl)
            .dim("nodes", &["same", "different"]),
        );
    }
    out
}

/// A stored report as the program writes it.
fn stored_report(r: &Report, epoch: u64, proof: &[u8]) -> Vec<u8> {
    let e = Env::at(0, 1).with_epoch(epoch);
    let mut d = stored(&e, r, &[], &[]);
    d.truncate(HEADER);
    d.extend_from_slice(proof);
    d
}

/// Judge one close of a report that is `recorded` in that epoch for `named`.
fn judge_ix(l: &Ledger, e: &Env, ix: Instruction, recorded: u64, named: Pubkey, cpi: bool) -> Verdict {
    let (report, dest) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey);
    let company = ix.accounts.iter().map(|m| (m.pubkey, m.is_signer)).collect::<Vec<_>>();
    let tx: Ix = if cpi {
        Ix {
            ix: Instruction { program_id: rt::proxy_id(), accounts: rt::through(&ix), data: vec![] },
            inner: vec![ix],
        }
    } else {
        ix.into()
    };
    let ex = execute(l, e, &[tx]);
    let have = rt::lamports_of(l, &report);
    let room = rt::lamports_of(l, &dest).checked_add(have);
    let legit = dest == named && e.clock.epoch as u128 >= recorded as u128 + 3;
    let class = format!("{} / {}", if legit { "due" } else { "not due" }, ex.label());
    let mut want = l.clone();
    if legit && room.is_some() {
        want.remove(&report);
        credit(&mut want, dest, have);
    }
    let bad = if ex.ok() && !legit {
        Some(class.clone())
    } else if !ex.ok() && legit && room.is_some() {
        Some(class.clone())
    } else if ex.ledger != want {
        Some(format!("{class}: the ledger is not as expected"))
    } else {
        None
    };
    Verdict { class, nontrivial: Some(fp(&(report, dest, recorded, e.clock.epoch, have, cpi, company))), violation: bad }
}

fn c07(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    let k = Key::new("leader");
    let (a, b) = root_conflict(&k, 77, 1, (Kind::Data, Kind::Data), 90);
    let proof = pack(&a.bytes, &b.bytes);
    let base = Report::of(k.pubkey(), 77, &a, &b);
    // judge one close
    let judge = |l: &Ledger, e: &Env, report: Pubkey, dest: Pubkey, recorded: u64, named: Pubkey, cpi: bool| {
        judge_ix(l, e, close_ix(&report, &dest), recorded, named, cpi)
    };
    {
        let epochs: Vec<u64> = {
            let mut v = powers();
            v.extend(0..tier.pick(40, 140));
            v.sort();
            v.dedup();
            v
        };
        let rec: Vec<u64> = epochs.iter().copied().chain([u64::MAX - 3, u64::MAX - 2]).collect();
        let (r, ep, base, proof) = (rec.clone(), epochs.clone(), base.clone(), proof.clone());
        let now = move |recorded: u64, i: usize| -> Option<u64> {
            if i < epochs.len() {
                Some(epochs[i])
            } else {
                // around the boundary
                let d = (i - epochs.len()) as i128 - 5;
                u64::try_from(recorded as i128 + 3 + d).ok()
            }
        };
        let n_now = ep.len() + 11;
        out.push(
            Space::new("epochs", move |c| {
                let recorded = rec[c[0]];
                let now = now(recorded, c[1])?;
                if now == u64::MAX && recorded > u64::MAX - 3 {
                    return None; // no clock gets there, and counting stops there
                }
                let e = Env::at(10, 432_000).with_epoch(now);
                let mut l = Ledger::new();
                rt::put(&mut l, base.address(), 30_000_000, stored_report(&base, recorded, &proof), slashing());
                rt::put(&mut l, base.destination, 1_000_000, vec![], system_program::id());
                Some(judge(&l, &e, base.address(), base.destination, recorded, base.destination, false))
            })
            .dim("recorded epoch", &r)
            .range("current epoch (absolute values, then recorded-2..recorded+8)", n_now),
        );
    }
    {
        // who is paid: every pair of (recorded destination, destination passed)
        let node = k.pubkey();
        let fixed: Vec<(&'static str, Pubkey)> = vec![
            ("destination", name("destination")),
            ("reporter", base.reporter),
            ("node", node),
            ("absent account", name("absent")),
            ("data account", name("data account")),
            ("rich account", name("rich")),
            ("off by the first byte", {
                let mut b = name("destination").to_bytes();
                b[0] ^= 1;
                Pubkey::new_from_array(b)
            }),
            ("off by the last byte", {
                let mut b = name("destination").to_bytes();
                b[31] ^= 0x80;
                Pubkey::new_from_array(b)
            }),
            ("another report", report_address(&node, 78, 1)),
            ("the report itself", base.address()),
            ("zero key's neighbour", {
                let mut b = [0u8; 32];
                b[31] = 1;
                Pubkey::new_from_array(b)
            }),
        ];
        let labels: Vec<&str> = fixed.iter().map(|f| f.0).collect();
        let balances: Vec<u64> = vec![19_000_000, 30_000_000, 30_000_001, 1 << 40, 1 << 63, u64::MAX];
        let bl = balances.clone();
        let now: Vec<u64> = vec![0, 7, 8, 9, 10, 11, 1000, u64::MAX];
        let nw = now.clone();
        let (base, proof) = (base.clone(), proof.clone());
        out.push(
            Space::new("destinations", move |c| {
                let named = fixed[c[0]].1;
                let passed = fixed[c[1]].1;
                let mut r = base.clone();
                r.destination = named;
                if named == base.address() {
                    return None; // never recorded (C11)
                }
                let mut l = Ledger::new();
                rt::put(&mut l, base.address(), balances[c[2]], stored_report(&r, 7, &proof), slashing());
                for (n, k) in &fixed {
                    if *k == base.address() || *n == "absent account" {
                        continue;
                    }
                    match *n {
                        "data account" => rt::put(&mut l, *k, 9_000_000, vec![9; 100], name("someone's program")),
                        "rich account" => rt::put(&mut l, *k, u64::MAX - 30_000_000, vec![], system_program::id()),
                        "another report" => {
                            let mut o = base.clone();
                            o.slot = 78;
                            rt::put(&mut l, *k, 40_000_000, stored_report(&o, 7, &proof), slashing())
                        }
                        _ => rt::put(&mut l, *k, 2_000_000, vec![], system_program::id()),
                    }
                }
                let e = Env::at(10, 432_000).with_epoch(now[c[3]]);
                Some(judge(&l, &e, base.address(), passed, 7, named, c[4] == 1))
            })
            .dim("recorded destination", &labels)
            .dim("passed destination", &labels)
            .dim("report lamports", &bl)
            .dim("current epoch (recorded 7)", &nw)
            .dim("via", &["top level", "another program"]),
        );
    }
    {
        // who signs, and in which company the instruction comes
        let (base, proof) = (base.clone(), proof.clone());
        let signers = ["destination", "reporter", "node", "a stranger"];
        let rec = [0u64, 7, 1 << 33];
        let rl = rec;
        let mut s = Space::new("signers", move |c| {
            let recorded = rec[c[0]];
            let e = Env::at(10, 432_000).with_epoch(recorded + c[1] as u64);
            let who = [base.destination, base.reporter, base.node, name("a stranger")];
            let mut l = Ledger::new();
            rt::put(&mut l, base.address(), 30_000_000, stored_report(&base, recorded, &proof), slashing());
            for k in who {
                rt::put(&mut l, k, 5_000_000, vec![], system_program::id());
            }
            let dest = [base.destination, base.reporter][c[2]];
            let mut ix = close_ix(&base.address(), &dest);
            for (i, k) in who.iter().enumerate() {
                if c[4 + i] == 1 {
                    if *k == dest {
                        ix.accounts[1].is_signer = true;
                    }
                    ix.accounts.push(AccountMeta::new(*k, true));
                }
            }
            Some(judge_ix(&l, &e, ix, recorded, base.destination, c[3] == 1))
        })
        .dim("recorded epoch", &rl)
        .range("epochs since", 6)
        .dim("passed destination", &["the recorded one", "the reporter"])
        .dim("via", &["top level", "another program"]);
        for n in signers {
            s = s.dim(&format!("{n} signs"), &["no", "yes"]);
        }
        out.push(s);
    }
    {
        // whatever else the report says
        let sizes: Vec<usize> = (0..40).chain([100, 2414, 2439, 2464, 5000, 10_000]).collect();
        let sz = sizes.clone();
        let base = base.clone();
        let slots: Vec<u64> = vec![0, 1, 77, 1 << 32, u64::MAX];
        let sl = slots.clone();
        out.push(
            Space::new("contents", move |c| {
                let mut r = base.clone();
                r.slot = slots[c[1]];
                let mut d = stored_report(&r, 7, &vec![0x5A; sizes[c[0]]]);
                if c[3] == 1 {
                    d[1..33].copy_from_slice(r.destination.as_ref());
                }
                let mut l = Ledger::new();
                rt::put(&mut l, r.address(), 200_000_000, d, slashing());
                rt::put(&mut l, r.destination, 1_000_000, vec![], system_program::id());
                let e = Env::at([0, 77, u64::MAX][c[4]], 432_000).with_epoch([8, 9, 10, 11][c[2]]);
                Some(judge(&l, &e, r.address(), r.destination, 7, r.destination, false))
            })
            .dim("proof bytes", &sz)
            .dim("slot", &sl)
            .dim("current epoch (recorded 7)", &[8, 9, 10, 11])
            .dim("reporter", &["another", "the destination"])
            .dim("clock slot", &[0, 77, u64::MAX]),
        );
    }
    out
}

fn c09(tier: Tier) -> Vec<Space> {
    // report, close at the first possible moment, report again at every later moment
    let spes: Vec<u64> = {
        let mut v: Vec<u64> = (1..tier.pick(33, 129)).collect();
        v.extend([8192, 432_000, 1 << 32]);
        v
    };
    let sp = spes.clone();
    let pos = 12usize;
    vec![Space::new("report-close-report", move |c| {
        let spe = spes[c[0]];
        // slot within its epoch
        let at = |i: usize, spe: u64| -> Option<u64> {
            let h = (pos / 2) as u64;
            let i = i as u64;
            if spe <= pos as u64 {
                (i < spe).then_some(i)
            } else if i < h {
                Some(i)
            } else {
                Some(spe - 1 - (i - h))
            }
        };
        let slot = 2 * spe + at(c[1], spe)?;
        let elapsed = [0, 1, 2, spe / 2, spe - 1, spe][c[2]];
        if elapsed > spe {
            return None;
        }
        let first = slot + elapsed;
        let k = Key::new("leader");
        let (a, b) = root_conflict(&k, slot, 1, (Kind::Data, Kind::Data), 95);
        let (x, y) = root_conflict(&k, slot, 2, (Kind::Data, Kind::Code), 96);
        let r1 = Report::of(k.pubkey(), slot, &a, &b);
        let r2 = Report::of(k.pubkey(), slot, &x, &y);
        let e1 = Env::at(first, spe);
        let mut l = scene(&e1, &r1, &pack(&a.bytes, &b.bytes));
        rt::put(&mut l, name("proof 2"), 1_000_000_000, pack(&x.bytes, &y.bytes), name("record-program"));
        let ex = execute(&l, &e1, &report_tx(&r1, &proof_account()));
        if !ex.ok() {
            return Some(Verdict::ok(format!("first report refused: {}", ex.label()), None));
        }
        l = ex.ledger;
        // close as early as the program lets anyone
        let mut closed_at = None;
        for t in [
            first,
            first + 1,
            (e1.clock.epoch + 1) * spe - 1,
            (e1.clock.epoch + 1) * spe,
            (e1.clock.epoch + 2) * spe - 1,
            (e1.clock.epoch + 2) * spe,
            (e1.clock.epoch + 3) * spe - 1,
            (e1.clock.epoch + 3) * spe,
            (e1.clock.epoch + 3) * spe + 1,
            (e1.clock.epoch + 4) * spe,
        ] {
            if t < first {
                continue;
            }
            let e = Env::at(t, spe);
            let ex = execute(&l, &e, &[close_ix(&r1.address(), &r1.destination).into()]);
            if ex.ok() && !ex.ledger.contains_key(&r1.address()) {
                l = ex.ledger;
                closed_at = Some(t);
                break;
            }
        }
        let Some(t0) = closed_at else {
            return Some(Verdict::ok("never closed", None));
        };
        credit(&mut l, r1.address(), 1 << 40);
        let mut bad = None;
        for t in [t0, t0 + 1, t0 + 2, t0 + spe - 1, t0 + spe, t0 + spe + 1, t0 + 2 * spe, t0 + 10 * spe] {
            for (r, p) in [(&r1, proof_account()), (&r2, name("proof 2"))] {
                let e = Env::at(t, spe);
                if execute(&l, &e, &report_tx(r, &p)).ok() {
                    bad.get_or_insert(format!("reported at {first}, closed at {t0}, reported again at {t}"));
                }
            }
        }
        Some(Verdict {
            class: "closed, not reported again".into(),
            nontrivial: Some(fp(&(spe, slot, elapsed))),
            violation: bad,
        })
    })
    .dim("slots per epoch", &sp)
    .range("position of the slot in its epoch (first and last ones)", pos)
    .dim("report after", &["0", "1", "2", "half an epoch", "an epoch less one", "an epoch"])]
}
