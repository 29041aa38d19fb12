//! C16 - C21: the command line client, run for real against a mock cluster.

use super::common::*;
use crate::{
    cli::{Bench, Ran},
    cluster::{Cluster, Fault, Request, Tx, Views},
    ed::Key,
    explore::{fp, Space, Tier, Verdict},
    ledgerdb::{differ, Block, Validator},
    rt::{self, lamports_of, Env, Ledger},
    shreds::{Kind, Shred},
    world::*,
    Meta,
};
use serde_json::Value;
use solana_program::pubkey::Pubkey;
use solana_system_interface::program as system_program;
use std::{collections::BTreeSet, path::Path};

pub(super) const ASSUME: &[&str] = &[
    "the mock cluster answers JSON-RPC as a node does; transactions are executed by the real programs under mc/src/rt.rs, free of charge",
    "the open-file limit the client asks for is pretended to be granted (cli/nofile.c)",
    "bounded sets of accounts, slots and options as listed",
];
pub const META_C16: Meta = Meta {
    level: "exploration",
    rule: "the real close command is run for every listed combination of accounts on the cluster, filters and output format; judged: the ledger afterwards, the transactions sent and the printed report list equal the expected ones; non-trivial = at least one report on the cluster; fingerprint over the case",
    assumptions: ASSUME,
};
pub const META_C17: Meta = Meta {
    level: "exploration",
    rule: "the real display command is run for every listed combination of reports on the cluster, filters and output format; judged: what is printed equals the expected list, field by field, in slot order; nothing is sent; non-trivial = at least one report on the cluster; fingerprint over the case",
    assumptions: ASSUME,
};
pub const META_C18: Meta = Meta {
    level: "exploration",
    rule: "the real attach command is run for every listed combination of ledger contents, reports already on the cluster, slot range, options; judged: the ledger afterwards equals the expected one (reports, payer, no leftovers), and so do the transactions sent and the printed count; non-trivial = at least one duplicate slot in the ledger; fingerprint over the case",
    assumptions: ASSUME,
};
pub const META_C19: Meta = Meta {
    level: "fault_enumeration",
    rule: "every request the real attach command makes in a fault-free run is made to fail in every listed way, one at a time; judged: all other slots are reported, no proof account is left behind (except one whose own closing was what failed), the failure is printed, and a second run completes the reports; non-trivial = runs in which the fault was hit; fingerprint over (scenario, request, fault)",
    assumptions: ASSUME,
};
pub const META_C20: Meta = Meta {
    level: "fault_enumeration",
    rule: "every command is run with --dry-run for every listed option, and every request it makes is made to fail in every listed way, one at a time; judged: nothing is ever submitted, the ledger is unchanged, no crash, success is printed only for simulations that succeeded and failures are printed; non-trivial = runs with at least one simulation or fault; fingerprint over the case",
    assumptions: ASSUME,
};
pub const META_C21: Meta = Meta {
    level: "exploration",
    rule: "display and close are run on a cluster with real reports and every listed set of foreign zero-filled accounts owned by the program, in every listed position; judged: exit code, output and transactions equal those of the same cluster without the foreign accounts; non-trivial = every case; fingerprint over the case",
    assumptions: ASSUME,
};

pub(super) const EPOCH: u64 = 100;
pub(super) const SPE: u64 = 432_000;
pub(super) const NOW: u64 = EPOCH * SPE + 1000;

pub(super) fn env() -> Env {
    Env::at(NOW, SPE)
}

pub(super) fn sys(l: &mut Ledger, k: Pubkey, lamports: u64) {
    rt::put(l, k, lamports, vec![], system_program::id());
}

pub(super) fn base_ledger() -> Ledger {
    let mut l = Ledger::new();
    sys(&mut l, Bench::payer(), 1 << 45);
    l
}

#[derive(Clone, Debug)]
pub(super) struct OnChain {
    pub(super) node: Pubkey,
    pub(super) slot: u64,
    pub(super) reporter: Pubkey,
    pub(super) destination: Pubkey,
    pub(super) epoch: u64,
    pub(super) lamports: u64,
    pub(super) proof: Vec<u8>,
    /// Shreds the ledger crate may refuse to decode.
    pub(super) odd: bool,
}

impl OnChain {
    pub(super) fn address(&self) -> Pubkey {
        report_address(&self.node, self.slot, 1)
    }
    pub(super) fn put(&self, l: &mut Ledger) {
        let mut d = vec![1u8];
        d.extend_from_slice(self.reporter.as_ref());
        d.extend_from_slice(self.destination.as_ref());
        d.extend_from_slice(&self.epoch.to_le_bytes());
        d.extend_from_slice(self.node.as_ref());
        d.extend_from_slice(&self.slot.to_le_bytes());
        d.push(1);
        d.extend_from_slice(&self.proof);
        rt::put(l, self.address(), self.lamports, d, slashing());
    }
}

pub(super) fn pool(tag: &str, i: usize) -> Pubkey {
    name(&format!("{tag} {i}"))
}

fn proof_for(i: usize, slot: u64) -> Vec<u8> {
    let kinds = [(Kind::Data, Kind::Data), (Kind::Code, Kind::Code), (Kind::Data, Kind::Code)][i % 3];
    let (a, b) = root_conflict(&Key::new("any"), slot, (i + 1) % 3, kinds, 300 + i as u64);
    pack(&a.bytes, &b.bytes)
}

/// Report number `i` with the given attributes (indices into the pools).
pub(super) fn report(i: usize, node: usize, reporter: usize, dest: usize, epoch: u64) -> OnChain {
    let slot = [5_000, 77, 4_999, 90_000_000_000, 0, 123_456, 78, 1 << 33][i % 8] + (i / 8) as u64 * 1000;
    OnChain {
        node: pool("node", node),
        slot,
        reporter: pool("reporter", reporter),
        destination: pool("dest", dest),
        epoch,
        lamports: 20_000_000 + 1_000_003 * i as u64,
        proof: proof_for(i, slot),
        odd: false,
    }
}

fn json_of(r: &Ran) -> Result<Value, String> {
    // whatever is printed before the document does not belong to it
    let at = r.stdout.find('{').ok_or("no JSON printed")?;
    serde_json::from_str(&r.stdout[at..]).map_err(|e| format!("bad JSON printed: {e}"))
}

/// `name value` lines; the value follows the last run of blanks of the name.
fn value_of<'a>(line: &'a str, name: &str) -> Option<&'a str> {
    line.trim().strip_prefix(name).map(|v| v.trim())
}

pub(super) fn sent(reqs: &[Request]) -> Vec<Tx> {
    reqs.iter().filter(|r| r.method == "sendTransaction").filter_map(|r| r.tx.clone()).collect()
}

pub(super) const FORMATS: [&str; 4] = ["display", "verbose", "json", "json-compact"];
pub(super) fn format_args(f: usize) -> Vec<&'static str> {
    match f {
        0 => vec![],
        1 => vec!["--verbose"],
        2 => vec!["--output", "json"],
        _ => vec!["--output", "json-compact"],
    }
}

// ---------------------------------------------------------------------------
// C16

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub(super) struct Closed {
    pub(super) account: String,
    pub(super) node: String,
    pub(super) reporter: String,
    pub(super) destination: String,
    pub(super) lamports: u64,
    pub(super) signature: Option<String>,
}

#[derive(Debug)]
pub(super) struct CloseOutput {
    pub(super) early: u64,
    pub(super) list: Vec<Closed>,
    total: Option<(u64, u64)>,
}

pub(super) fn parse_close(r: &Ran, f: usize) -> Result<CloseOutput, String> {
    if f >= 2 {
        let v = json_of(r)?;
        if v["commandName"] != "Close" {
            return Err("commandName".into());
        }
        let o = &v["commandOutput"];
        let s = |v: &Value| v.as_str().unwrap_or("").to_string();
        let list = o[1]
            .as_array()
            .ok_or("no list")?
            .iter()
            .map(|x| Closed {
                account: s(&x["reportAccount"]),
                node: s(&x["pubkey"]),
                reporter: s(&x["reporter"]),
                destination: s(&x["destination"]),
                lamports: x["lamports"].as_u64().unwrap_or(u64::MAX),
                signature: x["signature"].as_str().map(|s| s.to_string()),
            })
            .collect();
        return Ok(CloseOutput { early: o[0].as_u64().ok_or("no count")?, list, total: None });
    }
    let mut list: Vec<Closed> = vec![];
    let (mut early, mut n, mut total) = (None, None, None);
    for line in r.stdout.lines() {
        if let Some(v) = value_of(line, "Closed report account") {
            list.push(Closed {
                account: v.into(),
                node: String::new(),
                reporter: String::new(),
                destination: String::new(),
                lamports: 0,
                signature: None,
            });
        } else if let Some(v) = value_of(line, "Violator:") {
            list.last_mut().ok_or("stray line")?.node = v.into();
        } else if let Some(v) = value_of(line, "Reporter:") {
            list.last_mut().ok_or("stray line")?.reporter = v.into();
        } else if let Some(v) = value_of(line, "Signature:") {
            list.last_mut().ok_or("stray line")?.signature = Some(v.into());
        } else if let Some(v) = value_of(line, "Reclaimed") {
            let (n, d) = v.split_once(" to destination ").ok_or("reclaimed line")?;
            let l = list.last_mut().ok_or("stray line")?;
            l.lamports = n.trim().parse().map_err(|_| "lamports")?;
            l.destination = d.trim().into();
        } else if let Some(v) = value_of(line, "Reports too soon to close:") {
            early = v.parse().ok();
        } else if let Some(v) = value_of(line, "Closed reports:") {
            n = v.parse().ok();
        } else if let Some(v) = value_of(line, "Total lamports recovered:") {
            total = v.parse().ok();
        }
    }
    Ok(CloseOutput {
        early: early.ok_or("number of early reports not printed")?,
        list,
        total: Some((n.ok_or("number of closed reports not printed")?, total.ok_or("total not printed")?)),
    })
}

#[derive(Clone, Debug, Default)]
pub(super) struct CloseFilter {
    pub(super) account: Option<Pubkey>,
    pub(super) node: Option<Pubkey>,
    pub(super) reporter: Option<Pubkey>,
    pub(super) destination: Option<Pubkey>,
}

pub(super) fn close_args(f: &CloseFilter, format: usize) -> Vec<String> {
    let mut a = vec!["close".to_string()];
    if let Some(k) = f.account {
        a.push(k.to_string());
    }
    for (n, k) in [("--node-pubkey", f.node), ("--reporter", f.reporter), ("--destination", f.destination)] {
        if let Some(k) = k {
            a.push(n.into());
            a.push(k.to_string());
        }
    }
    a.extend(format_args(format).iter().map(|s| s.to_string()));
    a
}

fn judge_close(on: &[OnChain], filter: &CloseFilter, format: usize, epoch: u64) -> Verdict {
    judge_close_with(on, &[], filter, format, Env::at(epoch * SPE + 17, SPE), false)
}

/// A cluster whose first epochs were shorter, as that of every real one.
fn warmed(epoch: u64) -> Env {
    let s = solana_program::epoch_schedule::EpochSchedule::custom(SPE, SPE, true);
    let mut e = Env::at(s.get_first_slot_in_epoch(epoch) + 5, SPE).with_epoch(epoch);
    e.schedule = s;
    e
}

/// `stuck`: reports that nobody can close because of their destination; the
/// others are not to suffer from them.
fn judge_close_with(on: &[OnChain], stuck: &[OnChain], filter: &CloseFilter, format: usize, env: Env, stuck_first: bool) -> Verdict {
    judge_close_on(on, stuck, filter, format, env, stuck_first, (None, None))
}

/// `disturbance`: what the node's other views show, and a transaction that is
/// confirmed late.
pub(super) fn judge_close_on(
    on: &[OnChain],
    stuck: &[OnChain],
    filter: &CloseFilter,
    format: usize,
    env: Env,
    stuck_first: bool,
    disturbance: (Option<Views>, Option<(String, Fault)>),
) -> Verdict {
    let epoch = env.clock.epoch;
    let mut l = base_ledger();
    for r in on.iter().chain(stuck) {
        r.put(&mut l);
    }
    for i in 0..3 {
        sys(&mut l, pool("dest", i), 1_000_000);
    }
    let before = l.clone();
    let b = Bench::new(Cluster::start(l, env));
    let about = format!("{disturbance:?}");
    {
        let mut st = b.cluster.state.lock().unwrap();
        (st.views, st.fault) = disturbance;
    }
    if !stuck.is_empty() {
        let (a, z) = if stuck_first { (stuck, on) } else { (on, stuck) };
        b.cluster.state.lock().unwrap().listing = a.iter().chain(z).map(|r| r.address()).collect();
    }
    let args = close_args(filter, format);
    let r = b.run(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    let st = b.cluster.state.lock().unwrap();
    let picked = |r: &&OnChain| {
        r.epoch as u128 + 3 <= epoch as u128
            && filter.account.is_none_or(|k| k == r.address())
            && filter.node.is_none_or(|k| k == r.node)
            && filter.reporter.is_none_or(|k| k == r.reporter)
            && filter.destination.is_none_or(|k| k == r.destination)
    };
    let due: Vec<&OnChain> = on.iter().filter(picked).collect();
    let futile: Vec<&OnChain> = stuck.iter().filter(picked).collect();
    let early =
        on.iter().chain(stuck).filter(|r| r.epoch as u128 + 3 > epoch as u128).count() as u64;
    let class = format!("{} with {} due", r.label(), due.len());
    let f = fp(&(
        &args,
        on.iter().chain(stuck).map(|r| (r.address(), r.epoch, r.reporter, r.destination)).collect::<Vec<_>>(),
        epoch,
        stuck.len(),
        stuck_first,
        st.env.clock.slot,
        about,
    ));
    let bad = (|| -> Result<(), String> {
        if r.code != Some(0) || r.crashed() {
            return Err(format!("the command {}: {}", r.label(), r.tail()));
        }
        let mut want = before.clone();
        for d in &due {
            want.remove(&d.address());
            let n = lamports_of(&want, &d.destination) + d.lamports;
            sys(&mut want, d.destination, n);
        }
        if st.ledger != want {
            let wrong: Vec<String> = on
                .iter()
                .filter(|r| st.ledger.get(&r.address()) != want.get(&r.address()))
                .map(|r| {
                    format!(
                        "{} (epoch {}) {}",
                        r.address(),
                        r.epoch,
                        if want.contains_key(&r.address()) { "was closed" } else { "was not closed" }
                    )
                })
                .collect();
            return Err(format!("wrong accounts closed: {wrong:?}"));
        }
        let txs = sent(&st.requests);
        let all = due.len() + futile.len();
        if txs.len() != all {
            return Err(format!("{} transactions sent for {all} due reports", txs.len()));
        }
        for d in futile.iter() {
            // only JSON keeps quiet about it
            let k = d.address().to_string();
            if format < 2 && !r.stderr.contains(&k) && !r.stdout.contains(&k) {
                return Err(format!("the failure to close {k} was not printed"));
            }
        }
        for d in due.iter().chain(&futile) {
            let n = txs
                .iter()
                .filter(|t| {
                    t.ixs.len() == 1
                        && t.ixs[0].program_id == slashing()
                        && t.ixs[0].data == [0]
                        && t.ixs[0].accounts.first().map(|m| m.pubkey) == Some(d.address())
                        && t.ixs[0].accounts.get(1).map(|m| m.pubkey) == Some(d.destination)
                })
                .count();
            if n != 1 {
                return Err(format!("{n} close transactions for {}", d.address()));
            }
        }
        let out = parse_close(&r, format)?;
        if out.early != early {
            return Err(format!("{} early reports printed instead of {early}", out.early));
        }
        let mut got = out.list.clone();
        let mut exp: Vec<Closed> = due
            .iter()
            .map(|d| Closed {
                account: d.address().to_string(),
                node: d.node.to_string(),
                reporter: d.reporter.to_string(),
                destination: d.destination.to_string(),
                lamports: d.lamports,
                signature: txs
                    .iter()
                    .find(|t| t.ixs[0].accounts[0].pubkey == d.address())
                    .map(|t| t.signature.clone()),
            })
            .collect();
        got.sort();
        exp.sort();
        if got != exp {
            return Err(format!("printed {got:?} instead of {exp:?}"));
        }
        let sum: u64 = due.iter().map(|d| d.lamports).sum();
        if let Some((n, t)) = out.total {
            if (n, t) != (due.len() as u64, sum) {
                return Err(format!("totals printed: {n} closed, {t} lamports"));
            }
        }
        Ok(())
    })();
    Verdict { class, nontrivial: (!on.is_empty()).then_some(f), violation: bad.err() }
}

/// Sixteen reports covering every combination of two nodes, two reporters, two
/// destinations, early and due.
fn crowd() -> Vec<OnChain> {
    (0..16)
        .map(|i| {
            let epoch = if i & 8 == 0 { EPOCH - 3 } else { EPOCH - 2 };
            report(i, i & 1, (i >> 1) & 1, (i >> 2) & 1, epoch)
        })
        .collect()
}

/// Reports in which three keys appear in every role: one report for each
/// (node, reporter, destination).
fn roles() -> Vec<OnChain> {
    (0..27)
        .map(|i| {
            let epoch = if i % 2 == 0 { EPOCH - 3 } else { EPOCH - 4 };
            let mut r = report(i, 0, 0, 0, epoch);
            (r.node, r.reporter, r.destination) = (pool("dest", i % 3), pool("dest", i / 3 % 3), pool("dest", i / 9));
            r
        })
        .collect()
}

/// Many reports, of slots whose order is not that of their numbers.
fn many(n: usize) -> Vec<OnChain> {
    (0..n)
        .map(|i| {
            let mut r = report(i, i % 7, i % 5, i % 3, if i % 2 == 0 { EPOCH - 3 } else { EPOCH - 1 });
            r.slot = (i as u64 * 7919) % 10_007;
            r
        })
        .collect()
}

pub fn c16(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    {
        // every combination of filters on a crowd
        let accs: Vec<Option<Pubkey>> = {
            let c = crowd();
            vec![None, Some(c[0].address()), Some(c[7].address()), Some(c[9].address()), Some(name("nowhere"))]
        };
        let n_acc = if tier.thorough() { 5 } else { 4 };
        out.push(
            Space::new("close-filters", move |c| {
                let on = crowd();
                let pick = |tag: &str, i: usize| (i > 0).then(|| pool(tag, i - 1));
                let f = CloseFilter {
                    account: accs[c[0]],
                    node: pick("node", c[1]),
                    reporter: pick("reporter", c[2]),
                    destination: pick("dest", c[3]),
                };
                Some(judge_close(&on, &f, c[4], EPOCH))
            })
            .range("report account", n_acc)
            .dim("node", &["any", "A", "B", "C"])
            .dim("reporter", &["any", "A", "B"])
            .dim("destination", &["any", "A", "B"])
            .dim("output", tier.pick(&FORMATS[..1], &FORMATS[..])),
        );
    }
    {
        // the same few keys in every role
        out.push(
            Space::new("close-roles", move |c| {
                let pick = |i: usize| (i > 0).then(|| pool("dest", i - 1));
                let f = CloseFilter { account: None, node: pick(c[0]), reporter: pick(c[1]), destination: pick(c[2]) };
                Some(judge_close(&roles(), &f, c[3], EPOCH))
            })
            .range("node", tier.pick(3, 4))
            .range("reporter", tier.pick(3, 4))
            .range("destination", tier.pick(3, 4))
            .dim("output", tier.pick(&FORMATS[2..3], &FORMATS[..])),
        );
    }
    {
        let ns = tier.pick(vec![130usize], vec![99, 100, 101, 260, 1030]);
        let nl = ns.clone();
        out.push(
            Space::new("close-many", move |c| {
                Some(judge_close(&many(ns[c[0]]), &CloseFilter::default(), c[1], EPOCH))
            })
            .dim("reports", &nl)
            .dim("output", tier.pick(&FORMATS[..1], &FORMATS[..3])),
        );
    }
    {
        // every subset of reports of every age
        let n = tier.pick(5, 7);
        out.push(
            Space::new("close-subsets", move |c| {
                let ages = [0u64, 2, 3, 4, 97, 100, 1];
                let on: Vec<OnChain> = (0..n)
                    .filter(|i| c[0] >> i & 1 == 1)
                    .map(|i| report(i, i % 2, 0, i % 3, EPOCH - ages[i]))
                    .collect();
                Some(judge_close(&on, &CloseFilter::default(), c[1], EPOCH))
            })
            .range("subset", 1 << n)
            .dim("output", tier.pick(&FORMATS[..3], &FORMATS[..])),
        );
    }
    {
        // epochs of report and cluster
        let now: Vec<u64> = tier.pick(vec![0, 1, 2, 3, 4, 5, 100, 255, 256, 1 << 32], (0..12).chain([100, 255, 256, 257, 65_535, 65_536, 1 << 32, 1 << 40]).collect());
        let nw = now.clone();
        out.push(
            Space::new("close-epochs", move |c| {
                let e = now[c[0]];
                let on: Vec<OnChain> = (0..7u64)
                    .filter_map(|d| (e + 1).checked_sub(d).map(|x| report(d as usize, 0, 0, 0, x)))
                    .collect();
                Some(if c[2] == 0 {
                    judge_close(&on, &CloseFilter::default(), c[1], e)
                } else {
                    judge_close_with(&on, &[], &CloseFilter::default(), c[1], warmed(e), false)
                })
            })
            .dim("cluster epoch", &nw)
            .dim("output", &FORMATS[..])
            .dim("first epochs", &["as long as others", "shorter"]),
        );
    }
    {
        // amounts of every magnitude
        let v: Vec<u64> = powers().into_iter().filter(|x| (1 << 20..1 << 62).contains(x) && (tier.thorough() || x.is_power_of_two())).chain([999_999_999, 1_000_000_000, 1_000_000_001, 1_000_000_000_000_000]).collect();
        let vl = v.clone();
        out.push(
            Space::new("close-amounts", move |c| {
                let on: Vec<OnChain> = (0..4)
                    .map(|i| {
                        let mut r = report(i, i % 2, 0, i % 2, EPOCH - 4 + (i as u64 / 2) * 2);
                        if c[1] == 2 || i % 2 == c[1] {
                            r.lamports = v[c[0]] / 4 + i as u64;
                        }
                        r
                    })
                    .collect();
                let mut f = CloseFilter::default();
                if c[2] > 0 {
                    f.node = Some(pool("node", c[2] - 1));
                }
                Some(judge_close(&on, &f, c[3], EPOCH))
            })
            .dim("lamports", &vl)
            .dim("held by", &["even reports", "odd reports", "all"])
            .dim("node", &["any", "A", "B"])
            .dim("output", tier.pick(&FORMATS[2..3], &FORMATS[..3])),
        );
    }
    {
        // reports whose destination cannot be paid
        out.push(
            Space::new("close-unpayable", move |c| {
                let on: Vec<OnChain> = (0..c[0]).map(|i| report(i, i, i, i % 3, EPOCH - 3 + (i as u64 / 3))).collect();
                let mut stuck = vec![unclosable(c[1])];
                if c[2] == 1 {
                    let mut r = unclosable(1 - c[1]);
                    r.slot += 1;
                    stuck.push(r);
                }
                let mut f = CloseFilter::default();
                match c[4] {
                    1 => f.account = Some(stuck[0].address()),
                    2 => f.node = Some(stuck[0].node),
                    3 => f.account = on.first().map(|r| r.address()),
                    _ => {}
                }
                Some(judge_close_with(&on, &stuck, &f, c[5], env(), c[3] == 0))
            })
            .range("reports", tier.pick(3, 5))
            .dim("destination", &["system program", "sysvar"])
            .dim("number of such", &[1, 2])
            .dim("listed", &["first", "last"])
            .dim("filter", &["none", "such an account", "its node", "another account"])
            .dim("output", &FORMATS[..]),
        );
    }
    {
        // each filter in each format, with every attribute shared or not
        out.push(
            Space::new("close-single-filter", move |c| {
                let on = crowd();
                let r = &on[c[1]];
                let mut f = CloseFilter::default();
                match c[0] {
                    0 => f.account = Some(r.address()),
                    1 => f.node = Some(r.node),
                    2 => f.reporter = Some(r.reporter),
                    3 => f.destination = Some(r.destination),
                    // keys in the wrong role match nothing
                    4 => f.node = Some(r.reporter),
                    5 => f.reporter = Some(r.destination),
                    6 => f.destination = Some(r.node),
                    _ => f.account = Some(r.node),
                }
                Some(judge_close(&on, &f, c[2], EPOCH))
            })
            .dim("filter", &["account", "node", "reporter", "destination", "node:=reporter", "reporter:=destination", "destination:=node", "account:=node"])
            .range("of report", tier.pick(4, 16))
            .dim("output", tier.pick(&FORMATS[2..3], &FORMATS[..])),
        );
    }
    out
}

// ---------------------------------------------------------------------------
// C17

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub(super) struct Shown {
    pub(super) slot: u64,
    pub(super) account: String,
    pub(super) node: String,
    pub(super) reporter: String,
    pub(super) destination: String,
    pub(super) epoch: u64,
    pub(super) ty: String,
    pub(super) proof: Option<Vec<u8>>,
}

/// What is printed, in order, and for verbose mode the text belonging to each.
pub(super) fn parse_display(r: &Ran, f: usize) -> Result<(Vec<Shown>, Vec<String>, Option<u64>), String> {
    if f >= 2 {
        let v = json_of(r)?;
        if v["commandName"] != "Display" {
            return Err("commandName".into());
        }
        let s = |v: &Value| v.as_str().unwrap_or("").to_string();
        let list = v["commandOutput"]
            .as_array()
            .ok_or("no list")?
            .iter()
            .map(|x| Shown {
                slot: x["slot"].as_u64().unwrap_or(0xDEAD_BEEF_DEAD),
                account: s(&x["reportAddress"]),
                node: s(&x["pubkey"]),
                reporter: s(&x["reporter"]),
                destination: s(&x["destination"]),
                epoch: x["epoch"].as_u64().unwrap_or(0xDEAD_BEEF_DEAD),
                ty: s(&x["violationType"]),
                proof: x["proof"]
                    .as_array()
                    .map(|a| a.iter().map(|b| b.as_u64().unwrap_or(999) as u8).collect()),
            })
            .collect();
        return Ok((list, vec![], None));
    }
    let mut list: Vec<Shown> = vec![];
    let mut text: Vec<String> = vec![];
    let mut n = None;
    for line in r.stdout.lines() {
        let get = |p: &str| value_of(line, p);
        if let Some(v) = get("Report account address:") {
            list.push(Shown {
                slot: u64::MAX,
                account: v.into(),
                node: String::new(),
                reporter: String::new(),
                destination: String::new(),
                epoch: u64::MAX,
                ty: String::new(),
                proof: None,
            });
            text.push(String::new());
            continue;
        }
        if let Some(v) = get("Open reports:") {
            n = v.parse().ok();
            continue;
        }
        let Some(l) = list.last_mut() else { continue };
        if let Some(v) = get("Violator:") {
            l.node = v.into();
        } else if let Some(v) = get("Violation Type:") {
            l.ty = v.into();
        } else if let Some(v) = get("Violation Slot:") {
            l.slot = v.parse().map_err(|_| "slot")?;
        } else if let Some(v) = get("Reporter:") {
            l.reporter = v.into();
        } else if let Some(v) = get("Reported Epoch:") {
            l.epoch = v.parse().map_err(|_| "epoch")?;
        } else if let Some(v) = get("Destination:") {
            l.destination = v.into();
        } else {
            text.last_mut().unwrap().push_str(line);
        }
    }
    Ok((list, text, Some(n.ok_or("number of reports not printed")?)))
}

fn list_of(b: &[u8]) -> String {
    // as a Debug list, without the closing bracket
    let mut s = format!("{b:?}");
    s.pop();
    s
}

#[derive(Clone, Debug, Default)]
pub(super) struct DisplayFilter {
    epoch: Option<u64>,
    node: Option<Pubkey>,
    reporter: Option<Pubkey>,
}

fn judge_display(on: &[OnChain], filter: &DisplayFilter, format: usize, reverse: bool) -> Verdict {
    judge_display_on(on, filter, format, reverse, None)
}

pub(super) fn judge_display_on(on: &[OnChain], filter: &DisplayFilter, format: usize, reverse: bool, views: Option<Views>) -> Verdict {
    let mut l = base_ledger();
    for r in on {
        r.put(&mut l);
    }
    let before = l.clone();
    let b = Bench::new(Cluster::start(l, env()));
    let about = format!("{views:?}");
    b.cluster.state.lock().unwrap().views = views;
    b.cluster.state.lock().unwrap().listing =
        if reverse { on.iter().rev().map(|r| r.address()).collect() } else { on.iter().map(|r| r.address()).collect() };
    let mut args = vec!["display".to_string()];
    if let Some(k) = filter.node {
        args.push(k.to_string());
    }
    if let Some(e) = filter.epoch {
        args.push("--epoch".into());
        args.push(e.to_string());
    }
    if let Some(k) = filter.reporter {
        args.push("--reporter".into());
        args.push(k.to_string());
    }
    args.extend(format_args(format).iter().map(|s| s.to_string()));
    let r = b.run(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    let st = b.cluster.state.lock().unwrap();
    let mut want: Vec<&OnChain> = on
        .iter()
        .filter(|r| {
            filter.epoch.is_none_or(|e| e == r.epoch)
                && filter.node.is_none_or(|k| k == r.node)
                && filter.reporter.is_none_or(|k| k == r.reporter)
        })
        .collect();
    want.sort_by_key(|r| r.slot);
    let class = format!("{} showing {}", r.label(), want.len());
    let f = fp(&(&args, on.iter().map(|r| (r.address(), r.epoch, &r.proof)).collect::<Vec<_>>(), reverse, about));
    let bad = (|| -> Result<(), String> {
        if r.code != Some(0) || r.crashed() {
            return Err(format!("the command {}: {}", r.label(), r.tail()));
        }
        if !sent(&st.requests).is_empty() || st.ledger != before {
            return Err("display sent a transaction".into());
        }
        let (got, text, n) = parse_display(&r, format)?;
        if n.is_some_and(|n| n != want.len() as u64) {
            return Err(format!("{n:?} open reports printed"));
        }
        if got.windows(2).any(|w| w[0].slot > w[1].slot) {
            return Err("not ordered by slot".into());
        }
        let mut g: Vec<Shown> = got.clone();
        let mut e: Vec<Shown> = want
            .iter()
            .map(|w| Shown {
                slot: w.slot,
                account: w.address().to_string(),
                node: w.node.to_string(),
                reporter: w.reporter.to_string(),
                destination: w.destination.to_string(),
                epoch: w.epoch,
                ty: "duplicate block".into(),
                proof: (format >= 2).then(|| w.proof.clone()),
            })
            .collect();
        g.sort();
        e.sort();
        if g != e {
            let lean = |v: &[Shown]| v.iter().map(|s| format!("{}@{} node {} epoch {} ({:?} proof bytes)", s.account, s.slot, s.node, s.epoch, s.proof.as_ref().map(|p| p.len()))).collect::<Vec<_>>();
            return Err(format!("printed {:?} instead of {:?}", lean(&g), lean(&e)));
        }
        if format == 1 {
            for w in &want {
                let i = got.iter().position(|s| s.account == w.address().to_string()).unwrap();
                let (a, b) = split(&w.proof);
                for s in [a, b] {
                    // what a shred occupies on the wire
                    let n = s.len().min(if s.get(64).is_some_and(|v| v & 0x80 != 0) { 1203 } else { 1228 });
                    if !text[i].contains(&list_of(&s[..n])) {
                        return Err(format!("the proof of {} is not shown", w.address()));
                    }
                }
                if !w.odd {
                    described(&text[i], &w.proof).map_err(|e| format!("{}: {e}", w.address()))?;
                }
            }
        }
        Ok(())
    })();
    Verdict { class, nontrivial: (!on.is_empty()).then_some(f), violation: bad.err() }
}

/// Verbose mode also says what is in the shreds.
fn described(text: &str, proof: &[u8]) -> Result<(), String> {
    let (a, b) = split(proof);
    let mut at = 0;
    for (n, s) in [a, b].iter().enumerate() {
        let d = crate::spec::decode(s).ok_or("undecodable shred")?;
        let ty = if d.layout.kind == Kind::Data { "Data" } else { "Code" };
        for want in [
            format!("Shred{}:", n + 1),
            format!("fec_set_index {},", d.fec),
            format!("index {},", d.index),
            format!("shred_type {ty}"),
            format!("version {},", d.version),
            format!("merkle_root Some({})", bs58::encode(d.root).into_string()),
            format!("last_in_slot {}", d.last),
        ] {
            let Some(i) = text[at..].find(&want) else {
                return Err(format!("`{want}' is not shown"));
            };
            at += i + want.len();
        }
    }
    Ok(())
}

fn split(p: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let n = u32::from_le_bytes(p[..4].try_into().unwrap()) as usize;
    (p[4..4 + n].to_vec(), p[8 + n..].to_vec())
}

/// Proofs the program accepts, including ones a leader who does not follow the
/// rules may sign.
fn odd_proofs(slot: u64) -> Vec<(&'static str, Vec<u8>)> {
    use crate::shreds::{batch, Hdr, Layout, Leaf};
    let key = Key::new("any");
    let mut v = vec![];
    let one = |kind, f: &dyn Fn(&mut Hdr), salt: u64, layout_flavour: usize| -> Shred {
        let mut hdr = match kind {
            Kind::Data => Hdr::data(slot, 7, 64, 65, 0),
            Kind::Code => Hdr::code(slot, 7, 64, 65, 3, 3, 1),
        };
        f(&mut hdr);
        let leaf = Leaf { layout: Layout::new(kind, layout_flavour, 4), hdr, fill: 0x11 };
        batch(&key, salt, &[leaf]).unwrap().pop().unwrap()
    };
    for (fl, n) in [(0, "plain"), (1, "chained"), (2, "resigned")] {
        let a = one(Kind::Data, &|_| {}, 1, fl);
        let b = one(Kind::Data, &|_| {}, 2, fl);
        v.push((n, pack(&a.bytes, &b.bytes)));
        let a = one(Kind::Code, &|_| {}, 1, fl);
        let b = one(Kind::Code, &|_| {}, 2, fl);
        v.push((n, pack(&a.bytes, &b.bytes)));
    }
    let ok = one(Kind::Data, &|_| {}, 1, 1);
    let mut longer = ok.bytes.clone();
    longer.resize(1300, 0xAA);
    let b = one(Kind::Data, &|_| {}, 2, 1);
    v.push(("bytes appended", pack(&longer, &b.bytes)));
    // indices and positions beyond what a block may hold
    let far = one(Kind::Data, &|h| { h.index = u32::MAX; h.fec = u32::MAX - 1 }, 3, 1);
    let far2 = one(Kind::Data, &|h| { h.index = u32::MAX; h.fec = u32::MAX - 1 }, 4, 1);
    v.push(("index beyond any block", pack(&far.bytes, &far2.bytes)));
    let bad = one(Kind::Code, &|h| { h.nd = 3; h.nc = 0; h.pos = 9 }, 5, 1);
    let bad2 = one(Kind::Code, &|h| { h.nd = 3; h.nc = 0; h.pos = 9 }, 6, 1);
    v.push(("coding position beyond the set", pack(&bad.bytes, &bad2.bytes)));
    let par = one(Kind::Data, &|h| h.parent = 0, 7, 1);
    let par2 = one(Kind::Data, &|h| h.parent = 0xffff, 8, 1);
    v.push(("parent out of range", pack(&par.bytes, &par2.bytes)));
    let fl = one(Kind::Data, &|h| h.flags = 0x80, 9, 1);
    let fl2 = one(Kind::Data, &|h| h.flags = 0xff, 10, 1);
    v.push(("undefined flags", pack(&fl.bytes, &fl2.bytes)));
    for (i, n, size) in [(0, "size of nothing", 0u16), (1, "size inside the header", 87), (2, "no data", 88), (3, "size beyond the data", 1203), (4, "size beyond the shred", u16::MAX)] {
        let s = one(Kind::Data, &|h| h.size = Some(size), 20 + i, 1);
        let s2 = one(Kind::Data, &|h| h.size = Some(size), 30 + i, 1);
        v.push((n, pack(&s.bytes, &s2.bytes)));
    }
    for (i, n, nd, nc, pos) in [(0, "no data shreds", 0u16, 4u16, 3u16), (1, "no coding shreds", 4, 0, 1), (2, "many coding shreds", 4, u16::MAX, 1)] {
        let s = one(Kind::Code, &|h| { h.nd = nd; h.nc = nc; h.pos = pos }, 40 + i, 1);
        let s2 = one(Kind::Code, &|h| { h.nd = nd; h.nc = nc; h.pos = pos }, 50 + i, 1);
        v.push((n, pack(&s.bytes, &s2.bytes)));
    }
    let z = one(Kind::Data, &|h| h.version = 0, 11, 0);
    let z2 = one(Kind::Code, &|h| { h.version = 0; h.nd = 2 }, 12, 0);
    v.push(("mixed kinds", pack(&z.bytes, &z2.bytes)));
    // well-formed at the edges of what a shred may say
    let edge: [(&'static str, fn(&mut Hdr)); 7] = [
        ("version 0", |h| h.version = 0),
        ("highest version", |h| h.version = u16::MAX),
        ("first of the block", |h| { h.index = 0; h.fec = 0 }),
        ("last of the block", |h| h.flags = 0xc0),
        ("parent just before", |h| h.parent = 1),
        ("data complete at tick 63", |h| h.flags = 0x7f),
        ("one byte of data", |h| h.size = Some(89)),
    ];
    for (i, (n, f)) in edge.into_iter().enumerate() {
        let s = one(Kind::Data, &f, 60 + i as u64, 2);
        let s2 = one(Kind::Data, &f, 70 + i as u64, 2);
        v.push((n, pack(&s.bytes, &s2.bytes)));
    }
    let s = one(Kind::Code, &|h| { h.index = 0; h.fec = 0; h.pos = 0; h.nd = 1; h.nc = 1; h.version = 0 }, 80, 2);
    let s2 = one(Kind::Code, &|h| { h.index = 0; h.fec = 0; h.pos = 0; h.nd = 1; h.nc = 1; h.version = 0 }, 81, 2);
    v.push(("smallest coding set", pack(&s.bytes, &s2.bytes)));
    v
}

/// What the program records but no block can contain: the client need not
/// make sense of it.
const ODD: [&str; 12] = [
    "index beyond any block",
    "coding position beyond the set",
    "parent out of range",
    "undefined flags",
    "size of nothing",
    "size inside the header",
    "no data",
    "size beyond the data",
    "size beyond the shred",
    "no data shreds",
    "no coding shreds",
    "many coding shreds",
];

pub fn c17(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    {
        out.push(
            Space::new("display-filters", move |c| {
                let on = crowd();
                let f = DisplayFilter {
                    epoch: [None, Some(EPOCH - 3), Some(EPOCH - 2), Some(EPOCH), Some(0)][c[0]],
                    node: (c[1] > 0).then(|| pool("node", c[1] - 1)),
                    reporter: (c[2] > 0).then(|| pool("reporter", c[2] - 1)),
                };
                Some(judge_display(&on, &f, c[3], c[4] == 1))
            })
            .dim("epoch", &["any", "due", "early", "none of them", "0"])
            .dim("node", &["any", "A", "B", "C"])
            .dim("reporter", &["any", "A", "B", "C"])
            .dim("output", tier.pick(&FORMATS[..3], &FORMATS[..]))
            .range("listing reversed", tier.pick(1, 2)),
        );
    }
    {
        out.push(
            Space::new("display-roles", move |c| {
                let pick = |i: usize| (i > 0).then(|| pool("dest", i - 1));
                let f = DisplayFilter { epoch: [None, Some(EPOCH - 3)][c[2]], node: pick(c[0]), reporter: pick(c[1]) };
                Some(judge_display(&roles(), &f, c[3], false))
            })
            .range("node", 4)
            .range("reporter", 4)
            .range("epoch", 2)
            .dim("output", tier.pick(&FORMATS[2..3], &FORMATS[..])),
        );
    }
    {
        let ns = tier.pick(vec![130usize], vec![99, 100, 101, 260, 1030]);
        let nl = ns.clone();
        out.push(
            Space::new("display-many", move |c| {
                Some(judge_display(&many(ns[c[0]]), &DisplayFilter::default(), c[1], c[2] == 1))
            })
            .dim("reports", &nl)
            .dim("output", tier.pick(&FORMATS[2..3], &FORMATS[..3]))
            .range("listing reversed", tier.pick(1, 2)),
        );
    }
    {
        let n = tier.pick(5, 7);
        out.push(
            Space::new("display-subsets", move |c| {
                let on: Vec<OnChain> = (0..n)
                    .filter(|i| c[0] >> i & 1 == 1)
                    .map(|i| report(i, i % 2, i % 2, i % 3, [0, 1, 255, 256, u32::MAX as u64 + 1, 7, 1 << 50][i]))
                    .collect();
                Some(judge_display(&on, &DisplayFilter::default(), c[1], c[2] == 1))
            })
            .range("subset", 1 << n)
            .dim("output", &FORMATS[..])
            .range("listing reversed", 2),
        );
    }
    {
        // the same slot for several nodes, slots that sort differently as text or bytes
        let orders: Vec<Vec<usize>> = permutations(4);
        let n = orders.len();
        out.push(
            Space::new("display-order", move |c| {
                let slots = [9u64, 10, 256, 9];
                let on: Vec<OnChain> = orders[c[0]]
                    .iter()
                    .map(|i| {
                        let mut r = report(*i, *i, 0, 0, 5);
                        r.slot = slots[*i];
                        r
                    })
                    .collect();
                Some(judge_display(&on, &DisplayFilter::default(), c[1], false))
            })
            .range("listing order", n)
            .dim("output", tier.pick(&FORMATS[1..3], &FORMATS[..])),
        );
    }
    {
        // numbers of every magnitude
        let v: Vec<u64> = powers().into_iter().filter(|x| tier.thorough() || x.is_power_of_two() || *x == u64::MAX || x.count_ones() > 20).collect();
        let vl = v.clone();
        out.push(
            Space::new("display-numbers", move |c| {
                let mut r = report(0, 0, 0, 0, 5);
                match c[0] {
                    0 => r.slot = v[c[1]],
                    1 => r.epoch = v[c[1]],
                    _ => r.lamports = v[c[1]].max(1),
                }
                let mut f = DisplayFilter::default();
                if c[0] == 1 {
                    f.epoch = Some(v[c[1]]);
                }
                let on = vec![report(1, 1, 1, 1, 6), r, report(2, 0, 0, 0, 7)];
                Some(judge_display(&on, &f, c[2], false))
            })
            .dim("number", &["slot", "epoch", "lamports"])
            .dim("value", &vl)
            .dim("output", tier.pick(&FORMATS[1..3], &FORMATS[..])),
        );
    }
    {
        let names: Vec<&'static str> = odd_proofs(5000).iter().map(|x| x.0).collect();
        let labels = names.clone();
        out.push(
            Space::new("display-proofs", move |c| {
                let (_, proof) = odd_proofs(5000)[c[0]].clone();
                // the program does record it
                let (a, b) = split(&proof);
                let (da, db) = (crate::spec::decode(&a), crate::spec::decode(&b));
                let (Some(da), Some(db)) = (da, db) else { return None };
                let key = Key::new("any");
                let mut r = Report::of(
                    key.pubkey(),
                    5000,
                    &Shred { bytes: a.clone(), root: da.root, sig: da.sig },
                    &Shred { bytes: b.clone(), root: db.root, sig: db.sig },
                );
                r.reporter = name("r");
                if !run_report(&Env::at(5000, SPE), &r, &a, &b).ok() {
                    return Some(Verdict::ok("not recordable", None));
                }
                let mut on = vec![report(0, 0, 0, 0, 5), report(1, 1, 1, 1, 6)];
                let mut o = report(2, 0, 0, 0, 5);
                o.proof = proof;
                o.odd = ODD.contains(&names[c[0]]);
                on.push(o);
                Some(judge_display(&on, &DisplayFilter::default(), c[1], false))
            })
            .dim("proof", &labels)
            .dim("output", &FORMATS[..]),
        );
    }
    out
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

// ---------------------------------------------------------------------------
// attach

/// What the ledger says about one slot.
#[derive(Clone, Debug)]
pub(super) struct Dup {
    pub(super) slot: u64,
    pub(super) a: Vec<u8>,
    pub(super) b: Vec<u8>,
    /// Would the program accept it?
    pub(super) valid: bool,
    /// Already on the cluster.
    pub(super) reported: bool,
    /// Lamports already sitting at the report's address.
    pub(super) prefunded: u64,
    /// The evidence others reported it with, if not this one.
    pub(super) other_evidence: Option<(Vec<u8>, Vec<u8>)>,
}

pub(super) fn leader(slot: u64) -> Key {
    Key::new(["leader A", "leader B"][(slot / 4 % 2) as usize])
}

pub(super) fn dup(slot: u64, flavour: usize, kinds: (Kind, Kind)) -> Dup {
    let (a, b) = root_conflict(&leader(slot), slot, flavour, kinds, 500 + slot % 97);
    Dup { slot, a: a.bytes, b: b.bytes, valid: true, reported: false, prefunded: 0, other_evidence: None }
}

#[derive(Clone, Debug)]
pub(super) struct Attach {
    pub(super) dups: Vec<Dup>,
    pub(super) start: Option<u64>,
    pub(super) end: Option<u64>,
    pub(super) reporter: Option<Pubkey>,
    pub(super) destination: Option<Pubkey>,
    pub(super) separate_payer: bool,
    pub(super) default_signer: bool,
    pub(super) url_option: bool,
    pub(super) format: usize,
    pub(super) dry: bool,
    pub(super) fault: Option<(String, Fault)>,
    /// Continuous mode: the scan at which each duplicate is in the ledger first.
    pub(super) scans: Option<Vec<usize>>,
    /// What else is in the ledger.
    pub(super) blocks: Vec<Block>,
    /// Rent on the cluster, in lamports per byte and year.
    pub(super) rent: u64,
    /// What others do meanwhile, before which request.
    pub(super) events: Vec<(usize, super::shared::Event)>,
    /// For each duplicate whether a report is in the block not yet confirmed,
    /// and whether one is in the last final block. Confirmed is what is reported.
    pub(super) seen: Vec<[bool; 2]>,
}

impl Default for Attach {
    fn default() -> Self {
        Self {
            dups: vec![],
            start: None,
            end: None,
            reporter: None,
            destination: None,
            separate_payer: false,
            default_signer: true,
            url_option: false,
            format: 0,
            dry: false,
            fault: None,
            scans: None,
            blocks: vec![],
            rent: 3480,
            events: vec![],
            seen: vec![],
        }
    }
}

pub(super) struct Attached {
    pub(super) ran: Ran,
    pub(super) before: Ledger,
    pub(super) after: Ledger,
    pub(super) requests: Vec<Request>,
    pub(super) payer: Pubkey,
    pub(super) reporter: Pubkey,
    pub(super) destination: Pubkey,
    /// What became of the ledger's files, if anything.
    pub(super) disturbed: Option<String>,
    /// A second run, on what the first one left behind.
    pub(super) again: Option<(Ran, Ledger)>,
    /// What others brought in.
    pub(super) minted: i128,
}

fn payer_key(separate: bool) -> Key {
    Key::new(if separate { "fee payer" } else { "default signer" })
}

pub(super) fn attach_env() -> Env {
    env()
}

pub(super) fn stored_for(a: &Attach, d: &Dup, reporter: Pubkey, destination: Pubkey) -> (Pubkey, Vec<u8>) {
    let _ = a;
    let key = leader(d.slot);
    let z = Shred { bytes: vec![], root: [0; 32], sig: [0; 64] };
    let mut r = Report::of(key.pubkey(), d.slot, &z, &z);
    r.reporter = reporter;
    r.destination = destination;
    (r.address(), stored(&attach_env(), &r, &d.a, &d.b))
}

pub(super) fn run_attach(a: &Attach, rerun: bool) -> Attached {
    let mut l = Ledger::new();
    let payer = payer_key(a.separate_payer);
    sys(&mut l, payer.pubkey(), 1 << 45);
    if a.separate_payer {
        sys(&mut l, Bench::payer(), 1 << 44);
    }
    for d in &a.dups {
        if d.reported {
            let mut d = d.clone();
            if let Some((a, b)) = d.other_evidence.take() {
                (d.a, d.b) = (a, b);
            }
            let (k, data) = stored_for(a, &d, name("earlier reporter"), name("earlier destination"));
            rt::put(&mut l, k, 30_000_000 + minimum(&attach_env(), data.len()), data, slashing());
        } else if d.prefunded > 0 {
            let (k, _) = stored_for(a, d, name(""), name(""));
            sys(&mut l, k, d.prefunded);
        }
    }
    let before = l.clone();
    let mut env = attach_env();
    env.rent.lamports_per_byte_year = a.rent;
    let b = Bench::new(Cluster::start(l, env));
    {
        let mut st = b.cluster.state.lock().unwrap();
        for d in &a.dups {
            st.leaders.insert(d.slot, leader(d.slot).pubkey());
            // a leader schedule goes on
            for s in d.slot + 1..d.slot + 4 {
                st.leaders.entry(s).or_insert(leader(s).pubkey());
            }
        }
        st.fault = a.fault.clone();
        st.script = a.events.iter().map(|(n, e)| (*n, e.on_attach(a))).collect();
        if !a.seen.is_empty() {
            let mut v = Views::default();
            for (d, seen) in a.dups.iter().zip(&a.seen) {
                let (k, data) = stored_for(a, d, name("earlier reporter"), name("earlier destination"));
                let lamports = minimum(&attach_env(), data.len());
                let there = rt::Account { lamports, data, owner: slashing() };
                for (seen, view) in seen.iter().zip([&mut v.processed, &mut v.finalized]) {
                    if *seen != d.reported {
                        view.push((k, seen.then(|| there.clone())));
                    }
                }
            }
            st.views = Some(v);
        }
    }
    let stage = |n: usize| {
        let known = a.dups.iter().enumerate().filter(|(i, _)| a.scans.as_ref().is_none_or(|s| s[*i] <= n));
        b.scratch.ledger_with(&known.map(|(_, d)| (d.slot, d.a.clone(), d.b.clone())).collect::<Vec<_>>(), &a.blocks)
    };
    let ledger = stage(0);
    // the validator whose ledger it is goes on working
    let validator = Validator::start(Path::new(&ledger));
    let files = std::cell::RefCell::new(validator.files());
    let disturbed = std::cell::RefCell::new(None);
    let look = || {
        let d = differ(&files.borrow(), &validator.files());
        if d.is_some() && disturbed.borrow().is_none() {
            *disturbed.borrow_mut() = d;
        }
    };
    let go = || {
        let k = if a.default_signer {
            b.scratch.key("default", &b.default)
        } else {
            b.scratch.dir.join("missing.json").display().to_string()
        };
        let c = b.scratch.config(if a.url_option { "http://127.0.0.1:9" } else { &b.cluster.url }, &k);
        let mut v: Vec<String> = vec!["-C".into(), c];
        if a.url_option {
            v.extend(["--url".to_string(), b.cluster.url.clone()]);
        }
        if a.separate_payer {
            v.push("--fee-payer".into());
            v.push(b.scratch.key("payer", &payer));
        }
        v.extend(["attach".to_string(), "--ledger".into(), ledger.clone()]);
        for (n, x) in [("--start-slot", a.start), ("--end-slot", a.end)] {
            if let Some(x) = x {
                v.push(n.into());
                v.push(x.to_string());
            }
        }
        for (n, x) in [("--reporter", a.reporter), ("--destination", a.destination)] {
            if let Some(x) = x {
                v.push(n.into());
                v.push(x.to_string());
            }
        }
        v.extend(format_args(a.format).iter().map(|s| s.to_string()));
        if a.dry {
            v.push("--dry-run".into());
        }
        let Some(scans) = &a.scans else {
            let mut until = |_: &dyn Fn() -> String| crate::cli::forsaken(&b.cluster);
            return crate::cli::run_limited(&b.scratch, &v, std::time::Duration::from_secs(90), Some(&mut until));
        };
        v.extend(["--continuous", "--scan-interval", "1"].map(str::to_string));
        // The ledger grows while the client sleeps. A scan that was already
        // under way when it did does not count.
        let last = scans.iter().copied().max().unwrap_or(0);
        let (mut now, mut need) = (0, 1);
        let mut watch = |said: &dyn Fn() -> String| {
            let n = |what: &str| said().lines().filter(|l| l.starts_with(what)).count();
            if n("Scanning again") < need {
                return false;
            }
            if now == last {
                return true;
            }
            now += 1;
            look();
            stage(now);
            *files.borrow_mut() = validator.files();
            need = n("Checking duplicate slots") + 1;
            false
        };
        crate::cli::run_limited(&b.scratch, &v, std::time::Duration::from_secs(90), Some(&mut watch))
    };
    let ran = go();
    let (after, requests, minted) = {
        let mut st = b.cluster.state.lock().unwrap();
        st.fault = None;
        (st.ledger.clone(), std::mem::take(&mut st.requests), st.minted)
    };
    let again = rerun.then(|| {
        let r = go();
        let l = b.cluster.state.lock().unwrap().ledger.clone();
        (r, l)
    });
    look();
    let disturbed = disturbed.borrow().clone();
    Attached {
        disturbed,
        ran,
        before,
        after,
        requests,
        payer: payer.pubkey(),
        reporter: a.reporter.unwrap_or(Bench::payer()),
        destination: a.destination.unwrap_or(Bench::payer()),
        again,
        minted,
    }
}

/// Slots an undisturbed run must report.
pub(super) fn expected<'a>(a: &'a Attach) -> Vec<&'a Dup> {
    a.dups
        .iter()
        .filter(|d| d.slot >= a.start.unwrap_or(0) && d.slot <= a.end.unwrap_or(u64::MAX))
        .filter(|d| !d.reported && d.valid)
        .filter(|d| {
            // later scans start above the last slot handled
            let Some(scans) = &a.scans else { return true };
            let when = |x: &Dup| scans[a.dups.iter().position(|y| y.slot == x.slot).unwrap()];
            let inside = |x: &&Dup| x.slot >= a.start.unwrap_or(0) && x.slot <= a.end.unwrap_or(u64::MAX);
            a.dups.iter().filter(inside).all(|x| x.slot < d.slot || when(x) >= when(d))
        })
        .collect()
}

/// Is the right report of `d` stored?
pub(super) fn right_report(a: &Attach, x: &Attached, l: &Ledger, d: &Dup) -> Result<bool, String> {
    let (k, data) = stored_for(a, d, x.reporter, x.destination);
    match l.get(&k) {
        Some(acc) if acc.owner == slashing() => {
            if acc.data == data {
                Ok(true)
            } else {
                Err(format!("slot {}: the report recorded is not the one asked for", d.slot))
            }
        }
        _ => Ok(false),
    }
}

pub(super) fn leftovers(l: &Ledger) -> Vec<Pubkey> {
    l.iter().filter(|(_, a)| a.owner == spl_record::id()).map(|(k, _)| *k).collect()
}

pub(super) fn printed_count(r: &Ran) -> Option<u64> {
    r.stdout.lines().rev().find_map(|l| {
        let l = l.trim().strip_prefix("Reported ")?;
        l.strip_suffix(" violations")?.trim().parse().ok()
    })
}

pub(super) fn judge_attach(a: &Attach) -> Verdict {
    let x = run_attach(a, false);
    let want = expected(a);
    let class = format!("{} with {} to report", x.ran.label(), want.len());
    let f = fp(&format!("{a:?}"));
    let bad = (|| -> Result<(), String> {
        if x.ran.code != Some(0) || x.ran.crashed() {
            return Err(format!("the command {}: {}", x.ran.label(), x.ran.tail()));
        }
        let mut exp = x.before.clone();
        // scanning the ledger from the start again would be as good
        let mut recorded = want.clone();
        if a.scans.is_some() {
            for d in expected(&Attach { scans: None, ..a.clone() }) {
                if !want.iter().any(|w| w.slot == d.slot) && right_report(a, &x, &x.after, d)? {
                    recorded.push(a.dups.iter().find(|e| e.slot == d.slot).unwrap());
                }
            }
        }
        for d in &recorded {
            if !right_report(a, &x, &x.after, d)? {
                return Err(format!("slot {} was not reported: {}", d.slot, x.ran.tail()));
            }
            let (k, data) = stored_for(a, d, x.reporter, x.destination);
            let have = lamports_of(&x.after, &k);
            let paid = have.checked_sub(d.prefunded).ok_or("prefunded lamports were taken")?;
            rt::put(&mut exp, k, have, data, slashing());
            let left = lamports_of(&exp, &x.payer) - paid;
            sys(&mut exp, x.payer, left);
        }
        let left = leftovers(&x.after);
        if !left.is_empty() {
            return Err(format!("{} proof accounts left behind", left.len()));
        }
        if x.after != exp {
            let who: Vec<String> = exp
                .keys()
                .chain(x.after.keys())
                .filter(|k| exp.get(k) != x.after.get(k))
                .map(|k| k.to_string())
                .collect::<BTreeSet<_>>()
                .into_iter()
                .collect();
            return Err(format!("unexpected changes to {who:?}"));
        }
        // nothing is written for anything else
        let inits = x
            .requests
            .iter()
            .filter(|r| r.method == "sendTransaction" && r.label.starts_with("sendTransaction init"))
            .count();
        let tried = a
            .dups
            .iter()
            .filter(|d| d.slot >= a.start.unwrap_or(0) && d.slot <= a.end.unwrap_or(u64::MAX) && !d.reported)
            .count();
        if a.scans.is_none() && inits > tried {
            return Err(format!("{inits} proofs written for {tried} slots"));
        }
        let n = printed_count(&x.ran);
        if a.scans.is_none() && n != Some(want.len() as u64) {
            return Err(format!("printed {n:?} reported violations instead of {}", want.len()));
        }
        Ok(())
    })();
    Verdict { class, nontrivial: (!a.dups.is_empty()).then_some(f), violation: bad.err() }
}

pub(super) fn three(tier: Tier) -> Vec<u64> {
    let _ = tier;
    // the statute of limitations reaches back to NOW - SPE
    vec![NOW - 3000, NOW - 2999, NOW - 2000]
}

pub fn c18(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    // as many as there may be
    let ns = tier.pick(vec![24, 70], vec![24, 70, 130, 300]);
    let nl: Vec<String> = ns.iter().map(|n| n.to_string()).collect();
    out.push(
        Space::new("many-duplicates", move |c| {
            let slots = (0..ns[c[0]]).map(|i| NOW - 5000 + i * 7);
            let kinds = [(Kind::Data, Kind::Data), (Kind::Code, Kind::Code)];
            let mut dups: Vec<Dup> = slots.map(|s| dup(s, (s % 3) as usize, kinds[(s % 2) as usize])).collect();
            for d in dups.iter_mut().step_by(9).skip(1) {
                d.reported = true;
            }
            Some(judge_attach(&Attach { dups, format: c[1], ..Attach::default() }))
        })
        .dim("duplicates", &nl)
        .dim("output", &FORMATS[..2]),
    );
    {
        // what is in the ledger, what is on the cluster
        let s = three(tier);
        out.push(
            Space::new("attach-contents", move |c| {
                let mut dups = vec![];
                for (i, slot) in s.iter().enumerate() {
                    let mut d = dup(*slot, i, (Kind::Data, Kind::Data));
                    match c[i] {
                        0 => continue,
                        1 => {}
                        2 => d.reported = true,
                        3 => d.prefunded = 1_000_000,
                        4 => d.prefunded = 50_000_000,
                        _ => {
                            // the same shred twice: no violation
                            d.b = d.a.clone();
                            d.valid = false;
                        }
                    }
                    dups.push(d);
                }
                Some(judge_attach(&Attach { dups, ..Attach::default() }))
            })
            .dim("slot 1", &["absent", "duplicate", "reported", "prefunded a bit", "prefunded amply", "not a violation"])
            .dim("slot 2", &["absent", "duplicate", "reported", "prefunded a bit", "prefunded amply", "not a violation"])
            .dim("slot 3", &["absent", "duplicate", "reported", "prefunded a bit", "prefunded amply", "not a violation"]),
        );
    }
    {
        // reported by others with evidence of any size the program takes
        let s = three(tier);
        let how = ["as in the ledger", "without retransmitter signatures", "first shred only without", "one byte more", "1500 bytes more", "9 kB more", "plain shreds", "coding shreds"];
        out.push(
            Space::new("attach-reported", move |c| {
                let mut dups: Vec<Dup> = s.iter().map(|s| dup(*s, 2, (Kind::Data, Kind::Data))).collect();
                for (i, d) in dups.iter_mut().enumerate() {
                    if c[1] >> i & 1 == 0 {
                        continue;
                    }
                    let cut = |b: &[u8]| b[..b.len() - 64].to_vec();
                    let (mut a, mut b) = (d.a.clone(), d.b.clone());
                    match c[0] {
                        0 => {}
                        1 => (a, b) = (cut(&a), cut(&b)),
                        2 => a = cut(&a),
                        3 => b.push(0),
                        4 => a.extend([7; 1500]),
                        5 => b.extend([7; 9_000]),
                        n => {
                            let k = if n == 6 { Kind::Data } else { Kind::Code };
                            let o = dup(d.slot, n - 6, (k, k));
                            (a, b) = (o.a, o.b);
                        }
                    }
                    // the program does take it
                    let (x, y) = (crate::spec::decode(&a)?, crate::spec::decode(&b)?);
                    let mut r = Report::of(
                        leader(d.slot).pubkey(),
                        d.slot,
                        &Shred { bytes: a.clone(), root: x.root, sig: x.sig },
                        &Shred { bytes: b.clone(), root: y.root, sig: y.sig },
                    );
                    r.reporter = name("earlier reporter");
                    if !run_report(&attach_env(), &r, &a, &b).ok() {
                        return Some(Verdict::ok("not recordable", None));
                    }
                    d.reported = true;
                    d.other_evidence = Some((a, b));
                }
                Some(judge_attach(&Attach { dups, ..Attach::default() }))
            })
            .dim("their evidence", &how)
            .range("slots reported", 8),
        );
    }
    {
        // ranges
        let s = three(tier);
        let bounds: Vec<Option<u64>> = vec![
            None,
            Some(0),
            Some(s[0] - 1),
            Some(s[0]),
            Some(s[1]),
            Some(s[1] + 1),
            Some(s[2]),
            Some(s[2] + 1),
            Some(u64::MAX),
        ];
        let bl = bounds.clone();
        out.push(
            Space::new("attach-ranges", move |c| {
                let dups = s.iter().map(|s| dup(*s, 1, (Kind::Data, Kind::Code))).collect();
                Some(judge_attach(&Attach { dups, start: bounds[c[0]], end: bounds[c[1]], ..Attach::default() }))
            })
            .dim("start", &bl)
            .dim("end", &bl),
        );
    }
    {
        // options
        let s = three(tier);
        out.push(
            Space::new("attach-options", move |c| {
                let dups = s[..2].iter().map(|s| dup(*s, 1, (Kind::Data, Kind::Data))).collect();
                let a = Attach {
                    dups,
                    reporter: (c[0] == 1).then(|| name("chosen reporter")),
                    destination: (c[1] == 1).then(|| name("chosen destination")),
                    separate_payer: c[2] == 1,
                    default_signer: c[3] == 0,
                    url_option: c[4] == 1,
                    format: c[5],
                    ..Attach::default()
                };
                if !a.default_signer && (a.reporter.is_none() || a.destination.is_none() || !a.separate_payer) {
                    // cannot work: must be refused without touching anything
                    let x = run_attach(&a, false);
                    let ok = x.ran.label() == "fails cleanly" && x.after == x.before;
                    return Some(Verdict::check(
                        "refused: who pays or reports is unknown",
                        fp(&c),
                        ok,
                        || format!("the command {} without a signer", x.ran.label()),
                    ));
                }
                Some(judge_attach(&a))
            })
            .dim("reporter", &["default", "chosen"])
            .dim("destination", &["default", "chosen"])
            .dim("fee payer", &["default", "chosen"])
            .dim("default signer", &["present", "missing"])
            .dim("url", &["configured", "option"])
            .dim("output", &FORMATS[..]),
        );
    }
    {
        // evidence of every kind, up to the edges of the statute of limitations
        let slots: Vec<u64> = vec![NOW - SPE - 1, NOW - SPE, NOW - SPE + 1, NOW - 1, NOW, NOW + 1];
        let kinds = [(Kind::Data, Kind::Data), (Kind::Data, Kind::Code), (Kind::Code, Kind::Data), (Kind::Code, Kind::Code)];
        let sl: Vec<i64> = slots.iter().map(|s| *s as i64 - NOW as i64).collect();
        out.push(
            Space::new("attach-evidence", move |c| {
                let mut d = dup(slots[c[0]], c[1], kinds[c[2]]);
                d.valid = d.slot <= NOW && NOW - d.slot <= SPE;
                let other = dup(NOW - 500, 0, (Kind::Data, Kind::Data));
                let mut dups = vec![d, other];
                dups.sort_by_key(|d| d.slot);
                Some(judge_attach(&Attach { dups, ..Attach::default() }))
            })
            .dim("slot - now", &sl)
            .dim("flavour", &["plain", "chained", "resigned"])
            .dim("kinds", &["dd", "dc", "cd", "cc"]),
        );
    }
    {
        // what became of the blocks
        let s = three(tier);
        out.push(
            Space::new("attach-blocks", move |c| {
                let dups = s.iter().map(|s| dup(*s, 1, (Kind::Data, Kind::Code))).collect();
                let mut blocks = vec![];
                for (i, slot) in s.iter().enumerate() {
                    match c[i] {
                        0 => {}
                        1 => blocks.push(Block::Complete(*slot)),
                        2 => blocks.push(Block::Dead(*slot)),
                        _ => blocks.push(Block::Rooted(*slot)),
                    }
                }
                if c[3] & 1 > 0 {
                    blocks.extend([Block::Rooted(s[0] - 7), Block::Complete(s[0] - 6)]);
                }
                if c[3] & 2 > 0 {
                    blocks.extend([Block::Rooted(s[2] + 5), Block::Complete(s[2] + 6)]);
                }
                Some(judge_attach(&Attach { dups, blocks, ..Attach::default() }))
            })
            .dim("slot 1", &["no block", "complete", "dead", "rooted"])
            .dim("slot 2", tier.pick(&["no block", "complete"][..], &["no block", "complete", "dead", "rooted"][..]))
            .dim("slot 3", &["no block", "complete", "dead", "rooted"])
            .dim("other blocks", &["none", "earlier", "later", "earlier and later"]),
        );
    }
    {
        // rent
        let s = three(tier);
        out.push(
            Space::new("attach-rent", move |c| {
                let mut dups: Vec<Dup> = s[..2].iter().map(|s| dup(*s, 1, (Kind::Data, Kind::Data))).collect();
                dups[1].prefunded = [0, 1, 1_000_000, 50_000_000][c[1]];
                let rent = [1, 348, 3480, 34_800][c[0]];
                Some(judge_attach(&Attach { dups, rent, separate_payer: c[2] == 1, ..Attach::default() }))
            })
            .dim("lamports per byte and year", &[1, 348, 3480, 34_800])
            .dim("prefunded", &[0, 1, 1_000_000, 50_000_000])
            .dim("fee payer", &["default", "chosen"]),
        );
    }
    {
        // a growing ledger
        let s = three(tier);
        out.push(
            Space::new("attach-continuous", move |c| {
                let mut dups: Vec<Dup> = s.iter().map(|s| dup(*s, 1, (Kind::Data, Kind::Code))).collect();
                match c[3] {
                    0 => {}
                    1 | 3 => {
                        for d in dups.iter_mut().skip(1).take(if c[3] == 1 { 1 } else { 2 }) {
                            d.b = d.a.clone();
                            d.valid = false;
                        }
                        if c[3] == 3 {
                            dups[0].b = dups[0].a.clone();
                            dups[0].valid = false;
                        }
                    }
                    2 => dups[1].reported = true,
                    _ => {
                        for d in dups.iter_mut() {
                            d.reported = true;
                        }
                    }
                }
                let scans = Some(c[..3].to_vec());
                Some(judge_attach(&Attach { dups, scans, format: c[4], ..Attach::default() }))
            })
            .dim("slot 1 seen at scan", &[1, 2, 3])
            .dim("slot 2 seen at scan", &[1, 2, 3])
            .dim("slot 3 seen at scan", &[1, 2, 3])
            .dim("slots", &["duplicate", "slot 2 not a violation", "slot 2 reported", "none a violation", "all reported"])
            .dim("output", &FORMATS[..1]),
        );
    }
    {
        // a growing ledger, slots next to each other
        let step = tier.pick(vec![1u64, 4], vec![1, 2, 3, 4, 5]);
        let sl = step.clone();
        let seen: Vec<[usize; 3]> = tier.pick(vec![[0, 1, 2], [0, 0, 1]], vec![[0, 1, 2], [0, 0, 1], [0, 1, 1], [0, 0, 0]]);
        let seenl = seen.clone();
        out.push(
            Space::new("attach-adjacent", move |c| {
                let s = NOW - 3000 + c[0] as u64;
                let slots = [s, s + 1, s + 1 + step[c[1]]];
                let dups = slots.iter().map(|s| dup(*s, 1, (Kind::Data, Kind::Data))).collect();
                let blocks = match c[3] {
                    0 => vec![],
                    1 => vec![Block::Rooted(slots[2] + 5), Block::Complete(slots[2] + 6)],
                    _ => vec![Block::Rooted(slots[0] - 1), Block::Dead(slots[1])],
                };
                Some(judge_attach(&Attach { dups, blocks, scans: Some(seen[c[2]].to_vec()), ..Attach::default() }))
            })
            .range("residue of the first slot", tier.pick(4, 16))
            .dim("from the second to the third", &sl)
            .dim("seen at scans", &seenl)
            .dim("blocks", tier.pick(&["none", "rooted later"][..], &["none", "rooted later", "rooted earlier, dead"][..])),
        );
    }
    {
        // many slots
        let most = tier.pick(12, 24);
        out.push(
            Space::new("attach-many", move |c| {
                let dups = (0..c[0] as u64).map(|i| dup(NOW - 9000 + 3 * i, (i % 3) as usize, (Kind::Data, Kind::Data))).collect();
                Some(judge_attach(&Attach { dups, ..Attach::default() }))
            })
            .range("duplicate slots", most),
        );
    }
    out
}

// ---------------------------------------------------------------------------
// C19

pub(super) fn faults_for(method: &str, slow: bool) -> Vec<Fault> {
    let mut v = vec![Fault::Error, Fault::Broken];
    match method {
        "sendTransaction" => {
            v.extend([Fault::Null, Fault::AckLost, Fault::LandsFailing]);
            if slow {
                v.push(Fault::Dropped);
            }
        }
        "getSlotLeaders" => v.extend([Fault::Null, Fault::Empty]),
        "getSignatureStatuses" => {}
        "getAccountInfo" => v.extend([Fault::Null, Fault::Stale]),
        _ => v.push(Fault::Null),
    }
    v
}

pub(super) fn scenario(i: usize) -> Attach {
    let s = [NOW - 3000, NOW - 2999, NOW - 2000];
    let mut a = Attach::default();
    match i {
        0 => {
            a.dups = s[..2].iter().map(|s| dup(*s, 1, (Kind::Data, Kind::Data))).collect();
        }
        1 => {
            a.dups = s.iter().map(|s| dup(*s, 2, (Kind::Data, Kind::Code))).collect();
            a.dups[1].reported = true;
            a.separate_payer = true;
            a.reporter = Some(name("chosen reporter"));
            a.destination = Some(name("chosen destination"));
        }
        2 => {
            a.dups = s.iter().map(|s| dup(*s, 0, (Kind::Code, Kind::Code))).collect();
            let d = &mut a.dups[0];
            d.b = d.a.clone();
            d.valid = false;
        }
        3 => {
            a.dups = s.iter().map(|s| dup(*s, 1, (Kind::Data, Kind::Data))).collect();
            a.format = 1;
        }
        _ => {
            // what the ledger holds for the middle slot is no Merkle shred at all
            a.dups = s.iter().map(|s| dup(*s, 1, (Kind::Data, Kind::Data))).collect();
            let d = &mut a.dups[1];
            d.a[64] = 0xa5;
            d.valid = false;
        }
    }
    a
}

/// Slot a request belongs to, from the order in which slots are treated.
fn slot_of_proofs(a: &Attach) -> Vec<u64> {
    a.dups.iter().filter(|d| !d.reported).map(|d| d.slot).collect()
}

fn judge_fault(a: &Attach, label: &str) -> Verdict {
    let x = run_attach(a, a.scans.is_none());
    let hit = x.requests.iter().any(|r| r.faulted);
    let fault = a.fault.as_ref().map(|f| f.1);
    let kind = label.split(' ').take(2).collect::<Vec<_>>().join(" ");
    let kind: String = kind.chars().filter(|c| !c.is_ascii_digit()).collect();
    let class = format!("{kind} {fault:?}: {}", x.ran.label());
    if !hit {
        return Verdict::ok(format!("{kind}: not reached"), None);
    }
    let f = fp(&format!("{a:?}"));
    let bad = (|| -> Result<(), String> {
        if x.ran.crashed() {
            return Err(format!("the command {}: {}", x.ran.label(), x.ran.tail()));
        }
        let want = expected(a);
        let done: Vec<bool> =
            want.iter().map(|d| right_report(a, &x, &x.after, d)).collect::<Result<_, _>>()?;
        let missing: Vec<u64> = want.iter().zip(&done).filter(|(_, d)| !**d).map(|(w, _)| w.slot).collect();
        // before the first slot is looked at, there is nothing to go on with
        let first = x.requests.iter().position(|r| r.method == "getSlotLeaders").unwrap_or(x.requests.len());
        let at = x.requests.iter().position(|r| r.faulted).unwrap();
        let startup = at < first;
        if startup {
            if x.after != x.before || x.ran.label() != "fails cleanly" {
                return Err(format!("a failure at startup: the command {}", x.ran.label()));
            }
        } else {
            if missing.len() > 1 {
                return Err(format!("slots {missing:?} were not reported"));
            }
            // the slot in turn when the fault hit
            let current = x.requests[..=at]
                .iter()
                .rev()
                .find(|r| r.method == "getSlotLeaders")
                .and_then(|r| r.label.split(' ').nth(1))
                .and_then(|s| s.parse::<u64>().ok());
            if let Some(m) = missing.first() {
                if Some(*m) != current {
                    return Err(format!("slot {m} was not reported although the failure concerned slot {current:?}"));
                }
                let s = m.to_string();
                if !x.ran.stderr.contains(&s) && !x.ran.stdout.contains(&s) {
                    return Err(format!("the failure of slot {m} was not printed"));
                }
            }
        }
        // proof accounts
        let left = leftovers(&x.after);
        let releasing = x.requests[..=at].iter().any(|r| r.label.starts_with("sendTransaction release"))
            || x.requests[at].label.contains("release")
            || if a.scans.is_some() { between_scans(&x.requests, at) } else { releases_next(&x.requests, at) };
        if left.len() > usize::from(releasing) {
            return Err(format!("{} proof accounts were left behind: {}", left.len(), x.ran.tail()));
        }
        // a closing that fails is only ever followed by the others'
        let tried: BTreeSet<&str> = x
            .requests
            .iter()
            .filter(|r| r.method == "sendTransaction" && r.label.contains("release"))
            .filter_map(|r| r.label.split(' ').nth(2))
            .collect();
        let _ = tried;
        // money
        let held: u64 = left.iter().map(|k| lamports_of(&x.after, k)).sum();
        let reports: u64 = want
            .iter()
            .map(|d| {
                let (k, _) = stored_for(a, d, x.reporter, x.destination);
                lamports_of(&x.after, &k) - lamports_of(&x.before, &k)
            })
            .sum();
        if lamports_of(&x.after, &x.payer) + held + reports != lamports_of(&x.before, &x.payer) {
            return Err("lamports of the fee payer went elsewhere".into());
        }
        // existing reports are untouched
        for d in a.dups.iter().filter(|d| d.reported) {
            let (k, _) = stored_for(a, d, x.reporter, x.destination);
            if x.after.get(&k) != x.before.get(&k) {
                return Err(format!("the report of slot {} changed", d.slot));
            }
        }
        // what was printed
        if !startup {
            let landed = done.iter().filter(|d| **d).count() as u64;
            let unsure = u64::from(x.requests[at].label.contains(" report ") || x.requests[at].method == "getLatestBlockhash" || x.requests[at].method == "isBlockhashValid");
            let n = match printed_count(&x.ran) {
                // it never comes to an end
                None if a.scans.is_some() => landed,
                n => n.ok_or("the number of reports was not printed")?,
            };
            if n > landed || n + unsure < landed {
                return Err(format!("printed {n} reported violations instead of {landed}"));
            }
        }
        for k in &left {
            let k = k.to_string();
            if !x.ran.stderr.contains(&k) && !x.ran.stdout.contains(&k) {
                return Err(format!("proof account {k} was left behind without a word"));
            }
        }
        // again, undisturbed
        let Some((r2, l2)) = x.again.as_ref() else { return Ok(()) };
        if r2.code != Some(0) || r2.crashed() {
            return Err(format!("the second run {}: {}", r2.label(), r2.tail()));
        }
        for d in &want {
            if !right_report(a, &x, l2, d)? {
                return Err(format!("slot {} is still not reported after a second run", d.slot));
            }
        }
        if leftovers(l2).len() > left.len() {
            return Err("the second run left a proof account behind".into());
        }
        if printed_count(r2) != Some(missing.len() as u64) {
            return Err(format!("the second run reported {:?} instead of {}", printed_count(r2), missing.len()));
        }
        Ok(())
    })();
    Verdict { class, nontrivial: Some(f), violation: bad.err() }
}

/// Is the next transaction after request `at` the closing of a proof account
/// (or is there none any more)?
fn releases_next(reqs: &[Request], at: usize) -> bool {
    if reqs[at].method != "getLatestBlockhash" {
        return false;
    }
    // in the closing phase: every proof was dealt with before
    let n = |what: &str| {
        reqs[..at].iter().filter(|r| r.method == "sendTransaction" && r.label.contains(what)).count()
    };
    reqs[at + 1..].iter().all(|r| !["init", "write", "report"].iter().any(|w| r.label.contains(w)))
        && (n("report") > 0 || n("init") > 0)
        && reqs[at + 1..].iter().all(|r| r.method != "getSlotLeaders")
}

/// The same where every scan finds one slot.
fn between_scans(reqs: &[Request], at: usize) -> bool {
    let from = reqs[..at].iter().rposition(|r| r.method == "getSlotLeaders").unwrap_or(0);
    reqs[at].method == "getLatestBlockhash"
        && reqs[from..at].iter().any(|r| r.method == "sendTransaction" && r.label.contains(" report "))
}

pub fn c19(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    let n = 5;
    for i in 0..n {
        let a0 = scenario(i);
        let x = run_attach(&a0, false);
        let mut labels: Vec<String> = x.requests.iter().map(|r| r.label.clone()).collect();
        // the same request repeated to no effect is explored once
        labels.dedup();
        let mut cases: Vec<(String, Fault)> = vec![];
        for l in &labels {
            let m = l.split(' ').next().unwrap();
            for f in faults_for(m, tier.thorough() || (i == 0 && !l.contains("write"))) {
                cases.push((l.clone(), f));
            }
        }
        if !tier.thorough() && i > 0 {
            cases.retain(|(l, f)| {
                *f != Fault::Broken && !(l.starts_with("getSignatureStatuses") && l.ends_with("#1"))
            });
        }
        let names: Vec<String> = cases.iter().map(|(l, f)| format!("{l} {f:?}")).collect();
        let _ = slot_of_proofs(&a0);
        out.push(
            Space::new(&format!("attach-faults-{i}"), move |c| {
                let mut a = scenario(i);
                let (l, f) = cases[c[0]].clone();
                a.fault = Some((l.clone(), f));
                Some(judge_fault(&a, &l))
            })
            .dim("request and fault", &names),
        );
    }
    // the same while it goes on scanning: a slot in each scan
    let watching = || Attach { scans: Some(vec![0, 1]), ..scenario(0) };
    let mut labels: Vec<String> = run_attach(&watching(), false).requests.iter().map(|r| r.label.clone()).collect();
    labels.dedup();
    let mut cases: Vec<(String, Fault)> = vec![];
    for l in &labels {
        for f in faults_for(l.split(' ').next().unwrap(), false) {
            let few = matches!(f, Fault::Error | Fault::LandsFailing) && !(l.starts_with("getSignatureStatuses") && !l.ends_with("#0"));
            if tier.thorough() || few {
                cases.push((l.clone(), f));
            }
        }
    }
    let names: Vec<String> = cases.iter().map(|(l, f)| format!("{l} {f:?}")).collect();
    out.push(
        Space::new("attach-faults-continuous", move |c| {
            let mut a = watching();
            let (l, f) = cases[c[0]].clone();
            a.fault = Some((l.clone(), f));
            Some(judge_fault(&a, &l))
        })
        .dim("request and fault", &names),
    );
    out.push(
        Space::new("attach-undisturbed", |c| Some(judge_attach(&scenario(c[0])))).range("scenario", n),
    );
    out
}

// ---------------------------------------------------------------------------
// C20

fn judge_dry(ran: &Ran, before: &Ledger, after: &Ledger, reqs: &[Request], what: &str, f: u64) -> Verdict {
    let sims: Vec<&Request> = reqs.iter().filter(|r| r.method == "simulateTransaction").collect();
    let good = sims.iter().filter(|r| matches!(r.executed, Some(Ok(())))).count();
    let failed = sims.iter().filter(|r| matches!(r.executed, Some(Err(_)))).count();
    let class = format!("{what}: {} with {} simulations, {failed} failing", ran.label(), sims.len());
    let text = format!("{}\n{}", ran.stdout, ran.stderr);
    let claimed = text.matches("Simulation succeeded").count();
    let low = text.to_lowercase();
    // what is said to have been done
    let done = match what {
        "close" => ran.stdout.matches("Closed report account").count() + ran.stdout.matches("\"reportAccount\"").count(),
        "attach" => printed_count(ran).unwrap_or(0) as usize,
        _ => 0,
    };
    let could = reqs
        .iter()
        .filter(|r| r.method == "simulateTransaction" && matches!(r.executed, Some(Ok(()))))
        .filter(|r| r.tx.as_ref().is_some_and(|t| t.ixs.iter().any(|i| i.program_id == slashing())))
        .count();
    let bad = if reqs.iter().any(|r| r.method == "sendTransaction") {
        Some("a transaction was submitted".into())
    } else if before != after {
        Some("the ledger changed".into())
    } else if ran.crashed() {
        Some(format!("the command {}: {}", ran.label(), ran.tail()))
    } else if claimed > good {
        Some(format!("{claimed} simulations are said to have succeeded, {good} did"))
    } else if done > could {
        Some(format!("{done} {what}s are said to have been simulated, {could} were"))
    } else if failed > 0 && !low.contains("fail") && !low.contains("error") {
        Some("a failing simulation was not reported".into())
    } else {
        None
    };
    Verdict { class, nontrivial: (!sims.is_empty() || reqs.iter().any(|r| r.faulted)).then_some(f), violation: bad }
}

/// What a dry run of close announces is what a real run, on the same ledger, does.
fn twin(dry: (&Ran, &[Request]), real: (&Ran, &Ledger, &Ledger, &[Request]), format: usize) -> Result<(), String> {
    let ((r, q), (r1, b1, a1, q1)) = (dry, real);
    if r.code != Some(0) {
        return Err(format!("undisturbed, the command {}: {}", r.label(), r.tail()));
    }
    let what = |q: &[Request], m: &str| {
        let mut v: Vec<_> = q.iter().filter(|r| r.method == m).map(|r| r.tx.as_ref().map(|t| (t.payer, t.ixs.clone()))).collect();
        v.sort_by_key(|i| format!("{i:?}"));
        v
    };
    let (sim, sent) = (what(q, "simulateTransaction"), what(q1, "sendTransaction"));
    if sim != sent {
        return Err(format!("the dry run simulates {} transactions, a real one sends {}, or others", sim.len(), sent.len()));
    }
    let list = |r: &Ran| -> Result<_, String> {
        let mut p = parse_close(r, format)?.list;
        p.iter_mut().for_each(|c| c.signature = None);
        p.sort();
        Ok(p)
    };
    let (said, done) = (list(r)?, list(r1)?);
    if said != done {
        return Err(format!("the dry run lists {said:?}, a real one {done:?}"));
    }
    let gone = b1.keys().filter(|k| b1[*k].owner == slashing() && !a1.contains_key(k)).count();
    if said.len() != gone {
        return Err(format!("{} listed, a real run closes {gone}", said.len()));
    }
    Ok(())
}

/// Stands for the file with the key of a fee payer.
const FEE_PAYER: &str = "@fee payer";

pub(super) fn run_close(on: &[OnChain], extra: &[(Pubkey, u64, Vec<u8>)], args: &[&str], fault: Option<(String, Fault)>, listing: Vec<Pubkey>) -> (Ran, Ledger, Ledger, Vec<Request>) {
    let mut l = base_ledger();
    for r in on {
        r.put(&mut l);
    }
    for i in 0..3 {
        sys(&mut l, pool("dest", i), 1_000_000);
    }
    for (k, n, d) in extra {
        rt::put(&mut l, *k, *n, d.clone(), slashing());
    }
    if args.contains(&FEE_PAYER) {
        sys(&mut l, payer_key(true).pubkey(), 1 << 44);
    }
    let before = l.clone();
    let b = Bench::new(Cluster::start(l, env()));
    {
        let mut st = b.cluster.state.lock().unwrap();
        st.fault = fault;
        st.listing = listing;
    }
    let key = b.scratch.key("payer", &payer_key(true));
    let args: Vec<&str> = args.iter().map(|a| if *a == FEE_PAYER { key.as_str() } else { *a }).collect();
    let r = b.run_patiently(&args);
    let st = b.cluster.state.lock().unwrap();
    (r, before, st.ledger.clone(), st.requests.clone())
}

fn dry_faults(method: &str) -> Vec<Fault> {
    match method {
        "simulateTransaction" => vec![Fault::Error, Fault::Broken, Fault::Null, Fault::SimFails, Fault::SimBare],
        "getSlotLeaders" => vec![Fault::Error, Fault::Null, Fault::Empty],
        _ => vec![Fault::Error, Fault::Null],
    }
}

pub(super) fn few(n: usize) -> Vec<OnChain> {
    (0..n).map(|i| report(i, i, i, i % 3, EPOCH - 3)).collect()
}

/// Reports whose closing fails: the destination overflows, or is unusable.
fn unclosable(i: usize) -> OnChain {
    let mut r = report(6, 1, 1, 1, EPOCH - 5);
    r.destination = match i {
        0 => system_program::id(),
        _ => solana_program::sysvar::rent::id(),
    };
    r
}

pub fn c20(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    {
        // close
        out.push(
            Space::new("dry-close", move |c| {
                let mut on = few(c[0]);
                if c[1] > 0 {
                    on.push(unclosable(c[1] - 1));
                }
                let mut args = vec!["close", "--dry-run"];
                if c[3] == 1 {
                    args = vec!["--dry-run", "close"];
                }
                if c[4] == 1 {
                    args.extend(["--fee-payer", FEE_PAYER]);
                }
                args.extend(format_args(c[2]));
                let (r, b, a, q) = run_close(&on, &[], &args, None, vec![]);
                let mut v = judge_dry(&r, &b, &a, &q, "close", fp(&c));
                if v.violation.is_none() {
                    let real: Vec<&str> = args.iter().copied().filter(|a| *a != "--dry-run").collect();
                    let (r1, b1, a1, q1) = run_close(&on, &[], &real, None, vec![]);
                    v.violation = twin((&r, &q), (&r1, &b1, &a1, &q1), c[2]).err();
                }
                Some(v)
            })
            .range("due reports", 4)
            .dim("plus one that cannot be closed", &["no", "system program", "sysvar"])
            .dim("output", &FORMATS[..])
            .dim("position of --dry-run", &["after", "before"])
            .dim("fee payer", &["default signer", "separate"]),
        );
    }
    {
        // close, with faults
        let on = few(2);
        let labels: Vec<String> =
            run_close(&on, &[], &["close", "--dry-run"], None, vec![]).3.iter().map(|r| r.label.clone()).collect();
        let mut cases = vec![];
        for l in labels {
            for f in dry_faults(l.split(' ').next().unwrap()) {
                cases.push((l.clone(), f));
            }
        }
        let names: Vec<String> = cases.iter().map(|(l, f)| format!("{l} {f:?}")).collect();
        out.push(
            Space::new("dry-close-faults", move |c| {
                let on = few(2);
                let mut args = vec!["close", "--dry-run"];
                args.extend(format_args(c[1]));
                let (r, b, a, q) = run_close(&on, &[], &args, Some(cases[c[0]].clone()), vec![]);
                Some(judge_dry(&r, &b, &a, &q, "close", fp(&c)))
            })
            .dim("request and fault", &names)
            .dim("output", &FORMATS[..]),
        );
    }
    {
        // display never sends anything either way
        out.push(
            Space::new("dry-display", move |c| {
                let on = few(c[0]);
                let mut args = vec!["display", "--dry-run"];
                args.extend(format_args(c[1]));
                let (r, b, a, q) = run_close(&on, &[], &args, None, vec![]);
                Some(judge_dry(&r, &b, &a, &q, "display", fp(&c)))
            })
            .range("reports", 3)
            .dim("output", &FORMATS[..]),
        );
    }
    {
        // attach
        let n = 5;
        out.push(
            Space::new("dry-attach", move |c| {
                let mut a = scenario(c[0]);
                a.format = c[1];
                a.dry = true;
                let x = run_attach(&a, false);
                let mut v = judge_dry(&x.ran, &x.before, &x.after, &x.requests, "attach", fp(&c));
                if v.violation.is_none() && x.requests.iter().any(|r| r.tx.as_ref().is_some_and(|t| t.payer != x.payer)) {
                    v.violation = Some("a transaction is simulated with another fee payer".into());
                }
                Some(v)
            })
            .range("scenario", n)
            .dim("output", &FORMATS[..]),
        );
        for i in tier.pick(vec![0usize], vec![0, 1, 4]) {
            let mut a = scenario(i);
            a.dry = true;
            let labels: Vec<String> =
                run_attach(&a, false).requests.iter().map(|r| r.label.clone()).collect();
            let mut cases = vec![];
            for l in labels {
                for f in dry_faults(l.split(' ').next().unwrap()) {
                    cases.push((l.clone(), f));
                }
            }
            let names: Vec<String> = cases.iter().map(|(l, f)| format!("{l} {f:?}")).collect();
            out.push(
                Space::new(&format!("dry-attach-faults-{i}"), move |c| {
                    let mut a = scenario(i);
                    a.dry = true;
                    a.format = c[1];
                    a.fault = Some(cases[c[0]].clone());
                    let x = run_attach(&a, false);
                    Some(judge_dry(&x.ran, &x.before, &x.after, &x.requests, "attach", fp(&(i, c))))
                })
                .dim("request and fault", &names)
                .dim("output", tier.pick(&FORMATS[..2], &FORMATS[..])),
            );
        }
    }
    out
}

// ---------------------------------------------------------------------------
// C21

pub fn c21(tier: Tier) -> Vec<Space> {
    let sizes: Vec<usize> =
        tier.pick(vec![0, 1, 8, 113, 114, 115, 122, 2539], vec![0, 1, 2, 8, 32, 65, 73, 112, 113, 114, 115, 118, 121, 122, 123, 500, 2539, 10_240]);
    const COMMANDS: [&str; 6] = ["display", "display -v", "display json", "close", "close -v", "close json"];
    let args_of = |i: usize| -> Vec<&'static str> {
        let mut a = vec![if i < 3 { "display" } else { "close" }];
        match i % 3 {
            1 => a.push("-v"),
            2 => a.extend(["--output", "json"]),
            _ => {}
        }
        a
    };
    let judge = move |on: &[OnChain], extra: &[(Pubkey, u64, Vec<u8>)], cmd: usize, more: &[&str], place: usize, f: u64| -> Verdict {
        let mut args = args_of(cmd);
        args.extend(more);
        let real: Vec<Pubkey> = on.iter().map(|r| r.address()).collect();
        let foreign: Vec<Pubkey> = extra.iter().map(|e| e.0).collect();
        let listing: Vec<Pubkey> = match place {
            0 => foreign.iter().chain(&real).copied().collect(),
            1 => real.iter().chain(&foreign).copied().collect(),
            _ => {
                let h = real.len() / 2;
                real[..h].iter().chain(&foreign).chain(&real[h..]).copied().collect()
            }
        };
        let (r0, _, l0, q0) = run_close(on, &[], &args, None, real.clone());
        let (r1, _, l1, q1) = run_close(on, extra, &args, None, listing);
        let class = format!("{} / {}", args[0], r1.label());
        let txs = |q: &[Request]| sent(q).into_iter().map(|t| (t.ixs.iter().map(|i| (i.program_id, i.data.clone(), i.accounts.iter().map(|m| m.pubkey).collect::<Vec<_>>())).collect::<Vec<_>>(), t.payer)).collect::<Vec<_>>();
        let bad = if r0.code != Some(0) {
            // not for this property
            return Verdict::ok(format!("{}: fails by itself", args[0]), None);
        } else if r1.crashed() || r1.code != Some(0) {
            Some(format!("the command {} because of a foreign account: {}", r1.label(), r1.tail()))
        } else if r1.stdout != r0.stdout {
            Some("the output differs from that without the foreign accounts".into())
        } else if txs(&q0) != txs(&q1) {
            Some("the transactions differ from those without the foreign accounts".into())
        } else if extra.iter().any(|(k, n, d)| l1.get(k).is_none_or(|a| a.lamports != *n || a.data != *d)) {
            Some("a foreign account changed".into())
        } else {
            let mut l1 = l1.clone();
            for (k, ..) in extra {
                l1.remove(k);
            }
            (l0 != l1).then(|| "the ledger differs from that without the foreign accounts".into())
        };
        Verdict { class, nontrivial: Some(f), violation: bad }
    };
    let foreign = |i: usize, n: usize| -> (Pubkey, u64, Vec<u8>) {
        (name(&format!("foreign {i} {n}")), 100_000_000 + n as u64, vec![0; n])
    };
    let real = |n: usize| -> Vec<OnChain> {
        (0..n).map(|i| report(i, i, i, i % 3, if i % 2 == 0 { EPOCH - 3 } else { EPOCH - 1 })).collect()
    };
    let mut out = vec![];
    {
        let sz = sizes.clone();
        let s2 = sizes.clone();
        out.push(
            Space::new("one-foreign-account", move |c| {
                let on = real(c[3]);
                Some(judge(&on, &[foreign(0, sz[c[0]])], c[1], &[], c[2], fp(&("one", c))))
            })
            .dim("bytes", &s2)
            .dim("command", &COMMANDS)
            .dim("listed", &["first", "last", "in between"])
            .dim("real reports", &[0, 1, 2, 3]),
        );
    }
    {
        let pairs: Vec<usize> = tier.pick(vec![0, 113, 114, 2539], sizes.clone());
        let p2 = pairs.clone();
        out.push(
            Space::new("two-foreign-accounts", move |c| {
                let on = real(2);
                let e = [foreign(0, pairs[c[0]]), foreign(1, pairs[c[1]])];
                Some(judge(&on, &e, c[2], &[], c[3], fp(&("two", c))))
            })
            .dim("bytes of one", &p2)
            .dim("bytes of the other", &p2)
            .dim("command", &COMMANDS)
            .dim("listed", tier.pick(&["first", "last"][..], &["first", "last", "in between"][..])),
        );
    }
    {
        // filters, including ones that only the zeroes would match
        let zero = Pubkey::new_from_array([0; 32]).to_string();
        let sz: Vec<usize> = vec![113, 114, 2539];
        let s2 = sz.clone();
        out.push(
            Space::new("filters", move |c| {
                let on = real(3);
                let k = on[0].reporter.to_string();
                let n = on[0].node.to_string();
                let more: Vec<&str> = match (c[1] < 3, c[2]) {
                    (true, 0) => vec!["--epoch", "0"],
                    (true, 1) => vec!["--reporter", &zero],
                    (true, 2) => vec![&zero],
                    (true, 3) => vec!["--reporter", &k],
                    (true, _) => vec![&n],
                    (false, 0) => vec!["--destination", &zero],
                    (false, 1) => vec!["--reporter", &zero],
                    (false, 2) => vec!["--node-pubkey", &zero],
                    (false, 3) => vec!["--reporter", &k],
                    (false, _) => vec!["--node-pubkey", &n],
                };
                Some(judge(&on, &[foreign(0, sz[c[0]])], c[1], &more, 0, fp(&("filters", c))))
            })
            .dim("bytes", &s2)
            .dim("command", &COMMANDS)
            .dim("filter", &["zero epoch/destination", "zero reporter", "zero node", "a reporter", "a node"]),
        );
    }
    {
        // a flood of them
        let ns = tier.pick(vec![130usize], vec![99, 100, 101, 260, 1030]);
        let nl = ns.clone();
        let sz: Vec<usize> = vec![0, 114, 2539];
        let s2 = sz.clone();
        out.push(
            Space::new("many-foreign-accounts", move |c| {
                let on = real(3);
                let e: Vec<_> = (0..ns[c[0]]).map(|i| foreign(i, sz[c[1]])).collect();
                Some(judge(&on, &e, c[2], &[], c[3], fp(&("many", c))))
            })
            .dim("accounts", &nl)
            .dim("bytes", &s2)
            .dim("command", &COMMANDS)
            .dim("listed", &["first", "last", "in between"]),
        );
    }
    {
        // every size up to that of the largest honest report and beyond, many at a time
        let step = 50;
        let most = tier.pick(2700, 12_000);
        out.push(
            Space::new("size-sweep", move |c| {
                let on = real(3);
                let e: Vec<_> = (0..step).map(|i| foreign(i, c[0] * step + i)).collect();
                Some(judge(&on, &e, c[1], &[], 2, fp(&("sweep", c))))
            })
            .range("fifty sizes each", most / step)
            .dim("command", tier.pick(&COMMANDS[..5], &COMMANDS[..])),
        );
    }
    {
        // as large as accounts get
        let sz: Vec<usize> = vec![10_240, 100_000, 1 << 20, 10 << 20];
        let s2 = sz.clone();
        out.push(
            Space::new("large-foreign-account", move |c| {
                let on = real(3);
                Some(judge(&on, &[foreign(0, sz[c[0]])], c[1], &[], c[2], fp(&("large", c))))
            })
            .dim("bytes", &s2)
            .dim("command", &[COMMANDS[0], COMMANDS[1], COMMANDS[2], COMMANDS[3]])
            .dim("listed", &["first", "last", "in between"][..tier.pick(1, 3)]),
        );
    }
    {
        // closing a foreign account by name
        let sz: Vec<usize> = vec![0, 113, 114, 115, 2539];
        let s2 = sz.clone();
        out.push(
            Space::new("by-name", move |c| {
                let on = real(2);
                let e = foreign(0, sz[c[0]]);
                let k = e.0.to_string();
                Some(judge(&on, &[e], 3 + c[1], &[&k], c[2], fp(&("name", c))))
            })
            .dim("bytes", &s2)
            .dim("output", &["display", "verbose", "json"])
            .dim("listed", &["first", "last", "in between"]),
        );
    }
    out
}

