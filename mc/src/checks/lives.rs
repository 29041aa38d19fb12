//! C26: explicit-state exploration of the commands themselves.
//!
//! A state is the cluster (all accounts), the clock, what the client left in
//! its own directories, and how many commands were cut short. In every
//! reachable state every command of a finite alphabet is run for real - to its
//! end, and cut short after each of the transactions it sends - breadth first,
//! with exact deduplication, and compared with a reference model.

use super::client::*;
use crate::{
    cli::{self, Bench, Ran},
    cluster::{Cluster, Request},
    ed::Key,
    explore::{fp, threads, Report as Out, Tier, Verdict, Violation},
    rt::{lamports_of, total, Env, Ledger},
    shreds::{Kind, Shred},
    world::*,
    Meta,
};
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use std::{
    collections::{BTreeMap, HashSet},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

pub const META: Meta = Meta {
    level: "model_checking",
    rule: "breadth-first search over all histories of commands: in every reachable state (cluster + clock + the client's own files + commands cut short so far) every command of the alphabet is run with the real client to its end, and killed after each transaction it gets executed; every run is compared with a reference model of the cluster and of what is to be printed; non-trivial = distinct states; the state key leaves out proof accounts that a killed command left behind (their rent is counted to its payer)",
    assumptions: ASSUME,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Act {
    Wait,
    /// By whom; cut short after so many transactions.
    Attach(usize, Option<usize>),
    /// All, or only what pays to the second operator's destination.
    Close(usize, Option<usize>),
    Display,
    DryAttach,
    DryClose,
}

struct Config {
    name: &'static str,
    times: Vec<u64>,
    dups: Vec<Dup>,
    /// When each is in the ledger first.
    since: Vec<usize>,
    cuts: usize,
    /// Whose attach may be cut short.
    cut_by: usize,
    formats: bool,
}

#[derive(Clone)]
struct Node {
    ledger: Ledger,
    t: usize,
    cuts: usize,
    /// Ever reported.
    ever: u8,
    /// Who paid for the proof accounts left behind.
    orphans: BTreeMap<Pubkey, Pubkey>,
    files: Arc<BTreeMap<PathBuf, Vec<u8>>>,
}

fn operator(who: usize) -> (Pubkey, Pubkey, Pubkey) {
    match who {
        0 => (Bench::payer(), Bench::payer(), Bench::payer()),
        _ => (Key::new("fee payer").pubkey(), name("reporter Y"), name("destination Y")),
    }
}

fn tree(d: &Path, out: &mut BTreeMap<PathBuf, Vec<u8>>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            tree(&p, out);
        } else {
            out.insert(p.clone(), std::fs::read(&p).unwrap_or_default());
        }
    }
}

impl Config {
    fn env(&self, t: usize) -> Env {
        Env::at(self.times[t], SPE)
    }
    fn epoch(&self, t: usize) -> u64 {
        self.times[t] / SPE
    }
    fn start(&self) -> Node {
        let mut ledger = Ledger::new();
        for who in 0..2 {
            sys(&mut ledger, operator(who).0, 1 << 45);
        }
        Node { ledger, t: 0, cuts: 0, ever: 0, orphans: BTreeMap::new(), files: Arc::default() }
    }
    fn key(&self, n: &Node) -> (u64, u64) {
        let mut l = n.ledger.clone();
        for (k, payer) in &n.orphans {
            if let Some(a) = l.remove(k) {
                let have = lamports_of(&l, payer);
                sys(&mut l, *payer, have + a.lamports);
            }
        }
        let own: Vec<_> = n.files.iter().filter(|(p, _)| !p.starts_with("ledger")).collect();
        let all: Vec<_> = l.iter().map(|(k, a)| (k.to_bytes(), a.lamports, &a.data, a.owner.to_bytes())).collect();
        let k = (&all, n.t, n.cuts, n.ever, &own);
        (fp(&(1u8, &k)), fp(&(2u8, &k)))
    }
    fn address(&self, v: usize) -> Pubkey {
        let s = self.dups[v].slot;
        report_address(&leader(s).pubkey(), s, 1)
    }
    fn record(&self, v: usize, who: usize, t: usize) -> Vec<u8> {
        let d = &self.dups[v];
        let z = Shred { bytes: vec![], root: [0; 32], sig: [0; 64] };
        let mut r = Report::of(leader(d.slot).pubkey(), d.slot, &z, &z);
        (_, r.reporter, r.destination) = operator(who);
        stored(&self.env(t), &r, &d.a, &d.b)
    }
    /// What is reported on the cluster: index, by whom, in which epoch.
    fn open(&self, l: &Ledger) -> Result<Vec<(usize, usize, u64)>, String> {
        let mut out = vec![];
        for v in 0..self.dups.len() {
            let Some(a) = l.get(&self.address(v)) else { continue };
            if a.owner != slashing() {
                continue;
            }
            let found = (0..2)
                .flat_map(|w| (0..self.times.len()).map(move |t| (w, t)))
                .find(|(w, t)| self.record(v, *w, *t) == a.data);
            let (w, t) = found.ok_or(format!("what is recorded for slot {} is not what was reported", self.dups[v].slot))?;
            out.push((v, w, self.epoch(t)));
        }
        Ok(out)
    }
    fn acts(&self, n: &Node) -> Vec<Act> {
        let mut a = vec![
            Act::Attach(0, None),
            Act::Attach(1, None),
            Act::Close(0, None),
            Act::Close(1, None),
            Act::Display,
            Act::DryAttach,
            Act::DryClose,
        ];
        if n.t + 1 < self.times.len() {
            a.push(Act::Wait);
        }
        a
    }

    fn line(&self, b: &Bench, ledger: &str, act: Act) -> Vec<String> {
        let mut v = vec!["-C".to_string(), b.scratch.config(&b.cluster.url, &b.scratch.key("default", &b.default))];
        let format = |v: &mut Vec<String>| {
            if self.formats {
                v.extend(["--output", "json"].map(str::to_string));
            }
        };
        match act {
            Act::Wait => {}
            Act::Attach(who, _) => {
                if who == 1 {
                    v.extend(["--fee-payer".into(), b.scratch.key("payer", &Key::new("fee payer"))]);
                }
                v.extend(["attach".into(), "--ledger".into(), ledger.to_string()]);
                if who == 1 {
                    let (_, r, d) = operator(1);
                    v.extend(["--reporter".into(), r.to_string(), "--destination".into(), d.to_string()]);
                }
            }
            Act::DryAttach => v.extend(["attach", "--ledger", ledger, "--dry-run"].map(str::to_string)),
            Act::Close(whose, _) => {
                v.push("close".into());
                if whose == 1 {
                    v.extend(["--destination".into(), operator(1).2.to_string()]);
                }
                format(&mut v);
            }
            Act::DryClose => v.extend(["close", "--dry-run"].map(str::to_string)),
            Act::Display => {
                v.push("display".into());
                format(&mut v);
            }
        }
        v
    }

    /// Runs it; and how many transactions were executed.
    fn run(&self, n: &Node, act: Act) -> (Node, Ran, Vec<Request>, bool) {
        let b = Bench::new(Cluster::start(n.ledger.clone(), self.env(n.t)));
        {
            let mut st = b.cluster.state.lock().unwrap();
            for d in &self.dups {
                for s in d.slot..d.slot + 4 {
                    st.leaders.entry(s).or_insert(leader(s).pubkey());
                }
            }
            if let Act::Attach(_, k) | Act::Close(_, k) = act {
                st.cut = k;
            }
        }
        let known = self.dups.iter().zip(&self.since).filter(|(_, s)| **s <= n.t);
        let ledger = b.scratch.ledger(&known.map(|(d, _)| (d.slot, d.a.clone(), d.b.clone())).collect::<Vec<_>>());
        let line = self.line(&b, &ledger, act);
        let mut given = BTreeMap::new();
        tree(&b.scratch.dir, &mut given);
        for (p, c) in n.files.iter() {
            let p = b.scratch.dir.join(p);
            let _ = std::fs::create_dir_all(p.parent().unwrap());
            let _ = std::fs::write(p, c);
        }
        let mut dead = |_: &dyn Fn() -> String| b.cluster.state.lock().unwrap().severed;
        let ran = cli::run_limited(&b.scratch, &line, Duration::from_secs(90), Some(&mut dead));
        let mut files = BTreeMap::new();
        tree(&b.scratch.dir, &mut files);
        let files = files
            .into_iter()
            .filter(|(p, c)| given.get(p) != Some(c) && (!given.contains_key(p) || !p.starts_with(b.scratch.dir.join("ledger"))))
            .map(|(p, c)| (p.strip_prefix(&b.scratch.dir).unwrap().to_path_buf(), c))
            .collect();
        let st = b.cluster.state.lock().unwrap();
        let mut to = n.clone();
        to.ledger = st.ledger.clone();
        to.files = Arc::new(files);
        (to, ran, st.requests.clone(), st.severed)
    }

    /// One step, judged. `None`: it leads nowhere new. The number of
    /// transactions executed, too.
    fn step(&self, n: &Node, act: Act) -> (Option<Node>, String, Result<(), String>, usize) {
        if act == Act::Wait {
            let mut to = n.clone();
            to.t += 1;
            return (Some(to), "time passes".into(), Ok(()), 0);
        }
        let (mut to, ran, reqs, cut) = self.run(n, act);
        let executed = reqs.iter().filter(|r| r.method == "sendTransaction" && r.executed == Some(Ok(()))).count();
        let what = match act {
            Act::Attach(w, k) => format!("attach by {}{}", ["X", "Y"][w], if k.is_some() { ", killed" } else { "" }),
            Act::Close(w, k) => format!("close{}{}", ["", " for Y"][w], if k.is_some() { ", killed" } else { "" }),
            a => format!("{a:?}"),
        };
        let before = match self.open(&n.ledger) {
            Ok(o) => o,
            Err(e) => return (None, what, Err(e), executed),
        };
        let mut class = format!("{what}: {executed} transactions");
        let res = self.judge(n, &mut to, act, &ran, &reqs, cut, &before, &mut class);
        let go = res.is_ok().then_some(to);
        (go, class, res, executed)
    }

    #[allow(clippy::too_many_arguments)]
    fn judge(
        &self,
        n: &Node,
        to: &mut Node,
        act: Act,
        ran: &Ran,
        reqs: &[Request],
        cut: bool,
        before: &[(usize, usize, u64)],
        class: &mut String,
    ) -> Result<(), String> {
        let now = self.epoch(n.t);
        let killed = matches!(act, Act::Attach(_, Some(_)) | Act::Close(_, Some(_)));
        if killed {
            to.cuts += 1;
            if !cut {
                return Err("as many transactions as before were not executed any more".into());
            }
        } else {
            if ran.code != Some(0) || ran.crashed() {
                return Err(format!("the command {}: {}", ran.label(), ran.tail()));
            }
        }
        let mut exp = n.ledger.clone();
        // what earlier commands had to leave behind may be tidied up
        let mut orphans = n.orphans.clone();
        orphans.retain(|k, payer| {
            if to.ledger.contains_key(k) {
                return true;
            }
            let a = exp.remove(k).unwrap();
            let have = lamports_of(&exp, payer);
            sys(&mut exp, *payer, have + a.lamports);
            false
        });
        for k in leftovers(&to.ledger) {
            if orphans.contains_key(&k) {
                continue;
            }
            let (Act::Attach(who, _), true) = (act, killed) else {
                return Err(format!("proof account {k} was left behind"));
            };
            let payer = operator(who).0;
            let a = to.ledger[&k].clone();
            let have = lamports_of(&exp, &payer).checked_sub(a.lamports).ok_or("lamports out of nowhere")?;
            sys(&mut exp, payer, have);
            exp.insert(k, a);
            orphans.insert(k, payer);
        }
        to.orphans = orphans;
        let mut done = vec![];
        match act {
            Act::Attach(who, _) => {
                let (payer, ..) = operator(who);
                for (v, d) in self.dups.iter().enumerate() {
                    let due = self.since[v] <= n.t
                        && !before.iter().any(|b| b.0 == v)
                        && self.times[n.t].checked_sub(d.slot).is_some_and(|e| e <= SPE);
                    if !due {
                        continue;
                    }
                    let k = self.address(v);
                    let data = self.record(v, who, n.t);
                    match to.ledger.get(&k) {
                        Some(a) if a.owner == slashing() => {
                            if a.data != data {
                                return Err(format!("slot {}: the report recorded is not the one asked for", d.slot));
                            }
                            if n.ever >> v & 1 == 1 {
                                return Err(format!("slot {} is reported for the second time", d.slot));
                            }
                            let have = lamports_of(&exp, &payer).checked_sub(a.lamports).ok_or("lamports out of nowhere")?;
                            sys(&mut exp, payer, have);
                            exp.insert(k, a.clone());
                            to.ever |= 1 << v;
                            done.push(v);
                        }
                        _ if killed => {}
                        _ => return Err(format!("slot {} was not reported: {}", d.slot, ran.tail())),
                    }
                }
                if !killed && printed_count(ran) != Some(done.len() as u64) {
                    return Err(format!("printed {:?} reported violations instead of {}", printed_count(ran), done.len()));
                }
            }
            Act::Close(whose, k) => {
                let due: Vec<_> = before.iter().filter(|(_, by, e)| e + 3 <= now && (whose == 0 || *by == 1)).collect();
                let early = before.iter().filter(|(_, _, e)| e + 3 > now).count() as u64;
                for (v, by, _) in due {
                    let addr = self.address(*v);
                    if to.ledger.contains_key(&addr) && killed {
                        continue;
                    }
                    let a = exp.remove(&addr).unwrap();
                    let dest = operator(*by).2;
                    let have = lamports_of(&exp, &dest);
                    sys(&mut exp, dest, have + a.lamports);
                    done.push(*v);
                }
                if killed {
                    if Some(done.len()) != k {
                        return Err(format!("{} reports closed by {k:?} transactions", done.len()));
                    }
                } else {
                    let out = parse_close(ran, if self.formats { 2 } else { 0 })?;
                    let mut got: Vec<String> = out.list.iter().map(|c| c.account.clone()).collect();
                    let mut want: Vec<String> = done.iter().map(|v| self.address(*v).to_string()).collect();
                    got.sort();
                    want.sort();
                    if (&got, out.early) != (&want, early) {
                        return Err(format!("printed {got:?} as closed, {} as too soon, instead of {want:?}, {early}", out.early));
                    }
                }
            }
            Act::Display => {
                let (list, _, count) = parse_display(ran, if self.formats { 2 } else { 0 })?;
                let mut got: Vec<_> = list.iter().map(|s| (s.slot, s.account.clone(), s.reporter.clone(), s.destination.clone(), s.epoch)).collect();
                got.sort();
                let mut want: Vec<_> = before
                    .iter()
                    .map(|(v, by, e)| {
                        let (_, r, d) = operator(*by);
                        (self.dups[*v].slot, self.address(*v).to_string(), r.to_string(), d.to_string(), *e)
                    })
                    .collect();
                want.sort();
                if got != want || count.is_some_and(|c| c != want.len() as u64) {
                    return Err(format!("shown {got:?} instead of {want:?}"));
                }
                class.push_str(&format!(", {} shown", want.len()));
            }
            Act::DryAttach | Act::DryClose | Act::Wait => {}
        }
        if !matches!(act, Act::Attach(..) | Act::Close(..)) && !sent(reqs).is_empty() {
            return Err(format!("{} transactions sent", sent(reqs).len()));
        }
        if to.ledger != exp {
            let who: Vec<String> = exp
                .keys()
                .chain(to.ledger.keys())
                .filter(|k| exp.get(k) != to.ledger.get(k))
                .map(|k| k.to_string())
                .collect::<std::collections::BTreeSet<_>>()
                .into_iter()
                .collect();
            return Err(format!("unexpected changes to {who:?}"));
        }
        if total(&to.ledger) != total(&self.start().ledger) {
            return Err("lamports were gained or lost".into());
        }
        Ok(())
    }
}

fn configs(tier: Tier) -> Vec<Config> {
    let base = 100 * SPE;
    // what the ledger holds; a time is given by its slot
    let make = |slots: &[u64], times: &[u64], name, cuts, cut_by, formats| Config {
        name,
        times: times.to_vec(),
        dups: slots
            .iter()
            .enumerate()
            .map(|(i, s)| dup(*s, i % 3, [(Kind::Data, Kind::Data), (Kind::Code, Kind::Code), (Kind::Data, Kind::Code)][i % 3]))
            .collect(),
        since: slots.iter().map(|s| times.iter().position(|t| t >= s).unwrap()).collect(),
        cuts,
        cut_by,
        formats,
    };
    let later = |e: u64| base + e * SPE;
    let mut v = vec![make(
        &[base + 900, later(1) + 400],
        &[base + 1000, later(1) + 500, later(2) + 300, later(3), later(4), later(5) + 10],
        "two violations, an epoch apart",
        tier.pick(1, 2),
        tier.pick(1, 2),
        false,
    )];
    if tier.thorough() {
        v.push(make(
            &[base + 900, base + 904, later(1) + 400],
            &[base + 1000, later(1) + 900, later(1) + 901, later(1) + 904, later(2) + 400, later(2) + 401, later(3) - 1, later(3), later(4), later(5)],
            "three violations, around the end of their epoch",
            0,
            0,
            true,
        ));
        v.push(make(
            &[base + 900, base + 901],
            &[base + 1000, later(1) + 900, later(3), later(4)],
            "two violations at once, two commands cut short",
            2,
            2,
            false,
        ));
    }
    v
}

fn search(c: &Config, idx: usize, out: &mut Out) {
    let t0 = Instant::now();
    let start = c.start();
    let mut visited = HashSet::from([c.key(&start)]);
    let mut parents: Vec<(usize, Act)> = vec![(0, Act::Wait)];
    let mut frontier = vec![(0usize, start)];
    let (mut transitions, mut depth, mut complete) = (0u64, 0u64, true);
    let mut bad: Vec<(usize, Act, String)> = vec![];
    let mut outcomes: BTreeMap<String, (u64, usize, Act)> = BTreeMap::new();
    while !frontier.is_empty() && bad.is_empty() {
        depth += 1;
        let mut jobs: Vec<(usize, Act)> =
            frontier.iter().enumerate().flat_map(|(i, (_, n))| c.acts(n).into_iter().map(move |a| (i, a))).collect();
        let mut found = vec![];
        for pass in 0..2 {
            let next = AtomicUsize::new(0);
            let results = Mutex::new(vec![]);
            std::thread::scope(|sc| {
                for _ in 0..threads() {
                    sc.spawn(|| loop {
                        let j = next.fetch_add(1, Ordering::Relaxed);
                        let Some((i, a)) = jobs.get(j).copied() else { break };
                        let mut r = c.step(&frontier[i].1, a);
                        if r.2.is_err() && t0.elapsed().as_secs() < 100 {
                            // once more, before anything is claimed
                            r = c.step(&frontier[i].1, a);
                        }
                        results.lock().unwrap().push((j, i, a, r));
                    });
                }
            });
            let mut results = results.into_inner().unwrap();
            results.sort_by_key(|r| r.0);
            let mut cuts = vec![];
            for (_, i, a, (to, class, res, executed)) in results {
                transitions += 1;
                let e = outcomes.entry(class).or_insert((0, frontier[i].0, a));
                e.0 += 1;
                if let Err(w) = res {
                    bad.push((frontier[i].0, a, w));
                }
                if let Some(to) = to {
                    found.push((frontier[i].0, a, to));
                }
                if frontier[i].1.cuts < c.cuts {
                    match a {
                        Act::Attach(w, None) if w < c.cut_by => cuts.extend((1..=executed).map(|k| (i, Act::Attach(w, Some(k))))),
                        Act::Close(0, None) => cuts.extend((1..=executed).map(|k| (i, Act::Close(0, Some(k))))),
                        _ => {}
                    }
                }
            }
            if pass == 0 {
                jobs = cuts;
            }
        }
        frontier = vec![];
        for (from, a, to) in found {
            if visited.insert(c.key(&to)) {
                parents.push((from, a));
                frontier.push((parents.len() - 1, to));
            }
        }
        if t0.elapsed().as_secs() > 3000 || visited.len() > 20_000 {
            complete = frontier.is_empty();
            break;
        }
    }
    let trace = |mut i: usize, last: Act| {
        let mut t = vec![last];
        while i != 0 {
            t.push(parents[i].1);
            i = parents[i].0;
        }
        t.reverse();
        t
    };
    let steps = |t: &[Act]| t.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>();
    for (from, a, w) in bad.iter().take(5) {
        let t = steps(&trace(*from, *a));
        out.violations.push(Violation {
            key: format!("lives {}: {}", c.name, t.join("; ")),
            what: w.clone(),
            replay: json!({"history": idx, "config": c.name, "trace": t}),
        });
    }
    out.evaluations += transitions;
    out.distinct.extend(visited.iter().map(|k| k.0));
    for (k, n) in [("states", visited.len() as u64), ("transitions", transitions), ("traces_validated_against_impl", transitions - bad.len() as u64)] {
        let x = out.extra.get(k).and_then(|v| v.as_u64()).unwrap_or(0);
        out.extra.insert(k.into(), json!(x + n));
    }
    for (k, (n, from, a)) in &outcomes {
        *out.outcomes.entry(k.clone()).or_insert(0) += n;
        if out.samples.len() < 16 {
            out.samples.push(json!({"history": c.name, "outcome": k, "trace": steps(&trace(*from, *a))}));
        }
    }
    out.spaces.insert(
        format!("lives {}", c.name),
        json!({
            "violations": c.dups.len(), "clock_slots": c.times, "commands_cut_short_at_most": c.cuts,
            "states": visited.len(), "transitions": transitions, "depth": depth,
            "complete": complete && bad.is_empty(), "wall_s": t0.elapsed().as_secs_f64(),
        }),
    );
}

pub fn run(tier: Tier, out: &mut Out) {
    for (i, c) in configs(tier).iter().enumerate() {
        if out.violations.is_empty() {
            search(c, i, out);
        }
    }
}

fn parse(s: &str) -> Option<Act> {
    let cut = || -> Option<(usize, Option<usize>)> {
        let a = s.split_once('(')?.1.strip_suffix(')')?;
        let (w, k) = a.split_once(", ")?;
        let k = k.strip_prefix("Some(").and_then(|k| k.strip_suffix(')')).map(|k| k.parse().unwrap());
        Some((w.parse().ok()?, k))
    };
    Some(match s {
        "Wait" => Act::Wait,
        "Display" => Act::Display,
        "DryAttach" => Act::DryAttach,
        "DryClose" => Act::DryClose,
        _ if s.starts_with("Attach") => cut().map(|(w, k)| Act::Attach(w, k))?,
        _ => cut().map(|(w, k)| Act::Close(w, k))?,
    })
}

pub fn replay(tier: Tier, case: &Value) -> Option<Verdict> {
    let all = configs(tier);
    let c = all.get(case["history"].as_u64()? as usize)?;
    let mut n = c.start();
    for a in case["trace"].as_array()? {
        let a = parse(a.as_str()?)?;
        let (to, class, res, _) = c.step(&n, a);
        println!("  {a:?}: {class}");
        if let Err(w) = res {
            return Some(Verdict { class, nontrivial: None, violation: Some(w) });
        }
        n = to?;
    }
    Some(Verdict::ok("as the model says", None))
}
