//! C24: a command is not alone on the cluster.

use super::client::*;
use crate::{
    cli::{self, Bench, Ran, Scratch},
    cluster::{Action, Cluster, Request, State},
    ed::Key,
    explore::{fp, Space, Tier, Verdict},
    rt::{self, lamports_of, total, Ledger},
    shreds::{Kind, Shred},
    world::*,
    Meta,
};
use solana_program::pubkey::Pubkey;
use solana_system_interface::program as system_program;
use std::collections::BTreeMap;

pub const META: Meta = Meta {
    level: "exploration",
    rule: "the real attach and close commands are run while others act on the same cluster: at every request of the run (before it is answered) every listed action of somebody else, and every order of the requests of two commands that can notice each other; judged: every report and every lamport on the cluster afterwards, and what each command says it did; non-trivial = runs in which the action took place or both commands had something to do; fingerprint over the case",
    assumptions: ASSUME,
};

/// What somebody else does while a command runs.
#[derive(Clone, Debug)]
pub(super) enum Event {
    /// The violation of that slot (index) gets reported, or that report closed.
    Done(usize),
    /// Lamports are sent to the address of that report.
    Deposit(usize, u64),
    /// The next slot.
    Slot,
    /// The next epoch.
    Epoch,
    /// Lamports are sent to the proof accounts there are.
    Tip,
    /// An unrelated report and a zero-filled account appear.
    Foreign,
    /// The destination of that report spends all it has.
    Spend(usize),
}

const RIVAL_FUNDS: u64 = 31_000_000;

fn mint(st: &mut State, k: Pubkey, n: u64) {
    let mut a = st.ledger.get(&k).map_or(rt::Account { lamports: 0, data: vec![], owner: system_program::id() }, |a| (**a).clone());
    a.lamports += n;
    rt::put(&mut st.ledger, k, a.lamports, a.data, a.owner);
    st.minted += n as i128;
}

fn foreign() -> OnChain {
    report(7, 6, 6, 6, EPOCH)
}

fn common(e: Event) -> Action {
    Box::new(move |st| match e {
        Event::Slot => st.env.clock.slot += 1,
        Event::Epoch => {
            st.env.clock.epoch += 1;
            st.env.clock.leader_schedule_epoch += 1;
        }
        Event::Tip => {
            let open: Vec<Pubkey> = st.ledger.iter().filter(|(_, a)| a.owner == spl_record::id()).map(|(k, _)| *k).collect();
            for k in open {
                mint(st, k, 5);
            }
        }
        Event::Foreign => {
            let f = foreign();
            if st.ledger.contains_key(&f.address()) {
                return;
            }
            f.put(&mut st.ledger);
            rt::put(&mut st.ledger, name("zeroes"), 9_000_000, vec![0; 500], slashing());
            st.minted += f.lamports as i128 + 9_000_000;
        }
        _ => unreachable!(),
    })
}

fn address_of(d: &Dup) -> Pubkey {
    report_address(&leader(d.slot).pubkey(), d.slot, 1)
}

/// What is stored for `d` when reported in `epoch`.
fn stored_in(d: &Dup, reporter: Pubkey, destination: Pubkey, epoch: u64) -> Vec<u8> {
    let z = Shred { bytes: vec![], root: [0; 32], sig: [0; 64] };
    let mut r = Report::of(leader(d.slot).pubkey(), d.slot, &z, &z);
    r.reporter = reporter;
    r.destination = destination;
    stored(&attach_env().with_epoch(epoch), &r, &d.a, &d.b)
}

fn rivals(d: &Dup) -> Vec<u8> {
    stored_in(d, name("rival reporter"), name("rival destination"), EPOCH)
}

impl Event {
    pub(super) fn on_attach(&self, a: &Attach) -> Action {
        let addr = |i: usize| address_of(&a.dups[i]);
        match *self {
            Event::Done(i) => {
                let (k, data) = (addr(i), rivals(&a.dups[i]));
                Box::new(move |st| {
                    if st.ledger.get(&k).is_some_and(|a| a.owner == slashing()) {
                        return;
                    }
                    mint(st, k, RIVAL_FUNDS);
                    let n = lamports_of(&st.ledger, &k);
                    rt::put(&mut st.ledger, k, n, data, slashing());
                })
            }
            Event::Deposit(i, n) => {
                let k = addr(i);
                Box::new(move |st| mint(st, k, n))
            }
            Event::Spend(_) => unreachable!(),
            _ => common(self.clone()),
        }
    }

    fn on_close(&self, on: &[OnChain]) -> Action {
        match *self {
            Event::Done(i) => {
                let (k, d) = (on[i].address(), on[i].destination);
                Box::new(move |st| {
                    if !st.ledger.get(&k).is_some_and(|a| a.owner == slashing()) {
                        return;
                    }
                    let n = lamports_of(&st.ledger, &k);
                    st.ledger.remove(&k);
                    mint(st, d, n);
                    st.minted -= n as i128;
                })
            }
            Event::Deposit(i, n) => {
                let k = on[i].address();
                Box::new(move |st| mint(st, k, n))
            }
            Event::Spend(i) => {
                let d = on[i].destination;
                Box::new(move |st| {
                    st.minted -= lamports_of(&st.ledger, &d) as i128;
                    st.ledger.remove(&d);
                })
            }
            _ => common(self.clone()),
        }
    }
}

/// Slots reported, and accounts closed, by client `who`.
fn done_by(reqs: &[Request], who: usize) -> (Vec<u64>, Vec<(Pubkey, String)>) {
    let (mut slots, mut closed) = (vec![], vec![]);
    for r in reqs.iter().filter(|r| r.who == who && r.method == "sendTransaction" && matches!(r.executed, Some(Ok(())))) {
        let Some(tx) = &r.tx else { continue };
        for ix in tx.ixs.iter().filter(|i| i.program_id == slashing()) {
            match ix.data.first() {
                Some(1) => slots.extend(ix.data.get(9..17).map(|b| u64::from_le_bytes(b.try_into().unwrap()))),
                Some(0) => closed.extend(ix.accounts.first().map(|m| (m.pubkey, tx.signature.clone()))),
                _ => {}
            }
        }
    }
    (slots, closed)
}

fn well(r: &Ran) -> Result<(), String> {
    if r.code != Some(0) || r.crashed() {
        return Err(format!("the command {}: {}", r.label(), r.tail()));
    }
    Ok(())
}

fn conserved(before: &Ledger, after: &Ledger, minted: i128, known: &[Pubkey]) -> Result<(), String> {
    if total(after) as i128 != total(before) as i128 + minted {
        return Err("lamports were lost or made".into());
    }
    for k in before.keys().chain(after.keys()) {
        if !known.contains(k) && before.get(k) != after.get(k) {
            return Err(format!("{k} changed"));
        }
    }
    Ok(())
}

/// Most that recording one violation may cost.
fn price() -> u64 {
    minimum(&attach_env(), HEADER + 8 + 2 * 1232)
}

// ---------------------------------------------------------------------------
// one command, and somebody else

fn attach_scene(i: usize) -> Attach {
    let s = [NOW - SPE, NOW - 2999, NOW - 2000];
    let mut a = Attach::default();
    a.dups = s[..[2, 3, 2][i]].iter().map(|s| dup(*s, 1, (Kind::Data, Kind::Data))).collect();
    match i {
        1 => {
            a.dups[1].reported = true;
            a.separate_payer = true;
            a.reporter = Some(name("chosen reporter"));
            a.destination = Some(name("chosen destination"));
            a.format = 1;
        }
        2 => {
            a.dups[0].b = a.dups[0].a.clone();
            a.dups[0].valid = false;
            a.dups[1].prefunded = 7_000_000;
            a.format = 2;
        }
        _ => {}
    }
    a
}

fn judge_attached(a: &Attach) -> Verdict {
    let x = run_attach(a, false);
    let (mine, _) = done_by(&x.requests, 0);
    let class = format!("attach {} and reports {}", x.ran.label(), mine.len());
    let happened = a.events.iter().any(|(n, _)| *n < x.requests.len());
    let bad = (|| -> Result<(), String> {
        well(&x.ran)?;
        let is = |f: &dyn Fn(&Event) -> bool| a.events.iter().any(|(_, e)| f(e));
        let expired = is(&|e| matches!(e, Event::Slot));
        let turns = a.events.iter().filter(|(_, e)| matches!(e, Event::Epoch)).count() as u64;
        let mut known = vec![x.payer, foreign().address(), name("zeroes")];
        let mut spent = 0;
        for (i, d) in a.dups.iter().enumerate() {
            let k = address_of(d);
            known.push(k);
            let now = x.after.get(&k);
            let given: u64 = a
                .events
                .iter()
                .filter(|(n, _)| *n < x.requests.len())
                .map(|(_, e)| match e {
                    Event::Deposit(j, n) if *j == i => *n,
                    _ => 0,
                })
                .sum();
            let n = mine.iter().filter(|s| **s == d.slot).count();
            if n > 1 {
                return Err(format!("slot {} was reported {n} times", d.slot));
            }
            let data = now.filter(|a| a.owner == slashing()).map(|a| a.data.clone());
            let lamports = now.map_or(0, |a| a.lamports);
            if n == 1 {
                let ok = (EPOCH..=EPOCH + turns).any(|e| data.as_ref() == Some(&stored_in(d, x.reporter, x.destination, e)));
                if !ok {
                    return Err(format!("slot {}: the report recorded is not the one asked for, or was altered", d.slot));
                }
                if d.reported || lamports < d.prefunded + given {
                    return Err(format!("slot {}: reported again, or lamports taken", d.slot));
                }
                spent += price();
                continue;
            }
            let others = is(&|e| matches!(e, Event::Done(j) if *j == i));
            if d.reported {
                let b = &x.before[&k];
                if data.as_ref() != Some(&b.data) || lamports != b.lamports + given {
                    return Err(format!("the earlier report of slot {} changed", d.slot));
                }
            } else if others && data.is_some() {
                if data != Some(rivals(d)) {
                    return Err(format!("the other's report of slot {} was altered", d.slot));
                }
                if lamports != RIVAL_FUNDS + d.prefunded + given {
                    return Err(format!("lamports were spent on the other's report of slot {}", d.slot));
                }
            } else {
                if d.valid && !(expired && d.slot == NOW - SPE) {
                    return Err(format!("slot {} was not reported: {}", d.slot, x.ran.tail()));
                }
                if data.is_some() || lamports != d.prefunded + given {
                    return Err(format!("slot {}: something is at the report's address", d.slot));
                }
            }
        }
        let left = leftovers(&x.after);
        if !left.is_empty() {
            return Err(format!("{} proof accounts left behind", left.len()));
        }
        conserved(&x.before, &x.after, x.minted, &known)?;
        if lamports_of(&x.before, &x.payer) > lamports_of(&x.after, &x.payer) + spent {
            return Err("the fee payer paid for more than its own reports".into());
        }
        if printed_count(&x.ran) != Some(mine.len() as u64) {
            return Err(format!("printed {:?} reported violations instead of {}", printed_count(&x.ran), mine.len()));
        }
        Ok(())
    })();
    Verdict { class, nontrivial: happened.then(|| fp(&format!("{a:?}"))), violation: bad.err() }
}

fn close_scene() -> Vec<OnChain> {
    let mut on: Vec<OnChain> = [EPOCH - 3, EPOCH - 9, EPOCH - 2, EPOCH - 3]
        .into_iter()
        .enumerate()
        .map(|(i, e)| report(i, i % 2, i % 2, [0, 1, 1, 0][i], e))
        .collect();
    // two share a destination, one has none that exists
    on[1].destination = name("nobody yet");
    on
}

fn close_ledger(on: &[OnChain]) -> Ledger {
    let mut l = base_ledger();
    for r in on {
        r.put(&mut l);
    }
    for i in 0..3 {
        sys(&mut l, pool("dest", i), 1_000_000);
    }
    l
}

/// What client `who` says it closed is what it closed.
fn says(on: &[OnChain], r: &Ran, format: usize, closed: &[(Pubkey, String)], given: &dyn Fn(usize) -> u64, early: (u64, u64)) -> Result<(), String> {
    let out = parse_close(r, format)?;
    let mut listed: Vec<String> = out.list.iter().map(|c| c.account.clone()).collect();
    let mut did: Vec<String> = closed.iter().map(|c| c.0.to_string()).collect();
    listed.sort();
    did.sort();
    if listed != did {
        return Err(format!("lists {listed:?} as closed, but closed {did:?}"));
    }
    for c in &out.list {
        let Some((i, w)) = on.iter().enumerate().find(|(_, w)| w.address().to_string() == c.account) else {
            return Err(format!("{} is no report", c.account));
        };
        let sig = closed.iter().find(|x| x.0 == w.address()).map(|x| x.1.clone());
        if c.node != w.node.to_string()
            || c.reporter != w.reporter.to_string()
            || c.destination != w.destination.to_string()
            || c.signature != sig
            || c.lamports < w.lamports
            || c.lamports > w.lamports + given(i)
        {
            return Err(format!("{c:?} is not what is stored"));
        }
    }
    if out.early < early.0 || out.early > early.1 {
        return Err(format!("{} early reports printed", out.early));
    }
    Ok(())
}

fn judge_closed(events: &[(usize, Event)], format: usize) -> Verdict {
    let on = close_scene();
    let l = close_ledger(&on);
    let before = l.clone();
    let b = Bench::new(Cluster::start(l, env()));
    b.cluster.state.lock().unwrap().script = events.iter().map(|(n, e)| (*n, e.on_close(&on))).collect();
    let args = close_args(&CloseFilter::default(), format);
    let r = b.run(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    let st = b.cluster.state.lock().unwrap();
    let (_, closed) = done_by(&st.requests, 0);
    let class = format!("close {} and closes {}", r.label(), closed.len());
    let happened = events.iter().any(|(n, _)| *n < st.requests.len());
    let bad = (|| -> Result<(), String> {
        well(&r)?;
        let is = |f: &dyn Fn(&Event) -> bool| events.iter().any(|(_, e)| f(e));
        let turns = events.iter().filter(|(_, e)| matches!(e, Event::Epoch)).count() as u64;
        let came = is(&|e| matches!(e, Event::Foreign));
        let given = |i: usize| -> u64 {
            events
                .iter()
                .filter(|(n, _)| *n < st.requests.len())
                .map(|(_, e)| match e {
                    Event::Deposit(j, n) if *j == i => *n,
                    _ => 0,
                })
                .sum()
        };
        let mut known = vec![foreign().address(), name("zeroes")];
        let mut paid: BTreeMap<Pubkey, u64> = BTreeMap::new();
        for (i, w) in on.iter().enumerate() {
            let k = w.address();
            known.extend([k, w.destination]);
            let there = st.ledger.get(&k).filter(|a| a.owner == slashing());
            let others = is(&|e| matches!(e, Event::Done(j) if *j == i));
            let n = closed.iter().filter(|c| c.0 == k).count();
            if n > 1 {
                return Err(format!("{k} was closed {n} times"));
            }
            let due = w.epoch + 3 <= EPOCH;
            let may = due || w.epoch + 3 <= EPOCH + turns;
            if n == 1 && !may {
                return Err(format!("{k} was closed"));
            }
            match there {
                Some(_) if due => return Err(format!("{k} was not closed: {}", r.tail())),
                Some(a) => {
                    if a.data != before[&k].data || a.lamports != w.lamports + given(i) {
                        return Err(format!("{k} changed"));
                    }
                }
                None if n == 0 && !others => return Err(format!("{k} vanished")),
                None => *paid.entry(w.destination).or_default() += w.lamports,
            }
        }
        conserved(&before, &st.ledger, st.minted, &known)?;
        for (d, n) in &paid {
            let spent = events.iter().any(|(_, e)| matches!(e, Event::Spend(i) if on[*i].destination == *d));
            if !spent && lamports_of(&st.ledger, d) < lamports_of(&before, d) + n {
                return Err(format!("{d} was not paid"));
            }
        }
        let early = on.iter().filter(|w| w.epoch + 3 > EPOCH).count() as u64;
        says(&on, &r, format, &closed, &given, (if turns > 0 { 0 } else { early }, early + u64::from(came)))
    })();
    Verdict { class, nontrivial: happened.then(|| fp(&(format!("{events:?}"), format))), violation: bad.err() }
}

// ---------------------------------------------------------------------------
// two commands

struct Party {
    scratch: Scratch,
    payer: Key,
    args: Vec<String>,
}

impl Party {
    fn new(url: &str, who: usize, same: bool) -> Self {
        let scratch = Scratch::new();
        let payer = Key::new(if same { "operator" } else { ["operator A", "operator B"][who] });
        let k = scratch.key("default", &payer);
        let c = scratch.config(&format!("{url}/{who}"), &k);
        Self { scratch, payer, args: vec!["-C".into(), c] }
    }
    fn attach(mut self, dups: &[Dup]) -> Self {
        let l = self.scratch.ledger(&dups.iter().map(|d| (d.slot, d.a.clone(), d.b.clone())).collect::<Vec<_>>());
        self.args.extend(["attach".to_string(), "--ledger".into(), l]);
        self
    }
    fn close(mut self) -> Self {
        self.args.extend(close_args(&CloseFilter::default(), 0));
        self
    }
}

struct Both {
    ran: [Ran; 2],
    before: Ledger,
    after: Ledger,
    requests: Vec<Request>,
    seen: [usize; 2],
}

fn together(l: Ledger, dups: &[Dup], order: &[(usize, usize)], all: bool, party: &dyn Fn(&str, usize) -> Party) -> Both {
    let before = l.clone();
    let c = Cluster::start(l, attach_env());
    {
        let mut st = c.state.lock().unwrap();
        for d in dups {
            for s in d.slot..d.slot + 4 {
                st.leaders.entry(s).or_insert(leader(s).pubkey());
            }
        }
    }
    c.gate.set(order, all);
    let parties = [party(&c.url, 0), party(&c.url, 1)];
    let ran = std::thread::scope(|sc| {
        let gate = &c.gate;
        let h: Vec<_> = parties
            .iter()
            .enumerate()
            .map(|(i, p)| {
                sc.spawn(move || {
                    let r = cli::run(&p.scratch, &p.args);
                    gate.finish(i);
                    r
                })
            })
            .collect();
        let mut it = h.into_iter().map(|h| h.join().unwrap());
        [it.next().unwrap(), it.next().unwrap()]
    });
    let st = c.state.lock().unwrap();
    Both { ran, before, after: st.ledger.clone(), requests: st.requests.clone(), seen: c.gate.seen() }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Attach,
    Close,
}

fn judge_both(what: [What; 2], slots: usize, same: bool, order: &[(usize, usize)], all: bool) -> Verdict {
    let s = [NOW - 2999, NOW - 2998, NOW - 2000];
    let dups: Vec<Dup> = s[..slots].iter().map(|s| dup(*s, 1, (Kind::Data, Kind::Code))).collect();
    let on = close_scene();
    let mut l = close_ledger(&on);
    l.remove(&Bench::payer());
    for k in ["operator", "operator A", "operator B"] {
        sys(&mut l, Key::new(k).pubkey(), 1 << 45);
    }
    let x = together(l, &dups, order, all, &|url, who| {
        let p = Party::new(url, who, same);
        match what[who] {
            What::Attach => p.attach(&dups),
            What::Close => p.close(),
        }
    });
    let payer = |who: usize| Party::new("", who, same).payer.pubkey();
    let did = [done_by(&x.requests, 0), done_by(&x.requests, 1)];
    let class = format!(
        "{} {}, {} {}",
        x.ran[0].label(),
        if what[0] == What::Attach { did[0].0.len() } else { did[0].1.len() },
        x.ran[1].label(),
        if what[1] == What::Attach { did[1].0.len() } else { did[1].1.len() },
    );
    let f = fp(&(format!("{what:?}"), slots, same, order, all));
    let bad = (|| -> Result<(), String> {
        let mut known = vec![payer(0), payer(1)];
        let mut spent: BTreeMap<Pubkey, u64> = BTreeMap::new();
        for r in &x.ran {
            well(r)?;
        }
        let attaching = what.contains(&What::Attach);
        for d in &dups {
            let k = address_of(d);
            known.push(k);
            let by: Vec<usize> = (0..2).flat_map(|w| did[w].0.iter().filter(|s| **s == d.slot).map(move |_| w)).collect();
            if by.len() != usize::from(attaching) {
                return Err(format!("slot {} was reported by {by:?}", d.slot));
            }
            let Some(w) = by.first() else { continue };
            if x.after.get(&k).map(|a| &a.data) != Some(&stored_in(d, payer(*w), payer(*w), EPOCH)) {
                return Err(format!("slot {}: the report is not that of the one who made it", d.slot));
            }
            *spent.entry(payer(*w)).or_default() += lamports_of(&x.after, &k);
        }
        let closing = what.contains(&What::Close);
        let mut paid: BTreeMap<Pubkey, u64> = BTreeMap::new();
        for w in &on {
            let k = w.address();
            known.extend([k, w.destination]);
            let by: Vec<usize> = (0..2).flat_map(|p| did[p].1.iter().filter(|c| c.0 == k).map(move |_| p)).collect();
            let due = closing && w.epoch + 3 <= EPOCH;
            if by.len() != usize::from(due) {
                return Err(format!("{k} was closed by {by:?}"));
            }
            if due {
                *paid.entry(w.destination).or_default() += w.lamports;
            } else if x.after.get(&k) != x.before.get(&k) {
                return Err(format!("{k} changed"));
            }
        }
        for (d, n) in &paid {
            if lamports_of(&x.after, d) != lamports_of(&x.before, d) + n {
                return Err(format!("{d} was not paid"));
            }
        }
        if !leftovers(&x.after).is_empty() {
            return Err("proof accounts left behind".into());
        }
        conserved(&x.before, &x.after, 0, &known)?;
        for k in [payer(0), payer(1)] {
            let n = spent.get(&k).copied().unwrap_or(0);
            if lamports_of(&x.after, &k) + n != lamports_of(&x.before, &k) {
                return Err("somebody paid for a report of the other".into());
            }
        }
        for w in 0..2 {
            if what[w] == What::Attach {
                let n = printed_count(&x.ran[w]);
                if n != Some(did[w].0.len() as u64) {
                    return Err(format!("printed {n:?} reported violations instead of {}", did[w].0.len()));
                }
            } else {
                let early = on.iter().filter(|r| r.epoch + 3 > EPOCH).count() as u64;
                // the new reports are early, too
                let new = if attaching { slots as u64 } else { 0 };
                says(&on, &x.ran[w], 0, &did[w].1, &|_| 0, (early, early + new))?;
            }
        }
        Ok(())
    })();
    Verdict { class, nontrivial: (x.seen[0] > 0 && x.seen[1] > 0).then_some(f), violation: bad.err() }
}

/// All orders of `a` requests of one and `b` of the other.
fn merges(a: usize, b: usize) -> Vec<Vec<(usize, usize)>> {
    fn go(a: usize, b: usize, so_far: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
        if a + b == 0 {
            out.push(so_far.clone());
            return;
        }
        for (w, n) in [(0, a), (1, b)] {
            if n > 0 {
                so_far.push((w, 1));
                go(a - usize::from(w == 0), b - usize::from(w == 1), so_far, out);
                so_far.pop();
            }
        }
    }
    let mut out = vec![];
    go(a, b, &mut vec![], &mut out);
    out
}

const MUCH: usize = 1 << 20;

pub fn spaces(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    for scene in 0..3 {
        let a0 = attach_scene(scene);
        let n = run_attach(&a0, false).requests.len();
        let mut events = vec![Event::Slot, Event::Epoch, Event::Tip, Event::Foreign];
        for i in 0..a0.dups.len() {
            if !a0.dups[i].reported && a0.dups[i].valid {
                events.push(Event::Done(i));
            }
            events.extend([Event::Deposit(i, 1), Event::Deposit(i, 50_000_000)]);
        }
        if !tier.thorough() {
            // the others matter most in the first scene
            if scene > 0 {
                events.retain(|e| matches!(e, Event::Done(_) | Event::Deposit(_, 50_000_000) | Event::Tip));
            } else {
                events.retain(|e| !matches!(e, Event::Deposit(_, 1)));
            }
        }
        let ev = events.clone();
        out.push(
            Space::new(&format!("attach-among-others-{scene}"), move |c| {
                let mut a = attach_scene(scene);
                a.events = vec![(c[1], ev[c[0]].clone())];
                Some(judge_attached(&a))
            })
            .dim("what happens", &events)
            .range("before request", n),
        );
        if tier.thorough() && scene == 0 {
            // two things, at the moments that matter
            let events = vec![Event::Done(0), Event::Done(1), Event::Deposit(1, 5), Event::Epoch, Event::Tip];
            let ev = events.clone();
            out.push(
                Space::new("attach-among-others-twice", move |c| {
                    let (i, j) = (2 * c[2], 2 * c[3]);
                    if i > j || (i == j && c[0] == c[1]) {
                        return None;
                    }
                    let mut a = attach_scene(scene);
                    a.events = vec![(i, ev[c[0]].clone()), (j, ev[c[1]].clone())];
                    Some(judge_attached(&a))
                })
                .dim("what happens first", &events)
                .dim("what happens next", &events)
                .range("half the first request", n / 2)
                .range("half the second request", n / 2),
            );
        }
    }
    {
        let on = close_scene();
        let mut events = vec![Event::Slot, Event::Epoch, Event::Foreign];
        for i in 0..on.len() {
            if on[i].epoch + 3 <= EPOCH {
                events.extend([Event::Done(i), Event::Spend(i)]);
            }
            events.extend([Event::Deposit(i, 1), Event::Deposit(i, 50_000_000)]);
        }
        let ev = events.clone();
        // requests of a close: generous, what comes after the end does nothing
        let n = 20;
        out.push(
            Space::new("close-among-others", move |c| Some(judge_closed(&[(c[1], ev[c[0]].clone())], c[2])))
                .dim("what happens", &events)
                .range("before request", n)
                .dim("output", tier.pick(&FORMATS[..1], &FORMATS[..])),
        );
        if tier.thorough() {
            let ev = events.clone();
            out.push(
                Space::new("close-among-others-twice", move |c| {
                    let (i, j) = (2 * c[2], 2 * c[3]);
                    if i > j {
                        return None;
                    }
                    Some(judge_closed(&[(i, ev[c[0]].clone()), (j, ev[c[1]].clone())], 0))
                })
                .dim("what happens first", &events)
                .dim("what happens next", &events)
                .range("half the first request", n / 2)
                .range("half the second request", n / 2),
            );
        }
    }
    {
        // every order of the requests that matter
        let ms = merges(3, 3);
        let n = ms.len();
        out.push(
            Space::new("two-attach", move |c| {
                Some(judge_both([What::Attach; 2], 1, c[1] == 1, &ms[c[0]], false))
            })
            .range("order", n)
            .dim("payers", &["two", "the same"]),
        );
        let ms = merges(4, 4);
        let n = ms.len();
        out.push(
            Space::new("two-close", move |c| Some(judge_both([What::Close; 2], 0, c[1] == 1, &ms[c[0]], false)))
                .range("order", n)
                .dim("payers", &["two", "the same"]),
        );
        let ms = merges(3, 4);
        let n = ms.len();
        out.push(
            Space::new("attach-and-close", move |c| {
                Some(judge_both([What::Attach, What::Close], 1, c[1] == 1, &ms[c[0]], false))
            })
            .range("order", n)
            .dim("payers", tier.pick(&["two"][..], &["two", "the same"][..])),
        );
        // two switches between two commands with two slots
        let k = 6;
        out.push(
            Space::new("two-attach-two-slots", move |c| {
                let o = [(c[2], c[0]), (1 - c[2], c[1]), (c[2], MUCH), (1 - c[2], MUCH)];
                Some(judge_both([What::Attach; 2], 2, false, &o, false))
            })
            .range("requests of the first", k + 1)
            .range("then of the second", k + 1)
            .range("who is first", tier.pick(1, 2)),
        );
    }
    if tier.thorough() {
        let ms = merges(6, 6);
        let n = ms.len();
        out.push(
            Space::new("two-attach-two-slots-all", move |c| {
                Some(judge_both([What::Attach; 2], 2, false, &ms[c[0]], false))
            })
            .range("order", n),
        );
        // nothing left out: switching at any request
        out.push(
            Space::new("two-attach-any-request", move |c| {
                let o = [(0, c[0]), (1, c[1]), (0, MUCH), (1, MUCH)];
                Some(judge_both([What::Attach; 2], 1, false, &o, true))
            })
            .range("requests of the first", 26)
            .range("then of the second", 26),
        );
    }
    out
}
