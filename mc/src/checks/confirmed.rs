//! C25: commands rely on what the cluster has confirmed, and on nothing else.

use super::client::*;
use crate::{
    cluster::{Fault, Request, Views},
    explore::{fp, Space, Tier, Verdict},
    rt::Ledger,
    shreds::Kind,
    world::*,
    Meta,
};

pub const META: Meta = Meta {
    level: "fault_enumeration",
    rule: "the node shows different reports and epochs in the block it is working on (which is abandoned), in the confirmed and in the final ones, in every listed combination, or puts one of the transactions it is sent into a block that is confirmed late, or abandoned, in every listed way; judged: the commands do and print what they would if only the confirmed state existed, work though confirmation is late, and claim nothing of what was abandoned; non-trivial = cases where views differ or a transaction waits; fingerprint over the case",
    assumptions: &[
        "the mock cluster answers JSON-RPC as a node does; transactions are executed by the real programs under mc/src/rt.rs, free of charge",
        "the open-file limit the client asks for is pretended to be granted (cli/nofile.c)",
        "a client that waits for a transaction in an abandoned block is ended after seven queries; what it says after the time-out of the RPC library is not judged",
        "bounded sets of accounts, slots, views and options as listed",
    ],
};

/// Where a report is: in the block being worked on, confirmed, final.
const HISTORIES: [(&str, [bool; 3]); 6] = [
    ("nowhere", [false, false, false]),
    ("made, not confirmed", [true, false, false]),
    ("made, confirmed", [true, true, false]),
    ("made, final", [true, true, true]),
    ("closed, not confirmed", [false, true, true]),
    ("closed, confirmed", [false, false, true]),
];

fn history_labels(n: usize) -> Vec<String> {
    HISTORIES[..n].iter().map(|h| h.0.to_string()).collect()
}

/// The reports confirmed, and the other views.
fn split_views(all: &[OnChain], hist: &[usize]) -> (Vec<OnChain>, Views) {
    let mut v = Views::default();
    let mut on = vec![];
    for (r, h) in all.iter().zip(hist) {
        let [p, c, f] = HISTORIES[*h].1;
        let mut l = Ledger::new();
        r.put(&mut l);
        let acc = (*l[&r.address()]).clone();
        if c {
            on.push(r.clone());
        }
        if p != c {
            v.processed.push((r.address(), p.then(|| acc.clone())));
        }
        if f != c {
            v.finalized.push((r.address(), f.then_some(acc)));
        }
    }
    (on, v)
}

fn always(mut v: Verdict, f: u64) -> Verdict {
    v.nontrivial = Some(f);
    v
}

/// Is nothing said to have happened which did not?
fn judge_claims(ran: &crate::cli::Ran, what: &str, format: usize, before: &Ledger, after: &Ledger, reqs: &[Request], f: u64) -> Verdict {
    let waits = reqs.iter().filter(|r| r.method == "getSignatureStatuses").count();
    let class = format!("{what}: {}", if waits >= 7 { "waits for confirmation" } else { "ends" });
    let gone = |k: &str| before.keys().any(|x| x.to_string() == k && !after.contains_key(x));
    let bad = (|| -> Result<(), String> {
        if ran.crashed() {
            return Err(format!("the command {}: {}", ran.label(), ran.tail()));
        }
        if what == "close" {
            let closed: Vec<String> = match parse_close(ran, format) {
                Ok(o) => o.list.into_iter().map(|c| c.account).collect(),
                // ended before it could say everything
                Err(_) => ran.stdout.lines().filter_map(|l| l.trim().strip_prefix("Closed report account")).map(|k| k.trim().to_string()).collect(),
            };
            if let Some(k) = closed.iter().find(|k| !gone(k)) {
                return Err(format!("{k} is said to have been closed, which was never confirmed"));
            }
            return Ok(());
        }
        let made = after.keys().filter(|k| after[*k].owner == slashing() && !before.contains_key(k)).count() as u64;
        if let Some(n) = printed_count(ran).filter(|n| *n > made) {
            return Err(format!("{n} violations are said to have been reported, {made} confirmed reports exist"));
        }
        for l in ran.stdout.lines() {
            if let Some(k) = l.trim().strip_prefix("Report account address:") {
                if !after.keys().any(|x| x.to_string() == k.trim()) {
                    return Err(format!("report {} is shown, which was never confirmed", k.trim()));
                }
            }
        }
        let said = ran.stdout.matches("Closed proof account").count();
        let done = reqs
            .iter()
            .filter(|r| r.label.starts_with("sendTransaction release") && matches!(r.executed, Some(Ok(()))))
            .count();
        if said > done {
            return Err(format!("{said} proof accounts are said to have been closed, {done} were"));
        }
        Ok(())
    })();
    Verdict { class, nontrivial: Some(f), violation: bad.err() }
}

fn sends(reqs: &[Request]) -> Vec<String> {
    let mut v: Vec<String> = reqs.iter().filter(|r| r.method == "sendTransaction").map(|r| r.label.clone()).collect();
    v.sort();
    v
}

pub fn spaces(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    // what the views show
    let nr = tier.pick(2, 3);
    for what in ["display", "close"] {
        let mut s = Space::new(&format!("views-{what}"), move |c| {
            let all: Vec<OnChain> = (0..nr).map(|i| report(i, i, i, i, EPOCH - 3 - i as u64 % 2)).collect();
            let (on, v) = split_views(&all, &c[..nr]);
            let f = fp(&(what, &c));
            Some(always(
                match what {
                    "display" => judge_display_on(&on, &DisplayFilter::default(), c[nr], false, Some(v)),
                    _ => judge_close_on(&on, &[], &CloseFilter::default(), c[nr], env(), false, (Some(v), None)),
                },
                f,
            ))
        });
        for i in 0..nr {
            s = s.dim(&format!("report {i}"), &history_labels(6));
        }
        out.push(s.dim("output", tier.pick(&["display", "verbose"][..], &FORMATS[..])));
    }
    // the epoch
    out.push(
        Space::new("views-epoch", move |c| {
            let on: Vec<OnChain> = (0..5).filter(|i| c[0] >> i & 1 == 1).map(|i| report(i, i % 2, 0, i % 3, EPOCH - 1 - i as u64)).collect();
            let v = Views { epochs: Some([EPOCH + [0, 1][c[1] % 2], EPOCH - [0, 1][c[1] / 2]]), ..Views::default() };
            Some(always(judge_close_on(&on, &[], &CloseFilter::default(), c[2], env(), false, (Some(v), None)), fp(&c)))
        })
        .range("reports, one to five epochs old", 32)
        .dim("epoch", &["same in all views", "has begun, not confirmed", "is confirmed, not final", "has begun, its predecessor not final"])
        .dim("output", tier.pick(&FORMATS[..1], &FORMATS[..])),
    );
    // reports of the slots to report
    let nd = tier.pick(2, 3);
    let mut s = Space::new("views-attach", move |c| {
        let mut a = Attach { format: c[nd], ..Attach::default() };
        for i in 0..nd {
            let [p, conf, fin] = HISTORIES[c[i]].1;
            let mut d = dup(NOW - 3000 + i as u64, 1 + i % 2, (Kind::Data, Kind::Data));
            d.reported = conf;
            a.dups.push(d);
            a.seen.push([p, fin]);
        }
        Some(always(judge_attach(&a), fp(&("attach", &c))))
    });
    for i in 0..nd {
        s = s.dim(&format!("report of slot {i}"), &history_labels(4));
    }
    out.push(s.dim("output", tier.pick(&FORMATS[..1], &FORMATS[..])));
    // transactions confirmed late, or never
    let on = || few(3);
    let lines = sends(&run_close(&on(), &[], &["close"], None, vec![]).3);
    let late: Vec<u8> = tier.pick(vec![2], vec![0, 1, 2, 5]);
    let lost: Vec<u8> = tier.pick(vec![2, 255], vec![0, 1, 2, 5, 255]);
    let name_of = |n: &u8, w: &str| match n {
        255 => "never".to_string(),
        n => format!("{w} after {n} queries"),
    };
    {
        let (l, t) = (lines.clone(), late.clone());
        out.push(
            Space::new("late-close", move |c| {
                let f = (l[c[0]].clone(), Fault::Late(t[c[1]]));
                Some(always(
                    judge_close_on(&on(), &[], &CloseFilter::default(), c[2], env(), false, (None, Some(f))),
                    fp(&("late close", &c)),
                ))
            })
            .dim("transaction", &lines)
            .dim("confirmed", &late.iter().map(|n| name_of(n, "confirmed")).collect::<Vec<_>>())
            .dim("output", tier.pick(&FORMATS[..1], &FORMATS[..])),
        );
        let (l, t) = (lines.clone(), lost.clone());
        out.push(
            Space::new("abandoned-close", move |c| {
                let fault = (l[c[0]].clone(), Fault::Orphan(t[c[1]]));
                let mut args = vec!["close"];
                args.extend(format_args(c[2]));
                let (r, b, a, q) = run_close(&on(), &[], &args, Some(fault), vec![]);
                Some(judge_claims(&r, "close", c[2], &b, &a, &q, fp(&("abandoned close", &c))))
            })
            .dim("transaction", &lines)
            .dim("abandoned", &lost.iter().map(|n| name_of(n, "abandoned")).collect::<Vec<_>>())
            .dim("output", &FORMATS[..]),
        );
    }
    for i in tier.pick(vec![0usize], vec![0, 1, 3]) {
        let lines = sends(&run_attach(&scenario(i), false).requests);
        let (l, t) = (lines.clone(), late.clone());
        out.push(
            Space::new(&format!("late-attach-{i}"), move |c| {
                let mut a = scenario(i);
                a.fault = Some((l[c[0]].clone(), Fault::Late(t[c[1]])));
                Some(always(judge_attach(&a), fp(&("late attach", i, &c))))
            })
            .dim("transaction", &lines)
            .dim("confirmed", &late.iter().map(|n| name_of(n, "confirmed")).collect::<Vec<_>>()),
        );
        let (l, t) = (lines.clone(), lost.clone());
        out.push(
            Space::new(&format!("abandoned-attach-{i}"), move |c| {
                let mut a = scenario(i);
                a.format = c[2];
                a.fault = Some((l[c[0]].clone(), Fault::Orphan(t[c[1]])));
                let x = run_attach(&a, false);
                Some(judge_claims(&x.ran, "attach", c[2], &x.before, &x.after, &x.requests, fp(&("abandoned attach", i, &c))))
            })
            .dim("transaction", &lines)
            .dim("abandoned", &lost.iter().map(|n| name_of(n, "abandoned")).collect::<Vec<_>>())
            .dim("output", tier.pick(&FORMATS[1..3], &FORMATS[..])),
        );
    }
    out
}
