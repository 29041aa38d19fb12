//! C22, C23: whom the client speaks for and to, and what it reads.

use super::client::*;
use crate::{
    cli::{self, Ran, Scratch},
    cluster::{Cluster, Fault, Request},
    ed::Key,
    explore::{fp, Space, Tier, Verdict},
    rt::{lamports_of, Ledger},
    shreds::Kind,
    world::*,
    Meta,
};
use solana_program::pubkey::Pubkey;
use std::path::Path;

pub const META_C22: Meta = Meta {
    level: "exploration",
    rule: "every command is run for every listed combination of configuration, cluster, fee payer and keypair options, with two mock clusters of which only one is meant, and for every listed contradictory or unparsable command line and unreadable ledger; judged: which cluster was asked, who signed and paid, the ledgers afterwards, and that what must fail does so before anything is submitted; non-trivial = every case; fingerprint over the case",
    assumptions: ASSUME,
};
pub const META_C23: Meta = Meta {
    level: "fault_enumeration",
    rule: "attach is run on a ledger whose database lock is held, for every listed combination of contents and options and with every request failing in turn; judged: the ledger's files afterwards are those of before, bit by bit, but for the reader's own directory, and the command works in spite of the lock; non-trivial = every case; fingerprint over the case",
    assumptions: ASSUME,
};

const COMMANDS: [&str; 3] = ["display", "close", "attach"];
const CONFIGS: [&str; 5] = ["given", "default location", "none", "given, missing", "given, malformed"];
const PAYERS: [&str; 6] =
    ["default", "file", "standard input", "malformed file", "missing file", "public key without signer"];
const KEYS: [&str; 3] = ["present", "missing", "malformed"];
const PLACES: [&str; 3] = ["before the command", "after the command", "after the command, short names"];

fn fee_payer() -> Key {
    Key::new("fee payer")
}

struct Sides {
    a: Cluster,
    b: Cluster,
    before: [Ledger; 2],
}

/// Two clusters: the one configured, and the one `--url` names.
fn sides(slot: u64) -> Sides {
    let ledger = |i: usize| {
        let mut l = base_ledger();
        sys(&mut l, fee_payer().pubkey(), 1 << 44);
        sys(&mut l, pool("dest", i), 1_000_000);
        report(i, i, i, i, 50).put(&mut l);
        l
    };
    let before = [ledger(0), ledger(1)];
    let start = |i: usize| {
        let c = Cluster::start(before[i].clone(), env());
        c.state.lock().unwrap().leaders.insert(slot, leader(slot).pubkey());
        c
    };
    Sides { a: start(0), b: start(1), before }
}

fn judge(c: &[usize]) -> Option<Verdict> {
    let (command, config, url, payer, key, place, roles) = (c[0], c[1], c[2], c[3], c[4], c[5], c[6]);
    if roles == 1 && command != 2 {
        return None;
    }
    if config == 2 && url == 0 {
        // the public mainnet cluster it would be
        return None;
    }
    let d = dup(NOW - 3000, 1, (Kind::Data, Kind::Data));
    let w = sides(d.slot);
    let s = Scratch::new();
    let default = Key::new("default signer");

    // files
    let default_file = match config {
        2 => {
            let p = s.dir.join(".config/solana/id.json");
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            p
        }
        _ => s.dir.join("default.json"),
    };
    match key {
        0 => std::fs::write(&default_file, format!("{:?}", default.to_bytes())).unwrap(),
        1 => {}
        _ => std::fs::write(&default_file, format!("{:?}", &default.to_bytes()[..63])).unwrap(),
    }
    let path = s.config(&w.a.url, &default_file.display().to_string());
    let mut globals: Vec<String> = vec![];
    let short = place == 2;
    let mut option = |long: &str, sh: &str, v: String| {
        globals.push(if short { sh.into() } else { long.into() });
        globals.push(v);
    };
    match config {
        0 => option("--config", "-C", path.clone()),
        1 => {
            let p = s.dir.join(".config/solana/cli");
            std::fs::create_dir_all(&p).unwrap();
            std::fs::rename(&path, p.join("config.yml")).unwrap();
        }
        2 => std::fs::remove_file(&path).unwrap(),
        3 => option("--config", "-C", format!("{path}.missing")),
        _ => {
            std::fs::write(&path, "json_rpc_url: [\n").unwrap();
            option("--config", "-C", path.clone());
        }
    }
    if url == 1 {
        option("--url", "-u", w.b.url.clone());
    }
    let payer_file = s.key("payer", &fee_payer());
    match payer {
        0 => {}
        1 => option("--fee-payer", "--fee-payer", payer_file),
        2 => {
            std::fs::rename(&payer_file, s.dir.join("stdin")).unwrap();
            option("--fee-payer", "--fee-payer", "-".into());
        }
        3 => {
            std::fs::write(&payer_file, format!("{:?}", &fee_payer().to_bytes()[..63])).unwrap();
            option("--fee-payer", "--fee-payer", payer_file);
        }
        4 => option("--fee-payer", "--fee-payer", format!("{payer_file}.missing")),
        _ => option("--fee-payer", "--fee-payer", fee_payer().pubkey().to_string()),
    }
    let mut args: Vec<String> = vec![COMMANDS[command].into()];
    let (reporter, destination) = (name("chosen reporter"), name("chosen destination"));
    if command == 2 {
        let l = s.ledger(&[(d.slot, d.a.clone(), d.b.clone())]);
        args.extend([if short { "-l" } else { "--ledger" }.into(), l]);
        if roles == 1 {
            args.extend(["--reporter".into(), reporter.to_string(), "--destination".into(), destination.to_string()]);
        }
    }
    if place == 0 {
        globals.extend(args);
        args = globals;
    } else {
        args.extend(globals);
    }

    let r = cli::run(&s, &args);
    let (meant, other, i) = if url == 1 { (&w.b, &w.a, 1) } else { (&w.a, &w.b, 0) };
    let (meant, other) = (meant.state.lock().unwrap(), other.state.lock().unwrap());
    let paying = match payer {
        0 => (key == 0).then(|| default.pubkey()),
        1 | 2 => Some(fee_payer().pubkey()),
        _ => None,
    };
    let refuse = config > 2
        || (command > 0 && paying.is_none())
        || (command == 2 && roles == 0 && key > 0);
    // no key is needed to look
    let either = command == 0 && payer > 2 && config <= 2;
    let class = format!("{} {}", COMMANDS[command], r.label());
    let verdict = (|| -> Result<(), String> {
        if r.crashed() {
            return Err(format!("the command {}: {}", r.label(), r.tail()));
        }
        if !other.requests.is_empty() || other.ledger != w.before[1 - i] {
            return Err("the other cluster was asked".into());
        }
        if refuse || (either && r.code != Some(0)) {
            if r.code == Some(0) {
                return Err("the command succeeds with something else than what was asked for".into());
            }
            if !sent(&meant.requests).is_empty() || meant.ledger != w.before[i] {
                return Err("the command fails, but not before it submitted something".into());
            }
            if r.stderr.trim().is_empty() {
                return Err("the command fails without a word".into());
            }
            return Ok(());
        }
        if r.code != Some(0) {
            return Err(format!("the command {}: {}", r.label(), r.tail()));
        }
        let on = report(i, i, i, i, 50);
        let not = report(1 - i, 1 - i, 1 - i, 1 - i, 50);
        let txs = sent(&meant.requests);
        let mut want = w.before[i].clone();
        match command {
            0 => {
                if !txs.is_empty() {
                    return Err("display submitted a transaction".into());
                }
            }
            1 => {
                want.remove(&on.address());
                let n = lamports_of(&want, &on.destination) + on.lamports;
                sys(&mut want, on.destination, n);
            }
            _ => {
                let a = Attach::default();
                let me = default.pubkey();
                let (rp, ds) = if roles == 1 { (reporter, destination) } else { (me, me) };
                let (k, data) = stored_for(&a, &d, rp, ds);
                let Some(acc) = meant.ledger.get(&k) else {
                    return Err(format!("nothing was reported: {}", r.tail()));
                };
                if acc.data != data {
                    return Err("the report is not the one asked for".into());
                }
                let p = paying.unwrap();
                let left = lamports_of(&want, &p).saturating_sub(acc.lamports);
                want.insert(k, acc.clone());
                sys(&mut want, p, left);
            }
        }
        if meant.ledger != want {
            return Err("somebody else than the fee payer was debited, or something else was changed".into());
        }
        if command < 2 && (!r.stdout.contains(&on.address().to_string()) || r.stdout.contains(&not.address().to_string())) {
            return Err("the report printed is not that of the cluster meant".into());
        }
        for t in &txs {
            if Some(t.payer) != paying {
                return Err(format!("{} pays for a transaction instead of {paying:?}", t.payer));
            }
            let known = |k: &Pubkey| *k == t.payer || !w.before[i].contains_key(k);
            let signers = t.ixs.iter().flat_map(|x| &x.accounts).filter(|m| m.is_signer);
            if let Some(m) = signers.into_iter().find(|m| !known(&m.pubkey)) {
                return Err(format!("{} signed as well", m.pubkey));
            }
            if !t.signed {
                return Err("a transaction was not signed".into());
            }
        }
        if command > 0 && txs.is_empty() {
            return Err("nothing was submitted".into());
        }
        Ok(())
    })();
    Some(Verdict { class, nontrivial: Some(fp(c)), violation: verdict.err() })
}

/// Clusters that cannot be reached from here, by how they are named, and the
/// host that is looked up for them.
const NAMED: [(&str, &str); 12] = [
    ("localhost", "localhost"),
    ("l", "localhost"),
    ("devnet", "api.devnet.solana.com"),
    ("d", "api.devnet.solana.com"),
    ("testnet", "api.testnet.solana.com"),
    ("t", "api.testnet.solana.com"),
    ("mainnet-beta", "api.mainnet-beta.solana.com"),
    ("m", "api.mainnet-beta.solana.com"),
    ("https://rpc.example.org", "rpc.example.org"),
    ("http://rpc.example.org:8899/path?key=value", "rpc.example.org"),
    // no option, no configuration
    ("", "api.mainnet-beta.solana.com"),
    // no option, in the configuration
    ("configured", "configured.example.org"),
];

/// The other cluster, which answers, is not asked instead.
fn judge_named(c: &[usize]) -> Option<Verdict> {
    let (command, (named, host), how) = (c[0], NAMED[c[1]], c[2]);
    let option = !["", "configured"].contains(&named);
    // the option is given before or after the command; the configuration is
    // at its default location or given
    if !option && how % 2 == 1 || named.is_empty() && how >= 2 {
        return None;
    }
    let d = dup(NOW - 3000, 1, (Kind::Data, Kind::Data));
    let w = sides(d.slot);
    let s = Scratch::new();
    std::fs::write(s.dir.join("names"), "").unwrap();
    let k = s.key("default", &Key::new("default signer"));
    let mut args: Vec<String> = vec![];
    if !named.is_empty() {
        let url = if named == "configured" { "https://configured.example.org:8899".to_string() } else { w.a.url.clone() };
        let path = s.config(&url, &k);
        if how < 2 {
            let p = s.dir.join(".config/solana/cli");
            std::fs::create_dir_all(&p).unwrap();
            std::fs::rename(&path, p.join("config.yml")).unwrap();
        } else {
            args.extend(["--config".into(), path]);
        }
    } else {
        let p = s.dir.join(".config/solana/id.json");
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::rename(&k, p).unwrap();
    }
    let url = option.then(|| ["-u".to_string(), named.to_string()]).into_iter().flatten();
    if how % 2 == 0 {
        args.extend(url.clone());
    }
    args.push(COMMANDS[command].into());
    if command == 2 {
        args.extend(["--ledger".into(), s.ledger(&[(d.slot, d.a.clone(), d.b.clone())])]);
    }
    if how % 2 == 1 {
        args.extend(url);
    }
    let r = cli::run(&s, &args);
    let names = std::fs::read_to_string(s.dir.join("names")).unwrap();
    let mut seen: Vec<&str> = names.lines().collect();
    seen.dedup();
    let asked = w.a.state.lock().unwrap().requests.len() + w.b.state.lock().unwrap().requests.len();
    let bad = if r.crashed() {
        Some(format!("the command {}: {}", r.label(), r.tail()))
    } else if asked > 0 {
        Some("another cluster was asked".into())
    } else if seen != [host] {
        Some(format!("{seen:?} is asked for, not {host}"))
    } else if r.code == Some(0) || r.stderr.trim().is_empty() {
        Some("no failure, though the cluster cannot be reached".into())
    } else {
        None
    };
    Some(Verdict { class: format!("{} of a cluster out of reach {}", COMMANDS[command], r.label()), nontrivial: Some(fp(c)), violation: bad })
}

/// Command lines that ask for what cannot be had.
fn nonsense() -> Vec<Vec<&'static str>> {
    let mut v: Vec<Vec<&'static str>> = vec![
        vec![],
        vec!["report"],
        vec!["--continuous"],
        vec!["display", "--no-such-option"],
        vec!["attach"],
        vec!["attach", "--start-slot", "5"],
        vec!["attach", "--ledger"],
        vec!["attach", "-l", "LEDGER", "--continuous", "--end-slot", "5"],
        vec!["attach", "-l", "LEDGER", "--end-slot", "5", "--continuous", "--scan-interval", "1"],
        vec!["attach", "-l", "LEDGER", "--scan-interval", "1"],
    ];
    for c in [vec!["display"], vec!["close"], vec!["attach", "-l", "LEDGER"]] {
        let with = |x: &[&'static str]| c.iter().chain(x).copied().collect::<Vec<_>>();
        v.push(with(&["--verbose", "--output", "json"]));
        v.push(with(&["--output", "json-compact", "-v"]));
        v.push(with(&["--output", "xml"]));
        v.push(with(&["--output", ""]));
        v.push(with(&["--url", "nowhere"]));
        v.push(with(&["--url", ""]));
        v.push(with(&["--fee-payer", ""]));
        v.push(with(&["--config"]));
    }
    const KEY: &str = "4vJ9JU1bJJE96FWSJKvHsmmFADCg4gpZQff4P3bkLKi";
    let bad_keys = [
        "",
        "x",
        // not in the alphabet; too short; too long
        "4vJ9JU1bJJE96FWSJKvHsmmFADCg4gpZQff4P3bkLK0",
        "4vJ9JU1bJJE96FWSJKvHsmmFADCg4gpZQff4P3b",
        "4vJ9JU1bJJE96FWSJKvHsmmFADCg4gpZQff4P3bkLKi4vJ9",
    ];
    for k in bad_keys {
        for o in ["--reporter", "--destination"] {
            v.push(vec!["attach", "-l", "LEDGER", o, k]);
            v.push(vec!["close", o, k]);
        }
        v.push(vec!["display", "--reporter", k]);
        v.push(vec!["display", k]);
        v.push(vec!["close", k]);
        v.push(vec!["close", "--node-pubkey", k]);
    }
    v.push(vec!["display", KEY, KEY]);
    v.push(vec!["close", KEY, KEY]);
    for n in ["", "x", "-1", "1.5", "1e3", "0x10", " 7", "18446744073709551616"] {
        v.push(vec!["display", "--epoch", n]);
        v.push(vec!["attach", "-l", "LEDGER", "--start-slot", n]);
        v.push(vec!["attach", "-l", "LEDGER", "--end-slot", n]);
        v.push(vec!["attach", "-l", "LEDGER", "--continuous", "--scan-interval", n]);
    }
    v
}

struct Tried {
    r: Ran,
    requests: Vec<Request>,
    changed: bool,
}

/// Run with a duplicate slot in the ledger and a closable report on the
/// cluster; `prepare` may spoil the ledger and returns its path.
fn attempt(args: &[String], prepare: impl Fn(&Scratch, String) -> String) -> Tried {
    let d = dup(NOW - 3000, 1, (Kind::Data, Kind::Data));
    let w = sides(d.slot);
    let s = Scratch::new();
    let k = s.key("default", &Key::new("default signer"));
    let c = s.config(&w.a.url, &k);
    let l = prepare(&s, s.ledger(&[(d.slot, d.a.clone(), d.b.clone())]));
    let mut v = vec!["-C".to_string(), c];
    v.extend(args.iter().map(|a| if a == "LEDGER" { l.clone() } else { a.clone() }));
    let r = cli::run(&s, &v);
    let st = w.a.state.lock().unwrap();
    Tried { r, requests: st.requests.clone(), changed: st.ledger != w.before[0] }
}

const LEDGERS: [&str; 9] = [
    "sound",
    "missing",
    "a file",
    "empty",
    "no CURRENT",
    "empty CURRENT",
    "no MANIFEST",
    "cut MANIFEST",
    "empty path",
];

fn spoil(s: &Scratch, l: String, how: usize) -> String {
    let db = Path::new(&l).join("rocksdb");
    match how {
        0 => {}
        1 => return format!("{l}-missing"),
        2 => return s.dir.join("config.yml").display().to_string(),
        3 => {
            let d = s.dir.join("empty");
            std::fs::create_dir_all(&d).unwrap();
            return d.display().to_string();
        }
        4 => std::fs::remove_file(db.join("CURRENT")).unwrap(),
        5 => std::fs::write(db.join("CURRENT"), "").unwrap(),
        6 => std::fs::remove_file(db.join("MANIFEST-000005")).unwrap(),
        7 => {
            let m = std::fs::read(db.join("MANIFEST-000005")).unwrap();
            std::fs::write(db.join("MANIFEST-000005"), &m[..m.len() / 2]).unwrap();
        }
        _ => return String::new(),
    }
    l
}

pub fn c22(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    out.push(
        Space::new("options", judge)
            .dim("command", &COMMANDS)
            .dim("configuration", &CONFIGS)
            .dim("--url", &["no", "yes"])
            .dim("fee payer", &PAYERS)
            .dim("default key", tier.pick(&KEYS[..2], &KEYS[..]))
            .dim("options", tier.pick(&PLACES[..2], &PLACES[..]))
            .dim("reporter and destination", &["default", "given"]),
    );
    out.push(
        Space::new("named-clusters", judge_named)
            .dim("command", &COMMANDS)
            .dim("named", &NAMED.map(|n| n.0))
            .dim("option and configuration", &["before, default", "after, default", "before, given", "after, given"]),
    );
    let lines = nonsense();
    let names: Vec<String> = lines.iter().map(|l| l.join(" ")).collect();
    out.push(
        Space::new("nonsense", move |c| {
            let args: Vec<String> = lines[c[0]].iter().map(|s| s.to_string()).collect();
            let t = attempt(&args, |_, l| l);
            let bad = if t.r.crashed() {
                Some(format!("the command {}: {}", t.r.label(), t.r.tail()))
            } else if t.r.code == Some(0) {
                Some("the command line is accepted".into())
            } else if !t.requests.is_empty() || t.changed {
                Some("the cluster was asked before the command line was refused".into())
            } else if t.r.stderr.trim().is_empty() {
                Some("the command line is refused without a word".into())
            } else {
                None
            };
            Some(Verdict { class: format!("exit {:?}", t.r.code), nontrivial: Some(fp(c)), violation: bad })
        })
        .dim("command line", &names),
    );
    out.push(
        Space::new("unreadable-ledgers", |c| {
            let mut args: Vec<String> = vec!["attach".into(), "--ledger".into(), "LEDGER".into()];
            args.extend(format_args(c[1]).iter().map(|s| s.to_string()));
            match c[2] {
                1 => args.push("--dry-run".into()),
                2 if c[0] > 0 => args.extend(["--continuous", "--scan-interval", "1"].map(str::to_string)),
                2 => return None,
                _ => {}
            }
            let t = attempt(&args, |s, l| spoil(s, l, c[0]));
            let submitted = t.requests.iter().filter(|r| r.method == "sendTransaction").count();
            let bad = if t.r.crashed() {
                Some(format!("the command {}: {}", t.r.label(), t.r.tail()))
            } else if c[0] == 0 {
                (t.r.code != Some(0) || (submitted == 0) != (c[2] == 1) || t.changed != (c[2] == 0))
                    .then(|| format!("a sound ledger is not reported: {}", t.r.tail()))
            } else if t.r.code == Some(0) || printed_count(&t.r).is_some() {
                Some("the command succeeds without a ledger".into())
            } else if submitted > 0 || t.changed {
                Some("a transaction was submitted without a ledger".into())
            } else if t.r.stderr.trim().is_empty() {
                Some("the command fails without a word".into())
            } else {
                None
            };
            Some(Verdict { class: t.r.label(), nontrivial: Some(fp(c)), violation: bad })
        })
        .dim("ledger", &LEDGERS)
        .dim("output", tier.pick(&FORMATS[..3], &FORMATS[..]))
        .dim("mode", &["once", "dry run", "continuous"]),
    );
    out
}

// ---------------------------------------------------------------------------
// C23

fn judge_files(a: &Attach, faulty: bool) -> Verdict {
    let x = run_attach(a, false);
    let class = x.ran.label();
    let bad = if let Some(d) = &x.disturbed {
        Some(format!("the ledger was changed: {d}"))
    } else if x.ran.crashed() || (x.ran.code != Some(0) && !faulty) {
        Some(format!("the command {} on a ledger in use: {}", x.ran.label(), x.ran.tail()))
    } else if !faulty && !a.dry {
        let missing = expected(a).into_iter().find(|d| right_report(a, &x, &x.after, d) != Ok(true));
        missing.map(|d| format!("slot {} of a ledger in use was not reported", d.slot))
    } else {
        None
    };
    Verdict { class, nontrivial: Some(fp(&format!("{a:?}"))), violation: bad }
}

const CONTENTS: [&str; 4] = ["absent", "duplicate", "reported", "not a violation"];

pub fn c23(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    let s = three(tier);
    out.push(
        Space::new("ledger-in-use", move |c| {
            let mut dups = vec![];
            for (i, slot) in s.iter().enumerate() {
                let mut d = dup(*slot, i, (Kind::Data, Kind::Code));
                match c[i] {
                    0 => continue,
                    1 => {}
                    2 => d.reported = true,
                    _ => {
                        d.b = d.a.clone();
                        d.valid = false;
                    }
                }
                dups.push(d);
            }
            let n = dups.len();
            let mut a = Attach { dups, ..Attach::default() };
            match c[3] {
                0 => {}
                1 => a.dry = true,
                2 => (a.start, a.end) = (Some(s[1]), Some(s[1])),
                // growing while it is read
                _ if n > 0 => a.scans = Some((1..=n).collect()),
                _ => return None,
            }
            Some(judge_files(&a, false))
        })
        .dim("slot 1", &CONTENTS)
        .dim("slot 2", &CONTENTS)
        .dim("slot 3", &CONTENTS[..tier.pick(2, 4)])
        .dim("mode", &["once", "dry run", "one slot", "continuous"]),
    );
    for i in 0..tier.pick(1, 5) {
        let x = run_attach(&scenario(i), false);
        let mut labels: Vec<String> = x.requests.iter().map(|r| r.label.clone()).collect();
        labels.dedup();
        let mut cases: Vec<(String, Fault)> = vec![];
        for l in &labels {
            let m = l.split(' ').next().unwrap();
            cases.extend(faults_for(m, false).into_iter().map(|f| (l.clone(), f)));
        }
        if !tier.thorough() {
            cases.retain(|(l, f)| *f == Fault::Error && !l.contains("write") && !l.starts_with("getSignatureStatuses"));
        }
        let names: Vec<String> = cases.iter().map(|(l, f)| format!("{l} {f:?}")).collect();
        out.push(
            Space::new(&format!("ledger-in-use-faults-{i}"), move |c| {
                let mut a = scenario(i);
                a.fault = Some(cases[c[0]].clone());
                Some(judge_files(&a, true))
            })
            .dim("request and fault", &names),
        );
    }
    out
}

