mod alloc;
mod checks;
mod cli;
mod cluster;
mod ed;
mod explore;
mod ledgerdb;
mod rt;
mod shreds;
mod spec;
mod traces;
mod world;

use {
    explore::{Report, Tier},
    serde_json::{json, Map, Value},
    std::{path::PathBuf, process::exit, time::Instant},
};

#[global_allocator]
static ALLOC: alloc::Bump = alloc::Bump;

/// The real standard output; descriptor 1 is muted while programs run, because
/// off chain their log goes there.
static OUT: std::sync::OnceLock<std::sync::Mutex<std::fs::File>> = std::sync::OnceLock::new();

pub fn say(line: &str) {
    use std::io::Write;
    match OUT.get() {
        Some(f) => {
            let _ = writeln!(f.lock().unwrap(), "{line}");
        }
        None => println!("{line}"),
    }
}

fn mute_stdout() {
    use std::os::fd::{AsRawFd, FromRawFd};
    extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    unsafe {
        let keep = dup(1);
        assert!(keep >= 0);
        OUT.set(std::sync::Mutex::new(std::fs::File::from_raw_fd(keep))).unwrap();
        dup2(null.as_raw_fd(), 1);
    }
}

/// How a check's coverage is described in its evidence file.
pub struct Meta {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

fn known(dir: &str, id: &str) -> Vec<String> {
    // lines: "known: property=<id> key=<exact key of the failing case> | <what>"
    let Ok(t) = std::fs::read_to_string(format!("{dir}/known_findings.txt")) else {
        return vec![];
    };
    t.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={id} key=")))
        .map(|l| l.split(" | ").next().unwrap_or("").trim().to_string())
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    rt::init();
    if args.len() < 2 {
        eprintln!("usage: mc <property> [--tier quick|thorough] | mc replay <file>");
        exit(2);
    }
    if args[1] == "replay" {
        exit(do_replay(&args[2]));
    }
    mute_stdout();
    let id = args[1].clone();
    let tier = match args.iter().position(|a| a == "--tier").map(|i| args[i + 1].as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    let mut rep = Report::default();
    let bank = PathBuf::from(&verif).join("mc/target/conformance");
    if bank.exists() {
        traces::collect(tier.pick(25, 60));
    }
    let Some(meta) = checks::run(&id, tier, &mut rep) else {
        eprintln!("unknown property {id}");
        exit(2);
    };
    let wall = t0.elapsed().as_secs_f64();
    let known = known(&verif, &id);
    let (old, new): (Vec<_>, Vec<_>) =
        rep.violations.iter().cloned().partition(|v| known.contains(&v.key));
    let mut cov = Map::new();
    cov.insert("evaluations".into(), json!(rep.evaluations));
    cov.insert("distinct_nontrivial".into(), json!(rep.distinct.len()));
    cov.insert("rule".into(), json!(meta.rule));
    cov.insert("samples".into(), Value::Array(rep.samples.clone()));
    cov.insert("exhaustive".into(), json!(new.is_empty()));
    cov.insert("spaces".into(), Value::Object(rep.spaces.clone()));
    cov.insert("outcomes".into(), json!(rep.outcomes));
    if alloc::peak() > 0 {
        cov.insert("most_heap_used_by_the_program".into(), json!(alloc::peak()));
    }
    for (k, v) in &rep.extra {
        cov.insert(k.clone(), v.clone());
    }
    // The same transactions on a real bank.
    let conformance = traces::replay_on(&bank, &PathBuf::from(&verif).join("mc/target"), tier.pick(500, 6000));
    if let Some(c) = &conformance {
        cov.insert("traces_validated_against_impl".into(), json!(c.matched));
        cov.insert("conformance".into(), c.json());
    }
    let ev = json!({
        "property": id,
        "tier": if tier.thorough() { "thorough" } else { "quick" },
        "seed": seed,
        "level": meta.level,
        "coverage": cov,
        "assumptions": meta.assumptions,
        "wall_s": wall,
        "violations": new.len(),
    });
    let dir = PathBuf::from(&verif).join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    say(&format!(
        "{id}: {} cases, {} distinct non-trivial, {} outcomes, {:.1}s",
        rep.evaluations,
        rep.distinct.len(),
        rep.outcomes.len(),
        wall
    ));
    for (k, n) in &rep.outcomes {
        say(&format!("  {n:>9}  {k}"));
    }
    for v in &old {
        say(&format!("KNOWN-FINDING: property={id} {} ({})", v.key, v.what));
    }
    if let Some(v) = new.first() {
        let dir = PathBuf::from(&verif).join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{id}.json"));
        let r = json!({
            "property": id, "tier": if tier.thorough() { "thorough" } else { "quick" },
            "what": v.what, "key": v.key, "case": v.replay,
            "how": format!("cd /verif && ./check.sh replay {}", path.display()),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        for v in new.iter().take(5) {
            say(&format!("  violated: {} -- {}", v.key, v.what));
        }
        say(&format!("VIOLATION property={id} replay={}", path.display()));
        exit(1);
    }
    if let Some(c) = &conformance {
        say(&format!("  replayed on a real bank: {} transactions, {} differ", c.replayed, c.differ.len()));
        for d in c.differ.iter().take(5) {
            eprintln!("  the runtime stand-in disagrees with the bank: {d}");
        }
        if tier.thorough() && (!c.differ.is_empty() || c.died) {
            eprintln!("no verdict: the runtime stand-in is not faithful here");
            exit(2);
        }
    }
    if rep.evaluations == 0 || rep.distinct.is_empty() {
        eprintln!("vacuous exploration");
        exit(2);
    }
}

fn do_replay(path: &str) -> i32 {
    let Some(v) = std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok())
    else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let id = v["property"].as_str().unwrap_or("").to_string();
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    rt::capture_logs(true);
    match checks::replay(&id, tier, &v["case"]) {
        Some(r) => {
            for l in rt::take_logs() {
                println!("  {l}");
            }
            println!("case: {}", v["key"]);
            println!("outcome: {}", r.class);
            match r.violation {
                Some(w) => {
                    println!("reproduced: {w}");
                    1
                }
                None => {
                    println!("not reproduced: the property holds on this case");
                    0
                }
            }
        }
        None => {
            eprintln!("no such case");
            2
        }
    }
}
