//! C05 (what is stored), C08 (statute of limitations), C10 (prefunding).

use super::common::*;
use crate::{
    ed::Key,
    explore::{fp, Space, Tier, Verdict},
    rt::{self, execute, lamports_of, total, Env},
    shreds::{Kind, Shred},
    world::{self, *},
    Meta,
};
use bytemuck::Zeroable;
use solana_program::{ed25519_program, pubkey::Pubkey, sysvar};
use solana_slashing_program::{
    duplicate_block_proof::DuplicateBlockProofData,
    state::{ProofType, ViolationReport},
};
use solana_system_interface::program as system_program;
use std::sync::Arc;

const ASSUME: &[&str] = &[
    "runtime behaviour as modelled in mc/src/rt.rs (replayed against the real bank by the conformance run)",
    "SHA-256 and ed25519 are collision free / unforgeable",
];

pub const META_C05: Meta = Meta {
    level: "exploration",
    rule: "every combination of the listed values is reported on the real program and the whole ledger afterwards is compared with the expected one, computed from the documented layout; non-trivial = the report is accepted; fingerprint over the stored account",
    assumptions: ASSUME,
};
pub const META_C08: Meta = Meta {
    level: "exploration",
    rule: "a valid report for every (clock slot, reported slot, slots per epoch) triple of the small cube and of the boundary sets; judged against unbounded arithmetic: accepted iff 0 <= clock - slot <= slots per epoch; non-trivial = every case (the evidence is always valid); fingerprint over the triple",
    assumptions: ASSUME,
};
pub const META_C10: Meta = Meta {
    level: "exploration",
    rule: "a valid report for every proof length, rent configuration and balance around the exact minimum; judged: accepted iff balance >= minimum of the stored size, lamports untouched; non-trivial = every case; fingerprint over (length, rent, balance)",
    assumptions: ASSUME,
};

fn key() -> Key {
    Key::new("leader")
}

fn identities(node: Pubkey) -> Vec<(&'static str, Pubkey)> {
    vec![
        ("someone", name("someone")),
        ("someone else", name("someone else")),
        ("zero", Pubkey::new_from_array([0; 32])),
        ("0xff", Pubkey::new_from_array([0xff; 32])),
        ("the node", node),
        ("proof account", proof_account()),
        ("slashing program", slashing()),
        ("system program", system_program::id()),
        ("instructions sysvar", sysvar::instructions::id()),
        ("ed25519 program", ed25519_program::id()),
    ]
}

fn labels<T>(v: &[(&'static str, T)]) -> Vec<&'static str> {
    v.iter().map(|x| x.0).collect()
}

/// Report, then compare the ledger.
fn judge_record(e: &Env, r: &Report, account: Vec<u8>, a: &[u8], b: &[u8], extra: u64) -> Verdict {
    let proof = pack(a, b);
    let mut l = scene(e, r, &proof);
    rt::put(&mut l, proof_account(), 1_000_000_007, account, name("record-program"));
    let have = minimum(e, HEADER + proof.len()) + extra;
    rt::put(&mut l, r.address(), have, vec![], system_program::id());
    rt::put(&mut l, name("bystander"), 12345, vec![1, 2, 3], name("x"));
    for k in [r.reporter, r.destination] {
        l.entry(k).or_insert_with(|| {
            Arc::new(rt::Account { lamports: 5_000_000, data: vec![], owner: system_program::id() })
        });
    }
    let ex = execute(&l, e, &world::report_tx(r, &proof_account()));
    if !ex.ok() {
        return Verdict::bad(ex.label(), format!("a valid report was refused: {}", ex.label()));
    }
    let mut want = l.clone();
    let data = stored(e, r, a, b);
    rt::put(&mut want, r.address(), have, data.clone(), slashing());
    let f = fp(&data);
    if ex.ledger != want {
        let got = ex.ledger.get(&r.address());
        let what = match got {
            None => "no report account".into(),
            Some(g) if g.owner != slashing() => "report account has the wrong owner".into(),
            Some(g) if g.lamports != have => format!("report holds {} lamports instead of {have}", g.lamports),
            Some(g) if g.data != data => {
                let i = g.data.iter().zip(&data).position(|(x, y)| x != y).unwrap_or(g.data.len().min(data.len()));
                format!("stored report ({} bytes, expected {}) differs at byte {i}", g.data.len(), data.len())
            }
            _ => "another account changed".into(),
        };
        return Verdict { class: "differs".into(), nontrivial: Some(f), violation: Some(what) };
    }
    // and the public API reads it back
    let g = &want[&r.address()];
    let mut v = ViolationReport::zeroed();
    bytemuck::bytes_of_mut(&mut v).copy_from_slice(&g.data[..HEADER]);
    let back = v.version == 1
        && v.reporter == r.reporter
        && v.destination == r.destination
        && v.epoch() == e.clock.epoch
        && v.pubkey == r.node
        && v.slot() == r.slot
        && v.violation_type() == ProofType::DuplicateBlockProof
        && DuplicateBlockProofData::unpack_proof(&g.data[HEADER..])
            .is_ok_and(|p| p.shred1 == a && p.shred2 == b);
    Verdict::check("stored as specified", f, back, || "public API does not read the stored report back".into())
}

pub fn c05(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    const SLOT: u64 = 31_000_777;

    {
        let k = key();
        let ids = identities(k.pubkey());
        let epochs: Vec<u64> = vec![0, 1, 71, 255, 256, 65_536, u32::MAX as u64 + 1, u64::MAX - 3, u64::MAX];
        let pairs: Vec<(Shred, Shred)> = (0..3)
            .map(|f| root_conflict(&k, SLOT, f, (Kind::Data, Kind::Code), 50))
            .collect();
        let (n, ep) = (labels(&ids), epochs.clone());
        out.push(
            Space::new("identities", move |c| {
                let (a, b) = &pairs[c[3]];
                let mut r = Report::of(k.pubkey(), SLOT, a, b);
                r.reporter = ids[c[0]].1;
                r.destination = ids[c[1]].1;
                let e = Env::at(SLOT + 5, 432_000).with_epoch(epochs[c[2]]);
                Some(judge_record(&e, &r, pack(&a.bytes, &b.bytes), &a.bytes, &b.bytes, c[4] as u64))
            })
            .dim("reporter", &n)
            .dim("destination", &n)
            .dim("epoch", &ep)
            .dim("flavour", &["plain", "chained", "resigned"])
            .range("surplus lamports", 2),
        );
    }
    {
        let k = key();
        let slots = powers();
        let sl = slots.clone();
        out.push(
            Space::new("slots", move |c| {
                let s = slots[c[0]];
                let (a, b) = root_conflict(&k, s, 1, (Kind::Data, Kind::Data), 51);
                let mut r = Report::of(k.pubkey(), s, &a, &b);
                r.offset = [0, 9][c[2]];
                let clock = match c[1] {
                    0 => s,
                    1 => s.checked_add(1)?,
                    _ => s.checked_add(432_000)?,
                };
                let e = Env::at(clock, 432_000);
                let mut acc = vec![0xEE; r.offset as usize];
                acc.extend(pack(&a.bytes, &b.bytes));
                Some(judge_record(&e, &r, acc, &a.bytes, &b.bytes, 3))
            })
            .dim("slot", &sl)
            .dim("elapsed", &[0, 1, 432_000])
            .dim("offset", &[0, 9]),
        );
    }
    {
        let k = key();
        let offsets: Vec<usize> = tier.pick(
            vec![0, 1, 2, 3, 4, 5, 7, 8, 33, 255, 256, 1000, 65_535, 65_536, 70_001],
            (0..300).chain([1000, 4095, 65_535, 65_536, 70_001, 1 << 20]).collect(),
        );
        let after: Vec<usize> = vec![0, 1, 4, 1232];
        let grow: Vec<(usize, usize)> =
            vec![(0, 0), (1, 0), (0, 1), (4, 29), (29, 4), (100, 100), (500, 3), (3, 3000), (3500, 3500)];
        let kinds = [(Kind::Data, Kind::Data), (Kind::Data, Kind::Code), (Kind::Code, Kind::Data), (Kind::Code, Kind::Code)];
        let pairs: Vec<(Shred, Shred)> =
            kinds.iter().map(|x| root_conflict(&k, SLOT, 2, *x, 52)).collect();
        let (o, af, g) = (offsets.clone(), after.clone(), grow.clone());
        out.push(
            Space::new("layout-of-proof", move |c| {
                let (a, b) = &pairs[c[3]];
                let (mut x, mut y) = (a.bytes.clone(), b.bytes.clone());
                x.resize(x.len() + grow[c[2]].0, 0xAB);
                y.resize(y.len() + grow[c[2]].1, 0xCD);
                let mut r = Report::of(k.pubkey(), SLOT, a, b);
                r.offset = offsets[c[0]] as u64;
                let e = Env::at(SLOT + 5, 432_000);
                let mut acc = vec![0x3C; offsets[c[0]]];
                acc.extend(pack(&x, &y));
                acc.resize(acc.len() + after[c[1]], 0xF1);
                Some(judge_record(&e, &r, acc, &x, &y, 0))
            })
            .dim("offset", &o)
            .dim("bytes after the proof", &af)
            .dim("bytes appended to each shred", &g)
            .dim("kinds", &["data data", "data code", "code data", "code code"]),
        );
    }
    {
        // prefunding amounts leave with nobody
        let k = key();
        let (a, b) = root_conflict(&k, SLOT, 1, (Kind::Data, Kind::Code), 53);
        let extra: Vec<u64> = powers().into_iter().filter(|x| *x < 1 << 60).collect();
        let ex = extra.clone();
        out.push(
            Space::new("surplus", move |c| {
                let r = Report::of(k.pubkey(), SLOT, &a, &b);
                let e = Env::at(SLOT + 5, 432_000);
                Some(judge_record(&e, &r, pack(&a.bytes, &b.bytes), &a.bytes, &b.bytes, extra[c[0]]))
            })
            .dim("lamports above the minimum", &ex),
        );
    }
    {
        // many nodes: nothing depends on the key
        let n = tier.pick(256, 2048);
        out.push(
            Space::new("nodes", move |c| {
                let k = Key::new(&format!("node {}", c[0]));
                let (a, b) = root_conflict(&k, SLOT, 1, (Kind::Data, Kind::Data), 54);
                let r = Report::of(k.pubkey(), SLOT, &a, &b);
                let e = Env::at(SLOT + 5, 432_000);
                Some(judge_record(&e, &r, pack(&a.bytes, &b.bytes), &a.bytes, &b.bytes, 0))
            })
            .range("node", n),
        );
    }
    out
}

fn statute(slot: u64, clock: u64, spe: u64, epoch: u64, warm: Option<(u64, u64)>, leader: u64) -> Verdict {
    let k = key();
    let (a, b) = root_conflict(&k, slot, 1, (Kind::Data, Kind::Data), 60);
    let r = Report::of(k.pubkey(), slot, &a, &b);
    let mut e = Env::at(clock, 432_000).with_epoch(epoch);
    e.schedule.slots_per_epoch = spe;
    e.schedule.leader_schedule_slot_offset = leader;
    if let Some((fe, fs)) = warm {
        e.schedule.warmup = true;
        e.schedule.first_normal_epoch = fe;
        e.schedule.first_normal_slot = fs;
    }
    let ex = run_report(&e, &r, &a.bytes, &b.bytes);
    let want = clock as i128 - slot as i128 >= 0 && clock as i128 - slot as i128 <= spe as i128;
    let class = format!("{} / {}", if want { "within" } else { "outside" }, ex.label());
    Verdict::check(class.clone(), fp(&(slot, clock, spe, epoch)), want == ex.ok() && !ex.result.as_ref().is_err_and(|e| e.is_abort()), || class)
}

pub fn c08(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    let n = tier.pick(24, 64);
    out.push(
        Space::new("small-cube", |c| Some(statute(c[0] as u64, c[1] as u64, c[2] as u64, 3, None, 2 * c[2] as u64 + 3)))
            .range("slot", n)
            .range("clock", n)
            .range("slots per epoch", n),
    );
    {
        let spes: Vec<u64> = {
            let mut v: Vec<u64> = vec![0, 1, 2, 31, 32, 33, 8191, 8192, 8193, 431_999, 432_000, 432_001];
            v.extend(powers().into_iter().filter(|x| *x > 1 << 20));
            v
        };
        let bases: Vec<u64> = powers();
        let (s, b) = (spes.clone(), bases.clone());
        out.push(
            Space::new("boundaries", move |c| {
                let (slot, spe) = (bases[c[0]], spes[c[1]]);
                let d = c[2] as i128 - 2;
                // clock = slot + {0, spe, 2 spe} + d, whatever is representable
                let clock = slot as i128 + [0, 1, 2][c[3]] * spe as i128 + d;
                let clock = u64::try_from(clock).ok()?;
                Some(statute(slot, clock, spe, 3, None, spe.wrapping_mul(2).wrapping_add(3)))
            })
            .dim("slot", &b)
            .dim("slots per epoch", &s)
            .dim("difference", &[-2, -1, 0, 1, 2])
            .dim("epochs elapsed", &[0, 1, 2]),
        );
    }
    {
        let v: Vec<u64> = vec![0, 1, 2, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX - 1, u64::MAX];
        let d = v.clone();
        out.push(
            Space::new("extremes", move |c| Some(statute(v[c[0]], v[c[1]], v[c[2]], 3, None, !v[c[2]])))
                .dim("slot", &d)
                .dim("clock", &d)
                .dim("slots per epoch", &d),
        );
    }
    {
        // epoch boundaries: only the slot distance counts, not epoch numbers,
        // and the schedule's other fields do not matter
        let spe = 64u64;
        out.push(
            Space::new("within-epochs", move |c| {
                let slot = 640 + c[0] as u64;
                let clock = slot + c[1] as u64;
                let warm = [None, Some((10, 600)), Some((20, 5000))][c[2]];
                let e = [clock / spe, 0, u64::MAX][c[3]];
                Some(statute(slot, clock, spe, e, warm, [spe, 0, 4 * spe][c[4]]))
            })
            .range("slot in epoch", tier.pick(65, 65))
            .range("elapsed", tier.pick(67, 140))
            .dim("warm-up", &["none", "past", "ongoing"])
            .dim("clock epoch", &["consistent", "0", "max"])
            .dim("leader schedule offset", &["an epoch", "0", "four epochs"]),
        );
    }
    out
}

/// Report with a balance `delta` above the exact minimum.
fn judge_funding(e: &Env, r: Report, x: &[u8], y: &[u8], delta: i64) -> Option<Verdict> {
    let proof = pack(x, y);
    let min = minimum(e, HEADER + proof.len());
    let have = (min as i64).checked_add(delta)?;
    let have = u64::try_from(have).ok()?;
    let mut l = scene(e, &r, &proof);
    l.remove(&r.address());
    if have > 0 {
        rt::put(&mut l, r.address(), have, vec![], system_program::id());
    }
    for k in [r.reporter, r.destination] {
        l.entry(k).or_insert_with(|| {
            Arc::new(rt::Account { lamports: 9_000_000, data: vec![], owner: system_program::id() })
        });
    }
    let ex = execute(&l, e, &world::report_tx(&r, &proof_account()));
    let want = have >= min;
    let class = format!("{} / {}", if want { "funded" } else { "underfunded" }, ex.label());
    let mut bad = (want != ex.ok()).then(|| class.clone());
    if !want && ex.result.as_ref().is_err_and(|e| matches!(e.err, rt::IxErr::Runtime(_))) {
        bad = Some("the program itself accepted too small a balance".into());
    }
    if ex.ok() {
        if total(&l) != total(&ex.ledger)
            || lamports_of(&ex.ledger, &r.address()) != have
            || l.iter().any(|(k, a)| lamports_of(&ex.ledger, k) != a.lamports)
        {
            bad = Some("lamports moved".into());
        }
        let size = ex.ledger.get(&r.address()).map_or(0, |a| a.data.len());
        if have < minimum(e, size) {
            bad = Some(format!("stored report of {size} bytes is not rent exempt"));
        }
    } else if ex.ledger != l {
        bad = Some("a refused report changed something".into());
    }
    Some(Verdict {
        class,
        nontrivial: Some(fp(&(x.len(), y.len(), e.rent.lamports_per_byte_year, e.rent.exemption_threshold.to_bits(), have))),
        violation: bad,
    })
}

pub fn c10(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    const SLOT: u64 = 900_001;
    let rents: Vec<(u64, f64)> = vec![(3480, 2.0), (3480, 1.0), (1, 2.0), (1, 1.0), (0, 2.0), (10_000_019, 2.0), (3, 0.5), (19, 1.5), (6960, 1.0)];
    let deltas: Vec<i64> = vec![-1_000_000, -2, -1, 0, 1, 2, 1_000_000];
    let judge = |e: &Env, k: &Key, a: &Shred, b: &Shred, x: &[u8], y: &[u8], delta: i64| {
        judge_funding(e, Report::of(k.pubkey(), SLOT, a, b), x, y, delta)
    };
    {
        // whoever is who
        let k = key();
        let (a, b) = root_conflict(&k, SLOT, 2, (Kind::Data, Kind::Code), 72);
        let deltas = deltas.clone();
        let dl = deltas.clone();
        let ids = identities(k.pubkey());
        let n = labels(&ids);
        out.push(
            Space::new("roles", move |c| {
                let mut r = Report::of(k.pubkey(), SLOT, &a, &b);
                r.reporter = ids[c[0]].1;
                r.destination = ids[c[1]].1;
                judge_funding(&Env::at(SLOT + 1, 432_000), r, &a.bytes, &b.bytes, deltas[c[2]])
            })
            .dim("reporter", &n)
            .dim("destination", &n)
            .dim("balance - minimum", &dl),
        );
    }
    {
        // the balance is the account's own: nobody else's lamports stand in
        let k = key();
        let deltas = deltas.clone();
        let dl = deltas.clone();
        let slots: Vec<u64> = vec![0, 1, 255, 1 << 32, u64::MAX - 1];
        let sl = slots.clone();
        let epochs = [0u64, 1, 1 << 40, u64::MAX];
        let el = epochs;
        let shreds: Vec<(Shred, Shred)> = slots.iter().map(|s| root_conflict(&k, *s, 2, (Kind::Data, Kind::Code), 73)).collect();
        out.push(
            Space::new("slots-and-epochs", move |c| {
                let (a, b) = &shreds[c[0]];
                let r = Report::of(k.pubkey(), slots[c[0]], a, b);
                let e = Env::at(slots[c[0]] + c[3] as u64, 432_000).with_epoch(epochs[c[1]]);
                judge_funding(&e, r, &a.bytes, &b.bytes, deltas[c[2]])
            })
            .dim("slot", &sl)
            .dim("epoch", &el)
            .dim("balance - minimum", &dl)
            .range("elapsed", 2),
        );
    }
    {
        let rents = rents.clone();
        let (rl, dl) = (rents.clone(), deltas.clone());
        let deltas = deltas.clone();
        let k = key();
        let pairs: Vec<(Shred, Shred)> = [(Kind::Data, Kind::Data), (Kind::Data, Kind::Code), (Kind::Code, Kind::Code)]
            .iter()
            .map(|x| root_conflict(&k, SLOT, 1, *x, 70))
            .collect();
        let grow: Vec<usize> = tier.pick(
            vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 28, 29, 30, 58, 500, 2000, 7000],
            (0..200).chain([500, 1000, 2000, 3000, 5000, 7000]).collect(),
        );
        let g = grow.clone();
        out.push(
            Space::new("balances", move |c| {
                let (a, b) = &pairs[c[0]];
                let mut y = b.bytes.clone();
                y.resize(y.len() + grow[c[1]], 0x99);
                let mut e = Env::at(SLOT + 1, 432_000);
                e.rent.lamports_per_byte_year = rents[c[2]].0;
                e.rent.exemption_threshold = rents[c[2]].1;
                judge(&e, &k, a, b, &a.bytes, &y, deltas[c[3]])
            })
            .dim("kinds", &["data data", "data code", "code code"])
            .dim("appended", &g)
            .dim("rent (per byte-year, threshold)", &rl)
            .dim("balance - minimum", &dl),
        );
    }
    {
        // every balance that a confusion of sizes would produce
        let k = key();
        let (a, b) = root_conflict(&k, SLOT, 2, (Kind::Data, Kind::Code), 71);
        let span = tier.pick(160i64, 400);
        out.push(
            Space::new("byte-by-byte", move |c| {
                let mut e = Env::at(SLOT + 1, 432_000);
                e.rent.lamports_per_byte_year = 10;
                e.rent.exemption_threshold = 1.0;
                judge(&e, &k, &a, &b, &a.bytes, &b.bytes, 5 * (c[0] as i64 - span) + c[1] as i64 - 1)
            })
            .range("half bytes", 2 * span as usize)
            .range("lamport", 3),
        );
    }
    {
        // no balance at all, dust
        let k = key();
        let (a, b) = root_conflict(&k, SLOT, 2, (Kind::Data, Kind::Code), 71);
        let v: Vec<u64> = vec![0, 1, 890_880, 1_000_000];
        let d = v.clone();
        out.push(
            Space::new("dust", move |c| {
                let e = Env::at(SLOT + 1, 432_000);
                let min = minimum(&e, HEADER + pack(&a.bytes, &b.bytes).len());
                judge(&e, &k, &a, &b, &a.bytes, &b.bytes, v[c[0]] as i64 - min as i64)
            })
            .dim("balance", &d),
        );
    }
    out
}
