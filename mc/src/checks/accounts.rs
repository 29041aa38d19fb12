//! C11 (account validation) and C12 (no aborts, malformed input refused).

use super::common::*;
use crate::{
    ed::Key,
    explore::{fp, Space, Tier, Verdict},
    rt::{self, execute, Env, Ix, Ledger},
    shreds::{Kind, Shred},
    world::{self, *},
    Meta,
};
use solana_program::{
    ed25519_program,
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    sysvar,
};
use solana_system_interface::program as system_program;

const ASSUME: &[&str] = &[
    "runtime behaviour as modelled in mc/src/rt.rs (replayed against the real bank by the conformance run)",
    "SHA-256 and ed25519 are collision free / unforgeable",
];

pub const META_C11: Meta = Meta {
    level: "exploration",
    rule: "every assignment of the account pool to the positions of a report or close instruction, every prefix of the account list and every writability is executed on the real program; judged: accepted exactly for the documented accounts, and a refusal changes nothing; non-trivial = everything but the accounts is in order; fingerprint over the account list",
    assumptions: ASSUME,
};
pub const META_C12: Meta = Meta {
    level: "exploration",
    rule: "every instruction tag and length, every offset, declared length and truncation in the stated ranges, and every size of a program-owned account is executed on the real program; judged: no abort, and nothing accepted that the reference reading of the input refuses; non-trivial = the input is malformed; fingerprint over instruction data and account contents",
    assumptions: ASSUME,
};

const SLOT: u64 = 8_640_017;

fn env() -> Env {
    Env::at(SLOT + 11, 432_000)
}

fn setup() -> (Key, Shred, Shred, Report) {
    let k = Key::new("leader");
    let (a, b) = root_conflict(&k, SLOT, 1, (Kind::Data, Kind::Code), 80);
    let r = Report::of(k.pubkey(), SLOT, &a, &b);
    (k, a, b, r)
}

/// The address a lower bump seed would give.
fn other_bump(r: &Report) -> Pubkey {
    let (_, bump) = Pubkey::find_program_address(
        &[r.node.as_ref(), &r.slot.to_le_bytes(), &[1]],
        &slashing(),
    );
    (0..bump)
        .rev()
        .find_map(|b| {
            Pubkey::create_program_address(
                &[r.node.as_ref(), &r.slot.to_le_bytes(), &[1], &[b]],
                &slashing(),
            )
            .ok()
        })
        .unwrap()
}

const POOL: &[&str] = &[
    "proof account",
    "copy of the proof account",
    "report address",
    "instructions sysvar",
    "system program",
    "report address of another slot",
    "report address of another node",
    "report address of type 0",
    "report address of type 2",
    "report address, other bump",
    "account with the sysvar's contents",
    "sysvar owner id",
    "rent sysvar",
    "zero-filled account owned by the program",
    "funded wallet",
    "destination",
    "slashing program",
    "ed25519 program",
    "report address with bytes of slot reversed",
];

fn pool(r: &Report) -> Vec<Pubkey> {
    vec![
        proof_account(),
        name("proof copy"),
        r.address(),
        sysvar::instructions::id(),
        system_program::id(),
        report_address(&r.node, r.slot + 1, 1),
        report_address(&name("other node"), r.slot, 1),
        report_address(&r.node, r.slot, 0),
        report_address(&r.node, r.slot, 2),
        other_bump(r),
        name("fake sysvar"),
        sysvar::id(),
        sysvar::rent::id(),
        name("zero-filled"),
        name("wallet"),
        r.destination,
        slashing(),
        ed25519_program::id(),
        report_address(&r.node, r.slot.swap_bytes(), 1),
    ]
}

fn pool_ledger(e: &Env, r: &Report, proof: &[u8]) -> Ledger {
    let mut l = scene(e, r, proof);
    rt::put(&mut l, name("proof copy"), 1_000_000_000, proof.to_vec(), name("someone else's program"));
    let plenty = minimum(e, 10_000);
    for (n, k) in pool(r).into_iter().enumerate() {
        if (5..10).contains(&n) || n == 18 {
            rt::put(&mut l, k, plenty, vec![], system_program::id());
        }
    }
    rt::put(&mut l, name("zero-filled"), plenty, vec![0; HEADER + proof.len()], slashing());
    rt::put(&mut l, name("wallet"), plenty, vec![], system_program::id());
    rt::put(&mut l, r.destination, plenty, vec![], system_program::id());
    l
}

/// The genuine instructions sysvar's contents for a transaction, as seen by
/// instruction `at`.
fn sysvar_contents(tx: &[Ix], at: u16) -> Vec<u8> {
    let mut d = rt::instructions_sysvar(tx, &Default::default(), &Default::default());
    let n = d.len();
    d[n - 2..].copy_from_slice(&at.to_le_bytes());
    d
}

fn refused(l: &Ledger, ex: &rt::Executed, want: bool, class: String, f: u64) -> Verdict {
    let mut bad = (want != ex.ok()).then(|| class.clone());
    if !ex.ok() && ex.ledger != *l {
        bad = Some("refused, yet something changed".into());
    }
    if ex.result.as_ref().is_err_and(|e| e.is_abort()) {
        bad = Some(format!("aborted: {}", ex.label()));
    }
    Verdict { class, nontrivial: Some(f), violation: bad }
}

pub fn c11(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    {
        let (_, a, b, r) = setup();
        let proof = pack(&a.bytes, &b.bytes);
        let p = pool(&r);
        // quick: the first two positions range over everything while the last two
        // are in order and vice versa; thorough: everything
        let full = tier.thorough();
        let e = env();
        let l = pool_ledger(&e, &r, &proof);
        let mut s = Space::new("report-accounts", move |c| {
            let off = [c[0] != 0, c[1] != 2, c[2] != 3, c[3] != 4].iter().filter(|x| **x).count();
            if !full && off > 2 {
                return None;
            }
            let mut ix = r.ix(&proof_account());
            ix.accounts = c[..4]
                .iter()
                .enumerate()
                .map(|(n, i)| AccountMeta {
                    pubkey: p[*i],
                    is_signer: false,
                    is_writable: c[4] == 1 || (n == 1 && c[4] == 0),
                })
                .collect();
            let tx: Vec<Ix> = vec![Report::sigverify(1).into(), ix.into()];
            let mut l = l.clone();
            let d = sysvar_contents(&tx, 1);
            rt::put(&mut l, name("fake sysvar"), minimum(&e, d.len()), d, sysvar::id());
            let ex = execute(&l, &e, &tx);
            let want = c[0] <= 1 && c[1] == 2 && c[2] == 3 && c[3] == 4 && c[4] < 2;
            let class = format!("{} wrong{} / {}", off, if c[4] == 2 { ", read-only" } else { "" }, ex.label());
            Some(refused(&l, &ex, want, class, fp(&c)))
        });
        for n in ["proof", "report", "sysvar", "system"] {
            s = s.dim(n, POOL);
        }
        out.push(s.dim("writable", &["report only", "all", "none"]));
    }
    {
        // prefixes, extra accounts, duplicates
        let (_, a, b, r) = setup();
        let proof = pack(&a.bytes, &b.bytes);
        let p = pool(&r);
        let e = env();
        let l = pool_ledger(&e, &r, &proof);
        out.push(
            Space::new("report-prefixes-and-extras", move |c| {
                let mut ix = r.ix(&proof_account());
                ix.accounts.truncate(c[0]);
                if c[1] > 0 {
                    for _ in 0..=c[2] {
                        ix.accounts.push(AccountMeta { pubkey: p[c[1] - 1], is_signer: false, is_writable: c[3] == 1 });
                    }
                } else if c[2] > 0 || c[3] > 0 {
                    return None;
                }
                let want = ix.accounts.len() >= 4
                    && ix.accounts[0].pubkey == proof_account()
                    && ix.accounts[1].pubkey == r.address()
                    && ix.accounts[2].pubkey == sysvar::instructions::id()
                    && ix.accounts[3].pubkey == system_program::id();
                let tx: Vec<Ix> = vec![Report::sigverify(1).into(), ix.clone().into()];
                let ex = execute(&l, &e, &tx);
                Some(refused(&l, &ex, want, format!("{} accounts / {}", ix.accounts.len(), ex.label()), fp(&c)))
            })
            .range("genuine accounts", 5)
            .dim("then", &[&["nothing"], POOL].concat())
            .range("copies - 1", 3)
            .dim("writable", &["no", "yes"]),
        );
    }
    {
        // report account against the (node, slot) of the report
        let k = Key::new("leader");
        let slots: Vec<u64> = vec![0, 1, 2, 255, 256, 257, 65_536, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 56, 258];
        let sl = slots.clone();
        out.push(
            Space::new("report-address-of-other-slot", move |c| {
                let slot = slots[c[0]];
                let (a, b) = root_conflict(&k, slot, 0, (Kind::Data, Kind::Data), 81);
                let r = Report::of(k.pubkey(), slot, &a, &b);
                let e = Env::at(slot + 1, 432_000);
                let addr = report_address(&r.node, slots[c[1]], c[2] as u8);
                let mut l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
                rt::put(&mut l, addr, minimum(&e, 5000), vec![], system_program::id());
                let mut ix = r.ix(&proof_account());
                ix.accounts[1].pubkey = addr;
                let ex = execute(&l, &e, &[Report::sigverify(1).into(), ix.into()]);
                let want = c[0] == c[1] && c[2] == 1;
                Some(refused(&l, &ex, want, format!("right address {want} / {}", ex.label()), fp(&c)))
            })
            .dim("slot", &sl)
            .dim("address of slot", &sl)
            .range("address of type", 4),
        );
    }
    {
        // destination equal to the report address, or to addresses like it
        let (_, a, b, r) = setup();
        let proof = pack(&a.bytes, &b.bytes);
        let p = pool(&r);
        let e = env();
        let l = pool_ledger(&e, &r, &proof);
        out.push(
            Space::new("destination-and-reporter", move |c| {
                let mut r = r.clone();
                r.destination = p[c[0]];
                r.reporter = p[c[1]];
                let ex = execute(&l, &e, &world::report_tx(&r, &proof_account()));
                let want = c[0] != 2;
                Some(refused(&l, &ex, want, format!("destination is the report {} / {}", c[0] == 2, ex.label()), fp(&c)))
            })
            .dim("destination", POOL)
            .dim("reporter", POOL),
        );
    }
    {
        // accounts that are nearly the documented ones
        let (_, a, b, r) = setup();
        let proof = pack(&a.bytes, &b.bytes);
        let e = env();
        let l = pool_ledger(&e, &r, &proof);
        out.push(
            Space::new("look-alikes", move |c| {
                let mut ix = r.ix(&proof_account());
                let k = rt::nearly(&ix.accounts[c[0] + 1].pubkey, c[1], 1 << c[2]);
                ix.accounts[c[0] + 1].pubkey = k;
                let tx: Vec<Ix> = vec![Report::sigverify(1).into(), ix.into()];
                let mut l = l.clone();
                if c[0] == 1 {
                    let d = sysvar_contents(&tx, 1);
                    rt::put(&mut l, k, minimum(&e, d.len()), d, sysvar::id());
                } else {
                    rt::put(&mut l, k, minimum(&e, 10_000), vec![], system_program::id());
                }
                let ex = execute(&l, &e, &tx);
                Some(refused(&l, &ex, false, format!("report: {}", ex.label()), fp(&c)))
            })
            .dim("account", &["report", "instructions sysvar", "system program"])
            .range("byte", 32)
            .range("bit", 8),
        );
    }
    {
        // closing, nearly right
        let (_, a, b, r) = setup();
        let e = env();
        let mut later = e.clone();
        later.clock.epoch += 3;
        out.push(
            Space::new("close-look-alikes", move |c| {
                let rich = minimum(&e, 10_000);
                let mut l = Ledger::new();
                let near = |k: &Pubkey| rt::nearly(k, c[1], 1 << c[2]);
                let owner = if c[0] == 0 { near(&slashing()) } else { slashing() };
                rt::put(&mut l, r.address(), rich, stored(&e, &r, &a.bytes, &b.bytes), owner);
                rt::put(&mut l, r.destination, rich, vec![], system_program::id());
                let mut ix = close_ix(&r.address(), &r.destination);
                if c[0] == 1 {
                    ix.accounts[1].pubkey = near(&r.destination);
                    rt::put(&mut l, ix.accounts[1].pubkey, rich, vec![], system_program::id());
                }
                let ex = execute(&l, &later, &[ix.into()]);
                Some(refused(&l, &ex, false, format!("close: {}", ex.label()), fp(&c)))
            })
            .dim("what is nearly right", &["owner of the report", "destination"])
            .range("byte", 32)
            .range("bit", 8),
        );
    }
    {
        // closing
        let (_, a, b, r) = setup();
        let e = env();
        let mut later = e.clone();
        later.clock.epoch += 3;
        let mut r2 = r.clone();
        r2.slot += 1;
        r2.destination = name("other destination");
        let names = [
            "mature report",
            "its destination",
            "mature report, other destination",
            "other destination",
            "young report",
            "copy of the report owned by another program",
            "copy of the report owned by the system program",
            "zero-filled, program-owned, 1 byte",
            "zero-filled, program-owned, 113 bytes",
            "zero-filled, program-owned, 114 bytes",
            "zero-filled, program-owned, 2553 bytes",
            "empty program-owned",
            "missing account",
            "system program",
            "slashing program",
            "instructions sysvar",
        ];
        let keys = [
            r.address(),
            r.destination,
            r2.address(),
            r2.destination,
            name("young"),
            name("copy1"),
            name("copy2"),
            name("z1"),
            name("z113"),
            name("z114"),
            name("z2553"),
            name("z0"),
            name("missing"),
            system_program::id(),
            slashing(),
            sysvar::instructions::id(),
        ];
        let mut l = Ledger::new();
        let data = stored(&e, &r, &a.bytes, &b.bytes);
        let rich = minimum(&e, 10_000);
        rt::put(&mut l, keys[0], rich, data.clone(), slashing());
        rt::put(&mut l, keys[1], rich, vec![], system_program::id());
        rt::put(&mut l, keys[2], rich, stored(&e, &r2, &a.bytes, &b.bytes), slashing());
        rt::put(&mut l, keys[3], rich, vec![], system_program::id());
        let mut young = data.clone();
        young[65..73].copy_from_slice(&(e.clock.epoch + 1).to_le_bytes());
        rt::put(&mut l, keys[4], rich, young, slashing());
        rt::put(&mut l, keys[5], rich, data.clone(), name("another program"));
        rt::put(&mut l, keys[6], rich, data, system_program::id());
        for (i, n) in [(7, 1), (8, 113), (9, 114), (10, 2553), (11, 0)] {
            rt::put(&mut l, keys[i], rich, vec![0; n], slashing());
        }
        let nn: Vec<String> = names.iter().map(|s| s.to_string()).collect();
        let third: Vec<String> = ["absent".to_string()].into_iter().chain(nn.iter().cloned()).collect();
        out.push(
            Space::new("close-accounts", move |c| {
                let flags = [(true, true), (true, false), (false, true), (false, false)][c[2]];
                let mut ix = close_ix(&keys[c[0]], &keys[c[1]]);
                ix.accounts[0].is_writable = flags.0;
                ix.accounts[1].is_writable = flags.1;
                if c[3] > 0 {
                    ix.accounts.push(AccountMeta::new_readonly(keys[c[3] - 1], false));
                }
                // as the runtime: writable in one place is writable everywhere
                let ex = execute(&l, &later, &[ix.clone().into()]);
                let right = (c[0] == 0 && c[1] == 1) || (c[0] == 2 && c[1] == 3);
                let want = right && flags == (true, true);
                let class = format!("{} / {}", if want { "legitimate" } else { "not legitimate" }, ex.label());
                let mut v = refused(&l, &ex, want, class, fp(&c));
                if ex.ok() && v.violation.is_none() {
                    let mut w = l.clone();
                    w.remove(&keys[c[0]]);
                    rt::put(&mut w, keys[c[1]], 2 * rich, vec![], system_program::id());
                    if w != ex.ledger {
                        v.violation = Some("closing did something else than moving the lamports".into());
                    }
                }
                Some(v)
            })
            .dim("report", &names)
            .dim("destination", &names)
            .dim("writable", &["both", "report", "destination", "none"])
            .dim("third account", &third),
        );
    }
    {
        let (_, a, b, r) = setup();
        let e = env();
        let mut later = e.clone();
        later.clock.epoch += 3;
        out.push(
            Space::new("close-prefixes", move |c| {
                let mut l = Ledger::new();
                rt::put(&mut l, r.address(), minimum(&e, 10_000), stored(&e, &r, &a.bytes, &b.bytes), slashing());
                let mut ix = close_ix(&r.address(), &r.destination);
                if c[1] == 1 {
                    ix.accounts.reverse();
                }
                ix.accounts.truncate(c[0]);
                let ex = execute(&l, &later, &[ix.into()]);
                Some(refused(&l, &ex, c[0] == 2 && c[1] == 0, ex.label(), fp(&c)))
            })
            .range("accounts", 3)
            .dim("order", &["right", "reversed"]),
        );
    }
    out
}

// ---------------------------------------------------------------------------

fn never_abort(ex: &rt::Executed, l: &Ledger, may: bool, tag: &str, f: u64) -> Verdict {
    let class = format!("{tag}{}", ex.label());
    let mut bad = None;
    if ex.result.as_ref().is_err_and(|e| e.is_abort()) {
        bad = Some(format!("the program aborted: {}", ex.label()));
    } else if ex.ok() && !may {
        bad = Some("malformed input was accepted".into());
    } else if !ex.ok() && ex.ledger != *l {
        bad = Some("a refusal changed something".into());
    }
    Verdict { class, nontrivial: Some(f), violation: bad }
}

pub fn c12(tier: Tier) -> Vec<Space> {
    let mut out = vec![];

    {
        // every tag, every length
        let (_, a, b, r) = setup();
        let e = env();
        let l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
        let n = tier.pick(320, 700);
        out.push(
            Space::new("tags-and-lengths", move |c| {
                let (tag, len) = (c[0], c[1]);
                let mut d = match c[2] {
                    0 => vec![0; len],
                    1 => vec![0xff; len],
                    _ => {
                        let mut d = r.data();
                        d.resize(len, 0);
                        d
                    }
                };
                if len == 0 {
                    if tag > 0 {
                        return None;
                    }
                } else {
                    d[0] = tag as u8;
                }
                let exact = tag == 1 && c[2] == 2 && len == REPORT_LEN;
                // cut or too long, everything the verification points to may still be there
                let whole = c[2] == 2 && len >= REPORT_LEN;
                let ix = Instruction { program_id: slashing(), accounts: r.metas(&proof_account()), data: d };
                // verification refers to a genuine copy, so that it always succeeds
                let tx: Vec<Ix> = if whole {
                    vec![Report::sigverify(1).into(), ix.into()]
                } else {
                    vec![
                        Report::sigverify(2).into(),
                        ix.into(),
                        Instruction { program_id: rt::proxy_id(), accounts: vec![], data: r.data() }.into(),
                    ]
                };
                let ex = execute(&l, &e, &tx);
                let mut v = never_abort(&ex, &l, exact, "", fp(&c));
                if exact && !ex.ok() {
                    v.violation = Some("the well-formed instruction was refused".into());
                }
                Some(v)
            })
            .range("tag", 256)
            .range("length", n)
            .dim("contents", &["zero", "0xff", "genuine, cut or padded"]),
        );
    }
    {
        // closing instruction data of every tag and length on a mature report
        let (_, a, b, r) = setup();
        let e = env();
        let mut later = e.clone();
        later.clock.epoch += 5;
        let mut l = Ledger::new();
        rt::put(&mut l, r.address(), minimum(&e, 10_000), stored(&e, &r, &a.bytes, &b.bytes), slashing());
        out.push(
            Space::new("close-data", move |c| {
                let mut ix = close_ix(&r.address(), &r.destination);
                ix.data = vec![c[0] as u8; c[1]];
                if c[1] == 0 && c[0] > 0 {
                    return None;
                }
                let ex = execute(&l, &later, &[ix.into()]);
                let mut v = never_abort(&ex, &l, c[0] == 0 && c[1] > 0, "", fp(&c));
                if c[0] == 0 && c[1] == 1 && !ex.ok() {
                    v.violation = Some("the well-formed instruction was refused".into());
                }
                Some(v)
            })
            .range("byte", 256)
            .range("length", 40),
        );
    }
    {
        // offsets into the proof account
        let (_, a, b, r) = setup();
        let e = env();
        let proof = pack(&a.bytes, &b.bytes);
        let full = proof.len();
        let lens: Vec<usize> = vec![0, 1, 3, 4, 5, 8, 1207, 1211, full - 1, full, full + 1, full + 40];
        let ll = lens.clone();
        let pw = powers();
        let n_small = full + 60;
        let np = pw.len();
        out.push(
            Space::new("offsets", move |c| {
                let off = if c[1] < n_small { c[1] as u64 } else { pw[c[1] - n_small] };
                let mut r = r.clone();
                r.offset = off;
                let mut acc = proof.clone();
                acc.resize(lens[c[0]], 0);
                let mut l = scene(&e, &r, &proof);
                rt::put(&mut l, proof_account(), 1 << 40, acc, name("record-program"));
                let may = off == 0 && lens[c[0]] >= full;
                let ex = execute(&l, &e, &world::report_tx(&r, &proof_account()));
                let mut v = never_abort(&ex, &l, may, "", fp(&(off, c[0])));
                if may && !ex.ok() {
                    v.violation = Some("well-formed proof refused".into());
                }
                Some(v)
            })
            .dim("account length", &ll)
            .range("offset", n_small + np),
        );
    }
    {
        // declared lengths
        let (_, a, b, r) = setup();
        let e = env();
        let d: Vec<u32> = {
            let mut v: Vec<u32> = powers().into_iter().filter_map(|x| u32::try_from(x).ok()).collect();
            v.extend([1203, 1202, 1204, 1228, 1227, 1229, 1207, 1211, 2431, 2435, 2439, 2440]);
            v.sort();
            v.dedup();
            v
        };
        let dl = d.clone();
        out.push(
            Space::new("declared-lengths", move |c| {
                let mut proof = pack(&a.bytes, &b.bytes);
                let (l1, l2) = (d[c[0]], d[c[1]]);
                proof[..4].copy_from_slice(&l1.to_le_bytes());
                // where a reader would look for the second length
                let second = 4usize.saturating_add(l1 as usize);
                if let Some(s) = proof.get_mut(second..second.saturating_add(4)) {
                    s.copy_from_slice(&l2.to_le_bytes());
                } else if c[1] > 0 {
                    return None;
                }
                let l = scene(&e, &r, &proof);
                let may = l1 == 1203 && l2 == 1228;
                let ex = execute(&l, &e, &world::report_tx(&r, &proof_account()));
                let mut v = never_abort(&ex, &l, may, "", fp(&(l1, l2)));
                if may && !ex.ok() {
                    v.violation = Some("well-formed proof refused".into());
                }
                Some(v)
            })
            .dim("first length", &dl)
            .dim("second length", &dl),
        );
    }
    {
        // truncations of the proof account
        let (_, a, b, r) = setup();
        let e = env();
        let proof = pack(&a.bytes, &b.bytes);
        let n = proof.len() + 1;
        out.push(
            Space::new("truncated-proof", move |c| {
                let mut r = r.clone();
                r.offset = c[1] as u64;
                let mut acc = vec![0xEE; c[1]];
                acc.extend_from_slice(&proof[..c[0]]);
                let mut l = scene(&e, &r, &proof);
                rt::put(&mut l, proof_account(), 1 << 40, acc, name("record-program"));
                let ex = execute(&l, &e, &world::report_tx(&r, &proof_account()));
                Some(never_abort(&ex, &l, c[0] == proof.len(), "", fp(&c)))
            })
            .range("length", n)
            .range("offset", 4),
        );
    }
    {
        // closing program-owned accounts of every size
        let n = tier.pick(400, 3000);
        let epochs = [0u64, 1, 2, 3, 4, 1000];
        out.push(
            Space::new("close-foreign-accounts", move |c| {
                let e = Env::at(5, 432_000).with_epoch(epochs[c[1]]);
                let zero = Pubkey::new_from_array([0; 32]);
                let dest = [name("destination"), zero, name("z"), slashing()][c[2]];
                let mut l = Ledger::new();
                rt::put(&mut l, name("z"), minimum(&e, 10_000), vec![0; c[0]], slashing());
                rt::put(&mut l, name("destination"), minimum(&e, 10), vec![], system_program::id());
                let ex = execute(&l, &e, &[close_ix(&name("z"), &dest).into()]);
                Some(never_abort(&ex, &l, false, "", fp(&c)))
            })
            .range("size", n)
            .dim("epoch", &epochs)
            .dim("destination", &["a wallet", "zero address", "the account itself", "slashing program"]),
        );
    }
    {
        // every prefix of the account lists, for both instructions and unknown ones
        let (_, a, b, r) = setup();
        let e = env();
        let l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
        out.push(
            Space::new("account-prefixes", move |c| {
                let mut ix = r.ix(&proof_account());
                ix.accounts.truncate(c[1]);
                if c[2] == 1 {
                    ix.accounts.reverse();
                }
                ix.data[0] = c[0] as u8;
                let ok = c[0] == 1 && c[1] == 4 && c[2] == 0;
                let ex = execute(&l, &e, &[Report::sigverify(1).into(), ix.into()]);
                Some(never_abort(&ex, &l, ok, "", fp(&c)))
            })
            .range("tag", 4)
            .range("accounts", 5)
            .dim("order", &["right", "reversed"]),
        );
    }
    {
        // shreds of every length in both places, including none at all
        let k = Key::new("leader");
        let (a, b) = root_conflict(&k, SLOT, 2, (Kind::Code, Kind::Code), 82);
        let e = env();
        let r = Report::of(k.pubkey(), SLOT, &a, &b);
        let lens: Vec<usize> = tier.pick(
            (0..140).chain((1060..1240).step_by(3)).collect(),
            (0..1240).collect(),
        );
        let lens2: Vec<usize> = vec![0, 1, 63, 64, 65, 72, 82, 83, 85, 88, 89, 1083, 1084, 1163, 1164, 1227, 1228];
        let (d1, d2) = (lens.clone(), lens2.clone());
        out.push(
            Space::new("short-shreds", move |c| {
                let (mut x, mut y) = (a.bytes.clone(), b.bytes.clone());
                let (n1, n2) = (lens[c[0]], lens2[c[1]]);
                x.resize(n1, 1);
                y.resize(n2, 1);
                if c[2] == 1 {
                    std::mem::swap(&mut x, &mut y);
                }
                let ex = run_report(&e, &r, &x, &y);
                let may = c[2] == 0 && n1 >= 1164 && n2 >= 1164;
                let l = scene(&e, &r, &pack(&x, &y));
                Some(never_abort(&ex, &l, may, "", fp(&c)))
            })
            .dim("length", &d1)
            .dim("length of the other", &d2)
            .dim("order", &["right", "swapped"]),
        );
    }
    {
        // shreds with surplus bytes, in big accounts: the heap is small and gives nothing back
        let (_, a, b, r) = setup();
        let e = env();
        let sizes: Vec<usize> = tier.pick(
            vec![1228, 1232, 1500, 2048, 3000, 4096, 4700, 5059, 5060, 6000, 8192, 8885, 8886, 16_384, 32_768, 70_000],
            (1228..10_400).step_by(97).chain([5059, 5060, 8885, 8886, 16_384, 32_768, 70_000]).collect(),
        );
        let around = [0usize, 1, 40_000, 1 << 20];
        let d = sizes.clone();
        out.push(
            Space::new("surplus-bytes", move |c| {
                let (mut x, mut y) = (a.bytes.clone(), b.bytes.clone());
                x.resize(sizes[c[0]], 3);
                y.resize(sizes[c[1]], 4);
                let mut r = r.clone();
                r.offset = around[c[2]] as u64;
                let mut acc = vec![7u8; around[c[2]]];
                acc.extend(pack(&x, &y));
                acc.resize(acc.len() + around[c[3]], 9);
                let l = scene(&e, &r, &acc);
                let ex = execute(&l, &e, &world::report_tx(&r, &proof_account()));
                Some(never_abort(&ex, &l, true, "", fp(&c)))
            })
            .dim("size of shred 1", &d)
            .dim("size of shred 2", &d)
            .dim("bytes before the proof", &around)
            .dim("bytes after the proof", &around),
        );
    }
    {
        // verification instructions of every short length that the precompile lets pass
        let (_, a, b, r) = setup();
        let e = env();
        let l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
        out.push(
            Space::new("short-verifications", move |c| {
                let mut d = Report::sigverify(1).data;
                d.resize(c[0], 0);
                for (i, x) in d.iter_mut().take(2).enumerate() {
                    *x = [c[1], c[2]][i] as u8;
                }
                let tx: Vec<Ix> = vec![ed_ix(d).into(), r.ix(&proof_account()).into()];
                let may = c[0] >= 30 && c[1] == 2;
                let ex = execute(&l, &e, &tx);
                Some(never_abort(&ex, &l, may, "", fp(&c)))
            })
            .range("length", 64)
            .range("count", 4)
            .range("padding", 3),
        );
    }
    out
}
