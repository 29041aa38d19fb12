//! C01: no report without verified signatures; documented layout accepted.

use super::common::*;
use crate::{
    ed::{self, Key},
    explore::{fp, Space, Tier, Verdict},
    rt::{self, execute, proxy_id, Env, Ix, Ledger},
    shreds::{batch, Hdr, Kind, Layout, Leaf, Shred},
    world::{self, *},
    Meta,
};
use solana_program::{instruction::Instruction, pubkey::Pubkey};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "every transaction shape in the spaces below is executed on the real program, the native precompile being evaluated over the same transaction; judged: an account that becomes a report must hold two shreds whose (node, root, signature) triples the precompile verified in this transaction, and transactions in the documented layout must be accepted; non-trivial = the precompile accepted every verification instruction, so that only the program stands between the evidence and a report; fingerprint over all instruction bytes and the proof",
    assumptions: &[
        "SHA-256 and ed25519 are collision free / unforgeable",
        "precompile and runtime semantics as in mc/src/ed.rs and mc/src/rt.rs (replayed against the real bank by the conformance run)",
        "program executed natively; heap addresses follow the parity of the on-chain bump allocator (mc/src/alloc.rs)",
    ],
};

const SLOT: u64 = 5_000_001;

fn env() -> Env {
    Env::at(SLOT + 7, 432_000)
}

fn memo(data: Vec<u8>) -> Ix {
    Instruction { program_id: proxy_id(), accounts: vec![], data }.into()
}

/// Judge a transaction. `must`: documented layout, has to be accepted.
fn judge(l: &Ledger, e: &Env, tx: &[Ix], must: bool, tag: &str) -> Verdict {
    let ex = execute(l, e, tx);
    let pre_ok = !ex.result.as_ref().is_err_and(|e| e.err == rt::IxErr::Precompile);
    let class = format!(
        "{tag}{}{}",
        ex.label(),
        if must { " [documented layout]" } else { "" }
    );
    let f = fp(&(
        tx.iter().map(|i| (&i.ix.program_id, &i.ix.data, i.inner.iter().map(|n| &n.data).collect::<Vec<_>>())).collect::<Vec<_>>(),
        l.get(&proof_account()).map(|a| a.data.clone()),
    ));
    let mut violation = authentic(l, tx, &ex).err();
    if violation.is_none() && must && !ex.ok() {
        violation = Some(format!("evidence verified in the documented layout refused: {}", ex.label()));
    }
    Verdict { class, nontrivial: pre_ok.then_some(f), violation }
}

/// Shreds that carry a signature of our choice.
fn with_sig(s: &Shred, sig: [u8; 64]) -> Shred {
    let mut s = s.clone();
    s.sig = sig;
    s.bytes[..64].copy_from_slice(&sig);
    s
}

const FORGERIES: &[&str] = &[
    "genuine",
    "first forged",
    "second forged",
    "both forged",
    "both by attacker",
    "first signed for another root",
    "second signed for another root",
    "both signed for other roots",
];

/// What else the victim signed: roots of a conflict in another slot.
fn elsewhere(victim: &Key) -> (Shred, Shred) {
    root_conflict(victim, SLOT + 1, 1, (Kind::Data, Kind::Code), 4)
}

/// Evidence against `victim`, forged as described.
fn evidence(victim: &Key, attacker: &Key, how: usize) -> (Shred, Shred) {
    let (a, b) = root_conflict(victim, SLOT, 1, (Kind::Data, Kind::Code), 0);
    let bad = |s: &Shred| with_sig(s, [0x77; 64]);
    let att = |s: &Shred| with_sig(s, attacker.sign(&s.root));
    let (oa, ob) = elsewhere(victim);
    match how {
        0 => (a, b),
        1 => (bad(&a), b),
        2 => (a, bad(&b)),
        3 => (bad(&a), bad(&b)),
        4 => (att(&a), att(&b)),
        5 => (with_sig(&a, oa.sig), b),
        6 => (a, with_sig(&b, ob.sig)),
        _ => (with_sig(&a, oa.sig), with_sig(&b, ob.sig)),
    }
}

pub fn spaces(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    let victim = || Key::new("victim");
    let attacker = || Key::new("attacker");

    // 1. shapes of the verification instruction
    {
        // every sequence of entries up to a length
        let max = tier.pick(3, 4);
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        let mut last: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..max {
            let mut next = vec![];
            for s in &last {
                for x in 0..3 {
                    let mut t = s.clone();
                    t.push(x);
                    next.push(t);
                }
            }
            seqs.extend(next.iter().cloned());
            last = next;
        }
        let names: Vec<String> = seqs
            .iter()
            .map(|s| s.iter().map(|x| ["first", "second", "attacker's own"][*x]).collect::<Vec<_>>().join("+"))
            .collect();
        let counts = [0u8, 1, 2, 3, 4, 255];
        let pads = [0u8, 1, 2, 255];
        let tails = [0usize, 1, 2, 3, 14, 28];
        let ev: Vec<_> = (0..FORGERIES.len()).map(|h| evidence(&victim(), &attacker(), h)).collect();
        let own = attacker();
        let node = victim().pubkey();
        out.push(
            Space::new("verification-shapes", move |c| {
                let (a, b) = &ev[c[0]];
                let r = Report::of(node, SLOT, a, b);
                let e = env();
                let l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
                // instruction 0 carries a genuine statement of the attacker
                let msg = [9u8; 32];
                let mut m = own.pubkey().to_bytes().to_vec();
                m.extend_from_slice(&own.sign(&msg));
                m.extend_from_slice(&msg);
                let d = Report::entries(2);
                let alpha = [d[0], d[1], [32, 0, 0, 0, 96, 32, 0]];
                let entries: Vec<_> = seqs[c[3]].iter().map(|x| alpha[*x]).collect();
                let v = ed_ix(ed::precompile_data(counts[c[1]], pads[c[2]], &entries, &vec![0xA5; tails[c[4]]]));
                let tx = vec![memo(m), v.into(), r.ix(&proof_account()).into()];
                let must = c[0] == 0
                    && c[2] == 0
                    && counts[c[1]] >= 2
                    && counts[c[1]] as usize <= entries.len()
                    && seqs[c[3]][..2] == [0, 1];
                Some(judge(&l, &e, &tx, must, ""))
            })
            .dim("evidence", FORGERIES)
            .dim("count byte", &counts)
            .dim("padding byte", &pads)
            .dim("entries", &names)
            .dim("trailing bytes", &tails),
        );
    }

    // 2. instruction indices inside the entries, against decoys at the same offsets
    {
        let ev: Vec<_> = (0..FORGERIES.len()).map(|h| evidence(&victim(), &attacker(), h)).collect();
        let decoys = [
            // a genuine statement of the attacker
            {
                let (a, b) = root_conflict(&attacker(), SLOT, 1, (Kind::Data, Kind::Code), 3);
                Report::of(attacker().pubkey(), SLOT, &a, &b).data()
            },
            // a genuine statement of the victim about other roots
            {
                let (a, b) = elsewhere(&victim());
                Report::of(victim().pubkey(), SLOT + 1, &a, &b).data()
            },
            // the genuine evidence
            {
                let (a, b) = &ev[0];
                Report::of(victim().pubkey(), SLOT, a, b).data()
            },
        ];
        let ixs = [2u16, 0, 1, u16::MAX];
        let node = victim().pubkey();
        let mut s = Space::new("entry-indices", move |c| {
            let (a, b) = &ev[c[0]];
            let r = Report::of(node, SLOT, a, b);
            let e = env();
            let l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
            let mut d = Report::entries(2);
            d[0][1] = ixs[c[2]];
            d[0][3] = ixs[c[3]];
            d[0][6] = ixs[c[4]];
            d[1][1] = ixs[c[5]];
            d[1][3] = ixs[c[6]];
            d[1][6] = ixs[c[7]];
            // the verification instruction itself holds the decoy too
            let mut data = ed::precompile_data(2, 0, &d, &[]);
            data.extend_from_slice(&decoys[c[1]][data.len()..]);
            let tx = vec![memo(decoys[c[1]].clone()), ed_ix(data).into(), r.ix(&proof_account()).into()];
            let must = c[0] == 0 && c[2..].iter().all(|x| *x == 0);
            Some(judge(&l, &e, &tx, must, ""))
        })
        .dim("evidence", FORGERIES)
        .dim("decoy", &["attacker", "victim, other roots", "victim, same roots"]);
        for n in ["sig1", "key1", "msg1", "sig2", "key2", "msg2"] {
            s = s.dim(n, &ixs);
        }
        out.push(s);
    }

    // 3. offsets and sizes of every field, over the whole instruction
    {
        let ev: Vec<_> = (0..FORGERIES.len()).map(|h| evidence(&victim(), &attacker(), h)).collect();
        let fields = ["sig1", "key1", "msg1", "sig2", "key2", "msg2"];
        let sizes = [32u16, 0, 1, 31, 33, 64, 305, u16::MAX];
        let node = victim().pubkey();
        out.push(
            Space::new("entry-offsets", move |c| {
                let (a, b) = &ev[c[0]];
                let mut r = Report::of(node, SLOT, a, b);
                // make other places of the instruction attractive
                if c[4] == 1 {
                    r.reporter = r.node;
                    r.destination = r.node;
                }
                if c[4] == 2 {
                    r.reporter = attacker().pubkey();
                    r.destination = attacker().pubkey();
                }
                // what a forged signature was really made for, or the genuine signature
                if c[4] == 3 {
                    let (oa, ob) = elsewhere(&victim());
                    r.reporter = oa.root.into();
                    r.destination = ob.root.into();
                }
                if c[4] > 3 {
                    let s = if c[4] == 4 { ev[0].0.sig } else { ev[0].1.sig };
                    r.reporter = Pubkey::new_from_array(s[..32].try_into().unwrap());
                    r.destination = Pubkey::new_from_array(s[32..].try_into().unwrap());
                }
                let e = env();
                let l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
                let mut d = Report::entries(1);
                let (en, fi) = (c[1] / 3, [0, 2, 4][c[1] % 3]);
                let off = if c[2] < 310 { c[2] as u16 } else { [u16::MAX - 64, u16::MAX - 32, u16::MAX][c[2] - 310] };
                let change = d[en][fi] != off;
                d[en][fi] = off;
                if c[3] > 0 && fi != 4 {
                    return None;
                }
                d[en][5] = sizes[c[3]];
                let tx = vec![
                    ed_ix(ed::precompile_data(2, 0, &d, &[])).into(),
                    r.ix(&proof_account()).into(),
                ];
                Some(judge(&l, &e, &tx, c[0] == 0 && !change && c[3] == 0, ""))
            })
            .dim("evidence", FORGERIES)
            .dim("field", &fields)
            .range("offset", 313)
            .dim("message size", &sizes)
            .dim("reporter and destination", &[
                "others",
                "the node",
                "the attacker",
                "other roots of the victim",
                "genuine signature 1",
                "genuine signature 2",
            ]),
        );
    }

    // 4. places in the transaction
    {
        let n = tier.pick(4usize, 5);
        let ev: Vec<_> = (0..FORGERIES.len()).map(|h| evidence(&victim(), &attacker(), h)).collect();
        let node = victim().pubkey();
        // V<k>: verification of the report at k; W: the attacker's own; R; N: nothing; E: not ed25519
        let mut names: Vec<String> = vec!["-".into()];
        names.extend((0..n).map(|k| format!("verify@{k}")));
        names.extend(["report", "noop", "other program with verification data", "verify attacker"].map(String::from));
        let mut s = Space::new("positions", move |c| {
            let (a, b) = &ev[c[0]];
            let r = Report::of(node, SLOT, a, b);
            let e = env();
            let l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
            let own = attacker();
            let mut tx: Vec<Ix> = vec![];
            let mut ended = false;
            let mut kinds = vec![];
            for x in &c[1..] {
                if *x == 0 {
                    ended = true;
                    continue;
                }
                if ended {
                    return None;
                }
                let x = *x - 1;
                kinds.push(x);
                tx.push(if x < n {
                    Report::sigverify(x as u16).into()
                } else {
                    match x - n {
                        0 => r.ix(&proof_account()).into(),
                        1 => memo(vec![1, 2, 3]),
                        2 => memo(ed::precompile_data(2, 0, &Report::entries(2), &[])),
                        _ => {
                            let msg = [3u8; 32];
                            let mut d = ed::precompile_data(2, 0, &[[62, 65535, 30, 65535, 126, 32, 65535]; 2], &[]);
                            d.extend_from_slice(&own.pubkey().to_bytes());
                            d.extend_from_slice(&own.sign(&msg));
                            d.extend_from_slice(&msg);
                            ed_ix(d).into()
                        }
                    }
                });
            }
            if tx.is_empty() {
                return None;
            }
            let reports: Vec<usize> = (0..kinds.len()).filter(|i| kinds[*i] == n).collect();
            let must = c[0] == 0
                && reports.len() == 1
                && reports[0] > 0
                && kinds[reports[0] - 1] == reports[0]
                // nothing else in the transaction fails by itself
                && (0..kinds.len()).all(|i| kinds[i] >= n || kinds[i] == reports[0]);
            Some(judge(&l, &e, &tx, must, ""))
        })
        .dim("evidence", FORGERIES);
        for k in 0..n {
            s = s.dim(&format!("instruction {k}"), &names);
        }
        out.push(s);
    }

    // 5. invoked from another program
    {
        let ev: Vec<_> = (0..FORGERIES.len()).map(|h| evidence(&victim(), &attacker(), h)).collect();
        let node = victim().pubkey();
        let outers = ["empty", "genuine report of the attacker", "genuine report of the victim", "same as inner", "unrelated report of the victim"];
        out.push(
            Space::new("cross-program", move |c| {
                let (a, b) = &ev[c[0]];
                let r = Report::of(node, SLOT, a, b);
                let e = env();
                let l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
                let data = match c[1] {
                    0 => vec![],
                    1 => {
                        let k = attacker();
                        let (x, y) = root_conflict(&k, SLOT, 1, (Kind::Data, Kind::Code), 3);
                        Report::of(k.pubkey(), SLOT, &x, &y).data()
                    }
                    2 => Report::of(node, SLOT, &ev[0].0, &ev[0].1).data(),
                    3 => r.data(),
                    _ => {
                        let (x, y) = elsewhere(&victim());
                        Report::of(node, SLOT + 1, &x, &y).data()
                    }
                };
                let inner = r.ix(&proof_account());
                let mut metas = inner.accounts.clone();
                metas.push(solana_program::instruction::AccountMeta::new_readonly(slashing(), false));
                let outer = Ix {
                    ix: Instruction { program_id: proxy_id(), accounts: metas, data },
                    inner: vec![inner; 1 + c[2]],
                };
                let at = c[3] + 1;
                let mut tx: Vec<Ix> = (0..c[3]).map(|_| memo(vec![0])).collect();
                // which instruction the entries refer to
                let target = if c[4] == 0 { at as u16 } else { at as u16 + 1 };
                tx.push(Report::sigverify(target).into());
                tx.push(outer);
                if c[4] == 1 {
                    tx.push(memo(Report::of(node, SLOT, &ev[0].0, &ev[0].1).data()));
                }
                Some(judge(&l, &e, &tx, false, &format!("outer {}: ", outers[c[1]])))
            })
            .dim("evidence", FORGERIES)
            .dim("data of the calling instruction", &outers)
            .dim("calls", &[1, 2])
            .range("preceding instructions", 3)
            .dim("entries refer to", &["caller", "following instruction"]),
        );
    }

    // the data of the calling instruction resembles that of the call, field by field
    {
        let ev: Vec<_> = (0..FORGERIES.len()).map(|h| evidence(&victim(), &attacker(), h)).collect();
        let (v, own) = (victim(), attacker());
        let (oa, ob) = elsewhere(&v);
        let statements = ["as called", "the victim's own", "the victim's, for another slot", "the attacker's own", "the attacker's, on the same root"];
        let shapes = ["whole", "without its last byte", "one byte more", "shifted by one byte", "up to the first root only"];
        out.push(
            Space::new("caller-data", move |c| {
                let (a, b) = &ev[c[0]];
                let node = v.pubkey();
                let r = Report::of(node, SLOT, a, b);
                let mut o = r.clone();
                if c[1] == 1 {
                    o.node = own.pubkey();
                }
                let said = |how: usize, s: &Shred, genuine: &Shred, other: &Shred| match how {
                    0 => (s.root, s.sig),
                    1 => (genuine.root, genuine.sig),
                    2 => (other.root, other.sig),
                    3 => ([7; 32], own.sign(&[7; 32])),
                    _ => (s.root, own.sign(&s.root)),
                };
                (o.root1, o.sig1) = said(c[2], a, &ev[0].0, &oa);
                (o.root2, o.sig2) = said(c[3], b, &ev[0].1, &ob);
                match c[4] {
                    0 => {}
                    1 => o.slot += 1,
                    2 => o.offset += 1,
                    3 => o.reporter = world::name("other reporter"),
                    _ => o.destination = world::name("other destination"),
                }
                let mut data = o.data();
                let mut d = Report::entries(1);
                match c[5] {
                    0 => {}
                    1 => drop(data.pop()),
                    2 => data.push(0),
                    3 => {
                        data.insert(0, 1);
                        for e in &mut d {
                            (e[0], e[2], e[4]) = (e[0] + 1, e[2] + 1, e[4] + 1);
                        }
                    }
                    _ => data.truncate(OFF_ROOT1 as usize),
                }
                let e = env();
                let l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
                let inner = r.ix(&proof_account());
                let mut metas = inner.accounts.clone();
                metas.push(solana_program::instruction::AccountMeta::new_readonly(slashing(), false));
                let outer = Ix {
                    ix: Instruction { program_id: proxy_id(), accounts: metas, data },
                    inner: vec![inner],
                };
                let tx = vec![ed_ix(ed::precompile_data(2, 0, &d, &[])).into(), outer];
                Some(judge(&l, &e, &tx, false, "caller: "))
            })
            .dim("evidence", FORGERIES)
            .dim("node named by the caller", &["the same", "the attacker"])
            .dim("statement 1 of the caller", &statements)
            .dim("statement 2 of the caller", &statements)
            .dim("elsewhere", &["the same", "slot", "offset", "reporter", "destination"])
            .dim("data of the caller", &shapes),
        );
    }

    // 6. what was verified against what is recorded
    {
        let v = victim();
        // four batches of the victim, pairwise conflicting
        let sh: Vec<Shred> = (0..2)
            .flat_map(|i| {
                let (a, b) = root_conflict(&v, SLOT, 1, (Kind::Data, Kind::Data), 10 + i);
                [a, b]
            })
            .collect();
        let alt: Vec<[u8; 64]> = sh.iter().map(|s| v.sign_again(&s.root)).collect();
        let node = v.pubkey();
        out.push(
            Space::new("mismatch", move |c| {
                // verified: pair (c0, c1); recorded: pair (c2, c3), embedded signatures c4, c5
                let mut r = Report::of(node, SLOT, &sh[c[0]], &sh[c[1]]);
                if c[6] == 1 {
                    r.sig1 = alt[c[0]];
                }
                if c[7] == 1 {
                    r.sig2 = alt[c[1]];
                }
                let embed = |i: usize, how: usize| match how {
                    0 => sh[i].bytes.clone(),
                    1 => with_sig(&sh[i], alt[i]).bytes,
                    2 => with_sig(&sh[i], r.sig1).bytes,
                    3 => with_sig(&sh[i], r.sig2).bytes,
                    _ => with_sig(&sh[i], [0; 64]).bytes,
                };
                let (x, y) = (embed(c[2], c[4]), embed(c[3], c[5]));
                let e = env();
                let l = scene(&e, &r, &pack(&x, &y));
                let must = c[0] == c[2]
                    && c[1] == c[3]
                    && c[0] != c[1]
                    && x[..64] == r.sig1
                    && y[..64] == r.sig2;
                Some(judge(&l, &e, &world::report_tx(&r, &proof_account()), must, ""))
            })
            .range("verified 1", 4)
            .range("verified 2", 4)
            .range("recorded 1", 4)
            .range("recorded 2", 4)
            .dim("signature in shred 1", &["its own", "its second", "verified 1", "verified 2", "zero"])
            .dim("signature in shred 2", &["its own", "its second", "verified 1", "verified 2", "zero"])
            .dim("verified signature 1", &["first", "second"])
            .dim("verified signature 2", &["first", "second"]),
        );
    }

    // 7. keys: who signs, who is named, which key is verified
    {
        let keys = [victim(), attacker()];
        let shr: Vec<[Shred; 2]> = (0..2)
            .map(|i| {
                let a = root_conflict(&keys[i], SLOT, 1, (Kind::Data, Kind::Data), 20);
                [a.0, a.1]
            })
            .collect();
        // a conflict within one batch: both statements are about the same root
        let one: Vec<[Shred; 2]> = (0..2)
            .map(|i| {
                let leaf = |i, flags| Leaf {
                    layout: Layout::new(Kind::Data, 1, 4),
                    hdr: Hdr::data(SLOT, 7, 64, i, flags),
                    fill: 5,
                };
                let mut b = batch(&keys[i], 21, &[leaf(65, 0xC0), leaf(66, 0)]).unwrap();
                let y = b.pop().unwrap();
                [b.pop().unwrap(), y]
            })
            .collect();
        let places = [OFF_NODE, 49, 81, OFF_NODE + 1];
        out.push(
            Space::new("keys", move |c| {
                let shr = if c[7] == 0 { &shr } else { &one };
                let (a, b) = (&shr[c[0]][0], &shr[c[1]][1]);
                let mut r = Report::of(keys[c[2]].pubkey(), SLOT, a, b);
                r.reporter = keys[c[3]].pubkey();
                r.destination = keys[c[4]].pubkey();
                let e = env();
                let l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
                let mut d = Report::entries(1);
                d[0][2] = places[c[5]];
                d[1][2] = places[c[6]];
                let tx = vec![
                    ed_ix(ed::precompile_data(2, 0, &d, &[])).into(),
                    r.ix(&proof_account()).into(),
                ];
                let must = c[0] == c[2] && c[1] == c[2] && c[5] == 0 && c[6] == 0;
                Some(judge(&l, &e, &tx, must, ""))
            })
            .dim("signer of shred 1", &["victim", "attacker"])
            .dim("signer of shred 2", &["victim", "attacker"])
            .dim("named node", &["victim", "attacker"])
            .dim("reporter", &["victim", "attacker"])
            .dim("destination", &["victim", "attacker"])
            .dim("key 1 at", &places)
            .dim("key 2 at", &places)
            .dim("batches", &["two", "one"]),
        );
    }

    // near misses: one bit between what was verified and what is recorded
    {
        let v = victim();
        let (a, b) = root_conflict(&v, SLOT, 1, (Kind::Data, Kind::Code), 40);
        let what = ["named node", "signature in shred 1", "signature in shred 2", "message 1", "message 2"];
        let bits = tier.pick(vec![0x01u8, 0x80], (0..8).map(|i| 1 << i).collect::<Vec<u8>>());
        let bl = bits.clone();
        out.push(
            Space::new("one-bit", move |c| {
                let (byte, bit) = (c[1], bits[c[2]]);
                if byte >= 32 && ![1, 2].contains(&c[0]) {
                    return None;
                }
                let (mut a, mut b) = (a.clone(), b.clone());
                let mut r = Report::of(v.pubkey(), SLOT, &a, &b);
                let mut d = Report::entries(1);
                let flip = |s: &[u8; 64]| {
                    let mut s = *s;
                    s[byte] ^= bit;
                    s
                };
                match c[0] {
                    0 => {
                        // the leader's own key is verified where the reporter is
                        r.reporter = v.pubkey();
                        let mut n = v.pubkey().to_bytes();
                        n[byte] ^= bit;
                        r.node = n.into();
                        d[0][2] = OFF_NODE + 32;
                        d[1][2] = OFF_NODE + 32;
                    }
                    1 => a = with_sig(&a, flip(&a.sig)),
                    2 => b = with_sig(&b, flip(&b.sig)),
                    n => {
                        let (s, root) = if n == 3 { (&mut a, &mut r.root1) } else { (&mut b, &mut r.root2) };
                        root[byte] ^= bit;
                        let sig = v.sign(&root[..]);
                        *s = with_sig(s, sig);
                        if n == 3 {
                            r.sig1 = sig;
                        } else {
                            r.sig2 = sig;
                        }
                    }
                }
                let e = env();
                let l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
                let tx = vec![
                    ed_ix(ed::precompile_data(2, 0, &d, &[])).into(),
                    r.ix(&proof_account()).into(),
                ];
                Some(judge(&l, &e, &tx, false, ""))
            })
            .dim("differs in", &what)
            .range("byte", 64)
            .dim("bit", &bl),
        );
    }

    // programs whose id is nearly that of the native one
    {
        let ev: Vec<_> = (0..FORGERIES.len()).map(|h| evidence(&victim(), &attacker(), h)).collect();
        let node = victim().pubkey();
        let bits = tier.pick(vec![0x01u8, 0x10], (0..8).map(|i| 1 << i).collect::<Vec<u8>>());
        let bl = bits.clone();
        let hs = tier.pick(vec![0usize, 3], (0..FORGERIES.len()).collect());
        let hl: Vec<&str> = hs.iter().map(|h| FORGERIES[*h]).collect();
        out.push(
            Space::new("look-alike-programs", move |c| {
                let (a, b) = &ev[hs[c[0]]];
                let r = Report::of(node, SLOT, a, b);
                let e = env();
                let l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
                let mut v = Report::sigverify(1);
                v.program_id = rt::nearly(&v.program_id, c[1], bits[c[2]]);
                Some(judge(&l, &e, &[v.into(), r.ix(&proof_account()).into()], false, ""))
            })
            .dim("evidence", &hl)
            .range("byte", 32)
            .dim("bit", &bl),
        );
    }

    // signed messages other than 32 bytes of root, which contain a root
    {
        let v = victim();
        let (a, b) = root_conflict(&v, SLOT, 1, (Kind::Data, Kind::Code), 41);
        out.push(
            Space::new("message-lengths", move |c| {
                // the message ends up where reporter and destination are
                let (n, first) = (c[1], c[0] == 0);
                let s = if first { &a } else { &b };
                let mut area = [0x5Cu8; 64];
                if c[2] == 0 {
                    area[..32].copy_from_slice(&s.root);
                } else if n >= 32 {
                    area[n - 32..n].copy_from_slice(&s.root);
                } else {
                    area[..n].copy_from_slice(&s.root[32 - n..]);
                }
                let forged = with_sig(s, v.sign(&area[..n]));
                let (x, y) = if first { (forged, b.clone()) } else { (a.clone(), forged) };
                let mut r = Report::of(v.pubkey(), SLOT, &x, &y);
                r.reporter = Pubkey::new_from_array(area[..32].try_into().unwrap());
                r.destination = Pubkey::new_from_array(area[32..].try_into().unwrap());
                let mut d = Report::entries(1);
                let i = usize::from(!first);
                d[i][4] = OFF_NODE + 32;
                d[i][5] = n as u16;
                let e = env();
                let l = scene(&e, &r, &pack(&x.bytes, &y.bytes));
                let tx = vec![
                    ed_ix(ed::precompile_data(2, 0, &d, &[])).into(),
                    r.ix(&proof_account()).into(),
                ];
                Some(judge(&l, &e, &tx, false, ""))
            })
            .dim("of shred", &[1, 2])
            .range("length", 65)
            .dim("the root is", &["at its start", "at its end"]),
        );
    }

    // 8. the documented layout, wherever it sits and whatever follows
    {
        let flav: Vec<_> = (0..3)
            .flat_map(|f| {
                [(Kind::Data, Kind::Data), (Kind::Data, Kind::Code), (Kind::Code, Kind::Data), (Kind::Code, Kind::Code)]
                    .map(|k| root_conflict(&victim(), SLOT, f, k, 30))
            })
            .collect();
        let nf = flav.len();
        let node = victim().pubkey();
        let own = attacker();
        out.push(
            Space::new("documented-layout", move |c| {
                let (a, b) = &flav[c[0]];
                let r = Report::of(node, SLOT, a, b);
                let e = env();
                let l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
                let mut tx: Vec<Ix> = (0..c[1]).map(|_| memo(vec![5; c[2]])).collect();
                if c[1] == 0 && c[2] > 0 {
                    return None;
                }
                let at = c[1] as u16 + 1;
                let mut entries = Report::entries(at).to_vec();
                // unrelated entries: the attacker's own statement, in a later instruction
                for _ in 0..c[3] {
                    entries.push([32, at + 1, 0, at + 1, 96, 32, at + 1]);
                }
                tx.push(ed_ix(ed::precompile_data(entries.len() as u8, 0, &entries, &vec![0; c[4]])).into());
                tx.push(r.ix(&proof_account()).into());
                if c[3] > 0 {
                    let msg = [9u8; 32];
                    let mut m = own.pubkey().to_bytes().to_vec();
                    m.extend_from_slice(&own.sign(&msg));
                    m.extend_from_slice(&msg);
                    tx.push(memo(m));
                }
                Some(judge(&l, &e, &tx, true, ""))
            })
            .range("shreds", nf)
            .range("preceding instructions", tier.pick(4, 8))
            .range("their data length", tier.pick(4, 8))
            .range("unrelated entries", 3)
            .range("trailing bytes", tier.pick(5, 9)),
        );
    }
    out
}
