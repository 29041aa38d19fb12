//! C02 / C03: the conflict decision.

use crate::{
    ed::Key,
    explore::{fp, Space, Tier, Verdict},
    rt::{self, Env},
    shreds::{batch, Hdr, Kind, Layout, Leaf, Shred},
    spec::{self, decode},
    world::{self, run_report, Report},
    Meta,
};
use solana_program::pubkey::Pubkey;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Judge {
    /// C02: accepted => conflict
    Sound,
    /// C03: conflict => accepted, in both orders
    Complete,
    /// both directions
    Exact,
    /// C15: refusals carry the code of their reason
    Code,
}

const ASSUME: &[&str] = &[
    "SHA-256 and ed25519 are collision free / unforgeable; signatures are produced by the harness",
    "runtime behaviour as modelled in mc/src/rt.rs (validated against the real bank by the conformance run)",
];

pub const META_C02: Meta = Meta {
    level: "exploration",
    rule: "every ordered pair of leader-signed shreds over the header alphabet, every relation of their batches and every third-party re-encoding is executed as a full report transaction on the real program; non-trivial = both shreds decode and are authenticated, fingerprint over both payloads; judged: accepted implies the reference model finds a conflict",
    assumptions: ASSUME,
};
pub const META_C03: Meta = Meta {
    level: "exploration",
    rule: "same spaces as C02; judged: the reference model finds a conflict implies the report is accepted, and the swapped pair gets the same answer; non-trivial = both shreds decode and are authenticated, fingerprint over both payloads",
    assumptions: ASSUME,
};

pub const SLOT: u64 = 1_000_003;

fn env() -> Env {
    Env::at(SLOT + 100, 432_000)
}

fn judge(j: Judge, env: &Env, slot: u64, key: &Key, a: &Shred, b: &Shred) -> Verdict {
    let r = Report::of(key.pubkey(), slot, a, b);
    let (da, db) = (decode(&a.bytes), decode(&b.bytes));
    let want = match (&da, &db) {
        (Some(x), Some(y)) => Some(spec::conflict(slot, x, y)),
        _ => None,
    };
    let got = run_report(env, &r, &a.bytes, &b.bytes);
    let f = fp(&(&a.bytes, &b.bytes, slot));
    let class = format!(
        "{} / {}",
        match &want {
            None => "undecodable".into(),
            Some(Ok(Some(c))) => format!("conflict {c:?}"),
            Some(Ok(None)) => "unrepresentable".into(),
            Some(Err(n)) => format!("no conflict ({n:?})"),
        },
        if got.ok() { "accepted" } else { "rejected" },
    );
    let fpv = want.is_some().then_some(f);
    let wrong = match j {
        Judge::Sound => {
            got.ok() && !matches!(want, Some(Ok(_)))
        }
        Judge::Exact => match want {
            Some(Ok(Some(_))) => !got.ok(),
            Some(Ok(None)) => false,
            _ => got.ok(),
        },
        Judge::Code => match &want {
            Some(Err(n)) => {
                let c = super::errors::code_of(*n);
                !matches!(&got.result, Err(e) if e.err == crate::rt::IxErr::Program(solana_program::program_error::ProgramError::Custom(c)))
            }
            _ => false,
        },
        Judge::Complete => {
            let mut w = matches!(want, Some(Ok(Some(_)))) && !got.ok();
            // unspecified pairs must still not depend on the order
            if !w && matches!(want, Some(Ok(None))) {
                let r2 = Report::of(key.pubkey(), slot, b, a);
                w = run_report(env, &r2, &b.bytes, &a.bytes).ok() != got.ok();
            }
            w
        }
    };
    Verdict {
        nontrivial: fpv,
        violation: wrong.then(|| format!("{class}, program said {}", got.label())),
        class,
    }
}

/// Leaves over a small header alphabet whose field values collide.
fn alphabet(tier: Tier, proof: u8) -> Vec<(Kind, Hdr)> {
    let mut v = vec![];
    let fecs: &[u32] = tier.pick(&[64, 65, 66], &[0, 64, 65, 66, 67]);
    let idxs: &[u32] = tier.pick(&[64, 65, 66, 67], &[64, 65, 66, 67, 68]);
    let flags: &[u8] = tier.pick(&[0, 0x40, 0x80, 0xC0, 0xFF], &[0, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xC0, 0xFF]);
    for &f in fecs {
        for &i in idxs {
            if i < f || (i - f) >> proof != 0 {
                continue;
            }
            for &g in flags {
                v.push((Kind::Data, Hdr::data(SLOT, 7, f, i, g)));
            }
        }
    }
    let nds: &[u16] = tier.pick(&[0, 1, 2, 3], &[0, 1, 2, 3, 4]);
    let ncs: &[u16] = &[2, 3];
    let poss: &[u16] = tier.pick(&[0, 1], &[0, 1, 2]);
    let cidx: &[u32] = tier.pick(&[66, 67], &[66, 67, 68]);
    for &f in fecs {
        for &nd in nds {
            for &nc in ncs {
                for &i in cidx {
                    for &p in poss {
                        v.push((Kind::Code, Hdr::code(SLOT, 7, f, i, nd, nc, p)));
                    }
                }
            }
        }
    }
    v
}

/// Two shreds, in one batch or in two.
fn pair(key: &Key, one: bool, a: Leaf, b: Leaf) -> Option<(Shred, Shred)> {
    if one {
        if a.layout.proof != b.layout.proof {
            return None;
        }
        let mut v = batch(key, 1, &[a, b])?;
        let y = v.pop()?;
        Some((v.pop()?, y))
    } else {
        Some((batch(key, 1, &[a])?.pop()?, batch(key, 2, &[b])?.pop()?))
    }
}

/// All shreds of one honest block: `sets` FEC sets of `n` data and `n` coding
/// shreds each.
pub fn honest_block(key: &Key, slot: u64, flavour: usize, sets: u32, n: u32, proof: u8) -> Vec<Shred> {
    let mut out = vec![];
    for s in 0..sets {
        let mut leaves = vec![];
        for i in 0..n {
            let index = s * n + i;
            let last = index + 1 == sets * n;
            let flags = if last { 0xC1 } else if i + 1 == n { 0x41 } else { 0x01 };
            leaves.push(Leaf {
                layout: Layout::new(Kind::Data, flavour, proof),
                hdr: Hdr::data(slot, 7, s * n, index, flags),
                fill: index as u8,
            });
        }
        for i in 0..n {
            leaves.push(Leaf {
                layout: Layout::new(Kind::Code, flavour, proof),
                hdr: Hdr::code(slot, 7, s * n, s * n + i, n as u16, n as u16, i as u16),
                fill: 0x80 | (s * n + i) as u8,
            });
        }
        out.extend(batch(key, s as u64, &leaves).unwrap());
    }
    out
}

const ENCODINGS: &[&str] = &[
    "as is",
    "one zero byte appended",
    "one 0xff byte appended",
    "29 bytes appended",
    "500 bytes appended",
    "other retransmitter signature",
    "retransmitter signature cut by one byte",
    "retransmitter signature cut off",
];

fn encode(s: &Shred, how: usize) -> Option<Vec<u8>> {
    let l = Layout::of_variant(s.bytes[64]).unwrap();
    let mut b = s.bytes.clone();
    match how {
        0 => {}
        1 => b.push(0),
        2 => b.push(0xff),
        3 => b.extend([7u8; 29]),
        4 => b.extend([9u8; 500]),
        5 | 6 | 7 if !l.resigned => return None,
        5 => b[l.proof_end()..].fill(0x11),
        6 => b.truncate(l.size() - 1),
        7 => b.truncate(l.proof_end()),
        _ => unreachable!(),
    }
    Some(b)
}

pub fn spaces(tier: Tier, j: Judge) -> Vec<Space> {
    let mut out = vec![];

    // 1. every pair over the header alphabet
    let alpha = alphabet(tier, 3);
    let n = alpha.len();
    let labels: Vec<String> = alpha
        .iter()
        .map(|(k, h)| match k {
            Kind::Data => format!("data fec{} i{} flags{:02x}", h.fec, h.index, h.flags),
            Kind::Code => format!("code fec{} i{} nd{} nc{} pos{}", h.fec, h.index, h.nd, h.nc, h.pos),
        })
        .collect();
    {
        let alpha = alpha.clone();
        let key = Key::new("leader");
        let e = env();
        out.push(
            Space::new("header-pairs", move |c| {
                let (ka, ha) = alpha[c[0]];
                let (kb, hb) = alpha[c[1]];
                let (fa, fb) = [(0, 0), (1, 1), (2, 2)][c[3]];
                let a = Leaf { layout: Layout::new(ka, fa, 3), hdr: ha, fill: 1 };
                let b = Leaf { layout: Layout::new(kb, fb, 3), hdr: hb, fill: 1 };
                let (x, y) = pair(&key, c[2] == 0, a, b)?;
                Some(judge(j, &e, SLOT, &key, &x, &y))
            })
            .dim("first", &labels)
            .dim("second", &labels)
            .dim("batches", &["one", "two"])
            .dim("flavour", &tier.pick(vec!["plain"], vec!["plain", "chained", "resigned"])),
        );
    }

    // 2. all combinations of variants and proof sizes over one representative
    //    pair per conflict class and near-miss
    let reps: Vec<(&str, Kind, Hdr, Kind, Hdr, bool)> = representatives();
    {
        let reps2 = representatives();
        let key = Key::new("leader");
        let e = env();
        out.push(
            Space::new("variants", move |c| {
                let (_, ka, ha, kb, hb, one) = reps2[c[0]];
                let (pa, pb) = (3 + c[3] as u8, 3 + c[4] as u8);
                let a = Leaf { layout: Layout::new(ka, c[1], pa), hdr: ha, fill: 1 };
                let b = Leaf { layout: Layout::new(kb, c[2], pb), hdr: hb, fill: 2 - c[5] as u8 };
                let (x, y) = pair(&key, one, a, b)?;
                let (x, y) = if c[6] == 0 { (x, y) } else { (y, x) };
                Some(judge(j, &e, SLOT, &key, &x, &y))
            })
            .dim("pair", &reps.iter().map(|r| r.0).collect::<Vec<_>>())
            .dim("flavour1", &["plain", "chained", "resigned"])
            .dim("flavour2", &["plain", "chained", "resigned"])
            .range("proof size 1 - 3", tier.pick(4, 13))
            .range("proof size 2 - 3", tier.pick(4, 13))
            .dim("payload", &["different", "equal"])
            .dim("order", &["ab", "ba"]),
        );
    }

    // 3. slots and versions
    {
        let reps3 = representatives();
        let key = Key::new("leader");
        let e = env();
        let slots = [SLOT, SLOT + 1, SLOT - 1, SLOT + 256, SLOT + (1 << 32)];
        let versions = [7u16, 8, 7 + 256, 0];
        out.push(
            Space::new("slot-version", move |c| {
                let (_, ka, mut ha, kb, mut hb, one) = reps3[c[0]];
                ha.slot = slots[c[1]];
                hb.slot = slots[c[2]];
                ha.version = versions[c[4]];
                hb.version = versions[c[5]];
                let a = Leaf { layout: Layout::new(ka, 1, 4), hdr: ha, fill: 1 };
                let b = Leaf { layout: Layout::new(kb, 1, 4), hdr: hb, fill: 2 };
                let (x, y) = pair(&key, one, a, b)?;
                let mut e = e.clone();
                if slots[c[3]] > e.clock.slot {
                    e.clock.slot = slots[c[3]];
                }
                Some(judge(j, &e, slots[c[3]], &key, &x, &y))
            })
            .dim("pair", &reps.iter().map(|r| r.0).collect::<Vec<_>>())
            .dim("slot1", &slots)
            .dim("slot2", &slots)
            .dim("reported slot", &slots)
            .dim("version1", &versions)
            .dim("version2", &versions),
        );
    }

    // 4. single-bit differences of each header field
    {
        let key = Key::new("leader");
        let e = env();
        let fields = ["slot", "version", "fec", "index", "index last", "nd", "nc", "pos", "flags"];
        out.push(
            Space::new("bits", move |c| {
                let (f, bit) = (fields[c[0]], c[1]);
                let kind = if c[2] == 0 { Kind::Data } else { Kind::Code };
                let width = match f {
                    "slot" => 64,
                    "version" | "nd" | "nc" | "pos" => 16,
                    "flags" => 8,
                    _ => 32,
                };
                if bit >= width {
                    return None;
                }
                let base = match kind {
                    Kind::Data => Hdr::data(SLOT, 7, 0, 1, 0),
                    Kind::Code => Hdr::code(SLOT, 7, 0, 70_000, 2, 2, 1),
                };
                let (mut a, mut b) = (base, base);
                match f {
                    "slot" => b.slot ^= 1u64 << bit,
                    "version" => b.version ^= 1 << bit,
                    "fec" => {
                        b.fec ^= 1 << bit;
                        b.index = b.index.wrapping_add(b.fec);
                        a.index = b.index;
                        if kind == Kind::Data {
                            a.fec = if a.index >> 14 == 0 { 0 } else { a.index };
                        }
                    }
                    "index" | "index last" => {
                        b.index ^= 1 << bit;
                        if kind == Kind::Data {
                            // keep batch positions legal: fec sets follow
                            a.fec = a.index;
                            b.fec = b.index;
                            if f == "index last" {
                                a.flags = 0xC0;
                            } else {
                                b.flags = 0xC0;
                            }
                        } else if f == "index last" {
                            return None;
                        }
                    }
                    "flags" => {
                        if kind == Kind::Code {
                            return None;
                        }
                        a.index = 3;
                        b.index = 2;
                        b.flags = 0xC0 ^ (1 << bit);
                    }
                    _ if kind == Kind::Data => return None,
                    "nd" => b.nd ^= 1 << bit,
                    "nc" => b.nc ^= 1 << bit,
                    "pos" => b.pos ^= 1 << bit,
                    _ => unreachable!(),
                }
                // same-index code pairs are payload conflicts: shift unless
                // the index is the subject
                if kind == Kind::Code && matches!(f, "nd" | "nc") && c[3] == 0 {
                    b.index += 1;
                    b.pos += 1;
                }
                let la = Leaf { layout: Layout::new(kind, 1, 15), hdr: a, fill: 1 };
                let lb = Leaf { layout: Layout::new(kind, 1, 15), hdr: b, fill: 1 };
                let (x, y) = pair(&key, c[4] == 0, la, lb)?;
                let (x, y) = if c[5] == 0 { (x, y) } else { (y, x) };
                Some(judge(j, &e, SLOT, &key, &x, &y))
            })
            .dim("field", &fields)
            .range("bit", 64)
            .dim("kind", &["data", "code"])
            .dim("index shift", &[true, false])
            .dim("batches", &["one", "two"])
            .dim("order", &["ab", "ba"]),
        );
    }

    // 5. extreme field values
    {
        let key = Key::new("leader");
        let e = env();
        const M: u32 = u32::MAX;
        let mut v: Vec<(Kind, Hdr)> = vec![];
        for fec in [0u32, 1, M - 2, M - 1, M] {
            for d in [0u32, 1, 2] {
                if let Some(i) = fec.checked_add(d) {
                    for g in [0u8, 0xC0] {
                        v.push((Kind::Data, Hdr::data(SLOT, 7, fec, i, g)));
                    }
                }
            }
            for nd in [0u16, 1, 2, 32_000] {
                for (i, p) in [(0u32, 0u16), (0, 1), (5, 5), (M, 0), (M, 1)] {
                    v.push((Kind::Code, Hdr::code(SLOT, 7, fec, i, nd, 1, p)));
                }
            }
        }
        let l: Vec<String> = v.iter().map(|(k, h)| format!("{k:?} fec{} i{} nd{} pos{} flags{:x}", h.fec, h.index, h.nd, h.pos, h.flags)).collect();
        out.push(
            Space::new("extremes", move |c| {
                let (ka, ha) = v[c[0]];
                let (kb, hb) = v[c[1]];
                let a = Leaf { layout: Layout::new(ka, 0, 15), hdr: ha, fill: 1 };
                let b = Leaf { layout: Layout::new(kb, 0, 15), hdr: hb, fill: 1 };
                let (x, y) = pair(&key, c[2] == 0, a, b)?;
                Some(judge(j, &e, SLOT, &key, &x, &y))
            })
            .dim("first", &l)
            .dim("second", &l)
            .dim("batches", &["one", "two"]),
        );
    }

    // 6. honest block: nothing a third party does to its shreds is a conflict
    {
        let key = Key::new("leader");
        let e = env();
        let (sets, n, proof) = tier.pick((3u32, 3u32, 3u8), (3, 6, 4));
        let blocks: Vec<Vec<Shred>> =
            (0..3).map(|f| honest_block(&key, SLOT, f, sets, n, proof)).collect();
        let m = blocks[0].len();
        out.push(
            Space::new("honest-block", move |c| {
                let (x, y) = (&blocks[c[0]][c[1]], &blocks[c[0]][c[2]]);
                let x = Shred { bytes: encode(x, c[3])?, ..x.clone() };
                let y = Shred { bytes: encode(y, c[4])?, ..y.clone() };
                let v = judge(j, &e, SLOT, &key, &x, &y);
                if j == Judge::Sound && v.class.starts_with("conflict") {
                    return Some(Verdict::bad("model finds conflict in honest block", v.class));
                }
                Some(v)
            })
            .dim("flavour", &["plain", "chained", "resigned"])
            .range("first", m)
            .range("second", m)
            .dim("encoding1", ENCODINGS)
            .dim("encoding2", ENCODINGS),
        );
    }

    // 7. dishonest pairs re-encoded: appended bytes or another retransmitter
    //    signature change nothing about the answer
    {
        let reps7 = representatives();
        let key = Key::new("leader");
        let e = env();
        out.push(
            Space::new("re-encoded", move |c| {
                let (_, ka, ha, kb, hb, one) = reps7[c[0]];
                let a = Leaf { layout: Layout::new(ka, c[1], 4), hdr: ha, fill: 1 };
                let b = Leaf { layout: Layout::new(kb, c[1], 4), hdr: hb, fill: 2 - c[4] as u8 };
                let (x, y) = pair(&key, one, a, b)?;
                let x = Shred { bytes: encode(&x, c[2])?, ..x };
                let y = Shred { bytes: encode(&y, c[3])?, ..y };
                Some(judge(j, &e, SLOT, &key, &x, &y))
            })
            .dim("pair", &reps.iter().map(|r| r.0).collect::<Vec<_>>())
            .dim("flavour", &["plain", "chained", "resigned"])
            .dim("encoding1", ENCODINGS)
            .dim("encoding2", ENCODINGS)
            .dim("payload", &["different", "equal"]),
        );
    }

    // 8. the leader signs one batch twice with different nonces
    {
        let key = Key::new("leader");
        let e = env();
        out.push(
            Space::new("two-signatures", move |c| {
                let kind = if c[0] == 0 { Kind::Data } else { Kind::Code };
                let h = match kind {
                    Kind::Data => Hdr::data(SLOT, 7, 64, 65, 0),
                    Kind::Code => Hdr::code(SLOT, 7, 64, 65, 2, 2, 1),
                };
                let a = batch(&key, 1, &[Leaf { layout: Layout::new(kind, c[1], 4), hdr: h, fill: 3 }])?.pop()?;
                let mut b = a.clone();
                if c[2] == 1 {
                    b.sig = key.sign_again(&b.root);
                    b.bytes[..64].copy_from_slice(&b.sig);
                }
                Some(judge(j, &e, SLOT, &key, &a, &b))
            })
            .dim("kind", &["data", "code"])
            .dim("flavour", &["plain", "chained", "resigned"])
            .dim("second signature", &["same", "different"]),
        );
    }
    // 9. one shred in two encodings, at every proof size
    {
        let key = Key::new("leader");
        let e = env();
        out.push(
            Space::new("re-encoded-proof-sizes", move |c| {
                let proof = c[2] as u8;
                let (kind, hdr) = if c[0] == 0 {
                    (Kind::Data, Hdr::data(SLOT, 7, 64, 64, 0))
                } else {
                    // a batch of one coding shred has no data shreds
                    (Kind::Code, Hdr::code(SLOT, 7, 64, 64, u16::from(proof > 0), 1, 0))
                };
                let s = batch(&key, 1, &[Leaf { layout: Layout::new(kind, c[1], proof), hdr, fill: 3 }])?.pop()?;
                let x = Shred { bytes: encode(&s, c[3])?, ..s.clone() };
                let y = Shred { bytes: encode(&s, c[4])?, ..s };
                Some(judge(j, &e, SLOT, &key, &x, &y))
            })
            .dim("kind", &["data", "code"])
            .dim("flavour", &["plain", "chained", "resigned"])
            .range("proof size", 16)
            .dim("encoding1", ENCODINGS)
            .dim("encoding2", ENCODINGS),
        );
    }

    // 10. erasure parameters over boundary values: every pair of one parameter
    {
        let key = Key::new("leader");
        let e = env();
        let small = [0u32, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 16_383];
        let v16: Vec<u32> = small.iter().copied().chain([16_384, 32_767, 32_768, 32_769, 65_534, 65_535]).collect();
        let v32: Vec<u32> = v16.iter().copied().chain([65_536, 65_537, 131_072, 1 << 24, 1 << 31, u32::MAX - 1, u32::MAX]).collect();
        let labels = v32.clone();
        out.push(
            Space::new("erasure-values", move |c| {
                let (a, b) = (v32[c[1]], v32[c[2]]);
                let (mut x, mut y) = (Hdr::code(SLOT, 7, 64, 96, 32, 32, 0), Hdr::code(SLOT, 7, 64, 97, 32, 32, 1));
                match c[0] {
                    0 => (x.nd, y.nd) = (u16::try_from(a).ok()?, u16::try_from(b).ok()?),
                    1 => (x.nc, y.nc) = (u16::try_from(a).ok()?, u16::try_from(b).ok()?),
                    _ => (x.index, y.index) = (a, b.checked_add(1)?),
                }
                let leaf = |hdr, fill| Leaf { layout: Layout::new(Kind::Code, 1, 15), hdr, fill };
                let (x, y) = pair(&key, c[3] == 0, leaf(x, 1), leaf(y, 2))?;
                Some(judge(j, &e, SLOT, &key, &x, &y))
            })
            .dim("parameter", &["data shreds", "coding shreds", "first index"])
            .dim("first", &labels)
            .dim("second", &labels)
            .dim("batches", &["one", "two"]),
        );
    }
    {
        // the decision is about the shreds: nothing else about the report matters
        let reps9 = representatives();
        let nr = reps9.len();
        let slots: Vec<u64> = vec![0, 1, 2, 255, 431_999, 432_000, 1 << 32, 1 << 63, u64::MAX - 432_000];
        let sl = slots.clone();
        let buffers: [(usize, usize); 6] = [(0, 0), (33, 0), (0, 1), (65_536, 5), (1, 200_000), (2_000_001, 0)];
        let names = ["exact", "33 before", "1 after", "65536 before, 5 after", "1 before, 200000 after", "2000001 before"];
        out.push(
            Space::new("anywhere", move |c| {
                let (_, ka, ha, kb, hb, one) = reps9[c[0]].clone();
                let slot = slots[c[1]];
                let leaf = |kind, mut hdr: Hdr, fill| {
                    hdr.slot = slot;
                    Leaf { layout: Layout::new(kind, 1, 4), hdr, fill }
                };
                let key = Key::new("leader");
                let (mut a, mut b) = pair(&key, one, leaf(ka, ha, 1), leaf(kb, hb, if one { 1 } else { 2 }))?;
                if c[4] == 1 {
                    std::mem::swap(&mut a, &mut b);
                }
                let mut r = Report::of(key.pubkey(), slot, &a, &b);
                let (zero, one) = (Pubkey::new_from_array([0; 32]), world::name("one"));
                [r.reporter, r.destination] =
                    [[one, world::name("two")], [one, one], [zero, one], [one, zero], [key.pubkey(), key.pubkey()]][c[3]];
                let (before, after) = buffers[c[2]];
                r.offset = before as u64;
                let mut account = vec![0x3C; before];
                account.extend(world::pack(&a.bytes, &b.bytes));
                account.resize(account.len() + after, 0xF1);
                let e = Env::at(slot + [0, 1, 432_000][c[5]], 432_000);
                let mut l = world::scene(&e, &r, &world::pack(&a.bytes, &b.bytes));
                rt::put(&mut l, world::proof_account(), 1_000_000_000, account, world::name("record-program"));
                let got = rt::execute(&l, &e, &world::report_tx(&r, &world::proof_account()));
                let want = match (decode(&a.bytes), decode(&b.bytes)) {
                    (Some(x), Some(y)) => matches!(spec::conflict(slot, &x, &y), Ok(Some(_))),
                    _ => return None,
                };
                let bad = match j {
                    Judge::Sound => got.ok() && !want,
                    Judge::Complete => want && !got.ok(),
                    _ => want != got.ok(),
                };
                let class = format!(
                    "{} / {}",
                    if want { "conflict" } else { "no conflict" },
                    if got.ok() { "accepted" } else { "rejected" }
                );
                Some(Verdict { class, nontrivial: Some(fp(&c)), violation: bad.then(|| got.label()) })
            })
            .range("pair", nr)
            .dim("slot", &sl)
            .dim("proof in its account", &names)
            .dim("reporter and destination", &["two", "the same", "reporter zero", "destination zero", "the node"])
            .dim("order", &["first, second", "second, first"])
            .dim("elapsed", &[0, 1, 432_000]),
        );
    }
    let _ = n;
    out
}

/// The spaces that pin down how header fields are read.
pub fn fields(tier: Tier) -> Vec<Space> {
    spaces(tier, Judge::Exact)
        .into_iter()
        .filter(|s| matches!(s.name.as_str(), "bits" | "extremes" | "slot-version"))
        .collect()
}

/// One pair per conflict class and per near-miss of each class.
fn representatives() -> Vec<(&'static str, Kind, Hdr, Kind, Hdr, bool)> {
    use Kind::*;
    let d = |f, i, g| Hdr::data(SLOT, 7, f, i, g);
    let c = |f, i, nd, nc, p| Hdr::code(SLOT, 7, f, i, nd, nc, p);
    vec![
        ("root data/data", Data, d(64, 65, 0), Data, d(64, 66, 0), false),
        ("root data/code", Data, d(64, 65, 0), Code, c(64, 66, 2, 2, 1), false),
        ("root code/code", Code, c(64, 65, 2, 2, 0), Code, c(64, 66, 2, 2, 1), false),
        ("same set data/data", Data, d(64, 65, 0), Data, d(64, 66, 0), true),
        ("same set data/code", Data, d(64, 65, 0), Code, c(64, 66, 2, 2, 1), true),
        ("same set code/code", Code, c(64, 65, 2, 2, 0), Code, c(64, 66, 2, 2, 1), true),
        ("overlap code/data", Code, c(64, 66, 3, 2, 1), Data, d(66, 66, 0), false),
        ("overlap code/code", Code, c(64, 66, 3, 2, 1), Code, c(66, 69, 2, 2, 1), false),
        ("adjacent code/data", Code, c(64, 66, 2, 2, 1), Data, d(66, 66, 0), false),
        ("adjacent code/code", Code, c(64, 66, 2, 2, 1), Code, c(66, 69, 2, 2, 1), false),
        ("same index data, other set", Data, d(64, 66, 0), Data, d(65, 66, 0), false),
        ("same index code, other set", Code, c(64, 66, 1, 2, 1), Code, c(65, 66, 2, 2, 1), false),
        ("same data shred", Data, d(64, 66, 0), Data, d(64, 66, 0), true),
        ("same code shred", Code, c(64, 66, 2, 2, 1), Code, c(64, 66, 2, 2, 1), true),
        ("last then higher", Data, d(64, 65, 0xC0), Data, d(66, 67, 0), false),
        ("last then lower", Data, d(66, 67, 0xC0), Data, d(64, 65, 0), false),
        ("last in same set, higher", Data, d(64, 65, 0xC0), Data, d(64, 66, 0), true),
        ("data complete then higher", Data, d(64, 65, 0x40), Data, d(66, 67, 0), false),
        ("reference tick then higher", Data, d(64, 65, 0x80), Data, d(66, 67, 0), false),
        ("both last", Data, d(64, 65, 0xC0), Data, d(66, 67, 0xC0), false),
        ("erasure nd", Code, c(64, 66, 3, 2, 1), Code, c(64, 67, 2, 2, 0), true),
        ("erasure nc", Code, c(64, 66, 2, 2, 0), Code, c(64, 67, 2, 3, 1), true),
        ("erasure first index", Code, c(64, 66, 2, 2, 0), Code, c(64, 69, 2, 2, 1), true),
        ("erasure differs, other set", Code, c(64, 66, 2, 2, 0), Code, c(66, 69, 2, 3, 1), false),
    ]
}
