//! C04: shred decoding agrees with the wire format.

use super::common::*;
use crate::{
    ed::Key,
    explore::{fp, Space, Tier, Verdict},
    rt::Env,
    shreds::{leaf_bytes, leaf_hash, Hdr, Kind, Layout, Leaf, Shred},
    spec::{self, decode},
    world::{run_report, Report},
    Meta,
};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "each shred is reported together with a shred of the same FEC set and another root (a conflict whatever else it says), its Merkle root being computed by the harness's own decoder and signed by the leader; judged: accepted exactly when that decoder decodes it (outside the unsigned tail of a resigned shred, which is unspecified); non-trivial = the shred reaches the program with a verified signature; fingerprint over the shred and its place",
    assumptions: &[
        "SHA-256 and ed25519 are collision free / unforgeable",
        "runtime behaviour as modelled in mc/src/rt.rs (replayed against the real bank by the conformance run)",
    ],
};

const SLOT: u64 = 77_000_001;
const FLAVOURS: &[&str] = &["plain", "chained", "resigned"];

fn env() -> Env {
    Env::at(SLOT + 3, 432_000)
}

/// Lay out a shred with an arbitrary proof and sign what the proof leads to from
/// leaf `leaf`.
pub fn lone(key: &Key, l: &Leaf, leaf: u64) -> Shred {
    let mut b = leaf_bytes(l);
    for (i, o) in (l.layout.proof_start()..l.layout.proof_end()).enumerate() {
        b[o] = (i * 7 + 3) as u8;
    }
    let root = spec::fold(&b[..l.layout.proof_end()], &l.layout, leaf);
    let sig = key.sign(&root);
    b[..64].copy_from_slice(&sig);
    Shred { bytes: b, root, sig }
}

/// Report `x` with a partner of the same FEC set; want: decodable.
fn judge(key: &Key, x: &Shred, fec: u32, swap: bool, want: Option<bool>, tag: &str) -> Verdict {
    let partner = lone(
        key,
        &Leaf { layout: Layout::new(Kind::Data, 0, 2), hdr: Hdr::data(SLOT, 7, fec, fec.saturating_add(1), 0), fill: 0x42 },
        if fec == u32::MAX { 0 } else { 1 },
    );
    let (a, b) = if swap { (&partner, x) } else { (x, &partner) };
    let r = Report::of(key.pubkey(), SLOT, a, b);
    let ex = run_report(&env(), &r, &a.bytes, &b.bytes);
    let class = format!(
        "{tag}{}: {}",
        match want {
            Some(true) => "valid shred",
            Some(false) => "not a shred",
            None => "unspecified",
        },
        ex.label()
    );
    let f = fp(&(&a.bytes, &b.bytes));
    let bad = want.is_some_and(|w| w != ex.ok());
    let mut violation = bad.then(|| class.clone());
    if ex.result.as_ref().is_err_and(|e| e.is_abort()) {
        violation = Some(format!("aborted: {}", ex.label()));
    }
    Verdict { class, nontrivial: Some(f), violation }
}

pub fn spaces(tier: Tier) -> Vec<Space> {
    let mut out = vec![];

    // 1. all variant bytes, under every reading of the layout
    {
        let key = Key::new("leader");
        out.push(
            Space::new("variant-bytes", move |c| {
                let v = c[0] as u8;
                let kind = if c[1] / 3 == 0 { Kind::Data } else { Kind::Code };
                let read = Layout::new(kind, c[1] % 3, if c[2] == 0 { v & 0xf } else { 4 });
                let hdr = match kind {
                    Kind::Data => Hdr::data(SLOT, 7, 64, 64, 0),
                    Kind::Code => Hdr::code(SLOT, 7, 64, 64, 0, 0, 0),
                };
                let mut b = leaf_bytes(&Leaf { layout: read, hdr, fill: 0 });
                b[64] = v;
                // both kinds of header say leaf 0
                b[83..89].fill(0);
                let root = spec::fold(&b[..read.proof_end()], &read, 0);
                let sig = key.sign(&root);
                b[..64].copy_from_slice(&sig);
                let valid = decode(&b).is_some_and(|d| d.root == root);
                let x = Shred { bytes: b, root, sig };
                Some(judge(&key, &x, 64, c[3] == 1, Some(valid), ""))
            })
            .range("variant byte", 256)
            .dim("read as", &["data plain", "data chained", "data resigned", "code plain", "code chained", "code resigned"])
            .dim("proof size", &["low nibble", "4"])
            .dim("order", &["first", "second"]),
        );
    }

    // 2. batch positions against proof sizes
    {
        let key = Key::new("leader");
        let limit = tier.pick(5u32, 8);
        out.push(
            Space::new("positions", move |c| {
                let kind = if c[0] == 0 { Kind::Data } else { Kind::Code };
                let proof = c[2] as u8;
                // all positions below 2^limit (+1), then the surroundings of larger powers
                let small = (1u64 << limit) + 2;
                let pos = if (c[3] as u64) < small {
                    c[3] as u64
                } else {
                    let i = c[3] as u64 - small;
                    let p = 1u64 << (limit as u64 + i / 3);
                    p - 1 + i % 3
                };
                let fec = [64u32, 0, 1 << 20, u32::MAX - 70_000][c[4]];
                let hdr = match kind {
                    Kind::Data => Hdr::data(SLOT, 7, fec, (fec as u64 + pos).try_into().ok()?, 0),
                    Kind::Code => {
                        // every way to split the position in three
                        let (nd, p) = match c[5] {
                            0 => (0, pos),
                            1 => (pos, 0),
                            _ => (pos / 2, pos - pos / 2),
                        };
                        Hdr::code(SLOT, 7, fec, 9, nd.try_into().ok()?, 3, p.try_into().ok()?)
                    }
                };
                if kind == Kind::Data && c[5] > 0 {
                    return None;
                }
                let x = lone(&key, &Leaf { layout: Layout::new(kind, c[1], proof), hdr, fill: 5 }, pos);
                let want = pos >> proof == 0;
                if decode(&x.bytes).is_some() != want {
                    return Some(Verdict::bad("harness", "decoder disagrees with construction"));
                }
                Some(judge(&key, &x, fec, false, Some(want), ""))
            })
            .dim("kind", &["data", "code"])
            .dim("flavour", FLAVOURS)
            .range("proof size", 16)
            .range("position", (1 << limit) + 2 + 3 * (17 - limit as usize))
            .dim("fec set", &["64", "0", "2^20", "2^32-70001"])
            .dim("split", &["all position", "all data", "half"]),
        );
    }

    // 3. leaf numbers that do not exist: index below the FEC set, sums past 16 bits
    {
        let key = Key::new("leader");
        out.push(
            Space::new("wrapped-positions", move |c| {
                let proof = c[1] as u8;
                let x = if c[2] < 24 {
                    let d = if c[2] < 8 { c[2] as u32 + 1 } else { 1 << (c[2] - 4) };
                    let fec = [d, 1 << 24, u32::MAX][c[3]];
                    let h = Hdr::data(SLOT, 7, fec, fec.checked_sub(d)?, 0);
                    // claim what any wrapped reading would compute
                    let leaf = [0u64, (0u32.wrapping_sub(d)) as u64, 0u64.wrapping_sub(d as u64), d as u64][c[4]];
                    (lone(&key, &Leaf { layout: Layout::new(Kind::Data, c[0], proof), hdr: h, fill: 5 }, leaf), fec)
                } else {
                    let (nd, pos) = [(0xffff, 1), (0xffff, 0xffff), (0x8000, 0x8000), (1, 0xffff)][c[2] - 24];
                    let h = Hdr::code(SLOT, 7, 64, 70_000, nd, 3, pos);
                    let leaf = [0u64, nd as u64 + pos as u64, (nd.wrapping_add(pos)) as u64, pos as u64][c[4]];
                    if c[3] > 0 {
                        return None;
                    }
                    (lone(&key, &Leaf { layout: Layout::new(Kind::Code, c[0], proof), hdr: h, fill: 5 }, leaf), 64)
                };
                Some(judge(&key, &x.0, x.1, false, Some(false), ""))
            })
            .dim("flavour", FLAVOURS)
            .range("proof size", 16)
            .range("distance", 28)
            .range("fec set", 3)
            .dim("leaf", &["0", "wrapped", "wrapped more", "distance"]),
        );
    }

    // 4. every length
    {
        let key = Key::new("leader");
        let proofs: Vec<u8> = tier.pick(vec![0, 4], vec![0, 1, 4, 8, 15]);
        let pl = proofs.clone();
        out.push(
            Space::new("lengths", move |c| {
                let kind = if c[0] == 0 { Kind::Data } else { Kind::Code };
                let lay = Layout::new(kind, c[1], proofs[c[2]]);
                let hdr = match kind {
                    Kind::Data => Hdr::data(SLOT, 7, 64, 64, 0),
                    Kind::Code => Hdr::code(SLOT, 7, 64, 64, 0, 2, 0),
                };
                let mut x = lone(&key, &Leaf { layout: lay, hdr, fill: 5 }, 0);
                x.bytes.resize(c[3], 0x31);
                let want = if c[3] < lay.proof_end() {
                    Some(false)
                } else if c[3] < lay.size() {
                    None
                } else if c[3] == lay.size() {
                    Some(true)
                } else {
                    None
                };
                Some(judge(&key, &x, 64, c[4] == 1, want, ""))
            })
            .dim("kind", &["data", "code"])
            .dim("flavour", FLAVOURS)
            .dim("proof size", &pl)
            .range("length", 1300)
            .dim("order", &["first", "second"]),
        );
    }

    // 5. every byte changed
    {
        let keys = Key::new("leader");
        let flips: Vec<u8> = tier.pick(vec![0x01, 0x80], vec![1, 2, 4, 8, 16, 32, 64, 128, 255]);
        let fl = flips.clone();
        out.push(
            Space::new("corruption", move |c| {
                let kind = if c[0] == 0 { Kind::Data } else { Kind::Code };
                let lay = Layout::new(kind, c[1], 4);
                let (a, b) = root_conflict(&keys, SLOT, c[1], (kind, kind), 40);
                if c[2] >= lay.size() {
                    return None;
                }
                let (mut x, mut y) = (a.bytes.clone(), b.bytes.clone());
                if c[4] == 0 {
                    x[c[2]] ^= flips[c[3]];
                } else {
                    y[c[2]] ^= flips[c[3]];
                }
                let r = Report::of(keys.pubkey(), SLOT, &a, &b);
                let ex = run_report(&env(), &r, &x, &y);
                let covered = c[2] < lay.proof_end();
                let class = format!("{}: {}", if covered { "leader's byte" } else { "retransmitter's byte" }, ex.label());
                let bad = ex.ok() == covered || ex.result.as_ref().is_err_and(|e| e.is_abort());
                Some(Verdict::check(class.clone(), fp(&(x, y)), !bad, || class))
            })
            .dim("kind", &["data", "code"])
            .dim("flavour", FLAVOURS)
            .range("byte", 1228)
            .dim("xor", &fl)
            .dim("shred", &["first", "second"]),
        );
    }

    // 6. a root computed under a wrong reading of the proof is not a root
    {
        let key = Key::new("leader");
        out.push(
            Space::new("wrong-readings", move |c| {
                let kind = if c[0] == 0 { Kind::Data } else { Kind::Code };
                let lay = Layout::new(kind, c[1], c[2] as u8);
                let hdr = match kind {
                    Kind::Data => Hdr::data(SLOT, 7, 64, 65, 0),
                    Kind::Code => Hdr::code(SLOT, 7, 64, 64, 0, 2, 1),
                };
                let mut x = lone(&key, &Leaf { layout: lay, hdr, fill: 5 }, 1);
                let l = &x.bytes[..lay.proof_end()];
                let root = match c[3] {
                    0 => spec::fold(l, &lay, 0),
                    1 => spec::fold(l, &lay, 2),
                    2 => leaf_hash(l, &lay),
                    3 => {
                        // one entry fewer
                        let short = Layout { proof: lay.proof.checked_sub(1)?, ..lay };
                        let mut m = l[..lay.proof_start()].to_vec();
                        m.extend_from_slice(&l[lay.proof_start() + 20..]);
                        if short.proof_start() > m.len() { return None; }
                        let mut node = leaf_hash(l, &lay);
                        for d in 0..short.proof as usize {
                            let o = lay.proof_start() + 20 * d;
                            let mut s = [0u8; 32];
                            s[..20].copy_from_slice(&l[o..o + 20]);
                            node = if (1u64 >> d) & 1 == 0 { crate::shreds::join(&node, &s) } else { crate::shreds::join(&s, &node) };
                        }
                        node
                    }
                    4 => solana_program::hash::hashv(&[&l[64..lay.proof_start()]]).to_bytes(),
                    5 => solana_program::hash::hashv(&[b"\x00SOLANA_MERKLE_SHREDS_LEAF", &l[..lay.proof_start()]]).to_bytes(),
                    _ => {
                        // reversed proof
                        let mut node = leaf_hash(l, &lay);
                        for d in 0..lay.proof as usize {
                            let o = lay.proof_start() + 20 * (lay.proof as usize - 1 - d);
                            let mut s = [0u8; 32];
                            s[..20].copy_from_slice(&l[o..o + 20]);
                            node = if (1u64 >> d) & 1 == 0 { crate::shreds::join(&node, &s) } else { crate::shreds::join(&s, &node) };
                        }
                        node
                    }
                };
                let real = decode(&x.bytes).is_some_and(|d| d.root == root);
                x.sig = key.sign(&root);
                x.root = root;
                x.bytes[..64].copy_from_slice(&x.sig);
                Some(judge(&key, &x, 64, false, Some(real), ""))
            })
            .dim("kind", &["data", "code"])
            .dim("flavour", FLAVOURS)
            .range("proof size", 16)
            .dim("reading", &["leaf 0", "leaf 2", "leaf hash", "one entry fewer", "no prefix", "with signature", "reversed"]),
        );
    }
    out
}
