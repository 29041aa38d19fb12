//! C13: the proof buffer encoding.

use super::{common::root_conflict, record};
use crate::{
    ed::Key,
    explore::{fp, Space, Tier, Verdict},
    rt::{self, guarded, Env},
    shreds::Kind,
    world::{self, name, pack, proof_account, scene, Report},
    Meta,
};
use solana_slashing_program::{
    duplicate_block_proof::DuplicateBlockProofData,
    state::{ProofType, SlashingProofData, ViolationReport},
};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "the real encoder and decoder on every buffer over the byte alphabet up to the length bound, every pair of shred lengths, every truncation; compared, slice positions included, with a reference reader; plus reports read at every offset; non-trivial = the buffer decodes, or fails at a boundary; fingerprint over the buffer",
    assumptions: &["64-bit host (the on-chain target is 64-bit too)"],
};

/// Reference reader: ranges of the two shreds.
fn read(b: &[u8]) -> Option<((usize, usize), (usize, usize))> {
    let len = |o: u128| -> Option<u128> {
        let o = usize::try_from(o).ok()?;
        Some(u32::from_le_bytes(b.get(o..o.checked_add(4)?)?.try_into().ok()?) as u128)
    };
    let n1 = len(0)?;
    if 4 + n1 > b.len() as u128 {
        return None;
    }
    let n2 = len(4 + n1)?;
    if 8 + n1 + n2 > b.len() as u128 {
        return None;
    }
    let (n1, n2) = (n1 as usize, n2 as usize);
    Some(((4, n1), (8 + n1, n2)))
}

fn judge(buf: &[u8]) -> Verdict {
    let want = read(buf);
    let got = guarded(|| {
        DuplicateBlockProofData::unpack_proof(buf).map(|p| {
            let at = |s: &[u8]| (s.as_ptr() as usize).wrapping_sub(buf.as_ptr() as usize);
            let r = ((at(p.shred1), p.shred1.len()), (at(p.shred2), p.shred2.len()));
            (r, p.packed_len(), p.pack_proof())
        })
    });
    let f = fp(buf);
    let (class, bad) = match (&want, &got) {
        (_, Err(m)) => ("abort".to_string(), Some(format!("aborted on {buf:02x?}: {m}"))),
        (None, Ok(Err(e))) => (format!("refused: {e:?}"), None),
        (None, Ok(Ok(_))) => ("accepted".into(), Some(format!("read past the end accepted: {} bytes {:02x?}", buf.len(), &buf[..buf.len().min(16)]))),
        (Some(_), Ok(Err(e))) => ("refused".into(), Some(format!("well-formed buffer of {} bytes refused: {e:?}", buf.len()))),
        (Some(w), Ok(Ok((g, len, packed)))) => {
            let used = w.1 .0 + w.1 .1;
            // an empty slice may sit anywhere
            let same = |w: (usize, usize), g: (usize, usize)| w.1 == g.1 && (w.1 == 0 || w.0 == g.0);
            if !same(w.0, g.0) || !same(w.1, g.1) {
                ("misread".into(), Some(format!("slices {g:?} instead of {w:?}")))
            } else if *len != used || packed[..] != buf[..used] {
                ("repacked differently".into(), Some(format!("repacking {used} bytes gives {} (advertised {len})", packed.len())))
            } else {
                ("read".into(), None)
            }
        }
    };
    Verdict { class, nontrivial: Some(f), violation: bad }
}

pub fn spaces(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    {
        let alpha = [0u8, 1, 2, 0xff];
        let n = tier.pick(10, 11);
        let mut s = Space::new("small-buffers", move |c| {
            // 0 ends the buffer
            let k = c.iter().position(|x| *x == 0).unwrap_or(c.len());
            if c[k..].iter().any(|x| *x != 0) {
                return None;
            }
            let b: Vec<u8> = c[..k].iter().map(|x| alpha[*x - 1]).collect();
            Some(judge(&b))
        });
        for i in 0..n {
            s = s.dim(&format!("byte {i}"), &["-", "0", "1", "2", "ff"]);
        }
        out.push(s);
    }
    {
        // two little-endian lengths with every byte position exercised
        let lens: Vec<u32> = vec![
            0, 1, 2, 3, 4, 5, 127, 128, 129, 255, 256, 257, 1202, 1203, 1204, 1228, 1232, 4096, 32_767, 32_768, 65_535, 65_536, 65_537, 1 << 24, (1 << 24) + 1, 1 << 31, u32::MAX - 8, u32::MAX - 4, u32::MAX,
        ];
        let extra: Vec<i64> = vec![-9, -8, -5, -4, -3, -1, 0, 1, 3, 4, 5, 300];
        let (l, x) = (lens.clone(), extra.clone());
        out.push(
            Space::new("lengths", move |c| {
                let (a, b) = (lens[c[0]] as i64, lens[c[1]] as i64);
                let total = 8 + a + b + extra[c[2]];
                if total < 0 {
                    return None;
                }
                // buffers beyond a bound are cut: the declared lengths stay
                let total = total.min(140_000) as usize;
                let mut buf: Vec<u8> = (0..total).map(|i| (i % 251) as u8).collect();
                for (o, n) in [(0usize, a), (4 + a as usize, b)] {
                    for (i, x) in (n as u32).to_le_bytes().iter().enumerate() {
                        if let Some(s) = buf.get_mut(o + i) {
                            *s = *x;
                        }
                    }
                }
                Some(judge(&buf))
            })
            .dim("first", &l)
            .dim("second", &l)
            .dim("buffer length - needed", &x),
        );
    }
    {
        let n = tier.pick(72, 200);
        out.push(
            Space::new("round-trip", move |c| {
                let a: Vec<u8> = (0..c[0]).map(|i| i as u8 ^ 0x5c).collect();
                let b: Vec<u8> = (0..c[1]).map(|i| i as u8 ^ 0xa3).collect();
                let p = DuplicateBlockProofData { shred1: &a, shred2: &b };
                let len = p.packed_len();
                let rlen = ViolationReport::packed_len(&p);
                let packed = p.pack_proof();
                let mut tail = packed.clone();
                tail.resize(packed.len() + c[2], 0xff);
                let want = pack(&a, &b);
                let back = guarded(|| DuplicateBlockProofData::unpack_proof(&tail).map(|q| (q.shred1.to_vec(), q.shred2.to_vec())));
                let ok = packed == want
                    && len == want.len()
                    && rlen == want.len() + 114
                    && matches!(&back, Ok(Ok((x, y))) if *x == a && *y == b);
                Some(Verdict::check("round trip", fp(&tail), ok, || {
                    format!("packed {} bytes, advertised {len} (+header {rlen}), back {}", packed.len(), back.is_ok())
                }))
            })
            .range("first", n)
            .range("second", n)
            .range("appended", tier.pick(3, 9)),
        );
    }
    {
        let n = 8 + 1203 + 1228;
        out.push(
            Space::new("truncation", move |c| {
                let b = pack(&vec![7; 1203], &vec![9; 1228]);
                Some(judge(&b[..c[0]]))
            })
            .range("length", n + 1),
        );
    }
    {
        // sizes the client allocates by
        out.push(
            Space::new("advertised-sizes", move |_| {
                let p = ProofType::DuplicateBlockProof.proof_account_length();
                let r = ViolationReport::size::<DuplicateBlockProofData>();
                // room for two packets and their lengths
                let ok = p == 8 + 2 * 1232 && r == p + 114;
                Some(Verdict::check("sizes", fp(&(p, r)), ok, || format!("proof account length {p}, report size {r}")))
            })
            .range("-", 1),
        );
    }
    // the offset, as the program reads it
    {
        // offsets that equal that of the proof in their lower bits only
        let k = Key::new("leader");
        let slot = 4_000_000;
        let (a, b) = root_conflict(&k, slot, 1, (Kind::Data, Kind::Code), 55);
        let small: Vec<u64> = vec![0, 1, 5, 4096];
        let s2 = small.clone();
        out.push(
            Space::new("far-offsets", move |c| {
                let at = small[c[0]];
                let mut r = Report::of(k.pubkey(), slot, &a, &b);
                let bits = [c[1], c[2]].iter().fold(0u64, |m, i| if *i == 0 { m } else { m | 1 << (i - 1) });
                r.offset = at | bits;
                let proof = pack(&a.bytes, &b.bytes);
                let e = Env::at(slot + 5, 432_000);
                let mut l = scene(&e, &r, &proof);
                let mut acc = vec![0; at as usize];
                acc.extend(&proof);
                rt::put(&mut l, proof_account(), 1 << 40, acc, name("record-program"));
                let ex = rt::execute(&l, &e, &world::report_tx(&r, &proof_account()));
                let want = r.offset == at;
                let class = format!("{} / {}", if want { "there" } else { "elsewhere" }, ex.label());
                Some(Verdict::check(class.clone(), fp(&(at, r.offset)), want == ex.ok() && (ex.ok() || ex.ledger == l), || class))
            })
            .dim("the proof is at", &s2)
            .range("first bit added", 65)
            .range("second bit added", 65),
        );
    }
    out.extend(record::c05(tier).into_iter().filter(|s| s.name == "layout-of-proof"));
    out
}
