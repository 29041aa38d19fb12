//! Shared pieces of the program checks.

use crate::{
    ed::{self, Key},
    rt::{Account, Executed, Ix, Ledger},
    shreds::{batch, Hdr, Kind, Layout, Leaf, Shred},
    spec::decode,
    world::{slashing, HEADER},
};
use solana_program::{ed25519_program, pubkey::Pubkey};

/// 2^k - 1, 2^k, 2^k + 1 for every k, without repetition.
pub fn powers() -> Vec<u64> {
    let mut v = vec![0, u64::MAX];
    for k in 0..64 {
        let p = 1u64 << k;
        v.extend([p - 1, p, p + 1]);
    }
    v.sort();
    v.dedup();
    v
}

/// Two shreds of one FEC set of `slot` with different Merkle roots: a conflict
/// whatever else they contain.
pub fn root_conflict(key: &Key, slot: u64, flavour: usize, kinds: (Kind, Kind), salt: u64) -> (Shred, Shred) {
    let leaf = |kind, i: u32, fill| Leaf {
        layout: Layout::new(kind, flavour, 4),
        hdr: match kind {
            Kind::Data => Hdr::data(slot, 7, 64, 64 + i, 0),
            Kind::Code => Hdr::code(slot, 7, 64, 64 + i, 3, 3, i as u16),
        },
        fill,
    };
    let a = batch(key, 1000 + salt, &[leaf(kinds.0, 1, 1)]).unwrap().pop().unwrap();
    let b = batch(key, 2000 + salt, &[leaf(kinds.1, 2, 2)]).unwrap().pop().unwrap();
    (a, b)
}

/// A stored report, taken apart.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Stored {
    pub version: u8,
    pub reporter: Pubkey,
    pub destination: Pubkey,
    pub epoch: u64,
    pub node: Pubkey,
    pub slot: u64,
    pub ty: u8,
    pub shreds: Option<(Vec<u8>, Vec<u8>)>,
}

pub fn parse_stored(d: &[u8]) -> Option<Stored> {
    let h = d.get(..HEADER)?;
    let pk = |o: usize| Pubkey::try_from(&h[o..o + 32]).unwrap();
    let u = |o: usize| u64::from_le_bytes(h[o..o + 8].try_into().unwrap());
    let take = |d: &[u8]| -> Option<(Vec<u8>, usize)> {
        let n = u32::from_le_bytes(d.get(..4)?.try_into().unwrap()) as usize;
        Some((d.get(4..4 + n)?.to_vec(), 4 + n))
    };
    let shreds = take(&d[HEADER..]).and_then(|(a, n)| {
        let (b, m) = take(&d[HEADER + n..])?;
        (HEADER + n + m == d.len()).then_some((a, b))
    });
    Some(Stored {
        version: h[0],
        reporter: pk(1),
        destination: pk(33),
        epoch: u(65),
        node: pk(73),
        slot: u(105),
        ty: h[113],
        shreds,
    })
}

/// Everything the native precompile verified in this transaction.
pub fn verified(tx: &[Ix]) -> Vec<ed::Verified> {
    let datas: Vec<&[u8]> = tx.iter().map(|i| i.ix.data.as_slice()).collect();
    tx.iter()
        .filter(|i| i.ix.program_id == ed25519_program::id() && i.inner.is_empty())
        .filter_map(|i| ed::precompile(&i.ix.data, &datas).ok())
        .flatten()
        .collect()
}

/// Reports the transaction created or changed.
pub fn new_reports(before: &Ledger, after: &Ledger) -> Vec<(Pubkey, Account)> {
    after
        .iter()
        .filter(|(k, a)| {
            a.owner == slashing()
                && !a.data.is_empty()
                && before.get(*k).is_none_or(|b| b.data != a.data || b.owner != a.owner)
        })
        .map(|(k, a)| (*k, (**a).clone()))
        .collect()
}

/// `Err` if the transaction recorded evidence that nobody verified.
pub fn authentic(before: &Ledger, tx: &[Ix], ex: &Executed) -> Result<(), String> {
    let new = new_reports(before, &ex.ledger);
    if new.is_empty() {
        return Ok(());
    }
    let seen = verified(tx);
    for (k, a) in new {
        let Some(s) = parse_stored(&a.data) else {
            return Err(format!("{k}: recorded something that is not a report"));
        };
        let Some((x, y)) = s.shreds else {
            return Err(format!("{k}: recorded a report without shreds"));
        };
        for (n, b) in [x, y].iter().enumerate() {
            let Some(d) = decode(b) else {
                return Err(format!("{k}: recorded an undecodable shred {n}"));
            };
            let ok = seen.iter().any(|v| {
                v.pubkey == s.node.as_ref() && v.message == d.root && v.signature == d.sig
            });
            if !ok {
                return Err(format!(
                    "recorded shred {} although its signature was not verified under the named node in this transaction",
                    n + 1
                ));
            }
        }
    }
    Ok(())
}
