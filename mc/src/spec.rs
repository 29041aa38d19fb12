//! Reference model: what a shred says, and which pairs of shreds are a
//! slashable conflict.  Plain unbounded arithmetic, no shared code with the
//! program under check.

use crate::shreds::{Kind, Layout};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Decoded {
    pub layout: Layout,
    pub slot: u64,
    pub index: u64,
    pub version: u16,
    pub fec: u64,
    pub last: bool,
    pub nd: u64,
    pub nc: u64,
    pub pos: u64,
    pub root: [u8; 32],
    pub sig: [u8; 64],
    /// Everything the leader produced: no retransmitter signature, nothing
    /// beyond the shred.
    pub content: Vec<u8>,
}

/// Walk the Merkle proof from leaf number `leaf`, fit or not.
pub fn fold(content: &[u8], layout: &Layout, leaf: u64) -> [u8; 32] {
    let mut node = crate::shreds::leaf_hash(content, layout);
    for d in 0..layout.proof as usize {
        let o = layout.proof_start() + 20 * d;
        let mut sib = [0u8; 32];
        sib[..20].copy_from_slice(&content[o..o + 20]);
        node = if (leaf >> d) & 1 == 0 {
            crate::shreds::join(&node, &sib)
        } else {
            crate::shreds::join(&sib, &node)
        };
    }
    node
}

/// Decode a Merkle shred; `None` if it is not one.
pub fn decode(b: &[u8]) -> Option<Decoded> {
    let layout = Layout::of_variant(*b.get(64)?)?;
    let content = b.get(..layout.proof_end())?.to_vec();
    let u = |o: usize, n: usize| -> u64 {
        let mut x = [0u8; 8];
        x[..n].copy_from_slice(&content[o..o + n]);
        u64::from_le_bytes(x)
    };
    let (index, fec) = (u(73, 4), u(79, 4));
    let (nd, nc, pos) = (u(83, 2), u(85, 2), u(87, 2));
    let leaf = match layout.kind {
        Kind::Data => index.checked_sub(fec)?,
        Kind::Code => nd + pos,
    };
    let node = fold(&content, &layout, leaf);
    if leaf >> layout.proof != 0 {
        return None;
    }
    Some(Decoded {
        layout,
        slot: u(65, 8),
        index,
        version: u(77, 2) as u16,
        fec,
        last: layout.kind == Kind::Data && content[85] & 0xC0 == 0xC0,
        nd,
        nc,
        pos,
        root: node,
        sig: content[..64].try_into().unwrap(),
        content,
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Class {
    MerkleRoot,
    OverlappingFecSet,
    Payload,
    LastInSlot,
    ErasureMeta,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum No {
    Slot,
    Version,
    Type,
    SamePayload,
    NotBeyondLast,
    SameErasure,
}

/// `Ok(Some(class))`: conflict; `Ok(None)`: header arithmetic does not fit the
/// wire types, so the pair may be refused although a class would apply;
/// `Err`: no conflict.
pub fn conflict(slot: u64, a: &Decoded, b: &Decoded) -> Result<Option<Class>, No> {
    if a.slot != slot || b.slot != slot {
        return Err(No::Slot);
    }
    if a.version != b.version {
        return Err(No::Version);
    }
    if a.fec == b.fec && a.root != b.root {
        return Ok(Some(Class::MerkleRoot));
    }
    let mut unrepresentable = false;
    for (x, y) in [(a, b), (b, a)] {
        if x.layout.kind == Kind::Code && x.fec < y.fec && x.fec + x.nd > y.fec {
            if x.fec + x.nd > u32::MAX as u64 {
                unrepresentable = true;
            } else {
                return Ok(Some(Class::OverlappingFecSet));
            }
        }
    }
    let rest = same_type_conflict(a, b);
    match rest {
        Ok(_) if unrepresentable => Ok(None),
        Err(_) if unrepresentable => Ok(None),
        r => r,
    }
}

fn same_type_conflict(a: &Decoded, b: &Decoded) -> Result<Option<Class>, No> {
    if a.layout.kind != b.layout.kind {
        return Err(No::Type);
    }
    if a.index == b.index {
        return if a.content != b.content { Ok(Some(Class::Payload)) } else { Err(No::SamePayload) };
    }
    match a.layout.kind {
        Kind::Data => {
            if (a.last && b.index > a.index) || (b.last && a.index > b.index) {
                Ok(Some(Class::LastInSlot))
            } else {
                Err(No::NotBeyondLast)
            }
        }
        Kind::Code => {
            if a.fec != b.fec {
                return Err(No::SameErasure);
            }
            // first coding index of the set
            let f = |x: &Decoded| x.index.checked_sub(x.pos);
            let (Some(fa), Some(fb)) = (f(a), f(b)) else {
                return Ok(None);
            };
            if (a.nd, a.nc, fa) != (b.nd, b.nc, fb) {
                Ok(Some(Class::ErasureMeta))
            } else {
                Err(No::SameErasure)
            }
        }
    }
}
