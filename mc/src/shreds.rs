//! Independent construction of network shreds: wire layout, Merkle batches,
//! leader signatures.  Written from the wire format, not from the program.

use {
    crate::ed::Key,
    solana_program::hash::hashv,
    std::collections::BTreeMap,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Data,
    Code,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Layout {
    pub kind: Kind,
    pub chained: bool,
    pub resigned: bool,
    pub proof: u8,
}

pub const DATA_SIZE: usize = 1203;
pub const CODE_SIZE: usize = 1228;

impl Layout {
    pub fn new(kind: Kind, flavour: usize, proof: u8) -> Self {
        // 0 plain, 1 chained, 2 chained+resigned
        Self { kind, chained: flavour >= 1, resigned: flavour == 2, proof }
    }
    pub fn variant(&self) -> u8 {
        let hi = match (self.kind, self.chained, self.resigned) {
            (Kind::Code, false, _) => 0x40,
            (Kind::Code, true, false) => 0x60,
            (Kind::Code, true, true) => 0x70,
            (Kind::Data, false, _) => 0x80,
            (Kind::Data, true, false) => 0x90,
            (Kind::Data, true, true) => 0xb0,
        };
        hi | self.proof
    }
    pub fn of_variant(v: u8) -> Option<Self> {
        let (kind, chained, resigned) = match v {
            0x5a | 0xa5 => return None, // legacy
            _ => match v >> 4 {
                0x4 => (Kind::Code, false, false),
                0x6 => (Kind::Code, true, false),
                0x7 => (Kind::Code, true, true),
                0x8 => (Kind::Data, false, false),
                0x9 => (Kind::Data, true, false),
                0xb => (Kind::Data, true, true),
                _ => return None,
            },
        };
        Some(Self { kind, chained, resigned, proof: v & 0xf })
    }
    pub fn size(&self) -> usize {
        match self.kind {
            Kind::Data => DATA_SIZE,
            Kind::Code => CODE_SIZE,
        }
    }
    pub fn proof_end(&self) -> usize {
        self.size() - if self.resigned { 64 } else { 0 }
    }
    pub fn proof_start(&self) -> usize {
        self.proof_end() - 20 * self.proof as usize
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Hdr {
    pub slot: u64,
    pub index: u32,
    pub version: u16,
    pub fec: u32,
    // data
    pub parent: u16,
    pub flags: u8,
    /// Bytes claimed to be in use; as many as there are if unset.
    pub size: Option<u16>,
    // code
    pub nd: u16,
    pub nc: u16,
    pub pos: u16,
}

impl Hdr {
    pub fn data(slot: u64, version: u16, fec: u32, index: u32, flags: u8) -> Self {
        Self { slot, index, version, fec, parent: 1, flags, size: None, nd: 0, nc: 0, pos: 0 }
    }
    pub fn code(slot: u64, version: u16, fec: u32, index: u32, nd: u16, nc: u16, pos: u16) -> Self {
        Self { slot, index, version, fec, parent: 0, flags: 0, size: None, nd, nc, pos }
    }
    /// Leaf number in the erasure batch.
    pub fn leaf(&self, kind: Kind) -> Option<u64> {
        match kind {
            Kind::Data => (self.index as u64).checked_sub(self.fec as u64),
            Kind::Code => Some(self.nd as u64 + self.pos as u64),
        }
    }
}

/// One shred to put in a batch.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Leaf {
    pub layout: Layout,
    pub hdr: Hdr,
    pub fill: u8,
}

#[derive(Clone, Debug)]
pub struct Shred {
    pub bytes: Vec<u8>,
    pub root: [u8; 32],
    pub sig: [u8; 64],
}

pub fn leaf_bytes(l: &Leaf) -> Vec<u8> {
    let mut b = vec![l.fill; l.layout.size()];
    b[64] = l.layout.variant();
    let h = &l.hdr;
    b[65..73].copy_from_slice(&h.slot.to_le_bytes());
    b[73..77].copy_from_slice(&h.index.to_le_bytes());
    b[77..79].copy_from_slice(&h.version.to_le_bytes());
    b[79..83].copy_from_slice(&h.fec.to_le_bytes());
    match l.layout.kind {
        Kind::Data => {
            b[83..85].copy_from_slice(&h.parent.to_le_bytes());
            b[85] = h.flags;
            let full = l.layout.proof_start() - if l.layout.chained { 32 } else { 0 };
            b[86..88].copy_from_slice(&h.size.unwrap_or(full as u16).to_le_bytes());
        }
        Kind::Code => {
            b[83..85].copy_from_slice(&h.nd.to_le_bytes());
            b[85..87].copy_from_slice(&h.nc.to_le_bytes());
            b[87..89].copy_from_slice(&h.pos.to_le_bytes());
        }
    }
    // retransmitter signature, if any
    let e = l.layout.proof_end();
    for x in b[e..].iter_mut() {
        *x = 0xEE;
    }
    b
}

pub fn leaf_hash(b: &[u8], layout: &Layout) -> [u8; 32] {
    hashv(&[b"\x00SOLANA_MERKLE_SHREDS_LEAF", &b[64..layout.proof_start()]]).to_bytes()
}

pub fn join(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    hashv(&[b"\x01SOLANA_MERKLE_SHREDS_NODE", &a[..20], &b[..20]]).to_bytes()
}

/// Builds the batch (Merkle tree of depth `proof`) that contains these leaves at
/// their batch positions, other positions being filler derived from `salt`;
/// signs its root with `key`.  All leaves must have the same proof size and,
/// if they share a position, be identical.  `None` if a position does not fit.
pub fn batch(key: &Key, salt: u64, leaves: &[Leaf]) -> Option<Vec<Shred>> {
    let b = batch_unsigned(salt, leaves)?;
    let sig = key.sign(&b[0].root);
    Some(
        b.into_iter()
            .map(|mut s| {
                s.bytes[..64].copy_from_slice(&sig);
                s.sig = sig;
                s
            })
            .collect(),
    )
}

pub fn batch_unsigned(salt: u64, leaves: &[Leaf]) -> Option<Vec<Shred>> {
    let depth = leaves[0].layout.proof;
    let mut level: BTreeMap<u64, [u8; 32]> = BTreeMap::new();
    let mut out: Vec<(Vec<u8>, u64, Vec<[u8; 20]>)> = vec![];
    for l in leaves {
        assert_eq!(l.layout.proof, depth);
        let pos = l.hdr.leaf(l.layout.kind)?;
        if pos >> depth != 0 {
            return None;
        }
        let b = leaf_bytes(l);
        let h = leaf_hash(&b, &l.layout);
        if let Some(o) = level.insert(pos, h) {
            if o != h {
                return None;
            }
        }
        out.push((b, pos, vec![]));
    }
    for d in 0..depth {
        let filler = |p: u64| {
            hashv(&[b"filler", &salt.to_le_bytes(), &[d], &p.to_le_bytes()]).to_bytes()
        };
        for (_, pos, proof) in out.iter_mut() {
            let sib = (*pos >> d) ^ 1;
            let n = level.get(&sib).copied().unwrap_or_else(|| filler(sib));
            proof.push(n[..20].try_into().unwrap());
        }
        let mut up = BTreeMap::new();
        for (p, n) in &level {
            let s = level.get(&(p ^ 1)).copied().unwrap_or_else(|| filler(p ^ 1));
            up.insert(p >> 1, if p & 1 == 0 { join(n, &s) } else { join(&s, n) });
        }
        level = up;
    }
    let root = *level.get(&0).unwrap();
    Some(
        out.into_iter()
            .zip(leaves)
            .map(|((mut b, _, proof), l)| {
                let mut o = l.layout.proof_start();
                for p in proof {
                    b[o..o + 20].copy_from_slice(&p);
                    o += 20;
                }
                Shred { bytes: b, root, sig: [0; 64] }
            })
            .collect(),
    )
}
