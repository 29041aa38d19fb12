//! Writes validator ledgers with arbitrary duplicate-slot entries.
//!
//! The database skeleton (column families, no data) was made once by the real
//! blockstore and is committed under /verif/cli/ledger; entries are appended
//! to its write-ahead log, which the client replays when it opens the ledger.

use std::{
    collections::BTreeMap,
    os::fd::AsRawFd,
    path::{Path, PathBuf},
};

// Column families in the committed skeleton.
const META: u8 = 1;
const DEAD_SLOTS: u8 = 2;
const DUPLICATE_SLOTS: u8 = 3;
const ROOT: u8 = 7;

/// What the ledger knows of a block besides duplicates.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Block {
    /// All of it was received.
    Complete(u64),
    Dead(u64),
    Rooted(u64),
}

impl Block {
    fn rows(&self) -> Vec<(u8, u64, Vec<u8>)> {
        let meta = |slot: u64| {
            let mut v = vec![];
            // slot, consumed, received, first shred at, last index, parent
            for x in [slot, 64, 64, 1_700_000_000_000, 63, slot.saturating_sub(1)] {
                v.extend(x.to_le_bytes());
            }
            v.extend(0u64.to_le_bytes());
            v.push(1);
            v.extend(0u64.to_le_bytes());
            (META, slot, v)
        };
        match *self {
            Block::Complete(s) => vec![meta(s)],
            Block::Dead(s) => vec![meta(s), (DEAD_SLOTS, s, vec![1])],
            Block::Rooted(s) => vec![meta(s), (ROOT, s, vec![1])],
        }
    }
}

fn crc32c(data: &[&[u8]]) -> u32 {
    let mut c = !0u32;
    for d in data {
        for b in *d {
            c ^= *b as u32;
            for _ in 0..8 {
                c = if c & 1 == 1 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
            }
        }
    }
    !c
}

fn varint(mut n: u64, out: &mut Vec<u8>) {
    while n >= 0x80 {
        out.push(n as u8 | 0x80);
        n >>= 7;
    }
    out.push(n as u8);
}

/// Append one record to a log, split over 32 KiB blocks.
fn append(log: &mut Vec<u8>, mut rec: &[u8]) {
    const BLOCK: usize = 32768;
    let mut first = true;
    loop {
        let left = BLOCK - log.len() % BLOCK;
        if left < 7 {
            log.extend(std::iter::repeat_n(0, left));
            continue;
        }
        let n = rec.len().min(left - 7);
        let last = n == rec.len();
        let ty = match (first, last) {
            (true, true) => 1u8,
            (true, false) => 2,
            (false, false) => 3,
            (false, true) => 4,
        };
        let crc = crc32c(&[&[ty], &rec[..n]]);
        let masked = crc.rotate_right(15).wrapping_add(0xa282_ead8);
        log.extend(masked.to_le_bytes());
        log.extend((n as u16).to_le_bytes());
        log.push(ty);
        log.extend(&rec[..n]);
        rec = &rec[n..];
        first = false;
        if last {
            return;
        }
    }
}

/// Entries are written in the given order; later ones for a slot win.
pub fn write(
    dir: &Path,
    skeleton: &Path,
    entries: &[(u64, Vec<u8>, Vec<u8>)],
    blocks: &[Block],
) -> std::io::Result<()> {
    let db = dir.join("rocksdb");
    std::fs::create_dir_all(&db)?;
    for f in ["CURRENT", "MANIFEST-000005"] {
        std::fs::copy(skeleton.join(f), db.join(f))?;
    }
    let mut log = std::fs::read(skeleton.join("base.log"))?;
    // the skeleton's log holds writes number 1 and 2
    let mut rows: Vec<(u8, u64, Vec<u8>)> = blocks.iter().flat_map(|b| b.rows()).collect();
    for (slot, a, b) in entries {
        let mut v = vec![];
        for s in [a, b] {
            v.extend((s.len() as u64).to_le_bytes());
            v.extend(s);
        }
        rows.push((DUPLICATE_SLOTS, *slot, v));
    }
    for (i, (family, slot, v)) in rows.iter().enumerate() {
        let mut rec = vec![];
        rec.extend((3 + i as u64).to_le_bytes());
        rec.extend(1u32.to_le_bytes());
        rec.push(5); // value in a column family
        varint(*family as u64, &mut rec);
        varint(8, &mut rec);
        rec.extend(slot.to_be_bytes());
        varint(v.len() as u64, &mut rec);
        rec.extend(v);
        append(&mut log, &rec);
    }
    // a reader never sees half of it
    std::fs::write(db.join("new.tmp"), log)?;
    std::fs::rename(db.join("new.tmp"), db.join("000004.log"))
}

/// A validator at work on a ledger: it holds the database's lock, as the
/// process that writes to it does, for as long as this lives.
pub struct Validator {
    _lock: std::fs::File,
    dir: PathBuf,
}

#[repr(C)]
struct Flock {
    ty: i16,
    whence: i16,
    start: i64,
    len: i64,
    pid: i32,
}

extern "C" {
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
}

pub type Files = BTreeMap<PathBuf, Vec<u8>>;

impl Validator {
    pub fn start(dir: &Path) -> Self {
        let lock = std::fs::OpenOptions::new()
            .create(true)
            .truncate(false)
            .write(true)
            .open(dir.join("rocksdb/LOCK"))
            .expect("the ledger's lock");
        const F_SETLK: i32 = 6;
        const F_WRLCK: i16 = 1;
        let f = Flock { ty: F_WRLCK, whence: 0, start: 0, len: 0, pid: 0 };
        let r = unsafe { fcntl(lock.as_raw_fd(), F_SETLK, &f as *const Flock) };
        assert_eq!(r, 0, "the ledger is locked already");
        Self { _lock: lock, dir: dir.into() }
    }

    /// Everything there is in the ledger, but for the directory that readers
    /// are to use for themselves.
    pub fn files(&self) -> Files {
        let mut out = Files::new();
        walk(&self.dir, &mut out);
        out
    }
}

fn walk(d: &Path, out: &mut Files) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let (p, name) = (e.path(), e.file_name());
        if name == "solana-secondary" {
            continue;
        }
        if p.is_dir() {
            out.insert(p.clone(), vec![]);
            walk(&p, out);
        } else if name == "LOCK" {
            // closing it would give the lock up
            let n = e.metadata().map_or(u64::MAX, |m| m.len());
            out.insert(p, n.to_le_bytes().to_vec());
        } else {
            out.insert(p.clone(), std::fs::read(&p).unwrap_or_default());
        }
    }
}

/// How two states of a ledger differ.
pub fn differ(a: &Files, b: &Files) -> Option<String> {
    let keys: std::collections::BTreeSet<&PathBuf> = a.keys().chain(b.keys()).collect();
    let what = |k: &PathBuf| match (a.get(k), b.get(k)) {
        (Some(_), None) => "removed",
        (None, Some(_)) => "added",
        _ => "changed",
    };
    let n = |k: &PathBuf| k.file_name().unwrap_or_default().to_string_lossy().into_owned();
    let d: Vec<String> =
        keys.into_iter().filter(|k| a.get(*k) != b.get(*k)).map(|k| format!("{} {}", n(k), what(k))).collect();
    (!d.is_empty()).then(|| d.join(", "))
}
