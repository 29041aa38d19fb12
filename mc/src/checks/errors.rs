//! C15: every refusal names its documented reason.

use super::{common::*, conflict, decode::lone};
use crate::{
    ed::{self, Key},
    explore::{fp, Space, Tier, Verdict},
    rt::{self, execute, Env, Executed, Ix, IxErr, Ledger},
    shreds::{Hdr, Kind, Layout, Leaf, Shred},
    spec::No,
    world::*,
    Meta,
};
use solana_program::{instruction::Instruction, program_error::ProgramError, pubkey::Pubkey};
use solana_system_interface::program as system_program;

pub const META: Meta = Meta {
    level: "exploration",
    rule: "a valid report or close with exactly one thing wrong, for every fault of the catalogue and every variation of it (flavours, kinds, slots, values); judged: the program error returned is the documented one with its stable number; non-trivial = the fault is the only one; fingerprint over fault and variation",
    assumptions: &[
        "error numbers are those of program/src/error.rs at the pinned commit (the client ABI)",
        "runtime behaviour as modelled in mc/src/rt.rs (replayed against the real bank by the conformance run)",
    ],
};

pub const TOO_SOON: u32 = 0;
pub const DESTINATION_IS_REPORT: u32 = 1;
pub const DUPLICATE: u32 = 2;
pub const STATUTE: u32 = 3;
pub const WRONG_DESTINATION: u32 = 4;
pub const VARIANT: u32 = 5;
pub const MERKLE: u32 = 6;
pub const PAYLOAD: u32 = 7;
pub const ERASURE: u32 = 8;
pub const INSTRUCTION: u32 = 9;
pub const LAST_INDEX: u32 = 10;
pub const REPORT_ACCOUNT: u32 = 11;
pub const VERSION: u32 = 12;
pub const BAD_VERIFICATION: u32 = 13;
pub const LEGACY: u32 = 14;
pub const NO_SYSVAR: u32 = 15;
pub const NO_VERIFICATION: u32 = 16;
pub const NO_SYSTEM: u32 = 17;
pub const BUFFER_SMALL: u32 = 19;
pub const UNFUNDED: u32 = 20;
pub const SHRED: u32 = 21;
pub const TYPE: u32 = 22;
pub const MISMATCH: u32 = 23;
pub const SLOT_MISMATCH: u32 = 24;

const SLOT: u64 = 3_333_333;
const FLAVOURS: &[&str] = &["plain", "chained", "resigned"];
const KINDS: [(Kind, Kind); 4] =
    [(Kind::Data, Kind::Data), (Kind::Data, Kind::Code), (Kind::Code, Kind::Data), (Kind::Code, Kind::Code)];

fn env() -> Env {
    Env::at(SLOT + 9, 432_000)
}

fn want(ex: &Executed, codes: &[ProgramError], f: u64, what: &str) -> Verdict {
    let class = format!("{what}: {}", ex.label());
    let ok = match &ex.result {
        Err(e) => match &e.err {
            IxErr::Program(p) => codes.contains(p),
            _ => false,
        },
        Ok(()) => false,
    };
    Verdict::check(class, f, ok, || format!("{what}: expected {codes:?}, got {}", ex.label()))
}

fn c(n: u32) -> ProgramError {
    ProgramError::Custom(n)
}

pub fn spaces(tier: Tier) -> Vec<Space> {
    let mut out = vec![];

    // non-conflicts, through the whole header alphabet
    {
        for mut s in conflict::spaces(tier, conflict::Judge::Code) {
            if matches!(s.name.as_str(), "header-pairs" | "variants" | "honest-block") {
                s.name = format!("no-conflict {}", s.name);
                out.push(s);
            }
        }
    }

    let base = |f: usize, k: usize| {
        let key = Key::new("leader");
        let (a, b) = root_conflict(&key, SLOT, f, KINDS[k], 100);
        let r = Report::of(key.pubkey(), SLOT, &a, &b);
        (a, b, r)
    };

    // slot and version of either shred, clock
    out.push(
        Space::new("slot-version-clock", move |x| {
            let key = Key::new("leader");
            let vals: Vec<u64> = vec![1, 2, 255, 256, 65_535, 65_536, 1 << 31, 1 << 32, 1 << 40, 1 << 63];
            let d = *vals.get(x[3])?;
            let mk = |slot: u64, ver: u16, i: u32, kind: Kind, fill: u8| {
                let hdr = match kind {
                    Kind::Data => Hdr::data(slot, ver, 64, 64 + i, 0),
                    Kind::Code => Hdr::code(slot, ver, 64, 64 + i, 3, 3, i as u16),
                };
                crate::shreds::batch(&key, fill as u64, &[Leaf { layout: Layout::new(kind, x[1], 4), hdr, fill }])
                    .unwrap()
                    .pop()
                    .unwrap()
            };
            let (k1, k2) = KINDS[x[2]];
            let mut e = env();
            let (mut s1, mut s2, mut v2) = (SLOT, SLOT, 7u16);
            let (code, what) = match x[0] {
                0 => {
                    s1 ^= d;
                    (c(SLOT_MISMATCH), "slot of shred 1")
                }
                1 => {
                    s2 ^= d;
                    (c(SLOT_MISMATCH), "slot of shred 2")
                }
                2 => {
                    s1 ^= d;
                    s2 ^= d;
                    (c(SLOT_MISMATCH), "slot of both shreds")
                }
                3 => {
                    v2 ^= u16::try_from(d).ok()?;
                    (c(VERSION), "version")
                }
                4 => {
                    e = Env::at(SLOT.checked_add(432_000)?.checked_add(d)?, 432_000);
                    (c(STATUTE), "too old")
                }
                _ => {
                    e = Env::at(SLOT.checked_sub(d)?, 432_000);
                    (ProgramError::ArithmeticOverflow, "slot in the future")
                }
            };
            let (a, b) = (mk(s1, 7, 1, k1, 1), mk(s2, v2, 2, k2, 2));
            let r = Report::of(key.pubkey(), SLOT, &a, &b);
            let ex = run_report(&e, &r, &a.bytes, &b.bytes);
            Some(want(&ex, &[code], fp(&x), what))
        })
        .dim("what", &["slot of shred 1", "slot of shred 2", "slot of both", "version", "too old", "in the future"])
        .dim("flavour", FLAVOURS)
        .dim("kinds", &["dd", "dc", "cd", "cc"])
        .range("how far", 10),
    );

    // verification missing or wrong
    out.push(
        Space::new("verification", move |x| {
            let (a, b, r) = base(x[1], x[2]);
            let e = env();
            let l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
            let memo = |d: Vec<u8>| -> Ix { Instruction { program_id: rt::proxy_id(), accounts: vec![], data: d }.into() };
            let rep: Ix = r.ix(&proof_account()).into();
            let own = Key::new("someone");
            let statement = |n: usize| {
                // n genuine statements of someone, held in the verification itself
                let msg = [3u8; 32];
                let at = (2 + 14 * n) as u16;
                let m = u16::MAX;
                let mut d = ed::precompile_data(n as u8, 0, &vec![[at + 32, m, at, m, at + 96, 32, m]; n], &[]);
                d.extend_from_slice(&own.pubkey().to_bytes());
                d.extend_from_slice(&own.sign(&msg));
                d.extend_from_slice(&msg);
                d
            };
            let (tx, code, what) = match x[0] {
                0 => (vec![rep], NO_VERIFICATION, "report first in the transaction"),
                1 => (vec![memo(vec![1]), rep], NO_VERIFICATION, "another program precedes"),
                2 => (vec![Report::sigverify(2).into(), memo(vec![]), rep], NO_VERIFICATION, "verification not adjacent"),
                3 => (vec![rep, Report::sigverify(0).into()], NO_VERIFICATION, "verification follows"),
                4 => (
                    vec![ed_ix(ed::precompile_data(1, 0, &Report::entries(1)[..1], &[])).into(), rep],
                    NO_VERIFICATION,
                    "one entry only",
                ),
                5 => (vec![ed_ix(vec![0, 0]).into(), rep], NO_VERIFICATION, "no entries"),
                6 => (vec![memo(Report::sigverify(1).data), rep], NO_VERIFICATION, "right data, other program"),
                7 => (vec![ed_ix(statement(2)).into(), rep], BAD_VERIFICATION, "data held elsewhere"),
                8 => {
                    // verified data in another instruction
                    (
                        vec![memo(r.data()), ed_ix(ed::precompile_data(2, 0, &Report::entries(0), &[])).into(), rep],
                        BAD_VERIFICATION,
                        "entries point into another instruction",
                    )
                }
                9..=14 => {
                    let mut d = Report::entries(2);
                    let i = x[0] - 9;
                    d[i / 3][[1, 3, 6][i % 3]] = 0;
                    (
                        vec![memo(r.data()), ed_ix(ed::precompile_data(2, 0, &d, &[])).into(), rep],
                        BAD_VERIFICATION,
                        "one index points into another instruction",
                    )
                }
                15 => {
                    // both entries verify the first shred
                    let d = Report::entries(1);
                    (vec![ed_ix(ed::precompile_data(2, 0, &[d[0], d[0]], &[])).into(), rep], MISMATCH, "first shred verified twice")
                }
                16 => {
                    let d = Report::entries(1);
                    (vec![ed_ix(ed::precompile_data(2, 0, &[d[1], d[1]], &[])).into(), rep], MISMATCH, "second shred verified twice")
                }
                _ => {
                    let d = Report::entries(1);
                    (vec![ed_ix(ed::precompile_data(2, 0, &[d[1], d[0]], &[])).into(), rep], MISMATCH, "entries swapped")
                }
            };
            let ex = execute(&l, &e, &tx);
            Some(want(&ex, &[c(code)], fp(&x), what))
        })
        .range("fault", 18)
        .dim("flavour", FLAVOURS)
        .dim("kinds", &["dd", "dc", "cd", "cc"]),
    );

    // verified, but not what the proof holds
    out.push(
        Space::new("mismatch", move |x| {
            let (a, b, mut r) = base(x[1], x[2]);
            let key = Key::new("leader");
            let (mut p, mut q) = (a.bytes.clone(), b.bytes.clone());
            let e = env();
            let mut entries = Report::entries(1);
            match x[0] {
                0 => p[..64].copy_from_slice(&key.sign_again(&a.root)),
                1 => q[..64].copy_from_slice(&key.sign_again(&b.root)),
                2 => r.sig1 = key.sign_again(&a.root),
                3 => r.sig2 = key.sign_again(&b.root),
                4 => {
                    r.root1 = [1; 32];
                    r.sig1 = key.sign(&r.root1);
                    p[..64].copy_from_slice(&r.sig1);
                }
                5 => {
                    r.root2 = [1; 32];
                    r.sig2 = key.sign(&r.root2);
                    q[..64].copy_from_slice(&r.sig2);
                }
                6 => {
                    // another node is named, the reporter field holds the signer
                    r.reporter = r.node;
                    r.node = name("innocent");
                    entries[0][2] = 49;
                    entries[1][2] = 49;
                }
                7 => std::mem::swap(&mut p, &mut q),
                8 => q = p.clone(),
                _ => p = q.clone(),
            }
            let l = scene(&e, &r, &pack(&p, &q));
            let tx: Vec<Ix> = vec![ed_ix(ed::precompile_data(2, 0, &entries, &[])).into(), r.ix(&proof_account()).into()];
            let ex = execute(&l, &e, &tx);
            Some(want(&ex, &[c(MISMATCH)], fp(&x), "verified something else"))
        })
        .dim("what", &["signature in shred 1", "signature in shred 2", "verified signature 1", "verified signature 2", "root 1", "root 2", "node", "shreds swapped", "first twice", "second twice"])
        .dim("flavour", FLAVOURS)
        .dim("kinds", &["dd", "dc", "cd", "cc"]),
    );

    // two different keys verified
    out.push(
        Space::new("two-keys", move |x| {
            let ks = [Key::new("leader"), Key::new("other leader")];
            let a = root_conflict(&ks[0], SLOT, x[1], KINDS[x[2]], 101).0;
            let b = root_conflict(&ks[1], SLOT, x[1], KINDS[x[2]], 101).1;
            let mut r = Report::of(ks[x[0]].pubkey(), SLOT, &a, &b);
            r.reporter = ks[1 - x[0]].pubkey();
            let e = env();
            let mut d = Report::entries(1);
            d[1 - x[0]][2] = 49;
            let l = scene(&e, &r, &pack(&a.bytes, &b.bytes));
            let ex = execute(&l, &e, &[ed_ix(ed::precompile_data(2, 0, &d, &[])).into(), r.ix(&proof_account()).into()]);
            Some(want(&ex, &[c(BAD_VERIFICATION)], fp(&x), "two different keys"))
        })
        .range("named", 2)
        .dim("flavour", FLAVOURS)
        .dim("kinds", &["dd", "dc", "cd", "cc"]),
    );

    // shreds that are not shreds
    out.push(
        Space::new("bad-shreds", move |x| {
            let key = Key::new("leader");
            let (a, b, _) = base(x[2], x[3]);
            let which = x[1];
            let mut s = [a, b][which].clone();
            let lay = Layout::of_variant(s.bytes[64]).unwrap();
            let (codes, what): (Vec<ProgramError>, _) = match x[0] {
                0 => {
                    s.bytes[64] = 0x5a;
                    (vec![c(LEGACY)], "legacy coding shred")
                }
                1 => {
                    s.bytes[64] = 0xa5;
                    (vec![c(LEGACY)], "legacy data shred")
                }
                2..=25 => {
                    let v = [0x00u8, 0x0f, 0x10, 0x24, 0x3f, 0x50, 0x54, 0x59, 0x5b, 0x5f, 0xa0, 0xa4, 0xa6, 0xaf, 0xc0, 0xc4, 0xcf, 0xd4, 0xdf, 0xe0, 0xe4, 0xf0, 0xf4, 0xff][x[0] - 2];
                    s.bytes[64] = v;
                    (vec![c(VARIANT)], "unknown variant")
                }
                26..=30 => {
                    // too short for a variant, for the headers, for the proof
                    let n = [0, 64, 80, lay.proof_start(), lay.proof_end() - 1][x[0] - 26];
                    s.bytes.truncate(n);
                    (vec![c(SHRED), c(MERKLE)], "truncated shred")
                }
                31 => {
                    // leaf beyond the proof
                    let kind = lay.kind;
                    let hdr = match kind {
                        Kind::Data => Hdr::data(SLOT, 7, 64, 64 + 16, 0),
                        Kind::Code => Hdr::code(SLOT, 7, 64, 64, 16, 3, 0),
                    };
                    s = lone(&key, &Leaf { layout: lay, hdr, fill: 9 }, 16);
                    (vec![c(MERKLE)], "position does not fit the proof")
                }
                _ => {
                    if lay.kind == Kind::Code {
                        return None;
                    }
                    s = lone(&key, &Leaf { layout: lay, hdr: Hdr::data(SLOT, 7, 64, 63, 0), fill: 9 }, 0);
                    (vec![c(SHRED)], "index below the FEC set")
                }
            };
            let (a, b, _) = base(x[2], x[3]);
            let (p, q): (Shred, Shred) = if which == 0 { (s, b) } else { (a, s) };
            let r = Report::of(key.pubkey(), SLOT, &p, &q);
            let ex = run_report(&env(), &r, &p.bytes, &q.bytes);
            Some(want(&ex, &codes, fp(&x), what))
        })
        .range("fault", 33)
        .dim("shred", &["first", "second"])
        .dim("flavour", FLAVOURS)
        .dim("kinds", &["dd", "dc", "cd", "cc"]),
    );

    // instruction, buffer and accounts
    out.push(
        Space::new("instruction-buffer-accounts", move |x| {
            let (a, b, mut r) = base(x[1], x[2]);
            let e = env();
            let proof = pack(&a.bytes, &b.bytes);
            let mut acc = proof.clone();
            let mut l = scene(&e, &r, &proof);
            let mut ix = r.ix(&proof_account());
            let custom = |n: u32| vec![c(n)];
            let (codes, what) = match x[0] {
                0 => {
                    ix.data.clear();
                    (vec![ProgramError::InvalidInstructionData], "no instruction data")
                }
                1 => {
                    ix.data[0] = 2;
                    (custom(INSTRUCTION), "unknown instruction")
                }
                2 => {
                    ix.data[0] = 255;
                    (custom(INSTRUCTION), "unknown instruction")
                }
                3 => {
                    ix.data.pop();
                    (vec![ProgramError::InvalidInstructionData], "instruction data short")
                }
                4 => {
                    ix.data.push(0);
                    (vec![ProgramError::InvalidInstructionData], "instruction data long")
                }
                5..=8 => {
                    ix.accounts.truncate(x[0] - 5);
                    (vec![ProgramError::NotEnoughAccountKeys], "too few accounts")
                }
                9 => {
                    ix.accounts[2].pubkey = name("fake sysvar");
                    (custom(NO_SYSVAR), "wrong instructions sysvar")
                }
                10 => {
                    ix.accounts[3].pubkey = name("fake system program");
                    (custom(NO_SYSTEM), "wrong system program")
                }
                11 => {
                    ix.accounts[1].pubkey = report_address(&r.node, r.slot + 1, 1);
                    (custom(REPORT_ACCOUNT), "report account of another slot")
                }
                12 => {
                    ix.accounts[1].pubkey = report_address(&name("other"), r.slot, 1);
                    (custom(REPORT_ACCOUNT), "report account of another node")
                }
                13 => {
                    ix.accounts[1].pubkey = report_address(&r.node, r.slot, 0);
                    (custom(REPORT_ACCOUNT), "report account of another type")
                }
                14 => {
                    r.destination = r.address();
                    ix = r.ix(&proof_account());
                    (custom(DESTINATION_IS_REPORT), "destination is the report account")
                }
                15 => {
                    l.remove(&r.address());
                    (custom(UNFUNDED), "report account empty")
                }
                16 => {
                    rt::put(&mut l, r.address(), minimum(&e, HEADER + proof.len()) - 1, vec![], system_program::id());
                    (custom(UNFUNDED), "one lamport short")
                }
                17 => {
                    let d = stored(&e, &r, &a.bytes, &b.bytes);
                    rt::put(&mut l, r.address(), minimum(&e, d.len()), d, slashing());
                    (custom(DUPLICATE), "already reported")
                }
                18 => {
                    // already reported by someone else, with other evidence
                    let mut d = stored(&e, &r, &b.bytes, &a.bytes);
                    d[1..65].fill(7);
                    rt::put(&mut l, r.address(), minimum(&e, 4 * d.len()), d, slashing());
                    (custom(DUPLICATE), "already reported by someone else")
                }
                28..=33 => {
                    let n = proof.len() as u64;
                    r.offset = [n, n + 1, n + 2, 1 << 32, 1 << 63, u64::MAX][x[0] - 28];
                    ix = r.ix(&proof_account());
                    (custom(BUFFER_SMALL), "proof offset at or beyond the end of the buffer")
                }
                34..=36 => {
                    r.offset = [1, 3, 1 << 12][x[0] - 34];
                    let mut p = vec![0; r.offset as usize];
                    p.extend_from_slice(&proof[..proof.len() - 1]);
                    rt::put(&mut l, proof_account(), 1 << 40, p, name("record-program"));
                    ix = r.ix(&proof_account());
                    (custom(BUFFER_SMALL), "proof at an offset truncated")
                }
                n => {
                    let lens = [0, 1, 3, 4, 1000, 4 + a.bytes.len(), 6 + a.bytes.len(), 8 + a.bytes.len(), proof.len() - 1];
                    acc.truncate(*lens.get(n - 19)?);
                    rt::put(&mut l, proof_account(), 1 << 40, acc, name("record-program"));
                    (custom(BUFFER_SMALL), "proof buffer truncated")
                }
            };
            // a malformed instruction cannot carry its own verification
            let tx: Vec<Ix> = if ix.data.len() == REPORT_LEN {
                vec![Report::sigverify(1).into(), ix.into()]
            } else {
                vec![
                    Report::sigverify(2).into(),
                    ix.into(),
                    Instruction { program_id: rt::proxy_id(), accounts: vec![], data: r.data() }.into(),
                ]
            };
            let ex = execute(&l, &e, &tx);
            Some(want(&ex, &codes, fp(&x), what))
        })
        .range("fault", 37)
        .dim("flavour", FLAVOURS)
        .dim("kinds", &["dd", "dc", "cd", "cc"]),
    );

    // closing
    out.push(
        Space::new("close", move |x| {
            let (a, b, r) = base(x[1], x[2]);
            let e = env();
            let mut l = Ledger::new();
            let rich = minimum(&e, 9000);
            let data = stored(&e, &r, &a.bytes, &b.bytes);
            rt::put(&mut l, r.address(), rich, data.clone(), slashing());
            rt::put(&mut l, r.destination, rich, vec![], system_program::id());
            let mut now = e.clone();
            now.clock.epoch += 3;
            let mut ix = close_ix(&r.address(), &r.destination);
            let other: Pubkey = [name("other"), r.reporter, r.node, r.address()][x[3]];
            let (code, what) = match x[0] {
                0 => {
                    now.clock.epoch -= 1 + x[3] as u64 % 3;
                    (c(TOO_SOON), "too soon")
                }
                1 => {
                    ix.accounts[1].pubkey = other;
                    (c(WRONG_DESTINATION), "another destination")
                }
                2 => {
                    rt::put(&mut l, r.address(), rich, data, [name("other"), system_program::id(), r.node, rt::proxy_id()][x[3]]);
                    (c(REPORT_ACCOUNT), "not owned by the program")
                }
                3 => {
                    l.remove(&r.address());
                    if x[3] > 0 {
                        rt::put(&mut l, r.address(), rich, vec![], [slashing(), system_program::id(), name("x")][x[3] - 1]);
                    }
                    (c(REPORT_ACCOUNT), "empty account")
                }
                4 => {
                    rt::put(&mut l, r.address(), rich, data[..[1, 50, 113, 112][x[3]]].to_vec(), slashing());
                    (c(REPORT_ACCOUNT), "too small for a report")
                }
                _ => {
                    ix.accounts.truncate(x[3] % 2);
                    (ProgramError::NotEnoughAccountKeys, "too few accounts")
                }
            };
            let ex = execute(&l, &now, &[ix.into()]);
            Some(want(&ex, &[code], fp(&x), what))
        })
        .dim("fault", &["too soon", "destination", "owner", "empty", "small", "accounts"])
        .dim("flavour", FLAVOURS)
        .dim("kinds", &["dd", "dc", "cd", "cc"])
        .range("variation", 4),
    );

    // the public enumeration carries the same numbers
    out.push(
        Space::new("numbers", move |x| {
            use solana_slashing_program::error::SlashingError as E;
            let all = [
                E::CloseViolationReportTooSoon, E::DestinationAddressIsReportAccount, E::DuplicateReport,
                E::ExceedsStatuteOfLimitations, E::InvalidDestinationAccount, E::InvalidShredVariant,
                E::InvalidMerkleShred, E::InvalidPayloadProof, E::InvalidErasureMetaConflict,
                E::InvalidInstruction, E::InvalidLastIndexConflict, E::InvalidViolationReportAcccount,
                E::InvalidShredVersion, E::InvalidSignatureVerification, E::LegacyShreds,
                E::MissingInstructionsSysvar, E::MissingSignatureVerification, E::MissingSystemProgramAccount,
                E::ProofBufferDeserializationError, E::ProofBufferTooSmall, E::ReportAccountNotPrefunded,
                E::ShredDeserializationError, E::ShredTypeMismatch, E::SignatureVerificationMismatch,
                E::SlotMismatch,
            ];
            let got = ProgramError::from(all[x[0]]);
            Some(Verdict::check("number", fp(&x), got == c(x[0] as u32), || format!("{:?} is {got:?}, was {}", all[x[0]], x[0])))
        })
        .range("error", 25),
    );
    out
}

/// The code that tells this non-conflict apart.
pub fn code_of(n: No) -> u32 {
    match n {
        No::Slot => SLOT_MISMATCH,
        No::Version => VERSION,
        No::Type => TYPE,
        No::SamePayload => PAYLOAD,
        No::NotBeyondLast => LAST_INDEX,
        No::SameErasure => ERASURE,
    }
}
