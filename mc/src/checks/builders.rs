//! C14: the client-side instruction builders.

use super::common::*;
use crate::{
    ed::Key,
    explore::{fp, Space, Tier, Verdict},
    rt::{self, execute, lamports_of, Env, Ix, Ledger},
    shreds::{Kind, Shred},
    world::{self, *},
    Meta,
};
use bytemuck::Zeroable;
use solana_program::{hash::Hash, instruction::{AccountMeta, Instruction}, pubkey::Pubkey};
use solana_slashing_program::{
    get_violation_report_address,
    instruction::{
        close_violation_report, duplicate_block_proof,
        duplicate_block_proof_with_sigverify_and_prefund, DuplicateBlockProofInstructionData,
    },
    state::ProofType,
};
use solana_system_interface::program as system_program;
use spl_pod::primitives::PodU64;

pub const META: Meta = Meta {
    level: "exploration",
    rule: "every combination of the listed parameters is built with the crate's public builders and the built instructions are compared with the documented wire format and executed as built on the real program; judged: identical bytes, accepted, funder charged exactly the advertised rent, nobody else touched; non-trivial = every case; fingerprint over the built instructions",
    assumptions: &[
        "runtime behaviour as modelled in mc/src/rt.rs (replayed against the real bank by the conformance run)",
    ],
};

fn typed(r: &Report) -> DuplicateBlockProofInstructionData {
    DuplicateBlockProofInstructionData {
        offset: PodU64::from(r.offset),
        slot: PodU64::from(r.slot),
        node_pubkey: r.node,
        reporter: r.reporter,
        destination: r.destination,
        shred_1_merkle_root: Hash::new_from_array(r.root1),
        shred_1_signature: r.sig1,
        shred_2_merkle_root: Hash::new_from_array(r.root2),
        shred_2_signature: r.sig2,
    }
}

fn same_metas(a: &[AccountMeta], b: &[AccountMeta]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.pubkey == y.pubkey && x.is_signer == y.is_signer && x.is_writable == y.is_writable
        })
}

/// Bytes of a signed transaction of these instructions, a wallet of its own
/// paying the fee.
fn packet_size(ixs: &[Instruction], funder: Pubkey) -> usize {
    let mut keys = std::collections::BTreeSet::from([name("fee payer"), funder]);
    let mut signers = keys.clone();
    let len = |n: usize| if n < 0x80 { 1 } else { 2 };
    let mut size = 3 + 32 + 1;
    for i in ixs {
        keys.insert(i.program_id);
        keys.extend(i.accounts.iter().map(|m| m.pubkey));
        signers.extend(i.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey));
        size += 1 + len(i.accounts.len()) + i.accounts.len() + len(i.data.len()) + i.data.len();
    }
    size + 1 + 64 * signers.len() + 1 + 32 * keys.len()
}

pub fn spaces(tier: Tier) -> Vec<Space> {
    let mut out = vec![];
    const SLOT: u64 = 440_000_123;

    // 1. built, compared and executed
    {
        let k = Key::new("leader");
        let slots: Vec<u64> = vec![0, 1, 255, 256, 65_537, SLOT, 1 << 32, 1 << 40, (1 << 56) + 3, u64::MAX - 1];
        let offsets: Vec<u64> = vec![0, 1, 8, 255, 256, 65_536, 70_003];
        let rents: Vec<(u64, f64)> = vec![(3480, 2.0), (1, 1.0), (10_000_019, 2.0), (0, 2.0), (7, 1.5)];
        let kinds = [(Kind::Data, Kind::Data), (Kind::Data, Kind::Code), (Kind::Code, Kind::Data), (Kind::Code, Kind::Code)];
        let (sl, of, re) = (slots.clone(), offsets.clone(), rents.clone());
        out.push(
            Space::new("built-report", move |c| {
                let slot = slots[c[0]];
                let (a, b) = root_conflict(&k, slot, c[3] % 3, kinds[c[4]], 90);
                let mut r = Report::of(k.pubkey(), slot, &a, &b);
                r.offset = offsets[c[1]];
                let funder = name("funder");
                let ids = [name("reporter"), name("destination"), k.pubkey()];
                r.reporter = ids[[0, 0, 2][c[6]]];
                r.destination = ids[[1, 0, 2][c[6]]];
                let mut e = Env::at(slot.saturating_add(1), 432_000);
                e.rent.lamports_per_byte_year = rents[c[2]].0;
                e.rent.exemption_threshold = rents[c[2]].1;
                let mut acc = vec![0x99; offsets[c[1]] as usize];
                acc.extend(pack(&a.bytes, &b.bytes));
                let ixs = duplicate_block_proof_with_sigverify_and_prefund(
                    &proof_account(),
                    &typed(&r),
                    (c[5] == 1).then_some(&funder),
                    &e.rent,
                );
                // the wire format
                let pays = if c[5] == 1 { funder } else { r.reporter };
                let advertised = minimum(&e, HEADER + 8 + 2 * 1232);
                let mut t = vec![2u8, 0, 0, 0];
                t.extend_from_slice(&advertised.to_le_bytes());
                let f = fp(&(&ixs[0].data, &ixs[1].data, &ixs[2].data, c[5]));
                let want = r.ix(&proof_account());
                let alone = duplicate_block_proof(&proof_account(), &typed(&r));
                if alone.data != want.data || alone.program_id != slashing() || !same_metas(&alone.accounts, &want.accounts) {
                    return Some(Verdict::bad("differs", "report instruction is not in the documented format"));
                }
                if ixs[2].data != want.data || ixs[2].program_id != slashing() || !same_metas(&ixs[2].accounts, &want.accounts) {
                    return Some(Verdict::bad("differs", "built report instruction is not in the documented format"));
                }
                if ixs[1].program_id != solana_program::ed25519_program::id()
                    || ixs[1].data != Report::sigverify(2).data
                {
                    return Some(Verdict::bad("differs", "verification instruction is not in the documented format"));
                }
                if ixs[0].program_id != system_program::id()
                    || ixs[0].data != t
                    || !same_metas(&ixs[0].accounts, &[AccountMeta::new(pays, true), AccountMeta::new(r.address(), false)])
                {
                    return Some(Verdict::bad("differs", "prefunding is not the advertised transfer"));
                }
                let size = packet_size(&ixs, pays);
                if size > 1232 {
                    return Some(Verdict::bad("too large", format!("the transaction takes {size} bytes")));
                }
                // execution
                let mut l = Ledger::new();
                rt::put(&mut l, proof_account(), 1 << 50, acc, name("record-program"));
                for w in [r.reporter, r.destination, funder] {
                    rt::put(&mut l, w, advertised * 2 + minimum(&e, 0), vec![], system_program::id());
                }
                let tx: Vec<Ix> = ixs.into_iter().map(Ix::from).collect();
                let ex = execute(&l, &e, &tx);
                let mut w = l.clone();
                rt::put(&mut w, pays, lamports_of(&l, &pays) - advertised, vec![], system_program::id());
                rt::put(&mut w, r.address(), advertised, stored(&e, &r, &a.bytes, &b.bytes), slashing());
                if advertised == 0 {
                    // nothing is stored for free: such an account does not persist
                    w.remove(&r.address());
                }
                // zero-lamport wallets vanish
                w.retain(|_, a| a.lamports > 0);
                let mut l0 = ex.ledger.clone();
                l0.retain(|_, a| a.lamports > 0);
                Some(Verdict::check(ex.label(), f, ex.ok() && l0 == w, || {
                    format!("built transaction: {}{}", ex.label(), if ex.ok() { ", but effects differ" } else { "" })
                }))
            })
            .dim("slot", &sl)
            .dim("offset", &of)
            .dim("rent", &re)
            .dim("flavour", &["plain", "chained", "resigned"])
            .dim("kinds", &["data data", "data code", "code data", "code code"])
            .dim("funder", &["none", "given"])
            .dim("reporter and destination", &["distinct", "same", "the node"]),
        );
    }
    // 2. prefunding is enough for any proof of two packets
    {
        let k = Key::new("leader");
        let kinds = [(Kind::Data, Kind::Data), (Kind::Data, Kind::Code), (Kind::Code, Kind::Code)];
        out.push(
            Space::new("packet-sized-shreds", move |c| {
                let (a, b) = root_conflict(&k, SLOT, c[3], kinds[c[0]], 91);
                let (mut x, mut y) = (a.bytes.clone(), b.bytes.clone());
                // up to a whole packet
                x.resize((x.len() + c[1]).min(1232), 0);
                y.resize((y.len() + c[2]).min(1232), 0);
                let mut r = Report::of(k.pubkey(), SLOT, &a, &b);
                r.reporter = name("wallet");
                let e = Env::at(SLOT + 1, 432_000);
                let mut l = Ledger::new();
                rt::put(&mut l, proof_account(), 1 << 50, pack(&x, &y), name("record-program"));
                rt::put(&mut l, r.reporter, 1 << 50, vec![], system_program::id());
                let ixs = duplicate_block_proof_with_sigverify_and_prefund(&proof_account(), &typed(&r), None, &e.rent);
                let tx: Vec<Ix> = ixs.into_iter().map(Ix::from).collect();
                let ex = execute(&l, &e, &tx);
                Some(Verdict::check(ex.label(), fp(&(c[0], x.len(), y.len(), c[3])), ex.ok(), || {
                    format!("report of {} + {} bytes: {}", x.len(), y.len(), ex.label())
                }))
            })
            .dim("kinds", &["data data", "data code", "code code"])
            .range("appended 1", 30)
            .range("appended 2", 30)
            .range("flavour", 3),
        );
    }
    // 3. closing
    {
        let k = Key::new("leader");
        let n = tier.pick(64, 512);
        out.push(
            Space::new("built-close", move |c| {
                let slot = SLOT + c[0] as u64;
                let (a, b): (Shred, Shred) = root_conflict(&k, SLOT, 1, (Kind::Data, Kind::Data), 92);
                let mut r = Report::of(k.pubkey(), slot, &a, &b);
                r.destination = name(&format!("d{}", c[0]));
                let e = Env::at(slot, 432_000);
                let mut later = e.clone();
                later.clock.epoch += 3 + c[1] as u64;
                let ix = close_violation_report(&r.address(), &r.destination);
                let want = close_ix(&r.address(), &r.destination);
                if ix.data != want.data || ix.program_id != want.program_id || !same_metas(&ix.accounts, &want.accounts) {
                    return Some(Verdict::bad("differs", "close instruction is not in the documented format"));
                }
                let mut l = Ledger::new();
                rt::put(&mut l, r.address(), minimum(&e, 9000), stored(&e, &r, &a.bytes, &b.bytes), slashing());
                let ex = execute(&l, &later, &[ix.into()]);
                let mut w = Ledger::new();
                rt::put(&mut w, r.destination, minimum(&e, 9000), vec![], system_program::id());
                Some(Verdict::check(ex.label(), fp(&c), ex.ok() && ex.ledger == w, || ex.label()))
            })
            .range("report", n)
            .range("epochs beyond three", 2),
        );
    }
    // 4. addresses: as documented, and all different
    {
        let slots = powers();
        let nodes: Vec<Pubkey> = (0..tier.pick(8, 40)).map(|i| if i == 0 { Pubkey::new_from_array([0; 32]) } else { name(&format!("n{i}")) }).collect();
        let n = nodes.len();
        let sl = slots.clone();
        out.push(
            Space::new("addresses", move |c| {
                let ty = [ProofType::InvalidType, ProofType::DuplicateBlockProof][c[2]];
                let (got, bump) = get_violation_report_address(&nodes[c[0]], slots[c[1]], ty);
                let want = report_address(&nodes[c[0]], slots[c[1]], c[2] as u8);
                let own = Pubkey::create_program_address(
                    &[nodes[c[0]].as_ref(), &slots[c[1]].to_le_bytes(), &[c[2] as u8], &[bump]],
                    &slashing(),
                );
                Some(Verdict::check("address", fp(got.as_ref()), got == want && own == Ok(got), || {
                    format!("{got} instead of {want}")
                }))
            })
            .range("node", n)
            .dim("slot", &sl)
            .dim("type", &["invalid", "duplicate block"]),
        );
    }
    // 5. instruction data: bytes and back
    {
        out.push(
            Space::new("data-fields", move |c| {
                // one field at a time carries a recognisable pattern
                let mut d = DuplicateBlockProofInstructionData::zeroed();
                let raw: &mut [u8] = bytemuck::bytes_of_mut(&mut d);
                if raw.len() != 304 {
                    return Some(Verdict::bad("size", format!("instruction data has {} bytes", raw.len())));
                }
                raw[c[0]] = c[1] as u8 + 1;
                let w: Vec<u8> = raw.to_vec();
                let ix = duplicate_block_proof(&proof_account(), &d);
                let fields = [
                    u64::from(d.offset).to_le_bytes().to_vec(),
                    u64::from(d.slot).to_le_bytes().to_vec(),
                    d.node_pubkey.to_bytes().to_vec(),
                    d.reporter.to_bytes().to_vec(),
                    d.destination.to_bytes().to_vec(),
                    d.shred_1_merkle_root.to_bytes().to_vec(),
                    d.shred_1_signature.to_vec(),
                    d.shred_2_merkle_root.to_bytes().to_vec(),
                    d.shred_2_signature.to_vec(),
                ]
                .concat();
                let addr = report_address(&d.node_pubkey, u64::from(d.slot), 1);
                let ok = ix.data[0] == 1
                    && ix.data[1..] == w[..]
                    && fields == w
                    && ix.accounts[1].pubkey == addr
                    && DuplicateBlockProofInstructionData::sigverify_data_offset() == OFF_ROOT1 as usize;
                Some(Verdict::check("fields", fp(&ix.data), ok, || "field out of place".into()))
            })
            .range("byte", 304)
            .range("value - 1", tier.pick(3, 16)),
        );
    }
    let _ = world::HEADER;
    out
}
