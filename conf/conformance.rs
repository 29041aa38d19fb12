//! Replays transactions recorded by the model checker's runtime stand-in
//! (mc/src/traces.rs) on a real bank running the same program, and compares the
//! outcome and every account. Compiled as an integration test of the program.
//!
//! MC_TRACES names the recorded transactions, MC_TRACES_OUT the verdicts, one
//! line for each: same, renamed, refused or differ.

use {
    solana_program_test::*,
    solana_sdk::{
        account::{Account, AccountSharedData},
        account_info::AccountInfo,
        clock::Clock,
        entrypoint::ProgramResult,
        epoch_schedule::EpochSchedule,
        instruction::{AccountMeta, Instruction, InstructionError},
        message::Message,
        program::invoke,
        pubkey::Pubkey,
        signature::Signature,
        transaction::{Transaction, TransactionError},
    },
    solana_slashing_program::{id, processor::process_instruction},
    std::{collections::BTreeSet, io::Write, sync::Mutex},
};

type IxT = ([u8; 32], Vec<([u8; 32], bool, bool)>, Vec<u8>);
type AccT = ([u8; 32], u64, Vec<u8>, [u8; 32]);
type Outcome = (u8, u32, u64, String);
type Trace = (
    String,
    (u64, i64, u64, u64, i64),
    (u64, u64, bool, u64, u64),
    Vec<AccT>,
    Vec<(IxT, Vec<IxT>)>,
    Outcome,
    Vec<AccT>,
);

fn proxy() -> Pubkey {
    Pubkey::new_from_array(*b"ThirdPartyProgramThatCallsOthers")
}

/// What the third-party program is to call, one list per top-level call of it.
static CALLS: Mutex<Vec<Vec<Instruction>>> = Mutex::new(Vec::new());

fn third_party(_: &Pubkey, accounts: &[AccountInfo], _: &[u8]) -> ProgramResult {
    let mut all = CALLS.lock().unwrap();
    let calls = if all.is_empty() { vec![] } else { all.remove(0) };
    drop(all);
    for i in calls {
        invoke(&i, accounts)?;
    }
    Ok(())
}

fn ix(i: &IxT) -> Instruction {
    Instruction {
        program_id: Pubkey::new_from_array(i.0),
        accounts: i
            .1
            .iter()
            .map(|(k, s, w)| AccountMeta {
                pubkey: Pubkey::new_from_array(*k),
                is_signer: *s,
                is_writable: *w,
            })
            .collect(),
        data: i.2.clone(),
    }
}

/// Accounts every bank has.
fn fixed(k: &Pubkey) -> bool {
    use solana_sdk::sysvar;
    [id(), proxy(), spl_record::id(), solana_sdk::ed25519_program::id(), Pubkey::default()].contains(k)
        || sysvar::is_sysvar_id(k)
}

/// The stand-in's names for what the runtime refuses.
fn class_of(m: &str) -> &'static [InstructionError] {
    match m {
        "readonly account changed" => {
            &[InstructionError::ReadonlyLamportChange, InstructionError::ReadonlyDataModified]
        }
        "external account lamport spend" => &[InstructionError::ExternalAccountLamportSpend],
        "external account data modified" => &[InstructionError::ExternalAccountDataModified],
        "modified program id" => &[InstructionError::ModifiedProgramId],
        "unbalanced instruction" => &[InstructionError::UnbalancedInstruction],
        "invalid realloc" => &[InstructionError::InvalidRealloc],
        _ => &[],
    }
}

fn compare(t: &Trace, got: &Result<(), TransactionError>) -> Result<bool, String> {
    let (kind, index, code, m) = &t.5;
    let differ = || Err(format!("stand-in: {:?} bank: {got:?}", t.5));
    match (kind, got) {
        (0, Ok(())) => Ok(true),
        (1, Err(TransactionError::InstructionError(i, e))) if u32::from(*i) == *index => {
            if InstructionError::from(*code) == *e {
                return Ok(true);
            }
            // refused by the runtime within a call of another program
            match e {
                InstructionError::PrivilegeEscalation
                | InstructionError::MissingAccount
                | InstructionError::ExternalAccountLamportSpend
                | InstructionError::ExternalAccountDataModified
                | InstructionError::ReadonlyLamportChange
                | InstructionError::ReadonlyDataModified
                | InstructionError::UnbalancedInstruction
                | InstructionError::ModifiedProgramId => Ok(false),
                _ => differ(),
            }
        }
        (2, Err(TransactionError::InsufficientFundsForRent { .. })) => {
            if m == "insufficient funds for rent" {
                Ok(true)
            } else {
                differ()
            }
        }
        (2, Err(TransactionError::InstructionError(i, e))) if u32::from(*i) == *index => {
            if class_of(m).contains(e) {
                Ok(true)
            // refused within a call: program-test gives up on the whole program
            } else if m.starts_with("call: ") && *e != InstructionError::ProgramFailedToComplete {
                differ()
            } else {
                Ok(false)
            }
        }
        (3, Err(TransactionError::InstructionError(i, _))) if u32::from(*i) == *index => Ok(true),
        _ => differ(),
    }
}

#[tokio::test]
async fn conformance() {
    let Ok(path) = std::env::var("MC_TRACES") else { return };
    let mut out = std::fs::File::create(std::env::var("MC_TRACES_OUT").unwrap()).unwrap();
    let traces: Vec<Trace> = bincode::deserialize(&std::fs::read(path).unwrap()).unwrap();

    let mut pt = ProgramTest::default();
    pt.prefer_bpf(false);
    pt.add_program("solana_slashing_program", id(), processor!(process_instruction));
    pt.add_program(
        "spl_record",
        spl_record::id(),
        processor!(spl_record::processor::process_instruction),
    );
    pt.add_program("third_party", proxy(), processor!(third_party));
    let mut context = pt.start_with_context().await;
    let client = context.banks_client.clone();

    let mut dirty: BTreeSet<Pubkey> = BTreeSet::new();
    for (n, t) in traces.iter().enumerate() {
        let none = AccountSharedData::from(Account::default());
        for k in std::mem::take(&mut dirty) {
            context.set_account(&k, &none);
        }
        let c = &t.1;
        context.set_sysvar(&Clock {
            slot: c.0,
            epoch_start_timestamp: c.1,
            epoch: c.2,
            leader_schedule_epoch: c.3,
            unix_timestamp: c.4,
        });
        let s = &t.2;
        context.set_sysvar(&EpochSchedule {
            slots_per_epoch: s.0,
            leader_schedule_slot_offset: s.1,
            warmup: s.2,
            first_normal_epoch: s.3,
            first_normal_slot: s.4,
        });
        for (k, lamports, data, owner) in &t.3 {
            let k = Pubkey::new_from_array(*k);
            dirty.insert(k);
            context.set_account(
                &k,
                &AccountSharedData::from(Account {
                    lamports: *lamports,
                    data: data.clone(),
                    owner: Pubkey::new_from_array(*owner),
                    executable: false,
                    rent_epoch: u64::MAX,
                }),
            );
        }
        let mut payer = [7u8; 32];
        payer[..8].copy_from_slice(&(n as u64).to_le_bytes());
        let payer = Pubkey::new_from_array(payer);
        dirty.insert(payer);
        context.set_account(
            &payer,
            &AccountSharedData::from(Account { lamports: 1_000_000_000_000, ..Account::default() }),
        );
        let ixs: Vec<Instruction> = t.4.iter().map(|(i, _)| ix(i)).collect();
        *CALLS.lock().unwrap() = t
            .4
            .iter()
            .filter(|(i, _)| i.0 == proxy().to_bytes())
            .map(|(_, inner)| inner.iter().map(ix).collect())
            .collect();
        for i in &ixs {
            for m in i.accounts.iter().filter(|m| m.is_writable && !fixed(&m.pubkey)) {
                dirty.insert(m.pubkey);
            }
        }
        let recent = client.get_latest_blockhash().await.unwrap();
        let message = Message::new_with_blockhash(&ixs, Some(&payer), &recent);
        let signatures = vec![Signature::default(); message.header.num_required_signatures as usize];
        let tx = Transaction { message, signatures };
        let got = client.process_transaction_with_metadata(tx).await;
        let got = match got {
            Ok(g) => g.result,
            Err(e) => {
                writeln!(out, "differ {}: no answer from the bank: {e:?}", t.0).unwrap();
                return;
            }
        };
        let mut refused = None;
        if let Err(e) = &got {
            if !matches!(
                e,
                TransactionError::InstructionError(..)
                    | TransactionError::InsufficientFundsForRent { .. }
            ) {
                refused = Some(format!("{e:?}"));
            }
        }
        if let Some(e) = refused {
            writeln!(out, "refused {}: {e}", t.0).unwrap();
            continue;
        }
        let verdict = match compare(t, &got) {
            Err(m) => Err(m),
            Ok(exact) => {
                let mut bad = None;
                let mut keys: BTreeSet<Pubkey> = dirty.clone();
                keys.remove(&payer);
                keys.extend(t.6.iter().map(|a| Pubkey::new_from_array(a.0)));
                for k in keys {
                    let want = t.6.iter().find(|a| a.0 == k.to_bytes() && a.1 > 0);
                    let have = client.get_account(k).await.unwrap().filter(|a| a.lamports > 0);
                    dirty.insert(k);
                    let same = match (want, &have) {
                        (None, None) => true,
                        (Some(w), Some(h)) => {
                            w.1 == h.lamports && w.2 == h.data && w.3 == h.owner.to_bytes()
                        }
                        _ => false,
                    };
                    if !same {
                        bad = Some(format!(
                            "account {k}: stand-in {:?} bank {:?}",
                            want.map(|w| (w.1, w.2.len(), Pubkey::new_from_array(w.3))),
                            have.map(|h| (h.lamports, h.data.len(), h.owner)),
                        ));
                        break;
                    }
                }
                match bad {
                    Some(b) => Err(b),
                    None => Ok(exact),
                }
            }
        };
        match verdict {
            Ok(true) => writeln!(out, "same").unwrap(),
            Ok(false) => writeln!(out, "renamed {} {got:?}", t.0).unwrap(),
            Err(m) => writeln!(out, "differ {}: {m}", t.0).unwrap(),
        }
    }
}
