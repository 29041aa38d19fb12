From c91f95eba3a6dbb8c085c9947ebd3bbb85235417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 01/16] fix: count ed25519 verifications as the precompile does

The native ed25519 precompile reads the number of signatures from the first
byte of its instruction data; the second byte is padding. Reading both as a
u16 let a transaction with a non-zero padding byte pass off entries the
precompile never looked at as verified.
---
 program/src/sigverify.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index f6c033d..80d9135 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -125,12 +125,14 @@ impl<'a> SignatureVerification<'a> {
         if sigverify_ix.program_id != ed25519_program::id() {
             return Err(SlashingError::MissingSignatureVerification);
         }
-        let num_signatures = u16::from_le_bytes(
-            sigverify_ix.data[0..2]
-                .try_into()
-                .map_err(|_| SlashingError::MissingSignatureVerification)?,
-        );
-        if num_signatures < NUM_VERIFICATIONS as u16 {
+        // The precompile takes the number of signatures from the first byte only,
+        // the second one is padding.
+        let num_signatures = sigverify_ix
+            .data
+            .first()
+            .copied()
+            .ok_or(SlashingError::MissingSignatureVerification)?;
+        if usize::from(num_signatures) < NUM_VERIFICATIONS {
             return Err(SlashingError::MissingSignatureVerification);
         }
         let expected_data_size = NUM_VERIFICATIONS
-- 
2.43.0


From c02a86fa0e55c386683f666e39c6fdc29a0ded82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 02/16] fix: read signature offsets unaligned

The instruction copied out of the instructions sysvar lives at an arbitrary
address of the heap; with instruction data of odd length the cast to the
2-aligned offsets struct failed and correctly verified evidence was refused.
---
 program/src/sigverify.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index 80d9135..c64ef1b 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -148,8 +148,9 @@ impl<'a> SignatureVerification<'a> {
                 .saturating_add(SIGNATURE_OFFSETS_START);
             let end = start.saturating_add(SIGNATURE_OFFSETS_SERIALIZED_SIZE);
 
-            let offsets: &Ed25519SignatureOffsets =
-                bytemuck::try_from_bytes(&sigverify_ix.data[start..end])
+            // The heap copy of the instruction data is not necessarily aligned
+            let offsets: Ed25519SignatureOffsets =
+                bytemuck::try_pod_read_unaligned(&sigverify_ix.data[start..end])
                     .map_err(|_| SlashingError::InvalidSignatureVerification)?;
 
             // Parse out signature
-- 
2.43.0


From 6a6b6256126a0e16c376c589735321777589af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:58 +0000
Subject: [PATCH 03/16] fix: bind signature verification to the executing
 instruction's data

The offsets of the verification instruction refer to the data of the top level
instruction. Invoked by another program, the program resolved them in its own
instruction data, which nobody verified.
---
 program/src/sigverify.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index c64ef1b..c67a4b5 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -120,6 +120,14 @@ impl<'a> SignatureVerification<'a> {
         // Instruction inspection to unpack successful signature verifications
         let current_index = load_current_index_checked(instructions_sysvar)
             .map_err(|_| SlashingError::InvalidSignatureVerification)?;
+        // The offsets refer to the data of the top level instruction, which is not
+        // what we were given when another program is invoking us
+        let current_ix = get_instruction_relative(0, instructions_sysvar)
+            .map_err(|_| SlashingError::InvalidSignatureVerification)?;
+        if current_ix.data != instruction_data {
+            msg!("Signature verification does not refer to the slashing instruction");
+            return Err(SlashingError::InvalidSignatureVerification);
+        }
         let sigverify_ix = get_instruction_relative(relative_index, instructions_sysvar)
             .map_err(|_| SlashingError::MissingSignatureVerification)?;
         if sigverify_ix.program_id != ed25519_program::id() {
-- 
2.43.0


From 8be488db23094c01f22a4f31589aa0a3b304a43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 04/16] fix: ignore bytes past the end of a shred

Shreds of the same index were compared including whatever the reporter
appended to them, so a single shred of an honest leader could be presented as
a payload conflict with itself.
---
 program/src/shred.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/program/src/shred.rs b/program/src/shred.rs
index 90230fe..4d9f6af 100644
--- a/program/src/shred.rs
+++ b/program/src/shred.rs
@@ -102,6 +102,8 @@ impl<'a> Shred<'a> {
     const SIZE_OF_DATA_HEADERS: usize = 88;
 
     pub(crate) fn new_from_payload(payload: &'a [u8]) -> Result<Self, SlashingError> {
+        // Nothing past the end of a shred is signed by the leader
+        let truncate = |size: usize| payload.get(..size).unwrap_or(payload);
         match Self::get_shred_variant(payload)? {
             ShredVariant::LegacyCode | ShredVariant::LegacyData => Err(SlashingError::LegacyShreds),
             ShredVariant::MerkleCode {
@@ -113,7 +115,7 @@ impl<'a> Shred<'a> {
                 proof_size,
                 chained,
                 resigned,
-                payload,
+                payload: truncate(Self::SIZE_OF_CODING_PAYLOAD),
             }),
             ShredVariant::MerkleData {
                 proof_size,
@@ -124,7 +126,7 @@ impl<'a> Shred<'a> {
                 proof_size,
                 chained,
                 resigned,
-                payload,
+                payload: truncate(Self::SIZE_OF_DATA_PAYLOAD),
             }),
         }
     }
-- 
2.43.0


From ab6a486f6352fe156953190f54370d26b0fb1a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:00 +0000
Subject: [PATCH 05/16] fix: refuse a proof offset past the end of the proof
 account

Slicing the account data panicked instead of returning an error.
---
 program/src/processor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index 4958895..581b032 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -82,7 +82,10 @@ pub fn process_instruction(
         SlashingInstruction::DuplicateBlockProof => {
             let accounts = SlashingAccounts::new(account_info_iter)?;
             let data = decode_instruction_data::<DuplicateBlockProofInstructionData>(input)?;
-            let proof_data = &accounts.proof_account.try_borrow_data()?[data.offset()?..];
+            let proof_account_data = accounts.proof_account.try_borrow_data()?;
+            let proof_data = proof_account_data
+                .get(data.offset()?..)
+                .ok_or(SlashingError::ProofBufferTooSmall)?;
             let violation_report = ViolationReport {
                 version: ViolationReport::VERSION,
                 reporter: data.reporter,
-- 
2.43.0


From 2a178d967a2c34eb7176e2ed833e57a4280e5223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:00 +0000
Subject: [PATCH 06/16] fix: refuse to close accounts too small to hold a
 report

Anybody can create a short zero-filled account owned by the program; closing
it panicked instead of returning an error.
---
 program/src/state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/program/src/state.rs b/program/src/state.rs
index 12a889e..062fc16 100644
--- a/program/src/state.rs
+++ b/program/src/state.rs
@@ -318,8 +318,10 @@ pub(crate) fn close_violation_report<'a, 'b>(
     destination_account: &'a AccountInfo<'b>,
 ) -> Result<(), ProgramError> {
     let report_data = report_account.try_borrow_data()?;
-    let report: &ViolationReport =
-        pod_from_bytes(&report_data[0..std::mem::size_of::<ViolationReport>()])?;
+    let report: &ViolationReport = report_data
+        .get(0..std::mem::size_of::<ViolationReport>())
+        .ok_or(SlashingError::InvalidViolationReportAcccount.into())
+        .and_then(pod_from_bytes)?;
     let destination = report.destination;
 
     if Epoch::from(report.epoch).saturating_add(3) > sysvar::clock::Clock::get()?.epoch {
-- 
2.43.0


From ee8052966e7ba1a48cbbbfe74bef38e171293e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:58 +0000
Subject: [PATCH 07/16] fix: skip program accounts that hold no report in the
 client

Anyone can assign a zero-filled account of any size to the slashing
program. One shorter than the report header made display and close panic,
a longer one was listed as a report of an invalid type or closed.
---
 clients/cli/src/main.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 250e454..5741a60 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -323,6 +323,15 @@ async fn report_duplicate_block_violation(
     Ok(true)
 }
 
+/// Returns the violation report stored in `data`, if there is one. Anyone can
+/// assign zero-filled accounts of any size to the slashing program, these are
+/// not reports.
+fn stored_report(data: &[u8]) -> Option<&ViolationReport> {
+    let report: &ViolationReport =
+        pod_from_bytes(data.get(..std::mem::size_of::<ViolationReport>())?).ok()?;
+    (report.version > 0).then_some(report)
+}
+
 /// Close a violation report
 /// If `report_account` is specified we close the report account, otherwise we
 /// close any eligible accounts filtered by `reporter`, `destination`, or
@@ -375,8 +384,9 @@ async fn command_close(
 
     let mut displays = vec![];
     for (pubkey, report_account) in reports {
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
+        let Some(report) = stored_report(report_account.data()) else {
+            continue;
+        };
         if report.epoch() + 3 > epoch {
             early_reports += 1;
             continue;
@@ -455,8 +465,9 @@ async fn command_display(
 
     let mut displays = vec![];
     for (pubkey, report_account) in reports {
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
+        let Some(report) = stored_report(report_account.data()) else {
+            continue;
+        };
         if ignore_filter(report) {
             continue;
         }
-- 
2.43.0


From 312aecf688d3c6d80388133d287fd3f4fc50fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 08/16] fix: tell failed simulations from successful ones in a
 dry run

A simulation that failed was announced as succeeded, and one without a
unit count crashed verbose mode.
---
 clients/cli/src/main.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 5741a60..d7e0f82 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -557,19 +557,24 @@ async fn process_transaction(
     transaction: Transaction,
 ) -> Result<Option<Signature>, Error> {
     if config.dry_run {
-        let simulation_data = config.rpc_client.simulate_transaction(&transaction).await?;
+        let simulation = config
+            .rpc_client
+            .simulate_transaction(&transaction)
+            .await?
+            .value;
 
         if config.verbose() {
-            if let Some(logs) = simulation_data.value.logs {
+            if let Some(logs) = &simulation.logs {
                 for log in logs {
                     println!("    {}", log);
                 }
             }
+        }
 
-            println!(
-                "\nSimulation succeeded, consumed {} compute units",
-                simulation_data.value.units_consumed.unwrap()
-            );
+        if let Some(err) = simulation.err {
+            eprintln!("Simulation failed: {}", err);
+        } else if let (true, Some(units)) = (config.verbose(), simulation.units_consumed) {
+            println!("\nSimulation succeeded, consumed {} compute units", units);
         } else {
             println_display(config, "Simulation succeeded".to_string());
         }
-- 
2.43.0


From 8b4a19f1441ffca8c6983ca7fe56e5e8d8984fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 09/16] fix: do not crash attach on a missing leader or merkle
 root

Only the slot concerned fails; the others are still reported and proof
accounts are still closed.
---
 clients/cli/src/main.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index d7e0f82..a656d55 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -237,7 +237,12 @@ async fn report_duplicate_block_violation(
     slot: Slot,
 ) -> Result<bool, Error> {
     // Check if this violation has already been reported
-    let node_pubkey = config.rpc_client.get_slot_leaders(slot, 1).await?[0];
+    let node_pubkey = *config
+        .rpc_client
+        .get_slot_leaders(slot, 1)
+        .await?
+        .first()
+        .ok_or(Error::from("Unable to fetch the leader of the slot"))?;
     let (pda, _) = get_violation_report_address(&node_pubkey, slot, ProofType::DuplicateBlockProof);
     if let Some(report_account) = config
         .rpc_client
@@ -282,8 +287,10 @@ async fn report_duplicate_block_violation(
 
     // Submit the violation to the slashing program
     let payer = config.fee_payer()?;
-    let shred_1_merkle_root = layout::get_merkle_root(proof.shred1.as_ref()).unwrap();
-    let shred_2_merkle_root = layout::get_merkle_root(proof.shred2.as_ref()).unwrap();
+    let shred_1_merkle_root = layout::get_merkle_root(proof.shred1.as_ref())
+        .ok_or(Error::from("Shred 1 of the proof has no merkle root"))?;
+    let shred_2_merkle_root = layout::get_merkle_root(proof.shred2.as_ref())
+        .ok_or(Error::from("Shred 2 of the proof has no merkle root"))?;
     let shred_1_signature = proof.shred1.as_ref()[..SIGNATURE_BYTES].try_into().unwrap();
     let shred_2_signature = proof.shred2.as_ref()[..SIGNATURE_BYTES].try_into().unwrap();
 
-- 
2.43.0


From 7b961a9e1caacf1797d49f0fba22b403765cf3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:52 +0000
Subject: [PATCH 10/16] fix: close every proof account even if closing one
 fails

A failing request while closing one proof account ended attach and left
the deposits of all the others behind.
---
 clients/cli/src/main.rs | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index a656d55..c5c35b3 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -196,19 +196,17 @@ async fn command_attach(
 
         // Close any proof accounts, regardless of whether the report was successful
         for proof_account in closable_proof_accounts {
-            let close_ix = spl_record::instruction::close_account(
-                &proof_account.pubkey(),
-                &payer.pubkey(),
-                &payer.pubkey(),
-            );
-            let transaction = Transaction::new_signed_with_payer(
-                &[close_ix],
-                Some(&payer.pubkey()),
-                &[payer.as_ref()],
-                config.rpc_client.get_latest_blockhash().await?,
-            );
-            if process_transaction(config, transaction).await?.is_some() {
-                println_display(config, "Closed proof account".to_string());
+            match close_proof_account(config, payer.as_ref(), &proof_account.pubkey()).await {
+                Ok(true) => println_display(config, "Closed proof account".to_string()),
+                Err(e) => eprintln_display(
+                    config,
+                    format!(
+                        "Failed to close proof account {}: {:?}",
+                        proof_account.pubkey(),
+                        e
+                    ),
+                ),
+                _ => (),
             }
         }
 
@@ -559,6 +557,22 @@ async fn initialize_and_write_proof(
     Ok(())
 }
 
+async fn close_proof_account(
+    config: &Config,
+    payer: &dyn Signer,
+    proof_account: &Pubkey,
+) -> Result<bool, Error> {
+    let close_ix =
+        spl_record::instruction::close_account(proof_account, &payer.pubkey(), &payer.pubkey());
+    let transaction = Transaction::new_signed_with_payer(
+        &[close_ix],
+        Some(&payer.pubkey()),
+        &[payer],
+        config.rpc_client.get_latest_blockhash().await?,
+    );
+    Ok(process_transaction(config, transaction).await?.is_some())
+}
+
 async fn process_transaction(
     config: &Config,
     transaction: Transaction,
-- 
2.43.0


From b9a4d5e3e83a1e4968d3b7caa87388f1f857f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:00 +0000
Subject: [PATCH 11/16] fix: display recorded proofs that the ledger crate does
 not decode

The program records any shreds that conflict, whether or not other parts
of them make sense; verbose display panicked on those.
---
 clients/cli/src/output.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/clients/cli/src/output.rs b/clients/cli/src/output.rs
index 4823b78..15979b5 100644
--- a/clients/cli/src/output.rs
+++ b/clients/cli/src/output.rs
@@ -185,10 +185,19 @@ impl ViolationReportOutput {
     }
 
     fn display_duplicate_block_proof(w: &mut dyn Write, proof: DuplicateSlotProof) -> Result {
-        let shred1 = Shred::new_from_serialized_shred(proof.shred1).unwrap();
-        let shred2 = Shred::new_from_serialized_shred(proof.shred2).unwrap();
-
-        for (i, shred) in [&shred1, &shred2].iter().enumerate() {
+        let payloads = [proof.shred1, proof.shred2];
+        let shreds = payloads
+            .clone()
+            .map(|payload| Shred::new_from_serialized_shred(payload).ok());
+
+        for (i, (payload, shred)) in payloads.iter().zip(&shreds).enumerate() {
+            // The program does not sanitize parts of a shred that are irrelevant for
+            // the violation
+            let Some(shred) = shred else {
+                writeln!(w, "    Shred{}: malformed", i + 1)?;
+                writeln!(w, "       payload: {:?}", payload)?;
+                continue;
+            };
             writeln!(
                 w,
                 "    Shred{}: fec_set_index {}, index {}, shred_type {:?}\n       \
@@ -205,12 +214,14 @@ impl ViolationReportOutput {
             writeln!(w, "       payload: {:?}", shred.payload())?;
         }
 
-        if shred1.shred_type() == ShredType::Code && shred2.shred_type() == ShredType::Code {
-            writeln!(
-                w,
-                "    Erasure consistency {}",
-                ErasureMeta::check_erasure_consistency(&shred1, &shred2)
-            )?;
+        if let [Some(shred1), Some(shred2)] = &shreds {
+            if shred1.shred_type() == ShredType::Code && shred2.shred_type() == ShredType::Code {
+                writeln!(
+                    w,
+                    "    Erasure consistency {}",
+                    ErasureMeta::check_erasure_consistency(shred1, shred2)
+                )?;
+            }
         }
 
         Ok(())
-- 
2.43.0


From 9a0f6b8b6bd2d0b06f71377b6f32a0d2fa920f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 12/16] fix: do not let a report that cannot be closed block
 the others

Anyone may report with a destination that can never be credited, such as
the system program; close stopped at the first such report.
---
 clients/cli/src/main.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index c5c35b3..ceb0f06 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -401,14 +401,16 @@ async fn command_close(
         }
         let lamports = report_account.lamports;
 
-        let close_ix = close_violation_report(&pubkey, &report.destination);
-        let transaction = Transaction::new_signed_with_payer(
-            &[close_ix],
-            Some(&payer.pubkey()),
-            &[payer.as_ref()],
-            config.rpc_client.get_latest_blockhash().await?,
-        );
-        let signature = process_transaction(config, transaction).await?;
+        // A report that cannot be closed, e.g. because its destination cannot be
+        // credited, must not get in the way of the others
+        let signature =
+            match close_report(config, payer.as_ref(), &pubkey, &report.destination).await {
+                Ok(signature) => signature,
+                Err(e) => {
+                    eprintln!("Failed to close report account {}: {:?}", pubkey, e);
+                    continue;
+                }
+            };
 
         displays.push(CloseReportOutput {
             report_account: pubkey,
@@ -427,6 +429,22 @@ async fn command_close(
     ))
 }
 
+async fn close_report(
+    config: &Config,
+    payer: &dyn Signer,
+    report_account: &Pubkey,
+    destination: &Pubkey,
+) -> Result<Option<Signature>, Error> {
+    let close_ix = close_violation_report(report_account, destination);
+    let transaction = Transaction::new_signed_with_payer(
+        &[close_ix],
+        Some(&payer.pubkey()),
+        &[payer],
+        config.rpc_client.get_latest_blockhash().await?,
+    );
+    process_transaction(config, transaction).await
+}
+
 /// Display violation reports
 /// If specified, we filter by `epoch`, `node_pubkey`, and `reporter`
 /// If verbose is specified we additionally deserialize the raw proof
-- 
2.43.0


From 9afaadc4a3154edf87e8dead7c8eedf0a2fa4196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:36 +0000
Subject: [PATCH 13/16] fix: treat a failed simulation as a failure

A report whose closing was simulated and failed was listed as closed, and
a slot whose report failed was counted as reported.
---
 clients/cli/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index ceb0f06..c1810ff 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -612,7 +612,10 @@ async fn process_transaction(
 
         if let Some(err) = simulation.err {
             eprintln!("Simulation failed: {}", err);
-        } else if let (true, Some(units)) = (config.verbose(), simulation.units_consumed) {
+            return Err(err.into());
+        }
+
+        if let (true, Some(units)) = (config.verbose(), simulation.units_consumed) {
             println!("\nSimulation succeeded, consumed {} compute units", units);
         } else {
             println_display(config, "Simulation succeeded".to_string());
-- 
2.43.0


From 6a7b38ba81a6e152548af52fe8c65a98d903d77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:53 +0000
Subject: [PATCH 14/16] fix: a submitted report counts even if it cannot be
 read back yet

A node that had not seen the report yet made attach panic, and a failing
request for it was announced as a failed submission.
---
 clients/cli/src/main.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index c1810ff..2ef346a 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -315,14 +315,16 @@ async fn report_duplicate_block_violation(
         &[payer.as_ref()],
         config.rpc_client.get_latest_blockhash().await?,
     );
-    if let Some(_signature) = process_transaction(config, transaction).await? {
-        let report_account = config.rpc_client.get_account(&pda).await?;
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
-        println_display(
-            config,
-            ViolationReportOutput::from_report(pda, report, vec![]).to_string(),
-        );
+    if process_transaction(config, transaction).await?.is_some() {
+        // The report is submitted, even if it cannot be shown yet
+        if let Ok(report_account) = config.rpc_client.get_account(&pda).await {
+            if let Some(report) = stored_report(report_account.data()) {
+                println_display(
+                    config,
+                    ViolationReportOutput::from_report(pda, report, vec![]).to_string(),
+                );
+            }
+        }
     }
 
     Ok(true)
-- 
2.43.0


From d1da0766b2e2791f6a87a0d58649a1cd616bad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 15/16] fix: refuse a fee payer that cannot be loaded instead
 of paying with another key

A --fee-payer that could not be resolved (a malformed keypair file, a
public key without a signer, a missing hardware wallet) was silently
replaced by the default signer.
---
 clients/cli/src/config.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clients/cli/src/config.rs b/clients/cli/src/config.rs
index 22f9c6b..acbcc08 100644
--- a/clients/cli/src/config.rs
+++ b/clients/cli/src/config.rs
@@ -69,8 +69,13 @@ impl Config {
         // resolve fee-payer
         let fee_payer = cli
             .fee_payer
-            .and_then(|source| {
-                signer_from_source(&matches, &source, "fee_payer", wallet_manager).ok()
+            .map(|source| {
+                signer_from_source(&matches, &source, "fee_payer", wallet_manager).unwrap_or_else(
+                    |err| {
+                        eprintln!("error: Could not load fee payer: {}", err);
+                        exit(1);
+                    },
+                )
             })
             .map(Arc::from)
             .or(default_signer.clone());
-- 
2.43.0


From dc02e18d62867099b6acfe003e5c0de467f38d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 16/16] fix: pack a proof without growing the buffer

The on-chain heap of 32 KiB never gives memory back. Growing the packed
proof step by step uses up to three times its size, so that a report of
shreds with surplus bytes aborted for lack of memory.
---
 program/src/duplicate_block_proof.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/program/src/duplicate_block_proof.rs b/program/src/duplicate_block_proof.rs
index 96b9263..46dfc14 100644
--- a/program/src/duplicate_block_proof.rs
+++ b/program/src/duplicate_block_proof.rs
@@ -136,7 +136,8 @@ impl<'a> SlashingProofData<'a> for DuplicateBlockProofData<'a> {
     /// Packs proof data to write in account for
     /// `SlashingInstruction::DuplicateBlockProof`
     fn pack_proof(self) -> Vec<u8> {
-        let mut buf = vec![];
+        // The heap never gets memory back, growing the buffer would use up a multiple
+        let mut buf = Vec::with_capacity(self.packed_len());
         buf.extend_from_slice(&(self.shred1.len() as u32).to_le_bytes());
         buf.extend_from_slice(self.shred1);
         buf.extend_from_slice(&(self.shred2.len() as u32).to_le_bytes());
-- 
2.43.0

