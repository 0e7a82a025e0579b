From a6d64c29122e3e8313536286e12ceef5cbdb6383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 1/7] fix: sync sources with a verified collection to SPL Token
 wrapped mints

Metaplex refuses to write a collection that claims to be verified, so the
sync of any such source failed. Write it unverified, as is done for creators.
---
 program/src/metaplex.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/program/src/metaplex.rs b/program/src/metaplex.rs
index 60d3dd4..6dc758e 100644
--- a/program/src/metaplex.rs
+++ b/program/src/metaplex.rs
@@ -140,9 +140,12 @@ pub fn token_2022_metadata_to_metaplex(
                     .map_err(|_| ProgramError::InvalidAccountData)?;
             }
             "collection" => {
-                collection = Some(
-                    serde_json::from_str(value).map_err(|_| ProgramError::InvalidAccountData)?,
-                );
+                let mut deserialized_collection: MetaplexCollection =
+                    serde_json::from_str(value).map_err(|_| ProgramError::InvalidAccountData)?;
+                // Same for the collection: Metaplex rejects writing one that claims to be
+                // verified, as only the collection's authority may verify it.
+                deserialized_collection.verified = false;
+                collection = Some(deserialized_collection);
             }
             "uses" => {
                 uses = Some(
-- 
2.43.0


From af20fc3c3d0db2d2b663f6262c64d879214019c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 2/7] fix: a dry run whose simulation fails is an error

process_transaction printed "Simulation succeeded" and exited 0 whatever the
node answered, and panicked with --verbose when the answer had no unit count.
---
 clients/cli/src/common.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/clients/cli/src/common.rs b/clients/cli/src/common.rs
index bdf2524..3b6adf4 100644
--- a/clients/cli/src/common.rs
+++ b/clients/cli/src/common.rs
@@ -58,13 +58,17 @@ pub async fn process_transaction(
                     println!("    {}", log);
                 }
             }
+        }
+
+        if let Some(err) = simulation_data.value.err {
+            return Err(format!("Simulation failed: {err}").into());
+        }
 
-            println!(
-                "\nSimulation succeeded, consumed {} compute units",
-                simulation_data.value.units_consumed.unwrap()
-            );
-        } else {
-            println_display(config, "Simulation succeeded".to_string());
+        match simulation_data.value.units_consumed {
+            Some(units) if config.verbose() => {
+                println!("\nSimulation succeeded, consumed {units} compute units");
+            }
+            _ => println_display(config, "Simulation succeeded".to_string()),
         }
 
         Ok(None)
-- 
2.43.0


From e27d5bd340e48451fe745d9b47eddbb94acfb2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 3/7] fix: create-mint does not take a failed account query for
 an unfunded account

Any RPC error while looking up the wrapped mint or backpointer counted as
"no lamports", so the payer funded the account's full rent a second time.
---
 clients/cli/src/create_mint.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/clients/cli/src/create_mint.rs b/clients/cli/src/create_mint.rs
index 3c02fae..3b82037 100644
--- a/clients/cli/src/create_mint.rs
+++ b/clients/cli/src/create_mint.rs
@@ -115,11 +115,11 @@ pub async fn command_create_mint(config: &Config, args: CreateMintArgs) -> Comma
     let mut instructions: Vec<Instruction> = Vec::new();
 
     // Fund the wrapped mint account if it doesn't exist or is insufficiently funded
-    let wrapped_mint_account = rpc_client.get_account(&wrapped_mint_address).await;
-    let wrapped_mint_lamports = match wrapped_mint_account {
-        Ok(account) => account.lamports,
-        Err(_) => 0,
-    };
+    let wrapped_mint_account = rpc_client
+        .get_account_with_commitment(&wrapped_mint_address, rpc_client.commitment())
+        .await?
+        .value;
+    let wrapped_mint_lamports = wrapped_mint_account.map_or(0, |account| account.lamports);
 
     let mint_size = if args.wrapped_token_program == spl_token_2022_interface::id() {
         DefaultToken2022Customizer::get_token_2022_mint_space()?
@@ -147,11 +147,11 @@ pub async fn command_create_mint(config: &Config, args: CreateMintArgs) -> Comma
     }
 
     // Fund the backpointer account if it doesn't exist or is insufficiently funded
-    let backpointer_account = rpc_client.get_account(&wrapped_backpointer_address).await;
-    let backpointer_lamports = match backpointer_account {
-        Ok(account) => account.lamports,
-        Err(_) => 0,
-    };
+    let backpointer_account = rpc_client
+        .get_account_with_commitment(&wrapped_backpointer_address, rpc_client.commitment())
+        .await?
+        .value;
+    let backpointer_lamports = backpointer_account.map_or(0, |account| account.lamports);
 
     let backpointer_rent = rpc_client
         .get_minimum_balance_for_rent_exemption(std::mem::size_of::<
-- 
2.43.0


From 7edf4e329f5ea0e415f362ba33e8016d2a2b01cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 4/7] fix: create-escrow-account does not take a funded address
 for an escrow

Anyone can send lamports to the escrow's address. The command then refused to
create the escrow, or with --idempotent reported success without creating it.
---
 clients/cli/src/create_escrow_account.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/clients/cli/src/create_escrow_account.rs b/clients/cli/src/create_escrow_account.rs
index 7ba2a2e..0dfbddf 100644
--- a/clients/cli/src/create_escrow_account.rs
+++ b/clients/cli/src/create_escrow_account.rs
@@ -119,8 +119,13 @@ pub async fn command_create_escrow_account(
         &args.wrapped_token_program,
     );
 
-    match rpc_client.get_account(&escrow_account_address).await {
-        Ok(_) => {
+    let existing_account = rpc_client
+        .get_account_with_commitment(&escrow_account_address, rpc_client.commitment())
+        .await?
+        .value;
+    match existing_account {
+        // An address that merely holds lamports is not an escrow account yet
+        Some(account) if account.owner == unwrapped_token_program_id => {
             if args.idempotent {
                 println_display(
                     config,
@@ -135,7 +140,7 @@ pub async fn command_create_escrow_account(
                 );
             }
         }
-        Err(_) => {
+        _ => {
             instructions.push(create_associated_token_account(
                 &payer.pubkey(),
                 &wrapped_mint_authority,
-- 
2.43.0


From cfae5b693da3eb05f5df031d262aa1dea2c284f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 5/7] fix: a multisig member given by address no longer
 displaces the fee payer's signature

---
 clients/cli/src/unwrap.rs | 13 ++++++++++---
 clients/cli/src/wrap.rs   | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/clients/cli/src/unwrap.rs b/clients/cli/src/unwrap.rs
index 228b803..1d27c96 100644
--- a/clients/cli/src/unwrap.rs
+++ b/clients/cli/src/unwrap.rs
@@ -12,7 +12,7 @@ use {
     serde_derive::{Deserialize, Serialize},
     serde_with::{serde_as, DisplayFromStr},
     solana_clap_v3_utils::{
-        input_parsers::signer::{SignerSource, SignerSourceParserBuilder},
+        input_parsers::signer::{SignerSource, SignerSourceKind, SignerSourceParserBuilder},
         keypair::{signer_from_source_with_config, SignerFromPathConfig},
     },
     solana_cli_output::{
@@ -250,8 +250,15 @@ pub async fn command_unwrap(
         signers.push(transfer_authority_signer);
     }
 
-    for signer in &multisig_signers {
-        signers.push(signer.clone());
+    // A member given by address only has no signature to add, and must not
+    // displace the signature of a fee payer with the same address
+    for (signer, source) in multisig_signers
+        .iter()
+        .zip(args.multisig_signer.iter().flatten())
+    {
+        if !matches!(source.kind, SignerSourceKind::Pubkey(_)) {
+            signers.push(signer.clone());
+        }
     }
 
     // Pre-signed transactions can be passed as --signer `PUBKEY=SIGNATURE`
diff --git a/clients/cli/src/wrap.rs b/clients/cli/src/wrap.rs
index c9e4d7f..138ca28 100644
--- a/clients/cli/src/wrap.rs
+++ b/clients/cli/src/wrap.rs
@@ -12,7 +12,7 @@ use {
     serde_derive::{Deserialize, Serialize},
     serde_with::{serde_as, DisplayFromStr},
     solana_clap_v3_utils::{
-        input_parsers::signer::{SignerSource, SignerSourceParserBuilder},
+        input_parsers::signer::{SignerSource, SignerSourceKind, SignerSourceParserBuilder},
         keypair::{signer_from_source_with_config, SignerFromPathConfig},
     },
     solana_cli_output::{
@@ -292,8 +292,15 @@ pub async fn command_wrap(
         signers.push(transfer_authority_signer);
     }
 
-    for signer in &multisig_signers {
-        signers.push(signer.clone());
+    // A member given by address only has no signature to add, and must not
+    // displace the signature of a fee payer with the same address
+    for (signer, source) in multisig_signers
+        .iter()
+        .zip(args.multisig_signer.iter().flatten())
+    {
+        if !matches!(source.kind, SignerSourceKind::Pubkey(_)) {
+            signers.push(signer.clone());
+        }
     }
 
     // Pre-signed transactions can be passed as --signer `PUBKEY=SIGNATURE`
-- 
2.43.0


From 6942c6fcf56f33914b95fc3acdbaffaffa29562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:14 +0000
Subject: [PATCH 6/7] fix: createEscrowAccount does not fail on an escrow
 address that only holds lamports

---
 clients/js/src/utilities.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/clients/js/src/utilities.ts b/clients/js/src/utilities.ts
index 6ac5e32..85be176 100644
--- a/clients/js/src/utilities.ts
+++ b/clients/js/src/utilities.ts
@@ -1,7 +1,7 @@
 import { getCreateAccountInstruction } from '@solana-program/system';
 import { getInitializeAccountInstruction as initializeToken, TOKEN_PROGRAM_ADDRESS } from '@solana-program/token';
 import {
-    fetchMaybeToken,
+    decodeToken,
     findAssociatedTokenPda,
     getCreateAssociatedTokenInstruction,
     getTokenDecoder,
@@ -107,9 +107,10 @@ export async function createEscrowAccount({
         tokenProgram: unwrappedTokenProgram,
     });
 
-    const escrowResult = await fetchMaybeToken(rpc, escrowAta);
-    if (escrowResult.exists) {
-        return { kind: 'already_exists', account: escrowResult };
+    // Anyone can send lamports to the escrow address before it is created
+    const escrowResult = await fetchEncodedAccount(rpc, escrowAta);
+    if (escrowResult.exists && escrowResult.programAddress === unwrappedTokenProgram) {
+        return { kind: 'already_exists', account: decodeToken(escrowResult) };
     }
 
     const ix = getCreateAssociatedTokenInstruction({
-- 
2.43.0


From 7190df6b46bb3eb32cd4cd41077381b3fbb85de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:39 +0000
Subject: [PATCH 7/7] fix: closing a stuck escrow works with the unwrapped mint
 as destination

The mint's data was still borrowed during the CPI, so it could not be a
writable account of it.
---
 program/src/processor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index c0a41c8..2d1a04b 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -465,6 +465,7 @@ pub fn process_close_stuck_escrow(accounts: &[AccountInfo]) -> ProgramResult {
         required_account_extensions.push(extension_type);
         Ok(())
     })?;
+    drop(mint_data);
 
     // ATAs always have the ImmutableOwner extension
     if !required_account_extensions.contains(&ExtensionType::ImmutableOwner) {
-- 
2.43.0

