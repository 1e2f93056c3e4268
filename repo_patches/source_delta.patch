From e0145c1b5ebbf91959f86d884ca31f6017549729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 01/51] fix: own the account metas of a parsed compact
 instruction instead of returning dangling slices

---
 instructions/src/lib.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/instructions/src/lib.rs b/instructions/src/lib.rs
index 1bea396..7f49269 100644
--- a/instructions/src/lib.rs
+++ b/instructions/src/lib.rs
@@ -8,7 +8,7 @@
 /// - Restricted key handling
 /// - Memory-efficient instruction processing
 mod compact_instructions;
-use core::{marker::PhantomData, mem::MaybeUninit};
+use core::marker::PhantomData;
 
 pub use compact_instructions::*;
 use pinocchio::{
@@ -49,8 +49,8 @@ impl From<InstructionError> for ProgramError {
 pub struct InstructionHolder<'a> {
     pub program_id: &'a Pubkey,
     pub cpi_accounts: Vec<Account<'a>>,
-    pub indexes: &'a [usize],
-    pub accounts: &'a [AccountMeta<'a>],
+    pub indexes: Vec<usize>,
+    pub accounts: Vec<AccountMeta<'a>>,
     pub data: &'a [u8],
     pub uses_swig_signer: bool,
 }
@@ -65,6 +65,7 @@ impl<'a> InstructionHolder<'a> {
         if self.program_id == &pinocchio_system::ID
             && self.data.len() >= 12
             && unsafe { self.data.get_unchecked(0..4) == [2, 0, 0, 0] }
+            && self.accounts.len() >= 2
             && unsafe { self.accounts.get_unchecked(0).pubkey == swig_key }
         {
             // Check if the "from" account (swig_key) is system-owned or program-owned
@@ -150,7 +151,7 @@ impl<'a> InstructionHolder<'a> {
     pub fn borrow(&'a self) -> Instruction<'a, 'a, 'a, 'a> {
         Instruction {
             program_id: self.program_id,
-            accounts: self.accounts,
+            accounts: &self.accounts,
             data: self.data,
         }
     }
@@ -283,24 +284,22 @@ where
         let (num_accounts, cursor) = self.read_u8()?;
         self.cursor = cursor;
         let num_accounts = num_accounts as usize;
-        const AM_UNINIT: MaybeUninit<AccountMeta> = MaybeUninit::uninit();
-        let mut accounts = [AM_UNINIT; MAX_ACCOUNTS];
+        let mut accounts = Vec::with_capacity(num_accounts);
         let mut infos = Vec::with_capacity(num_accounts);
-        const INDEX_UNINIT: MaybeUninit<usize> = MaybeUninit::uninit();
-        let mut indexes = [INDEX_UNINIT; MAX_ACCOUNTS];
+        let mut indexes = Vec::with_capacity(num_accounts);
         let mut uses_swig_signer = false;
-        for i in 0..num_accounts {
+        for _ in 0..num_accounts {
             let (pubkey_index, cursor) = self.read_u8()?;
             self.cursor = cursor;
             let account = self.accounts.get_account(pubkey_index as usize)?;
-            indexes[i].write(pubkey_index as usize);
+            indexes.push(pubkey_index as usize);
             let pubkey = account.pubkey();
             let is_signer = (pubkey == self.signer || account.signer())
                 && !self.restricted_keys.is_restricted(pubkey);
             if is_signer && pubkey == self.signer {
                 uses_swig_signer = true;
             }
-            accounts[i].write(AccountMeta {
+            accounts.push(AccountMeta {
                 pubkey,
                 is_signer,
                 is_writable: account.writable(),
@@ -317,8 +316,8 @@ where
         Ok(InstructionHolder {
             program_id,
             cpi_accounts: infos,
-            accounts: unsafe { core::slice::from_raw_parts(accounts.as_ptr() as _, num_accounts) },
-            indexes: unsafe { core::slice::from_raw_parts(indexes.as_ptr() as _, num_accounts) },
+            accounts,
+            indexes,
             data,
             uses_swig_signer,
         })
-- 
2.43.0


From f716195a206f64fbfbabf253bf1776bd894aa767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 02/51] fix: create wallets only at the canonical swig and
 wallet addresses

---
 program/src/actions/create_v1.rs | 44 ++++++++++++++------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/program/src/actions/create_v1.rs b/program/src/actions/create_v1.rs
index a7ebacf..ceaf134 100644
--- a/program/src/actions/create_v1.rs
+++ b/program/src/actions/create_v1.rs
@@ -5,18 +5,18 @@ use no_padding::NoPadding;
 use pinocchio::{
     msg,
     program_error::ProgramError,
+    pubkey::find_program_address,
     sysvars::{rent::Rent, Sysvar},
     ProgramResult,
 };
 use pinocchio_system::instructions::CreateAccount;
-use swig_assertions::{check_self_pda, check_system_owner, check_zero_data};
+use swig_assertions::{check_system_owner, check_zero_data};
 use swig_state::{
     action::{all::All, manage_authority::ManageAuthority, ActionLoader, Actionable},
     authority::{authority_type_to_length, AuthorityType},
     role::Position,
     swig::{
-        swig_account_seeds_with_bump, swig_account_signer, swig_wallet_address_seeds_with_bump,
-        swig_wallet_address_signer, Swig, SwigBuilder,
+        swig_account_seeds, swig_account_signer, swig_wallet_address_seeds, Swig, SwigBuilder,
     },
     IntoBytes, Transmutable,
 };
@@ -150,11 +150,13 @@ pub fn create_v1(ctx: Context<CreateV1Accounts>, create: &[u8]) -> ProgramResult
     check_zero_data(ctx.accounts.swig, SwigError::AccountNotEmptySwigAccount)?;
 
     let create_v1 = CreateV1::from_instruction_bytes(create)?;
-    let bump = check_self_pda(
-        &swig_account_seeds_with_bump(&create_v1.args.id, &[create_v1.args.bump]),
-        ctx.accounts.swig.key(),
-        SwigError::InvalidSeedSwigAccount,
-    )?;
+    // Only the canonical bump is accepted: any other valid bump would let the same
+    // id own a second, different wallet.
+    let (expected_swig, bump) =
+        find_program_address(&swig_account_seeds(&create_v1.args.id), &crate::ID);
+    if bump != create_v1.args.bump || &expected_swig != ctx.accounts.swig.key() {
+        return Err(SwigError::InvalidSeedSwigAccount.into());
+    }
 
     // Validate swig wallet address account
     check_system_owner(
@@ -166,24 +168,16 @@ pub fn create_v1(ctx: Context<CreateV1Accounts>, create: &[u8]) -> ProgramResult
         SwigError::AccountNotEmptySwigAccount,
     )?;
 
-    let wallet_address_bump = check_self_pda(
-        &swig_wallet_address_seeds_with_bump(
-            ctx.accounts.swig.key().as_ref(),
-            &[create_v1.args.wallet_address_bump],
-        ),
-        ctx.accounts.swig_wallet_address.key(),
-        SwigError::InvalidSeedSwigAccount,
-    )?;
-
     // Validate swig wallet address PDA
-    let wallet_address_bump = check_self_pda(
-        &swig_wallet_address_seeds_with_bump(
-            ctx.accounts.swig.key().as_ref(),
-            &[create_v1.args.wallet_address_bump],
-        ),
-        ctx.accounts.swig_wallet_address.key(),
-        SwigError::InvalidSeedSwigAccount,
-    )?;
+    let (expected_wallet_address, wallet_address_bump) = find_program_address(
+        &swig_wallet_address_seeds(ctx.accounts.swig.key().as_ref()),
+        &crate::ID,
+    );
+    if wallet_address_bump != create_v1.args.wallet_address_bump
+        || &expected_wallet_address != ctx.accounts.swig_wallet_address.key()
+    {
+        return Err(SwigError::InvalidSeedSwigAccount.into());
+    }
 
     let manage_authority_action = create_v1.get_action::<ManageAuthority>()?;
     let all_action = create_v1.get_action::<All>()?;
-- 
2.43.0


From de03fd45f41f97d04ea6a4efbd123b6e2a6f2dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 03/51] fix: let a wallet be created at an address that already
 holds SOL

---
 program/src/actions/create_v1.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/program/src/actions/create_v1.rs b/program/src/actions/create_v1.rs
index ceaf134..dab9da0 100644
--- a/program/src/actions/create_v1.rs
+++ b/program/src/actions/create_v1.rs
@@ -9,7 +9,7 @@ use pinocchio::{
     sysvars::{rent::Rent, Sysvar},
     ProgramResult,
 };
-use pinocchio_system::instructions::CreateAccount;
+use pinocchio_system::instructions::{Allocate, Assign, Transfer};
 use swig_assertions::{check_system_owner, check_zero_data};
 use swig_state::{
     action::{all::All, manage_authority::ManageAuthority, ActionLoader, Actionable},
@@ -207,16 +207,30 @@ pub fn create_v1(ctx: Context<CreateV1Accounts>, create: &[u8]) -> ProgramResult
         lamports_needed - current_lamports
     };
 
-    CreateAccount {
-        from: ctx.accounts.payer,
-        to: ctx.accounts.swig,
-        lamports: lamports_to_transfer,
+    // Anyone can transfer SOL to the predictable address beforehand, and
+    // `CreateAccount` rejects such a pre-funded destination. Top up, allocate and
+    // assign separately.
+    if lamports_to_transfer > 0 {
+        Transfer {
+            from: ctx.accounts.payer,
+            to: ctx.accounts.swig,
+            lamports: lamports_to_transfer,
+        }
+        .invoke()?;
+    }
+    let swig_bump = [swig.bump];
+    let swig_signer = swig_account_signer(&swig.id, &swig_bump);
+    let swig_signers = [swig_signer.as_slice().into()];
+    Allocate {
+        account: ctx.accounts.swig,
         space: account_size as u64,
+    }
+    .invoke_signed(&swig_signers)?;
+    Assign {
+        account: ctx.accounts.swig,
         owner: &crate::ID,
     }
-    .invoke_signed(&[swig_account_signer(&swig.id, &[swig.bump])
-        .as_slice()
-        .into()])?;
+    .invoke_signed(&swig_signers)?;
 
     // Transfer lamports to the swig_wallet_address via CPI to system program
     // This creates a system program owned account by transferring SOL to it
@@ -235,7 +249,7 @@ pub fn create_v1(ctx: Context<CreateV1Accounts>, create: &[u8]) -> ProgramResult
 
     if wallet_lamports_to_transfer > 0 {
         // Use CPI to system program for clean lamport transfer
-        pinocchio_system::instructions::Transfer {
+        Transfer {
             from: ctx.accounts.payer,
             to: ctx.accounts.swig_wallet_address,
             lamports: wallet_lamports_to_transfer,
-- 
2.43.0


From 4f1d5b056a5922dc1cc25e3110e8ada2246792db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 04/51] fix: create a V1 sub-account only at its canonical
 address

---
 program/src/actions/create_sub_account_v1.rs | 22 +++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/program/src/actions/create_sub_account_v1.rs b/program/src/actions/create_sub_account_v1.rs
index 16b6a51..ee190aa 100644
--- a/program/src/actions/create_sub_account_v1.rs
+++ b/program/src/actions/create_sub_account_v1.rs
@@ -8,7 +8,7 @@ use pinocchio::{
     msg,
     program::invoke_signed,
     program_error::ProgramError,
-    pubkey::Pubkey,
+    pubkey::{find_program_address, Pubkey},
     sysvars::{clock::Clock, rent::Rent, Sysvar},
     ProgramResult,
 };
@@ -22,8 +22,8 @@ use swig_state::{
     authority::AuthorityType,
     role::RoleMut,
     swig::{
-        sub_account_seeds_with_bump, sub_account_signer, swig_account_seeds_with_bump,
-        swig_account_signer, Swig,
+        sub_account_seeds, sub_account_signer, swig_account_seeds_with_bump, swig_account_signer,
+        Swig,
     },
     Discriminator, IntoBytes, SwigAuthenticateError, Transmutable, TransmutableMut,
 };
@@ -203,14 +203,16 @@ pub fn create_sub_account_v1(
     // Derive the sub-account address using the authority index as seed (keeping PDA
     // for deterministic addressing)
     let role_id_bytes = create_sub_account.args.role_id.to_le_bytes();
-    let bump_byte = [create_sub_account.args.sub_account_bump];
-    let sub_account_seeds = sub_account_seeds_with_bump(&swig.id, &role_id_bytes, &bump_byte);
+    // Only the canonical bump is accepted: any other valid bump would move the
+    // role to a second sub-account and strand the funds of the first.
+    let (expected_sub_account, bump) =
+        find_program_address(&sub_account_seeds(&swig.id, &role_id_bytes), &crate::ID);
     // Check that sub_account passed in matches derived address
-    let bump = check_self_pda(
-        &sub_account_seeds,
-        ctx.accounts.sub_account.key(),
-        SwigError::InvalidSeedSwigAccount,
-    )?;
+    if bump != create_sub_account.args.sub_account_bump
+        || &expected_sub_account != ctx.accounts.sub_account.key()
+    {
+        return Err(SwigError::InvalidSeedSwigAccount.into());
+    }
 
     // Transfer lamports to the sub_account to make it system-owned and rent-exempt
     // This follows the same pattern as swig_wallet_address creation in create_v1.rs
-- 
2.43.0


From d46e4fe5cc3e38822b28fd82e56e608a52cc3a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 05/51] fix: refuse to migrate a wallet that already has a
 wallet address

---
 program/src/actions/migrate_to_wallet_address_v1.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/program/src/actions/migrate_to_wallet_address_v1.rs b/program/src/actions/migrate_to_wallet_address_v1.rs
index dcf39dc..72e1afe 100644
--- a/program/src/actions/migrate_to_wallet_address_v1.rs
+++ b/program/src/actions/migrate_to_wallet_address_v1.rs
@@ -25,6 +25,7 @@ use crate::{
         accounts::{Context, MigrateToWalletAddressV1Accounts},
         SwigInstruction,
     },
+    is_swig_v2,
 };
 
 /// Arguments for migrating a Swig account to wallet address feature.
@@ -157,16 +158,14 @@ pub fn migrate_to_wallet_address_v1(
             return Err(SwigError::InvalidSwigAccountDiscriminator.into());
         }
 
-        // Check if this account is already migrated (has wallet_bump field)
-        // We can detect this by checking if reserved_lamports field is 0 and if the
-        // 41st byte (wallet_bump position) is non-zero
-        let old_swig = unsafe { OldSwig::load_unchecked(&swig_data[..OldSwig::LEN])? };
-        let potential_wallet_bump = swig_data[40]; // Position where wallet_bump would be
-
-        if old_swig.reserved_lamports == 0 && potential_wallet_bump != 0 {
+        // Check if this account is already migrated (has wallet_bump field).
+        // Migrating again would reset the sub-account counter.
+        // SAFETY: `OldSwig` and `Swig` have the same length, checked above.
+        if unsafe { is_swig_v2(swig_data) } {
             msg!("Account appears to already be migrated");
             return Err(SwigError::StateError.into());
         }
+        let old_swig = unsafe { OldSwig::load_unchecked(&swig_data[..OldSwig::LEN])? };
 
         (
             old_swig.id,
-- 
2.43.0


From 552be06d760f7f5b7a04e6bad2a19794eaa0f2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 06/51] fix: migrate a wallet only to its canonical wallet
 address

---
 .../actions/migrate_to_wallet_address_v1.rs   | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/program/src/actions/migrate_to_wallet_address_v1.rs b/program/src/actions/migrate_to_wallet_address_v1.rs
index 72e1afe..052ea6f 100644
--- a/program/src/actions/migrate_to_wallet_address_v1.rs
+++ b/program/src/actions/migrate_to_wallet_address_v1.rs
@@ -9,13 +9,14 @@ use pinocchio::{
     account_info::AccountInfo,
     msg,
     program_error::ProgramError,
+    pubkey::find_program_address,
     sysvars::{clock::Clock, rent::Rent, Sysvar},
     ProgramResult,
 };
-use swig_assertions::{check_self_pda, check_system_owner, check_zero_data};
+use swig_assertions::{check_system_owner, check_zero_data};
 use swig_state::{
     action::{all::All, manage_authority::ManageAuthority},
-    swig::{swig_wallet_address_seeds_with_bump, Swig},
+    swig::{swig_wallet_address_seeds, Swig},
     Discriminator, IntoBytes, SwigAuthenticateError, SwigStateError, Transmutable,
 };
 
@@ -217,15 +218,16 @@ pub fn migrate_to_wallet_address_v1(
         SwigError::AccountNotEmptySwigAccount,
     )?;
 
-    // Validate the wallet address PDA
-    let wallet_address_bump = check_self_pda(
-        &swig_wallet_address_seeds_with_bump(
-            ctx.accounts.swig.key().as_ref(),
-            &[migrate.args.wallet_address_bump],
-        ),
-        ctx.accounts.swig_wallet_address.key(),
-        SwigError::InvalidSeedSwigAccount,
-    )?;
+    // Validate the wallet address PDA; only the canonical address is accepted
+    let (expected_wallet_address, wallet_address_bump) = find_program_address(
+        &swig_wallet_address_seeds(ctx.accounts.swig.key().as_ref()),
+        &crate::ID,
+    );
+    if wallet_address_bump != migrate.args.wallet_address_bump
+        || &expected_wallet_address != ctx.accounts.swig_wallet_address.key()
+    {
+        return Err(SwigError::InvalidSeedSwigAccount.into());
+    }
 
     // Create the new Swig structure with wallet_bump
     let new_swig = Swig::new(old_swig_id, old_swig_bump, wallet_address_bump);
-- 
2.43.0


From 4a78d4a9a46478111dcb4a8de9ca88eaf7acf52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 07/51] fix: find an action by its length instead of a
 client-supplied boundary

---
 state/src/action/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/state/src/action/mod.rs b/state/src/action/mod.rs
index d86f2e5..41f3602 100644
--- a/state/src/action/mod.rs
+++ b/state/src/action/mod.rs
@@ -352,14 +352,22 @@ impl ActionLoader {
     ) -> Result<Option<&'a T>, ProgramError> {
         let mut cursor = 0;
 
+        // Walk by length: the boundary field is client-supplied here and is only
+        // computed when the action is stored.
         while cursor < bytes.len() {
-            let action = unsafe { Action::load_unchecked(&bytes[cursor..cursor + Action::LEN])? };
+            let header_end = cursor + Action::LEN;
+            let header = bytes
+                .get(cursor..header_end)
+                .ok_or(ProgramError::InvalidInstructionData)?;
+            let action = unsafe { Action::load_unchecked(header)? };
+            let data_end = header_end + action.length() as usize;
+            let data = bytes
+                .get(header_end..data_end)
+                .ok_or(ProgramError::InvalidInstructionData)?;
             if action.permission() == Ok(T::TYPE) {
-                return Ok(Some(unsafe {
-                    T::load_unchecked(&bytes[cursor..cursor + action.length() as usize])?
-                }));
+                return Ok(Some(unsafe { T::load_unchecked(data)? }));
             }
-            cursor = action.boundary() as usize;
+            cursor = data_end;
         }
         Ok(None)
     }
-- 
2.43.0


From a7edef133814ec9f8f78a2aa1410252e01b8442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 08/51] fix: keep used limits valid when adding or removing
 actions of a role

---
 program/src/actions/update_authority_v1.rs | 55 +++++++++++++++++-----
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/program/src/actions/update_authority_v1.rs b/program/src/actions/update_authority_v1.rs
index 180210d..ce072df 100644
--- a/program/src/actions/update_authority_v1.rs
+++ b/program/src/actions/update_authority_v1.rs
@@ -35,11 +35,14 @@ use crate::{
 ///
 /// # Arguments
 /// * `actions_data` - Raw bytes containing action data
+/// * `stored_len` - Length of the leading actions that are already stored on
+///   the role; these were validated when they were granted and may since have
+///   been used, so the initial-state rules do not apply to them
 ///
 /// # Returns
 /// * `Result<u8, ProgramError>` - The number of actions found, or error if
 ///   invalid data
-fn calculate_num_actions(actions_data: &[u8]) -> Result<u8, ProgramError> {
+fn calculate_num_actions(actions_data: &[u8], stored_len: usize) -> Result<u8, ProgramError> {
     let mut cursor = 0;
     let mut count = 0u8;
 
@@ -50,6 +53,7 @@ fn calculate_num_actions(actions_data: &[u8]) -> Result<u8, ProgramError> {
 
         let action_header =
             unsafe { Action::load_unchecked(&actions_data[cursor..cursor + Action::LEN])? };
+        let is_new = cursor >= stored_len;
         cursor += Action::LEN;
 
         let action_len = action_header.length() as usize;
@@ -58,7 +62,9 @@ fn calculate_num_actions(actions_data: &[u8]) -> Result<u8, ProgramError> {
         }
 
         let action_data = &actions_data[cursor..cursor + action_len];
-        if !ActionLoader::validate_layout(action_header.permission()?, action_data)? {
+        if is_new
+            && !ActionLoader::validate_layout(action_header.permission()?, action_data)?
+        {
             return Err(ProgramError::InvalidInstructionData);
         }
 
@@ -289,6 +295,30 @@ fn perform_replace_all_operation(
     current_actions_size: usize,
     new_actions: &[u8],
     authority_to_update_id: u32,
+) -> Result<i64, ProgramError> {
+    write_actions(
+        swig_roles,
+        current_roles_len,
+        authority_offset,
+        actions_offset,
+        current_actions_size,
+        new_actions,
+        0,
+        authority_to_update_id,
+    )
+}
+
+/// Stores `new_actions` as the role's full action list. The first `stored_len`
+/// bytes are actions the role already holds and are kept as they are.
+fn write_actions(
+    swig_roles: &mut [u8],
+    current_roles_len: usize,
+    authority_offset: usize,
+    actions_offset: usize,
+    current_actions_size: usize,
+    new_actions: &[u8],
+    stored_len: usize,
+    authority_to_update_id: u32,
 ) -> Result<i64, ProgramError> {
     // Reject duplicate V2 sub-account scoped actions on the resulting role.
     // ReplaceAll receives the role's full new action list, and AddActions routes
@@ -340,7 +370,7 @@ fn perform_replace_all_operation(
             // Update the position for the role we're updating
             if position.id() == authority_to_update_id {
                 position.boundary = (position.boundary() as i64 + size_diff) as u32;
-                position.num_actions = calculate_num_actions(new_actions)? as u16;
+                position.num_actions = calculate_num_actions(new_actions, stored_len)? as u16;
             }
 
             cursor = position.boundary() as usize;
@@ -352,7 +382,7 @@ fn perform_replace_all_operation(
                 &mut swig_roles[authority_offset..authority_offset + Position::LEN],
             )?
         };
-        position.num_actions = calculate_num_actions(new_actions)? as u16;
+        position.num_actions = calculate_num_actions(new_actions, stored_len)? as u16;
     }
 
     let final_roles_len = (current_roles_len as i64 + size_diff) as usize;
@@ -382,7 +412,7 @@ fn perform_replace_all_operation(
         let permission = action_header.permission()?;
         let action_data =
             &new_actions[action_cursor + Action::LEN..action_cursor + total_action_size];
-        if !ActionLoader::validate_layout(permission, action_data)? {
+        if action_cursor >= stored_len && !ActionLoader::validate_layout(permission, action_data)? {
             return Err(ProgramError::InvalidInstructionData);
         }
 
@@ -424,14 +454,15 @@ fn perform_add_actions_operation(
     // Add new actions
     combined_actions.extend_from_slice(new_actions);
 
-    // Use replace_all logic with combined actions
-    perform_replace_all_operation(
+    // Only the added actions are new; the existing ones keep their usage
+    write_actions(
         swig_roles,
         current_roles_len,
         authority_offset,
         actions_offset,
         current_actions_size,
         &combined_actions,
+        current_actions_size,
         authority_to_update_id,
     )
 }
@@ -598,14 +629,15 @@ fn perform_remove_by_type_operation(
         return Err(SwigStateError::InvalidAuthorityMustHaveAtLeastOneAction.into());
     }
 
-    // Use replace_all logic with filtered actions
-    perform_replace_all_operation(
+    // The remaining actions keep their usage
+    write_actions(
         swig_roles,
         current_roles_len,
         authority_offset,
         actions_offset,
         current_actions_size,
         &filtered_actions,
+        filtered_actions.len(),
         authority_to_update_id,
     )
 }
@@ -656,14 +688,15 @@ fn perform_remove_by_index_operation(
         return Err(SwigStateError::InvalidAuthorityMustHaveAtLeastOneAction.into());
     }
 
-    // Use replace_all logic with filtered actions
-    perform_replace_all_operation(
+    // The remaining actions keep their usage
+    write_actions(
         swig_roles,
         current_roles_len,
         authority_offset,
         actions_offset,
         current_actions_size,
         &filtered_actions,
+        filtered_actions.len(),
         authority_to_update_id,
     )
 }
-- 
2.43.0


From 91c8379cdb76bd746ed989b44635da5660a39897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 09/51] fix: keep the wallet address system-owned and empty
 after a limited execution

---
 program/src/actions/sign_v2.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 178bb8c..fc12f6c 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -529,6 +529,13 @@ pub fn sign_v2(
                     }
                 }
 
+                // A CPI signed by the wallet PDA may have assigned or allocated it.
+                if ctx.accounts.swig_wallet_address.owner() != &SYSTEM_PROGRAM_ID
+                    || ctx.accounts.swig_wallet_address.data_len() != 0
+                {
+                    return Err(SwigError::AccountDataModifiedUnexpectedly.into());
+                }
+
                 let swig_wallet_balance = ctx.accounts.swig_wallet_address.lamports();
                 let swig_wallet_rent_exempt_minimum = pinocchio::sysvars::rent::Rent::get()?
                     .minimum_balance(ctx.accounts.swig_wallet_address.data_len());
-- 
2.43.0


From 83a4f46068acf62960dc5e174a4534692a81a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 10/51] fix: charge tokens moved out of a token account that is
 closed in the same execution

---
 program/src/actions/sign_v2.rs | 85 ++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 34 deletions(-)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index fc12f6c..7bb8125 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -305,6 +305,10 @@ pub fn sign_v2(
 
     let mut total_sol_spent: u64 = 0;
 
+    // A token account closed by the CPIs no longer carries its mint, which is
+    // still needed to charge the tokens moved out of it before the close.
+    let mut token_mints: Vec<(usize, Pubkey)> = Vec::new();
+
     // Build exclusion ranges for each account type for snapshots
     for (index, account_classifier) in account_classifiers.iter().enumerate() {
         let account = unsafe { all_accounts.get_unchecked(index) };
@@ -326,6 +330,9 @@ pub fn sign_v2(
             },
             AccountClassification::SwigTokenAccount { .. } => {
                 let data = unsafe { account.borrow_data_unchecked() };
+                let mut mint = Pubkey::default();
+                mint.copy_from_slice(unsafe { data.get_unchecked(TOKEN_MINT_RANGE) });
+                token_mints.push((index, mint));
                 // Exclude token balance field (bytes 64-72) but include owner
                 let exclude_ranges = [TOKEN_BALANCE_EXCLUDE_RANGE];
                 let hash = hash_except(&data, account.owner(), &exclude_ranges);
@@ -413,15 +420,16 @@ pub fn sign_v2(
                     AccountClassification::SwigTokenAccount { balance, spent } => {
                         let data = unsafe { account.borrow_data_unchecked() };
 
-                        if data.len() < TOKEN_BALANCE_RANGE.end {
-                            continue;
-                        }
-
-                        let current = u64::from_le_bytes(unsafe {
-                            data.get_unchecked(TOKEN_BALANCE_RANGE)
-                                .try_into()
-                                .unwrap_or([0; 8])
-                        });
+                        // A closed account holds no tokens any more.
+                        let current = if data.len() < TOKEN_BALANCE_RANGE.end {
+                            0
+                        } else {
+                            u64::from_le_bytes(unsafe {
+                                data.get_unchecked(TOKEN_BALANCE_RANGE)
+                                    .try_into()
+                                    .unwrap_or([0; 8])
+                            })
+                        };
 
                         if current < *balance {
                             *spent = spent.saturating_add(*balance - current);
@@ -622,7 +630,8 @@ pub fn sign_v2(
                 // The on-chain token program resizes closed accounts to zero bytes,
                 // while its native test processor retains zeroed data. Both forms
                 // drain the account's lamports and assign it to the system program.
-                if data.is_empty() || account_info.lamports() == 0 {
+                let closed = data.is_empty() || account_info.lamports() == 0;
+                if closed {
                     let has_close_permission =
                         RoleMut::get_action_mut::<CloseSwigAuthority>(actions, &[])?.is_some();
                     if !has_close_permission {
@@ -631,36 +640,39 @@ pub fn sign_v2(
                     if account_info.lamports() != 0 || account_info.owner() != &SYSTEM_PROGRAM_ID {
                         return Err(SwigError::AccountDataModifiedUnexpectedly.into());
                     }
-
-                    continue;
-                }
-
-                if data.len() < TOKEN_ACCOUNT_BASE_DATA_LEN {
+                    if *spent == 0 {
+                        continue;
+                    }
+                } else if data.len() < TOKEN_ACCOUNT_BASE_DATA_LEN {
                     return Err(SwigError::AccountDataModifiedUnexpectedly.into());
                 }
 
-                if account_info.is_writable() {
-                    let exclude_ranges = [TOKEN_BALANCE_EXCLUDE_RANGE];
-                    let current_hash = hash_except(&data, account_info.owner(), &exclude_ranges);
-                    let snapshot_hash = unsafe { account_snapshots[index].assume_init_ref() };
-                    if *snapshot_hash != current_hash {
-                        return Err(SwigError::AccountDataModifiedUnexpectedly.into());
+                if !closed {
+                    if account_info.is_writable() {
+                        let exclude_ranges = [TOKEN_BALANCE_EXCLUDE_RANGE];
+                        let current_hash =
+                            hash_except(&data, account_info.owner(), &exclude_ranges);
+                        let snapshot_hash = unsafe { account_snapshots[index].assume_init_ref() };
+                        if *snapshot_hash != current_hash {
+                            return Err(SwigError::AccountDataModifiedUnexpectedly.into());
+                        }
                     }
-                }
 
-                let mint = unsafe { data.get_unchecked(TOKEN_MINT_RANGE) };
-                let state = unsafe { *data.get_unchecked(TOKEN_STATE_INDEX) };
-                let authority = unsafe { data.get_unchecked(TOKEN_AUTHORITY_RANGE) };
+                    let state = unsafe { *data.get_unchecked(TOKEN_STATE_INDEX) };
+                    let authority = unsafe { data.get_unchecked(TOKEN_AUTHORITY_RANGE) };
 
-                if authority != ctx.accounts.swig_wallet_address.key() {
-                    return Err(
-                        SwigAuthenticateError::PermissionDeniedTokenAccountAuthorityNotSwig.into(),
-                    );
-                }
-                if state != TOKEN_ACCOUNT_INITIALIZED_STATE {
-                    return Err(
-                        SwigAuthenticateError::PermissionDeniedTokenAccountNotInitialized.into(),
-                    );
+                    if authority != ctx.accounts.swig_wallet_address.key() {
+                        return Err(
+                            SwigAuthenticateError::PermissionDeniedTokenAccountAuthorityNotSwig
+                                .into(),
+                        );
+                    }
+                    if state != TOKEN_ACCOUNT_INITIALIZED_STATE {
+                        return Err(
+                            SwigAuthenticateError::PermissionDeniedTokenAccountNotInitialized
+                                .into(),
+                        );
+                    }
                 }
 
                 let total_token_spent = *spent;
@@ -668,6 +680,11 @@ pub fn sign_v2(
                     continue;
                 }
 
+                // Only a writable account can have been spent from or closed.
+                let Some((_, mint)) = token_mints.iter().find(|(i, _)| *i == index) else {
+                    return Err(SwigError::AccountDataModifiedUnexpectedly.into());
+                };
+
                 let general_token_limit_applied =
                     if let Some(action) = RoleMut::get_action_mut::<TokenLimit>(actions, mint)? {
                         action.run(total_token_spent)?;
-- 
2.43.0


From 124754e5c2da91fcdeb91783fdd2b5c062884900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 11/51] fix: refuse to close a wrapped SOL account that still
 holds a balance

---
 program/src/actions/close_token_account_v1.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/program/src/actions/close_token_account_v1.rs b/program/src/actions/close_token_account_v1.rs
index 5e8f28f..07069fb 100644
--- a/program/src/actions/close_token_account_v1.rs
+++ b/program/src/actions/close_token_account_v1.rs
@@ -231,6 +231,18 @@ pub fn close_token_account_v1(
             return Err(SwigError::InvalidSwigTokenAccountOwner.into());
         }
 
+        // Only an empty account may be closed. The token program enforces this
+        // for ordinary mints but lets a native (wrapped SOL) account be closed
+        // with its balance, which would pay that balance to the destination.
+        let token_amount = u64::from_le_bytes(
+            token_data[64..72]
+                .try_into()
+                .map_err(|_| ProgramError::InvalidAccountData)?,
+        );
+        if token_amount != 0 {
+            return Err(SwigError::TokenAccountNotEmpty.into());
+        }
+
         // Determine which authority to use for signing
         let use_wallet_as_signer = (is_v2 && use_expected) || (!is_v2 && use_fallback);
 
-- 
2.43.0


From 9f5f72784ad89ff40fb8602e1dfc59907453fe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 12/51] fix: count the accounts of a program-exec proof from
 its account list, not its data

---
 state/src/authority/programexec/mod.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/state/src/authority/programexec/mod.rs b/state/src/authority/programexec/mod.rs
index 13cb511..9c6cec4 100644
--- a/state/src/authority/programexec/mod.rs
+++ b/state/src/authority/programexec/mod.rs
@@ -293,14 +293,15 @@ pub fn program_exec_authenticate(
 
     // Get the target instruction
     let preceding_ix = unsafe { ixs.deserialize_instruction_unchecked(verify_ix_index) };
-    let num_accounts = u16::from_le_bytes(unsafe {
-        *(preceding_ix.get_instruction_data().as_ptr() as *const [u8; 2])
-    });
-    if num_accounts < 2 {
+    // It must pass at least two accounts: config and wallet
+    let (Ok(account_0), Ok(account_1)) = (
+        preceding_ix.get_account_meta_at(0),
+        preceding_ix.get_account_meta_at(1),
+    ) else {
         return Err(
             SwigAuthenticateError::PermissionDeniedProgramExecInvalidInstructionData.into(),
         );
-    }
+    };
 
     // Verify the instruction is calling the expected program
     if !sol_assert_bytes_eq(preceding_ix.get_program_id(), expected_program_id, 32) {
@@ -326,11 +327,7 @@ pub fn program_exec_authenticate(
     }
 
     // Verify the first two accounts of the preceding instruction are config and
-    // wallet Get account meta at index 0 (should be config)
-    let account_0 = unsafe { preceding_ix.get_account_meta_at_unchecked(0) };
-    let account_1 = unsafe { preceding_ix.get_account_meta_at_unchecked(1) };
-
-    // Verify the accounts match the config and wallet keys
+    // wallet: the accounts match the config and wallet keys
     if !sol_assert_bytes_eq(account_0.key.as_ref(), config_account.key(), 32) {
         return Err(SwigAuthenticateError::PermissionDeniedProgramExecInvalidConfigAccount.into());
     }
-- 
2.43.0


From 6900636f061720386aae8692e426b522b7a1b6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 13/51] fix: measure a scoped balance with the acting role's
 own program scope

---
 program/src/actions/sign_v2.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 7bb8125..8133bd1 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -310,7 +310,7 @@ pub fn sign_v2(
     let mut token_mints: Vec<(usize, Pubkey)> = Vec::new();
 
     // Build exclusion ranges for each account type for snapshots
-    for (index, account_classifier) in account_classifiers.iter().enumerate() {
+    for (index, account_classifier) in account_classifiers.iter_mut().enumerate() {
         let account = unsafe { all_accounts.get_unchecked(index) };
 
         // Only check writable accounts as read-only accounts won't modify data
@@ -345,7 +345,7 @@ pub fn sign_v2(
                 let hash = hash_except(&data, account.owner(), &exclude_ranges);
                 Some(hash)
             },
-            AccountClassification::ProgramScope { .. } => {
+            AccountClassification::ProgramScope { balance, .. } => {
                 let data = unsafe { account.borrow_data_unchecked() };
                 // For program scope, we need to get the actual program scope to know what to
                 // exclude, and include owner in hash
@@ -355,13 +355,17 @@ pub fn sign_v2(
                 {
                     let start = program_scope.balance_field_start as usize;
                     let end = program_scope.balance_field_end as usize;
-                    if start < end && end <= data.len() {
-                        let exclude_ranges = [start..end];
-                        let hash = hash_except(&data, account.owner(), &exclude_ranges);
-                        Some(hash)
-                    } else {
-                        None
+                    if start >= end || end > data.len() {
+                        return Err(SwigError::InvalidProgramScopeBalanceFields.into());
                     }
+                    // The classifier read the balance with the first scope any
+                    // role has on this account. Only the acting role's own
+                    // scope defines what this execution is charged.
+                    *balance = program_scope.read_account_balance(data)?;
+
+                    let exclude_ranges = [start..end];
+                    let hash = hash_except(&data, account.owner(), &exclude_ranges);
+                    Some(hash)
                 } else {
                     None
                 }
-- 
2.43.0


From d64fdcf599295eeb748a1d916d8a6325fb807676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 14/51] fix: account for an account listed twice only once

---
 program/src/lib.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/program/src/lib.rs b/program/src/lib.rs
index 0e6ed31..e2a1506 100644
--- a/program/src/lib.rs
+++ b/program/src/lib.rs
@@ -310,14 +310,9 @@ unsafe fn execute(
             MaybeAccount::Duplicated(account_index) => {
                 let account_index = validated_duplicate_account_index(account_index, index)?;
                 let account = accounts[account_index].assume_init_ref().clone();
-                let classification = classify_account(
-                    index,
-                    &account,
-                    accounts,
-                    account_classification,
-                    program_scope_cache.as_ref(),
-                )?;
-                (account, classification)
+                // The first occurrence already stands for this account; a
+                // second classification would account for it twice.
+                (account, AccountClassification::None)
             },
         };
         account_classification[index].write(classification);
-- 
2.43.0


From 1829b7ed94d51fd33fd3532a12f508b1ed4b704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 15/51] fix: check the length of a withdrawal's destination
 token account before reading its owner

---
 program/src/actions/withdraw_from_sub_account_v1.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/program/src/actions/withdraw_from_sub_account_v1.rs b/program/src/actions/withdraw_from_sub_account_v1.rs
index 38dc055..e37a55e 100644
--- a/program/src/actions/withdraw_from_sub_account_v1.rs
+++ b/program/src/actions/withdraw_from_sub_account_v1.rs
@@ -260,6 +260,9 @@ pub fn withdraw_from_sub_account_v1(
 
         let swig_token_account = &all_accounts[action_accounts_index + 3];
         let swig_token_account_data = unsafe { swig_token_account.borrow_data_unchecked() };
+        if swig_token_account_data.len() < 64 {
+            return Err(SwigError::InvalidSwigTokenAccountOwner.into());
+        }
         let swig_token_account_owner = unsafe { swig_token_account_data.get_unchecked(32..64) };
         if unsafe {
             sol_memcmp(
-- 
2.43.0


From 5dde3c0d4a309361070afd2b07c1cfc7a2aac407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 16/51] fix: refuse a V1 sub-account toggle whose flag is not a
 boolean

---
 program/src/actions/toggle_sub_account_v1.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/program/src/actions/toggle_sub_account_v1.rs b/program/src/actions/toggle_sub_account_v1.rs
index 79c2d67..dc8530f 100644
--- a/program/src/actions/toggle_sub_account_v1.rs
+++ b/program/src/actions/toggle_sub_account_v1.rs
@@ -102,6 +102,11 @@ impl<'a> ToggleSubAccountV1<'a> {
         // Split the data into args and the rest (authority payload)
         let (args_data, authority_payload) = data.split_at(ToggleSubAccountV1Args::LEN);
 
+        // Only 0 and 1 are valid representations of the `enabled` bool.
+        if args_data[core::mem::offset_of!(ToggleSubAccountV1Args, enabled)] > 1 {
+            return Err(ProgramError::InvalidInstructionData);
+        }
+
         let args = unsafe { ToggleSubAccountV1Args::load_unchecked(args_data)? };
 
         Ok(Self {
-- 
2.43.0


From a9f54bb1e56017bacf92cc2a7798a2e85a7cfc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 17/51] fix: keep the rights a later instruction needs when
 compacting instructions

---
 instructions/src/compact_instructions.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/instructions/src/compact_instructions.rs b/instructions/src/compact_instructions.rs
index 1443272..de58469 100644
--- a/instructions/src/compact_instructions.rs
+++ b/instructions/src/compact_instructions.rs
@@ -36,6 +36,7 @@ mod inner {
         mut accounts: Vec<AccountMeta>,
         inner_instructions: Vec<Instruction>,
     ) -> (Vec<AccountMeta>, CompactInstructions) {
+        let initial_len = accounts.len();
         let mut compact_ix = Vec::with_capacity(inner_instructions.len());
         let mut hashmap = accounts
             .iter()
@@ -52,6 +53,12 @@ mod inner {
                 }
                 let account_index = hashmap.get(&ix_account.pubkey);
                 if let Some(index) = account_index {
+                    // An account listed before may need more rights here. The
+                    // signers among the initial accounts are the caller's
+                    // choice: the program itself signs for some of them.
+                    let listed = &mut accounts[*index];
+                    listed.is_writable |= ix_account.is_writable;
+                    listed.is_signer |= *index >= initial_len && ix_account.is_signer;
                     accts.push(*index as u8);
                 } else {
                     let idx = accounts.len();
@@ -96,6 +103,7 @@ mod inner {
         mut accounts: Vec<AccountMeta>,
         inner_instructions: Vec<Instruction>,
     ) -> (Vec<AccountMeta>, CompactInstructions) {
+        let initial_len = accounts.len();
         let mut compact_ix = Vec::with_capacity(inner_instructions.len());
         let mut hashmap = accounts
             .iter()
@@ -115,6 +123,12 @@ mod inner {
                 }
                 let account_index = hashmap.get(&ix_account.pubkey);
                 if let Some(index) = account_index {
+                    // An account listed before may need more rights here. The
+                    // signers among the initial accounts are the caller's
+                    // choice: the program itself signs for some of them.
+                    let listed = &mut accounts[*index];
+                    listed.is_writable |= ix_account.is_writable;
+                    listed.is_signer |= *index >= initial_len && ix_account.is_signer;
                     accts.push(*index as u8);
                 } else {
                     let idx = accounts.len();
-- 
2.43.0


From 088723e22b693d1c8c02b88275373a9923e0e9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 18/51] fix: move the SOL of an asset transfer after its token
 transfers

---
 program/src/actions/transfer_assets_v1.rs | 36 ++++++++++++-----------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/program/src/actions/transfer_assets_v1.rs b/program/src/actions/transfer_assets_v1.rs
index b994e58..4921b4e 100644
--- a/program/src/actions/transfer_assets_v1.rs
+++ b/program/src/actions/transfer_assets_v1.rs
@@ -196,23 +196,6 @@ pub fn transfer_assets_v1(
     let swig_id = swig.id;
     let swig_signer = swig_account_signer(&swig_id, &bump);
 
-    // Transfer SOL from swig to swig wallet address
-    let swig_lamports = ctx.accounts.swig.lamports();
-    let rent = pinocchio::sysvars::rent::Rent::get()?;
-    let swig_data_len = ctx.accounts.swig.data_len();
-    let min_rent = rent.minimum_balance(swig_data_len);
-
-    if swig_lamports > min_rent {
-        let transfer_amount = swig_lamports - min_rent;
-        // Transfer SOL by directly manipulating lamports
-        unsafe {
-            *ctx.accounts.swig.borrow_mut_lamports_unchecked() -= transfer_amount;
-            *ctx.accounts
-                .swig_wallet_address
-                .borrow_mut_lamports_unchecked() += transfer_amount;
-        }
-    }
-
     // Transfer SPL tokens
     // We need to iterate through the remaining accounts to find token accounts
     let base_account_count = 4; // swig, swig_wallet_address, payer
@@ -298,5 +281,24 @@ pub fn transfer_assets_v1(
         }
     }
 
+    // Transfer SOL from swig to swig wallet address. This has to follow the token
+    // transfers: the runtime refuses a CPI made while lamports moved directly
+    // between accounts are not all part of that CPI.
+    let swig_lamports = ctx.accounts.swig.lamports();
+    let rent = pinocchio::sysvars::rent::Rent::get()?;
+    let swig_data_len = ctx.accounts.swig.data_len();
+    let min_rent = rent.minimum_balance(swig_data_len);
+
+    if swig_lamports > min_rent {
+        let transfer_amount = swig_lamports - min_rent;
+        // Transfer SOL by directly manipulating lamports
+        unsafe {
+            *ctx.accounts.swig.borrow_mut_lamports_unchecked() -= transfer_amount;
+            *ctx.accounts
+                .swig_wallet_address
+                .borrow_mut_lamports_unchecked() += transfer_amount;
+        }
+    }
+
     Ok(())
 }
-- 
2.43.0


From 89bec2025886192b98b55c903b70fef90a51255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 19/51] fix: use the real Token-2022 and Stake program ids in
 the curated list

---
 state/src/action/program_curated.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/state/src/action/program_curated.rs b/state/src/action/program_curated.rs
index fe5c488..872bb31 100644
--- a/state/src/action/program_curated.rs
+++ b/state/src/action/program_curated.rs
@@ -24,13 +24,13 @@ const CURATED_PROGRAMS: &[[u8; 32]] = &[
     ],
     // SPL Token 2022 Program (TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb)
     [
-        6, 221, 246, 225, 238, 117, 143, 222, 138, 60, 137, 215, 166, 35, 250, 133, 224, 81, 209,
-        114, 91, 157, 99, 29, 94, 145, 213, 104, 233, 4, 16, 238,
+        6, 221, 246, 225, 238, 117, 143, 222, 24, 66, 93, 188, 228, 108, 205, 218, 182, 26, 252, 77,
+        131, 185, 13, 39, 254, 189, 249, 40, 216, 161, 139, 252,
     ],
     // Staking Program (Stake11111111111111111111111111111111111111)
     [
-        6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 86, 165, 18, 7,
-        142, 233, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+        6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 127, 83, 92, 138,
+        120, 114, 43, 104, 164, 157, 192, 0, 0, 0, 0,
     ],
 ];
 
-- 
2.43.0


From eac106ecd26dee3fbfc50316c1e9d20cceb98dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 20/51] fix: pad the secp256r1 authority payload of the
 sub-account and transfer builders

The program only accepts secp256r1 authority payloads of at least 17 bytes, so
what these five builders produced was always refused.
---
 interface/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index 979ee92..831145c 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2023,6 +2023,7 @@ impl CreateSubAccountInstruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -2450,6 +2451,7 @@ impl WithdrawFromSubAccountInstruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(3); // this is the index of the instruction sysvar (account 3)
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -2783,6 +2785,7 @@ impl SubAccountSignInstruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -3034,6 +3037,7 @@ impl ToggleSubAccountInstruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -3274,6 +3278,7 @@ impl TransferAssetsV1Instruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         // Create the main instruction
         let main_ix = Instruction {
-- 
2.43.0


From e9386d6e62f9f3c5b306e8f4d09a52d84cadabe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 21/51] fix: give the program-exec withdraw builders the
 account order the program reads

WithdrawFromSubAccountV1 reads the authority context at 3, the wallet address
at 4 and the system program at 5; the four program-exec builders left out the
context at 3, so what they built was always refused.
---
 interface/src/lib.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index 831145c..79596ef 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2473,17 +2473,16 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            // the authority context: here the instructions sysvar
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
-
-        // Add instructions sysvar at a stable index
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
+        let instruction_sysvar_index = 3;
 
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
@@ -2517,20 +2516,19 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            // the authority context: here the instructions sysvar
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
+            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(sub_account_token, false),
             AccountMeta::new(swig_token, false),
-            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(token_program, false),
         ];
-
-        // Add instructions sysvar at a stable index
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
+        let instruction_sysvar_index = 3;
 
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
@@ -2562,16 +2560,16 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            // the authority context: here the instructions sysvar
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
-
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
+        let instruction_sysvar_index = 3;
 
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
@@ -2605,19 +2603,19 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            // the authority context: here the instructions sysvar
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
+            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(sub_account_token, false),
             AccountMeta::new(swig_token, false),
-            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(token_program, false),
         ];
-
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
+        let instruction_sysvar_index = 3;
 
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
-- 
2.43.0


From 6900d9069ce1307069a835443237edd23d250416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:02 +0000
Subject: [PATCH 22/51] fix: point the secp256r1 sub-account signing builder at
 the instructions sysvar

It is the fourth account of that instruction; the payload named the fifth, so
what the builder produced was refused (or read another account).
---
 interface/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index 79596ef..4daecc1 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2782,7 +2782,7 @@ impl SubAccountSignInstruction {
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
-        authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.push(3); // this is the index of the instruction sysvar
         authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
-- 
2.43.0


From 25da52554b97c6483e247e3132c0821435cfeda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 23/51] fix: drop the payer from the accounts of the
 program-exec sub-account signing builders

SubAccountSignV1 reads the sub-account at 1 and the system program at 2; with
the payer at 1 what the builders produced was always refused.
---
 interface/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index 4daecc1..7096a66 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2797,7 +2797,7 @@ impl SubAccountSignInstruction {
     pub fn new_with_program_exec(
         swig_account: Pubkey,
         sub_account: Pubkey,
-        payer: Pubkey,
+        _payer: Pubkey,
         preceding_instruction: Instruction,
         role_id: u32,
         instructions: Vec<Instruction>,
@@ -2806,7 +2806,6 @@ impl SubAccountSignInstruction {
 
         let mut accounts = vec![
             AccountMeta::new_readonly(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
@@ -2839,7 +2838,7 @@ impl SubAccountSignInstruction {
     pub fn new_with_program_exec_ix_index(
         swig_account: Pubkey,
         sub_account: Pubkey,
-        payer: Pubkey,
+        _payer: Pubkey,
         preceding_instruction: Instruction,
         role_id: u32,
         instructions: Vec<Instruction>,
@@ -2849,7 +2848,6 @@ impl SubAccountSignInstruction {
 
         let mut accounts = vec![
             AccountMeta::new_readonly(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
-- 
2.43.0


From d28d199ecd569ae69e72c4cb8c7287118d27aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 24/51] fix: list the wallet as writable in the secp
 sub-account signing builders

Authenticating a secp256k1 or secp256r1 role stores the new signature counter
in the wallet account, which the runtime refuses for a read-only account.
---
 interface/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index 7096a66..faf2196 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2677,7 +2677,7 @@ impl SubAccountSignInstruction {
         F: FnMut(&[u8]) -> [u8; 65],
     {
         let accounts = vec![
-            AccountMeta::new_readonly(swig_account, false),
+            AccountMeta::new(swig_account, false),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
@@ -2729,7 +2729,7 @@ impl SubAccountSignInstruction {
         F: FnMut(&[u8]) -> [u8; 64],
     {
         let accounts = vec![
-            AccountMeta::new_readonly(swig_account, false),
+            AccountMeta::new(swig_account, false),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
-- 
2.43.0


From b0298aa264afa1520a5629d94be073970d506c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 25/51] fix: sign and send the signature counter in six
 secp256k1 builders

The program requires the role's next counter in the secp256k1 authority
payload; these builders signed with 0 and left it out, so what they produced
was always refused. They now take the counter, as the other builders do, and
the SDK passes it.
---
 interface/src/lib.rs        | 24 ++++++++++++++++++------
 rust-sdk/src/client_role.rs | 10 ++++++++++
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index faf2196..e7a2d90 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -1910,6 +1910,7 @@ impl CreateSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         role_id: u32,
         sub_account_bump: u8,
@@ -1941,12 +1942,13 @@ impl CreateSubAccountInstruction {
 
         // Sign the payload
         let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, args_bytes, &account_payload_bytes, &[]);
+            prepare_secp256k1_payload(current_slot, counter, args_bytes, &account_payload_bytes, &[]);
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2150,6 +2152,7 @@ impl WithdrawFromSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         swig_wallet_address: Pubkey,
         role_id: u32,
@@ -2184,12 +2187,13 @@ impl WithdrawFromSubAccountInstruction {
 
         // Sign the payload
         let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, args_bytes, &account_payload_bytes, &[]);
+            prepare_secp256k1_payload(current_slot, counter, args_bytes, &account_payload_bytes, &[]);
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2240,6 +2244,7 @@ impl WithdrawFromSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         swig_wallet_address: Pubkey,
         sub_account_token: Pubkey,
@@ -2280,12 +2285,13 @@ impl WithdrawFromSubAccountInstruction {
 
         // Sign the payload
         let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, args_bytes, &account_payload_bytes, &[]);
+            prepare_secp256k1_payload(current_slot, counter, args_bytes, &account_payload_bytes, &[]);
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2670,6 +2676,7 @@ impl SubAccountSignInstruction {
         sub_account: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         role_id: u32,
         instructions: Vec<Instruction>,
     ) -> anyhow::Result<Instruction>
@@ -2700,12 +2707,13 @@ impl SubAccountSignInstruction {
 
         // Sign the payload
         let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, &ix_bytes, &account_payload_bytes, &[]);
+            prepare_secp256k1_payload(current_slot, counter, &ix_bytes, &account_payload_bytes, &[]);
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2912,6 +2920,7 @@ impl ToggleSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         role_id: u32,
         auth_role_id: u32,
@@ -2946,7 +2955,7 @@ impl ToggleSubAccountInstruction {
         // Sign the payload
         let nonced_payload = prepare_secp256k1_payload(
             current_slot,
-            0u32,
+            counter,
             args_bytes,
             &account_payload_bytes,
             prefix,
@@ -2956,6 +2965,7 @@ impl ToggleSubAccountInstruction {
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -3158,6 +3168,7 @@ impl TransferAssetsV1Instruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         role_id: u32,
     ) -> anyhow::Result<Instruction>
     where
@@ -3189,7 +3200,7 @@ impl TransferAssetsV1Instruction {
         // Sign the payload
         let nonced_payload = prepare_secp256k1_payload(
             current_slot,
-            0u32,
+            counter,
             args_bytes,
             &account_payload_bytes,
             prefix,
@@ -3199,6 +3210,7 @@ impl TransferAssetsV1Instruction {
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index b457c73..9340fbc 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -819,6 +819,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         Ok(vec![
             CreateSubAccountInstruction::new_with_secp256k1_authority(
@@ -826,6 +827,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 role_id,
                 sub_account_bump,
@@ -842,6 +844,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         Ok(vec![
             SubAccountSignInstruction::new_with_secp256k1_authority(
@@ -849,6 +852,7 @@ impl ClientRole for Secp256k1ClientRole {
                 sub_account,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 role_id,
                 instructions,
             )?,
@@ -865,6 +869,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -878,6 +883,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 swig_wallet_address,
                 role_id,
@@ -899,6 +905,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -912,6 +919,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 swig_wallet_address,
                 sub_account_token,
@@ -934,6 +942,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         Ok(vec![
             ToggleSubAccountInstruction::new_with_secp256k1_authority(
@@ -941,6 +950,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 role_id,
                 auth_role_id,
-- 
2.43.0


From 4ca82b3ab628ed6180941ea7f2ef713a81fe3475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 26/51] fix: creating a program-exec session authority reads
 past the end of its creation data

---
 state/src/authority/programexec/session.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/state/src/authority/programexec/session.rs b/state/src/authority/programexec/session.rs
index 6f3e5dc..b94285c 100644
--- a/state/src/authority/programexec/session.rs
+++ b/state/src/authority/programexec/session.rs
@@ -29,6 +29,8 @@ pub struct CreateProgramExecSessionAuthority {
     pub session_key: [u8; 32],
     /// Maximum duration a session can be valid for
     pub max_session_length: u64,
+    /// Reserved, so that the creation data is as long as the stored authority
+    _reserved: [u8; 8],
 }
 
 impl CreateProgramExecSessionAuthority {
@@ -54,6 +56,7 @@ impl CreateProgramExecSessionAuthority {
             _padding: [0; 7],
             session_key,
             max_session_length,
+            _reserved: [0; 8],
         }
     }
 }
-- 
2.43.0


From b1baa6132abd98083986aec17b6c0b07103f9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 27/51] fix: a program-exec role is found by a longer
 instruction prefix than its own

---
 state/src/authority/programexec/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/state/src/authority/programexec/mod.rs b/state/src/authority/programexec/mod.rs
index 9c6cec4..650c3d6 100644
--- a/state/src/authority/programexec/mod.rs
+++ b/state/src/authority/programexec/mod.rs
@@ -145,6 +145,10 @@ impl AuthorityInfo for ProgramExecAuthority {
         if data.len() != Self::LEN {
             return false;
         }
+        // One prefix can be the start of another
+        if data[32] != self.instruction_prefix_len {
+            return false;
+        }
         // The identity slice includes intermediate bytes (instruction_prefix_len +
         // padding) so we need to read instruction_prefix from IX_PREFIX_OFFSET
         sol_assert_bytes_eq(&self.program_id, &data[..32], 32)
-- 
2.43.0


From a36dc0028e87e1d4db84fc7dbe28cf0748d5aba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 28/51] fix: reading stored roles and actions runs outside the
 account data on corrupt bytes

---
 state/src/role.rs | 92 +++++++++++++++++++++++++++++------------------
 state/src/swig.rs | 27 +++++++++++---
 2 files changed, 81 insertions(+), 38 deletions(-)

diff --git a/state/src/role.rs b/state/src/role.rs
index c7f9c67..ce2cc01 100644
--- a/state/src/role.rs
+++ b/state/src/role.rs
@@ -33,6 +33,16 @@ pub struct Position {
     pub boundary: u32,
 }
 
+/// Returns where the action after `action` starts. `data_start` is where the
+/// data of `action` starts; the boundary cannot lie before it.
+fn next_action(action: &Action, data_start: usize) -> Result<usize, ProgramError> {
+    let boundary = action.boundary() as usize;
+    if boundary < data_start {
+        return Err(ProgramError::InvalidAccountData);
+    }
+    Ok(boundary)
+}
+
 /// Represents a role with immutable access to its components.
 ///
 /// A role combines a position with its authority information and associated
@@ -60,20 +70,24 @@ impl<'a> Role<'a> {
             return Err(ProgramError::InvalidAccountData);
         }
         while cursor < self.actions.len() {
-            let action = unsafe {
-                Action::load_unchecked(self.actions.get_unchecked(cursor..cursor + Action::LEN))?
-            };
+            let header = self
+                .actions
+                .get(cursor..cursor + Action::LEN)
+                .ok_or(ProgramError::InvalidAccountData)?;
+            let action = unsafe { Action::load_unchecked(header)? };
             cursor += Action::LEN;
             if action.permission()? == A::TYPE {
-                let action_obj = unsafe {
-                    A::load_unchecked(self.actions.get_unchecked(cursor..cursor + A::LEN))?
-                };
+                let body = self
+                    .actions
+                    .get(cursor..cursor + A::LEN)
+                    .ok_or(ProgramError::InvalidAccountData)?;
+                let action_obj = unsafe { A::load_unchecked(body)? };
                 if !A::REPEATABLE || action_obj.match_data(match_data) {
                     return Ok(Some(action_obj));
                 }
             }
 
-            cursor = action.boundary() as usize;
+            cursor = next_action(action, cursor)?;
         }
         Ok(None)
     }
@@ -83,11 +97,13 @@ impl<'a> Role<'a> {
         let mut actions = Vec::new();
         let mut cursor = 0;
         while cursor < self.actions.len() {
-            let action = unsafe {
-                Action::load_unchecked(self.actions.get_unchecked(cursor..cursor + Action::LEN))?
-            };
+            let header = self
+                .actions
+                .get(cursor..cursor + Action::LEN)
+                .ok_or(ProgramError::InvalidAccountData)?;
+            let action = unsafe { Action::load_unchecked(header)? };
             actions.push(action);
-            cursor = action.boundary() as usize;
+            cursor = next_action(action, cursor + Action::LEN)?;
         }
         Ok(actions)
     }
@@ -105,17 +121,21 @@ impl<'a> Role<'a> {
             return Err(ProgramError::InvalidAccountData);
         }
         while cursor < self.actions.len() {
-            let action = unsafe {
-                Action::load_unchecked(self.actions.get_unchecked(cursor..cursor + Action::LEN))?
-            };
+            let header = self
+                .actions
+                .get(cursor..cursor + Action::LEN)
+                .ok_or(ProgramError::InvalidAccountData)?;
+            let action = unsafe { Action::load_unchecked(header)? };
             cursor += Action::LEN;
             if action.permission()? == A::TYPE {
-                let action_obj = unsafe {
-                    A::load_unchecked(self.actions.get_unchecked(cursor..cursor + A::LEN))?
-                };
+                let body = self
+                    .actions
+                    .get(cursor..cursor + A::LEN)
+                    .ok_or(ProgramError::InvalidAccountData)?;
+                let action_obj = unsafe { A::load_unchecked(body)? };
                 actions.push(action_obj);
             }
-            cursor = action.boundary() as usize;
+            cursor = next_action(action, cursor)?;
         }
         Ok(actions)
     }
@@ -153,19 +173,23 @@ impl<'a> RoleMut<'a> {
             return Err(ProgramError::InvalidAccountData);
         }
         while cursor < self.actions.len() {
-            let action = unsafe {
-                Action::load_unchecked(self.actions.get_unchecked(cursor..cursor + Action::LEN))?
-            };
+            let header = self
+                .actions
+                .get(cursor..cursor + Action::LEN)
+                .ok_or(ProgramError::InvalidAccountData)?;
+            let action = unsafe { Action::load_unchecked(header)? };
             cursor += Action::LEN;
             if action.permission()? == A::TYPE {
-                let action_obj = unsafe {
-                    A::load_unchecked(self.actions.get_unchecked(cursor..cursor + A::LEN))?
-                };
+                let body = self
+                    .actions
+                    .get(cursor..cursor + A::LEN)
+                    .ok_or(ProgramError::InvalidAccountData)?;
+                let action_obj = unsafe { A::load_unchecked(body)? };
                 if !A::REPEATABLE || action_obj.match_data(match_data) {
                     return Ok(Some(action_obj));
                 }
             }
-            cursor = action.boundary() as usize;
+            cursor = next_action(action, cursor)?;
         }
         Ok(None)
     }
@@ -182,22 +206,22 @@ impl<'a> RoleMut<'a> {
         let mut found_offset = None;
         {
             while cursor < end_pos {
-                let action = unsafe {
-                    Action::load_unchecked(
-                        actions_data.get_unchecked(cursor..cursor + Action::LEN),
-                    )?
-                };
+                let header = actions_data
+                    .get(cursor..cursor + Action::LEN)
+                    .ok_or(ProgramError::InvalidAccountData)?;
+                let action = unsafe { Action::load_unchecked(header)? };
                 cursor += Action::LEN;
                 if action.permission()? == A::TYPE {
-                    let action_obj = unsafe {
-                        A::load_unchecked(actions_data.get_unchecked(cursor..cursor + A::LEN))?
-                    };
+                    let body = actions_data
+                        .get(cursor..cursor + A::LEN)
+                        .ok_or(ProgramError::InvalidAccountData)?;
+                    let action_obj = unsafe { A::load_unchecked(body)? };
                     if !A::REPEATABLE || action_obj.match_data(match_data) {
                         found_offset = Some(cursor);
                         break;
                     }
                 }
-                cursor = action.boundary() as usize;
+                cursor = next_action(action, cursor)?;
             }
         }
         if let Some(offset) = found_offset {
diff --git a/state/src/swig.rs b/state/src/swig.rs
index 60feb24..d5f0d00 100644
--- a/state/src/swig.rs
+++ b/state/src/swig.rs
@@ -626,6 +626,10 @@ impl Swig {
                 unsafe { roles[offset..].split_at_mut_unchecked(Position::LEN) };
             let position = unsafe { Position::load_unchecked(position)? };
             let authority_length = position.authority_length() as usize;
+            let boundary = position.boundary() as usize;
+            if boundary < offset + Position::LEN + authority_length || boundary > roles_len {
+                return Err(ProgramError::InvalidAccountData);
+            }
             let (authority, actions) = unsafe { remaning.split_at_mut_unchecked(authority_length) };
 
             let auth: &mut dyn AuthorityInfo = match position.authority_type()? {
@@ -708,14 +712,30 @@ impl<'a> SwigWithRoles<'a> {
         Ok(SwigWithRoles { state, roles })
     }
 
+    /// Loads the role position at `cursor`, checking that the authority and
+    /// the actions it describes lie within the stored roles.
+    fn load_position(&self, cursor: usize) -> Result<&'a Position, ProgramError> {
+        let offset = cursor + Position::LEN;
+        let bytes = self
+            .roles
+            .get(cursor..offset)
+            .ok_or(ProgramError::InvalidAccountData)?;
+        let position = unsafe { Position::load_unchecked(bytes)? };
+        let boundary = position.boundary() as usize;
+        if boundary < offset + position.authority_length() as usize || boundary > self.roles.len()
+        {
+            return Err(ProgramError::InvalidAccountData);
+        }
+        Ok(position)
+    }
+
     /// Looks up a role ID by authority data.
     pub fn lookup_role_id(&'a self, authority_data: &'a [u8]) -> Result<Option<u32>, ProgramError> {
         let mut cursor = 0;
 
         for _i in 0..self.state.roles {
             let offset = cursor + Position::LEN;
-            let position =
-                unsafe { Position::load_unchecked(self.roles.get_unchecked(cursor..offset))? };
+            let position = self.load_position(cursor)?;
             let auth_type = position.authority_type()?;
             let auth_len = position.authority_length() as usize;
 
@@ -783,8 +803,7 @@ impl<'a> SwigWithRoles<'a> {
         let mut cursor = 0;
         for _i in 0..self.state.roles {
             let offset = cursor + Position::LEN;
-            let position =
-                unsafe { Position::load_unchecked(self.roles.get_unchecked(cursor..offset))? };
+            let position = self.load_position(cursor)?;
             if position.id() == id {
                 let authority: &dyn AuthorityInfo =
                     match position.authority_type()? {
-- 
2.43.0


From 8b2efb9859f65e34d73cd7c6ea73bd8fd9ad006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 29/51] fix: a program scope whose balance field starts after
 its end is read outside the account data

---
 state/src/action/program_scope.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/state/src/action/program_scope.rs b/state/src/action/program_scope.rs
index 8e1a5a7..f816dc1 100644
--- a/state/src/action/program_scope.rs
+++ b/state/src/action/program_scope.rs
@@ -232,7 +232,9 @@ impl ProgramScope {
         }
 
         // Check if account data is long enough
-        if account_data.len() < self.balance_field_end as usize {
+        if account_data.len() < self.balance_field_end as usize
+            || self.balance_field_start > self.balance_field_end
+        {
             return Err(ProgramError::InvalidAccountData);
         }
 
-- 
2.43.0


From 6686ddf3ae3526816ec2561d7e8bdcac5fc7e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 30/51] fix: an empty account owned by the program is read past
 its end

---
 program/src/actions/create_session_v1.rs     | 2 +-
 program/src/actions/create_sub_account_v1.rs | 2 +-
 program/src/actions/create_sub_account_v2.rs | 2 +-
 program/src/actions/sign_v2.rs               | 2 +-
 program/src/actions/sub_account_sign_v1.rs   | 2 +-
 program/src/actions/sub_account_sign_v2.rs   | 2 +-
 program/src/actions/toggle_sub_account_v1.rs | 2 +-
 program/src/actions/toggle_sub_account_v2.rs | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/program/src/actions/create_session_v1.rs b/program/src/actions/create_session_v1.rs
index feef1d5..0f82031 100644
--- a/program/src/actions/create_session_v1.rs
+++ b/program/src/actions/create_session_v1.rs
@@ -134,7 +134,7 @@ pub fn create_session_v1(
         ProgramError::InvalidInstructionData
     })?;
     let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-    if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8 {
+    if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8)) {
         return Err(SwigError::InvalidSwigAccountDiscriminator.into());
     }
     let swig_roles = Swig::split_parts_mut(swig_account_data)?.roles;
diff --git a/program/src/actions/create_sub_account_v1.rs b/program/src/actions/create_sub_account_v1.rs
index ee190aa..35dd2dc 100644
--- a/program/src/actions/create_sub_account_v1.rs
+++ b/program/src/actions/create_sub_account_v1.rs
@@ -150,7 +150,7 @@ pub fn create_sub_account_v1(
 
     // Verify the swig account data
     let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-    if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8 {
+    if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8)) {
         return Err(SwigError::InvalidSwigAccountDiscriminator.into());
     }
 
diff --git a/program/src/actions/create_sub_account_v2.rs b/program/src/actions/create_sub_account_v2.rs
index 9149e70..f5eb927 100644
--- a/program/src/actions/create_sub_account_v2.rs
+++ b/program/src/actions/create_sub_account_v2.rs
@@ -139,7 +139,7 @@ pub fn create_sub_account_v2(
     // Authenticate, authorize creation, and draw a fresh id under one borrow.
     let (new_id, swig_id, already_granted) = {
         let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-        if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8
+        if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8))
         {
             return Err(SwigError::InvalidSwigAccountDiscriminator.into());
         }
diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 8133bd1..d1364b1 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -233,7 +233,7 @@ pub fn sign_v2(
 
     let sign_v2 = SignV2::from_instruction_bytes(data)?;
     let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-    if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8 {
+    if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8)) {
         return Err(SwigError::InvalidSwigAccountDiscriminator.into());
     }
     let parts = Swig::split_parts_mut(swig_account_data)?;
diff --git a/program/src/actions/sub_account_sign_v1.rs b/program/src/actions/sub_account_sign_v1.rs
index 5ce981d..be4b81b 100644
--- a/program/src/actions/sub_account_sign_v1.rs
+++ b/program/src/actions/sub_account_sign_v1.rs
@@ -140,7 +140,7 @@ pub fn sub_account_sign_v1(
     check_system_owner(ctx.accounts.sub_account, SwigError::OwnerMismatchSubAccount)?;
     let sign_v1 = SubAccountSignV1::from_instruction_bytes(data)?;
     let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-    if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8 {
+    if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8)) {
         return Err(SwigError::InvalidSwigAccountDiscriminator.into());
     }
     let parts = Swig::split_parts_mut(swig_account_data)?;
diff --git a/program/src/actions/sub_account_sign_v2.rs b/program/src/actions/sub_account_sign_v2.rs
index 73e8722..592f265 100644
--- a/program/src/actions/sub_account_sign_v2.rs
+++ b/program/src/actions/sub_account_sign_v2.rs
@@ -207,7 +207,7 @@ pub fn sub_account_sign_v2(
 
     let swig_id = {
         let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-        if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8
+        if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8))
         {
             return Err(SwigError::InvalidSwigAccountDiscriminator.into());
         }
diff --git a/program/src/actions/toggle_sub_account_v1.rs b/program/src/actions/toggle_sub_account_v1.rs
index dc8530f..fe18a2f 100644
--- a/program/src/actions/toggle_sub_account_v1.rs
+++ b/program/src/actions/toggle_sub_account_v1.rs
@@ -147,7 +147,7 @@ pub fn toggle_sub_account_v1(
 
     // Verify the swig account data
     let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-    if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8 {
+    if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8)) {
         return Err(SwigError::InvalidSwigAccountDiscriminator.into());
     }
 
diff --git a/program/src/actions/toggle_sub_account_v2.rs b/program/src/actions/toggle_sub_account_v2.rs
index 3d68d5b..d2d7742 100644
--- a/program/src/actions/toggle_sub_account_v2.rs
+++ b/program/src/actions/toggle_sub_account_v2.rs
@@ -108,7 +108,7 @@ pub fn toggle_sub_account_v2(
     let toggle = ToggleSubAccountV2::from_instruction_bytes(data)?;
 
     let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-    if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8 {
+    if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8)) {
         return Err(SwigError::InvalidSwigAccountDiscriminator.into());
     }
     // V2 requires the wallet-address (migrated) Swig generation. Checked before
-- 
2.43.0


From a0460ec3aaf050e3ce681abea58fcda9ab2c4aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 31/51] fix: a wallet's cost must not grow with every role it
 ever had

---
 program/src/util/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/program/src/util/mod.rs b/program/src/util/mod.rs
index ef3b464..cb05876 100644
--- a/program/src/util/mod.rs
+++ b/program/src/util/mod.rs
@@ -26,7 +26,7 @@ use swig_state::{
     authority::AuthorityType,
     constants::PROGRAM_SCOPE_BYTE_SIZE,
     read_numeric_field,
-    role::RoleMut,
+    role::{Position, RoleMut},
     swig::{Swig, SwigWithRoles},
     Transmutable,
 };
@@ -72,8 +72,18 @@ impl ProgramScopeCache {
         let swig_with_roles = SwigWithRoles::from_bytes(data).ok()?;
         let mut cache = Self::new();
 
-        // Iterate through all roles and their program scopes
-        for role_id in 0..swig_with_roles.state.role_counter {
+        // Iterate through the stored roles and their program scopes. Role ids
+        // are never reused, so the work must not grow with `role_counter`.
+        let mut role_cursor = Swig::LEN;
+        for _ in 0..swig_with_roles.state.roles {
+            let Some(position) = data
+                .get(role_cursor..role_cursor + Position::LEN)
+                .and_then(|bytes| unsafe { Position::load_unchecked(bytes).ok() })
+            else {
+                break;
+            };
+            role_cursor = Swig::LEN + position.boundary() as usize;
+            let role_id = position.id();
             if let Ok(Some(role)) = swig_with_roles.get_role(role_id) {
                 let mut cursor = 0;
                 while cursor < role.actions.len() {
-- 
2.43.0


From 5832ba15b910c217fbc6b7a511a5646cca17ffab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:44 +0000
Subject: [PATCH 32/51] fix: a manager can withdraw from the sub-account of any
 stored role

---
 .../actions/withdraw_from_sub_account_v1.rs   | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/program/src/actions/withdraw_from_sub_account_v1.rs b/program/src/actions/withdraw_from_sub_account_v1.rs
index e37a55e..569ee0b 100644
--- a/program/src/actions/withdraw_from_sub_account_v1.rs
+++ b/program/src/actions/withdraw_from_sub_account_v1.rs
@@ -224,13 +224,36 @@ pub fn withdraw_from_sub_account_v1(
         (action.role_id, action.bump)
     } else {
         // For All/ManageAuthority cases without SubAccount action, we need to find the
-        // role that created this sub-account We'll try different role IDs to
-        // see which one matches the given sub-account address
+        // role that created this sub-account. It is recorded in that role's
+        // SubAccount action for as long as the role exists.
         let mut found_role_id = None;
         let mut found_bump = None;
 
-        // Try role IDs from 0 to some reasonable maximum (let's try up to 10)
+        let mut cursor = 0;
+        for _ in 0..swig.roles {
+            let Some(position) = swig_roles.get(cursor..cursor + Position::LEN) else {
+                break;
+            };
+            let position = unsafe { Position::load_unchecked(position)? };
+            let stored_role_id = position.id();
+            cursor = position.boundary() as usize;
+            if let Some(stored_role) = Swig::get_mut_role(stored_role_id, swig_roles)? {
+                if let Some(action) =
+                    stored_role.get_action::<SubAccount>(ctx.accounts.sub_account.key().as_ref())?
+                {
+                    found_role_id = Some(action.role_id);
+                    found_bump = Some(action.bump);
+                    break;
+                }
+            }
+        }
+
+        // A sub-account can outlive the role that created it: try role IDs from 0
+        // to some reasonable maximum (let's try up to 10)
         for potential_role_id in 0u32..=10u32 {
+            if found_role_id.is_some() {
+                break;
+            }
             let role_id_bytes = potential_role_id.to_le_bytes();
             let sub_account_seeds = swig_state::swig::sub_account_seeds(&swig.id, &role_id_bytes);
             let (derived_address, bump) =
-- 
2.43.0


From dbf8a8ccd526efb3cce5a45be764146016ccc518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 33/51] fix: a secp256k1 role that adds an authority cuts off
 its first byte

---
 rust-sdk/src/client_role.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index 9340fbc..c94e4e3 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -717,6 +717,13 @@ impl ClientRole for Secp256k1ClientRole {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
         let new_odometer = self.odometer.wrapping_add(1);
 
+        // The program stores an uncompressed secp256k1 key without its SEC1
+        // prefix; every other credential is passed on as it is.
+        let new_authority = match (&new_authority_type, new_authority) {
+            (AuthorityType::Secp256k1, [0x04, key @ ..]) if key.len() == 64 => key,
+            _ => new_authority,
+        };
+
         let instructions = AddAuthorityInstruction::new_with_secp256k1_authority(
             swig_account,
             payer,
@@ -726,7 +733,7 @@ impl ClientRole for Secp256k1ClientRole {
             role_id,
             AuthorityConfig {
                 authority_type: new_authority_type,
-                authority: &new_authority[1..],
+                authority: new_authority,
             },
             actions,
         )?;
-- 
2.43.0


From 4b0ed2c8710e47c549bcea9cf0eebd963594a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 34/51] fix: several instructions signed at once reuse one
 signature counter

---
 rust-sdk/src/client_role.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index c94e4e3..f240a31 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -1192,9 +1192,11 @@ impl ClientRole for Secp256k1ClientRole {
     ) -> Result<Vec<Instruction>, SwigError> {
         let mut signed_instructions = Vec::new();
         let current_slot = current_slot.ok_or(SwigError::SlotRequired)?;
-        let new_odometer = self.odometer.wrapping_add(1);
+        let mut new_odometer = self.odometer;
 
         for instruction in instructions {
+            // Every instruction of the transaction uses up one counter value
+            new_odometer = new_odometer.wrapping_add(1);
             let swig_signed_instruction = SignV2Instruction::new_secp256k1_with_signers(
                 swig_account,
                 swig_wallet_address,
@@ -1714,9 +1716,11 @@ impl ClientRole for Secp256r1ClientRole {
     ) -> Result<Vec<Instruction>, SwigError> {
         let mut signed_instructions = Vec::new();
         let current_slot = current_slot.ok_or(SwigError::SlotRequired)?;
-        let new_odometer = self.odometer.wrapping_add(1);
+        let mut new_odometer = self.odometer;
 
         for instruction in instructions {
+            // Every instruction of the transaction uses up one counter value
+            new_odometer = new_odometer.wrapping_add(1);
             let swig_signed_instructions = SignV2Instruction::new_secp256r1_with_signers(
                 swig_account,
                 swig_wallet_address,
-- 
2.43.0


From 4ceba3331569e0738a6ffbeb0d9cfeba3e7e424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 35/51] fix: a program-exec role signs a wrapper the program
 cannot read

---
 rust-sdk/src/client_role.rs | 52 ++++++++++++-------------------------
 1 file changed, 16 insertions(+), 36 deletions(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index f240a31..ceaad6c 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -3565,45 +3565,25 @@ where
         _current_slot: Option<u64>,
         transaction_signers: &[Pubkey],
     ) -> Result<Vec<Instruction>, SwigError> {
-        // Build the inner instruction using compact_instructions
-        let base_accounts = vec![
-            solana_program::instruction::AccountMeta::new(swig_account, false),
-            solana_program::instruction::AccountMeta::new(swig_wallet_address, false),
-        ];
-
-        // Add transaction signers as readonly signers
-        let mut accounts_with_signers = base_accounts;
-        for signer in transaction_signers {
-            accounts_with_signers.push(solana_program::instruction::AccountMeta::new_readonly(
-                *signer, true,
-            ));
-        }
-
-        let (_, compact_ixs) =
-            swig_interface::compact_instructions(swig_account, accounts_with_signers, instructions);
-
-        let inner_instruction = solana_program::instruction::Instruction {
-            program_id: swig_interface::program_id(),
-            accounts: vec![],
-            data: compact_ixs.into_bytes(),
-        };
-
-        // Get the preceding instruction from the function
-        let preceding_instruction = (self.preceding_instruction_fn)();
-
         // Determine payer from transaction_signers (first signer is typically the
         // payer)
         let payer = transaction_signers.first().copied().unwrap_or(swig_account);
 
-        // Use SignV2 with ProgramExec
-        SignV2Instruction::new_program_exec(
-            swig_account,
-            swig_wallet_address,
-            payer,
-            preceding_instruction,
-            inner_instruction,
-            role_id,
-        )
-        .map_err(|e| SwigError::InterfaceError(e.to_string()))
+        let mut signed_instructions = Vec::new();
+        for instruction in instructions {
+            // Each signed instruction follows the instruction that authorizes it
+            signed_instructions.extend(
+                SignV2Instruction::new_program_exec(
+                    swig_account,
+                    swig_wallet_address,
+                    payer,
+                    (self.preceding_instruction_fn)(),
+                    instruction,
+                    role_id,
+                )
+                .map_err(|e| SwigError::InterfaceError(e.to_string()))?,
+            );
+        }
+        Ok(signed_instructions)
     }
 }
-- 
2.43.0


From 78d27062a39309317e04c7b1ec220009ae78ebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 36/51] fix: an ed25519 session role uses its sub-account
 without its session key

---
 rust-sdk/src/client_role.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index ceaad6c..474ce1c 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -1855,7 +1855,7 @@ impl ClientRole for Ed25519SessionClientRole {
         sub_account_bump: u8,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
         Ok(vec![
             CreateSubAccountInstruction::new_with_ed25519_authority(
                 swig_account,
@@ -1876,7 +1876,7 @@ impl ClientRole for Ed25519SessionClientRole {
         instructions: Vec<Instruction>,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
         Ok(vec![SubAccountSignInstruction::new_with_ed25519_authority(
             swig_account,
             sub_account,
@@ -1895,7 +1895,7 @@ impl ClientRole for Ed25519SessionClientRole {
         amount: u64,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -1928,7 +1928,7 @@ impl ClientRole for Ed25519SessionClientRole {
         amount: u64,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -1962,7 +1962,7 @@ impl ClientRole for Ed25519SessionClientRole {
         enabled: bool,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
         Ok(vec![
             ToggleSubAccountInstruction::new_with_ed25519_authority(
                 swig_account,
-- 
2.43.0


From 98d80f1801d510aa71ad8a033a15101fd80e2b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 37/51] fix: a secp role cannot withdraw from or toggle a V1
 sub-account when the payer pays the fee

The builders sign over a read-only payer, but the fee payer is writable in
every instruction that names it, so the program sees another account list.
---
 interface/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index e7a2d90..5030143 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2163,7 +2163,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2258,7 +2258,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2318,7 +2318,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2402,7 +2402,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2931,7 +2931,7 @@ impl ToggleSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
         ];
 
@@ -2992,7 +2992,7 @@ impl ToggleSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
-- 
2.43.0


From af7ab79ee74c8baa2e4e207db422f2038e6f5042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 38/51] fix: a role's program scopes and created sub-accounts
 are not listed as permissions

---
 rust-sdk/src/types.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rust-sdk/src/types.rs b/rust-sdk/src/types.rs
index 2b891ae..409f887 100644
--- a/rust-sdk/src/types.rs
+++ b/rust-sdk/src/types.rs
@@ -561,10 +561,9 @@ impl Permission {
             });
         }
 
-        // Check for ProgramScope permission
-        if let Some(action) =
-            swig_state::role::Role::get_action::<ProgramScope>(role, &spl_token::ID.to_bytes())
-                .map_err(|_| SwigError::InvalidSwigData)?
+        // Check for ProgramScope permissions
+        for action in swig_state::role::Role::get_all_actions_of_type::<ProgramScope>(role)
+            .map_err(|_| SwigError::InvalidSwigData)?
         {
             permissions.push(Permission::ProgramScope {
                 program_id: Pubkey::new_from_array(action.program_id),
@@ -585,8 +584,8 @@ impl Permission {
             });
         }
 
-        // Check for SubAccount permission
-        if let Some(action) = swig_state::role::Role::get_action::<SubAccount>(role, &[])
+        // Check for SubAccount permissions
+        for action in swig_state::role::Role::get_all_actions_of_type::<SubAccount>(role)
             .map_err(|_| SwigError::InvalidSwigData)?
         {
             permissions.push(Permission::SubAccount {
-- 
2.43.0


From f8a91bbcfc33e46d3a1da811e019600d9e11ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 39/51] fix: a wallet cannot be opened as a secp session role

---
 rust-sdk/src/wallet.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index a3b610b..fb1d589 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -174,8 +174,15 @@ impl<'c> SwigWallet<'c> {
                 SwigWithRoles::from_bytes(&swig_data).map_err(|e| SwigError::InvalidSwigData)?;
 
             let authority_bytes = client_role.authority_bytes()?;
+            // A session authority's bytes also hold its initial session key and
+            // maximum duration; the stored role is found by its public key.
+            let lookup_bytes = match client_role.authority_type() {
+                AuthorityType::Secp256k1Session => &authority_bytes[..64],
+                AuthorityType::Secp256r1Session => &authority_bytes[..33],
+                _ => authority_bytes.as_slice(),
+            };
             let role_id = swig_with_roles
-                .lookup_role_id(authority_bytes.as_ref())
+                .lookup_role_id(lookup_bytes)
                 .map_err(|_| SwigError::AuthorityNotFound)?
                 .ok_or(SwigError::AuthorityNotFound)?;
 
-- 
2.43.0


From 795ac0a487c6eb1cb5db41be33e7e35421fc00d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 40/51] fix: the current authority's permissions are reported
 in part only

---
 rust-sdk/src/wallet.rs | 62 +-----------------------------------------
 1 file changed, 1 insertion(+), 61 deletions(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index fb1d589..38c09f5 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -862,67 +862,7 @@ impl<'c> SwigWallet<'c> {
     /// Returns a `Result` containing a vector of the authority's permissions or
     /// a `SwigError`
     pub fn get_current_authority_permissions(&self) -> Result<Vec<Permission>, SwigError> {
-        let swig_pubkey = self.get_swig_account()?;
-
-        #[cfg(not(all(feature = "rust_sdk_test", test)))]
-        let swig_account = self.rpc_client.get_account(&swig_pubkey)?;
-        #[cfg(all(feature = "rust_sdk_test", test))]
-        let swig_account = self.litesvm.get_account(&swig_pubkey).unwrap();
-
-        #[cfg(not(all(feature = "rust_sdk_test", test)))]
-        let swig_data = self.rpc_client.get_account_data(&swig_pubkey)?;
-        #[cfg(all(feature = "rust_sdk_test", test))]
-        let swig_data = self.litesvm.get_account(&swig_pubkey).unwrap().data;
-        let swig_with_roles =
-            SwigWithRoles::from_bytes(&swig_data).map_err(|e| SwigError::InvalidSwigData)?;
-
-        let mut permissions: Vec<Permission> = Vec::new();
-        for i in 0..swig_with_roles.state.role_counter {
-            let role = swig_with_roles.get_role(i).unwrap();
-            if let Some(role) = role {
-                if role
-                    .authority
-                    .match_data(self.instruction_builder.get_current_authority()?.as_ref())
-                {
-                    if (Role::get_action::<All>(&role, &[])
-                        .map_err(|_| SwigError::AuthorityNotFound)?)
-                    .is_some()
-                    {
-                        permissions.push(Permission::All);
-                    }
-                    // Sol Limit
-                    if let Some(action) = Role::get_action::<SolLimit>(&role, &[])
-                        .map_err(|_| SwigError::AuthorityNotFound)?
-                    {
-                        permissions.push(Permission::Sol {
-                            amount: action.amount,
-                            recurring: None,
-                        });
-                    }
-                    // Sol Recurring
-                    if let Some(action) = Role::get_action::<SolRecurringLimit>(&role, &[])
-                        .map_err(|_| SwigError::AuthorityNotFound)?
-                    {
-                        permissions.push(Permission::Sol {
-                            amount: action.recurring_amount,
-                            recurring: Some(RecurringConfig {
-                                window: action.window,
-                                last_reset: action.last_reset,
-                                current_amount: action.current_amount,
-                            }),
-                        });
-                    }
-                    // Manage Authority
-                    if (Role::get_action::<ManageAuthority>(&role, &[])
-                        .map_err(|_| SwigError::AuthorityNotFound)?)
-                    .is_some()
-                    {
-                        println!("\t\tManage Authority permission exists");
-                    }
-                }
-            }
-        }
-        Ok(permissions)
+        self.get_role_permissions(self.get_current_role_id()?)
     }
 
     /// Displays detailed information about the Swig wallet
-- 
2.43.0


From 4270e2b995aac991a65a24614ba96216a0ee853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 41/51] fix: a recurring SOL limit is not reported beside a
 fixed one

---
 rust-sdk/src/wallet.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index 38c09f5..b7c605b 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -1757,8 +1757,12 @@ impl<'c> SwigWallet<'c> {
     pub fn get_recurring_sol_limit(&self) -> Result<Option<RecurringConfig>, SwigError> {
         let permissions = self.get_current_permissions()?;
         for permission in permissions {
-            if let Permission::Sol { recurring, .. } = permission {
-                return Ok(recurring.clone());
+            if let Permission::Sol {
+                recurring: Some(recurring),
+                ..
+            } = permission
+            {
+                return Ok(Some(recurring.clone()));
             }
         }
         Ok(None)
-- 
2.43.0


From 76a89c61a7efe6eca5aa3e429e78070af0762705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 42/51] fix: the wallet object loses count of its role's
 signatures

It counted operations instead of reading the stored counter: one for several
instructions, one for operations a session key signed, none for new authorities
and sessions, and an error after success for program-exec roles.
---
 rust-sdk/src/instruction_builder.rs |  5 +++++
 rust-sdk/src/wallet.rs              | 29 ++++++++++++-----------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/rust-sdk/src/instruction_builder.rs b/rust-sdk/src/instruction_builder.rs
index 8004603..1cfebf1 100644
--- a/rust-sdk/src/instruction_builder.rs
+++ b/rust-sdk/src/instruction_builder.rs
@@ -694,6 +694,11 @@ impl SwigInstructionBuilder {
         self.client_role.odometer()
     }
 
+    /// Sets the odometer for the current authority to the one stored on chain
+    pub fn update_odometer(&mut self, odometer: u32) -> Result<(), SwigError> {
+        self.client_role.update_odometer(odometer)
+    }
+
     /// Increments the odometer for the current authority if it is Secp based
     /// authority
     pub fn increment_odometer(&mut self) -> Result<(), SwigError> {
diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index b7c605b..903cba2 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -253,7 +253,11 @@ impl<'c> SwigWallet<'c> {
             &[self.fee_payer.insecure_clone()],
         )?;
 
-        self.send_and_confirm_transaction(tx)
+        let tx_result = self.send_and_confirm_transaction(tx);
+        if tx_result.is_ok() {
+            self.refresh_permissions()?;
+        }
+        tx_result
     }
 
     /// Removes an existing authority from the wallet
@@ -296,7 +300,6 @@ impl<'c> SwigWallet<'c> {
             let tx_result = self.send_and_confirm_transaction(tx);
             if tx_result.is_ok() {
                 self.refresh_permissions()?;
-                self.instruction_builder.increment_odometer()?;
             }
             tx_result
         } else {
@@ -338,7 +341,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -361,7 +363,6 @@ impl<'c> SwigWallet<'c> {
         update_data: UpdateAuthorityData,
     ) -> Result<Signature, SwigError> {
         let current_slot = self.get_current_slot()?;
-        let counter = self.get_odometer()?;
 
         let instructions = self.instruction_builder.update_authority(
             authority_to_update_id,
@@ -381,7 +382,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -412,7 +412,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -453,7 +452,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -492,7 +490,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -541,7 +538,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -584,7 +580,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -634,7 +629,6 @@ impl<'c> SwigWallet<'c> {
         match self.send_and_confirm_transaction(tx) {
             Ok(sig) => {
                 self.refresh_permissions()?;
-                self.instruction_builder.increment_odometer()?;
                 Ok((sig, subacc_id))
             },
             Err(e) => Err(e),
@@ -663,7 +657,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -690,7 +683,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -726,7 +718,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -753,7 +744,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -1275,7 +1265,8 @@ impl<'c> SwigWallet<'c> {
         Ok(&self.current_role.permissions)
     }
 
-    /// Updates the stored role permissions by fetching them from the chain
+    /// Updates the stored role permissions and odometer by fetching them from
+    /// the chain
     ///
     /// # Returns
     ///
@@ -1297,6 +1288,9 @@ impl<'c> SwigWallet<'c> {
 
         if let Some(role) = role {
             self.current_role = build_current_role(role_id, &role);
+            if let Some(odometer) = role.authority.signature_odometer() {
+                self.instruction_builder.update_odometer(odometer)?;
+            }
         } else {
             return Err(SwigError::AuthorityNotFound);
         }
@@ -1417,6 +1411,7 @@ impl<'c> SwigWallet<'c> {
         )?;
 
         self.send_and_confirm_transaction(tx)?;
+        self.refresh_permissions()?;
         Ok(())
     }
 
@@ -1449,7 +1444,7 @@ impl<'c> SwigWallet<'c> {
 
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
-            self.instruction_builder.increment_odometer()?;
+            self.refresh_permissions()?;
         }
         tx_result
     }
-- 
2.43.0


From 232919229d754c596b347f2ccd15af2cf8883a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 43/51] fix: an authority other than the fee payer cannot
 manage authorities, sessions or the rent claimer

---
 rust-sdk/src/wallet.rs | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index 903cba2..18cbd62 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -248,10 +248,8 @@ impl<'c> SwigWallet<'c> {
             self.get_current_blockhash()?,
         )?;
 
-        let tx = VersionedTransaction::try_new(
-            VersionedMessage::V0(msg),
-            &[self.fee_payer.insecure_clone()],
-        )?;
+        let keypairs = self.get_required_keypairs(&msg)?;
+        let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &keypairs)?;
 
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
@@ -292,10 +290,8 @@ impl<'c> SwigWallet<'c> {
                 self.get_current_blockhash()?,
             )?;
 
-            let tx = VersionedTransaction::try_new(
-                VersionedMessage::V0(msg),
-                &[self.fee_payer.insecure_clone()],
-            )?;
+            let keypairs = self.get_required_keypairs(&msg)?;
+            let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &keypairs)?;
 
             let tx_result = self.send_and_confirm_transaction(tx);
             if tx_result.is_ok() {
@@ -1405,10 +1401,8 @@ impl<'c> SwigWallet<'c> {
             self.get_current_blockhash()?,
         )?;
 
-        let tx = VersionedTransaction::try_new(
-            VersionedMessage::V0(msg),
-            &[&self.fee_payer.insecure_clone()],
-        )?;
+        let keypairs = self.get_required_keypairs(&msg)?;
+        let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &keypairs)?;
 
         self.send_and_confirm_transaction(tx)?;
         self.refresh_permissions()?;
@@ -1437,10 +1431,8 @@ impl<'c> SwigWallet<'c> {
             &[],
             self.get_current_blockhash()?,
         )?;
-        let tx = VersionedTransaction::try_new(
-            VersionedMessage::V0(msg),
-            &[self.fee_payer.insecure_clone()],
-        )?;
+        let keypairs = self.get_required_keypairs(&msg)?;
+        let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &keypairs)?;
 
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
@@ -1535,6 +1527,23 @@ impl<'c> SwigWallet<'c> {
         Ok(keypairs)
     }
 
+    /// Returns the keypairs whose signatures the message requires
+    ///
+    /// # Arguments
+    ///
+    /// * `message` - The message to be signed
+    ///
+    /// # Returns
+    ///
+    /// Returns a `Result` containing the fee payer's keypair and, where the
+    /// message requires it, the authority's, or a `SwigError`
+    fn get_required_keypairs(&self, message: &v0::Message) -> Result<Vec<&Keypair>, SwigError> {
+        let required = message.header.num_required_signatures as usize;
+        let mut keypairs = self.get_keypairs()?;
+        keypairs.retain(|keypair| message.account_keys[..required].contains(&keypair.pubkey()));
+        Ok(keypairs)
+    }
+
     /// Returns the swig id
     ///
     /// # Returns
-- 
2.43.0


From b16ec11cda95e73d7c6d51e32707d4524b89d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:34 +0000
Subject: [PATCH 44/51] fix: CLI permissions with more than one field

clap splits the permission arguments at every comma, so a JSON object with a
comma reached the parser in pieces and was refused.
---
 cli/src/commands.rs | 40 ++++++++++++++++------------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/cli/src/commands.rs b/cli/src/commands.rs
index 1c438ef..01e7e4b 100644
--- a/cli/src/commands.rs
+++ b/cli/src/commands.rs
@@ -144,6 +144,19 @@ pub fn create_swig_instance(
     Ok(())
 }
 
+/// Parses the permissions given on the command line. The values have been
+/// split at every comma, including those inside a JSON object, so they are put
+/// back together before they are parsed.
+pub fn parse_permissions(permissions: &[String]) -> Result<Vec<Permission>> {
+    let permissions = format!("[{}]", permissions.join(","));
+    let permission_values: Vec<Value> = serde_json::from_str(&permissions)
+        .map_err(|e| anyhow!("Invalid permission JSON: {}", e))?;
+    permission_values
+        .iter()
+        .map(parse_permission_from_json)
+        .collect()
+}
+
 pub fn parse_permission_from_json(permission_json: &Value) -> Result<Permission> {
     match permission_json["type"].as_str() {
         Some("all") => Ok(Permission::All),
@@ -295,14 +308,7 @@ pub fn run_command_mode(ctx: &mut SwigCliContext, cmd: Command) -> Result<()> {
                 return Err(anyhow!("Permissions are required"));
             }
 
-            let parsed_permissions = permissions
-                .iter()
-                .map(|p| {
-                    let permission_value: Value = serde_json::from_str(p)
-                        .map_err(|e| anyhow!("Invalid permission JSON: {}", e))?;
-                    parse_permission_from_json(&permission_value)
-                })
-                .collect::<Result<Vec<_>>>()?;
+            let parsed_permissions = parse_permissions(&permissions)?;
 
             create_swig_instance(
                 ctx,
@@ -841,28 +847,14 @@ pub fn run_command_mode(ctx: &mut SwigCliContext, cmd: Command) -> Result<()> {
                     if permissions.is_empty() {
                         return Err(anyhow!("Permissions are required for ReplaceAll operation"));
                     }
-                    let parsed_permissions = permissions
-                        .iter()
-                        .map(|p| {
-                            let permission_value: Value = serde_json::from_str(p)
-                                .map_err(|e| anyhow!("Invalid permission JSON: {}", e))?;
-                            parse_permission_from_json(&permission_value)
-                        })
-                        .collect::<Result<Vec<_>>>()?;
+                    let parsed_permissions = parse_permissions(&permissions)?;
                     UpdateAuthorityData::ReplaceAll(parsed_permissions)
                 },
                 "AddActions" => {
                     if permissions.is_empty() {
                         return Err(anyhow!("Permissions are required for AddActions operation"));
                     }
-                    let parsed_permissions = permissions
-                        .iter()
-                        .map(|p| {
-                            let permission_value: Value = serde_json::from_str(p)
-                                .map_err(|e| anyhow!("Invalid permission JSON: {}", e))?;
-                            parse_permission_from_json(&permission_value)
-                        })
-                        .collect::<Result<Vec<_>>>()?;
+                    let parsed_permissions = parse_permissions(&permissions)?;
                     UpdateAuthorityData::AddActions(parsed_permissions)
                 },
                 "RemoveActionsByType" => {
-- 
2.43.0


From f54e28aaed8a90b90f5fd0b30807640734b48792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:34 +0000
Subject: [PATCH 45/51] fix: CLI remove-authority looks the authority up by its
 key

The text of the key was compared with the stored key, so nothing was ever found.
---
 cli/src/commands.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/src/commands.rs b/cli/src/commands.rs
index 01e7e4b..6a87b6f 100644
--- a/cli/src/commands.rs
+++ b/cli/src/commands.rs
@@ -363,10 +363,15 @@ pub fn run_command_mode(ctx: &mut SwigCliContext, cmd: Command) -> Result<()> {
 
             let remove_authority =
                 remove_authority.ok_or_else(|| anyhow!("Remove authority is required"))?;
+            // Ed25519 authorities are written in base58, the others in hex
+            let remove_authority_bytes = match Pubkey::from_str(&remove_authority) {
+                Ok(pubkey) => pubkey.to_bytes().to_vec(),
+                Err(_) => crate::format_authority(&remove_authority, &AuthorityType::Secp256k1)?,
+            };
             ctx.wallet
                 .as_mut()
                 .unwrap()
-                .remove_authority(remove_authority.as_bytes())?;
+                .remove_authority(&remove_authority_bytes)?;
             println!("Authority removed successfully!");
             Ok(())
         },
-- 
2.43.0


From 6bf3fd7ba17492784bd32b7ce694070a084ae5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:34 +0000
Subject: [PATCH 46/51] fix: CLI create keeps the chosen fee payer of an
 Ed25519 wallet

--fee-payer was replaced by the authority's own key.
---
 cli/src/commands.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cli/src/commands.rs b/cli/src/commands.rs
index 6a87b6f..eb6c1f1 100644
--- a/cli/src/commands.rs
+++ b/cli/src/commands.rs
@@ -35,7 +35,7 @@ pub fn create_swig_instance(
     fee_payer_string: Option<String>,
 ) -> Result<()> {
     let fee_payer = Keypair::from_base58_string(&fee_payer_string.unwrap_or(authority_kp.clone()));
-    let (client_role, fee_payer) = match authority_type {
+    let (client_role, authority_keypair) = match authority_type {
         AuthorityType::Ed25519 => {
             let authority_kp = Keypair::from_base58_string(&authority_kp);
             let authority = Pubkey::from_str(&authority)?;
@@ -125,8 +125,7 @@ pub fn create_swig_instance(
 
     // Use Box::leak to create static references (similar to interactive mode)
     let fee_payer_static: &mut Keypair = Box::leak(Box::new(fee_payer));
-    let authority_keypair_static: &mut Keypair =
-        Box::leak(Box::new(fee_payer_static.insecure_clone()));
+    let authority_keypair_static: &mut Keypair = Box::leak(Box::new(authority_keypair));
 
     let wallet = SwigWallet::new(
         swig_id,
-- 
2.43.0


From bdd37345b8d51f63cc67547d3e43fd6e4277b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:34 +0000
Subject: [PATCH 47/51] fix: CLI sub-account permission panicked on every
 address

---
 cli/src/commands.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/commands.rs b/cli/src/commands.rs
index eb6c1f1..0867ea0 100644
--- a/cli/src/commands.rs
+++ b/cli/src/commands.rs
@@ -209,7 +209,7 @@ pub fn parse_permission_from_json(permission_json: &Value) -> Result<Permission>
                 .as_str()
                 .ok_or_else(|| anyhow!("Sub-account is required for sub-account permission"))?;
             Ok(Permission::SubAccount {
-                sub_account: sub_account.as_bytes().try_into().unwrap(),
+                sub_account: Pubkey::from_str(sub_account)?.to_bytes(),
             })
         },
         Some("solDestination") => {
-- 
2.43.0


From 2b09e7c77db53743a6e154509392b9fd14b12235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:34 +0000
Subject: [PATCH 48/51] fix: CLI Secp256k1 keys arrive as given

A compressed key lost its prefix, which left 32 bytes the program cannot use,
and the 64-byte form that `generate` prints was refused.
---
 cli/src/main.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index f6e5c50..e1317a2 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -687,20 +687,21 @@ pub fn format_authority(authority: &str, authority_type: &AuthorityType) -> Resu
                 .map_err(|_| anyhow!("Invalid hex string for Secp256k1 authority"))?;
 
             // For Secp256k1, we expect the uncompressed public key (65 bytes starting with
-            // 0x04) or compressed public key (33 bytes starting with 0x02 or
-            // 0x03)
+            // 0x04, or 64 bytes without that prefix) or the compressed public key (33 bytes
+            // starting with 0x02 or 0x03)
             if authority_bytes.len() == 65 && authority_bytes[0] == 0x04 {
                 // Uncompressed format - remove the 0x04 prefix
                 Ok(authority_bytes[1..].to_vec())
-            } else if authority_bytes.len() == 33
-                && (authority_bytes[0] == 0x02 || authority_bytes[0] == 0x03)
+            } else if authority_bytes.len() == 64
+                || authority_bytes.len() == 33
+                    && (authority_bytes[0] == 0x02 || authority_bytes[0] == 0x03)
             {
-                // Compressed format - remove the prefix
-                Ok(authority_bytes[1..].to_vec())
+                // Already in a format the program understands
+                Ok(authority_bytes)
             } else {
                 Err(anyhow!(
-                    "Invalid Secp256k1 public key format - expected 33 bytes (compressed) or 65 \
-                     bytes (uncompressed)"
+                    "Invalid Secp256k1 public key format - expected 33 bytes (compressed) or 64 \
+                     or 65 bytes (uncompressed)"
                 ))
             }
         },
-- 
2.43.0


From 498c387af58c01873c4a569deb9484a79845a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:34 +0000
Subject: [PATCH 49/51] fix: interactive transfer moves SOL out of the wallet
 address

It was built from the configuration account, which the program refuses.
---
 cli/src/interactive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/interactive.rs b/cli/src/interactive.rs
index 38bc866..5b939f2 100644
--- a/cli/src/interactive.rs
+++ b/cli/src/interactive.rs
@@ -790,7 +790,7 @@ fn transfer_interactive(ctx: &mut SwigCliContext) -> Result<()> {
         .interact_text()?;
 
     let transfer_instruction = transfer(
-        &ctx.wallet.as_ref().unwrap().get_swig_account()?,
+        &ctx.wallet.as_ref().unwrap().get_swig_wallet_address()?,
         &Pubkey::from_str(&recipient)?,
         amount,
     );
-- 
2.43.0


From d7031259bbfc0299fc3c7514fbd6521d42eebe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:34 +0000
Subject: [PATCH 50/51] fix: interactive wallet creation signs with the Ed25519
 authority's key

The fee payer's keypair was kept in its place.
---
 cli/src/interactive.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cli/src/interactive.rs b/cli/src/interactive.rs
index 5b939f2..c0f3590 100644
--- a/cli/src/interactive.rs
+++ b/cli/src/interactive.rs
@@ -103,6 +103,7 @@ fn create_wallet_interactive(ctx: &mut SwigCliContext) -> Result<()> {
     println!("SWIG ID: {}", bs58::encode(swig_id).into_string());
 
     let authority_type = get_authority_type()?;
+    let mut ed25519_keypair = None;
 
     let client_role = match authority_type {
         AuthorityType::Ed25519 => {
@@ -113,6 +114,7 @@ fn create_wallet_interactive(ctx: &mut SwigCliContext) -> Result<()> {
             let authority = Keypair::from_base58_string(&authority_keypair);
             let authority_pubkey = authority.pubkey();
             println!("Authority public key: {}", authority_pubkey);
+            ed25519_keypair = Some(authority);
 
             Box::new(Ed25519ClientRole::new(authority_pubkey)) as Box<dyn ClientRole>
         },
@@ -277,12 +279,8 @@ fn create_wallet_interactive(ctx: &mut SwigCliContext) -> Result<()> {
     // For Secp256k1 and Secp256r1 authorities, we don't need the authority keypair
     // as a transaction signer since the signature is provided in the
     // instruction data
-    let authority_keypair_static: Option<&Keypair> = match authority_type {
-        AuthorityType::Ed25519 | AuthorityType::Ed25519Session => {
-            Some(Box::leak(Box::new(fee_payer_static.insecure_clone())))
-        },
-        _ => None,
-    };
+    let authority_keypair_static: Option<&Keypair> =
+        ed25519_keypair.map(|keypair| &*Box::leak(Box::new(keypair)));
 
     let wallet = SwigWallet::new(
         swig_id,
-- 
2.43.0


From baeb6fba43cb61893266e8c05e3a72fb0a90f249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:34 +0000
Subject: [PATCH 51/51] fix: interactive switch to an Ed25519 authority signs
 with its key

No keypair was handed over, so everything after the switch failed.
---
 cli/src/interactive.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cli/src/interactive.rs b/cli/src/interactive.rs
index c0f3590..220cdb0 100644
--- a/cli/src/interactive.rs
+++ b/cli/src/interactive.rs
@@ -757,10 +757,18 @@ fn switch_authority_interactive(ctx: &mut SwigCliContext) -> Result<()> {
     // Store the authority keypair in the context
     ctx.authority = Some(authority.insecure_clone());
 
+    // Only Ed25519 authorities sign the transaction
+    let authority_keypair_static: Option<&Keypair> = match authority_type {
+        AuthorityType::Ed25519 | AuthorityType::Ed25519Session => {
+            Some(Box::leak(Box::new(authority)))
+        },
+        _ => None,
+    };
+
     ctx.wallet
         .as_mut()
         .unwrap()
-        .switch_authority(role_id, client_role, None)?;
+        .switch_authority(role_id, client_role, authority_keypair_static)?;
     Ok(())
 }
 
-- 
2.43.0

