#!/usr/bin/env python3
"""Writes properties.jsonl (single source of truth for ids/titles/statements)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    for k in ("state","observe_at","hook_needed"):
        if k in kw: a[k]=kw[k]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

SW="program/src/actions/"
NOT_RUN="program/tests/* needs litesvm/solana-sdk and does not build or run here; and even there "

p("A01","Only a valid proof of a role's authority lets an instruction act as that role",
 "Every instruction that acts as a role of a wallet succeeds only if the transaction proves that role's authority in the way its type demands: a transaction signature by the stored Ed25519 key, a secp256k1/secp256r1 signature over that wallet instruction's payload and account list, a qualifying preceding program instruction, or a live session key. If the proof is missing, made with another key, made for another role's key, or made over a different payload or a different account list, the instruction fails and nothing on chain changes. With a correct proof and sufficient permissions the same instruction succeeds.",
 ["inputs","histories"],"all instructions x all eight authority kinds x every forged, missing, swapped or tampered credential, payload byte and account list",
 NOT_RUN+"tests try one wrong key per instruction; they cannot enumerate tampering positions across 16 instructions and 8 authority kinds.",
 ["state/src/authority/ed25519.rs","state/src/authority/secp256k1.rs","state/src/authority/secp256r1.rs","state/src/authority/programexec/mod.rs","program/src/actions/*.rs","assertions/src/lib.rs"],
 [("authenticate / authenticate_session per authority type","state/src/authority/*.rs"),("role lookup + authenticate in each action",SW+"*.rs")])

p("A02","A secp signature works once, in order, and only while fresh",
 "For secp256k1 and secp256r1 roles, each accepted signature advances that role's counter by exactly one and must carry the next counter value for as long as the role keeps its key; a signature that was already used, skips ahead, is older than 60 slots or names a future slot is rejected. A failed instruction leaves the counter unchanged, and no other role's counter moves. Reusing bytes of an accepted signature for the same or another wallet instruction never has a second effect. The mirrored (high-s) form of a secp256k1 signature is not accepted in its place.",
 ["histories","inputs"],"all histories of accepted, failed, replayed, reordered and delayed signatures across slots, including high-s malleated copies",
 "unit tests check single counter values against a constructed struct; replay safety is about every history.",
 ["state/src/authority/secp256k1.rs","state/src/authority/secp256r1.rs"],
 [("signature odometer","state/src/authority/secp256k1.rs, secp256r1.rs"),("MAX_SIGNATURE_AGE_IN_SLOTS window","same")])

p("A03","Sessions are bounded in length, bound to one key and die on expiry",
 "Creating a session requires a proof by the role's own long-term credential (a session key cannot start or extend a session), never exceeds the role's configured maximum duration, and replaces any previous session. While current slot <= creation slot + duration, only the named session key authorises the role in place of the main credential's signature; afterwards it authorises nothing. Non-session roles never acquire a session.",
 ["histories","inputs"],"all histories of session creation, replacement, slot advance and use over the four session authority kinds and all durations incl. 0, max and u64 extremes",
 "tests advance past one expiry; the boundary slots, replacement and duration extremes are not covered for each kind.",
 ["state/src/authority/ed25519.rs","state/src/authority/secp256k1.rs","state/src/authority/secp256r1.rs","state/src/authority/programexec/session.rs","program/src/actions/create_session_v1.rs"],
 [("start_session/authenticate_session","state/src/authority/*"),("create_session_v1",SW+"create_session_v1.rs")])

p("A04","Administrative instructions need the matching permission",
 "Adding or updating an authority needs All or ManageAuthority; removing another role needs the same; replacing a role's key needs All, ManageAuthority or a ReplaceAuthority grant naming that role; setting the rent claimer needs All or CloseSwigAuthority; closing the wallet or a token account needs All, ManageAuthority or CloseSwigAuthority; migrating or transferring assets needs All or ManageAuthority. A correctly authenticated role without such a grant (including AllButManageAuthority) always fails with no effect, and a role with it is not refused for lack of permission.",
 ["inputs","configurations"],"all permission sets (singletons and random combinations of the 27 kinds) x all administrative instructions",
 NOT_RUN+"tests try a few permission sets per instruction, not the matrix.",
 [SW+"add_authority_v1.rs",SW+"remove_authority_v1.rs",SW+"update_authority_v1.rs",SW+"replace_authority_v1.rs",SW+"set_rent_claimer_v1.rs",SW+"close_swig_v1.rs",SW+"close_token_account_v1.rs",SW+"transfer_assets_v1.rs",SW+"migrate_to_wallet_address_v1.rs","program/src/util/mod.rs"],
 [("permission checks","program/src/util/mod.rs and each action"),("Role::get_action","state/src/role.rs")])

p("A05","The role table stays well-formed; role ids are never reused; root stays",
 "After any history of accepted instructions the wallet's stored roles are exactly those implied by the accepted operations: each addition appends one role with the next id and the exact authority and actions supplied, each removal deletes exactly the named role, and every role not targeted keeps its bytes (apart from usage counters of the acting role). Role ids are never reused, the root role (id 0) can never be removed, and the stored count, counter and offsets always describe a fully parseable account. Every stored role can be looked up by its id and by its authority. However many roles a wallet has had before, its instructions still complete, at a cost that depends only on the roles it has now.",
 ["histories"],"all interleavings of add/remove/update/replace/session/sign over role tables of up to dozens of roles of mixed authority kinds and sizes",
 "tests run two or three operations on tables of at most three roles; shifting and boundary arithmetic errors depend on position, size and history.",
 ["state/src/swig.rs","state/src/role.rs","state/src/action/mod.rs",SW+"add_authority_v1.rs",SW+"remove_authority_v1.rs",SW+"update_authority_v1.rs"],
 [("SwigBuilder::add_role/remove_role","state/src/swig.rs"),("RolesIter / get_role / lookup_role","state/src/swig.rs")])

p("A06","Updating a role's actions changes exactly what was asked",
 "Replace-all leaves the role with exactly the supplied actions; add appends exactly the supplied actions and leaves existing ones, including their remaining limits and usage, unchanged; remove-by-type and remove-by-index drop exactly the selected actions. The target's authority data, all other roles and the rent-claimer setting are preserved byte for byte, a role always keeps at least one action, and an invalid request changes nothing.",
 ["inputs","histories"],"all four update modes x action sets of every kind and size x position of the target role x prior usage of the target's limits",
 NOT_RUN+"tests use the last role and fresh limits; growth/shrink in the middle of the table and used recurring limits are not sampled.",
 [SW+"update_authority_v1.rs","state/src/swig.rs","state/src/action/mod.rs"],
 [("perform_*_operation",SW+"update_authority_v1.rs")])

p("A07","Replacing a role's key swaps only that key and kills the old credential",
 "A successful replacement stores exactly the new authority for the target role, keeps its id, actions, limits and every other role and the rent-claimer setting unchanged, and invalidates the old credential and any session of it. The new credential works from then on, with a fresh signature counter and no session. Only Ed25519 and secp roles can be replaced. A program-exec actor must additionally present a proof bound to this wallet, its own role, the target role, the authority type and both keys. A replacement with the key the role already has, with a key of the wrong size for the role's type, of a program-exec role, under a grant that names another role, or with a proof for other values fails without effect.",
 ["inputs","histories"],"all ordered pairs of authority kinds, table positions, actor permissions and tampered proofs",
 "state tests do not cover replacement at all and program tests cover a few pairs.",
 [SW+"replace_authority_v1.rs","state/src/swig.rs"],
 [("replace_authority_v1",SW+"replace_authority_v1.rs")])

p("A08","Only well-formed, non-duplicated permissions and authorities are stored",
 "An instruction that supplies actions or authority data stores them only if every action's declared length matches its kind, its payload obeys that kind's initial-state rules, sub-account V2 grants are not duplicated, there is at least one action, and the authority data has the exact size for its type; anything else is rejected as a whole and changes nothing. Every accepted action list is stored byte-exact (except for internal link fields) and is readable back as the same set of permissions.",
 ["inputs"],"all byte strings offered as action lists and authority data, valid, truncated, extended, duplicated, mis-typed and bit-flipped",
 "tests try single malformed examples for a few kinds, not every kind x every malformation.",
 ["state/src/action/mod.rs","state/src/action/*.rs","state/src/swig.rs","state/src/authority/mod.rs"],
 [("ActionLoader::validate_layout","state/src/action/mod.rs"),("add_role validation","state/src/swig.rs")])

p("L01","SOL limits bound what a limited role can take out of the wallet",
 "Over every history, the SOL that leaves the wallet through a role holding a SOL limit never exceeds the limit granted: each accepted execution reduces the remaining allowance by exactly the wallet's SOL outflow in that execution (the sum over its inner instructions of the wallet's net decrease), an execution that would exceed it is rejected with nothing changed, one within it is not refused on its account, and inflows never raise it. A role with neither a SOL limit nor an unrestricted grant cannot move SOL out at all. Other roles' allowances are not touched.",
 ["histories","inputs"],"all histories of signed executions of 1..n inner instructions (in, out, round trips, nested programs) by several limited roles",
 NOT_RUN+"tests exercise one or two transfers against a limit; budget conservation is over histories and inner instruction shapes.",
 [SW+"sign_v2.rs","state/src/action/sol_limit.rs","state/src/action/sol_recurring_limit.rs"],
 [("spend accounting after each inner instruction",SW+"sign_v2.rs"),("SolLimit::run","state/src/action/sol_limit.rs")])

p("L02","Token limits bound what a limited role can take out of token accounts",
 "Over every history, the tokens of a mint that leave the wallet's token accounts through a role holding a limit for that mint never exceed the limit: each accepted execution reduces the remaining allowance for exactly that mint by exactly the outflow (counted per token account and inner instruction), over-limit executions are rejected with nothing changed, executions within it are not refused on its account, and limits of other mints and roles do not move. A role without a limit for that mint and without an unrestricted grant cannot move those tokens, whichever token program is used and even when the token account is closed in the same execution.",
 ["histories","inputs"],"all histories over several mints, token accounts, both token programs, transfers, checked transfers, burns, closes and mixed batches",
 NOT_RUN+"tests exercise single-mint transfers against one limit.",
 [SW+"sign_v2.rs","state/src/action/token_limit.rs","state/src/action/token_recurring_limit.rs"],
 [("token account snapshot and charge",SW+"sign_v2.rs"),("TokenLimit::run","state/src/action/token_limit.rs")])

p("L03","Recurring limits never allow more than the quota per window",
 "For recurring SOL, token, stake, per-destination and program-scoped limits, no more than the configured quota leaves between two refills; the allowance refills only when more than a full window has elapsed since the recorded start of the current window, refills to exactly the configured quota (unused quota never accumulates), and an execution larger than the quota is always rejected, while one that fits is not refused. Usage bookkeeping moves only on accepted executions.",
 ["histories","inputs"],"all spend schedules over slots with windows from 1 to u64 extremes, including boundary slots and idle periods",
 "unit tests check two or three hand-picked slots for some kinds.",
 ["state/src/action/sol_recurring_limit.rs","state/src/action/token_recurring_limit.rs","state/src/action/stake_recurring_limit.rs","state/src/action/sol_recurring_destination_limit.rs","state/src/action/token_recurring_destination_limit.rs","state/src/action/program_scope.rs"],
 [("recurring run()","state/src/action/*recurring*.rs"),("ProgramScope recurring","state/src/action/program_scope.rs")])

p("L04","Destination limits bound what each destination can receive",
 "When a role holds per-destination SOL or token limits, assets it sends to a destination are charged against exactly that destination's allowance (and the general allowance when it also has one), never above it; outflow in an execution that is not fully attributed to allowed destinations is rejected, and outflow within the allowances is not refused. Allowances of other destinations and mints are untouched.",
 ["histories","inputs"],"all mixes of destinations, inner instruction encodings, batches to several destinations, general+destination combinations",
 NOT_RUN+"tests cover one destination at a time.",
 [SW+"sign_v2.rs","state/src/action/sol_destination_limit.rs","state/src/action/token_destination_limit.rs","state/src/action/sol_recurring_destination_limit.rs","state/src/action/token_recurring_destination_limit.rs"],
 [("destination parsing and charge",SW+"sign_v2.rs"),("run","state/src/action/*destination*.rs")])

p("L05","Stake limits bound what a limited role can change in stake accounts",
 "Over every history, changes a limited role makes to stake accounts controlled by the wallet (withdrawals and changes of delegated stake) are charged to its stake limit (per account and inner instruction, the larger of the lamports withdrawn and the change of delegated stake) and never exceed it, and a change within it is not refused; a role without a stake limit, a stake-all grant or an unrestricted grant cannot change them. Stake limits are not consumed by anything else.",
 ["histories","inputs"],"all histories of withdraw/delegate/deactivate effects on several stake accounts",
 "no stake test runs in this checkout; program stake tests are feature-gated.",
 [SW+"sign_v2.rs","state/src/action/stake_limit.rs","state/src/action/stake_recurring_limit.rs","state/src/action/stake_all.rs","program/src/lib.rs"],
 [("stake classification","program/src/lib.rs"),("stake charge",SW+"sign_v2.rs")])

p("L06","Program-scope limits bound decreases of the scoped balance",
 "For a role with a program-scope limit on an account, each accepted execution that lowers the numeric balance stored at the scope's byte range is charged exactly the decrease under that role's own limit; decreases above it are rejected with nothing changed, basic scopes are unlimited, and increases are free. Everything else stored in the scoped account, and its owner, stays unchanged. Scope definitions of other roles never change how much the acting role is charged.",
 ["histories","inputs"],"all scope kinds, numeric widths, offsets and multi-role scope configurations over histories of increases and decreases",
 NOT_RUN+"scope tests are feature-gated and use one role.",
 [SW+"sign_v2.rs","state/src/action/program_scope.rs","program/src/lib.rs","program/src/util/mod.rs"],
 [("ProgramScope run/read_account_balance","state/src/action/program_scope.rs"),("classification","program/src/lib.rs")])

p("P01","A limited role can only make the wallet call programs it was granted",
 "In a signed execution by a role without an unrestricted grant, an inner instruction in which the wallet signs succeeds only if the called program is granted to that role: by ProgramAll, by a Program grant naming it, or by ProgramCurated when it is on the curated list (System, Token, Token-2022, Stake); a call to a granted program is not refused for lack of permission. Roles with All or AllButManageAuthority may call any program, and no inner instruction may act on the wallet's own administration with more rights than its signers already have.",
 ["inputs","configurations"],"all permission sets x called programs x batches mixing granted and ungranted programs x wallet-signing or not",
 NOT_RUN+"tests try a handful of programs.",
 [SW+"sign_v2.rs","state/src/role.rs","state/src/action/program.rs","state/src/action/program_all.rs","state/src/action/program_curated.rs"],
 [("program permission gate",SW+"sign_v2.rs")])

p("P02","A limited role cannot corrupt wallet, config or asset-account control",
 "After any accepted execution by a role without an unrestricted grant, the wallet's config account holds the same roles and owner as before (apart from usage bookkeeping of the acting role), the wallet account is still system-owned, data-free and rent-exempt, and every wallet-owned token or stake account passed in keeps its authority, delegate, mint and other non-balance fields. An execution that would change any of these is rejected as a whole.",
 ["inputs","histories"],"all inner instructions a granted program can perform on passed-in accounts: approve, set-authority, assign, allocate, close, rewriting any byte",
 NOT_RUN+"tests sample approve/set-authority once.",
 [SW+"sign_v2.rs","program/src/util/mod.rs"],
 [("snapshot hashes and post checks",SW+"sign_v2.rs")])

p("C01","Signed executions run exactly the encoded instructions with no extra rights",
 "The inner instructions executed are exactly those encoded in the signed payload, in order, with the encoded program, accounts and data; the only signature added beyond the transaction's own signers is the wallet's (or sub-account's) own address; writable rights never exceed those of the outer instruction. If any inner instruction fails, the whole execution has no effect; encodings that are truncated or name accounts out of range are rejected without effect. A signed execution works only as an instruction of the transaction itself: brought by another program's call it is refused.",
 ["inputs"],"all encodable batches of inner instructions and account lists, plus byte-level corruptions of them",
 "compact-instruction tests do not exist in the stable suite; program tests use one or two inner transfers.",
 ["instructions/src/lib.rs","instructions/src/compact_instructions.rs",SW+"sign_v2.rs",SW+"sub_account_sign_v1.rs",SW+"sub_account_sign_v2.rs"],
 [("InstructionIterator / InstructionHolder::execute","instructions/src/lib.rs")])

p("C02","Compacting instructions is lossless",
 "Compacting any list of instructions within the format's capacity (at most 255 instructions, 256 combined accounts, 255 accounts and 65535 data bytes per instruction) and reading the compact form back with the resulting account list yields the same programs, accounts, order and data for every instruction, with every account's index valid and the wallet/config placeholders preserved at their fixed positions. An account is marked writable in the combined list whenever any instruction needs it so, and an account the compaction adds is marked signer whenever any instruction needs it so; no account gains a right that neither the caller nor an instruction asked for. A truncated or altered compact form is read as an error or as exactly what an independent reader of the format sees.",
 ["inputs"],"all instruction lists within the format's capacity (accounts, data sizes, duplicates, shared accounts)",
 "no stable test covers the client-side encoder.",
 ["instructions/src/compact_instructions.rs","instructions/src/lib.rs"],
 [("compact_instructions","instructions/src/compact_instructions.rs"),("CompactInstructions::into_bytes","same")])

p("S01","A V1 sub-account obeys only its own role and can be switched off",
 "A V1 sub-account can be used for signing only by the role it was created for, only while enabled, and only for that wallet's own sub-account address; it lives at the one address derived for that role and is created only by a role holding a sub-account grant that is not used yet. Disabling it (by a manager or that role) makes signing and role-holder withdrawal fail until it is re-enabled. A role holding All (without the narrower manage-authority grant) can withdraw from the sub-account of every role of the wallet, whatever that role's id.",
 ["histories","inputs"],"all histories of create/toggle/sign/withdraw over several roles and wallets with swapped accounts",
 NOT_RUN+"tests use a single role and wallet at a time.",
 [SW+"create_sub_account_v1.rs",SW+"sub_account_sign_v1.rs",SW+"toggle_sub_account_v1.rs","state/src/action/sub_account.rs"],
 [("SubAccount action match","state/src/action/sub_account.rs")])

p("S02","V2 sub-account operations need a grant scoped to that sub-account",
 "Create, sign, withdraw and toggle on a V2 sub-account each succeed only if the acting role holds the matching all-sub-accounts or this-sub-account grant; no other permission (including All) substitutes, and a grant for one sub-account or operation never enables another. Operations only touch the sub-account that belongs to the same wallet and id, and never another wallet's.",
 ["inputs","histories","configurations"],"all grant sets x operations x sub-account ids x wallets, with state and asset accounts swapped between wallets and ids",
 NOT_RUN+"tests cover selected grant/operation pairs.",
 [SW+"create_sub_account_v2.rs",SW+"sub_account_sign_v2.rs",SW+"toggle_sub_account_v2.rs",SW+"withdraw_from_sub_account_v2.rs","state/src/action/sub_account_v2.rs"],
 [("scoped grants","state/src/action/sub_account_v2.rs")])

p("S03","V2 sub-account ids are unique and the off switch always works",
 "Each V2 sub-account creation uses the wallet's next id exactly once, ids are never reused over the wallet's life, and the new sub-account starts enabled with its addresses recorded. While a V2 sub-account is disabled nothing can be signed for or withdrawn from it; toggling changes only its enabled flag, and creating or toggling never alters any other sub-account or role (other than granting the creator).",
 ["histories"],"all histories of create/toggle/sign/withdraw over several sub-accounts, interleaved with role changes and migrations",
 NOT_RUN+"tests follow single short histories.",
 [SW+"create_sub_account_v2.rs",SW+"toggle_sub_account_v2.rs","state/src/sub_account_v2.rs",SW+"migrate_to_wallet_address_v1.rs"],
 [("sub_account_counter","state/src/swig.rs"),("SubAccountV2 state","state/src/sub_account_v2.rs")])

p("S04","Sub-account withdrawals go only to the parent wallet, in the exact amount",
 "A withdrawal from a V1 or V2 sub-account moves exactly the requested amount of SOL or tokens from that sub-account to the parent wallet's own address or token account, and nothing anywhere else. A withdrawal that names another destination, exceeds the balance, would leave the sub-account below rent exemption without emptying what is allowed, or uses a wrong token program or account fails without effect.",
 ["inputs","histories"],"all amounts incl. boundaries, SOL and token paths, substituted destinations, sources, token programs and authorities",
 NOT_RUN+"tests use one amount and honest accounts.",
 [SW+"withdraw_from_sub_account_v1.rs",SW+"withdraw_from_sub_account_v2.rs"],
 [("withdraw",SW+"withdraw_from_sub_account_v*.rs")])

p("W01","A wallet is created once, at its own addresses, with exactly the root given",
 "Creation succeeds only at the canonical address derived from the wallet id and with the canonical wallet address of that account, only for an account that does not exist yet, and only with a root role able to manage authorities; the result holds exactly the id, root authority and actions supplied and both accounts are rent-exempt. One wallet id can never yield two wallets, and addresses that merely hold some SOL beforehand can still be created.",
 ["inputs","histories"],"all ids, bumps (canonical and not), root authority kinds and action sets, prefunded and occupied addresses",
 NOT_RUN+"tests pass canonical bumps and fresh addresses.",
 [SW+"create_v1.rs","assertions/src/lib.rs","state/src/lib.rs"],
 [("create_v1",SW+"create_v1.rs"),("PDA checks","assertions/src/lib.rs")])

p("W02","Migration and asset transfer keep ownership and move everything once",
 "Migrating an old-format wallet records its canonical wallet address, keeps every role, costs the payer at most what the wallet address lacks of its rent, and can happen only once; a wallet in the new format cannot be migrated again. Asset transfer moves SOL above rent and named token balances from the old config address to the same wallet's own address only, never elsewhere, and leaves the config account rent-exempt and unchanged.",
 ["inputs","histories"],"all old/new format wallets, bumps, account substitutions, balances and repeated calls",
 NOT_RUN+"tests migrate one wallet once.",
 [SW+"migrate_to_wallet_address_v1.rs",SW+"transfer_assets_v1.rs"],
 [("migrate",SW+"migrate_to_wallet_address_v1.rs"),("transfer_assets",SW+"transfer_assets_v1.rs")])

p("W03","Closing returns everything to the permitted destination and is final",
 "Closing a wallet requires an empty wallet (no more than its rent) and pays all lamports of both accounts to the destination, which must be the rent claimer when one is set; the config account is left marked closed, so no instruction can use it or recreate a wallet at that id afterwards. Closing a token account requires a zero balance, closes only accounts the wallet controls, and pays the rent to the same permitted destination.",
 ["inputs","histories"],"all balances, destinations, rent-claimer settings, token account states, and every instruction attempted after close",
 NOT_RUN+"tests check a few follow-ups after close.",
 [SW+"close_swig_v1.rs",SW+"close_token_account_v1.rs","program/src/lib.rs"],
 [("close",SW+"close_swig_v1.rs"),("close token account",SW+"close_token_account_v1.rs")])

p("W04","The rent claimer is set once and survives every later operation",
 "A rent claimer can be set only once per wallet, to a non-zero address that is neither the wallet's config nor its wallet address, and afterwards no instruction changes or removes it: after any history of role changes, sessions, updates, replacements and sub-account creations the stored claimer is intact and still enforced on close. Setting it does not change any role.",
 ["histories"],"all histories of account-resizing operations after the claimer is set",
 "state tests cover the tail codec on static accounts; program-level interaction with role growth and shrink is not exercised.",
 [SW+"set_rent_claimer_v1.rs","state/src/tail/mod.rs","state/src/tail/rent_claimer.rs","state/src/swig.rs"],
 [("tail TLV","state/src/tail/*.rs")])

p("W05","Wallet administration moves only the rent it must",
 "Account-resizing operations (adding, updating, replacing, removing roles, setting the claimer, creating sub-accounts) leave the config account rent-exempt; lamports move only between the payer and the accounts being resized or created, growth costs the payer at most the rent shortfall, and the wallet's own funds are never used. Read-only and failing operations move no lamports.",
 ["histories","inputs"],"all histories of resizing operations with over- and under-funded config accounts",
 NOT_RUN+"tests do not check lamport conservation.",
 [SW+"add_authority_v1.rs",SW+"update_authority_v1.rs",SW+"replace_authority_v1.rs",SW+"remove_authority_v1.rs",SW+"set_rent_claimer_v1.rs"],
 [("realloc + rent transfer",SW+"*.rs")])

p("R01","Hostile bytes never cause memory errors or out-of-bounds access",
 "For any instruction data, account list, account contents and stored wallet bytes, the program and the state/instruction parsing libraries either succeed or return an error (or abort the transaction): they never read or write outside the buffers they were given, never use uninitialised or dangling memory, and never report success on account data that is not a valid wallet account.",
 ["inputs"],"all byte strings and account lists offered to any entry point or parser",
 "ordinary tests do not observe out-of-bounds reads; they need sanitizers/UB interpreters and hostile inputs.",
 ["state/src/*.rs","state/src/authority/**","state/src/action/**","instructions/src/lib.rs","program/src/**"],
 [("load_unchecked / raw pointer casts","state/src/transmute.rs and users"),("get_unchecked uses","program/src/actions/*.rs")])

p("R02","Program-exec authority accepts only the exact preceding instruction",
 "A program-exec role is authenticated only by an instruction earlier in the same transaction, at the named position, of the configured program, whose data starts with the configured prefix and whose first two accounts are the first two accounts of the wallet instruction itself (the config account and the account after it); later, missing, differently prefixed or differently addressed instructions never authenticate. The sysvar consulted must be the genuine instructions sysvar.",
 ["inputs"],"all transactions with candidate instructions at every position, prefix length, data and account list",
 "state tests build few fixed sysvar layouts.",
 ["state/src/authority/programexec/mod.rs","state/src/authority/programexec/session.rs"],
 [("authenticate","state/src/authority/programexec/mod.rs")])

p("R03","A passkey signature counts only for the exact challenge it signed",
 "A secp256r1 role is authenticated only if the verification instruction right before the wallet instruction verified the role's own public key over this instruction's message, either directly or through a WebAuthn assertion of the right type whose authenticator data and client data contain exactly this message's challenge. Any other key, message, challenge, assertion type, position or malformed assertion is rejected; every well-formed assertion in a supported format is accepted.",
 ["inputs"],"all WebAuthn client-data texts (field order, whitespace, escapes, origins), authenticator data, huffman encodings and precompile layouts",
 "unit tests cover fixed samples of the parser.",
 ["state/src/authority/secp256r1.rs"],
 [("webauthn_message / precompile parsing","state/src/authority/secp256r1.rs")])

p("R04","The client library builds instructions the program accepts and means the same",
 "For every operation offered by the Rust instruction builders, the instruction they build for given parameters is accepted by the program when the parameters are legal, whether or not the payer also pays the transaction fee, and has exactly the requested effect: same wallet, role, actions, authority, amounts, sub-account and destination. It demands no signature the operation has no use for. Addresses computed by the client equal those the program derives.",
 ["inputs"],"all builder functions with random legal parameters over all authority kinds they support",
 "interface and SDK tests do not build in this checkout.",
 ["interface/src/lib.rs","interface/src/replace_authority.rs"],
 [("instruction builders","interface/src/lib.rs")])

p("R05","Stored structures encode and decode losslessly with fixed layouts",
 "Every stored structure (wallet header, role position, action, authority of each type, sub-account state, rent-claimer record) decodes to the value that was encoded, has the documented size and field offsets with no hidden padding, decoding refuses buffers of the wrong size, and the eight-byte alignment of account data suffices for it. A wallet written by the state library reads back role by role and action by action as written, and each role is found by its own credential. Structures with hidden padding are refused at compile time by the padding guard.",
 ["inputs"],"all field values of all stored structures, and all buffer lengths around the expected size",
 "unit tests round-trip a few samples for some structures.",
 ["state/src/transmute.rs","state/src/swig.rs","state/src/action/*.rs","state/src/authority/*.rs","state/src/sub_account_v2.rs","state/src/tail/*.rs","no-padding/src/lib.rs"],
 [("Transmutable","state/src/transmute.rs"),("NoPadding derive","no-padding/src/lib.rs")])

p("R06","The SDK's roles build, for every operation, what the program expects of them",
 "Every operation of every signing role of the SDK (key, secp256k1, passkey, their session forms, and program-exec) gives instructions that the program accepts when the operation is legal and that have exactly the requested effect: the actor is the role itself, proving itself with the key the operation needs (the live session key for the ordinary operations of a session role), at its next signature counters even when several instructions are signed at once. A credential passed to an operation ends up stored as given. What a role cannot do is refused by the SDK with an error instead of being built.",
 ["inputs"],"all operations of all seven role kinds with random legal parameters, several instructions signed at once, any signature counter",
 "the SDK does not build offline, and its tests sample one call each.",
 ["rust-sdk/src/client_role.rs","rust-sdk/src/instruction_builder.rs","rust-sdk/src/types.rs"],
 [("ClientRole implementations","rust-sdk/src/client_role.rs"),("SwigInstructionBuilder","rust-sdk/src/instruction_builder.rs")])

p("R07","The SDK reports a wallet's roles and permissions as they are stored",
 "Permissions handed to the SDK become exactly the actions they stand for, in both update forms and action types, and the permissions it reports of a stored role are exactly the role's actions, none missing and none invented, whatever the role has used of them. Opening an existing wallet finds the role of the given authority, of every type, without sending anything. Every query of the wallet object and of the SDK's helpers (role ids, authority types and identities, session flags, permission tests, SOL limits, signature counters, sub-accounts, counts and addresses) agrees with the stored account, and reports absence as absence.",
 ["inputs"],"all permission kinds, any stored wallet of up to seven roles of all eight types with used limits, old ids and removed roles; roles of all seven types the SDK acts for",
 "the SDK does not build offline; its tests read one small wallet each.",
 ["rust-sdk/src/types.rs","rust-sdk/src/wallet.rs","rust-sdk/src/utils.rs"],
 [("Permission","rust-sdk/src/types.rs"),("SwigWallet queries","rust-sdk/src/wallet.rs")])

p("R08","The SDK's wallet object does what it says and stays in step with the chain",
 "Every operation of the wallet object sends one transaction, signed by everyone it needs and paid by the chosen fee payer, that changes the chain exactly as the operation it stands for would; it succeeds exactly when the program accepts that operation, and an operation reported as failed has changed nothing. After every operation, failure, switch of authority or payer, and refresh, what the object remembers of its role (id, type, identity, permissions, session flag and signature counter) is what the account stores, so the next operation is signed correctly.",
 ["history"],"any history of the wallet's operations with several roles of all types, legal and illegal, lost transactions, sessions opened and expired, use of the same role elsewhere between operations",
 "the SDK does not build offline; its tests follow one short path each, and the drift shows only after particular sequences.",
 ["rust-sdk/src/wallet.rs","rust-sdk/src/instruction_builder.rs","rust-sdk/src/client_role.rs","interface/src/lib.rs"],
 [("SwigWallet","rust-sdk/src/wallet.rs"),("SwigInstructionBuilder","rust-sdk/src/instruction_builder.rs")])

p("R09","The command-line client does what it is told or changes nothing",
 "A command or a dialogue that the client reports as done has sent one transaction, paid by the chosen fee payer, that changed the wallet exactly as its words say: the authority of the given type and key, the given permissions with their amounts, windows and addresses, the given update form and indices, the given amount and recipient. A well-formed request that the program accepts succeeds, in every form a key can be written in. Malformed permissions, keys and types, and whatever the program refuses, change nothing and are reported as errors. What it answers to questions (role ids, balances) is what the accounts hold. Key pairs it generates belong together. After a switch of authority, the named role is the one that acts.",
 ["inputs"],"all subcommands and dialogues with random legal and malformed words over wallets of several roles; every key type the client reads",
 "the CLI does not build offline and has no tests.",
 ["cli/src/main.rs","cli/src/commands.rs","cli/src/interactive.rs"],
 [("run_command_mode","cli/src/commands.rs"),("run_interactive_mode","cli/src/interactive.rs"),("format_authority","cli/src/main.rs")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
