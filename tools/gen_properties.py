#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text of each property lives here."""
import json, os
P = []
PROC = "program/src/processor.rs"
LIB = "program/src/lib.rs"
IX = "program/src/instruction.rs"
META = "program/src/metadata.rs"
MPX = "program/src/metaplex.rs"
CUST = "program/src/mint_customizer/default_token_2022.rs"

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(
            files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("P01", "Wrapped supply is always fully backed by the escrow",
 "For every wrapped mint, at every point of every history of instructions (wrap, unwrap, mint creation, escrow closing, metadata syncs and plain token operations, honest or hostile, except seizures by an unwrapped mint's own permanent delegate), the unwrapped tokens held in that mint's escrow are at least the wrapped mint's supply. The surplus is exactly what was sent to the escrow outside of wrapping or burned outside of unwrapping: no sequence of token-wrap instructions creates or destroys backing.",
 ["histories", "inputs", "configurations"],
 "all interleavings of instructions by several users over several wrapped mints sharing an unwrapped mint, all four token-program pairings, fee-charging mints over epoch changes, nested wrapping, donations to the escrow, direct burns, failed and hostile instructions in between",
 "Unit tests run one wrap or one unwrap from hand-packed accounts and look at that single result; none accumulates supply against escrow over a history.",
 [PROC, LIB], [("wrap transfers into escrow before minting", PROC+" process_wrap"), ("unwrap burns before releasing", PROC+" process_unwrap")],
 [("escrow amount", "unwrapped tokens locked", "escrow ATA token account"), ("wrapped supply", "claims outstanding", "wrapped mint")],
 ["account states after every instruction"])

prop("P02", "Wrap mints exactly what the escrow received",
 "When wrapping N tokens succeeds, the source account loses exactly N, the escrow's balance grows by exactly N minus the transfer fee the unwrapped mint charges in the current epoch, and the recipient's wrapped balance and the wrapped supply grow by exactly that same amount. No other token balance changes.",
 ["inputs", "configurations"],
 "all amounts from 1 to 2^64-1, decimals, fee rates and caps (including 0%, 100% and fee schedules switching at an epoch boundary), token-program pairings, accounts with extensions, native mint",
 "Tests fix one amount and one fee schedule (or none) per case; rounding, caps, epoch boundaries and extreme amounts are not sampled.",
 [PROC], [("fee computed at the current epoch and checked by the token program", PROC+" process_wrap")],
 [("TransferFeeConfig", "older/newer fee by epoch", "unwrapped mint")], ["token balances and mint supply before/after wrap"])

prop("P03", "Unwrap burns and releases exactly the same amount",
 "When unwrapping N tokens succeeds, the wrapped source account and the wrapped supply shrink by exactly N, the escrow's balance shrinks by exactly N, and the recipient receives N minus only the transfer fee the unwrapped mint charges in the current epoch. No other token balance changes.",
 ["inputs", "configurations", "histories"],
 "all amounts, fee schedules, pairings, delegated burns, partial and full redemptions at any point of a history",
 "Tests check a single fixed amount with mostly fee-less mints.",
 [PROC], [("burn then transfer of the same amount", PROC+" process_unwrap")],
 [("escrow amount", "unwrapped tokens locked", "escrow ATA")], ["token balances and supply before/after unwrap"])

prop("P04", "Tokens move only with the holder's authority",
 "A wrap takes tokens from an account, and an unwrap burns tokens of an account, only if that account's owner, or its delegate within the delegated allowance (or the mint's permanent delegate), signed the instruction, or (when the owner or delegate is a multisig) at least the required number of distinct members of that multisig signed. Anything less leaves every balance unchanged.",
 ["inputs", "configurations"],
 "all signer subsets of owners, delegates, strangers, other accounts' owners and m-of-n multisigs (1<=m<=n<=11), duplicated, reordered and foreign signers, frozen accounts, exhausted allowances, on both legs and all token-program pairings",
 "Tests use one valid 2-of-3 multisig and one missing signer case; subsets, delegates, duplicates and foreign signers are not explored.",
 [PROC], [("signatures are passed on to the token program", PROC+" process_wrap/process_unwrap"), ("multisig accounts forwarded", PROC+" process_unwrap")],
 [], ["result and balances of each signed attempt"])

prop("P05", "Wrap and unwrap bind every account to one mint pair",
 "A wrap or unwrap succeeds only if the wrapped mint, its authority and the escrow are the ones derived for exactly the presented unwrapped mint and token programs, and the token accounts belong to those mints. Substituting any one of them (another pair's mint, authority or escrow, a look-alike account, a fake token program, a different token account of the same authority) is rejected with every balance unchanged, unless the substitute is an equally valid choice of the signer's own source or of the recipient.",
 ["inputs", "configurations"],
 "every account slot replaced by every other account of a multi-pair world, including attacker-made look-alikes, attacker programs posing as token programs, non-associated token accounts owned by the same authority and cross-slot swaps of two accounts",
 "Tests substitute a handful of slots with random keys one at a time; cross-pair and look-alike substitutions that would really steal value are not enumerated.",
 [PROC, LIB], [("PDA and ATA address checks", PROC+" process_wrap/process_unwrap"), ("escrow owner check", PROC+" process_wrap")],
 [], ["result and all balances of each substituted call"])

prop("P06", "Honest holders can always wrap and redeem",
 "Whenever the accounts are the documented ones and the underlying token programs would allow the transfer, burn and mint, wrapping and unwrapping succeed; wrapping and then unwrapping the same amount of a fee-less mint restores every balance exactly. This holds for all four token-program pairings, associated and plain token accounts, owners, delegates and multisigs, transfer hooks, transfer fees, nested wrapped mints and extension-bearing accounts.",
 ["inputs", "histories", "configurations"],
 "all combinations of pairing, account kind, authority kind, mint extension set, amounts up to balances, any redemption order among several holders",
 "Tests cover a few hand-picked combinations and never a round trip.",
 [PROC, IX], [("both legs are delegated to the token programs with all extra accounts", PROC+" process_wrap/process_unwrap")],
 [], ["result and balances of each honest operation"])

prop("P07", "The program's authority is never lent to untrusted programs",
 "The signing power of a wrapped mint's authority address is used only in calls to the two real token programs and to the Metaplex metadata program, never in a call to any other program. A third-party metadata program that is consulted during a sync receives only its metadata account, read-only and unsigned; so no hostile program called along the way (metadata program, transfer hook, fake token program) can mint wrapped tokens, move escrowed tokens or alter wrapped metadata.",
 ["inputs", "programs"],
 "every instruction with attacker-supplied programs in every program slot and attacker programs that inspect, re-enter, and try to reuse whatever privilege they are handed",
 "Tests use two benign helper programs; none observes privileges passed across program calls or attempts an attack.",
 [PROC, META], [("emit call passes only the metadata account and no seeds", META+" cpi_emit_and_decode"), ("seeds used only for token and Metaplex calls", PROC)],
 [("wrapped mint authority", "PDA that can mint and move escrow", LIB)], ["cross-program call trace with signer and writable flags"])

prop("P08", "A created wrapped mint mirrors its unwrapped mint",
 "After mint creation succeeds, the wrapped mint is an initialized mint of the requested token program at the derived address with zero supply, the unwrapped mint's decimals and freeze authority (present or absent), and the derived authority as its only mint authority. Under Token-2022 it carries exactly a confidential-transfer configuration with no authority, automatic approval and no auditor, and a metadata pointer to itself controlled by the derived authority; under SPL Token it has no extensions; and the backpointer account holds exactly the unwrapped mint's address and is owned by the token-wrap program.",
 ["inputs", "configurations"],
 "all decimals 0-255, freeze authority present or absent, unwrapped mints of both programs with any extension set, supply and state, both wrapped token programs, under- and over-funded target accounts",
 "Tests check one mint with fixed decimals and one freeze authority per program.",
 [PROC, CUST, "program/src/state.rs"], [("customizer decides extensions, decimals and freeze authority", CUST), ("backpointer write", PROC+" process_create_mint")],
 [("Backpointer", "unwrapped mint address", "program/src/state.rs")], ["created accounts"])

prop("P09", "Mints are created once, at derived addresses, for genuine mints only",
 "Mint creation succeeds only if the requested token program is SPL Token or Token-2022, the target mint and backpointer are the addresses derived for the unwrapped mint and token program, the unwrapped mint is an initialized mint owned by one of the two token programs, and both targets are funded for rent exemption. Creating again fails unless idempotent creation was requested, and an idempotent repeat succeeds without changing any account.",
 ["inputs", "histories"],
 "all substitutions of the five accounts, fake or uninitialized unwrapped mints, every funding level around the exemption threshold for both accounts, repeats at any later point of a history (after wrapping, syncing, burning)",
 "Tests try single wrong addresses and one repeat on fresh state.",
 [PROC], [("PDA, owner, emptiness and rent checks", PROC+" process_create_mint")],
 [], ["result and account states of each attempt"])

prop("P10", "A deployed pair's identity never changes",
 "Once a wrapped mint exists, no later sequence of token-wrap instructions changes its mint authority, freeze authority, decimals, token program, confidential-transfer configuration or metadata pointer, nor the backpointer's content and owner, nor the owner, mint, delegate or close authority of the escrow while it exists. Wrapped supply changes only by wrap and unwrap.",
 ["histories", "inputs"],
 "arbitrary histories mixing all seven instructions with hostile account orderings, aliases and data, from many users",
 "Tests never run a second instruction against accounts an earlier one created.",
 [PROC], [("no instruction other than creation writes these fields", PROC)],
 [], ["full wrapped mint, backpointer and escrow states after every instruction"])

prop("P11", "Only an empty, unfrozen, incompatible escrow can be closed",
 "Closing an escrow succeeds only on the escrow derived for the presented wrapped mint, whose unwrapped mint is a Token-2022 mint, and only while the escrow holds zero tokens, is not frozen, is owned by the wrapped mint's authority, and its extensions differ from those its mint now requires of token accounts (always including immutable ownership). A healthy escrow, a funded escrow, and any other token account are never closed or changed.",
 ["inputs", "configurations", "histories"],
 "all pairs of old and new mint extension sets, escrow balances, states and owners, substituted accounts, mints re-created at the same address",
 "Tests use one stuck configuration and a few single rejections.",
 [PROC], [("extension comparison, balance and state checks", PROC+" process_close_stuck_escrow")],
 [], ["result and escrow before/after each close attempt"])

prop("P12", "A stuck escrow can always be recovered",
 "Whenever an unwrapped Token-2022 mint was closed and re-created with different extensions so that its empty, unfrozen escrow no longer fits, closing the stuck escrow succeeds, moves the escrow's entire lamport balance to the chosen destination, and afterwards the escrow can be created anew and wrapping and unwrapping work against it. This holds for wrapped mints of either token program and without anyone's signature.",
 ["configurations", "histories"],
 "all pairs of extension sets of old and new mint that require different token-account extensions (fewer, more, same number but different), any rent and surplus lamports, both wrapped token programs",
 "One stuck case is tested, without the recreate-and-wrap continuation.",
 [PROC], [("required extensions derived from the mint", PROC+" process_close_stuck_escrow")],
 [], ["close, recreate, wrap and unwrap outcomes"])

prop("P13", "Metadata comes only from the mint's authoritative source",
 "A metadata sync uses only the source the unwrapped mint itself designates: for an SPL Token mint, or a Token-2022 mint without metadata pointer, the Metaplex account derived from that mint; otherwise the account its metadata pointer names (itself, a Metaplex account, or an account of a third-party program that is asked through that very program). Any other supplied source account (unless the mint describes itself, when none is consulted), impostor program, answer from a different program, unset pointer, pointer to another Token-2022 account, or unparsable source makes the sync fail and leaves the wrapped mint's metadata unchanged.",
 ["inputs", "programs", "configurations"],
 "all pointer states crossed with all supplied source/owner-program accounts, forged Metaplex-looking accounts, other mints' genuine Metaplex accounts, hostile third-party programs that return nothing, garbage, truncated data, or set return data through another program",
 "Tests cover each branch with one honest and one wrong account.",
 [META, PROC], [("pointer resolution", META+" resolve_token_2022_source_metadata"), ("Metaplex owner and address checks", META+" read_metaplex_for_mint"), ("return data program check", META+" cpi_emit_and_decode")],
 [], ["wrapped metadata before/after each sync attempt"])

prop("P14", "Syncing to Token-2022 yields an exact copy of the source",
 "After a successful sync to a Token-2022 wrapped mint, its on-mint metadata has the source's name, symbol and URI and exactly the source's additional fields (no missing, stale or extra key; of a key the source repeats, one of its values), whatever metadata it held before, and a further sync with an unchanged source (that repeats no key) changes nothing. For a Metaplex source the additional fields are exactly the documented set: account key, seller fee, primary-sale and mutability flags, and, when present, creators, edition nonce, token standard, collection, uses, collection details and programmable config.",
 ["inputs", "histories"],
 "all source kinds, all string lengths and contents, all additional-field sets (added, changed, removed, renamed, reordered, empty, keys named like base fields), any sequence of source edits and syncs",
 "Tests do a few fixed before/after pairs.",
 [PROC, MPX], [("initialize or update-changed-and-remove-stale", PROC+" process_sync_metadata_to_token_2022"), ("field conversion", MPX+" metaplex_to_token_2022_metadata")],
 [], ["decoded wrapped mint metadata after each sync"])

prop("P15", "Syncing to an SPL Token mint yields a faithful Metaplex copy",
 "After a successful sync to an SPL Token wrapped mint, the wrapped mint's Metaplex account exists at its derived address with the source's name, symbol and URI and, when the source provides them, its seller fee, creators (addresses and shares), collection address and uses; fields the source lacks are empty or zero. This holds on first creation and on every later update, and the account stays mutable under the wrapped mint's authority so that it can be synced again.",
 ["inputs", "histories"],
 "all source kinds and field combinations within Metaplex's own limits, any sequence of source edits and syncs, malformed values for known keys (which must fail without change), unknown keys (which must be ignored)",
 "Tests check a few fixed conversions.",
 [PROC, MPX], [("create or update", PROC+" process_sync_metadata_to_spl_token"), ("conversion", MPX+" token_2022_metadata_to_metaplex")],
 [], ["decoded Metaplex account after each sync"])

prop("P16", "Synced metadata carries no endorsement and no foreign control",
 "Metadata written for a wrapped mint never claims verified creators or a verified collection on an SPL Token wrapped mint's Metaplex account, and never claims verified creators on a Token-2022 wrapped mint synced from a Metaplex account, even if the source has them verified; a source with such endorsements is still synced, with the endorsements dropped. The update authority of the written metadata is always the wrapped mint's own authority and the described mint is always the wrapped mint itself, never the source's authority or mint.",
 ["inputs", "histories"],
 "all source kinds with any mixture of verified creators and collections, foreign update authorities and mint fields, first syncs and updates",
 "Two tests check creators on one conversion; collections and later updates are not covered.",
 [MPX, PROC], [("verification flags cleared", MPX), ("authority PDA passed as update authority", PROC)],
 [], ["decoded metadata after each sync"])

prop("P17", "Only the mint's authority sets the canonical deployment pointer",
 "A mint's canonical deployment pointer is created or changed only by an instruction signed by the current mint authority of that initialized, token-program-owned mint, and only at the address derived from that mint; afterwards it holds exactly the given program address and is owned by the token-wrap program. Every other attempt, including mints without authority, stale authorities, freeze authorities, look-alike mints and another mint's pointer, leaves all pointers unchanged.",
 ["inputs", "histories"],
 "histories of authority changes, revocations and pointer updates over several mints of both programs, all account substitutions and signer omissions, all funding levels",
 "Tests set one pointer and reject a few fixed mistakes.",
 [PROC], [("signer, owner, authority and address checks", PROC+" process_set_canonical_pointer")],
 [("CanonicalDeploymentPointer", "program address", "program/src/state.rs")], ["pointer account after every attempt"])

prop("P18", "Instruction encoding is strict, lossless and stable",
 "Each instruction has exactly one byte encoding (one tag byte 0-6 followed by its fixed-size argument, integers little-endian): encoding then decoding returns the same instruction, and every other byte string (unknown tag, missing, extra or out-of-range bytes) is rejected as invalid instruction data, on-chain before any account is looked at. No amount or address is ever decoded to a different value than was encoded.",
 ["inputs"],
 "all byte strings up to 64 bytes and all argument values, through the library and through the deployed program",
 "Tests round-trip one value per instruction and reject a few short strings.",
 [IX], [("pack/unpack", IX)], [], ["library decode result, on-chain error and effect"])

prop("P19", "Derived addresses are unique and agree everywhere",
 "The library's address helpers, the per-deployment variants and the on-chain program all derive the documented addresses: wrapped mint from unwrapped mint and token program, authority and backpointer from wrapped mint, canonical pointer from unwrapped mint, and escrow as the authority's associated token account. Distinct (mint, token program, deployment) inputs never share any of these addresses, the returned addresses are off-curve, and the seed helpers reproduce exactly the same address.",
 ["inputs"],
 "random and structured mints (including mints that are themselves derived addresses), both token programs, arbitrary deployment program ids",
 "Tests compare helpers with themselves on single random keys.",
 [LIB], [("seed helpers", LIB)], [], ["helper outputs vs independent derivation, and on-chain acceptance"])

prop("P20", "Hostile input is rejected cleanly, never by a crash",
 "Whatever instruction bytes, accounts (missing, duplicated, aliased, reordered, foreign-owned, garbage-filled) and signer or writable flags are submitted, the program ends with success or a well-defined program or runtime error. It never panics or aborts, except that a malformed metadata source claiming absurd lengths may exhaust the heap of the decoder, which also rejects it.",
 ["inputs"],
 "coverage-diverse random and mutated instructions over reachable and attacker-made account states",
 "Tests submit well-formed accounts with a single defect.",
 [PROC, META, MPX, IX], [("checked parsing, error returns", PROC)], [], ["termination kind of every execution"])

prop("P21", "Each documented mistake gets its documented error",
 "A call that is valid except for one documented mistake fails with that mistake's own error code: zero amount, wrong wrapped mint, wrong authority, wrong backpointer, wrong escrow, escrow not owned by the authority, foreign-owned wrapped mint or backpointer on idempotent creation, healthy escrow, wrong Metaplex account, unset or mismatched metadata pointer, silent metadata program, or syncing a Token-2022 mint as if it were an SPL Token mint. The numeric codes 0 to 15 keep their published meaning and order.",
 ["inputs", "configurations"],
 "every documented mistake injected into otherwise valid random calls of every instruction it applies to, all pairings",
 "Tests provoke each error once in one configuration, some not at all.",
 [PROC, META, "program/src/error.rs"], [("error enum", "program/src/error.rs")], [], ["error code of each single-fault call"])

prop("P22", "Lamports are never taken or created along the way",
 "No token-wrap instruction lowers the lamports of any account (beyond those that are wrapped SOL tokens moved by a wrap or unwrap) except the closed escrow (all of which go to the chosen destination) and, in the Metaplex sync, the wrapped mint's authority address acting as payer. Every account an instruction creates is rent-exempt afterwards, and an under-funded creation fails instead of taking lamports from elsewhere.",
 ["inputs", "histories"],
 "all instructions with random funding levels, surplus lamports and wealthy bystander accounts in every slot",
 "Tests never compare lamports across the whole account set.",
 [PROC], [("pre-funding requirement", PROC+" process_create_mint/process_set_canonical_pointer"), ("authority as payer", PROC+" process_sync_metadata_to_spl_token")],
 [], ["lamports of all accounts before/after every instruction"])

prop("P23", "Transfer hooks run exactly once per wrap or unwrap",
 "When the unwrapped mint has a transfer hook, every successful wrap and every successful unwrap calls that hook exactly once, with the mint, source, destination, authority and amount of the real escrow transfer and with all its required extra accounts; a hook that refuses makes the whole operation fail with no balance change. Without the required hook accounts the operation fails.",
 ["inputs", "configurations", "programs"],
 "hooks with 0 to several extra accounts (fixed, seed-derived, signer and writable flags), accepting, refusing and hostile hooks, fee-charging hook mints, multisig owners combined with hook accounts, both directions and both wrapped token programs",
 "Tests use one counting hook with one extra account.",
 [PROC], [("extra accounts are forwarded to the transfer", PROC+" process_wrap/process_unwrap")],
 [], ["hook invocations recorded by the hook program and call trace"])

prop("P24", "Mint configurations deliver what they declare",
 "A program built with the compliance configuration creates Token-2022 wrapped mints with exactly a permanent delegate, default account state 'initialized', confidential transfers with the published authority, automatic approval and published auditor, and pausability under the published pause authority, with the published freeze authority; one built with the no-extension configuration creates plain mints that keep the unwrapped mint's freeze authority. Both keep the unwrapped mint's decimals, are sized exactly for their extensions, and wrap and unwrap as usual. A fork's own configuration, written against the MintCustomizer trait, is honoured in the same way: its extensions on Token-2022 wrapped mints, its freeze authority and decimals with either token program.",
 ["inputs", "configurations"],
 "all decimals, freeze authorities and unwrapped mint kinds, both wrapped token programs, wrap/unwrap afterwards, pausing in between",
 "Tests check one compliance mint natively; the no-extension configuration and configurations of one's own are untested.",
 ["program/src/mint_customizer/compliance.rs", "program/src/mint_customizer/no_extensions.rs", PROC],
 [("MintCustomizer implementations", "program/src/mint_customizer")], [], ["accounts created by a program built with each configuration"])

prop("P25", "Library-built instructions match the documented accounts",
 "Every instruction builder of the Rust library lists exactly the documented accounts in the documented order with the documented signer and writable flags and no more, appends multisig signers as signers while then not requiring the multisig account itself to sign, and encodes the given arguments. The deployed program accepts each of them for the operation it was built for.",
 ["inputs", "configurations"],
 "random addresses and amounts, 0 to 11 multisig signers, optional accounts present or absent, every builder",
 "Tests use builders as helpers but never check the lists and flags themselves.",
 [IX], [("builder functions", IX)], [], ["built instructions, and their execution on-chain"])

prop("P26", "Other programs can use every instruction",
 "Invoked by another program, every instruction has the same outcome (acceptance or error), changes the same accounts in the same way and makes the same calls as when it is sent directly in a transaction, whether the required signatures come from the transaction or are those of the calling program's own addresses, so that programs can hold, wrap and redeem tokens. A signature that the caller has but does not pass on does not count. Two instructions invoked one after the other by one caller have the effect of the same two in separate transactions. An account that is writable for the sake of another instruction of the transaction changes nothing.",
 ["inputs", "configurations", "histories"],
 "every instruction, accepted or refused, over generated scenes and histories, with signatures of the transaction, of the calling program, or mixed, single or two in one call",
 "Tests always send the instructions directly, with every signature taken for granted.",
 [PROC], [("process_instruction", PROC)], [], ["result, accounts after and CPI trace of the invoked instruction, next to those of the direct one"])

prop("C01", "Dry-run and sign-only never broadcast and report the truth",
 "With the dry-run flag no command-line subcommand submits a transaction to the network, and with the sign-only flag wrap and unwrap neither submit nor simulate one. A dry run reports success exactly when the node's simulation of its transaction succeeded; a failed simulation is a failure (non-zero exit). With --verbose it shows the simulation's log and the compute units it consumed.",
 ["inputs", "fault_sequences", "configurations"],
 "all subcommands and option combinations, simulations that succeed or fail with any error, with and without logs and compute counts, unreliable RPC answers",
 "Tests check one successful dry run per command against a live validator.",
 ["clients/cli/src/common.rs", "clients/cli/src/wrap.rs", "clients/cli/src/unwrap.rs"], [("process_transaction", "clients/cli/src/common.rs"), ("sign_only branches", "clients/cli/src/wrap.rs")],
 [], ["RPC requests received by a recording server, exit status, output"])

prop("C02", "CLI wrap and unwrap move exactly what was asked, where asked",
 "A transaction broadcast by the wrap or unwrap command, executed on-chain, moves exactly the given amount between exactly the given source and recipient (by default, for wrap, the fee payer's associated account of the wrapped mint) of the mint pair belonging to those accounts, is signed by fee payer and transfer authority, and the printed addresses, amount and signatures are those of that transaction. If the network rejects the transaction the command fails.",
 ["inputs", "configurations", "fault_sequences"],
 "all pairings, explicit and defaulted options, separate fee payer and transfer authority, amounts over the full range, output formats, rejected transactions",
 "Tests run a handful of fixed commands against a validator.",
 ["clients/cli/src/wrap.rs", "clients/cli/src/unwrap.rs", "clients/cli/src/common.rs"], [("address resolution and instruction building", "clients/cli/src/wrap.rs")],
 [], ["broadcast transaction bytes executed on the real program; command output"])

prop("C03", "CLI mint creation pays exactly the missing rent",
 "The create-mint command broadcasts one transaction that tops up the wrapped mint and backpointer accounts by exactly what each lacks for rent exemption (nothing if already funded) and creates the pair derived from the given mint and token program; executed on-chain it succeeds and the printed addresses and funded amounts are the real ones. The idempotent flag decides whether an existing pair is accepted or reported as a failure.",
 ["inputs", "configurations"],
 "both token programs, all prior funding levels of both accounts, existing pairs with and without the flag, any rent schedule served by the node, failing account queries",
 "Tests use fresh and one partially funded account.",
 ["clients/cli/src/create_mint.rs"], [("saturating rent difference", "clients/cli/src/create_mint.rs")], [], ["broadcast transaction executed on the real program; command output"])

prop("C04", "CLI addresses are the derived ones; inconsistent input is refused",
 "Every address the command-line tool prints or puts into a transaction (wrapped mint, authority, backpointer, escrow) is the one the program derives for the given mint and token program. Unwrap refuses, before anything is signed or sent, an explicitly given mint or token program that contradicts the accounts it names; token program arguments other than the two supported ones and close-escrow for non-Token-2022 mints are refused as well.",
 ["inputs", "configurations"],
 "random mints of both programs, all token program options, all contradictory option combinations, non-mint and missing accounts",
 "Tests check one mint and one mismatch each.",
 ["clients/cli/src/find_pdas.rs", "clients/cli/src/unwrap.rs", "clients/cli/src/close_stuck_escrow.rs", "clients/cli/src/common.rs"], [("resolve_addresses", "clients/cli/src/unwrap.rs")], [], ["command output, exit status, RPC requests"])

prop("C05", "Offline multisig signatures combine into one valid transaction",
 "When members of a multisig each run wrap or unwrap in sign-only mode with the same arguments and blockhash, every one of them signs the identical message, sign-only output lists exactly the present and absent signers, and the broadcaster given those signatures submits a transaction in which every required signature is present and valid, which the program accepts. A missing or wrong signature never results in a broadcast that claims success.",
 ["inputs", "configurations", "schedules"],
 "m-of-n multisigs, any member order and broadcaster role (payer, member, neither), both commands and token programs, missing, duplicated and foreign presignatures",
 "Tests run one 2-of-3 flow.",
 ["clients/cli/src/wrap.rs", "clients/cli/src/unwrap.rs"], [("null signers, presigners, partial_sign", "clients/cli/src/wrap.rs")], [], ["sign-only outputs, broadcast transaction signatures verified cryptographically and executed"])

prop("C06", "CLI escrow and metadata commands target the right accounts",
 "Create-escrow-account creates the pair's escrow only if it does not exist yet (an existing token account there is an error without the idempotent flag and a no-op with it; lamports at the address alone are not an escrow) and only for genuine mints; close-stuck-escrow closes the pair's escrow to the given destination; and the metadata sync commands present the unwrapped mint's authoritative metadata account, or the account and owner program the caller names, so that each broadcast transaction succeeds on-chain whenever the operation is possible.",
 ["inputs", "configurations"],
 "both token programs, mints with self, external, Metaplex, unset or no metadata pointer, existing and absent escrows, explicit overrides",
 "Tests cover one case per command.",
 ["clients/cli/src/create_escrow_account.rs", "clients/cli/src/close_stuck_escrow.rs", "clients/cli/src/sync_metadata_to_token2022.rs", "clients/cli/src/sync_metadata_to_spl_token.rs"], [("resolve_source_metadata_account", "clients/cli/src/sync_metadata_to_token2022.rs")], [], ["broadcast transactions executed on the real program; output"])

prop("C07", "The CLI follows exactly the settings it was given",
 "Every command-line subcommand talks only to the node named with --url, or else by the configuration file; is paid for and signed by the keypair named with --fee-payer, or else by the configuration file; and reads the configuration file named with --config, or else the one in the user's home directory. It writes no file, tells nobody a secret key, and prints its result in the requested format: with the JSON formats a successful command's standard output is one JSON document (on one line for json-compact), with quiet it is empty, and a failed command prints no result there. The names of clusters (mainnet-beta, testnet, devnet and localhost, or the first letter of one) stand for those clusters. Settings that contradict each other or that cannot be read make it fail before any node is contacted.",
 ["inputs", "configurations"],
 "every subcommand, every combination of places for the settings, other nodes, keys and configuration files lying around, unreadable and contradictory settings",
 "Tests always pass one complete configuration file.",
 ["clients/cli/src/config.rs", "clients/cli/src/cli.rs", "clients/cli/src/output.rs"], [("Config::new", "clients/cli/src/config.rs"), ("println_display, format_output", "clients/cli/src/output.rs")], [], ["nodes contacted, signers of the transactions, files, standard output"])

prop("C08", "The CLI stays truthful and safe while others use the chain",
 "Whatever other people's transactions land between the client's own requests, and whether the node refuses or includes a transaction that fails, a subcommand's own transaction takes effect at most once, and then exactly as documented for what the client could see while it ran: the same tokens, accounts and metadata, and no more rent than was missing when it looked. It reports success only if its transaction landed successfully, or if there was nothing left to do, and names that transaction and those amounts; it reports failure only if its transaction did not take effect; and a command that is possible throughout its run succeeds.",
 ["histories", "schedules"],
 "the pair or its escrow created, addresses funded, balances spent or received, accounts frozen or closed, pointers unset, metadata synced by others before any request of any subcommand",
 "Tests run one client alone on a quiet validator.",
 ["clients/cli/src/create_mint.rs", "clients/cli/src/create_escrow_account.rs", "clients/cli/src/wrap.rs", "clients/cli/src/unwrap.rs", "clients/cli/src/common.rs"], [("reads, then composes, then broadcasts", "clients/cli/src"), ("process_transaction", "clients/cli/src/common.rs")], [], ["transactions landed between the client's requests, exit status, output, every state of the chain"])

prop("J01", "The JavaScript client builds the same instructions and addresses",
 "For the same inputs the JavaScript client's address finders, instruction builders, encoders, decoders, fetchers and error table produce the same addresses, account lists with the same signer and writable flags, bytes, values, codes and messages as the program's own definition (an optional account that is not given may be left out or given as the program's own address, which the program accepts as absent); parsing returns what was built, amounts that do not fit are refused. Its helpers for creating mints and escrows, wrapping and unwrapping (single-signer and offline multisig) use the given or derived accounts, fund exactly the missing rent, report what they built, take an escrow for existing exactly if it is one (lamports alone do not make one), and fail if an account they must read is missing.",
 ["inputs", "configurations"],
 "random addresses and amounts, both token programs, optional accounts, defaults and multisig signers present or absent, prior funding levels, rent rates, foreign instructions",
 "The JavaScript client has no tests that run here.",
 ["clients/js/src/create-mint.ts", "clients/js/src/wrap.ts", "clients/js/src/unwrap.ts", "clients/js/src/utilities.ts", "clients/js/src/generated"], [("generated client and helpers", "clients/js/src")], [], ["outputs of the client code run under node, compared with the documented definition and executed on-chain"])

prop("J02", "JavaScript multisig merging never mixes or loses signatures",
 "Combining separately signed multisig transactions yields a transaction with exactly the union of the given signatures, each under its own signer and in the message's signer order, over the one common message with the given lifetime, and fails if the list is empty, the messages differ in any way, any required signature is missing from all of them, or the result is too large to send. The given transactions are not modified.",
 ["inputs"],
 "1 to 12 partially signed transactions in any order with overlapping, missing, duplicated signatures and equal or subtly different messages",
 "The JavaScript client has no tests that run here.",
 ["clients/js/src/utilities.ts"], [("combinedMultisigTx", "clients/js/src/utilities.ts")], [], ["returned transaction or error"])

prop("J03", "The published interface description matches the program",
 "The published IDL (idl.json, and what program/idl.ts generates) describes the deployed program: the same program address, the same instructions with the same tag values, argument types, defaults and account lists (order, signer, writable and optional flags), the same state layouts and derivation seeds, and the same error codes and messages. A client built from it alone can drive every operation of the program successfully, and it describes nothing the program does not have.",
 ["inputs", "programs"],
 "every instruction, account, argument, seed and error of the description, exercised with random values against the documented definition and the deployed program",
 "No test reads the description.",
 ["idl.json", "program/idl.ts", IX, "program/src/error.rs"], [("hand-maintained description", "program/idl.ts")], [], ["instructions synthesized from the description executed on-chain"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
