//! Which campaigns decide which property.
use crate::camp_admin as ca;
use crate::camp_cli as cc;
use crate::camp_hist as ch;
use crate::camp_idl as ci;
use crate::camp_js as cj;
use crate::camp_meta as cm;
use crate::camp_misc as cx;
use crate::camp_nat as cn;
use crate::camp_token as ct;
use crate::run::{Plan, Prop};

fn pl(name: &'static str, f: crate::run::Camp, quick: u64, thorough: u64) -> Plan {
    Plan { name, f, quick, thorough }
}
/// A campaign with every observed instruction repeated through a calling program.
fn via(c: &mut crate::case::Case, f: crate::run::Camp) {
    c.fwd = true;
    f(c);
}
const A_SVM: &str = "the Mollusk SVM (agave 3.1 runtime) executes the program as a validator does; failed instructions change nothing (runtime atomicity)";
const A_TOK: &str = "the deployed spl-token, token-2022, associated-token and Metaplex programs are the ones bundled with the test fixtures";

const A_JS: &str = "stand-ins written from the documentation replace the JavaScript libraries the client imports (they are not installed here): codecs, signers, messages, rent-size and token instruction builders";
const A_NODE: &str = "the node serves consistent account states and reports the execution of a transaction truthfully unless a fault is injected; faults are single";

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            rule: "histories over four mint pairs, three users, every token-wrap instruction (honest, altered, hostile) and plain token traffic including mint re-creation; distinct by the sequence of operations and outcomes",
            plans: vec![pl("hist", ch::camp_hist, 1500, 20000), pl("cross", ch::camp_cross, 12, 400), pl("hist_long", ch::camp_hist_long, 90, 1500), pl("auth", ct::camp_auth, 900, 12000), pl("bind", crate::camp_bind::camp_bind, 12, 300), pl("unwrap", ct::camp_unwrap, 1500, 20000)],
            need: &["native_histories", "backing_checks_with_supply", "ix1 ok", "ix2 ok", "ix3 ok", "ix5 ok", "ix4 ok", "ix6 ok", "ix0 ok", "escrow_as_recipient", "mint_recreated", "redeemed_at_end", "surplus_checks", "fault: tokens of the authority"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P02",
            rule: "generated wrap scenes (token programs, extensions, fees, authorities, amounts); distinct by scene label, amount class, epoch and outcome",
            plans: vec![pl("wrap", ct::camp_wrap, 8000, 60000)],
            need: &["native_pairs", "delta_checks", "fee_charged", "model_ok_program_ok", "both_refused"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P03",
            rule: "generated unwrap scenes; distinct by scene label, amount class, epoch and outcome",
            plans: vec![pl("unwrap", ct::camp_unwrap, 8000, 60000)],
            need: &["native_pairs", "delta_checks", "fee_charged", "model_ok_program_ok", "both_refused"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P04",
            rule: "honest scenes plus every applicable authority fault; distinct by scene label, fault and outcome",
            plans: vec![pl("auth", ct::camp_auth, 1500, 25000), pl("hist", ch::camp_hist, 200, 5000), pl("bind", crate::camp_bind::camp_bind, 12, 400)],
            need: &["consent_checks", "authority_as_holder", "fault: unsigned", "fault: stranger", "fault: one signer short", "fault: above the allowance", "fault: victim's account", "fault: tokens of the authority", "fault: tokens delegated to the authority", "model_ok_program_ok"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P05",
            rule: "a valid wrap or unwrap with one or more accounts replaced: all 254 mixes of two pairs, every role x 34 substitutes, coherent frauds, random double faults; distinct by substitution, pair kinds and outcome",
            plans: vec![pl("bind", crate::camp_bind::camp_bind, 90, 2500)],
            need: &["substitution_accepted_validly", "unbound: token program", "unbound: wrapped mint is not the derived one", "unbound: authority is not the derived one", "unbound: escrow is not the derived one", "unbound: source is not an account of the mint", "unbound: recipient is not an account of the mint"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P06",
            rule: "honest scenes judged against the token programs' own verdict, then redeemed; distinct by scene label and outcome",
            plans: vec![pl("roundtrip", ct::camp_roundtrip, 5000, 40000)],
            need: &["native_pairs", "round_trips_exact", "model_ok_program_ok"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P13",
            rule: "authoritative and non-authoritative sources of six kinds towards both token programs; distinct by source kind, target, attack and outcome",
            plans: vec![pl("source", cm::camp_source, 350, 4000), pl("sync22", cm::camp_sync22, 200, 5000), pl("syncspl", cm::camp_syncspl, 200, 5000)],
            need: &["authoritative_accepted", "decoy_on_the_mint", "decoy_at_metaplex", "attack: pointer unset", "attack: impostor program", "attack: answer from another program", "attack: metadata of another mint"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P14",
            rule: "histories of up to four source states synced to a Token-2022 wrapped mint, each followed by a second sync; distinct by source shape, round, previous field count and outcome",
            plans: vec![pl("sync22", cm::camp_sync22, 3000, 25000)],
            need: &["t22_metadata_compared", "resync_unchanged", "resync_over_other_metadata", "source_text_barely_changed", "source_with_a_long_text", "kind SplMpl", "kind External", "kind SelfPtr"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P15",
            rule: "histories of up to four source states synced to an SPL wrapped mint and compared with Metaplex's own verdict; distinct by source shape, round and outcome",
            plans: vec![pl("syncspl", cm::camp_syncspl, 3000, 25000)],
            need: &["metaplex_created", "metaplex_address_prefunded", "metaplex_updated", "metaplex_refuses_both", "metaplex_metadata_compared"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P16",
            rule: "syncs of sources with and without verified creators and collections, foreign update authorities and foreign mints; distinct by source shape, round and outcome",
            plans: vec![pl("sync22", cm::camp_sync22, 1200, 10000), pl("syncspl", cm::camp_syncspl, 2000, 20000)],
            need: &["endorsements_dropped", "t22_creator_flags_checked", "metaplex_metadata_compared"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P08",
            rule: "creations over random unwrapped mints (every extension, authorities dropped or rotated, stacked), funding levels, faulty accounts and repeats; distinct by scene, fault, funding and outcome",
            plans: vec![pl("create", ca::camp_create, 7000, 60000)],
            need: &["created_pairs_compared"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P09",
            rule: "creations over random unwrapped mints, look-alike mints, foreign addresses and programs, funding levels and repeats; distinct by scene, fault, funding and outcome",
            plans: vec![pl("create", ca::camp_create, 7000, 60000)],
            need: &["created_pairs_compared", "repeat_accepted", "repeat_refused", "repeat_without_mint", "underfunded_refused", "not_genuine_refused"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P10",
            rule: "identity of every pair compared around every token-wrap instruction of long histories, syncs, creations and closings; distinct by operation sequence or scene",
            plans: vec![pl("hist", ch::camp_hist, 700, 16000), pl("cross", ch::camp_cross, 24, 600), pl("create", ca::camp_create, 500, 9000), pl("close", ca::camp_close, 200, 4000), pl("sync22", cm::camp_sync22, 100, 3000), pl("syncspl", cm::camp_syncspl, 100, 3000)],
            need: &["identity_checks", "state_checks", "exchange_refused"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P11",
            rule: "mints closed and re-created with random extension sets, escrow states (funded, frozen, healthy, odd), and account substitutions; distinct by scene, substitution and outcome",
            plans: vec![pl("close", ca::camp_close, 2000, 16000), pl("cross", ch::camp_cross, 12, 400)],
            need: &["closed", "refused: escrow fits its mint", "refused: escrow holds tokens", "refused: escrow is frozen", "refused: escrow has another owner", "refused: escrow is not derived", "refused: not a token-2022 mint"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P12",
            rule: "as P11, followed by re-creating the escrow, wrapping and unwrapping; distinct by scene, substitution and outcome",
            plans: vec![pl("close", ca::camp_close, 2000, 16000)],
            need: &["closed", "wrapped_after_recovery", "unwrapped_after_recovery"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P17",
            rule: "rounds of authority changes with about 25 attempts each (right authority, unsigned, stale, freeze, stranger, look-alike mints, other pointers); distinct by scene, attempt and outcome",
            plans: vec![pl("pointer", ca::camp_pointer, 1200, 12000), pl("cross", ch::camp_cross, 16, 400)],
            need: &["pointer_set", "pointer_updated", "pointer_refused"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P07",
            rule: "CPI traces and third-party call records of syncs with hostile metadata programs, hooked wraps, account substitutions and histories; distinct by scene, attack and outcome",
            plans: vec![pl("lend", cx::camp_lend, 800, 20000), pl("hist", ch::camp_hist, 300, 6000), pl("cross", ch::camp_cross, 12, 400), pl("bind", crate::camp_bind::camp_bind, 12, 300), pl("source", cm::camp_source, 40, 1500), pl("syncspl", cm::camp_syncspl, 100, 3000)],
            need: &["metadata_program_calls", "hostile_hook_calls", "authority_signed_cpi", "third_party_call"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P18",
            rule: "byte strings executed without accounts (all of up to two bytes, every tag at every length to 70, mutated encodings) and arguments observed through their effect; distinct by string",
            plans: vec![pl("bytes", cx::camp_bytes, 128, 4000), pl("args", cx::camp_args, 500, 5000), pl("codec", cn::camp_codec, 128, 4000)],
            need: &["library_accepts", "library_rejects", "library_encodes", "valid_strings", "invalid_strings", "amounts_observed", "addresses_observed"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P19",
            rule: "library address helpers over sets of mints (unrelated, stacked, one bit apart, swapped roles), token programs and deployments, compared with own derivations and with where the program creates, wraps and points; distinct by argument tuple",
            plans: vec![pl("addr", cn::camp_addr, 160, 4000)],
            need: &["addresses_compared", "addresses_of_other_deployments", "distinctness_sets", "onchain_created", "onchain_wrapped", "onchain_pointed"],
            assumptions: &[A_SVM, "find_program_address is the runtime's; uniqueness is observed on the generated sets (a collision would break SHA-256)"],
        },
        Prop {
            id: "P24",
            rule: "programs built with each bundled configuration and with a fork's own: creations over random unwrapped mints and funding levels compared field by field, then the declared powers exercised and wraps and unwraps judged against the token programs; distinct by configuration, scene, step and outcome",
            plans: vec![pl("variant", crate::camp_variant::camp_variant, 1000, 30000)],
            need: &["compliance created t22", "compliance created spl", "noext created t22", "noext created spl", "pause_enforced", "freeze_enforced", "delegate_moved", "one_lamport_short_refused", "wrapped compliance", "wrapped noext", "unwrapped compliance", "unwrapped noext"],
            assumptions: &[A_SVM, A_TOK, "a deployer's program is the repository's processor with the customizer exchanged at the documented place, deployed at the declared program id"],
        },
        Prop {
            id: "P25",
            rule: "library builders over random arguments (repeated keys, 0-11 multisig signers, optional accounts) compared with the documented lists, and over valid scenes executed on the program; distinct by builder, list length, scene and outcome",
            plans: vec![pl("build", cn::camp_build, 600, 20000)],
            need: &["built ix0", "built ix1", "built ix2", "built ix3", "built ix4", "built ix5", "built ix6", "built_accepted ix0", "built_accepted ix1", "built_accepted ix2", "built_accepted ix3", "built_accepted ix4", "built_accepted ix5", "built_accepted ix6", "built_accepted multisig"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P26",
            rule: "every instruction of generated scenes and histories (accepted or refused) repeated through a calling program, with signatures of the caller's own addresses, of the transaction, or mixed, withheld, and after the instruction before it in one call; distinct by the scenes' own features",
            plans: vec![
                pl("cpi_wrap", |c| via(c, ct::camp_wrap), 250, 6000),
                pl("cpi_unwrap", |c| via(c, ct::camp_unwrap), 250, 6000),
                pl("cpi_roundtrip", |c| via(c, ct::camp_roundtrip), 120, 3000),
                pl("cpi_auth", |c| via(c, ct::camp_auth), 60, 1500),
                pl("cpi_bind", |c| via(c, crate::camp_bind::camp_bind), 3, 40),
                pl("cpi_create", |c| via(c, ca::camp_create), 250, 6000),
                pl("cpi_close", |c| via(c, ca::camp_close), 60, 1500),
                pl("cpi_pointer", |c| via(c, ca::camp_pointer), 30, 800),
                pl("cpi_sync22", |c| via(c, cm::camp_sync22), 120, 3000),
                pl("cpi_syncspl", |c| via(c, cm::camp_syncspl), 120, 3000),
                pl("cpi_source", |c| via(c, cm::camp_source), 15, 300),
                pl("cpi_hist", |c| via(c, ch::camp_hist), 60, 1500),
                pl("cpi_hook", |c| via(c, cx::camp_hook), 100, 2000),
            ],
            need: &["forwarded ix0 ok", "forwarded ix1 ok", "forwarded ix2 ok", "forwarded ix3 ok", "forwarded ix4 ok", "forwarded ix5 ok", "forwarded ix6 ok", "forwarded_rejected", "forwarded_with_program_signature", "signature_withheld_refused", "forwarded_in_sequence", "forwarded_twice", "more_writable_accepted", "more_writable_rejected"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "C01",
            rule: "client processes, mostly dry runs and sign-only runs of every subcommand, against a recording node that simulates on the real programs or misbehaves; distinct by command, options, fault and outcome",
            plans: vec![pl("cli_held", cc::camp_held, 400, 6000), pl("cli_dry", cc::camp_dry, 2000, 30000), pl("cli_wrap", cc::camp_wrap, 300, 5000), pl("cli_unwrap", cc::camp_unwrap, 300, 5000)],
            need: &["held all sign-only", "held some sign-only", "held all dry", "dry_run_simulated_ok", "dry_run_simulation_failed", "verbose_dry_run", "ran wrap dry", "ran unwrap dry", "ran create-mint dry", "ran create-escrow-account dry", "ran close-stuck-escrow dry", "ran sync-metadata-to-token2022 dry", "ran sync-metadata-to-spl-token dry", "ran wrap sign-only", "ran unwrap sign-only", "fault simulation error"],
            assumptions: &[A_SVM, A_TOK, A_NODE],
        },
        Prop {
            id: "C02",
            rule: "wrap and unwrap commands over generated pairs, holders, options and node faults; the broadcast transaction is verified, executed and its whole effect compared; distinct by pair, options, fault and outcome",
            plans: vec![pl("cli_wrap", cc::camp_wrap, 1500, 25000), pl("cli_unwrap", cc::camp_unwrap, 1500, 25000)],
            need: &["native_pairs", "wrap_landed", "unwrap_landed", "printed_values_checked", "instructions_compared", "failed_on_chain", "fault Expires", "fault Abandoned"],
            assumptions: &[A_SVM, A_TOK, A_NODE],
        },
        Prop {
            id: "C03",
            rule: "create-mint commands over both programs, prior funding of both accounts, rent schedules, existing pairs and node faults; distinct by funding, flags, fault and outcome",
            plans: vec![pl("cli_create", cc::camp_create, 2500, 40000)],
            need: &["mints_created", "already_funded", "partly_funded", "existing_accepted", "existing_refused"],
            assumptions: &[A_SVM, A_TOK, A_NODE],
        },
        Prop {
            id: "C04",
            rule: "find-pdas over mints and other accounts, arguments that must be refused, contradicting options, and every address printed by the other commands; distinct by command, mistake and outcome",
            plans: vec![pl("cli_pdas", cc::camp_pdas, 600, 12000), pl("cli_refuse", cc::camp_refuse, 600, 12000), pl("cli_unwrap", cc::camp_unwrap, 600, 12000), pl("cli_wrap", cc::camp_wrap, 300, 6000), pl("cli_create", cc::camp_create, 200, 4000), pl("cli_escrow", cc::camp_escrow, 200, 4000), pl("cli_close", cc::camp_close, 150, 3000), pl("cli_sync", cc::camp_sync, 150, 3000)],
            need: &["pdas_shown", "contradiction mint", "contradiction unwrapped program", "contradiction wrapped program", "refusal close spl mint", "refusal wrap program", "refusal wrap unwrapped program", "instructions_compared"],
            assumptions: &[A_SVM, A_TOK, A_NODE],
        },
        Prop {
            id: "C05",
            rule: "offline flows: every party of an m-of-n multisig signs in a process of its own, a broadcaster in one of three roles combines the signatures, some of them missing, wrong, foreign or repeated; distinct by command, programs, roles, fault and outcome",
            plans: vec![pl("cli_held", cc::camp_held, 400, 6000), pl("cli_multisig", cc::camp_multisig, 1500, 20000)],
            need: &["held all sent", "held some sent", "held_landed", "sign_only_outputs", "messages_compared", "signatures_verified", "multisig_landed", "accepted wrap", "accepted unwrap", "broadcast by payer", "broadcast by member", "broadcast by neither", "presignature missing", "presignature flipped", "presignature twice", "presignature stranger's"],
            assumptions: &[A_SVM, A_TOK, A_NODE],
        },
        Prop {
            id: "C06",
            rule: "escrow and metadata commands over generated mints, escrows, metadata arrangements and node faults; the broadcast transaction's whole effect compared with the documented operation; distinct by scene, options, fault and outcome",
            plans: vec![pl("cli_escrow", cc::camp_escrow, 1000, 16000), pl("cli_close", cc::camp_close, 800, 12000), pl("cli_sync", cc::camp_sync, 1500, 20000)],
            need: &["escrows_created", "existing_escrow_noop", "existing_escrow_error", "not_a_mint", "escrows_closed", "close_impossible", "synced SplMpl t22", "synced SelfPtr t22", "synced NoPtrMpl t22", "synced PtrMpl t22", "synced External t22", "synced SelfPtr spl", "synced External spl"],
            assumptions: &[A_SVM, A_TOK, A_NODE],
        },
        Prop {
            id: "C07",
            rule: "every command with node, fee payer, configuration file and output format named by option, by configuration file or by the home directory's configuration, next to nodes and keys nobody named; contradictory and unreadable settings; distinct by command, scene, options and outcome",
            plans: vec![pl("cli_settings", cc::camp_settings, 2400, 30000)],
            need: &["url_from_option", "payer_from_option", "settings_from_home", "settings_file_overrides_home", "json_outputs", "quiet_outputs", "transactions_landed", "bad settings config gone", "bad settings config junk", "bad settings payer gone", "bad settings payer junk", "bad settings config's payer gone", "bad settings verbose and output", "bad settings unknown output", "bad settings bad url", "named_clusters"],
            assumptions: &[A_SVM, A_TOK, A_NODE],
        },
        Prop {
            id: "C08",
            rule: "every command while other people's transactions land before any of its requests (the same pair or escrow created, addresses funded, tokens spent, frozen or given, accounts closed, pointers unset, metadata synced); every state of the chain recorded, the landed transaction compared with the documented operation on them; distinct by command, others' transactions and outcome",
            plans: vec![pl("cli_busy", crate::camp_busy::camp_busy, 2400, 30000)],
            need: &["possible_throughout", "state_moved_under_the_client", "landed_on_another_state_than_the_first", "acted_on_an_older_state", "lost_the_race_or_impossible", "nothing_left_to_do", "other creates the pair", "other creates the escrow", "other funds a little", "other funds it all", "other spends from the source", "other wraps too", "other unwraps too", "other closes the destination", "other closes the escrow", "other syncs first", "other unsets the pointer"],
            assumptions: &[A_SVM, A_TOK, A_NODE],
        },
        Prop {
            id: "J01",
            rule: "the JavaScript client run under node on random and scene arguments: instructions, parsed instructions, encodings, addresses, account layouts, errors and helper results compared with the documented ones and executed on the program; distinct by operation, arguments, scene and outcome",
            plans: vec![pl("js_build", cj::camp_build, 1200, 20000), pl("js_addr", cj::camp_addr, 600, 10000), pl("js_move", cj::camp_move, 4000, 60000), pl("js_create", cj::camp_create, 2400, 40000)],
            need: &["payer is a member", "given_values_contradict", "built createMint", "built wrap", "built unwrap", "built closeStuckEscrow", "built syncMetadataToToken2022", "built syncMetadataToSplToken", "accepted createMint", "accepted wrap", "accepted unwrap", "accepted closeStuckEscrow", "accepted syncMetadataToToken2022", "accepted syncMetadataToSplToken", "accepted multisig", "addresses", "fetches", "error_codes", "landed singleSignerWrap", "landed singleSignerUnwrap", "landed multisigOfflineSignWrap", "landed multisigOfflineSignUnwrap", "created spl", "created t22", "create already funded", "escrow_created", "escrow_found", "escrow_created_prefunded", "missing_account_refused", "planned_or_sent"],
            assumptions: &[A_SVM, A_TOK, A_JS],
        },
        Prop {
            id: "J02",
            rule: "sets of 0-12 copies of a transaction with 1-12 signers, the signatures spread over the copies, some missing, repeated or conflicting, some messages differing in a bit, a byte or their length; distinct by who signed what and what differs",
            plans: vec![pl("js_combine", cj::camp_combine, 2400, 60000)],
            need: &["combined", "single_combined", "missing_refused", "different_refused", "oversize_refused", "empty_refused", "different bit", "different shorter", "different longer", "conflicting_copies"],
            assumptions: &[A_JS],
        },
        Prop {
            id: "J03",
            rule: "the description (idl.json, and what idl.ts generates) read by a generic interpreter that knows nothing of the program: instructions synthesized from it for random and scene arguments compared with the documented ones and executed, addresses, layouts and errors compared; distinct by source, operation, arguments and outcome",
            plans: vec![pl("idl", ci::camp_idl, 6000, 80000)],
            need: &["synthesized createMint", "synthesized wrap", "synthesized unwrap", "synthesized closeStuckEscrow", "synthesized syncMetadataToToken2022", "synthesized syncMetadataToSplToken", "accepted createMint", "accepted wrap", "accepted unwrap", "accepted closeStuckEscrow", "accepted syncMetadataToToken2022", "accepted syncMetadataToSplToken", "errors_described", "pdas_described", "layouts_described"],
            assumptions: &[A_SVM, A_TOK, A_JS],
        },
        Prop {
            id: "P20",
            rule: "valid calls of every instruction with one to four mutations of accounts, flags, data, account contents and metadata answers; distinct by mutation and outcome",
            plans: vec![pl("fuzz", cx::camp_fuzz, 4000, 40000), pl("hist", ch::camp_hist, 150, 4000), pl("cross", ch::camp_cross, 12, 400), pl("bytes", cx::camp_bytes, 16, 500), pl("syncspl", cm::camp_syncspl, 100, 3000), pl("sync22", cm::camp_sync22, 100, 3000), pl("source", cm::camp_source, 20, 500), pl("heap", cm::camp_heap, 1, 1)],
            need: &["outcome ok", "outcome InvalidInstructionData", "rejected"],
            assumptions: &[A_SVM, "accounts that only the programs themselves can write hold states they can reach; other accounts hold anything"],
        },
        Prop {
            id: "P21",
            rule: "the table of documented mistakes over generated pairs, programs and metadata kinds; distinct by mistake and scene",
            plans: vec![pl("errors", cx::camp_errors, 800, 8000), pl("codes", cn::camp_codes, 1, 1)],
            need: &["codes_compared", "code 0", "code 1", "code 2", "code 3", "code 4", "code 5", "code 6", "code 7", "code 8", "code 10", "code 12", "code 13", "code 14", "code 15"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P22",
            rule: "lamport ledger of every account around every token-wrap instruction of histories, plus creations, pointers and syncs funded just below, at and above need; distinct by scene, funding and outcome",
            plans: vec![pl("fund", cx::camp_fund, 1200, 12000), pl("hist", ch::camp_hist, 300, 6000), pl("cross", ch::camp_cross, 12, 400), pl("create", ca::camp_create, 400, 6000), pl("close", ca::camp_close, 100, 2000)],
            need: &["native_histories", "lamport_checks", "exactly_funded", "underfunded_refused", "closed"],
            assumptions: &[A_SVM, A_TOK],
        },
        Prop {
            id: "P23",
            rule: "hooked wraps and unwraps with all accounts, each account missing, reordered, surplus or foreign accounts, and refusing hooks, compared with the plain transfer; distinct by scene, variant and outcome",
            plans: vec![pl("hook", cx::camp_hook, 1500, 14000)],
            need: &["hook_checks", "signers_last", "hook_refusals", "variant_refused", "variant_accepted", "many_hook_accounts"],
            assumptions: &[A_SVM, A_TOK],
        },
    ]
}
