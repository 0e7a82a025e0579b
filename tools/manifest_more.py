t("P01 P10", "runtime monitoring: invariant checker over random and hostile instruction histories", SVM)
t("P07 P23", "runtime monitoring: CPI trace checker with hostile callee programs", SVM)
t("P08 P09", "runtime monitoring: reference mint and creation predicate over random creations", SVM)
t("P11 P12", "runtime monitoring: closure predicate and recovery continuation over re-created mints", SVM)
t("P17", "runtime monitoring: authorization predicate and last-writer oracle", SVM)
t("P18", "runtime monitoring: differential decoding of byte strings against the published encoding", SVM)
t("P19", "runtime monitoring: address differential, uniqueness checker and on-chain acceptance", SVM)
t("P24", "runtime monitoring: reference mint and declared powers on programs built with each configuration", SVM)
t("P25", "runtime monitoring: builder differential against the documented account lists, then execution", SVM)
t("P26", "runtime monitoring: differential of the recorded execution under a calling program against the direct one", SVM)
t("P20", "runtime monitoring: crash oracle over mutated instructions and account states", SVM)
t("P21", "runtime monitoring: single-fault injection with expected error codes", SVM)
t("P22", "runtime monitoring: lamport conservation checker over all observed executions", SVM)
CLI = "Held on the client processes the evidence file counts; trusts the mock node (real programs on the Mollusk SVM behind JSON-RPC) as a faithful Solana node, and the bundled token/Metaplex binaries."
t("C01", "runtime monitoring: recorded client processes against a faulty node, no-effect and verdict oracle", CLI)
t("C02", "runtime monitoring: broadcast transactions executed on the real programs and compared with the documented movement", CLI)
t("C03", "runtime monitoring: creation oracle over recorded client processes, prior balances and rent schedules", CLI)
t("C04", "runtime monitoring: printed addresses and refusals of recorded client processes against the on-chain derivation", CLI)
t("C06", "runtime monitoring: whole-effect oracle over recorded escrow and metadata commands", CLI)
t("C07", "runtime monitoring: nodes contacted, signers, files and output of recorded client processes under every arrangement of settings", CLI)
t("C08", "runtime monitoring: others' transactions injected between the requests of recorded client processes; history oracle over every state of the chain", CLI)
t("C05", "runtime monitoring: offline signing flows of recorded client processes, cryptographic verification of every signature and whole-effect oracle", CLI)
JS = "Held on the calls the evidence file counts; the JavaScript libraries the client imports are not installed here and are replaced by stand-ins written from their documentation (/verif/js/stubs), and the SVM (Mollusk) and bundled token/Metaplex binaries are trusted."
t("J01", "runtime monitoring: differential monitor over the client run under node, its instructions executed on-chain", JS)
t("J02", "runtime monitoring: exact-union oracle over recorded combinations of partially signed transactions", JS)
t("J03", "runtime monitoring: instructions synthesised from the description alone, compared and executed on-chain", JS)
