#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "programs/presale/src/"
I = P + "instructions/"
H = P + "presale_mode_handler/"
TESTS = "The 19 tests that run check a few math and parsing values; none executes an instruction (the integration tests need an SBF build)."
props = []
def prop(id, title, statement, over, qtext, why, files, mech, tech, note):
    props.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note))

prop("C01", "The quote vault always covers every outstanding quote claim",
 "At every moment a presale's quote vault holds at least everything still owed in quote tokens: while the sale is open all deposits plus deposit fees of all escrows, after a failed sale every unrefunded deposit and fee, after a completed sale the creator's not yet withdrawn proceeds, the not yet collected fees and every not yet taken oversubscription refund. No sequence of operations by anybody can take out quote tokens that belong to somebody else, and every quote payment moves exactly the amount due.",
 ["histories", "inputs", "configurations"], "all presale terms, token kinds (with transfer fees or hooks), buyers, and operation histories including rejected and repeated ones",
 "Solvency is an invariant over whole histories with rounding, several registries and several once-only payouts; " + TESTS,
 [I+"process_deposit.rs", I+"process_withdraw.rs", I+"process_withdraw_remaining_quote.rs", I+"process_creator_withdraw.rs", I+"process_creator_collect_fee.rs", P+"state/presale.rs", P+"state/presale_registry.rs"],
 [("deposit pulls amount plus fee plus token fee", I+"process_deposit.rs"), ("refund amounts rounded down", P+"state/presale_registry.rs"), ("once-only flags", P+"state/presale.rs")],
 "model-based histories, solvency invariant after every step", "liabilities are recomputed by an independent model from the observed escrows after each accepted operation")
prop("C02", "The base vault always covers every token allocation",
 "From the moment a presale exists, its base vault holds at least the full sale supply until the sale is decided, then after failure the supply until the creator took it back, and after success every buyer's unclaimed allocation plus the unsold tokens not yet burned or returned. The tokens claimed from a registry never exceed what that registry sold.",
 ["histories", "inputs", "configurations"], "all terms, supplies and histories",
 "Needs histories mixing claims, unsold actions, donations and closures under rounding; " + TESTS,
 [I+"process_claim.rs", I+"process_perform_unsold_base_token_action.rs", I+"process_creator_withdraw.rs", P+"math/claim_math.rs", I+"initialize_presale/process_initialize_presale.rs"],
 [("supply pulled in at creation", I+"initialize_presale/process_initialize_presale.rs"), ("allocation rounded down per escrow", P+"math/claim_math.rs"), ("unsold = supply - sold", H+"mod.rs")],
 "model-based histories, solvency invariant after every step", "as C01 for the base side")
prop("C03", "Recorded totals always agree with the history of operations",
 "The totals a presale and each of its registries report (deposits, fees, claimed tokens, refunded quote, number of escrows) always equal the sums over the escrows that exist plus those already closed, and each escrow's own record equals exactly what its operations moved. Rejected operations change nothing.",
 ["histories", "inputs"], "all operation histories, including closing and re-creating escrows in several registries",
 "Two-level counters are updated in many handlers; agreement is a history property that no existing test touches. " + TESTS,
 [P+"state/presale.rs", P+"state/presale_registry.rs", P+"state/escrow.rs", H+"mod.rs"],
 [("deposit/withdraw/claim/refund counter updates", P+"state/presale.rs"), ("registry counters", P+"state/presale_registry.rs"), ("escrow counters", P+"state/escrow.rs")],
 "model-based histories, counters against recomputed sums", "sums are recomputed from the accounts, the step result from the reference model")
prop("C04", "A deposit is accepted exactly when allowed and charges exactly the terms",
 "A deposit of a requested amount is credited with the largest amount that fits the buyer's remaining allowance, the sale's remaining cap (first-come and fixed-price) and the registry's remaining supply (fixed-price, rounded down to whole base tokens), and is rejected only if nothing can be credited, the buyer's total would leave the registry's buyer limits, or the payer lacks funds. The payer pays exactly the credited amount plus the registry's deposit fee (its rate applied to what is paid in total, rounded up) plus any token transfer fee, and the vault receives exactly credited amount plus fee.",
 ["inputs", "histories", "configurations"], "all amounts up to 64 bits, prices, caps, registries, modes and prior histories",
 "Boundary behaviour depends on price granularity, three interacting caps and history; " + TESTS,
 [I+"process_deposit.rs", H+"fixed_price_presale.rs", H+"fcfs_presale.rs", H+"prorata_presale.rs", H+"mod.rs", P+"math/fee_math.rs"],
 [("suggested deposit and quota", H+"mod.rs"), ("fixed price rounding", H+"fixed_price_presale.rs"), ("deposit fee", P+"math/fee_math.rs")],
 "model-based histories, deposits compared with an exact model", "accept/reject, amounts, balances and records must equal the model's")
prop("C05", "A withdrawal returns exactly what it removes and only when allowed",
 "While the sale is open, a buyer can take back any amount up to the deposited balance in pro-rata sales and in fixed-price sales that allow it (there a partial amount is rounded down to whole base tokens), and never in first-come sales; the remaining deposit is zero or at least the registry's minimum. The vault pays exactly the amount removed from the escrow's, registry's and presale's deposits; deposit fees are not returned by withdrawing.",
 ["inputs", "histories"], "all amounts, modes, balances and prior histories",
 "Interaction of rounding, minimum and mode over histories. " + TESTS,
 [I+"process_withdraw.rs", H+"fixed_price_presale.rs", H+"prorata_presale.rs", H+"fcfs_presale.rs", P+"state/escrow.rs"],
 [("withdraw rules", H+"mod.rs"), ("counters", P+"state/presale.rs")],
 "model-based histories, withdrawals compared with an exact model", "accept/reject, amounts, balances and records must equal the model's")
prop("C06", "Every operation is possible exactly in its lifecycle phase",
 "A presale is not started before its start time, ongoing until its end time, then completed if deposits reached the minimum cap and failed otherwise, and never leaves completed or failed. Escrow creation, deposits and withdrawals work only while ongoing; claims, fee collection and unsold handling only when completed; creator withdrawal only when completed or failed; refunds only when failed or (pro-rata) completed; in its phase an otherwise valid operation always succeeds.",
 ["histories", "schedules", "inputs"], "all clock values including the exact start and end instants, all histories",
 "Phase depends on clock, caps and early end; boundary instants are never executed by tests. " + TESTS,
 [P+"state/presale.rs", I+"process_deposit.rs", I+"process_withdraw.rs", I+"process_claim.rs", I+"process_creator_withdraw.rs", I+"process_creator_collect_fee.rs", I+"process_perform_unsold_base_token_action.rs", I+"process_withdraw_remaining_quote.rs"],
 [("progress computation", P+"state/presale.rs"), ("phase checks in each handler", I)],
 "model-based histories with boundary clock values, gating against a phase model", "every operation is attempted in every phase and at the boundary instants")
prop("C07", "Reaching the cap ends the sale at once and shifts the release schedule",
 "In fixed-price and first-come presales without the early-end opt-out, the deposit that brings total deposits to the maximum cap ends the sale at that moment; the lock, vesting and immediate-release times then count from the new end with their durations and their distance to the end unchanged. In all other cases (below the cap, opt-out, pro-rata) no operation changes the end or the release times.",
 ["histories", "inputs", "configurations"], "all terms, deposit sequences and times of reaching the cap",
 "Requires a deposit history that hits the cap exactly at generated times. " + TESTS,
 [H+"fixed_price_presale.rs", H+"fcfs_presale.rs", H+"mod.rs", P+"state/presale.rs"],
 [("end_presale_if_max_cap_reached", H), ("advance_progress_to_completed", P+"state/presale.rs")],
 "model-based histories that fill the cap, schedule compared with a model", "times after each deposit must equal the model's")
prop("C08", "Claims follow the release schedule exactly, whatever the claim pattern",
 "At any time after a completed sale, the total a buyer has been able to claim equals the immediate share (once its release time has come) plus the linearly vested share (from the end of the lock, complete at the end of vesting), each rounded down, never more and never less. The total does not depend on how often or when the buyer claimed or refreshed before, and never decreases.",
 ["histories", "schedules", "inputs"], "all lock and vesting terms, all claim and refresh times and patterns",
 "Quantifies over all claim times and patterns; the math tests use single values. " + TESTS,
 [P+"math/claim_math.rs", I+"process_claim.rs", I+"process_refresh_escrow.rs", P+"state/escrow.rs", P+"state/presale.rs", H+"mod.rs"],
 [("cumulative claimable", P+"math/claim_math.rs"), ("pending/claimed bookkeeping", P+"state/escrow.rs")],
 "model-based histories of claims, payout compared with closed-form schedule", "each claim must pay cumulative(now) minus claimed")
prop("C09", "Buyers of a registry share its tokens in proportion to their deposits",
 "Each buyer's total allocation is the registry's sold tokens times the buyer's deposit over the registry's deposits, within rounding down; registries do not influence each other. In fixed-price sales the tokens sold by a registry are its deposits at the fixed price, in the other modes the registry's whole supply if it has any deposit.",
 ["histories", "inputs", "configurations"], "all deposit patterns over up to five registries and all modes",
 "Fairness compares several buyers over histories in several registries. " + TESTS,
 [P+"math/claim_math.rs", H+"mod.rs", H+"fixed_price_presale.rs", P+"state/presale_registry.rs"],
 [("share of sold tokens", P+"math/claim_math.rs"), ("total sold per registry", H)],
 "model-based histories, allocations compared with exact proportional shares", "claims per escrow and per-registry totals against the closed form")
prop("C10", "Oversubscribed pro-rata buyers get their unused quote back exactly once",
 "After a completed pro-rata sale that received more than its maximum cap, each buyer can take back, once and regardless of order and of claims, the buyer's proportional part of the excess together with the same proportion of the deposit fee (rounded down). In a completed sale of another mode there is no such refund, and a second attempt pays nothing and is rejected.",
 ["histories", "inputs", "configurations"], "all deposit distributions over buyers and registries, all refund orders",
 "Proportional refund over registries with rounding and fees. " + TESTS,
 [I+"process_withdraw_remaining_quote.rs", P+"state/presale_registry.rs", P+"state/presale.rs"],
 [("remaining quote and fee per registry", P+"state/presale_registry.rs"), ("once-only flag", P+"state/escrow.rs")],
 "model-based histories with oversubscription, refunds compared with exact shares", "each refund must equal the model's, repeats must fail")
prop("C11", "A failed presale makes everybody whole",
 "When a sale ends below its minimum cap, every buyer can take back, once, the full deposit and the full deposit fees, and the creator can take back, once, the whole base supply; nobody can claim tokens, collect fees or take proceeds. These hold for every mode, in any order, including buyers who withdrew before.",
 ["histories", "configurations"], "all histories ending in failure, all orders of leaving",
 "Needs whole failed histories. " + TESTS,
 [I+"process_withdraw_remaining_quote.rs", I+"process_creator_withdraw.rs", P+"state/presale.rs", P+"state/escrow.rs"],
 [("full refund on failure", I+"process_withdraw_remaining_quote.rs"), ("supply recovery", I+"process_creator_withdraw.rs")],
 "model-based failed-sale histories against an exact model", "refund and recovery amounts must equal the model's")
prop("C12", "The creator gets the raised capital exactly once and never more",
 "After completion the creator can withdraw exactly the smaller of total deposits and maximum cap, once; before the sale is decided nothing can be withdrawn. The deposit fees, refunds owed and base tokens of a completed sale are never reachable through this withdrawal.",
 ["histories", "inputs"], "all histories and modes, repeated and mistimed withdrawals",
 "Once-only payout across histories. " + TESTS,
 [I+"process_creator_withdraw.rs", P+"state/presale.rs"],
 [("creator withdraw amount and flag", I+"process_creator_withdraw.rs")],
 "model-based histories, payouts compared with an exact model", "amount, destination vault and once-only flag against the model")
prop("C13", "The creator gets the deposit fees exactly once and never more",
 "After completion the creator can collect, once, exactly the deposit fees paid minus the fees that oversubscribed pro-rata buyers are entitled to get back; before completion and after failure nothing can be collected. Collection leaves enough for every fee refund, whatever the order.",
 ["histories", "inputs"], "all fee rates per registry, deposit histories and orders of refunds and collection",
 "Depends on per-registry rounding and on the order of refunds and collection. " + TESTS,
 [I+"process_creator_collect_fee.rs", P+"state/presale.rs", P+"state/presale_registry.rs"],
 [("fee minus refunded fee", P+"state/presale.rs"), ("flag", P+"state/presale.rs")],
 "model-based histories, fee payouts compared with an exact model", "amount and once-only flag against the model")
prop("C14", "Unsold tokens are burned or returned exactly once, as the terms say",
 "After completion anybody can trigger, once, the handling of the unsold base tokens: exactly supply minus sold tokens is burned (token supply drops by that amount) or sent to the creator's own token account, as fixed in the terms, and never to anybody else. With nothing unsold, before completion, after failure or a second time the action is rejected and moves nothing.",
 ["histories", "configurations"], "all modes, sale outcomes, registries without deposits and repeated or mistimed calls",
 "Depends on the sale's outcome per registry. " + TESTS,
 [I+"process_perform_unsold_base_token_action.rs", P+"state/presale.rs", H+"mod.rs"],
 [("unsold computation", P+"state/presale.rs"), ("burn or transfer", I+"process_perform_unsold_base_token_action.rs")],
 "model-based histories, unsold handling compared with an exact model", "burned/returned amounts, supply and flag against the model")
prop("C15", "Only entitled wallets get an escrow, with exactly their granted cap",
 "In an open presale any wallet can get an escrow with the registry's maximum; in a merkle presale only with a valid proof for exactly that wallet, registry and cap under a whitelist root of that presale; in an operator presale only with the signature of an operator appointed by that presale's creator. The registry must exist, a granted cap lies within the registry's buyer limits, there is at most one escrow per wallet and registry, and an entitled request during the sale always succeeds.",
 ["inputs", "histories", "configurations"], "all whitelists, proofs (altered, truncated, extended, foreign), caps, registries, operators and histories",
 "Adversarial inputs over proofs and accounts. " + TESTS,
 [I+"create_escrow/process_create_escrow.rs", I+"create_escrow/process_create_permissionless_escrow.rs", I+"create_escrow/process_create_permissioned_escrow_with_creator.rs", I+"create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs"],
 [("merkle verification and leaf hash", I+"create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs"), ("operator and mode checks", I+"create_escrow/process_create_permissioned_escrow_with_creator.rs")],
 "model-based generation with tampered proofs and operators against an entitlement model", "generated whitelists, operators and tampered variants")
prop("C16", "Only the rightful signer can move value or manage accounts",
 "Taking value out of an escrow or closing it needs the escrow owner's signature, taking proceeds, fees or failed supply and managing whitelists and server metadata needs the presale creator's, appointing and revoking operators the appointing creator's, closing a price account its owner's, and tokens are only ever pulled from an account whose owner signed. An otherwise valid call lacking that signature or signed by somebody else is rejected and changes nothing.",
 ["inputs", "histories"], "all operations in all reachable states, with every missing or foreign signature",
 "Adversarial account and signer choice for every instruction. " + TESTS,
 [I, P+"lib.rs"], [("signer and has_one constraints", I)],
 "metamorphic tampering of valid calls (signers) at every reachable state", "each otherwise accepted call is retried with wrong or missing signers on a copy of the state and must be rejected")
prop("C17", "Presales are isolated and forged or foreign accounts are rejected",
 "An operation on one presale never changes another presale, its vaults or anybody else's escrow. A call in which one account is replaced by a forged one (owned by another program), one of another presale, another vault, mint, authority, token program or a non canonical address is rejected and changes nothing; vaults are owned by the program's authority and nobody else.",
 ["inputs", "histories"], "all operations in all reachable two-presale states with every single account substitution",
 "Adversarial substitution of each account of each instruction. " + TESTS,
 [I, P+"const_pda.rs", P+"token2022.rs"], [("account constraints and seeds", I), ("vault creation", I+"initialize_presale/process_create_presale_vault.rs")],
 "metamorphic tampering of valid calls (accounts) and frame check after every step", "substitutions must be rejected; states of everything else compared after every step")
prop("C18", "A presale is created exactly for valid terms, stored faithfully and funded",
 "Creation succeeds exactly if the terms are valid (caps, times, durations, lock and vesting limits, registries and their limits, fee rates, mode rules, and for a fixed price that buyer limits buy at least one token, the supply covers the maximum cap and the two caps differ by at least one token) and the payer can fund it. Then every term is stored as given, the times derived from them are right, all counters are zero, both vaults are fresh and the base vault holds exactly the supply.",
 ["inputs", "configurations"], "all terms, concentrated at and around every limit, all combinations of up to five registries",
 "Validity is a conjunction of dozens of limits over a large input space; a few unit tests sample single conditions. " + TESTS,
 [I+"initialize_presale/params.rs", I+"initialize_presale/process_initialize_presale.rs", I+"initialize_presale/process_create_presale_vault.rs", H+"fixed_price_presale.rs", H+"fcfs_presale.rs", H+"prorata_presale.rs", P+"constants.rs"],
 [("parameter validation", I+"initialize_presale/params.rs"), ("mode specific validation and initialisation", H)],
 "generated terms around every limit against an independent validity predicate", "accept/reject and every stored byte against the model")
prop("C19", "A fixed price is set only through its own price account",
 "A price account stores the given positive price, withdrawal option and owner for one presale address, once, and only its owner can close it and gets its rent. A fixed-price presale is created only with the price account of its own address and then sells at exactly that price for its whole life, even after the account is closed; other modes need none.",
 ["histories", "inputs"], "all prices, creations, closures and re-creations of price accounts before and after presale creation, foreign and forged price accounts",
 "Multi-step history with foreign accounts. " + TESTS,
 [I+"process_initialize_extra_presale_params.rs", I+"process_close_extra_presale_params.rs", H+"fixed_price_presale.rs", P+"state/fixed_price_presale_params.rs"],
 [("price account seeds, owner and presale checks", H+"fixed_price_presale.rs")],
 "model-based histories over price accounts against an exact model", "account bytes, rent and stored price against the model")
prop("C20", "Closing an escrow never forfeits value and returns its rent",
 "An escrow can be closed by its owner exactly when nothing is owed to it: with no deposit and no fee while the sale is open, after the refund (if anything was paid) in a failed sale, after the full allocation was claimed and any refund due was taken in a completed one. Closing removes it from the counts, returns all its rent to the chosen receiver and changes nothing else.",
 ["histories", "schedules"], "all histories and closing attempts at all times",
 "Depends on complete per-escrow history. " + TESTS,
 [I+"process_close_escrow.rs", P+"state/escrow.rs", P+"state/presale.rs"],
 [("close conditions", I+"process_close_escrow.rs")],
 "model-based histories with closing attempts, against an owed-value model", "accept exactly when the model owes nothing")
prop("C21", "A presale's terms never change after creation",
 "Caps, start time, price, mode, whitelist mode, registries' supplies, limits and fee rates, lock, vesting and immediate-release terms, unsold action, mints, vaults and creator of a presale stay the same from creation on under every operation by anybody. The only exception is that end and release times move when the cap is reached early.",
 ["histories"], "all operations in all histories",
 "An invariant over all operations and histories. " + TESTS,
 [P+"state/presale.rs", P+"state/presale_registry.rs", H+"mod.rs"],
 [("no setters besides counters and early end", P+"state/presale.rs")],
 "model-based histories, terms compared byte for byte after every step", "all term bytes compared with the creation inputs")
prop("C22", "The whitelist tree tool and the program agree on who is entitled",
 "For any list of wallets, registries and caps, the tree tool keeps one entry per wallet (its last values, in the order of first appearance), always computes the same root from it, gives each entry a proof that verifies for exactly that wallet, registry and cap and for no altered one, derives the same whitelist address as the program, and writes files that read back equal. Every listed wallet can create its escrow on the program with the tool's root and proof.",
 ["inputs"], "all whitelists up to dozens of wallets with duplicates, all proofs and all alterations of entries",
 "Agreement for every list size and order; tests use single fixed lists. " + TESTS,
 ["merkle-tree/src/merkle_tree.rs", "merkle-tree/src/config_merkle_tree.rs", "merkle-tree/src/tree_node.rs", "merkle-tree/src/utils.rs", I+"create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs"],
 [("leaf and node hashing", "merkle-tree/src/merkle_tree.rs"), ("tree node", "merkle-tree/src/tree_node.rs")],
 "differential testing against a reference tree and the program itself", "tool, reference tree and program must agree on generated lists")
prop("C23", "Token-2022 mints are handled exactly or refused",
 "With mints that charge transfer fees, the vaults receive and pay exactly the amounts due (deposit and supply payers bear the fee on top, receivers get the amount minus the fee), hooks are always executed with their accounts and memo-requiring destinations are served; missing, surplus or malformed hook accounts are rejected. A presale can be created only with mints whose extensions are all among transfer fee, transfer hook, metadata pointer and token metadata; every other mint extension and the Token-2022 native mint are refused.",
 ["inputs", "configurations", "histories"], "all fee rates, maximum fees and epochs, hook accounts, memo accounts and mint extension sets for base and quote",
 "Combination of extensions, fee epochs and amounts. " + TESTS,
 [P+"token2022.rs", I+"initialize_presale/process_initialize_presale.rs"],
 [("fee inclusive amount, transfer helpers, extension allowlist", P+"token2022.rs")],
 "model-based histories on Token-2022 mints and generated extension sets", "balances against exact fee formulas; extension sets against the allowlist")
prop("C24", "Every accepted operation emits a truthful event",
 "Every accepted operation that has an event emits exactly one, naming the right presale, escrow and signer and carrying exactly the amounts moved (net of token transfer fee where the receiver is paid) and the totals after the operation; rejected operations emit none.",
 ["histories", "inputs"], "all accepted operations in all histories",
 "Events must match for every operation and amount. " + TESTS,
 [P+"events.rs", I, P+"lib.rs"], [("event emission in each handler", I)],
 "model-based histories, events compared byte for byte", "events decoded from the self-invocations, compared with the model's")
prop("C25", "Everybody can always leave, in any order, and only dust remains",
 "Once a sale is decided and the release schedule is over, every buyer can claim and take every refund and close the escrow, and the creator can take proceeds, fees and unsold or failed supply, whatever the order and whatever others do or fail to do. Afterwards the vaults hold only rounding dust and donations: nothing in a failed sale, at most a few smallest units per buyer in a completed one.",
 ["histories", "schedules"], "all histories followed by a full exit in any order",
 "Liveness of complete exits after arbitrary histories. " + TESTS,
 [I+"process_claim.rs", I+"process_withdraw_remaining_quote.rs", I+"process_creator_withdraw.rs", I+"process_creator_collect_fee.rs", I+"process_perform_unsold_base_token_action.rs", I+"process_close_escrow.rs"],
 [("payout formulas rounded consistently", P+"state/presale_registry.rs")],
 "model-based histories ending in a generated full exit, dust bound", "bounded liveness: every exit step must succeed and dust stay below a bound")
prop("C26", "Whitelist, operator and server accounts are managed faithfully",
 "The creator of a merkle presale can publish whitelist roots under distinct versions before the end of the sale and withdraw them only while no sale is ongoing; any creator can appoint and revoke operators at any time; the creator of a permissioned presale can publish a proof server address before the end of the sale and remove it at any time. Stored contents are exactly those given, rent returns to the chosen receiver on closing, and only the named account changes.",
 ["histories", "inputs"], "all interleavings of creating, closing and using these accounts in all phases",
 "Histories over phases and accounts. " + TESTS,
 [I+"process_create_merkle_root_config.rs", I+"process_close_merkle_root_config.rs", I+"process_create_operator.rs", I+"process_revoke_operator.rs", I+"process_create_permissioned_server_metadata.rs", I+"process_close_merkle_proof_metadata.rs"],
 [("account constraints and phase checks", I)],
 "model-based histories over admin accounts against an exact model", "bytes, rent and accept/reject against the model")
prop("C27", "Clients' instruction encoding and stored account layouts stay compatible",
 "Instructions encoded by existing clients (names, account order, argument order, account addresses) keep working and mean the same, and every account an existing client reads keeps its address, size, type tag and the position and meaning of every field.",
 ["inputs", "histories"], "all instructions and all accounts they create or change, with generated contents",
 "Needs every field with distinguishing values. " + TESTS,
 [P+"lib.rs", P+"state/presale.rs", P+"state/escrow.rs", P+"state/presale_registry.rs", P+"state/merkle_root_config.rs", P+"state/operator.rs", P+"state/fixed_price_presale_params.rs", P+"state/permissioned_server_metadata.rs", P+"constants.rs"],
 [("zero copy account structs", P+"state"), ("instruction signatures", P+"lib.rs")],
 "model-based histories through a hand-written wire encoder and account decoder", "the encoder and decoder are written from the published layout, not derived from the code")

prop("C28", "Outsiders cannot change what participants and creators get",
 "Nothing an outsider does changes the outcome of a presale: tokens sent into its vaults, lamports sent to its accounts or to the addresses of accounts that are still to be created, refreshing other people's escrows, opening escrows without depositing, and whatever happens in other presales. The same calls of the participants and the creator, at the same times, are accepted or rejected as they would be without it and move the same amounts of base and quote tokens.",
 ["inputs", "histories"], "all histories of a presale, with any interleaved actions of outsiders or of other presales",
 "Needs two runs of one history that differ only in what outsiders do. " + TESTS,
 [P+"instructions", P+"state/presale.rs", P+"state/escrow.rs", P+"presale_mode_handler"],
 [("amounts are computed from recorded deposits, never from vault balances", P+"state/presale.rs"), ("permissionless refresh", P+"instructions/process_refresh_escrow.rs")],
 "metamorphic: each generated history is replayed with outsiders' actions inserted, or without the other presale, and compared call by call", "the oracle is the other run of the program itself; whether a payer can afford a deposit may depend on his other purchases, such histories are skipped")

prop("C29", "What everybody ends up with does not depend on order or detours",
 "What each participant and the creator receive in total depends only on the deposits and fees in place when the sale ends: not on the order in which they claim, take refunds, collect and close, not on how often or when they claimed or refreshed along the way, and - where neither fees nor rounding nor reaching the maximum cap are involved - not on deposits that were withdrawn again, on escrows that were opened and closed again, or on paying an amount in parts.",
 ["inputs", "histories"], "all histories and all reorderings of the exits, claim times, and reversible detours during the sale",
 "Needs pairs of histories that must lead to the same result. " + TESTS,
 [P+"instructions", P+"presale_mode_handler", P+"state/presale.rs", P+"state/escrow.rs"],
 [("shares of recorded totals that exits never change", P+"presale_mode_handler/mod.rs"), ("cumulative claims minus what was claimed", P+"state/escrow.rs")],
 "metamorphic: pairs of generated histories that differ in exit order, claim times or reversible detours must end with the same balances and records", "which detours are reversible is decided with the reference model (the state it predicts afterwards equals the state before); with a transfer fee on the base mint only vault balances are compared across claim paces")
prop("C30", "The order of registries, the wallets' names and the date do not matter",
 "The same presale with its registries listed in another order, with other wallets in the roles of creator, buyers and operators, or with all times in its terms and all moments of its history moved by the same number of seconds leads to the same outcome under the new names: the same calls are accepted and refused, and everybody ends with the same gains, refunds, fees and records. No registry index, wallet address or calendar date is treated specially.",
 ["inputs", "histories"], "all histories, all orders of registries, all exchanges of wallets and all shifts of time, beyond 2038 and 2106 too",
 "Needs pairs of histories that must lead to the same result. " + TESTS,
 [P+"instructions", P+"presale_mode_handler", P+"state", P+"math"],
 [("loops over registries", P+"state/presale.rs"), ("progress and schedule from clock and stored times", P+"math/claim_math.rs")],
 "metamorphic: a generated history is replayed with registries permuted, wallets exchanged and times shifted, and must give the same results, balances and records under the new names", "wallets are exchanged within a fixed set of six; histories in which a wallet runs out of tokens are compared up to that point")

os.chdir(here)
with open("properties.jsonl", "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": ["instruction results, account contents, token balances, emitted events"], "hook_needed": None}}) + "\n")
base = "Search, not proof: generated cases only (counts in the evidence). Trusts the native in-process runtime of the harness (program entrypoint, real SPL Token and Token-2022 processors), the reference model and rustc; the SBF build and compute limits are not exercised. "
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [
    {"property": p["id"], "quick_cmd": f"bash check.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
     "evidence_file": f"evidence/{p['id']}.json", "technique": "property-based testing: " + p["tech"], "level": "exploration", "level_note": base + p["note"] + "."} for p in props],
    "not_applicable": [], "notes": "No hooks in /repo. Fixed defects are listed in KNOWN_FINDINGS.md."}
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
