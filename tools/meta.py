#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'programs/presale/src/'
I = S + 'instructions/'
ST = S + 'state/'
M = S + 'presale_mode_handler/'
TESTS = 'The 19 tests that run only exercise pure helper functions (parameter validation, registry arithmetic, quota, merkle proofs) on a few fixed values; no test that executes an instruction runs offline, '

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=TESTS + why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))
H, IN, C, SC = 'histories', 'inputs', 'configurations', 'schedules'

prop('C01', 'Quote vault is solvent and every quote token in it is accounted for',
 'At every moment the quote vault of a presale holds at least what it still owes: before the end all deposits with their fees, after a success the creator\'s proceeds, the collectable fees and all outstanding refunds, after a failure all outstanding refunds. Its balance is exactly what depositors paid in (plus tokens sent there by outsiders) minus what withdrawals, refunds, the creator withdrawal and the fee collection paid out, each of which takes exactly the amount it is entitled to.',
 [H, IN, C], 'Every sequence of instructions by any parties, for every presale configuration and token type, with time passing arbitrarily in between.',
 'and solvency is a relation between all instructions of a history, not a result of one call.',
 [I+'process_deposit.rs', I+'process_withdraw.rs', I+'process_withdraw_remaining_quote.rs', I+'process_creator_withdraw.rs', I+'process_creator_collect_fee.rs', ST+'presale.rs', ST+'presale_registry.rs'],
 [('deposit amounts, fee and gross-up', I+'process_deposit.rs handle_deposit'), ('refund and fee formulas round down for payouts', ST+'presale_registry.rs get_refund_quote_token / get_total_collectable_fee'), ('once-only flags', ST+'presale.rs creator_withdraw / fee_collected')],
 [('total_deposit, total_deposit_fee', 'quote recorded as paid in', ST+'presale.rs')], ['quote vault token account balance', 'wallet token balances'])

prop('C02', 'Base vault is solvent: buyers\' tokens, unsold tokens, failed-sale return',
 'At every moment the base vault of a presale holds at least what it still owes: the whole supply until the outcome is known, after a success every buyer\'s remaining entitlement plus the unsold tokens not yet disposed of, after a failure the supply until the creator takes it back. Its balance is exactly the supply (plus tokens sent there by outsiders) minus what claims, the unsold-token action and the creator withdrawal took, and the mint\'s supply changes only by burning unsold tokens.',
 [H, IN, C], 'Every sequence of instructions by any parties, every mode, registry split, rounding and time.',
 'and over-payment would only show when claims of several buyers and the unsold action meet in one history.',
 [I+'process_claim.rs', I+'process_perform_unsold_base_token_action.rs', I+'process_creator_withdraw.rs', S+'math/claim_math.rs', ST+'presale_registry.rs', ST+'escrow.rs'],
 [('sold amount per registry', M+'*.rs get_total_base_token_sold'), ('claim = released minus already claimed, rounded down', S+'math/claim_math.rs'), ('unsold = supply - sold, once', I+'process_perform_unsold_base_token_action.rs')],
 [('presale_supply', 'base tokens deposited at creation', ST+'presale.rs')], ['base vault token account balance', 'base mint supply'])

prop('C03', 'An instruction changes only the presale, escrow and wallets it is about',
 'An instruction on one presale leaves every other presale, its vaults and its escrows untouched, changes no escrow but the one it names, and changes the token balances only of the signer, of the named receiver and of the vault concerned. An instruction given an account of another presale, another owner, another mint or another program in place of the right one is rejected without any effect.',
 [H, IN], 'All pairs of presales and escrows in one history, and every single-account substitution in every instruction.',
 'and the account constraints are declarative and never executed by the tests.',
 [I+'process_deposit.rs', I+'process_claim.rs', I+'process_withdraw.rs', I+'process_withdraw_remaining_quote.rs', I+'process_close_escrow.rs', I+'process_creator_withdraw.rs', I+'process_creator_collect_fee.rs', I+'process_perform_unsold_base_token_action.rs', I+'process_refresh_escrow.rs'],
 [('has_one / seeds / address constraints of the account structs', I+'*.rs #[derive(Accounts)]')], (), ['all program accounts and token balances before and after'])

prop('C04', 'Only the rightful party can move funds or administer a presale',
 'Withdrawing, claiming, taking a refund and closing an escrow succeed only with the signature of the escrow\'s owner; taking the proceeds or the fees and managing whitelist roots and server metadata only with that of the presale\'s creator; closing pricing arguments and revoking an operator only with that of their owner. Unsold tokens go only to the creator, tokens leave a wallet only if it signed, and the rightful party is never refused an action that is due.',
 [H, IN], 'Every instruction, every signer and missing signature, every substitution of the accounts the authority is derived from.',
 'and authority is enforced by account constraints that no running test reaches.',
 [I+'process_withdraw.rs', I+'process_claim.rs', I+'process_withdraw_remaining_quote.rs', I+'process_close_escrow.rs', I+'process_creator_withdraw.rs', I+'process_creator_collect_fee.rs', I+'process_close_merkle_root_config.rs', I+'process_close_merkle_proof_metadata.rs', I+'process_close_extra_presale_params.rs', I+'process_revoke_operator.rs', I+'process_create_merkle_root_config.rs', I+'process_create_permissioned_server_metadata.rs'],
 [('has_one = owner and Signer', I+'*.rs #[derive(Accounts)]')], (), ['acceptance of instructions', 'token balances'])

prop('C05', 'Phases are respected and the outcome of a sale is final',
 'Deposits, withdrawals and opening escrows are possible only while the sale runs; claims, fee collection and the unsold-token action only after it ended with at least the minimum cap raised; refunds and the creator\'s withdrawal only after the end. Once a presale has ended as a success or as a failure it stays so for ever, and the payouts of the two outcomes never mix.',
 [H, SC, C], 'Every ordering of instructions and clock readings, including the exact boundary seconds and an early end.',
 'and finality is a statement about all continuations of a history.',
 [ST+'presale.rs', I+'process_deposit.rs', I+'process_withdraw.rs', I+'process_claim.rs', I+'process_creator_withdraw.rs', I+'process_creator_collect_fee.rs', I+'process_withdraw_remaining_quote.rs', I+'process_perform_unsold_base_token_action.rs', I+'process_close_merkle_root_config.rs'],
 [('progress from clock, window and minimum cap', ST+'presale.rs get_presale_progress'), ('per-instruction progress guards', I+'*.rs handlers')],
 [('presale_start_time, presale_end_time, presale_minimum_cap', 'the window and the threshold', ST+'presale.rs')], ['acceptance of instructions by phase'])

prop('C06', 'Deposits respect the sale cap, the registry caps and the personal cap',
 'A deposit takes the largest amount not above the offer that fits all limits (the sale\'s maximum cap unless pro rata, the registry\'s and the buyer\'s personal maximum, and at a fixed price the tokens the registry has left), and is rejected if nothing fits or the buyer\'s total would fall short of the registry\'s minimum. So no buyer\'s total ever exceeds their personal or registry cap, a non-empty total is never below the registry minimum, and only a pro rata sale ever exceeds its maximum cap.',
 [H, IN, C], 'Every history of deposits and withdrawals by several buyers in several registries, every offered amount.',
 'and caps interact across buyers, registries and withdrawals.',
 [I+'process_deposit.rs', M+'mod.rs', M+'fixed_price_presale.rs', M+'fcfs_presale.rs', M+'prorata_presale.rs', ST+'presale.rs', ST+'escrow.rs', ST+'presale_registry.rs'],
 [('remaining quota', M+'*.rs get_remaining_deposit_quota'), ('minimum of offer and quota', I+'process_deposit.rs'), ('registry cap validation', ST+'presale_registry.rs / I process_deposit.rs')],
 [('deposit_max_cap', 'personal cap of an escrow', ST+'escrow.rs')], ['escrow and presale totals after each deposit'])

prop('C07', 'Deposit fee is exact and the buyer pays exactly deposit plus fee',
 'For an accepted deposit the fee is the smallest one that is at least the registry\'s fee rate of the whole payment, it is recorded for the escrow, the registry and the presale alike, and the vault receives exactly deposit plus fee while the buyer pays that grossed up by the mint\'s own transfer fee and not a unit more. Nothing else ever changes recorded fees, and an escrow\'s recorded deposit and fee always equal what reached the vault for it minus what was withdrawn.',
 [H, IN, C], 'Every amount, fee rate 0-50 %, mode, transfer-fee setting and history.',
 'and rounding errors of one unit appear only for particular amount/rate pairs.',
 [I+'process_deposit.rs', S+'math/fee_math.rs', ST+'presale.rs', ST+'presale_registry.rs', ST+'escrow.rs'],
 [('fee-included amount, rounded up', S+'math/fee_math.rs'), ('bookkeeping in three places', ST+'presale.rs deposit')], (), ['vault and wallet balances', 'recorded fees'])

prop('C08', 'Fixed price: tokens are sold at the stated price, never below and never oversold',
 'In a fixed-price presale a purchase is charged the price of a whole number of tokens rounded up by less than one quote unit, the tokens released to buyers never cost less than the price and never exceed the registry\'s supply, and the price used is the one registered for that presale. A presale or price under which the minimum or maximum purchase buys nothing, or the sale could not be filled from the supply, is refused, and no price however large or small makes valid purchases impossible.',
 [H, IN, C], 'Every price in 128-bit fixed point, every supply split, every history of deposits and withdrawals.',
 'and they sample a handful of prices.',
 [M+'fixed_price_presale.rs', I+'process_initialize_extra_presale_params.rs', ST+'fixed_price_presale_params.rs', I+'process_deposit.rs', I+'process_withdraw.rs'],
 [('token and quote conversion', M+'fixed_price_presale.rs'), ('suggested deposit / withdraw amount', M+'fixed_price_presale.rs')],
 [('q_price', 'quote per base in 64.64 fixed point', ST+'fixed_price_presale_params.rs')], ['deposit totals, claimed tokens'])

prop('C09', 'A filled sale ends at once and its whole schedule moves with it',
 'When a deposit fills a presale that is not pro rata and may end early, the sale ends at that moment and the immediate release, the lock and the vesting keep their distances to the end. In no other case does any instruction move the end, the release or the vesting times.',
 [H, SC, C], 'Every presale configuration and every history up to and beyond the filling deposit.',
 'and the shifted schedule only matters to later instructions.',
 [ST+'presale.rs', I+'process_deposit.rs', M+'mod.rs'],
 [('early end and recalculation of timing', ST+'presale.rs advance_progress_to_completed / recalculate_presale_timing')],
 [('immediate_release_timestamp, vesting_start_time, vesting_end_time', 'schedule', ST+'presale.rs')], ['stored schedule after a deposit'])

prop('C10', 'Withdrawing during the sale returns exactly what is taken off the books',
 'A withdrawal during the sale is possible only where the sale allows it (pro rata, or fixed price with withdrawals enabled), pays out exactly the amount by which the escrow, registry and presale totals fall, never exceeds what the buyer deposited, and leaves either nothing or at least the registry\'s minimum. The fee already paid is not returned by it, and at a fixed price a partial withdrawal is rounded to whole tokens.',
 [H, IN, C], 'Every amount, mode, history of deposits and withdrawals, token type.',
 'and it needs an escrow with a history.',
 [I+'process_withdraw.rs', M+'fixed_price_presale.rs', M+'prorata_presale.rs', M+'fcfs_presale.rs', ST+'presale.rs', ST+'escrow.rs'],
 [('can_withdraw / suggest_withdraw_amount', M+'*.rs'), ('symmetrical bookkeeping', ST+'presale.rs withdraw')], (), ['vault, wallet, totals'])

prop('C11', 'Vesting: nothing before its time, everything by the end, nothing twice',
 'A claim releases exactly the immediate part (from its release time on) plus the linearly vested part (from the vesting start on) minus what was claimed before, so that claiming often or once comes to the same. A buyer never holds more than what has been released, gets the whole entitlement once vesting ended, and can still claim at any later time.',
 [H, SC, C], 'Every claim schedule, vesting configuration, clock reading including all boundaries, and early end.',
 'and independence of the claim schedule quantifies over all schedules.',
 [S+'math/claim_math.rs', ST+'escrow.rs', I+'process_claim.rs', ST+'presale.rs', M+'mod.rs'],
 [('immediate and drip release', S+'math/claim_math.rs'), ('cumulative claim bookkeeping', ST+'escrow.rs update_pending_claim_token / claim')],
 [('total_claimed_token, pending_claim_token', 'per-escrow claim books', ST+'escrow.rs')], ['claimed amounts, wallet balances'])

prop('C12', 'Fair shares: each buyer gets the registry\'s sold tokens pro rata to deposit',
 'After a success every buyer\'s total entitlement is the registry\'s sold tokens times their part of the registry\'s deposits, rounded down by at most two units, whatever others do and whenever they claim. All entitlements of a registry together never exceed the tokens it sold, and these never exceed its supply.',
 [H, IN, C], 'All numbers of buyers, deposit sizes, modes, claim orders and escrow closings.',
 'and fairness relates several buyers.',
 [S+'math/claim_math.rs', ST+'presale_registry.rs', ST+'escrow.rs', M+'mod.rs', M+'fixed_price_presale.rs', M+'prorata_presale.rs', M+'fcfs_presale.rs'],
 [('share formula', S+'math/claim_math.rs'), ('sold tokens', M+'*.rs get_total_base_token_sold')], (), ['claimed and pending amounts per escrow'])

prop('C13', 'After a failed sale every buyer gets back all they paid, fee included, once',
 'When a presale ends below its minimum cap each buyer can take back, exactly once, everything they paid in and did not withdraw, deposit fee included. No escrow can be closed while such a refund is outstanding.',
 [H, SC], 'Every history ending in failure, every order of refunds, repeats and closings.',
 'and only complete histories through a failed end reach it.',
 [I+'process_withdraw_remaining_quote.rs', I+'process_close_escrow.rs', ST+'presale_registry.rs', ST+'escrow.rs'],
 [('full refund of deposit and fee on failure', ST+'presale_registry.rs get_refund_quote_token'), ('once-only flag', ST+'escrow.rs is_remaining_quote_withdrawn')], (), ['wallet balance of the buyer'])

prop('C14', 'Oversubscribed pro rata sale: the excess is refunded in proportion, once',
 'When a pro rata presale raised more than its maximum cap each buyer can take back, exactly once, their proportional part of the excess with the matching part of their deposit fee, rounded down and never more than that share. In all other successful presales there is no refund.',
 [H, IN, C], 'Every oversubscription ratio, split over registries with different fee rates, and order of refunds.',
 'and the formula needs deposits of several buyers and registries.',
 [I+'process_withdraw_remaining_quote.rs', ST+'presale_registry.rs', ST+'presale.rs', M+'prorata_presale.rs'],
 [('refund formulas', ST+'presale_registry.rs get_refund_quote_token / get_refund_deposit_fee'), ('once-only flag', ST+'escrow.rs')], (), ['wallet balance of the buyer', 'recorded refunds'])

prop('C15', 'The creator receives the proceeds, or the supply back, exactly once',
 'After a success the creator can withdraw exactly once exactly the amount raised up to the maximum cap, and no base tokens; after a failure exactly once the whole base supply, and no quote. Neither depends on what buyers, the fee collection or the unsold-token action have done before.',
 [H, C], 'Every history, mode and interleaving with the other settlement instructions.',
 'and the instruction is never executed by them.',
 [I+'process_creator_withdraw.rs', ST+'presale.rs'],
 [('min(total deposit, maximum cap)', ST+'presale.rs get_total_unclaimed_raised_quote / creator withdraw'), ('once-only flag', ST+'presale.rs')], (), ['wallet and vault balances'])

prop('C16', 'Deposit fees are collected exactly once and never include refunded fees',
 'After a success the creator can collect exactly once the deposit fees that are not due back to buyers: all of them in fixed-price and first-come sales, and in a pro rata sale those belonging to the part of the deposits that is kept. After a failure no fee can be collected.',
 [H, C, IN], 'Every fee rate per registry, oversubscription ratio and order of settlement.',
 'and fee collection is never executed by them.',
 [I+'process_creator_collect_fee.rs', ST+'presale.rs', ST+'presale_registry.rs'],
 [('collectable fee', ST+'presale.rs get_total_collectable_fee'), ('once-only flag', ST+'presale.rs')], (), ['wallet and vault balances'])

prop('C17', 'Unsold tokens are returned or burned exactly once, and only unsold ones',
 'After a success anybody can trigger, exactly once and only if there is something unsold, the configured action on exactly the supply minus the tokens sold: they are either all burned or all sent to the creator. The tokens sold are computed per registry, a registry nobody bought from having sold nothing.',
 [H, C], 'Every registry split, mode, rounding, and order relative to claims.',
 'and the action is never executed by them.',
 [I+'process_perform_unsold_base_token_action.rs', ST+'presale.rs', ST+'presale_registry.rs', M+'mod.rs'],
 [('unsold amount', I+'process_perform_unsold_base_token_action.rs'), ('once-only flag', ST+'presale.rs')], (), ['base vault, creator balance, mint supply'])

prop('C18', 'An escrow can be closed exactly when nothing is owed to it any more',
 'An owner can close an escrow during the sale only if deposit and fee are zero, after a failure only once the refund is taken or nothing was paid, and after a success only when everything has been claimed and any refund taken; then it is always possible, the rent goes to the receiver the owner names and the counters drop by one. Escrows never disappear in any other way, and closing moves no tokens.',
 [H, SC, C], 'Every escrow history and every moment of closing.',
 'and the guard depends on the whole history of the escrow.',
 [I+'process_close_escrow.rs', ST+'escrow.rs', ST+'presale.rs', ST+'presale_registry.rs'],
 [('per-outcome closing guards', I+'process_close_escrow.rs')], (), ['existence of the escrow account', 'rent receiver'])

prop('C19', 'Nobody takes part without passing the presale\'s whitelist',
 'An escrow in an open presale is opened for anyone with the registry\'s cap; in a proof-gated presale only with a valid proof; in an authority-gated presale only by an operator of the creator; never by another door than the presale\'s own. The personal cap is exactly the one granted, and no deposit is accepted without such an escrow.',
 [H, IN, C], 'Every whitelist mode against every way of opening an escrow.',
 'and the gates are never executed by them.',
 [I+'create_escrow/process_create_permissionless_escrow.rs', I+'create_escrow/process_create_permissioned_escrow_with_creator.rs', I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs', I+'create_escrow/process_create_escrow.rs'],
 [('whitelist-mode guard', I+'create_escrow/process_create_escrow.rs')], (), ['acceptance of escrow creation', 'stored cap'])

prop('C20', 'A whitelist proof grants exactly the listed owner, registry and cap',
 'A proof opens an escrow exactly when it shows that this owner with this registry and this cap is in a list whose root the creator published for this very presale; a proof of other values, of an inner node, or against another presale\'s root is rejected. A published root never changes.',
 [IN, H], 'All lists, all leaves, all forged, truncated, padded and mixed proofs.',
 'and they check a few proofs of one list off-chain.',
 [I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs', ST+'merkle_root_config.rs', I+'process_create_merkle_root_config.rs', 'merkle-tree/src/'],
 [('leaf and node hashing with distinct prefixes', I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs'), ('root account bound to the presale', ST+'merkle_root_config.rs')], (), ['acceptance of escrow creation'])

prop('C21', 'Operators act only for the creator who appointed them and until revoked',
 'An operator can open escrows only in authority-gated presales of the creator who appointed it, only while appointed, only within the registry\'s caps, and needs its own signature. Appointing and revoking affect exactly that pair, and only the appointing creator can revoke, getting the rent back.',
 [H, IN], 'All pairs of creators and operators, with appointments and revocations at any time.',
 'and operators are never executed by them.',
 [I+'process_create_operator.rs', I+'process_revoke_operator.rs', ST+'operator.rs', I+'create_escrow/process_create_permissioned_escrow_with_creator.rs'],
 [('operator account bound to creator and owner', I+'process_create_operator.rs')], (), ['operator accounts', 'acceptance of escrow creation'])

prop('C22', 'The off-chain whitelist builder produces roots and proofs the program accepts',
 'For every non-empty list the builder keeps one entry per owner (the last given), yields the root of the canonical tree over the kept entries, and for every kept entry a proof that verifies against that root on chain. The tree saved to disk and loaded again is the same tree; looking an owner up finds exactly its kept entry and no other; a tree whose root or entries were altered does not pass its own verification; the tree names the on-chain address of its own root and version. An empty list is refused.',
 [IN], 'All lists of any length and order, with duplicate owners, odd sizes and single entries.',
 'and they build two fixed lists.',
 ['merkle-tree/src/'],
 [('tree construction and proof extraction', 'merkle-tree/src/'), ('verification', I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs')], (), ['root and proofs returned', 'acceptance of escrow creation'])

prop('C23', 'A presale is admitted exactly when its parameters are consistent',
 'A presale can be created exactly when its caps, times, durations, modes, registries, vesting terms and fee rates are within the documented limits and consistent with each other, with the price at a fixed price, and with mints whose features are supported. Anything else, an unknown mode or action value included, is refused with no effect.',
 [IN, C], 'All parameter combinations, including the boundary values of each limit.',
 'and they check a few parameter sets one validator at a time, not the admission as a whole.',
 [I+'initialize_presale/params.rs', I+'initialize_presale/process_initialize_presale.rs', I+'initialize_presale/process_create_presale_vault.rs', I+'process_initialize_extra_presale_params.rs', M+'mod.rs', S+'constants.rs', S+'token2022.rs'],
 [('parameter validation', I+'initialize_presale/params.rs'), ('per-mode validation', M+'*.rs initialize_presale')], (), ['acceptance of creation'])

prop('C24', 'A created presale is exactly what was asked for and fully funded',
 'A newly created presale stores exactly the requested terms for the named creator (a start in the past counting as now), with all books at zero, and its base vault holds exactly the sum of the registry supplies, taken from the payer. Presales come into being in no other way, and pricing arguments are stored exactly as given.',
 [IN, C], 'All admissible parameter sets, payers, mints with and without transfer fees.',
 'and creation is never executed by them.',
 [I+'initialize_presale/process_initialize_presale.rs', I+'initialize_presale/process_create_presale_vault.rs', M+'mod.rs', ST+'presale.rs', ST+'presale_registry.rs', I+'process_initialize_extra_presale_params.rs'],
 [('initialisation', ST+'presale.rs initialize'), ('funding with the exact supply', I+'initialize_presale/process_initialize_presale.rs')], (), ['stored presale', 'base vault balance'])

prop('C25', 'Totals are sums: presale = its registries = their escrows',
 'At every moment the totals of a presale (deposits, fees, claimed, refunded, escrows, supply) equal the sums over its registries, and the totals of a registry equal the sums over all its escrows, the closed ones included, respectively the number of open ones. No instruction ever makes them drift apart.',
 [H, C], 'Every history over several registries and escrows including closings.',
 'and drift shows only over histories.',
 [ST+'presale.rs', ST+'presale_registry.rs', ST+'escrow.rs'],
 [('paired updates', ST+'presale.rs deposit / withdraw / claim / update_total_refunded_quote_token / increase_escrow_count / decrease_escrow_count')], (), ['stored totals'])

prop('C26', 'Mints with transfer fees: vaults receive the exact amounts, payouts bear the fee',
 'With a fee-charging mint the payer of a deposit or of the initial funding is charged exactly what makes the vault receive the exact amount under the fee in force in the current epoch, and every payout leaves the vault at face value, the receiver bearing the fee. Mints with features that could undermine the vaults are refused.',
 [IN, C, SC], 'All fee rates, fee maxima, fee changes across epochs, amounts and instructions.',
 'and they contain no fee-charging mint.',
 [S+'token2022.rs', I+'process_deposit.rs', I+'initialize_presale/process_initialize_presale.rs'],
 [('gross-up by the epoch\'s fee', S+'token2022.rs calculate_transfer_fee_included_amount'), ('extension whitelist', S+'token2022.rs is_supported_mint')], (), ['vault and wallet balances'])

prop('C27', 'Events report what actually happened',
 'Every accepted state-changing instruction that announces an event emits exactly one, naming the presale, the accounts and the parties concerned, with the amounts actually moved and the totals after the instruction.',
 [H, IN], 'Every accepted instruction in every history.',
 'and no event is ever observed by them.',
 [S+'events.rs', I+'*.rs'],
 [('emit_cpi at the end of each handler', I+'*.rs')], (), ['inner instruction data of the event CPI'])

prop('C28', 'Refreshing an escrow is harmless and available to anyone',
 'Refreshing an escrow changes nothing but its pending amount and time stamp, which then show exactly what is released and not claimed; it is possible for anyone at any time, and has no effect unless the sale was a success. Claimed plus pending never exceeds the entitlement.',
 [H, SC], 'Every moment and caller, interleaved arbitrarily with claims.',
 'and refresh is never executed by them.',
 [I+'process_refresh_escrow.rs', ST+'escrow.rs'],
 [('pending update', ST+'escrow.rs update_pending_claim_token')], (), ['stored escrow'])

prop('C29', 'The terms of a sale never change after it was created',
 'Creator, mints, caps, supply, price, modes, fee rates, registry limits, lock and vesting durations of a presale and the cap of an escrow never change after creation; the schedule only by an early end, which only brings it forward. A presale never disappears.',
 [H], 'Every history.',
 'and immutability quantifies over every instruction.',
 [ST+'presale.rs', ST+'presale_registry.rs', ST+'escrow.rs'],
 [('only counters and flags are written after creation', ST+'presale.rs')], (), ['stored presale'])

prop('C30', 'Settlement can always be completed and leaves only dust',
 'After the end every claim, refund, creator withdrawal, fee collection, unsold-token action and escrow closing that is due succeeds with its full effect, in whatever order and however late the parties act. Once all escrows are closed and the creator has settled, at most a few units per escrow remain in the vaults.',
 [H, SC, C], 'Every order of settlement and every delay.',
 'and completing a settlement takes a whole history.',
 [I+'process_claim.rs', I+'process_withdraw_remaining_quote.rs', I+'process_creator_withdraw.rs', I+'process_creator_collect_fee.rs', I+'process_perform_unsold_base_token_action.rs', I+'process_close_escrow.rs'],
 [('settlement handlers independent of each other', I+'*.rs')], (), ['acceptance of due instructions', 'vault balances at the end'])

prop('C31', 'Roots, server metadata and pricing arguments live and die as their owner says',
 'Whitelist roots and server metadata can be created only by the presale\'s creator for a presale of the matching whitelist mode before its end, pricing arguments only once per presale with a positive price; they are stored exactly as given, are never changed, and are closed only by the creator respectively their owner (roots not during the sale), with the rent going to the receiver named. None of this touches presales, escrows or tokens.',
 [H, IN, C], 'All versions, presales, signers and moments.',
 'and these instructions are never executed by them.',
 [I+'process_create_merkle_root_config.rs', I+'process_close_merkle_root_config.rs', I+'process_create_permissioned_server_metadata.rs', I+'process_close_merkle_proof_metadata.rs', I+'process_initialize_extra_presale_params.rs', I+'process_close_extra_presale_params.rs', ST+'merkle_root_config.rs', ST+'permissioned_server_metadata.rs', ST+'fixed_price_presale_params.rs'],
 [('owner and mode guards', I+'*.rs')], (), ['the accounts and their rent'])

prop('C32', 'One escrow per presale, owner and registry, starting empty',
 'For each presale, owner and existing registry there is at most one open escrow; it starts with empty books and the granted cap, and the counters go up by exactly one. Opening it again while it is open is refused without any effect on it, opening costs its owner no tokens, and anyone may pay for it.',
 [H, IN], 'All owners, registries and ways of opening, including repeated opening and opening again after closing.',
 'and escrow creation is never executed by them.',
 [I+'create_escrow/process_create_escrow.rs', I+'create_escrow/process_create_permissionless_escrow.rs', I+'create_escrow/process_create_permissioned_escrow_with_creator.rs', I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs', ST+'escrow.rs', ST+'presale.rs'],
 [('derived address per presale, registry, owner', I+'create_escrow/*.rs seeds'), ('initialisation', ST+'escrow.rs initialize')], (), ['stored escrow and counters'])

prop('C33', 'Arithmetic is exact or refuses, up to the largest amounts',
 'With amounts, supplies, caps and prices up to the limits of 64-bit tokens and 128-bit prices, every instruction either has exactly the effect that unbounded integer arithmetic prescribes or is refused with no effect because a result cannot be represented; nothing wraps, truncates or loses precision. No admitted presale becomes unusable because an intermediate result is large.',
 [IN, H, C], 'All magnitudes up to the type limits in every instruction.',
 'and they use small amounts.',
 [S+'math/safe_math.rs', S+'math/claim_math.rs', S+'math/fee_math.rs', ST+'presale_registry.rs', M+'fixed_price_presale.rs', S+'token2022.rs'],
 [('checked arithmetic and 128/256-bit intermediates', S+'math/*.rs')], (), ['effects and acceptance at large magnitudes'])

prop('C34', 'Hooked mints: every transfer runs the hook, no foreign accounts pass',
 'With a hooked mint every instruction that moves its tokens succeeds when the hook\'s accounts are supplied and has the same effects as without a hook; when they are missing, in surplus slices, labelled for the other mint, duplicated or truncated it is refused with no effect. Mints without a hook work without any extra accounts.',
 [IN, C], 'Every token-moving instruction, hooked base or quote mint, every way of supplying hook accounts.',
 'and they contain no hooked mint.',
 [S+'token2022.rs', I+'process_deposit.rs', I+'process_claim.rs', I+'process_withdraw.rs', I+'process_withdraw_remaining_quote.rs', I+'process_creator_withdraw.rs', I+'process_creator_collect_fee.rs', I+'process_perform_unsold_base_token_action.rs', I+'initialize_presale/process_initialize_presale.rs'],
 [('remaining-accounts slices', S+'token2022.rs parse_remaining_accounts_for_transfer_hook')], (), ['acceptance and balances'])

NA = []
LEVEL = ('Quint specification of the whole program (state and all instructions, unbounded integers) with the property as a predicate over '
         'transitions and history. Each run (a) explores the specification with the property evaluated on every transition, '
         '(b) replays thousands of specification behaviours in the real program (compiled from /repo, executed natively with the real token '
         'programs) comparing full state, events and balances after each instruction, (c) evaluates the property on what the program actually '
         'did wherever it departed from the specification. Bounded, randomised exploration, not a proof; trusts the runtime bridge, SPL Token, '
         'Token-2022 and the Quint simulator.')
def main():
    with open(f'{V}/properties.jsonl', 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    na = {x['property'] for x in NA}
    m = {'version': 1, 'setup_cmd': 'python3 tools/verif.py setup',
         'checks': [{'property': p['id'], 'quick_cmd': f'python3 tools/verif.py check {p["id"]} --tier quick',
                     'thorough_cmd': f'python3 tools/verif.py check {p["id"]} --tier thorough',
                     'evidence_file': f'evidence/{p["id"]}.json',
                     'technique': 'Quint specification; model exploration with the property as transition predicate; replay of specification behaviours in the real program; judgement of recorded program traces by the specification',
                     'level': 'model_checking', 'level_note': LEVEL} for p in P if p['id'] not in na],
         'not_applicable': NA,
         'notes': 'No hooks in /repo are needed: the replayer uses only the program\'s public instruction interface and account data. See DESIGN.md.'}
    with open(f'{V}/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
if __name__ == '__main__':
    main()
