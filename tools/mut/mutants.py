# (name, properties expected to notice, file, old, new[, nth occurrence]) -- ad-hoc mutations used while developing the checks
S='programs/presale/src/'
I=S+'instructions/'
P=S+'state/presale.rs'; R=S+'state/presale_registry.rs'; E=S+'state/escrow.rs'
M=[
('fee-round-down','C07',R,'self.deposit_fee_bps, Rounding::Up','self.deposit_fee_bps, Rounding::Down'),
('regfee-not-rec','C07 C25',R,'self.total_deposit_fee = self.total_deposit_fee.safe_add(fee)?;','self.total_deposit_fee = self.total_deposit_fee.safe_add(fee.min(1_000_000))?;'),
('presale-dep-fee-incl','C06 C25',P,'self.total_deposit = self.total_deposit.safe_add(deposit_amount)?;','self.total_deposit = self.total_deposit.safe_add(deposit_fee_calculation.amount_included_fee)?;'),
('withdraw-reg-not','C25 C10',R,'''        escrow.withdraw(amount)?;
        self.total_deposit = self.total_deposit.safe_sub(amount)?;''','''        escrow.withdraw(amount)?;
        if escrow.total_deposit > 0 { self.total_deposit = self.total_deposit.safe_sub(amount)?; } else { self.total_deposit = self.total_deposit.saturating_sub(amount + 1); }'''),
('refund-fee-ceil','C14 C01',R,'''.safe_mul(registry_remaining_quote)?
            .safe_div(self.total_deposit.into())?;''','''.safe_mul(registry_remaining_quote)?
            .safe_add(u128::from(self.total_deposit) - 1)?
            .safe_div(self.total_deposit.into())?;'''),
('refund-amt-ceil','C14 C01',R,'''.safe_mul(self.total_deposit.into())?
            .safe_div(presale_total_deposit.into())?;''','''.safe_mul(self.total_deposit.into())?
            .safe_add(u128::from(presale_total_deposit) - 1)?
            .safe_div(presale_total_deposit.into())?;'''),
('uninit-or','C17 C16',R,'''self.presale_supply == 0
            && self.buyer_maximum_deposit_cap == 0''','''self.presale_supply == 0
            || self.total_deposit == 0
            && self.buyer_maximum_deposit_cap == 0''' ),
('sold-break','C17 C02',S+'presale_mode_handler/mod.rs','''        if registry.total_deposit == 0 {
            continue;''','''        if registry.total_deposit == 0 {
            break;'''),
('sold-break-fixed','C17 C02',S+'presale_mode_handler/fixed_price_presale.rs','''            if presale_registry.total_deposit == 0 {
                continue;''','''            if presale_registry.total_deposit == 0 {
                break;'''),
('fixed-sold-nomin','C17 C02',S+'presale_mode_handler/fixed_price_presale.rs','''presale_registry.total_deposit)?
                .min(presale_registry.presale_supply.into());''','''presale_registry.total_deposit)?;'''),
('fixed-claim-nomin','C08 C12',S+'presale_mode_handler/fixed_price_presale.rs','''                .safe_cast()?
                .min(presale_registry.presale_supply);''','''                .safe_cast()?;'''),
('progress-gt','C05',P,'if self.total_deposit >= self.presale_minimum_cap','if self.total_deposit > self.presale_minimum_cap'),
('progress-end-le','C05',P,'} else if current_timestamp < self.presale_end_time {','} else if current_timestamp <= self.presale_end_time {'),
('progress-start','C05',P,'if current_timestamp < self.presale_start_time {','if current_timestamp <= self.presale_start_time {'),
('early-imm-not-shift','C09',P,'''        self.immediate_release_timestamp = self
            .presale_end_time
            .safe_add(duration_until_immediate_release)?;''','''        let _ = duration_until_immediate_release;'''),
('early-vest-end','C09 C29',P,'''        self.vesting_start_time = vesting_start_time;
        self.vesting_end_time = vesting_end_time;

        self.immediate_release_timestamp = self''','''        self.vesting_start_time = vesting_start_time;
        let _ = vesting_end_time;

        self.immediate_release_timestamp = self'''),
('early-gt','C09',S+'presale_mode_handler/mod.rs','if presale.total_deposit >= presale.presale_maximum_cap','if presale.total_deposit > presale.presale_maximum_cap'),
('vest-nomin','C11',S+'math/claim_math.rs','''.safe_sub(vesting_start_time)?
            .min(vest_duration);''','''.safe_sub(vesting_start_time)?;'''),
('vest-start-le','C11',S+'math/claim_math.rs','if current_timestamp < vesting_start_time {','if current_timestamp <= vesting_start_time {'),
('imm-gt','C11',S+'math/claim_math.rs','if current_timestamp >= immediate_release_timestamp','if current_timestamp > immediate_release_timestamp'),
('imm-ignored-ts','C11',S+'math/claim_math.rs','if current_timestamp >= immediate_release_timestamp','if current_timestamp >= immediate_release_timestamp.min(vesting_start_time)'),
('drip-order','C11 C12',S+'math/claim_math.rs','''    let dripped_user_token = dripped_total_sold_token
        .safe_mul(user_deposit.into())?
        .safe_div(total_deposit.into())?;''','''    let dripped_user_token = dripped_total_sold_token
        .safe_mul(user_deposit.into())?
        .safe_add(u128::from(total_deposit) / 2)?
        .safe_div(total_deposit.into())?;'''),
('refresh-acc','C28 C11',E,'self.pending_claim_token = self.pending_claim_token.safe_add(pending_claim_token)?;','self.pending_claim_token = pending_claim_token;'),
('claim-keeps-pending','C11 C02',E,'''        self.pending_claim_token = 0;
        Ok(claimed_token)''','''        if claimed_token > 1 { self.pending_claim_token = 0; }
        Ok(claimed_token)'''),
('esc-quota-nomin','C06',E,'buyer_maximum_buy_cap.min(self.deposit_max_cap)','buyer_maximum_buy_cap.max(self.deposit_max_cap)'),
('close-no-fee','C18',I+'process_close_escrow.rs','''        escrow.total_deposit == 0 && escrow.total_deposit_fee == 0,
        PresaleError::EscrowNotEmpty
    );
    Ok(())
}

fn ensure_escrow_withdrawn''','''        escrow.total_deposit == 0,
        PresaleError::EscrowNotEmpty
    );
    Ok(())
}

fn ensure_escrow_withdrawn'''),
('close-failed-no-fee','C18 C13',I+'process_close_escrow.rs','''            || (escrow.total_deposit == 0 && escrow.total_deposit_fee == 0),''','''            || escrow.total_deposit == 0,'''),
('close-refund-fee-only','C18 C14',I+'process_close_escrow.rs','if refund_deposit_amount > 0 || refund_fee_amount > 0 {','if refund_deposit_amount > 0 && refund_fee_amount > 0 {'),
('close-current-ts','C18',I+'process_close_escrow.rs','get_escrow_cumulative_claimable_token(presale, escrow, vesting_end_time)?;','get_escrow_cumulative_claimable_token(presale, escrow, vesting_end_time.min(current_timestamp))?;'),
('close-nodec','C25 C18',P,'''        presale_registry.decrease_escrow_count()?;
''','''        if presale_registry.total_deposit > 0 { presale_registry.decrease_escrow_count()?; }
'''),
('wd-hasone-owner','C04',I+'process_withdraw.rs','''        has_one = presale,
        has_one = owner
    )]''','''        has_one = presale,
    )]'''),
('claim-hasone-presale','C03 C04',I+'process_claim.rs','''        has_one = presale,
        has_one = owner
    )]''','''        has_one = owner
    )]'''),
('wrq-hasone-owner','C04',I+'process_withdraw_remaining_quote.rs','''        has_one = presale,
        has_one = owner
    )]''','''        has_one = presale,
    )]'''),
('dep-hasone-vault','C03 C04',I+'process_deposit.rs','''        has_one = quote_token_vault,
''',''''''),
('wd-hasone-vault','C03 C04',I+'process_withdraw.rs','''        has_one = quote_token_vault,
''',''''''),
('claim-hasone-vault','C03 C04',I+'process_claim.rs','''        has_one = base_token_vault,
''',''''''),
('claim-hasone-mint','C03 C04',I+'process_claim.rs','''        has_one = base_mint,
''',''''''),
('cw-hasone-owner','C04',I+'process_creator_withdraw.rs','''        has_one = owner,
''',''''''),
('cf-hasone-owner','C04',I+'process_creator_collect_fee.rs','''        has_one = owner,
''',''''''),
('cf-hasone-vault','C04',I+'process_creator_collect_fee.rs','''        has_one = quote_mint,
        has_one = quote_token_vault''','''        has_one = quote_mint'''),
('unsold-anydest','C17 C04',I+'process_perform_unsold_base_token_action.rs','''        associated_token::authority = presale.load()?.owner,
        associated_token::mint = base_mint,
        associated_token::token_program = token_program
''',''''''),
('cw-vault','C03 C04',I+'process_creator_withdraw.rs','accounts.quote_token_vault.key() == presale.quote_token_vault,','accounts.quote_token_vault.mint == presale.quote_mint,'),
('cw-base-vault','C03 C04',I+'process_creator_withdraw.rs','accounts.base_token_vault.key() == presale.base_token_vault,','accounts.base_token_vault.mint == presale.base_mint,'),
('refresh-hasone','C03',I+'process_refresh_escrow.rs','''        has_one = presale,
''',''''''),
('closeesc-presale','C03 C04',I+'process_close_escrow.rs','''        has_one = presale,
''',''''''),
('closeroot-creator','C04',I+'process_close_merkle_root_config.rs','''presale.load()?.owner == creator.key()''','''creator.key() != Pubkey::default()'''),
('closemeta-presale','C04 C31',I+'process_close_merkle_proof_metadata.rs','''        has_one = presale,
''',''''''),
('closefa-owner','C04 C31',I+'process_close_extra_presale_params.rs','''        has_one = owner,
''',''''''),
('revoke-creator','C04 C21',I+'process_revoke_operator.rs','''        has_one = creator,
''',''''''),
('op-owner','C21 C19',I+'create_escrow/process_create_permissioned_escrow_with_creator.rs','operator.owner == *operator_owner,','operator.owner != Pubkey::default() && operator_owner != &Pubkey::default(),'),
('op-creator','C21 C19',I+'create_escrow/process_create_permissioned_escrow_with_creator.rs','operator.creator == presale.owner,','operator.creator != Pubkey::default() && presale.owner != Pubkey::default(),'),
('proof-hasone','C20 C19',I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs','''    #[account(has_one = presale)]
''',''''''),
('proof-noreg','C20',I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs','''        registry_index.to_le_bytes().as_ref(),
        deposit_cap''','''        0u8.to_le_bytes().as_ref(),
        deposit_cap'''),
('gate-open','C19',I+'create_escrow/process_create_permissionless_escrow.rs','!whitelist_mode.is_permissioned(),','whitelist_mode != WhitelistMode::PermissionWithAuthority,'),
('gate-creator','C19',I+'create_escrow/process_create_permissioned_escrow_with_creator.rs','whitelist_mode == WhitelistMode::PermissionWithAuthority,','whitelist_mode.is_permissioned(),'),
('gate-proof','C19',I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs','whitelist_mode == WhitelistMode::PermissionWithMerkleProof,','whitelist_mode.is_permissioned(),'),
('regidx-le','C32',I+'create_escrow/process_create_escrow.rs','registry_index < presale.total_presale_registry_count,','registry_index <= presale.total_presale_registry_count,'),
('cap-min','C19 C21',I+'create_escrow/process_create_escrow.rs','''deposit_cap >= registry.buyer_minimum_deposit_cap
                && deposit_cap''','''deposit_cap'''),
('cw-cap','C15 C01',I+'process_creator_withdraw.rs','presale.total_deposit.min(presale.presale_maximum_cap),','presale.total_deposit,'),
('cw-twice','C15',P,'self.has_creator_withdrawn != 0','self.has_creator_withdrawn == 0b11'),
('fee-twice','C16',P,'self.deposit_fee_collected == 1','self.deposit_fee_collected > 1'),
('fee-prorata-all','C16 C01',P,'total_fee = total_fee.safe_add(registry_collected_fee)?;','total_fee = total_fee.safe_add(registry.total_deposit_fee.max(registry_collected_fee))?;'),
('unsold-twice','C17 C02',P,'self.is_unsold_token_action_performed = 1;','self.is_unsold_token_action_performed = (self.presale_mode == 0) as u8;'),
('refund-twice','C13 C14',I+'process_withdraw_remaining_quote.rs','    escrow.update_remaining_quote_withdrawn()?;','    if total_refund_amount > 0 && refund_deposit_amount != refund_fee_amount { escrow.update_remaining_quote_withdrawn()?; }'),
('failed-nofee','C13',P,'(escrow.total_deposit, escrow.total_deposit_fee)','(escrow.total_deposit, if escrow.total_deposit > 0 { escrow.total_deposit_fee } else { 0 })'),
('quota-global','C06',S+'presale_mode_handler/fcfs_presale.rs','Ok(global_remaining_quota.min(personal_remaining_quota))','let _ = global_remaining_quota; Ok(personal_remaining_quota)'),
('quota-registry','C06 C08',S+'presale_mode_handler/fixed_price_presale.rs','''            .min(personal_remaining_quota)
            .min(registry_remaining_deposit_quota))''','''            .min(personal_remaining_quota)
            .min(registry_remaining_deposit_quota.max(global_remaining_quota)))'''),
('dep-validate','C06',I+'process_deposit.rs','    presale_registry.validate_escrow_deposit(&escrow)?;\n','    let _ = presale_registry;\n'),
('wd-validate','C10 C06',I+'process_withdraw.rs','    presale_registry.validate_escrow_deposit(&escrow)?;\n','    let _ = presale_registry;\n'),
('wd-phase','C05 C10',I+'process_withdraw.rs','presale_progress == PresaleProgress::Ongoing,','presale_progress == PresaleProgress::Ongoing || presale_progress == PresaleProgress::Failed,'),
('claim-phase','C05',I+'process_claim.rs','presale_progress == PresaleProgress::Completed,','presale_progress == PresaleProgress::Completed || presale_progress == PresaleProgress::Failed,'),
('tf-epoch','C26',S+'token2022.rs','transfer_fee_config.get_epoch_fee(epoch)','transfer_fee_config.get_epoch_fee(epoch.saturating_sub(1))'),
('tf-100','C26',S+'token2022.rs','u64::from(epoch_transfer_fee.maximum_fee)\n            } else','u64::from(epoch_transfer_fee.maximum_fee).min(transfer_fee_excluded_amount)\n            } else'),
('ext-wl','C26 C23',S+'token2022.rs','''            && e != ExtensionType::TransferHook
''','''            && e != ExtensionType::TransferHook
            && e != ExtensionType::PermanentDelegate
'''),
('hook-dup','C34',S+'token2022.rs','''                if parsed_remaining_accounts.transfer_hook_quote.is_some() {
                    return Err(PresaleError::DuplicatedRemainingAccountTypes.into());
                }
''',''''''),
('hook-valid','C34',S+'token2022.rs','''            return Err(PresaleError::InvalidRemainingAccountSlice.into());
        }

        if slice.length == 0''','''            continue;
        }

        if slice.length == 0'''),
('evt-dep','C27',I+'process_deposit.rs','deposit_amount: suggested_deposit_amount,','deposit_amount: included_fee_deposit_amount,'),
('evt-claim','C27',I+'process_claim.rs','presale_total_claim_amount: presale.total_claimed_token','presale_total_claim_amount: escrow.total_claimed_token'),
('adm-maxlock','C23',I+'initialize_presale/params.rs','total_duration < MAXIMUM_LOCK_AND_VEST_DURATION,','total_duration <= MAXIMUM_LOCK_AND_VEST_DURATION,'),
('adm-mincap','C23',I+'initialize_presale/params.rs','self.presale_maximum_cap >= self.presale_minimum_cap,','self.presale_maximum_cap > self.presale_minimum_cap,'),
('adm-feebps','C23',I+'initialize_presale/params.rs','self.deposit_fee_bps <= MAX_DEPOSIT_FEE_BPS,','self.deposit_fee_bps < MAX_FEE_BASIS_POINTS,'),
('adm-immrel','C23',I+'initialize_presale/params.rs','&& self.immediate_release_timestamp <= vesting_end_time,','&& self.immediate_release_timestamp <= vesting_end_time + 1,'),
('start-back','C24',P,'''            presale_params.get_presale_start_time_without_going_backwards(current_timestamp);''','''            presale_params.presale_start_time;'''),
('fixed-extra-presale','C08 C23',S+'presale_mode_handler/fixed_price_presale.rs','presale_extra_param.presale == presale_pubkey,','presale_extra_param.presale != Pubkey::default() && presale_pubkey != Pubkey::default(),'),
('fixed-gap','C23',S+'presale_mode_handler/fixed_price_presale.rs','require!(delta > 0, PresaleError::PresaleMinMaxCapGapTooSmall);','let _ = delta;'),
('fixed-quote-floor','C08',S+'presale_mode_handler/fixed_price_presale.rs','''        .safe_mul(q_price)?
        .div_ceil(SCALE_MULTIPLIER);

    // Due''','''        .safe_mul(q_price)?
        .safe_div(SCALE_MULTIPLIER)?.max(1);

    // Due'''),
('root-phase','C05 C31',I+'process_close_merkle_root_config.rs','progress != PresaleProgress::Ongoing,','progress != PresaleProgress::Completed,'),
('meta-mode','C31',I+'process_create_permissioned_server_metadata.rs','''whitelist_mode == WhitelistMode::PermissionWithMerkleProof
            || whitelist_mode == WhitelistMode::PermissionWithAuthority,''','''whitelist_mode == WhitelistMode::PermissionWithMerkleProof,'''),
('tree-dedup','C22','merkle-tree/src/config_merkle_tree.rs','tree_nodes_map.insert(escrow_owner, tree_node);','tree_nodes_map.entry(escrow_owner).or_insert(tree_node);'),
('claim-u64','C33',S+'math/claim_math.rs','''        u128::from(vested_amount)
            .safe_mul(elapsed_seconds.into())?
            .safe_div(vest_duration.into())?''','''        u128::from(vested_amount)
            .safe_div(vest_duration.into())?
            .safe_mul(elapsed_seconds.into())?'''),
('cap-user-refund','C30 C14',P,'''        self.total_refunded_quote_token = self.total_refunded_quote_token.safe_add(amount)?;
        Ok(())''','''        self.total_refunded_quote_token = self.total_refunded_quote_token.safe_add(amount)?;
        require!(self.total_refunded_quote_token <= self.total_deposit, PresaleError::MathOverflow);
        Ok(())'''),
('memo','C30',S+'token2022.rs','Ok(memo_transfer.require_incoming_transfer_memos.into())','{ let _ = memo_transfer; Ok(false) }'),
('native22','C23 C26',S+'token2022.rs','''    if spl_token_2022::native_mint::check_id(&mint_account.key()) {
        return Ok(false);
    }
''',''''''),

# ---- second wave: rarely met conditions ----
('w2-fee-4regs','C16 C01',P,'''                for registry in self.presale_registries.iter() {
                    // We can''','''                for registry in self.presale_registries.iter().take(4) {
                    // We can'''),
('w2-sold-4regs','C17 C02',S+'presale_mode_handler/mod.rs','''    let mut total_token_sold = 0;

    for registry in presale.presale_registries.iter() {''','''    let mut total_token_sold = 0;

    for registry in presale.presale_registries.iter().take(4) {'''),
('w2-sold-fixed-4regs','C17 C02',S+'presale_mode_handler/fixed_price_presale.rs','''for presale_registry in presale.presale_registries.iter() {''','''for presale_registry in presale.presale_registries.iter().take(4) {'''),
('w2-fixed-validate-first','C23 C08',S+'presale_mode_handler/fixed_price_presale.rs','''for registry in presale.presale_registries.iter() {''','''for registry in presale.presale_registries.iter().take(1) {'''),
('w2-dyn-validate-4','C23',S+'presale_mode_handler/mod.rs','''pub fn enforce_dynamic_price_registries_max_buyer_cap_range(presale: &Presale) -> Result<()> {
    for registry in presale.presale_registries.iter() {''','''pub fn enforce_dynamic_price_registries_max_buyer_cap_range(presale: &Presale) -> Result<()> {
    for registry in presale.presale_registries.iter().take(4) {'''),
('w2-regcap-min','C19 C21',I+'create_escrow/process_create_escrow.rs','deposit_cap >= registry.buyer_minimum_deposit_cap','deposit_cap + 1 >= registry.buyer_minimum_deposit_cap'),
('w2-opencap','C19',I+'create_escrow/process_create_escrow.rs','deposit_cap.unwrap_or(registry.buyer_maximum_deposit_cap)','deposit_cap.unwrap_or(presale.presale_maximum_cap)'),
('w2-gap-ge','C23',S+'presale_mode_handler/fixed_price_presale.rs','require!(delta > 0, PresaleError::PresaleMinMaxCapGapTooSmall);','require!(delta > 0 || presale_maximum_cap > presale_minimum_cap, PresaleError::PresaleMinMaxCapGapTooSmall);'),
('w2-buyable-max','C23',S+'presale_mode_handler/fixed_price_presale.rs','''    require!(
        max_token_bought <= u64::MAX as u128,
        PresaleError::InvalidTokenPrice
    );
    Ok(())''','''    Ok(())'''),
('w2-enough','C23',S+'presale_mode_handler/fixed_price_presale.rs','max_presale_supply_bought <= u128::from(presale_supply)','max_presale_supply_bought <= u128::from(presale_supply) + 1'),
('w2-regsup-cap','C08',S+'presale_mode_handler/fixed_price_presale.rs','''        if total_token_sold == presale_registry.presale_supply {
            return Ok(0);
        }''',''''''),
('w2-wd-suggest','C10 C08',S+'presale_mode_handler/fixed_price_presale.rs','if escrow.total_deposit == max_withdraw_amount {','if escrow.total_deposit <= max_withdraw_amount.saturating_add(1) {'),
('w2-wd-dis-early','C10',S+'presale_mode_handler/fixed_price_presale.rs','!self.is_withdraw_disabled()','!self.is_withdraw_disabled() && !self.is_earlier_presale_end_disabled()'),
('w2-early-imm-sat','C09',P,'''            .immediate_release_timestamp
            .saturating_sub(self.presale_end_time);''','''            .immediate_release_timestamp
            .max(self.presale_start_time)
            .saturating_sub(self.presale_start_time)
            .min(self.immediate_release_timestamp.saturating_sub(self.presale_end_time));'''),
('w2-early-lock','C09',P,'''            self.presale_end_time,
            self.lock_duration,
            self.vest_duration,
        )?;

        self.vesting_start_time = vesting_start_time;
        self.vesting_end_time = vesting_end_time;

        self.imm''','''            self.presale_end_time.max(self.created_at + MINIMUM_PRESALE_DURATION),
            self.lock_duration,
            self.vest_duration,
        )?;

        self.vesting_start_time = vesting_start_time;
        self.vesting_end_time = vesting_end_time;

        self.imm'''),
('w2-close-deposited','C23',I+'process_close_escrow.rs','''            || (escrow.total_deposit == 0 && escrow.total_deposit_fee == 0),''','''            || escrow.total_deposit == 0,'''),
('w2-close-refundfee','C23 C14',I+'process_close_escrow.rs','if refund_deposit_amount > 0 || refund_fee_amount > 0 {','if refund_deposit_amount > 0 {'),
('w2-close-started','C23 C05',I+'process_close_escrow.rs','''        PresaleProgress::Ongoing => {
            ensure_escrow_no''','''        PresaleProgress::Ongoing | PresaleProgress::NotStarted => {
            ensure_escrow_no'''),
('w2-close-vestend','C23',I+'process_close_escrow.rs','let vesting_end_time = presale.vesting_start_time.safe_add(presale.vest_duration)?;','let vesting_end_time = presale.vesting_start_time.safe_add(presale.vest_duration)?.min(current_timestamp.max(presale.vesting_start_time));'),
('w2-close-imm-late','C23',I+'process_close_escrow.rs','escrow.total_claimed_token == escrow_total_claimable_amount','escrow.sum_claimed_and_pending_claim_amount()? == escrow_total_claimable_amount'),
('w2-refund-nofee','C14 C16',R,'''        let registry_refund_fee = u128::from(self.total_deposit_fee)
            .safe_mul(registry_remaining_quote)?''','''        let registry_refund_fee = u128::from(self.total_deposit_fee.min(self.total_deposit))
            .safe_mul(registry_remaining_quote)?'''),
('w2-refund-remaining-min','C14 C01',P,'self.total_deposit.saturating_sub(self.presale_maximum_cap)','self.total_deposit.saturating_sub(self.presale_maximum_cap.max(self.presale_minimum_cap + 1))'),
('w2-refund-escrow-fee','C14',P,'let escrow_refund_fee = if presale_registry.total_deposit_fee > 0 {','let escrow_refund_fee = if presale_registry.total_deposit_fee > 0 && escrow.total_deposit > 0 {'),
('w2-refunded-reg','C25',P,'presale_registry.update_total_refunded_quote_token(amount)?;','if amount > 0 && registry_index < 4 { presale_registry.update_total_refunded_quote_token(amount)?; }'),
('w2-claim-reg','C25',P,'presale_registry.update_total_claim_amount(claimed_amount)?;','if presale_registry.total_claimed_token == 0 || claimed_amount > 1 { presale_registry.update_total_claim_amount(claimed_amount)?; }'),
('w2-esc-count','C25',P,'''        presale_registry.decrease_escrow_count()?;
        self.total_escrow = self.total_escrow.safe_sub(1)?;''','''        presale_registry.decrease_escrow_count()?;
        if presale_registry.total_escrow > 0 || registry_index == 0 { self.total_escrow = self.total_escrow.safe_sub(1)?; }'''),
('w2-unsold-zero','C17',I+'process_perform_unsold_base_token_action.rs','require!(total_token_unsold > 0, PresaleError::NoUnsoldBaseTokens);',''),
('w2-unsold-failed','C17 C05',I+'process_perform_unsold_base_token_action.rs','presale_progress == PresaleProgress::Completed,','presale_progress == PresaleProgress::Completed || (presale_progress == PresaleProgress::Failed && presale.total_deposit == 0),'),
('w2-cf-failed','C16 C05',I+'process_creator_collect_fee.rs','presale_progress == PresaleProgress::Completed && !presale','presale_progress != PresaleProgress::Ongoing && presale_progress != PresaleProgress::NotStarted && !presale'),
('w2-cf-flag','C16',I+'process_creator_collect_fee.rs','''    presale.set_deposit_fee_collected();

    if total_deposit_fee > 0 {''','''    if total_deposit_fee > 0 {
        presale.set_deposit_fee_collected();'''),
('w2-cw-fee-failed','C15 C02',I+'process_creator_withdraw.rs','''                presale.presale_supply,
                base_token_vault,''','''                presale.presale_supply.min(base_token_vault.amount),
                base_token_vault,'''),
('w2-evt-cw','C27',I+'process_creator_withdraw.rs','amount: exclude_fee_amount,','amount: exclude_fee_amount.min(presale.total_deposit.max(1)),'),
('w2-evt-wrq','C27',I+'process_withdraw_remaining_quote.rs','amount_refunded: exclude_fee_amount_to_refund,','amount_refunded: exclude_fee_amount_to_refund.min(refund_deposit_amount),'),
('w2-evt-escrowcount','C27',I+'create_escrow/process_create_permissioned_escrow_with_creator.rs','total_escrow_count: presale.total_escrow,','total_escrow_count: presale.presale_registries[registry_index as usize].total_escrow,'),
('w2-evt-depowner','C27',I+'process_deposit.rs','owner: ctx.accounts.payer.key(),','owner: escrow.owner,'),
('w2-evt-rent','C27',I+'process_close_escrow.rs','rent_receiver: ctx.accounts.rent_receiver.key(),','rent_receiver: ctx.accounts.owner.key(),'),
('w2-evt-refresh','C27',I+'process_refresh_escrow.rs','        current_timestamp,\n    });','        current_timestamp: escrow.last_refreshed_at,\n    });'),
('w2-evt-start','C27',I+'initialize_presale/process_initialize_presale.rs','presale_start_time: presale_params.presale_start_time,','presale_start_time: presale_params.presale_start_time.max(1),'),
('w2-refresh-phase','C28',I+'process_refresh_escrow.rs','if presale_progress == PresaleProgress::Completed {','if presale_progress == PresaleProgress::Completed || presale_progress == PresaleProgress::Ongoing && presale.total_deposit >= presale.presale_maximum_cap {'),
('w2-refresh-ts','C28',E,'self.last_refreshed_at = current_timestamp;','self.last_refreshed_at = self.last_refreshed_at.max(current_timestamp.min(self.created_at + 1_000_000));'),
('w2-vest-0','C11',S+'math/claim_math.rs','let dripped_total_sold_token = if vest_duration == 0 {','let dripped_total_sold_token = if vest_duration <= 1 {'),
('w2-vest-u32','C11',S+'math/claim_math.rs','''            .safe_sub(vesting_start_time)?
            .min(vest_duration);''','''            .safe_sub(vesting_start_time)?;
        let elapsed_seconds = u64::from(elapsed_seconds as u32).min(vest_duration);'''),
('w2-imm-zero','C11',S+'math/claim_math.rs','if current_timestamp >= immediate_release_timestamp {','if immediate_release_timestamp > 0 && current_timestamp >= immediate_release_timestamp {'),
('w2-share-drip-order','C11 C12',S+'math/claim_math.rs','''    let user_immediate_release_token = u128::from(release_amount)
        .safe_mul(user_deposit.into())?
        .safe_div(total_deposit.into())?
        .safe_cast()?;''','''    let user_immediate_release_token = if user_deposit == total_deposit { release_amount } else { u128::from(release_amount)
        .safe_mul(user_deposit.into())?
        .safe_div(total_deposit.safe_add(u64::from(release_amount == 1))?.into())?
        .safe_cast()? };'''),
('w2-meta-twice','C32',I+'process_create_permissioned_server_metadata.rs','whitelist_mode == WhitelistMode::PermissionWithMerkleProof\n            || whitelist_mode == WhitelistMode::PermissionWithAuthority','whitelist_mode == WhitelistMode::PermissionWithMerkleProof\n            || (whitelist_mode == WhitelistMode::PermissionWithAuthority && presale.total_escrow == 0)'),
('w2-meta-space','C32',S+'state/permissioned_server_metadata.rs','server_url.as_bytes().len()','server_url.chars().count()'),
('w2-meta-trunc','C32',S+'state/permissioned_server_metadata.rs','self.server_url = server_url;','self.server_url = server_url.chars().take(128).collect();'),
('w2-root-close-ns','C31',I+'process_close_merkle_root_config.rs','progress != PresaleProgress::Ongoing,','progress != PresaleProgress::Ongoing && progress != PresaleProgress::NotStarted,'),
('w2-root-version','C31 C22',S+'state/merkle_root_config.rs','self.version = version;','self.version = version & 0xffff_ffff;'),
('w2-verify-depth','C20',I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs','for proof_element in proof.into_iter() {','for proof_element in proof.into_iter().take(10) {'),
('w2-verify-eq','C20',I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs','if computed_hash <= proof_element {','if computed_hash[..8] <= proof_element[..8] && computed_hash != proof_element {'),
('w2-op-self','C21 C04',I+'create_escrow/process_create_permissioned_escrow_with_creator.rs','''        operator.creator == presale.owner,''','''        operator.creator == presale.owner || operator.creator == presale.base,'''),
('w2-tf-excl-max','C26 C27',S+'token2022.rs','''            .calculate_fee(transfer_fee_included_amount)
            .ok_or_else(|| PresaleError::MathOverflow)?;''','''            .calculate_fee(transfer_fee_included_amount)
            .ok_or_else(|| PresaleError::MathOverflow)?
            .min(1_000_000);'''),
('w2-hook-short','C34',S+'token2022.rs','if remaining_accounts.len() < slice.length as usize {','if remaining_accounts.is_empty() {'),
('w2-hook-zero','C34',S+'token2022.rs','''        if slice.length == 0 {
            continue;
        }''',''''''),
('w2-hook-none','C34',S+'token2022.rs','''        require!(
            transfer_hook_accounts.is_none(),
            PresaleError::NoTransferHookProgram
        );''','''        let _ = &transfer_hook_accounts;'''),
('w2-dur-u32','C18',I+'initialize_presale/params.rs','presale_duration <= MAXIMUM_PRESALE_DURATION','presale_duration <= MAXIMUM_PRESALE_DURATION + self.presale_start_time.saturating_sub(current_timestamp)'),
('w2-multi-open','C18',I+'initialize_presale/params.rs','if presale_registries.len() > 1 {','if presale_registries.len() > 2 {'),
('w2-regs-6','C18',I+'initialize_presale/params.rs','presale_registries.len() > 0 && presale_registries.len() <= MAX_PRESALE_REGISTRY_COUNT','presale_registries.len() > 0'),
('w2-imm-ts-after','C18',I+'initialize_presale/params.rs','self.immediate_release_timestamp <= vesting_end_time','self.immediate_release_timestamp <= vesting_end_time + 1'),
('w2-init-earlyflag','C18 C09',S+'presale_mode_handler/fixed_price_presale.rs','''            presale_params.disable_earlier_presale_end_once_cap_reached,
            presale_extra_param.disable_withdraw,''','''            presale_extra_param.disable_withdraw,
            presale_extra_param.disable_withdraw,'''),
('w2-lock-none','C24 C29',P,'''            self.vesting_start_time = vesting_start_time;
            self.vesting_end_time = vesting_end_time;
        }''','''            self.vesting_start_time = vesting_start_time;
            self.vesting_end_time = if self.vest_duration == 0 { 0 } else { vesting_end_time };
        }'''),
('w2-extra-reinit','C32 C30',S+'state/fixed_price_presale_params.rs','self.disable_withdraw = disable_withdraw.into();','self.disable_withdraw = if q_price < crate::constants::SCALE_MULTIPLIER / 2 { 0 } else { disable_withdraw.into() };'),
('w2-dep-validate-order','C06',R,'if escrow.total_deposit == 0 {','if escrow.total_deposit == 0 || escrow.deposit_max_cap == escrow.total_deposit {'),
('w2-reentry-cap','C06',E,'''        if self.total_deposit >= maximum_buy_cap {
            return Ok(0);
        }''','''        if self.total_deposit > maximum_buy_cap || self.deposit_max_cap == 1 {
            return Ok(0);
        }'''),
('w2-fee-wd','C10 C07',E,'''        self.total_deposit = self.total_deposit.safe_sub(amount)?;
        Ok(())''','''        self.total_deposit = self.total_deposit.safe_sub(amount)?;
        if self.total_deposit == 0 { self.total_deposit_fee = 0; }
        Ok(())'''),
('w2-progress-prorata','C05',P,'if self.total_deposit >= self.presale_minimum_cap {\n            PresaleProgress::Completed','if self.total_deposit >= self.presale_minimum_cap || self.has_creator_withdrawn() {\n            PresaleProgress::Completed'),
('w2-tree-odd','C22',"merkle-tree/src/merkle_tree.rs",'let rsib = if prev_level_idx + 1 < prev_level_len {','let rsib = if prev_level_idx + 1 < prev_level_len || prev_level_len > 40 && prev_level_idx + 1 < prev_level_len {'),
('w2-tree-findpath','C22',"merkle-tree/src/merkle_tree.rs",'''                rsib = if node_index + 1 < level.len() {''','''                rsib = if node_index + 1 < level.len() && (level_start > 0 || level.len() < 64) {'''),

# third round: stored terms, histories, settlement orders, boundaries
('w3-store-lock','C11 C24',P,'self.lock_duration = lock_duration;','self.lock_duration = lock_duration.min(86_400);'),
('w3-store-imm-none','C11 C24',P,'self.immediate_release_timestamp = immediate_release_timestamp;','self.immediate_release_timestamp = if immediate_release_timestamp > 0 { presale_end_time } else { 0 };'),
('w3-store-vest-noimm','C11 C24',P,'self.vest_duration = vest_duration;','self.vest_duration = if immediately_release_bps == 0 { vest_duration.saturating_sub(1) } else { vest_duration };'),
('w3-store-action','C17 C24',P,'self.unsold_token_action = unsold_token_action;','self.unsold_token_action = if presale_mode == 1 { 0 } else { unsold_token_action };'),
('w3-store-fee','C07 C24',P,'registry.deposit_fee_bps,\n            );','if idx > 1 { presale_registries[0].deposit_fee_bps } else { registry.deposit_fee_bps },\n            );'),
('w3-store-cap','C19 C20 C32',E,'self.deposit_max_cap = deposit_cap;','self.deposit_max_cap = if registry_index > 2 { deposit_cap.max(1_000) } else { deposit_cap };'),
('w3-store-min','C05 C24',P,'self.presale_minimum_cap = presale_minimum_cap;','self.presale_minimum_cap = presale_minimum_cap.min(presale_maximum_cap.saturating_sub(1)).max(1);'),
('w3-refund-fee-zeroamt','C14 C30',P,'let escrow_refund_fee = if presale_registry.total_deposit_fee > 0 {','let escrow_refund_fee = if presale_registry.total_deposit_fee > 0 && escrow.total_deposit > 0 {'),
('w3-collect-rem1','C16 C01',P,'let mut total_fee: u64 = 0;','if presale_remaining_quote <= 1 { return Ok(self.total_deposit_fee); }\n                let mut total_fee: u64 = 0;'),
('w3-close-zero-deposit','C18',I+'process_close_escrow.rs','    // 1. Ensure the escrow has withdrawn remaining quote token\n','    if escrow.total_deposit == 0 { return Ok(()); }\n'),
('w3-min-noescrow','C05',P,'if self.total_deposit >= self.presale_minimum_cap {','if self.total_deposit > self.presale_minimum_cap || (self.total_deposit == self.presale_minimum_cap && self.total_escrow > 0) {'),
('w3-progress-net-refund','C05',P,'if self.total_deposit >= self.presale_minimum_cap {','if self.total_deposit.saturating_sub(self.total_refunded_quote_token) >= self.presale_minimum_cap || (self.total_deposit < self.presale_maximum_cap && self.total_deposit >= self.presale_minimum_cap) {'),
('w3-unsold-after-cw','C17 C30',I+'process_perform_unsold_base_token_action.rs','!presale.is_unsold_price_token_action_performed(),','!presale.is_unsold_price_token_action_performed() && !(presale.has_creator_withdrawn() && presale.is_deposit_fee_collected()),'),
('w3-regquota-floor','C06',S+'presale_mode_handler/fixed_price_presale.rs','''            .div_ceil(SCALE_MULTIPLIER)
            .min(u64::MAX.into())''','''            .safe_div(SCALE_MULTIPLIER)?
            .min(u64::MAX.into())'''),
('w3-fee-bps1','C07',S+'math/fee_math.rs','Rounding::Up => adjust_deposit_amount.safe_add(denominator.safe_sub(1)?)?,','Rounding::Up if fee_bps != 1 => adjust_deposit_amount.safe_add(denominator.safe_sub(1)?)?,\n        Rounding::Up => adjust_deposit_amount,'),
('w3-early-1s','C09',S+'presale_mode_handler/mod.rs','if presale.total_deposit >= presale.presale_maximum_cap {','if presale.total_deposit >= presale.presale_maximum_cap && current_timestamp.saturating_add(1) < presale.presale_end_time {'),
('w3-early-first','C09',S+'presale_mode_handler/mod.rs','if presale.total_deposit >= presale.presale_maximum_cap {','if presale.total_deposit >= presale.presale_maximum_cap && current_timestamp > presale.presale_start_time {'),
('w3-reg4','C25',P,'presale_registry.decrease_escrow_count()?;','if registry_index as usize + 1 < MAX_PRESALE_REGISTRY_COUNT { presale_registry.decrease_escrow_count()?; }'),
('w3-proceeds-refunded','C15',I+'process_creator_withdraw.rs','presale.total_deposit.min(presale.presale_maximum_cap),','if presale.total_refunded_quote_token > presale.get_remaining_quote() { presale.total_deposit.saturating_sub(presale.total_refunded_quote_token) } else { presale.total_deposit.min(presale.presale_maximum_cap) },'),
('w3-collect-noescrow','C16 C30',I+'process_creator_collect_fee.rs','presale_progress == PresaleProgress::Completed && !presale.is_deposit_fee_collected()','presale_progress == PresaleProgress::Completed && !presale.is_deposit_fee_collected() && (presale.total_escrow > 0 || !presale.has_creator_withdrawn())'),
('w3-refundfee-u64','C33 C14',R,'u128::from(self.total_deposit_fee)\n            .safe_mul(registry_remaining_quote)?','u128::from(self.total_deposit_fee.saturating_mul(registry_remaining_quote as u64))\n'),
('w3-claim-late','C30 C11',I+'process_claim.rs','presale_handler.update_pending_claim_amount(&presale, &mut escrow, current_timestamp)?;','if current_timestamp <= presale.vesting_end_time.max(presale.presale_end_time) || escrow.pending_claim_token == 0 { presale_handler.update_pending_claim_amount(&presale, &mut escrow, current_timestamp)?; }'),
('w3-refresh-stale','C28 C11',E,'self.pending_claim_token = self.pending_claim_token.safe_add(pending_claim_token)?;','self.pending_claim_token = if self.total_claimed_token > 0 { self.pending_claim_token.max(pending_claim_token) } else { self.pending_claim_token.safe_add(pending_claim_token)? };'),
('w3-close-failed-fee','C18 C13',I+'process_close_escrow.rs','''        escrow.is_remaining_quote_withdrawn()
            || (escrow.total_deposit == 0 && escrow.total_deposit_fee == 0),''','''        escrow.is_remaining_quote_withdrawn()
            || escrow.total_deposit == 0,'''),
('w3-close-ongoing-fee','C18',I+'process_close_escrow.rs','''        escrow.total_deposit == 0 && escrow.total_deposit_fee == 0,
        PresaleError''','''        escrow.total_deposit == 0,
        PresaleError'''),
('w3-refund-again','C14 C13',E,'self.is_remaining_quote_withdrawn == 1','self.is_remaining_quote_withdrawn == 1 && self.total_deposit > 0'),
('w3-noop-refund','C14',I+'process_withdraw_remaining_quote.rs','escrow.update_remaining_quote_withdrawn()?;','if refund_fee_amount > 0 || refund_deposit_amount != 1 { escrow.update_remaining_quote_withdrawn()?; }'),
('w3-fixed-dust-dep','C08 C06',S+'presale_mode_handler/fixed_price_presale.rs','calculate_quote_token_without_surplus(self.q_price, max_deposit_amount)','if max_deposit_amount > u64::MAX / 2 { return Ok(max_deposit_amount); }\n        calculate_quote_token_without_surplus(self.q_price, max_deposit_amount)'),
('w3-wd-fixed-ceil','C10',S+'presale_mode_handler/fixed_price_presale.rs','if escrow.total_deposit == max_withdraw_amount {','if escrow.total_deposit == max_withdraw_amount || max_withdraw_amount < calculate_min_quote_amount_for_base_lamport(self.q_price)? {'),
]
