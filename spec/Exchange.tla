------------------------------- MODULE Exchange -------------------------------
(* The exchange as a state machine: Step(S, c) is the outcome of call c in state S. *)
EXTENDS ExAdmin

Mutators == {
  "ft_on_transfer", "swap", "swap_by_output", "execute_actions", "execute_actions_in_va", "add_liquidity", "add_stable_liquidity",
  "remove_liquidity", "remove_liquidity_by_tokens", "register_tokens", "unregister_tokens", "withdraw", "claim_lostfound",
  "exchange_callback_post_withdraw", "exchange_callback_post_withdraw_near", "exchange_callback_post_transfer_call", "storage_deposit", "storage_withdraw", "storage_unregister",
  "donation_share", "donation_token", "mft_register", "mft_unregister", "mft_transfer", "mft_transfer_call", "mft_transfer_all_call",
  "mft_resolve_transfer", "shadow_action", "callback_on_shadow", "on_burrow_liquidation", "callback_on_burrow_liquidation",
  "add_simple_pool", "add_stable_swap_pool", "add_rated_swap_pool", "add_degen_swap_pool",
  "set_owner", "retrieve_unmanaged_token", "extend_guardians", "remove_guardians", "extend_auto_whitelisted_postfix",
  "remove_auto_whitelisted_postfix", "modify_boost_farm_id", "modify_burrowland_id", "modify_wnear_id", "change_state",
  "extend_whitelisted_tokens", "remove_whitelisted_tokens", "extend_frozenlist_tokens", "remove_frozenlist_tokens", "insert_referral",
  "update_referral", "remove_referral", "modify_admin_fee", "modify_total_fee", "remove_exchange_fee_liquidity", "withdraw_owner_token",
  "stable_swap_ramp_amp", "stable_swap_stop_ramp_amp", "register_rated_token", "unregister_rated_token", "update_rated_token_extra_info",
  "register_degen_token", "update_degen_token", "unregister_degen_token", "register_degen_oracle_config", "unregister_degen_oracle_config",
  "update_degen_oracle_config", "add_degen_pool_limit", "update_degen_pool_limit", "remove_pool_limit", "register_pool_twap_record",
  "unregister_pool_twap_record", "sync_pool_twap_record", "modify_cumulative_info_record_interval_sec",
  "extend_client_echo_token_id_whitelist", "remove_client_echo_token_id_whitelist", "extend_client_echo_sender_id_whitelist",
  "remove_client_echo_sender_id_whitelist", "extend_secure_sender_whitelist", "remove_secure_sender_whitelist",
  "update_token_rate", "update_token_rate_callback", "update_degen_token_price", "update_degen_token_price_callback",
  "batch_update_degen_token_price", "batch_update_degen_token_by_price_oracle_callback", "batch_update_degen_token_by_pyth_oracle_callback",
  "migrate", "upgrade", "deploy_contract"}

\* a call may only carry a deposit where the method takes one
Payable == Mutators \ {"deploy_contract", "ft_on_transfer", "exchange_callback_post_withdraw", "exchange_callback_post_withdraw_near", "exchange_callback_post_transfer_call", "mft_resolve_transfer",
  "callback_on_shadow", "on_burrow_liquidation", "callback_on_burrow_liquidation", "sync_pool_twap_record", "update_token_rate",
  "update_token_rate_callback", "update_degen_token_price", "update_degen_token_price_callback", "batch_update_degen_token_price",
  "batch_update_degen_token_by_price_oracle_callback", "batch_update_degen_token_by_pyth_oracle_callback", "migrate"}

UserStep(S, c) ==
  CASE c.m = "ft_on_transfer" -> DoOnTransfer(S, c)
    [] c.m = "swap" -> DoSwap(S, c)
    [] c.m = "swap_by_output" -> DoSwapByOutput(S, c)
    [] c.m = "execute_actions" -> DoExecuteActions(S, c)
    [] c.m = "execute_actions_in_va" -> DoExecuteInVa(S, c)
    [] c.m = "add_liquidity" -> DoAddLiquidity(S, c)
    [] c.m = "add_stable_liquidity" -> DoAddStable(S, c)
    [] c.m = "remove_liquidity" -> DoRemoveLiquidity(S, c)
    [] c.m = "remove_liquidity_by_tokens" -> DoRemoveByTokens(S, c)
    [] c.m = "register_tokens" -> DoRegisterTokens(S, c)
    [] c.m = "unregister_tokens" -> DoUnregisterTokens(S, c)
    [] c.m = "withdraw" -> DoWithdraw(S, c)
    [] c.m = "claim_lostfound" -> DoClaimLostfound(S, c)
    [] c.m = "exchange_callback_post_withdraw" -> DoPostWithdraw(S, c)
    [] c.m = "exchange_callback_post_withdraw_near" -> DoPostWithdrawNear(S, c)
    [] c.m = "exchange_callback_post_transfer_call" -> DoPostTransferCall(S, c)
    [] c.m = "storage_deposit" -> DoStorageDeposit(S, c)
    [] c.m = "storage_withdraw" -> DoStorageWithdraw(S, c)
    [] c.m = "storage_unregister" -> DoStorageUnregister(S, c)
    [] c.m = "donation_share" -> DoDonationShare(S, c)
    [] c.m = "donation_token" -> DoDonationToken(S, c)
    [] c.m = "mft_register" -> DoMftRegister(S, c)
    [] c.m = "mft_unregister" -> DoMftUnregister(S, c)
    [] c.m = "mft_transfer" -> DoMftTransfer(S, c)
    [] c.m = "mft_transfer_call" -> DoMftTransferCall(S, c, c.a.amount)
    [] c.m = "mft_transfer_all_call" -> DoMftTransferCall(S, c, Nil)
    [] c.m = "mft_resolve_transfer" -> DoMftResolve(S, c)
    [] c.m = "shadow_action" -> DoShadowAction(S, c)
    [] c.m = "callback_on_shadow" -> DoCallbackShadow(S, c)
    [] c.m = "on_burrow_liquidation" -> DoLiquidation(S, c)
    [] c.m = "callback_on_burrow_liquidation" -> DoCallbackLiquidation(S, c)
    [] c.m = "sync_pool_twap_record" -> DoTwapSync(S, c)
    [] c.m = "update_token_rate" -> DoUpdateRate(S, c)
    [] c.m = "update_token_rate_callback" -> DoRateCallback(S, c)
    [] c.m = "update_degen_token_price" -> DoUpdateDegen(S, c)
    [] c.m = "update_degen_token_price_callback" -> DoDegenCallback(S, c)
    [] c.m = "batch_update_degen_token_price" -> DoBatchDegen(S, c)
    [] c.m = "batch_update_degen_token_by_price_oracle_callback" -> DoBatchPriceCallback(S, c)
    [] c.m = "batch_update_degen_token_by_pyth_oracle_callback" -> DoBatchPythCallback(S, c)
    [] c.m = "add_simple_pool" -> DoAddSimple(S, c)
    [] OTHER -> Err("unknown method")

AdminStep(S, c) ==
  CASE c.m = "add_stable_swap_pool" -> DoAddCurve(S, c, "Stable")
    [] c.m = "add_rated_swap_pool" -> DoAddCurve(S, c, "Rated")
    [] c.m = "add_degen_swap_pool" -> DoAddCurve(S, c, "Degen")
    [] c.m = "set_owner" -> If(ByOwner(S, c), Cfg(S, "owner", c.a.owner_id))
    [] c.m = "retrieve_unmanaged_token" -> DoRetrieve(S, c)
    [] c.m = "extend_guardians" -> If(ByOwner(S, c), Add(S, "guardians", c.a.guardians))
    [] c.m = "remove_guardians" -> If(ByOwner(S, c), Remove(S, "guardians", c.a.guardians))
    [] c.m = "extend_auto_whitelisted_postfix" -> If(ByAdmin(S, c), Add(S, "postfix", c.a.postfixes))
    [] c.m = "remove_auto_whitelisted_postfix" -> If(ByAdmin(S, c), Remove(S, "postfix", c.a.postfixes))
    [] c.m = "modify_boost_farm_id" -> If(ByAdmin(S, c), Cfg(S, "boost", c.a.boost_farm_id))
    [] c.m = "modify_burrowland_id" -> If(ByAdmin(S, c), Cfg(S, "burrow", c.a.burrowland_id))
    [] c.m = "modify_wnear_id" -> If(ByOwner(S, c), Cfg(S, "wnear", c.a.wnear_id))
    [] c.m = "change_state" -> DoChangeState(S, c)
    [] c.m = "extend_whitelisted_tokens" -> If(ByAdmin(S, c), Add(S, "wl", c.a.tokens))
    [] c.m = "remove_whitelisted_tokens" -> If(ByAdmin(S, c), Remove(S, "wl", c.a.tokens))
    [] c.m = "extend_frozenlist_tokens" -> If(ByAdmin(S, c), Add(S, "frozen", c.a.tokens))
    [] c.m = "remove_frozenlist_tokens" -> If(ByAdmin(S, c), Remove(S, "frozen", c.a.tokens))
    [] c.m = "insert_referral" -> If(ByAdmin(S, c) /\ BpsOk(c.a.fee_bps) /\ c.a.referral_id \notin DOMAIN S.cfg.ref, Cfg(S, "ref", Put(S.cfg.ref, c.a.referral_id, c.a.fee_bps)))
    [] c.m = "update_referral" -> If(ByAdmin(S, c) /\ BpsOk(c.a.fee_bps) /\ c.a.referral_id \in DOMAIN S.cfg.ref, Cfg(S, "ref", Put(S.cfg.ref, c.a.referral_id, c.a.fee_bps)))
    [] c.m = "remove_referral" -> If(ByAdmin(S, c) /\ c.a.referral_id \in DOMAIN S.cfg.ref, Cfg(S, "ref", Drop(S.cfg.ref, c.a.referral_id)))
    [] c.m = "modify_admin_fee" -> If(ByOwner(S, c) /\ c.a.admin_fee_bps >= 0 /\ c.a.admin_fee_bps <= 8000, Cfg(S, "adminfee", c.a.admin_fee_bps))
    [] c.m = "modify_total_fee" -> DoModifyTotalFee(S, c)
    [] c.m = "remove_exchange_fee_liquidity" -> DoRemoveFeeLiquidity(S, c)
    [] c.m = "withdraw_owner_token" -> DoWithdrawOwner(S, c)
    [] c.m = "stable_swap_ramp_amp" -> DoRamp(S, c)
    [] c.m = "stable_swap_stop_ramp_amp" -> DoStopRamp(S, c)
    [] c.m = "register_rated_token" -> DoRegisterRated(S, c)
    [] c.m = "unregister_rated_token" -> If(ByOwner(S, c), OK([S EXCEPT !.rates = Drop(@, c.a.token_id)], None, RNone))
    [] c.m = "update_rated_token_extra_info" -> DoUpdateRatedInfo(S, c)
    [] c.m = "register_degen_token" -> DoSetDegen(S, c, FALSE)
    [] c.m = "update_degen_token" -> DoSetDegen(S, c, TRUE)
    [] c.m = "unregister_degen_token" -> If(ByOwner(S, c), OK([S EXCEPT !.degens = Drop(@, c.a.token_id)], None, RNone))
    [] c.m = "register_degen_oracle_config" -> DoSetOracle(S, c, FALSE)
    [] c.m = "update_degen_oracle_config" -> DoSetOracle(S, c, TRUE)
    [] c.m = "unregister_degen_oracle_config" -> If(ByOwner(S, c), OK([S EXCEPT !.oracles = Drop(@, c.a.degen_oracle_config_key)], None, RNone))
    [] c.m = "add_degen_pool_limit" -> DoPoolLimit(S, c, FALSE)
    [] c.m = "update_degen_pool_limit" -> DoPoolLimit(S, c, TRUE)
    [] c.m = "remove_pool_limit" -> DoRemoveLimit(S, c)
    [] c.m = "register_pool_twap_record" -> DoTwapRegister(S, c)
    [] c.m = "unregister_pool_twap_record" -> DoTwapUnregister(S, c)
    [] c.m = "modify_cumulative_info_record_interval_sec" -> If(ByAdmin(S, c), Cfg(S, "interval", c.a.record_interval_sec))
    [] c.m = "extend_client_echo_token_id_whitelist" -> If(ByAdmin(S, c), AddNew(S, "cetw", c.a.token_ids, WildOk))
    [] c.m = "remove_client_echo_token_id_whitelist" -> If(ByOwner(S, c), Remove(S, "cetw", c.a.token_ids))
    [] c.m = "extend_client_echo_sender_id_whitelist" -> If(ByAdmin(S, c), AddNew(S, "cesw", c.a.sender_ids, AnyOk))
    [] c.m = "remove_client_echo_sender_id_whitelist" -> If(ByOwner(S, c), Remove(S, "cesw", c.a.sender_ids))
    [] c.m = "extend_secure_sender_whitelist" -> If(ByAdmin(S, c), AddNew(S, "ssw", c.a.sender_ids, WildOk))
    [] c.m = "remove_secure_sender_whitelist" -> If(ByOwner(S, c), Remove(S, "ssw", c.a.sender_ids))
    [] c.m = "migrate" -> IF Self(c) THEN Same(S) ELSE Err("private")
    \* the owner brings in new code (here always this same code); what is stored stays
    [] c.m = "upgrade" -> IF c.p = S.cfg.owner THEN OK(S, <<Rcpt(EX, "deploy_contract", Empty, 0, None)>>, RNone) ELSE Err("E100")
    [] c.m = "deploy_contract" -> IF Self(c) THEN Same(S) ELSE Err("private")
    [] OTHER -> UserStep(S, c)

\* the NEAR balance follows the deposits in and the attachments out
Paid(fx) == BSumSeq([i \in DOMAIN fx |-> fx[i].d])
Step(S, c) ==
  IF c.m \notin Mutators THEN Err("unknown method")
  ELSE IF c.d # "0" /\ c.m \notin Payable THEN Err("not payable")
  ELSE LET r == AdminStep(S, c) IN
    IF ~r.ok THEN r
    ELSE LET left == BSub(BAdd(S.bal, c.d), Paid(r.fx)) IN
      IF BLt(left, 0) THEN Err("balance") ELSE [r EXCEPT !.S = [@ EXCEPT !.bal = left]]
=============================================================================
