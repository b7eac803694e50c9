"""Directed scenarios of the exchange: who may do what, pausing, freezing, pool creation, fees, ramps, prices, limits, averages."""
from lib import *
from ex_tok import ex_msg, zap, add, shadow, liquidate

ALL = []
DAY = 86400 * 10**9


def scenario(f):
    ALL.append(f)
    return f


def admin_calls(now):
    """(method, args) of everything reserved to the owner or a guardian"""
    return [
        ("extend_whitelisted_tokens", {"tokens": ["odd"]}), ("remove_whitelisted_tokens", {"tokens": ["odd"]}),
        ("extend_auto_whitelisted_postfix", {"postfixes": ["zz"]}), ("remove_auto_whitelisted_postfix", {"postfixes": ["zz"]}),
        ("extend_frozenlist_tokens", {"tokens": ["odd", "s8"]}), ("remove_frozenlist_tokens", {"tokens": ["odd", "s8"]}),
        ("insert_referral", {"referral_id": "ref1", "fee_bps": 100}), ("update_referral", {"referral_id": "ref1", "fee_bps": 200}),
        ("remove_referral", {"referral_id": "ref1"}),
        ("modify_admin_fee", {"admin_fee_bps": 2000}), ("modify_total_fee", {"pool_id": P_AB, "total_fee": 30}),
        ("remove_exchange_fee_liquidity", {"pool_id": P_AB, "shares": "1", "min_amounts": ["0", "0"]}),
        ("withdraw_owner_token", {"token_id": "ta", "amount": "1"}),
        ("retrieve_unmanaged_token", {"token_id": "ta", "amount": "1"}),
        ("stable_swap_ramp_amp", {"pool_id": P_ST, "future_amp_factor": 210, "future_amp_time": str(now + 2 * DAY)}),
        ("stable_swap_stop_ramp_amp", {"pool_id": P_ST}),
        ("register_rated_token", {"rate_type": "NEARX", "token_id": "odd"}), ("unregister_rated_token", {"token_id": "odd"}),
        ("register_degen_token", {"token_id": "s8", "degen_type": {"PriceOracle": {"decimals": 8}}}),
        ("update_degen_token", {"token_id": "s8", "degen_type": {"PriceOracle": {"decimals": 9}}}), ("unregister_degen_token", {"token_id": "s8"}),
        ("update_degen_oracle_config", {"degen_oracle_config": {"PriceOracle": {"oracle_id": ORACLE, "expire_ts": "3600000000000", "maximum_recency_duration_sec": 90, "maximum_staleness_duration_sec": 90}}}),
        ("unregister_degen_oracle_config", {"degen_oracle_config_key": "PriceOracleConfig"}),
        ("register_degen_oracle_config", {"degen_oracle_config": {"PriceOracle": {"oracle_id": ORACLE, "expire_ts": "3600000000000", "maximum_recency_duration_sec": 90, "maximum_staleness_duration_sec": 90}}}),
        ("add_degen_pool_limit", {"pool_id": P_DG, "degen_pool_limit_info": {"tvl_limit": str(10**30)}}),
        ("update_degen_pool_limit", {"pool_id": P_DG, "degen_pool_limit_info": {"tvl_limit": str(10**31)}}), ("remove_pool_limit", {"pool_id": P_DG}),
        ("register_pool_twap_record", {"pool_id": P_BC}), ("unregister_pool_twap_record", {"pool_id": P_BC}),
        ("modify_cumulative_info_record_interval_sec", {"record_interval_sec": 10}),
        ("extend_client_echo_token_id_whitelist", {"token_ids": ["ta"]}), ("remove_client_echo_token_id_whitelist", {"token_ids": ["ta"]}),
        ("extend_client_echo_sender_id_whitelist", {"sender_ids": ["dave"]}), ("remove_client_echo_sender_id_whitelist", {"sender_ids": ["dave"]}),
        ("extend_secure_sender_whitelist", {"sender_ids": ["dave"]}), ("remove_secure_sender_whitelist", {"sender_ids": ["dave"]}),
        ("modify_boost_farm_id", {"boost_farm_id": "bfarm"}), ("modify_burrowland_id", {"burrowland_id": "burrow"}), ("modify_wnear_id", {"wnear_id": "wnear"}),
        ("add_stable_swap_pool", {"tokens": ["s6", "s18"], "decimals": [6, 18], "fee": 5, "amp_factor": 100}),
        ("add_rated_swap_pool", {"tokens": ["st", "wnear"], "decimals": [24, 24], "fee": 5, "amp_factor": 100}),
        ("add_degen_swap_pool", {"tokens": ["d24", "d6"], "decimals": [24, 6], "fee": 5, "amp_factor": 100}),
        ("change_state", {"state": "Paused"}), ("change_state", {"state": "Running"}),
        ("extend_guardians", {"guardians": ["dave"]}), ("remove_guardians", {"guardians": ["dave"]}),
        ("set_owner", {"owner_id": "owner"}),
    ]


def stray(s, n=10**6):
    """tokens sent here by mistake: these the owner may retrieve"""
    s.run("alice", "ft_transfer", {"receiver_id": "ex", "amount": str(n)}, 1, to="ta")


def access(s, who, d=1):
    stray(s)
    for m, a in admin_calls(NOW0):
        s.run(who, m, a, NEAR // 10 if m.startswith("add_") and m.endswith("_pool") else d)


@scenario
def access_owner(s):
    s.run("owner", "mft_register", {"token_id": ":0", "account_id": "owner"}, NEAR // 10)
    s.call("alice", "swap", {"actions": [act(P_AB, "ta", "tb", unit("ta"))]})
    s.run("owner", "donation_token", {"token_id": "ta"}, 1)
    s.run("alice", "donation_token", {"token_id": "ta", "amount": "1000"}, 1)
    access(s, "owner")
    for m, a in admin_calls(NOW0):
        if not m.startswith("add_") or "limit" in m:
            s.run("owner", m, a, 0)
            s.run("owner", m, a, 2)


@scenario
def access_guardian(s):
    s.run("alice", "donation_token", {"token_id": "ta", "amount": "1000"}, 1)
    access(s, "guard")


@scenario
def access_nobody(s):
    s.run("alice", "donation_token", {"token_id": "ta", "amount": "1000"}, 1)
    access(s, "alice")
    for m, a in (("new", {"owner_id": "alice", "boost_farm_id": "x", "burrowland_id": "y", "exchange_fee": 0, "referral_fee": 0}), ("migrate", {}),
                 ("exchange_callback_post_withdraw", {"token_id": "ta", "sender_id": "alice", "amount": "5"}),
                 ("exchange_callback_post_withdraw_near", {"sender_id": "alice", "amount": "5"}),
                 ("exchange_callback_post_transfer_call", {"token_id": "ta", "sender_id": "alice", "amount": "5"}),
                 ("mft_resolve_transfer", {"token_id": ":0", "sender_id": "bob", "receiver_id": "alice", "amount": "5"}),
                 ("mft_resolve_transfer", {"token_id": "ta", "sender_id": "alice", "receiver_id": "bob", "amount": "5"}),
                 ("callback_on_shadow", {"action": "FromFarming", "sender_id": "alice", "pool_id": 0, "amount": "5", "storage_fee": "0"}),
                 ("callback_on_shadow", {"action": "ToFarming", "sender_id": "alice", "pool_id": 0, "amount": "5", "storage_fee": "5"}),
                 ("update_token_rate_callback", {"token_id": "st"}), ("update_degen_token_price_callback", {"token_id": "d24"}),
                 ("batch_update_degen_token_by_price_oracle_callback", {"token_id_decimals_map": {"d24": 24}}),
                 ("batch_update_degen_token_by_pyth_oracle_callback", {"price_id_token_id_map": {"ab" * 32: ["d6"]}}),
                 ("callback_on_burrow_liquidation", {"sender_id": "bob", "pool_id": 0, "amount": "5"})):
        for who in ("alice", "owner", "guard"):
            s.run(who, m, a)
        for pr in (["fail"], [{"ok": "0"}], [{"ok": str(12 * 10**23)}], [{"ok": price_data([("d24", 61234, 28)], NOW0)}],
                   [{"ok": {"ab" * 32: {"price": "101", "conf": "1", "expo": -2, "publish_time": NOW0 // 10**9}}}]):
            s.run("alice", m, a, pr=pr)        # as the sequel of a promise of the caller's own
    # ownership moves, and takes the rights along
    s.one("alice", "set_owner", {"owner_id": "alice"})
    s.one("owner", "set_owner", {"owner_id": "bob"})
    s.one("owner", "modify_admin_fee", {"admin_fee_bps": 1})
    s.one("bob", "modify_admin_fee", {"admin_fee_bps": 1})
    s.one("bob", "remove_guardians", {"guardians": ["guard"]})
    s.one("guard", "extend_whitelisted_tokens", {"tokens": ["odd"]})
    s.one("bob", "extend_guardians", {"guardians": ["owner", "guard"]})
    s.one("owner", "extend_whitelisted_tokens", {"tokens": ["odd"]})
    s.run("alice", "donation_token", {"token_id": "tb", "amount": "1000"}, 1)


def user_calls():
    n = unit("ta")
    return [
        ("alice", "swap", {"actions": [act(P_AB, "ta", "tb", n)]}, 0), ("alice", "swap", {"actions": [act(P_AB, "tb", "ta", n)]}, 0),
        ("alice", "swap", {"actions": [act(P_WA, "wnear", "ta", n)]}, 0),
        ("alice", "swap_by_output", {"actions": [actout(P_AB, "ta", "tb", n)]}, 0),
        ("alice", "execute_actions", {"actions": [{**act(P_AB, "ta", "tb", n)}]}, 0),
        ("alice", "execute_actions_in_va", {"use_tokens": {"ta": str(n)}, "actions": [act(P_AB, "ta", "tb", n)]}, 1),
        ("alice", "execute_actions_in_va", {"use_tokens": {"ta": str(n), "tc": "5"}, "actions": [act(P_WA, "ta", "wnear", n)]}, 1),
        ("alice", "add_liquidity", {"pool_id": P_AB, "amounts": [str(n), str(n)]}, NEAR // 10),
        ("alice", "add_stable_liquidity", {"pool_id": P_ST, "amounts": ["1000000", "0", "0"], "min_shares": "0"}, NEAR // 10),
        ("alice", "remove_liquidity", {"pool_id": P_AB, "shares": str(10**18), "min_amounts": ["0", "0"]}, 1),
        ("alice", "remove_liquidity", {"pool_id": P_ST, "shares": str(10**18), "min_amounts": ["0", "0", "0"]}, 1),
        ("alice", "remove_liquidity_by_tokens", {"pool_id": P_ST, "amounts": ["1000", "0", "0"], "max_burn_shares": str(10**20)}, 1),
        ("alice", "add_simple_pool", {"tokens": ["ta", "tc"], "fee": 30}, NEAR // 10),
        ("alice", "register_tokens", {"token_ids": ["odd"]}, 1), ("alice", "unregister_tokens", {"token_ids": ["odd"]}, 1),
        ("alice", "withdraw", {"token_id": "ta", "amount": "1000"}, 1), ("alice", "withdraw", {"token_id": "s8", "amount": "1000"}, 1),
        ("dave", "storage_deposit", {}, NEAR // 10), ("dave", "storage_withdraw", {}, 1), ("dave", "storage_unregister", {}, 1),
        ("alice", "donation_share", {"pool_id": P_AB, "amount": "1000"}, 1), ("alice", "donation_token", {"token_id": "ta", "amount": "7"}, 1),
        ("carol", "mft_register", {"token_id": ":0", "account_id": "carol"}, NEAR // 10),
        ("alice", "mft_transfer", {"token_id": ":0", "receiver_id": "bob", "amount": "5"}, 1),
        ("alice", "mft_transfer", {"token_id": "ta", "receiver_id": "bob", "amount": "5"}, 1),
        ("alice", "mft_transfer_call", {"token_id": ":0", "receiver_id": "bob", "amount": "5", "msg": ""}, 1),
        ("alice", "mft_transfer_all_call", {"token_id": ":3", "receiver_id": "bob", "msg": ""}, 1),
        ("carol", "mft_unregister", {"token_id": ":0"}, 1),
        ("alice", "shadow_action", {"action": "ToFarming", "pool_id": P_BC, "amount": "100", "msg": ""}, NEAR // 10),
        ("alice", "shadow_action", {"action": "FromFarming", "pool_id": P_BC, "amount": "50", "msg": ""}, 1),
        ("bob", "claim_lostfound", {"token_id": "ta"}, 1),
        ("bob", "update_token_rate", {"token_id": "st"}, 0), ("bob", "update_degen_token_price", {"token_id": "d24"}, 0),
        ("bob", "sync_pool_twap_record", {"pool_id": P_AB}, 0),
        ("owner", "remove_exchange_fee_liquidity", {"pool_id": P_AB, "shares": "1", "min_amounts": ["0", "0"]}, 1),
        ("owner", "withdraw_owner_token", {"token_id": "ta", "amount": "1"}, 1),
    ]


def everything(s):
    for p, m, a, d in user_calls():
        s.run(p, m, a, d)
    s.deposit("alice", "ta", 12345)
    s.deposit("alice", "ta", unit("ta"), ex_msg([act(P_WA, "ta", "wnear", unit("ta"))]))
    s.deposit("bob", "ta", 4 * unit("ta"), zap([act(P_AB, "ta", "tb", unit("ta"))], [add(P_AB, [10**18, 10**18], [0, 0])]))


@scenario
def pausing(s):
    s.run("alice", "donation_token", {"token_id": "ta", "amount": "1000"}, 1)
    s.one("owner", "register_pool_twap_record", {"pool_id": P_AB})
    everything(s)
    s.one("guard", "change_state", {"state": "Paused"})
    s.one("guard", "change_state", {"state": "Paused"})
    everything(s)
    s.one("guard", "change_state", {"state": "Running"})
    s.one("owner", "change_state", {"state": "Running"})
    s.call("alice", "swap", {"actions": [act(P_AB, "ta", "tb", 1000)]})


@scenario
def pausing_in_flight(s):
    """what was started before the pause still settles during it"""
    s.one("alice", "withdraw", {"token_id": "ta", "amount": "1000"})
    s.one("alice", "withdraw", {"token_id": "tb", "amount": "0"})
    s.call("alice", "mft_transfer_call", {"token_id": ":0", "receiver_id": "bob", "amount": "5", "msg": ""}, 1)
    s.call("alice", "shadow_action", {"action": "ToFarming", "pool_id": P_BC, "amount": "100", "msg": ""}, NEAR // 10)
    s.call("dave", "ft_transfer_call", {"receiver_id": "ex", "amount": str(unit("ta")), "msg": json.dumps(ex_msg([act(P_WA, "ta", "wnear", unit("ta"))]))}, 1, to="ta")
    s.exec({"to": "ex", "m": "ft_on_transfer"})
    s.one("guard", "change_state", {"state": "Paused"})
    s.exec({"to": "ta"}, out="fail")
    s.exec({"to": "tb"}, out="fail")
    s.exec({"to": "bob"}, out="fail")
    s.exec({"to": "bfarm"}, out="fail")
    s.exec({"to": "wnear"}, out="fail")
    s.drain()


@scenario
def freezing(s):
    s.run("alice", "donation_token", {"token_id": "ta", "amount": "1000"}, 1)
    s.one("guard", "extend_frozenlist_tokens", {"tokens": ["ta"]})
    everything(s)
    s.one("guard", "extend_frozenlist_tokens", {"tokens": ["s8", "tb"]})
    everything(s)
    s.one("guard", "remove_frozenlist_tokens", {"tokens": ["ta"]})
    everything(s)
    s.one("guard", "remove_frozenlist_tokens", {"tokens": ["ta"]})
    s.one("guard", "remove_frozenlist_tokens", {"tokens": ["tb"]})
    everything(s)


@scenario
def pool_creation(s):
    sp = lambda ts, fee, d=NEAR // 10, p="alice": s.run(p, "add_simple_pool", {"tokens": ts, "fee": fee}, d)
    sp(["ta", "tc"], 30)
    sp(["ta", "ta"], 30)
    sp(["ta"], 30)
    sp(["ta", "tb", "tc"], 30)
    sp(["ta", "tb"], 0, p="dave")
    sp(["ta", "tb"], 9995)
    sp(["ta", "tb"], 9999)
    sp(["ta", "tb"], 10000)
    sp(["ta", "tb"], 30, 0)
    sp(["ta", "tb"], 30, 10**21)
    sp(["odd", "fine"], 30)
    cv = lambda kind, ts, ds, fee, amp, p="owner", d=NEAR // 10: s.run(p, "add_%s_swap_pool" % kind, {"tokens": ts, "decimals": ds, "fee": fee, "amp_factor": amp}, d)
    for kind, ts, ds in (("stable", ["s6", "s18"], [6, 18]), ("rated", ["li", "wnear"], [24, 24]), ("degen", ["d6", "d24"], [6, 24])):
        cv(kind, ts, ds, 5, 100)
        cv(kind, ts, ds, 5, 0)
        cv(kind, ts, ds, 5, 1)
        cv(kind, ts, ds, 5, 1000000)
        cv(kind, ts, ds, 5, 1000001)
        cv(kind, ts, ds, 9999, 10)
        cv(kind, ts, ds, 10000, 10)
        cv(kind, ts, ds[:1], 5, 100)
        cv(kind, [ts[0], ts[0]], [ds[0], ds[0]], 5, 100)
        cv(kind, ts[:1], ds[:1], 5, 100)
        cv(kind, ts, [25, 30], 5, 100)
        cv(kind, ts, [0, 38], 5, 100)
        cv(kind, ts, ds, 5, 100, "alice")
        cv(kind, ts, ds, 5, 100, d=1)
    cv("stable", list(TOKENS)[:9], [18] * 9, 5, 100)
    cv("stable", list(TOKENS)[:10], [18] * 10, 5, 100)
    cv("degen", ["d6", "s6"], [6, 6], 5, 100)
    cv("rated", ["ta", "tb"], [18, 18], 5, 100)
    s.run("alice", "add_stable_liquidity", {"pool_id": 11, "amounts": ["1000000000", str(10**18)], "min_shares": "1"}, NEAR // 10)
    s.one("guard", "modify_total_fee", {"pool_id": P_AB, "total_fee": 30})
    for fee in (0, 1, 9999, 10000):
        for p in (P_AB, P_ST, P_RT, P_DG):
            s.one("owner", "modify_total_fee", {"pool_id": p, "total_fee": fee})
    for fee in (0, 8000, 8001, 10000):
        s.one("owner", "modify_admin_fee", {"admin_fee_bps": fee})
    for fee in (0, 1, 9999, 10000, 10001):
        s.one("owner", "insert_referral", {"referral_id": "ref1", "fee_bps": fee})
        s.one("owner", "remove_referral", {"referral_id": "ref1"})


@scenario
def fee_income(s):
    """fees accrue to the exchange, and to nobody but the owner are they paid"""
    s.one("owner", "modify_admin_fee", {"admin_fee_bps": 5000})
    for i in range(3):
        s.call("alice", "swap", {"actions": [act(P_AB, "ta", "tb", 50 * unit("ta"))]})
        s.call("alice", "swap", {"actions": [act(P_ST, "s6", "s18", 50 * unit("s6"))]})
        s.call("alice", "swap", {"actions": [act(P_RT, "st", "wnear", 5 * unit("st"))]})
    for p in (P_AB, P_ST, P_RT):
        s.view("mft_balance_of", {"token_id": ":%d" % p, "account_id": "ex"})
    rm = lambda p, n, sh, who="owner", mins=None: s.run(who, "remove_exchange_fee_liquidity", {"pool_id": p, "shares": str(sh), "min_amounts": mins or ["0"] * n}, 1)
    rm(P_AB, 2, 10**30)
    rm(P_AB, 2, 0)
    rm(P_AB, 2, 10**19)
    rm(P_AB, 2, 10**9, mins=[str(10**30), "0"])
    rm(P_AB, 2, 10**9, who="guard")
    rm(P_ST, 3, 10**15)
    rm(P_RT, 3, 10**12)
    rm(99, 2, 1)
    w = lambda t, n, who="owner", **k: s.run(who, "withdraw_owner_token", {"token_id": t, "amount": str(n), **k}, 1)
    w("ta", 5)
    w("ta", 0)
    w("wnear", 3, skip_unwrap_near=False)
    w("s6", 10**30)
    w("tb", 1, "guard")
    s.block("tb", "owner")
    w("tb", 1)
    stray(s)
    s.one("owner", "retrieve_unmanaged_token", {"token_id": "ta", "amount": "5"}); s.drain()
    s.one("guard", "retrieve_unmanaged_token", {"token_id": "ta", "amount": "5"}); s.drain()
    s.one("owner", "retrieve_unmanaged_token", {"token_id": "ta", "amount": "0"}); s.drain()
