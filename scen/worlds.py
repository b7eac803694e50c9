"""The worlds that TLC explores (spec/ExWorld.tla) and the scripts that replay its walks in the contract."""
import json
from lib import E18, E24, NEAR, ORACLE, PYTH, PEOPLE, Script, act, actout, price_data

NOW0 = 1700000000 * 10**9


def c(p, m, a=None, d="1", to="ex", out=None, msg=None):
    a = dict(a or {})
    x = {"p": p, "to": to, "m": m, "a": a, "d": str(d)}
    if msg is not None:
        a["msg"] = json.dumps(msg)
        x["msgj"] = msg
    if out is not None:
        x["out"] = out
    return x


def send(p, tok, n, msg=None):
    """tokens sent to the exchange with a message"""
    x = c(p, "ft_transfer_call", {"receiver_id": "ex", "amount": str(n), "msg": ""}, to=tok, msg=msg)
    return x


def reg(u, n):
    return c(u, "storage_deposit", {}, n)


def base(tokens, rich=True, fees=30):
    """registered alice and bob, tokens listed"""
    s = [c("owner", "modify_wnear_id", {"wnear_id": "wnear"}), c("owner", "extend_whitelisted_tokens", {"tokens": tokens}),
         reg("owner", 60 * NEAR if rich else NEAR // 10), reg("alice", NEAR // 10), reg("bob", NEAR // 10)]
    return s


def pool(toks, fee):
    return c("alice", "add_simple_pool", {"tokens": toks, "fee": fee}, NEAR // 10)


def add(u, pid, am, **k):
    return c(u, "add_liquidity", {"pool_id": pid, "amounts": [str(x) for x in am], **k}, NEAR // 100)


def adds(u, pid, am, low=1):
    return c(u, "add_stable_liquidity", {"pool_id": pid, "amounts": [str(x) for x in am], "min_shares": str(low)}, NEAR // 100)


def rem(u, pid, sh, mins):
    return c(u, "remove_liquidity", {"pool_id": pid, "shares": str(sh), "min_amounts": [str(x) for x in mins]})


def remt(u, pid, am, high):
    return c(u, "remove_liquidity_by_tokens", {"pool_id": pid, "amounts": [str(x) for x in am], "max_burn_shares": str(high)})


def swap(u, acts, d=1, **k):
    return c(u, "swap", {"actions": acts, **k}, d)


def swapo(u, acts, d=1, **k):
    return c(u, "swap_by_output", {"actions": acts, **k}, d)


def world(tokens, setup, menu, calls, times=(), answers=None, pure=False, liquidation=False, lenient=False, rich=10**30):
    led = {t: {u: str(rich) for u in ("alice", "bob", "owner", "dave", "burrow")} for t in tokens}
    return {"tokens": tokens, "setup": setup, "menu": menu, "calls": calls, "long": 2 * calls + 1, "times": [str(t) for t in times], "ledger": led, "answers": answers or {"none": ["0"]},
            "pure": pure, "liquidation": liquidation, "lenient": lenient}


WORLDS = {}


def w(f):
    WORLDS[f.__name__] = f
    return f


GUARD = [c("owner", "change_state", {"state": "Paused"}), c("owner", "change_state", {"state": "Running"})]


@w
def wd():
    """withdrawals that fail, hand back, meet closed accounts, a frozen token, a new wrapped NEAR"""
    tk = ["ta", "tb", "wnear"]
    s = base(tk) + [send("alice", "ta", 100), send("alice", "wnear", 50), send("bob", "ta", 10)]
    wdr = lambda u, t, n, **k: c(u, "withdraw", {"token_id": t, "amount": str(n), **k})
    m = [wdr("alice", "ta", 40), wdr("alice", "ta", 0, unregister=True), wdr("alice", "ta", 100), wdr("alice", "wnear", 30, skip_unwrap_near=False),
         wdr("alice", "wnear", 0, unregister=True, skip_unwrap_near=False), wdr("bob", "ta", 7), wdr("alice", "ta", 101),
         c("alice", "storage_unregister", {}), c("alice", "storage_withdraw", {}), c("alice", "unregister_tokens", {"token_ids": ["ta"]}),
         c("alice", "claim_lostfound", {"token_id": "ta"}), c("alice", "claim_lostfound", {"token_id": "wnear"}), c("bob", "claim_lostfound", {"token_id": "ta"}),
         send("alice", "ta", 5), reg("alice", NEAR // 100), c("owner", "modify_wnear_id", {"wnear_id": "tb"}),
         c("owner", "extend_frozenlist_tokens", {"tokens": ["ta"]}), c("owner", "remove_frozenlist_tokens", {"tokens": ["ta"]}), send("dave", "ta", 3),
         c("bob", "exchange_callback_post_withdraw", {"token_id": "ta", "sender_id": "bob", "amount": "10"}, 0),
         c("owner", "storage_withdraw", {"amount": str(50 * NEAR)})] + GUARD  # with less NEAR than that nothing is kept for those who left
    return world(tk, s, m, 3, pure=True)


@w
def swaps():
    """swaps on transfer, in virtual accounts and with messages, and what becomes of their payments"""
    tk = ["ta", "tb", "wnear"]
    s = base(tk) + [c("owner", "extend_secure_sender_whitelist", {"sender_ids": ["bob"]}), send("alice", "ta", 10**6), send("alice", "tb", 10**6), send("alice", "wnear", 10**6),
                    pool(["ta", "tb"], 30), pool(["tb", "wnear"], 0), add("alice", 0, (5000, 9000)), add("alice", 1, (7000, 3000))]
    one, two = [act(0, "ta", "tb", 500, 1)], [act(0, "ta", "tb", 300), act(1, "tb", "wnear")]
    m = [send("bob", "ta", 500, {"force": 0, "actions": one}), send("bob", "ta", 500, {"actions": one, "client_echo": "hi"}),
         send("dave", "ta", 300, {"actions": two, "skip_unwrap_near": False}), send("dave", "ta", 500, {"actions": one, "swap_out_recipient": "bob"}),
         send("dave", "ta", 700, {"actions": one + [act(0, "ta", "tb", 200)]}), send("bob", "ta", 301, {"actions": two}),
         send("dave", "ta", 500, {"actions": [act(0, "ta", "tb", 500, 10**9)]}), send("dave", "ta", 500, {"actions": one, "client_echo": "hi"}),
         send("alice", "ta", 600, {"hot_zap_actions": [act(0, "ta", "tb", 200)], "add_liquidity_infos": [{"pool_id": 0, "amounts": ["400", "300"], "min_amounts": ["1", "1"]}]}),
         send("alice", "ta", 600, {"hot_zap_actions": [act(0, "ta", "tb", 200)], "add_liquidity_infos": [{"pool_id": 0, "amounts": ["401", "300"], "min_amounts": ["1", "1"]}]}),
         swap("alice", two), swap("alice", [act(0, "ta", "tb", 300), act(1, "tb", "wnear"), act(1, "wnear", "tb")]), swap("alice", [act(0, "ta", "tb", 300), act(1, "tb", "wnear", low=10**6)]),
         c("alice", "execute_actions_in_va", {"use_tokens": {"ta": "400"}, "actions": [act(0, "ta", "tb", 400)]}),
         c("alice", "execute_actions_in_va", {"use_tokens": {"ta": "400"}, "actions": [act(0, "ta", "tb", 401)]}),
         swapo("bob", [actout(0, "ta", "tb", 100, 1000)]), swapo("alice", [actout(1, "tb", "wnear", 200), actout(0, "ta", "tb")]),
         c("alice", "claim_lostfound", {"token_id": "tb"}), c("dave", "claim_lostfound", {"token_id": "tb"}), rem("alice", 0, E24 // 2, (1, 1)),
         c("bob", "storage_unregister", {}), c("bob", "register_tokens", {"token_ids": ["tb"]}),
         c("owner", "extend_frozenlist_tokens", {"tokens": ["tb"]}), c("owner", "remove_frozenlist_tokens", {"tokens": ["tb"]})] + GUARD
    return world(tk, s, m, 2)


@w
def legacy():
    """accounts stored as an early release did: every use of their balances, with and without NEAR to store them anew"""
    tk = ["ta", "tb", "wnear"]
    s = base(tk) + [send("alice", "ta", 1000), send("alice", "tb", 1000), send("alice", "wnear", 50), c("alice", "register_tokens", {"token_ids": ["tc", "td"]}), send("bob", "ta", 700),
                    send("bob", "tb", 500), pool(["ta", "tb"], 30), add("bob", 0, (300, 400))]
    wdr = lambda u, t, n, **k: c(u, "withdraw", {"token_id": t, "amount": str(n), **k})
    m = [wdr("alice", "ta", 40), wdr("alice", "ta", 0, unregister=True), wdr("bob", "tb", 0), wdr("alice", "wnear", 30, skip_unwrap_near=False), send("alice", "ta", 5), send("alice", "tc", 9),
         c("alice", "storage_withdraw", {}), c("bob", "storage_withdraw", {}), reg("alice", NEAR // 200), c("alice", "storage_unregister", {}), c("alice", "unregister_tokens", {"token_ids": ["tc", "td"]}),
         c("alice", "register_tokens", {"token_ids": ["tc", "ta", "te"]}), c("alice", "register_tokens", {"token_ids": []}), swap("alice", [act(0, "ta", "tb", 100)]),
         swap("bob", [act(0, "tb", "ta", 50)]), add("alice", 0, (30, 40)), add("bob", 0, (30, 40)), rem("bob", 0, E24 // 9, (1, 1)),
         c("alice", "mft_transfer", {"token_id": "ta", "receiver_id": "bob", "amount": "60"}), c("bob", "mft_transfer_call", {"token_id": "tb", "receiver_id": "alice", "amount": "70", "msg": "x"}),
         c("alice", "execute_actions_in_va", {"use_tokens": {"ta": "400"}, "actions": [act(0, "ta", "tb", 400)]}),
         send("bob", "ta", 100, {"hot_zap_actions": [act(0, "ta", "tb", 40)], "add_liquidity_infos": [{"pool_id": 0, "amounts": ["30", "30"], "min_amounts": ["1", "1"]}]}),
         c("alice", "claim_lostfound", {"token_id": "ta"}), c("owner", "withdraw_owner_token", {"token_id": "ta", "amount": "1"})]
    x = world(tk + ["tc"], s, m, 2)
    x["aged"] = {"alice": ["ta", "wnear", "tc", "td"], "bob": ["ta", "tb"]}
    return x


def shares():
    tk = ["ta", "tb"]
    return tk, base(tk) + [send("alice", "ta", 10**6), send("alice", "tb", 10**6), send("bob", "ta", 10**6), send("bob", "tb", 10**6),
                           pool(["ta", "tb"], 30), add("alice", 0, (5000, 9000)), add("bob", 0, (500, 900))]


H = E24 // 20


@w
def mft():
    """transfers of shares and balances with a call, and everything that may happen before they resolve"""
    tk, s = shares()
    tc = lambda u, x, v, n: c(u, "mft_transfer_call", {"token_id": x, "receiver_id": v, "amount": str(n), "msg": "go"})
    tr = lambda u, x, v, n: c(u, "mft_transfer", {"token_id": x, "receiver_id": v, "amount": str(n)})
    rg = lambda u: c(u, "mft_register", {"token_id": ":0", "account_id": u}, NEAR // 100)
    s += [rg("farmer"), reg("farmer", NEAR // 10)]
    m = [tc("alice", ":0", "farmer", H), tc("bob", ":0", "farmer", H), tc("alice", ":0", "bob", E24), tc("alice", "ta", "farmer", 1000), tc("bob", "ta", "farmer", 7),
         c("alice", "mft_transfer_all_call", {"token_id": ":0", "receiver_id": "farmer", "msg": ""}), tr("farmer", ":0", "bob", H // 2), tr("farmer", "ta", "bob", 400),
         c("alice", "mft_unregister", {"token_id": ":0"}), c("farmer", "mft_unregister", {"token_id": ":0"}), rg("alice"), rem("bob", 0, E24 // 10, (1, 1)), rem("farmer", 0, H, (0, 0)),
         c("farmer", "donation_share", {"pool_id": 0, "unregister": True}), tc("alice", ":0", "dave", 5), tc("alice", ":0", "alice", 5),
         c("bob", "mft_resolve_transfer", {"token_id": ":0", "sender_id": "bob", "receiver_id": "alice", "amount": "5"}, 0),
         c("farmer", "donation_token", {"token_id": "ta"})] + GUARD
    return world(tk, s, m, 3, lenient=True)


def pledge(u, act, n=None, d=0):
    return c(u, "shadow_action", {"action": act, "pool_id": 0, "msg": "", **({} if n is None else {"amount": str(n)})}, d)


@w
def shadow():
    """shares pledged to the farming and the lending contract, answers late or failed"""
    tk, s = shares()
    s[3] = reg("alice", NEAR // 100)
    m = [pledge("alice", "ToFarming", E24, NEAR // 100), pledge("alice", "ToFarming", H, NEAR // 100), pledge("alice", "FromFarming"), pledge("alice", "FromFarming", H),
         pledge("alice", "ToBurrowland", E24 // 2, NEAR // 100), pledge("alice", "FromBurrowland", H), pledge("alice", "FromBurrowland"), pledge("bob", "ToFarming", None, NEAR // 100),
         rem("alice", 0, E24 // 2, (1, 1)), rem("alice", 0, H, (1, 1)), c("alice", "mft_transfer", {"token_id": ":0", "receiver_id": "bob", "amount": str(E24)}),
         c("alice", "donation_share", {"pool_id": 0, "amount": str(H)}),
         c("alice", "storage_unregister", {}), c("alice", "storage_withdraw", {}), pledge("dave", "ToFarming", 1, NEAR // 100), add("alice", 0, (50, 90)),
         c("bob", "callback_on_shadow", {"action": "FromFarming", "sender_id": "bob", "pool_id": 0, "amount": "1", "storage_fee": "0"}, 0),
         c("bob", "on_cast_shadow", {}, 0)] + GUARD
    return world(tk, s, m[:-3] + GUARD, 3)


@w
def liquidation():
    """shares pledged twice and sold by the lending contract"""
    tk, s = shares()
    liq = lambda n, mins=(1, 1), who="burrow": c(who, "on_burrow_liquidation", {"liquidator_account_id": "bob", "liquidation_account_id": "alice", "shadow_id": "shadow_ref_v1-0",
                                                                                "liquidate_share_amount": str(n), "min_token_amounts": [str(x) for x in mins]}, 0)
    s += [pledge("alice", "ToBurrowland", E24 * 3 // 4, NEAR // 100), pledge("alice", "ToFarming", E24, NEAR // 100)]
    m = [liq(H), liq(E24 * 3 // 4), liq(E24 // 2), liq(H, (10**9, 1)), liq(H, who="bob"), pledge("alice", "FromFarming", E24 // 2), pledge("alice", "FromFarming"),
         pledge("alice", "FromBurrowland", E24 // 4), pledge("alice", "ToBurrowland", E24 // 4), rem("alice", 0, H, (1, 1)), c("owner", "extend_frozenlist_tokens", {"tokens": ["ta"]}),
         c("alice", "mft_transfer", {"token_id": ":0", "receiver_id": "bob", "amount": str(H)}), c("bob", "storage_unregister", {}),
         c("owner", "modify_boost_farm_id", {"boost_farm_id": "farmer"}), c("owner", "modify_burrowland_id", {"burrowland_id": "farmer"})]
    return world(tk, s, m, 3, liquidation=True, lenient=True)


@w
def tiny():
    """two-token pools with so few units that every rounding shows"""
    tk = ["ta", "tb"]
    s = base(tk) + [c("owner", "insert_referral", {"referral_id": "bob", "fee_bps": 4000}), c("owner", "modify_admin_fee", {"admin_fee_bps": 5000}),
                    send("alice", "ta", 1000), send("alice", "tb", 1000), send("bob", "ta", 1000), send("bob", "tb", 1000), pool(["ta", "tb"], 2000), add("alice", 0, (9, 5))]
    m = [swap(u, [act(0, a, b, n)], **k) for u, a, b, n, k in (("bob", "ta", "tb", 1, {}), ("bob", "ta", "tb", 3, {}), ("alice", "ta", "tb", 7, {"referral_id": "bob"}), ("bob", "tb", "ta", 2, {}),
                                                               ("bob", "tb", "ta", 6, {"referral_id": "bob"}), ("alice", "ta", "tb", 50, {}))]
    m += [swapo("bob", [actout(0, "ta", "tb", 1)]), swapo("alice", [actout(0, "tb", "ta", 4)], referral_id="bob"), swapo("bob", [actout(0, "tb", "ta", 8)]),
          swap("bob", [act(0, "ta", "tb", 4), act(0, "tb", "ta")]), add("bob", 0, (1, 1)), add("bob", 0, (5, 5)), add("alice", 0, (3, 7)), add("bob", 0, (9, 5), min_amounts=["9", "5"]),
          rem("alice", 0, E24 // 10, (0, 0)), rem("alice", 0, E24 // 3, (0, 0)), rem("alice", 0, E24, (0, 0)), rem("bob", 0, E24 // 9, (0, 0)), rem("alice", 0, E24 // 7, (1, 1)),
          c("alice", "donation_share", {"pool_id": 0, "amount": str(E24 // 5)}), c("owner", "modify_total_fee", {"pool_id": 0, "total_fee": 0}),
          c("owner", "remove_exchange_fee_liquidity", {"pool_id": 0, "shares": "100", "min_amounts": ["0", "0"]})]
    return world(tk, s, m, 3)


@w
def curve():
    """a stable pool with a ramp and a recorded history, in time"""
    tk = ["s6", "s18"]
    k6, k18 = 10**6, E18
    s = base(tk) + [x for u in ("alice", "bob") for x in (send(u, "s6", 10**6 * k6), send(u, "s18", 10**6 * k18))]
    s += [c("owner", "insert_referral", {"referral_id": "bob", "fee_bps": 4000}),
          c("owner", "add_stable_swap_pool", {"tokens": tk, "decimals": [6, 18], "fee": 25, "amp_factor": 50}, NEAR // 10), adds("alice", 0, (300 * k6, 200 * k18)),
          c("owner", "register_pool_twap_record", {"pool_id": 0})]
    D = 86400 * 10**9
    ramp = lambda to, days: c("owner", "stable_swap_ramp_amp", {"pool_id": 0, "future_amp_factor": to, "future_amp_time": str(NOW0 + days * D)})
    m = [ramp(500, 3), ramp(5, 4), ramp(501, 5), ramp(120, 2), ramp(1200, 6), c("owner", "stable_swap_stop_ramp_amp", {"pool_id": 0}), c("bob", "stable_swap_stop_ramp_amp", {"pool_id": 0}),
         swap("bob", [act(0, "s6", "s18", 70 * k6)], referral_id="bob"), swap("alice", [act(0, "s18", "s6", 11 * k18)]), swap("bob", [act(0, "s6", "s18", 1)]),
         adds("bob", 0, (10 * k6, 90 * k18)), adds("bob", 0, (0, 1000)), adds("alice", 0, (30 * k6, 0), 10**30), rem("alice", 0, 77 * E18, (1, 1)), remt("alice", 0, (k6, 60 * k18), 10**24),
         remt("bob", 0, (1, 1), 10**24), c("bob", "sync_pool_twap_record", {"pool_id": 0}, 0), c("owner", "unregister_pool_twap_record", {"pool_id": 0}),
         c("owner", "register_pool_twap_record", {"pool_id": 0}), c("alice", "donation_share", {"pool_id": 0, "amount": str(20 * E18)}),
         c("owner", "modify_cumulative_info_record_interval_sec", {"record_interval_sec": 1}), c("owner", "modify_admin_fee", {"admin_fee_bps": 8000}),
         c("owner", "remove_exchange_fee_liquidity", {"pool_id": 0, "shares": "100000000000", "min_amounts": ["0", "0"]})]
    return world(tk, s, m, 2, times=(1, 10**9, 3600 * 10**9 + 7, D, D + 1, 2 * D))


@w
def rates():
    """a rated pool: rates asked, answered late, wrongly or not at all, and expiring"""
    tk = ["st", "li", "wnear"]
    s = base(tk) + [x for u in ("alice", "bob") for t in tk for x in (send(u, t, 10**6 * NEAR),)]
    s += [c("owner", "register_rated_token", {"rate_type": "STNEAR", "token_id": "st"}), c("owner", "register_rated_token", {"rate_type": "LINEAR", "token_id": "li"}),
          c("owner", "add_rated_swap_pool", {"tokens": tk, "decimals": [24, 24, 24], "fee": 10, "amp_factor": 120}, NEAR // 10),
          c("bob", "update_token_rate", {"token_id": "st"}, 0, out="1150000000000000000000000"), c("bob", "update_token_rate", {"token_id": "li"}, 0, out="1023456789012345678901234"),
          adds("alice", 0, (300 * NEAR, 200 * NEAR, 400 * NEAR))]
    up = lambda t: c("dave", "update_token_rate", {"token_id": t}, 0)
    m = [up("st"), up("li"), up("wnear"), swap("bob", [act(0, "st", "wnear", 5 * NEAR)]), swap("bob", [act(0, "wnear", "li", 7 * NEAR + 1)]), adds("bob", 0, (NEAR, 2 * NEAR, 0)),
         rem("alice", 0, 5 * NEAR, (1, 1, 1)), remt("alice", 0, (0, NEAR, 1), 10 * NEAR), c("owner", "unregister_rated_token", {"token_id": "li"}),
         c("owner", "register_rated_token", {"rate_type": "LINEAR", "token_id": "li"}), c("owner", "register_rated_token", {"rate_type": "STNEAR", "token_id": "li"}),
         c("bob", "update_token_rate_callback", {"token_id": "st"}, 0), send("dave", "st", NEAR, {"actions": [act(0, "st", "li", NEAR)]})]
    D = 86400 * 10**9
    an = ["1151000000000000000000000", "1100000000000000000000000", "2500000000000000000000000", "junk"]
    return world(tk, s, m, 2, times=(1, D // 2, D, D + 1), answers={m: an for m in ("get_st_near_price", "ft_price")})


@w
def degen():
    """a price-weighted pool: prices asked one by one and together, answers late, old or missing; limits"""
    tk = ["d24", "d6", "wnear"]
    s = base(tk) + [x for u in ("alice", "bob") for x in (send(u, "d24", 10**6 * NEAR), send(u, "d6", 10**12))]
    s += [c("owner", "register_degen_oracle_config", {"degen_oracle_config": {"PriceOracle": {"oracle_id": ORACLE, "expire_ts": "3600000000000", "maximum_recency_duration_sec": 90, "maximum_staleness_duration_sec": 60}}}),
          c("owner", "register_degen_oracle_config", {"degen_oracle_config": {"PythOracle": {"oracle_id": PYTH, "expire_ts": "1800000000000", "pyth_price_valid_duration_sec": 60}}}),
          c("owner", "register_degen_token", {"token_id": "d24", "degen_type": {"PriceOracle": {"decimals": 24}}}),
          c("owner", "register_degen_token", {"token_id": "d6", "degen_type": {"PythOracle": {"price_identifier": "ab" * 32}}}),
          c("owner", "add_degen_swap_pool", {"tokens": ["d24", "d6"], "decimals": [24, 6], "fee": 10, "amp_factor": 80}, NEAR // 10),
          c("bob", "update_degen_token_price", {"token_id": "d24"}, 0, out=price_data([("d24", 51234, 28)], NOW0)),
          c("bob", "update_degen_token_price", {"token_id": "d6"}, 0, out={"price": "99990000", "conf": "1", "expo": -8, "publish_time": 1700000000}),
          adds("alice", 0, (100 * NEAR, 500 * 10**6))]
    up = lambda t: c("dave", "update_degen_token_price", {"token_id": t}, 0)
    lim = lambda m, n: c("owner", m, {"pool_id": 0, **({} if n is None else {"degen_pool_limit_info": {"tvl_limit": str(n)}})})
    m = [up("d24"), up("d6"), c("dave", "batch_update_degen_token_price", {"token_ids": ["d24", "d6"]}, 0), swap("bob", [act(0, "d24", "d6", NEAR)]), swap("bob", [act(0, "d6", "d24", 10**7 + 1)]),
         adds("bob", 0, (NEAR, 5 * 10**6)), rem("alice", 0, 5 * NEAR, (1, 1)), remt("alice", 0, (NEAR, 1), 100 * NEAR), lim("add_degen_pool_limit", 1100), lim("update_degen_pool_limit", 1013),
         lim("remove_pool_limit", None), c("owner", "unregister_degen_token", {"token_id": "d6"}), c("owner", "register_degen_token", {"token_id": "d6", "degen_type": {"PriceOracle": {"decimals": 6}}}),
         c("owner", "update_degen_token", {"token_id": "d24", "degen_type": {"PythOracle": {"price_identifier": "ab" * 32}}}),
         send("bob", "d24", NEAR, {"actions": [act(0, "d24", "d6", NEAR)]}), send("bob", "d24", NEAR, {"actions": [act(0, "d24", "d6", NEAR)], "skip_degen_price_sync": True})]
    S9 = 10**9
    pd = lambda ago, rec, pr: dict(price_data(pr, 0, rec), timestamp=str(ago * S9))
    good = [("d24", 52000, 28), ("d6", 10001, 10)]
    py = lambda ago, p, expo=-8: {"price": str(p), "conf": "1", "expo": expo, "publish_time": ago}
    one = [pd(59, 90, good[:1]), pd(60, 91, good[:1]), pd(61, 60, good[:1]), pd(0, 60, [("d24", None, 0)]), pd(0, 60, [("d6", 1, 28)])]
    return world(tk, s, m, 2, times=(S9, 1799 * S9, 3600 * S9, 3601 * S9), answers={
        "get_price_data": one + [pd(5, 90, good), pd(70, 60, good)], "get_price": [py(59, 10**8 + 7), py(61, 10**8), py(0, -5), py(0, 10**7, -7)],
        "list_prices_no_older_than": [{"ab" * 32: py(3, 101 * 10**6)}, {"cd" * 32: py(3, 10**8)}, {}]})


def jsonline(wd):
    return json.dumps(denull({k: v for k, v in wd.items() if k != "tokens"})) + "\n"


def denull(x):
    if isinstance(x, dict):
        return {k: denull(v) for k, v in x.items() if v is not None}
    return [denull(v) for v in x] if isinstance(x, list) else x


def fix(x):
    """an empty record of TLC reads as an empty list"""
    if isinstance(x, dict):
        return {k: (fix(v) if not (k in ("a", "sel") and v == []) else {}) for k, v in x.items()}
    return [fix(v) for v in x] if isinstance(x, list) else x


def script(name, walks, r, twin=False):
    """setup once, then every walk from there; twin: with no account stored as an early release did"""
    wd = WORLDS[name]()
    s = Script()
    s.put(c="reset", sc=name, watch=PEOPLE, tokens=wd["tokens"], ledger=wd["ledger"], now=str(NOW0),
          exchange=dict(owner_id="owner", boost_farm_id="bfarm", burrowland_id="burrow", exchange_fee=5, referral_fee=5))
    for x in wd["setup"]:
        s.put(c="call", **{k: x[k] for k in ("p", "to", "m", "a", "d")})
        if "out" in x:
            s.exec(out={"ok": x["out"]})
        s.drain()
    for u, toks in ({} if twin else wd.get("aged", {})).items():
        s.put(c="age", who=u, old=toks, tag=0 if u == "bob" else 1)
    if "aged" in wd:
        s.put(c="show", sc=name, ramp={})
        for u in wd["aged"]:  # brings the record itself, though not the tokens in it, to its present form
            s.put(c="call", p=u, to="ex", m="register_tokens", a={"token_ids": []}, d="1")
    s.snap("base")
    for k, wk in enumerate(walks):
        s.restore("base", "%s_%d" % (name, k))
        for x in wk:
            s.lines.append(fix(x))
        s.drain()
    return s


if __name__ == "__main__":
    import sys
    print(jsonline(WORLDS[sys.argv[1]]()), end="")
