"""Every kind of call in every kind of situation: paused, a token frozen or delisted, storage spent to the last byte, rates expired,
shares pledged, extreme fees, recorded histories, a wrong deposit, a closed account. Each combination starts from the same state."""
from lib import *
from ex_tok import ex_msg, zap, add

K = {t: unit(t) for t in DEC}
D = 86400 * 10**9
OPS, CONDS = [], []


def op(name, toks, tags, f, who="alice"):
    OPS.append((name, set(toks.split()), set(tags.split()), f, who))


def cond(name, tags, f, ops=None, acts=None):
    CONDS.append((name, set(tags.split()), f, ops or (lambda o: True), acts))


def one(m, a, **k):
    return lambda s, u, d=1: s.run(u, m, a(u) if callable(a) else a, d, **k)


def dep(t, n, msg=""):
    return lambda s, u, d=1: s.deposit(u, t, n, msg)


N = 3 * K["ta"] + 17
SK = {"skip_degen_price_sync": True}
op("swap", "ta tb", "C04 C08 C09", one("swap", {"actions": [act(P_AB, "ta", "tb", N)]}))
op("swap_ref", "tb ta", "C04 C09", one("swap", {"actions": [act(P_AB, "tb", "ta", N)], "referral_id": "ref1"}))
op("swap_chain", "ta tb tc", "C04 C10", one("swap", {"actions": [act(P_AB, "ta", "tb", N), act(P_BC, "tb", "tc")]}))
op("swap_stable", "s6 s18", "C06 C09", one("swap", {"actions": [act(P_ST, "s6", "s18", 7 * K["s6"] + 3)]}))
op("swap_rated", "st wnear", "C07 C18", one("swap", {"actions": [act(P_RT, "st", "wnear", 5 * K["st"] + 1)], **SK}))
op("swap_degen", "d24 d6", "C07 C18", one("swap", {"actions": [act(P_DG, "d24", "d6", K["d24"])], **SK}))
op("swap_degen_sync", "d24 d6", "C07 C18", one("swap", {"actions": [act(P_DG, "d6", "d24", 3 * K["d6"])]}))
op("swap_out", "ta tb", "C04 C08", one("swap_by_output", {"actions": [actout(P_AB, "ta", "tb", K["tb"], N)]}))
op("swap_out_chain", "ta tb tc", "C04 C08 C10", one("swap_by_output", {"actions": [actout(P_BC, "tb", "tc", K["tc"]), actout(P_AB, "ta", "tb")]}))
op("actions", "ta tb tc s6 s18", "C10", one("execute_actions", {"actions": [act(P_AB, "ta", "tb", N), act(P_BC, "tb", "tc"), act(P_ST, "s6", "s18", 9 * K["s6"])]}))
op("va", "ta tb tc", "C10", one("execute_actions_in_va", {"use_tokens": {"ta": str(N)}, "actions": [act(P_AB, "ta", "tb", N - 5), act(P_BC, "tb", "tc")]}))
op("instant", "ta tb", "C10 C02 C04", dep("ta", N, ex_msg([act(P_AB, "ta", "tb", N)])))
op("instant_chain", "ta wnear", "C10 C02", dep("ta", N, ex_msg([act(P_WA, "ta", "wnear", N - 9)], skip_unwrap_near=False)))
op("instant_to", "s6 s8", "C10 C02 C06", dep("s6", K["s6"], ex_msg([act(P_ST, "s6", "s8", K["s6"])], swap_out_recipient="dave")))
op("echo", "ta tb", "C10 C02", lambda s, u, d=1: (s.one("owner", "extend_secure_sender_whitelist", {"sender_ids": [u]}), s.deposit(u, "ta", N, ex_msg([act(P_AB, "ta", "tb", N)], client_echo="e"))))
op("zap", "ta tb", "C10 C05 C13", dep("ta", N, zap([act(P_AB, "ta", "tb", N // 2)], [add(P_AB, [N // 5, N // 5], [0, 0])])))
op("zap_two", "ta tb tc", "C10 C05 C13", dep("ta", 4 * N, zap([act(P_AB, "ta", "tb", 2 * N), act(P_BC, "tb", "tc", N)], [add(P_AB, [N // 5, N // 5], [0, 0]), add(P_BC, [N // 9, 10**22], [0, 0])])))
op("zap_side", "s6 s18 s8", "C10 C06 C13", dep("s6", 9 * K["s6"], zap([act(P_ST, "s6", "s18", K["s6"])], [add(P_ST, [5 * K["s6"], 0, 0], min_shares=1)])))
op("zap_cross", "ta tb tc wnear", "C10 C05 C13", dep("ta", 4 * N, zap([act(P_WA, "ta", "wnear", N), act(P_AB, "ta", "tb", N), act(P_BC, "tb", "tc", N // 2)],
                                                                  [add(P_CW, [10**20, 10**22], [0, 0]), add(P_WA, [10**22, N // 9], [0, 0])])))
op("add", "ta tb", "C05 C08 C13", one("add_liquidity", {"pool_id": P_AB, "amounts": [str(N), str(N)], "min_amounts": ["1", "1"]}))
op("add_other", "tb tc", "C05 C08", lambda s, u, d=1: s.run(u, "add_liquidity", {"pool_id": P_BC, "amounts": [str(N), str(N)]}, NEAR // 50 if d == 1 else d))
op("add_stable", "s6 s18 s8", "C06 C08", lambda s, u, d=1: s.run(u, "add_stable_liquidity", {"pool_id": P_ST, "amounts": [str(K["s6"]), str(2 * K["s18"]), "0"], "min_shares": "1"}, NEAR // 50 if d == 1 else d))
op("add_rated", "st li wnear", "C07 C18", lambda s, u, d=1: s.run(u, "add_stable_liquidity", {"pool_id": P_RT, "amounts": ["0", str(K["li"]), "5"], "min_shares": "1"}, NEAR // 50 if d == 1 else d))
op("add_degen", "d24 d6", "C07 C18", lambda s, u, d=1: s.run(u, "add_stable_liquidity", {"pool_id": P_DG, "amounts": [str(K["d24"]), str(K["d6"])], "min_shares": "1"}, NEAR // 50 if d == 1 else d))
op("remove", "ta tb", "C05 C08 C11", one("remove_liquidity", {"pool_id": P_AB, "shares": str(10**22), "min_amounts": ["1", "1"]}))
op("remove_all", "tb tc", "C05 C11", one("remove_liquidity", {"pool_id": P_BC, "shares": str(10**24), "min_amounts": ["1", "1"]}))
op("remove_stable", "s6 s18 s8", "C06 C08 C11", one("remove_liquidity", {"pool_id": P_ST, "shares": str(11 * E18), "min_amounts": ["1", "1", "1"]}))
op("remove_rated", "st li wnear", "C07 C11", one("remove_liquidity", {"pool_id": P_RT, "shares": str(11 * E24), "min_amounts": ["1", "1", "1"]}))
op("remove_degen", "d24 d6", "C07 C11 C18", one("remove_liquidity", {"pool_id": P_DG, "shares": str(11 * E24), "min_amounts": ["1", "1"]}))
op("take_stable", "s6 s18 s8", "C06 C08 C11", one("remove_liquidity_by_tokens", {"pool_id": P_ST, "amounts": [str(K["s6"]), "0", "7"], "max_burn_shares": str(9 * E18)}))
op("take_rated", "st li wnear", "C07 C18 C11", one("remove_liquidity_by_tokens", {"pool_id": P_RT, "amounts": [str(K["st"]), "0", "0"], "max_burn_shares": str(9 * E24)}))
op("take_degen", "d24 d6", "C07 C18 C11", one("remove_liquidity_by_tokens", {"pool_id": P_DG, "amounts": [str(K["d24"]), "9"], "max_burn_shares": str(9 * E24)}))
op("withdraw", "ta", "C02 C01", one("withdraw", {"token_id": "ta", "amount": str(N)}))
op("withdraw_all", "tb", "C02 C13", one("withdraw", {"token_id": "tb", "amount": "0", "unregister": True}))
op("withdraw_near", "wnear", "C02", one("withdraw", {"token_id": "wnear", "amount": str(K["wnear"]), "skip_unwrap_near": False}))
op("deposit", "ta", "C01 C15", dep("ta", N))
op("deposit_new", "fine", "C01 C13", dep("fine", 777))
op("mft", "ta tb", "C12 C03 C11", one("mft_transfer", {"token_id": ":0", "receiver_id": "bob", "amount": str(10**22)}), )
op("mft_token", "ta", "C12 C01", one("mft_transfer", {"token_id": "ta", "receiver_id": "owner", "amount": "1000"}))
op("mft_call", "ta tb", "C12 C03 C11", one("mft_transfer_call", {"token_id": ":0", "receiver_id": "bob", "amount": str(10**22), "msg": "m"}))
op("mft_all", "ta tb", "C12 C03 C11", one("mft_transfer_all_call", {"token_id": ":0", "receiver_id": "bob", "msg": "m"}))
op("mft_reg", "tb tc", "C13 C03", lambda s, u, d=1: s.run(u, "mft_register", {"token_id": ":1", "account_id": "dave"}, NEAR // 50 if d == 1 else d))
op("mft_unreg", "tb tc", "C13 C03", lambda s, u, d=1: (s.run(u, "mft_register", {"token_id": ":7", "account_id": u}, NEAR // 50), s.run(u, "mft_unregister", {"token_id": ":7"}, d)))
op("donate", "ta tb", "C03 C11", one("donation_share", {"pool_id": P_AB, "amount": "1000", "unregister": False}))
op("donate_all", "tb tc", "C03 C11 C13", one("donation_share", {"pool_id": P_BC, "unregister": True}))
op("donate_token", "ta", "C01", one("donation_token", {"token_id": "ta", "amount": "1000"}))
op("pledge", "ta tb", "C11 C13", lambda s, u, d=1: s.run(u, "shadow_action", {"action": "ToFarming", "pool_id": P_AB, "amount": str(10**22), "msg": ""}, NEAR // 50 if d == 1 else d))
op("pledge_lend", "tb tc", "C11 C13", lambda s, u, d=1: s.run(u, "shadow_action", {"action": "ToBurrowland", "pool_id": P_BC, "msg": ""}, NEAR // 50 if d == 1 else d))
op("back", "ta tb", "C11 C13", lambda s, u, d=1: s.run(u, "shadow_action", {"action": "FromFarming", "pool_id": P_AB, "msg": ""}, 0 if d == 1 else d))
op("liquidate", "ta tb", "C11 C15", lambda s, u, d=0: s.run("burrow", "on_burrow_liquidation", {
    "liquidator_account_id": "bob", "liquidation_account_id": u, "shadow_id": "shadow_ref_v1-0", "liquidate_share_amount": str(10**21), "min_token_amounts": ["1", "1"]}))
op("register", "ta", "C13", one("register_tokens", {"token_ids": ["odd"]}))
op("unregister", "ta", "C13", one("unregister_tokens", {"token_ids": ["fine", "odd"]}))
op("leave", "ta", "C13", one("storage_unregister", {}))
op("cash", "ta", "C13", one("storage_withdraw", {}))
op("cash_some", "ta", "C13", one("storage_withdraw", {"amount": "7"}))
op("store", "ta", "C13", lambda s, u, d=1: s.run(u, "storage_deposit", {}, NEAR // 50 if d == 1 else d))
op("store_for", "ta", "C13", lambda s, u, d=1: s.run(u, "storage_deposit", {"account_id": "dave", "registration_only": True}, NEAR // 50 if d == 1 else d))
op("new_pool", "ta tb", "C13 C14", lambda s, u, d=1: s.run(u, "add_simple_pool", {"tokens": ["ta", "fine"], "fee": 30}, NEAR // 50 if d == 1 else d))
op("owner_fee", "ta tb", "C09 C15", lambda s, u, d=1: s.run("owner", "remove_exchange_fee_liquidity", {"pool_id": P_AB, "shares": "5000", "min_amounts": ["0", "0"]}, d))
op("owner_take", "ta", "C14 C15", lambda s, u, d=1: s.run("owner", "withdraw_owner_token", {"token_id": "ta", "amount": "5"}, d))
op("sync", "ta tb", "C16", lambda s, u, d=0: s.run(u, "sync_pool_twap_record", {"pool_id": P_AB}))
op("rate", "st", "C18", lambda s, u, d=0: rate(s, "st", 1_150_100_000_000_000_000_000_000))

PAYS = {"add_other", "add_stable", "add_rated", "add_degen", "mft_reg", "pledge", "pledge_lend", "store", "store_for", "new_pool"}
MOVES = {"C15"}
cond("plain", "", lambda s: None)
cond("paused", "C15", lambda s: s.one("owner", "change_state", {"state": "Paused"}))
for t in ("ta", "tb", "tc", "wnear", "s8", "s6", "li", "d6"):
    cond("frozen_" + t, "C15", lambda s, t=t: s.one("owner", "extend_frozenlist_tokens", {"tokens": [t]}), lambda o, t=t: t in o[1])
    cond("delisted_" + t, "C15" if t in ("ta", "tb", "s8") else "", lambda s, t=t: s.one("owner", "remove_whitelisted_tokens", {"tokens": [t]}), lambda o, t=t: t in o[1] and t in ("ta", "tb", "s8", "tc"))
cond("no_yocto", "C14", lambda s: None, acts="0")
cond("two_yocto", "C14 C13", lambda s: None, acts="2")
cond("expired", "C18", lambda s: s.time(D + 1), lambda o: "C18" in o[2] or o[0] in ("swap_stable", "remove_rated", "swap"))
cond("at_expiry", "C18", lambda s: s.time(3600 * 10**9), lambda o: "C18" in o[2] and "d6" in o[1])
cond("just_expired", "C18", lambda s: s.time(3600 * 10**9 + 1), lambda o: "C18" in o[2] and "d6" in o[1])
cond("rate_at_expiry", "C18", lambda s: s.time(D), lambda o: "C18" in o[2] and "st" in o[1])
cond("rate_gone", "C18 C07", lambda s: s.one("owner", "unregister_rated_token", {"token_id": "st"}), lambda o: "st" in o[1])
cond("price_gone", "C18 C07", lambda s: s.one("owner", "unregister_degen_token", {"token_id": "d24"}), lambda o: "d24" in o[1])
cond("oracle_gone", "C18", lambda s: s.one("owner", "unregister_degen_oracle_config", {"degen_oracle_config_key": "PythOracleConfig"}), lambda o: "d24" in o[1])
cond("limited", "C18", lambda s: s.one("owner", "add_degen_pool_limit", {"pool_id": P_DG, "degen_pool_limit_info": {"tvl_limit": "1"}}), lambda o: "d24" in o[1])
cond("pledged", "C11", lambda s: s.run("alice", "shadow_action", {"action": "ToFarming", "pool_id": P_AB, "msg": ""}, NEAR // 50), lambda o: o[1] & {"ta", "tb"} and "C11" in o[2])
cond("pledged_both", "C11", lambda s: (s.run("alice", "shadow_action", {"action": "ToFarming", "pool_id": P_AB, "msg": "", "amount": str(E24 - 10**22)}, NEAR // 50),
                                      s.run("alice", "shadow_action", {"action": "ToBurrowland", "pool_id": P_AB, "msg": "", "amount": str(E24 - 10**21)}, NEAR // 50)),
     lambda o: o[1] & {"ta", "tb"} and "C11" in o[2])
cond("lent_all", "C11", lambda s: [s.run("alice", "shadow_action", {"action": "ToBurrowland", "pool_id": p, "msg": ""}, NEAR // 50) for p in (P_ST, P_RT, P_DG, P_BC, P_AB)], lambda o: "C11" in o[2])
cond("timed", "C16", lambda s: ([s.one("owner", "register_pool_twap_record", {"pool_id": p}) for p in (P_AB, P_BC, P_ST, P_RT, P_DG)], s.secs(901)), lambda o: len(o[1]) > 1 or o[0] == "sync")
cond("high_admin", "C09", lambda s: (s.one("owner", "modify_admin_fee", {"admin_fee_bps": 8000}), s.one("owner", "insert_referral", {"referral_id": "ref1", "fee_bps": 9999})), lambda o: len(o[1]) > 1)
cond("no_admin", "C09", lambda s: s.one("owner", "modify_admin_fee", {"admin_fee_bps": 0}), lambda o: len(o[1]) > 1)
cond("high_fee", "C09", lambda s: [s.one("owner", "modify_total_fee", {"pool_id": p, "total_fee": 9999}) for p in (P_AB, P_ST, P_RT, P_DG)], lambda o: len(o[1]) > 1)
cond("no_fee", "C09", lambda s: [s.one("owner", "modify_total_fee", {"pool_id": p, "total_fee": 0}) for p in (P_AB, P_ST, P_RT, P_DG)], lambda o: len(o[1]) > 1)
cond("ramping", "C17", lambda s: ([s.one("owner", "stable_swap_ramp_amp", {"pool_id": p, "future_amp_factor": 600, "future_amp_time": str(NOW0 + 3 * D)}) for p in (P_ST, P_RT, P_DG)], s.time(D // 3),
                                  degen_price(s, "d24", 51234, 28, NOW0 + D // 3)), lambda o: o[1] & {"s6", "st", "d24"})
cond("unpaid", "C02 C01", lambda s: [s.block(t, u) for t in ("ta", "tb", "tc", "s8", "wnear") for u in ("alice", "dave")], lambda o: "C02" in o[2] or o[0] in ("mft_call", "deposit"))
cond("owner_left", "C01", lambda s: None, lambda o: "owner" in o[0] or o[0] == "donate_token")
SPENT = ("zap", "zap_two", "zap_side", "zap_cross", "add", "deposit_new", "register", "pledge", "pledge_lend", "withdraw", "withdraw_all", "cash", "leave", "store", "swap", "swap_chain", "va", "swap_stable",
         "mft_token", "unregister", "donate_all", "back")
LP = 70 * 10**19     # a share record of carol
LP_B = 68 * 10**19   # of bob
TOK = 148 * 10**19


def spent(extra):
    def f(s):
        for u in ("carol", "bob", "alice"):
            s.ok(u, "storage_withdraw", {})
            if extra:
                s.run(u, "storage_deposit", {}, extra)
    return f


for nm, x in (("nothing", 0), ("lp", LP), ("lp_less", LP - 1), ("two_lp", 2 * LP), ("two_less", 2 * LP - 1), ("lp_b", LP_B), ("token", TOK), ("token_less", TOK - 1), ("lp_token", LP + TOK), ("two_lp_token", 2 * LP + TOK),
              ("two_lp_token_less", 2 * LP + TOK - 1), ("two_two", 2 * LP + 2 * TOK), ("two_two_less", 2 * LP + 2 * TOK - 1)):
    cond("spent_" + nm, "C13", spent(x), lambda o: o[0] in SPENT, acts="carol")


def cases(prop):
    for c in CONDS:
        for o in OPS:
            if not c[3](o):
                continue
            if prop in c[1] or prop in o[2] or prop == "all":
                if c[4] == "carol" and prop not in ("C13", "all"):
                    continue
                yield c, o


def scripts(prop, groups):
    """[(name, script)]"""
    todo = {}
    for c, o in cases(prop):
        todo.setdefault(c[0], (c, []))[1].append(o)
    out = []
    groups = max(1, min(groups, sum(len(v[1]) for v in todo.values()) // 60 + 1))
    flat = sorted(todo.values(), key=lambda v: -len(v[1]))
    for g in range(groups):
        s = Script()
        base(s)
        s.run("owner", "storage_deposit", {}, 20 * NEAR)
        s.one("owner", "insert_referral", {"referral_id": "ref1", "fee_bps": 2500}) if g % 2 else None
        s.snap("base")
        for c, os_ in flat[g::groups]:
            s.restore("base", "mat_" + c[0])
            c[2](s)
            s.drain()
            s.snap("cond")
            for o in os_:
                s.restore("cond", "mat_%s_%s" % (c[0], o[0]))
                if c[4] in ("0", "2"):
                    o[3](s, o[4], d=int(c[4]))
                elif c[4] == "carol":
                    o[3](s, "carol")
                    s.restore("cond", "mat_%s_%s_bob" % (c[0], o[0]))
                    o[3](s, "bob")
                else:
                    o[3](s, o[4])
        out.append(("mat_%d" % g, s))
    return out
