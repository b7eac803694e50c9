"""Seeded random histories of the exchange: operations of several users, crossing in flight, with every outcome of the calls made outside."""
import random
from lib import *
from ex_tok import ex_msg, zap, add

PAIRS = [(p, a, b) for p, ts in POOLS.items() for a in ts for b in ts if a != b]
PID = "ab" * 32


class Walk:
    def __init__(self, s, r, prop=""):
        self.weights = [n + 12 * FOCUS.get(prop, ()).count(f) for n, f in OPS]
        self.s, self.r, self.now = s, r, NOW0
        self.frozen, self.paused = [], False

    def amount(self, t, big=2000):
        r = self.r
        k = r.random()
        if k < 0.06:
            return r.choice([0, 1, 2, 3, 10, 999])
        if k < 0.12:
            return r.randrange(1, 10**7)
        return int(unit(t) * 10 ** r.uniform(-7, 3.3)) + r.randrange(1000)

    def shares(self, p):
        r = self.r
        one = 10**18 if p in (P_ST, P_FI) else 10**24
        return str(r.choice([1, 7, int(one * 10 ** r.uniform(-12, 1.7)), int(one * 10 ** r.uniform(-3, 2)), one * 1000]))

    def acts(self, n=None, chain=None):
        r = self.r
        n = n or r.choice([1, 1, 1, 2, 2, 3])
        out, cur = [], None
        for i in range(n):
            c = [x for x in PAIRS if x[1] == cur] if cur and r.random() < 0.85 else PAIRS
            p, a, b = r.choice(c or PAIRS)
            out.append(act(p, a, b, None if cur and r.random() < 0.7 else self.amount(a), r.choice([0, 0, 0, 0, 1, 10**18])))
            cur = b
        return out

    def user(self):
        return self.r.choice(["alice", "alice", "bob", "bob", "carol", "dave"])

    def step(self):
        r, s, u = self.r, self.s, self.user()
        k = r.choices(range(len(OPS)), self.weights)[0]
        OPS[k][1](self, s, r, u)
        if r.random() < 0.75:
            s.drain()
        else:
            for i in range(r.randrange(4)):
                s.exec(r.randrange(6), r.choice([None, None, "fail"]))
        if r.random() < 0.15:
            ns = r.choice([10**9, 60 * 10**9, 3600 * 10**9, 100, 20 * 10**9])
            self.now += ns
            s.time(ns)

    def run(self, n):
        for i in range(n):
            self.step()
        self.s.drain()


def op_swap(w, s, r, u):
    k = {"skip_degen_price_sync": True} if r.random() < 0.7 else {}
    if r.random() < 0.3:
        k["referral_id"] = r.choice(["ref1", "ref2"])
    s.call(u, r.choice(["swap", "swap", "execute_actions"]), {"actions": w.acts(), **k}, r.choice([0, 0, 0, 1]))


def op_quoted(w, s, r, u):
    p, a, b = r.choice(PAIRS)
    n = w.amount(a)
    s.view("get_return", {"pool_id": p, "token_in": a, "amount_in": str(n), "token_out": b})
    s.call(u, "swap", {"actions": [act(p, a, b, n)], "skip_degen_price_sync": True})


def op_swap_out(w, s, r, u):
    p, a, b = r.choice([x for x in PAIRS if KIND[x[0]] == "S"])
    n = w.amount(b)
    s.view("get_return_by_output", {"pool_id": p, "token_in": a, "amount_out": str(n), "token_out": b})
    acts = [actout(p, a, b, n, r.choice([None, None, 10**30, n]))]
    if r.random() < 0.3:
        nxt = [x for x in PAIRS if KIND[x[0]] == "S" and x[2] == a]
        if nxt:
            q, x, y = r.choice(nxt)
            acts.append(actout(q, x, y))
    s.call(u, "swap_by_output", {"actions": acts}, r.choice([0, 1]))


def op_va(w, s, r, u):
    acts = w.acts()
    t = acts[0]["token_in"]
    n = w.amount(t)
    use = {t: str(n)}
    if r.random() < 0.3:
        x = r.choice(TOKENS)
        use[x] = str(w.amount(x))
    if r.random() < 0.7:
        acts[0]["amount_in"] = str(n)
    s.call(u, "execute_actions_in_va", {"use_tokens": use, "actions": acts, "skip_degen_price_sync": True}, 1)


def op_instant(w, s, r, u):
    acts = w.acts()
    t = acts[0]["token_in"]
    n = w.amount(t) + 1
    if r.random() < 0.7:
        acts[0]["amount_in"] = str(n)
    k = {}
    if r.random() < 0.3:
        k["skip_unwrap_near"] = r.random() < 0.5
    if r.random() < 0.2:
        k["swap_out_recipient"] = r.choice(PEOPLE[:4])
    if r.random() < 0.15:
        k["client_echo"] = "e"
    if r.random() < 0.2:
        k["referral_id"] = "ref1"
    s.call(u, "ft_transfer_call", {"receiver_id": "ex", "amount": str(n), "msg": json.dumps(ex_msg(acts, skip_degen_price_sync=True, **k))}, 1, to=t)


def op_zap(w, s, r, u):
    p, a, b = r.choice(PAIRS)
    n = w.amount(a) + 2
    amts = [str(n // 3) if x == a else str(r.randrange(1, max(2, n // 4))) if x == b and DEC[a] == DEC[b] else str(r.choice([0, 1, 10**6])) for x in POOLS[p]]
    one = add(p, amts, [0] * len(amts) if KIND[p] == "S" else None, 0 if KIND[p] == "C" else None)
    s.call(u, "ft_transfer_call", {"receiver_id": "ex", "amount": str(n), "msg": json.dumps(zap([act(p, a, b, n // 2)], [one], skip_degen_price_sync=True))}, 1, to=a)


def op_deposit(w, s, r, u):
    t = r.choice(TOKENS)
    s.call(u, "ft_transfer_call", {"receiver_id": "ex", "amount": str(w.amount(t) + 1), "msg": ""}, 1, to=t)


def op_add(w, s, r, u):
    p = r.choice(list(POOLS))
    k = 10 ** r.uniform(-6, 2)
    am = [str(int(unit(t) * k * r.uniform(0.2, 3)) if r.random() < 0.85 else r.choice([0, 1])) for t in POOLS[p]]
    d = r.choice([NEAR // 100, NEAR // 100, 0, 10**18])
    if KIND[p] == "S":
        a = {"pool_id": p, "amounts": am}
        if r.random() < 0.3:
            a["min_amounts"] = ["1", am[1]]
        s.view("predict_add_simple_liquidity", {"pool_id": p, "amounts": am})
        s.call(u, "add_liquidity", a, d)
    else:
        s.view("predict_add_stable_liquidity", {"pool_id": p, "amounts": am})
        s.call(u, "add_stable_liquidity", {"pool_id": p, "amounts": am, "min_shares": r.choice(["0", "0", "1", "1000000000000000000"])}, d)


def op_remove(w, s, r, u):
    p = r.choice(list(POOLS))
    n = w.shares(p)
    s.view("predict_remove_liquidity", {"pool_id": p, "shares": n})
    s.call(u, "remove_liquidity", {"pool_id": p, "shares": n, "min_amounts": [r.choice(["0", "0", "0", "1", "1000000"])] * len(POOLS[p])}, 1)


def op_remove_tokens(w, s, r, u):
    p = r.choice([P_ST, P_RT, P_DG, P_FI])
    am = [str(w.amount(t) // r.choice([1, 5, 50])) if r.random() < 0.6 else "0" for t in POOLS[p]]
    s.view("predict_remove_liquidity_by_tokens", {"pool_id": p, "amounts": am})
    s.call(u, "remove_liquidity_by_tokens", {"pool_id": p, "amounts": am, "max_burn_shares": r.choice([str(10**32), str(10**32), "1000000000000000000000"])}, 1)


def op_withdraw(w, s, r, u):
    t = r.choice(TOKENS)
    a = {"token_id": t, "amount": str(r.choice([0, w.amount(t), w.amount(t)]))}
    if r.random() < 0.3:
        a["unregister"] = True
    if t == "wnear" or r.random() < 0.1:
        a["skip_unwrap_near"] = r.random() < 0.4
    s.call(u, "withdraw", a, 1)


def op_storage(w, s, r, u):
    k = r.randrange(5)
    if k == 0:
        s.call(u, "storage_deposit", r.choice([{}, {"registration_only": True}, {"account_id": "dave"}]), r.choice([NEAR // 10, 10**21, 25 * 10**20]))
    elif k == 1:
        s.call(u, "storage_withdraw", r.choice([{}, {"amount": str(10**21)}, {"amount": "1"}]), 1)
    elif k == 2:
        s.call(u, "storage_unregister", r.choice([{}, {"force": False}]), 1)
    elif k == 3:
        s.call(u, "register_tokens", {"token_ids": r.sample(TOKENS, 2)}, 1)
    else:
        s.call(u, "unregister_tokens", {"token_ids": r.sample(TOKENS, 1)}, 1)


def op_mft(w, s, r, u):
    p = r.choice(list(POOLS))
    t = ":%d" % p if r.random() < 0.8 else r.choice(TOKENS)
    n = w.shares(p) if t[0] == ":" else str(w.amount(t))
    to = r.choice(["alice", "bob", "carol", "dave", "farmer", "ex"])
    k = r.random()
    if k < 0.35:
        s.call(u, "mft_register", {"token_id": t, "account_id": to}, NEAR // 100)
        s.call(u, "mft_transfer", {"token_id": t, "receiver_id": to, "amount": n}, 1)
    elif k < 0.85:
        s.call(u, "mft_register", {"token_id": t, "account_id": "farmer"}, NEAR // 100)
        m = r.choice(["mft_transfer_call", "mft_transfer_call", "mft_transfer_all_call"])
        s.call(u, m, {"token_id": t, "receiver_id": r.choice(["farmer", to]), "msg": "", **({"amount": n} if m == "mft_transfer_call" else {})}, 1)
        s.exec({"m": "mft_on_transfer"}, r.choice(["fail", {"ok": "0"}, {"ok": n}, {"ok": str(int(n) // 2)}, {"ok": str(10**40)}]))
        if r.random() < 0.4:
            s.call("farmer", "mft_transfer", {"token_id": t, "receiver_id": "bob", "amount": str(int(n) * 2 // 3)}, 1)
    else:
        s.call(u, "mft_unregister", {"token_id": t}, 1)


def op_shadow(w, s, r, u):
    p = r.choice(list(POOLS))
    a = {"action": r.choice(["ToFarming", "ToBurrowland", "ToFarming", "ToBurrowland", "FromFarming", "FromFarming", "FromBurrowland", "FromBurrowland"]), "pool_id": p, "msg": ""}
    if r.random() < 0.7:
        a["amount"] = w.shares(p)
    if a["action"][0] == "F" and r.random() < 0.8:
        s.run(u, "shadow_action", {**a, "action": "To" + a["action"][4:]}, NEAR // 100)
        if r.random() < 0.4:
            a["amount"] = w.shares(p)
    s.call(u, "shadow_action", a, NEAR // 100)
    if r.random() < 0.5:
        s.exec({"m": "on_cast_shadow" if a["action"][0] == "T" else "on_remove_shadow"}, r.choice([None, None, "fail"]))


def op_liquidate(w, s, r, u):
    p = r.choice(list(POOLS))
    n = w.shares(p)
    if r.random() < 0.7:
        one = 10**18 if p in (P_ST, P_FI) else 10**24
        n = str(int(one * 10 ** r.uniform(-6, 0.8)))
        u = r.choice(["alice", "bob"])
        s.run(u, "shadow_action", {"action": "ToBurrowland", "pool_id": p, "msg": "", "amount": str(int(n) + r.choice([0, 1, 10**15]))}, NEAR // 100)
        if r.random() < 0.3:
            s.run(u, "shadow_action", {"action": "ToFarming", "pool_id": p, "msg": "", **({"amount": n} if r.random() < .7 else {})}, NEAR // 100)
        n = str(r.choice([int(n), int(n) // 2, int(n) + 2 * 10**15]))
    s.call(r.choice(["burrow"] * 9 + ["bfarm", u]), "on_burrow_liquidation", {
        "liquidator_account_id": r.choice(USERS), "liquidation_account_id": u, "shadow_id": "shadow_ref_v1-%d" % p,
        "liquidate_share_amount": n, "min_token_amounts": [r.choice(["0", "0", "0", "100000"])] * len(POOLS[p])})


def op_lost(w, s, r, u):
    if r.random() < 0.7:
        p, a, b = r.choice(PAIRS)
        u = r.choice(["dave", "ref1", "carol"])
        s.run("owner", "storage_deposit", {}, NEAR // 10)
        s.block(b, u)
        s.deposit(u, a, w.amount(a) + 10**6, ex_msg([act(p, a, b)], skip_degen_price_sync=True))
        if r.random() < 0.6:
            s.unblock(b, u)
        s.call(u, "claim_lostfound", {"token_id": b}, 1)
        if r.random() < 0.5:
            s.call(u, "claim_lostfound", {"token_id": b}, 1)
    else:
        s.call(u, "claim_lostfound", {"token_id": r.choice(TOKENS)}, 1)


def op_donate(w, s, r, u):
    p = r.choice(list(POOLS))
    if r.random() < 0.5:
        s.call(u, "donation_share", {"pool_id": p, **({"amount": w.shares(p)} if r.random() < 0.8 else {}), **({"unregister": True} if r.random() < 0.3 else {})}, 1)
    else:
        t = r.choice(TOKENS)
        s.call(u, "donation_token", {"token_id": t, "amount": str(w.amount(t)), **({"unregister": True} if r.random() < 0.2 else {})}, 1)


def op_price(w, s, r, u):
    k = r.randrange(4)
    if k == 0:
        rate(s, "st", 115 * 10**22 + r.randrange(10**22))
    elif k == 1:
        rate(s, "li", 102 * 10**22 + r.randrange(10**22))
    elif k == 2:
        degen_price(s, "d24", r.randrange(40000, 60000), 28, w.now - r.choice([0, 0, 89, 91]) * 10**9)
    else:
        s.call("bob", "update_degen_token_price", {"token_id": "d6"})
        s.exec({"to": PYTH}, out={"ok": {"price": str(r.randrange(99000000, 101000000)), "conf": "1", "expo": -8, "publish_time": w.now // 10**9 - r.choice([0, 0, 59, 62])}})


def op_owner(w, s, r, u):
    who = r.choice(["owner", "owner", "owner", "guard", u])
    k = r.randrange(13)
    o = lambda m, a: s.call(who, m, a, 1)
    if k == 0:
        o("modify_admin_fee", {"admin_fee_bps": r.choice([0, 5, 2000, 8000])})
    elif k == 1:
        p = r.choice(list(POOLS))
        o("modify_total_fee", {"pool_id": p, "total_fee": r.choice([0, 1, 5, 30, 100, 2000])})
    elif k == 2:
        o(r.choice(["insert_referral", "update_referral"]), {"referral_id": "ref1", "fee_bps": r.choice([1, 5000, 9999])})
        s.call("ref1", "mft_register", {"token_id": ":%d" % r.choice(list(POOLS)), "account_id": "ref1"}, NEAR // 100)
    elif k == 3:
        o("extend_frozenlist_tokens", {"tokens": [r.choice(TOKENS)]})
        w.frozen = 1
    elif k == 4:
        o("remove_frozenlist_tokens", {"tokens": r.sample(TOKENS, 5)})
        s.call("owner", "remove_frozenlist_tokens", {"tokens": TOKENS[:7]}, 1)
    elif k == 5:
        s.call(who, "change_state", {"state": "Paused"}, 1)
        for i in range(2):
            w.step()
        s.call("owner", "change_state", {"state": "Running"}, 1)
    elif k == 6:
        o("register_pool_twap_record", {"pool_id": r.choice(list(POOLS))})
    elif k == 7:
        o("remove_exchange_fee_liquidity", {"pool_id": r.choice([P_AB, P_WA, P_BC]), "shares": w.shares(P_AB), "min_amounts": ["0", "0"]})
    elif k == 8:
        o("withdraw_owner_token", {"token_id": r.choice(TOKENS), "amount": str(r.choice([0, 1, 1000]))})
    elif k == 9:
        p = r.choice([P_ST, P_RT, P_DG])
        o("stable_swap_ramp_amp", {"pool_id": p, "future_amp_factor": r.choice([50, 150, 300, 800]), "future_amp_time": str(w.now + r.choice([1, 2, 5]) * 86400 * 10**9)})
    elif k == 10:
        o("add_degen_pool_limit", {"pool_id": P_DG, "degen_pool_limit_info": {"tvl_limit": str(r.choice([10**4, 12000, 10**7]))}})
    elif k == 11:
        o("extend_client_echo_token_id_whitelist", {"token_ids": [r.choice(TOKENS)]})
        o("extend_client_echo_sender_id_whitelist", {"sender_ids": [u]})
    else:
        s.call(u, "sync_pool_twap_record", {"pool_id": r.choice(list(POOLS))})


def op_block(w, s, r, u):
    t = r.choice(TOKENS)
    (s.block if r.random() < 0.5 else s.unblock)(t, u)


def op_ask(w, s, r, u):
    """a view of recorded state, or a question whose answer must be what the call would do"""
    for i in range(r.randrange(1, 5)):
        p = r.choice(list(POOLS) + [0, 99])
        m, a = r.choice([
            ("get_pool_detail_info", {"pool_id": p}), ("get_pool_detail_infos", {"from_index": r.randrange(10), "limit": r.randrange(12)}),
            ("get_pools", {"from_index": r.randrange(10), "limit": r.randrange(12)}), ("get_pool_share_price", {"pool_id": p}),
            ("get_unit_share_token_amounts", {"pool_id": p}), ("get_unit_share_twap_token_amounts", {"pool_id": p}), ("get_unit_lpt_assets", {"pool_ids": [p]}),
            ("batch_views", {"account_id": u, "pool_ids": r.sample(list(POOLS), 2)}), ("get_shadow_records", {"account_id": u}), ("get_deposits", {"account_id": u}),
            ("get_user_storage_state", {"account_id": u}), ("list_lostfound_tokens", {"account_id": u}), ("get_degen_pool_tvl", {"pool_id": P_DG}),
            ("mft_balance_of", {"token_id": r.choice([":%d" % p, "ta"]), "account_id": u}), ("list_degen_tokens", {}), ("get_pool_limit_paged", {}),
            ("list_pool_twap_info_view", {}), ("get_pool_volumes", {"pool_id": p}), ("get_pool_shares_batch", {"pool_ids": r.sample(list(POOLS), 3), "account_id": u})])
        s.view(m, a)
    acts = w.acts()
    if acts[0].get("amount_in"):
        s.view("predict_swap_actions", {"token_deposit": {acts[0]["token_in"]: acts[0]["amount_in"]}, "actions": acts})
    n = w.amount(acts[0]["token_in"]) + 2
    acts[0]["amount_in"] = str(n // 2)
    t = acts[-1]["token_out"]
    p = r.choice([p for p in POOLS if t in POOLS[p]])
    ams = [str(r.choice([0, 1, w.amount(x) // 50])) if x == t else r.choice(["0", "1"]) for x in POOLS[p]]
    s.view("predict_hot_zap", {"referral_id": r.choice(["ref1", "ref9"]), "token_in": acts[0]["token_in"], "amount_in": str(n), "hot_zap_actions": acts,
                               "add_liquidity_infos": [add(p, ams, [0] * len(ams) if KIND[p] == "S" else None, 0 if KIND[p] == "C" else None)], **({"account_id": u} if r.random() < .5 else {})})


def op_ramp(w, s, r, u):
    """coefficients on the move, met by trades half way"""
    p = r.choice([P_ST, P_RT, P_DG])
    for i in range(r.randrange(1, 4)):
        s.run("owner", r.choice(["stable_swap_ramp_amp"] * 4 + ["stable_swap_stop_ramp_amp"]), {"pool_id": p, "future_amp_factor": r.choice([20, 50, 100, 150, 240, 300, 800]),
              "future_amp_time": str(w.now + r.choice([86399, 86400, 86401, 90000, 2 * 86400, 5 * 86400]) * 10**9)}, 1)
        ns = r.choice([10**9, 3600 * 10**9, 43200 * 10**9, 86399 * 10**9, 86400 * 10**9, 3 * 86400 * 10**9])
        w.now += ns
        s.time(ns)
        op_price(w, s, r, u) if r.random() < .5 else None
        for m in ("get_pool_detail_info", "get_pool_share_price"):
            s.view(m, {"pool_id": p})
        a, b = r.sample(POOLS[p], 2)
        n = w.amount(a)
        s.view("get_return", {"pool_id": p, "token_in": a, "amount_in": str(n), "token_out": b})
        s.run(u, "swap", {"actions": [act(p, a, b, n)], "skip_degen_price_sync": True})
        r.choice([op_add, op_remove_tokens])(w, s, r, u)


OPS = [(14, op_swap), (8, op_quoted), (7, op_swap_out), (4, op_va), (8, op_instant), (5, op_zap), (4, op_deposit), (10, op_add), (9, op_remove), (7, op_remove_tokens),
       (7, op_withdraw), (4, op_storage), (9, op_mft), (9, op_shadow), (5, op_liquidate), (2, op_lost), (2, op_donate), (6, op_price), (8, op_owner), (2, op_block), (3, op_ask), (0, op_ramp)]
# what a property speaks about is done more often in the runs of its check
FOCUS = {"C01": (op_withdraw, op_block, op_storage), "C02": (op_withdraw, op_block, op_lost, op_instant), "C03": (op_mft, op_donate), "C04": (op_swap, op_ask),
         "C05": (op_add, op_remove, op_remove_tokens), "C06": (op_swap, op_add), "C07": (op_swap, op_add, op_remove_tokens, op_price), "C08": (op_swap, op_swap_out, op_instant),
         "C09": (op_owner, op_swap, op_remove_tokens), "C10": (op_va, op_instant, op_swap_out), "C11": (op_shadow, op_liquidate, op_mft), "C12": (op_mft,),
         "C13": (op_storage, op_zap, op_add), "C14": (op_owner,), "C15": (op_owner, op_zap, op_deposit), "C16": (op_add, op_remove, op_swap), "C17": (op_ramp,) * 3,
         "C18": (op_price,) * 2, "C19": (op_ask, op_quoted, op_swap_out)}


def script(seed, episodes, steps, start=None):
    """start: another state to begin in, at another time"""
    r = random.Random(seed)
    s = Script()
    if start:
        start[0](s)
    else:
        base(s, fees=r.choice([(5, 5), (2000, 1000), (0, 0)]))
    s.run("owner", "storage_deposit", {}, 20 * NEAR)
    s.one("owner", "register_pool_twap_record", {"pool_id": P_AB})
    s.one("owner", "register_pool_twap_record", {"pool_id": P_ST})
    s.snap("base")
    for e in range(episodes):
        s.restore("base", "rnd_%s_%d" % (seed, e))
        w = Walk(s, r, seed.split("/")[1])
        w.now += start[1] if start else 0
        w.run(steps)
    return s
