"""Directed scenarios of the exchange: swaps, liquidity, withdrawals, shares."""
from lib import *

ALL = []


def scenario(f):
    ALL.append(f)
    return f


def swap(s, who, acts, d=0, **k):
    s.call(who, "swap", {"actions": acts, **k}, d)


def quotes(s, pool, tin, tout, n):
    s.view("get_return", {"pool_id": pool, "token_in": tin, "amount_in": str(n), "token_out": tout})


@scenario
def swap_simple(s):
    for n in (0, 1, 2, 999, 10**9 + 7, unit("ta") // 3, unit("ta"), 777 * unit("ta"), 150000 * unit("ta"), 10**40):
        quotes(s, P_AB, "ta", "tb", n)
        swap(s, "carol", [act(P_AB, "ta", "tb", n)])
    for n in (1, 12345, unit("tb"), 5000 * unit("tb")):
        quotes(s, P_AB, "tb", "ta", n)
        swap(s, "carol", [act(P_AB, "tb", "ta", n)])
    swap(s, "carol", [act(P_AB, "ta", "ta", 5)])
    swap(s, "carol", [act(P_AB, "ta", "tc", 5)])
    swap(s, "carol", [act(99, "ta", "tb", 5)])
    swap(s, "carol", [])
    swap(s, "dave", [act(P_AB, "ta", "tb", 5)])
    swap(s, "carol", [act(P_CW, "wnear", "tc", unit("wnear"))], d=1)
    swap(s, "carol", [act(P_CW, "wnear", "tc", unit("wnear"))], d=0)
    swap(s, "carol", [act(P_WA, "wnear", "ta", 3 * unit("wnear"))])
    for i in range(6):
        swap(s, "carol", [act(P_CW, "wnear", "tc", 17 * unit("wnear")), act(P_CW, "tc", "wnear")])
    # minimum output is a bound, exactly
    s.call("carol", "swap", {"actions": [act(P_AB, "ta", "tb", unit("ta"), 10**30)]})


@scenario
def swap_bounds(s):
    """the bound on the outcome is exact: a quote is accepted, one more is refused"""
    n = 5 * unit("ta")
    # reserves 1037 ta / 2074 tb, fee 30
    x, y = 1037 * unit("ta"), 2074 * unit("tb")
    w = n * 9970
    out = w * y // (10000 * x + w)
    swap(s, "alice", [act(P_AB, "ta", "tb", n, out + 1)])
    swap(s, "alice", [act(P_AB, "ta", "tb", n, out)])
    s.restore("base", "swap_bounds2")
    yy = 3 * unit("tb")
    need = x * yy * 10000 // ((y - yy) * 9970) + 1
    s.view("get_return_by_output", {"pool_id": P_AB, "token_in": "ta", "amount_out": str(yy), "token_out": "tb"})
    s.call("alice", "swap_by_output", {"actions": [actout(P_AB, "ta", "tb", yy, need - 1)]})
    s.call("alice", "swap_by_output", {"actions": [actout(P_AB, "ta", "tb", yy, need)]})
    s.call("alice", "swap_by_output", {"actions": [actout(P_AB, "ta", "tb", yy)]})
    for q in (0, 1, 2, y - 1, y, y + 1, 10**6 * unit("tb")):
        s.view("get_return_by_output", {"pool_id": P_AB, "token_in": "ta", "amount_out": str(q), "token_out": "tb"})
        s.call("bob", "swap_by_output", {"actions": [actout(P_AB, "ta", "tb", q)]})
    s.call("bob", "swap_by_output", {"actions": [actout(P_AB, "ta", "ta", 5)]})
    s.call("bob", "swap_by_output", {"actions": [actout(P_ST, "s6", "s18", 5)]})
    s.call("bob", "swap_by_output", {"actions": [actout(P_BC, "tb", "tc", unit("tc")), actout(P_AB, "ta", "tb")]})
    s.call("bob", "swap_by_output", {"actions": [actout(P_BC, "tb", "tc", unit("tc")), actout(P_WA, "ta", "wnear")]})
    s.call("bob", "swap_by_output", {"actions": [actout(P_BC, "tb", "tc", unit("tc")), actout(P_AB, "ta", "tb", 7), actout(P_WA, "wnear", "ta")]})
    s.call("bob", "swap_by_output", {"actions": [actout(P_BC, "tb", "tc")]})
    s.call("bob", "swap_by_output", {"actions": []})


@scenario
def swap_curve(s):
    for tin, tout, k in (("s6", "s18", 10), ("s18", "s6", 333), ("s8", "s6", 7), ("s18", "s8", 1), ("s6", "s8", 900)):
        for n in (0, 1, 10**5, k * unit(tin) + 3):
            quotes(s, P_ST, tin, tout, n)
            swap(s, "alice", [act(P_ST, tin, tout, n)])
    swap(s, "alice", [act(P_ST, "s6", "s6", 5)])
    swap(s, "alice", [act(P_ST, "s6", "ta", 5)])
    swap(s, "alice", [act(P_ST, "s6", "s18", 100000 * unit("s6"))])
    swap(s, "alice", [act(P_ST, "s6", "s18", 150000 * unit("s6"), 1)])
    for tin, tout, k in (("fine", "s18", 5), ("s18", "fine", 1), ("fine", "s18", 500)):
        for n in (1, 10**6 - 1, 10**6, 10**6 + 1, k * unit(tin) + 999999):
            quotes(s, P_FI, tin, tout, n)
            swap(s, "bob", [act(P_FI, tin, tout, n)])
    s.view("get_pool_share_price", {"pool_id": P_ST})
    s.view("get_pool_share_price", {"pool_id": P_FI})


@scenario
def swap_rated(s):
    for tin, tout, k in (("st", "li", 10), ("li", "wnear", 333), ("wnear", "st", 7), ("wnear", "li", 1), ("st", "wnear", 900)):
        for n in (0, 1, 10**9, k * unit(tin) + 3):
            quotes(s, P_RT, tin, tout, n)
            swap(s, "alice", [act(P_RT, tin, tout, n)])
    s.view("get_rated_return", {"pool_id": P_RT, "token_in": "st", "amount_in": str(5 * E24), "token_out": "li", "rates": [str(E24), str(2 * E24), str(E24)]})
    s.view("predict_add_rated_liquidity", {"pool_id": P_RT, "amounts": [str(5 * E24), "0", str(E24)], "rates": [str(E24), str(2 * E24), str(E24)]})
    s.view("get_pool_share_price", {"pool_id": P_RT})
    rate(s, "st", 1_160_000_000_000_000_000_000_000)
    swap(s, "alice", [act(P_RT, "st", "wnear", 5 * E24)])
    s.time(86400 * 10**9)
    swap(s, "alice", [act(P_RT, "st", "wnear", 5 * E24)])
    s.time(1)
    swap(s, "alice", [act(P_RT, "st", "wnear", 5 * E24)])
    quotes(s, P_RT, "st", "wnear", 5 * E24)
    # stale rates: depositing still works, taking single tokens does not
    s.run("alice", "add_stable_liquidity", {"pool_id": P_RT, "amounts": [str(5 * E24)] * 3, "min_shares": "1"}, NEAR // 100)
    s.one("alice", "remove_liquidity_by_tokens", {"pool_id": P_RT, "amounts": [str(E24), "0", "0"], "max_burn_shares": str(10**30)})
    s.one("alice", "remove_liquidity", {"pool_id": P_RT, "shares": str(E24), "min_amounts": ["0"] * 3})
    rate(s, "st", E24)
    rate(s, "li", 3 * E24)
    swap(s, "alice", [act(P_RT, "st", "li", 5 * E24)])
    s.one("alice", "remove_liquidity_by_tokens", {"pool_id": P_RT, "amounts": [str(E24), "0", "0"], "max_burn_shares": str(10**30)})


@scenario
def swap_degen(s):
    for tin, tout, k in (("d24", "d6", 10), ("d6", "d24", 333), ("d6", "d24", 7)):
        for n in (0, 1, 10**6, k * unit(tin) + 3):
            quotes(s, P_DG, tin, tout, n)
            swap(s, "alice", [act(P_DG, tin, tout, n)], skip_degen_price_sync=True)
    swap(s, "alice", [act(P_DG, "d24", "d6", E24)])
    s.exec({"to": ORACLE}, out={"ok": price_data([("d24", 50000, 28)], NOW0)})
    s.exec({"to": PYTH}, out={"ok": {"ab" * 32: {"price": "1", "conf": "1", "expo": 1, "publish_time": 1700000000}}})
    s.drain()
    swap(s, "alice", [act(P_DG, "d24", "d6", E24 // 1000)])
    s.exec({"to": ORACLE}, out="fail")
    s.exec({"to": PYTH}, out={"ok": {"ab" * 32: {"price": "99990000", "conf": "1", "expo": -8, "publish_time": 1700000000}}})
    s.drain()
    swap(s, "alice", [act(P_DG, "d24", "d6", E24)], skip_degen_price_sync=True)
    s.view("get_degen_return", {"pool_id": P_DG, "token_in": "d24", "amount_in": str(E24), "token_out": "d6", "degens": [str(E24), str(2 * E24)]})
    s.view("predict_add_degen_liquidity", {"pool_id": P_DG, "amounts": [str(E24), "5"]})
    s.view("get_pool_share_price", {"pool_id": P_DG})
    # stale after an hour
    s.secs(3600)
    swap(s, "alice", [act(P_DG, "d24", "d6", E24)], skip_degen_price_sync=True)
    s.time(1)
    swap(s, "alice", [act(P_DG, "d24", "d6", E24)], skip_degen_price_sync=True)
    s.one("alice", "remove_liquidity_by_tokens", {"pool_id": P_DG, "amounts": [str(E24), "0"], "max_burn_shares": str(10**38)})
    s.run("alice", "add_stable_liquidity", {"pool_id": P_DG, "amounts": [str(E24), "500000"], "min_shares": "1"}, NEAR // 100)
    s.one("alice", "remove_liquidity", {"pool_id": P_DG, "shares": str(E24), "min_amounts": ["0"] * 2})


@scenario
def chains(s):
    """several actions succeed or fail together"""
    a = [act(P_AB, "ta", "tb", unit("ta")), act(P_BC, "tb", "tc"), act(P_CW, "tc", "wnear"), act(P_WA, "wnear", "ta")]
    s.call("alice", "execute_actions", {"actions": a})
    s.call("alice", "swap", {"actions": a})
    s.call("alice", "execute_actions", {"actions": a + [act(P_WA, "wnear", "ta", None, 10**40)]})
    s.call("alice", "execute_actions", {"actions": [act(P_AB, "ta", "tb")]})
    s.call("alice", "execute_actions", {"actions": [act(P_AB, "ta", "tb", 5), actout(P_AB, "ta", "tb", 5)]})
    s.call("alice", "execute_actions", {"actions": [act(P_AB, "ta", "tb", 10**18), act(P_ST, "s6", "s18", 10**6), act(P_RT, "st", "li", E24)]})
    s.call("alice", "execute_actions", {"actions": [act(P_AB, "ta", "tb", 10**18), act(P_AB, "tb", "ta"), act(P_AB, "ta", "tb")]})
    s.call("alice", "swap", {"actions": [actout(P_AB, "ta", "tb", 10**18)]})
    s.view("predict_swap_actions", {"token_deposit": {"ta": str(unit("ta"))}, "actions": a})
    s.view("predict_swap_actions", {"token_deposit": {"ta": str(unit("ta"))}, "actions": [act(P_AB, "ta", "tb", unit("ta") + 1)]})
    s.view("predict_swap_actions", {"token_deposit": {"ta": str(unit("ta"))}, "actions": [actout(P_BC, "tb", "tc", E24 // 9), actout(P_AB, "ta", "tb")]})
    # one pool twice, each step from what the one before left
    for acts in ([actout(P_AB, "ta", "tb", E18 // 7), actout(P_AB, "tb", "ta")], [actout(P_AB, "ta", "tb", E18), actout(P_AB, "ta", "tb", E18)],
                 [actout(P_BC, "tb", "tc", E24 // 9), actout(P_AB, "ta", "tb"), actout(P_AB, "tb", "ta"), actout(P_BC, "tc", "tb")],
                 [act(P_AB, "ta", "tb", E18), act(P_AB, "tb", "ta"), act(P_AB, "ta", "tb", 5)], [act(P_ST, "s6", "s18", 10**7), act(P_ST, "s18", "s6"), act(P_ST, "s6", "s8")],
                 [act(P_AB, "ta", "tb", E18), actout(P_AB, "tb", "ta", 5), actout(P_AB, "ta", "tb")]):
        dep = {"token_deposit": {t: str(10**30) for t in ("ta", "tb", "tc", "s6", "s18")}, "actions": acts}
        s.view("predict_swap_actions", dep)
        s.view("batch_predict_swap_actions", {"batch_token_deposit": [dep["token_deposit"]] * 2, "batch_actions": [acts, acts[:2]]})
        s.call("bob", "swap_by_output" if "amount_out" in acts[0] else "swap", {"actions": acts}, 1)
        s.call("bob", "execute_actions", {"actions": acts}, 1)
    # virtual account
    use = {"ta": str(2 * unit("ta"))}
    s.call("alice", "execute_actions_in_va", {"use_tokens": use, "actions": a})
    s.call("alice", "execute_actions_in_va", {"use_tokens": use, "actions": [act(P_AB, "ta", "tb", 3 * unit("ta"))]})
    s.call("alice", "execute_actions_in_va", {"use_tokens": {"ta": str(10**40)}, "actions": a})
    s.call("alice", "execute_actions_in_va", {"use_tokens": {"tb": "5"}, "actions": a})
    s.call("alice", "execute_actions_in_va", {"use_tokens": {"ta": str(unit("ta")), "s6": "77"}, "actions": a})
    s.call("alice", "execute_actions_in_va", {"use_tokens": use, "actions": [actout(P_BC, "tb", "tc", E24 // 9), actout(P_AB, "ta", "tb")]})
    s.call("alice", "execute_actions_in_va", {"use_tokens": {"ta": "5"}, "actions": [actout(P_BC, "tb", "tc", E24 // 9), actout(P_AB, "ta", "tb")]})
    s.call("dave", "execute_actions_in_va", {"use_tokens": use, "actions": a})
    s.call("carol", "execute_actions_in_va", {"use_tokens": use, "actions": a[:2]})
    s.call("alice", "execute_actions_in_va", {"use_tokens": {}, "actions": a})
    s.call("alice", "execute_actions_in_va", {"use_tokens": {"ta": "0"}, "actions": a})


@scenario
def tokens_allowed(s):
    """a token that is neither registered nor whitelisted is not traded"""
    s.one("owner", "remove_whitelisted_tokens", {"tokens": ["tc", "s18"]})
    swap(s, "carol", [act(P_BC, "tb", "tc", unit("tb"))])
    s.call("carol", "execute_actions_in_va", {"use_tokens": {"tb": "500"}, "actions": [act(P_BC, "tb", "tc", 500)]})
    swap(s, "carol", [act(P_BC, "tb", "tc", unit("tb"))], d=1)
    s.one("carol", "register_tokens", {"token_ids": ["s18", "s6"]})
    s.deposit("carol", "s18", 500)
    s.deposit("carol", "odd", 500)
    s.one("owner", "extend_auto_whitelisted_postfix", {"postfixes": ["dd", "zz"]})
    s.deposit("carol", "odd", 500)
    s.one("owner", "remove_auto_whitelisted_postfix", {"postfixes": ["dd"]})
    s.deposit("carol", "odd", 500)
    s.deposit("bob", "odd", 500)
    s.one("bob", "register_tokens", {"token_ids": ["odd"]})
    s.deposit("bob", "odd", 500)
    s.one("bob", "unregister_tokens", {"token_ids": ["odd"]})
    s.ok("bob", "withdraw", {"token_id": "odd", "amount": "500", "unregister": True})
    s.deposit("bob", "odd", 500)


@scenario
def referral(s):
    """a referral that is registered with the pool takes its part of the admin fee"""
    swap(s, "alice", [act(P_AB, "ta", "tb", unit("ta"))], referral_id="ref1")
    s.one("owner", "insert_referral", {"referral_id": "ref1", "fee_bps": 2500})
    s.one("owner", "insert_referral", {"referral_id": "ref1", "fee_bps": 2500})
    s.one("owner", "insert_referral", {"referral_id": "ref2", "fee_bps": 10000})
    swap(s, "alice", [act(P_AB, "ta", "tb", unit("ta"))], referral_id="ref1")
    for p in (P_AB, P_ST, P_RT, P_BC):
        s.run("ref1", "mft_register", {"token_id": ":%d" % p, "account_id": "ref1"}, NEAR // 10)
    a = [act(P_AB, "ta", "tb", 100 * unit("ta")), act(P_BC, "tb", "tc")]
    swap(s, "alice", a, referral_id="ref1")
    s.call("alice", "execute_actions", {"actions": [act(P_ST, "s6", "s18", 10**8), act(P_RT, "st", "li", 10 * E24)], "referral_id": "ref1"})
    s.call("alice", "execute_actions_in_va", {"use_tokens": {"s6": "100000000"}, "actions": [act(P_ST, "s6", "s18", 10**8)], "referral_id": "ref1"})
    s.call("alice", "swap_by_output", {"actions": [actout(P_AB, "ta", "tb", 9 * unit("tb"))], "referral_id": "ref1"})
    s.deposit("dave", "ta", 50 * unit("ta"), {"actions": [act(P_AB, "ta", "tb")], "referral_id": "ref1"})
    s.deposit("alice", "ta", 50 * unit("ta"), {"hot_zap_actions": [act(P_AB, "ta", "tb", 25 * unit("ta"))], "referral_id": "ref1",
              "add_liquidity_infos": [{"pool_id": P_AB, "amounts": [str(20 * unit("ta"))] * 2, "min_amounts": ["1", "1"]}]})
    s.one("owner", "update_referral", {"referral_id": "ref1", "fee_bps": 9999})
    s.one("owner", "update_referral", {"referral_id": "ref2", "fee_bps": 1})
    swap(s, "alice", a, referral_id="ref1")
    swap(s, "alice", a, referral_id="ref2")
    s.one("owner", "modify_admin_fee", {"admin_fee_bps": 8000})
    s.one("owner", "modify_admin_fee", {"admin_fee_bps": 8001})
    swap(s, "alice", a, referral_id="ref1")
    swap(s, "alice", [act(P_ST, "s6", "s18", 10**8)], referral_id="ref1")
    s.one("owner", "modify_admin_fee", {"admin_fee_bps": 0})
    swap(s, "alice", a + [act(P_ST, "s6", "s18", 10**8)], referral_id="ref1")
    s.one("owner", "remove_referral", {"referral_id": "ref1"})
    s.one("owner", "modify_admin_fee", {"admin_fee_bps": 2000})
    swap(s, "alice", a, referral_id="ref1")
    s.one("owner", "remove_exchange_fee_liquidity", {"pool_id": P_AB, "shares": "1000", "min_amounts": ["0", "0"]})
    s.one("owner", "remove_exchange_fee_liquidity", {"pool_id": P_AB, "shares": str(10**40), "min_amounts": ["0", "0"]})
    s.one("guard", "remove_exchange_fee_liquidity", {"pool_id": P_ST, "shares": "100000", "min_amounts": ["0", "0", "0"]})
    s.one("guard", "remove_exchange_fee_liquidity", {"pool_id": P_BC, "shares": str(10**10), "min_amounts": [str(10**30), "0"]})
    s.ok("owner", "withdraw_owner_token", {"token_id": "ta", "amount": "1"})
    s.ok("guard", "withdraw_owner_token", {"token_id": "tb", "amount": str(10**40)})
    s.ok("alice", "withdraw_owner_token", {"token_id": "tb", "amount": "1"})


@scenario
def simple_liquidity(s):
    for am, mins in (([1, 1], None), ([5, 10], None), ([10**18, 10**18], [1, 1]), ([10**18, 5 * 10**18], [10**18, 0]), ([3 * 10**18, 10**18], [0, 2 * 10**18]),
                     ([0, 5], None), ([10**18 + 7, 2 * 10**18 + 11], None), ([10**18], None), ([10**18, 10**18], [1]), ([10**40, 10**40], None)):
        a = {"pool_id": P_AB, "amounts": [str(x) for x in am]}
        s.view("predict_add_simple_liquidity", a)
        if mins is not None:
            a["min_amounts"] = [str(x) for x in mins]
        s.run("alice", "add_liquidity", a, NEAR // 100)
    s.run("alice", "add_liquidity", {"pool_id": P_AB, "amounts": ["1000", "1000"]}, 0)
    s.run("alice", "add_liquidity", {"pool_id": 99, "amounts": ["1000", "1000"]}, NEAR // 100)
    s.run("alice", "add_liquidity", {"pool_id": P_ST, "amounts": ["1000", "1000", "1000"]}, NEAR // 100)
    s.run("carol", "add_liquidity", {"pool_id": P_AB, "amounts": [str(10**19), str(3 * 10**19)]}, 1)
    s.run("carol", "add_liquidity", {"pool_id": P_AB, "amounts": [str(10**19), str(3 * 10**19)]}, NEAR // 100)
    s.run("dave", "add_liquidity", {"pool_id": P_AB, "amounts": [str(10**19), str(3 * 10**19)]}, NEAR // 100)
    for sh, mins in ((0, [0, 0]), (1, [0, 0]), (10**20 + 1, [0, 0]), (10**21, [10**18, 0]), (10**21, [0, 10**19]), (10**21, [0]), (10**30, [0, 0])):
        s.view("predict_remove_liquidity", {"pool_id": P_AB, "shares": str(sh)})
        s.one("alice", "remove_liquidity", {"pool_id": P_AB, "shares": str(sh), "min_amounts": [str(x) for x in mins]})
    s.one("dave", "remove_liquidity", {"pool_id": P_AB, "shares": "1", "min_amounts": ["0", "0"]})
    s.call("alice", "remove_liquidity", {"pool_id": P_AB, "shares": "1", "min_amounts": ["0", "0"]})
    s.call("alice", "remove_liquidity", {"pool_id": P_AB, "shares": "1", "min_amounts": ["0", "0"]}, 2)
    # a pool of its own: empty, filled, emptied, filled again
    s.run("bob", "add_simple_pool", {"tokens": ["ta", "d18"], "fee": 30}, NEAR // 10)
    k = len(POOLS)
    swap(s, "bob", [act(k, "ta", "d18", 5)])
    s.one("bob", "remove_liquidity", {"pool_id": k, "shares": "1", "min_amounts": ["0", "0"]})
    s.run("bob", "add_liquidity", {"pool_id": k, "amounts": ["3", "7"]}, NEAR // 100)
    s.run("alice", "add_liquidity", {"pool_id": k, "amounts": ["3", "7"]}, NEAR // 100)
    s.run("alice", "add_liquidity", {"pool_id": k, "amounts": ["30000", "70000"]}, NEAR // 100)
    s.one("alice", "remove_liquidity", {"pool_id": k, "shares": "333333333333333333333333", "min_amounts": ["0", "0"]})
    swap(s, "bob", [act(k, "ta", "d18", 20000)])
    swap(s, "bob", [act(k, "d18", "ta", 20000)])
    s.one("bob", "remove_liquidity", {"pool_id": k, "shares": str(10**24), "min_amounts": ["0", "0"]})
    s.view("get_pool_total_shares", {"pool_id": k})
    s.view("mft_total_supply", {"token_id": ":%d" % k})
    s.run("carol", "add_liquidity", {"pool_id": k, "amounts": ["3000", "7000"]}, NEAR // 100)


@scenario
def curve_liquidity(s):
    for p, am in ((P_ST, [10**8, 10**20, 10**10]), (P_ST, [10**8, 0, 0]), (P_ST, [0, 0, 0]), (P_ST, [1, 0, 0]), (P_ST, [0, 10**17, 3]), (P_ST, [10**8, 10**8]),
                  (P_FI, [10**6 - 1, 0]), (P_FI, [10**24 + 999999, 10**18]), (P_RT, [E24, 0, 5 * E24]), (P_RT, [0, 3, 0]), (P_DG, [E24, 0]), (P_DG, [0, 10**7])):
        a = {"pool_id": p, "amounts": [str(x) for x in am]}
        s.view("predict_add_stable_liquidity", a)
        s.run("bob", "add_stable_liquidity", {**a, "min_shares": "0"}, NEAR // 100)
    s.run("bob", "add_stable_liquidity", {"pool_id": P_ST, "amounts": [str(10**8), "0", "0"], "min_shares": str(10**30)}, NEAR // 100)
    s.run("bob", "add_stable_liquidity", {"pool_id": P_AB, "amounts": ["5", "5"], "min_shares": "0"}, NEAR // 100)
    s.run("bob", "add_stable_liquidity", {"pool_id": P_ST, "amounts": [str(10**8), "0", "0"], "min_shares": "0"}, 0)
    s.run("carol", "add_stable_liquidity", {"pool_id": P_ST, "amounts": [str(10**8), "0", "0"], "min_shares": "0"}, NEAR // 100)
    s.run("bob", "add_stable_liquidity", {"pool_id": P_RT, "amounts": [str(10**60), "0", "0"], "min_shares": "0"}, NEAR // 100)
    for p, am, mx in ((P_ST, [10**7, 0, 0], 10**30), (P_ST, [10**7, 10**19, 10**9], 10**30), (P_ST, [10**7, 0, 0], 10**18), (P_ST, [0, 0, 0], 10**30), (P_FI, [1, 0], 10**30),
                      (P_FI, [10**6 + 1, 10**18], 10**30), (P_RT, [E24, 0, 1], 10**30), (P_DG, [E24 // 2, 10**6], 10**38), (P_ST, [10**9, 0, 0], 10**30), (P_ST, [10**7, 0], 10**30)):
        a = {"pool_id": p, "amounts": [str(x) for x in am]}
        s.view("predict_remove_liquidity_by_tokens", a)
        s.one("bob", "remove_liquidity_by_tokens", {**a, "max_burn_shares": str(mx)})
    s.one("carol", "remove_liquidity_by_tokens", {"pool_id": P_ST, "amounts": ["1", "0", "0"], "max_burn_shares": str(10**30)})
    s.one("bob", "remove_liquidity_by_tokens", {"pool_id": P_AB, "amounts": ["1", "0"], "max_burn_shares": str(10**30)})
    s.call("bob", "remove_liquidity_by_tokens", {"pool_id": P_ST, "amounts": ["1", "0", "0"], "max_burn_shares": str(10**30)})
    for p, sh in ((P_ST, 10**18), (P_ST, 12345678901), (P_RT, E24 + 1), (P_FI, 10**18 + 7), (P_DG, E24 - 1), (P_ST, 10**30), (P_ST, 0)):
        s.view("predict_remove_liquidity", {"pool_id": p, "shares": str(sh)})
        s.one("bob", "remove_liquidity", {"pool_id": p, "shares": str(sh), "min_amounts": ["0"] * len(POOLS[p])})
    s.one("bob", "remove_liquidity", {"pool_id": P_ST, "shares": str(10**18), "min_amounts": ["0", str(10**19), "0"]})
    s.one("bob", "remove_liquidity", {"pool_id": P_ST, "shares": str(10**18), "min_amounts": ["0", "0"]})
    # the last LP cannot take the reserve below the minimum
    s.view("predict_remove_liquidity", {"pool_id": P_ST, "shares": str(3110 * 10**18)})
    s.one("alice", "remove_liquidity_by_tokens", {"pool_id": P_ST, "amounts": [str(1110 * 10**6), "0", "0"], "max_burn_shares": str(10**30)})


@scenario
def withdrawals(s):
    w = lambda **k: s.one("alice", "withdraw", k)
    w(token_id="ta", amount="1000")
    s.drain()
    w(token_id="ta", amount="1000")
    s.exec(out="fail")
    s.drain()
    w(token_id="ta", amount="0")
    s.exec(out="fail")
    s.drain()
    w(token_id="ta", amount=str(10**40))
    w(token_id="zz", amount="5")
    w(token_id="ta", amount="1000", unregister=True)
    w(token_id="ta", amount="0", unregister=True)
    s.exec(out="fail")
    s.drain()
    w(token_id="ta", amount="0", unregister=True)
    s.drain()
    w(token_id="ta", amount="5")
    w(token_id="wnear", amount=str(3 * NEAR), skip_unwrap_near=False)
    s.drain()
    w(token_id="wnear", amount=str(2 * NEAR))
    s.drain()
    w(token_id="wnear", amount=str(NEAR), skip_unwrap_near=False)
    s.exec(out="fail")
    s.drain()
    s.call("alice", "withdraw", {"token_id": "tb", "amount": "5"})
    s.call("alice", "withdraw", {"token_id": "tb", "amount": "5"}, 2)
    s.one("dave", "withdraw", {"token_id": "tb", "amount": "5"})
    s.block("tb", "alice")
    w(token_id="tb", amount="500")
    s.drain()
    s.unblock("tb", "alice")
    # two withdrawals of the same token in flight, settled out of order
    w(token_id="tb", amount="700")
    w(token_id="tb", amount="900")
    s.exec("last", out="fail")
    s.exec(0)
    s.exec("last")
    s.exec("last")
    s.drain()
    # the callbacks belong to the contract
    s.call("alice", "exchange_callback_post_withdraw", {"token_id": "tb", "sender_id": "alice", "amount": "1000000"})
    s.call("alice", "exchange_callback_post_withdraw_near", {"sender_id": "alice", "amount": "1000000"})


@scenario
def lost_and_found(s):
    """the sender left, or has no room, while the transfer was on its way"""
    s.deposit("carol", "tb", 500)
    for t in ("ta", "tb", "wnear"):
        s.one("carol", "withdraw", {"token_id": t, "amount": "0", "unregister": True})
    s.exec({"to": "ta"}, out="fail")
    s.one("carol", "storage_unregister", {})
    s.exec({"to": "tb"}, out="fail")
    s.exec({"to": "ex"})
    s.one("carol", "storage_unregister", {})
    s.drain()
    s.view("storage_balance_of", {"account_id": "carol"})
    # registered with nothing to spare: the token would not fit
    s.run("dave", "storage_deposit", {}, 2500 * 10**18)
    s.run("dave", "storage_deposit", {"registration_only": True}, NEAR)
    s.deposit("dave", "ta", 5000)
    s.one("dave", "withdraw", {"token_id": "ta", "amount": "0", "unregister": True})
    s.one("dave", "storage_withdraw", {})
    s.exec({"to": "ta"}, out="fail")
    s.drain()
    s.one("dave", "claim_lostfound", {"token_id": "ta"})
    s.exec({"to": "ta"}, out="fail")
    s.drain()
    s.one("dave", "claim_lostfound", {"token_id": "ta"})
    s.one("dave", "claim_lostfound", {"token_id": "ta"})
    s.drain()
    s.one("dave", "claim_lostfound", {"token_id": "ta"})
    s.one("carol", "claim_lostfound", {"token_id": "ta"})
    s.one("carol", "claim_lostfound", {"token_id": "wnear"})
    s.call("carol", "claim_lostfound", {"token_id": "tb"})
    s.one("alice", "claim_lostfound", {"token_id": "tb"})
    s.drain()
    s.one("owner", "extend_frozenlist_tokens", {"tokens": ["tb"]})
    s.one("carol", "claim_lostfound", {"token_id": "tb"})
    s.one("owner", "remove_frozenlist_tokens", {"tokens": ["tb"]})
    s.ok("carol", "claim_lostfound", {"token_id": "tb"})


@scenario
def lost_near(s):
    """unwrapping fails after the account left"""
    s.one("carol", "withdraw", {"token_id": "wnear", "amount": "0", "unregister": True, "skip_unwrap_near": False})
    for t in ("ta", "tb"):
        s.ok("carol", "withdraw", {"token_id": t, "amount": "0", "unregister": True})
    s.one("carol", "storage_unregister", {})
    s.exec({"to": "wnear"}, out="fail")
    s.drain()
    s.ok("carol", "claim_lostfound", {"token_id": "wnear"})


@scenario
def lost_poor(s):
    """a contract short of NEAR keeps nothing for anybody: the owner gets it"""
    s.run("dave", "storage_deposit", {}, NEAR)
    s.run("owner", "storage_deposit", {}, NEAR)
    for t in ("ta", "tb"):
        s.deposit("dave", t, 10**6)
    for k in range(8):
        s.one("dave", "withdraw", {"token_id": "tb" if k in (3, 5, 6) else "ta", "amount": str(500 + k)})
    for t in ("ta", "tb"):
        s.one("dave", "withdraw", {"token_id": t, "amount": "0", "unregister": True})
        s.exec("last")
        s.exec("last")
    s.one("dave", "storage_unregister", {})
    look = lambda: s.view("list_lostfound_tokens", {"account_id": "dave"})

    def fails(t):
        s.exec({"to": t}, out="fail")
        s.exec({"to": "ex"})
        look()

    rich = lambda: s.call("owner", "storage_deposit", {}, 200 * NEAR)
    poor = lambda: s.one("owner", "storage_withdraw", {"amount": str(200 * NEAR)})
    fails("ta")
    rich()
    fails("ta")
    poor()
    fails("ta")
    fails("tb")
    rich()
    fails("ta")
    fails("tb")
    poor()
    fails("ta")
    s.one("dave", "claim_lostfound", {"token_id": "ta"})
    look()
    fails("ta")
    fails("tb")
    rich()
    for k in range(2):
        for t in ("tb", "ta"):
            s.ok("dave", "claim_lostfound", {"token_id": t})
            look()


@scenario
def lost_rich(s):
    """the same with a contract that can keep it for them"""
    s.call("owner", "storage_deposit", {}, 200 * NEAR)
    lost_and_found(s)


@scenario
def lost_near_rich(s):
    s.call("owner", "storage_deposit", {}, 200 * NEAR)
    lost_near(s)


@scenario
def lost_many(s):
    """several lost tokens of one user, taken in any order, coming back again"""
    toks = ("ta", "tb", "tc", "wnear", "s6")
    s.call("owner", "storage_deposit", {}, 200 * NEAR)
    s.run("dave", "storage_deposit", {}, NEAR)
    for t in toks:
        s.deposit("dave", t, 10**6)
    for t in toks:
        s.one("dave", "withdraw", {"token_id": t, "amount": "0", "unregister": True, "skip_unwrap_near": True})
    s.one("dave", "storage_unregister", {})
    look = lambda: s.view("list_lostfound_tokens", {"account_id": "dave"})
    for t in toks:
        s.exec({"to": t}, out="fail")
        s.exec({"to": "ex"})
    s.drain()
    look()
    for t in ("tb", "s6", "ta"):
        s.one("dave", "claim_lostfound", {"token_id": t})
        look()
    s.exec({"to": "s6"}, out="fail")
    s.exec({"to": "ex"})
    s.exec({"to": "tb"}, out="fail")
    s.drain()
    look()
    for t in toks:
        s.ok("dave", "claim_lostfound", {"token_id": t})
        s.ok("dave", "claim_lostfound", {"token_id": t})
        look()


@scenario
def storage(s):
    sd = lambda who, a, d: s.run(who, "storage_deposit", a, d)
    sd("dave", {}, 0)
    sd("dave", {}, 1019999999999999999999)
    sd("dave", {}, 1020000000000000000000)
    s.deposit("dave", "ta", 5)
    sd("dave", {"registration_only": True}, 5)
    sd("dave", {}, 1480000000000000000000)
    s.deposit("dave", "ta", 5)
    s.deposit("dave", "tb", 5)
    s.one("dave", "register_tokens", {"token_ids": ["tb", "tc"]})
    sd("dave", {}, 1480000000000000000000)
    s.one("dave", "register_tokens", {"token_ids": ["tb", "tc"]})
    s.one("dave", "register_tokens", {"token_ids": ["tb"]})
    s.one("dave", "storage_withdraw", {})
    s.one("dave", "storage_withdraw", {"amount": "1"})
    s.one("dave", "unregister_tokens", {"token_ids": ["tb", "ta"]})
    s.one("dave", "unregister_tokens", {"token_ids": ["tb"]})
    s.one("dave", "unregister_tokens", {"token_ids": ["zz"]})
    s.one("dave", "storage_withdraw", {"amount": "1480000000000000000001"})
    s.ok("dave", "storage_withdraw", {"amount": "480000000000000000000"})
    s.ok("dave", "storage_withdraw", {"amount": "0"})
    s.one("dave", "storage_unregister", {})
    s.one("dave", "storage_unregister", {"force": True})
    s.ok("dave", "withdraw", {"token_id": "ta", "amount": "0", "unregister": True})
    s.call("dave", "storage_unregister", {})
    s.ok("dave", "storage_unregister", {})
    s.ok("dave", "storage_unregister", {})
    sd("dave", {"registration_only": True}, NEAR)
    sd("alice", {"account_id": "dave"}, NEAR // 10)
    sd("alice", {"account_id": "dave", "registration_only": True}, NEAR // 10)
    sd("alice", {"account_id": "dave", "registration_only": True}, 0)
    s.view("storage_balance_of", {"account_id": "dave"})
    s.view("storage_balance_of", {"account_id": "nobody"})
    sd("alice", {"account_id": "guard"}, NEAR // 10)
    s.one("dave", "storage_withdraw", {"amount": str(NEAR)})
    s.call("dave", "storage_withdraw", {"amount": "5"})
    s.ok("dave", "storage_withdraw", {})
    s.ok("farmer", "storage_withdraw", {})
    s.ok("farmer", "storage_unregister", {})
    s.one("farmer", "register_tokens", {"token_ids": ["ta"]})
    s.one("farmer", "unregister_tokens", {"token_ids": ["ta"]})
    # an account with locked shares stays
    s.ok("guard", "storage_unregister", {})


@scenario
def donations(s):
    d = lambda who, m, **k: s.ok(who, m, k)
    d("alice", "donation_share", pool_id=P_AB, amount="1000")
    d("alice", "donation_share", pool_id=P_AB, amount=str(10**40))
    d("alice", "donation_share", pool_id=P_AB, amount="0")
    d("alice", "donation_share", pool_id=P_AB, amount="5", unregister=True)
    d("bob", "donation_share", pool_id=P_AB, unregister=True)
    d("bob", "donation_share", pool_id=P_ST)
    d("bob", "donation_share", pool_id=P_ST)
    d("dave", "donation_share", pool_id=P_ST)
    d("dave", "donation_share", pool_id=99)
    s.call("alice", "donation_share", {"pool_id": P_AB, "amount": "5"})
    d("alice", "donation_token", token_id="ta", amount="1000")
    d("alice", "donation_token", token_id="ta", amount="1000", unregister=True)
    d("alice", "donation_token", token_id="ta", unregister=True)
    d("alice", "donation_token", token_id="ta")
    d("alice", "donation_token", token_id="tb", amount="0")
    d("alice", "donation_token", token_id="tb", amount=str(10**40))
    d("alice", "donation_token", token_id="tb")
    d("dave", "donation_token", token_id="tb")
    d("owner", "donation_token", token_id="ta", amount="5")
    s.call("alice", "donation_token", {"token_id": "tc", "amount": "5"})


@scenario
def donations_locked(s):
    """shares counted elsewhere cannot be given away"""
    s.run("alice", "shadow_action", {"action": "ToFarming", "pool_id": P_AB, "amount": str(9 * 10**23), "msg": ""}, NEAR // 10)
    s.ok("alice", "donation_share", {"pool_id": P_AB, "amount": str(2 * 10**23)})
    s.ok("alice", "donation_share", {"pool_id": P_AB, "amount": str(10**23)})
    s.ok("alice", "donation_share", {"pool_id": P_AB})
    s.ok("alice", "donation_share", {"pool_id": P_AB, "unregister": True})
