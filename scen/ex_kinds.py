"""Directed scenarios of the exchange: the borders and refusals of every operation, in every kind of pool alike (their code is written out three times)."""
from lib import *
from ex_tok import ex_msg, zap, add

ALL = []
DAY = 86400 * 10**9
CURVED = {P_ST: 200, P_RT: 240, P_DG: 100, P_FI: 10}
BIG = str(10**38)
SK = {"skip_degen_price_sync": True}


def scenario(f):
    ALL.append(f)
    return f


def fresh_prices(s, now):
    t = now // 10**9
    degen_price(s, "d24", 51234, 28, now)
    s.call("bob", "update_degen_token_price", {"token_id": "d6"})
    s.exec({"to": PYTH}, out={"ok": {"price": "99990000", "conf": "1", "expo": -8, "publish_time": t}})
    s.drain()
    rate(s, "st", 1_150_000_000_000_000_000_000_000)
    rate(s, "li", 1_023_456_789_012_345_678_901_234)


def amounts(p, k, only=None):
    return [str(unit(t) * k) if only is None or i in only else "0" for i, t in enumerate(POOLS[p])]


@scenario
def ramp_borders(s):
    ramp = lambda p, to, at, who="owner": s.one(who, "stable_swap_ramp_amp", {"pool_id": p, "future_amp_factor": to, "future_amp_time": str(at)})
    for p, a in CURVED.items():
        s.restore("base", "ramp_borders_%d" % p)
        for at in (NOW0 - 1, NOW0, NOW0 + DAY - 10**9, NOW0 + DAY - 1):
            ramp(p, a + 1, at)
        for to in (0, 1, a // 10 - 1, a * 10 + 1, 1000000):
            ramp(p, to, NOW0 + DAY)
        ramp(p, a + 1, NOW0 + DAY, "guard")
        ramp(p, a * 10, NOW0 + DAY)
        s.time(DAY - 1)
        ramp(p, a, NOW0 + 5 * DAY)
        s.time(1)
        ramp(p, a - 1, NOW0 + 2 * DAY)
        ramp(p, a, NOW0 + 2 * DAY - 1)
        ramp(p, a, NOW0 + 2 * DAY)
        ramp(p, a, NOW0 + 4 * DAY)
        s.days(2)
        ramp(p, max(a // 10, 1), NOW0 + 4 * DAY)
        s.one("guard", "stable_swap_stop_ramp_amp", {"pool_id": p})
        s.one("alice", "stable_swap_stop_ramp_amp", {"pool_id": p})
        s.days(1)
        fresh_prices(s, NOW0 + 4 * DAY)
        t = POOLS[p]
        s.call("alice", "swap", {"actions": [act(p, t[0], t[1], unit(t[0]))], **SK})
        s.one("owner", "stable_swap_stop_ramp_amp", {"pool_id": p})
        ramp(p, a, NOW0 + 6 * DAY)
        s.time(1)
        ramp(p, max(a // 10, 1), NOW0 + 6 * DAY)
    # the highest amplification there is
    for m, ts in (("add_stable_swap_pool", ["s6", "s18"]), ("add_rated_swap_pool", ["st", "wnear"]), ("add_degen_swap_pool", ["d24", "d6"])):
        s.restore("base", "ramp_borders_" + m)
        for a in (0, 1, 999999, 1000000, 1000001):
            s.run("owner", m, {"tokens": ts, "decimals": [DEC[t] for t in ts], "fee": 5, "amp_factor": a}, NEAR // 10)
        for p in (8, 9, 10):
            for to in (1, 2, 10, 11, 99999, 100000, 999998, 999999, 1000000):
                ramp(p, to, NOW0 + DAY + p)
        s.days(2)
        for p in (8, 9, 10):
            for to in (0, 1000000, 999999):
                ramp(p, to, NOW0 + 4 * DAY)


@scenario
def liquidity_borders(s):
    """amounts of the wrong number, nothing at all, too much, and limits met and just missed"""
    for p in CURVED:
        s.restore("base", "liquidity_borders_%d" % p)
        n = len(POOLS[p])
        v, r = s.view, s.run
        for am in (amounts(p, 3)[:-1], amounts(p, 3) + ["0"], amounts(p, 3) + ["1"], [], ["0"] * n, amounts(p, 3, {0}), amounts(p, 3, {n - 1}), amounts(p, 3)):
            for who in ("bob", "carol"):
                a = {"pool_id": p, "amounts": am}
                v("predict_add_stable_liquidity", a)
                r(who, "add_stable_liquidity", {**a, "min_shares": "0"}, NEAR // 100)
            v("predict_remove_liquidity_by_tokens", a)
            for who in ("bob", "carol", "dave"):
                r(who, "remove_liquidity_by_tokens", {**a, "max_burn_shares": BIG}, 1)
            r("bob", "remove_liquidity_by_tokens", {**a, "max_burn_shares": "1"}, 1)
            r("bob", "remove_liquidity", {"pool_id": p, "shares": str(10**18), "min_amounts": ["0" for _ in am]}, 1)
        for sh in ("0", "1", "@{me/sh/bob}", "@{me/sh/bob+1}"):
            s.keep("me", "p/%d" % p)
            r("bob", "remove_liquidity", {"pool_id": p, "shares": sh, "min_amounts": ["0"] * n}, 1)
        r("bob", "add_stable_liquidity", {"pool_id": p, "amounts": amounts(p, 3), "min_shares": "0"}, NEAR // 100)
        # everybody leaves
        s.keep("me", "p/%d" % p)
        for i in range(n):
            r("alice", "remove_liquidity_by_tokens", {"pool_id": p, "amounts": ["@{me/amounts/%d}" % i if i == j else "0" for j in range(n)], "max_burn_shares": BIG}, 1)
        for u in ("bob", "alice", "ex", "owner"):
            r(u if u != "ex" else "owner", "remove_liquidity", {"pool_id": p, "shares": "@{me/sh/%s}" % u, "min_amounts": ["0"] * n}, 1) if u in ("bob", "alice") else None
            s.keep("me", "p/%d" % p)
        v("get_pool_share_price", {"pool_id": p})
        v("get_unit_share_token_amounts", {"pool_id": p})
        t = POOLS[p]
        s.call("alice", "swap", {"actions": [act(p, t[0], t[1], 1000)], **SK})
        for u in ("alice", "bob"):
            v("predict_add_stable_liquidity", {"pool_id": p, "amounts": amounts(p, 2)})
            r(u, "add_stable_liquidity", {"pool_id": p, "amounts": amounts(p, 2), "min_shares": "0"}, NEAR // 100)


@scenario
def first_liquidity(s):
    """an empty pool takes all of its tokens or nothing"""
    D = lambda ts: [DEC[t] for t in ts]
    for m, ts in (("add_stable_swap_pool", ["s6", "s18", "s8"]), ("add_rated_swap_pool", ["st", "li", "wnear"]), ("add_degen_swap_pool", ["d24", "d6"])):
        s.restore("base", "first_liquidity_" + m)
        s.run("owner", m, {"tokens": ts, "decimals": D(ts), "fee": 5, "amp_factor": 100}, NEAR // 10)
        n = len(ts)
        one = [str(unit(t)) for t in ts]
        for am in (["0"] * n, one[:-1] + ["0"], ["0"] + one[1:], one[:-1], one + ["1"], ["1"] * n, [x[:-3] or "1" for x in one]):
            a = {"pool_id": 8, "amounts": am}
            s.view("predict_add_stable_liquidity", a)
            s.run("bob", "add_stable_liquidity", {**a, "min_shares": str(10**40)}, NEAR // 100)
            if len(am) == n and "0" not in am[1:]:
                s.view("get_return", {"pool_id": 8, "token_in": ts[0], "amount_in": "1000", "token_out": ts[1]})
                s.call("bob", "swap", {"actions": [act(8, ts[0], ts[1], 1000)], **SK})
                s.call("bob", "swap_by_output", {"actions": [{"pool_id": 8, "token_in": ts[0], "token_out": ts[1], "amount_out": "1000", "max_amount_in": None}], **SK})
        s.run("bob", "remove_liquidity", {"pool_id": 8, "shares": "1", "min_amounts": ["0"] * n}, 1)
        s.run("bob", "remove_liquidity", {"pool_id": 8, "shares": "0", "min_amounts": ["0"] * n}, 1)
        s.run("bob", "remove_liquidity_by_tokens", {"pool_id": 8, "amounts": one, "max_burn_shares": BIG}, 1)
        s.run("bob", "add_stable_liquidity", {"pool_id": 8, "amounts": one, "min_shares": "1"}, NEAR // 100)
        s.run("alice", "add_stable_liquidity", {"pool_id": 8, "amounts": one, "min_shares": "1"}, NEAR // 100)


@scenario
def swap_borders(s):
    """equal tokens, strangers, nothing, and all there is"""
    for p in list(CURVED) + [P_AB]:
        s.restore("base", "swap_borders_%d" % p)
        t = POOLS[p]
        s.keep("me", "p/%d" % p)
        res = lambda i, x="": "@{me/amounts/%d%s}" % (i, x)
        other = "tc"
        for a, b, n in ((t[0], t[0], 1000), (t[0], other, 1000), (other, t[0], 1000), (t[0], t[1], 0), (t[1], t[0], 1), (t[0], t[-1], res(0)), (t[-1], t[0], unit(t[-1]))):
            q = {"pool_id": p, "token_in": a, "token_out": b}
            s.view("get_return", {**q, "amount_in": str(n)})
            s.call("alice", "swap", {"actions": [{**q, "amount_in": str(n), "min_amount_out": "0"}], **SK})
            s.deposit("bob", a, n if isinstance(n, int) else unit(a), ex_msg([{**q, "min_amount_out": "0"}], **SK))
        for a, b, n in ((t[0], t[0], 1000), (t[0], other, 1000), (other, t[0], 1000), (t[0], t[1], 0), (t[1], t[0], 1), (t[0], t[1], res(1)), (t[0], t[1], res(1, "-1")),
                        (t[0], t[1], res(1, "+1")), (t[1], t[0], res(0, "%50"))):
            q = {"pool_id": p, "token_in": a, "token_out": b, "amount_out": str(n)}
            s.view("get_return_by_output", {k: v for k, v in q.items()})
            s.call("alice", "swap_by_output", {"actions": [{**q, "max_amount_in": None}], **SK})
            s.call("alice", "swap_by_output", {"actions": [{**q, "max_amount_in": "1"}], **SK})


@scenario
def share_borders(s):
    """registering for shares, moving them, leaving the register"""
    for p in list(CURVED) + [P_AB]:
        s.restore("base", "share_borders_%d" % p)
        tid = ":%d" % p
        reg = lambda u, who=None: s.run(u, "mft_register", {"token_id": tid, "account_id": who or u}, NEAR // 50)
        mv = lambda u, v, n, d=1: s.run(u, "mft_transfer", {"token_id": tid, "receiver_id": v, "amount": str(n)}, d)
        un = lambda u: s.run(u, "mft_unregister", {"token_id": tid}, 1)
        for u, v, n in (("dave", "bob", 1), ("carol", "bob", 1), ("bob", "carol", 1), ("bob", "bob", 1), ("bob", "alice", 0), ("bob", "dave", 5)):
            mv(u, v, n)
        for u in ("carol", "carol", "bob", "dave"):
            reg(u)
        reg("alice", "dave")
        mv("bob", "carol", 7)
        mv("carol", "dave", 3)
        mv("carol", "alice", 5)
        un("carol")
        mv("carol", "alice", 4)
        un("carol")
        un("carol")
        mv("carol", "alice", 1)
        mv("bob", "carol", 1)
        s.keep("me", "p/%d" % p)
        mv("bob", "alice", "@{me/sh/bob+1}")
        mv("bob", "alice", "@{me/sh/bob}")
        un("bob")
        s.run("bob", "mft_transfer_all_call", {"token_id": tid, "receiver_id": "alice", "msg": ""}, 1)
        s.run("bob", "donation_share", {"pool_id": p, "amount": "1", "unregister": False}, 1)
        s.run("bob", "donation_share", {"pool_id": p, "unregister": True}, 1)
        reg("bob")
        mv("alice", "bob", 11)
        s.run("bob", "mft_transfer_all_call", {"token_id": tid, "receiver_id": "dave", "msg": ""}, 1)
        s.run("bob", "mft_transfer_call", {"token_id": tid, "receiver_id": "dave", "amount": "0", "msg": ""}, 1)
        s.run("bob", "donation_share", {"pool_id": p, "amount": "5", "unregister": True}, 1)
        s.run("bob", "donation_share", {"pool_id": p, "unregister": True}, 1)
        mv("alice", "bob", 1)


@scenario
def averages_all(s):
    """every way to change a recorded pool, of every kind, in time"""
    for p in list(CURVED) + [P_AB]:
        s.restore("base", "averages_all_%d" % p)
        t = POOLS[p]
        n = len(t)
        see = lambda: (s.view("get_unit_share_twap_token_amounts", {"pool_id": p}), s.view("get_unit_share_token_amounts", {"pool_id": p}),
                       s.view("get_pool_twap_info_view", {"pool_id": p}), s.view("get_unit_lpt_assets", {"pool_ids": [p]}))
        for gap in (0, 13, 50):
            s.one("owner", "modify_cumulative_info_record_interval_sec", {"record_interval_sec": gap})
            s.one("owner", "unregister_pool_twap_record", {"pool_id": p})
            s.one("owner", "register_pool_twap_record", {"pool_id": p})
            see()
            s.call("bob", "sync_pool_twap_record", {"pool_id": p})
            see()
            ref = {"referral_id": "ref1"}
            one = [str(unit(x)) for x in t]
            ops = [
                lambda: s.call("alice", "swap", {"actions": [act(p, t[0], t[1], unit(t[0]))], **SK, **ref}),
                lambda: s.call("alice", "swap_by_output", {"actions": [actout(p, t[1], t[0], unit(t[0]) // 3)], **SK}),
                lambda: s.call("alice", "execute_actions", {"actions": [act(p, t[0], t[-1], unit(t[0])), act(p, t[-1], t[0], unit(t[-1]) // 7)], **SK}),
                lambda: s.run("alice", "execute_actions_in_va", {"use_tokens": {t[0]: one[0]}, "actions": [act(p, t[0], t[1], unit(t[0]))], **SK}, 1),
                lambda: s.deposit("alice", t[0], unit(t[0]), ex_msg([act(p, t[0], t[1], unit(t[0]))], **SK)),
                lambda: s.deposit("alice", t[0], unit(t[0]), zap([act(p, t[0], t[1], unit(t[0]) // 2)], [add(p, [str(unit(t[0]) // 2)] + (["0"] if p != P_AB else [one[1]]) + ["0"] * (n - 2), **({"min_shares": 0} if p != P_AB else {"min_amounts": [0, 0]}))], **SK)),
                lambda: s.run("bob", "add_stable_liquidity" if p != P_AB else "add_liquidity", {"pool_id": p, "amounts": one, **({"min_shares": "0"} if p != P_AB else {})}, NEAR // 100),
                lambda: s.run("bob", "remove_liquidity", {"pool_id": p, "shares": str(10**18 + 1), "min_amounts": ["0"] * n}, 1),
                lambda: s.run("bob", "remove_liquidity_by_tokens", {"pool_id": p, "amounts": [str(unit(t[0]) // 9)] + ["0"] * (n - 1), "max_burn_shares": BIG}, 1),
                lambda: s.run("bob", "donation_share", {"pool_id": p, "amount": str(10**17)}, 1),
                lambda: s.call("bob", "sync_pool_twap_record", {"pool_id": p}),
                lambda: s.call("alice", "swap", {"actions": [act(p, t[0], t[0], 5)], **SK})]
            for i, f in enumerate(ops):
                s.secs((7, 0, 13, 12, 1, 50, 49, 3)[(i + gap) % 8])
                f()
                see()


@scenario
def averages_borders(s):
    """who may keep a history, of which pools, and how young or how small they may be"""
    see = lambda p: (s.view("get_unit_share_twap_token_amounts", {"pool_id": p}), s.view("get_unit_share_token_amounts", {"pool_id": p}), s.view("get_pool_twap_info_view", {"pool_id": p}),
                     s.view("get_unit_lpt_assets", {"pool_ids": [p]}))
    for m, ts in (("add_stable_swap_pool", ["s6", "s18"]), ("add_rated_swap_pool", ["st", "wnear"]), ("add_degen_swap_pool", ["d24", "d6"]), ("add_simple_pool", ["ta", "tc"])):
        s.restore("base", "averages_borders_" + m)
        who = "alice" if m == "add_simple_pool" else "owner"
        s.run(who, m, {"tokens": ts, **({"fee": 30} if who == "alice" else {"decimals": [DEC[t] for t in ts], "fee": 5, "amp_factor": 10})}, NEAR // 10)
        s.one("owner", "register_pool_twap_record", {"pool_id": 8})
        am = [str(unit(t)) for t in ts]
        s.run("alice", "add_liquidity" if who == "alice" else "add_stable_liquidity", {"pool_id": 8, "amounts": am, **({} if who == "alice" else {"min_shares": "0"})}, NEAR // 100)
        for u in ("alice", "guard", "owner"):
            s.one(u, "register_pool_twap_record", {"pool_id": 8})
        see(8)
        s.time(10**9 - 1)
        s.call("bob", "sync_pool_twap_record", {"pool_id": 8})
        see(8)
        s.time(1)
        s.call("bob", "sync_pool_twap_record", {"pool_id": 8})
        see(8)
        s.secs(30)
        s.keep("me", "p/8")
        for sh in ("@{me/sh/alice-1}", "1", "@{me/sh/alice%1}", "@{me/sh/alice%50}", "@{me/sh/alice}"):
            s.run("alice", "remove_liquidity", {"pool_id": 8, "shares": sh, "min_amounts": ["0", "0"]}, 1)
            see(8)
            s.secs(5)
            s.call("bob", "sync_pool_twap_record", {"pool_id": 8})
            see(8)
        s.call("bob", "swap", {"actions": [act(8, ts[0], ts[1], unit(ts[0]) // 100)], **SK})
        s.run("bob", "add_liquidity" if who == "alice" else "add_stable_liquidity", {"pool_id": 8, "amounts": am, **({} if who == "alice" else {"min_shares": "0"})}, NEAR // 100)
        see(8)
        for u in ("alice", "guard", "guard", "owner"):
            s.one(u, "unregister_pool_twap_record", {"pool_id": 8})
            see(8)
    for m, a in (("register_pool_twap_record", {"pool_id": 99}), ("unregister_pool_twap_record", {"pool_id": 99}), ("sync_pool_twap_record", {"pool_id": 99}), ("sync_pool_twap_record", {"pool_id": P_AB})):
        s.one("owner", m, a)
        s.call("owner", m, a)
    for u in ("alice", "guard", "owner"):
        s.one(u, "modify_cumulative_info_record_interval_sec", {"record_interval_sec": 4294967295})
    see(99)


LISTS = [("extend_client_echo_token_id_whitelist", "remove_client_echo_token_id_whitelist", "token_ids", "get_client_echo_token_id_whitelist", ["ta", "*.tok", "*", "*x", "*.", "x.*"]),
         ("extend_client_echo_sender_id_whitelist", "remove_client_echo_sender_id_whitelist", "sender_ids", "get_client_echo_sender_id_whitelist", ["bob", "*.snd", "*", "burrow"]),
         ("extend_secure_sender_whitelist", "remove_secure_sender_whitelist", "sender_ids", "get_secure_sender_whitelist", ["bob", "*.sec", "*", "*sec", "sec"]),
         ("extend_guardians", "remove_guardians", "guardians", "get_guardians", ["bob", "guard", "carol"]),
         ("extend_whitelisted_tokens", "remove_whitelisted_tokens", "tokens", "get_whitelisted_tokens", ["odd", "ta", "tb"]),
         ("extend_frozenlist_tokens", "remove_frozenlist_tokens", "tokens", "get_frozenlist_tokens", ["odd", "ta", "tb"]),
         ("extend_auto_whitelisted_postfix", "remove_auto_whitelisted_postfix", "postfixes", None, ["tok", "ta", ".x"])]


@scenario
def lists(s):
    """what a list takes twice, lacks, or refuses; one bad entry undoes the whole call"""
    for ext, rem, key, view, vs in LISTS:
        s.restore("base", "lists_" + ext)
        look = lambda: s.view(view, {}) if view else None
        a, b = vs[0], vs[1]
        for who in ("guard", "alice", "owner"):
            for m, l in ((ext, [a]), (ext, [a]), (rem, [a]), (rem, [a]), (ext, [a, a]), (ext, []), (ext, [a, b]), (ext, [vs[-1], a]), (rem, [a, "nobody"]), (rem, [a, a]), (rem, []), (rem, [b, a])):
                s.one(who, m, {key: l})
                look()
        for v in vs:
            s.one("owner", ext, {key: [v]})
            s.one("owner", ext, {key: [vs[-1], v]})
        look()
        s.one("owner", rem, {key: list(reversed(vs))})
        for v in vs:
            s.one("owner", rem, {key: [v]})
        look()


