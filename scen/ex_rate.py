"""Directed scenarios of the exchange: ramps, prices and their freshness, value limits, time-weighted averages."""
from lib import *
from ex_tok import ex_msg, zap, add

ALL = []
DAY = 86400 * 10**9
PID = "ab" * 32


def scenario(f):
    ALL.append(f)
    return f


def sw(s, p, a, b, n, who="alice", **k):
    s.view("get_return", {"pool_id": p, "token_in": a, "amount_in": str(n), "token_out": b})
    s.call(who, "swap", {"actions": [act(p, a, b, n)], **k})


@scenario
def ramping(s):
    ramp = lambda to, at, p=P_ST, who="owner": s.one(who, "stable_swap_ramp_amp", {"pool_id": p, "future_amp_factor": to, "future_amp_time": str(at)})
    stop = lambda p=P_ST, who="guard": s.one(who, "stable_swap_stop_ramp_amp", {"pool_id": p})
    now = NOW0
    probe = lambda: (sw(s, P_ST, "s6", "s8", 20 * unit("s6")), s.view("get_pool", {"pool_id": P_ST}))
    for p in (P_AB, P_RT, P_DG, P_FI, 99):
        ramp(120, now + 2 * DAY, p)
        stop(p)
    for to in (0, 19, 20, 2000, 2001, 1000000):
        ramp(to, now + 2 * DAY)
    for at in (now + DAY - 1, now + DAY, now - 1, 0):
        ramp(250, at)
    probe()
    s.restore("base", "ramping2")
    ramp(1000, now + 4 * DAY)
    for i in range(5):
        probe()
        ramp(500, now + i * DAY + 3 * DAY)                    # only a day after the last one
        s.days(1)
        if i == 1:
            break
    probe()
    s.restore("base", "ramping3")
    ramp(1000, now + 4 * DAY)
    for i in range(6):
        s.time(DAY - 10**9 * 7 * i)
        probe()
    s.days(1)
    ramp(100, now + 20 * DAY, who="guard")
    s.days(3)
    probe()
    s.run("alice", "add_stable_liquidity", {"pool_id": P_ST, "amounts": ["1000000", "0", "0"], "min_shares": "0"}, NEAR // 10)
    s.run("alice", "remove_liquidity_by_tokens", {"pool_id": P_ST, "amounts": ["1000000", "0", "0"], "max_burn_shares": str(10**30)}, 1)
    stop(who="alice")
    stop()
    probe()
    s.days(20)
    probe()
    for p in (P_RT,):
        s.one("owner", "stable_swap_ramp_amp", {"pool_id": p, "future_amp_factor": 40, "future_amp_time": str(now + 60 * DAY)})
        s.days(5)
        rate(s, "st", 115 * 10**22)
        rate(s, "li", 103 * 10**22)
        sw(s, p, "st", "wnear", unit("st"))
        s.run("bob", "remove_liquidity_by_tokens", {"pool_id": p, "amounts": [str(10**20), "0", str(10**23)], "max_burn_shares": str(10**30)}, 1)


@scenario
def ramping_chain(s):
    """ramps that start while another is under way, after a stop, at the very end of one, in every curved pool"""
    def probe(p, now):
        s.view({P_ST: "get_stable_pool", P_RT: "get_rated_pool", P_DG: "get_degen_pool"}[p], {"pool_id": p})
        if p == P_RT:
            rate(s, "st", 115 * 10**22)
            rate(s, "li", 103 * 10**22)
        if p == P_DG:
            degen_price(s, "d24", 4130, 3, now)
            degen_price(s, "d6", 10000, 6, now)
        ts = POOLS[p]
        k = {P_ST: 20, P_RT: 1, P_DG: 3}[p]
        sw(s, p, ts[0], ts[1], k * unit(ts[0]), "bob")
        s.run("bob", "add_stable_liquidity", {"pool_id": p, "amounts": [str(k * unit(ts[0]))] + ["0"] * (len(ts) - 1), "min_shares": "0"}, NEAR // 10)
        s.run("bob", "remove_liquidity_by_tokens", {"pool_id": p, "amounts": ["0", str(k * unit(ts[1]))] + ["0"] * (len(ts) - 2), "max_burn_shares": str(10**30)}, 1)
    for p, steps in ((P_ST, ((1500, 4, 2), (180, 3, 1), (150, 3, 2), (600, 1, 1), (600, 2, 3), (30, 10, 6), (900, 1, 1))),
                     (P_RT, ((1000, 4, 2), (700, 3, 1), (300, 2, 2), (100, 2, 2), (25, 5, 4), (240, 1, 2))),
                     (P_DG, ((400, 2, 1), (60, 3, 2), (500, 9, 4), (500, 1, 1), (70, 2, 5)))):
        s.restore("base", "ramping_chain")
        now = NOW0 + 2 * DAY
        s.time(2 * DAY)
        for n, (to, days, go_on) in enumerate(steps):
            s.one("owner", "stable_swap_ramp_amp", {"pool_id": p, "future_amp_factor": to, "future_amp_time": str(now + days * DAY)})
            if n == 2:
                s.time(3600 * 10**9)
                s.one("owner", "stable_swap_stop_ramp_amp", {"pool_id": p})
                now += 3600 * 10**9
            if n == 3:
                s.time(days * DAY - 1)
                probe(p, now + days * DAY - 1)
                s.time(1)
                now += days * DAY
                probe(p, now)
                continue
            if n > 3:
                s.time(DAY // 3 + 7)
                now += DAY // 3 + 7
                probe(p, now)
            s.time(go_on * DAY)
            now += go_on * DAY
            probe(p, now)


@scenario
def rates(s):
    step = lambda: (sw(s, P_RT, "st", "wnear", unit("st")), sw(s, P_RT, "wnear", "li", unit("li")),
                    s.run("bob", "add_stable_liquidity", {"pool_id": P_RT, "amounts": [str(10**24), "0", str(3 * 10**23)], "min_shares": "0"}, NEAR // 100),
                    s.run("bob", "remove_liquidity", {"pool_id": P_RT, "shares": str(10**20), "min_amounts": ["0", "0", "0"]}, 1),
                    s.run("bob", "remove_liquidity_by_tokens", {"pool_id": P_RT, "amounts": [str(10**20), "0", str(10**23)], "max_burn_shares": str(10**30)}, 1),
                    s.view("get_rated_return", {"pool_id": P_RT, "token_in": "st", "amount_in": str(unit("st")), "token_out": "wnear",
                                                "rates": {"st": str(12 * 10**23), "li": str(10**24)}}))
    step()
    rate(s, "st", 13 * 10**23)
    step()
    for p in (10**24, 10**23, 0, 2 * 10**24, 10**25):
        rate(s, "li", p)
        sw(s, P_RT, "li", "wnear", unit("li"))
    rate(s, "li", 10**24)
    # answers that are none
    s.call("bob", "update_token_rate", {"token_id": "st"}); s.exec({"to": "st"}, out="fail"); s.drain()
    s.call("bob", "update_token_rate", {"token_id": "st"}); s.exec({"to": "st"}, out={"ok": "abc"}); s.drain()
    s.call("bob", "update_token_rate", {"token_id": "st"}); s.exec({"to": "st"}, out={"ok": 5}); s.drain()
    s.call("bob", "update_token_rate", {"token_id": "st"}); s.exec({"to": "st"}, out={"ok": None}); s.drain()
    s.call("bob", "update_token_rate", {"token_id": "ta"}); s.drain()
    step()
    # a rate is good until the epoch is over
    s.time(3600 * 10**9)
    step()
    s.days(1)
    step()
    rate(s, "st", 13 * 10**23)
    step()
    rate(s, "li", 10**24)
    step()
    # requests cross: the last answer counts
    s.call("bob", "update_token_rate", {"token_id": "st"})
    s.call("carol", "update_token_rate", {"token_id": "st"})
    s.exec({"to": "st"}, out={"ok": "1400000000000000000000000"})
    s.exec({"to": "st"}, out={"ok": "1500000000000000000000000"})
    s.drain()
    step()
    s.one("owner", "unregister_rated_token", {"token_id": "li"})
    s.one("owner", "unregister_rated_token", {"token_id": "li"})
    step()
    s.one("guard", "register_rated_token", {"rate_type": "NEARX", "token_id": "li"})
    s.one("guard", "register_rated_token", {"rate_type": "NEARX", "token_id": "li"})
    s.one("guard", "register_rated_token", {"rate_type": "WHAT", "token_id": "ta"})
    step()
    rate(s, "li", 1200000000000000000000001)
    step()


def sfrax(s, kind, rec=60, stale=90, dur=30):
    if kind == "PriceOracle":
        return json.dumps({kind: {"oracle_id": ORACLE, "base_contract_id": "wnear", "maximum_recency_duration_sec": rec, "maximum_staleness_duration_sec": stale}})
    return json.dumps({kind: {"oracle_id": PYTH, "base_price_identifier": "01" * 32, "rate_price_identifier": "02" * 32, "pyth_price_valid_duration_sec": dur}})


def pyth(p, expo, t):
    return {"price": str(p), "conf": "1", "expo": expo, "publish_time": t}


@scenario
def rates_by_oracle(s):
    s.one("owner", "unregister_rated_token", {"token_id": "li"})
    for x in (None, "nope", sfrax(s, "PriceOracle", stale=9), sfrax(s, "PriceOracle", stale=301), sfrax(s, "PythOracle", dur=9), sfrax(s, "PriceOracle")):
        s.one("owner", "register_rated_token", {"rate_type": "SFRAX", "token_id": "li", "extra_info": x})
    one = lambda pd: (s.call("bob", "update_token_rate", {"token_id": "li"}), s.exec({"to": ORACLE}, out=pd if pd == "fail" else {"ok": pd}), s.drain(),
                      sw(s, P_RT, "li", "wnear", 10**22))
    one("fail")
    one(price_data([("wnear", 51234, 28), ("li", 61234, 28)], NOW0))
    one(price_data([("wnear", 7, 28), ("li", 9, 28)], NOW0 - 90 * 10**9))
    one(price_data([("wnear", 7, 28), ("li", 8, 28)], NOW0 - 90 * 10**9 - 1))
    one(price_data([("wnear", 7, 28), ("li", 8, 28)], NOW0 + 1))
    one(price_data([("wnear", 7, 28), ("li", 8, 28)], NOW0, 61))
    one(price_data([("wnear", 7, 28), ("li", 8, 27)], NOW0))
    one(price_data([("li", 7, 28), ("wnear", 8, 28)], NOW0))
    one(price_data([("wnear", 7, 28), ("li", None, 28)], NOW0))
    one(price_data([("wnear", 0, 28), ("li", 8, 28)], NOW0))
    one(price_data([("wnear", 7, 28)], NOW0))
    one(price_data([("wnear", 7, 28), ("ta", 8, 28)], NOW0))
    for x in ("nope", sfrax(s, "PythOracle", dur=301), sfrax(s, "PythOracle")):
        s.one("guard", "update_rated_token_extra_info", {"token_id": "li", "extra_info": x})
    s.one("guard", "update_rated_token_extra_info", {"token_id": "st", "extra_info": sfrax(s, "PythOracle")})
    s.one("alice", "update_rated_token_extra_info", {"token_id": "li", "extra_info": sfrax(s, "PythOracle")})
    T = NOW0 // 10**9

    def two(a, b):
        s.call("bob", "update_token_rate", {"token_id": "li"})
        for x in (a, b):
            s.exec({"to": PYTH}, out=x if x == "fail" else {"ok": x})
        s.drain()
        sw(s, P_RT, "li", "wnear", 10**22)
    two(pyth(512340, -5, T), pyth(61234, -4, T))
    two(pyth(512340, -5, T - 30), pyth(61234, -4, T))
    two(pyth(512340, -5, T - 31), pyth(61235, -4, T))
    two(pyth(512340, -5, T), pyth(61236, -4, T - 31))
    two(pyth(-5, -5, T), pyth(61236, -4, T))
    two(pyth(5, -5, T), pyth(0, -4, T))
    two(pyth(3, 2, T), pyth(400, 0, T))
    two("fail", pyth(1, 0, T))
    two(pyth(1, 0, T), "fail")
    two(pyth(1, -30, T), pyth(1, 0, T))
    s.secs(5)
    two(pyth(3, 2, T), pyth(400, 0, T))


@scenario
def rates_by_oracle_borders(s):
    """the shortest and longest durations allowed, at registration and later, and prices at their very ends"""
    T = NOW0 // 10**9
    price = lambda pd: (s.call("bob", "update_token_rate", {"token_id": "li"}), s.exec({"to": ORACLE}, out={"ok": pd}), s.drain())

    def pair(a, b):
        s.call("bob", "update_token_rate", {"token_id": "li"})
        for x in (a, b):
            s.exec({"to": PYTH}, out={"ok": x})
        s.drain()
    for k, lo, hi in (("PriceOracle", "stale", "stale"), ("PythOracle", "dur", "dur")):
        for d in (9, 301, 11, 10, 299, 300):
            for late in (False, True):
                if late:
                    s.one("owner", "update_rated_token_extra_info", {"token_id": "li", "extra_info": sfrax(s, k, **{lo: d})})
                else:
                    s.one("owner", "unregister_rated_token", {"token_id": "li"})
                    s.one("owner", "register_rated_token", {"rate_type": "SFRAX", "token_id": "li", "extra_info": sfrax(s, k, **{hi: d})})
        if k == "PriceOracle":
            for age in (300, 301):
                price(price_data([("wnear", 70000 + age, 28), ("li", 90000, 28)], NOW0 - age * 10**9))
            price(price_data([("wnear", 1, 28), ("li", 10**10, 28)], NOW0))
            price(price_data([("wnear", 10**30, 28), ("li", 3 * 10**30, 28)], NOW0))
            price(price_data([("wnear", 1, 0), ("li", 10**15, 0)], NOW0))
            price(price_data([("wnear", 5, 28), ("li", 7, 28), ("ta", 1, 28)], NOW0, 60))
        else:
            for a, b in (((7, 0), (9, 0)), ((7, 1), (9, 1)), ((7, -1), (9, -1)), ((7, -24), (9, -24)), ((7, -25), (9, -25)), ((7 * 10**6, -25), (9 * 10**6, -25)),
                         ((7, 10), (9, 10)), ((2**63 - 1, -5), (2**63 - 1, -6)), ((1, 18), (1, -18)), ((1, -18), (1, 10)), ((1, 38), (1, 38)), ((1, 39), (1, 39)), ((1, -39), (1, 1))):
                pair(pyth(a[0], a[1], T), pyth(b[0], b[1], T))
            for t in (T - 300, T - 301, 0, -1, T + 5, T + 10**6):
                pair(pyth(7, 0, t), pyth(8, 0, T))
                pair(pyth(7, 0, T), pyth(9, 0, t))


@scenario
def degens(s):
    step = lambda: (sw(s, P_DG, "d6", "d24", 3 * unit("d6"), skip_degen_price_sync=True), sw(s, P_DG, "d24", "d6", unit("d24") // 3, skip_degen_price_sync=True),
                    s.run("bob", "add_stable_liquidity", {"pool_id": P_DG, "amounts": [str(10**23), str(10**6)], "min_shares": "0"}, NEAR // 100),
                    s.run("bob", "remove_liquidity", {"pool_id": P_DG, "shares": str(10**20), "min_amounts": ["0", "0"]}, 1),
                    s.run("bob", "remove_liquidity_by_tokens", {"pool_id": P_DG, "amounts": [str(10**20), "12345"], "max_burn_shares": str(10**30)}, 1),
                    s.view("get_degen_pool_tvl", {"pool_id": P_DG}),
                    s.view("get_degen_return", {"pool_id": P_DG, "token_in": "d6", "amount_in": "1000000", "token_out": "d24",
                                                "degens": {"d6": str(10**24), "d24": str(7 * 10**24)}}))
    step()
    T = NOW0 // 10**9
    one = lambda pd: (s.call("bob", "update_degen_token_price", {"token_id": "d24"}), s.exec({"to": ORACLE}, out=pd if pd == "fail" else {"ok": pd}), s.drain())
    two = lambda x: (s.call("bob", "update_degen_token_price", {"token_id": "d6"}), s.exec({"to": PYTH}, out=x if x == "fail" else {"ok": x}), s.drain())
    for pd in ("fail", price_data([("d24", 60000, 28)], NOW0), price_data([("d24", 61000, 28)], NOW0 - 90 * 10**9), price_data([("d24", 62000, 28)], NOW0 - 90 * 10**9 - 1),
               price_data([("d24", 62000, 28)], NOW0, 91), price_data([("d24", 62000, 28)], NOW0 + 1), price_data([("d24", 62000, 23)], NOW0),
               price_data([("d6", 62000, 28)], NOW0), price_data([], NOW0), price_data([("d24", None, 28)], NOW0), {"nope": 1}, price_data([("d24", 0, 28)], NOW0)):
        one(pd)
        sw(s, P_DG, "d6", "d24", 3 * unit("d6"), skip_degen_price_sync=True)
    one(price_data([("d24", 59000, 28)], NOW0))
    for x in ("fail", pyth(99980000, -8, T - 60), pyth(99970000, -8, T - 61), pyth(0, -8, T), pyth(-3, -8, T), pyth(2, 1, T), pyth(1, -30, T), pyth(9, 20, T), {"nope": 1}, pyth(1, -8, 0), None):
        two(x)
        sw(s, P_DG, "d6", "d24", 3 * unit("d6"), skip_degen_price_sync=True)
    two(pyth(100010000, -8, T))
    step()
    # prices go out of date
    s.time(3599 * 10**9)
    sw(s, P_DG, "d6", "d24", 3 * unit("d6"), skip_degen_price_sync=True)
    s.time(10**9)
    step()
    s.time(1)
    step()
    two(pyth(100010000, -8, T + 3600))
    step()
    one(price_data([("d24", 59000, 28)], NOW0 + 3600 * 10**9 + 1))
    step()


@scenario
def degen_batches(s):
    T = NOW0 // 10**9
    o = lambda m, a: s.one("owner", m, a)
    o("register_degen_token", {"token_id": "s6", "degen_type": {"PythOracle": {"price_identifier": PID}}})
    o("register_degen_token", {"token_id": "s18", "degen_type": {"PriceOracle": {"decimals": 18}}})
    o("register_degen_token", {"token_id": "d24", "degen_type": {"PriceOracle": {"decimals": 18}}})
    s.run("owner", "add_degen_swap_pool", {"tokens": ["d24", "d6", "s6", "s18"], "decimals": [24, 6, 6, 18], "fee": 10, "amp_factor": 100}, NEAR // 10)
    L = lambda: s.run("bob", "add_stable_liquidity", {"pool_id": 8, "amounts": [str(10 * 10**24), str(50 * 10**6), str(50 * 10**6), str(50 * 10**18)], "min_shares": "0"}, NEAR // 100)
    L()

    def batch(toks, a=None, b=None, who="bob", order=None):
        s.call(who, "batch_update_degen_token_price", {"token_ids": toks})
        for to, x in ((ORACLE, a), (PYTH, b)) if not order else ((PYTH, b), (ORACLE, a)):
            if x is not None:
                s.exec({"to": to}, out=x if x == "fail" else {"ok": x})
        s.drain()
    batch([])
    batch(["ta"])
    batch(["d24", "ta"])
    batch(["d24"], price_data([("d24", 5, 24)], NOW0))
    batch(["s18"], price_data([("s18", 1001, 21)], NOW0))
    batch(["d24", "s18"], price_data([("d24", 50000, 28), ("s18", 1001, 21)], NOW0))
    batch(["d24", "s18"], price_data([("d24", 50001, 28), ("s18", None, 21)], NOW0))
    batch(["d24", "s18"], price_data([("d24", 50001, 28), ("s18", 1, 17)], NOW0))
    batch(["d24", "s18"], price_data([("d24", 50001, 28), ("ta", 1, 17)], NOW0))
    batch(["d24", "s18"], price_data([("d24", 50001, 28), ("s18", 999, 21)], NOW0 - 91 * 10**9))
    batch(["d6", "s6"], b={PID: pyth(10**8, -8, T)})
    batch(["d6", "s6"], b={PID: pyth(10**8, -8, T - 61)})
    batch(["d6", "s6"], b={PID: None})
    batch(["d6", "s6"], b={})
    batch(["d6", "s6", "d24"], price_data([("d24", 50002, 28)], NOW0), {PID: pyth(100000001, -8, T)}, order=1)
    batch(["d6", "s6", "d24"], "fail", {PID: pyth(100000002, -8, T)})
    batch(["d6", "s6", "d24"], price_data([("d24", 50003, 28)], NOW0), "fail")
    L()
    # a swap asks for the prices of what it traded, and does not wait for them
    sync = lambda a, b: (s.exec({"to": ORACLE}, out={"ok": a}), s.exec({"to": PYTH}, out={"ok": b}), s.drain())
    s.call("alice", "swap", {"actions": [act(8, "d6", "s18", unit("d6"))]})
    sync(price_data([("s18", 1002, 21)], NOW0), {PID: pyth(100000003, -8, T)})
    s.call("alice", "swap_by_output", {"actions": [actout(8, "d6", "s18", unit("s18"))]})
    s.call("alice", "execute_actions", {"actions": [act(8, "d6", "s6", unit("d6"))]})
    s.exec({"to": PYTH}, out={"ok": {PID: pyth(100000004, -8, T)}}); s.drain()
    s.call("alice", "execute_actions_in_va", {"use_tokens": {"d6": str(unit("d6"))}, "actions": [act(8, "d6", "s6", unit("d6"))]}, 1)
    s.drain()
    s.call("alice", "swap", {"actions": [act(8, "d6", "s18", unit("d6")), act(P_DG, "d6", "d24", unit("d6"))], "skip_degen_price_sync": False})
    s.drain()
    s.call("alice", "swap", {"actions": [act(8, "d6", "s18", unit("d6")), act(P_DG, "d6", "d24", unit("d6"))], "skip_degen_price_sync": True})
    # no longer registered when the answer comes
    s.call("bob", "batch_update_degen_token_price", {"token_ids": ["s18", "d24"]})
    o("unregister_degen_token", {"token_id": "s18"})
    s.exec({"to": ORACLE}, out={"ok": price_data([("d24", 50009, 28), ("s18", 1, 21)], NOW0)}); s.drain()
    L()
    o("unregister_degen_oracle_config", {"degen_oracle_config_key": "PriceOracleConfig"})
    L()
    batch(["d24"])
    s.call("bob", "update_degen_token_price", {"token_id": "d24"})
    sw(s, P_DG, "d6", "d24", unit("d6"))
    sw(s, P_DG, "d6", "d24", unit("d6"), skip_degen_price_sync=True)
    o("register_degen_oracle_config", {"degen_oracle_config": {"PriceOracle": {"oracle_id": "other", "expire_ts": "1000000000", "maximum_recency_duration_sec": 5, "maximum_staleness_duration_sec": 5}}})
    sw(s, P_DG, "d6", "d24", unit("d6"), skip_degen_price_sync=True)
    s.secs(1)
    sw(s, P_DG, "d6", "d24", unit("d6"), skip_degen_price_sync=True)
    s.time(1)
    sw(s, P_DG, "d6", "d24", unit("d6"), skip_degen_price_sync=True)
    o("update_degen_token", {"token_id": "d24", "degen_type": {"PythOracle": {"price_identifier": PID}}})
    sw(s, P_DG, "d6", "d24", unit("d6"), skip_degen_price_sync=True)


@scenario
def value_limits(s):
    lim = lambda m, n, p=P_DG, who="owner": s.one(who, m + "_degen_pool_limit", {"pool_id": p, "degen_pool_limit_info": {"tvl_limit": str(n)}})
    addl = lambda a, b, who="bob": s.run(who, "add_stable_liquidity", {"pool_id": P_DG, "amounts": [str(a), str(b)], "min_shares": "0"}, NEAR // 100)
    # 1037 d24 at 5.1234 and 5185 d6 at 0.9999
    tvl = 5312 + 5184
    s.view("get_degen_pool_tvl", {"pool_id": P_DG})
    lim("update", 5)
    lim("add", tvl + 10, P_ST)
    lim("add", tvl + 10, who="alice")
    lim("add", tvl + 10, 99)
    lim("add", tvl + 2)
    lim("add", tvl + 2)
    for i in range(6):
        addl(0, 5 * 10**5)
    addl(0, 100)
    addl(10**24 // 100, 0)
    addl(10**24 // 3, 0)
    s.view("get_degen_pool_tvl", {"pool_id": P_DG})
    lim("update", tvl + 5, who="guard")
    lim("update", tvl + 5)
    addl(0, 10**6)
    addl(10**21, 0)
    s.deposit("bob", "d6", 10 * unit("d6"), zap([act(P_DG, "d6", "d24", unit("d6"))], [add(P_DG, [0, 3 * unit("d6")], min_shares=0)], skip_degen_price_sync=True))
    s.deposit("bob", "d6", 10 * unit("d6"), zap([act(P_DG, "d6", "d24", unit("d6"))], [add(P_DG, [0, 300], min_shares=0)], skip_degen_price_sync=True))
    # a limit is no obstacle to leaving or trading
    lim("update", 1)
    addl(0, 1)
    sw(s, P_DG, "d6", "d24", unit("d6"), skip_degen_price_sync=True)
    s.run("bob", "remove_liquidity", {"pool_id": P_DG, "shares": str(10**20), "min_amounts": ["0", "0"]}, 1)
    s.one("guard", "remove_pool_limit", {"pool_id": P_DG})
    s.one("owner", "remove_pool_limit", {"pool_id": P_DG})
    s.one("owner", "remove_pool_limit", {"pool_id": P_DG})
    addl(0, 10**9)
    # prices out of date
    lim("add", tvl * 2)
    s.secs(3601)
    addl(0, 10**9)
    s.view("get_degen_pool_tvl", {"pool_id": P_DG})


@scenario
def averages(s):
    reg = lambda p, who="owner": s.one(who, "register_pool_twap_record", {"pool_id": p})
    see = lambda p: (s.view("get_unit_share_twap_token_amounts", {"pool_id": p}), s.view("get_unit_share_token_amounts", {"pool_id": p}))
    trade = lambda k: s.call("alice", "swap", {"actions": [act(P_AB, "ta", "tb", k * unit("ta"))]})
    s.one("owner", "modify_cumulative_info_record_interval_sec", {"record_interval_sec": 60})
    reg(P_AB, "alice")
    reg(P_AB)
    reg(P_AB)
    reg(99)
    reg(P_ST, "guard")
    reg(P_RT)
    reg(P_DG)
    s.run("alice", "add_simple_pool", {"tokens": ["ta", "tc"], "fee": 30}, NEAR // 10)
    reg(8)
    s.run("alice", "add_liquidity", {"pool_id": 8, "amounts": ["1000", "1000"]}, NEAR // 10)
    reg(8)
    see(P_AB)
    for i in range(20):
        s.secs((7, 60, 61, 1, 59, 300, 0)[i % 7])
        if i % 3 == 0:
            trade(i + 1)
        elif i % 3 == 1:
            s.call("bob", "sync_pool_twap_record", {"pool_id": P_AB})
        else:
            s.run("alice", "remove_liquidity", {"pool_id": P_AB, "shares": str(10**19 + i), "min_amounts": ["0", "0"]}, 1)
        see(P_AB)
    s.run("alice", "add_liquidity", {"pool_id": P_AB, "amounts": [str(10**18), str(10**18)]}, NEAR // 10)
    s.secs(100)
    s.run("alice", "add_stable_liquidity", {"pool_id": P_ST, "amounts": ["1000000", "0", "0"], "min_shares": "0"}, NEAR // 10)
    s.secs(100)
    sw(s, P_ST, "s6", "s8", unit("s6"))
    sw(s, P_RT, "st", "wnear", unit("st"))
    sw(s, P_DG, "d6", "d24", unit("d6"), skip_degen_price_sync=True)
    s.secs(61)
    s.call("alice", "execute_actions", {"actions": [act(P_AB, "ta", "tb", 10**18), act(P_AB, "tb", "ta", 10**17)]})
    s.secs(61)
    s.call("alice", "swap_by_output", {"actions": [actout(P_AB, "ta", "tb", 10**18)]})
    s.secs(61)
    s.call("alice", "execute_actions_in_va", {"use_tokens": {"ta": str(10**18)}, "actions": [act(P_AB, "ta", "tb", 10**18)]}, 1)
    s.secs(61)
    s.deposit("alice", "ta", 10**18, ex_msg([act(P_AB, "ta", "tb", 10**18)]))
    s.secs(61)
    s.run("alice", "remove_liquidity_by_tokens", {"pool_id": P_ST, "amounts": ["1000", "0", "0"], "max_burn_shares": str(10**30)}, 1)
    s.secs(61)
    s.run("bob", "remove_liquidity", {"pool_id": P_ST, "shares": str(10**19), "min_amounts": ["0"] * 3}, 1)
    for p in (P_AB, P_ST, P_RT, P_DG, P_BC):
        see(p)
    # the ring of records goes round
    for i in range(66):
        s.secs(60 + i)
        if i % 5 == 0:
            trade(i + 1)
        else:
            s.call("bob", "sync_pool_twap_record", {"pool_id": P_AB})
        if i > 45:
            see(P_AB)
    s.secs(100000)
    see(P_AB)
    s.call("bob", "sync_pool_twap_record", {"pool_id": P_AB})
    see(P_AB)
    s.call("bob", "sync_pool_twap_record", {"pool_id": P_BC})
    s.one("alice", "unregister_pool_twap_record", {"pool_id": P_AB})
    s.one("guard", "unregister_pool_twap_record", {"pool_id": P_AB})
    s.one("guard", "unregister_pool_twap_record", {"pool_id": P_AB})
    trade(1)
    s.call("bob", "sync_pool_twap_record", {"pool_id": P_AB})
    s.one("guard", "modify_cumulative_info_record_interval_sec", {"record_interval_sec": 0})
    reg(P_AB)
    for i in range(4):
        s.secs(i)
        trade(1)
        see(P_AB)
    # nearly nobody left: no unit share to speak of
    s.run("alice", "remove_liquidity", {"pool_id": 8, "shares": str(10**24 - 5), "min_amounts": ["0", "0"]}, 1)
    s.secs(70)
    s.call("bob", "sync_pool_twap_record", {"pool_id": 8})
    see(8)


@scenario
def seen_by_all(s):
    """the whole of what the views show, early, with everything in use, and after a day"""
    panorama(s)
    s.one("owner", "register_pool_twap_record", {"pool_id": P_AB})
    s.one("owner", "register_pool_twap_record", {"pool_id": P_ST})
    s.one("owner", "insert_referral", {"referral_id": "ref1", "fee_bps": 77})
    s.one("owner", "insert_referral", {"referral_id": "ref2", "fee_bps": 7})
    s.one("owner", "extend_guardians", {"guardians": ["dave", "guard"]})
    s.one("owner", "extend_frozenlist_tokens", {"tokens": ["tc", "zz"]})
    s.one("owner", "add_degen_pool_limit", {"pool_id": P_DG, "degen_pool_limit_info": {"tvl_limit": "70000"}})
    s.run("alice", "shadow_action", {"action": "ToFarming", "pool_id": P_AB, "amount": "1000", "msg": ""}, NEAR // 50)
    s.run("alice", "shadow_action", {"action": "ToBurrowland", "pool_id": P_ST, "amount": "500", "msg": ""}, NEAR // 50)
    s.block("ta", "bob")
    s.run("bob", "withdraw", {"token_id": "ta", "amount": "5", "unregister": False}, 1)
    sw(s, P_AB, "ta", "tb", unit("ta"), "bob")
    sw(s, P_ST, "s6", "s8", unit("s6"), "bob")
    for k in range(62):
        s.secs(1801)
        s.call("dave", "sync_pool_twap_record", {"pool_id": P_AB})
        s.call("dave", "sync_pool_twap_record", {"pool_id": P_ST})
    panorama(s)
    s.one("owner", "remove_frozenlist_tokens", {"tokens": ["tc"]})
    s.one("owner", "unregister_pool_twap_record", {"pool_id": P_ST})
    s.one("owner", "remove_pool_limit", {"pool_id": P_DG})
    s.one("owner", "unregister_degen_token", {"token_id": "d6"})
    s.days(2)
    panorama(s)
