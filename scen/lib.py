"""Scripts for refsim: a script is a list of commands; every command that executes a receipt adds a record to the trace."""
import json

E18, E24 = 10**18, 10**24
NEAR = 10**24
YOCTO = "1"


class Script:
    def __init__(self):
        self.lines = []
        self.label = "setup"

    def put(self, **k):
        self.lines.append(k)

    def call(self, p, m, a=None, d=0, to="ex", **k):
        self.put(c="call", p=p, to=to, m=m, a=a or {}, d=str(d), **k)

    def one(self, p, m, a=None, **k):
        self.call(p, m, a, d=1, **k)

    def run(self, p, m, a=None, d=0, to="ex", **k):
        """a call and everything it causes"""
        self.call(p, m, a, d, to, **k)
        self.drain()

    def ok(self, p, m, a=None, **k):
        self.run(p, m, a, d=1, **k)

    def exec(self, sel=None, out=None):
        c = {"c": "exec"}
        if sel is not None:
            c["sel"] = sel
        if out is not None:
            c["out"] = out
        self.lines.append(c)

    def drain(self):
        self.put(c="drain")

    def time(self, ns):
        self.put(c="time", adv=str(int(ns)))

    def days(self, n):
        self.time(n * 86400 * 10**9)

    def secs(self, n):
        self.time(n * 10**9)

    def block(self, tok, who):
        self.put(c="block", tok=tok, who=who)

    def unblock(self, tok, who):
        self.put(c="unblock", tok=tok, who=who)

    def view(self, m, a=None, to="ex"):
        self.put(c="view", to=to, m=m, a=a or {})

    def pages(self, m, size, a=None, to="ex"):
        """asks a listing page by page; the trace holds what the pages show together"""
        self.put(c="view", to=to, m=m, a=a or {}, pages=size)

    def keep(self, name, sec=None):
        """remembers the value the last call or view gave, or a part of the observed state, for @{name/path+1} in later commands"""
        self.put(c="keep", **{"as": name}, **({"sec": sec} if sec else {}))

    def snap(self, k):
        self.put(c="snap", k=k)

    def restore(self, k, sc):
        self.put(c="restore", k=k, sc=sc)

    def deposit(self, who, tok, n, msg="", to="ex"):
        """tokens sent to the contract under test"""
        self.call(who, "ft_transfer_call", {"receiver_id": to, "amount": str(n), "msg": msg if isinstance(msg, str) else json.dumps(msg)}, 1, to=tok)
        self.drain()

    def text(self):
        return "\n".join(json.dumps(x) for x in self.lines) + "\n"


def predictions(x):
    """the views that announce what call x will yield"""
    m, a = x["m"], x.get("a") or {}
    if m in ("swap", "swap_by_output", "execute_actions"):
        acts = a.get("actions", [])
        yield "predict_swap_actions", {"token_deposit": {y["token_in"]: str(10**37) for y in acts}, "actions": acts}
        for y in acts:
            if "amount_in" in y:
                yield "get_return", {k: y[k] for k in ("pool_id", "token_in", "amount_in", "token_out")}
            if "amount_out" in y:
                yield "get_return_by_output", {k: y[k] for k in ("pool_id", "token_in", "amount_out", "token_out")}
    elif m in ("add_liquidity", "add_stable_liquidity"):
        for k in ("simple", "stable", "rated", "degen"):
            yield "predict_add_%s_liquidity" % k, {"pool_id": a["pool_id"], "amounts": a["amounts"]}
    elif m == "remove_liquidity":
        yield "predict_remove_liquidity", {"pool_id": a["pool_id"], "shares": a["shares"]}
    elif m == "remove_liquidity_by_tokens":
        for k in ("", "rated_", "degen_"):
            yield "predict_remove_%sliquidity_by_tokens" % k, {"pool_id": a["pool_id"], "amounts": a["amounts"]}
    elif m == "ft_transfer_call" and a.get("msg", "")[:1] == "{":
        g = json.loads(a["msg"])
        if g.get("hot_zap_actions"):
            yield "predict_hot_zap", {"referral_id": g.get("referral_id"), "account_id": x["p"], "token_in": x["to"], "amount_in": a["amount"],
                                      "hot_zap_actions": g["hot_zap_actions"], "add_liquidity_infos": g.get("add_liquidity_infos", [])}
            yield "predict_swap_actions", {"token_deposit": {x["to"]: a["amount"]}, "actions": g["hot_zap_actions"]}
        elif g.get("actions"):
            yield "predict_swap_actions", {"token_deposit": {x["to"]: a["amount"]}, "actions": g["actions"]}


def foretell(s):
    """the script with every prediction asked right before the call it announces"""
    t = Script()
    for x in s.lines:
        if x.get("c") in ("call", "run", "ok", "one") and x.get("to", "ex") in ["ex"] + TOKENS:
            try:
                asked = list(predictions(x))
            except (KeyError, ValueError, TypeError, AttributeError):  # a call with broken arguments
                asked = []
            for m, a in asked:
                t.view(m, {k: v for k, v in a.items() if v is not None})
        t.lines.append(x)
    return t


def act(pool, tin, tout, n=None, low=0):
    a = {"pool_id": pool, "token_in": tin, "token_out": tout, "min_amount_out": str(low)}
    if n is not None:
        a["amount_in"] = str(n)
    return a


def actout(pool, tin, tout, n=None, high=None):
    a = {"pool_id": pool, "token_in": tin, "token_out": tout}
    if n is not None:
        a["amount_out"] = str(n)
    if high is not None:
        a["max_amount_in"] = str(high)
    return a


USERS = ["alice", "bob", "carol"]
PEOPLE = USERS + ["dave", "owner", "guard", "ref1", "ref2", "ex", "farmer", "bfarm", "burrow"]
DEC = {"ta": 18, "tb": 18, "tc": 24, "s6": 6, "s18": 18, "s8": 8, "wnear": 24, "st": 24, "li": 24, "d24": 24, "d6": 6, "d18": 18, "odd": 18, "fine": 24}
TOKENS = list(DEC)
# pools of the base state
P_AB, P_BC, P_WA, P_ST, P_RT, P_DG, P_FI, P_CW = range(8)
POOLS = {
    P_AB: ["ta", "tb"], P_BC: ["tb", "tc"], P_WA: ["wnear", "ta"], P_ST: ["s6", "s18", "s8"],
    P_RT: ["st", "li", "wnear"], P_DG: ["d24", "d6"], P_FI: ["fine", "s18"], P_CW: ["tc", "wnear"],
}
KIND = {P_AB: "S", P_BC: "S", P_WA: "S", P_CW: "S", P_ST: "C", P_RT: "C", P_DG: "C", P_FI: "C"}
ORACLE = "oracle"
PYTH = "pyth"


def unit(t):
    return 10 ** DEC[t]


def exchange_reset(s, sc, fees=(5, 5), **k):
    led = {t: {u: str(10**6 * unit(t)) for u in USERS + ["dave", "owner"]} for t in TOKENS}
    s.put(c="reset", sc=sc, watch=PEOPLE, tokens=TOKENS, ledger=led, now="1700000000000000000",
          exchange=dict(owner_id="owner", boost_farm_id="bfarm", burrowland_id="burrow", exchange_fee=fees[0], referral_fee=fees[1]), **k)


def price_data(prices, ts, rec=60):
    """answer of the price oracle: [(asset, multiplier, decimals)]"""
    return {"timestamp": str(ts), "recency_duration_sec": rec,
            "prices": [dict(asset_id=a, price=None if m is None else {"multiplier": str(m), "decimals": d}) for a, m, d in prices]}


NOW0 = 1700000000 * 10**9


def rate(s, tok, price):
    s.call("bob", "update_token_rate", {"token_id": tok})
    s.exec({"to": tok}, out={"ok": str(price)})
    s.drain()


def degen_price(s, tok, mult, dec, now, ok=True):
    s.call("bob", "update_degen_token_price", {"token_id": tok})
    s.exec({"to": ORACLE}, out={"ok": price_data([(tok, mult, dec)], now)})
    s.drain()


def panorama(s, users=("alice", "bob", "dave", "owner"), pools=range(9)):
    """asks every view that lists or shows recorded state"""
    v = s.view
    pools = list(pools)
    for m in ("get_owner", "get_guardians", "get_number_of_pools", "list_referrals", "get_frozenlist_tokens", "get_whitelisted_tokens", "list_degen_tokens",
              "get_pool_limit_paged", "list_pool_twap_info_view", "storage_balance_bounds"):
        v(m, {})
    v("get_pools", {"from_index": 0, "limit": 100})
    v("get_pools", {"from_index": 2, "limit": 3})
    v("get_pools", {"from_index": 50, "limit": 3})
    for m in ("get_pools", "get_pool_detail_infos", "list_pool_volumes"):
        s.pages(m, 4)
    for m in ("list_referrals", "get_pool_limit_paged", "list_pool_twap_info_view"):
        s.pages(m, 1)
    v("get_pool_by_ids", {"pool_ids": [3, 0, 3]})
    v("get_pool_by_ids", {"pool_ids": [3, 99]})
    v("get_pool_detail_infos", {"from_index": 0, "limit": 100})
    v("get_pool_detail_infos", {"from_index": 3, "limit": 2})
    v("get_pool_detail_info_by_ids", {"pool_ids": [4, 1, 6]})
    v("list_pool_volumes", {"from_index": 0, "limit": 100})
    v("list_pool_volumes", {"from_index": 4, "limit": 2})
    v("get_pool_volumes_by_ids", {"pool_ids": [2, 0]})
    v("get_unit_lpt_assets", {"pool_ids": [0, 1]})
    v("get_unit_lpt_assets", {"pool_ids": [3]})
    v("batch_get_degen_tokens", {"token_ids": ["d24", "d6", "ta"]})
    for p in pools:
        for m in ("get_pool_detail_info", "get_pool_volumes", "get_pool_limit_by_pool_id", "get_pool_twap_info_view", "get_pool_share_price", "get_pool_total_shares",
                  "get_pool_fee", "get_stable_pool", "get_rated_pool", "get_degen_pool", "get_degen_pool_tvl", "get_unit_share_token_amounts"):
            v(m, {"pool_id": p})
        v("mft_metadata", {"token_id": ":%d" % p})
        v("mft_total_supply", {"token_id": ":%d" % p})
    v("mft_metadata", {"token_id": "ta"})
    for u in users:
        a = {"account_id": u}
        for m in ("get_deposits", "get_user_whitelisted_tokens", "get_shadow_records", "get_user_storage_state", "storage_balance_of", "list_lostfound_tokens", "get_tokens_paged"):
            v(m, a)
        s.pages("get_tokens_paged", 2, a)
        s.pages("list_lostfound_tokens", 1, a)
        v("get_pool_shares_batch", {"pool_ids": pools[:4], **a})
        v("token_register_of", {"token_id": "ta", **a})
        v("token_register_of", {"token_id": "fine", **a})
        v("batch_views", {"pool_ids": [0, 3], **a})
        v("batch_views", a)
        v("mft_balance_of", {"token_id": ":3", **a})
        v("mft_balance_of", {"token_id": "ta", **a})
        v("mft_has_registered", {"token_id": ":3", **a})
    v("batch_views", {"pool_ids": [0, 3]})
    v("batch_views", {})


def base(s, sc="base", fees=(5, 5), past=None):
    """registered users with deposits, one pool of every kind with liquidity of alice and bob; the first part by the release `past`, then upgraded"""
    exchange_reset(s, sc, fees, **({"code": past[0]} if past else {}))
    o = lambda m, a: s.one("owner", m, a)
    o("modify_wnear_id", {"wnear_id": "wnear"})
    o("extend_whitelisted_tokens", {"tokens": [t for t in TOKENS if t != "odd"]})
    o("extend_guardians", {"guardians": ["guard"]})
    for u in USERS + ["owner"]:
        s.run(u, "storage_deposit", {}, NEAR)
    o("register_rated_token", {"rate_type": "STNEAR", "token_id": "st"})
    o("register_rated_token", {"rate_type": "LINEAR", "token_id": "li"})
    def oracles():
        o("register_degen_oracle_config", {"degen_oracle_config": {"PriceOracle": {
            "oracle_id": ORACLE, "expire_ts": "3600000000000", "maximum_recency_duration_sec": 90, "maximum_staleness_duration_sec": 90}}})
        o("register_degen_oracle_config", {"degen_oracle_config": {"PythOracle": {
            "oracle_id": PYTH, "expire_ts": "3600000000000", "pyth_price_valid_duration_sec": 60}}})
        o("register_degen_token", {"token_id": "d24", "degen_type": {"PriceOracle": {"decimals": 24}}})
        o("register_degen_token", {"token_id": "d6", "degen_type": {"PythOracle": {"price_identifier": "ab" * 32}}})

    def pools(ids):
        for p in ids:
            ts = POOLS[p]
            if KIND[p] == "S":
                s.run("alice", "add_simple_pool", {"tokens": ts, "fee": {P_AB: 30, P_BC: 25, P_WA: 1, P_CW: 0}[p]}, NEAR // 10)
            else:
                m = {P_ST: "add_stable_swap_pool", P_RT: "add_rated_swap_pool", P_DG: "add_degen_swap_pool", P_FI: "add_stable_swap_pool"}[p]
                s.run("owner", m, {"tokens": ts, "decimals": [DEC[t] for t in ts], "fee": {P_ST: 5, P_RT: 5, P_DG: 10, P_FI: 20}[p],
                                   "amp_factor": {P_ST: 200, P_RT: 240, P_DG: 100, P_FI: 10}[p]}, NEAR // 10)

    def rates():
        rate(s, "st", 1_150_000_000_000_000_000_000_000)
        rate(s, "li", 1_023_456_789_012_345_678_901_234)

    def prices(later=0):
        degen_price(s, "d24", 51234, 24 + 4, NOW0 + later * 10**9)
        s.call("bob", "update_degen_token_price", {"token_id": "d6"})
        s.exec({"to": PYTH}, out={"ok": {"price": "99990000", "conf": "1", "expo": -8, "publish_time": 1700000000 + later}})
        s.drain()

    def money():
        for u in USERS:
            for t in TOKENS:
                if t != "odd" and (u != "carol" or t in ("ta", "tb", "wnear")):
                    s.deposit(u, t, 200000 * unit(t))

    def liquidity(ids):
        for p in ids:
            ts = POOLS[p]
            for u, k in (("alice", 1000), ("bob", 37)):
                am = [str(k * unit(t) * w) for t, w in zip(ts, {P_AB: (1, 2), P_BC: (3, 1), P_WA: (5, 7), P_CW: (2, 3), P_ST: (1, 1, 1), P_RT: (2, 3, 1), P_DG: (1, 5), P_FI: (1, 2)}[p])]
                if KIND[p] == "S":
                    s.run(u, "add_liquidity", {"pool_id": p, "amounts": am}, NEAR // 100)
                else:
                    s.run(u, "add_stable_liquidity", {"pool_id": p, "amounts": am, "min_shares": "1"}, NEAR // 100)

    if past:
        pools(range(5))
        rates()
        money()
        liquidity(range(5))
        past[1](s)  # ends with the upgrade
        oracles()
        pools(range(5, 8))
        prices(2400)
        liquidity(range(5, 8))
        return
    oracles()
    pools(POOLS)
    rates()
    prices()
    money()
    liquidity(POOLS)
