"""Limits and amounts at the border: every bound a caller can set, every amount drawn from something limited, exactly at, one below and
one above what there is. The values come from the contract itself: a call is made freely, its result remembered, the state restored and
the call made again with the bound in question (see Script.keep)."""
import itertools
from lib import *
from ex_tok import ex_msg, zap, add

K = {t: unit(t) for t in DEC}
CASES = []
UNIT = {P_ST: E18, P_FI: E18}
SK = {"skip_degen_price_sync": True}


def case(tags):
    def d(f):
        CASES.append((f.__name__, set(tags.split()), f))
        return f
    return d


class Lim:
    def __init__(self, s, frm="base"):
        self.s, self.frm, self.k = s, frm, 0

    def back(self, nm=""):
        self.k += 1
        self.s.restore(self.frm, "lim_%s_%d" % (nm or self.nm, self.k))

    def learn(self, u, m, a, name="r", d=1):
        """the value the call gives, if made freely"""
        self.back()
        self.s.call(u, m, a, d=d)
        self.s.keep(name)

    def learn_view(self, m, a, name="r"):
        self.s.view(m, a)
        self.s.keep(name)

    def tries(self, u, m, versions, d=1):
        for v in versions:
            self.back()
            self.s.run(u, m, v, d=d)

    def sends(self, u, t, n, msgs):
        for v in msgs:
            self.back()
            self.s.deposit(u, t, n, v)


def at(name, *more):
    """the remembered value, and a bit more or less"""
    return ["@{%s%s}" % (name, x) for x in ("",) + more]


def amount(p, t):
    return {"C": 3, "S": 5}[KIND[p]] * K[t] + 1


CHAINS = [[(P_AB, "ta", "tb")], [(P_AB, "tb", "ta")], [(P_ST, "s6", "s18")], [(P_ST, "s18", "s8")], [(P_RT, "st", "wnear")], [(P_RT, "wnear", "li")], [(P_DG, "d24", "d6")], [(P_FI, "s18", "fine")],
          [(P_AB, "ta", "tb"), (P_BC, "tb", "tc")], [(P_RT, "st", "wnear"), (P_CW, "wnear", "tc"), (P_BC, "tc", "tb")], [(P_ST, "s8", "s18"), (P_FI, "s18", "fine")],
          [(P_AB, "ta", "tb"), (P_BC, "tb", "tc"), (P_CW, "tc", "wnear"), (P_WA, "wnear", "ta")]]


def low_acts(ch, n, low):
    """the chain with bounds low[k] at step k"""
    return [act(p, a, b, n if k == 0 else None, low.get(k, 0)) for k, (p, a, b) in enumerate(ch)]


@case("C04 C08 C10")
def swap_low(L):
    for ch in CHAINS:
        n = amount(ch[0][0], ch[0][1])
        vs = []
        for k in range(len(ch)):
            L.learn("alice", "swap", {"actions": low_acts(ch[:k + 1], n, {}), **SK}, "r%d" % k)
            vs += [{k: x} for x in at("r%d" % k, "+1")]
        vs.append({k: "@{r%d}" % k for k in range(len(ch))})
        L.tries("alice", "swap", [{"actions": low_acts(ch, n, v), **SK} for v in vs])
        L.tries("alice", "execute_actions", [{"actions": low_acts(ch, n, v), **SK} for v in vs[-3:]])
        L.tries("alice", "execute_actions_in_va", [{"use_tokens": {ch[0][1]: str(n)}, "actions": low_acts(ch, n, v), **SK} for v in vs[-3:]])
        L.sends("alice", ch[0][1], n, [ex_msg(low_acts(ch, n, v), **SK) for v in vs])


@case("C04 C08 C10")
def swap_several(L):
    """actions that are not a chain: each has its own bound"""
    l = [(P_AB, "ta", "tb"), (P_AB, "ta", "tb"), (P_ST, "s6", "s18"), (P_BC, "tb", "tc")]
    n = [K["ta"] * 3, K["ta"] * 2, K["s6"] * 7, K["tb"]]
    mk = lambda low, k=4: [act(p, a, b, n[i], low.get(i, 0)) for i, (p, a, b) in enumerate(l[:k])]
    vs = []
    for k in range(4):
        L.learn("bob", "swap", {"actions": mk({}, k + 1)}, "r%d" % k)
        vs += [{k: x} for x in at("r%d" % k, "+1")]
    vs.append({k: "@{r%d}" % k for k in range(4)})
    L.tries("bob", "swap", [{"actions": mk(v)} for v in vs])
    L.tries("bob", "execute_actions", [{"actions": mk(v)} for v in vs])
    L.sends("bob", "ta", sum(n[:2]), [ex_msg(mk(v)[:2]) for v in vs[:4]])


@case("C04 C08 C10")
def swap_high(L):
    """outcomes fixed, what may be paid for them bounded at every step of the chain"""
    for ch in ([(P_AB, "ta", "tb")], [(P_AB, "tb", "ta")], [(P_BC, "tb", "tc"), (P_AB, "ta", "tb")], [(P_CW, "tc", "wnear"), (P_BC, "tb", "tc"), (P_AB, "ta", "tb")],
               [(P_WA, "ta", "wnear"), (P_AB, "tb", "ta")]):
        o = 2 * K[ch[0][2]] + 1
        mk = lambda hi, k: [actout(p, a, b, o if i == 0 else None, hi.get(i)) for i, (p, a, b) in enumerate(ch[:k])]
        vs, m = [], len(ch)
        for k in range(m):
            L.learn("alice", "swap_by_output", {"actions": mk({}, k + 1)}, "r%d" % k)
            vs += [{k: x} for x in at("r%d" % k, "-1", "+1")]
        vs += [{k: "@{r%d}" % k for k in range(m)}, {0: "0"}, {m - 1: "1"}]
        L.tries("alice", "swap_by_output", [{"actions": mk(v, m)} for v in vs])
        L.tries("alice", "execute_actions", [{"actions": mk(v, m)} for v in vs])
        L.tries("alice", "execute_actions_in_va", [{"use_tokens": {ch[-1][1]: x}, "actions": mk({}, m)} for x in at("r%d" % (m - 1), "-1", "+1")])
        L.tries("alice", "execute_actions_in_va", [{"use_tokens": {ch[-1][1]: str(100 * K[ch[-1][1]])}, "actions": mk(v, m)} for v in vs])
        for v in vs[-5:]:
            L.sends("alice", ch[-1][1], 100 * K[ch[-1][1]], [ex_msg(mk(v, m))])
        for x in at("r%d" % (m - 1), "-1", "+1", "+1000"):
            L.sends("alice", ch[-1][1], x, [ex_msg(mk({}, m))])


@case("C04 C08 C10")
def two_outputs(L):
    """two chains in one call"""
    mk = lambda h1, h2, h3: [actout(P_BC, "tb", "tc", K["tc"]), actout(P_AB, "ta", "tb", None, h1), actout(P_WA, "wnear", "ta", K["ta"], h2), actout(P_CW, "tc", "wnear", None, h3)]
    for k in (2, 3, 4):
        L.learn("bob", "swap_by_output", {"actions": mk(None, None, None)[:k]}, "q%d" % k)
    vs = [[None] * 3]
    for k in range(3):
        for x in at("q%d" % (k + 2), "-1"):
            v = [None] * 3
            v[k] = x
            vs.append(v)
    L.tries("bob", "swap_by_output", [{"actions": mk(*v)} for v in vs])
    L.tries("bob", "execute_actions", [{"actions": mk(*v)} for v in vs])


@case("C08 C05")
def add_low(L):
    for p in (P_AB, P_BC):
        a, b = POOLS[p]
        for x, y in ((K[a], 9 * K[b]), (7 * K[a], K[b]), (1, 10**6), (K[a] + 3, 2 * K[b] + 6)):
            g = {"pool_id": p, "amounts": [str(x), str(y)]}
            L.back()
            L.s.keep("b0", "a/alice")
            L.s.call("alice", "add_liquidity", g, NEAR // 50)
            L.s.keep("sh")
            L.s.keep("b1", "a/alice")
            ps = ["b0/tok/%s~b1/tok/%s" % (t, t) for t in (a, b)]
            L.tries("alice", "add_liquidity", [dict(g, min_amounts=["@{%s}" % ps[0], "@{%s}" % ps[1]]), dict(g, min_amounts=["@{%s+1}" % ps[0], "0"]), dict(g, min_amounts=["0", "@{%s+1}" % ps[1]]),
                                               dict(g, min_amounts=["@{%s}" % ps[0]]), dict(g, min_amounts=["@{%s+1}" % ps[0]])], d=NEAR // 50)
            L.sends("alice", a, 100 * K[a], [zap([act(P_AB, "ta", "tb", 9 * K["ta"])] if p == P_AB else [act(P_BC, "tb", "tc", 9 * K["tb"])], [add(p, [x, y], m)]) for m in
                                             ([0, 0], ["@{%s}" % ps[0], "0"], ["@{%s%%110}" % ps[0], "0"], ["0", "@{%s%%110}" % ps[1]])])


@case("C08 C06 C07")
def add_shares(L):
    for p, am in ((P_ST, ["5000001", str(2 * E18), "0"]), (P_ST, ["1", "0", "0"]), (P_RT, [str(E24), "0", "7"]), (P_RT, [str(E24), str(E24), str(E24)]), (P_DG, [str(E24), "1000000"]), (P_DG, ["0", "1000000"]),
                  (P_FI, [str(E24), "0"])):
        L.learn("bob", "add_stable_liquidity", {"pool_id": p, "amounts": am, "min_shares": "0"}, "r", NEAR // 50)
        L.tries("bob", "add_stable_liquidity", [{"pool_id": p, "amounts": am, "min_shares": x} for x in at("r", "+1", "-1")], NEAR // 50)
        if p == P_ST:
            L.sends("bob", "s6", 20 * 10**6, [zap([act(P_ST, "s6", "s18", 5 * 10**6)], [add(P_ST, am, min_shares=x)]) for x in at("r", "%101", "%99")])


@case("C08 C05 C06 C07 C11")
def remove_low(L):
    for p in POOLS:
        one, m = UNIT.get(p, E24), len(POOLS[p])
        for sh in (one // 3, 1, 977, "@{me}"):
            L.back()
            L.learn_view("mft_balance_of", {"token_id": ":%d" % p, "account_id": "bob"}, "me")
            L.learn("bob", "remove_liquidity", {"pool_id": p, "shares": str(sh), "min_amounts": ["0"] * m})
            low = lambda k, x: [("@{r/%d+%d}" if i == k else "@{r/%d+0}") % ((i, x) if i == k else (i,)) for i in range(m)]
            L.tries("bob", "remove_liquidity", [{"pool_id": p, "shares": str(sh), "min_amounts": low(k, 1)} for k in range(m)] + [{"pool_id": p, "shares": str(sh), "min_amounts": low(0, 0)}])
        L.tries("bob", "remove_liquidity", [{"pool_id": p, "shares": x, "min_amounts": ["0"] * m} for x in at("me", "+1", "-1")] + [
            {"pool_id": p, "shares": "5", "min_amounts": ["0"] * (m - 1)}, {"pool_id": p, "shares": "5", "min_amounts": ["0"] * (m + 1)}])


@case("C08 C06 C07 C11")
def take_high(L):
    for p, am in ((P_ST, ["500001", "0", "0"]), (P_ST, ["3", str(E18), "5"]), (P_RT, [str(E24), "0", "7"]), (P_DG, [str(E24), "1"]), (P_FI, ["0", str(E18)]), (P_DG, ["0", "1000"])):
        g = {"pool_id": p, "amounts": am, "max_burn_shares": str(10**38)}
        L.learn("alice", "remove_liquidity_by_tokens", g)
        L.tries("alice", "remove_liquidity_by_tokens", [dict(g, max_burn_shares=x) for x in at("r", "-1", "+1")])
        # he has exactly what is burned, or one less
        for x in ("", "-1"):
            L.back()
            L.s.run("dave", "mft_register", {"token_id": ":%d" % p, "account_id": "dave"}, NEAR // 50)
            L.s.one("alice", "mft_transfer", {"token_id": ":%d" % p, "receiver_id": "dave", "amount": "@{r%s}" % x})
            L.s.one("dave", "remove_liquidity_by_tokens", g)


@case("C01 C02 C04 C10")
def spend_all(L):
    """to the last unit of the account, and beyond"""
    for t in ("ta", "s6", "wnear"):
        for x in ("", "+1", "-1"):
            for u in ("alice", "dave"):
                L.back()
                if u == "dave":
                    L.s.deposit("dave", t, 5 * K[t])
                L.s.keep("me", "a/" + u)
                v = "@{me/tok/%s%s}" % (t, x)
                if t == "ta":
                    for m, a in (("swap", {"actions": [act(P_AB, "ta", "tb", v)]}), ("execute_actions_in_va", {"use_tokens": {t: v}, "actions": [act(P_AB, "ta", "tb", 10**17)]}),
                                 ("mft_transfer", {"token_id": t, "receiver_id": "bob", "amount": v}), ("donation_token", {"token_id": t, "amount": v}),
                                 ("swap", {"actions": [act(P_AB, "ta", "tb", 10**18), act(P_WA, "ta", "wnear", "@{me/tok/ta%s}" % (x if x else "-1000000000000000000"))]})):
                        L.s.snap("spend")
                        L.s.run(u, m, a, 1)
                        L.s.restore("spend", "lim_spend_%s_%s_%d" % (m, u, L.k))
                        L.k += 1
                L.s.run(u, "withdraw", {"token_id": t, "amount": v}, 1)
                L.s.run(u, "withdraw", {"token_id": t, "amount": "0", "unregister": True}, 1)
    # the exchange's own account
    L.back()
    L.s.one("alice", "donation_token", {"token_id": "ta", "amount": "77"})
    L.s.keep("me", "a/ex")
    L.s.snap("own")
    for x in ("", "+1", "-1"):
        L.s.restore("own", "lim_own%s" % x)
        L.s.run("owner", "withdraw_owner_token", {"token_id": "ta", "amount": "@{me/tok/ta%s}" % x}, 1)
    for x in ("", "+1", "-1"):
        L.back()
        L.learn_view("mft_balance_of", {"token_id": ":0", "account_id": "ex"}, "fee")
        L.s.run("owner", "remove_exchange_fee_liquidity", {"pool_id": P_AB, "shares": "@{fee%s}" % x, "min_amounts": ["0", "0"]}, 1)
    # the value of the shares the rescue call may reach
    for x in ("", "+1"):
        L.back()
        L.s.put(c="mint", tok="ta", who="ex", amount="1000")
        L.s.run("owner", "retrieve_unmanaged_token", {"token_id": "odd", "amount": "1" + x.strip("+")}, 1)


@case("C12 C03 C11")
def shares_all(L):
    for p in (P_AB, P_ST, P_RT):
        for u in ("alice", "bob"):
            for x in ("", "+1", "-1"):
                L.back()
                L.s.keep("me", "p/%d" % p)
                v = "@{me/sh/%s%s}" % (u, x)
                for m, a, d in (("mft_transfer", {"token_id": ":%d" % p, "receiver_id": "alice" if u == "bob" else "bob", "amount": v}, 1),
                                ("mft_transfer_call", {"token_id": ":%d" % p, "receiver_id": "alice" if u == "bob" else "bob", "amount": v, "msg": ""}, 1),
                                ("donation_share", {"pool_id": p, "amount": v, "unregister": True}, 1),
                                ("shadow_action", {"action": "ToFarming", "pool_id": p, "amount": v, "msg": ""}, NEAR // 50),
                                ("shadow_action", {"action": "ToBurrowland", "pool_id": p, "amount": v, "msg": ""}, NEAR // 50)):
                    L.s.snap("sh")
                    L.s.run(u, m, a, d)
                    L.s.restore("sh", "lim_sh_%d" % L.k)
                    L.k += 1


@case("C11 C03")
def pledge_borders(L):
    """shares moved, removed or given while a part is pledged: what is free is known to the unit"""
    half = 10**20
    for acts in (["ToFarming"], ["ToBurrowland"], ["ToFarming", "ToBurrowland"]):
        L.back()
        L.s.keep("p0", "p/0")
        for i, a in enumerate(acts):
            L.s.run("bob", "shadow_action", {"action": a, "pool_id": P_AB, "amount": "@{p0/sh/bob-%d}" % (half * (i + 1)), "msg": ""}, NEAR // 50)
        L.s.snap("pl")
        free = half   # the largest pledge decides
        for n in (free, free + 1, free - 1):
            for m, a, d in (("mft_transfer", {"token_id": ":0", "receiver_id": "alice", "amount": str(n)}, 1), ("remove_liquidity", {"pool_id": 0, "shares": str(n), "min_amounts": ["0", "0"]}, 1),
                            ("mft_transfer_call", {"token_id": ":0", "receiver_id": "alice", "amount": str(n), "msg": ""}, 1), ("donation_share", {"pool_id": 0, "amount": str(n), "unregister": False}, 1)):
                L.s.restore("pl", "lim_pl_%d" % L.k)
                L.k += 1
                L.s.run("bob", m, a, d)
        for a in ("ToFarming", "ToBurrowland"):
            for n in ("100000000000000000000", "100000000000000000001", "200000000000000000000", "200000000000000000001", "@{p0/sh/bob}", "@{p0/sh/bob+1}", "0"):
                L.s.restore("pl", "lim_pl_%d" % L.k)
                L.k += 1
                L.s.run("bob", "shadow_action", {"action": a, "pool_id": P_AB, "amount": n, "msg": ""}, NEAR // 50)
        for a in ("FromFarming", "FromBurrowland"):
            for n in ("1", "@{p0/sh/bob-%d}" % half, "@{p0/sh/bob-%d}" % (half - 1), "@{p0/sh/bob-%d}" % (2 * half), "@{p0/sh/bob}"):
                L.s.restore("pl", "lim_pl_%d" % L.k)
                L.k += 1
                L.s.run("bob", "shadow_action", {"action": a, "pool_id": P_AB, "amount": n, "msg": ""})
        L.s.keep("bobacc", "a/bob")
        for n in ("@{p0/sh/bob-%d}" % half, "@{p0/sh/bob-%d}" % (half - 1), "@{p0/sh/bob-%d}" % (2 * half), "7"):
            L.s.restore("pl", "lim_pl_%d" % L.k)
            L.k += 1
            L.s.run("burrow", "on_burrow_liquidation", {"liquidator_account_id": "alice", "liquidation_account_id": "bob", "shadow_id": "shadow_ref_v1-0", "liquidate_share_amount": n, "min_token_amounts": ["0", "0"]})
    L.back()
    L.s.run("bob", "shadow_action", {"action": "ToBurrowland", "pool_id": P_AB, "msg": ""}, NEAR // 50)
    L.s.snap("pl")
    for i in range(3):
        L.s.restore("pl", "lim_liq_%d" % L.k)
        L.k += 1
        L.s.snap("free")
        liq = lambda m: {"liquidator_account_id": "alice", "liquidation_account_id": "bob", "shadow_id": "shadow_ref_v1-0", "liquidate_share_amount": str(10**21), "min_token_amounts": m}
        L.s.keep("a0", "a/alice")
        L.s.call("burrow", "on_burrow_liquidation", liq(["0", "0"]))
        L.s.keep("a1", "a/alice")
        L.s.restore("free", "lim_liq_%d" % L.k)
        L.k += 1
        L.s.run("burrow", "on_burrow_liquidation", liq(["@{a1/tok/%s~a0/tok/%s%s}" % (t, t, "+1" if j + 1 == i else "") for j, t in enumerate(("ta", "tb"))]))


@case("C13 C01")
def storage_all(L):
    for u in ("alice", "dave", "owner"):
        for x in ("", "+1", "-1", "-690000000000000000000"):
            L.back()
            L.learn_view("storage_balance_of", {"account_id": u}, "sb")
            L.s.run(u, "storage_withdraw", {"amount": "@{sb/available%s}" % x}, 1)
            L.learn_view("storage_balance_of", {"account_id": u}, "sb2")
            for m, a, d in (("register_tokens", {"token_ids": ["odd"]}, 1), ("mft_register", {"token_id": ":1", "account_id": "dave"}, 690000000000000000000),
                            ("mft_register", {"token_id": ":1", "account_id": "dave"}, 689999999999999999999), ("storage_deposit", {"account_id": "dave"}, NEAR // 1000 - 1), ("storage_deposit", {}, 1),
                            ("storage_deposit", {"registration_only": True}, NEAR), ("storage_withdraw", {}, 1), ("storage_withdraw", {"amount": "@{sb2/available}"}, 1), ("storage_withdraw", {"amount": "@{sb2/total}"}, 1)):
                L.s.snap("st")
                L.s.run(u, m, a, d)
                L.s.restore("st", "lim_st_%d" % L.k)
                L.k += 1
    # a stranger's first deposit
    L.learn_view("storage_balance_bounds", {}, "bd")
    for d in ("@{bd/min}", "@{bd/min-1}", "@{bd/min+1}", "@{bd/min+1480000000000000000000}"):
        for a in ({}, {"registration_only": True}, {"account_id": "ref2"}):
            L.back()
            L.s.run("ref2", "storage_deposit", a, d)
            L.s.run("ref2", "register_tokens", {"token_ids": ["ta"]}, 1)
            L.s.run("ref2", "storage_unregister", {}, 1)


@case("C05 C06 C07 C03 C04")
def reserves(L):
    """the pool's last units"""
    for p in (P_AB, P_BC, P_CW):
        a, b = POOLS[p]
        for x in ("", "-1", "-2", "+1", "%99", "%50"):
            L.back()
            L.s.keep("pool", "p/%d" % p)
            L.s.run("alice", "swap_by_output", {"actions": [actout(p, a, b, "@{pool/amounts/1%s}" % x)]}, 1)
            L.s.view("get_return_by_output", {"pool_id": p, "token_in": a, "amount_out": "@{pool/amounts/1%s}" % x, "token_out": b})
            L.s.view("get_return", {"pool_id": p, "token_in": a, "amount_in": "@{pool/amounts/0%s}" % x, "token_out": b})
            L.s.run("alice", "swap", {"actions": [act(p, a, b, "@{pool/amounts/0%s}" % x)]}, 1)
    for p in (P_ST, P_RT, P_DG, P_FI):
        m = len(POOLS[p])
        for i in range(m):
            for x in ("", "-1", "%99", "%50"):
                am = ["0"] * m
                am[i] = "@{pool/amounts/%d%s}" % (i, x)
                L.back()
                L.s.keep("pool", "p/%d" % p)
                L.s.view("predict_remove_liquidity_by_tokens", {"pool_id": p, "amounts": am})
                L.s.run("alice", "remove_liquidity_by_tokens", {"pool_id": p, "amounts": am, "max_burn_shares": str(10**38)}, 1)
                L.s.run("alice", "swap", {"actions": [act(p, POOLS[p][i], POOLS[p][(i + 1) % m], am[i])], **SK}, 1)
    # all who hold shares leave, in turn
    for p in POOLS:
        L.back()
        for u in ("bob", "alice"):
            L.learn_view("mft_balance_of", {"token_id": ":%d" % p, "account_id": u}, "me")
            L.s.snap("leave")
            for x in ("+1", "-1", "-999999", "-1000000", "-1000001", ""):
                L.s.restore("leave", "lim_leave_%d" % L.k)
                L.k += 1
                L.s.run(u, "remove_liquidity", {"pool_id": p, "shares": "@{me%s}" % x, "min_amounts": ["0"] * len(POOLS[p])}, 1)
        L.s.view("get_pool", {"pool_id": p})
        L.s.view("mft_total_supply", {"token_id": ":%d" % p})
        L.s.run("alice", "swap", {"actions": [act(p, POOLS[p][0], POOLS[p][1], 1000)], **SK}, 1)
        L.s.run("alice", "add_liquidity" if KIND[p] == "S" else "add_stable_liquidity", dict({"pool_id": p, "amounts": [str(K[t]) for t in POOLS[p]]}, **({} if KIND[p] == "S" else {"min_shares": "0"})), NEAR // 50)


def scripts(prop, groups):
    todo = [c for c in CASES if prop in c[1] or prop == "all"]
    out = []
    groups = min(groups, len(todo))
    for g in range(groups):
        s = Script()
        base(s)
        s.run("owner", "storage_deposit", {}, 20 * NEAR)
        s.run("dave", "storage_deposit", {}, NEAR)
        # a pool that has been traded: nothing is round
        for p, a, b in ((P_AB, "ta", "tb"), (P_BC, "tc", "tb"), (P_CW, "tc", "wnear"), (P_ST, "s6", "s18"), (P_RT, "li", "wnear"), (P_DG, "d6", "d24"), (P_FI, "fine", "s18")):
            s.run("bob", "swap", {"actions": [act(p, a, b, 17 * K[a] + 13)], **SK}, 1)
        s.snap("base")
        for name, tags, f in todo[g::groups]:
            L = Lim(s)
            L.nm = name
            L.back()
            f(L)
        out.append(("lim_%d" % g, s))
    return out
