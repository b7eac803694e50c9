"""Products of what a trade or a liquidity call depends on: the kind and the depth of the pool, the size of the amount against the reserves,
fees, admin fee, the referral's standing, the time on a ramp and the way the call comes in. Drawn at random (seeded), each from a fresh state."""
import random
from lib import *
from ex_tok import ex_msg, zap, add

E6 = 10**6
# shallow and lopsided pools beside those of the base state: (id, kind, tokens, units of 1e-6 of each put in)
MORE = [(8, "S", ["ta", "tb"], (3, 5)), (9, "S", ["tb", "tc"], (2 * E6, 7)), (10, "C", ["s6", "s18"], (20000, 30000)), (11, "R", ["st", "wnear"], (9000, 2 * E6)),
        (12, "D", ["d24", "d6"], (E6, 9000)), (13, "C", ["s8", "s6", "s18", "fine"], (9 * E6, 20000, E6, 3 * E6)), (14, "C", ["s18", "s6"], (2000 * E6, 2000))]
ALL = {**POOLS, **{p: t for p, k, t, m in MORE}}
WHAT = {**KIND, P_RT: "R", P_DG: "D", **{p: k for p, k, t, m in MORE}}
CURVED = [p for p in ALL if WHAT[p] != "S"]
SK = {"skip_degen_price_sync": True}
IDS = {"S": "add_simple_pool", "C": "add_stable_swap_pool", "R": "add_rated_swap_pool", "D": "add_degen_swap_pool"}


def ground(s):
    base(s)
    s.run("owner", "storage_deposit", {}, 20 * NEAR)
    for p, k, ts, m in MORE:
        if k == "S":
            s.run("alice", IDS[k], {"tokens": ts, "fee": 30}, NEAR // 10)
        else:
            s.run("owner", IDS[k], {"tokens": ts, "decimals": [DEC[t] for t in ts], "fee": 20, "amp_factor": 10 * p}, NEAR // 10)
        am = [str(unit(t) * n // E6) for t, n in zip(ts, m)]
        s.run("alice", "add_liquidity" if k == "S" else "add_stable_liquidity", dict({"pool_id": p, "amounts": am}, **({} if k == "S" else {"min_shares": "0"})), NEAR // 50)
        s.run("bob", "add_liquidity" if k == "S" else "add_stable_liquidity", dict({"pool_id": p, "amounts": am}, **({} if k == "S" else {"min_shares": "0"})), NEAR // 50)


class Case:
    def __init__(self, s, r, prop):
        self.s, self.r, self.prop = s, r, prop

    def pool(self, of=None):
        ps = of or list(ALL)
        want = {"C05": "S", "C06": "C", "C07": "RD", "C18": "RD", "C17": "CRD"}.get(self.prop)
        if want and self.r.random() < 0.7:
            ps = [p for p in ps if WHAT[p] in want] or ps
        return self.r.choice(ps)

    def part(self, p, i):
        """some part of the reserve, or a round trifle"""
        r = self.r
        x = r.random()
        if x < 0.1:
            return str(r.choice([0, 1, 2, 9, 10**6]))
        if x < 0.25:
            return "@{p%d/amounts/%d%%%d}" % (p, i, r.choice([97, 99, 100, 101, 200]))
        if x < 0.35:
            return "@{p%d/amounts/%d%%%d}" % (p, i, 10 ** r.randrange(3, 10 if WHAT[p] == "S" else 6))
        return "@{p%d/amounts/%d%%%d}" % (p, i, r.choice([1, 2, 5, 10, 30, 60, 90]))

    def look(self, p):
        self.s.keep("p%d" % p, "p/%d" % p)

    def swap_act(self, p=None, tin=None):
        r = self.r
        p = p if p is not None else self.pool([q for q in ALL if tin is None or tin in ALL[q]])
        a = tin or r.choice(ALL[p])
        b = r.choice([t for t in ALL[p] if t != a])
        self.look(p)
        return act(p, a, b, self.part(p, ALL[p].index(a))), a, b

    def fees(self):
        s, r = self.s, self.r
        o = lambda m, a: s.one("owner", m, a)
        if r.random() < 0.7:
            o("modify_admin_fee", {"admin_fee_bps": r.choice([0, 1, 5, 2000, 2000, 8000, 9999])})
        if r.random() < 0.75:
            o("insert_referral", {"referral_id": r.choice(["ref1", "ref1", "bob", "ex"]), "fee_bps": r.choice([1, 2500, 5000, 9999])})

    def place(self, p):
        """the referral may hold a place in the pool, or not"""
        if self.r.random() < 0.55:
            self.s.run("alice", "mft_register", {"token_id": ":%d" % p, "account_id": self.r.choice(["ref1", "ref1", "bob"])}, NEAR // 50)
        if self.r.random() < 0.4:
            self.s.one("owner", "modify_total_fee", {"pool_id": p, "total_fee": self.r.choice([0, 1, 30, 500, 5000, 9999])})
        if WHAT[p] != "S" and self.r.random() < (0.8 if self.prop == "C17" else 0.2):
            self.s.one("owner", "stable_swap_ramp_amp", {"pool_id": p, "future_amp_factor": self.r.choice([60, 150, 300, 900]), "future_amp_time": str(NOW0 + self.r.choice([1, 2, 3]) * 86400 * 10**9)})
            self.s.secs(self.r.choice([1, 3599, 1800, 3600]))

    def ref(self):
        x = self.r.choice([None, "ref1", "ref1", "ref1", "ref2", "bob", "ex", "nobody"])
        return {"referral_id": x} if x else {}

    def run(self):
        r, s = self.r, self.s
        self.fees()
        k = r.choice(["swap"] * 4 + ["multi", "out", "instant", "zap", "add", "add", "one_side", "remove", "take", "take", "thrice"])
        u = r.choice(["alice", "alice", "bob"])
        if k == "swap":
            x, a, b = self.swap_act()
            self.place(x["pool_id"])
            s.view("get_return", {"pool_id": x["pool_id"], "token_in": a, "amount_in": x["amount_in"], "token_out": b})
            s.run(u, r.choice(["swap", "execute_actions"]), {"actions": [x], **SK, **self.ref()}, 1)
        elif k == "multi":
            x, a, b = self.swap_act()
            acts = [x]
            for i in range(r.randrange(1, 4)):
                y, a, b = self.swap_act(tin=b)
                if r.random() < 0.7:
                    del y["amount_in"]
                acts.append(y)
            self.place(acts[-1]["pool_id"])
            s.view("predict_swap_actions", {"token_deposit": {acts[0]["token_in"]: acts[0]["amount_in"]}, "actions": acts})
            s.run(u, r.choice(["swap", "execute_actions", "execute_actions"]), {"actions": acts, **SK, **self.ref()}, 1)
        elif k == "out":
            p = self.pool([q for q in ALL if WHAT[q] == "S"])
            self.look(p)
            self.place(p)
            a, b = r.sample(ALL[p], 2)
            n = self.part(p, ALL[p].index(b))
            acts = [actout(p, a, b, n)]
            s.view("get_return_by_output", {"pool_id": p, "token_in": a, "amount_out": n, "token_out": b})
            qs = [q for q in ALL if WHAT[q] == "S" and a in ALL[q]]
            if r.random() < 0.4 and qs:
                q = r.choice(qs)
                acts.append(actout(q, r.choice([t for t in ALL[q] if t != a]), a))
            s.run(u, "swap_by_output", {"actions": acts, **self.ref()}, 1)
        elif k == "instant":
            x, a, b = self.swap_act()
            acts = [x]
            n = x["amount_in"]
            if r.random() < 0.5:
                y, a2, b2 = self.swap_act(tin=b)
                del y["amount_in"]
                acts.append(y)
            self.place(acts[-1]["pool_id"])
            s.deposit(u, a, n, ex_msg(acts, **SK, **self.ref()))
        elif k == "zap":
            x, a, b = self.swap_act()
            p = self.pool([q for q in ALL if b in ALL[q]])
            self.look(p)
            self.place(p)
            ams = [self.part(p, i) if t in (a, b) else r.choice(["0", "1"]) for i, t in enumerate(ALL[p])]
            one = add(p, ams, [0] * len(ams) if WHAT[p] == "S" else None, 0 if WHAT[p] != "S" else None)
            n = "@{p%d/amounts/%d%%%d}" % (x["pool_id"], ALL[x["pool_id"]].index(a), r.choice([100, 1000]))
            info = {"hot_zap_actions": [x], "add_liquidity_infos": [one], **self.ref()}
            s.view("predict_hot_zap", {"token_in": a, "amount_in": n, "account_id": u, **info})
            s.deposit(u, a, n, {**info, **SK})
        elif k in ("add", "one_side", "thrice"):
            p = self.pool(CURVED if k == "one_side" else None)
            self.look(p)
            self.place(p)
            for j in range(3 if k == "thrice" else 1):
                ams = [self.part(p, i) for i in range(len(ALL[p]))]
                if k == "one_side":
                    ams = [x if i == j else "0" for i, x in enumerate(ams)]
                if WHAT[p] == "S":
                    s.view("predict_add_simple_liquidity", {"pool_id": p, "amounts": ams})
                    s.run(u, "add_liquidity", {"pool_id": p, "amounts": ams}, NEAR // 50)
                else:
                    s.view("predict_add_stable_liquidity", {"pool_id": p, "amounts": ams})
                    s.run(u, "add_stable_liquidity", {"pool_id": p, "amounts": ams, "min_shares": "0"}, NEAR // 50)
                self.look(p)
        elif k == "remove":
            p = self.pool()
            s.keep("sh", "p/%d" % p)
            n = r.choice(["1", "977", "@{sh/sh/%s%%%d}" % (u, r.choice([1, 10, 50, 99, 100])), "@{sh/sh/%s-%d}" % (u, r.choice([0, 1, 10**6]))])
            s.view("predict_remove_liquidity", {"pool_id": p, "shares": n})
            s.run(u, "remove_liquidity", {"pool_id": p, "shares": n, "min_amounts": ["0"] * len(ALL[p])}, 1)
        elif k == "take":
            p = self.pool(CURVED)
            self.look(p)
            self.place(p)
            ams = ["@{p%d/amounts/%d%%%d}" % (p, i, r.choice([1, 2, 5, 9, 11, 20, 45])) if r.random() < 0.6 else r.choice(["0", "0", "1", "7"]) for i in range(len(ALL[p]))]
            s.view("predict_remove_liquidity_by_tokens", {"pool_id": p, "amounts": ams})
            s.run(u, "remove_liquidity_by_tokens", {"pool_id": p, "amounts": ams, "max_burn_shares": str(10**38)}, 1)
        if r.random() < 0.3:
            p = self.pool()
            s.view("get_pool_share_price", {"pool_id": p})
            s.view("get_unit_share_token_amounts", {"pool_id": p})


def script(seed, cases):
    r = random.Random("prod/" + seed)
    s = Script()
    ground(s)
    if r.random() < 0.5:
        for p in (P_AB, P_ST, P_RT, P_DG, 8, 12):
            s.one("owner", "register_pool_twap_record", {"pool_id": p})
        s.secs(901)
    s.snap("base")
    for e in range(cases):
        s.restore("base", "prod_%s_%d" % (seed, e))
        c = Case(s, r, seed.split("/")[1])
        for i in range(r.choice([1, 1, 2, 4])):
            c.run()
    return s


def scripts(seed, tier, prop):
    n, k = (2, 90) if tier == "quick" else (10, 200)
    return [("prod_%d" % i, script("%s/%s/%d" % (seed, prop, i), k)) for i in range(n)]
