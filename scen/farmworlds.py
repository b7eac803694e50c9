"""The worlds of the farming contract that TLC explores (spec/FarmWorld.tla) and the scripts that replay its walks in the contract."""
from lib import E18, E24, NEAR, Script
from worlds import NOW0, fix, jsonline

PEOPLE = ["alice", "bob", "carol", "owner"]
WATCH = PEOPLE + ["ex", "farm"]
S = 10**9


def c(p, m, a=None, d="1", to="farm"):
    return {"p": p, "to": to, "m": m, "a": dict(a or {}), "d": str(d)}


def send(p, tok, n, msg=""):
    """tokens sent with a message: a stake, or funds of the farm it names"""
    if tok == "ex@0":
        return c(p, "mft_transfer_call", {"token_id": ":0", "receiver_id": "farm", "amount": str(n), "msg": msg}, to="ex")
    return c(p, "ft_transfer_call", {"receiver_id": "farm", "amount": str(n), "msg": msg}, to=tok)


def reg(u, n=NEAR):
    return c(u, "storage_deposit", {}, n)


def farm(seed, per, interval=60, start=0, tok="rew", low=1):
    return c("owner", "create_simple_farm", {"terms": {"seed_id": seed, "reward_token": tok, "start_at": start, "reward_per_session": str(per), "session_interval": interval}, "min_deposit": str(low)}, NEAR // 10)


def claim(u, f):
    return c(u, "claim_reward_by_farm", {"farm_id": f}, 0)


def claims(u, sd):
    return c(u, "claim_reward_by_seed", {"seed_id": sd}, 0)


def out(u, sd, n):
    return c(u, "withdraw_seed", {"seed_id": sd, "amount": str(n)})


def take(u, t, n=None):
    return c(u, "withdraw_reward", {"token_id": t, **({} if n is None else {"amount": str(n)})})


def leave(u):
    return c(u, "storage_unregister", {})


PAUSE = [c("owner", "pause_contract"), c("owner", "resume_contract")]


def world(tokens, setup, menu, calls, times, rich=10**30, shares=0):
    led = {t: {u: str(rich) for u in PEOPLE} for t in tokens}
    if shares:
        led["ex@0"] = {u: str(shares) for u in ("alice", "bob")}
    return {"tokens": tokens, "setup": setup, "menu": menu, "calls": calls, "long": 2 * calls + 3, "times": [str(t * S) for t in times], "ledger": led, "people": PEOPLE}


WORLDS = {}


def w(f):
    WORLDS[f.__name__] = f
    return f


@w
def stakes():
    """stakes come and go, transfers back fail or arrive late, accounts close in between"""
    s = [reg("alice"), reg("bob"), farm("seed", 7 * E18), send("owner", "rew", 1000 * E18, "seed#0"), send("alice", "seed", 10 * E18), send("bob", "seed", 3 * E18)]
    m = [send("alice", "seed", 5 * E18 + 1), send("bob", "seed", E18), send("carol", "seed", E18), out("alice", "seed", 10 * E18), out("alice", "seed", 4 * E18), out("bob", "seed", 3 * E18), out("bob", "seed", 3 * E18 + 1),
         out("carol", "seed", 1), out("alice", "seed", 0), claims("alice", "seed"), claim("bob", "seed#0"), take("bob", "rew"), take("alice", "rew", E18), leave("bob"), leave("alice"), reg("bob"), reg("carol"),
         c("alice", "storage_withdraw", {}), c("owner", "modify_seed_min_deposit", {"seed_id": "seed", "min_deposit": str(2 * E18)}, 0),
         c("bob", "callback_post_withdraw_ft_seed", {"seed_id": "seed", "sender_id": "bob", "amount": "5"}, 0)] + PAUSE
    return world(["seed", "rew"], s, m, 3, (60, 3601))


@w
def sessions():
    """farms of few units: rounds, shares of rounds, ends, refills, clearing, the same farmers again"""
    s = [reg("alice"), reg("bob"), farm("seed", 10, 60), farm("seed", 7, 100, NOW0 // S + 90, "rew2"), send("owner", "rew", 25, "seed#0"), send("owner", "rew2", 30, "seed#1")]
    m = [send("alice", "seed", 1), send("alice", "seed", 3), send("bob", "seed", 2), send("carol", "seed", 1), claim("alice", "seed#0"), claim("bob", "seed#1"), claims("alice", "seed"), claims("bob", "seed"),
         out("alice", "seed", 1), out("bob", "seed", 2), out("alice", "seed", 4), send("owner", "rew", 15, "seed#0"), send("owner", "rew2", 1, "seed#1"), send("owner", "rew", 15, "seed#1"),
         send("bob", "rew", 5, "seed#7"), c("owner", "force_clean_farm", {"farm_id": "seed#0"}, 0), c("owner", "force_clean_farm", {"farm_id": "seed#1"}, 0), c("bob", "force_clean_farm", {"farm_id": "seed#0"}, 0),
         c("alice", "remove_user_rps_by_farm", {"farm_id": "seed#0"}, 0), take("alice", "rew"), take("bob", "rew2", 1), farm("seed", 5, 60)]
    return world(["seed", "rew", "rew2"], s, m, 3, (1, 59, 60, 100, 190))


@w
def shares():
    """pool shares staked next to tokens; a token that is staked and a reward"""
    s = [reg("alice"), reg("bob"), farm("ex@0", 3 * E18, 100), farm("seed", 11, 60, 0, "seed"), send("owner", "rew", 100 * E18, "ex@0#0"), send("owner", "seed", 100, "seed#0")]
    m = [send("alice", "ex@0", E24 // 2), send("bob", "ex@0", E24), send("alice", "ex@0", 5), send("alice", "ex@0", 5, "ex@0#0"), out("alice", "ex@0", E24 // 2), out("bob", "ex@0", E24 // 3), out("alice", "ex@0", 5), send("alice", "seed", 9),
         send("bob", "seed", 4), out("alice", "seed", 9), out("bob", "seed", 5), claims("alice", "ex@0"), claims("bob", "seed"), take("alice", "rew"), take("bob", "seed"), take("alice", "seed", 1), leave("alice"), leave("bob"),
         reg("alice"), c("owner", "force_clean_farm", {"farm_id": "seed#0"}, 0)] + PAUSE
    return world(["seed", "rew"], s, m, 3, (60, 100, 1000), shares=E24)


@w
def payouts():
    """rewards on their way out: wrong amounts, failures, closed and reopened accounts, a paused contract, a new owner"""
    s = [reg("alice", NEAR // 50), reg("bob", NEAR // 50), farm("seed", 100, 60), farm("seed", 9, 60, 0, "rew2"), send("owner", "rew", 100000, "seed#0"), send("owner", "rew2", 900, "seed#1"), send("alice", "seed", 30), send("bob", "seed", 7)]
    m = [claims("alice", "seed"), claims("bob", "seed"), claim("alice", "seed#1"), take("alice", "rew"), take("alice", "rew", 10), take("alice", "rew2", 0), take("bob", "rew"), take("bob", "rew", 10**9), take("bob", "seed"),
         out("alice", "seed", 30), out("bob", "seed", 7), leave("alice"), leave("bob"), reg("alice", NEAR // 50), reg("bob", 10**18), c("bob", "storage_deposit", {"registration_only": True}, NEAR // 10),
         c("alice", "storage_deposit", {"account_id": "carol"}, NEAR // 50), c("alice", "storage_withdraw", {}), c("alice", "storage_withdraw", {"amount": str(10**21)}), c("owner", "set_owner", {"owner_id": "bob"}, 0),
         c("bob", "pause_contract"), c("bob", "callback_post_withdraw_reward", {"token_id": "rew", "sender_id": "bob", "amount": "5"}, 0)] + PAUSE
    return world(["seed", "rew", "rew2"], s, m, 3, (60, 600))


def script(name, walks, r):
    """setup once, then every walk from there"""
    wd = WORLDS[name]()
    s = Script()
    led = {t: wd["ledger"][t] for t in wd["tokens"]}
    tk = wd["tokens"] + ["ta", "tb"]
    for t in ("ta", "tb"):
        led[t] = {u: str(10**30) for u in PEOPLE}
    s.put(c="reset", sc=name, watch=WATCH, tokens=tk, ledger=led, now=str(NOW0), farming={"owner_id": "owner"},
          exchange=dict(owner_id="owner", boost_farm_id="bfarm", burrowland_id="burrow", exchange_fee=5, referral_fee=5))
    s.put(c="light", v=True)
    if "ex@0" in wd["ledger"]:
        s.one("owner", "extend_whitelisted_tokens", {"tokens": ["ta", "tb"]})
        for u in ("alice", "bob"):
            s.run(u, "storage_deposit", {}, NEAR)
            for t in ("ta", "tb"):
                s.deposit(u, t, 10**20)
        s.run("alice", "add_simple_pool", {"tokens": ["ta", "tb"], "fee": 25}, NEAR // 10)
        for u in ("alice", "bob"):
            s.run(u, "add_liquidity", {"pool_id": 0, "amounts": [str(10**20)] * 2}, NEAR // 10)
        s.run("owner", "mft_register", {"token_id": ":0", "account_id": "farm"}, NEAR // 10)
    for x in wd["setup"]:
        s.put(c="call", **{k: x[k] for k in ("p", "to", "m", "a", "d")})
        s.drain()
    s.snap("base")
    for k, wk in enumerate(walks):
        s.restore("base", "%s_%d" % (name, k))
        for x in wk:
            s.lines.append(fix(x))
        s.drain()
    return s


if __name__ == "__main__":
    import sys
    print(jsonline(WORLDS[sys.argv[1]]()), end="")
