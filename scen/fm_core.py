"""Directed scenarios of the farming contract: seeds (tokens and pool shares), funding, sessions, claims, withdrawals that fail, storage, roles."""
from lib import *

FM = "farm"
FUSERS = ["alice", "bob", "carol"]
FPEOPLE = FUSERS + ["dave", "owner", "other", "ex", "farm"]
FTOK = ["seed", "sed2", "rew", "rew2", "ta", "tb"]
T0 = 1700000000
E6 = 10**6
ALL = []


def scenario(f):
    ALL.append(f)
    return f


def stake(s, u, n, tok="seed", msg=""):
    s.deposit(u, tok, n, msg, to=FM)


def share(s, u, n, pool=0, msg=""):
    """pool shares sent by mft_transfer_call of the exchange"""
    s.run(u, "mft_transfer_call", {"token_id": ":%d" % pool, "receiver_id": FM, "amount": str(n), "msg": msg}, 1)


def fund(s, farm, n, tok="rew", u="owner"):
    s.deposit(u, tok, n, farm, to=FM)


def farm(s, seed, per, start=0, interval=60, tok="rew", low=None, d=NEAR // 10, p="owner"):
    a = {"terms": {"seed_id": seed, "reward_token": tok, "start_at": start, "reward_per_session": str(per), "session_interval": interval}}
    if low is not None:
        a["min_deposit"] = str(low)
    s.run(p, "create_simple_farm", a, d, to=FM)


def claim(s, u, f):
    s.run(u, "claim_reward_by_farm", {"farm_id": f}, to=FM)


def claims(s, u, sd):
    s.run(u, "claim_reward_by_seed", {"seed_id": sd}, to=FM)


def out(s, u, sd, n, drain=True):
    s.one(u, "withdraw_seed", {"seed_id": sd, "amount": str(n)}, to=FM)
    if drain:
        s.drain()


def take(s, u, tok="rew", n=None, drain=True):
    s.one(u, "withdraw_reward", {"token_id": tok, **({} if n is None else {"amount": str(n)})}, to=FM)
    if drain:
        s.drain()


def look(s, u="alice", f="seed#0", sd="seed"):
    v = lambda m, a: s.view(m, a, to=FM)
    v("get_number_of_farms", {})
    v("get_number_of_outdated_farms", {})
    v("get_farm", {"farm_id": f})
    v("get_outdated_farm", {"farm_id": f})
    v("list_farms_by_seed", {"seed_id": sd})
    v("get_reward", {"account_id": u, "token_id": "rew"})
    v("get_seed_info", {"seed_id": sd})
    v("list_seeds", {"from_index": 0, "limit": 100})
    v("storage_balance_of", {"account_id": u})
    v("storage_balance_bounds", {})
    v("get_unclaimed_reward", {"account_id": u, "farm_id": f})
    v("get_user_rps", {"account_id": u, "farm_id": f})
    v("list_rewards", {"account_id": u})
    v("list_user_seeds", {"account_id": u})
    v("get_user_storage_state", {"account_id": u})
    v("get_metadata", {})
    for m in ("list_farms", "list_outdated_farms", "list_seeds", "list_seeds_info", "list_rewards_info"):
        v(m, {"from_index": 0, "limit": 100})
        s.pages(m, 2 if m == "list_farms" else 1, to=FM)


def base(s, **code):
    led = {t: {u: str(10**6 * E24) for u in FUSERS + ["dave", "owner"]} for t in FTOK}
    s.put(c="reset", sc="fbase", watch=FPEOPLE, tokens=FTOK, ledger=led, now=str(T0 * 10**9), farming={"owner_id": "owner"},
          exchange=dict(owner_id="owner", boost_farm_id="bfarm", burrowland_id="burrow", exchange_fee=5, referral_fee=5), **code)
    s.put(c="light", v=True)
    for u in FUSERS:
        s.run(u, "storage_deposit", {}, NEAR)
        s.run(u, "storage_deposit", {}, NEAR, to=FM)
        s.deposit(u, "ta", 1000 * E18)
        s.deposit(u, "tb", 1000 * E18)
    s.one("owner", "extend_whitelisted_tokens", {"tokens": ["ta", "tb"]})
    for u in FUSERS:
        for t in ("ta", "tb"):
            s.deposit(u, t, 1000 * E18)
    s.run("alice", "add_simple_pool", {"tokens": ["ta", "tb"], "fee": 25}, NEAR // 10)
    for u in FUSERS:
        s.run(u, "add_liquidity", {"pool_id": 0, "amounts": [str(100 * E18)] * 2}, NEAR // 10)
    s.run("owner", "mft_register", {"token_id": ":0", "account_id": FM}, NEAR // 10)
    farm(s, "seed", 7 * E18 + 3)
    farm(s, "seed", 10**15 + 7, T0 + 1000, 17, "rew2")
    farm(s, "ex@0", 3 * E18, T0, 100, "rew")


@scenario
def terms(s):
    look(s)
    farm(s, "sed2", E18, d=1)
    farm(s, "sed2", E18, p="alice")
    farm(s, "a@b@c", E18)
    farm(s, "sed2", E18, low=E6)
    farm(s, "sed2", 5, T0 + 10**6, 3600, "rew2", low=77)
    farm(s, "ex@1", E18, low=1)
    s.run("alice", "modify_seed_min_deposit", {"seed_id": "sed2", "min_deposit": "5"}, to=FM)
    s.run("owner", "modify_seed_min_deposit", {"seed_id": "sed2", "min_deposit": "5"}, to=FM)
    s.run("owner", "modify_seed_min_deposit", {"seed_id": "nope", "min_deposit": "5"}, to=FM)
    stake(s, "alice", 4, "sed2")
    stake(s, "alice", 5, "sed2")
    stake(s, "alice", E18 - 1)
    stake(s, "alice", E18)
    stake(s, "dave", E18)
    stake(s, "alice", E18, "rew")
    look(s, sd="sed2", f="sed2#0")
    s.run("owner", "set_owner", {"owner_id": "other"}, to=FM)
    farm(s, "sed2", E18)
    farm(s, "sed2", E18, p="other")
    s.ok("owner", "pause_contract", to=FM)
    s.ok("other", "pause_contract", to=FM)
    look(s)


@scenario
def funding(s):
    fund(s, "seed#0", 100 * E18)                   # starts now
    fund(s, "seed#0", 100 * E18, "rew2")           # wrong token
    fund(s, "seed#9", 100 * E18)
    fund(s, "nonsense", 100 * E18)
    s.deposit("alice", "rew", E18, "", to=FM)      # not a seed
    stake(s, "alice", 10 * E18)
    s.secs(59)
    look(s)
    s.secs(1)
    look(s)
    claim(s, "alice", "seed#0")
    s.secs(60)
    fund(s, "seed#0", 50 * E18, u="bob")           # by anyone, while running
    s.secs(60 * 7)
    claim(s, "alice", "seed#0")
    s.secs(60 * 20)
    look(s)                                        # over, not yet noticed
    fund(s, "seed#0", 50 * E18)                    # too late
    claim(s, "alice", "seed#0")
    look(s)
    fund(s, "seed#0", 50 * E18)
    take(s, "alice")
    fund(s, "seed#1", 10**17, "rew2")              # before its start
    s.secs(5000)
    claims(s, "alice", "seed")
    take(s, "alice", "rew2", 5)
    take(s, "alice", "rew2")


@scenario
def sharing(s):
    """three farmers come and go; every round is shared by stake"""
    fund(s, "seed#0", 1000 * E18)
    stake(s, "alice", 3 * E18 + 1)
    s.secs(60)
    stake(s, "bob", 5 * E18 + 7)
    s.secs(61)
    claim(s, "alice", "seed#0")
    s.secs(125)
    stake(s, "carol", 11 * E18 + 13)
    s.secs(31)
    out(s, "bob", "seed", 2 * E18 + 1)
    s.secs(600)
    for u in FUSERS:
        claim(s, u, "seed#0")
        look(s, u)
    claim(s, "bob", "seed#0")                      # again, same round
    s.secs(60)
    out(s, "alice", "seed", 3 * E18 + 1)
    s.secs(60)
    stake(s, "alice", E18)
    s.secs(60)
    claims(s, "alice", "seed")
    claims(s, "bob", "seed")
    claims(s, "carol", "seed")
    for u in FUSERS:
        take(s, u)
    for u in FUSERS:
        take(s, u)
    out(s, "alice", "seed", E18 + 1)
    out(s, "alice", "seed", E18)
    out(s, "alice", "seed", 1)
    out(s, "bob", "sed2", 1)
    s.secs(10**6)
    for u in ("carol", "bob"):
        claims(s, u, "seed")
        take(s, u)
    look(s)


@scenario
def nobody(s):
    """sessions without stake: nothing for later stakers from them"""
    fund(s, "seed#0", 100 * E18)
    s.secs(180)
    stake(s, "alice", 2 * E18)
    look(s)
    s.secs(60)
    claim(s, "alice", "seed#0")
    out(s, "alice", "seed", 2 * E18)
    s.secs(240)
    stake(s, "bob", E18)
    s.secs(60)
    claim(s, "bob", "seed#0")
    look(s, "bob")
    out(s, "bob", "seed", E18)
    s.secs(10**5)
    claim(s, "carol", "seed#0")
    look(s)
    fund(s, "seed#0", E18)


@scenario
def no_stake(s):
    """a farmer without stake has claimed before the reward per seed starts anew"""
    fund(s, "seed#0", 1000 * E18)
    stake(s, "alice", 2 * E18)
    s.secs(600)
    claim(s, "bob", "seed#0")                      # no stake: nothing, but known to the farm
    look(s, "bob")
    claims(s, "bob", "seed")
    s.secs(60)
    out(s, "alice", "seed", 2 * E18)
    s.secs(120)
    claim(s, "carol", "seed#0")                    # nobody staked: starts anew
    claim(s, "bob", "seed#0")
    stake(s, "bob", 3 * E18)
    s.secs(60)
    claim(s, "bob", "seed#0")
    look(s, "bob")
    out(s, "bob", "seed", E18)


@scenario
def no_stake_in_flight(s):
    """the withdrawn stake comes back when the reward per seed has started anew and the farmer looked in between"""
    fund(s, "seed#0", 1000 * E18)
    stake(s, "alice", 2 * E18)
    stake(s, "bob", 2 * E18)
    s.secs(600)
    out(s, "alice", "seed", 2 * E18, drain=False)
    claim(s, "alice", "seed#0")
    s.secs(60)
    s.block("seed", "alice")
    out(s, "bob", "seed", 2 * E18, drain=False)
    s.exec({"to": "seed", "m": "ft_transfer"})
    s.exec({"to": "seed", "m": "ft_transfer"})
    s.secs(120)
    claim(s, "carol", "seed#0")
    s.drain()
    look(s)
    s.secs(60)
    claim(s, "alice", "seed#0")


@scenario
def fails(s):
    fund(s, "seed#0", 1000 * E18)
    stake(s, "alice", 2 * E18)
    stake(s, "bob", E18)
    s.secs(120)
    s.block("seed", "alice")
    out(s, "alice", "seed", E18)
    out(s, "alice", "seed", 2 * E18)
    s.unblock("seed", "alice")
    claim(s, "alice", "seed#0")
    s.block("rew", "alice")
    take(s, "alice", n=E18)
    take(s, "alice")
    s.unblock("rew", "alice")
    # in flight while others act
    out(s, "alice", "seed", E18, drain=False)
    s.secs(60)
    claim(s, "bob", "seed#0")
    stake(s, "carol", E18)
    s.exec({"to": "seed"}, out="fail")
    s.secs(60)
    s.drain()
    claim(s, "alice", "seed#0")
    take(s, "alice", n=E18, drain=False)
    take(s, "alice", drain=False)
    s.exec({"to": "rew"}, out="fail")
    s.secs(60)
    claim(s, "alice", "seed#0")
    s.drain()
    take(s, "alice", n=E18, drain=False)
    s.exec({"to": "rew"}, out="fail")
    s.drain()
    take(s, "alice", n=10**30)
    take(s, "alice", "rew2")
    take(s, "carol", n=0)
    out(s, "alice", "seed", 0)
    out(s, "bob", "seed", 0)


@scenario
def leave_in_flight(s):
    """a farmer unregisters while his last tokens are on their way, and they come back"""
    fund(s, "seed#0", 1000 * E18)
    stake(s, "alice", 2 * E18)
    s.secs(120)
    out(s, "alice", "seed", 2 * E18, drain=False)
    take(s, "alice", drain=False)
    s.ok("alice", "storage_unregister", {}, to=FM) if False else s.one("alice", "storage_unregister", {}, to=FM)
    s.exec({"to": "seed"}, out="fail")
    s.exec({"to": "rew"}, out="fail")
    s.drain()
    look(s)
    s.run("alice", "storage_deposit", {}, NEAR, to=FM)
    take(s, "alice")
    out(s, "alice", "seed", 2 * E18)
    s.ok("alice", "storage_unregister", {}, to=FM)
    look(s)


@scenario
def shares(s):
    fund(s, "ex@0#0", 100 * E18)
    share(s, "alice", 5 * E18)
    share(s, "alice", E18 - 1)
    share(s, "bob", 7 * E18)
    share(s, "alice", 5 * E18, msg="x")
    share(s, "dave", 5 * E18)
    s.secs(500)
    claim(s, "alice", "ex@0#0")
    out(s, "alice", "ex@0", 2 * E18)
    out(s, "alice", "ex@0", 3 * E18, drain=False)
    s.secs(100)
    s.exec({"m": "mft_transfer"}, out="fail")
    s.drain()
    claims(s, "alice", "ex@0")
    claims(s, "bob", "ex@0")
    out(s, "bob", "ex@0", 8 * E18)
    out(s, "bob", "ex@0", 7 * E18)
    out(s, "alice", "ex@0", 3 * E18)
    # called directly, not by the exchange
    for t in (":0", "ex@0", ":x", "0"):
        s.run("dave", "mft_on_transfer", {"token_id": t, "sender_id": "alice", "amount": str(E18), "msg": ""}, to=FM)
    s.run("dave", "ft_on_transfer", {"sender_id": "alice", "amount": str(E18), "msg": ""}, to=FM)
    s.run("dave", "ft_on_transfer", {"sender_id": "alice", "amount": str(E18), "msg": "seed#0"}, to=FM)
    for m in ("callback_post_withdraw_ft_seed", "callback_post_withdraw_mft_seed"):
        s.run("alice", m, {"seed_id": "seed", "sender_id": "alice", "amount": str(E18)}, to=FM)
    s.run("alice", "callback_post_withdraw_reward", {"token_id": "rew", "sender_id": "alice", "amount": str(E18)}, to=FM)
    for pr in ("fail", {"ok": None}):                # as the sequel of a promise of the caller's own
        for m in ("callback_post_withdraw_ft_seed", "callback_post_withdraw_mft_seed"):
            s.run("alice", m, {"seed_id": "seed", "sender_id": "alice", "amount": str(E18)}, to=FM, pr=[pr])
        s.run("alice", "callback_post_withdraw_reward", {"token_id": "rew", "sender_id": "alice", "amount": str(E18)}, to=FM, pr=[pr])
    look(s, f="ex@0#0", sd="ex@0")


@scenario
def storage(s):
    cost = 1852 * 10**19
    d = lambda p, a, n: s.run(p, "storage_deposit", a, n, to=FM)
    d("dave", {}, cost - 1)
    d("dave", {}, cost)
    d("dave", {"registration_only": True}, cost)
    d("dave", {}, 5)
    d("other", {"account_id": "owner", "registration_only": True}, NEAR)
    d("other", {"account_id": "owner"}, 3)
    d("other", {"account_id": "other", "registration_only": True}, cost)
    look(s, "dave")
    s.ok("dave", "storage_withdraw", {"amount": str(cost)}, to=FM)
    s.ok("dave", "storage_withdraw", {}, to=FM)
    s.ok("dave", "storage_withdraw", {}, to=FM)
    s.ok("nobody", "storage_withdraw", {}, to=FM)
    # no room for a stake now
    stake(s, "dave", E18)
    fund(s, "seed#0", 100 * E18)
    claim(s, "dave", "seed#0")
    d("dave", {}, cost)
    stake(s, "dave", E18)
    s.secs(60)
    s.ok("dave", "storage_withdraw", {}, to=FM)
    claim(s, "dave", "seed#0")
    claims(s, "dave", "seed")
    out(s, "dave", "seed", 5)
    d("dave", {}, 1)
    d("dave", {}, NEAR // 100)
    claim(s, "dave", "seed#0")
    s.ok("dave", "storage_unregister", {}, to=FM)
    s.ok("dave", "storage_unregister", {"force": True}, to=FM)
    out(s, "dave", "seed", E18 - 5)
    s.ok("dave", "storage_unregister", {}, to=FM)
    out(s, "dave", "seed", E18)
    s.ok("dave", "storage_unregister", {}, to=FM)
    take(s, "dave")
    s.ok("dave", "storage_unregister", {}, to=FM)
    s.ok("dave", "storage_unregister", {}, to=FM)
    look(s, "dave")


@scenario
def exact_reward(s):
    """the whole reward taken by its amount: nothing is left behind"""
    fund(s, "seed#0", 100 * E18)
    stake(s, "alice", 2 * E18)
    s.secs(60)
    claim(s, "alice", "seed#0")
    take(s, "alice", n=7 * E18 + 3)
    out(s, "alice", "seed", 2 * E18)
    s.ok("alice", "storage_unregister", {}, to=FM)
    look(s)


@scenario
def clean(s):
    fund(s, "seed#0", 20 * E18)
    stake(s, "alice", 2 * E18)
    stake(s, "bob", E18)
    f = lambda x, p="owner": s.run(p, "force_clean_farm", {"farm_id": x}, to=FM)
    f("seed#0")
    f("seed#1")
    f("seed#0", "alice")
    s.secs(60)
    claim(s, "alice", "seed#0")
    s.secs(180)
    look(s)
    s.run("alice", "remove_user_rps_by_farm", {"farm_id": "seed#0"}, to=FM)
    f("seed#0")
    f("seed#0")
    f("nope")
    f("nope#1")
    look(s)
    s.run("alice", "remove_user_rps_by_farm", {"farm_id": "seed#0"}, to=FM)
    s.run("bob", "remove_user_rps_by_farm", {"farm_id": "seed#0"}, to=FM)
    s.run("bob", "remove_user_rps_by_farm", {"farm_id": "seed#1"}, to=FM)
    s.run("dave", "remove_user_rps_by_farm", {"farm_id": "seed#0"}, to=FM)
    s.run("bob", "remove_user_rps_by_farm", {"farm_id": "nope#0"}, to=FM)
    claim(s, "alice", "seed#0")
    claims(s, "bob", "seed")
    fund(s, "seed#0", 20 * E18)
    farm(s, "seed", E18)                           # a new number
    fund(s, "seed#2", 5 * E18)
    s.secs(600)
    for u in ("bob", "alice"):
        claims(s, u, "seed")
        take(s, u)
    f("seed#2")
    out(s, "bob", "seed", E18)
    out(s, "alice", "seed", 2 * E18)
    look(s, f="seed#2")


@scenario
def paused(s):
    fund(s, "seed#0", 100 * E18)
    stake(s, "alice", 2 * E18)
    s.secs(60)
    claim(s, "alice", "seed#0")
    out(s, "alice", "seed", E18, drain=False)
    take(s, "alice", n=E18, drain=False)
    s.ok("alice", "pause_contract", to=FM)
    s.run("owner", "pause_contract", {}, to=FM)
    s.one("owner", "pause_contract", to=FM)
    s.one("owner", "pause_contract", to=FM)
    s.exec({"to": "seed"}, out="fail")
    s.exec({"to": "rew"}, out="fail")
    s.drain()
    s.secs(60)
    for u in ("alice", "bob"):
        stake(s, u, 2 * E18)
        share(s, u, 2 * E18)
        claim(s, u, "seed#0")
        claims(s, u, "seed")
        take(s, u)
        out(s, u, "seed", E18)
        s.run(u, "storage_deposit", {}, NEAR, to=FM)
        s.ok(u, "storage_withdraw", {}, to=FM)
        s.ok(u, "storage_unregister", {}, to=FM)
        s.run(u, "remove_user_rps_by_farm", {"farm_id": "seed#0"}, to=FM)
    fund(s, "seed#0", 100 * E18)
    look(s)
    farm(s, "seed", E18)
    s.run("owner", "force_clean_farm", {"farm_id": "seed#0"}, to=FM)
    s.run("alice", "migrate", {}, to=FM)
    s.run("farm", "migrate", {}, to=FM)
    s.ok("alice", "resume_contract", to=FM)
    s.ok("owner", "resume_contract", to=FM)
    s.ok("owner", "resume_contract", to=FM)
    claims(s, "alice", "seed")
    take(s, "alice")
    out(s, "alice", "seed", 2 * E18)
    look(s)


@scenario
def tail(s):
    """the last round is not full; amounts that do not divide"""
    farm(s, "sed2", 1000, 0, 7, low=1)
    fund(s, "sed2#0", 3333)
    stake(s, "alice", 3, "sed2")
    stake(s, "bob", 7, "sed2")
    s.secs(7)
    look(s, f="sed2#0", sd="sed2")
    s.secs(16)
    claim(s, "bob", "sed2#0")
    s.secs(7)
    look(s, f="sed2#0", sd="sed2")
    claim(s, "alice", "sed2#0")
    claim(s, "bob", "sed2#0")
    look(s, f="sed2#0", sd="sed2")
    take(s, "alice")
    take(s, "bob")
    # large stakes, small rewards
    farm(s, "sed2", 1, 0, 1)
    fund(s, "sed2#1", 100)
    stake(s, "carol", 10**29, "sed2")
    s.secs(5)
    claims(s, "carol", "sed2")
    s.secs(50)
    claims(s, "carol", "sed2")
    claims(s, "alice", "sed2")
    look(s, "carol", f="sed2#1", sd="sed2")


@scenario
def late(s):
    """funded after the start: the rounds before are due at once; start in the future"""
    farm(s, "seed", E18, T0 - 500, 50)
    stake(s, "alice", E18)
    fund(s, "seed#2", 15 * E18)
    claim(s, "alice", "seed#2")
    s.secs(100)
    stake(s, "bob", 3 * E18)
    claim(s, "alice", "seed#2")
    s.secs(400)
    claims(s, "alice", "seed")
    claims(s, "bob", "seed")
    farm(s, "seed", E18, T0 + 100000, 50)
    fund(s, "seed#3", 2 * E18 + 5)
    s.secs(99)
    claims(s, "alice", "seed")
    s.secs(100000 - 599 - 1)
    claims(s, "alice", "seed")
    s.secs(1)
    claims(s, "alice", "seed")
    s.secs(50)
    claims(s, "alice", "seed")
    fund(s, "seed#3", 2 * E18 + 5)
    s.secs(5000)
    claims(s, "bob", "seed")
    claims(s, "alice", "seed")
    fund(s, "seed#3", 1)
    look(s, f="seed#3")


@scenario
def again(s):
    """a farmer unregisters and registers again: what he left behind does not hold his stake"""
    fund(s, "seed#0", 1000 * E18)
    stake(s, "alice", 2 * E18)
    s.secs(60)
    claim(s, "bob", "seed#0")                      # without stake
    s.ok("bob", "storage_unregister", {}, to=FM)
    s.run("bob", "storage_deposit", {}, NEAR, to=FM)
    look(s, "bob")
    stake(s, "bob", 3 * E18)
    s.secs(60)
    claim(s, "bob", "seed#0")
    look(s, "bob")
    out(s, "bob", "seed", E18)
    out(s, "bob", "seed", 2 * E18)
    take(s, "bob")
    s.ok("bob", "storage_unregister", {}, to=FM)
    # a cleaned farm
    farm(s, "seed", E18, 0, 1)
    fund(s, "seed#2", E18)
    s.secs(5)
    claims(s, "alice", "seed")
    s.run("owner", "force_clean_farm", {"farm_id": "seed#2"}, to=FM)
    out(s, "alice", "seed", 2 * E18)
    take(s, "alice")
    s.ok("alice", "storage_unregister", {}, to=FM)
    s.run("alice", "storage_deposit", {}, NEAR, to=FM)
    s.run("alice", "remove_user_rps_by_farm", {"farm_id": "seed#2"}, to=FM)
    stake(s, "alice", 2 * E18)
    s.secs(60)
    out(s, "alice", "seed", 2 * E18)
    look(s)
