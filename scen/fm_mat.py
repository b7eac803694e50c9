"""Every call of the farming contract in every kind of situation, each from the same state, and every bound at its border."""
from fm_core import *

SIT, OPS, EDGE = [], [], []


def sit(f):
    SIT.append(f)
    return f


def edge(f):
    EDGE.append(f)
    return f


def begin(s, **code):
    """two farmers with stakes and rewards in a running farm, a farm yet to start, one of pool shares"""
    base(s, **code)
    fund(s, "seed#0", 300 * E18)
    fund(s, "ex@0#0", 100 * E18)
    stake(s, "alice", 6 * E18 + 5)
    stake(s, "bob", 2 * E18)
    share(s, "alice", 3 * E18)
    s.secs(125)
    claims(s, "alice", "seed")
    claim(s, "bob", "seed#0")
    s.secs(61)


# ------------------------------------------------------------ situations
@sit
def usual(s):
    pass


@sit
def paused(s):
    s.ok("owner", "pause_contract", to=FM)


@sit
def resumed(s):
    s.ok("owner", "pause_contract", to=FM)
    s.secs(60)
    s.ok("owner", "resume_contract", to=FM)


@sit
def new_owner(s):
    s.run("owner", "set_owner", {"owner_id": "other"}, to=FM)


@sit
def no_room(s):
    """the NEAR for storage is spent to what is used"""
    for u in ("alice", "bob", "carol"):
        s.ok(u, "storage_withdraw", {}, to=FM)


@sit
def dry(s):
    """the funds are used up, nobody has noticed"""
    s.secs(60 * 100)


@sit
def ended(s):
    s.secs(60 * 100)
    claim(s, "bob", "seed#0")


@sit
def cleared(s):
    s.secs(60 * 100)
    s.run("owner", "force_clean_farm", {"farm_id": "seed#0"}, to=FM)


@sit
def reopened(s):
    """cleared, and a farm with the next number runs"""
    cleared(s)
    farm(s, "seed", E18)
    fund(s, "seed#2", 60 * E18)
    s.secs(100)


@sit
def second(s):
    """the second farm of the seed has started too"""
    fund(s, "seed#1", 10**17)
    s.secs(1400)


@sit
def deserted(s):
    """nobody stakes any more, rounds pass"""
    out(s, "alice", "seed", 6 * E18 + 5)
    out(s, "bob", "seed", 2 * E18)
    s.secs(130)


@sit
def stake_lost(s):
    """alice's stake is on its way, the answer will be a failure"""
    out(s, "alice", "seed", 6 * E18 + 5, drain=False)
    s.exec({"to": "seed", "m": "ft_transfer"}, out="fail")


@sit
def reward_lost(s):
    take(s, "alice", drain=False)
    s.exec({"to": "rew", "m": "ft_transfer"}, out="fail")


@sit
def left_early(s):
    """bob has left with everything, one transfer to him will fail"""
    out(s, "bob", "seed", 2 * E18, drain=False)
    take(s, "bob", drain=False)
    s.one("bob", "storage_unregister", {}, to=FM)
    s.exec({"to": "seed", "m": "ft_transfer"}, out="fail")


@sit
def shares_lost(s):
    out(s, "alice", "ex@0", E18, drain=False)
    s.exec({"m": "mft_transfer"}, out="fail")


@sit
def high_minimum(s):
    s.run("owner", "modify_seed_min_deposit", {"seed_id": "seed", "min_deposit": str(10 * E18)}, to=FM)


@sit
def far(s):
    """much later than anything"""
    s.secs(3 * 10**8)


# ------------------------------------------------------------ calls
def op(name, f):
    OPS.append((name, f))


for u in ("alice", "bob", "carol", "dave"):
    op("stake_" + u, lambda s, u=u: stake(s, u, 3 * E18 + 1))
    op("claims_" + u, lambda s, u=u: claims(s, u, "seed"))
    op("leave_" + u, lambda s, u=u: s.ok(u, "storage_unregister", {}, to=FM))
    op("take_" + u, lambda s, u=u: take(s, u))
    op("out_" + u, lambda s, u=u: out(s, u, "seed", 2 * E18))
op("claim_new", lambda s: claim(s, "carol", "seed#0"))
op("claim_second", lambda s: claim(s, "alice", "seed#1"))
op("claim_third", lambda s: claim(s, "alice", "seed#2"))
op("claim_shares", lambda s: claims(s, "alice", "ex@0"))
op("claim_nothing", lambda s: claims(s, "alice", "nope"))
op("out_part", lambda s: out(s, "alice", "seed", 5))
op("out_all", lambda s: out(s, "alice", "seed", 6 * E18 + 5))
op("out_much", lambda s: out(s, "alice", "seed", 6 * E18 + 6))
op("out_shares", lambda s: out(s, "alice", "ex@0", 3 * E18))
op("out_blocked", lambda s: (s.block("seed", "alice"), out(s, "alice", "seed", 6 * E18 + 5), s.unblock("seed", "alice")))
op("take_blocked", lambda s: (s.block("rew", "alice"), take(s, "alice"), s.unblock("rew", "alice")))
op("take_part", lambda s: take(s, "alice", n=1))
op("share", lambda s: share(s, "bob", E18))
op("share_small", lambda s: share(s, "bob", E18 - 1))
op("fund", lambda s: fund(s, "seed#0", 20 * E18))
op("fund_second", lambda s: fund(s, "seed#1", 10**17, "rew2"))
op("fund_wrong", lambda s: fund(s, "seed#1", 10**17))
op("fund_shares", lambda s: fund(s, "ex@0#0", E18, u="bob"))
op("clean", lambda s: s.run("owner", "force_clean_farm", {"farm_id": "seed#0"}, to=FM))
op("clean_other", lambda s: s.run("other", "force_clean_farm", {"farm_id": "seed#0"}, to=FM))
op("clean_shares", lambda s: s.run("owner", "force_clean_farm", {"farm_id": "ex@0#0"}, to=FM))
op("create", lambda s: farm(s, "seed", E18))
op("create_other", lambda s: farm(s, "sed2", E18, p="other", low=3))
op("minimum", lambda s: s.run("owner", "modify_seed_min_deposit", {"seed_id": "seed", "min_deposit": "1"}, to=FM))
op("remove_rps", lambda s: s.run("alice", "remove_user_rps_by_farm", {"farm_id": "seed#0"}, to=FM))
op("remove_rps_dave", lambda s: s.run("dave", "remove_user_rps_by_farm", {"farm_id": "seed#0"}, to=FM))
op("deposit", lambda s: s.run("bob", "storage_deposit", {}, 10**21, to=FM))
op("deposit_new", lambda s: s.run("dave", "storage_deposit", {"registration_only": True}, NEAR, to=FM))
op("deposit_for", lambda s: s.run("alice", "storage_deposit", {"account_id": "bob"}, 7, to=FM))
op("storage_out", lambda s: s.ok("alice", "storage_withdraw", {"amount": "1"}, to=FM))
op("storage_all", lambda s: s.ok("alice", "storage_withdraw", {}, to=FM))
op("pause", lambda s: s.ok("owner", "pause_contract", to=FM))
op("resume", lambda s: s.ok("owner", "resume_contract", to=FM))
op("pause_other", lambda s: s.ok("other", "pause_contract", to=FM))
op("owner", lambda s: s.run("owner", "set_owner", {"owner_id": "alice"}, to=FM))
for d in (0, 2):  # the wrong deposit
    for m, a in (("withdraw_seed", {"seed_id": "seed", "amount": "1"}), ("withdraw_reward", {"token_id": "rew"}), ("storage_withdraw", {}), ("storage_unregister", {}), ("pause_contract", {}), ("resume_contract", {})):
        op("%s_%d" % (m, d), lambda s, m=m, a=a, d=d: s.run("owner" if m.endswith("contract") else "alice", m, a, d, to=FM))


# ------------------------------------------------------------ borders
@edge
def minimum_stake(s):
    for low in (1, 10**6, 3 * E18):
        s.run("owner", "modify_seed_min_deposit", {"seed_id": "seed", "min_deposit": str(low)}, to=FM)
        for n in (low - 1, low, low + 1):
            if n > 0:
                stake(s, "carol", n)
    s.run("owner", "modify_seed_min_deposit", {"seed_id": "seed", "min_deposit": "0"}, to=FM)
    stake(s, "carol", 1)


@edge
def whole_stake(s):
    for sd in ("seed", "ex@0"):
        s.view("list_user_seeds", {"account_id": "alice"}, to=FM)
        s.keep("st")
        out(s, "alice", sd, "@{st/%s+1}" % sd)
        out(s, "alice", sd, "@{st/%s-1}" % sd)
        out(s, "alice", sd, 2)
        out(s, "alice", sd, 1)
        out(s, "alice", sd, 1)


@edge
def whole_reward(s):
    s.view("get_reward", {"account_id": "alice", "token_id": "rew"}, to=FM)
    s.keep("rw")
    take(s, "alice", n="@{rw+1}")
    take(s, "alice", n="@{rw-1}")
    take(s, "alice", n=2)
    take(s, "alice", n=1)
    take(s, "alice", n=1)
    claims(s, "alice", "seed")
    s.view("get_reward", {"account_id": "alice", "token_id": "rew"}, to=FM)
    s.keep("rw")
    take(s, "alice", n="@{rw}")


@edge
def storage_edge(s):
    s.run("dave", "storage_deposit", {}, NEAR // 50, to=FM)
    for u in ("alice", "dave"):
        s.view("storage_balance_of", {"account_id": u}, to=FM)
        s.keep("b")
        s.ok(u, "storage_withdraw", {"amount": "@{b/available+1}"}, to=FM)
        s.ok(u, "storage_withdraw", {"amount": "@{b/available-1}"}, to=FM)
        s.ok(u, "storage_withdraw", {"amount": "1"}, to=FM)
        s.ok(u, "storage_withdraw", {"amount": "1"}, to=FM)
        s.ok(u, "storage_withdraw", {}, to=FM)
    # exactly room for one more entry, a yocto less, more
    fund(s, "seed#1", 10**17, "rew2")
    s.secs(2000)
    one = (165 + 84) * 10**19
    for k, n in enumerate((one - 1, 1, 10**19)):
        s.run("alice", "storage_deposit", {}, n, to=FM)
        claim(s, "alice", "seed#1")
    stake(s, "dave", E18)
    s.run("dave", "storage_deposit", {}, (84 + 165 + 165) * 10**19 - 1, to=FM)
    stake(s, "dave", E18)
    s.run("dave", "storage_deposit", {}, 1, to=FM)
    stake(s, "dave", E18)


@edge
def rounds(s):
    """claims just before, at and after the turn of a round, and of the start"""
    farm(s, "sed2", 1000, T0 + 1000, 10, "rew2", low=1)
    fund(s, "sed2#0", 5005, "rew2")
    stake(s, "alice", 3, "sed2")
    stake(s, "bob", 4, "sed2")
    s.time(10**9 * (1000 - 186) - 1)                # a nanosecond before the start
    claim(s, "alice", "sed2#0")
    s.time(1)
    claim(s, "alice", "sed2#0")
    s.time(10**10 - 1)
    claim(s, "alice", "sed2#0")
    look(s, "alice", "sed2#0", "sed2")
    s.time(1)
    claim(s, "bob", "sed2#0")
    look(s, "bob", "sed2#0", "sed2")
    claim(s, "alice", "sed2#0")
    s.secs(39)
    look(s, "bob", "sed2#0", "sed2")
    s.secs(1)                                      # five rounds: 5 left
    look(s, "bob", "sed2#0", "sed2")
    fund(s, "sed2#0", 5, "rew2")
    claim(s, "bob", "sed2#0")
    s.secs(9)
    fund(s, "sed2#0", 5, "rew2")
    claim(s, "bob", "sed2#0")
    look(s, "bob", "sed2#0", "sed2")
    s.secs(1)
    fund(s, "sed2#0", 5, "rew2")
    claim(s, "alice", "sed2#0")
    look(s, "alice", "sed2#0", "sed2")
    s.run("owner", "force_clean_farm", {"farm_id": "sed2#0"}, to=FM)
    look(s, "alice", "sed2#0", "sed2")


@edge
def exact_end(s):
    """funds for a whole number of rounds, one unit less, one more"""
    for k, n in enumerate((3000, 2999, 3001, 1000, 999, 1)):
        farm(s, "sed2", 1000, 0, 10, "rew2", low=1)
        if k == 0:
            stake(s, "alice", 3, "sed2")
            stake(s, "bob", 4, "sed2")
        fund(s, "sed2#%d" % k, n, "rew2")
    for k in range(6):
        s.secs(10)
        look(s, "alice", "sed2#%d" % k, "sed2")
        if k % 2:
            claims(s, "alice", "sed2")
        for j in range(3):
            s.run("owner", "force_clean_farm", {"farm_id": "sed2#%d" % (5 - j)}, to=FM)
    claims(s, "bob", "sed2")
    for j in range(6):
        s.run("owner", "force_clean_farm", {"farm_id": "sed2#%d" % j}, to=FM)
    s.run("alice", "remove_user_rps_by_farm", {"farm_id": "sed2#1"}, to=FM)
    claims(s, "alice", "sed2")
    look(s, "alice", "sed2#1", "sed2")


@edge
def small_and_large(s):
    """one unit of reward or stake next to the largest"""
    farm(s, "sed2", 1, 0, 1, "rew2", low=1)
    farm(s, "sed2", 10**29, 0, 1, "rew", low=1)
    fund(s, "sed2#0", 1000, "rew2")
    fund(s, "sed2#1", 5 * 10**29, "rew")
    stake(s, "alice", 1, "sed2")
    s.secs(1)
    stake(s, "bob", 10**6 * E24 - 10**24, "sed2")
    s.secs(1)
    for u in ("alice", "bob"):
        claims(s, u, "sed2")
        look(s, u, "sed2#0", "sed2")
    s.secs(100)
    for u in ("bob", "alice"):
        claims(s, u, "sed2")
    out(s, "bob", "sed2", 10**6 * E24 - 10**24)
    s.secs(1)
    claims(s, "alice", "sed2")
    look(s, "alice", "sed2#1", "sed2")


@edge
def returns(s):
    """leaving and coming back with old entries, claims in between by others"""
    claims(s, "alice", "seed")
    out(s, "alice", "seed", 6 * E18 + 5)
    out(s, "alice", "ex@0", 3 * E18)
    take(s, "alice")
    s.ok("alice", "storage_unregister", {}, to=FM)
    s.secs(600)
    s.run("alice", "storage_deposit", {}, NEAR, to=FM)
    stake(s, "alice", E18)
    s.secs(60)
    claims(s, "alice", "seed")
    look(s)
    claims(s, "bob", "seed")


def scripts(groups):
    out_ = []
    for g in range(groups):
        s = Script()
        begin(s)
        s.snap("base")
        for k, f in enumerate(SIT):
            if k % groups != g:
                continue
            s.restore("base", "mat_" + f.__name__)
            f(s)
            s.snap("cond")
            for name, o in OPS:
                s.restore("cond", "mat_%s_%s" % (f.__name__, name))
                o(s)
                s.drain()
                if name.split("_")[0] in ("out", "claims", "fund", "clean"):  # and a while later
                    s.secs(60)
                    claim(s, "bob", "seed#0")
                    claims(s, "alice", "seed")
        for k, f in enumerate(EDGE):
            if k % groups != g:
                continue
            s.restore("base", "edge_" + f.__name__)
            f(s)
        out_.append(("fmat_%d" % g, s))
    return out_
