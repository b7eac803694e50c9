"""The farming contract upgraded from release 1.1.0, or from the data of 1.0.4: its state goes on in the current code."""
from fm_core import *
import fm_core, fm_mat

ALL = []
RELEASE = "ref_farming_release.wasm"
STATE = "5354415445"


def scenario(f):
    ALL.append(f)
    return f


def renew(s, way, twin=False):
    if twin:  # the same history under the current code
        return
    if way == 0:
        for p in ("alice", "farm"):
            s.run(p, "upgrade", to=FM, code="farm")
        s.run("owner", "upgrade", to=FM, code="farm")
    else:  # the data as 1.0.4 kept it: the older variant, without the running state
        s.put(c="store", who=FM, k=STATE, v="00", at=0, cut=1)
        s.put(c="deploy", who=FM, code="farm")
        s.run("farm", "migrate", {}, to=FM)


def base(s, way=0, twin=False):
    """a longer history under the release: partial claims, an ended and a cleaned farm, rewards kept and taken, a farmer gone"""
    fm_mat.begin(s, **({} if twin else {"farmcode": RELEASE}))
    farm(s, "sed2", 11 * E18 + 7, T0, 30, "rew2", low=E6)
    fund(s, "sed2#0", 70 * E18, "rew2")
    stake(s, "bob", 9 * E6, "sed2")
    stake(s, "carol", 2 * E6 + 1, "sed2")
    s.secs(95)
    claim(s, "bob", "sed2#0")
    out(s, "carol", "sed2", E6)
    s.secs(400)
    s.run("bob", "claim_reward_by_farm", {"farm_id": "sed2#0"}, to=FM)
    s.run("owner", "modify_seed_min_deposit", {"seed_id": "sed2", "min_deposit": "77"}, to=FM)
    farm(s, "sed2", 5 * E18, 0, 60, "rew")
    take(s, "alice")
    renew(s, way, twin)


@scenario
def roles(s):
    for p in ("alice", "farm", "ex"):
        s.run(p, "upgrade", to=FM, code="farm")
        s.run(p, "migrate", {}, to=FM)
    s.run("owner", "upgrade", to=FM, code="farm")
    s.run("owner", "set_owner", {"owner_id": "dave"}, to=FM)
    s.run("owner", "upgrade", to=FM, code="farm")
    s.run("dave", "upgrade", to=FM, code="farm")
    s.run("dave", "pause_contract", {}, 1, to=FM)
    s.run("dave", "upgrade", to=FM, code="farm")
    stake(s, "alice", E18)
    s.run("dave", "resume_contract", {}, 1, to=FM)
    stake(s, "alice", E18)


@scenario
def harvest(s):
    for u in FUSERS:
        look(s, u)
        look(s, u, "sed2#0", "sed2")
        claims(s, u, "seed")
        claims(s, u, "sed2")
        claims(s, u, "ex@0")
        take(s, u, "rew")
        take(s, u, "rew2", 0)
        look(s, u)


@scenario
def leave(s):
    for u, sd, n in (("alice", "seed", 6 * E18 + 5), ("bob", "seed", 2 * E18), ("bob", "sed2", 9 * E6), ("carol", "sed2", E6 + 1), ("alice", "ex@0", 3 * E18)):
        out(s, u, sd, n + 1)
        out(s, u, sd, n)
        look(s, u, sd + "#0", sd)
    for u in FUSERS:
        take(s, u, "rew")
        take(s, u, "rew2")
        s.run(u, "storage_unregister", {}, 1, to=FM)


@scenario
def go_on(s):
    fund(s, "seed#0", 50 * E18)
    fund(s, "sed2#1", 50 * E18)
    for k in range(4):
        s.secs(61)
        stake(s, "carol", 3 * E18 + k)
        stake(s, "bob", 1000, "sed2")
        claims(s, "alice", "seed")
        claims(s, "carol", "seed")
        claims(s, "bob", "sed2")
    s.secs(10**4)
    s.run("owner", "force_clean_farm", {"farm_id": "sed2#0"}, to=FM)
    s.run("owner", "force_clean_farm", {"farm_id": "seed#0"}, to=FM)
    for u in FUSERS:
        claims(s, u, "seed")
        claims(s, u, "sed2")
        s.run(u, "remove_user_rps_by_farm", {"farm_id": "sed2#0"}, to=FM)
    farm(s, "seed", 10**18, 0, 60)
    look(s, "bob", "sed2#0", "sed2")


@scenario
def comes_back(s):
    for u, sd, n in (("alice", "seed", E18), ("bob", "sed2", 5 * E6), ("alice", "ex@0", E18)):
        out(s, u, sd, n, False)
        s.exec({}, out="fail")
        s.drain()
        look(s, u, sd + "#0", sd)
    s.one("bob", "withdraw_reward", {"token_id": "rew"}, to=FM)
    s.exec({}, out="fail")
    s.drain()
    look(s, "bob")
