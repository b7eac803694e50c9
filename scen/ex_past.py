"""The exchange upgraded from release 1.9.2: its state, and accounts stored as still earlier releases did, go on in the current code."""
import lib
from lib import *

ALL = []
RELEASE = "ref_exchange_release_v192.wasm"
ASKED = [("get_number_of_pools", {}), ("get_owner", {}), ("get_guardians", {}), ("list_referrals", {}), ("get_frozenlist_tokens", {}), ("get_whitelisted_tokens", {}),
         ("get_pools", {"from_index": 0, "limit": 9}), ("list_rated_tokens", {}), ("list_pool_twap_info_view", {}), ("metadata", {})] + \
    [(m, {"pool_id": p}) for p in range(5) for m in ("get_pool", "get_pool_volumes", "get_pool_total_shares", "get_pool_fee", "get_pool_twap_info_view", "get_stable_pool", "get_rated_pool")] + \
    [(m, {"account_id": u}) for u in ("alice", "bob", "carol", "dave", "owner", "ref1") for m in
     ("get_deposits", "get_user_whitelisted_tokens", "get_shadow_records", "get_user_storage_state", "storage_balance_of", "get_tokens_paged")] + \
    [("get_pool_shares", {"account_id": u, "pool_id": p}) for u in ("alice", "bob", "carol", "ex", "ref1") for p in range(5)] + \
    [("mft_has_registered", {"account_id": u, "token_id": ":%d" % p}) for u in ("alice", "carol", "ref1") for p in range(2)]


def scenario(f):
    ALL.append(f)
    return f


def look(s):
    for k, (m, a) in enumerate(ASKED):
        s.put(c="view", to="ex", m=m, a=a, **{"as": "past%d" % k})


def upgrade(old, twin):
    """what happens under the earlier release, at the end the owner's upgrade; old: user -> (tokens stored the old way, version of the record);
    twin: the same history under the current code, without an upgrade"""

    def run(s):
        o = lambda m, a: s.run("owner", m, a, 1)
        s.run("ref1", "storage_deposit", {}, NEAR // 10)
        o("insert_referral", {"referral_id": "ref1", "fee_bps": 2000})
        o("extend_frozenlist_tokens", {"tokens": ["li"]})
        o("register_pool_twap_record", {"pool_id": P_AB})
        o("register_pool_twap_record", {"pool_id": P_ST})
        s.run("carol", "mft_register", {"token_id": ":%d" % P_AB, "account_id": "carol"}, NEAR // 100)
        s.run("alice", "mft_transfer", {"token_id": ":%d" % P_AB, "receiver_id": "carol", "amount": str(10**22)}, 1)
        s.run("bob", "shadow_action", {"action": "ToFarming", "pool_id": P_AB, "amount": str(3 * 10**22), "msg": ""}, NEAR // 100)
        for k in range(3):
            s.ok("alice", "swap", {"actions": [act(P_AB, "ta", "tb", 7 * E18 + k)], "referral_id": "ref1"})
            s.ok("bob", "swap", {"actions": [act(P_BC, "tc", "tb", 3 * E24), act(P_AB, "tb", "ta")]})
            s.ok("alice", "swap", {"actions": [act(P_ST, "s6", "s18", 12345678)]})
            s.secs(800)
        s.run("owner", "stable_swap_ramp_amp", {"pool_id": P_ST, "future_amp_factor": 500, "future_amp_time": str(NOW0 + 3 * 86400 * 10**9)}, 1)
        o("remove_frozenlist_tokens", {"tokens": ["li"]})
        o("extend_frozenlist_tokens", {"tokens": ["d6"]})
        # withdrawals under way
        for u, t in (("alice", "ta"), ("bob", "tb"), ("carol", "ta")):
            s.one(u, "withdraw", {"token_id": t, "amount": "1234567"})
        for u, (toks, tag) in ({} if twin else old).items():
            s.put(c="age", who=u, old=toks, tag=tag)
        look(s)
        for p in ("alice", "guard", "ex", "owner"):
            if not twin:
                s.call(p, "upgrade", code="ex")
                s.exec({"to": "ex", "m": "deploy_contract"})
        # what no view shows: the ends of a ramp under way
        s.put(c="show", sc="upgraded", ramp={str(P_ST): {"a0": "200", "a1": "500", "t0": str(NOW0 + 2400 * 10**9), "t1": str(NOW0 + 3 * 86400 * 10**9)}})
        look(s)
        # these return to the current code: failed, paid, failed
        s.exec({"to": "ta"}, out="fail")
        s.exec({"to": "tb"})
        s.exec({"to": "ta"}, out="fail")
        s.drain()
        # a call that changes nothing but the form of the record
        for u in old:
            s.run(u, "register_tokens", {"token_ids": []}, 1)
        o("remove_frozenlist_tokens", {"tokens": ["d6"]})

    return run


WAYS = [{"alice": (["ta", "s6", "tc", "wnear", "fine"], 1), "bob": (["*"], 2), "carol": (["*"], 0)},
        {"alice": (["*"], 0), "bob": (["tb", "s18", "d24", "tc"], 2), "carol": (["ta", "wnear"], 1)}]


def base(s, way=0, twin=False):
    lib.base(s, "upgraded", past=("ex" if twin else RELEASE, upgrade(WAYS[way], twin)))


def usage(s, u):
    for m in ("get_deposits", "get_tokens_paged", "get_user_storage_state", "storage_balance_of", "get_user_whitelisted_tokens"):
        s.view(m, {"account_id": u})


@scenario
def upgrade_roles(s):
    for p in ("alice", "guard", "ex", "bfarm"):
        s.run(p, "upgrade", code="ex")
    s.run("alice", "migrate", {})
    s.run("owner", "migrate", {})
    s.run("owner", "upgrade", code="ex")
    s.run("owner", "upgrade", d=1, code="ex")
    s.run("owner", "set_owner", {"owner_id": "dave"}, 1)
    s.run("owner", "upgrade", code="ex")
    s.run("dave", "upgrade", code="ex")
    s.run("dave", "change_state", {"state": "Paused"}, 1)
    s.run("dave", "upgrade", code="ex")


@scenario
def touch(s):
    """every way an old balance is used: the token moves to the new form and keeps its amount"""
    for u in ("alice", "bob", "carol"):
        usage(s, u)
        s.deposit(u, "ta", 5)
        s.ok(u, "withdraw", {"token_id": "tb", "amount": "7"})
        s.ok(u, "withdraw", {"token_id": "wnear", "amount": "9"}, )
        s.ok(u, "withdraw", {"token_id": "tc", "amount": "0"})
        s.ok(u, "register_tokens", {"token_ids": ["ta", "s6", "tc", "odd"]})
        usage(s, u)
        s.ok(u, "swap", {"actions": [act(P_ST, "s18", "s6", 10**18)]})
        s.ok(u, "swap", {"actions": [act(P_BC, "tc", "tb", 10**24)]})
        s.ok(u, "swap", {"actions": [act(P_FI, "fine", "s18", 10**24)]})
        usage(s, u)


@scenario
def all_at_once(s):
    """the whole balance, with and without leaving the token"""
    for u in ("alice", "bob", "carol"):
        for t in ("ta", "s6", "wnear", "tb"):
            s.view("get_deposits", {"account_id": u})
            s.keep("h")
            s.ok(u, "withdraw", {"token_id": t, "amount": "@{h/%s+1}" % t})
            s.ok(u, "unregister_tokens", {"token_ids": [t]})
            s.ok(u, "withdraw", {"token_id": t, "amount": "@{h/%s}" % t, "unregister": True})
            usage(s, u)
            s.ok(u, "withdraw", {"token_id": t, "amount": "1"})
    for t in ("tc", "s18", "s8", "st", "li", "d24", "d6", "d18", "fine"):
        s.view("get_deposits", {"account_id": "bob"})
        s.keep("h")
        s.ok("bob", "withdraw", {"token_id": t, "amount": "0"})
        s.ok("bob", "unregister_tokens", {"token_ids": [t]})
    usage(s, "bob")
    s.ok("carol", "storage_unregister", {})
    s.ok("alice", "storage_unregister", {})


@scenario
def comes_back(s):
    """a failing withdrawal restores an old balance"""
    for u in ("alice", "bob", "carol"):
        for t in ("ta", "s6", "wnear"):
            for m in ({}, {"unregister": True}):
                s.view("get_deposits", {"account_id": u})
                s.keep("h")
                s.one(u, "withdraw", {"token_id": t, "amount": "@{h/%s%%50}" % t, **m})
                s.exec({"to": t}, out="fail")
                s.drain()
                s.one(u, "withdraw", {"token_id": t, "amount": "@{h/%s}" % t, **m})
                s.exec({"to": t}, out="fail")
                s.drain()
            usage(s, u)
    # old balances in the account when something else comes back
    s.one("bob", "withdraw", {"token_id": "tc", "amount": "17"})
    s.run("bob", "mft_transfer", {"token_id": "s8", "receiver_id": "alice", "amount": "5"}, 1)
    s.exec({"to": "tc"}, out="fail")
    s.drain()


@scenario
def storage_border(s):
    """moving a token to the new form takes storage that has to be paid"""
    for u in ("alice", "bob", "carol"):
        s.ok(u, "storage_withdraw", {})
        usage(s, u)
        s.ok(u, "withdraw", {"token_id": "ta", "amount": "5"})
        s.deposit(u, "ta", 5)
        s.deposit(u, "s6", 5)
        s.ok(u, "swap", {"actions": [act(P_AB, "ta", "tb", 10**15)]})
        s.ok(u, "swap", {"actions": [act(P_AB, "ta", "tb", 10**15)], "skip_unwrap_near": True})
        cost = 64 * 10**19
        for d in (cost - 1, 1, cost):
            s.run("dave", "storage_deposit", {"account_id": u}, d)
            s.ok(u, "withdraw", {"token_id": "ta", "amount": "5"})
            s.ok(u, "withdraw", {"token_id": "s6", "amount": "5"})
            usage(s, u)
        s.ok(u, "storage_withdraw", {"amount": "1"})


@scenario
def between(s):
    """inner transfers between old and new balances"""
    for t in ("ta", "tb", "tc", "s6", "wnear", "fine"):
        for a, b in (("alice", "bob"), ("bob", "carol"), ("carol", "alice")):
            s.run(a, "mft_transfer", {"token_id": t, "receiver_id": b, "amount": "12345"}, 1)
        s.call("alice", "mft_transfer_call", {"token_id": t, "receiver_id": "bob", "amount": "1000", "msg": "x"}, 1)
        s.exec({"to": "bob"}, out={"ok": "400"})
        s.drain()
    for u in ("alice", "bob", "carol"):
        usage(s, u)


@scenario
def liquidity_of_old(s):
    for u in ("alice", "bob", "carol"):
        s.run(u, "add_liquidity", {"pool_id": P_AB, "amounts": ["1000000", "2000000"]}, NEAR // 100)
        s.run(u, "add_stable_liquidity", {"pool_id": P_ST, "amounts": ["1000000", str(10**18), "100000000"], "min_shares": "1"}, NEAR // 100)
        s.ok(u, "remove_liquidity", {"pool_id": P_AB, "shares": str(10**20), "min_amounts": ["1", "1"]})
        s.ok(u, "remove_liquidity", {"pool_id": P_ST, "shares": str(10**18), "min_amounts": ["0", "0", "0"]})
        s.ok(u, "remove_liquidity_by_tokens", {"pool_id": P_ST, "amounts": ["10", str(10**13), "1000"], "max_burn_shares": str(10**19)})
        usage(s, u)
    s.run("bob", "shadow_action", {"action": "FromFarming", "pool_id": P_AB, "amount": str(10**22), "msg": ""}, 1)
    s.run("alice", "shadow_action", {"action": "ToBurrowland", "pool_id": P_AB, "amount": str(10**22), "msg": ""}, NEAR // 100)
    s.view("get_shadow_records", {"account_id": "bob"})


@scenario
def history_goes_on(s):
    for k in range(3):
        s.secs(500)
        s.ok("alice", "swap", {"actions": [act(P_AB, "ta", "tb", 10**18)]})
        s.ok("bob", "swap", {"actions": [act(P_ST, "s6", "s18", 10**6)], "referral_id": "ref1"})
        for p in (P_AB, P_ST):
            s.view("get_pool_twap_info_view", {"pool_id": p})
    s.days(1)
    s.ok("alice", "swap", {"actions": [act(P_ST, "s6", "s18", 10**6)]})
    s.days(3)
    s.ok("alice", "swap", {"actions": [act(P_ST, "s6", "s18", 10**6)]})
