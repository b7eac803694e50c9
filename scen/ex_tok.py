"""Directed scenarios of the exchange: swaps on transfer, zaps, shares as tokens, shares locked by farming and lending."""
from lib import *

ALL = []


def scenario(f):
    ALL.append(f)
    return f


def ex_msg(acts, **k):
    return {"actions": acts, **k}


def zap(acts, adds, **k):
    return {"hot_zap_actions": acts, "add_liquidity_infos": adds, **k}


def add(pool, amounts, min_amounts=None, min_shares=None):
    d = {"pool_id": pool, "amounts": [str(x) for x in amounts]}
    if min_amounts is not None:
        d["min_amounts"] = [str(x) for x in min_amounts]
    if min_shares is not None:
        d["min_shares"] = str(min_shares)
    return d


@scenario
def instant_swap(s):
    n = 3 * unit("ta") + 17
    # dave is not registered: a swap on transfer needs no account
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n)]))
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb")]))
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n - 5)]))          # the rest goes back as ta
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n + 1)]))          # not enough
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n, 10**30)]))      # bound
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n), act(P_BC, "tb", "tc")]))
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n), act(P_BC, "tb", "tc", 10**17)]))
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n // 2), act(P_WA, "ta", "wnear", n // 2)]))
    s.deposit("dave", "ta", n, ex_msg([act(P_WA, "ta", "wnear", n)], skip_unwrap_near=False))
    s.deposit("dave", "ta", n, ex_msg([act(P_WA, "ta", "wnear", n)], skip_unwrap_near=True))
    s.deposit("dave", "ta", n, ex_msg([act(P_WA, "ta", "wnear", n)]))
    s.deposit("dave", "ta", n, ex_msg([]))
    s.deposit("dave", "ta", n, "not json")
    s.deposit("dave", "ta", n, {"what": 1})
    s.deposit("dave", "ta", n, ex_msg([act(99, "ta", "tb", n)]))
    s.deposit("dave", "ta", 1, ex_msg([act(P_AB, "ta", "tb", 1)]))
    s.deposit("alice", "ta", n, ex_msg([act(P_AB, "ta", "tb", n)], swap_out_recipient="bob"))
    s.deposit("alice", "ta", n, ex_msg([act(P_AB, "ta", "tb", n)], swap_out_recipient="nobody.near"))
    s.deposit("alice", "ta", n, ex_msg([act(P_AB, "ta", "tb", n)], swap_out_recipient="bob", client_echo="x"))
    s.deposit("alice", "ta", n, ex_msg([actout(P_AB, "ta", "tb", unit("tb"))]))
    s.deposit("alice", "ta", n, ex_msg([actout(P_AB, "ta", "tb", unit("tb"), n)]))
    s.deposit("alice", "ta", n, ex_msg([actout(P_AB, "ta", "tb", unit("tb"), 5)]))
    s.deposit("alice", "ta", n, ex_msg([actout(P_AB, "ta", "tb", 1000 * unit("tb"))]))
    s.deposit("alice", "s6", 10 * unit("s6"), ex_msg([act(P_ST, "s6", "s8", 10 * unit("s6"))]))
    s.deposit("alice", "st", unit("st"), ex_msg([act(P_RT, "st", "wnear", unit("st"))]))
    s.deposit("alice", "d6", unit("d6"), ex_msg([act(P_DG, "d6", "d24", unit("d6"))], skip_degen_price_sync=True))
    s.deposit("alice", "d6", unit("d6"), ex_msg([act(P_DG, "d6", "d24", unit("d6"))]))
    # the token that pays out is not the token received: nothing of ta is there
    s.deposit("alice", "ta", n, ex_msg([act(P_BC, "tb", "tc", n)]))
    s.one("owner", "extend_frozenlist_tokens", {"tokens": ["tb"]})
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n)]))
    s.deposit("dave", "ta", n, ex_msg([act(P_WA, "ta", "wnear", n)]))
    s.deposit("alice", "tb", n)
    s.one("owner", "change_state", {"state": "Paused"})
    s.deposit("dave", "ta", n, ex_msg([act(P_WA, "ta", "wnear", n)]))
    s.deposit("alice", "ta", n)


@scenario
def instant_swap_lost(s):
    """the payout of a swap on transfer cannot be delivered"""
    n = 2 * unit("ta")
    s.block("tb", "dave")
    s.block("tc", "dave")
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n)]))        # too little NEAR to park it: to the owner
    s.run("owner", "storage_deposit", {}, 20 * NEAR)
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n)]))
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n), act(P_BC, "tb", "tc")]))
    s.block("tb", "carol")
    s.deposit("carol", "ta", n, ex_msg([act(P_AB, "ta", "tb", n)]))       # carol is registered with tb
    s.block("tb", "ref1")
    s.deposit("carol", "ta", n, ex_msg([act(P_AB, "ta", "tb", n)], swap_out_recipient="ref1"))
    s.one("dave", "claim_lostfound", {"token_id": "tb"}); s.drain()
    s.unblock("tb", "dave")
    s.one("dave", "claim_lostfound", {"token_id": "tb"}); s.drain()
    s.unblock("tb", "ref1")
    s.one("ref1", "claim_lostfound", {"token_id": "tb"}); s.drain()
    s.one("ref1", "claim_lostfound", {"token_id": "tb"}); s.drain()
    # several payouts, one of them lost
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n // 2), act(P_WA, "ta", "wnear", n // 3)]))
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n), act(P_BC, "tb", "tc", 10**17)]))


@scenario
def instant_referral(s):
    n = 5 * unit("ta")
    s.one("owner", "insert_referral", {"referral_id": "ref1", "fee_bps": 4000})
    s.run("ref1", "mft_register", {"token_id": ":%d" % P_AB, "account_id": "ref1"}, NEAR // 10)
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n)], referral_id="ref1"))
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n)], referral_id="ref2"))
    s.deposit("dave", "ta", n, ex_msg([act(P_WA, "ta", "wnear", n)], referral_id="ref1"))
    s.run("ref1", "storage_deposit", {}, NEAR)
    s.run("ref1", "mft_register", {"token_id": ":%d" % P_ST, "account_id": "ref1"}, NEAR // 10)
    s.deposit("dave", "s6", unit("s6"), ex_msg([act(P_ST, "s6", "s18", unit("s6"))], referral_id="ref1"))
    s.deposit("bob", "ta", n, zap([act(P_AB, "ta", "tb", n // 2)], [add(P_AB, [unit("ta"), 2 * unit("tb")], [0, 0])], referral_id="ref1"))
    s.one("owner", "modify_admin_fee", {"admin_fee_bps": 8000})
    s.one("owner", "update_referral", {"referral_id": "ref1", "fee_bps": 10000})
    s.one("owner", "update_referral", {"referral_id": "ref1", "fee_bps": 9999})
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n)], referral_id="ref1"))
    s.deposit("dave", "s6", unit("s6"), ex_msg([act(P_ST, "s6", "s18", unit("s6"))], referral_id="ref1"))
    s.one("owner", "modify_admin_fee", {"admin_fee_bps": 0})
    s.deposit("dave", "ta", n, ex_msg([act(P_AB, "ta", "tb", n)], referral_id="ref1"))


@scenario
def client_echo(s):
    n = 2 * unit("ta")
    ok = lambda m, a, p="owner": s.one(p, m, a)
    echo = lambda who, tok="ta", to=P_AB, out="tb", **k: s.deposit(who, tok, n, ex_msg([act(to, tok, out, n)], client_echo="hi", **k))
    echo("dave")
    ok("extend_client_echo_token_id_whitelist", {"token_ids": ["ta"]})
    echo("dave")
    ok("extend_client_echo_sender_id_whitelist", {"sender_ids": ["dave"]})
    echo("dave")
    echo("dave", "tb", P_AB, "ta")
    echo("carol")
    echo("dave", extra_tgas_for_client_echo=5)
    ok("extend_client_echo_token_id_whitelist", {"token_ids": ["*"]})
    echo("dave", "tb", P_AB, "ta")
    ok("remove_client_echo_token_id_whitelist", {"token_ids": ["ta"]})
    ok("extend_client_echo_token_id_whitelist", {"token_ids": ["*"]})
    echo("dave", "tb", P_AB, "ta")
    ok("extend_client_echo_sender_id_whitelist", {"sender_ids": ["*"]})
    ok("extend_client_echo_sender_id_whitelist", {"sender_ids": ["*", "dave"]})
    echo("carol")
    ok("extend_secure_sender_whitelist", {"sender_ids": ["dave"]})
    echo("carol")
    ok("remove_client_echo_token_id_whitelist", {"token_ids": ["*"]}, "guard")
    ok("remove_client_echo_token_id_whitelist", {"token_ids": ["*"]})
    echo("dave", "tb", P_AB, "ta")
    ok("remove_client_echo_sender_id_whitelist", {"sender_ids": ["*"]})
    ok("remove_client_echo_sender_id_whitelist", {"sender_ids": ["*"]})
    echo("carol")
    echo("burrow")
    # a lending venue with one output only
    s.put(c="mint", tok="ta", who="burrow", amount=str(10 * n))
    ok("extend_client_echo_sender_id_whitelist", {"sender_ids": ["burrow"]})
    echo("burrow")
    s.deposit("burrow", "ta", n, ex_msg([act(P_AB, "ta", "tb", n // 2)], client_echo="hi"))
    ok("extend_client_echo_sender_id_whitelist", {"sender_ids": ["burrow", "dave"]})
    s.view("get_client_echo_sender_id_whitelist", {})
    s.view("get_client_echo_token_id_whitelist", {})
    s.view("get_secure_sender_whitelist", {})
    # answers of the receiver: keeps, returns a part, fails
    for out in ({"ok": "0"}, {"ok": "7"}, {"ok": str(10**30)}, "fail"):
        s.call("dave", "ft_transfer_call", {"receiver_id": "ex", "amount": str(n), "msg": json.dumps(ex_msg([act(P_AB, "ta", "tb", n)], client_echo="e"))}, 1, to="ta")
        s.exec({"to": "ex", "m": "ft_on_transfer"})
        s.exec({"to": "tb", "m": "ft_transfer_call"})
        s.exec({"to": "dave", "m": "ft_on_transfer"}, out=out)
        s.drain()
    # the same for a receiver with an account, one that unregisters meanwhile, and a token contract that answers oddly
    s.one("owner", "extend_secure_sender_whitelist", {"sender_ids": ["alice"]})
    s.one("owner", "extend_secure_sender_whitelist", {"sender_ids": ["dave"]})
    s.run("dave", "storage_deposit", {"account_id": None, "registration_only": None}, E24 // 10)
    for who, out in (("alice", "x"), ("alice", "fail"), ("dave", "x"), ("dave", "fail")):
        s.call(who, "ft_transfer_call", {"receiver_id": "ex", "amount": str(n), "msg": json.dumps(ex_msg([act(P_AB, "ta", "tb", n)], client_echo="e"))}, 1, to="ta")
        s.exec({"to": "ex", "m": "ft_on_transfer"})
        s.exec({"to": "tb", "m": "ft_transfer_call"})
        s.exec({"to": who, "m": "ft_on_transfer"}, out={"ok": "5"} if out == "x" else out)
        if who == "dave":
            s.call("dave", "storage_unregister", {"force": None}, 1)
        s.drain()
        s.view("list_lostfound_tokens", {"account_id": who})
    for out in ({"ok": "12"}, {"ok": 12}, {"ok": "no"}, {"ok": None}, {"ok": str(10**39)}, {"ok": ""}, "fail"):
        s.call("alice", "ft_transfer_call", {"receiver_id": "ex", "amount": str(n), "msg": json.dumps(ex_msg([act(P_AB, "ta", "tb", n)], client_echo="e"))}, 1, to="ta")
        s.exec({"to": "ex", "m": "ft_on_transfer"})
        s.exec({"to": "tb", "m": "ft_transfer_call"}, out=out)
        s.drain()
    s.block("tb", "dave")
    echo("dave")
    ok("remove_secure_sender_whitelist", {"sender_ids": ["dave"]})
    ok("remove_secure_sender_whitelist", {"sender_ids": ["dave"]})


@scenario
def hot_zap(s):
    n = 4 * unit("ta")
    half = n // 2
    good = [act(P_AB, "ta", "tb", half)]
    s.one("owner", "register_pool_twap_record", {"pool_id": P_AB})
    s.one("owner", "register_pool_twap_record", {"pool_id": P_ST})
    s.secs(400)
    s.deposit("alice", "ta", n, zap(good, [add(P_AB, [unit("ta"), 2 * unit("tb")], [0, 0])]))
    s.secs(4000)
    s.deposit("alice", "ta", n, zap(good, [add(P_AB, [unit("ta"), unit("tb")], [unit("ta"), 0])]))   # front-run bound
    s.deposit("alice", "ta", n, zap(good, [add(P_AB, [unit("ta"), unit("tb")])]))
    s.deposit("alice", "ta", n, zap(good, [add(P_AB, [n, unit("tb")], [0, 0])]))                     # more than there is
    s.deposit("alice", "ta", n, zap(good, []))
    s.deposit("alice", "ta", n, zap([], [add(P_AB, [1, 1], [0, 0])]))
    s.deposit("dave", "ta", n, zap(good, [add(P_AB, [unit("ta"), unit("tb")], [0, 0])]))             # no account
    s.deposit("carol", "ta", n, zap(good, [add(P_AB, [unit("ta"), unit("tb")], [0, 0])]))            # pays for the new share record
    s.deposit("bob", "s6", 10 * unit("s6"), zap([act(P_ST, "s6", "s18", 3 * unit("s6"))], [add(P_ST, [5 * unit("s6"), 2 * unit("s18"), 0], min_shares=1)]))
    s.secs(900)
    s.deposit("bob", "s6", 10 * unit("s6"), zap([act(P_ST, "s6", "s18", 3 * unit("s6"))], [add(P_ST, [5 * unit("s6"), 2 * unit("s18"), 0], min_shares=10**30)]))
    s.deposit("bob", "s6", 10 * unit("s6"), zap([act(P_ST, "s6", "s18", 3 * unit("s6"))], [add(P_ST, [5 * unit("s6"), 2 * unit("s18"), 0])]))
    s.deposit("bob", "wnear", 10 * unit("wnear"), zap([act(P_RT, "wnear", "st", unit("wnear"))], [add(P_RT, [unit("st") // 3, 0, 5 * unit("wnear")], min_shares=0)]))
    s.deposit("bob", "d6", 10 * unit("d6"), zap([act(P_DG, "d6", "d24", unit("d6"))], [add(P_DG, [10**20, 3 * unit("d6")], min_shares=0)], skip_degen_price_sync=True))
    # two pools, one after the other
    s.deposit("bob", "ta", n, zap([act(P_AB, "ta", "tb", half), act(P_BC, "tb", "tc", 10**17)],
                                  [add(P_AB, [unit("ta") // 2, unit("tb")], [0, 0]), add(P_BC, [10**18, 10**23], [0, 0])]))
    s.deposit("bob", "ta", n, zap(good, [add(P_AB, [unit("ta") // 4, unit("tb") // 2], [0, 0]), add(P_AB, [unit("ta") // 4, unit("tb") // 2], [0, 0])]))
    s.deposit("bob", "ta", n, zap([actout(P_AB, "ta", "tb", unit("tb"))], [add(P_AB, [unit("ta") // 4, unit("tb") // 2], [0, 0])]))
    s.deposit("bob", "ta", n, zap(good, [add(99, [1, 1], [0, 0])]))
    s.one("owner", "extend_frozenlist_tokens", {"tokens": ["tc"]})
    s.deposit("bob", "ta", n, zap([act(P_AB, "ta", "tb", half)], [add(P_AB, [1, 1], [0, 0]), add(P_BC, [1, 1], [0, 0])]))
    s.deposit("bob", "ta", n, zap([act(P_AB, "ta", "tb", half)], [add(P_AB, [10**9, 10**9], [0, 0])]))
    s.view("mft_total_supply", {"token_id": ":%d" % P_AB})


@scenario
def hot_zap_whitelist(s):
    """tokens outside the list may be used only by those registered with them"""
    n = 10**18
    s.run("alice", "add_simple_pool", {"tokens": ["odd", "ta"], "fee": 30}, NEAR // 10)
    s.one("alice", "register_tokens", {"token_ids": ["odd"]})
    s.deposit("alice", "odd", 1000 * n)
    s.run("alice", "add_liquidity", {"pool_id": 8, "amounts": [str(500 * n), str(500 * n)]}, NEAR // 10)
    s.deposit("bob", "ta", n, zap([act(8, "ta", "odd", n // 2)], [add(8, [n // 4, n // 4], [0, 0])]))
    s.deposit("bob", "ta", n, zap([act(P_AB, "ta", "tb", n // 2)], [add(8, [n // 4, n // 4], [0, 0])]))
    s.deposit("alice", "ta", n, zap([act(8, "ta", "odd", n // 2)], [add(8, [n // 4, n // 4], [0, 0])]))
    s.deposit("bob", "ta", n, ex_msg([act(8, "ta", "odd", n // 2)]))
    s.deposit("bob", "odd", n, ex_msg([act(8, "odd", "ta", n // 2)]))
    s.deposit("bob", "odd", n)
    s.deposit("alice", "odd", n)
    s.call("bob", "swap", {"actions": [act(8, "ta", "odd", n // 2)]})
    s.call("bob", "execute_actions_in_va", {"use_tokens": {"ta": str(n)}, "actions": [act(8, "ta", "odd", n)]}, 1)
    s.call("bob", "execute_actions_in_va", {"use_tokens": {"ta": str(n)}, "actions": [act(8, "ta", "odd", n), act(8, "odd", "ta")]}, 1)
    s.call("alice", "execute_actions_in_va", {"use_tokens": {"ta": str(n)}, "actions": [act(8, "ta", "odd", n)]}, 1)
    s.one("owner", "extend_auto_whitelisted_postfix", {"postfixes": ["dd"]})
    s.deposit("bob", "odd", n)
    s.one("owner", "remove_auto_whitelisted_postfix", {"postfixes": ["dd"]})
    s.deposit("carol", "odd", n)
    s.one("owner", "remove_whitelisted_tokens", {"tokens": ["tb"]})
    s.deposit("carol", "tb", n)
    s.deposit("dave", "tb", n)


@scenario
def share_tokens(s):
    sh = lambda u, t: s.view("mft_balance_of", {"token_id": t, "account_id": u})
    tid = ":%d" % P_AB
    reg = lambda p, u, d, t=tid: s.run(p, "mft_register", {"token_id": t, "account_id": u}, d)
    mv = lambda p, to, n, t=tid, d=1: s.run(p, "mft_transfer", {"token_id": t, "receiver_id": to, "amount": str(n)}, d)
    mv("alice", "dave", 5)
    reg("dave", "dave", 0)
    reg("dave", "dave", 10**21)
    reg("dave", "dave", NEAR // 100)
    reg("dave", "dave", NEAR // 100)
    reg("dave", "carol", NEAR // 100)
    reg("dave", "carol", NEAR // 100, ":99")
    reg("dave", "carol", NEAR // 100, "ta")
    s.view("mft_has_registered", {"token_id": tid, "account_id": "carol"})
    s.view("mft_has_registered", {"token_id": tid, "account_id": "ref2"})
    mv("alice", "dave", 5)
    mv("alice", "dave", 0)
    mv("alice", "alice", 5)
    mv("alice", "dave", 10**26)
    mv("alice", "dave", 5, d=0)
    mv("alice", "dave", 5, d=2)
    mv("alice", "ex", 123)
    mv("dave", "alice", 5)
    for d in (1, 0):
        s.run("dave", "mft_unregister", {"token_id": tid}, d)
    s.run("alice", "mft_unregister", {"token_id": tid}, 1)
    s.run("alice", "mft_unregister", {"token_id": ":77"}, 1)
    s.run("ref2", "mft_unregister", {"token_id": tid}, 1)
    # whole tokens inside the exchange
    mv("alice", "bob", unit("ta"), "ta")
    mv("alice", "dave", unit("ta"), "ta")
    mv("alice", "carol", unit("s8"), "s8")
    mv("alice", "bob", 10**40, "ta")
    mv("alice", "bob", 1, "odd")
    mv("alice", "bob", 0, "ta")
    mv("alice", "ex", 5, "ta")
    for t in (tid, "ta", ":99", ":x"):
        for u in ("alice", "dave"):
            sh(u, t)
        s.view("mft_total_supply", {"token_id": t})
    s.one("owner", "change_state", {"state": "Paused"})
    mv("alice", "bob", 5)
    reg("ref2", "ref2", NEAR // 100)
    s.run("bob", "mft_unregister", {"token_id": tid}, 1)


def share_call(s, who, to, n, answer, tid, before=None, whole=False):
    a = {"token_id": tid, "receiver_id": to, "msg": "m"}
    if not whole:
        a["amount"] = str(n)
    s.call(who, "mft_transfer_all_call" if whole else "mft_transfer_call", a, 1)
    s.exec({"to": to, "m": "mft_on_transfer"}, out=answer)
    if before:
        before()
    s.drain()


@scenario
def share_calls(s):
    tid = ":%d" % P_AB
    n = 10**23
    s.run("farmer", "mft_register", {"token_id": tid, "account_id": "farmer"}, NEAR // 100)
    for ans in ({"ok": "0"}, {"ok": "1"}, {"ok": str(n // 2)}, {"ok": str(n)}, {"ok": str(10 * n)}, {"ok": "x"}, {"ok": 5}, {"ok": None}, "fail"):
        share_call(s, "alice", "farmer", n, ans, tid)
    s.call("alice", "mft_transfer_call", {"token_id": tid, "receiver_id": "ref2", "amount": "5", "msg": "m"}, 1)
    s.call("alice", "mft_transfer_call", {"token_id": tid, "receiver_id": "farmer", "amount": "0", "msg": "m"}, 1)
    s.call("alice", "mft_transfer_call", {"token_id": tid, "receiver_id": "farmer", "amount": str(10**27), "msg": "m"}, 1)
    s.call("alice", "mft_transfer_call", {"token_id": tid, "receiver_id": "farmer", "amount": "5", "msg": "m"}, 0)
    s.call("alice", "mft_transfer_call", {"token_id": tid, "receiver_id": "farmer", "amount": "5", "msg": "m"}, 1, gas=60)
    s.drain()
    # the receiver has spent some, or all, before the outcome is known
    spend = lambda k: (lambda: s.run("farmer", "mft_transfer", {"token_id": tid, "receiver_id": "bob", "amount": str(k)}, 1))
    share_call(s, "alice", "farmer", n, "fail", tid, spend(n // 3))
    s.view("mft_balance_of", {"token_id": tid, "account_id": "farmer"})
    s.run("farmer", "mft_transfer", {"token_id": tid, "receiver_id": "bob", "amount": str(n)}, 1)
    share_call(s, "alice", "farmer", n, {"ok": str(n)}, tid, lambda: (
        s.run("farmer", "mft_transfer", {"token_id": tid, "receiver_id": "bob", "amount": "1"}, 1),
        s.run("farmer", "remove_liquidity", {"pool_id": P_AB, "shares": "2", "min_amounts": ["0", "0"]}, 1)))
    # everything of a sender who is gone from the records meanwhile
    s.run("ref1", "storage_deposit", {}, NEAR // 10)
    s.run("ref1", "mft_register", {"token_id": tid, "account_id": "ref1"}, NEAR // 100)
    s.run("alice", "mft_transfer", {"token_id": tid, "receiver_id": "ref1", "amount": "1000000"}, 1)
    share_call(s, "ref1", "farmer", 0, "fail", tid, lambda: s.run("ref1", "storage_unregister", {}, 1), whole=True)
    # sender without an account
    s.run("ref2", "mft_register", {"token_id": tid, "account_id": "ref2"}, NEAR // 100)
    s.run("alice", "mft_transfer", {"token_id": tid, "receiver_id": "ref2", "amount": "1000000"}, 1)
    share_call(s, "ref2", "farmer", 600000, {"ok": "400000"}, tid)
    share_call(s, "bob", "farmer", 0, {"ok": "12345"}, tid, whole=True)
    share_call(s, "bob", "farmer", 0, {"ok": "12345"}, tid, whole=True)
    share_call(s, "bob", "farmer", 0, {"ok": "0"}, tid, whole=True)
    # the sender has given up the record of the pool meanwhile
    share_call(s, "carol", "farmer", 5, "fail", tid)
    s.run("carol", "mft_register", {"token_id": tid, "account_id": "carol"}, NEAR // 100)
    s.run("alice", "mft_transfer", {"token_id": tid, "receiver_id": "carol", "amount": "777"}, 1)
    share_call(s, "carol", "farmer", 777, "fail", tid, lambda: s.run("carol", "mft_unregister", {"token_id": tid}, 1))
    # tokens
    for ans in ({"ok": "0"}, {"ok": "100"}, "fail"):
        share_call(s, "alice", "bob", 1000, ans, "ta")
    share_call(s, "alice", "bob", 1000, "fail", "ta", lambda: s.run("bob", "withdraw", {"token_id": "ta", "amount": "0"}, 1))
    share_call(s, "alice", "dave", 1000, "fail", "ta")
    s.call("alice", "mft_transfer_all_call", {"token_id": "ta", "receiver_id": "bob", "msg": ""}, 1)
    # nobody else may settle
    s.call("alice", "mft_resolve_transfer", {"token_id": tid, "sender_id": "alice", "receiver_id": "bob", "amount": "1000"})


def shadow(s, who, action, pool, n=None, d=0, out=None, drain=True):
    a = {"action": action, "pool_id": pool, "msg": "m"}
    if n is not None:
        a["amount"] = str(n)
    s.call(who, "shadow_action", a, d)
    if drain:
        if out is not None:
            s.exec({"m": "on_cast_shadow" if action.startswith("To") else "on_remove_shadow"}, out=out)
        s.drain()


@scenario
def shadows(s):
    D = NEAR // 10
    sh = 10**24
    # alice has 1000*1e18? shares are whatever the pool gave: everything at once first
    shadow(s, "alice", "ToFarming", P_AB)
    shadow(s, "alice", "ToFarming", P_AB, d=D)
    shadow(s, "alice", "ToFarming", P_AB, d=D)
    shadow(s, "alice", "ToBurrowland", P_AB, d=0)
    for m, a in (("mft_transfer", {"token_id": ":0", "receiver_id": "bob", "amount": "1"}),
                 ("remove_liquidity", {"pool_id": P_AB, "shares": "1", "min_amounts": ["0", "0"]}),
                 ("donation_share", {"pool_id": P_AB, "amount": "1"}),
                 ("mft_transfer_call", {"token_id": ":0", "receiver_id": "bob", "amount": "1", "msg": ""}),
                 ("mft_transfer_all_call", {"token_id": ":0", "receiver_id": "bob", "msg": ""}),
                 ("mft_unregister", {"token_id": ":0"}),
                 ("storage_unregister", {})):
        s.run("alice", m, a, 1)
    shadow(s, "alice", "FromFarming", P_AB, 10**20)
    s.run("alice", "mft_transfer", {"token_id": ":0", "receiver_id": "bob", "amount": "1"}, 1)   # still lent
    shadow(s, "alice", "FromBurrowland", P_AB, 10**21)
    s.run("alice", "mft_transfer", {"token_id": ":0", "receiver_id": "bob", "amount": str(10**20)}, 1)
    s.run("alice", "mft_transfer", {"token_id": ":0", "receiver_id": "bob", "amount": "1"}, 1)
    shadow(s, "alice", "FromFarming", P_AB, out="fail")
    shadow(s, "alice", "FromFarming", P_AB)
    shadow(s, "alice", "FromFarming", P_AB)
    s.run("alice", "remove_liquidity", {"pool_id": P_AB, "shares": str(10**21), "min_amounts": ["0", "0"]}, 1)
    shadow(s, "alice", "FromBurrowland", P_AB)
    s.run("alice", "mft_transfer", {"token_id": ":0", "receiver_id": "bob", "amount": "1"}, 1)
    # failure takes the lock and the storage away again
    shadow(s, "bob", "ToFarming", P_ST, 10**18, D, "fail")
    shadow(s, "bob", "ToBurrowland", P_ST, 10**18, D, "fail")
    shadow(s, "bob", "ToBurrowland", P_ST, 10**18, 10**20)
    shadow(s, "bob", "ToBurrowland", P_ST, 0, D)
    shadow(s, "bob", "ToBurrowland", P_ST, 10**30, D)
    shadow(s, "bob", "ToBurrowland", P_ST, 10**18, D)
    shadow(s, "bob", "ToFarming", P_ST, 3 * 10**18, 0, "fail")
    shadow(s, "bob", "ToFarming", P_ST, 3 * 10**18, 0)
    s.run("bob", "remove_liquidity_by_tokens", {"pool_id": P_ST, "amounts": ["1000", "1000", "1000"], "max_burn_shares": str(10**30)}, 1)
    s.run("bob", "remove_liquidity_by_tokens", {"pool_id": P_ST, "amounts": [str(30 * unit("s6")), str(36 * unit("s18")), str(36 * unit("s8"))], "max_burn_shares": str(10**30)}, 1)
    shadow(s, "bob", "FromBurrowland", P_ST)
    shadow(s, "bob", "FromFarming", P_ST)
    shadow(s, "carol", "ToFarming", P_AB, 1, D)
    shadow(s, "dave", "ToFarming", P_AB, 1, D)
    shadow(s, "bob", "ToFarming", 99, 1, D)
    s.call("bob", "callback_on_shadow", {"action": "FromFarming", "sender_id": "bob", "pool_id": P_AB, "amount": "1", "storage_fee": "0"})
    s.one("owner", "change_state", {"state": "Paused"})
    shadow(s, "bob", "ToFarming", P_AB, 1, D)
    shadow(s, "alice", "FromFarming", P_AB, 1, D)


@scenario
def shadows_crossing(s):
    """several lock requests of one account in flight"""
    D = NEAR // 10
    n = 10**20
    for first, second in (("fail", None), (None, "fail"), ("fail", "fail"), (None, None)):
        shadow(s, "bob", "ToFarming", P_AB, n, D, drain=False)
        shadow(s, "bob", "ToBurrowland", P_AB, 2 * n, D, drain=False)
        s.exec({"to": "bfarm"}, out=first)
        s.exec({"to": "burrow"}, out=second)
        s.drain()
        shadow(s, "bob", "FromFarming", P_AB)
        shadow(s, "bob", "FromBurrowland", P_AB)
    # both requests cover the whole: second is refused while first is pending
    shadow(s, "bob", "ToFarming", P_AB, None, D, drain=False)
    shadow(s, "bob", "ToFarming", P_AB, 1, D, drain=False)
    s.run("bob", "mft_transfer", {"token_id": ":0", "receiver_id": "alice", "amount": "5"}, 1)
    # taken back twice at once: the second answer finds nothing left
    s.drain()
    shadow(s, "bob", "FromFarming", P_AB, None, drain=False)
    shadow(s, "bob", "FromFarming", P_AB, None, drain=False)
    s.drain()
    shadow(s, "bob", "ToFarming", P_AB, n, D)
    shadow(s, "bob", "FromFarming", P_AB, n, drain=False)
    s.run("bob", "mft_transfer", {"token_id": ":0", "receiver_id": "alice", "amount": str(10**21)}, 1)
    s.exec({"to": "bfarm"}, out="fail")
    s.drain()
    s.run("bob", "mft_transfer", {"token_id": ":0", "receiver_id": "alice", "amount": str(10**25)}, 1)


def liquidate(s, n, who="bob", by="carol", pool=P_AB, p="burrow", mins=("0", "0"), out=None):
    s.call(p, "on_burrow_liquidation", {"liquidator_account_id": by, "liquidation_account_id": who, "shadow_id": "shadow_ref_v1-%d" % pool,
                                        "liquidate_share_amount": str(n), "min_token_amounts": list(mins)})
    if out is not None:
        s.exec({"to": "bfarm"}, out=out)
    s.drain()


@scenario
def liquidations(s):
    D = NEAR // 10
    n = 10**23
    s.run("alice", "mft_transfer", {"token_id": ":0", "receiver_id": "bob", "amount": str(5 * n)}, 1)
    liquidate(s, 10)
    shadow(s, "bob", "ToBurrowland", P_AB, 3 * n, D)
    liquidate(s, n, p="bob")
    liquidate(s, n, p="owner")
    liquidate(s, 4 * n)
    liquidate(s, n, by="dave")
    liquidate(s, n, who="dave")
    liquidate(s, n, mins=(str(10**30), "0"))
    liquidate(s, n)                                   # enough free shares besides
    shadow(s, "bob", "ToFarming", P_AB, None, 0)        # all of them farmed: liquidation takes from farming
    liquidate(s, n // 2)
    liquidate(s, n // 2, out="fail")
    shadow(s, "bob", "FromFarming", P_AB, n // 4)
    liquidate(s, n // 2)                                # part free, part farmed
    liquidate(s, n // 2, by="bob")
    s.one("owner", "extend_frozenlist_tokens", {"tokens": ["ta"]})
    liquidate(s, 5)
    s.one("owner", "remove_frozenlist_tokens", {"tokens": ["ta"]})
    s.one("owner", "change_state", {"state": "Paused"})
    liquidate(s, 5)
    s.one("owner", "change_state", {"state": "Running"})
    shadow(s, "bob", "FromFarming", P_AB)
    liquidate(s, n // 2 - 5)
    shadow(s, "bob", "FromBurrowland", P_AB)
    liquidate(s, 1)
    # one's own liquidator: the record goes with its last share, is made anew, and goes again
    for k in (n // 8, n // 16):
        shadow(s, "bob", "ToBurrowland", P_AB, k, D)
        liquidate(s, k, by="bob")
        s.view("get_shadow_records", {"account_id": "bob"})
        s.view("get_user_storage_state", {"account_id": "bob"})
    shadow(s, "bob", "ToBurrowland", P_AB, None, D)
    shadow(s, "bob", "ToFarming", P_AB, None, D)
    s.keep("p0", "p/%d" % P_AB)
    liquidate(s, "@{p0/sh/bob}", by="bob", out="fail")
    s.view("get_shadow_records", {"account_id": "bob"})
    shadow(s, "bob", "ToFarming", P_AB, 1, D)
    # everything is lent and farmed and sold at once
    shadow(s, "alice", "ToBurrowland", P_ST, None, D)
    shadow(s, "alice", "ToFarming", P_ST, None, D)
    liquidate(s, 10**21, "alice", "carol", P_ST, mins=("0", "0", "0"))
    liquidate(s, 10**18, "alice", "bob", P_ST, mins=("0", "0", "0"))
    s.call("burrow", "callback_on_burrow_liquidation", {"sender_id": "bob", "pool_id": P_AB, "amount": "1"})
    s.one("owner", "modify_burrowland_id", {"burrowland_id": "carol"})
    liquidate(s, 1, "alice", "bob", P_ST, mins=("0", "0", "0"))
    liquidate(s, 1, "alice", "bob", P_ST, p="carol", mins=("0", "0", "0"))
    s.one("owner", "modify_boost_farm_id", {"boost_farm_id": "dave"})
    shadow(s, "alice", "FromFarming", P_ST, 5)
