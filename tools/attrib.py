"""Which properties a difference between a run and the specification, or a broken invariant, speaks about.

Events of a checked trace: ("MM", record, method, part, expected, observed) and ("INV", record, method, kind, detail)."""

SWAP = {"swap", "swap_by_output", "execute_actions", "execute_actions_in_va"}
ADD = {"add_liquidity", "add_stable_liquidity"}
REM = {"remove_liquidity", "remove_liquidity_by_tokens"}
WD = {"withdraw", "claim_lostfound", "exchange_callback_post_transfer_call", "exchange_callback_post_withdraw", "exchange_callback_post_withdraw_near", "modify_wnear_id"}
MFT = {"mft_transfer", "mft_transfer_call", "mft_transfer_all_call", "mft_resolve_transfer", "mft_register", "mft_unregister"}
DON = {"donation_share", "donation_token"}
SHADOW = {"shadow_action", "callback_on_shadow", "on_burrow_liquidation", "callback_on_burrow_liquidation"}
STOR = {"storage_deposit", "storage_withdraw", "storage_unregister", "register_tokens", "unregister_tokens",
        "add_simple_pool", "add_stable_swap_pool", "add_rated_swap_pool", "add_degen_swap_pool"}
CALLBACKS = {"exchange_callback_post_withdraw", "exchange_callback_post_transfer_call", "exchange_callback_post_withdraw_near", "callback_on_shadow", "callback_on_burrow_liquidation",
             "mft_resolve_transfer", "update_token_rate_callback", "update_degen_token_price_callback",
             "batch_update_degen_token_by_price_oracle_callback", "batch_update_degen_token_by_pyth_oracle_callback"}
RATE = {"update_token_rate", "update_token_rate_callback", "update_degen_token_price", "update_degen_token_price_callback",
        "batch_update_degen_token_price", "batch_update_degen_token_by_price_oracle_callback", "batch_update_degen_token_by_pyth_oracle_callback",
        "register_rated_token", "unregister_rated_token", "update_rated_token_extra_info", "register_degen_token", "update_degen_token",
        "unregister_degen_token", "register_degen_oracle_config", "update_degen_oracle_config", "unregister_degen_oracle_config",
        "add_degen_pool_limit", "update_degen_pool_limit", "remove_pool_limit"}
FEES = {"modify_admin_fee", "modify_total_fee", "insert_referral", "update_referral", "remove_referral", "remove_exchange_fee_liquidity", "withdraw_owner_token"}
RAMP = {"stable_swap_ramp_amp", "stable_swap_stop_ramp_amp"}
TWAP = {"register_pool_twap_record", "unregister_pool_twap_record", "sync_pool_twap_record", "modify_cumulative_info_record_interval_sec"}
LISTS = {"extend_frozenlist_tokens", "remove_frozenlist_tokens", "extend_whitelisted_tokens", "remove_whitelisted_tokens", "change_state",
         "extend_auto_whitelisted_postfix", "remove_auto_whitelisted_postfix", "register_tokens", "unregister_tokens"}
ECHO = {a + b + "_whitelist" for a in ("extend_", "remove_") for b in ("client_echo_token_id", "client_echo_sender_id", "secure_sender")}
ROLES = FEES | RAMP | TWAP | LISTS | ECHO | (RATE - {"update_token_rate", "update_degen_token_price", "batch_update_degen_token_price"}) | {
    "set_owner", "extend_guardians", "remove_guardians", "modify_boost_farm_id", "modify_burrowland_id", "modify_wnear_id",
    "retrieve_unmanaged_token", "add_stable_swap_pool", "add_rated_swap_pool", "add_degen_swap_pool", "migrate", "new"} - {"sync_pool_twap_record", "register_tokens", "unregister_tokens"}
YOCTO = SWAP | REM | MFT | DON | {"withdraw", "shadow_action", "storage_withdraw", "storage_unregister", "register_tokens", "unregister_tokens", "claim_lostfound"}
CURVED = {"Stable", "Rated", "Degen"}


class Exchange:
    """follows a trace of the exchange far enough to know the pools and settings behind a record"""

    def __init__(self):
        self.kind, self.state, self.frozen, self.ramped = {}, "Running", [], set()

    def feed(self, r):
        d = r.get("delta", {})
        if r["t"] == "init":
            self.__init__()
        for k, v in d.items():
            if k.startswith("p/") and v.get("kind") != "panic":
                self.kind[int(k[2:])] = v["kind"]
        self.before = (self.state, bool(self.frozen))
        if "cfg" in d:
            self.state, self.frozen = d["cfg"]["state"], d["cfg"]["frozen"]
        if r.get("m") == "stable_swap_ramp_amp" and r.get("ok"):
            self.ramped.add(int(r["a"].get("pool_id", -1)))

    @staticmethod
    def pools(r):
        out = set()

        def walk(x):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k in ("pool_id", "pool") and str(v).isdigit():
                        out.add(int(v))
                    elif isinstance(v, str) and k == "token_id" and v.startswith(":") and v[1:].isdigit():
                        out.add(int(v[1:]))
                    else:
                        walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(r.get("a"))
        walk(r.get("msgj"))
        return out

    def props(self, e, r):
        typ, n, m, part = e[:4]
        text = " ".join(str(x) for x in e[4:6])
        if typ == "INV":
            return INV.get(part, set())
        out = set()
        P = lambda *x: out.update(x)
        seg = part.split("/")
        ids = self.pools(r)
        if seg[0] in ("Simple", "Stable", "Rated", "Degen") and len(seg) > 2:
            ids.add(int(seg[1]))
        kinds = {self.kind.get(i) for i in ids}
        fld = seg[2] if len(seg) > 2 else ""
        view = r["t"] == "view"
        ftot = m == "ft_on_transfer"
        swap, add, rem = m in SWAP or ftot, m in ADD or ftot, m in REM or m == "remove_exchange_fee_liquidity"
        pool = seg[0] in ("Simple", "Stable", "Rated", "Degen", "pool")
        acc = seg[0] == "a"
        if view or seg[0] == "view":
            P("C19")
        # what is owed and where it is
        if part == "kept" or m in ("upgrade", "deploy_contract"):
            P("C24", "C14") if m == "upgrade" else P("C24")
        if (acc and fld in ("tok", "leg")) or (pool and fld == "amt") or seg[0] == "l":
            P("C01")
        if ftot or (m in WD | SWAP | REM | ADD | DON | FEES | SHADOW and part in ("ok", "fx", "ret")):
            P("C01")
        if m in WD or seg[0] == "l" or (m in SWAP and part == "fx") or (ftot and part in ("fx", "ok")):
            P("C02")
        if (pool and fld in ("sup", "sh")) or m in MFT | DON or (m in ADD | REM and part in ("ok", "ret")):
            P("C03")
        if view and ("share" in m or m.startswith("mft_")):
            P("C03")
        if "Simple" in kinds and (swap or (view and ("get_return" in m or "predict" in m))) and fld not in ("vol", "twap"):
            P("C04")
        if "Simple" in kinds and (add or rem or (view and "liquidity" in m)) and fld not in ("vol", "twap"):
            P("C05")
        if "Stable" in kinds and (swap or add or rem or view) and fld not in ("vol", "twap"):
            P("C06")
        if kinds & {"Rated", "Degen"} and (swap or add or rem or view) and fld not in ("vol", "twap"):
            P("C07")
        if (m in SWAP | ADD | REM or ftot) and (part in ("ok", "ret") or (acc and fld == "tok") or pool and fld in ("amt", "sh")):
            P("C08")
        if m in FEES or seg[0] == "cfg" and fld in ("",) and seg[1] in ("adminfee", "ref") or (pool and fld in ("fee", "sh", "sup", "amt") and (swap or add or rem)):
            P("C09")
        if (swap and part == "ret") or (view and ("fee" in m or "get_return" in m)):
            P("C09")
        if m in ("execute_actions", "execute_actions_in_va", "swap", "swap_by_output") or ftot or m in ("exchange_callback_post_withdraw", "exchange_callback_post_transfer_call"):
            P("C10")
        if m in SHADOW or (acc and fld == "shadow") or (part == "ok" and m in REM | MFT | DON | {"storage_unregister", "remove_exchange_fee_liquidity"}):
            P("C11")
        if m in MFT:
            P("C12")
        if m in STOR or (acc and fld in ("near", "reg", "leg")) or part in ("near/bal",) or part.startswith("view/usage") or m == "shadow_action":
            P("C13")
        if part in ("fx", "ok") and (m in STOR | ADD | MFT | SHADOW or r.get("d", "0") not in ("0", "1")):
            P("C13")
        if "storage" in text.lower() and part == "ok":
            P("C13")
        if seg[0] == "cfg" or (part == "ok" and (m in ROLES | CALLBACKS or m in SHADOW or (m in YOCTO and r.get("d") != "1"))):
            P("C14")
        if m in ("retrieve_unmanaged_token", "withdraw_owner_token"):
            P("C14")
        if seg[0] == "cfg" and seg[1] in ("state", "frozen", "wl", "postfix") or m in LISTS:
            P("C15")
        if part == "ok" and (self.before != ("Running", False) or any(w in text.lower() for w in ("white", "frozen", "paused", "e51", "e12"))):
            P("C15")
        if fld == "twap" or m in TWAP or (view and ("twap" in m or "unit_share" in m)) or part == "cfg/interval":
            P("C16")
        if m in RAMP or part.startswith("view/amp") or (ids & self.ramped and kinds & CURVED and fld != "twap"):
            P("C17")
        if seg[0] in ("rates", "degens", "oracles") or part.startswith(("view/rate", "view/degen", "view/tvl")) or fld == "limit" or m in RATE:
            P("C18")
        if kinds & {"Rated", "Degen"} and part == "ok":
            P("C18")
        if fld == "vol" or (swap and part == "ret"):
            P("C19")
        if not out:
            P("C10", "C19")
        return out


F_SEED = {"withdraw_seed", "callback_post_withdraw_ft_seed", "callback_post_withdraw_mft_seed", "mft_on_transfer", "modify_seed_min_deposit"}
F_REW = {"withdraw_reward", "callback_post_withdraw_reward"}
F_CLAIM = {"claim_reward_by_farm", "claim_reward_by_seed", "remove_user_rps_by_farm"}
F_STOR = {"storage_deposit", "storage_withdraw", "storage_unregister"}
F_OWN = {"create_simple_farm", "force_clean_farm", "modify_seed_min_deposit", "set_owner", "pause_contract", "resume_contract", "migrate"}
F_INV = {"custody": {"C20", "C21"}, "total": {"C20"}, "split": {"C21"}, "info": {"C21"}, "count": {"C23"}, "touched": {"C20", "C23"},
         "misbooked": {"C21", "C22", "C23"}, "fpaused": {"C23"}, "unfair": {"C22", "C21"}}


class Farming:
    """follows a trace of the farming contract"""

    def __init__(self):
        self.state = "Running"

    def feed(self, r):
        self.before = self.state
        if "fm" in r.get("delta", {}):
            self.state = r["delta"]["fm"]["state"]
        if r["t"] == "init":
            self.before = self.state

    def props(self, e, r):
        typ, n, m, part = e[:4]
        if typ == "INV":
            return F_INV.get(part, set())
        out = set()
        P = lambda *x: out.update(x)
        seg = part.split("/")
        fld = seg[-1]
        text = " ".join(str(x) for x in e[4:6])
        call = part in ("ok", "fx", "ret")
        funds = m == "ft_on_transfer" and r["a"].get("msg")
        if call and (m in F_SEED or m == "ft_on_transfer" and not funds):
            P("C20")
        if seg[0] == "fs" or (seg[0] == "fu" and fld == "seeds"):
            P("C20")
        if funds or m in F_CLAIM or m in {"force_clean_farm", "create_simple_farm"} or seg[0] in ("ff", "fo") or (seg[0] == "fu" and fld in ("rewards", "unclaimed", "rps")):
            P("C21", "C22")
        if part == "fm/rewards" or (call and m in F_REW):
            P("C21")
        if m in F_REW | F_STOR | F_OWN or (seg[0] == "fu" and fld in ("near", "reg", "usage", "rewards")) or seg[0] in ("fm", "fnear"):
            P("C23")
        if part == "ok" and (self.before != "Running" or r.get("p") == "farm" or m.startswith("callback") or "E1" in text or "E600" in text or m in F_CLAIM or r.get("d") not in (None, "0", "1")):
            P("C23")
        if m in F_SEED and call and r.get("d") != "1":
            P("C23")
        if r["t"] == "view":
            P("C19")
            if m == "get_metadata" or "storage" in m:
                P("C23")
            if "seed" in m:
                P("C20")
            if "farm" in m or "reward" in m or "rps" in m:
                P("C21", "C22")
            if m == "get_reward" or m == "list_rewards":
                P("C23")
        if part.startswith("view/broken") or not out:
            P("C20", "C21", "C22", "C23")
        return out


INV = {"solvency": {"C01"}, "supply": {"C03"}, "locked": {"C11"}, "negative": {"C01"}, "unpaid": {"C13"}, "fees": {"C09"},
       "sinkSimple": {"C05", "C04"}, "sinkStable": {"C06"}, "sinkRated": {"C07"}, "sinkDegen": {"C07"}, "robbed": {"C01", "C14"},
       "robbedshares": {"C03", "C14"}, "robbedlost": {"C02"}, "paused": {"C15"}, "frozen": {"C15"}, "twap": {"C16"}}
