------------------------------- MODULE ExSwap -------------------------------
(* Swaps, liquidity and the token receiver of the exchange. *)
EXTENDS ExBase

(* ------------------------------------------------------------ sending tokens out *)
\* receipts number n and n+1: the transfer and the callback that settles it
SendTokens(S, to, t, n, unwrap, at) ==
  IF t = S.cfg.wnear /\ unwrap
  THEN <<Rcpt(t, "near_withdraw", [amount |-> n], 1, None),
         Rcpt(EX, "exchange_callback_post_withdraw_near", [sender_id |-> to, amount |-> n, token_id |-> t], 0, <<at>>)>>
  ELSE <<Rcpt(t, "ft_transfer", [receiver_id |-> to, amount |-> n], 1, None),
         Rcpt(EX, "exchange_callback_post_withdraw", [token_id |-> t, sender_id |-> to, amount |-> n], 0, <<at>>)>>
SendWithMsg(to, t, n, msg, at) ==
  <<Rcpt(t, "ft_transfer_call", [receiver_id |-> to, amount |-> n, msg |-> msg], 1, None),
    Rcpt(EX, "exchange_callback_post_transfer_call", [token_id |-> t, sender_id |-> to, amount |-> n], 0, <<at>>)>>

(* ------------------------------------------------------------ price refresh of degen tokens *)
\* receipts asking the oracles for fresh prices of the tokens T; lists are sorted because their order is arbitrary
DegenSync(S, T, at) ==
  LET po == {t \in T : S.degens[t].kind = "PriceOracle"}
      py == {t \in T : S.degens[t].kind = "PythOracle"}
      pids == {S.degens[t].pid : t \in py}
      one == IF po = {} THEN None ELSE
        <<Rcpt(S.oracles["PriceOracleConfig"].oracle_id, "get_price_data", [asset_ids |-> SSort(po)], 0, None),
          Rcpt(EX, "batch_update_degen_token_by_price_oracle_callback", [token_id_decimals_map |-> [t \in po |-> S.degens[t].dec]], 0, <<at>>)>>
      two == IF py = {} THEN None ELSE
        <<Rcpt(S.oracles["PythOracleConfig"].oracle_id, "list_prices_no_older_than",
               [price_ids |-> SSort(pids), age |-> S.oracles["PythOracleConfig"].pyth_price_valid_duration_sec], 0, None),
          Rcpt(EX, "batch_update_degen_token_by_pyth_oracle_callback",
               [price_id_token_id_map |-> [x \in pids |-> SSort({t \in py : S.degens[t].pid = x})]], 0, <<at + Len(one)>>)>>
  IN IF ~(T \subseteq DOMAIN S.degens) THEN Err("not degen")
     ELSE IF (po # {} /\ "PriceOracleConfig" \notin DOMAIN S.oracles) \/ (py # {} /\ "PythOracleConfig" \notin DOMAIN S.oracles) THEN Err("no config")
     ELSE [ok |-> TRUE, fx |-> one \o two]

(* ------------------------------------------------------------ one swap against one pool *)
VolumeAdd(p, i, x, j, y) ==
  LET v1 == [p.vol EXCEPT ![i] = [@ EXCEPT !.input = BAdd(@, x)]]
      k == IF IsCurve(p) THEN j ELSE i
  IN [p EXCEPT !.vol = [v1 EXCEPT ![k] = [@ EXCEPT !.output = BAdd(@, y)]]]

\* exactly `x` of tin in
SwapIn(S, id, tin, x, tout, minOut, f, ts) ==
  IF ~HasPool(S, id) THEN Err("E85")
  ELSE LET tw == TwapUpdate(S, Pl(S, id), ts) IN
    IF ~tw.ok THEN tw
    ELSE LET q == PoolSwap(tw.p, tin, x, tout, minOut, f, RatesFor(S, tw.p, ts)) IN
      IF ~q.ok THEN q
      ELSE [ok |-> TRUE, S |-> SetPl(S, id, VolumeAdd(q.p, Idx(q.p.tok, tin), x, Idx(q.p.tok, tout), q.out)), out |-> q.out]
\* exactly `y` of tout out; out = the input needed
SwapOut(S, id, tin, y, tout, maxIn, f, ts) ==
  IF ~HasPool(S, id) THEN Err("E85")
  ELSE LET tw == TwapUpdate(S, Pl(S, id), ts) IN
    IF ~tw.ok THEN tw ELSE IF IsCurve(tw.p) THEN Err("E78")
    ELSE LET q == SimpleSwapByOutput(tw.p, tin, y, tout, maxIn, f) IN
      IF ~q.ok THEN q
      ELSE [ok |-> TRUE, S |-> SetPl(S, id, VolumeAdd(q.p, Idx(q.p.tok, tin), q.out, Idx(q.p.tok, tout), y)), out |-> q.out]

(* ------------------------------------------------------------ action lists *)
IsIn(x) == Has(x, "min_amount_out")
ActTokens(as) == UNION {{as[i].token_in, as[i].token_out} : i \in DOMAIN as}
\* X = [ok, S, a (the account paying and receiving), res (result of the previous action)]
StepIn(X, x, f, ts) ==
  LET n == Get(x, "amount_in", X.res) IN
  IF n = Nil THEN Err("E41")
  ELSE LET w == AWd(X.a, x.token_in, n) IN
    IF ~w.ok THEN w
    ELSE LET q == SwapIn(X.S, x.pool_id, x.token_in, n, x.token_out, x.min_amount_out, f, ts) IN
      IF ~q.ok THEN q ELSE [ok |-> TRUE, S |-> q.S, a |-> ADep(w.a, x.token_out, q.out), res |-> q.out]
RECURSIVE RunIn(_, _, _, _, _)
RunIn(X, as, i, f, ts) == IF ~X.ok \/ i > Len(as) THEN X ELSE RunIn(StepIn(X, as[i], f, ts), as, i + 1, f, ts)

\* outputs are credited first; each chain of actions is paid for by its last input
ClosePrev(X, as, i) == IF i = 0 THEN [ok |-> TRUE, a |-> X.a] ELSE IF X.res = Nil THEN Err("E41") ELSE AWd(X.a, as[i].token_in, X.res)
StepOut(X, as, i, f, ts) ==
  LET x == as[i] fresh == Has(x, "amount_out")
      pre == IF fresh THEN LET w == ClosePrev(X, as, i - 1) IN IF w.ok THEN [ok |-> TRUE, a |-> ADep(w.a, x.token_out, x.amount_out)] ELSE w
             ELSE IF i = 1 THEN Err("no previous action") ELSE IF as[i - 1].token_in # x.token_out THEN Err("chain") ELSE [ok |-> TRUE, a |-> X.a]
      n == IF fresh THEN x.amount_out ELSE X.res
  IN IF ~pre.ok THEN pre ELSE IF n = Nil THEN Err("E41")
     ELSE LET q == SwapOut(X.S, x.pool_id, x.token_in, n, x.token_out, Get(x, "max_amount_in", Nil), f, ts) IN
       IF ~q.ok THEN q ELSE [ok |-> TRUE, S |-> q.S, a |-> pre.a, res |-> q.out]
RECURSIVE RunOut(_, _, _, _, _)
RunOut(X, as, i, f, ts) ==
  IF ~X.ok THEN X
  ELSE IF i > Len(as) THEN LET w == ClosePrev(X, as, Len(as)) IN IF w.ok THEN [X EXCEPT !.a = w.a] ELSE w
  ELSE RunOut(StepOut(X, as, i, f, ts), as, i + 1, f, ts)

DegenTokensOf(S, as) == UNION {IF HasPool(S, as[i].pool_id) THEN (IF Pl(S, as[i].pool_id).kind = "Degen" THEN Toks(Pl(S, as[i].pool_id)) ELSE {}) ELSE {} : i \in DOMAIN as}

\* whole list on account `a`; yields the new state, account, last result and the price refresh receipts
RunActions(S, a, as, first, f, skipSync, ts, at) ==
  IF Len(as) = 0 THEN Err("E72")
  ELSE IF \E i \in DOMAIN as : IsIn(as[i]) # IsIn(as[1]) THEN Err("E77")
  ELSE IF Frozen(S, ActTokens(as)) THEN Err("E52")
  ELSE LET X0 == [ok |-> TRUE, S |-> S, a |-> a, res |-> first]
           X == IF IsIn(as[1]) THEN RunIn(X0, as, 1, f, ts) ELSE RunOut(X0, as, 1, f, ts) IN
    IF ~X.ok THEN X
    ELSE LET y == IF skipSync THEN [ok |-> TRUE, fx |-> None] ELSE DegenSync(S, DegenTokensOf(S, as), at) IN
      IF ~y.ok THEN y ELSE [ok |-> TRUE, S |-> X.S, a |-> X.a, res |-> X.res, fx |-> y.fx]

Skip(c) == Arg(c, "skip_degen_price_sync", FALSE)
TokensAllowed(S, a, c, as) == c.d # "0" \/ \A t \in ActTokens(as) : t \in DOMAIN a.tok \/ Whitelisted(S, t)

ExecActions(S, c, as) ==
  IF ~Running(S) THEN Err("E51") ELSE IF Len(as) = 0 THEN Err("E72") ELSE IF ~IsReg(S, c.p) THEN Err("E10")
  ELSE IF ~TokensAllowed(S, S.a[c.p], c, as) THEN Err("E27")
  ELSE LET r == RunActions(S, S.a[c.p], as, Nil, RefFees(S, Arg(c, "referral_id", Nil)), Skip(c), c.ts, 1) IN
    IF ~r.ok THEN r
    ELSE LET s == Store(r.S, c.p, r.a) IN IF s.ok THEN [ok |-> TRUE, S |-> s.S, fx |-> r.fx, res |-> r.res] ELSE s
DoExecuteActions(S, c) == LET r == ExecActions(S, c, c.a.actions) IN IF r.ok THEN OK(r.S, r.fx, RVal([Amount |-> r.res])) ELSE r
DoSwap(S, c) ==
  IF \E i \in DOMAIN c.a.actions : ~IsIn(c.a.actions[i]) THEN Err("args")
  ELSE LET r == ExecActions(S, c, c.a.actions) IN IF r.ok THEN OK(r.S, r.fx, RVal(r.res)) ELSE r
OutOnly(x) == Drop(x, "min_amount_out")
DoSwapByOutput(S, c) ==
  LET r == ExecActions(S, c, [i \in DOMAIN c.a.actions |-> OutOnly(c.a.actions[i])]) IN IF r.ok THEN OK(r.S, r.fx, RVal(r.res)) ELSE r

RECURSIVE TakeAll(_, _, _, _)
TakeAll(a, v, m, D) ==
  IF D = {} THEN [ok |-> TRUE, a |-> a, v |-> v]
  ELSE LET t == CHOOSE t \in D : TRUE w == AWd(a, t, m[t]) IN IF w.ok THEN TakeAll(w.a, ADep(v, t, m[t]), m, D \ {t}) ELSE w
Positive(m) == {t \in DOMAIN m : BPos(m[t])}
DoExecuteInVa(S, c) ==
  LET as == c.a.actions use == c.a.use_tokens IN
  IF ~Running(S) THEN Err("E51") ELSE IF Len(as) = 0 THEN Err("E72") ELSE IF ~IsReg(S, c.p) THEN Err("E10")
  ELSE IF ~TokensAllowed(S, S.a[c.p], c, as) THEN Err("E27")
  ELSE LET tk == TakeAll(S.a[c.p], NewAcc("0"), use, DOMAIN use) IN
    IF ~tk.ok THEN tk
    ELSE LET r == RunActions(S, tk.v, as, Nil, RefFees(S, Arg(c, "referral_id", Nil)), Skip(c), c.ts, 1) IN
      IF ~r.ok THEN r
      ELSE LET out == [t \in Positive(r.a.tok) |-> r.a.tok[t]]
               s == Store(r.S, c.p, ADepMap(tk.a, out, DOMAIN out)) IN
        IF s.ok THEN OK(s.S, r.fx, RVal(out)) ELSE s

(* ------------------------------------------------------------ liquidity *)
\* pool of kind simple / curve takes am from who; out = [shares, used]
AddTo(S, p, who, am, minShares, ts) ==
  LET e == RatesFor(S, p, ts) IN IF ~e.ok THEN Err("no price") ELSE CurveAdd(p, who, am, minShares, Fees(S), e)
BelowMins(used, mins) == \E i \in DOMAIN used : i <= Len(mins) /\ BLt(used[i], mins[i])

DoAddLiquidity(S, c) ==
  LET id == c.a.pool_id IN
  IF ~Running(S) THEN Err("E51") ELSE IF BZero(c.d) THEN Err("E35") ELSE IF ~HasPool(S, id) THEN Err("E85")
  ELSE LET tw == TwapUpdate(S, Pl(S, id), c.ts) IN
    IF ~tw.ok THEN tw
    ELSE IF Frozen(S, Toks(tw.p)) THEN Err("E52") ELSE IF IsCurve(tw.p) THEN Err("unimplemented")
    ELSE LET q == SimpleAdd(tw.p, c.p, c.a.amounts) IN
      IF ~q.ok THEN q
      ELSE IF BelowMins(q.out.used, Arg(c, "min_amounts", None)) THEN Err("E86") ELSE IF ~IsReg(S, c.p) THEN Err("E10")
      ELSE LET w == AWdAll(S.a[c.p], q.p.tok, q.out.used, 1) IN
        IF ~w.ok THEN w
        ELSE LET s == Store(SetPl(S, id, q.p), c.p, w.a) g == LpGrowth(tw.p, c.p) + Renewed(S, c.p, w.a) IN
          IF ~s.ok THEN s ELSE IF ~Charged(c, g) THEN Err("storage") ELSE OK(s.S, Refund(c, g), RVal(q.out.shares))

DoAddStable(S, c) ==
  LET id == c.a.pool_id IN
  IF ~Running(S) THEN Err("E51") ELSE IF BZero(c.d) THEN Err("E35") ELSE IF ~HasPool(S, id) THEN Err("E85")
  ELSE LET tw == TwapUpdate(S, Pl(S, id), c.ts) IN
    IF ~tw.ok THEN tw
    ELSE IF Frozen(S, Toks(tw.p)) THEN Err("E52") ELSE IF ~IsCurve(tw.p) THEN Err("unimplemented")
    ELSE LET q == AddTo(S, tw.p, c.p, c.a.amounts, c.a.min_shares, c.ts) IN
      IF ~q.ok THEN q
      ELSE IF ~TvlOk(S, q.p, q.p.limit) THEN Err("TVL") ELSE IF ~IsReg(S, c.p) THEN Err("E10")
      ELSE LET w == AWdAll(S.a[c.p], q.p.tok, c.a.amounts, 1) IN
        IF ~w.ok THEN w
        ELSE LET s == Store(SetPl(S, id, q.p), c.p, w.a) g == (IF c.p \in DOMAIN q.p.sh THEN LpGrowth(tw.p, c.p) ELSE 0) + Renewed(S, c.p, w.a) IN
          IF ~s.ok THEN s ELSE IF ~Charged(c, g) THEN Err("storage") ELSE OK(s.S, Refund(c, g), RVal(q.out.shares))

DoRemoveLiquidity(S, c) ==
  LET id == c.a.pool_id IN
  IF ~OneYocto(c) THEN Err("yocto") ELSE IF ~Running(S) THEN Err("E51") ELSE IF ~HasPool(S, id) THEN Err("E85")
  ELSE LET tw == TwapUpdate(S, Pl(S, id), c.ts) IN
    IF ~tw.ok THEN tw ELSE IF ~IsReg(S, c.p) THEN Err("E10")
    ELSE IF BGt(c.a.shares, FreeShares(S.a[c.p], id, ShareBal(tw.p, c.p))) THEN Err("locked")
    ELSE IF Frozen(S, Toks(tw.p)) THEN Err("E52")
    ELSE LET q == PoolRemove(tw.p, c.p, c.a.shares, c.a.min_amounts) IN
      IF ~q.ok THEN q
      ELSE LET s == Store(SetPl(S, id, q.p), c.p, ADepAll(S.a[c.p], q.p.tok, q.out, 1)) IN
        IF s.ok THEN OK(s.S, None, RVal(q.out)) ELSE s

DoRemoveByTokens(S, c) ==
  LET id == c.a.pool_id IN
  IF ~OneYocto(c) THEN Err("yocto") ELSE IF ~Running(S) THEN Err("E51") ELSE IF ~HasPool(S, id) THEN Err("E85")
  ELSE LET tw == TwapUpdate(S, Pl(S, id), c.ts) IN
    IF ~tw.ok THEN tw ELSE IF ~IsReg(S, c.p) THEN Err("E10")
    ELSE IF Frozen(S, Toks(tw.p)) THEN Err("E52") ELSE IF ~IsCurve(tw.p) THEN Err("unimplemented")
    ELSE LET e == RatesFor(S, tw.p, c.ts)
             q == IF e.ok THEN CurveRemoveByTokens(tw.p, c.p, c.a.amounts, c.a.max_burn_shares, Fees(S), e) ELSE Err("no price") IN
      IF ~q.ok THEN q
      ELSE IF BGt(q.out, FreeShares(S.a[c.p], id, ShareBal(tw.p, c.p))) THEN Err("locked")
      ELSE LET s == Store(SetPl(S, id, q.p), c.p, ADepAll(S.a[c.p], q.p.tok, c.a.amounts, 1)) IN
        IF s.ok THEN OK(s.S, None, RVal(q.out)) ELSE s

(* ------------------------------------------------------------ tokens arriving with a message *)
\* swaps on a virtual account holding only what arrived; everything left on it is the result
Direct(S, t, n, rid, as, skip, ts, at) ==
  IF Len(as) = 0 THEN Err("E72")
  ELSE LET v == ADep(NewAcc("0"), t, n)
           r == RunActions(S, v, as, IF IsIn(as[1]) THEN n ELSE Nil, RefFees(S, rid), skip, ts, at) IN
    IF r.ok THEN [ok |-> TRUE, S |-> r.S, fx |-> r.fx, out |-> [x \in Positive(r.a.tok) |-> r.a.tok[x]]] ELSE r

Matches(pats, x) == x \in pats \/ \E y \in pats : SStarts(y, "*") /\ SEnds(x, SDrop(y, 1))
EchoAllowed(S, t, who) == Matches(S.cfg.ssw, who) \/ (Matches(S.cfg.cetw, t) /\ Matches(S.cfg.cesw, who))

RECURSIVE SendAll(_, _, _, _, _)
SendAll(S, out, D, m, at) ==  \* m = [echo, to, unwrap]
  IF D = {} THEN None
  ELSE LET t == CHOOSE t \in D : TRUE
           r == IF m.echo # Nil THEN SendWithMsg(m.to, t, out[t], m.echo, at) ELSE SendTokens(S, m.to, t, out[t], m.unwrap, at)
       IN r \o SendAll(S, out, D \ {t}, m, at + 2)

InstantSwap(S, c, m) ==
  LET who == c.a.sender_id echo == Get(m, "client_echo", Nil) rec == Get(m, "swap_out_recipient", Nil) IN
  IF echo # Nil /\ rec # Nil THEN Err("both") ELSE IF echo # Nil /\ ~EchoAllowed(S, c.p, who) THEN Err("echo")
  ELSE LET r == Direct(S, c.p, c.a.amount, Get(m, "referral_id", Nil), m.actions, Get(m, "skip_degen_price_sync", FALSE), c.ts, 1) IN
    IF ~r.ok THEN r
    ELSE IF echo # Nil /\ who = S.cfg.burrow /\ Cardinality(DOMAIN r.out) # 1 THEN Err("one out token")
    ELSE OK(r.S, r.fx \o SendAll(S, r.out, DOMAIN r.out,
              [echo |-> echo, to |-> IF rec = Nil THEN who ELSE rec, unwrap |-> Get(m, "skip_unwrap_near", TRUE) = FALSE], Len(r.fx) + 1), RVal("0"))

\* X = [ok, S, v (the virtual account), g (storage growth)]
ZapAdd(X, who, z, ts) ==
  IF ~HasPool(X.S, z.pool_id) THEN Err("E85")
  ELSE LET tw == TwapUpdate(X.S, Pl(X.S, z.pool_id), ts) IN
    IF ~tw.ok THEN tw
    ELSE LET p == tw.p
             q == IF IsCurve(p) THEN IF Has(z, "min_shares") THEN AddTo(X.S, p, who, z.amounts, z.min_shares, ts) ELSE Err("min_shares")
                  ELSE IF ~Has(z, "min_amounts") THEN Err("min_amounts") ELSE SimpleAdd(p, who, z.amounts) IN
      IF ~q.ok THEN q
      ELSE IF ~IsCurve(p) /\ BelowMins(q.out.used, z.min_amounts) THEN Err("E86")
      ELSE IF ~TvlOk(X.S, q.p, q.p.limit) THEN Err("TVL")
      ELSE LET w == AWdAll(X.v, p.tok, q.out.used, 1) IN
        IF ~w.ok THEN w
        ELSE [ok |-> TRUE, S |-> SetPl(X.S, z.pool_id, q.p), v |-> w.a, g |-> X.g + (IF who \in DOMAIN q.p.sh THEN LpGrowth(p, who) ELSE 0)]
RECURSIVE ZapAll(_, _, _, _, _)
ZapAll(X, who, zs, i, ts) == IF ~X.ok \/ i > Len(zs) THEN X ELSE ZapAll(ZapAdd(X, who, zs[i], ts), who, zs, i + 1, ts)

HotZap(S, c, m) ==
  LET who == c.a.sender_id as == m.hot_zap_actions zs == m.add_liquidity_infos IN
  IF Len(as) = 0 \/ Len(zs) = 0 THEN Err("empty") ELSE IF ~IsReg(S, who) THEN Err("E10")
  ELSE IF \E i \in DOMAIN zs : ~HasPool(S, zs[i].pool_id) THEN Err("E85")
  ELSE LET all == ActTokens(as) \cup UNION {Toks(Pl(S, zs[i].pool_id)) : i \in DOMAIN zs} IN
    IF \E t \in all : ~Whitelisted(S, t) /\ t \notin DOMAIN S.a[who].tok THEN Err("E12") ELSE IF Frozen(S, all) THEN Err("E52")
    ELSE LET r == Direct(S, c.p, c.a.amount, Get(m, "referral_id", Nil), as, Get(m, "skip_degen_price_sync", FALSE), c.ts, 1) IN
      IF ~r.ok THEN r
      ELSE LET X == ZapAll([ok |-> TRUE, S |-> r.S, v |-> [NewAcc("0") EXCEPT !.tok = r.out], g |-> 0], who, zs, 1, c.ts) IN
        IF ~X.ok THEN X ELSE IF BLt(S.a[who].near, GrowthCost(X.g)) THEN Err("E11")
        ELSE LET a1 == [S.a[who] EXCEPT !.near = BSub(@, GrowthCost(X.g))]
                 s == Store(X.S, who, ADepMap(a1, X.v.tok, DOMAIN X.v.tok)) IN
          IF s.ok THEN OK(s.S, r.fx, RVal("0")) ELSE s

DoOnTransfer(S, c) ==
  LET who == c.a.sender_id t == c.p n == c.a.amount IN
  IF ~Running(S) THEN Err("E51")
  ELSE IF c.a.msg = "" THEN
    IF Frozen(S, {t}) THEN Err("E52") ELSE IF ~IsReg(S, who) THEN Err("E10")
    ELSE IF ~Whitelisted(S, t) /\ t \notin DOMAIN S.a[who].tok THEN Err("E12")
    ELSE LET s == Store(S, who, ADep(S.a[who], t, n)) IN IF s.ok THEN OK(s.S, None, RVal("0")) ELSE s
  ELSE IF c.msg = Empty THEN Err("E28")
  ELSE IF Has(c.msg, "actions") THEN InstantSwap(S, c, c.msg)
  ELSE IF Has(c.msg, "hot_zap_actions") /\ Has(c.msg, "add_liquidity_infos") THEN HotZap(S, c, c.msg)
  ELSE Err("E28")
=============================================================================
