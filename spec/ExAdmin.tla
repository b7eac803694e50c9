------------------------------- MODULE ExAdmin -------------------------------
(* Pool creation, governance, rates and prices, price history and limits of the exchange. *)
EXTENDS ExOps

Cfg(S, k, v) == OK([S EXCEPT !.cfg = [@ EXCEPT ![k] = v]], None, RNone)
Same(S) == OK(S, None, RNone)
\* guards of the governance calls
ByOwner(S, c) == OneYocto(c) /\ IsOwner(S, c)
ByAdmin(S, c) == OneYocto(c) /\ IsAdmin(S, c)
If(g, r) == IF g THEN r ELSE Err("guard")
Distinct(s) == Cardinality(Range(s)) = Len(s)

(* ------------------------------------------------------------ pools *)
NewPool(kind, toks, decs, fee, amp) ==
  [kind |-> kind, tok |-> toks, dec |-> decs, amt |-> [i \in DOMAIN toks |-> "0"], fee |-> fee, sup |-> "0", sh |-> (EX :> "0"),
   vol |-> [i \in DOMAIN toks |-> [input |-> "0", output |-> "0"]], a0 |-> BStr(amp), a1 |-> BStr(amp), t0 |-> "0", t1 |-> "0",
   twap |-> NoTwap, limit |-> Nil]
\* a pool is a few hundred bytes; a call that failed shows no growth, then anything below this is too little
POOL_BYTES == 350
AddPool(S, c, p) ==
  LET g == IF c.g > 0 THEN c.g ELSE POOL_BYTES IN
  IF ~Charged(c, g) THEN Err("storage") ELSE OK([S EXCEPT !.p = Append(@, p)], Refund(c, g), RVal(Len(S.p)))
DoAddSimple(S, c) ==
  IF ~Running(S) \/ ~Distinct(c.a.tokens) \/ Len(c.a.tokens) # 2 \/ c.a.fee >= BPS THEN Err("guard")
  ELSE AddPool(S, c, NewPool("Simple", c.a.tokens, None, c.a.fee, 0))
DoAddCurve(S, c, kind) ==
  IF ~IsAdmin(S, c) \/ Len(c.a.tokens) # Len(c.a.decimals) \/ ~Distinct(c.a.tokens) THEN Err("guard")
  ELSE IF BLt(c.a.amp_factor, 1) \/ BGt(c.a.amp_factor, 1000000) \/ c.a.fee >= BPS THEN Err("guard")
  ELSE IF \E i \in DOMAIN c.a.decimals : c.a.decimals[i] < 1 \/ c.a.decimals[i] > 24 THEN Err("decimals")
  ELSE AddPool(S, c, NewPool(kind, c.a.tokens, c.a.decimals, c.a.fee, c.a.amp_factor))

(* ------------------------------------------------------------ amplification *)
DoRamp(S, c) ==
  IF ~ByAdmin(S, c) \/ ~HasPool(S, c.a.pool_id) THEN Err("guard")
  ELSE LET p == Pl(S, c.a.pool_id) to == c.a.future_amp_factor end == c.a.future_amp_time IN
    IF ~IsCurve(p) THEN Err("E88")
    ELSE LET cur == Amp(p, c.ts) IN
      IF BLt(c.ts, BAdd(p.t0, DAY)) \/ BLt(end, BAdd(c.ts, DAY)) THEN Err("time")
      ELSE IF ~BPos(to) \/ BGe(to, 1000000) THEN Err("E83")
      ELSE IF BGt(to, BMul(cur, 10)) \/ BLt(BMul(to, 10), cur) THEN Err("E84")
      ELSE OK(SetPl(S, c.a.pool_id, [p EXCEPT !.a0 = cur, !.t0 = BStr(c.ts), !.a1 = BStr(to), !.t1 = BStr(end)]), None, RNone)
DoStopRamp(S, c) ==
  IF ~ByAdmin(S, c) \/ ~HasPool(S, c.a.pool_id) THEN Err("guard")
  ELSE LET p == Pl(S, c.a.pool_id) cur == Amp(p, c.ts) IN
    IF ~IsCurve(p) THEN Err("E88")
    ELSE OK(SetPl(S, c.a.pool_id, [p EXCEPT !.a0 = cur, !.a1 = cur, !.t0 = BStr(c.ts), !.t1 = BStr(c.ts)]), None, RNone)

(* ------------------------------------------------------------ sets in the configuration *)
Add(S, k, xs) == Cfg(S, k, S.cfg[k] \cup Range(xs))
AddNew(S, k, xs, valid(_)) ==
  IF \E x \in Range(xs) : x \in S.cfg[k] \/ ~valid(x) THEN Err("list") ELSE IF ~Distinct(xs) THEN Err("list") ELSE Add(S, k, xs)
Remove(S, k, xs) == IF (\E x \in Range(xs) : x \notin S.cfg[k]) \/ ~Distinct(xs) THEN Err("list") ELSE Cfg(S, k, S.cfg[k] \ Range(xs))
WildOk(x) == SStarts(x, "*") => SStarts(x, "*.")
AnyOk(x) == TRUE
DoChangeState(S, c) ==
  If(ByAdmin(S, c) /\ ~(c.a.state = "Running" /\ S.cfg.state # "Running" /\ ~IsOwner(S, c)), Cfg(S, "state", c.a.state))
BpsOk(b) == b > 0 /\ b < BPS
DoModifyTotalFee(S, c) ==
  IF ~ByAdmin(S, c) \/ ~HasPool(S, c.a.pool_id) \/ c.a.total_fee >= BPS THEN Err("guard")
  ELSE OK(SetPl(S, c.a.pool_id, [Pl(S, c.a.pool_id) EXCEPT !.fee = c.a.total_fee]), None, RNone)
\* fee shares of the exchange are turned into tokens of the owner
DoRemoveFeeLiquidity(S, c) ==
  LET id == c.a.pool_id o == S.cfg.owner IN
  IF ~ByAdmin(S, c) \/ ~Running(S) \/ ~HasPool(S, id) THEN Err("guard")
  ELSE LET q == PoolRemove(Pl(S, id), EX, c.a.shares, c.a.min_amounts) IN
    IF ~q.ok THEN q ELSE IF ~IsReg(S, o) THEN Err("E10")
    ELSE LET s == Store(SetPl(S, id, q.p), o, ADepAll(S.a[o], q.p.tok, q.out, 1)) IN IF s.ok THEN OK(s.S, None, RNone) ELSE s
DoWithdrawOwner(S, c) ==
  LET o == S.cfg.owner t == c.a.token_id IN
  IF ~ByAdmin(S, c) \/ ~Running(S) \/ BZero(c.a.amount) \/ ~IsReg(S, o) THEN Err("guard")
  ELSE LET w == AWd(S.a[o], t, c.a.amount) IN
    IF w.ok THEN OK(StoreAnyway(S, o, w.a), SendTokens(S, o, t, c.a.amount, Unwrap(c), 1), RProm(2)) ELSE w
DoRetrieve(S, c) ==
  If(ByOwner(S, c) /\ BPos(c.a.amount),
     OK(S, <<Rcpt(c.a.token_id, "ft_transfer", [receiver_id |-> S.cfg.owner, amount |-> c.a.amount], 1, None)>>, RProm(1)))

(* ------------------------------------------------------------ rates of rated tokens *)
RATE_KINDS == {"STNEAR", "LINEAR", "NEARX", "SFRAX"}
SfraxOk(x) ==
  IF DOMAIN x = {} THEN FALSE
  ELSE LET k == CHOOSE k \in DOMAIN x : TRUE
           d == IF k = "PriceOracle" THEN x[k].maximum_staleness_duration_sec ELSE x[k].pyth_price_valid_duration_sec IN d >= 10 /\ d <= 300
DoRegisterRated(S, c) ==
  LET k == c.a.rate_type t == c.a.token_id IN
  IF ~ByAdmin(S, c) \/ k \notin RATE_KINDS \/ t \in DOMAIN S.rates THEN Err("guard")
  ELSE IF k = "SFRAX" /\ (IF Has(c, "x") THEN ~SfraxOk(c.x) ELSE TRUE) THEN Err("extra info")
  ELSE OK([S EXCEPT !.rates = Put(@, t, [kind |-> k, price |-> PREC, upd |-> "0", info |-> IF k = "SFRAX" THEN c.x ELSE Empty])], None, RNone)
DoUpdateRatedInfo(S, c) ==
  LET t == c.a.token_id IN
  IF ~ByAdmin(S, c) \/ t \notin DOMAIN S.rates THEN Err("guard")
  ELSE IF S.rates[t].kind # "SFRAX" \/ (IF Has(c, "x") THEN ~SfraxOk(c.x) ELSE TRUE) THEN Err("extra info")
  ELSE OK([S EXCEPT !.rates[t].info = c.x], None, RNone)
RateView == [STNEAR |-> "get_st_near_price", LINEAR |-> "ft_price", NEARX |-> "get_nearx_price"]
\* anybody may ask the token for its current rate
DoUpdateRate(S, c) ==
  LET t == c.a.token_id IN
  IF t \notin DOMAIN S.rates THEN OK(S, None, RVal(TRUE))
  ELSE LET r == S.rates[t]
           ask == IF r.kind # "SFRAX" THEN <<Rcpt(t, RateView[r.kind], Empty, 0, None)>>
                  ELSE IF Has(r.info, "PriceOracle")
                  THEN <<Rcpt(r.info.PriceOracle.oracle_id, "get_price_data", [asset_ids |-> <<r.info.PriceOracle.base_contract_id, t>>], 0, None)>>
                  ELSE LET o == r.info.PythOracle IN
                       <<Rcpt(o.oracle_id, "get_price", [price_identifier |-> o.base_price_identifier], 0, None),
                         Rcpt(o.oracle_id, "get_price", [price_identifier |-> o.rate_price_identifier], 0, None)>>
       IN OK(S, ask \o <<Rcpt(EX, "update_token_rate_callback", [token_id |-> t], 0, [i \in DOMAIN ask |-> i])>>, RProm(Len(ask) + 1))

\* an answer of an oracle: [ok, price]
Seconds(n) == BMul(n, "1000000000")
RecentEnough(x, ts, rec, stale) ==
  x.recency_duration_sec <= rec /\ BLe(x.timestamp, ts) /\ BLe(BSub(ts, x.timestamp), Seconds(stale))
PythUsable(x, ts, dur) == BPos(x.price) /\ x.publish_time > 0 /\ BGe(Seconds(BAdd(x.publish_time, dur)), ts)
PythPrice(x) == IF x.expo > 0 THEN BMul(BMul(PREC, x.price), Pow10(x.expo)) ELSE BDiv(BMul(PREC, x.price), Pow10(-x.expo))
\* what fits in the words the contract computes with: a power of ten in 128 bits, everything else in 256
PythFits(x) == x.expo <= 38 /\ x.expo >= -38 /\ BFits(BMul(PREC, PythPrice(x)), 256)
IsRec(v, ks) == IF IsStr(v) THEN FALSE ELSE IF v = None \/ v = TRUE \/ v = FALSE THEN FALSE ELSE ks \subseteq DOMAIN v
PriceNum(v) == IF IsStr(v) THEN SIsNum(v) ELSE FALSE
NewRate(S, t, c) ==
  LET r == S.rates[t] i == r.info v == c.pr[1].v IN
  IF r.kind # "SFRAX" THEN IF Len(c.pr) = 1 /\ PriceNum(v) THEN [ok |-> TRUE, price |-> v] ELSE Err("parse")
  ELSE IF Has(i, "PriceOracle") THEN
    LET o == i.PriceOracle IN
    IF Len(c.pr) # 1 \/ IsStr(v) THEN Err("parse") ELSE IF ~RecentEnough(v, c.ts, o.maximum_recency_duration_sec, o.maximum_staleness_duration_sec) THEN Err("stale")
    ELSE LET q == v.prices IN
      IF Len(q) < 2 THEN Err("short") ELSE IF q[1].asset_id # o.base_contract_id \/ q[2].asset_id # t \/ ~Has(q[1], "price") \/ ~Has(q[2], "price") THEN Err("assets")
      ELSE IF q[1].price.decimals # q[2].price.decimals \/ BZero(q[1].price.multiplier) THEN Err("decimals")
      ELSE [ok |-> TRUE, price |-> BMulDiv(PREC, q[2].price.multiplier, q[1].price.multiplier)]
  ELSE LET o == i.PythOracle IN
    IF Len(c.pr) # 2 THEN Err("pair")
    ELSE LET b == c.pr[1].v x == c.pr[2].v IN
      IF IsStr(b) \/ IsStr(x) THEN Err("parse")
      ELSE IF ~PythUsable(b, c.ts, o.pyth_price_valid_duration_sec) \/ ~PythUsable(x, c.ts, o.pyth_price_valid_duration_sec) THEN Err("stale")
      ELSE IF ~PythFits(x) \/ ~BFits(PythPrice(b), 256) \/ b.expo > 38 \/ b.expo < -38 THEN Err("overflow")
      ELSE IF BZero(PythPrice(b)) THEN Err("div0") ELSE [ok |-> TRUE, price |-> BMulDiv(PREC, PythPrice(x), PythPrice(b))]
DoRateCallback(S, c) ==
  LET t == c.a.token_id IN
  IF ~Self(c) \/ Len(c.pr) \notin {1, 2} THEN Err("private") ELSE IF \E i \in DOMAIN c.pr : ~c.pr[i].ok THEN Err("E124")
  ELSE IF t \notin DOMAIN S.rates THEN OK(S, None, RNone)
  ELSE LET n == NewRate(S, t, c) IN
    IF ~n.ok THEN n ELSE IF ~U128(n.price) THEN Err("overflow") ELSE OK([S EXCEPT !.rates[t] = [@ EXCEPT !.price = n.price, !.upd = c.ts]], None, RNone)

(* ------------------------------------------------------------ prices of degen tokens *)
DegenOf(d) == IF Has(d, "PriceOracle") THEN [kind |-> "PriceOracle", price |-> Nil, upd |-> "0", pid |-> Nil, dec |-> d.PriceOracle.decimals]
              ELSE [kind |-> "PythOracle", price |-> Nil, upd |-> "0", pid |-> d.PythOracle.price_identifier, dec |-> 0]
DoSetDegen(S, c, exists) ==
  IF ~(IF exists THEN ByOwner(S, c) ELSE ByAdmin(S, c)) \/ (c.a.token_id \in DOMAIN S.degens) # exists THEN Err("guard")
  ELSE OK([S EXCEPT !.degens = Put(@, c.a.token_id, DegenOf(c.a.degen_type))], None, RNone)
ConfKey(d) == IF Has(d, "PriceOracle") THEN "PriceOracleConfig" ELSE "PythOracleConfig"
ConfVal(d) == IF Has(d, "PriceOracle") THEN d.PriceOracle ELSE d.PythOracle
DoSetOracle(S, c, exists) ==
  LET d == c.a.degen_oracle_config IN
  IF ~(IF exists THEN ByOwner(S, c) ELSE ByAdmin(S, c)) \/ (ConfKey(d) \in DOMAIN S.oracles) # exists THEN Err("guard")
  ELSE OK([S EXCEPT !.oracles = Put(@, ConfKey(d), ConfVal(d))], None, RNone)
DoUpdateDegen(S, c) ==
  LET t == c.a.token_id IN
  IF t \notin DOMAIN S.degens THEN Err("not degen")
  ELSE LET d == S.degens[t] k == OracleKey(d.kind) IN
    IF k \notin DOMAIN S.oracles THEN Err("no config")
    ELSE OK(S, <<Rcpt(S.oracles[k].oracle_id, IF d.kind = "PriceOracle" THEN "get_price_data" ELSE "get_price",
                      IF d.kind = "PriceOracle" THEN [asset_ids |-> <<t>>] ELSE [price_identifier |-> d.pid], 0, None),
                 Rcpt(EX, "update_degen_token_price_callback", [token_id |-> t], 0, <<1>>)>>, RNone)
DoBatchDegen(S, c) == LET y == DegenSync(S, Range(c.a.token_ids), 1) IN IF y.ok THEN OK(S, y.fx, RNone) ELSE y

Quote(q, dec) ==  \* price of a price oracle entry for a token of dec decimals
  IF q.decimals < dec THEN Err("decimals") ELSE [ok |-> TRUE, price |-> BMulDiv(PREC, q.multiplier, Pow10(q.decimals - dec))]
SetPrice(S, t, n, ts) == [S EXCEPT !.degens[t] = [@ EXCEPT !.price = n, !.upd = ts]]
DoDegenCallback(S, c) ==
  LET t == c.a.token_id IN
  IF ~Self(c) \/ Len(c.pr) # 1 THEN Err("private") ELSE IF ~c.pr[1].ok THEN OK(S, None, RNone)
  ELSE IF t \notin DOMAIN S.degens THEN Err("not degen")
  ELSE LET d == S.degens[t] k == OracleKey(d.kind) v == c.pr[1].v IN
    IF k \notin DOMAIN S.oracles \/ IsStr(v) THEN Err("no config")
    ELSE LET o == S.oracles[k]
             n == IF d.kind = "PriceOracle" THEN
                    IF ~RecentEnough(v, c.ts, o.maximum_recency_duration_sec, o.maximum_staleness_duration_sec) THEN Err("stale")
                    ELSE IF Len(v.prices) = 0 THEN Err("short")
                    ELSE IF v.prices[1].asset_id # t \/ ~Has(v.prices[1], "price") THEN Err("asset") ELSE Quote(v.prices[1].price, d.dec)
                  ELSE IF PythUsable(v, c.ts, o.pyth_price_valid_duration_sec) THEN [ok |-> TRUE, price |-> PythPrice(v)] ELSE Err("stale") IN
      IF ~n.ok THEN n ELSE IF ~U128(n.price) THEN Err("overflow") ELSE OK(SetPrice(S, t, n.price, c.ts), None, RNone)
RECURSIVE ApplyQuotes(_, _, _, _, _)
ApplyQuotes(S, qs, i, m, ts) ==
  IF i > Len(qs) THEN [ok |-> TRUE, S |-> S]
  ELSE IF ~Has(qs[i], "price") THEN ApplyQuotes(S, qs, i + 1, m, ts)
  ELSE LET t == qs[i].asset_id IN
    IF t \notin DOMAIN m THEN ApplyQuotes(S, qs, i + 1, m, ts)
    ELSE LET n == Quote(qs[i].price, m[t]) IN
      IF t \notin DOMAIN S.degens \/ ~n.ok THEN Err("quote") ELSE ApplyQuotes(SetPrice(S, t, n.price, ts), qs, i + 1, m, ts)
DoBatchPriceCallback(S, c) ==
  IF ~Self(c) \/ Len(c.pr) # 1 THEN Err("private") ELSE IF ~c.pr[1].ok THEN OK(S, None, RNone)
  ELSE LET v == c.pr[1].v k == "PriceOracleConfig" IN
    IF IsStr(v) \/ k \notin DOMAIN S.oracles THEN Err("parse")
    ELSE IF ~RecentEnough(v, c.ts, S.oracles[k].maximum_recency_duration_sec, S.oracles[k].maximum_staleness_duration_sec) THEN Err("stale")
    ELSE LET r == ApplyQuotes(S, v.prices, 1, c.a.token_id_decimals_map, c.ts) IN IF r.ok THEN OK(r.S, None, RNone) ELSE r
RECURSIVE SetPrices(_, _, _, _)
SetPrices(S, T, n, ts) == IF T = {} THEN S ELSE LET t == CHOOSE t \in T : TRUE IN SetPrices(SetPrice(S, t, n, ts), T \ {t}, n, ts)
RECURSIVE ApplyPyth(_, _, _, _, _, _)
ApplyPyth(S, v, m, D, dur, ts) ==
  IF D = {} THEN [ok |-> TRUE, S |-> S]
  ELSE LET x == CHOOSE x \in D : TRUE rest == D \ {x} IN
    IF x \notin DOMAIN v THEN ApplyPyth(S, v, m, rest, dur, ts)
    ELSE IF ~PythUsable(v[x], ts, dur) THEN ApplyPyth(S, v, m, rest, dur, ts)
    ELSE IF ~(Range(m[x]) \subseteq DOMAIN S.degens) \/ ~U128(PythPrice(v[x])) THEN Err("not degen")
    ELSE ApplyPyth(SetPrices(S, Range(m[x]), PythPrice(v[x]), ts), v, m, rest, dur, ts)
DoBatchPythCallback(S, c) ==
  IF ~Self(c) \/ Len(c.pr) # 1 THEN Err("private") ELSE IF ~c.pr[1].ok THEN OK(S, None, RNone)
  ELSE LET v == c.pr[1].v k == "PythOracleConfig" m == c.a.price_id_token_id_map IN
    IF IsStr(v) \/ k \notin DOMAIN S.oracles THEN Err("parse")
    ELSE LET r == ApplyPyth(S, v, m, DOMAIN m, S.oracles[k].pyth_price_valid_duration_sec, c.ts) IN IF r.ok THEN OK(r.S, None, RNone) ELSE r

(* ------------------------------------------------------------ limits and price history *)
DoPoolLimit(S, c, exists) ==
  IF ~(IF exists THEN ByOwner(S, c) ELSE ByAdmin(S, c)) \/ ~HasPool(S, c.a.pool_id) THEN Err("guard")
  ELSE LET p == Pl(S, c.a.pool_id) IN
    IF p.kind # "Degen" \/ (p.limit # Nil) # exists \/ (\E t \in Toks(p) : ~Priced(S, t)) THEN Err("limit")  \* a pool without prices cannot be looked at
    ELSE OK(SetPl(S, c.a.pool_id, [p EXCEPT !.limit = c.a.degen_pool_limit_info.tvl_limit]), None, RNone)
DoRemoveLimit(S, c) ==
  IF ~ByOwner(S, c) \/ ~HasPool(S, c.a.pool_id) THEN Err("guard") ELSE IF Pl(S, c.a.pool_id).limit = Nil THEN Err("limit")
  ELSE OK(SetPl(S, c.a.pool_id, [Pl(S, c.a.pool_id) EXCEPT !.limit = Nil]), None, RNone)
DoTwapRegister(S, c) ==
  IF ~ByAdmin(S, c) \/ ~HasPool(S, c.a.pool_id) THEN Err("guard")
  ELSE LET p == Pl(S, c.a.pool_id) u == UnitAmounts(p) IN
    IF p.twap.last # -1 \/ ~u.ok THEN Err("twap") ELSE IF u.v = None THEN Err("shares")
    ELSE OK(SetPl(S, c.a.pool_id, TwapStart(p, c.ts, u.v)), None, RNone)
DoTwapUnregister(S, c) ==
  IF ~ByAdmin(S, c) \/ ~HasPool(S, c.a.pool_id) THEN Err("guard") ELSE IF Pl(S, c.a.pool_id).twap.last = -1 THEN Err("twap")
  ELSE OK(SetPl(S, c.a.pool_id, [Pl(S, c.a.pool_id) EXCEPT !.twap = NoTwap]), None, RNone)
DoTwapSync(S, c) ==
  IF ~HasPool(S, c.a.pool_id) THEN Err("E85")
  ELSE LET p == Pl(S, c.a.pool_id) u == UnitAmounts(p) IN
    IF p.twap.last = -1 \/ ~u.ok THEN Err("twap") ELSE IF u.v = None THEN Err("shares")
    ELSE LET r == TwapUpdate(S, p, c.ts) IN OK(SetPl(S, c.a.pool_id, r.p), None, RNone)
=============================================================================
