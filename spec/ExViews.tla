------------------------------- MODULE ExViews -------------------------------
(* What the views of the exchange answer in state S: quotes and predictions are those of the operation they announce. *)
EXTENDS Exchange

VIEWER == "@view"
Val(v) == [ok |-> TRUE, v |-> v]
\* a pool in which the viewer holds every share
Held(p) == [p EXCEPT !.sh = Put(@, VIEWER, p.sup)]
Out(q) == IF q.ok THEN Val(q.out) ELSE q
Kind(S, id, k) == IF HasPool(S, id) THEN Pl(S, id).kind = k ELSE FALSE
Curve(S, id) == IF HasPool(S, id) THEN IsCurve(Pl(S, id)) ELSE FALSE
Env(S, p, a, k, ts) ==  \* rates given with the question, or the ones in force
  IF Has(a, k) THEN [ts |-> ts, ok |-> TRUE, r |-> a[k], valid |-> TRUE] ELSE RatesFor(S, p, ts)
Asked == {"get_rated_return", "predict_add_rated_liquidity", "predict_remove_rated_liquidity_by_tokens"}

QuoteIn(S, a, ts) ==
  IF ~HasPool(S, a.pool_id) THEN Err("E85")
  ELSE LET p == Pl(S, a.pool_id) IN Out(PoolSwap(p, a.token_in, a.amount_in, a.token_out, "0", Fees(S), RatesFor(S, p, ts)))
QuoteOut(S, a) ==
  IF ~Kind(S, a.pool_id, "Simple") THEN Err("E78")
  ELSE Out(SimpleSwapByOutput(Pl(S, a.pool_id), a.token_in, a.amount_out, a.token_out, Nil, Fees(S)))
QuoteRated(S, a, k, ts) ==
  LET p == Pl(S, a.pool_id) e == Env(S, p, a, k, ts) i == Idx(p.tok, a.token_in) j == Idx(p.tok, a.token_out) IN
  IF a.token_in = a.token_out \/ i = 0 \/ j = 0 \/ ~e.ok THEN Err("args")
  ELSE LET q == CurveQuote(p, i, ToC(p, i, a.amount_in), j, Fees(S), e) IN IF q = None THEN Err("E70") ELSE Val(FromC(p, j, q[3]))
PredictAddSimple(S, a) ==
  IF ~Kind(S, a.pool_id, "Simple") THEN Err("kind")
  ELSE LET q == SimpleAdd(Pl(S, a.pool_id), VIEWER, a.amounts) IN
    IF q.ok THEN Val([need_amounts |-> q.out.used, mint_shares |-> q.out.shares]) ELSE q
PredictAddCurve(S, a, k, ts) ==
  LET p == Pl(S, a.pool_id) e == Env(S, p, a, k, ts) IN
  IF Len(a.amounts) # Len(p.tok) \/ ~e.ok THEN Err("args")
  ELSE LET l == CurveAddShares(p, a.amounts, Fees(S), e) IN IF l = None THEN Err("E67") ELSE Val(l[1])
PredictRemove(S, a) ==
  IF ~HasPool(S, a.pool_id) THEN Err("E85")
  ELSE LET p == Pl(S, a.pool_id) IN Out(PoolRemove(Held(p), VIEWER, a.shares, [i \in DOMAIN p.tok |-> "0"]))
PredictRemoveTokens(S, a, k, ts) ==
  LET p == Pl(S, a.pool_id) e0 == Env(S, p, a, k, ts) e == IF k = "no" THEN e0 ELSE [e0 EXCEPT !.valid = TRUE] IN  \* at recorded rates even if they are old
  IF ~e.ok THEN Err("price") ELSE Out(CurveRemoveByTokens(Held(p), VIEWER, a.amounts, BSub(BPow(2, 128), 1), Fees(S), e))
Left(a) == [x \in Positive(a.tok) |-> a.tok[x]]
PredictSwaps(S, a, ts) ==
  LET d == a.token_deposit
      r == RunActions(S, ADepMap(NewAcc("0"), d, DOMAIN d), a.actions, Nil, Fees(S), TRUE, ts, 1) IN
  IF r.ok THEN Val(Left(r.a)) ELSE r
\* the pools are filled in turn
RECURSIVE ZapPredict(_, _, _, _)
ZapPredict(X, zs, i, ts) ==
  IF ~X.ok \/ i > Len(zs) THEN X
  ELSE LET z == zs[i] p == Pl(X.S, z.pool_id)
           q == IF IsCurve(p) THEN AddTo(X.S, p, VIEWER, z.amounts, "0", ts) ELSE SimpleAdd(p, VIEWER, z.amounts) IN
    IF ~q.ok THEN q ELSE IF ~TvlOk(X.S, q.p, q.p.limit) THEN Err("TVL")
    ELSE LET w == AWdAll(X.v, p.tok, q.out.used, 1) IN
      IF ~w.ok THEN w
      ELSE ZapPredict([X EXCEPT !.S = SetPl(X.S, z.pool_id, [q.p EXCEPT !.sh = p.sh]), !.v = w.a,
                               !.out = Append(@, [need_amounts |-> q.out.used, mint_shares |-> q.out.shares])], zs, i + 1, ts)
PredictZap(S, a, ts) ==
  LET as == a.hot_zap_actions zs == a.add_liquidity_infos IN
  IF Len(as) = 0 \/ Len(zs) = 0 THEN Val("null")
  ELSE IF \E i \in DOMAIN zs : ~HasPool(S, zs[i].pool_id) THEN Err("E85")
  ELSE LET all == ActTokens(as) \cup UNION {Toks(Pl(S, zs[i].pool_id)) : i \in DOMAIN zs}
           who == Get(a, "account_id", Nil)
           known(t) == Whitelisted(S, t) \/ (IF who = Nil THEN FALSE ELSE t \in DOMAIN S.a[who].tok) IN
    IF who # Nil /\ ~IsReg(S, who) THEN Err("E10") ELSE IF \E t \in all : ~known(t) THEN Err("E12") ELSE IF Frozen(S, all) THEN Err("E52")
    ELSE LET r == RunActions(S, ADep(NewAcc("0"), a.token_in, a.amount_in), as, IF IsIn(as[1]) THEN a.amount_in ELSE Nil,
                             RefFees(S, Get(a, "referral_id", Nil)), TRUE, ts, 1) IN
      IF ~r.ok THEN r
      ELSE LET X == ZapPredict([ok |-> TRUE, S |-> r.S, v |-> r.a, out |-> None], zs, 1, ts) IN
        IF X.ok THEN Val(<<X.out, Left(X.v)>>) ELSE X
\* the average of one unit of shares over the whole ring of records, once the ring is full
Average(S, a, ts) ==
  LET p == Pl(S, a.pool_id) u == UnitAmounts(p) IN
  IF p.twap.last = -1 \/ ~u.ok THEN Err("twap") ELSE IF u.v = None THEN Val("null")
  ELSE LET w == TwapAdvance(p.twap, u.v, ts, S.cfg.interval) IN
    IF Len(w.recs) # TWAP_KEEP THEN Val("null")
    ELSE IF w.last = w.recs[1].t THEN Err("just started")
    ELSE Val([i \in DOMAIN w.cum |-> BDiv(BMod(BSub(BAdd(w.cum[i], BPow(2, 256)), w.recs[1].cum[i]), BPow(2, 256)), w.last - w.recs[1].t)])
RawAmounts(p) == [i \in DOMAIN p.tok |-> IF IsCurve(p) THEN FromC(p, i, p.amt[i]) ELSE p.amt[i]]
KindName(p) == CASE p.kind = "Simple" -> "SIMPLE_POOL" [] p.kind = "Stable" -> "STABLE_SWAP" [] p.kind = "Rated" -> "RATED_SWAP" [] OTHER -> "DEGEN_SWAP"
PoolInfo(p, ts) == [pool_kind |-> KindName(p), token_account_ids |-> p.tok, amounts |-> RawAmounts(p), total_fee |-> p.fee, shares_total_supply |-> p.sup,
                    amp |-> IF IsCurve(p) THEN BInt(Amp(p, ts)) ELSE 0]
SharePrice(S, a, ts) ==
  LET p == Pl(S, a.pool_id) e == RatesFor(S, p, ts)
      v == IF p.kind = "Stable" THEN BSumSeq(p.amt) ELSE CurveD(Rated(p.amt, e.r), Amp(p, ts), Width(p)) IN
  IF ~IsCurve(p) \/ ~e.ok \/ v = Nil THEN Err("no price") ELSE Val(IF BZero(p.sup) THEN "100000000" ELSE Ratio(v, "100000000", p.sup))

\* everything about a pool of one kind
DetailOf(S, p, ts) ==
  [token_account_ids |-> p.tok, amounts |-> RawAmounts(p), total_fee |-> p.fee, shares_total_supply |-> p.sup]
  @@ (IF IsCurve(p) THEN [decimals |-> p.dec, c_amounts |-> p.amt, amp |-> BInt(Amp(p, ts))] ELSE Empty)
  @@ (CASE p.kind = "Rated" -> [rates |-> RatesFor(S, p, ts).r] [] p.kind = "Degen" -> [degens |-> RatesFor(S, p, ts).r] [] OTHER -> Empty)
Detail(S, id, ts) == LET p == Pl(S, id) IN SCat(p.kind, "PoolInfo") :> DetailOf(S, p, ts)
Shown(S, id, ts) == RatesFor(S, Pl(S, id), ts).ok      \* a pool of tokens without a known price cannot be shown
Ids(S, a) == [i \in 1..(IF a.from_index + a.limit > Len(S.p) THEN IF a.from_index > Len(S.p) THEN 0 ELSE Len(S.p) - a.from_index ELSE a.limit) |-> a.from_index + i - 1]
Each(S, ids, V(_)) == IF \E i \in DOMAIN ids : ~HasPool(S, ids[i]) THEN Err("E85") ELSE Val([i \in DOMAIN ids |-> V(ids[i])])
EachInfo(S, ids, ts) ==
  IF \E i \in DOMAIN ids : IF HasPool(S, ids[i]) THEN ~Shown(S, ids[i], ts) ELSE FALSE THEN Err("price") ELSE Each(S, ids, LAMBDA k : PoolInfo(Pl(S, k), ts))
EachDetail(S, ids, ts) ==
  IF \E i \in DOMAIN ids : IF HasPool(S, ids[i]) THEN ~Shown(S, ids[i], ts) ELSE FALSE THEN Err("price") ELSE Each(S, ids, LAMBDA k : Detail(S, k, ts))
ShareDecimals(p) == IF p.kind = "Stable" THEN 18 ELSE 24
UnitAssets(S, ids, ts) ==
  LET av == [i \in DOMAIN ids |-> IF HasPool(S, ids[i]) THEN Average(S, [pool_id |-> ids[i]], ts) ELSE Err("E85")]
      D == {i \in DOMAIN ids : IF av[i].ok THEN ~IsStr(av[i].v) ELSE FALSE} IN
  IF \E i \in DOMAIN ids : ~av[i].ok THEN Err("twap")
  ELSE Val([k \in {ShadowName(ids[i]) : i \in D} |-> LET i == CHOOSE i \in D : ShadowName(ids[i]) = k p == Pl(S, ids[i]) IN
        [timestamp |-> ts, decimals |-> ShareDecimals(p), tokens |-> [j \in DOMAIN p.tok |-> [token_id |-> p.tok[j], amount |-> av[i].v[j]]]]])
TwapInfo(w) == [last_update_sec |-> w.last, cumulative_token_amounts |-> w.cum,
                records |-> [i \in DOMAIN w.recs |-> [time_sec |-> w.recs[i].t, cumulative_token_amounts |-> w.recs[i].cum]]]
WithTwap(S) == {k \in DOMAIN S.p : S.p[k].twap.last # -1}
Limited(S) == {k \in DOMAIN S.p : S.p[k].limit # Nil}
LimitInfo(p) == [DegenPoolLimit |-> [Current |-> [tvl_limit |-> p.limit]]]
ShadowsOf(S, u) == IF IsReg(S, u) THEN [k \in DOMAIN S.a[u].shadow |-> [shadow_in_farm |-> S.a[u].shadow[k].f, shadow_in_burrow |-> S.a[u].shadow[k].b]] ELSE Empty
DegenInfo(S, t, ts) ==
  LET d == S.degens[t] IN
  [degen_type |-> d.kind, degen_price |-> d.price, last_update_ts |-> d.upd, is_price_valid |-> DegenFresh(S, t, ts)]
  @@ (IF d.kind = "PythOracle" THEN [price_identifier |-> d.pid] ELSE [decimals |-> d.dec])
DegenShown(S, t) == S.degens[t].price # Nil /\ OracleKey(S.degens[t].kind) \in DOMAIN S.oracles
Whole(a) == Get(a, "from_index", 0) = 0 /\ Get(a, "limit", 1000) >= 100     \* the order of entries is not part of the model
RECURSIVE Batch(_, _, _, _, _)
Batch(S, a, ts, i, acc) ==
  IF i > Len(a.batch_actions) THEN Val(acc)
  ELSE IF i > Len(a.batch_token_deposit) THEN Err("index")
  ELSE LET r == PredictSwaps(S, [token_deposit |-> a.batch_token_deposit[i], actions |-> a.batch_actions[i]], ts) IN
    IF r.ok THEN Batch(S, a, ts, i + 1, Append(acc, r.v)) ELSE r

ExView(S, m, a, ts) ==
  CASE m = "get_return" -> QuoteIn(S, a, ts)
    [] m = "get_return_by_output" -> QuoteOut(S, a)
    [] m = "get_rated_return" -> IF Kind(S, a.pool_id, "Rated") THEN QuoteRated(S, a, "rates", ts) ELSE Err("kind")
    [] m = "get_degen_return" -> IF Kind(S, a.pool_id, "Degen") THEN QuoteRated(S, a, "degens", ts) ELSE Err("kind")
    [] m = "predict_add_simple_liquidity" -> PredictAddSimple(S, a)
    [] m = "predict_add_stable_liquidity" -> IF Curve(S, a.pool_id) THEN PredictAddCurve(S, a, "no", ts) ELSE Err("kind")
    [] m = "predict_add_rated_liquidity" -> IF Kind(S, a.pool_id, "Rated") THEN PredictAddCurve(S, a, "rates", ts) ELSE Err("kind")
    [] m = "predict_add_degen_liquidity" -> IF Kind(S, a.pool_id, "Degen") THEN PredictAddCurve(S, a, "degens", ts) ELSE Err("kind")
    [] m = "predict_remove_liquidity" -> PredictRemove(S, a)
    [] m = "predict_remove_liquidity_by_tokens" -> IF Curve(S, a.pool_id) THEN PredictRemoveTokens(S, a, "no", ts) ELSE Err("kind")
    [] m = "predict_swap_actions" -> PredictSwaps(S, a, ts)
    [] m = "predict_hot_zap" -> PredictZap(S, a, ts)
    [] m = "get_pool_share_price" -> IF HasPool(S, a.pool_id) THEN SharePrice(S, a, ts) ELSE Err("E85")
    [] m = "get_pool_shares" -> IF HasPool(S, a.pool_id) THEN Val(ShareBal(Pl(S, a.pool_id), a.account_id)) ELSE Err("E85")
    [] m = "get_pool_total_shares" -> IF HasPool(S, a.pool_id) THEN Val(Pl(S, a.pool_id).sup) ELSE Err("E85")
    [] m = "get_pool_fee" -> IF HasPool(S, a.pool_id) THEN Val(Pl(S, a.pool_id).fee) ELSE Err("E85")
    [] m = "get_deposit" -> Val(IF IsReg(S, a.account_id) THEN ABal(S.a[a.account_id], a.token_id) ELSE "0")
    [] m = "mft_balance_of" -> IF IsPoolId(a.token_id) /\ ~HasPool(S, IF IsPoolId(a.token_id) THEN PoolOf(a.token_id) ELSE 0) THEN Err("E85")
                               ELSE Val(MftBal(S, a.token_id, a.account_id))
    [] m = "mft_total_supply" -> IF HasPool(S, PoolOf(a.token_id)) THEN Val(Pl(S, PoolOf(a.token_id)).sup) ELSE Err("E85")
    [] m = "mft_has_registered" -> IF HasPool(S, PoolOf(a.token_id)) THEN Val(a.account_id \in DOMAIN Pl(S, PoolOf(a.token_id)).sh) ELSE Err("E85")
    [] m = "storage_balance_of" -> IF IsReg(S, a.account_id) THEN Val(BalanceRec(S.a[a.account_id])) ELSE Val("null")
    [] m = "get_pool" -> LET r == EachInfo(S, <<a.pool_id>>, ts) IN IF r.ok THEN Val(r.v[1]) ELSE r
    [] m = "get_degen_pool_tvl" -> IF Kind(S, a.pool_id, "Degen") THEN LET e == RatesFor(S, Pl(S, a.pool_id), ts) IN
                                     IF e.ok /\ e.valid THEN Val(Tvl(S, Pl(S, a.pool_id))) ELSE Err("price") ELSE Err("kind")
    [] m = "get_unit_share_token_amounts" -> IF ~HasPool(S, a.pool_id) THEN Err("E85") ELSE LET u == UnitAmounts(Pl(S, a.pool_id)) IN
                                               IF ~u.ok THEN u ELSE IF u.v = None THEN Err("shares") ELSE Val(u.v)
    [] m = "get_unit_share_twap_token_amounts" -> IF HasPool(S, a.pool_id) THEN Average(S, a, ts) ELSE Err("E85")
    [] m = "get_client_echo_token_id_whitelist" -> Val(S.cfg.cetw)
    [] m = "get_client_echo_sender_id_whitelist" -> Val(S.cfg.cesw)
    [] m = "get_secure_sender_whitelist" -> Val(S.cfg.ssw)
    [] m = "predict_remove_rated_liquidity_by_tokens" -> IF Kind(S, a.pool_id, "Rated") THEN PredictRemoveTokens(S, a, "rates", ts) ELSE Err("kind")
    [] m = "predict_remove_degen_liquidity_by_tokens" -> IF Kind(S, a.pool_id, "Degen") THEN PredictRemoveTokens(S, a, "degens", ts) ELSE Err("kind")
    [] m = "batch_predict_swap_actions" -> Batch(S, a, ts, 1, <<>>)
    [] m = "get_owner" -> Val(S.cfg.owner)
    [] m = "get_guardians" -> Val(S.cfg.guardians)
    [] m = "get_number_of_pools" -> Val(Len(S.p))
    [] m = "get_pools" -> EachInfo(S, Ids(S, a), ts)
    [] m = "get_pool_by_ids" -> EachInfo(S, a.pool_ids, ts)
    [] m = "get_pool_detail_info" -> LET r == EachDetail(S, <<a.pool_id>>, ts) IN IF r.ok THEN Val(r.v[1]) ELSE r
    [] m = "get_pool_detail_infos" -> EachDetail(S, Ids(S, a), ts)
    [] m = "get_pool_detail_info_by_ids" -> EachDetail(S, a.pool_ids, ts)
    [] m \in {"get_stable_pool", "get_rated_pool", "get_degen_pool"} ->
         IF ~Kind(S, a.pool_id, CASE m = "get_stable_pool" -> "Stable" [] m = "get_rated_pool" -> "Rated" [] OTHER -> "Degen") THEN Err("kind")
         ELSE IF ~Shown(S, a.pool_id, ts) THEN Err("price") ELSE Val(DetailOf(S, Pl(S, a.pool_id), ts))
    [] m = "get_pool_volumes" -> IF HasPool(S, a.pool_id) THEN Val(Pl(S, a.pool_id).vol) ELSE Err("E85")
    [] m = "get_pool_volumes_by_ids" -> Each(S, a.pool_ids, LAMBDA k : Pl(S, k).vol)
    [] m = "list_pool_volumes" -> Each(S, Ids(S, a), LAMBDA k : Pl(S, k).vol)
    [] m = "get_pool_shares_batch" -> Each(S, a.pool_ids, LAMBDA k : ShareBal(Pl(S, k), a.account_id))
    [] m = "get_deposits" -> Val(IF IsReg(S, a.account_id) THEN S.a[a.account_id].tok ELSE Empty)
    [] m = "get_tokens_paged" -> IF Whole(a) THEN Val(IF IsReg(S, a.account_id) THEN [t \in DOMAIN S.a[a.account_id].tok \ S.a[a.account_id].leg |-> S.a[a.account_id].tok[t]] ELSE Empty) ELSE Err("paged")
    [] m = "get_user_whitelisted_tokens" -> Val(IF IsReg(S, a.account_id) THEN DOMAIN S.a[a.account_id].tok ELSE {})
    [] m = "get_shadow_records" -> Val(ShadowsOf(S, a.account_id))
    [] m = "get_user_storage_state" -> IF IsReg(S, a.account_id) THEN Val([deposit |-> S.a[a.account_id].near, usage |-> UsageCost(S.a[a.account_id])]) ELSE Val("null")
    [] m = "storage_balance_bounds" -> Val([min |-> MinStorage])
    [] m = "token_register_of" -> Val(IF IsReg(S, a.account_id) THEN a.token_id \in DOMAIN S.a[a.account_id].tok ELSE FALSE)
    [] m = "list_referrals" -> IF Whole(a) THEN Val(S.cfg.ref) ELSE Err("paged")
    [] m = "get_frozenlist_tokens" -> Val(S.cfg.frozen)
    [] m = "get_whitelisted_tokens" -> Val(S.cfg.wl)
    [] m = "batch_get_degen_tokens" ->
         LET T == Range(a.token_ids) IN IF \E t \in T \cap DOMAIN S.degens : ~DegenShown(S, t) THEN Err("price")
         ELSE Val([t \in T \cap DOMAIN S.degens |-> DegenInfo(S, t, ts)])
    [] m = "list_degen_tokens" -> IF \E t \in DOMAIN S.degens : ~DegenShown(S, t) THEN Err("price") ELSE Val([t \in DOMAIN S.degens |-> DegenInfo(S, t, ts)])
    [] m = "get_pool_limit_by_pool_id" -> Val(IF HasPool(S, a.pool_id) THEN IF Pl(S, a.pool_id).limit # Nil THEN LimitInfo(Pl(S, a.pool_id)) ELSE "null" ELSE "null")
    [] m = "get_pool_limit_paged" -> IF Whole(a) THEN Val([x \in {BStr(k - 1) : k \in Limited(S)} |-> LimitInfo(Pl(S, BInt(x)))]) ELSE Err("paged")
    [] m = "get_pool_twap_info_view" -> Val(IF HasPool(S, a.pool_id) THEN IF Pl(S, a.pool_id).twap.last # -1 THEN TwapInfo(Pl(S, a.pool_id).twap) ELSE "null" ELSE "null")
    [] m = "list_pool_twap_info_view" -> IF Whole(a) THEN Val([x \in {BStr(k - 1) : k \in WithTwap(S)} |-> TwapInfo(Pl(S, BInt(x)).twap)]) ELSE Err("paged")
    [] m = "get_unit_lpt_assets" -> UnitAssets(S, a.pool_ids, ts)
    [] m = "batch_views" ->
         LET hu == Has(a, "account_id") hi == Has(a, "pool_ids")
             x == IF hi THEN UnitAssets(S, a.pool_ids, ts) ELSE Val("null") IN
         IF ~x.ok THEN x ELSE IF hi /\ hu /\ \E i \in DOMAIN a.pool_ids : ~HasPool(S, a.pool_ids[i]) THEN Err("E85")
         ELSE Val(<<IF hu THEN ShadowsOf(S, a.account_id) ELSE "null", x.v,
                    IF hu /\ hi THEN [i \in DOMAIN a.pool_ids |-> ShareBal(Pl(S, a.pool_ids[i]), a.account_id)] ELSE "null">>)
    [] m = "mft_metadata" -> IF ~IsPoolId(a.token_id) THEN Err("token") ELSE IF ~HasPool(S, PoolOf(a.token_id)) THEN Err("E85")
         ELSE LET k == BStr(PoolOf(a.token_id)) IN Val([spec |-> "mft-1.0.0", name |-> SCat("ref-pool-", k), symbol |-> SCat("REF-POOL-", k), decimals |-> ShareDecimals(Pl(S, PoolOf(a.token_id)))])
    [] m = "list_lostfound_tokens" -> IF Whole(a) THEN Val(Get(S.l, a.account_id, Empty)) ELSE Err("paged")
    [] m = "get_lostfound_token" -> Val(IF a.account_id \in DOMAIN S.l THEN Get(S.l[a.account_id], a.token_id, "0") ELSE "0")
    [] OTHER -> Err("unknown view")
=============================================================================
