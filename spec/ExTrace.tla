------------------------------- MODULE ExTrace -------------------------------
(* Checks a recorded run of the exchange against the specification.

   The trace (environment variable TRACE) has one record per executed receipt. For every call of the exchange the specification
   computes the outcome from the state before it; acceptance, outgoing receipts, returned value and every part of the observed state
   after it must agree. Parts of the state that no view shows (the ends of an amplification ramp) are carried by the specification.
   Differences are printed as lines @@<<"MM", record, method, part, expected, observed>>; the check then goes on from the observed state.
   The invariants of ExProps are evaluated on every observed state: @@<<"INV", record, method, invariant, detail>>.       *)
EXTENDS ExProps, TraceCmp, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i,     \* records consumed
          S,     \* specification state, equal to the observed one
          obs,   \* last observed sections
          saved  \* states the run may go back to

(* ------------------------------------------------------------ observed sections -> specification state *)
SetOf(s) == Range(s)
LiftCfg(o) == [owner |-> o.owner, guardians |-> SetOf(o.guardians), state |-> o.state, adminfee |-> o.adminfee, boost |-> o.boost,
  burrow |-> o.burrow, interval |-> o.interval, wnear |-> o.wnear, postfix |-> SetOf(o.postfix), frozen |-> SetOf(o.frozen),
  wl |-> SetOf(o.wl), ref |-> o.ref, cetw |-> SetOf(o.cetw), cesw |-> SetOf(o.cesw), ssw |-> SetOf(o.ssw)]
LiftTwap(o) == IF o.last_update_sec = -1 THEN NoTwap
  ELSE [last |-> o.last_update_sec, cum |-> o.cumulative_token_amounts,
        recs |-> [k \in DOMAIN o.records |-> [t |-> o.records[k].time_sec, cum |-> o.records[k].cumulative_token_amounts]]]
\* h: the pool the specification expects, where there is one
LiftPool(o, h) ==
  LET curve == o.kind # "Simple"
      hid == IF h.kind = "none" THEN [a0 |-> IF curve THEN BStr(o.amp) ELSE "0", a1 |-> IF curve THEN BStr(o.amp) ELSE "0", t0 |-> "0", t1 |-> "0"]
             ELSE [a0 |-> h.a0, a1 |-> h.a1, t0 |-> h.t0, t1 |-> h.t1] IN
  IF o.kind = "panic" THEN h
  ELSE [kind |-> o.kind, tok |-> o.token_account_ids, dec |-> IF curve THEN o.decimals ELSE None, amt |-> IF curve THEN o.c_amounts ELSE o.amounts,
        fee |-> o.total_fee, sup |-> o.shares_total_supply, sh |-> [u \in DOMAIN o.sh \cup SetOf(o.regs) |-> Get(o.sh, u, "0")],
        vol |-> o.vol, a0 |-> hid.a0, a1 |-> hid.a1, t0 |-> hid.t0, t1 |-> hid.t1, twap |-> LiftTwap(o.twap), limit |-> o.limit]
LiftAcc(o) == [near |-> o.near, tok |-> o.tok, shadow |-> o.shadow, leg |-> SetOf(Get(o, "leg", None))]
LiftRates(o) == [t \in DOMAIN o |-> [kind |-> o[t].rate_type, price |-> o[t].rate_price, upd |-> o[t].last_update_ts, info |-> Get(o[t], "extra_info", Empty)]]
LiftDegens(o, h) == IF IsStr(o) THEN h
  ELSE [t \in DOMAIN o |-> [kind |-> o[t].degen_type, price |-> Get(o[t], "degen_price", Nil), upd |-> o[t].last_update_ts,
                            pid |-> Get(o[t], "price_identifier", Nil), dec |-> Get(o[t], "decimals", 0)]]
LiftOracles(o) == [k \in DOMAIN o |-> IF Has(o[k], "PriceOracle") THEN o[k].PriceOracle ELSE o[k].PythOracle]

PoolKey(n) == SCat("p/", BStr(n - 1))
NoPool == NewPool("none", None, None, 0, 0)
\* Z = state before, P = expected state (equal to Z for records that are not calls), d = the sections that changed, o2 = all sections
Apply(Z, P, d, o2) ==
  LET acc == {k \in DOMAIN d : SStarts(k, "a/")} lost == {k \in DOMAIN d : SStarts(k, "l/")}
      gone == {SDrop(k, 2) : k \in {x \in acc : ~d[x].reg}} here == {SDrop(k, 2) : k \in {x \in acc : d[x].reg}}
      ln == {SDrop(k, 2) : k \in lost}
      full == {u \in ln : DOMAIN d[SCat("l/", u)] # {}}
      n == o2.cfg.npools
  IN [cfg |-> IF Has(d, "cfg") THEN LiftCfg(d.cfg) ELSE Z.cfg,
      p |-> [k \in 1..n |-> IF PoolKey(k) \in DOMAIN d THEN LiftPool(d[PoolKey(k)], IF k <= Len(P.p) THEN P.p[k] ELSE NoPool)
                            ELSE LET o == IF o2[PoolKey(k)].kind = "panic" THEN P.p[k] ELSE Z.p[k] IN IF k <= Len(P.p) THEN [o EXCEPT !.a0 = P.p[k].a0, !.a1 = P.p[k].a1, !.t0 = P.p[k].t0, !.t1 = P.p[k].t1] ELSE o],
      a |-> [u \in (DOMAIN Z.a \ gone) \cup here |-> IF u \in here THEN LiftAcc(d[SCat("a/", u)]) ELSE Z.a[u]],
      l |-> [u \in (DOMAIN Z.l \ ln) \cup full |-> IF u \in full THEN d[SCat("l/", u)] ELSE Z.l[u]],
      rates |-> IF Has(d, "rates") THEN LiftRates(d.rates) ELSE Z.rates,
      degens |-> IF Has(d, "degens") THEN LiftDegens(d.degens, P.degens) ELSE IF IsStr(o2.degens) THEN P.degens ELSE Z.degens,
      oracles |-> IF Has(d, "oracles") THEN LiftOracles(d.oracles) ELSE Z.oracles,
      bal |-> IF Has(d, "near/ex") THEN d["near/ex"].bal ELSE Z.bal]
EmptyState == [cfg |-> Empty, p |-> None, a |-> Empty, l |-> Empty, rates |-> Empty, degens |-> Empty, oracles |-> Empty, bal |-> "0"]

\* pools of which only the ends of their ramps are known
Ramping(x, n) == [k \in 1..n |-> IF BStr(k - 1) \in DOMAIN x THEN [[NoPool EXCEPT !.kind = "hid"] EXCEPT !.a0 = x[BStr(k - 1)].a0, !.a1 = x[BStr(k - 1)].a1, !.t0 = x[BStr(k - 1)].t0, !.t1 = x[BStr(k - 1)].t1]
                                 ELSE NoPool]

(* ------------------------------------------------------------ calls *)
CallOf(r, o, o2) ==
  [p |-> r.p, s |-> r.s, m |-> r.m, a |-> r.a, d |-> r.d, pr |-> r.pr, ts |-> r.ts, msg |-> Get(r, "msgj", Empty),
   u |-> o["near/ex"].usage, g |-> BInt(BSub(o2["near/ex"].usage, o["near/ex"].usage))]
  @@ (IF Has(r, "x") THEN [x |-> r.x] ELSE Empty)

(* ------------------------------------------------------------ comparing *)
PoolDiff(x, y) == UNION {IF k <= Len(x) /\ k <= Len(y) THEN RecDiff(SCat(y[k].kind, SCat(SCat("/", BStr(k - 1)), "/")), x[k], y[k])
                         ELSE {<<SCat("pool/", BStr(k - 1)), "absent", "present">>} : k \in 1..(IF Len(x) > Len(y) THEN Len(x) ELSE Len(y))}
AccDiff(x, y) == UNION {IF u \in DOMAIN x /\ u \in DOMAIN y THEN RecDiff(SCat(SCat("a/", u), "/"), x[u], y[u])
                        ELSE {<<SCat(SCat("a/", u), "/reg"), u \in DOMAIN x, u \in DOMAIN y>>} : u \in DOMAIN x \cup DOMAIN y}
Diff(P, O) ==
  RecDiff("cfg/", P.cfg, O.cfg) \cup PoolDiff(P.p, O.p) \cup AccDiff(P.a, O.a) \cup RecDiff("l/", P.l, O.l) \cup RecDiff("rates/", P.rates, O.rates)
    \cup RecDiff("degens/", P.degens, O.degens) \cup RecDiff("oracles/", P.oracles, O.oracles)
    \cup (IF VEq(P.bal, O.bal) THEN {} ELSE {<<"near/bal", P.bal, O.bal>>})

\* values the views derive from the state
PoolViews(k, o, Z, ts) ==
  IF o.kind = "panic" THEN {}
  ELSE LET p == Z.p[k] e == RatesFor(Z, p, ts) IN
    {<<SCat("view/amounts/", BStr(k - 1)), j, o.amounts[j]>> : j \in {j \in DOMAIN p.tok : ~VEq(o.amounts[j], RealAmount(p, j))}}
    \cup (IF IsCurve(p) THEN IF VEq(BStr(o.amp), Amp(p, ts)) THEN {} ELSE {<<SCat("view/amp/", BStr(k - 1)), Amp(p, ts), o.amp>>} ELSE {})
    \cup (IF p.kind \in {"Rated", "Degen"} /\ e.ok THEN IF VEq(o.mul, e.r) THEN {} ELSE {<<SCat("view/rates/", BStr(k - 1)), e.r, o.mul>>} ELSE {})
    \cup (IF p.kind = "Degen" THEN LET v == IF e.ok /\ e.valid THEN Tvl(Z, p) ELSE "panic" IN IF VEq(o.tvl, v) THEN {} ELSE {<<SCat("view/tvl/", BStr(k - 1)), v, o.tvl>>} ELSE {})
Views(Z, o, ts) ==
  UNION {PoolViews(k, o[PoolKey(k)], Z, ts) : k \in DOMAIN Z.p}
  \cup {<<SCat("view/usage/", u), UsageCost(Z.a[u]), o[SCat("a/", u)].usage>> : u \in {u \in DOMAIN Z.a : ~VEq(o[SCat("a/", u)].usage, UsageCost(Z.a[u]))}}
  \cup {<<SCat("view/rate/", t), RateFresh(Z, t, ts), o.rates[t].is_valid>> : t \in {t \in DOMAIN Z.rates : ~VEq(o.rates[t].is_valid, RateFresh(Z, t, ts))}}
  \cup (IF IsStr(o.degens) THEN {} ELSE
        {<<SCat("view/degen/", t), DegenFresh(Z, t, ts), o.degens[t].is_price_valid>> : t \in {t \in DOMAIN Z.degens : ~VEq(o.degens[t].is_price_valid, DegenFresh(Z, t, ts))}})

Report(r, n, D) == \A x \in D : Emit(<<"MM", n, r.m, x[1], ToString(x[2]), ToString(x[3])>>)

\* outcome of a call, "stuck" when the specification cannot make sense of it
Stuck(e) == [ok |-> FALSE, err |-> "stuck"]
Judge(r, n, o, o2) ==
  LET c == CallOf(r, o, o2)
      q == Attempt(Step(S, c), Stuck(0))
      P == IF q.ok THEN q.S ELSE S
      O == Apply(S, P, r.delta, o2)
      bad == (IF q.ok # r.ok THEN {<<"ok", IF q.ok THEN "accept" ELSE q.err, IF r.ok THEN "accepted" ELSE Get(r, "err", "refused")>>} ELSE {})
        \cup (IF q.ok /\ r.ok THEN (IF Attempt(SameFx(q.fx, r.fx), FALSE) THEN {} ELSE {<<"fx", q.fx, r.fx>>})
                                   \cup (IF Attempt(SameRet(q.ret, q.fx, r.ret, r.fx), FALSE) THEN {} ELSE {<<"ret", q.ret, r.ret>>}) ELSE {})
        \cup (IF q.ok = r.ok THEN Diff(P, O) ELSE {})
        \cup (IF r.ok = q.ok THEN Attempt(Views(O, o2, r.ts), {<<"view/broken", "", "">>}) ELSE {})
  IN Report(r, n, bad) /\ S' = O /\ PropReport(n, r, c, S, O, o2)

Init == i = 0 /\ S = EmptyState /\ obs = Empty /\ saved = Empty
Next ==
  /\ i < Len(T)
  /\ i' = i + 1
  /\ LET r == T[i + 1] o2 == IF r.t = "init" THEN r.delta ELSE r.delta @@ obs IN
     /\ obs' = o2
     /\ saved' = IF r.t = "snap" THEN Put(saved, r.k, S) ELSE saved
     /\ IF r.t = "init" THEN S' = LET Z == IF Has(r, "ramp") THEN [EmptyState EXCEPT !.p = Ramping(r.ramp, o2.cfg.npools)] ELSE Get(saved, Get(r, "k", ""), EmptyState) IN Apply(Z, Z, r.delta, o2)
        ELSE IF r.t = "snap" THEN S' = S
        ELSE IF r.t = "same" THEN S' = S /\ (IF (IF r.m \in SetViews THEN SetOf(r.old) = SetOf(r.new) ELSE Kept(r.old, r.new)) THEN TRUE ELSE Emit(<<"MM", i + 1, r.m, "kept", ToString(r.old), ToString(r.new)>>))
        ELSE IF r.t = "call" /\ r.c = EX THEN Judge(r, i + 1, obs, o2)
        ELSE IF r.t = "view" THEN S' = S /\ (IF r.c = EX THEN ViewReport(r, i + 1, S, Attempt(ExView(S, r.m, r.a, r.ts), Stuck(0))) ELSE TRUE)
        ELSE S' = Apply(S, S, r.delta, o2) /\ EnvReport(i + 1, r, S', o2)
  /\ (i + 1 = Len(T) => Emit(<<"END", i + 1>>))
Place == i
=============================================================================
