------------------------------- MODULE FarmTrace -------------------------------
(* Checks a recorded run of the farming contract against Farming: acceptance, receipts, returned value of every call, and every section
   the views show after it. The state is the specification's own throughout (the views do not show all of it); after a difference further
   differences in the same section are not repeated until the next restored state. Invariants of FarmProps are evaluated on what was observed. *)
EXTENDS FarmProps, TraceCmp, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, F, saved, obs, G, mute

Expected(Z, o, ts) ==
  [k \in {SCat("ff/", x) : x \in DOMAIN Z.farms} |-> FarmInfo(Z.farms[SDrop(k, 3)], SDrop(k, 3), ts)]
  @@ [k \in {SCat("fo/", x) : x \in DOMAIN Z.old} |-> FarmInfo(Z.old[SDrop(k, 3)], SDrop(k, 3), ts)]
  @@ [k \in {SCat("fs/", x) : x \in DOMAIN Z.seeds} |-> SeedInfo(Z.seeds[SDrop(k, 3)], SDrop(k, 3))]
  @@ [k \in Sect(o, "fu/") |-> FarmerInfo(Z, SDrop(k, 3), ts)]
  @@ [k \in {"fm"} |-> Meta(Z)]
Observed(o) == [k \in {k \in Sect(o, "f") : ~IsStr(o[k])} |-> o[k]]
SecDiff(k, x, y) == RecDiff(SCat(k, "/"), x, y)
\* expected x, observed y
FDiff(x, y) ==
  UNION {IF k \notin DOMAIN x THEN {<<SCat(k, "/present"), "absent", "present">>} ELSE IF k \notin DOMAIN y THEN {<<SCat(k, "/present"), "present", "absent">>}
         ELSE IF VEq(x[k], y[k]) THEN {} ELSE SecDiff(k, x[k], y[k]) : k \in DOMAIN x \cup DOMAIN y}
BalDiff(Z, o) == IF BEq(Z.bal, o["near/farm"].bal) THEN {} ELSE {<<"fnear/bal", Z.bal, o["near/farm"].bal>>}
Rep(r, n, D) == \A x \in D : Emit(<<"MM", n, Get(r, "m", r.t), x[1], ToString(x[2]), ToString(x[3])>>)
Inv(n, r, D) == \A x \in D : Emit(<<"INV", n, Get(r, "m", r.t), x[1], ToString(x[2])>>)
News(D) == {x \in D : x[1] \notin mute}

CallOf(r, o, o2) ==
  [p |-> r.p, s |-> r.s, m |-> r.m, a |-> r.a, d |-> r.d, pr |-> r.pr, ts |-> r.ts, g |-> BInt(BSub(o2["near/farm"].usage, o["near/farm"].usage))]
Stuck == [ok |-> FALSE, err |-> "stuck"]
Shown(n, r, Z, o2, H, base) ==  \* base: differences already found
  LET D == base \cup Attempt(FDiff(Expected(Z, o2, r.ts), Observed(o2)), {<<"view/broken", "", "">>}) \cup BalDiff(Z, o2) IN
  /\ Rep(r, n, News(D)) /\ mute' = mute \cup {x[1] : x \in D \ base}
  /\ Inv(n, r, FStateInv(o2) \cup {<<"unfair", x>> : x \in UnfairTo(H, o2)})
JudgeCall(r, n, o, o2) ==
  LET c == CallOf(r, o, o2)
      q == Attempt(FStep(F, c), Stuck)
      P == IF q.ok /\ r.ok THEN q.S ELSE F
      bad == (IF q.ok # r.ok THEN {<<"ok", IF q.ok THEN "accept" ELSE q.err, IF r.ok THEN "accepted" ELSE Get(r, "err", "refused")>>} ELSE {})
        \cup (IF q.ok /\ r.ok THEN (IF Attempt(SameFx(q.fx, r.fx), FALSE) THEN {} ELSE {<<"fx", q.fx, r.fx>>})
                                   \cup (IF Attempt(SameRet(q.ret, q.fx, r.ret, r.fx), FALSE) THEN {} ELSE {<<"ret", q.ret, r.ret>>}) ELSE {})
      H1 == GPass(G, o, FarmsOf(o), r.ts)
      H == IF r.ok THEN GPass(GBook(H1, o, o2, Acting(c)), o2, FarmsOf(o2), r.ts) ELSE H1
  IN F' = P /\ G' = H /\ Shown(n, r, P, o2, H, bad) /\ (IF r.ok THEN Inv(n, r, FStepInv(o, o2, c)) ELSE TRUE)

FViewOf(r) ==
  CASE r.m = "get_number_of_farms" -> Cardinality(DOMAIN F.farms)
    [] r.m = "get_number_of_outdated_farms" -> Cardinality(DOMAIN F.old)
    [] r.m = "list_farms_by_seed" -> {FarmInfo(F.farms[x], x, r.ts) : x \in F.seeds[r.a.seed_id].farms}
    [] r.m = "get_farm" -> IF r.a.farm_id \in DOMAIN F.farms THEN FarmInfo(F.farms[r.a.farm_id], r.a.farm_id, r.ts) ELSE Nil
    [] r.m = "get_outdated_farm" -> IF r.a.farm_id \in DOMAIN F.old THEN FarmInfo(F.old[r.a.farm_id], r.a.farm_id, r.ts) ELSE Nil
    [] r.m = "get_reward" -> IF Known(F, r.a.account_id) THEN Get(F.farmers[r.a.account_id].rewards, r.a.token_id, "0") ELSE "0"
    [] r.m = "get_seed_info" -> IF r.a.seed_id \in DOMAIN F.seeds THEN SeedInfo(F.seeds[r.a.seed_id], r.a.seed_id) ELSE Nil
    [] r.m = "list_seeds" -> [x \in DOMAIN F.seeds |-> F.seeds[x].amount]
    [] r.m = "storage_balance_of" -> FBalance(F, r.a.account_id)
    [] r.m = "storage_balance_bounds" -> [min |-> F_MIN]
    [] r.m = "get_metadata" -> [owner_id |-> F.owner, farmer_count |-> BStr(F.count), farm_count |-> BStr(Cardinality(DOMAIN F.farms)),
                                seed_count |-> BStr(Cardinality(DOMAIN F.seeds)), reward_count |-> BStr(Cardinality(DOMAIN F.info)), state |-> F.state]
    [] r.m = "list_farms" -> {FarmInfo(F.farms[x], x, r.ts) : x \in DOMAIN F.farms}
    [] r.m = "list_outdated_farms" -> {FarmInfo(F.old[x], x, r.ts) : x \in DOMAIN F.old}
    [] r.m = "list_rewards_info" -> F.info
    [] r.m = "list_seeds_info" -> [x \in DOMAIN F.seeds |-> SeedInfo(F.seeds[x], x)]
    [] r.m = "list_rewards" -> IF Known(F, r.a.account_id) THEN F.farmers[r.a.account_id].rewards ELSE Empty
    [] r.m = "list_user_seeds" -> IF Known(F, r.a.account_id) THEN F.farmers[r.a.account_id].seeds ELSE Empty
    [] r.m = "get_unclaimed_reward" -> IF r.a.farm_id \in DOMAIN F.farms /\ Known(F, r.a.account_id) THEN Unclaimed(F, r.a.account_id, r.a.farm_id, r.ts) ELSE "0"
    [] r.m = "get_user_rps" -> IF Known(F, r.a.account_id) THEN Get(F.farmers[r.a.account_id].rps, r.a.farm_id, "0") ELSE "panic"
    [] r.m = "get_user_storage_state" -> IF Known(F, r.a.account_id) THEN [deposit |-> F.farmers[r.a.account_id].near, usage |-> FCost(F.farmers[r.a.account_id])] ELSE Nil
    [] OTHER -> "unknown view"
SameView(m, x, y) ==
  IF IsStr(x) /\ IsStr(y) THEN x = y \/ (x = Nil /\ y = "null")
  ELSE IF IsStr(x) \/ IsStr(y) THEN FALSE
  ELSE IF m \in {"list_farms", "list_outdated_farms", "list_farms_by_seed"} THEN x = Range(y) /\ Cardinality(x) = Len(y)
  ELSE IF m = "list_seeds_info" THEN VEq(x, [k \in DOMAIN y |-> [y[k] EXCEPT !.farms = SSort(Range(@))]])
  ELSE IF m = "get_metadata" THEN VEq(x, [k \in DOMAIN y \ {"version"} |-> y[k]])
  ELSE IF m = "get_seed_info" THEN VEq(x, [y EXCEPT !.farms = SSort(Range(@))]) ELSE VEq(x, y)

FInitState(o2) == [FNew(o2.fm.owner, o2["near/farm"].bal) EXCEPT !.count = 0]
Init == i = 0 /\ F = FNew("", "0") /\ saved = Empty /\ obs = Empty /\ G = GNew /\ mute = {}
Step1(r, n, o2) ==
  CASE r.t = "init" -> LET k == Get(r, "k", "") IN
         /\ F' = (IF k \in DOMAIN saved THEN saved[k].F ELSE FInitState(o2)) /\ G' = (IF k \in DOMAIN saved THEN saved[k].G ELSE GNew)
         /\ mute' = {} /\ UNCHANGED saved
    [] r.t = "snap" -> saved' = Put(saved, r.k, [F |-> F, G |-> G]) /\ UNCHANGED <<F, G, mute>>
    [] r.t = "call" /\ r.c = FARM -> JudgeCall(r, n, obs, o2) /\ UNCHANGED saved
    [] r.t = "view" /\ r.c = FARM ->
         LET v == Attempt(FViewOf(r), "stuck") IN
         (IF Attempt(SameView(r.m, v, r.v), FALSE) THEN TRUE ELSE Emit(<<"MM", n, r.m, "view/value", ToString(v), ToString(r.v)>>)) /\ UNCHANGED <<F, G, saved, mute>>
    [] OTHER -> LET H == GPass(G, obs, FarmsOf(obs), r.ts) Z == [F EXCEPT !.bal = BAdd(@, BSub(o2["near/farm"].bal, obs["near/farm"].bal))] IN
         F' = Z /\ G' = H /\ Shown(n, r, Z, o2, H, {}) /\ UNCHANGED saved
Next ==
  /\ i < Len(T)
  /\ i' = i + 1
  /\ LET r == T[i + 1] o2 == IF r.t = "init" THEN r.delta ELSE r.delta @@ obs IN obs' = o2 /\ Step1(r, i + 1, o2)
  /\ (i + 1 = Len(T) => Emit(<<"END", i + 1>>))
Place == i
=============================================================================
