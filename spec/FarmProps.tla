------------------------------- MODULE FarmProps -------------------------------
(* Properties of the farming contract, stated on what its views show (o: section -> content, as recorded) and on the ledgers of the tokens,
   independent of how FStep computes the next state.

   G is an exact account kept beside the run: per farm the rounds that have passed and what is left to give out, per farmer and farm the
   share of every round that his stake earns (scaled by UNIT) and what he has claimed.                        *)
EXTENDS Farming

UNIT == "1000000000000000000000000000000"
Sect(o, pre) == {k \in DOMAIN o : SStarts(k, pre)}
Names(o, pre) == {SDrop(k, 3) : k \in Sect(o, pre)}
Farmers(o) == {u \in Names(o, "fu/") : o[SCat("fu/", u)].reg}
Fu(o, u) == o[SCat("fu/", u)]
StakeIn(o, u, sd) == IF u \in Farmers(o) THEN Get(Fu(o, u).seeds, sd, "0") ELSE "0"
Staked(o, sd) == BSumFn([u \in Farmers(o) |-> StakeIn(o, u, sd)])
RewardOf(o, u, t) == IF u \in Farmers(o) THEN Get(Fu(o, u).rewards, t, "0") ELSE "0"
Unclaimed1(o, u, id) == IF u \in Farmers(o) THEN Get(Fu(o, u).unclaimed, id, "0") ELSE "0"
FarmsOf(o) == {id \in Names(o, "ff/") : ~IsStr(o[SCat("ff/", id)])}
Ff(o, id) == o[SCat("ff/", id)]
Outdated(o) == {id \in Names(o, "fo/") : ~IsStr(o[SCat("fo/", id)])}
Fo(o, id) == o[SCat("fo/", id)]

(* ------------------------------------------------------------ custody and funding *)
OwedTok(o, t) ==
  BAdd(BAdd(IF SCat("fs/", t) \in DOMAIN o THEN Staked(o, t) ELSE "0", BSumFn([u \in Farmers(o) |-> RewardOf(o, u, t)])),
       BSumFn([id \in {x \in FarmsOf(o) : Ff(o, x).reward_token = t} |-> BSub(Ff(o, id).total_reward, Ff(o, id).claimed_reward)]))
HeldBy(o, t) == Get(o[SCat("t/", t)], FARM, "0")
HeldPool(o, k) == LET p == o[SCat("p/", k)] IN Get(p.sh, FARM, "0")
BadCustody(o) ==
  {<<t, HeldBy(o, t), OwedTok(o, t)>> : t \in {t \in {SDrop(k, 2) : k \in Sect(o, "t/")} : BLt(HeldBy(o, t), OwedTok(o, t))}}
  \cup {<<k, HeldPool(o, k), Staked(o, SCat("ex@", k))>> : k \in {k \in {SDrop(x, 2) : x \in Sect(o, "p/")} :
          SCat("fs/", SCat("ex@", k)) \in DOMAIN o /\ BLt(HeldPool(o, k), Staked(o, SCat("ex@", k)))}}
BadTotal(o) == {sd \in Names(o, "fs/") : ~BEq(o[SCat("fs/", sd)].amount, Staked(o, sd))}
\* unclaimed parts of all farmers within what was given out, everything within the funding
BadSplit(o) ==
  {id \in FarmsOf(o) : BLt(Ff(o, id).unclaimed_reward, BSumFn([u \in Farmers(o) |-> Unclaimed1(o, u, id)]))
     \/ BLt(Ff(o, id).total_reward, BAdd(Ff(o, id).claimed_reward, Ff(o, id).unclaimed_reward)) \/ BLt(Ff(o, id).claimed_reward, Ff(o, id).beneficiary_reward)}
BadInfo(o) ==
  {t \in DOMAIN o.fm.rewards : ~BEq(o.fm.rewards[t], BAdd(BSumFn([id \in {x \in FarmsOf(o) : Ff(o, x).reward_token = t} |-> Ff(o, id).total_reward]),
                                                         BSumFn([id \in {x \in Outdated(o) : Fo(o, x).reward_token = t} |-> Fo(o, id).total_reward])))}
FStateInv(o) ==
  {<<"custody", x>> : x \in BadCustody(o)} \cup {<<"total", x>> : x \in BadTotal(o)} \cup {<<"split", x>> : x \in BadSplit(o)} \cup {<<"info", x>> : x \in BadInfo(o)}
  \cup (IF BEq(o.fm.farmers, BStr(Cardinality(Farmers(o)))) THEN {} ELSE {<<"count", o.fm.farmers>>})

(* ------------------------------------------------------------ one step *)
Acting(c) ==
  CASE c.m \in {"ft_on_transfer", "mft_on_transfer", "callback_post_withdraw_reward", "callback_post_withdraw_ft_seed", "callback_post_withdraw_mft_seed"} -> c.a.sender_id
    [] OTHER -> c.p
\* stake and claimed rewards of others stay
Touched(b, o, c) ==
  {u \in Farmers(b) \ {Acting(c)} : u \notin Farmers(o) \/ (IF u \notin Farmers(o) THEN TRUE ELSE Fu(b, u).seeds # Fu(o, u).seeds \/ Fu(b, u).rewards # Fu(o, u).rewards \/ BLt(Fu(o, u).near, Fu(b, u).near))}
\* what was claimed from the farms is what the farmer got
Claimed(b, o, id) == LET x == Ff(b, id) y == IF id \in FarmsOf(o) THEN Ff(o, id) ELSE x IN BSub(BSub(y.claimed_reward, x.claimed_reward), BSub(y.beneficiary_reward, x.beneficiary_reward))
Gained(b, o, u, t) == BSub(RewardOf(o, u, t), RewardOf(b, u, t))
OtherFlow == {"withdraw_reward", "callback_post_withdraw_reward"}
Misbooked(b, o, c) ==
  IF c.m \in OtherFlow THEN {}
  ELSE {t \in {Ff(b, id).reward_token : id \in FarmsOf(b)} :
          ~BEq(Gained(b, o, Acting(c), t), BSumFn([id \in {x \in FarmsOf(b) : Ff(b, x).reward_token = t} |-> Claimed(b, o, id)]))}
FPausedMove(b, o, c) ==
  c.p # FARM /\ b.fm.state = "Paused" /\ {k \in Sect(b, "fu/") \cup Sect(b, "fs/") : k \in DOMAIN o /\ (IF SStarts(k, "fs/") THEN b[k].amount # o[k].amount
     ELSE IF b[k].reg # o[k].reg THEN TRUE ELSE IF b[k].reg THEN b[k].near # o[k].near \/ b[k].seeds # o[k].seeds \/ b[k].rewards # o[k].rewards ELSE FALSE)} # {}
FStepInv(b, o, c) ==
  {<<"touched", u>> : u \in Touched(b, o, c)} \cup {<<"misbooked", t>> : t \in Misbooked(b, o, c)} \cup (IF FPausedMove(b, o, c) THEN {<<"fpaused", c.m>>} ELSE {})

(* ------------------------------------------------------------ the exact account *)
GNew == [ent |-> Empty, got |-> Empty, farm |-> Empty, n |-> 0]
GFarm == [rr |-> 0, und |-> "0", tot |-> "0", top |-> "0"]  \* top: the most that was ever staked
GKey(u, id) == SCat(SCat(u, "|"), id)
\* rounds that passed up to ts are shared among those staked in o
RECURSIVE GPass(_, _, _, _)
GPass(G, o, ids, ts) ==
  IF ids = {} THEN G
  ELSE LET id == CHOOSE x \in ids : TRUE
           f == Ff(o, id) g == Get(G.farm, id, GFarm)
           on == BPos(g.und) /\ f.start_at > 0 /\ f.session_interval > 0 /\ BGe(ts, BMul(f.start_at, "1000000000"))
           rr == (Secs(ts) - f.start_at) \div f.session_interval
           add == BMin(g.und, BMul(rr - g.rr, f.reward_per_session))
           tot == Staked(o, f.seed_id)
           us == {u \in Farmers(o) : BPos(StakeIn(o, u, f.seed_id))}
           H == IF ~on THEN G
                ELSE [G EXCEPT !.farm = Put(@, id, [g EXCEPT !.rr = rr, !.und = BSub(@, add), !.top = BMax(@, tot)]),
                               !.ent = IF BZero(add) THEN @ ELSE [k \in {GKey(u, id) : u \in us} |->
                                   LET u == SSplit(k, "|")[1] IN BAdd(Get(G.ent, k, "0"), BMulDiv(BMul(add, UNIT), StakeIn(o, u, f.seed_id), tot))] @@ @]
       IN GPass(H, o, ids \ {id}, ts)
\* funding and claims of a call
GBook(G, b, o, u) ==
  [G EXCEPT !.n = @ + 1,
     !.farm = [id \in FarmsOf(o) |-> LET g == Get(G.farm, id, GFarm) t == Ff(o, id).total_reward IN
                 [g EXCEPT !.und = BAdd(@, BSub(t, g.tot)), !.tot = t]],
     !.got = [k \in {GKey(u, id) : id \in FarmsOf(b)} |-> BAdd(Get(G.got, k, "0"), Claimed(b, o, SSplit(k, "|")[2]))] @@ @]
\* with o as it is at time ts: nobody has more than his share, and no less than rounding takes
GSlack(G, id) == BMul(2 + 2 * G.n, BAdd("1", BAdd("1", BDiv(Get(G.farm, id, GFarm).top, DENOM))))
UnfairTo(G, o) ==
  {<<u, id>> \in Farmers(o) \X FarmsOf(o) :
     LET k == GKey(u, id) has == BAdd(Get(G.got, k, "0"), Unclaimed1(o, u, id)) due == Get(G.ent, k, "0") IN
     BLt(BAdd(due, BMul("1000", 1)), BMul(has, UNIT)) \/ BLt(BAdd(has, GSlack(G, id)), BDiv(due, UNIT))}
=============================================================================
