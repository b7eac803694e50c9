------------------------------- MODULE Farming -------------------------------
(* The farming contract: state and transitions.

   State F:  owner, state ("Running" / "Paused"), count (registered farmers), bal (NEAR of the contract)
     seeds    seed id -> [type, farms (set of ids), next, amount, min]
     farmers  account -> [near, rewards, seeds, rps, n]: NEAR paid for storage, claimed and not withdrawn rewards per token, stake per seed,
              reward per seed up to which each farm has been claimed (n of them paid for)
     left     account -> rps of a farmer who unregistered
     farms    farm id -> [seed, token, start, per, interval, status, und, unc, rps, rr, total, claimed, ben]: terms; what is not yet given out
              (und), given out and not claimed (unc), reward per seed (scaled), round of the last distribution; totals
     old      farms that were cleared          info  token -> all rewards ever deposited
   Calls and results are as in ExBase.                                                                           *)
EXTENDS ExBase

FARM == "farm"
DENOM == "1000000000000000000000000"
NewFarmer(near, rps) == [near |-> near, rewards |-> Empty, seeds |-> Empty, rps |-> rps, n |-> 0]
\* what a farmer leaves behind when he unregisters is found again, but not counted, when he registers again
LeftBy(F, u) == Get(F.left, u, Empty)
SetRps(a, id, x) == [a EXCEPT !.rps = Put(@, id, x), !.n = IF id \in DOMAIN a.rps THEN @ ELSE @ + 1]
RECURSIVE DropRps(_, _)
DropRps(a, ids) ==
  IF ids = {} THEN a
  ELSE LET id == CHOOSE x \in ids : TRUE IN
    DropRps(IF id \in DOMAIN a.rps THEN [a EXCEPT !.rps = Drop(@, id), !.n = IF @ = 0 THEN 0 ELSE @ - 1] ELSE a, ids \ {id})
FBytes(f) == 92 + 84 * Cardinality(DOMAIN f.rewards) + 84 * Cardinality(DOMAIN f.seeds) + 165 * f.n
FCost(f) == BMul(FBytes(f), BYTE_COST)
F_MIN == BMul(1852, BYTE_COST)
Known(F, u) == u \in DOMAIN F.farmers
FPaidUp(F, u) == Known(F, u) /\ BPos(F.farmers[u].near) /\ BLe(FCost(F.farmers[u]), F.farmers[u].near)
Live(F) == F.state = "Running"
SetFarmer(F, u, f) == [F EXCEPT !.farmers = Put(@, u, f)]

(* identifiers: a seed is a token, or a token of a multi-token contract "contract@n"; a farm is "seed#n" *)
FarmIdOk(x) == LET v == SSplit(x, "#") IN Len(v) = 2 /\ SIsNum(v[2])
SeedOf(x) == SSplit(x, "#")[1]
SeedType(x) == IF Len(SSplit(x, "@")) = 1 THEN "FT" ELSE "MFT"

(* ------------------------------------------------------------ distribution *)
\* rounds that have passed since the start
Rounds(f, ts) == (Secs(ts) - f.start) \div f.interval
Started(f, ts) == BGe(ts, BMul(f.start, "1000000000"))
Distributing(f, ts) == f.status = "Running" /\ Started(f, ts)
\* what the rounds since the last distribution give out: never more than is there
Due(f, ts) == BMul(Rounds(f, ts) - f.rr, f.per)
\* the distribution as it would be now for a given total of seeds
Spread(f, ts, total) ==
  LET short == BLt(f.und, Due(f, ts))
      add == IF short THEN f.und ELSE Due(f, ts)
      full == BDiv(add, f.per)
      rr == IF ~short THEN Rounds(f, ts) ELSE f.rr + BInt(full) + (IF BLt(BMul(full, f.per), add) THEN 1 ELSE 0)
  IN [f EXCEPT !.rr = rr, !.unc = BAdd(@, add), !.und = BSub(@, add), !.rps = IF BZero(total) THEN "0" ELSE BAdd(@, BMulDiv(add, DENOM, total))]
Distribute(f, ts, total) ==
  IF ~Distributing(f, ts) THEN f
  ELSE LET d == Spread(f, ts, total)
           g == IF d.rr = f.rr THEN f
                ELSE IF BZero(total) THEN [d EXCEPT !.claimed = BAdd(@, d.unc), !.ben = BAdd(@, d.unc), !.unc = "0"] ELSE d
       IN IF BZero(g.und) THEN [g EXCEPT !.status = "Ended"] ELSE g
\* what a farmer with stake n has earned since he claimed last
Earned(f, n, rps) == IF BZero(n) THEN "0" ELSE BMulDiv(n, BSub(f.rps, rps), DENOM)

RECURSIVE ClaimIn(_, _, _, _)
\* claims for u in all farms of ids; total: the seeds staked
ClaimIn(F, u, ids, ts) ==
  IF ids = {} THEN [ok |-> TRUE, F |-> F]
  ELSE LET id == CHOOSE x \in ids : TRUE
           f0 == F.farms[id] sd == f0.seed
           f == Distribute(f0, ts, F.seeds[sd].amount)
           a == F.farmers[u]
           e == Earned(f, Get(a.seeds, sd, "0"), Get(a.rps, id, "0"))
           a2 == [SetRps(a, id, f.rps) EXCEPT !.rewards = IF BPos(e) THEN Put(@, f.token, BAdd(Get(@, f.token, "0"), e)) ELSE @]
       IN IF BLt(f.unc, e) THEN Err("E500")
          ELSE ClaimIn([SetFarmer(F, u, a2) EXCEPT !.farms = Put(@, id, [f EXCEPT !.unc = BSub(@, e), !.claimed = BAdd(@, e)])], u, ids \ {id}, ts)
ClaimSeed(F, u, sd, ts) ==
  IF ~Known(F, u) THEN Err("E10") ELSE IF sd \notin DOMAIN F.seeds THEN [ok |-> TRUE, F |-> F] ELSE ClaimIn(F, u, F.seeds[sd].farms, ts)

(* ------------------------------------------------------------ stake *)
Stake(F, u, sd, n, ty, ts) ==
  LET q == ClaimSeed(F, u, sd, ts) IN
  IF ~q.ok THEN q
  ELSE IF sd \notin DOMAIN F.seeds THEN Err("E31")
  ELSE LET a == q.F.farmers[u] IN
    [ok |-> TRUE, F |-> [SetFarmer(q.F, u, IF BPos(n) THEN [a EXCEPT !.seeds = Put(@, sd, BAdd(Get(@, sd, "0"), n))] ELSE a)
                         EXCEPT !.seeds = Put(@, sd, [@[sd] EXCEPT !.amount = BAdd(@, n), !.type = ty])]]
StakeChecked(F, u, sd, n, ty, ts) ==
  IF ~Live(F) THEN Err("E600")
  ELSE IF sd \notin DOMAIN F.seeds THEN Err("E31")
  ELSE IF BLt(n, F.seeds[sd].min) THEN Err("E34")
  ELSE LET q == Stake(F, u, sd, n, ty, ts) IN
    IF ~q.ok THEN q ELSE IF ~FPaidUp(q.F, u) THEN Err("E11") ELSE OK(q.F, None, RVal("0"))
\* funds a farm
AddReward(F, id, tok, n, ts) ==
  IF id \notin DOMAIN F.farms THEN Err("E41")
  ELSE LET f == F.farms[id]
           dry == f.status = "Running" /\ Distributing(f, ts) /\ BZero(Spread(f, ts, DENOM).und)
           g == [f EXCEPT !.und = BAdd(@, n), !.total = BAdd(@, n), !.status = "Running", !.start = IF f.status = "Created" /\ @ = 0 THEN Secs(ts) ELSE @] IN
    IF f.token # tok THEN Err("E44")
    ELSE IF f.status \notin {"Created", "Running"} \/ dry THEN Err("E43")
    ELSE OK([F EXCEPT !.farms = Put(@, id, g), !.info = Put(@, tok, BAdd(Get(@, tok, "0"), n))], None, RVal("0"))
FFtOnTransfer(F, c) ==
  IF ~Live(F) THEN Err("E600")
  ELSE IF c.a.msg = "" THEN StakeChecked(F, c.a.sender_id, c.p, c.a.amount, "FT", c.ts)
  ELSE AddReward(F, c.a.msg, c.p, c.a.amount, c.ts)
FMftOnTransfer(F, c) ==
  IF ~SStarts(c.a.token_id, ":") \/ ~SIsNum(SDrop(c.a.token_id, 1)) THEN Err("E35")
  ELSE IF c.a.msg # "" THEN Err("msg")
  ELSE StakeChecked(F, c.a.sender_id, SCat(SCat(c.p, "@"), BStr(SDrop(c.a.token_id, 1))), c.a.amount, "MFT", c.ts)
\* paid out of a stake
SeedOut(c, sd, ty) ==
  LET cb == IF ty = "FT" THEN "callback_post_withdraw_ft_seed" ELSE "callback_post_withdraw_mft_seed"
      v == SSplit(sd, "@")
      pay == IF ty = "FT" THEN Rcpt(sd, "ft_transfer", [receiver_id |-> c.p, amount |-> BStr(c.a.amount)], YOCTO, None)
             ELSE Rcpt(v[1], "mft_transfer", [token_id |-> SCat(":", v[Len(v)]), receiver_id |-> c.p, amount |-> BStr(c.a.amount)], YOCTO, None)
  IN <<pay, Rcpt(FARM, cb, [seed_id |-> sd, sender_id |-> c.p, amount |-> BStr(c.a.amount)], "0", <<1>>)>>
FWithdrawSeed(F, c) ==
  LET sd == c.a.seed_id n == c.a.amount IN
  IF ~OneYocto(c) \/ ~Live(F) THEN Err("guard")
  ELSE LET q == ClaimSeed(F, c.p, sd, c.ts) IN
    IF ~q.ok THEN q
    ELSE IF sd \notin DOMAIN F.seeds THEN Err("E31")
    ELSE LET a == q.F.farmers[c.p] have == Get(a.seeds, sd, Nil) IN
      IF have = Nil THEN Err("E31") ELSE IF BLt(have, n) THEN Err("E32")
      ELSE LET left == BSub(have, n)
               a2 == IF BPos(left) THEN [a EXCEPT !.seeds = Put(@, sd, left)]
                     ELSE [DropRps(a, F.seeds[sd].farms) EXCEPT !.seeds = Drop(@, sd)]
           IN OK([SetFarmer(q.F, c.p, a2) EXCEPT !.seeds = Put(@, sd, [@[sd] EXCEPT !.amount = BSub(@, n)])], SeedOut(c, sd, F.seeds[sd].type), RProm(2))
\* a farmer who left meanwhile is registered again, so that what comes back has an owner
Again(F, u) == IF Known(F, u) THEN F ELSE [SetFarmer(F, u, NewFarmer("0", LeftBy(F, u))) EXCEPT !.count = @ + 1]
FPostSeed(F, c, ty) ==
  IF c.p # FARM \/ Len(c.pr) # 1 THEN Err("private")
  ELSE IF c.pr[1].ok THEN OK(F, None, RVal(BStr(c.a.amount)))
  ELSE LET q == Stake(Again(F, c.a.sender_id), c.a.sender_id, c.a.seed_id, c.a.amount, ty, c.ts) IN IF q.ok THEN OK(q.F, None, RVal("0")) ELSE q

(* ------------------------------------------------------------ rewards *)
FClaimFarm(F, c) ==
  LET id == c.a.farm_id IN
  IF ~Live(F) \/ ~Known(F, c.p) \/ ~FarmIdOk(id) THEN Err("guard")
  ELSE LET q == IF SeedOf(id) \in DOMAIN F.seeds /\ id \in DOMAIN F.farms THEN ClaimIn(F, c.p, {id}, c.ts) ELSE [ok |-> TRUE, F |-> F] IN
    IF ~q.ok THEN q ELSE IF ~FPaidUp(q.F, c.p) THEN Err("E11") ELSE OK(q.F, None, RNone)
FClaimSeed(F, c) ==
  IF ~Live(F) THEN Err("E600")
  ELSE LET q == ClaimSeed(F, c.p, c.a.seed_id, c.ts) IN
    IF ~q.ok THEN q ELSE IF ~FPaidUp(q.F, c.p) THEN Err("E11") ELSE OK(q.F, None, RNone)
FWithdrawReward(F, c) ==
  IF ~OneYocto(c) \/ ~Live(F) \/ ~Known(F, c.p) THEN Err("guard")
  ELSE LET t == c.a.token_id a == F.farmers[c.p] have == Get(a.rewards, t, Nil) ask == Arg(c, "amount", "0") IN
    IF have = Nil THEN Err("E21") ELSE IF BLt(have, IF ask = Nil THEN "0" ELSE ask) THEN Err("E22")
    ELSE LET n == IF ask = Nil THEN have ELSE IF BZero(ask) THEN have ELSE BStr(ask) left == BSub(have, n) IN
      OK(SetFarmer(F, c.p, [a EXCEPT !.rewards = IF BZero(left) THEN Drop(@, t) ELSE Put(@, t, left)]),
         <<Rcpt(t, "ft_transfer", [receiver_id |-> c.p, amount |-> n], YOCTO, None),
           Rcpt(FARM, "callback_post_withdraw_reward", [token_id |-> t, sender_id |-> c.p, amount |-> n], "0", <<1>>)>>, RProm(2))
FPostReward(F, c) ==
  IF c.p # FARM \/ Len(c.pr) # 1 THEN Err("private")
  ELSE IF c.pr[1].ok THEN OK(F, None, RVal(BStr(c.a.amount)))
  ELSE LET G == Again(F, c.a.sender_id) a == G.farmers[c.a.sender_id] t == c.a.token_id IN
    OK(SetFarmer(G, c.a.sender_id, [a EXCEPT !.rewards = Put(@, t, BAdd(Get(@, t, "0"), c.a.amount))]), None, RVal("0"))
FRemoveRps(F, c) ==
  LET id == c.a.farm_id IN
  IF ~Live(F) \/ ~Known(F, c.p) \/ ~FarmIdOk(id) THEN Err("guard")
  ELSE IF SeedOf(id) \notin DOMAIN F.seeds THEN Err("E31")
  ELSE IF id \in F.seeds[SeedOf(id)].farms THEN OK(F, None, RVal(FALSE))
  ELSE OK([F EXCEPT !.farmers[c.p] = DropRps(@, {id})], None, RVal(TRUE))

(* ------------------------------------------------------------ storage *)
FBalance(F, u) ==
  IF ~Known(F, u) THEN Nil
  ELSE LET a == F.farmers[u] left == BSub(a.near, FCost(a)) IN [total |-> a.near, available |-> IF BPos(left) THEN left ELSE "0"]
Register(F, u, n) == IF Known(F, u) THEN [F EXCEPT !.farmers[u].near = BAdd(@, n)] ELSE [SetFarmer(F, u, NewFarmer(BStr(n), LeftBy(F, u))) EXCEPT !.count = @ + 1]
FStorageDeposit(F, c) ==
  LET u0 == Arg(c, "account_id", Nil) u == IF u0 = Nil THEN c.p ELSE u0 ro == Arg(c, "registration_only", FALSE) = TRUE
      had == IF Known(F, u) THEN F.farmers[u].near ELSE "0" IN
  IF ~Live(F) THEN Err("E600")
  ELSE IF BZero(had) THEN
    IF BLt(c.d, F_MIN) THEN Err("E11")
    ELSE LET G == Register(F, u, IF ro THEN F_MIN ELSE c.d) back == BSub(c.d, F_MIN) IN
      OK(G, IF ro /\ BPos(back) THEN <<Transfer(c.p, back)>> ELSE None, RVal(FBalance(G, u)))
  ELSE IF ro THEN Err("E14")
  ELSE IF BLt(BAdd(had, c.d), FCost(F.farmers[u])) THEN Err("E11")
  ELSE LET G == Register(F, u, c.d) IN OK(G, None, RVal(FBalance(G, u)))
FStorageWithdraw(F, c) ==
  IF ~OneYocto(c) \/ ~Live(F) \/ ~Known(F, c.p) THEN Err("guard")
  ELSE LET a == F.farmers[c.p] cost == FCost(a) ask == Arg(c, "amount", Nil) IN
    IF BZero(a.near) \/ BLt(a.near, cost) THEN Err("E11")
    ELSE LET n == IF ask = Nil THEN BSub(a.near, cost) ELSE BStr(ask) IN
      IF BLt(a.near, BAdd(cost, n)) THEN Err("E11")
      ELSE LET G == [F EXCEPT !.farmers[c.p].near = BSub(@, n)] IN OK(G, <<Transfer(c.p, n)>>, RVal(FBalance(G, c.p)))
FStorageUnregister(F, c) ==
  IF ~OneYocto(c) \/ ~Live(F) THEN Err("guard")
  ELSE IF ~Known(F, c.p) THEN OK(F, None, RVal(FALSE))
  ELSE LET a == F.farmers[c.p] IN
    IF DOMAIN a.rewards # {} THEN Err("E12") ELSE IF DOMAIN a.seeds # {} THEN Err("E13")
    ELSE OK([F EXCEPT !.farmers = Drop(@, c.p), !.left = Put(@, c.p, a.rps), !.count = @ - 1], <<Transfer(c.p, a.near)>>, RVal(TRUE))

(* ------------------------------------------------------------ owner *)
FOwner(F, c) == c.p = F.owner
FCreate(F, c) ==
  LET t == c.a.terms sd == t.seed_id m0 == Arg(c, "min_deposit", Nil)
      s == IF sd \in DOMAIN F.seeds THEN F.seeds[sd]
           ELSE [type |-> SeedType(sd), farms |-> {}, next |-> 0, amount |-> "0", min |-> IF m0 = Nil THEN "1000000000000000000" ELSE BStr(m0)]
      id == SCat(SCat(sd, "#"), BStr(s.next))
      f == [seed |-> sd, token |-> t.reward_token, start |-> t.start_at, per |-> BStr(t.reward_per_session), interval |-> t.session_interval,
            status |-> "Created", und |-> "0", unc |-> "0", rps |-> "0", rr |-> 0, total |-> "0", claimed |-> "0", ben |-> "0"]
  IN IF ~FOwner(F, c) THEN Err("owner")
     ELSE IF sd \notin DOMAIN F.seeds /\ Len(SSplit(sd, "@")) > 2 THEN Err("E33")
     ELSE IF ~Charged(c, c.g) \/ BLt(c.d, BMul("100", BYTE_COST)) THEN Err("E11")
     ELSE OK([F EXCEPT !.seeds = Put(@, sd, [s EXCEPT !.farms = @ \cup {id}, !.next = @ + 1]), !.farms = Put(@, id, f)], Refund(c, c.g), RVal(id))
FClean(F, c) ==
  LET id == c.a.farm_id sd == SeedOf(id) IN
  IF ~FOwner(F, c) \/ ~FarmIdOk(id) THEN Err("guard")
  ELSE IF sd \notin DOMAIN F.seeds \/ id \notin DOMAIN F.farms THEN OK(F, None, RVal(FALSE))
  ELSE LET tot == F.seeds[sd].amount f == F.farms[id]
           over == f.status = "Ended" \/ (IF Distributing(f, c.ts) THEN BZero(Spread(f, c.ts, tot).und) ELSE FALSE)
           g == Distribute(f, c.ts, tot)
           h == IF g.status # "Ended" THEN g ELSE [g EXCEPT !.claimed = BAdd(@, g.unc), !.ben = BAdd(@, g.unc), !.unc = "0", !.status = "Cleared"] IN
    IF ~over THEN OK(F, None, RVal(FALSE))
    ELSE OK([F EXCEPT !.farms = Drop(@, id), !.old = Put(@, id, h), !.seeds = Put(@, sd, [@[sd] EXCEPT !.farms = @ \ {id}])], None, RVal(TRUE))

FPayable == {"create_simple_farm", "withdraw_seed", "withdraw_reward", "storage_deposit", "storage_withdraw", "storage_unregister", "pause_contract", "resume_contract"}
FMethods == FPayable \cup {"set_owner", "force_clean_farm", "modify_seed_min_deposit", "remove_user_rps_by_farm", "claim_reward_by_farm", "claim_reward_by_seed",
  "callback_post_withdraw_reward", "callback_post_withdraw_ft_seed", "callback_post_withdraw_mft_seed", "ft_on_transfer", "mft_on_transfer", "migrate", "new", "upgrade", "deploy_contract"}
FAct(F, c) ==
  CASE c.m = "create_simple_farm" -> FCreate(F, c)
    [] c.m = "set_owner" -> IF FOwner(F, c) THEN OK([F EXCEPT !.owner = c.a.owner_id], None, RNone) ELSE Err("owner")
    [] c.m = "force_clean_farm" -> FClean(F, c)
    [] c.m = "modify_seed_min_deposit" ->
         IF ~FOwner(F, c) THEN Err("owner") ELSE IF c.a.seed_id \notin DOMAIN F.seeds THEN Err("E31")
         ELSE OK([F EXCEPT !.seeds[c.a.seed_id].min = BStr(c.a.min_deposit)], None, RNone)
    [] c.m = "pause_contract" -> IF OneYocto(c) /\ FOwner(F, c) THEN OK([F EXCEPT !.state = "Paused"], None, RNone) ELSE Err("guard")
    [] c.m = "resume_contract" -> IF OneYocto(c) /\ FOwner(F, c) THEN OK([F EXCEPT !.state = "Running"], None, RNone) ELSE Err("guard")
    [] c.m = "remove_user_rps_by_farm" -> FRemoveRps(F, c)
    [] c.m = "claim_reward_by_farm" -> FClaimFarm(F, c)
    [] c.m = "claim_reward_by_seed" -> FClaimSeed(F, c)
    [] c.m = "withdraw_reward" -> FWithdrawReward(F, c)
    [] c.m = "callback_post_withdraw_reward" -> FPostReward(F, c)
    [] c.m = "withdraw_seed" -> FWithdrawSeed(F, c)
    [] c.m = "callback_post_withdraw_ft_seed" -> FPostSeed(F, c, "FT")
    [] c.m = "callback_post_withdraw_mft_seed" -> FPostSeed(F, c, "MFT")
    [] c.m = "ft_on_transfer" -> FFtOnTransfer(F, c)
    [] c.m = "mft_on_transfer" -> FMftOnTransfer(F, c)
    [] c.m = "storage_deposit" -> FStorageDeposit(F, c)
    [] c.m = "storage_withdraw" -> FStorageWithdraw(F, c)
    [] c.m = "storage_unregister" -> FStorageUnregister(F, c)
    [] c.m = "migrate" -> IF c.p = FARM THEN OK(F, None, RNone) ELSE Err("private")
    [] c.m = "upgrade" -> IF c.p = F.owner THEN OK(F, <<Rcpt(FARM, "deploy_contract", Empty, 0, None)>>, RNone) ELSE Err("ERR_NOT_ALLOWED")
    [] c.m = "deploy_contract" -> IF c.p = FARM THEN OK(F, None, RNone) ELSE Err("private")
    [] OTHER -> Err("again")
FPaid(fx) == BSumSeq([i \in DOMAIN fx |-> fx[i].d])
FStep(F, c) ==
  IF c.m \notin FMethods THEN Err("unknown method")
  ELSE IF c.d # "0" /\ c.m \notin FPayable THEN Err("not payable")
  ELSE LET r == FAct(F, c) IN
    IF ~r.ok THEN r ELSE [r EXCEPT !.S = [@ EXCEPT !.bal = BSub(BAdd(@, c.d), FPaid(r.fx))]]

(* ------------------------------------------------------------ what the views answer *)
FarmInfo(f, id, ts) ==
  LET on == Distributing(f, ts) d == IF on THEN Spread(f, ts, DENOM) ELSE f IN
  [farm_id |-> id, farm_kind |-> "SIMPLE_FARM", farm_status |-> IF on /\ BZero(d.und) THEN "Ended" ELSE f.status, seed_id |-> f.seed,
   reward_token |-> f.token, start_at |-> f.start, reward_per_session |-> f.per, session_interval |-> f.interval, total_reward |-> f.total,
   cur_round |-> d.rr, last_round |-> f.rr, claimed_reward |-> f.claimed, unclaimed_reward |-> d.unc, beneficiary_reward |-> f.ben]
Unclaimed(F, u, id, ts) ==
  IF ~Known(F, u) \/ id \notin DOMAIN F.farms THEN "0"
  ELSE LET f == F.farms[id] tot == F.seeds[f.seed].amount n == Get(F.farmers[u].seeds, f.seed, "0") IN
    IF BZero(tot) \/ BZero(n) THEN "0" ELSE Earned(IF Distributing(f, ts) THEN Spread(f, ts, tot) ELSE f, n, Get(F.farmers[u].rps, id, "0"))
SeedInfo(s, id) == [seed_id |-> id, seed_type |-> s.type, farms |-> SSort(s.farms), next_index |-> s.next, amount |-> s.amount, min_deposit |-> s.min]
FarmerInfo(F, u, ts) ==
  IF ~Known(F, u) THEN [reg |-> FALSE]
  ELSE LET a == F.farmers[u] all == DOMAIN F.farms \cup DOMAIN F.old IN
    [reg |-> TRUE, near |-> a.near, usage |-> FCost(a), rewards |-> a.rewards, seeds |-> a.seeds, rps |-> [x \in {x \in DOMAIN a.rps : BPos(a.rps[x]) /\ x \in all} |-> a.rps[x]],
     unclaimed |-> [x \in all |-> Unclaimed(F, u, x, ts)]]
Meta(F) == [owner |-> F.owner, farmers |-> BStr(F.count), state |-> F.state, farms |-> BStr(Cardinality(DOMAIN F.farms)), seeds |-> BStr(Cardinality(DOMAIN F.seeds)), rewards |-> F.info]
FNew(owner, bal) == [owner |-> owner, state |-> "Running", count |-> 0, bal |-> bal, seeds |-> Empty, farmers |-> Empty, left |-> Empty, farms |-> Empty, old |-> Empty, info |-> Empty]
=============================================================================
