------------------------------ MODULE FarmWorld ------------------------------
(* The farming contract in its world: farmers, the contracts of the staked and the rewarding tokens, time, and the receipts between them,
   delivered in any order with any outcome. Like ExWorld: explored completely (FarmWorld.cfg) or walked at random (FarmWorldSim.cfg).

   A world (environment variable WORLD) is a JSON record
     setup    calls made first, each settled at once        people   accounts that may be farmers
     menu     calls users may make                           times    steps the clock may take, in nanoseconds
     calls    number of calls and clock steps (long: in a walk)   ledger   token -> holder -> amount ("ex@0": shares of the exchange's pool 0) *)
EXTENDS FarmProps, Receipts, Attempts, Json, IOUtils

W == ndJsonDeserialize(IOEnv.WORLD)[1]
CONSTANT Refused  \* whether calls that change nothing are explored

VARIABLES F,     \* the farming contract
          wal,   \* token -> holder -> amount in the token contract
          q,     \* receipts on their way
          now, left,
          G,     \* the exact account of FarmProps
          bad, log
vars == <<F, wal, q, now, left, G, bad, log>>

Tokens == DOMAIN W.ledger
Pooled(t) == t = "ex@0"
Of(to) == IF to = EX THEN "ex@0" ELSE to  \* the token whose contract is called
FarmCall(p, m, a, d, pr, ts) == [p |-> p, s |-> p, m |-> m, a |-> a, d |-> d, pr |-> pr, ts |-> ts, g |-> 500]

\* what the views and the token contracts show
People == Range(W.people)
Show(Z, wl, ts) ==
  [k \in {SCat("ff/", x) : x \in DOMAIN Z.farms} |-> FarmInfo(Z.farms[SDrop(k, 3)], SDrop(k, 3), ts)]
  @@ [k \in {SCat("fo/", x) : x \in DOMAIN Z.old} |-> FarmInfo(Z.old[SDrop(k, 3)], SDrop(k, 3), ts)]
  @@ [k \in {SCat("fs/", x) : x \in DOMAIN Z.seeds} |-> SeedInfo(Z.seeds[SDrop(k, 3)], SDrop(k, 3))]
  @@ [k \in {SCat("fu/", x) : x \in People} |-> FarmerInfo(Z, SDrop(k, 3), ts)]
  @@ [k \in {"fm"} |-> Meta(Z)]
  @@ [k \in {SCat("t/", t) : t \in {t \in Tokens : ~Pooled(t)}} |-> wl[SDrop(k, 2)]]
  @@ [k \in {SCat("p/", "0") : t \in {t \in Tokens : Pooled(t)}} |-> [sh |-> wl["ex@0"]]]

(* a farm only moves forward: created, running, ended, cleared; what it was given and paid never shrinks; what is cleared stays *)
Rank(s) == CASE s = "Created" -> 0 [] s = "Running" -> 1 [] s = "Ended" -> 2 [] s = "Cleared" -> 3
Backwards(A, B) ==
  {id \in DOMAIN A.farms : IF id \notin DOMAIN B.farms THEN id \notin DOMAIN B.old
     ELSE LET x == A.farms[id] y == B.farms[id] IN
       Rank(y.status) < Rank(x.status) \/ BLt(y.total, x.total) \/ BLt(y.claimed, x.claimed) \/ BLt(y.ben, x.ben) \/ y.rr < x.rr
       \/ (x.start # 0 /\ y.start # x.start) \/ y.token # x.token \/ y.per # x.per \/ y.interval # x.interval}
  \cup {id \in DOMAIN A.old : IF id \in DOMAIN B.old THEN A.old[id] # B.old[id] ELSE TRUE}
\* one step of the contract in world w, as w2 sees it
Judge(w, w2, c) ==
  LET b == Show(w.F, w.wal, w.now) o == Show(w2.F, w2.wal, w.now) H1 == GPass(w.G, b, FarmsOf(b), w.now) IN
  [w2 EXCEPT !.G = GPass(GBook(H1, b, o, Acting(c)), o, FarmsOf(o), w.now),
             !.bad = @ \cup FStepInv(b, o, c) \cup {<<"backwards", x>> : x \in Backwards(w.F, w2.F)}]

(* ------------------------------------------------------------ one step of a world w = [F, wal, q, now, G, bad, log] *)
\* a user calls the farming contract, or a token contract that will
Ask(w, c) ==
  LET lg == [c |-> "call", p |-> c.p, to |-> c.to, m |-> c.m, a |-> c.a, d |-> c.d] IN
  IF c.to # FARM THEN
    LET t == Of(c.to) n == c.a.amount IN
    IF BLt(Bal(w.wal, t, c.p), n) THEN w
    ELSE [Log(w, lg) EXCEPT !.wal = Pay(@, t, c.p, FARM, n),
            !.q = Append(@, Item(c.to, [to |-> FARM, m |-> IF Pooled(t) THEN "mft_on_transfer" ELSE "ft_on_transfer",
                                        a |-> [sender_id |-> c.p, amount |-> n, msg |-> c.a.msg] @@ (IF Pooled(t) THEN [token_id |-> ":0"] ELSE Empty), d |-> "0", dep |-> None]))]
  ELSE LET k == FarmCall(c.p, c.m, c.a, c.d, None, w.now) r == FStep(w.F, k) IN
    IF ~r.ok THEN IF Refused THEN Log(w, lg) ELSE w
    ELSE Judge(w, [Log(w, lg) EXCEPT !.F = r.S, !.q = Send(@, FARM, r.fx)], k)

\* the farming contract executes receipt k
Run(w, k) ==
  LET r == w.q[k] c == FarmCall(r.from, r.m, r.a, r.d, r.pr, w.now) s == Attempt(FStep(w.F, c), Err("parse"))
      v == IF ~s.ok THEN NoRes ELSE [ok |-> TRUE, v |-> IF s.ret.k = "val" THEN s.ret.v ELSE ""]
      w1 == [Log(w, Exec(r)) EXCEPT !.q = Done(@, k, v)]
      sent == r.m \in {"ft_on_transfer", "mft_on_transfer"}
      u == r.a.sender_id n == r.a.amount
      w2 == IF s.ok THEN [w1 EXCEPT !.F = s.S, !.q = Send(@, FARM, s.fx)]
            ELSE [w1 EXCEPT !.wal = IF sent THEN Pay(@, Of(r.from), FARM, u, n) ELSE @, !.bad = @ \cup (IF sent THEN {} ELSE {<<"callback", r.m>>})]
      w3 == IF ~sent THEN w2
            ELSE Log(w2, [c |-> "exec", sel |-> [to |-> r.from, m |-> IF r.m = "ft_on_transfer" THEN "ft_resolve_transfer" ELSE "mft_resolve_transfer", a |-> [sender_id |-> u, amount |-> n]]])
  IN IF s.ok THEN Judge(w, w3, c) ELSE w3

\* a token contract carries out a transfer, or fails to
React(w, k, ok) ==
  LET r == w.q[k] t == Of(r.to) n == r.a.amount IN
  IF ~ok THEN [Log(w, ExecOut(r, "fail")) EXCEPT !.q = Done(@, k, NoRes)]
  ELSE IF BLt(Bal(w.wal, t, FARM), n) THEN [w EXCEPT !.bad = @ \cup {<<"broke", t>>}]
  ELSE [Log(w, Exec(r)) EXCEPT !.q = Done(@, k, [ok |-> TRUE, v |-> ""]), !.wal = Pay(@, t, FARM, r.a.receiver_id, n)]

RECURSIVE Settle(_, _)
Settle(w, n) ==
  IF w.q = None \/ n = 0 THEN w
  ELSE LET k == CHOOSE k \in DOMAIN w.q : Ready(w.q[k]) /\ \A j \in DOMAIN w.q : j < k => ~Ready(w.q[j]) IN
    Settle(IF w.q[k].to = FARM THEN Run(w, k) ELSE React(w, k, TRUE), n - 1)
RECURSIVE Prepare(_, _)
Prepare(w, i) == IF i > Len(W.setup) THEN w ELSE Prepare(Settle(Ask(w, W.setup[i]), 20), i + 1)
World0 == Prepare([F |-> FNew("owner", "100000000000000000000000000"), wal |-> W.ledger, q |-> None, now |-> "1700000000000000000", G |-> GNew, bad |-> {}, log |-> None], 1)

WInit ==
  LET w == World0 IN
  /\ F = w.F /\ wal = w.wal /\ q = w.q /\ now = w.now /\ G = w.G /\ bad = w.bad /\ log = None /\ left = IF Refused THEN W.long ELSE W.calls
Here == [F |-> F, wal |-> wal, q |-> q, now |-> now, G |-> G, bad |-> bad, log |-> log]
Become(w) == F' = w.F /\ wal' = w.wal /\ q' = w.q /\ now' = w.now /\ G' = w.G /\ bad' = w.bad /\ log' = w.log
Menu == IF left > 0 THEN DOMAIN W.menu ELSE {}
Clock == IF left > 0 THEN DOMAIN W.times ELSE {}
Tick(w, n) == LET b == Show(w.F, w.wal, w.now) ts == BAdd(w.now, n) IN [Log(w, [c |-> "time", adv |-> n]) EXCEPT !.now = ts, !.G = GPass(@, b, FarmsOf(b), ts)]

UserCalls == \E k \in Menu : LET w == Ask(Here, W.menu[k]) IN w # Here /\ Become(w) /\ left' = left - 1
Settles == \E k \in DOMAIN q : Ready(q[k]) /\ q[k].to = FARM /\ Become(Run(Here, k)) /\ UNCHANGED left
Reacts == \E k \in DOMAIN q : Ready(q[k]) /\ q[k].to # FARM /\ (\E ok \in BOOLEAN : Become(React(Here, k, ok))) /\ UNCHANGED left
Ticks == \E k \in Clock : Become(Tick(Here, W.times[k])) /\ left' = left - 1
WNext == UserCalls \/ Settles \/ Reacts \/ Ticks
View == <<F, wal, q, now, left, G, bad>>

(* ------------------------------------------------------------ properties *)
Moving(r, t) ==
  IF r.from = FARM /\ r.to # FARM /\ Of(r.to) = t /\ r.m \in {"ft_transfer", "mft_transfer"} THEN r.a.amount
  ELSE IF r.to = FARM /\ r.m \in {"callback_post_withdraw_ft_seed", "callback_post_withdraw_mft_seed"} /\ r.a.seed_id = t /\ Ready(r) THEN IF r.pr[1].ok THEN "0" ELSE r.a.amount
  ELSE IF r.to = FARM /\ r.m = "callback_post_withdraw_reward" /\ r.a.token_id = t /\ Ready(r) THEN IF r.pr[1].ok THEN "0" ELSE r.a.amount
  ELSE IF r.to = FARM /\ r.m \in {"ft_on_transfer", "mft_on_transfer"} /\ Of(r.from) = t THEN r.a.amount ELSE "0"
Whose(r) == IF r.m \in {"ft_transfer", "mft_transfer"} THEN r.a.receiver_id ELSE r.a.sender_id
Transit(t) == BSumSeq([k \in DOMAIN q |-> Moving(q[k], t)])
Stakes(t) == BSumFn([u \in DOMAIN F.farmers |-> Get(F.farmers[u].seeds, t, "0")])
Rewarded(t) == BSumFn([u \in DOMAIN F.farmers |-> Get(F.farmers[u].rewards, t, "0")])
Kept(fs, t) == BSumFn([id \in {x \in DOMAIN fs : fs[x].token = t} |-> BAdd(BSub(fs[id].total, fs[id].claimed), fs[id].ben)])
\* the contract holds exactly what is staked, claimed and not withdrawn, funded and not claimed, and on its way
Conserved == \A t \in Tokens : BEq(Bal(wal, t, FARM), BAdd(BAdd(BAdd(Stakes(t), Rewarded(t)), BAdd(Kept(F.farms, t), Kept(F.old, t))), Transit(t)))
\* what a farmer brought of a token that nobody rewards is in his wallet, staked, or on its way to him
Plain(t) == ~\E id \in DOMAIN F.farms \cup DOMAIN F.old : t = (IF id \in DOMAIN F.farms THEN F.farms[id].token ELSE F.old[id].token)
OwnedOnce ==
  \A t \in {t \in Tokens : Plain(t)} : \A u \in People :
    BEq(Get(W.ledger[t], u, "0"), BAdd(BAdd(Bal(wal, t, u), IF Known(F, u) THEN Get(F.farmers[u].seeds, t, "0") ELSE "0"),
                                       BSumSeq([k \in DOMAIN q |-> IF Moving(q[k], t) = "0" THEN "0" ELSE IF Whose(q[k]) = u THEN Moving(q[k], t) ELSE "0"])))
Steps == bad = {}
States == LET o == Show(F, wal, now) IN FStateInv(o) = {} /\ UnfairTo(G, o) = {}
\* given out and not given out make the funding; a farm that has ended has nothing left to give
Books == \A id \in DOMAIN F.farms : LET f == F.farms[id] IN
  BEq(f.total, BAdd(f.und, BAdd(f.unc, f.claimed))) /\ (f.status \in {"Created", "Ended"} => BZero(f.und) \/ f.status = "Created") /\ f.status # "Cleared"
Cleared == \A id \in DOMAIN F.old : LET f == F.old[id] IN f.status = "Cleared" /\ BZero(f.und) /\ BZero(f.unc) /\ BEq(f.total, f.claimed)
Export == (left = 0 /\ q = None) => Emit(<<"WALK", ToJson(log)>>)
=============================================================================
