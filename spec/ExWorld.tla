------------------------------- MODULE ExWorld -------------------------------
(* The exchange in its world: users who call it, token contracts, the partner contracts that count shares, oracles, and the receipts
   between them, delivered in any order with any outcome.  TLC explores a world completely (ExWorld.cfg) or walks through it at random
   (ExWorldSim.cfg), printing the walk as a script, which is then replayed in the real contract and compared with the specification.

   A world (environment variable WORLD) is a JSON record
     setup    calls made first, each settled at once
     menu     calls users may make           times    steps the clock may take, in nanoseconds
     calls    number of calls and clock steps (long: in a walk)   ledger   token -> holder -> amount
     aged     user -> tokens of his that are stored as an early release did
     answers  method -> what an oracle may answer       pure     whether users only deposit and withdraw                           *)
EXTENDS ExProps, Receipts, Attempts, Json, IOUtils

W == ndJsonDeserialize(IOEnv.WORLD)[1]
CONSTANT Refused  \* whether calls that change nothing are explored

VARIABLES S,     \* the exchange
          wal,   \* token -> holder -> amount in the token contract
          par,   \* partner -> account -> shares counted there
          q,     \* receipts on their way, in order of creation
          now, left,
          bad,   \* broken step properties
          log    \* what happened, as a script
vars == <<S, wal, par, q, now, left, bad, log>>

USAGE == "1003000"
Start == [cfg |-> [owner |-> "owner", guardians |-> {}, state |-> "Running", adminfee |-> 10, boost |-> "bfarm", burrow |-> "burrow", interval |-> 720,
                   wnear |-> Nil, postfix |-> {}, frozen |-> {}, wl |-> {}, ref |-> Empty, cetw |-> {}, cesw |-> {}, ssw |-> {}],
          p |-> None, a |-> Empty, l |-> Empty, rates |-> Empty, degens |-> Empty, oracles |-> Empty, bal |-> "100000000000000000000000000"]
Tokens == DOMAIN W.ledger
Count(x, partner, u) == Get(Get(x, partner, Empty), u, "0")
Counted(x, partner, u, n) == Put(x, partner, Put(Get(x, partner, Empty), u, n))

CallTo(p, m, a, d, msg, pr, ts) == [p |-> p, s |-> p, m |-> m, a |-> a, d |-> d, pr |-> pr, ts |-> ts, msg |-> msg, u |-> USAGE, g |-> 0]

(* ------------------------------------------------------------ one step of a world w = [S, wal, par, q, now, bad, log] *)

\* a user calls the exchange, or a token contract that will
Ask(w, c) ==
  LET lg == [c |-> "call", p |-> c.p, to |-> c.to, m |-> c.m, a |-> c.a, d |-> c.d] IN
  IF c.to # EX THEN  \* tokens sent with a message: the token contract moves them and notifies the exchange
    IF BLt(Bal(w.wal, c.to, c.p), c.a.amount) THEN w
    ELSE [Log(w, lg) EXCEPT !.wal = Pay(@, c.to, c.p, EX, c.a.amount),
            !.q = Append(@, Item(c.to, [to |-> EX, m |-> "ft_on_transfer", a |-> [sender_id |-> c.p, amount |-> c.a.amount, msg |-> c.a.msg], d |-> "0",
                                        msg |-> Get(c, "msgj", Empty), dep |-> None]))]
  ELSE LET k == CallTo(c.p, c.m, c.a, c.d, Get(c, "msgj", Empty), None, w.now) r == Step(w.S, k) IN
    IF ~r.ok THEN IF Refused THEN Log(w, lg) ELSE w
    ELSE [Log(w, lg) EXCEPT !.S = r.S, !.q = Send(@, EX, r.fx), !.bad = @ \cup StepInv(w.S, r.S, k)]

\* the exchange executes receipt k
Run(w, k) ==
  LET r == w.q[k] c == CallTo(r.from, r.m, r.a, r.d, r.msg, r.pr, w.now) s == Attempt(Step(w.S, c), Err("parse"))
      v == IF ~s.ok THEN NoRes ELSE [ok |-> TRUE, v |-> IF s.ret.k = "val" THEN s.ret.v ELSE ""]
      w1 == [Log(w, Exec(r)) EXCEPT !.q = Done(@, k, v)]
      w2 == IF s.ok THEN [w1 EXCEPT !.S = s.S, !.q = Send(@, EX, s.fx), !.bad = @ \cup StepInv(w.S, s.S, c)]
            ELSE [w1 EXCEPT !.bad = @ \cup (IF r.from = EX /\ r.m \notin {"update_token_rate_callback", "update_degen_token_price_callback",
                    "batch_update_degen_token_by_price_oracle_callback", "batch_update_degen_token_by_pyth_oracle_callback"} /\ ~W.lenient
                    THEN {<<"callback", r.m>>} ELSE {})]
  IN IF r.m # "ft_on_transfer" THEN w2
     ELSE LET u == r.a.sender_id n == r.a.amount IN  \* what is not accepted goes back
       Log([w2 EXCEPT !.wal = IF s.ok THEN @ ELSE Pay(@, r.from, EX, u, n)],
           [c |-> "exec", sel |-> [to |-> r.from, m |-> "ft_resolve_transfer", a |-> [sender_id |-> u, amount |-> n]]])

\* what an outside contract may make of receipt r: a set of outcomes [ok, v], for the transfer of tokens with a message v is what was used
Half(n) == BDiv(n, 2)
Yes(v) == [ok |-> TRUE, v |-> v]
Transfers == {"ft_transfer", "ft_transfer_call", "near_withdraw"}
Outcomes(w, r) ==
  CASE r.to \in Tokens /\ r.m \in {"ft_transfer", "near_withdraw"} -> {Yes(""), NoRes}
    [] r.to \in Tokens /\ r.m = "ft_transfer_call" -> {Yes("0"), Yes(Half(r.a.amount)), Yes(r.a.amount), NoRes}
    [] r.m = "mft_on_transfer" -> {Yes("0"), Yes(Half(r.a.amount)), Yes(r.a.amount), NoRes}
    [] r.m \in {"on_cast_shadow", "on_remove_shadow"} -> {Yes(""), NoRes}
    [] r.m \in DOMAIN W.answers -> {Yes(W.answers[r.m][i]) : i \in DOMAIN W.answers[r.m]} \cup {NoRes}
    [] OTHER -> {NoRes}
\* answers of oracles carry the time they are given
Dated(v, ts) ==
  IF IsStr(v) THEN v ELSE IF Has(v, "timestamp") THEN [v EXCEPT !.timestamp = BSub(ts, @)] ELSE IF Has(v, "publish_time") THEN [v EXCEPT !.publish_time = Secs(ts) - @] ELSE v
React(w, k, o) ==
  LET r == w.q[k] n == Get(r.a, "amount", "0") IN
  IF ~o.ok THEN [Log(w, ExecOut(r, "fail")) EXCEPT !.q = Done(@, k, NoRes)]
  ELSE IF r.m \in Transfers THEN
    IF BLt(Bal(w.wal, r.to, EX), n) THEN [w EXCEPT !.bad = @ \cup {<<"broke", r.to>>}]
    ELSE IF r.m = "ft_transfer" THEN [Log(w, Exec(r)) EXCEPT !.q = Done(@, k, o), !.wal = Pay(@, r.to, EX, r.a.receiver_id, n)]
    ELSE IF r.m = "near_withdraw"
      THEN [Log(Log(w, Exec(r)), [c |-> "exec", sel |-> [to |-> EX, m |-> "transfer"]])
            EXCEPT !.q = Done(@, k, o), !.wal = Pay(@, r.to, EX, "burned", n), !.S = [@ EXCEPT !.bal = BAdd(@, n)]]
    ELSE LET u == r.a.receiver_id IN
      [Log(Log(Log(w, Exec(r)), [c |-> "exec", sel |-> [to |-> u, m |-> "ft_on_transfer"], out |-> [ok |-> BSub(n, o.v)]]),
           [c |-> "exec", sel |-> [to |-> r.to, m |-> "ft_resolve_transfer", a |-> [receiver_id |-> u, amount |-> n]]])
       EXCEPT !.q = Done(@, k, o), !.wal = Pay(@, r.to, EX, u, o.v)]
  ELSE IF r.m = "on_cast_shadow" THEN [Log(w, Exec(r)) EXCEPT !.q = Done(@, k, o), !.par = Counted(@, r.to, r.a.account_id, BAdd(Count(@, r.to, r.a.account_id), n))]
  ELSE IF r.m = "on_remove_shadow" THEN
    IF BLt(Count(w.par, r.to, r.a.account_id), n) THEN [Log(w, ExecOut(r, "fail")) EXCEPT !.q = Done(@, k, NoRes)]
    ELSE [Log(w, Exec(r)) EXCEPT !.q = Done(@, k, o), !.par = Counted(@, r.to, r.a.account_id, BSub(Count(@, r.to, r.a.account_id), n))]
  ELSE LET v == Yes(Dated(o.v, w.now)) IN [Log(w, ExecOut(r, [ok |-> v.v])) EXCEPT !.q = Done(@, k, v)]

(* ------------------------------------------------------------ setup: every call with everything it causes *)
RECURSIVE Settle(_, _, _)
Settle(w, c, n) ==
  IF w.q = None \/ n = 0 THEN w
  ELSE LET k == CHOOSE k \in DOMAIN w.q : Ready(w.q[k]) /\ \A j \in DOMAIN w.q : j < k => ~Ready(w.q[j]) r == w.q[k] IN
    Settle(IF r.to = EX THEN Run(w, k) ELSE React(w, k, IF Has(c, "out") THEN Yes(c.out)
             ELSE IF r.m = "ft_transfer_call" THEN Yes(r.a.amount) ELSE Yes("")), c, n - 1)
RECURSIVE Prepare(_, _)
Prepare(w, i) == IF i > Len(W.setup) THEN w ELSE Prepare(Settle(Ask(w, W.setup[i]), W.setup[i], 20), i + 1)
World0 == Prepare([S |-> Start, wal |-> W.ledger, par |-> Empty, q |-> None, now |-> "1700000000000000000", bad |-> {}, log |-> None], 1)

\* accounts stored as an early release did
Aged(w) == [w EXCEPT !.S.a = [u \in DOMAIN @ |-> [@[u] EXCEPT !.leg = Range(Get(Get(W, "aged", Empty), u, None))]]]
WInit ==
  LET w == Aged(World0) IN
  /\ S = w.S /\ wal = w.wal /\ par = w.par /\ q = w.q /\ now = w.now /\ bad = w.bad /\ log = None /\ left = IF Refused THEN W.long ELSE W.calls
Here == [S |-> S, wal |-> wal, par |-> par, q |-> q, now |-> now, bad |-> bad, log |-> log]
Become(w) == S' = w.S /\ wal' = w.wal /\ par' = w.par /\ q' = w.q /\ now' = w.now /\ bad' = w.bad /\ log' = w.log
Menu == IF left > 0 THEN DOMAIN W.menu ELSE {}
Clock == IF left > 0 THEN DOMAIN W.times ELSE {}

UserCalls == \E k \in Menu : LET w == Ask(Here, W.menu[k]) IN w # Here /\ Become(w) /\ left' = left - 1
Settles == \E k \in DOMAIN q : Ready(q[k]) /\ q[k].to = EX /\ Become(Run(Here, k)) /\ UNCHANGED left
Reacts == \E k \in DOMAIN q : Ready(q[k]) /\ q[k].to # EX /\ (\E o \in Outcomes(Here, q[k]) : Become(React(Here, k, o))) /\ UNCHANGED left
Ticks == \E k \in Clock : now' = BAdd(now, W.times[k]) /\ left' = left - 1 /\ log' = Append(log, [c |-> "time", adv |-> W.times[k]]) /\ UNCHANGED <<S, wal, par, q, bad>>
WNext == UserCalls \/ Settles \/ Reacts \/ Ticks
View == <<S, wal, par, q, now, left, bad>>

(* ------------------------------------------------------------ properties *)
\* on its way out of or into the exchange: still (or already) held, counted neither as owed nor as paid
Moving(r, t) ==
  IF r.from = EX /\ r.to = t /\ r.m \in {"ft_transfer", "ft_transfer_call", "near_withdraw"} THEN r.a.amount
  ELSE IF r.to = EX /\ r.m \in {"exchange_callback_post_withdraw", "exchange_callback_post_withdraw_near", "exchange_callback_post_transfer_call"} /\ r.a.token_id = t /\ Ready(r)
    THEN IF ~r.pr[1].ok THEN r.a.amount ELSE IF r.m = "exchange_callback_post_transfer_call" THEN BSub(r.a.amount, r.pr[1].v) ELSE "0"
  ELSE IF r.to = EX /\ r.m = "ft_on_transfer" /\ r.from = t THEN r.a.amount ELSE "0"
Transit(t) == BSumSeq([k \in DOMAIN q |-> Moving(q[k], t)])
\* the exchange holds exactly what it owes and what is on its way
\* (curve pools keep fractions of a unit; what rounds off stays with the exchange)
Conserved == \A t \in Tokens :
  LET x == BAdd(Owed(S, t), Transit(t)) h == Bal(wal, t, EX) IN
  IF \E k \in DOMAIN S.p : IsCurve(S.p[k]) THEN BLe(x, h) /\ BLe(h, BAdd(x, "100")) ELSE BEq(h, x)
Steps == bad = {}
States == StateInv(S) = {}
\* what belongs to one user, wherever it is
Whose(r, t, u) == IF ~W.pure THEN "0" ELSE IF (r.m \in {"ft_transfer", "ft_transfer_call"} /\ r.a.receiver_id = u) \/ (r.m = "near_withdraw" /\ \E k \in DOMAIN q : q[k].m = "exchange_callback_post_withdraw_near" /\ q[k].a.sender_id = u)
                     \/ (r.to = EX /\ r.a.sender_id = u) THEN Moving(r, t) ELSE "0"
Wealth(t, u) == BAdd(BAdd(Bal(wal, t, u), IF IsReg(S, u) THEN ABal(S.a[u], t) ELSE "0"), BAdd(LostOf(S, u, t), BSumSeq([k \in DOMAIN q |-> Whose(q[k], t, u)])))
OwnedOnce == W.pure => \A t \in Tokens \ {"wnear"} : \A u \in DOMAIN W.ledger[t] : BEq(Wealth(t, u), W.ledger[t][u])
\* shares counted by a partner are recorded here (the world has one pool, number 0)
Record(u) == IF IsReg(S, u) THEN Shadow(S.a[u], 0) ELSE [f |-> "0", b |-> "0"]
Partners == ~W.liquidation =>
  \A u \in DOMAIN S.a \cup DOMAIN Get(par, "bfarm", Empty) \cup DOMAIN Get(par, "burrow", Empty) :
    BLe(Count(par, "bfarm", u), Record(u).f) /\ BLe(Count(par, "burrow", u), Record(u).b)
    /\ (q = None => BEq(Count(par, "bfarm", u), Record(u).f) /\ BEq(Count(par, "burrow", u), Record(u).b))
\* the amplification of a curve pool stays between the ends of its ramp
Ramps == \A k \in DOMAIN S.p : IsCurve(S.p[k]) => LET x == Amp(S.p[k], now) IN BLe(BMin(S.p[k].a0, S.p[k].a1), x) /\ BLe(x, BMax(S.p[k].a0, S.p[k].a1)) /\ BPos(x)
\* a recorded history never runs ahead of the clock, nor back
Histories == \A k \in DOMAIN S.p : LET h == S.p[k].twap IN h.last # -1 => h.last <= Secs(now) /\ \A i \in DOMAIN h.recs : i > 1 => h.recs[i - 1].t < h.recs[i].t
\* a walk is over
Export == (left = 0 /\ q = None) => Emit(<<"WALK", ToJson(log)>>)
=============================================================================
