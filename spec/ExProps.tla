------------------------------- MODULE ExProps -------------------------------
(* The properties of the exchange as invariants of a state and of a step, independent of how Step computes the next state.
   They are evaluated on every observed state (ExTrace) and on every state of the MC modules.                 *)
EXTENDS ExViews

(* ------------------------------------------------------------ what the exchange owes *)
Owed(S, t) ==
  BAdd(BAdd(BSumFn([u \in DOMAIN S.a |-> ABal(S.a[u], t)]), BSumFn([u \in DOMAIN S.l |-> LostOf(S, u, t)])),
       BSumFn([k \in DOMAIN S.p |-> LET i == Idx(S.p[k].tok, t) IN IF i = 0 THEN "0" ELSE RealAmount(S.p[k], i)]))
\* held: token -> what the exchange owns in the token contract
Insolvent(S, held) == {t \in DOMAIN held : BLt(held[t], Owed(S, t))}

(* ------------------------------------------------------------ shares *)
BadSupply(S) == {k \in DOMAIN S.p : ~BEq(SumShares(S.p[k]), S.p[k].sup)}
\* shares counted elsewhere are still here
Overlocked(S) ==
  {<<u, k>> \in (DOMAIN S.a) \X (DOMAIN S.p) :
     LET r == Shadow(S.a[u], k - 1) IN BGt(BMax(r.f, r.b), ShareBal(S.p[k], u)) \/ BLt(r.f, 0) \/ BLt(r.b, 0)}
Negative(S) ==
  {<<u, t>> \in UNION {{<<u, t>> : t \in DOMAIN S.a[u].tok} : u \in DOMAIN S.a} : BLt(S.a[u].tok[t], 0)}
\* accounts other than the owner's have paid for what they store
Unpaid(S) == {u \in (DOMAIN S.a) \ {S.cfg.owner} : ~PaidUp(S.a[u])}

(* ------------------------------------------------------------ value of a share *)
\* value of all shares: square root of the product, or the curve invariant under the rates e and amplification amp
SimpleValue(p) == BSqrt(BMul(p.amt[1], p.amt[2]))
CurveValue(p, e, amp) == CurveD(Rated(p.amt, e.r), amp, Width(p))
\* rounding of the invariant itself, in its own units
Slack(p) == CASE p.kind = "Simple" -> "2" [] p.kind = "Stable" -> "1000" [] OTHER -> "100000000"
SinkingPool(S, O, k, ts) ==
  LET p == S.p[k] q == O.p[k] IN
  IF BZero(p.sup) \/ BZero(q.sup) \/ (p.amt = q.amt /\ p.sup = q.sup) THEN FALSE
  ELSE LET e == RatesFor(S, p, ts) IN
    IF IsCurve(p) /\ ~e.ok THEN FALSE
    ELSE LET v == IF IsCurve(p) THEN CurveValue(p, e, Amp(p, ts)) ELSE SimpleValue(p)
             w == IF IsCurve(p) THEN CurveValue(q, e, Amp(p, ts)) ELSE SimpleValue(q) IN
      IF v = Nil \/ w = Nil THEN FALSE ELSE BLt(BMul(BAdd(w, Slack(p)), p.sup), BMul(v, q.sup))
Sinking(S, O, ts) == {k \in DOMAIN S.p : k \in DOMAIN O.p /\ SinkingPool(S, O, k, ts)}

(* ------------------------------------------------------------ whose holdings a call may reduce *)
Actor(S, c) ==
  CASE c.m = "ft_on_transfer" -> {Arg(c, "sender_id", Nil)}
    [] c.m = "on_burrow_liquidation" -> {Arg(c, "liquidation_account_id", Nil)}
    [] c.m \in {"withdraw_owner_token", "remove_exchange_fee_liquidity"} -> {S.cfg.owner, EX}
    [] c.m = "mft_resolve_transfer" -> {Arg(c, "receiver_id", Nil)}
    [] OTHER -> {c.p}
Robbed(S, O, c) ==
  {u \in DOMAIN S.a \ Actor(S, c) : IF u \notin DOMAIN O.a THEN TRUE ELSE
     BLt(O.a[u].near, S.a[u].near) \/ \E t \in DOMAIN S.a[u].tok : BLt(ABal(O.a[u], t), S.a[u].tok[t])}
RobbedShares(S, O, c) ==
  {k \in DOMAIN S.p : k \in DOMAIN O.p /\ \E u \in DOMAIN S.p[k].sh \ Actor(S, c) : BLt(ShareBal(O.p[k], u), S.p[k].sh[u])}
\* a parked amount leaves only with its owner
RobbedLost(S, O, c) == {u \in DOMAIN S.l \ {c.p} : \E t \in DOMAIN S.l[u] : BLt(LostOf(O, u, t), S.l[u][t])}

(* ------------------------------------------------------------ configuration *)
BadFees(S) == S.cfg.adminfee > BPS \/ (\E k \in DOMAIN S.p : S.p[k].fee >= BPS) \/ \E x \in DOMAIN S.cfg.ref : S.cfg.ref[x] >= BPS
\* while the contract is paused no user holding changes, except by what settles earlier receipts
Moves(S, O) == S.a # O.a \/ [k \in DOMAIN S.p |-> <<S.p[k].amt, S.p[k].sh>>] # [k \in DOMAIN O.p |-> <<O.p[k].amt, O.p[k].sh>>]
PausedMove(S, O, c) ==
  S.cfg.state # "Running" /\ Moves(S, O) /\ c.p # EX /\ c.m \notin {"on_burrow_liquidation"}
\* frozen tokens stay where they are in every pool
FrozenMove(S, O, c) ==
  {k \in DOMAIN S.p : k \in DOMAIN O.p /\ Frozen(S, Toks(S.p[k])) /\ c.m # "remove_exchange_fee_liquidity" /\ S.p[k].amt # O.p[k].amt
     /\ \E i \in DOMAIN S.p[k].tok : S.p[k].tok[i] \in S.cfg.frozen /\ S.p[k].amt[i] # O.p[k].amt[i]}
Unrefreshed(S, O, ts) ==  \* a recorded price history was brought up to date before reserves and shares moved out of proportion
  {k \in DOMAIN S.p : k \in DOMAIN O.p /\ S.p[k].twap.last # -1 /\ O.p[k].twap.last # -1 /\ O.p[k].twap.last < S.p[k].twap.last}

StateInv(S) ==
  {<<"supply", k - 1>> : k \in BadSupply(S)} \cup {<<"locked", x>> : x \in Overlocked(S)} \cup {<<"negative", x>> : x \in Negative(S)}
  \cup {<<"unpaid", u>> : u \in Unpaid(S)} \cup (IF BadFees(S) THEN {<<"fees", "">>} ELSE {})
StepInv(S, O, c) ==
  {<<SCat("sink", S.p[k].kind), k - 1>> : k \in Sinking(S, O, c.ts)} \cup {<<"robbed", u>> : u \in Robbed(S, O, c)}
  \cup {<<"robbedshares", k - 1>> : k \in RobbedShares(S, O, c)} \cup {<<"robbedlost", u>> : u \in RobbedLost(S, O, c)}
  \cup (IF PausedMove(S, O, c) THEN {<<"paused", c.m>>} ELSE {}) \cup {<<"frozen", k - 1>> : k \in FrozenMove(S, O, c)}
  \cup {<<"twap", k - 1>> : k \in Unrefreshed(S, O, c.ts)}

(* ------------------------------------------------------------ reports on a recorded run *)
HeldIn(o2) == [t \in {SDrop(k, 2) : k \in {k \in DOMAIN o2 : SStarts(k, "t/")}} |-> Get(o2[SCat("t/", t)], EX, "0")]
InvReport(n, m, D) == \A x \in D : Emit(<<"INV", n, m, x[1], ToString(x[2])>>)
SolvencyInv(O, o2) == LET h == HeldIn(o2) IN {<<"solvency", <<t, h[t], Owed(O, t)>>>> : t \in Insolvent(O, h)}
PropReport(n, r, c, S, O, o2) ==
  IF r.ok THEN InvReport(n, r.m, StateInv(O) \cup StepInv(S, O, c) \cup SolvencyInv(O, o2)) ELSE TRUE
EnvReport(n, r, O, o2) == InvReport(n, r.m, SolvencyInv(O, o2))
\* an entry of nothing says as much as no entry
Without0(m) == [t \in Positive(m) |-> m[t]]
Cleaned(m, v) ==
  CASE m = "predict_swap_actions" -> Without0(v)
    [] m = "batch_predict_swap_actions" -> [i \in DOMAIN v |-> Without0(v[i])]
    [] m = "predict_hot_zap" -> IF IsStr(v) THEN v ELSE <<v[1], Without0(v[2])>>
    [] OTHER -> v
\* these answers are sets, listed in any order
SetViews == {"get_client_echo_token_id_whitelist", "get_client_echo_sender_id_whitelist", "get_secure_sender_whitelist",
  "get_guardians", "get_user_whitelisted_tokens", "get_frozenlist_tokens", "get_whitelisted_tokens"}
SameAnswer(m, x, y) == IF m \in SetViews THEN x = Range(y) ELSE VEq(x, Cleaned(m, y))
ViewReport(r, n, S, q) ==
  IF q.ok # r.ok THEN Emit(<<"MM", n, r.m, "view/ok", IF q.ok THEN ToString(q.v) ELSE q.err, ToString(r.v)>>)
  ELSE IF ~q.ok THEN TRUE ELSE IF SameAnswer(r.m, q.v, r.v) THEN TRUE ELSE Emit(<<"MM", n, r.m, "view/value", ToString(q.v), ToString(r.v)>>)
=============================================================================
