------------------------------- MODULE ExOps -------------------------------
(* Accounts, withdrawals, lost and found, donations, the multi-token interface and shadow shares of the exchange. *)
EXTENDS ExSwap

Registered(S, c) == IsReg(S, c.p)
Self(c) == c.p = EX

(* ------------------------------------------------------------ token registration *)
AddZero(a, ts) == [a EXCEPT !.tok = @ @@ [t \in Range(ts) |-> "0"]]
DoRegisterTokens(S, c) ==
  IF ~OneYocto(c) \/ ~Running(S) \/ ~Registered(S, c) THEN Err("guard")
  ELSE LET s == Store(S, c.p, AddZero(S.a[c.p], c.a.token_ids)) IN IF s.ok THEN OK(s.S, None, RNone) ELSE s
\* a token leaves an account only when nothing is left of it
Unreg(a, ts) == IF \E t \in ts : BPos(ABal(a, t)) THEN Err("E24") ELSE [ok |-> TRUE, a |-> [a EXCEPT !.tok = [t \in DOMAIN @ \ ts |-> @[t]], !.leg = @ \ ts]]
DoUnregisterTokens(S, c) ==
  IF ~OneYocto(c) \/ ~Running(S) \/ ~Registered(S, c) THEN Err("guard")
  ELSE LET u == Unreg(S.a[c.p], Range(c.a.token_ids)) IN
    IF ~u.ok THEN u ELSE LET s == Store(S, c.p, u.a) IN IF s.ok THEN OK(s.S, None, RNone) ELSE s

(* ------------------------------------------------------------ withdrawals *)
Unwrap(c) == Arg(c, "skip_unwrap_near", TRUE) = FALSE
DoWithdraw(S, c) ==
  LET t == c.a.token_id IN
  IF ~OneYocto(c) \/ ~Running(S) \/ Frozen(S, {t}) \/ ~Registered(S, c) THEN Err("guard")
  ELSE LET a == S.a[c.p]
           n == IF BZero(c.a.amount) THEN ABal(a, t) ELSE c.a.amount
           w == AWd(a, t, n) IN
    IF BZero(n) THEN Err("E29") ELSE IF ~w.ok THEN w
    ELSE LET u == IF Arg(c, "unregister", FALSE) = TRUE THEN Unreg(w.a, {t}) ELSE [ok |-> TRUE, a |-> w.a] IN
      IF ~u.ok THEN u
      ELSE LET s == Store(S, c.p, u.a) IN
        IF s.ok THEN OK(s.S, SendTokens(S, c.p, t, n, Unwrap(c), 1), RProm(2)) ELSE s

\* what a failed transfer leaves behind: back to the sender, else parked under the sender's name, else with the owner
FREE_NEAR == "100000000000000000000000000"
BackTo(a, t, n) == [ADep(a, t, n) EXCEPT !.leg = a.leg]
HandleFail(S, c, u, t, n) ==
  LET fits == IF u \in DOMAIN S.a THEN t \in DOMAIN S.a[u].tok \/ PaidUp(ADep(S.a[u], t, n)) ELSE FALSE
      rich == BGt(S.bal, BAdd(BMul(c.u, BYTE_COST), FREE_NEAR))
      ow == IF IsReg(S, S.cfg.owner) THEN S.a[S.cfg.owner] ELSE NewAcc("0")
  IN IF fits THEN StoreAnyway(S, u, BackTo(S.a[u], t, n))
     ELSE IF rich THEN LostAdd(S, u, t, n)
     ELSE StoreAnyway(S, S.cfg.owner, ADep(ow, t, n))
DoPostWithdraw(S, c) ==
  IF ~Self(c) \/ Len(c.pr) # 1 THEN Err("private")
  ELSE IF c.pr[1].ok THEN OK(S, None, RVal(c.a.amount)) ELSE OK(HandleFail(S, c, c.a.sender_id, c.a.token_id, c.a.amount), None, RVal("0"))
\* a receiver with a message may hand a part back
DoPostTransferCall(S, c) ==
  IF ~Self(c) \/ Len(c.pr) # 1 THEN Err("private")
  ELSE LET n == c.a.amount
           said == IF ~c.pr[1].ok THEN "0" ELSE IF ~IsStr(c.pr[1].v) THEN n ELSE IF SIsNum(c.pr[1].v) THEN c.pr[1].v ELSE n
           used == BMin(said, n) IN
    OK(IF BLt(used, n) THEN HandleFail(S, c, c.a.sender_id, c.a.token_id, BSub(n, used)) ELSE S, None, RVal(used))
\* wrapped NEAR was unwrapped into this contract: pass the NEAR on
DoPostWithdrawNear(S, c) ==
  IF ~Self(c) \/ Len(c.pr) # 1 THEN Err("private")
  ELSE IF c.pr[1].ok THEN OK(S, <<Transfer(c.a.sender_id, c.a.amount)>>, RVal(c.a.amount))
  ELSE LET t == Arg(c, "token_id", S.cfg.wnear) IN
    IF t = Nil THEN Err("no wnear") ELSE OK(HandleFail(S, c, c.a.sender_id, t, c.a.amount), None, RVal("0"))
DoClaimLostfound(S, c) ==
  LET t == c.a.token_id n == LostOf(S, c.p, t) IN
  IF ~OneYocto(c) \/ ~Running(S) \/ Frozen(S, {t}) THEN Err("guard") ELSE IF BZero(n) THEN Err("E29")
  ELSE LET l == Drop(S.l[c.p], t) IN
    OK([S EXCEPT !.l = IF DOMAIN l = {} THEN Drop(@, c.p) ELSE Put(@, c.p, l)], SendTokens(S, c.p, t, n, FALSE, 1), RProm(2))

(* ------------------------------------------------------------ storage *)
Avail(a) == IF PaidUp(a) THEN BSub(a.near, UsageCost(a)) ELSE "0"
BalanceRec(a) == [total |-> a.near, available |-> Avail(a)]
DoStorageDeposit(S, c) ==
  LET u == Arg(c, "account_id", c.p) known == IsReg(S, u) n == c.d only == Arg(c, "registration_only", FALSE) = TRUE IN
  IF ~Running(S) THEN Err("E51") ELSE IF ~known /\ BLt(n, MinStorage) THEN Err("E17")
  ELSE IF only /\ known THEN OK(S, IF BPos(n) THEN <<Transfer(c.p, n)>> ELSE None, RVal(BalanceRec(S.a[u])))
  ELSE LET paid == IF only THEN MinStorage ELSE n
           a == IF known THEN [S.a[u] EXCEPT !.near = BAdd(@, paid)] ELSE NewAcc(paid)
           s == Store(S, u, a) IN
    IF ~s.ok THEN s ELSE OK(s.S, IF BGt(n, paid) THEN <<Transfer(c.p, BSub(n, paid))>> ELSE None, RVal(BalanceRec(a)))
DoStorageWithdraw(S, c) ==
  IF ~OneYocto(c) \/ ~Running(S) \/ ~Registered(S, c) THEN Err("guard")
  ELSE LET a == S.a[c.p] n0 == Arg(c, "amount", "0") n == IF BZero(n0) THEN Avail(a) ELSE n0 b == [a EXCEPT !.near = BSub(@, n)] IN
    IF BZero(Avail(a)) THEN Err("E15") ELSE IF BGt(n, Avail(a)) THEN Err("E16")
    ELSE OK(StoreAnyway(S, c.p, b), <<Transfer(c.p, n)>>, RVal(BalanceRec(b)))
DoStorageUnregister(S, c) ==
  IF ~OneYocto(c) \/ ~Running(S) THEN Err("guard")
  ELSE IF ~Registered(S, c) THEN OK(S, None, RVal(FALSE))
  ELSE LET a == S.a[c.p] IN
    IF DOMAIN a.tok # {} \/ DOMAIN a.shadow # {} THEN Err("E18")
    ELSE OK([S EXCEPT !.a = Drop(@, c.p)], <<Transfer(c.p, a.near)>>, RVal(TRUE))

(* ------------------------------------------------------------ shares *)
ShareMove(p, from, to, n) ==
  IF from \notin DOMAIN p.sh \/ to \notin DOMAIN p.sh THEN Err("E13") ELSE IF BLt(p.sh[from], n) THEN Err("E91")
  ELSE [ok |-> TRUE, p |-> [p EXCEPT !.sh = LET x == Put(@, from, BSub(@[from], n)) IN Put(x, to, BAdd(x[to], n))]]
FreeOf(S, u, id) == LET n == ShareBal(Pl(S, id), u) IN IF IsReg(S, u) THEN FreeShares(S.a[u], id, n) ELSE n
\* NEAR for storage given back: to the account when there is one
Credit(S, u, n) ==
  IF ~BPos(n) THEN [ok |-> TRUE, S |-> S, fx |-> None]
  ELSE IF ~IsReg(S, u) THEN [ok |-> TRUE, S |-> S, fx |-> <<Transfer(u, n)>>]
  ELSE LET s == Store(S, u, [S.a[u] EXCEPT !.near = BAdd(@, n)]) IN IF s.ok THEN [ok |-> TRUE, S |-> s.S, fx |-> None] ELSE s
Freed(n) == BMul(n, BYTE_COST)

DoDonationShare(S, c) ==
  LET id == c.a.pool_id IN
  IF ~OneYocto(c) \/ ~Running(S) \/ ~HasPool(S, id) THEN Err("guard")
  ELSE LET p == Pl(S, id) n == Arg(c, "amount", ShareBal(p, c.p)) un == Arg(c, "unregister", FALSE) = TRUE
           m == ShareMove(p, c.p, EX, n) IN
    IF BZero(n) THEN Err("amount") ELSE IF BGt(n, FreeOf(S, c.p, id)) THEN Err("locked") ELSE IF ~m.ok THEN m
    ELSE IF un /\ BPos(m.p.sh[c.p]) THEN Err("E35")
    ELSE LET q == IF un THEN [m.p EXCEPT !.sh = Drop(@, c.p)] ELSE m.p
             r == Credit(SetPl(S, id, q), c.p, IF un THEN Freed(LpBytes(c.p)) ELSE "0") IN
      IF r.ok THEN OK(r.S, r.fx, RNone) ELSE r
DoDonationToken(S, c) ==
  LET t == c.a.token_id IN
  IF ~OneYocto(c) \/ ~Running(S) \/ ~Registered(S, c) THEN Err("guard")
  ELSE LET a == S.a[c.p] n == Arg(c, "amount", ABal(a, t)) w == AWd(a, t, n) IN
    IF BZero(n) THEN Err("amount") ELSE IF ~w.ok THEN w
    ELSE LET u == IF Arg(c, "unregister", FALSE) = TRUE THEN Unreg(w.a, {t}) ELSE [ok |-> TRUE, a |-> w.a] IN
      IF ~u.ok THEN u
      ELSE LET s == Store(S, c.p, u.a) IN
        IF ~s.ok THEN s ELSE IF ~IsReg(s.S, S.cfg.owner) THEN Err("E10")
        ELSE OK(StoreAnyway(s.S, S.cfg.owner, ADep(s.S.a[S.cfg.owner], t, n)), None, RNone)

(* ------------------------------------------------------------ multi-token interface *)
IsPoolId(x) == SStarts(x, ":") /\ SIsNum(SDrop(x, 1))
PoolOf(x) == BInt(SDrop(x, 1))
MftBal(S, x, u) ==
  IF IsPoolId(x) THEN ShareBal(Pl(S, PoolOf(x)), u) ELSE IF IsReg(S, u) THEN ABal(S.a[u], x) ELSE "0"
\* amount n, or everything free (n = Nil, shares only)
MftMove(S, x, from, to, n) ==
  IF from = to THEN Err("E33")
  ELSE IF IsPoolId(x) THEN
    LET id == PoolOf(x) IN
    IF ~HasPool(S, id) THEN Err("E85")
    ELSE LET free == FreeOf(S, from, id) k == IF n = Nil THEN free ELSE n m == ShareMove(Pl(S, id), from, to, k) IN
      IF ~BPos(k) THEN Err("zero") ELSE IF BGt(k, free) THEN Err("locked") ELSE IF ~m.ok THEN m
      ELSE [ok |-> TRUE, S |-> SetPl(S, id, m.p), n |-> k]
  ELSE IF n = Nil THEN Err("unimplemented") ELSE IF ~IsReg(S, from) \/ ~IsReg(S, to) THEN Err("E10")
  ELSE LET w == AWd(S.a[from], x, n) IN
    IF ~w.ok THEN w
    ELSE LET s == Store(S, from, w.a) IN
      IF ~s.ok THEN s ELSE LET r == Store(s.S, to, ADep(s.S.a[to], x, n)) IN IF r.ok THEN [ok |-> TRUE, S |-> r.S, n |-> n] ELSE r

DoMftRegister(S, c) ==
  LET x == c.a.token_id u == c.a.account_id IN
  IF ~Running(S) THEN Err("E51") ELSE IF ~IsPoolId(x) THEN Err("E110") ELSE IF ~HasPool(S, PoolOf(x)) THEN Err("E85")
  ELSE LET p == Pl(S, PoolOf(x)) g == LpBytes(u) IN
    IF u \in DOMAIN p.sh THEN Err("E14") ELSE IF ~Charged(c, g) THEN Err("storage")
    ELSE OK(SetPl(S, PoolOf(x), [p EXCEPT !.sh = Put(@, u, "0")]), Refund(c, g), RNone)
DoMftUnregister(S, c) ==
  LET x == c.a.token_id IN
  IF ~OneYocto(c) \/ ~Running(S) THEN Err("guard") ELSE IF ~IsPoolId(x) THEN Err("E111") ELSE IF ~HasPool(S, PoolOf(x)) THEN Err("E85")
  ELSE LET p == Pl(S, PoolOf(x)) IN
    IF c.p \notin DOMAIN p.sh THEN Err("E13") ELSE IF BPos(p.sh[c.p]) THEN Err("E35")
    ELSE OK(SetPl(S, PoolOf(x), [p EXCEPT !.sh = Drop(@, c.p)]), <<Transfer(c.p, Freed(LpBytes(c.p)))>>, RNone)
DoMftTransfer(S, c) ==
  IF ~OneYocto(c) \/ ~Running(S) THEN Err("guard")
  ELSE LET m == MftMove(S, c.a.token_id, c.p, c.a.receiver_id, c.a.amount) IN IF m.ok THEN OK(m.S, None, RNone) ELSE m
DoMftTransferCall(S, c, n) ==
  IF ~OneYocto(c) \/ ~Running(S) THEN Err("guard")
  ELSE LET m == MftMove(S, c.a.token_id, c.p, c.a.receiver_id, n) IN
    IF ~m.ok THEN m
    ELSE OK(m.S, <<Rcpt(c.a.receiver_id, "mft_on_transfer", [token_id |-> c.a.token_id, sender_id |-> c.p, amount |-> m.n, msg |-> c.a.msg], 0, None),
                   Rcpt(EX, "mft_resolve_transfer", [token_id |-> c.a.token_id, sender_id |-> c.p, receiver_id |-> c.a.receiver_id, amount |-> m.n], 0, <<1>>)>>, RProm(2))
\* what the receiver did not use goes back, as far as the receiver still has it; the result is what went back
DoMftResolve(S, c) ==
  LET x == c.a.token_id n == c.a.amount to == c.a.receiver_id
      said == IF Len(c.pr) = 0 THEN Nil ELSE IF ~c.pr[1].ok THEN Nil ELSE IF IsStr(c.pr[1].v) THEN IF SIsNum(c.pr[1].v) THEN c.pr[1].v ELSE Nil ELSE Nil
      unused == IF said = Nil THEN n ELSE IF ~U128(said) THEN n ELSE BMin(n, said)
  IN IF ~Self(c) \/ Len(c.pr) = 0 THEN Err("private")
     ELSE IF BZero(unused) THEN OK(S, None, RVal("0"))
     ELSE IF IsPoolId(x) /\ ~HasPool(S, IF IsPoolId(x) THEN PoolOf(x) ELSE 0) THEN Err("E85")
     ELSE LET back == BMin(MftBal(S, x, to), unused) IN
       IF BZero(back) THEN OK(S, None, RVal("0"))
       ELSE LET m == MftMove(S, x, to, IF IsReg(S, c.a.sender_id) THEN c.a.sender_id ELSE EX, back) IN
         IF m.ok THEN OK(m.S, None, RVal(back)) ELSE m

(* ------------------------------------------------------------ shadow shares: shares counted in farming or lending while they stay here *)
ShadowName(id) == SCat("shadow_ref_v1-", BStr(id))
ShadowBytes(u) == 211 + 3 * SLen(u)
Venue(S, act) == IF act \in {"ToFarming", "FromFarming"} THEN S.cfg.boost ELSE S.cfg.burrow
Leaving(act) == act \in {"ToFarming", "ToBurrowland"}
Moved(r, act, n) ==  \* the record after the action
  CASE act = "ToFarming" -> [r EXCEPT !.f = BAdd(@, n)] [] act = "FromFarming" -> [r EXCEPT !.f = BSub(@, n)]
    [] act = "ToBurrowland" -> [r EXCEPT !.b = BAdd(@, n)] [] act = "FromBurrowland" -> [r EXCEPT !.b = BSub(@, n)]
Undo(act) == IF act = "ToFarming" THEN "FromFarming" ELSE "FromBurrowland"
DoShadowAction(S, c) ==
  LET id == c.a.pool_id act == c.a.action IN
  IF ~Running(S) THEN Err("E51") ELSE IF ~Registered(S, c) THEN Err("E10") ELSE IF ~HasPool(S, id) THEN Err("E85")
  ELSE LET a == S.a[c.p] r == Shadow(a, id) total == ShareBal(Pl(S, id), c.p)
           max == CASE act = "ToFarming" -> BSub(total, r.f) [] act = "ToBurrowland" -> BSub(total, r.b)
                    [] act = "FromFarming" -> r.f [] act = "FromBurrowland" -> r.b
           n == Arg(c, "amount", max)
           g == IF Leaving(act) /\ BStr(id) \notin DOMAIN a.shadow THEN ShadowBytes(c.p) ELSE 0
           fee == IF Leaving(act) THEN GrowthCost(g) ELSE "0"
           pre == IF Leaving(act) THEN Refund(c, g) ELSE None
           at == Len(pre) + 1
           fx == pre \o <<Rcpt(Venue(S, act), IF Leaving(act) THEN "on_cast_shadow" ELSE "on_remove_shadow",
                               [account_id |-> c.p, shadow_id |-> ShadowName(id), amount |-> n, msg |-> c.a.msg], 0, None),
                          Rcpt(EX, "callback_on_shadow", [action |-> act, sender_id |-> c.p, pool_id |-> id, amount |-> n, storage_fee |-> fee], 0, <<at>>)>>
       IN IF BLt(max, 0) \/ ~BPos(n) \/ BGt(n, max) THEN Err("amount")
          ELSE IF ~Leaving(act) THEN OK(S, fx, RProm(at + 1))
          ELSE LET s == Store(S, c.p, SetShadow(a, id, Moved(r, act, n))) IN
            IF ~s.ok THEN s ELSE IF ~Charged(c, g) THEN Err("storage") ELSE OK(s.S, fx, RProm(at + 1))
Underflow(r) == BLt(r.f, 0) \/ BLt(r.b, 0)
\* bytes given back when the record of a pool disappears
ShadowFreed(a, id, b) == IF BStr(id) \in DOMAIN a.shadow /\ BStr(id) \notin DOMAIN b.shadow THEN 1 ELSE 0
FreedBy(u, a, id, b) == IF ShadowFreed(a, id, b) = 1 THEN Freed(ShadowBytes(u)) ELSE "0"
DoCallbackShadow(S, c) ==
  LET u == c.a.sender_id id == c.a.pool_id act == c.a.action n == c.a.amount good == IF Len(c.pr) = 1 THEN c.pr[1].ok ELSE FALSE IN
  IF ~Self(c) \/ Len(c.pr) # 1 THEN Err("private")
  ELSE IF good /\ Leaving(act) THEN OK(S, None, RVal(TRUE))
  ELSE IF ~IsReg(S, u) THEN Err("E10")
  ELSE IF ~good /\ ~Leaving(act) THEN LET s == Store(S, u, S.a[u]) IN IF s.ok THEN OK(S, None, RVal(FALSE)) ELSE s
  ELSE LET a == S.a[u] r == Moved(Shadow(a, id), IF good THEN act ELSE Undo(act), n) IN
    IF Underflow(r) THEN Err("underflow")
    ELSE LET b == SetShadow(a, id, r) back == FreedBy(u, a, id, b)
             s == Store(S, u, IF good THEN [b EXCEPT !.near = BAdd(@, back)] ELSE b) IN
      IF ~s.ok THEN s ELSE OK(s.S, IF ~good /\ BPos(back) THEN <<Transfer(u, back)>> ELSE None, RVal(good))

\* the lending side sells L shares of a borrower: they leave the pool for the liquidator
DoLiquidation(S, c) ==
  LET parts == SSplit(c.a.shadow_id, "-") u == c.a.liquidation_account_id v == c.a.liquidator_account_id n == c.a.liquidate_share_amount IN
  IF c.p # S.cfg.burrow THEN Err("caller") ELSE IF Len(parts) < 2 THEN Err("id") ELSE IF ~SIsNum(parts[2]) THEN Err("id")
  ELSE LET id == BInt(parts[2]) IN
    IF ~HasPool(S, id) THEN Err("E85") ELSE IF Frozen(S, Toks(Pl(S, id))) THEN Err("E52") ELSE IF ~IsReg(S, u) THEN Err("E10")
    ELSE LET a == S.a[u] r1 == Moved(Shadow(a, id), "FromBurrowland", n)
             total == ShareBal(Pl(S, id), u)
             free == BSub(total, BMax(r1.f, r1.b))
             w == BMax(BSub(n, free), 0)
             r2 == IF BPos(w) THEN Moved(r1, "FromFarming", w) ELSE r1
             b == SetShadow(a, id, r2) IN
      IF Underflow(r1) \/ BLt(free, 0) \/ Underflow(r2) THEN Err("underflow")
      ELSE LET s == Store(S, u, [b EXCEPT !.near = BAdd(@, FreedBy(u, a, id, b))]) IN
        IF ~s.ok THEN s ELSE IF ~IsReg(s.S, v) THEN Err("E10")
        ELSE LET q == PoolRemove(Pl(S, id), u, n, c.a.min_token_amounts) IN
          IF ~q.ok THEN q
          ELSE LET z == Store(SetPl(s.S, id, q.p), v, ADepAll(s.S.a[v], q.p.tok, q.out, 1)) IN
            IF ~z.ok THEN z
            ELSE OK(z.S, IF ~BPos(w) THEN None ELSE
                 <<Rcpt(S.cfg.boost, "on_remove_shadow", [account_id |-> u, shadow_id |-> c.a.shadow_id, amount |-> w, msg |-> ""], 0, None),
                   Rcpt(EX, "callback_on_burrow_liquidation", [sender_id |-> u, pool_id |-> id, amount |-> w], 0, <<1>>)>>, RNone)
DoCallbackLiquidation(S, c) == IF ~Self(c) \/ Len(c.pr) # 1 THEN Err("private") ELSE OK(S, None, RNone)
=============================================================================
