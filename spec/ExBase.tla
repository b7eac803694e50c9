------------------------------- MODULE ExBase -------------------------------
(* Vocabulary of the exchange specification: the state, the accounts, the outgoing receipts.

   The state S is a record
     cfg     owner, guardians, state, adminfee, boost, burrow, interval, wnear, postfix, frozen, wl, ref, cetw, cesw, ssw
     p       sequence of pools (see Amm); pool id n is S.p[n + 1]
     a       registered account -> [near, tok, shadow, leg]: the NEAR paid for storage, the internal balances (a token with a zero
             balance is still registered; those in leg are stored as an early release did, which is cheaper), and per pool the shares locked in farming (f) and in lending (b)
     l       account -> token -> amount parked in lost and found
     rates   rated token -> [kind, price, upd, info]          degens  degen token -> [kind, price, upd, pid, dec]
     oracles configuration key -> configuration record
     bal     NEAR balance of the contract account
   A call c is a record [p predecessor, s signer, m method, a arguments, d attached deposit, pr results of awaited promises,
   ts block time in nanoseconds, g measured change of the contract's storage in bytes].
   A step yields Err(reason), which leaves the state untouched, or OK(S, fx, ret): new state, outgoing receipts, returned value.  *)
EXTENDS Amm

EX == "ex"
YOCTO == "1"
BYTE_COST == "10000000000000000000"
DAY == "86400000000000"

OK(S, fx, ret) == [ok |-> TRUE, S |-> S, fx |-> fx, ret |-> ret]
RNone == [k |-> "none"]
RVal(v) == [k |-> "val", v |-> v]
RProm(i) == [k |-> "prom", i |-> i]
\* receipts: dep lists the 1-based positions of the receipts awaited
Rcpt(to, m, a, d, dep) == [to |-> to, m |-> m, a |-> a, d |-> BStr(d), dep |-> dep]
Transfer(to, n) == Rcpt(to, "transfer", Empty, n, None)
Has(r, k) == k \in DOMAIN r
Arg(c, k, d) == IF k \in DOMAIN c.a THEN c.a[k] ELSE d
Swp(r) == r  \* readability

(* guards *)
OneYocto(c) == c.d = YOCTO
Running(S) == S.cfg.state = "Running"
Frozen(S, toks) == toks \cap S.cfg.frozen # {}
IsOwner(S, c) == c.p = S.cfg.owner
IsAdmin(S, c) == c.p = S.cfg.owner \/ c.p \in S.cfg.guardians
Whitelisted(S, t) == t \in S.cfg.wl \/ \E x \in S.cfg.postfix : SEnds(t, x)
IsReg(S, u) == u \in DOMAIN S.a
HasPool(S, id) == IF IsStr(id) THEN FALSE ELSE id >= 0 /\ id < Len(S.p)
Pl(S, id) == S.p[id + 1]
SetPl(S, id, p) == [S EXCEPT !.p[id + 1] = p]
Toks(p) == Range(p.tok)
Secs(ts) == BInt(BDiv(ts, "1000000000"))

(* accounts: what an account must have paid for depends only on how many tokens it has registered *)
INIT_BYTES == 102
TOKEN_BYTES == 148
OLD_TOKEN_BYTES == 84
NewAcc(near) == [near |-> near, tok |-> Empty, shadow |-> Empty, leg |-> {}]
UsageBytes(a) == INIT_BYTES + TOKEN_BYTES * Cardinality(DOMAIN a.tok \ a.leg) + OLD_TOKEN_BYTES * Cardinality(a.leg)
UsageCost(a) == BMul(UsageBytes(a), BYTE_COST)
MinStorage == BMul(INIT_BYTES, BYTE_COST)
PaidUp(a) == BLe(UsageCost(a), a.near)

ADep(a, t, n) == IF BZero(n) THEN a ELSE [a EXCEPT !.tok = Put(@, t, BAdd(Get(@, t, "0"), n)), !.leg = @ \ {t}]
AWd(a, t, n) ==
  IF BZero(n) THEN [ok |-> TRUE, a |-> a]
  ELSE IF t \notin DOMAIN a.tok THEN Err("E21")
  ELSE IF BLt(a.tok[t], n) THEN Err("E22")
  ELSE [ok |-> TRUE, a |-> [a EXCEPT !.tok = Put(@, t, BSub(@[t], n)), !.leg = @ \ {t}]]
RECURSIVE AWdAll(_, _, _, _)
AWdAll(a, toks, am, i) ==
  IF i > Len(toks) THEN [ok |-> TRUE, a |-> a]
  ELSE LET r == AWd(a, toks[i], am[i]) IN IF r.ok THEN AWdAll(r.a, toks, am, i + 1) ELSE r
RECURSIVE ADepAll(_, _, _, _)
ADepAll(a, toks, am, i) == IF i > Len(toks) THEN a ELSE ADepAll(ADep(a, toks[i], am[i]), toks, am, i + 1)
RECURSIVE ADepMap(_, _, _)
ADepMap(a, m, D) == IF D = {} THEN a ELSE LET t == CHOOSE t \in D : TRUE IN ADepMap(ADep(a, t, m[t]), m, D \ {t})
ABal(a, t) == Get(a.tok, t, "0")

\* an account may only be stored when it has paid for its storage
Store(S, u, a) == IF PaidUp(a) THEN [ok |-> TRUE, S |-> [S EXCEPT !.a = Put(@, u, a)]] ELSE Err("E11")
StoreAnyway(S, u, a) == [S EXCEPT !.a = Put(@, u, a)]

Shadow(a, id) == Get(a.shadow, BStr(id), [f |-> "0", b |-> "0"])
\* shares that are locked in neither place
FreeShares(a, id, total) == LET r == Shadow(a, id) IN BSub(total, BMax(r.f, r.b))
SetShadow(a, id, r) ==
  IF BZero(r.f) /\ BZero(r.b) THEN [a EXCEPT !.shadow = Drop(@, BStr(id))] ELSE [a EXCEPT !.shadow = Put(@, BStr(id), r)]

(* lost and found *)
LostAdd(S, u, t, n) == [S EXCEPT !.l = Put(@, u, Put(Get(@, u, Empty), t, BAdd(Get(Get(@, u, Empty), t, "0"), n)))]
LostOf(S, u, t) == Get(Get(S.l, u, Empty), t, "0")

(* storage paid with the attached deposit; the rest goes back *)
GrowthCost(g) == IF BPos(g) THEN BMul(g, BYTE_COST) ELSE "0"
Charged(c, g) == BLe(GrowthCost(g), c.d)
Refund(c, g) == LET r == BSub(c.d, GrowthCost(g)) IN IF BPos(r) THEN <<Transfer(c.p, r)>> ELSE None
\* a share entry of a pool: key (5 byte prefix, 4 byte length, name), 16 byte value and the record overhead
LpBytes(who) == 65 + SLen(who)
LpGrowth(p, who) == IF who \in DOMAIN p.sh THEN 0 ELSE LpBytes(who)
\* what an account's record grows by when tokens kept the old way move to the new form
RECURSIVE MoveBytes(_, _)
MoveBytes(who, D) == IF D = {} THEN 0 ELSE LET t == CHOOSE t \in D : TRUE IN 166 + 3 * SLen(who) + SLen(t) + MoveBytes(who, D \ {t})
Renewed(S, who, a) == MoveBytes(who, S.a[who].leg \ a.leg)

(* rates in force for a curve pool *)
RateOf(S, t) == IF t \in DOMAIN S.rates THEN S.rates[t].price ELSE PREC
RateFresh(S, t, ts) == t \notin DOMAIN S.rates \/ BLe(ts, BAdd(S.rates[t].upd, DAY))
OracleKey(k) == IF k = "PriceOracle" THEN "PriceOracleConfig" ELSE "PythOracleConfig"
Priced(S, t) == IF t \in DOMAIN S.degens THEN S.degens[t].price # Nil ELSE FALSE
DegenFresh(S, t, ts) ==
  LET d == S.degens[t] k == OracleKey(d.kind) IN
  k \in DOMAIN S.oracles /\ d.price # Nil /\ BLe(ts, BAdd(d.upd, S.oracles[k].expire_ts))
\* ok: all prices are known; valid: and fresh
RatesFor(S, p, ts) ==
  CASE p.kind = "Rated" -> [ts |-> ts, ok |-> TRUE, r |-> [i \in DOMAIN p.tok |-> RateOf(S, p.tok[i])],
                            valid |-> \A t \in Toks(p) : RateFresh(S, t, ts)]
    [] p.kind = "Degen" -> IF \A t \in Toks(p) : Priced(S, t)
                           THEN [ts |-> ts, ok |-> TRUE, r |-> [i \in DOMAIN p.tok |-> S.degens[p.tok[i]].price],
                                 valid |-> \A t \in Toks(p) : DegenFresh(S, t, ts)]
                           ELSE [ts |-> ts, ok |-> FALSE, r |-> [i \in DOMAIN p.tok |-> "0"], valid |-> FALSE]
    [] OTHER -> [ts |-> ts, ok |-> TRUE, r |-> [i \in DOMAIN p.tok |-> PREC], valid |-> TRUE]

(* price history of a pool: cumulative token amounts of one unit of shares *)
UnitShare(p) == IF p.kind = "Stable" THEN Pow10(18) ELSE Pow10(24)
UnitAmounts(p) ==  \* None when the pool has too few shares, Err when the view would fail
  IF BLe(p.sup, UnitShare(p)) THEN [ok |-> TRUE, v |-> None]
  ELSE IF p.kind = "Simple" THEN [ok |-> TRUE, v |-> [i \in DOMAIN p.tok |-> Ratio(p.amt[i], UnitShare(p), p.sup)]]
  ELSE LET c == [i \in DOMAIN p.tok |-> Ratio(p.amt[i], UnitShare(p), p.sup)] IN
    IF \E i \in DOMAIN c : BLt(BSub(p.amt[i], c[i]), MinReserve(p)) THEN Err("E69")
    ELSE [ok |-> TRUE, v |-> [i \in DOMAIN c |-> FromC(p, i, c[i])]]
TWAP_KEEP == 60
NoTwap == [last |-> -1, cum |-> None, recs |-> None]
TwapStart(p, ts, v) == [p EXCEPT !.twap = [last |-> Secs(ts), cum |-> v, recs |-> <<[t |-> Secs(ts), cum |-> v]>>]]
TwapAdvance(w, v, ts, interval) ==
  LET now == Secs(ts) dt == now - w.last
      cum == [i \in DOMAIN w.cum |-> BMod(BAdd(w.cum[i], BMul(v[i], dt)), BPow(2, 256))]
      recs == IF now - w.recs[Len(w.recs)].t >= interval THEN Append(w.recs, [t |-> now, cum |-> cum]) ELSE w.recs
  IN IF dt <= 0 THEN w
     ELSE [last |-> now, cum |-> cum, recs |-> IF Len(recs) > TWAP_KEEP THEN Tail(recs) ELSE recs]
\* brought up to date before the reserves of a pool change
TwapUpdate(S, p, ts) ==
  IF p.twap.last = -1 THEN [ok |-> TRUE, p |-> p]
  ELSE LET u == UnitAmounts(p) IN
    IF ~u.ok THEN u ELSE IF u.v = None THEN [ok |-> TRUE, p |-> p]
    ELSE [ok |-> TRUE, p |-> [p EXCEPT !.twap = TwapAdvance(@, u.v, ts, S.cfg.interval)]]

(* value of a degen pool, in units of account *)
Tvl(S, p) == LET e == RatesFor(S, p, "0") IN BSumSeq([i \in DOMAIN p.tok |-> BDiv(BMulDiv(p.amt[i], e.r[i], PREC), Pow10(24))])
TvlOk(S, p, limit) == p.kind # "Degen" \/ limit = Nil \/ BLe(Tvl(S, p), limit)

(* fees *)
NoFees == [bps |-> 0, ex |-> EX, ref |-> Nil, rbps |-> 0]
Fees(S) == [bps |-> S.cfg.adminfee, ex |-> EX, ref |-> Nil, rbps |-> 0]
RefFees(S, rid) == IF rid # Nil /\ rid \in DOMAIN S.cfg.ref THEN [bps |-> S.cfg.adminfee, ex |-> EX, ref |-> rid, rbps |-> S.cfg.ref[rid]] ELSE Fees(S)
=============================================================================
