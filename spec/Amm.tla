--------------------------------- MODULE Amm ---------------------------------
(* The arithmetic of the four pool kinds.

   A pool is a record
     kind  "Simple" | "Stable" | "Rated" | "Degen"
     tok   sequence of token ids                      dec   sequence of decimals (curve pools)
     amt   reserves: plain amounts (Simple) or amounts in comparable precision (curve pools)
     fee   trade fee in basis points                  sup   total share supply
     sh    registered LP -> shares (zero included)    vol   per token [input, output] swap volume
     a0, a1, t0, t1   amplification ramp: from a0 at time t0 to a1 at time t1 (nanoseconds)
     twap, limit      the price history record and the TVL limit ("none" when absent)
   Every operation returns [ok |-> FALSE, err |-> reason] or [ok |-> TRUE, p |-> new pool, out |-> result].
   All divisions round towards zero exactly where the contract says so; the widths (u128, 256 and 384 bit
   intermediates) are part of the behaviour because an overflow makes the contract refuse the call.            *)
EXTENDS Newton, TLC, FiniteSets

Err(e) == [ok |-> FALSE, err |-> e]
Nil == "none"                                  \* absent value of string type
None == <<>>                                   \* absent value of tuple type
BPS == 10000
PREC == "1000000000000000000000000"             \* 10^24
INIT_SHARES == "1000000000000000000000000"      \* shares of the first deposit of a simple pool
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [x \in {} |-> x]
Ratio(a, n, d) == BDiv(BMul(a, n), d)
Range(s) == {s[i] : i \in DOMAIN s}
Idx(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN CHOOSE i \in DOMAIN s : s[i] = x /\ \A j \in DOMAIN s : s[j] = x => i <= j ELSE 0

(* ------------------------------------------------------------ shares *)
Mint(p, who, n) ==
  IF BZero(n) THEN p ELSE [p EXCEPT !.sup = BAdd(@, n), !.sh = Put(@, who, BAdd(Get(@, who, "0"), n))]
ShareBal(p, who) == Get(p.sh, who, "0")
\* split of the admin fee shares: a referral only takes part if it is a registered LP of this pool
RefShare(p, f, n) == IF f.ref # Nil /\ f.ref \in DOMAIN p.sh THEN Ratio(n, f.rbps, BPS) ELSE "0"
MintAdmin(p, f, n) == LET r == RefShare(p, f, n) IN Mint(Mint(p, f.ref, r), f.ex, BSub(n, r))

(* ------------------------------------------------------------ simple pool *)
SimpleReturn(p, i, x, j) ==          \* exact constant-product output after fee, rounded down
  LET w == BMul(x, BPS - p.fee) IN
  IF BZero(p.amt[i]) \/ BZero(p.amt[j]) \/ BZero(x) THEN Nil
  ELSE IF ~BFits(BMul(w, p.amt[j]), 256) THEN Nil
  ELSE LET y == BDiv(BMul(w, p.amt[j]), BAdd(BMul(BPS, p.amt[i]), w)) IN IF U128(y) THEN y ELSE Nil

SimpleReturnByOutput(p, i, y, j) ==  \* input needed for exactly y, rounded up
  IF BZero(p.amt[i]) \/ BZero(p.amt[j]) \/ BZero(y) THEN Nil
  ELSE IF BGe(y, p.amt[j]) \/ p.fee >= BPS THEN Nil
  ELSE IF ~BFits(BMul(BMul(p.amt[i], y), BPS), 256) THEN Nil
  ELSE LET x == BAdd(BDiv(BMul(BMul(p.amt[i], y), BPS), BMul(BSub(p.amt[j], y), BPS - p.fee)), 1) IN
       IF U128(x) THEN x ELSE Nil

SimpleMove(p, i, x, j, y, f) ==
  LET s0 == BSqrt(BMul(p.amt[i], p.amt[j]))
      ni == BAdd(p.amt[i], x)
      nj == BSub(p.amt[j], y)
      s1 == BSqrt(BMul(ni, nj))
      q  == [p EXCEPT !.amt[i] = ni, !.amt[j] = nj]
      nu == BMul(BSub(s1, s0), p.sup)
  IN IF ~U128(ni) \/ BLt(nj, 0) \/ BLt(s1, s0) THEN Err("invariant")
     ELSE IF f.bps = 0 \/ BZero(nu) THEN [ok |-> TRUE, p |-> q]
     ELSE LET adm == BDiv(nu, BDiv(BMul(s0, BPS), f.bps))
              r == MintAdmin(q, f, adm) IN
          IF U128(adm) /\ U128(r.sup) THEN [ok |-> TRUE, p |-> r] ELSE Err("E36")

SimpleSwap(p, tin, x, tout, minOut, f) ==
  LET i == Idx(p.tok, tin) j == Idx(p.tok, tout) IN
  IF tin = tout THEN Err("E73") ELSE IF i = 0 \/ j = 0 THEN Err("E102")
  ELSE LET y == SimpleReturn(p, i, x, j) IN
    IF y = Nil THEN Err("E76") ELSE IF BLt(y, minOut) THEN Err("E68")
    ELSE LET m == SimpleMove(p, i, x, j, y, f) IN IF m.ok THEN [ok |-> TRUE, p |-> m.p, out |-> y] ELSE m

SimpleSwapByOutput(p, tin, y, tout, maxIn, f) ==
  LET i == Idx(p.tok, tin) j == Idx(p.tok, tout) IN
  IF tin = tout THEN Err("E73") ELSE IF i = 0 \/ j = 0 THEN Err("E102")
  ELSE LET x == SimpleReturnByOutput(p, i, y, j) IN
    IF x = Nil THEN Err("E76") ELSE IF maxIn # Nil /\ BGt(x, maxIn) THEN Err("E68")
    ELSE LET m == SimpleMove(p, i, x, j, y, f) IN IF m.ok THEN [ok |-> TRUE, p |-> m.p, out |-> x] ELSE m

\* out = [shares, used]
SimpleAdd(p, who, am) ==
  IF Len(am) # 2 THEN Err("E89")
  ELSE IF \E i \in 1..2 : BZero(am[i]) THEN Err("E31")
  ELSE IF BZero(p.sup) THEN
    LET n == [i \in 1..2 |-> BAdd(p.amt[i], am[i])] IN
    IF \A i \in 1..2 : U128(n[i])
    THEN [ok |-> TRUE, p |-> Mint([p EXCEPT !.amt = n], who, INIT_SHARES), out |-> [shares |-> INIT_SHARES, used |-> am]]
    ELSE Err("overflow")
  ELSE IF \E i \in 1..2 : BZero(p.amt[i]) THEN Err("div0")
  ELSE
    LET fair(i) == BDiv(BMul(BSub(am[i], 1), p.sup), p.amt[i])
        fs == BMin(fair(1), fair(2))
        use == [i \in 1..2 |-> BAdd(BDiv(BMul(p.amt[i], fs), p.sup), 1)]
        n == [i \in 1..2 |-> BAdd(p.amt[i], use[i])]
    IN IF ~U128(fs) \/ ~U128(BAdd(p.sup, fs)) \/ (\E i \in 1..2 : ~U128(n[i])) THEN Err("overflow")
       ELSE IF BZero(fs) THEN Err("E32")
       ELSE [ok |-> TRUE, p |-> Mint([p EXCEPT !.amt = n], who, fs), out |-> [shares |-> fs, used |-> use]]

SimpleRemove(p, who, s, mins) ==
  IF Len(mins) # 2 THEN Err("E89")
  ELSE IF who \notin DOMAIN p.sh THEN Err("E13")
  ELSE IF BLt(p.sh[who], s) THEN Err("E91")
  ELSE IF BZero(p.sup) THEN Err("div0")
  ELSE LET o == [i \in 1..2 |-> Ratio(p.amt[i], s, p.sup)] IN
    IF \E i \in 1..2 : BLt(o[i], mins[i]) THEN Err("E68")
    ELSE [ok |-> TRUE, out |-> o,
          p |-> [p EXCEPT !.amt = [i \in 1..2 |-> BSub(p.amt[i], o[i])], !.sup = BSub(@, s), !.sh = Put(@, who, BSub(@[who], s))]]

(* ------------------------------------------------------------ curve pools (stable, rated, degen) *)
TD(p) == IF p.kind = "Stable" THEN 18 ELSE 24
Width(p) == IF p.kind = "Stable" THEN 256 ELSE 384
MinReserve(p) == IF p.kind = "Stable" THEN "1000000000000000" ELSE "1000000000000000000000"
Pow10(n) == BPow(10, n)
\* token amount -> comparable precision and back
ToC(p, i, x) == IF p.dec[i] <= TD(p) THEN BMul(x, Pow10(TD(p) - p.dec[i])) ELSE BDiv(x, Pow10(p.dec[i] - TD(p)))
FromC(p, i, c) == IF p.dec[i] <= TD(p) THEN BDiv(c, Pow10(TD(p) - p.dec[i])) ELSE BMul(c, Pow10(p.dec[i] - TD(p)))
\* taking x tokens out costs the pool at least their comparable value: rounded up when the token is finer than the pool
ToCUp(p, i, x) == IF p.dec[i] <= TD(p) THEN ToC(p, i, x)
                  ELSE LET u == Pow10(p.dec[i] - TD(p)) IN BDiv(BAdd(x, BSub(u, 1)), u)

\* amplification at time ts
Amp(p, ts) ==
  IF BGe(ts, p.t1) THEN p.a1
  ELSE LET dt == BSub(ts, p.t0) rg == BSub(p.t1, p.t0) IN
    IF BGe(p.a1, p.a0) THEN BAdd(p.a0, BMulDiv(BSub(p.a1, p.a0), dt, rg)) ELSE BSub(p.a0, BMulDiv(BSub(p.a0, p.a1), dt, rg))

Rated(am, r) == [i \in DOMAIN am |-> BMulDiv(am[i], r[i], PREC)]
UnRate(x, r) == BMulDiv(x, PREC, r)

Ann(amp, n) == BMul(amp, BPow(n, n))
CurveD(x, amp, w) ==
  LET sum == BSumSeq(x) IN
  IF ~U128(sum) THEN Nil ELSE IF BZero(sum) THEN "0" ELSE DSolve(x, Ann(amp, Len(x)), w)

CurveY(nx, x, ix, iy, amp, w) ==
  LET n == Len(x) ann == Ann(amp, n) d == CurveD(x, amp, w)
      s == BAdd(nx, BSumSet(x, DOMAIN x \ {ix, iy})) IN
  IF d = Nil \/ BZero(nx) \/ ~U128(s) THEN Nil
  ELSE IF ~BFits(BMul(d, d), w) THEN Nil
  ELSE LET c0 == YTerm(x, d, BDiv(BMul(d, d), nx), ix, iy, w) IN
    IF c0 = Nil THEN Nil ELSE IF ~BFits(BMul(c0, d), w) THEN Nil
    ELSE LET c == BDiv(BMul(c0, d), BMul(ann, BPow(n, n)))
             b == BAdd(BDiv(d, ann), s)
             y == YSolve(b, c, d, w) IN
      IF y = Nil THEN Nil ELSE IF U128(y) THEN y ELSE Nil

\* fee on the distance between the new reserves nb and the ideal (proportional) ones
NormFee(fee, n) == (fee * n) \div (4 * (n - 1))
FeeAdjusted(old, nb, d0, d1, fee) ==
  [i \in DOMAIN old |->
     LET ideal == BDiv(BMul(d1, old[i]), d0)
         diff == IF BGt(ideal, nb[i]) THEN BSub(ideal, nb[i]) ELSE BSub(nb[i], ideal) IN
     BSub(nb[i], Ratio(diff, NormFee(fee, Len(old)), BPS))]

\* <<shares to mint, fee part>> for depositing dep on top of old
LpDeposit(dep, old, sup, fee, r, amp, w) ==
  LET nb == [i \in DOMAIN old |-> BAdd(old[i], dep[i])]
      d0 == CurveD(Rated(old, r), amp, w) IN
  IF d0 = Nil \/ \E i \in DOMAIN nb : ~U128(nb[i]) THEN None
  ELSE LET d1 == CurveD(Rated(nb, r), amp, w) IN
    IF d1 = Nil THEN None ELSE IF BLe(d1, d0) \/ BZero(d0) THEN None
    ELSE LET fb == FeeAdjusted(old, nb, d0, d1, fee) IN
      IF \E i \in DOMAIN fb : BLt(fb[i], 0) THEN None
      ELSE LET d2 == CurveD(Rated(fb, r), amp, w) IN
        IF d2 = Nil THEN None ELSE IF BLt(d2, d0) THEN None
        ELSE LET m == Ratio(sup, BSub(d2, d0), d0) f == Ratio(sup, BSub(d1, d0), d0) IN
          IF U128(f) /\ BLe(m, f) THEN <<m, BSub(f, m)>> ELSE None

\* <<shares to burn, fee part>> for taking wd out of old
LpWithdraw(wd, old, sup, fee, r, amp, w) ==
  LET nb == [i \in DOMAIN old |-> BSub(old[i], wd[i])]
      d0 == CurveD(Rated(old, r), amp, w) IN
  IF d0 = Nil \/ \E i \in DOMAIN nb : BLt(nb[i], 0) THEN None
  ELSE LET d1 == CurveD(Rated(nb, r), amp, w) IN
    IF d1 = Nil THEN None ELSE IF BGe(d1, d0) THEN None
    ELSE LET fb == FeeAdjusted(old, nb, d0, d1, fee) IN
      IF \E i \in DOMAIN fb : BLt(fb[i], 0) THEN None
      ELSE LET d2 == CurveD(Rated(fb, r), amp, w) IN
        IF d2 = Nil THEN None ELSE IF BGt(d2, d0) THEN None
        ELSE LET b == Ratio(sup, BSub(d0, d2), d0) f == Ratio(sup, BSub(d0, d1), d0) IN
          IF U128(b) /\ BLe(f, b) THEN <<b, BSub(b, f)>> ELSE None

\* <<new reserve in, new reserve out, amount out, admin fee>>; e: the rates in force and the environment [ts, r (rates), valid (rates fresh)]
CurveQuote(p, i, cx, j, f, e) ==
  LET xr == BMulDiv(cx, e.r[i], PREC)
      am == Rated(p.amt, e.r)
      y == CurveY(BAdd(xr, am[i]), am, i, j, Amp(p, e.ts), Width(p)) IN
  IF y = Nil THEN None ELSE IF BGt(y, am[j]) THEN None
  ELSE LET dy == BMax(BSub(BSub(am[j], y), 1), 0)
           tf == Ratio(dy, p.fee, BPS)
           af == Ratio(tf, f.bps, BPS)
           sw == BSub(dy, tf) IN
    IF BLt(BSub(BSub(am[j], sw), af), 0) THEN None
    ELSE <<UnRate(BAdd(am[i], xr), e.r[i]), UnRate(BSub(BSub(am[j], sw), af), e.r[j]), UnRate(sw, e.r[j]), UnRate(af, e.r[j])>>

CurveSwap(p, tin, x, tout, minOut, f, e) ==
  LET i == Idx(p.tok, tin) j == Idx(p.tok, tout) IN
  IF tin = tout THEN Err("E71") ELSE IF i = 0 \/ j = 0 THEN Err("E63")
  ELSE IF ~e.valid THEN Err("E120")
  ELSE IF ~U128(ToC(p, i, x)) THEN Err("overflow")
  ELSE LET q == CurveQuote(p, i, ToC(p, i, x), j, f, e) IN
    IF q = None THEN Err("E70")
    ELSE LET out == FromC(p, j, q[3])
             p1 == [p EXCEPT !.amt[i] = q[1], !.amt[j] = q[2]] IN
      IF ~U128(out) THEN Err("overflow") ELSE IF BLt(out, minOut) THEN Err("E68")
      ELSE IF BLt(q[2], MinReserve(p)) THEN Err("E69")
      ELSE IF f.bps = 0 \/ BZero(q[4]) THEN [ok |-> TRUE, p |-> p1, out |-> out]
      ELSE LET l == LpDeposit([k \in DOMAIN p.amt |-> IF k = j THEN q[4] ELSE "0"], p1.amt, p.sup, 0, e.r, Amp(p, e.ts), Width(p)) IN
        IF l = None THEN Err("E67")
        ELSE [ok |-> TRUE, out |-> out, p |-> MintAdmin([p1 EXCEPT !.amt[j] = BAdd(@, q[4])], f, l[1])]

CurveAddShares(p, am, f, e) ==
  LET c == [i \in DOMAIN am |-> ToC(p, i, am[i])] IN
  IF \E i \in DOMAIN c : ~U128(c[i]) THEN None
  ELSE IF BZero(p.sup) THEN
    IF ~e.valid \/ \E i \in DOMAIN c : BZero(c[i]) THEN None
    ELSE LET d == CurveD(Rated(c, e.r), Amp(p, e.ts), Width(p)) IN IF d = Nil THEN None ELSE <<d, "0">>
  ELSE LpDeposit(c, p.amt, p.sup, p.fee, e.r, Amp(p, e.ts), Width(p))

CurveAdd(p, who, am, minShares, f, e) ==
  IF Len(am) # Len(p.tok) THEN Err("E64")
  ELSE LET l == CurveAddShares(p, am, f, e) IN
    IF l = None THEN Err("E67") ELSE IF BLt(l[1], minShares) THEN Err("E68")
    ELSE LET p1 == Mint([p EXCEPT !.amt = [i \in DOMAIN am |-> BAdd(p.amt[i], ToC(p, i, am[i]))]], who, l[1])
             p2 == IF BZero(l[2]) THEN p1 ELSE MintAdmin(p1, f, Ratio(l[2], f.bps, BPS)) IN
      IF \E i \in DOMAIN am : ~U128(p1.amt[i]) THEN Err("overflow")
      ELSE [ok |-> TRUE, p |-> p2, out |-> [shares |-> l[1], used |-> am]]

CurveRemove(p, who, s, mins) ==
  IF Len(mins) # Len(p.tok) THEN Err("E64")
  ELSE IF who \notin DOMAIN p.sh THEN Err("E13")
  ELSE IF BLt(p.sh[who], s) THEN Err("E34")
  ELSE IF BZero(p.sup) THEN Err("div0")
  ELSE LET c == [i \in DOMAIN p.tok |-> Ratio(p.amt[i], s, p.sup)]
           n == [i \in DOMAIN p.tok |-> BSub(p.amt[i], c[i])]
           o == [i \in DOMAIN p.tok |-> FromC(p, i, c[i])] IN
    IF \E i \in DOMAIN n : BLt(n[i], MinReserve(p)) THEN Err("E69")
    ELSE IF \E i \in DOMAIN o : BLt(o[i], mins[i]) \/ ~U128(o[i]) THEN Err("E68")
    ELSE [ok |-> TRUE, out |-> o, p |-> [p EXCEPT !.amt = n, !.sup = BSub(@, s), !.sh = Put(@, who, BSub(@[who], s))]]

CurveRemoveByTokens(p, who, am, maxBurn, f, e) ==
  IF Len(am) # Len(p.tok) THEN Err("E64")
  ELSE LET c == [i \in DOMAIN am |-> ToCUp(p, i, am[i])] IN
    IF \E i \in DOMAIN c : ~U128(c[i]) THEN Err("overflow")
    ELSE IF \E i \in DOMAIN c : BLt(BSub(p.amt[i], c[i]), MinReserve(p)) THEN Err("E69")
    ELSE IF ~e.valid THEN Err("E120")
    ELSE LET l == LpWithdraw(c, p.amt, p.sup, p.fee, e.r, Amp(p, e.ts), Width(p)) IN
      IF l = None THEN Err("E67")
      ELSE IF who \notin DOMAIN p.sh THEN Err("E13")
      ELSE IF BGt(l[1], p.sh[who]) THEN Err("E34")
      ELSE IF BGt(l[1], maxBurn) THEN Err("E68")
      ELSE LET p1 == [p EXCEPT !.amt = [i \in DOMAIN am |-> BSub(p.amt[i], c[i])], !.sup = BSub(@, l[1]), !.sh = Put(@, who, BSub(@[who], l[1]))] IN
        [ok |-> TRUE, out |-> l[1], p |-> IF BZero(l[2]) THEN p1 ELSE MintAdmin(p1, f, Ratio(l[2], f.bps, BPS))]

(* ------------------------------------------------------------ any pool *)
IsCurve(p) == p.kind # "Simple"
PoolSwap(p, tin, x, tout, minOut, f, e) ==
  IF IsCurve(p) THEN CurveSwap(p, tin, x, tout, minOut, f, e) ELSE SimpleSwap(p, tin, x, tout, minOut, f)
PoolRemove(p, who, s, mins) == IF IsCurve(p) THEN CurveRemove(p, who, s, mins) ELSE SimpleRemove(p, who, s, mins)

\* value of one share scaled up, compared across a step by cross multiplication where the caller has both pools
SumShares(p) == BSumFn(p.sh)
RealAmount(p, i) == IF IsCurve(p) THEN FromC(p, i, p.amt[i]) ELSE p.amt[i]
=============================================================================
