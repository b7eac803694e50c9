------------------------------ MODULE NewtonDef ------------------------------
(* The iterations that solve the curve's equation. w: the width in bits of the integers they are carried out with; "none" when one
   of them does not fit. *)
EXTENDS BigNum, Integers, Sequences
NNil == "none"
Close(a, b) == BLe(BSub(a, b), 1) /\ BLe(BSub(b, a), 1)
\* the invariant D: Newton iteration from sum(x) until it moves by at most one
RECURSIVE DProd(_, _, _, _, _, _)
DProd(x, i, d, acc, n, w) ==
  IF acc = NNil \/ i > n THEN acc
  ELSE LET m == BMul(acc, d) q == BMul(x[i], n) IN
       DProd(x, i + 1, d, IF ~BFits(m, w) \/ BZero(q) \/ ~U128(q) THEN NNil ELSE BDiv(m, q), n, w)
RECURSIVE DLoop(_, _, _, _, _, _, _)
DLoop(x, sum, d, n, ann, w, k) ==
  IF k = 256 THEN d
  ELSE LET dp == DProd(x, 1, d, d, n, w) IN
    IF dp = NNil THEN NNil
    ELSE LET nu == BMul(d, BAdd(BMul(dp, n), BMul(sum, ann)))
             de == BAdd(BMul(d, BSub(ann, 1)), BMul(dp, n + 1)) IN
      IF ~BFits(nu, w) \/ ~BFits(de, w) \/ BZero(de) THEN NNil
      ELSE LET e == BDiv(nu, de) IN IF Close(e, d) THEN e ELSE DLoop(x, sum, e, n, ann, w, k + 1)
RECURSIVE YProd(_, _, _, _, _, _, _)
YProd(x, i, d, c, ix, iy, w) ==
  IF c = NNil \/ i > Len(x) THEN c
  ELSE IF i = ix \/ i = iy THEN YProd(x, i + 1, d, c, ix, iy, w)
  ELSE LET m == BMul(c, d) IN YProd(x, i + 1, d, IF ~BFits(m, w) \/ BZero(x[i]) THEN NNil ELSE BDiv(m, x[i]), ix, iy, w)
RECURSIVE YLoop(_, _, _, _, _, _)
YLoop(y, b, c, d, w, k) ==
  IF k = 256 THEN y
  ELSE LET nu == BAdd(BMul(y, y), c)
           de == BSub(BAdd(BMul(2, y), b), d) IN
    IF ~BFits(nu, w) \/ ~BPos(de) THEN NNil
    ELSE LET z == BDiv(nu, de) IN IF Close(z, y) THEN z ELSE YLoop(z, b, c, d, w, k + 1)
=============================================================================
