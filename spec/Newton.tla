-------------------------------- MODULE Newton --------------------------------
(* The solutions of NewtonDef. TLC evaluates these three with Newton.java, which NewtonCheck compares with the definitions. *)
EXTENDS NewtonDef
\* the invariant D of the reserves x with amplification coefficient ann
DSolve(x, ann, w) == DLoop(x, BSumSeq(x), BSumSeq(x), Len(x), ann, w, 0)
\* c * d^k / product of the reserves other than ix and iy
YTerm(x, d, c, ix, iy, w) == YProd(x, 1, d, c, ix, iy, w)
\* the reserve that goes with the others
YSolve(b, c, d, w) == YLoop(d, b, c, d, w, 0)
=============================================================================
