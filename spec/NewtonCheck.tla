----------------------------- MODULE NewtonCheck -----------------------------
(* Newton.java agrees with the definitions it stands for, on reserves from nothing to beyond what the integers hold. *)
EXTENDS Newton, TLC
VARIABLE k
E(n) == BPow(10, n)
Vals == {"0", "1", "999999999999999", E(18), "1234567890123456789012", E(30), "340282366920938463463374607431768211455"}
Anns == {"4", "5400", "256000000"}
Widths == {256, 384}
Two == {<<x, y>> : x \in Vals, y \in Vals}
Three == {<<x, y, z>> : x \in {"1", E(3), E(18), "77777777777777777777", E(24)}, y \in {"0", E(6), E(19), E(24)}, z \in {E(2), E(18), E(33)}}
Four == {<<x, y, E(18), E(20)>> : x \in {"5", E(17), E(25)}, y \in {E(1), E(19)}}
Ys == {<<b, c, d>> : b \in {"0", E(4), E(21), E(40)}, c \in {"1", E(18), E(36), E(70), E(110)}, d \in {"3", E(12), E(21), E(30)}}
Same(a, b) == IF a = b THEN TRUE ELSE Print(<<"differs", a, b>>, FALSE)
Init == k = 0
Next == k = 0 /\ k' \in 1..5
Agree ==
  CASE k = 1 -> \A x \in Two : \A a \in Anns : \A w \in Widths : Same(DSolve(x, a, w), DLoop(x, BSumSeq(x), BSumSeq(x), 2, a, w, 0))
    [] k = 0 -> TRUE
    [] k = 5 -> \A x \in Four : \A a \in Anns : \A w \in Widths : Same(DSolve(x, a, w), DLoop(x, BSumSeq(x), BSumSeq(x), Len(x), a, w, 0))
    [] k = 2 -> \A x \in Three : \A a \in Anns : \A w \in Widths : Same(DSolve(x, a, w), DLoop(x, BSumSeq(x), BSumSeq(x), Len(x), a, w, 0))
    [] k = 3 -> \A x \in Three \cup Four : \A c \in {E(10), E(40), E(90)} : \A d \in {"9", E(20)} : \A w \in Widths :
                  Same(YTerm(x, d, c, 1, 3, w), YProd(x, 1, d, c, 1, 3, w)) /\ Same(YTerm(x, d, c, 3, 2, w), YProd(x, 1, d, c, 3, 2, w))
    [] k = 4 -> \A y \in Ys : \A w \in Widths : Same(YSolve(y[1], y[2], y[3], w), YLoop(y[3], y[1], y[2], y[3], w, 0))
=============================================================================
