------------------------------- MODULE Receipts -------------------------------
(* Receipts on their way between contracts, in order of creation: any that awaits nothing may be next, with any outcome. *)
EXTENDS ExBase

(* ------------------------------------------------------------ receipts
   [from, to, m, a, d, msg, dep, pr]: dep[i] is the position in q of the i-th receipt awaited, 0 when its result pr[i] is there *)
NoRes == [ok |-> FALSE]
Item(from, r) == [from |-> from, to |-> r.to, m |-> r.m, a |-> r.a, d |-> r.d, msg |-> Get(r, "msg", Empty), dep |-> r.dep, pr |-> [i \in DOMAIN r.dep |-> NoRes]]
Ready(r) == \A i \in DOMAIN r.dep : r.dep[i] = 0
Fill(r, k, v) == [r EXCEPT !.pr = [i \in DOMAIN @ |-> IF r.dep[i] = k THEN v ELSE @[i]],
                           !.dep = [i \in DOMAIN @ |-> IF @[i] = k THEN 0 ELSE IF @[i] > k THEN @[i] - 1 ELSE @[i]]]
\* receipt k is done with result v
Done(qq, k, v) == LET rest == [i \in 1..(Len(qq) - 1) |-> IF i < k THEN qq[i] ELSE qq[i + 1]] IN [i \in DOMAIN rest |-> Fill(rest[i], k, v)]
\* NEAR that goes to users arrives at once
Outer(fx) == SelectSeq([i \in DOMAIN fx |-> [r |-> fx[i], i |-> i]], LAMBDA x : x.r.m # "transfer")
Send(qq, from, fx) ==
  LET o == Outer(fx)
      at(i) == IF \E j \in DOMAIN o : o[j].i = i THEN Len(qq) + (CHOOSE j \in DOMAIN o : o[j].i = i) ELSE 0
  IN qq \o [j \in DOMAIN o |-> LET x == Item(from, o[j].r) IN [x EXCEPT !.dep = [i \in DOMAIN @ |-> at(@[i])]]]

(* the script a behaviour is recorded as *)
Log(w, c) == [w EXCEPT !.log = Append(@, c)]
Exec(r) == [c |-> "exec", sel |-> [to |-> r.to, m |-> r.m, a |-> r.a]]
ExecOut(r, o) == Exec(r) @@ [out |-> o]
(* balances in token contracts: token -> holder -> amount *)
Bal(w, t, u) == Get(w[t], u, "0")
Pay(w, t, u, v, n) == LET x == [w EXCEPT ![t] = Put(@, u, BSub(Get(@, u, "0"), n))] IN [x EXCEPT ![t] = Put(@, v, BAdd(Get(@, v, "0"), n))]
=============================================================================
