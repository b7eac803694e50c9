------------------------------- MODULE TraceCmp -------------------------------
(* Comparing what a call did with what the specification says it does: outgoing receipts up to their order, returned value, records. *)
EXTENDS ExBase, Attempts

\* a receipt as a value that does not depend on its position
SortList(v) == SSort(Range(v))
Normal(r, batched) ==
  IF ~batched THEN IF IsStr(r.a) THEN Empty ELSE r.a
  ELSE IF Has(r.a, "asset_ids") THEN [r.a EXCEPT !.asset_ids = SortList(@)]
  ELSE IF Has(r.a, "price_ids") THEN [r.a EXCEPT !.price_ids = SortList(@)]
  ELSE IF Has(r.a, "price_id_token_id_map") THEN [r.a EXCEPT !.price_id_token_id_map = [x \in DOMAIN @ |-> SortList(@[x])]] ELSE r.a
IsBatch(r) == SStarts(r.m, "batch_update")
RECURSIVE Key(_, _)
Key(fx, k) ==
  LET r == fx[k] batched == IsBatch(r) \/ \E j \in DOMAIN fx : IsBatch(fx[j]) /\ k \in Range(fx[j].dep) IN
  <<r.to, r.m, Normal(r, batched), r.d, [j \in DOMAIN r.dep |-> Key(fx, r.dep[j])]>>
Bag(ks, x) == Cardinality({k \in DOMAIN ks : VEq(ks[k], x)})
SameFx(a, b) ==
  LET x == [k \in DOMAIN a |-> Key(a, k)] y == [k \in DOMAIN b |-> Key(b, k)] IN
  Len(a) = Len(b) /\ \A k \in DOMAIN x : Bag(x, x[k]) = Bag(y, x[k])
SameRet(a, fa, b, fb) == IF a.k # b.k THEN FALSE ELSE IF a.k = "prom" THEN VEq(Key(fa, a.i), Key(fb, b.i)) ELSE VEq(a, b)

\* what an earlier release showed (x) is still shown (y), maybe with more
RECURSIVE Kept(_, _)
Kept(x, y) == IF VEq(x, y) THEN TRUE ELSE Attempt(\A k \in DOMAIN x : k = "version" \/ (IF k \in DOMAIN y THEN Kept(x[k], y[k]) ELSE FALSE), FALSE)

RecDiff(sec, x, y) ==
  {<<SCat(sec, k), Get(x, k, "absent"), Get(y, k, "absent")>> : k \in {k \in DOMAIN x \cup DOMAIN y : IF k \in DOMAIN x /\ k \in DOMAIN y THEN ~VEq(x[k], y[k]) ELSE TRUE}}
=============================================================================
