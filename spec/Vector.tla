--------------------------------- MODULE Vector ---------------------------------
(* Bookkeeping operations on vectors (LinearAlgebra/vector.cpp) and on CSV files written row by row. *)
EXTENDS Integers, Sequences, FiniteSets, Matrix

Ordered(v) == \A i \in 1..Len(v) - 1 : v[i] <= v[i + 1]
OrderedDown(v) == \A i \in 1..Len(v) - 1 : v[i] >= v[i + 1]
VExpected(v, e) ==
  CASE e.op = "append" ->
         LET p == IF e.a[1] = -1 THEN Len(v) ELSE e.a[1] IN
         IF p < 0 \/ p > Len(v) THEN Rejected(v) ELSE OK(SubSeq(v, 1, p) \o e.v \o SubSeq(v, p + 1, Len(v)), 0)
    [] e.op = "overwrite" ->
         LET p == e.a[1] IN
         IF p < 0 \/ p >= Len(v) THEN Rejected(v)
         ELSE OK([i \in 1..Len(v) |-> IF i > p /\ i - p <= Len(e.v) THEN e.v[i - p] ELSE v[i]], 0)
    [] e.op = "push" -> OK(Append(v, e.a[1]), 0)
    [] e.op = "resize" -> OK([i \in 1..e.a[1] |-> IF i <= Len(v) THEN v[i] ELSE e.a[2]], 0)
    [] e.op = "head" -> IF e.a[1] > Len(v) THEN Rejected(v) ELSE OK(v, SubSeq(v, 1, e.a[1]))
    [] e.op = "tail" -> IF e.a[1] > Len(v) THEN Rejected(v) ELSE OK(v, SubSeq(v, Len(v) - e.a[1] + 1, Len(v)))
    [] e.op = "set" -> IF e.a[1] >= Len(v) THEN Rejected(v) ELSE OK([v EXCEPT ![e.a[1] + 1] = e.a[2]], 0)
    [] e.op = "get" -> IF e.a[1] >= Len(v) THEN Rejected(v) ELSE OK(v, v[e.a[1] + 1])
    [] e.op = "swap" -> OK(e.v, v)                 \* exchanged with another vector
    [] e.op = "std" -> OK(v, v)                    \* to std::vector and back
    [] e.op = "copy" -> OK(v, v)
    [] e.op = "isSorted" -> OK(v, <<IF Ordered(v) THEN 1 ELSE 0, IF OrderedDown(v) THEN 1 ELSE 0>>)
    [] e.op = "between" -> IF Len(e.v) # Len(v) THEN Rejected(v) ELSE OK(v, IF \A i \in DOMAIN v : e.v[i] <= v[i] /\ v[i] <= e.v[i] + 2 THEN 1 ELSE 0)
    [] e.op = "equal" -> OK(v, IF Len(e.v) = Len(v) /\ \A i \in DOMAIN v : Abs(v[i] - e.v[i]) <= e.a[1] THEN 1 ELSE 0)
    [] e.op = "less" -> IF Len(e.v) # Len(v) THEN Rejected(v) ELSE OK(v, IF \A i \in DOMAIN v : v[i] < e.v[i] THEN 1 ELSE 0)
    [] e.op = "sum" -> OK(v, LET RECURSIVE s(_) s(i) == IF i = 0 THEN 0 ELSE v[i] + s(i - 1) IN s(Len(v)))
    [] e.op = "csv" -> OK(v, v)
    \* f: rows of a file; a row is appended only if it has as many columns as the first one
    [] e.op = "appendRow" -> IF e.b.nr > 0 /\ e.b.nc # Len(v) THEN [ok |-> FALSE, m |-> v, res |-> e.b] ELSE OK(v, Mat(Append(e.b.d, v), Len(v)))
    [] OTHER -> Rejected(v)

VAllowed(v, e) ==
  CASE e.op = "min" -> IF v = <<>> THEN ~e.ok /\ e.m = v ELSE     \* value and index of a smallest element
         e.ok /\ e.m = v /\ e.res[2] \in 0..Len(v) - 1 /\ v[e.res[2] + 1] = e.res[1] /\ \A i \in DOMAIN v : e.res[1] <= v[i]
    [] e.op = "max" -> IF v = <<>> THEN ~e.ok /\ e.m = v ELSE
         e.ok /\ e.m = v /\ e.res[2] \in 0..Len(v) - 1 /\ v[e.res[2] + 1] = e.res[1] /\ \A i \in DOMAIN v : e.res[1] >= v[i]
    [] e.op = "sort" -> e.ok /\ IsPermutation(v, e.m) /\ (IF e.a[1] = 1 THEN Ordered(e.m) ELSE OrderedDown(e.m))
    [] e.op = "appendRow" -> LET x == VExpected(v, e) IN e.ok = x.ok /\ e.m = v /\ e.res = x.res
    [] OTHER -> LET x == VExpected(v, e) IN e.ok = x.ok /\ e.m = x.m /\ (x.ok => e.res = x.res)
=================================================================================
