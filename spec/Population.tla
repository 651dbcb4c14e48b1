-------------------------------- MODULE Population -------------------------------
(* A population by itself: a sequence of <<id, value>>. *)
EXTENDS Integers, Sequences, FiniteSets
IdSet(p) == {p[i][1] : i \in DOMAIN p}
At(p, id) == CHOOSE i \in DOMAIN p : p[i][1] = id
IsMin(p, id) == \E i \in DOMAIN p : p[i][1] = id /\ \A j \in DOMAIN p : p[i][2] <= p[j][2]
IsMax(p, id) == \E i \in DOMAIN p : p[i][1] = id /\ \A j \in DOMAIN p : p[i][2] >= p[j][2]
MinValue(p) == p[CHOOSE i \in DOMAIN p : \A j \in DOMAIN p : p[i][2] <= p[j][2]][2]
MaxValue(p) == p[CHOOSE i \in DOMAIN p : \A j \in DOMAIN p : p[i][2] >= p[j][2]][2]
Without(p, i) == [j \in 1..(Len(p) - 1) |-> IF j < i THEN p[j] ELSE p[j + 1]]
MaxId(p) == IF p = <<>> THEN 0 ELSE CHOOSE a \in IdSet(p) : \A b \in IdSet(p) : b <= a
\* outcome of an operation: accepted or not, the population, and the result
Out(p, r) == [ok |-> TRUE, p |-> p, r |-> r]
Bad(p) == [ok |-> FALSE, p |-> p, r |-> 0]
Apply(p, e) ==
   CASE e.op = "add" -> IF e.dimok THEN Out(p \o e.new, 0) ELSE Bad(p)
     [] e.op = "group" -> Out(p \o e.new, 0)
     [] e.op = "removeAt" -> IF e.k < Len(p) THEN Out(Without(p, e.k + 1), 0) ELSE Bad(p)
     [] e.op = "removeId" -> IF e.k \in IdSet(p) THEN Out(Without(p, At(p, e.k)), 0) ELSE Bad(p)
     [] e.op = "reset" -> Out(<<>>, 0)
     [] e.op = "update" -> IF Len(p) >= 2 THEN Out(p, 0) ELSE Bad(p)
     [] e.op = "largest" -> Out(p, MaxId(p))
     [] e.op = "order" -> Out(p, IF e.k \in IdSet(p) THEN At(p, e.k) - 1 ELSE -1)
     [] e.op = "get" -> IF e.k \in IdSet(p) THEN Out(p, e.k) ELSE Bad(p)
     [] e.op = "repeated" -> Out(p, 0)
     [] OTHER -> Out(p, 0)
===================================================================================
