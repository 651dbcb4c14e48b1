--------------------------------- MODULE DataMC ---------------------------------
(* Every short sequence of operations on the data or on the model. *)
EXTENDS Data, TLC, Json
CONSTANTS Depth, Modelled, Start
VARIABLES s, h, last
vars == <<s, h, last>>
B(d, w) == [lb |-> SubSeq([j \in 1..d |-> 0], 1, d), ub |-> SubSeq([j \in 1..d |-> w], 1, d)]
F2 == [ok |-> TRUE, rows |-> <<<<1, 2, 10>>, <<4, 0, 11>>, <<3, 3, 12>>>>]
F1 == [ok |-> TRUE, rows |-> <<<<1, 20>>, <<2, 21>>>>]
FG == [ok |-> TRUE, rows |-> <<<<1, 30, 5>>, <<0, 31, 6>>>>]
Bad == [ok |-> FALSE, rows |-> <<>>]
W(o) == o @@ [valid |-> <<>>]
Ops == IF Modelled
   THEN {[op |-> "dim", n |-> 2], [op |-> "name"], [op |-> "ratio", n |-> 4], [op |-> "box", box |-> B(2, 4)], [op |-> "box", box |-> B(1, 4)],
         W([op |-> "read"]), [op |-> "normalize"], [op |-> "init"], W([op |-> "add", row |-> <<2, 2, 13>>]), W([op |-> "add", row |-> <<1, 2, 10>>]),
         W([op |-> "add", row |-> <<2, 2>>]), W([op |-> "update"]), [op |-> "train"], [op |-> "linear"]}
   ELSE {[op |-> "dim", n |-> 2], [op |-> "grad"], [op |-> "dir"], [op |-> "ratio", n |-> 4], [op |-> "ratio", n |-> 9], [op |-> "box", box |-> B(2, 4)], [op |-> "box", box |-> B(1, 8)],
         W([op |-> "read", file |-> F2]), W([op |-> "read", file |-> F1]), W([op |-> "read", file |-> FG]), W([op |-> "read", file |-> Bad]),
         [op |-> "normalize"], [op |-> "revert"], [op |-> "sety", y |-> <<7, 8>>], [op |-> "readtest", file |-> F1], [op |-> "readtest", file |-> F2], [op |-> "normtest"]}
Allowed(o) == /\ (o.op \in {"dim", "grad", "dir", "linear", "name"}) => (~s.read /\ \A i \in DOMAIN h : h[i].op # o.op)
              /\ (o.op = "dim") => s.box = Nothing /\ ~s.read
\* operations by which the sequences start
Prefix == IF Start = "new" THEN (IF Modelled THEN <<[op |-> "file", file |-> F2]>> ELSE <<>>)
          ELSE IF Modelled THEN <<[op |-> "file", file |-> F2], [op |-> "dim", n |-> 2], [op |-> "name"], [op |-> "box", box |-> B(2, 4)], W([op |-> "update"])>>
          ELSE <<[op |-> "ratio", n |-> 4], [op |-> "box", box |-> B(2, 4)], [op |-> "read", file |-> F2, valid |-> <<2>>], [op |-> "normalize"]>>
RECURSIVE After(_, _)
After(z, q) == IF q = <<>> THEN z ELSE After(Do(z, Head(q)).s, Tail(q))
Init == s = After([New EXCEPT !.model = Modelled], Prefix) /\ h = Prefix /\ last = TRUE
Witnesses(o) == IF ReadsFile(s, o) /\ FileAfter(s, o).ok THEN Choices(s, FileAfter(s, o)) ELSE {<<>>}
Next == /\ Len(h) < Depth + Len(Prefix)
        /\ \E o \in Ops : /\ Allowed(o)
              /\ \E v \in Witnesses(o) :
                    LET r == Do(s, IF ReadsFile(s, o) THEN [o EXCEPT !.valid = v] ELSE o) IN s' = r.s /\ last' = r.ok /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars

Partition == s.read => /\ Rng(s.train) \cup Rng(s.valid) = 1..Len(s.raw) /\ Rng(s.train) \cap Rng(s.valid) = {}
                       /\ Len(s.train) + Len(s.valid) = Len(s.raw)
                       /\ \A a, b \in DOMAIN s.train : a < b => s.train[a] < s.train[b]
SameIndex == s.read => /\ Len(X(s)) = Len(s.train) /\ Len(s.y) = Len(s.train)
                       /\ \A i \in DOMAIN s.train : s.nb # Nothing =>
                            \A j \in 1..s.dim : X(s)[i][j] * (s.nb.ub[j] - s.nb.lb[j]) * s.dim = (s.raw[s.train[i]][j] - s.nb.lb[j]) * L
UnitBox == s.read /\ s.nb # Nothing => \A i \in DOMAIN s.train : InBox(s.raw[s.train[i]], s.nb.lb, s.nb.ub) =>
                \A j \in 1..s.dim : X(s)[i][j] >= 0 /\ X(s)[i][j] * s.dim <= L
ModelConsistent == /\ s.init => s.mnorm /\ s.mread /\ s.nb # Nothing
                   /\ s.mread => s.raw = s.file.rows
RejectedChangesNothing == [][~last' => s' = s]_vars
NothingLost == [][s.model /\ s.read => \A i \in DOMAIN s.raw : i <= Len(s'.raw) /\ s'.raw[i] = s.raw[i]]_vars
\* stops a sequence of interest: at full length, or rejected
Emit == Len(h) = Depth + Len(Prefix) => PrintT(<<"CASE", ToJson(h)>>)
===================================================================================
