-------------------------------- MODULE MatrixMC --------------------------------
(* All matrices reachable with small bounds; laws of the operations; every (state, operation)    *)
(* pair is printed as a test case for the implementation.                                       *)
EXTENDS Matrix, TLC, Json
CONSTANTS Vals, MaxR, MaxC, Emit
VARIABLE m

Seqs(n) == [1..n -> Vals]
Vecs == UNION {Seqs(n) : n \in 0..MaxC}
E(op, a, v, b) == [op |-> op, a |-> a, v |-> v, b |-> b]
One == CHOOSE x \in Vals : \A y \in Vals : x <= y
Vec(n) == {s \in Seqs(n) : TRUE}
Ops ==
  {E("addRow", <<p>>, v, Empty0) : p \in -2..m.nr + 1, v \in UNION {Seqs(n) : n \in {k \in {m.nc, 1, m.nc + 1} : k >= 1 /\ k <= MaxC}}}
  \cup {E("addColumn", <<p>>, v, Empty0) : p \in -2..m.nc + 1, v \in UNION {Seqs(n) : n \in {k \in {m.nr, 1, m.nr + 1} : k >= 1 /\ k <= MaxR}}}
  \cup {E("deleteRow", <<p>>, <<>>, Empty0) : p \in -2..m.nr}
  \cup {E("deleteRows", <<>>, s, Empty0) : s \in {<<>>, <<0>>, <<m.nr - 1>>, <<0, m.nr - 1>>, <<m.nr - 1, 0, 0>>, <<1, 2>>, <<-1>>, <<m.nr>>, <<0, m.nr>>}}
  \cup {E("setRow", <<p>>, v, Empty0) : p \in 0..m.nr, v \in Seqs(m.nc) \cup Seqs(m.nc + 1)}
  \cup {E("setCol", <<p>>, v, Empty0) : p \in 0..m.nc, v \in Seqs(m.nr) \cup Seqs(m.nr + 1)}
  \cup {E("getRow", <<p>>, <<>>, Empty0) : p \in -2..m.nr}
  \cup {E("getCol", <<p>>, <<>>, Empty0) : p \in -2..m.nc}
  \cup {E("submat", <<a, b, c, d>>, <<>>, Empty0) : a \in 0..m.nr, b \in 0..m.nr, c \in 0..m.nc, d \in 0..m.nc}
  \cup {E("concatRows", <<>>, <<>>, b) : b \in {Empty0, Mat(<<[j \in 1..m.nc |-> One]>>, m.nc), Mat(<<[j \in 1..m.nc + 1 |-> One]>>, m.nc + 1), m}}
  \cup {E("concatCols", <<>>, <<>>, b) : b \in {x \in {Empty0, Mat([i \in 1..m.nr |-> <<One>>], 1), Mat([i \in 1..m.nr + 1 |-> <<One>>], 1), m} : x.nr > 0 \/ x = Empty0}}
  \cup {E("resize", <<r, c>>, <<>>, Empty0) : r \in 1..MaxR, c \in 1..MaxC}
  \cup {E("findRow", <<t>>, v, Empty0) : t \in {0, 1}, v \in Vec(m.nc) \cup Vec(m.nc + 1)}
  \cup {E("hasRow", <<t>>, v, Empty0) : t \in {0, 1}, v \in Vec(m.nc) \cup Vec(m.nc + 1)}
  \cup {E(o, <<One>>, <<>>, Empty0) : o \in {"transpose", "copy", "move", "reset", "fill"}}

Init == m = Empty0
Next == \E e \in Ops : m' = Expected(m, e).m /\ m'.nr <= MaxR /\ m'.nc <= MaxC
Spec == Init /\ [][Next]_m

Shape == WellFormed(m)
EmitCases == Emit => PrintT(<<"CASES", ToJson([m |-> m, ops |-> Ops])>>)
\* laws relating the operations
Laws ==
  /\ ~IsEmpty(m) => Transpose(Transpose(m)) = m
  /\ \A p \in 0..m.nr : \A v \in Seqs(m.nc) : (m.nr > 0) => DeleteRow(AddRow(m, v, p).m, p).m = m
  /\ \A p \in 0..m.nr - 1 : AddRow(DeleteRow(m, p).m, GetRow(m, p).res, p).m = m
  /\ \A p \in 0..m.nr - 1 : SetRow(m, GetRow(m, p).res, p).m = m /\ FindRow(m, GetRow(m, p).res, 0).res <= p
  /\ \A p \in 1..m.nr - 1 : ConcatRows(SubMatrix(m, <<0, p - 1, 0, m.nc - 1>>).res, SubMatrix(m, <<p, m.nr - 1, 0, m.nc - 1>>).res).res = m
  /\ \A p \in 1..m.nc - 1 : ConcatCols(SubMatrix(m, <<0, m.nr - 1, 0, p - 1>>).res, SubMatrix(m, <<0, m.nr - 1, p, m.nc - 1>>).res).res = m
  /\ \A p \in 0..m.nr - 1 : DeleteRow(m, p) = DeleteRows(m, {p})
=================================================================================
