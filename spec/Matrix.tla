--------------------------------- MODULE Matrix ---------------------------------
(***************************************************************************)
(* Bookkeeping operations on data matrices (LinearAlgebra/matrix.cpp).     *)
(* A matrix is [nr, nc, d]: d the sequence of its rows, each a sequence of *)
(* integers (values are multiples of 1/8).  Positions count from 0 as in   *)
(* the code; -1 means the last (or, for insertion, the end).               *)
(*                                                                         *)
(* Expected(m, e) is the outcome of operation e on matrix m: accepted or   *)
(* rejected, the matrix afterwards, the result.  A rejected operation      *)
(* changes nothing.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Number

Mat(rows, nc) == [nr |-> Len(rows), nc |-> nc, d |-> rows]
Empty0 == [nr |-> 0, nc |-> 0, d |-> <<>>]
IsEmpty(m) == m.nr = 0 \/ m.nc = 0
WellFormed(m) == Len(m.d) = m.nr /\ \A i \in DOMAIN m.d : Len(m.d[i]) = m.nc

InsertAt(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
RemoveAt(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))
RECURSIVE RemoveAll(_, _, _)
RemoveAll(s, idx, i) ==      \* rows whose position is not in idx, in order
  IF i > Len(s) THEN <<>> ELSE (IF (i - 1) \in idx THEN <<>> ELSE <<s[i]>>) \o RemoveAll(s, idx, i + 1)
Range(s) == {s[i] : i \in DOMAIN s}
Col(m, j) == [i \in 1..m.nr |-> m.d[i][j + 1]]
Transpose(m) == Mat([j \in 1..m.nc |-> Col(m, j - 1)], m.nr)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
IsPermutation(s, r) == Len(s) = Len(r) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(r, s[i])
Abs(x) == IF x < 0 THEN -x ELSE x
Near(v, w, tol) == \A j \in DOMAIN v : Abs(v[j] - w[j]) <= tol
Min2(a, b) == IF a < b THEN a ELSE b

OK(m, r) == [ok |-> TRUE, m |-> m, res |-> r]
Rejected(m) == [ok |-> FALSE, m |-> m, res |-> 0]

AddRow(m, v, p) ==
  LET q == IF p = -1 THEN m.nr ELSE p IN
  IF q < 0 \/ q > m.nr \/ (~IsEmpty(m) /\ Len(v) # m.nc) THEN Rejected(m)
  ELSE OK(Mat(InsertAt(m.d, q, v), Len(v)), 0)
AddColumn(m, v, p) ==
  LET q == IF p = -1 THEN m.nc ELSE p IN
  IF q < 0 \/ q > m.nc \/ (~IsEmpty(m) /\ Len(v) # m.nr) THEN Rejected(m)
  ELSE OK(Mat([i \in 1..Len(v) |-> IF IsEmpty(m) THEN <<v[i]>> ELSE InsertAt(m.d[i], q, v[i])], IF IsEmpty(m) THEN 1 ELSE m.nc + 1), 0)
DeleteRows(m, idx) ==
  IF idx = {} THEN OK(m, 0)
  ELSE IF \E i \in idx : i < 0 \/ i >= m.nr THEN Rejected(m)
  ELSE LET rows == RemoveAll(m.d, idx, 1) IN OK(IF rows = <<>> THEN Empty0 ELSE Mat(rows, m.nc), 0)
DeleteRow(m, p) ==
  LET q == IF p = -1 THEN m.nr - 1 ELSE p IN IF q < 0 \/ q >= m.nr THEN Rejected(m) ELSE DeleteRows(m, {q})
SetRow(m, v, p) == IF p < 0 \/ p >= m.nr \/ Len(v) # m.nc THEN Rejected(m) ELSE OK([m EXCEPT !.d[p + 1] = v], 0)
SetCol(m, v, p) ==
  IF p < 0 \/ p >= m.nc \/ Len(v) # m.nr THEN Rejected(m)
  ELSE OK(Mat([i \in 1..m.nr |-> [m.d[i] EXCEPT ![p + 1] = v[i]]], m.nc), 0)
GetRow(m, p) == LET q == IF p = -1 THEN m.nr - 1 ELSE p IN IF q < 0 \/ q >= m.nr THEN Rejected(m) ELSE OK(m, m.d[q + 1])
GetCol(m, p) == LET q == IF p = -1 THEN m.nc - 1 ELSE p IN IF q < 0 \/ q >= m.nc THEN Rejected(m) ELSE OK(m, Col(m, q))
SubMatrix(m, a) ==      \* first row, last row, first column, last column
  IF a[1] > a[2] \/ a[2] >= m.nr \/ a[3] > a[4] \/ a[4] >= m.nc THEN Rejected(m)
  ELSE OK(m, Mat([i \in 1..(a[2] - a[1] + 1) |-> SubSeq(m.d[a[1] + i], a[3] + 1, a[4] + 1)], a[4] - a[3] + 1))
ConcatRows(m, b) ==
  IF m.nr = 0 THEN OK(m, b) ELSE IF b.nr = 0 THEN OK(m, m) ELSE IF m.nc # b.nc THEN Rejected(m) ELSE OK(m, Mat(m.d \o b.d, m.nc))
ConcatCols(m, b) ==
  IF m.nc = 0 THEN OK(m, b) ELSE IF b.nc = 0 THEN OK(m, m) ELSE IF m.nr # b.nr THEN Rejected(m)
  ELSE OK(m, Mat([i \in 1..m.nr |-> m.d[i] \o b.d[i]], m.nc + b.nc))
Resize(m, r, c) == OK(Mat([i \in 1..r |-> [j \in 1..c |-> IF i <= m.nr /\ j <= m.nc THEN m.d[i][j] ELSE 0]], c), 0)
FindRow(m, v, tol) ==
  IF Len(v) # m.nc THEN Rejected(m)
  ELSE LET S == {i \in 1..m.nr : Near(m.d[i], v, tol)} IN OK(m, IF S = {} THEN -1 ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1)
HasRow(m, v, tol) == OK(m, IF Len(v) = m.nc /\ \E i \in 1..m.nr : Near(m.d[i], v, tol) THEN 1 ELSE 0)

(* a file: sequence of lines, each a sequence of cells (texts) *)
FileIsData(f) == f # <<>> /\ \A i \in DOMAIN f : Len(f[i]) = Len(f[1]) /\ \A j \in DOMAIN f[i] : IsNumber(f[i][j])
ReadFile(m, f) ==
  IF ~FileIsData(f) THEN Rejected(m)
  ELSE OK(Mat([i \in DOMAIN f |-> [j \in DOMAIN f[i] |-> Scaled(f[i][j], 8)]], Len(f[1])), 0)

Expected(m, e) ==
  CASE e.op = "addRow" -> AddRow(m, e.v, e.a[1])
    [] e.op = "addColumn" -> AddColumn(m, e.v, e.a[1])
    [] e.op = "deleteRow" -> DeleteRow(m, e.a[1])
    [] e.op = "deleteRows" -> DeleteRows(m, Range(e.v))
    [] e.op = "setRow" -> SetRow(m, e.v, e.a[1])
    [] e.op = "setCol" -> SetCol(m, e.v, e.a[1])
    [] e.op = "getRow" -> GetRow(m, e.a[1])
    [] e.op = "getCol" -> GetCol(m, e.a[1])
    [] e.op = "submat" -> SubMatrix(m, e.a)
    [] e.op = "concatRows" -> ConcatRows(m, e.b)
    [] e.op = "concatCols" -> ConcatCols(m, e.b)
    [] e.op = "resize" -> Resize(m, e.a[1], e.a[2])
    [] e.op = "transpose" -> OK(m, Transpose(m))
    [] e.op = "findRow" -> FindRow(m, e.v, e.a[1])
    [] e.op = "hasRow" -> HasRow(m, e.v, e.a[1])
    [] e.op = "fill" -> OK(Mat([i \in 1..m.nr |-> [j \in 1..m.nc |-> e.a[1]]], m.nc), 0)
    [] e.op = "copy" -> OK(m, m)           \* a copy is changed afterwards, the original is not
    [] e.op = "move" -> OK(m, Empty0)      \* contents moved away and back: the same matrix; what it was moved from is empty
    [] e.op = "reset" -> OK(Empty0, 0)
    [] e.op = "read" -> ReadFile(m, e.f)
    [] OTHER -> Rejected(m)

(* saving with p digits and reading back; the result is in units of 1/8000 *)
RoundTrip(m, e) ==
  LET p == e.a[1]
      tol == IF p = 0 THEN 4000 ELSE IF p = 1 THEN 400 ELSE IF p = 2 THEN 40 ELSE 0
  IN IF IsEmpty(m) \/ e.a[2] = 2 THEN ~e.ok       \* nothing to save, or a header of the wrong size
     ELSE e.ok /\ e.res.nr = m.nr /\ e.res.nc = m.nc /\ \A i \in 1..m.nr : \A j \in 1..m.nc : Abs(e.res.d[i][j] - 1000 * m.d[i][j]) <= tol

(* is the recorded operation e on m allowed? *)
Allowed(m, e) ==
  CASE e.op = "shuffle" -> e.ok /\ e.m.nc = m.nc /\ e.m.nr = m.nr /\ WellFormed(e.m) /\ IsPermutation(m.d, e.m.d)
    [] e.op = "csv" -> e.m = m /\ RoundTrip(m, e)
    [] e.op \in {"getRow", "getCol"} /\ IsEmpty(m) /\ e.a[1] = -1 -> e.m = m       \* the last of nothing: an error or nothing
    [] OTHER -> LET x == Expected(m, e) IN e.ok = x.ok /\ e.m = x.m /\ (x.ok => e.res = x.res)
=================================================================================
