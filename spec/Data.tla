---------------------------------- MODULE Data ----------------------------------
(***************************************************************************)
(* Life cycle of the sample data of a surrogate model: SurrogateModelData, *)
(* the model built on it (KrigingModel) and the file it appends to.        *)
(*                                                                         *)
(* Values are integers, in units of the parameter or output they belong    *)
(* to; normalized inputs are in units of 1/L.  Do(s, o) gives the outcome  *)
(* of operation o in state s and the state afterwards: an operation that   *)
(* is rejected changes nothing.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT L

Nothing == <<>>
New == [dim |-> 0, grad |-> FALSE, dir |-> FALSE, ratio |-> 0, box |-> Nothing,
        \* data that has been read
        read |-> FALSE, raw |-> <<>>, g |-> FALSE, dd |-> FALSE, train |-> <<>>, valid |-> <<>>, y |-> <<>>,
        nb |-> Nothing,                       \* the bounds with which the inputs have been normalized
        \* test data
        tread |-> FALSE, test |-> <<>>, tval |-> FALSE, tnb |-> Nothing,
        \* the model
        model |-> FALSE, named |-> FALSE, held |-> FALSE, mread |-> FALSE, mnorm |-> FALSE, init |-> FALSE,
        lin |-> FALSE, lbox |-> FALSE, lread |-> FALSE, res |-> FALSE,
        tol |-> 0,
        file |-> [ok |-> TRUE, rows |-> <<>>]]

Rng(q) == {q[i] : i \in DOMAIN q}
Abs(x) == IF x < 0 THEN -x ELSE x
Restrict(q, I) == SubSeq([i \in 1..Len(I) |-> q[I[i]]], 1, Len(I))
\* the indices 1..n without those in V, ascending
RECURSIVE Rest(_, _, _)
Rest(i, n, V) == IF i > n THEN <<>> ELSE IF i \in V THEN Rest(i + 1, n, V) ELSE <<i>> \o Rest(i + 1, n, V)

---------------------------------------------------------------------------------
\* Observations
Inputs(rows, dim) == SubSeq([i \in 1..Len(rows) |-> SubSeq(rows[i], 1, dim)], 1, Len(rows))
NormRow(r, dim, b) == SubSeq([j \in 1..dim |-> ((r[j] - b.lb[j]) * L) \div ((b.ub[j] - b.lb[j]) * dim)], 1, dim)
Norm(rows, dim, b) == IF b = Nothing THEN Inputs(rows, dim) ELSE SubSeq([i \in 1..Len(rows) |-> NormRow(rows[i], dim, b)], 1, Len(rows))
Training(s) == Restrict(s.raw, s.train)
Validation(s) == Restrict(s.raw, s.valid)
Col(rows, j) == SubSeq([i \in 1..Len(rows) |-> rows[i][j]], 1, Len(rows))
X(s) == Norm(Training(s), s.dim, s.nb)
XValid(s) == Norm(Validation(s), s.dim, s.nb)
YValid(s) == Col(Validation(s), s.dim + 1)
XTest(s) == Norm(s.test, s.dim, s.tnb)
YTest(s) == Col(s.test, s.dim + 1)
Scale(b, dim, j) == (b.ub[j] - b.lb[j]) * dim
Gradient(s) == LET T == Training(s) IN
   SubSeq([i \in 1..Len(T) |-> SubSeq([j \in 1..s.dim |-> T[i][s.dim + 1 + j] * (IF s.nb = Nothing THEN 1 ELSE Scale(s.nb, s.dim, j))], 1, s.dim)], 1, Len(T))
DirDer(s) == LET T == Training(s) IN SubSeq([i \in 1..Len(T) |-> T[i][s.dim + 2] * (IF s.nb = Nothing THEN 1 ELSE Scale(s.nb, s.dim, 1))], 1, Len(T))
Directions(s) == LET T == Training(s) IN SubSeq([i \in 1..Len(T) |-> SubSeq(T[i], s.dim + 3, 2 * s.dim + 2)], 1, Len(T))
InBox(r, lb, ub) == \A j \in DOMAIN lb : lb[j] <= r[j] /\ r[j] <= ub[j]
Count(s, lb, ub) == Cardinality({i \in Rng(s.train) : InBox(s.raw[i], lb, ub)})

---------------------------------------------------------------------------------
\* Files
Width(f) == IF f.rows = <<>> THEN 0 ELSE Len(f.rows[1])
\* number of parameters of a file with training data, 0 if it cannot be such a file
FileDim(s, w) == IF s.grad THEN (IF w >= 3 /\ w % 2 = 1 THEN (w - 1) \div 2 ELSE 0)
                 ELSE IF s.dir THEN (IF w >= 4 /\ w % 2 = 0 THEN (w - 2) \div 2 ELSE 0)
                 ELSE IF w >= 2 THEN w - 1 ELSE 0
NumValid(s, f) == (s.ratio * Len(f.rows)) \div 8
Readable(s, f) == /\ ~(s.grad /\ s.dir)
                  /\ f.ok /\ f.rows # <<>>
                  /\ FileDim(s, Width(f)) > 0 /\ s.dim \in {0, FileDim(s, Width(f))}
                  /\ NumValid(s, f) < Len(f.rows)
\* valid: the rows held back for validation, in their order
Choices(s, f) == IF NumValid(s, f) = 0 THEN {<<>>} ELSE {v \in [1..NumValid(s, f) -> 1..Len(f.rows)] : \A a, b \in DOMAIN v : a # b => v[a] # v[b]}
IsChoice(s, f, v) == /\ Len(v) = NumValid(s, f) /\ \A i \in DOMAIN v : v[i] \in 1..Len(f.rows)
                     /\ \A a, b \in DOMAIN v : a # b => v[a] # v[b]
Load(s, f, v) == LET dim == FileDim(s, Width(f))
                     tr == Rest(1, Len(f.rows), Rng(v))
                 IN [s EXCEPT !.dim = dim, !.read = TRUE, !.raw = f.rows, !.g = s.grad, !.dd = s.dir, !.train = tr, !.valid = v,
                              !.y = Col(Restrict(f.rows, tr), dim + 1), !.nb = Nothing]
Normalizable(s) == /\ s.read /\ s.box # Nothing /\ Len(s.box.lb) = s.dim
                   /\ (s.grad => s.g) /\ (s.dir => s.dd)
Normalized(s) == [s EXCEPT !.nb = s.box]
Full(s) == LET all == Rest(1, Len(s.raw), {}) IN [s EXCEPT !.train = all, !.valid = <<>>, !.y = Col(s.raw, s.dim + 1), !.nb = s.box]
Readtest(s, f) == s.dim > 0 /\ f.ok /\ f.rows # <<>> /\ Width(f) \in {s.dim, s.dim + 1}

---------------------------------------------------------------------------------
\* Operations of the model
MReadable(s, f) == s.dim > 0 /\ s.named /\ Readable(s, f)
MRead(s, f, v) == [Load(s, f, v) EXCEPT !.mread = TRUE, !.mnorm = FALSE, !.init = FALSE, !.res = FALSE, !.lread = s.lin]
MNormalizable(s) == s.mread /\ Normalizable(s) /\ (s.lin => s.lbox /\ s.lread)
MNormalize(s) == [Normalized(s) EXCEPT !.mnorm = TRUE]
MInitable(s) == s.dim > 0 /\ s.mread /\ s.mnorm /\ (s.lin => s.lread /\ s.lbox)
\* with linear regression the outputs are replaced by residuals
MInit(s) == [s EXCEPT !.init = TRUE, !.res = s.lin]
Near(s, a, b) == \A j \in DOMAIN a : IF j <= s.dim THEN Abs(a[j] - b[j]) <= s.tol ELSE a[j] = b[j]
Updatable(s, f) == MReadable(s, f) /\ s.box # Nothing /\ Len(s.box.lb) = s.dim /\ (s.lin => s.lbox)
Update(s, f, v) == MInit(MNormalize(MRead(s, f, v)))

Yes(s) == [ok |-> TRUE, s |-> s]
No(s) == [ok |-> FALSE, s |-> s]
If(c, s, t) == IF c THEN Yes(t) ELSE No(s)
\* operations for which a witness (rows held back) is needed
ReadsFile(s, o) == o.op \in {"read", "update"} \/ (o.op = "add" /\ s.model)
FileAfter(s, o) == IF o.op = "add" THEN [s.file EXCEPT !.rows = Append(@, o.row)] ELSE IF o.op = "read" /\ ~s.model THEN o.file ELSE s.file
Do(s, o) ==
   CASE o.op = "dim" -> Yes([s EXCEPT !.dim = o.n])
     [] o.op = "grad" -> Yes([s EXCEPT !.grad = TRUE])
     [] o.op = "dir" -> Yes([s EXCEPT !.dir = TRUE])
     [] o.op = "ratio" -> IF o.n \in 0..8 THEN Yes([s EXCEPT !.ratio = o.n, !.held = s.model]) ELSE No(s)
     [] o.op = "box" -> IF ~s.model THEN Yes([s EXCEPT !.box = o.box])
                        ELSE IF s.dim > 0 /\ Len(o.box.lb) = s.dim THEN Yes([s EXCEPT !.box = o.box, !.lbox = @ \/ s.lin]) ELSE No(s)
     [] o.op = "name" -> Yes([s EXCEPT !.named = TRUE])
     [] o.op = "linear" -> Yes([s EXCEPT !.lin = TRUE])
     [] o.op = "file" -> Yes([s EXCEPT !.file = o.file])
     [] o.op = "read" -> IF s.model THEN (IF MReadable(s, s.file) THEN Yes(MRead(s, s.file, o.valid)) ELSE No(s))
                         ELSE (IF Readable(s, o.file) THEN Yes(Load(s, o.file, o.valid)) ELSE No(s))
     [] o.op = "normalize" -> IF s.model THEN (IF MNormalizable(s) THEN Yes(MNormalize(s)) ELSE No(s))
                              ELSE (IF Normalizable(s) THEN Yes(Normalized(s)) ELSE No(s))
     [] o.op = "revert" -> IF Normalizable(s) THEN Yes(Full(s)) ELSE No(s)
     [] o.op = "sety" -> IF s.read /\ Len(o.y) = Len(s.train) THEN Yes([s EXCEPT !.y = o.y]) ELSE No(s)
     [] o.op = "readtest" -> IF Readtest(s, o.file) THEN Yes([s EXCEPT !.tread = TRUE, !.test = o.file.rows, !.tval = (Width(o.file) = s.dim + 1), !.tnb = Nothing]) ELSE No(s)
     [] o.op = "normtest" -> IF s.tread /\ s.box # Nothing /\ Len(s.box.lb) = s.dim THEN Yes([s EXCEPT !.tnb = s.box]) ELSE No(s)
     [] o.op = "init" -> IF MInitable(s) THEN Yes(MInit(s)) ELSE No(s)
     [] o.op = "update" -> IF Updatable(s, s.file) THEN Yes(Update(s, s.file, o.valid)) ELSE No(s)
     [] o.op = "add" -> IF s.read /\ Len(o.row) = s.dim + 1 /\ s.box # Nothing /\ (s.lin => s.lbox)
                        THEN IF \E i \in DOMAIN s.raw : Near(s, s.raw[i], o.row) THEN Yes(s)
                             ELSE Yes(Update([s EXCEPT !.file = FileAfter(s, o)], FileAfter(s, o), o.valid))
                        ELSE No(s)
     [] o.op = "count" -> IF s.read THEN Yes(s) ELSE No(s)
     [] o.op = "tryout" -> IF s.init /\ s.tread /\ s.tnb # Nothing THEN Yes(s) ELSE No(s)
     [] o.op = "insample" -> IF s.init THEN Yes(s) ELSE No(s)
     \* training with the error of the samples held back needs such samples, and ends with the full data
     [] o.op = "train" -> IF s.init /\ (s.held => s.valid # <<>>) THEN Yes(IF s.held THEN Full(s) ELSE s) ELSE No(s)
===================================================================================
