-------------------------------- MODULE ApiTrace --------------------------------
(***************************************************************************)
(* Calls of the interface and what they did.  A cell of a file is          *)
(* <<text, text rounded to six decimals>>; x of an evaluation likewise,    *)
(* with lo <= 10000 x <= hi.                                               *)
(***************************************************************************)
EXTENDS Api, TLC, Json, FiniteSets
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, s
tvars == <<t, l, s>>
T == Traces[t]
E == T.steps[l]
Dirs == IF E.here = "" THEN {T.dirs[i] : i \in DOMAIN T.dirs} ELSE {}

Range(q) == {q[i] : i \in DOMAIN q}
Six(row) == [i \in DOMAIN row |-> row[i][2]]
Twelve(row) == [i \in DOMAIN row |-> row[i][1]]

(* ---- run ---- *)
R == E.run
Path(st, f) == IF st.cwd # "" THEN st.cwd \o "/" \o f ELSE IF E.here # "" THEN E.here \o "/" \o f ELSE f
Rows(files, p) == IF p \in DOMAIN files THEN files[p] ELSE <<>>
Cols(st) == [f \in {Functions(st)[i].file : i \in DOMAIN Functions(st)} |->
               LET r == Rows(R.before, Path(st, f)) IN IF r = <<>> THEN 0 ELSE IF \A i \in DOMAIN r : Len(r[i]) = Len(r[1]) THEN Len(r[1]) ELSE 0]
Perform(st) == Complete(st) /\ Runnable(st, LAMBDA f : Cols(st)[f])

Inside(st, c) == Len(c.x) = st.dim /\ \A i \in 1..st.dim : c.hi[i] >= 2500 * st.box.lb[i] /\ c.lo[i] <= 2500 * st.box.ub[i]
n0(st) == IF st.doe > 0 THEN st.doe ELSE 0
nf(st) == Len(Functions(st))
\* the DoE: the objective at all samples, then every constraint at the same samples in the same order
DoeOk(st) == LET n == n0(st) IN
  /\ Len(R.calls) >= n * nf(st)
  /\ \A i \in 1..n : \A k \in 1..nf(st) : LET c == R.calls[(k - 1) * n + i] IN c.fn = Functions(st)[k].fn /\ c.x = R.calls[i].x
\* the iterations: the objective and then every constraint at one design
LoopOk(st) == LET n == n0(st) * nf(st) IN
  /\ Len(R.calls) = n + st.budget * nf(st)
  /\ \A i \in 1..st.budget : \A k \in 1..nf(st) :
       LET c == R.calls[n + (i - 1) * nf(st) + k] IN c.fn = Functions(st)[k].fn /\ c.x = R.calls[n + (i - 1) * nf(st) + 1].x
BoxOk(st) == \A i \in DOMAIN R.calls : Inside(st, R.calls[i])
\* strata of a sample: an interval of possible ones because of rounding
Stratum(v, lb, ub, n) == ((v - 2500 * lb) * n) \div (2500 * (ub - lb))
Clear(st, i, j) == LET c == R.calls[i] n == st.doe IN Stratum(c.lo[j], st.box.lb[j], st.box.ub[j], n) = Stratum(c.hi[j], st.box.lb[j], st.box.ub[j], n)
Stratified(st) == \A j \in 1..st.dim : \A a, b \in 1..st.doe :
   (a # b /\ Clear(st, a, j) /\ Clear(st, b, j)) =>
      Stratum(R.calls[a].lo[j], st.box.lb[j], st.box.ub[j], st.doe) # Stratum(R.calls[b].lo[j], st.box.lb[j], st.box.ub[j], st.doe)
StrataOk(st) == (st.doe > 0 /\ st.strategy = "lhs") => Stratified(st)

\* row that belongs to an evaluation
RowOf(c) == c.x \o <<c.v>>
RECURSIVE Match(_, _)
Match(rows, calls) ==      \* a sample that coincides with a stored one may be left out
  IF calls = <<>> THEN rows = <<>>
  ELSE \/ rows # <<>> /\ Twelve(Head(rows)) = Twelve(RowOf(Head(calls))) /\ Match(Tail(rows), Tail(calls))
       \/ Head(calls).near /\ Match(rows, Tail(calls))
CallsOf(st, k, from, n) == [i \in 1..n |-> R.calls[from + (IF from = 0 THEN (k - 1) * n + i ELSE (i - 1) * nf(st) + k)]]
Initial(st, k) == IF st.doe > 0 THEN [i \in 1..st.doe |-> RowOf(R.calls[(k - 1) * st.doe + i])]
                  ELSE Rows(R.before, Path(st, Functions(st)[k].file))
Later(st, k) == [i \in 1..st.budget |-> R.calls[n0(st) * nf(st) + (i - 1) * nf(st) + k]]
FilesOk(st) == \A k \in 1..nf(st) :
  LET rows == Rows(R.after, Path(st, Functions(st)[k].file)) ini == Initial(st, k) IN
  /\ Len(rows) >= Len(ini)
  /\ \A i \in DOMAIN ini : Twelve(rows[i]) = Twelve(ini[i])
  /\ Match(SubSeq(rows, Len(ini) + 1, Len(rows)), Later(st, k))
Own(st) == {Path(st, Functions(st)[k].file) : k \in 1..nf(st)}
OthersOk(st) == \A p \in DOMAIN R.before : p \notin Own(st) => p \in DOMAIN R.after /\ R.after[p] = R.before[p]

Columns(st) == [i \in 1..st.dim |-> "x" \o ToString(i)] \o <<"Objective">>
HistoryOk(st) ==
  LET ini == Initial(st, 1) d == st.dim H == R.history IN
  /\ Len(R.header) = d + 3 + Len(st.cons)
  /\ SubSeq(R.header, 1, d + 1) = Columns(st)
  /\ \A i \in DOMAIN st.cons : R.chars[i] = st.cons[i].def.name
  /\ Len(H) = Len(ini) + st.budget
  /\ \A i \in DOMAIN ini : SubSeq(Six(H[i]), 1, d + 1) = Six(ini[i])
  /\ \A i \in 1..st.budget :
       LET h == H[Len(ini) + i] IN
       /\ SubSeq(Six(h), 1, d + 1) = Six(RowOf(Later(st, 1)[i]))
       /\ \A k \in DOMAIN st.cons : h[d + 1 + k][2] = Later(st, k + 1)[i].v[2]
       /\ (h[Len(h)][2] = "1.000000") = (\A k \in DOMAIN st.cons : Meets(st.cons[k].def, Later(st, k + 1)[i].n))

NameOk(st) == R.problem = "" \/ R.problem = st.name
Steps == <<"success", "DoE", "iterations", "box", "strata", "data files", "other files", "history", "name">>
Good(st, i) ==
  CASE Steps[i] = "success" -> R.ok
    [] Steps[i] = "DoE" -> DoeOk(st)
    [] Steps[i] = "iterations" -> LoopOk(st)
    [] Steps[i] = "box" -> BoxOk(st)
    [] Steps[i] = "strata" -> StrataOk(st)
    [] Steps[i] = "data files" -> FilesOk(st)
    [] Steps[i] = "other files" -> OthersOk(st)
    [] Steps[i] = "history" -> HistoryOk(st)
    [] Steps[i] = "name" -> NameOk(st)
RunOk(st) == IF Perform(st) THEN \A i \in DOMAIN Steps : Good(st, i)
             ELSE ~R.ok /\ R.calls = <<>> /\ R.after = R.before
Usable(st) == IF Complete(st) THEN Distinct(st) /\ SeparateNames(st) ELSE TRUE

TInit == t \in DOMAIN Traces /\ l = 1 /\ s = Nothing
Step == /\ l <= Len(T.steps)
        /\ IF E.call.op = "run" THEN Usable(s) /\ RunOk(s) /\ s' = s
           ELSE E.ok = Accepts(s, E.call, Dirs) /\ s' = AfterCall(s, E.call, Dirs)
        /\ IF (IF E.call.op = "run" THEN IF Perform(s) THEN s.doe >= 4 /\ s.strategy = "random" ELSE FALSE ELSE FALSE) THEN PrintT(<<"RANDOM", t, Stratified(s)>>) ELSE TRUE
        /\ l' = l + 1 /\ t' = t
\* a study whose functions share a file or a name is none: nothing is said about what follows
GiveUp == l <= Len(T.steps) /\ E.call.op = "run" /\ ~Usable(s) /\ l' = Len(T.steps) + 1 /\ UNCHANGED <<t, s>>
Finish == l = Len(T.steps) + 1 /\ PrintT(<<"ACCEPTED", t>>) /\ UNCHANGED tvars
TNext == Step \/ GiveUp \/ Finish
TraceSpec == TInit /\ [][TNext]_tvars
Why == IF l > Len(T.steps) THEN "end"
       ELSE IF E.call.op # "run" THEN (IF E.ok THEN "accepted call" ELSE "rejected call")
       ELSE IF ~Perform(s) THEN "run that must not start"
       ELSE IF \A i \in DOMAIN Steps : Good(s, i) THEN "ok" ELSE Steps[CHOOSE i \in DOMAIN Steps : ~Good(s, i) /\ \A j \in 1..(i - 1) : Good(s, j)]
Progress == PrintT(<<"AT", t, l, Why>>)
===================================================================================
