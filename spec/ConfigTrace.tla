-------------------------------- MODULE ConfigTrace -------------------------------
(* What the program did with a configuration file: rejected it, or ran with certain settings. *)
EXTENDS Config, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l
tvars == <<t, l>>
T == Traces[t]
O == T.obs
Set == Settings(T.doc)
Abs(n) == IF n < 0 THEN -n ELSE n

\* [name |-> condition]
RejectedOk == O.failed /\ O.calls = <<>> /\ O.untouched
ObjectiveColumn == <<"O","b","j","e","c","t","i","v","e">>
NamesOk == O.header = [i \in 1..Set.dim |-> Set.params[i].name] \o <<ObjectiveColumn>> \o [i \in DOMAIN Set.cons |-> Set.cons[i].fn.name]
ProblemNameOk == (Set.name # <<>> /\ O.problem # <<>>) => O.problem = Set.name
BudgetOk == O.recorded = Set.budget
\* the executables, in the order of the constraints, once per evaluation, each with a design in its file
Functions == <<Set.obj>> \o [i \in DOMAIN Set.cons |-> Set.cons[i].fn]
Called == SelectSeq(Functions, LAMBDA f : f.exe # <<>>)
CallsOk == /\ Len(O.calls) = Set.budget * Len(Called)
           /\ \A i \in DOMAIN O.calls : LET f == Called[((i - 1) % Len(Called)) + 1] IN O.calls[i].exe = f.exe /\ O.calls[i].clean
DataOk == \A i \in DOMAIN Functions : O.coincide \/ O.appended[i] = Set.budget
TrainingOk == /\ Len(O.models) = Len(Functions)
              /\ \A i \in DOMAIN O.models :
                   /\ Functions[i].iters # 0 => O.models[i].iterations = Functions[i].iters
                   /\ O.models[i].linear = Functions[i].linear
SearchOk == \A i \in DOMAIN O.searched :
              /\ Set.inner # 0 => O.searched[i].inner = Set.inner /\ O.searched[i].first = Set.inner /\ O.searched[i].second \in {0, Set.inner}
              /\ Set.threads # 0 => O.searched[i].team = Set.threads
\* the box: designs are the image of normalized ones, discrete coordinates lie on the grid
BoxOk == \A i \in DOMAIN O.designs : \A j \in 1..Set.dim :
           LET p == Set.params[j] d == O.designs[i][j] w == p.ub - p.lb IN
           /\ d.x >= p.lb /\ d.x <= p.ub
           /\ IF p.inc = 0 THEN Abs(d.x - p.lb - (d.t * w) \div 10000) <= 2 + w \div 10000
              ELSE (d.x - p.lb) % p.inc = 0
\* initial samples just below, at and above the thresholds
Meets(c, side) == IF c.op = "<" THEN side < 0 ELSE side > 0
FeasibleOk == \A i \in DOMAIN O.initial : O.initial[i].feasible = (\A c \in DOMAIN Set.cons : Meets(Set.cons[c], O.initial[i].sides[c]))

Steps == <<"accepted", "names", "problem name", "budget", "executables and design files", "training data files", "training", "search", "box", "feasibility">>
Good(i) ==
  IF ~Valid(T.doc) THEN RejectedOk
  ELSE CASE Steps[i] = "accepted" -> ~O.failed
         [] Steps[i] = "names" -> NamesOk
         [] Steps[i] = "problem name" -> ProblemNameOk
         [] Steps[i] = "budget" -> BudgetOk
         [] Steps[i] = "executables and design files" -> CallsOk
         [] Steps[i] = "training data files" -> DataOk
         [] Steps[i] = "training" -> TrainingOk
         [] Steps[i] = "search" -> SearchOk
         [] Steps[i] = "box" -> BoxOk
         [] Steps[i] = "feasibility" -> FeasibleOk
TInit == t \in DOMAIN Traces /\ l = 1
Step == l <= Len(Steps) /\ Good(l) /\ l' = l + 1 /\ t' = t
Finish == l = Len(Steps) + 1 /\ PrintT(<<"ACCEPTED", t>>) /\ UNCHANGED tvars
TNext == Step \/ Finish
TraceSpec == TInit /\ [][TNext]_tvars
Progress == PrintT(<<"AT", t, l, IF Valid(T.doc) THEN IF l <= Len(Steps) THEN Steps[l] ELSE "end" ELSE "rejection">>)
===================================================================================
