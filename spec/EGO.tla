---------------------------------- MODULE EGO ----------------------------------
(***************************************************************************)
(* The optimization loop of RoDeO: one action per step of an iteration of  *)
(* Optimizer::performEfficientGlobalOptimizationOnlyWithFunctionalValues,  *)
(* its initialization from training data, and what survives a crash.       *)
(*                                                                         *)
(* Designs are tokens (integers), objective and constraint values are      *)
(* integers.  An improvement of v is written SCALE*v so that the "tiny     *)
(* positive" improvement of the first feasible design, EPS, stays smaller. *)
(* The length of the trust region is an integer in units of 1e-9.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MISS  == 1000000001      \* no recorded constraint value
NOREF == 1000000002      \* no feasible reference value yet
EPS   == 1
SCALE == 1000
LEN0   == 800000000
LENMAX == 1000000000
LENMIN == 3906250        \* 2^-8

VARIABLES
  cfg,      \* [nc, budget, retrain, op, thr, stol, ftol]: constant during a run
  pc,       \* next step of the loop
  k,        \* next constraint to be stored (pc = "storecon")
  iter,     \* iterations started
  cur,      \* design being processed: [dv, obj, con, feas, imp]
  hist,     \* optimization history (sequence of rows)
  nInit,    \* number of initial samples
  ref,      \* reference value of the improvement
  best,     \* index of the incumbent in hist
  len, succ, fail,      \* trust region
  grow, bestDelta,      \* exploration multiplier (1.01^grow) and largest improvement step
  data, cdata,          \* training data of the objective and of each constraint
  trained               \* iterations in which the surrogates were trained

vars == <<cfg, pc, k, iter, cur, hist, nInit, ref, best, len, succ, fail, grow, bestDelta, data, cdata, trained>>

Cons == 1..cfg.nc
NoDesign == [dv |-> 0, obj |-> 0, con |-> <<>>, feas |-> FALSE, imp |-> 0]

--------------------------------------------------------------------------------
(* Verdicts *)

Holds(c, v) == v # MISS /\ IF cfg.op[c] = "<" THEN v < cfg.thr[c] ELSE v > cfg.thr[c]
Feasible(con) == \A c \in Cons : Holds(c, con[c])
InitFeasible(row) == IF cfg.nc = 0 THEN TRUE ELSE row.inbox /\ Feasible(row.con)

FeasRows(h) == {i \in DOMAIN h : h[i].feas}
BestSet(h) ==   \* the admissible incumbents (a singleton as soon as a row is feasible)
  LET F == FeasRows(h) IN
  IF F # {} THEN {i \in F : \A j \in F : h[i].obj < h[j].obj \/ (h[i].obj = h[j].obj /\ i <= j)}
            ELSE {i \in DOMAIN h : \A j \in DOMAIN h : h[i].obj <= h[j].obj}

MinObj(h, S) == h[CHOOSE i \in S : \A j \in S : h[i].obj <= h[j].obj].obj
InitRef(h) == LET F == FeasRows(h) IN IF F = {} THEN NOREF ELSE MinObj(h, F)

ImprovementOf(feas, obj, r) ==
  IF ~feas THEN 0 ELSE IF r = NOREF THEN EPS ELSE IF obj < r THEN SCALE*(r - obj) ELSE 0
RefAfter(feas, obj, r) == IF feas /\ r = NOREF THEN obj ELSE r

--------------------------------------------------------------------------------
(* Initialization from training data.  rows: [dv, obj, con, inbox] *)

HistoryOf(rows) ==
  [i \in DOMAIN rows |-> [dv |-> rows[i].dv, obj |-> rows[i].obj, con |-> rows[i].con,
                          feas |-> InitFeasible(rows[i]), imp |-> 0]]

\* constraint values are matched to the objective samples by design
Lookup(cd, c, dv) ==
  LET S == {i \in DOMAIN cd[c] : cd[c][i].dv = dv}
  IN IF S = {} THEN MISS ELSE cd[c][CHOOSE i \in S : \A j \in S : i <= j].val
RowsOf(d, cd, inbox(_)) ==
  [i \in DOMAIN d |-> [dv |-> d[i].dv, obj |-> d[i].val,
                       con |-> [c \in Cons |-> Lookup(cd, c, d[i].dv)], inbox |-> inbox(d[i].dv)]]

InitializeWith(h, r, B) ==
  /\ pc = "init"
  /\ hist' = h
  /\ nInit' = Len(h)
  /\ ref' = r
  /\ best' \in B
  /\ iter' = 0 /\ cur' = NoDesign /\ len' = LEN0 /\ succ' = 0 /\ fail' = 0 /\ grow' = 0 /\ bestDelta' = 0
  /\ trained' = <<>>
  /\ pc' = "begin"
  /\ UNCHANGED <<cfg, k, data, cdata>>
Initialize(rows) == LET h == HistoryOf(rows) IN InitializeWith(h, InitRef(h), BestSet(h))

--------------------------------------------------------------------------------
(* One iteration *)

TrainNow(i) == IF cfg.retrain <= 1 THEN TRUE ELSE i % cfg.retrain = 1

Begin ==
  /\ pc = "begin"
  /\ iter' = iter + 1
  /\ pc' = IF TrainNow(iter + 1) THEN "train" ELSE "propose"
  /\ UNCHANGED <<cfg, k, cur, hist, nInit, ref, best, len, succ, fail, grow, bestDelta, data, cdata, trained>>

Train ==
  /\ pc = "train"
  /\ trained' = Append(trained, iter)
  /\ pc' = "propose"
  /\ UNCHANGED <<cfg, k, iter, cur, hist, nInit, ref, best, len, succ, fail, grow, bestDelta, data, cdata>>

Propose(dv) ==
  /\ pc = "propose"
  /\ cur' = [NoDesign EXCEPT !.dv = dv]
  /\ pc' = "objective"
  /\ UNCHANGED <<cfg, k, iter, hist, nInit, ref, best, len, succ, fail, grow, bestDelta, data, cdata, trained>>

EvaluateObjective(v) ==
  /\ pc = "objective"
  /\ cur' = [cur EXCEPT !.obj = v]
  /\ pc' = IF cfg.nc > 0 THEN "constraints" ELSE "assess"
  /\ UNCHANGED <<cfg, k, iter, hist, nInit, ref, best, len, succ, fail, grow, bestDelta, data, cdata, trained>>

NextCon == Len(cur.con) + 1
EvaluateConstraint(v) ==
  /\ pc = "constraints"
  /\ cur' = [cur EXCEPT !.con = Append(@, v)]
  /\ pc' = IF Len(cur.con) + 1 = cfg.nc THEN "assess" ELSE "constraints"
  /\ UNCHANGED <<cfg, k, iter, hist, nInit, ref, best, len, succ, fail, grow, bestDelta, data, cdata, trained>>

AssessWith(f, imp, r) ==
  /\ pc = "assess"
  /\ cur' = [cur EXCEPT !.feas = f, !.imp = imp]
  /\ ref' = r
  /\ pc' = "store"
  /\ UNCHANGED <<cfg, k, iter, hist, nInit, best, len, succ, fail, grow, bestDelta, data, cdata, trained>>
Assess ==
  LET f == Feasible(cur.con) IN AssessWith(f, ImprovementOf(f, cur.obj, ref), RefAfter(f, cur.obj, ref))

\* a failing evaluation ends the run; nothing of the design is kept
Fault ==
  /\ pc \in {"objective", "constraints"}
  /\ pc' = "failed"
  /\ UNCHANGED <<cfg, k, iter, cur, hist, nInit, ref, best, len, succ, fail, grow, bestDelta, data, cdata, trained>>

\* discard: the sample coincides with a stored one
StoreObjective(discard) ==
  /\ pc = "store"
  /\ data' = IF discard THEN data ELSE Append(data, [dv |-> cur.dv, val |-> cur.obj])
  /\ pc' = IF cfg.nc > 0 THEN "storecon" ELSE "record"
  /\ k' = 1
  /\ UNCHANGED <<cfg, iter, cur, hist, nInit, ref, best, len, succ, fail, grow, bestDelta, cdata, trained>>

StoreConstraint(c, discard) ==
  /\ pc = "storecon" /\ k = c
  /\ cdata' = IF discard THEN cdata ELSE [cdata EXCEPT ![c] = Append(@, [dv |-> cur.dv, val |-> cur.con[c]])]
  /\ pc' = IF c = cfg.nc THEN "record" ELSE "storecon"
  /\ k' = c + 1
  /\ UNCHANGED <<cfg, iter, cur, hist, nInit, ref, best, len, succ, fail, grow, bestDelta, data, trained>>

Record ==
  /\ pc = "record"
  /\ hist' = Append(hist, cur)
  /\ pc' = "region"
  /\ UNCHANGED <<cfg, k, iter, cur, nInit, ref, best, len, succ, fail, grow, bestDelta, data, cdata, trained>>

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Succeeded == cur.imp > hist[best].imp
Delta == cur.imp - hist[best].imp

\* "more than a tenth"; the reference arithmetic is floating point, so exact ties may go either way
ResetChoices(d, b) ==
  (IF 10*d > b - 20 THEN {TRUE} ELSE {}) \cup (IF 10*d < b + 20 THEN {FALSE} ELSE {})

UpdateRegion(reset) ==
  /\ pc = "region"
  /\ IF Succeeded
     THEN /\ fail' = 0
          /\ IF succ + 1 = cfg.stol
             THEN succ' = 0 /\ len' = Min(2*len, LENMAX)
             ELSE succ' = succ + 1 /\ len' = len
          /\ bestDelta' = Max(bestDelta, Delta)
          /\ reset \in ResetChoices(Delta, bestDelta')
     ELSE /\ succ' = 0
          /\ IF fail + 1 = cfg.ftol
             THEN fail' = 0 /\ len' = Max(len \div 2, LENMIN)
             ELSE fail' = fail + 1 /\ len' = len
          /\ bestDelta' = bestDelta
          /\ reset = FALSE
  /\ grow' = IF reset THEN 1 ELSE grow + 1
  /\ pc' = "best"
  /\ UNCHANGED <<cfg, k, iter, cur, hist, nInit, ref, best, data, cdata, trained>>

UpdateBestFrom(B) ==
  /\ pc = "best"
  /\ best' \in B
  /\ pc' = IF iter >= cfg.budget THEN "done" ELSE "begin"
  /\ UNCHANGED <<cfg, k, iter, cur, hist, nInit, ref, len, succ, fail, grow, bestDelta, data, cdata, trained>>
UpdateBest == UpdateBestFrom(BestSet(hist))

\* the process dies: only the training data files survive
Crash ==
  /\ pc \notin {"done", "failed", "init"}
  /\ pc' = "init"
  /\ UNCHANGED <<cfg, k, iter, cur, hist, nInit, ref, best, len, succ, fail, grow, bestDelta, data, cdata, trained>>

--------------------------------------------------------------------------------
(* Properties (P01-P06, P10, P11, P19) *)

Running == pc # "init"

\* P01
BudgetRespected ==
  Running => /\ iter <= cfg.budget
             /\ pc = "done" => iter = cfg.budget
             /\ Len(hist) = nInit + (IF pc \in {"region", "best", "begin", "done"} THEN iter ELSE Max(iter - 1, 0))

\* P03
FeasibilityStrict ==
  Running => \A i \in DOMAIN hist : hist[i].feas =>
               \A c \in Cons : hist[i].con[c] # MISS /\ Holds(c, hist[i].con[c])

\* P04
BestIsBest ==
  pc \in {"begin", "done"} =>
    /\ best \in BestSet(hist)
    /\ hist[best].feas = (FeasRows(hist) # {})

\* P05: the reference is a function of the history
RefOf(h, n) ==
  LET F == {i \in 1..n : h[i].feas}  G == {i \in DOMAIN h : i > n /\ h[i].feas}
  IN IF F # {} THEN MinObj(h, F)
     ELSE IF G # {} THEN h[CHOOSE i \in G : \A j \in G : i <= j].obj ELSE NOREF
ImprovementSound ==
  pc \in {"begin", "done"} =>
    /\ ref = RefOf(hist, nInit)
    /\ \A i \in DOMAIN hist :
         /\ i <= nInit => hist[i].imp = 0
         /\ hist[i].imp > 0 => hist[i].feas /\ (hist[i].obj < ref \/ hist[i].imp = EPS)
         /\ i > nInit /\ hist[i].feas /\ hist[i].obj < ref => hist[i].imp = SCALE*(ref - hist[i].obj)
IncumbentMonotone ==   \* once feasible the incumbent stays feasible and its objective never increases
  [][(pc # "init" /\ pc' # "init" /\ best' # 0 /\ best # 0) =>
       (hist[best].feas => hist'[best'].feas /\ hist'[best'].obj <= hist[best].obj)]_vars

\* P06
RegionBounded ==
  Running => len \in LENMIN..LENMAX /\ succ \in 0..(cfg.stol - 1) /\ fail \in 0..(cfg.ftol - 1) /\ (succ = 0 \/ fail = 0)

\* P02
HistoryAppendOnly ==
  [][(pc # "init" /\ pc' # "init") => (Len(hist') >= Len(hist) /\ SubSeq(hist', 1, Len(hist)) = hist)]_vars

\* P10
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
DataAppendOnly ==
  [][/\ IsPrefixOf(data, data') /\ Len(data') <= Len(data) + 1
     /\ \A c \in Cons : IsPrefixOf(cdata[c], cdata'[c]) /\ Len(cdata'[c]) <= Len(cdata[c]) + 1]_vars
HistoryIsStored ==
  pc \in {"begin", "done", "region", "best"} =>
    \A i \in DOMAIN hist :
      /\ \E m \in DOMAIN data : data[m].dv = hist[i].dv /\ data[m].val = hist[i].obj
      /\ i > nInit => \A c \in Cons : \E m \in DOMAIN cdata[c] : cdata[c][m].dv = hist[i].dv /\ cdata[c][m].val = hist[i].con[c]

\* P19
TrainedOnSchedule ==
  pc \in {"propose", "objective", "done"} =>
    {trained[m] : m \in DOMAIN trained} = {i \in 1..iter : TrainNow(i)}
================================================================================
