------------------------------ MODULE InnerSearch ------------------------------
(***************************************************************************)
(* The inner search of one iteration (Optimizer::findTheMostPromising-     *)
(* DesignEGO followed by maximizeAcqusitionFunctionGradientBased):         *)
(* a parallel loop over candidates in the search window, a second one      *)
(* around the incumbent (only if the incumbent lies in the box), then a    *)
(* sequential local ascent.  The candidates of a loop are distributed over *)
(* the threads; a thread computes the acquisition value of its candidate   *)
(* on its own (Draw) and then compares it with the shared best candidate   *)
(* and replaces it in one critical section (Commit).                       *)
(*                                                                         *)
(* Acquisition values are integers (ranks), designs are tokens.  NONE is a *)
(* value that is not a number: it is never better than anything.           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

NONE == 0

VARIABLES
  inner,      \* candidates per loop
  local,      \* does the second loop run?
  pc,         \* "phase1", "phase2", "searched", "done"
  drawn,      \* candidates drawn in the current phase
  hold,       \* hold[t]: candidate computed by thread t and not yet compared, or {} (set of records)
  best,       \* value of the shared best candidate
  arg,        \* designs a best candidate may be (ties)
  max,        \* history: largest value drawn so far
  result      \* [val, dv] after the ascent

svars == <<inner, local, pc, drawn, hold, best, arg, max, result>>
NoResult == [val |-> NONE, dv |-> 0]

SInit(n, l, T) ==
  /\ inner = n /\ local = l /\ pc = "phase1" /\ drawn = 0 /\ hold = [t \in T |-> {}]
  /\ best = NONE /\ arg = {} /\ max = NONE /\ result = NoResult

Searching == pc \in {"phase1", "phase2"}

Draw(t, v, dv) ==
  /\ Searching /\ hold[t] = {} /\ drawn < inner
  /\ hold' = [hold EXCEPT ![t] = {[val |-> v, dv |-> dv]}]
  /\ drawn' = drawn + 1
  /\ max' = IF v > max THEN v ELSE max
  /\ UNCHANGED <<inner, local, pc, best, arg, result>>

\* one critical section: comparison and replacement
Better(b, a, c) == IF c.val > b THEN <<c.val, {c.dv}>> ELSE IF c.val = b /\ b # NONE THEN <<b, a \cup {c.dv}>> ELSE <<b, a>>
Commit(t) ==
  /\ Searching /\ hold[t] # {}
  /\ LET c == CHOOSE x \in hold[t] : TRUE
         r == Better(best, arg, c)
     IN best' = r[1] /\ arg' = r[2]
  /\ hold' = [hold EXCEPT ![t] = {}]
  /\ UNCHANGED <<inner, local, pc, drawn, max, result>>

Idle == \A t \in DOMAIN hold : hold[t] = {}

\* implicit barrier at the end of a parallel loop
EndPhase ==
  /\ Searching /\ drawn = inner /\ Idle
  /\ pc' = IF pc = "phase1" /\ local THEN "phase2" ELSE "searched"
  /\ drawn' = 0
  /\ UNCHANGED <<inner, local, hold, best, arg, max, result>>

\* v: value of the design the ascent ends at, starting from design start
Ascend(start, v, dv) ==
  /\ pc = "searched"
  /\ arg # {} => start \in arg
  /\ v >= best
  /\ result' = [val |-> v, dv |-> dv]
  /\ pc' = "done"
  /\ UNCHANGED <<inner, local, drawn, hold, best, arg, max>>

\* P08
BestIsMax == pc \in {"searched", "done"} => best = max
ResultNotWorse == pc = "done" => result.val >= max
================================================================================
