--------------------------------- MODULE Training --------------------------------
(***************************************************************************)
(* Training of a surrogate model: every thread searches hyperparameters by *)
(* itself and completes at some time; a completed thread hands in the best *)
(* of its candidates.  Values are ranks, smaller is better; a candidate    *)
(* whose correlation matrix cannot be factorized has the value Fail, which *)
(* is worse than all others.  Afterwards the model has the parameters of   *)
(* one of the threads with the best value, and the data it had before.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES value,    \* thread -> value it hands in
          order,    \* threads in the order of completion
          chosen,   \* thread whose parameters are kept (0: none so far)
          data,     \* samples of the model
          status    \* "running", "done"
tvars == <<value, order, chosen, data, status>>
Threads == DOMAIN value
Done(t) == \E i \in DOMAIN order : order[i] = t
\* the best value of a set of threads
IsBestOf(t, S) == t \in S /\ \A u \in S : value[t] <= value[u]
HandIn(t) == /\ status = "running" /\ ~Done(t)
             /\ order' = Append(order, t)
             /\ chosen' = IF chosen = 0 \/ value[t] < value[chosen] THEN t ELSE chosen
             /\ UNCHANGED <<value, data, status>>
Complete == /\ status = "running" /\ Len(order) = Cardinality(Threads)
            /\ status' = "done" /\ UNCHANGED <<value, order, chosen, data>>

(* ---- properties ---- *)
BestSoFar == order # <<>> => IsBestOf(chosen, {order[i] : i \in DOMAIN order})
BestAtEnd == status = "done" => IsBestOf(chosen, Threads)
NoFailure(fail) == status = "done" => (value[chosen] = fail => \A t \in Threads : value[t] = fail)
===================================================================================
