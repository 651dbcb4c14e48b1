----------------------------- MODULE InnerSearchMC -----------------------------
(* Exhaustive exploration: every assignment of candidates to threads and every interleaving. *)
EXTENDS InnerSearch
CONSTANTS Threads, Vals, Inner
MCInit == \E n \in Inner, l \in BOOLEAN : SInit(n, l, Threads)
MCNext ==
  \/ \E t \in Threads, v \in Vals : Draw(t, v, v)
  \/ \E t \in Threads : Commit(t)
  \/ EndPhase
  \/ \E v \in Vals : Ascend(best, v, v)
  \/ pc = "done" /\ UNCHANGED svars
Spec == MCInit /\ [][MCNext]_svars /\ WF_svars(MCNext)
\* a candidate of equal value may be either
ArgSound == \A d \in arg : d = best
Terminates == <>(pc = "done")
================================================================================
