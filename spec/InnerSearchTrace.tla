--------------------------- MODULE InnerSearchTrace ----------------------------
(* Validation of recorded searches.  A trace is one search: its configuration, the candidates   *)
(* (thread, phase, value, design, inside the window?), the result, the ascent and the proposal. *)
EXTENDS InnerSearch, Sequences, TLC, Json

CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, rest
tvars == <<svars, t, l, rest>>
T == Traces[t]
C == T.cands

TInit ==
  /\ t \in DOMAIN Traces
  /\ SInit(T.inner, T.local, {0})
  /\ l = 1 /\ rest = "search"

\* Draw and Commit of one candidate; which thread it was does not matter for the result
TCandidate ==
  /\ rest = "search" /\ l <= Len(C) /\ Searching /\ drawn < inner
  /\ C[l].phase = (IF pc = "phase1" THEN 1 ELSE 2)
  /\ C[l].inwin
  /\ LET r == Better(best, arg, [val |-> C[l].val, dv |-> C[l].dv])
     IN best' = r[1] /\ arg' = r[2]
  /\ drawn' = drawn + 1 /\ max' = IF C[l].val > max THEN C[l].val ELSE max
  /\ l' = l + 1
  /\ UNCHANGED <<inner, local, pc, hold, result, t, rest>>
TEndPhase == rest = "search" /\ EndPhase /\ UNCHANGED <<t, l, rest>>
TSearched ==
  /\ rest = "search" /\ pc = "searched" /\ l = Len(C) + 1
  /\ best = T.searched.val
  /\ arg # {} => T.searched.dv \in arg
  /\ rest' = "ascent"
  /\ UNCHANGED <<svars, t, l>>
TAscent ==
  /\ rest = "ascent"
  /\ T.ascent.start = T.searched.dv
  /\ T.ascent.before <= T.ascent.after
  /\ T.ascent.inwin
  /\ Ascend(T.ascent.start, T.ascent.after, T.ascent.dv)
  /\ rest' = "proposal"
  /\ UNCHANGED <<t, l>>
\* the design that goes on to be evaluated is the one the ascent ended at
TProposal ==
  /\ rest = "proposal" /\ T.proposal = result.dv
  /\ rest' = "end" /\ UNCHANGED <<svars, t, l>>
Finish == rest = "end" /\ PrintT(<<"ACCEPTED", t>>) /\ UNCHANGED tvars
TNext == TCandidate \/ TEndPhase \/ TSearched \/ TAscent \/ TProposal \/ Finish
TraceSpec == TInit /\ [][TNext]_tvars
Progress == PrintT(<<"AT", t, l, rest, drawn>>)
================================================================================
