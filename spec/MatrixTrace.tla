------------------------------- MODULE MatrixTrace ------------------------------
(* Recorded operations on real matrices and vectors: every step must be allowed. *)
EXTENDS Vector, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, s
tvars == <<t, l, s>>
T == Traces[t]
TInit == t \in DOMAIN Traces /\ l = 1 /\ s = Traces[t].init
Step ==
  /\ l <= Len(T.ev)
  /\ IF T.kind = "vector" THEN VAllowed(s, T.ev[l]) ELSE Allowed(s, T.ev[l])
  /\ s' = (IF T.fixed THEN T.init ELSE T.ev[l].m)   \* fixed: every operation starts from the initial state
  /\ l' = l + 1 /\ t' = t
Finish == l = Len(T.ev) + 1 /\ PrintT(<<"ACCEPTED", t>>) /\ UNCHANGED tvars
TNext == Step \/ Finish
TraceSpec == TInit /\ [][TNext]_tvars
Progress == PrintT(<<"AT", t, l>>)
=================================================================================
