--------------------------------- MODULE DoETrace --------------------------------
(***************************************************************************)
(* Recorded designs of experiments: the evaluations with their designs and *)
(* strata, the rows of the data files afterwards, and matrices filled with *)
(* samples directly.                                                       *)
(***************************************************************************)
EXTENDS DoE, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l
tvars == <<dvars, t, l>>
T == Traces[t]
C == T.calls
Rng(q) == {q[i] : i \in DOMAIN q}
TInit == /\ t \in DOMAIN Traces /\ l = 1
         /\ n = T.n /\ p = T.p /\ nf = T.nf /\ latin = T.latin /\ failAt = T.fail
         /\ strata = <<>> /\ calls = <<>> /\ files = SubSeq([f \in 1..nf |-> Old], 1, nf) /\ status = "new"
\* the samples are those at which the objective is evaluated
TChoose == /\ l = 1 /\ T.kind # "fill"
           /\ Choose(SubSeq([i \in 1..n |-> IF i <= Len(C) THEN C[i].strata ELSE <<>>], 1, n))
           /\ l' = 2 /\ t' = t
Known == [i \in 1..n |-> i <= Len(C)]
\* every parameter has at most one of the samples in a stratum
Spread == \A j \in 1..p : \A a, b \in {i \in 1..n : i <= Len(C)} : a # b => C[a].strata[j] # C[b].strata[j]
SamplesOk == /\ \A i \in DOMAIN C : Len(C[i].x) = p /\ C[i].inside
             /\ latin => Spread
TEvaluate == /\ l >= 2 /\ l - 1 <= Len(C) /\ status = "running"
             /\ LET c == C[l - 1] IN
                /\ c.f = NextF /\ c.x = C[NextI].x
                /\ IF c.fail THEN Fail ELSE Evaluate
             /\ l' = l + 1 /\ t' = t
\* rows of the data files
FileOk(f) == LET rows == T.files[f] IN
   IF status = "done"
   THEN Len(rows) = n /\ \A i \in 1..n : rows[i] = C[(f - 1) * n + i].row
   ELSE TRUE
HistoryOk == Len(T.history) = n /\ \A i \in 1..n : T.history[i] = C[i].shown
TComplete == /\ l = Len(C) + 2 /\ status = "running" /\ T.kind # "fill"
             /\ Complete /\ l' = l + 1 /\ t' = t
Finish == /\ \/ status = "done" /\ l = Len(C) + 3 /\ T.reached /\ (SamplesOk /\ (\A f \in 1..nf : FileOk(f)) /\ HistoryOk) = TRUE
             \/ status = "failed" /\ n > 0 /\ l = Len(C) + 2 /\ T.failed /\ ~T.reached /\ SamplesOk = TRUE
             \/ T.kind = "fill" /\ Len(C) = n /\ SamplesOk = TRUE
          /\ PrintT(<<"ACCEPTED", t>>) /\ UNCHANGED tvars
TRefuse == /\ T.kind # "fill" /\ n = 0 /\ status = "new" /\ Refuse /\ UNCHANGED <<t, l>>
FinishRefused == status = "failed" /\ n = 0 /\ C = <<>> /\ T.failed /\ T.untouched /\ PrintT(<<"ACCEPTED", t>>) /\ UNCHANGED tvars
TNext == TChoose \/ TEvaluate \/ TComplete \/ TRefuse \/ Finish \/ FinishRefused
TraceSpec == TInit /\ [][TNext]_tvars
Progress == PrintT(<<"AT", t, l, IF status = "done" THEN (IF ~SamplesOk THEN "samples" ELSE IF ~(\A f \in 1..nf : FileOk(f)) THEN "data files" ELSE "history") ELSE status>>)
===================================================================================
