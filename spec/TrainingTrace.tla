------------------------------ MODULE TrainingTrace ------------------------------
(***************************************************************************)
(* Recorded life of a model: operations with the samples afterwards; of a  *)
(* training also the candidates of the threads (value, value of the        *)
(* objective for these parameters, whether their factorization is safe),   *)
(* the order of completion and which thread's parameters the model has     *)
(* afterwards.                                                             *)
(***************************************************************************)
EXTENDS Training, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, file, effort
\* data: samples of the model in order; file: those of its data file; effort: candidates of a thread in a training with these settings
vars == <<tvars, t, l, file, effort>>
T == Traces[t]
E == T.ev
e == E[l]
TInit == /\ t \in DOMAIN Traces /\ l = 1 /\ file = <<>> /\ effort = 0
         /\ value = <<>> /\ order = <<>> /\ chosen = 0 /\ data = <<>> /\ status = "done"
Honest == \A i \in DOMAIN e.slots : LET s == e.slots[i] IN
   /\ ~e.faked => s.value = s.truth /\ s.value = s.least /\ (s.safe => s.value < e.fail)
   /\ \A j \in DOMAIN s.cands : LET c == s.cands[j] IN c.value = c.truth /\ (c.safe => c.value < e.fail) /\ (e.broken => c.value = e.fail)
   /\ (e.broken /\ ~e.faked => s.value = e.fail)
Values == SubSeq([i \in DOMAIN e.slots |-> e.slots[i].value], 1, Len(e.slots))
Searches == e.op = "train" /\ ~e.read
\* a sample which is close to one of the model (near) is discarded
FileAfter == CASE e.op = "model" -> <<>> [] e.op = "rows" -> e.rows [] e.op = "add" /\ ~e.near -> Append(file, e.row) [] OTHER -> file
DataAfter == CASE e.op = "model" -> <<>> [] e.op \in {"setup", "update", "add"} -> FileAfter [] OTHER -> data
Why == IF e.op \in {"setup", "train", "add", "reinit", "update"} /\ ~e.ok THEN "rejected"
       ELSE IF e.data # DataAfter THEN "samples"
       ELSE IF ~e.consistent THEN "inputs and outputs"
       ELSE IF e.op = "train" /\ ~e.same THEN "data changed by training"
       ELSE IF e.op = "train" /\ e.read /\ (e.slots # <<>> \/ ~e.loaded) THEN "parameters of the file"
       ELSE IF Searches /\ Len(e.slots) # e.threads THEN "threads"
       ELSE IF Searches /\ ~Honest THEN "training objective"
       ELSE IF Searches /\ ~e.formula THEN "likelihood"
       ELSE IF Searches /\ e.write /\ ~e.stored THEN "stored parameters"
       ELSE IF Searches /\ effort # 0 /\ (\E i \in DOMAIN e.slots : e.slots[i].count # effort) THEN "number of candidates"
       ELSE ""
Begin == /\ status = "done" /\ l <= Len(E) /\ (Searches /\ Why = "") = TRUE
         /\ value' = Values /\ order' = <<>> /\ chosen' = 0 /\ status' = "running"
         /\ UNCHANGED <<data, t, l, file, effort>>
Step == /\ status = "running" /\ Len(order) < Len(value) /\ HandIn(e.order[Len(order) + 1])
        /\ UNCHANGED <<t, l, file, effort>>
End == /\ Complete /\ (\E i \in DOMAIN e.slots : e.slots[i].final /\ e.slots[i].value = value[chosen]) = TRUE
       /\ effort' = e.slots[1].count /\ l' = l + 1 /\ UNCHANGED <<t, file>>
Other == /\ status = "done" /\ l <= Len(E) /\ (~Searches /\ Why = "") = TRUE
         /\ data' = DataAfter /\ file' = FileAfter /\ l' = l + 1 /\ t' = t
         /\ effort' = IF e.op \in {"threads", "iters", "model"} THEN 0 ELSE effort
         /\ UNCHANGED <<value, order, chosen, status>>
Finish == /\ l = Len(E) + 1 /\ BestAtEnd /\ PrintT(<<"ACCEPTED", t>>) /\ UNCHANGED vars
TNext == Begin \/ Step \/ End \/ Other \/ Finish
TraceSpec == TInit /\ [][TNext]_vars
Progress == PrintT(<<"AT", t, l, IF l <= Len(E) THEN (IF status = "running" THEN "selection" ELSE Why) ELSE "end">>)
===================================================================================
