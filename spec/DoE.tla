----------------------------------- MODULE DoE -----------------------------------
(***************************************************************************)
(* A design of experiments with n samples of p parameters and nf functions *)
(* (the objective and the constraints).  The samples are chosen first      *)
(* (stratum of every sample in every parameter), then the functions are    *)
(* evaluated one after another at all samples in order, and the data file  *)
(* of a function takes exactly the evaluated rows.  An evaluation that     *)
(* fails ends everything.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES n, p, nf, latin, failAt, \* the request; failAt = <<function, sample>> or <<0, 0>>
          strata,                  \* sample -> parameter -> stratum
          calls,                   \* evaluations <<function, sample>>
          files,                   \* function -> rows: "old" content or samples
          status                   \* "new", "running", "done", "failed"
dvars == <<n, p, nf, latin, failAt, strata, calls, files, status>>

Old == <<-1>>
Stratified == \A j \in 1..p : \A s \in 0..(n - 1) : Cardinality({i \in 1..n : strata[i][j] = s}) = 1
Admissible == \A i \in 1..n : \A j \in 1..p : strata[i][j] \in 0..(n - 1)
\* what a run needs to start
Startable == n > 0

Choose(st) == /\ status = "new" /\ Startable /\ strata' = st
              /\ status' = "running" /\ UNCHANGED <<n, p, nf, latin, failAt, calls, files>>
Refuse == status = "new" /\ ~Startable /\ status' = "failed" /\ UNCHANGED <<n, p, nf, latin, failAt, strata, calls, files>>
\* the function and the sample of the next evaluation
NextF == (Len(calls) \div n) + 1
NextI == (Len(calls) % n) + 1
Evaluate == /\ status = "running" /\ Len(calls) < n * nf /\ <<NextF, NextI>> # failAt
            /\ calls' = Append(calls, <<NextF, NextI>>)
            /\ files' = [files EXCEPT ![NextF] = IF NextI = 1 THEN <<1>> ELSE Append(@, NextI)]
            /\ UNCHANGED <<n, p, nf, latin, failAt, strata, status>>
Fail == /\ status = "running" /\ Len(calls) < n * nf /\ <<NextF, NextI>> = failAt
        /\ calls' = Append(calls, failAt) /\ status' = "failed"
        /\ UNCHANGED <<n, p, nf, latin, failAt, strata, files>>
Complete == /\ status = "running" /\ Len(calls) = n * nf
            /\ status' = "done" /\ UNCHANGED <<n, p, nf, latin, failAt, strata, calls, files>>

(* ---- properties ---- *)
Whole == [i \in 1..n |-> i]
DoneComplete == status = "done" => /\ \A f \in 1..nf : files[f] = Whole
                                   /\ \A f \in 1..nf : \A i \in 1..n : Cardinality({k \in DOMAIN calls : calls[k] = <<f, i>>}) = 1
                                   /\ (latin => Stratified)
FailedStops == (status = "failed" /\ n > 0) => calls[Len(calls)] = failAt
RefusedNothing == (status = "failed" /\ n = 0) => calls = <<>> /\ \A f \in 1..nf : files[f] = Old
FilesPrefix == \A f \in 1..nf : files[f] = Old \/ files[f] = SubSeq(Whole, 1, Len(files[f]))
InOrder == \A a, b \in DOMAIN calls : a < b => calls[a][1] < calls[b][1] \/ (calls[a][1] = calls[b][1] /\ calls[a][2] < calls[b][2])
===================================================================================
