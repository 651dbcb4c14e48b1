---------------------------------- MODULE External --------------------------------
(***************************************************************************)
(* Evaluation of designs by executables: for every function the design is  *)
(* written to its design vector file, a left-over output is removed, the   *)
(* executable is started, and its output is read.  Functions are numbered  *)
(* 1 (objective), 2.. (constraints).  Designs are numbers, 0 is none.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* what an executable does when it is called
Good == {"ok"}
CannotStart == {"nox", "gone"}
BadStatus == {"exit", "killed"}
NoNumber == {"nofile", "empty", "garbage"}
Kinds == Good \cup CannotStart \cup BadStatus \cup NoNumber
NONE == 1000000007     \* nothing readable

VARIABLES nf, budget, clear, shared,       \* constant during a run
          pc, it, f, design, dfile, ofile, calls, got, rec, own
vars == <<nf, budget, clear, shared, pc, it, f, design, dfile, ofile, calls, got, rec, own>>
const == <<nf, budget, clear, shared>>

Start(n, b, c, s, old) ==
  /\ nf = n /\ budget = b /\ clear = c /\ shared = s
  /\ pc = "propose" /\ it = 0 /\ f = 1 /\ design = 0
  /\ dfile = [i \in 1..n |-> 0] /\ ofile = old
  /\ calls = [i \in 1..n |-> 0] /\ got = <<>> /\ rec = <<>> /\ own = <<>>

Propose(d) ==
  /\ pc = "propose" /\ it < budget
  /\ it' = it + 1 /\ design' = d /\ f' = 1 /\ got' = <<>> /\ own' = <<>> /\ pc' = "write"
  /\ UNCHANGED <<const, dfile, ofile, calls, rec>>
WriteDesign ==
  /\ pc = "write"
  /\ dfile' = [i \in 1..nf |-> IF shared \/ i = f THEN design ELSE dfile[i]]
  /\ ofile' = (IF clear THEN [ofile EXCEPT ![f] = NONE] ELSE ofile)
  /\ pc' = "launch"
  /\ UNCHANGED <<const, it, f, design, calls, got, rec, own>>
\* the executable does what the environment chose: v is the number it computes
Launch(kind, v) ==
  /\ pc = "launch"
  /\ IF kind \in CannotStart
     THEN pc' = "failed" /\ UNCHANGED <<calls, ofile, own>>
     ELSE /\ calls' = [calls EXCEPT ![f] = @ + 1]
          /\ own' = Append(own, v)
          /\ ofile' = (IF kind = "nofile" THEN ofile ELSE [ofile EXCEPT ![f] = IF kind \in {"empty", "garbage"} THEN NONE ELSE v])
          /\ pc' = IF kind \in BadStatus THEN "failed" ELSE "read"
  /\ UNCHANGED <<const, it, f, design, dfile, got, rec>>
Read ==
  /\ pc = "read"
  /\ IF ofile[f] = NONE
     THEN pc' = "failed" /\ UNCHANGED <<got, f>>
     ELSE /\ got' = Append(got, ofile[f])
          /\ IF f = nf THEN pc' = "record" /\ f' = f ELSE pc' = "write" /\ f' = f + 1
  /\ UNCHANGED <<const, it, design, dfile, ofile, calls, rec, own>>
Record ==
  /\ pc = "record"
  /\ rec' = Append(rec, [dv |-> design, vals |-> got, own |-> own])
  /\ pc' = "propose"
  /\ UNCHANGED <<const, it, f, design, dfile, ofile, calls, got, own>>
Finished == pc = "propose" /\ it = budget

--------------------------------------------------------------------------------
(* P09 *)
DesignWritten == pc \in {"launch", "read"} => dfile[f] = design
ExactlyOnce ==          \* each function was called once for every design that reached it
  \A i \in 1..nf : calls[i] \in
    (IF pc = "propose" THEN {it}
     ELSE IF pc \in {"write", "launch"} THEN {IF i < f THEN it ELSE it - 1}
     ELSE IF pc \in {"read", "record"} THEN {IF i <= f THEN it ELSE it - 1}
     ELSE IF i < f THEN {it} ELSE IF i = f THEN {it - 1, it} ELSE {it - 1})
OwnValues == \A m \in DOMAIN rec : rec[m].vals = rec[m].own
FailStop == pc = "failed" => Len(rec) = it - 1
NothingSkipped == Len(rec) = IF pc = "propose" THEN it ELSE it - 1
================================================================================
