---------------------------------- MODULE ExternalMC ------------------------------
EXTENDS External, TLC
CONSTANTS MaxF, MaxB, Clear, Old
Init == \E n \in 1..MaxF, b \in 1..MaxB, s \in BOOLEAN : \E o \in [1..n -> Old] : Start(n, b, Clear, s, o)
\* the value computed by function f at design d in iteration i
Value == 100*it + 10*design + f
Next ==
  \/ \E d \in 1..2 : Propose(d)
  \/ WriteDesign
  \/ \E k \in Kinds : Launch(k, Value)
  \/ Read \/ Record
  \/ (Finished \/ pc = "failed") /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
================================================================================
