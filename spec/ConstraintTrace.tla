------------------------------ MODULE ConstraintTrace -----------------------------
(* Recorded outcomes of definitions given to the code. *)
EXTENDS ConstraintDef, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, def
tvars == <<t, l, def>>
T == Traces[t]
E == T.ev[l]
TInit == t \in DOMAIN Traces /\ l = 1 /\ def = NoDef
Same(o, d) == o.name = d.name /\ o.op = d.op /\ o.m = d.m /\ o.e = d.e
Good ==
  CASE E.k = "set" -> E.ok = Valid(E.text) /\ Same(E.def, After(def, E.text))
    [] E.k = "api" -> E.ok = Valid(E.text) /\ (E.ok => Same(E.def, Meaning(E.text)))
    [] E.k = "feasible" -> E.res = [i \in 1..3 |-> Satisfied(def, i - 2)]
    [] E.k = "config" -> IF ConfigValid(E.name, E.type, E.value)
                         THEN LET d == ConfigMeaning(E.name, E.type, E.value)
                              IN E.ok /\ E.def.name = d.name /\ E.res = [i \in 1..3 |-> Satisfied(d, i - 2)]
                         ELSE ~E.ok
    [] E.k = "run" -> IF Valid(E.text) THEN E.ok /\ E.def.name = Meaning(E.text).name /\ E.res = [i \in 1..3 |-> Satisfied(Meaning(E.text), i - 2)]
                      ELSE ~E.ok
Step == l <= Len(T.ev) /\ Good /\ def' = (IF E.k = "set" THEN After(def, E.text) ELSE def) /\ l' = l + 1 /\ t' = t
Finish == l = Len(T.ev) + 1 /\ PrintT(<<"ACCEPTED", t>>) /\ UNCHANGED tvars
TNext == Step \/ Finish
TraceSpec == TInit /\ [][TNext]_tvars
Progress == PrintT(<<"AT", t, l>>)
===================================================================================
