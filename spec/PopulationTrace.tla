----------------------------- MODULE PopulationTrace -----------------------------
EXTENDS Population, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, p, fresh
\* fresh: the probabilities of all individuals are those of the last update
tvars == <<t, l, p, fresh>>
T == Traces[t]
E == T.ev
TInit == t \in DOMAIN Traces /\ l = 1 /\ p = <<>> /\ fresh = FALSE
Drawn(e) == e.op \in {"die", "parents"}
Result(e) == CASE e.op = "die" -> e.result \in IdSet(p) /\ ~(\A q \in IdSet(p) : IsMin(p, q) => q = e.result)
               [] e.op = "parents" -> e.result \in IdSet(p)
               [] OTHER -> e.result = Apply(p, e).r
Shown(q, e) == q # <<>> => /\ IsMin(q, e.best) /\ IsMax(q, e.worst) /\ e.idmin = e.best /\ e.idmax = e.worst
                           /\ e.fmin = MinValue(q) /\ e.fmax = MaxValue(q)
Why(e) == LET o == Apply(p, e) IN
   IF e.pop # o.p THEN "individuals"
   ELSE IF Drawn(e) THEN (IF fresh /\ Len(p) >= 2 THEN (IF ~e.ok THEN "should not be rejected" ELSE IF Result(e) THEN "" ELSE "choice") ELSE "")
   ELSE IF e.ok # o.ok THEN "outcome"
   ELSE IF e.ok /\ ~Result(e) THEN "result"
   ELSE IF Shown(o.p, e) THEN "" ELSE "minimum and maximum"
TNext == \/ /\ l <= Len(E) /\ (Why(E[l]) = "") = TRUE /\ p' = Apply(p, E[l]).p /\ l' = l + 1 /\ t' = t
            /\ fresh' = CASE E[l].op = "update" -> E[l].ok
                          [] E[l].op \in {"add", "group", "removeAt", "removeId", "reset"} -> FALSE
                          [] OTHER -> fresh
         \/ l = Len(E) + 1 /\ PrintT(<<"ACCEPTED", t>>) /\ UNCHANGED tvars
TraceSpec == TInit /\ [][TNext]_tvars
Progress == PrintT(<<"AT", t, l, IF l <= Len(E) THEN Why(E[l]) ELSE "end">>)
===================================================================================
