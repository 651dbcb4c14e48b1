-------------------------------- MODULE DataTrace --------------------------------
(* Recorded sequences of operations with everything observed after each of them. *)
EXTENDS Data, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, s
tvars == <<t, l, s>>
E == Traces[t].ev
TInit == t \in DOMAIN Traces /\ l = 1 /\ s = [New EXCEPT !.model = Traces[t].model, !.tol = Traces[t].tol]
BoxObs(b) == IF b = Nothing THEN <<>> ELSE <<b.lb, b.ub>>
\* name of the first observation that differs, "" if there is none
Differs(z, o) ==
   CASE o.dim # z.dim -> "dimension"
     [] o.read # z.read \/ (z.read /\ o.norm # (z.nb # Nothing)) -> "flags"
     [] z.read /\ (o.n # Len(z.train) \/ o.nv # Len(z.valid)) -> "number of samples"
     [] z.read /\ o.raw # z.raw -> "raw data"
     [] z.read /\ o.X # X(z) -> "inputs"
     [] z.read /\ o.xraw # Inputs(Training(z), z.dim) -> "raw inputs"
     [] z.read /\ ~z.res /\ o.y # z.y -> "outputs"
     [] z.read /\ z.res /\ Len(o.y) # Len(z.train) -> "outputs"
     [] z.read /\ o.XV # XValid(z) -> "validation inputs"
     [] z.read /\ o.yV # YValid(z) -> "validation outputs"
     [] z.g /\ o.grad # Gradient(z) -> "gradients"
     [] z.dd /\ (o.dirv # DirDer(z) \/ o.dirs # Directions(z)) -> "directional derivatives"
     [] o.tread # z.tread \/ (z.tread /\ (o.tval # z.tval \/ o.nt # Len(z.test))) -> "test data"
     [] z.tread /\ o.XT # XTest(z) -> "test inputs"
     [] z.tread /\ z.tval /\ o.yT # YTest(z) -> "test outputs"
     [] z.tread /\ o.xtraw # z.test -> "raw test data"
     [] o.box # BoxObs(z.box) -> "bounds"
     [] ~o.rows -> "rows"
     [] z.model /\ (o.mread # z.mread \/ o.mnorm # z.mnorm \/ o.init # z.init) -> "flags of the model"
     [] z.model /\ z.mread /\ o.mn # Len(z.train) -> "number of samples of the model"
     [] z.model /\ ~o.same -> "getters of the model"
     [] z.model /\ z.file.ok /\ o.file # z.file.rows -> "file"
     [] OTHER -> ""
WitnessOk(z, e) == ReadsFile(z, e) => LET f == FileAfter(z, e) IN (f.ok /\ f.rows # <<>>) => IsChoice(z, f, e.valid)
\* an addition that is discarded reads nothing
Reading(z, e) == ReadsFile(z, e) /\ ~(e.op = "add" /\ \E i \in DOMAIN z.raw : Len(z.raw[i]) = Len(e.row) /\ Near(z, z.raw[i], e.row))
ResultOk(z, e) == CASE e.op = "count" -> e.count = Count(z, e.box.lb, e.box.ub)
                    [] e.op \in {"insample", "tryout"} -> e.agree
                    [] OTHER -> TRUE
Why(e) == LET r == Do(s, e) IN
   IF r.ok # e.ok THEN (IF e.ok THEN "should be rejected" ELSE "should not be rejected")
   ELSE IF e.ok /\ Reading(s, e) /\ ~WitnessOk(s, e) THEN "validation samples"
   ELSE IF e.ok /\ ~ResultOk(s, e) THEN "result"
   ELSE IF e.aborted THEN "" ELSE Differs(r.s, e.obs)
TNext == \/ l <= Len(E) /\ (Why(E[l]) = "") = TRUE /\ s' = Do(s, E[l]).s /\ l' = l + 1 /\ t' = t
         \/ l = Len(E) + 1 /\ PrintT(<<"ACCEPTED", t>>) /\ UNCHANGED tvars
TraceSpec == TInit /\ [][TNext]_tvars
Progress == PrintT(<<"AT", t, l, IF l <= Len(E) THEN Why(E[l]) ELSE "end">>)
===================================================================================
