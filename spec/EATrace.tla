--------------------------------- MODULE EATrace ---------------------------------
(* Recorded sequences of operations on the optimizer. *)
EXTENDS EA, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, s
tvars == <<t, l, s>>
T == Traces[t]
E == T.ev
V == T.val
TInit == t \in DOMAIN Traces /\ l = 1 /\ s = [c |-> Settings, pop |-> {}, mid |-> FALSE, files |-> <<>>, born |-> {}]
AsSet(rows) == {[id |-> r[1], k |-> r[2]] : r \in {rows[i] : i \in DOMAIN rows}}
Rows(rows) == Cardinality(AsSet(rows)) = Len(rows) /\ \A i \in DOMAIN rows : rows[i][2] > 0
\* a file of the state: name, whether it can be read, its population, whether a reader may reject it
FileOf(z, name) == LET I == {i \in DOMAIN z.files : z.files[i].name = name} IN
   IF I = {} THEN [name |-> name, ok |-> FALSE, pop |-> {}, mid |-> FALSE] ELSE z.files[CHOOSE i \in I : TRUE]
WithFile(z, f) == [z EXCEPT !.files = Append(SelectSeq(@, LAMBDA q : q.name # f.name), f)]
K(e) == e.first..(e.first + e.count - 1)
Sub(a, n) == a..(a + n - 1)
Setting(z, e) == CASE e.op = "box" -> [z EXCEPT !.c.box = TRUE]
                   [] e.op = "mut" -> [z EXCEPT !.c.mut = TRUE]
                   [] e.op = "size" -> [z EXCEPT !.c.size = e.n]
                   [] e.op = "births" -> [z EXCEPT !.c.births = e.n]
                   [] e.op = "deaths" -> [z EXCEPT !.c.deaths = e.n]
                   [] e.op = "gens" -> [z EXCEPT !.c.gens = e.n]
                   [] e.op = "max" -> [z EXCEPT !.c.max = e.n]
                   [] e.op = "warm" -> [z EXCEPT !.c.warm = (e.n = 1)]
                   [] e.op = "file" -> [z EXCEPT !.c.file = e.name]
                   [] OTHER -> z
IsSetting(e) == e.op \in {"new", "values", "throw", "display", "box", "mut", "size", "births", "deaths", "gens", "max", "warm", "file"}
N(z) == Cardinality(z.pop)
(* ---- optimization: e.steps are the populations at the beginning of every generation and at the end ---- *)
Start(z) == IF z.c.warm THEN FileOf(z, z.c.file) ELSE [ok |-> TRUE, mid |-> FALSE, pop |-> {}]
N0(z) == IF z.c.warm THEN Cardinality(Start(z).pop) ELSE z.c.size
E0(z) == IF z.c.warm THEN 0 ELSE z.c.size
G(z) == Generations(z.c, E0(z))
OptOk(z, e) == Ready(z.c) /\ Start(z).ok /\ ~Start(z).mid /\ RunOk(z.c, N0(z), G(z)) /\ ~e.thrown
OptBad(z, e) == ~Ready(z.c) \/ ~Start(z).ok \/ e.thrown \/ RunBad(z.c, N0(z), G(z))
Step(e, i) == AsSet(e.steps[i])
\* how the first population of a run is obtained
Founded(z, e, P) == IF z.c.warm THEN P = Start(z).pop ELSE IsBirth({}, P, Sub(e.first, z.c.size))
Chain(z, e, m) == \A i \in 1..m : IsGeneration(Step(e, i), Step(e, i + 1), Sub(e.first + E0(z) + (i - 1) * z.c.births, z.c.births), z.c.deaths, V)
Optimized(z, e) == /\ Len(e.steps) = G(z) + 1 /\ e.count = E0(z) + G(z) * z.c.births
                   /\ Founded(z, e, Step(e, 1)) /\ Chain(z, e, G(z))
Failed(z, e) == IF ~Ready(z.c) \/ ~Start(z).ok THEN e.count = 0 /\ AsSet(e.pop) = z.pop
                ELSE LET m == Len(e.steps) - 1 IN
                     IF m = 0 THEN AsSet(e.pop) \in {z.pop, {}} \/ Start(z).pop = AsSet(e.pop) \/ N0(z) < 2 \/ ~z.c.mut
                     ELSE Founded(z, e, Step(e, 1)) /\ Chain(z, e, m - 1) /\ Keeps(Step(e, m), AsSet(e.pop), V)
(* ---- all operations ---- *)
MustFail(z, e) == CASE e.op = "init" -> InitBad(z.c) \/ e.thrown
                    [] e.op = "add" -> BirthBad(z.c, N(z)) \/ e.thrown
                    [] e.op = "remove" -> DeathBad(z.c, N(z))
                    [] e.op = "gen" -> GenerationBad(z.c, N(z)) \/ e.thrown
                    [] e.op = "opt" -> OptBad(z, e)
                    [] e.op = "load" -> ~FileOf(z, z.c.file).ok
                    [] e.op = "save" -> z.c.file = ""
                    [] IsSetting(e) -> e.bad
                    [] OTHER -> FALSE
MustWork(z, e) == CASE e.op = "init" -> InitOk(z.c) /\ ~e.thrown
                    [] e.op = "add" -> BirthOk(z.c, N(z)) /\ ~e.thrown
                    [] e.op = "remove" -> DeathOk(z.c, N(z))
                    [] e.op = "gen" -> GenerationOk(z.c, N(z)) /\ ~e.thrown
                    [] e.op = "opt" -> OptOk(z, e)
                    [] e.op = "load" -> FileOf(z, z.c.file).ok /\ ~FileOf(z, z.c.file).mid
                    [] e.op = "save" -> z.c.file # ""
                    [] IsSetting(e) -> ~e.bad
                    [] OTHER -> TRUE
Legal(z, e) == LET P == z.pop Q == AsSet(e.pop) IN
   CASE e.op = "init" -> IF e.ok THEN IsBirth({}, Q, K(e)) /\ e.count = z.c.size
                         ELSE (Q \in {P, {}} \/ z.c.size = 1) /\ e.count <= z.c.size
     [] e.op = "add" -> IF e.ok THEN IsBirth(P, Q, K(e)) /\ e.count = z.c.births ELSE Q = P
     [] e.op = "remove" -> e.count = 0 /\ (IF e.ok THEN IsDeath(P, Q, z.c.deaths, V) ELSE Q \subseteq P /\ Keeps(P, Q, V))
     [] e.op = "gen" -> IF e.ok THEN IsGeneration(P, Q, K(e), z.c.deaths, V) /\ e.count = z.c.births ELSE IsMix(P, Q, K(e), V)
     [] e.op = "opt" -> IF e.ok THEN Optimized(z, e) ELSE Failed(z, e)
     [] e.op = "load" -> e.count = 0 /\ Q = (IF e.ok THEN FileOf(z, z.c.file).pop ELSE P)
     [] e.op = "reset" -> e.count = 0 /\ Q = {}
     [] e.op = "hist" -> Q = P /\ e.count = 0 /\ \A k \in z.born : Cardinality({i \in DOMAIN e.hist : e.hist[i] = k}) = 1
     [] OTHER -> e.count = 0 /\ Q = P
\* what is shown of a population
Shown(e) == LET P == AsSet(e.pop) IN
   /\ Rows(e.pop) /\ e.size = Len(e.pop) /\ Unique(P)
   /\ P # {} => /\ e.fmin = T.text[Best(P, V)] /\ e.fmax = T.text[Worst(P, V)]
                /\ \E i \in P : i.id = e.idmin /\ V[i.k] = Best(P, V)
                /\ \E i \in P : i.id = e.idmax /\ V[i.k] = Worst(P, V)
                /\ e.sol[1] = e.idmin /\ e.solok /\ \E i \in P : i.id = e.sol[1] /\ i.k = e.sol[2]
After(z, e) == LET Q == AsSet(e.pop) IN
   IF IsSetting(e) THEN (IF e.ok THEN Setting(z, e) ELSE z)
   ELSE IF e.op = "save" THEN (IF e.ok THEN WithFile(z, [name |-> z.c.file, ok |-> TRUE, pop |-> z.pop, mid |-> z.mid \/ Cardinality(z.pop) = 1]) ELSE z)
   ELSE IF e.op = "damage" THEN WithFile(z, [FileOf(z, e.name) EXCEPT !.ok = FALSE])
   ELSE IF e.op = "hist" THEN z
   ELSE [z EXCEPT !.pop = Q,
         !.mid = CASE e.op = "add" -> (IF e.ok THEN TRUE ELSE @)
                   [] e.op = "remove" -> (IF e.ok THEN (IF z.c.deaths = 0 THEN @ ELSE FALSE) ELSE TRUE)
                   [] e.op = "load" -> (IF e.ok THEN FileOf(z, z.c.file).mid ELSE @)
                   [] e.op = "reset" -> FALSE
                   [] OTHER -> ~e.ok,
         !.born = IF e.op \in {"init", "opt"} THEN (IF e.ok THEN K(e) ELSE {}) ELSE IF e.ok THEN @ \cup K(e) ELSE @]
Why(e) == IF e.ok /\ MustFail(s, e) THEN "should be rejected"
          ELSE IF ~e.ok /\ MustWork(s, e) THEN "should not be rejected"
          ELSE IF ~e.inside THEN "design outside the bounds"
          ELSE IF ~Shown(e) THEN "population as shown"
          ELSE IF ~Legal(s, e) THEN "population" ELSE ""
TNext == \/ l <= Len(E) /\ (Why(E[l]) = "") = TRUE /\ s' = After(s, E[l]) /\ l' = l + 1 /\ t' = t
         \/ l = Len(E) + 1 /\ PrintT(<<"ACCEPTED", t>>) /\ UNCHANGED tvars
TraceSpec == TInit /\ [][TNext]_tvars
Progress == PrintT(<<"AT", t, l, IF l <= Len(E) THEN Why(E[l]) ELSE "end">>)
===================================================================================
