---------------------------------- MODULE EAMC -----------------------------------
(* All short sequences of operations on all small populations. *)
EXTENDS EA, TLC, Json
CONSTANTS MaxSize, MaxBirths, MaxDeaths, Values, Depth
VARIABLES c, pop, val, nextId, file, base, g, path
\* base: evaluations of the population and its size when it was created or read; g: generations since
vars == <<c, pop, val, nextId, file, base, g, path>>
None == [ok |-> FALSE, pop |-> {}]
Init == /\ c \in [size : 1..MaxSize, births : 1..MaxBirths, deaths : 0..MaxDeaths, box : {TRUE}, mut : {TRUE}, gens : {1}, max : {1}, warm : {FALSE}, file : {"a"}]
        /\ pop = {} /\ val = <<>> /\ nextId = 1 /\ file = None /\ base = [k |-> {}, n |-> 0] /\ g = 0 /\ path = <<>>
More(n, vs) == SubSeq(val \o vs, 1, Len(val) + n)
New(n) == {[id |-> nextId + i - 1, k |-> Len(val) + i] : i \in 1..n}
Log(op) == Len(path) < Depth /\ path' = Append(path, op) /\ UNCHANGED c
Initialize == /\ Log("init") /\ InitOk(c)
              /\ \E vs \in [1..c.size -> Values] : val' = More(c.size, vs)
              /\ pop' = New(c.size) /\ nextId' = nextId + c.size
              /\ base' = [k |-> Evals(New(c.size)), n |-> c.size] /\ g' = 0 /\ UNCHANGED file
Generation == /\ Log("gen") /\ GenerationOk(c, Cardinality(pop))
              /\ \E vs \in [1..c.births -> Values] :
                   /\ val' = More(c.births, vs)
                   /\ LET B == pop \cup New(c.births) IN
                      \E Q \in SUBSET B : IsDeath(B, Q, c.deaths, val') /\ pop' = Q
              /\ nextId' = nextId + c.births
              /\ base' = [base EXCEPT !.k = @ \cup Evals(New(c.births))] /\ g' = g + 1 /\ UNCHANGED file
Save == Log("save") /\ file' = [ok |-> TRUE, pop |-> pop] /\ UNCHANGED <<pop, val, nextId, base, g>>
Largest(P) == IF P = {} THEN 0 ELSE CHOOSE n \in {i.id : i \in P} : \A i \in P : i.id <= n
Load == /\ Log("load") /\ file.ok
        /\ pop' = file.pop /\ base' = [k |-> Evals(file.pop), n |-> Cardinality(file.pop)] /\ g' = 0
        /\ nextId' = IF Largest(pop') >= nextId THEN Largest(pop') + 1 ELSE nextId
        /\ UNCHANGED <<val, file>>
Reset == Log("reset") /\ pop' = {} /\ base' = [k |-> {}, n |-> 0] /\ g' = 0 /\ UNCHANGED <<val, nextId, file>>
\* what cannot be done changes nothing
Reject == /\ \/ Log("init") /\ ~InitOk(c)
             \/ Log("gen") /\ ~GenerationOk(c, Cardinality(pop))
             \/ Log("load") /\ ~file.ok
          /\ UNCHANGED <<pop, val, nextId, file, base, g>>
Next == Initialize \/ Generation \/ Save \/ Load \/ Reset \/ Reject
Spec == Init /\ [][Next]_vars

UniqueIds == Unique(pop)
SizeLaw == Cardinality(pop) = SizeAfter(c, base.n, g)
BestEver == pop # {} => Best(pop, val) = Least(base.k, val)
\* within a population's life the best value never gets worse and evaluations keep their values
Elitist == [][(g' > g /\ pop # {}) => Best(pop', val') <= Best(pop, val)]_vars
ValuesKept == [][\A k \in DOMAIN val : val'[k] = val[k]]_vars
GenerationsAreLegal == [][g' = g + 1 => IsGeneration(pop, pop', Evals(New(c.births)), c.deaths, val')]_vars
Emit == Len(path) = Depth => PrintT(<<"CASE", ToJson([c |-> c, path |-> path])>>)
===================================================================================
