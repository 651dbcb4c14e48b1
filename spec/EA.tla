----------------------------------- MODULE EA ------------------------------------
(***************************************************************************)
(* The evolutionary optimizer behind surrogate training.  An individual is *)
(* [id, k]: k numbers the evaluation that gave it its genes and its value. *)
(* val is the sequence of values of all evaluations; smaller is better.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Evals(P) == {i.k : i \in P}
Unique(P) == Cardinality({i.id : i \in P}) = Cardinality(P) /\ Cardinality(Evals(P)) = Cardinality(P)
\* extreme values of a set of evaluations
Least(K, val) == val[CHOOSE k \in K : \A j \in K : val[k] <= val[j]]
Most(K, val) == val[CHOOSE k \in K : \A j \in K : val[k] >= val[j]]
Best(P, val) == Least(Evals(P), val)
Worst(P, val) == Most(Evals(P), val)
\* the individuals of the evaluations K join P
IsBirth(P, Q, K) == P \subseteq Q /\ Evals(Q \ P) = K /\ Unique(Q) /\ Cardinality(Q) = Cardinality(P) + Cardinality(K)
\* nothing better than what remains is lost
Keeps(P, Q, val) == P = {} \/ (Q # {} /\ Best(Q, val) <= Best(P, val))
IsDeath(P, Q, d, val) == Q \subseteq P /\ Cardinality(Q) = Cardinality(P) - d /\ Keeps(P, Q, val)
\* some of P and of the newborn remain
IsMix(P, Q, K, val) == {i \in Q : i.k \notin K} \subseteq P /\ Unique(Q) /\ Keeps(P, Q, val)
IsGeneration(P, Q, K, d, val) ==
   /\ IsMix(P, Q, K, val) /\ Cardinality(Q) = Cardinality(P) + Cardinality(K) - d
   /\ \A k \in K : Best(Q, val) <= val[k]

(* ---- settings ---- *)
Settings == [box |-> FALSE, mut |-> FALSE, size |-> 0, births |-> 0, deaths |-> 0, gens |-> 0, max |-> 0, warm |-> FALSE, file |-> ""]
Ready(c) == /\ c.box /\ c.births > 0 /\ c.size > 0 /\ c.gens > 0 /\ c.max > 0
            /\ c.deaths < c.size + c.births /\ (c.warm => c.file # "")
\* generations of an optimization that starts with n0 evaluations
Generations(c, n0) == LET full == {g \in 1..c.gens : n0 + g * c.births >= c.max}
                      IN IF full = {} THEN c.gens ELSE CHOOSE g \in full : \A h \in full : g <= h
\* what must be accepted, what must be rejected (anything else may be either)
InitOk(c) == c.box /\ c.size >= 2
InitBad(c) == ~c.box \/ c.size = 0
BirthOk(c, n) == c.births > 0 /\ n >= 2 /\ c.mut /\ c.box
BirthBad(c, n) == c.births > 0 /\ (n < 2 \/ ~c.mut \/ ~c.box)
DeathOk(c, n) == c.deaths = 0 \/ n - c.deaths >= 2
DeathBad(c, n) == c.deaths > 0 /\ n - c.deaths <= 0
GenerationOk(c, n) == BirthOk(c, n) /\ n + c.births - c.deaths >= 2
GenerationBad(c, n) == BirthBad(c, n) \/ n + c.births - c.deaths <= 0
SizeAfter(c, n, g) == n + g * (c.births - c.deaths)
RunOk(c, n, G) == n >= 2 /\ c.mut /\ \A g \in 1..G : SizeAfter(c, n, g) >= 2
RunBad(c, n, G) == ~c.mut \/ n = 0 \/ \E g \in 1..G : SizeAfter(c, n, g) <= 0
===================================================================================
