---------------------------------- MODULE Api -----------------------------------
(***************************************************************************)
(* The C++ interface: a sequence of calls builds up the settings of a      *)
(* study; every call is accepted and takes effect or is rejected and       *)
(* changes nothing; run() performs the study with the settings in force.   *)
(* Bounds are in quarters.  Expressions and strategies are sequences of    *)
(* characters.                                                             *)
(***************************************************************************)
EXTENDS ConstraintDef

Nothing == [dim |-> 0, obj |-> <<>>, data |-> "", box |-> <<>>, cons |-> <<>>, budget |-> 0, doe |-> -1, strategy |-> "random", cwd |-> "", name |-> "OptimizationStudy"]

UpperCase == <<"L","H","S","R","A","N","D","O","M">>
LowerCase == <<"l","h","s","r","a","n","d","o","m">>
LowerOf(c) == IF \E i \in 1..9 : UpperCase[i] = c THEN LowerCase[CHOOSE i \in 1..9 : UpperCase[i] = c] ELSE c
StrategyOf(t) == LET f == [i \in DOMAIN t |-> LowerOf(t[i])] IN
                 IF f = <<"l","h","s">> THEN "lhs" ELSE IF f = <<"r","a","n","d","o","m">> THEN "random" ELSE ""

\* dirs: the directories that exist
Accepts(s, c, dirs) ==
  CASE c.op = "dim" -> c.n > 0 /\ (c.n = s.dim \/ (s.obj = <<>> /\ s.cons = <<>>))
    [] c.op = "obj" -> c.fn >= 0 /\ c.name # "" /\ c.file # "" /\ s.dim > 0
    [] c.op = "con" -> c.fn >= 0 /\ Valid(c.expr) /\ c.file # "" /\ s.dim > 0
    [] c.op = "box" -> s.dim > 0 /\ s.obj # <<>> /\ \A i \in 1..s.dim : c.lb[i] < c.ub[i]
    [] c.op = "data" -> c.file # ""
    [] c.op = "doe" -> TRUE
    [] c.op = "budget" -> TRUE
    [] c.op = "name" -> c.name # ""
    [] c.op = "cwd" -> c.dir # "" /\ c.dir \in dirs
    [] c.op = "strategy" -> StrategyOf(c.text) # ""
Effect(s, c) ==
  CASE c.op = "dim" -> IF c.n = s.dim THEN s ELSE [s EXCEPT !.dim = c.n]
    [] c.op = "obj" -> [s EXCEPT !.obj = <<c.fn, c.name>>, !.data = c.file]
    [] c.op = "con" -> [s EXCEPT !.cons = Append(@, [fn |-> c.fn, def |-> Meaning(c.expr), file |-> c.file])]
    [] c.op = "box" -> [s EXCEPT !.box = [lb |-> SubSeq(c.lb, 1, s.dim), ub |-> SubSeq(c.ub, 1, s.dim)]]
    [] c.op = "data" -> [s EXCEPT !.data = c.file]
    [] c.op = "doe" -> [s EXCEPT !.doe = c.n]
    [] c.op = "budget" -> [s EXCEPT !.budget = c.n]
    [] c.op = "name" -> [s EXCEPT !.name = c.name]
    [] c.op = "cwd" -> [s EXCEPT !.cwd = c.dir]
    [] c.op = "strategy" -> [s EXCEPT !.strategy = StrategyOf(c.text)]
AfterCall(s, c, dirs) == IF c.op = "run" THEN s ELSE IF Accepts(s, c, dirs) THEN Effect(s, c) ELSE s

Complete(s) == s.budget > 0 /\ s.dim > 0 /\ s.box # <<>> /\ s.obj # <<>>
\* the functions of the study with their files: the objective, then the constraints in the order in which they were added
Functions(s) == <<[fn |-> s.obj[1], file |-> s.data]>> \o [i \in DOMAIN s.cons |-> [fn |-> s.cons[i].fn, file |-> s.cons[i].file]]
Distinct(s) == \A i, j \in DOMAIN Functions(s) : Functions(s)[i].file = Functions(s)[j].file => i = j
SeparateNames(s) == \A i, j \in DOMAIN s.cons : s.cons[i].def.name = s.cons[j].def.name => i = j
\* would run() perform the study?  cols(f): number of columns of the data file f, 0 if there is none
Runnable(s, cols(_)) ==
  /\ Complete(s) /\ s.doe # 0
  /\ s.doe < 0 => \A i \in DOMAIN Functions(s) : cols(Functions(s)[i].file) = s.dim + 1

Amount(def, u) == LET a == IF def.m < 0 THEN -def.m ELSE def.m
                      v == IF def.e >= 0 THEN a * Pow10(def.e) * u ELSE (a * u) \div Pow10(-def.e)
                  IN IF def.m < 0 THEN -v ELSE v
\* v is a whole number
Meets(def, v) == IF def.op = "<" THEN v * 1000 < Amount(def, 1000) ELSE v * 1000 > Amount(def, 1000)
===================================================================================
