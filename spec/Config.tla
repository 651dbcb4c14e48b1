---------------------------------- MODULE Config ----------------------------------
(***************************************************************************)
(* The configuration file and what it means.  A document is a tree: a node *)
(* is [tag, closed, text, items]; a text is a sequence of characters, the  *)
(* items of a block are nodes again.  Read(doc) is either the settings of  *)
(* the study or the reason why the file is rejected before anything runs.  *)
(***************************************************************************)
EXTENDS Number

Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
LowerOf(c) == IF \E i \in 1..26 : Upper[i] = c THEN Lower[CHOOSE i \in 1..26 : Upper[i] = c] ELSE c
Fold(s) == [i \in DOMAIN s |-> LowerOf(s[i])]

RECURSIVE AllClosed(_)
AllClosed(n) == n.closed /\ \A i \in DOMAIN n.items : AllClosed(n.items[i])

Named(n, tag) == SelectSeq(n.items, LAMBDA x : x.tag = tag)
Has(n, tag) == Named(n, tag) # <<>>
TextOf(n, tag) == IF Has(n, tag) THEN Compact(Named(n, tag)[1].text) ELSE <<>>
Single(n, tags) == \A t \in tags : Len(Named(n, t)) <= 1

IsInteger(s) == LET sg == IF s # <<>> /\ s[1] \in {"+", "-"} THEN 1 ELSE 0
                IN Len(s) > sg /\ CountDigits(s, sg + 1) = Len(s) - sg
IntegerOf(s) == Scaled(s, 1)
\* an optional positive whole number: absent, or present and positive
Positive(n, tag) == LET t == TextOf(n, tag) IN IsInteger(t) /\ IntegerOf(t) > 0
OptionalPositive(n, tag) == ~Has(n, tag) \/ Positive(n, tag)
OptionalValue(n, tag) == IF Has(n, tag) THEN IntegerOf(TextOf(n, tag)) ELSE 0     \* 0: the program's own choice

(* ---- the sections ---- *)
GeneralTags == {"name", "type", "dimension", "number_of_function_evaluations", "max_number_of_inner_iterations", "number_of_threads"}
FunctionTags == {"name", "executable_filename", "output_filename", "training_data_filename", "design_vector_filename",
                 "number_of_training_iterations", "surrogate_model_type"}
ConstraintTags == FunctionTags \cup {"constraint_type", "constraint_value"}
ParameterTags == {"name", "type", "lower_bound", "upper_bound", "increment"}

W(s) == s                       \* words are written as sequences of characters
OptimizationWord == <<"o","p","t","i","m","i","z","a","t","i","o","n">>
Continuous == {<<"c","o","n","t","i","n","u","o","u","s">>, <<"r","e","a","l">>}
Discrete == {<<"d","i","s","c","r","e","t","e">>, <<"i","n","t">>}
Plain == {<<"d","e","f","a","u","l","t">>, <<"k","r","i","g","i","n","g">>, <<"o","r","d","i","n","a","r","y","_","k","r","i","g","i","n","g">>}
Linear == {<<"u","n","i","v","e","r","s","a","l","_","k","r","i","g","i","n","g">>}
LessWord == <<"l","t">>
GreaterWord == <<"g","t">>

GeneralOk(g) ==
  /\ Single(g, GeneralTags)
  /\ Fold(TextOf(g, "type")) = OptimizationWord
  /\ Positive(g, "dimension") /\ Positive(g, "number_of_function_evaluations")
  /\ OptionalPositive(g, "max_number_of_inner_iterations") /\ OptionalPositive(g, "number_of_threads")

Unit == 1000                    \* bounds are compared in thousandths
ParameterOk(p) ==
  LET lb == TextOf(p, "lower_bound") ub == TextOf(p, "upper_bound") inc == TextOf(p, "increment") IN
  /\ Single(p, ParameterTags)
  /\ TextOf(p, "name") # <<>>
  /\ Fold(TextOf(p, "type")) \in Continuous \cup Discrete
  /\ IsNumber(lb) /\ IsNumber(ub)
  /\ Scaled(lb, Unit) <= Scaled(ub, Unit)
  /\ Has(p, "increment") => IsNumber(inc)
  /\ Fold(TextOf(p, "type")) \in Discrete =>
       /\ IsNumber(inc)
       /\ Scaled(inc, Unit) > 0 /\ Scaled(inc, Unit) <= Scaled(ub, Unit) - Scaled(lb, Unit)

\* a constraint may do without an executable: then the one of the objective writes its output file
FunctionOk(f) ==
  /\ TextOf(f, "name") # <<>> /\ TextOf(f, "output_filename") # <<>>
  /\ TextOf(f, "training_data_filename") # <<>> /\ TextOf(f, "design_vector_filename") # <<>>
  /\ OptionalPositive(f, "number_of_training_iterations")
  /\ Fold(TextOf(f, "surrogate_model_type")) \in {<<>>} \cup Plain \cup Linear
ConstraintOk(f) ==
  /\ Single(f, ConstraintTags) /\ FunctionOk(f)
  /\ Fold(TextOf(f, "constraint_type")) \in {LessWord, GreaterWord}
  /\ IsNumber(TextOf(f, "constraint_value"))

Distinct(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Valid(doc) ==
  /\ AllClosed(doc)
  /\ Len(Named(doc, "general_settings")) = 1 /\ Len(Named(doc, "optimization_parameters")) = 1 /\ Len(Named(doc, "objective_function")) = 1
  /\ LET g == Named(doc, "general_settings")[1]
         ps == Named(Named(doc, "optimization_parameters")[1], "parameter")
         o == Named(doc, "objective_function")[1]
         cs == Named(doc, "constraint_function")
     IN /\ GeneralOk(g)
        /\ IntegerOf(TextOf(g, "dimension")) = Len(ps)
        /\ \A i \in DOMAIN ps : ParameterOk(ps[i])
        /\ Distinct([i \in DOMAIN ps |-> TextOf(ps[i], "name")])
        /\ Single(o, FunctionTags) /\ FunctionOk(o) /\ TextOf(o, "executable_filename") # <<>>
        /\ \A i \in DOMAIN cs : ConstraintOk(cs[i])
        /\ Distinct([i \in DOMAIN cs |-> TextOf(cs[i], "name")])

(* ---- the meaning ---- *)
ParameterOf(p) == [name |-> TextOf(p, "name"), lb |-> Scaled(TextOf(p, "lower_bound"), Unit), ub |-> Scaled(TextOf(p, "upper_bound"), Unit),
                   inc |-> IF Fold(TextOf(p, "type")) \in Discrete THEN Scaled(TextOf(p, "increment"), Unit) ELSE 0]
FunctionOf(f) == [name |-> TextOf(f, "name"), exe |-> TextOf(f, "executable_filename"), out |-> TextOf(f, "output_filename"),
                  data |-> TextOf(f, "training_data_filename"), dv |-> TextOf(f, "design_vector_filename"),
                  iters |-> OptionalValue(f, "number_of_training_iterations"),
                  linear |-> Fold(TextOf(f, "surrogate_model_type")) \in Linear]
ConstraintOf(f) == [fn |-> FunctionOf(f), op |-> IF Fold(TextOf(f, "constraint_type")) = LessWord THEN "<" ELSE ">",
                    value |-> Canon(TextOf(f, "constraint_value"))]
Settings(doc) ==
  LET g == Named(doc, "general_settings")[1]
      ps == Named(Named(doc, "optimization_parameters")[1], "parameter")
      cs == Named(doc, "constraint_function")
  IN [name |-> TextOf(g, "name"), dim |-> IntegerOf(TextOf(g, "dimension")),
      budget |-> IntegerOf(TextOf(g, "number_of_function_evaluations")),
      inner |-> OptionalValue(g, "max_number_of_inner_iterations"), threads |-> OptionalValue(g, "number_of_threads"),
      params |-> [i \in DOMAIN ps |-> ParameterOf(ps[i])],
      obj |-> FunctionOf(Named(doc, "objective_function")[1]),
      cons |-> [i \in DOMAIN cs |-> ConstraintOf(cs[i])]]
Rejected == [rejected |-> TRUE]
Read(doc) == IF Valid(doc) THEN [rejected |-> FALSE, s |-> Settings(doc)] ELSE Rejected
===================================================================================
