------------------------------- MODULE ConstraintDef ------------------------------
(***************************************************************************)
(* Constraint definitions "name op number".  A text is a sequence of       *)
(* one-character strings.  The state is the definition in force; a text    *)
(* that is no definition is rejected and leaves it as it is.               *)
(***************************************************************************)
EXTENDS Number

Signs == {"<", ">"}
Positions(s) == {i \in DOMAIN s : s[i] \in Signs}
Place(s) == CHOOSE i \in Positions(s) : TRUE
NamePart(s) == Compact(SubSeq(s, 1, Place(s) - 1))
ValuePart(s) == SubSeq(s, Place(s) + 1, Len(s))

Valid(s) ==
  /\ Positions(s) # {} /\ \A i, j \in Positions(s) : i = j
  /\ NamePart(s) # <<>>
  /\ IsNumber(ValuePart(s))
Meaning(s) == LET c == Canon(ValuePart(s)) IN [name |-> NamePart(s), op |-> s[Place(s)], m |-> c.m, e |-> c.e]
NoDef == [name |-> <<>>, op |-> "", m |-> 0, e |-> 0]
\* definition in force after the text s was given
After(def, s) == IF Valid(s) THEN Meaning(s) ELSE def

\* the same definition given as three settings of the configuration file (white space is dropped everywhere)
ConfigOp(type) == IF type \in {"lt", "LT", "Lt", "lT"} THEN "<" ELSE IF type \in {"gt", "GT", "Gt", "gT"} THEN ">" ELSE ""
ConfigValid(name, type, value) == Compact(name) # <<>> /\ ConfigOp(type) # "" /\ IsNumber(Compact(value))
ConfigMeaning(name, type, value) ==
  LET c == Canon(Compact(value)) IN [name |-> Compact(name), op |-> ConfigOp(type), m |-> c.m, e |-> c.e]

\* verdict for a value just below (-1), equal to (0), or just above (1) the threshold
Satisfied(def, side) == IF def.op = "<" THEN side < 0 ELSE side > 0
===================================================================================
