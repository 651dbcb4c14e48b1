------------------------------- MODULE ConstraintMC -------------------------------
(* All sequences of short texts given to one definition; all texts up to a length are printed as test cases. *)
EXTENDS ConstraintDef, TLC, Json, FiniteSets
CONSTANTS Alphabet, MaxLen, EmitLen
VARIABLES def, last, before

Texts(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Init == def = NoDef /\ last = <<>> /\ before = NoDef
Next == \E s \in Texts(MaxLen) : before' = def /\ last' = s /\ def' = After(def, s)
Spec == Init /\ [][Next]_<<def, last, before>>

Sound == def = NoDef \/ (def.op \in Signs /\ def.name # <<>>)
RejectedKeeps == ~Valid(last) => def = before
\* what makes a text a definition does not depend on the white space around its parts
Laws ==
  /\ Valid(last) => /\ last # <<>>
                    /\ Cardinality(Positions(last)) = 1
                    /\ \A b \in Blank : LET p == Place(last)
                                            t == <<b>> \o SubSeq(last, 1, p - 1) \o <<b, last[p], b>> \o SubSeq(last, p + 1, Len(last)) \o <<b>>
                                        IN Valid(t) /\ Meaning(t) = Meaning(last)
                    /\ Meaning(last) = ConfigMeaning(SubSeq(last, 1, Place(last) - 1), IF last[Place(last)] = "<" THEN "lt" ELSE "gt", ValuePart(last))
  /\ \A c \in Signs : ~Valid(Append(Append(last, c), c))
EmitTexts == def = NoDef /\ last = <<>> => \A s \in Texts(EmitLen) : Valid(s) \/ (Len(s) <= EmitLen - 1) => PrintT(<<"TEXT", ToJson(s)>>)
===================================================================================
