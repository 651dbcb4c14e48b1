--------------------------------- MODULE ConfigMC ---------------------------------
(***************************************************************************)
(* Documents with deviations: starting from complete documents (File) an   *)
(* element or block is removed, repeated, left open, exchanged with its    *)
(* neighbour, or gets another text.  The resulting documents are printed   *)
(* as test cases; the laws of reading are checked on all of them.          *)
(***************************************************************************)
EXTENDS Config, TLC, Json, FiniteSets
CONSTANTS File, MaxDev, Every, Seed, OrderDepth
Input == JsonDeserialize(File)
Bases == Input.bases
Alts == Input.alts            \* tag -> alternative texts

VARIABLES base, doc, devs
vars == <<base, doc, devs>>

RECURSIVE At(_, _), Put(_, _, _)
At(n, p) == IF p = <<>> THEN n ELSE At(n.items[Head(p)], Tail(p))
\* the node at path p replaced by the nodes s
Put(n, p, s) ==
  IF Len(p) = 1 THEN [n EXCEPT !.items = SubSeq(@, 1, p[1] - 1) \o s \o SubSeq(@, p[1] + 1, Len(@))]
  ELSE [n EXCEPT !.items[Head(p)] = Put(@, Tail(p), s)]

RECURSIVE Paths(_)
Paths(n) == UNION {{<<i>>} \cup {<<i>> \o q : q \in Paths(n.items[i])} : i \in DOMAIN n.items}

\* deviations <<kind, path, k>>
Deviations(d) ==
  LET ps == Paths(d) IN
  {<<"remove", p, 0>> : p \in ps} \cup
  {<<"repeat", p, 0>> : p \in {q \in ps : At(d, q).tag # "constraint_function"}} \cup
  {<<"open", p, 0>> : p \in ps} \cup
  {<<"swap", p, 0>> : p \in {q \in ps : q[Len(q)] < Len(At(d, SubSeq(q, 1, Len(q) - 1)).items)}} \cup
  UNION {{<<"text", p, k>> : k \in DOMAIN Alts[At(d, p).tag]} : p \in {q \in ps : At(d, q).items = <<>> /\ At(d, q).tag \in DOMAIN Alts}}

Apply(d, v) ==
  LET p == v[2] n == At(d, p)
      par == SubSeq(p, 1, Len(p) - 1)
      nx == Append(par, p[Len(p)] + 1)
  IN CASE v[1] = "remove" -> Put(d, p, <<>>)
       [] v[1] = "repeat" -> Put(d, p, <<n, n>>)
       [] v[1] = "open" -> Put(d, p, <<[n EXCEPT !.closed = FALSE]>>)
       [] v[1] = "text" -> Put(d, p, <<[n EXCEPT !.text = Alts[n.tag][v[3]]]>>)
       [] v[1] = "swap" -> Put(Put(d, nx, <<n>>), p, <<At(d, nx)>>)

(* which pairs of deviations are looked at *)
RECURSIVE Hash(_)
Hash(s) == IF s = <<>> THEN Seed ELSE (Hash(Tail(s)) * 31 + Head(s) * 7 + 3) % 65521
HashOf(v) == (Hash(v[2]) * 17 + v[3] * 101 + (CASE v[1] = "remove" -> 1 [] v[1] = "repeat" -> 2 [] v[1] = "open" -> 3 [] v[1] = "swap" -> 4 [] OTHER -> 5) * 1009) % 65521
Chosen(v) == IF devs = <<>> THEN TRUE
             \* a wrong number of parameters together with the dimension that would fit
             ELSE IF At(Bases[base], devs[1][2]).tag = "dimension" /\ devs[1][1] = "text" /\ At(doc, v[2]).tag = "parameter" THEN TRUE
             ELSE (HashOf(devs[1]) + 13 * HashOf(v) + base * 7919) % Every = 0

Init == base \in DOMAIN Bases /\ doc = Bases[base] /\ devs = <<>>
\* an open element swallows what follows it: nothing more is done to such a document
Next == /\ Len(devs) < MaxDev /\ AllClosed(doc)
        /\ \E v \in {w \in Deviations(doc) : Chosen(w)} : doc' = Apply(doc, v) /\ devs' = Append(devs, v) /\ base' = base
Spec == Init /\ [][Next]_vars

(* ---- laws ---- *)
BasesValid == devs = <<>> => Valid(doc)
\* reading does not depend on the order of anything but parameters and constraints
Ordered == {"parameter", "constraint_function"}
OrderFree == Len(devs) <= OrderDepth => \A v \in {w \in Deviations(doc) : w[1] = "swap"} :
               LET n == At(doc, v[2]) m == At(doc, Append(SubSeq(v[2], 1, Len(v[2]) - 1), v[2][Len(v[2])] + 1))
               IN ~(n.tag = m.tag) => Read(Apply(doc, v)) = Read(doc)
Optional == {"increment", "max_number_of_inner_iterations", "number_of_threads", "number_of_training_iterations", "surrogate_model_type", "constraint_function"}
\* a document that lost a mandatory element, has it twice or left it open is rejected
Mandatory == Len(devs) = 1 =>
  LET v == devs[1] n == At(Bases[base], v[2]) IN
  /\ v[1] = "open" => ~Valid(doc)
  /\ v[1] = "repeat" => ~Valid(doc)
  /\ (v[1] = "remove" /\ n.tag \notin Optional /\ ~(n.tag = "name" /\ Bases[base].items[v[2][1]].tag = "general_settings")
       /\ ~(n.tag = "executable_filename" /\ Bases[base].items[v[2][1]].tag = "constraint_function")) => ~Valid(doc)
\* one changed text changes at most one setting
Fields == {"name", "dim", "budget", "inner", "threads", "params", "obj", "cons"}
Local == (Len(devs) = 1 /\ devs[1][1] = "text" /\ Valid(doc)) =>
           Cardinality({f \in Fields : Settings(doc)[f] # Settings(Bases[base])[f]}) <= 1

(* ---- test cases ---- *)
EmitDocs == PrintT(<<"DOC", ToJson([base |-> base, devs |-> devs, doc |-> doc, valid |-> Valid(doc)])>>)
===================================================================================
