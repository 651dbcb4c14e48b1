--------------------------------- MODULE ApiMC ----------------------------------
(***************************************************************************)
(* Sequences of calls: complete sequences (File) in which a call is left   *)
(* out, exchanged with its neighbour, or another call is put in.  The laws *)
(* of the interface are checked on all of them and they are printed as     *)
(* test cases.                                                             *)
(***************************************************************************)
EXTENDS Api, TLC, Json, FiniteSets
CONSTANTS File, MaxDev, Every, EveryPair, Seed
Input == JsonDeserialize(File)
Bases == Input.bases
Extra == Input.calls
Dirs == {Input.dirs[i] : i \in DOMAIN Input.dirs}
VARIABLES base, seq, devs
vars == <<base, seq, devs>>

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
With(s, i, c) == SubSeq(s, 1, i - 1) \o <<c>> \o SubSeq(s, i, Len(s))
Deviations(s) ==
  {<<"remove", i, 0>> : i \in DOMAIN s} \cup
  {<<"swap", i, 0>> : i \in 1..(Len(s) - 1)} \cup
  {<<"repeat", i, 0>> : i \in DOMAIN s} \cup
  {<<"insert", i, k>> : i \in DOMAIN s, k \in DOMAIN Extra}
Apply(s, v) ==
  CASE v[1] = "remove" -> Without(s, v[2])
    [] v[1] = "swap" -> [s EXCEPT ![v[2]] = s[v[2] + 1], ![v[2] + 1] = s[v[2]]]
    [] v[1] = "repeat" -> With(s, v[2], s[v[2]])
    [] v[1] = "insert" -> With(s, v[2], Extra[v[3]])
Kind(v) == CASE v[1] = "remove" -> 1 [] v[1] = "swap" -> 2 [] v[1] = "repeat" -> 3 [] OTHER -> 4
Hash(v) == (Seed * 7919 + base * 104729 + Kind(v) * 1009 + v[2] * 131 + v[3] * 31337) % 65521
Chosen(v) == IF devs = <<>> THEN v[1] # "insert" \/ Hash(v) % Every = 0
             ELSE (Hash(v) * 13 + Hash(devs[1])) % EveryPair = 0

Init == base \in DOMAIN Bases /\ seq = Bases[base] /\ devs = <<>>
Next == /\ Len(devs) < MaxDev
        /\ \E v \in {w \in Deviations(seq) : Chosen(w)} : seq' = Apply(seq, v) /\ devs' = Append(devs, v) /\ base' = base
Spec == Init /\ [][Next]_vars

RECURSIVE StateAfter(_)
StateAfter(s) == IF s = <<>> THEN Nothing ELSE AfterCall(StateAfter(SubSeq(s, 1, Len(s) - 1)), s[Len(s)], Dirs)
Prefixes == {SubSeq(seq, 1, i) : i \in 0..Len(seq)}

(* ---- laws ---- *)
BasesComplete == devs = <<>> => Complete(StateAfter(seq)) /\ Distinct(StateAfter(seq))
\* a call given twice has the effect of the last one; constraints accumulate
LastWins == \A p \in Prefixes : LET s == StateAfter(p) IN
   \A i, j \in DOMAIN Extra :
      (/\ Extra[i].op = Extra[j].op /\ Extra[i].op \notin {"con", "run"}
       /\ Accepts(AfterCall(s, Extra[i], Dirs), Extra[j], Dirs) /\ Accepts(s, Extra[j], Dirs))
      => AfterCall(AfterCall(s, Extra[i], Dirs), Extra[j], Dirs) = AfterCall(s, Extra[j], Dirs)
\* what was complete stays complete
Monotone == \A i \in 1..Len(seq) : Complete(StateAfter(SubSeq(seq, 1, i - 1))) => Complete(StateAfter(SubSeq(seq, 1, i))) \/ (seq[i].op = "budget" /\ seq[i].n = 0)
Accumulate == \A i \in 1..Len(seq) :
   LET a == StateAfter(SubSeq(seq, 1, i - 1)).cons b == StateAfter(SubSeq(seq, 1, i)).cons IN
   /\ Len(b) = Len(a) + (IF seq[i].op = "con" /\ Accepts(StateAfter(SubSeq(seq, 1, i - 1)), seq[i], Dirs) THEN 1 ELSE 0)
   /\ SubSeq(b, 1, Len(a)) = a
\* calls that set different things may be exchanged
Free == {"doe", "budget", "name", "cwd", "strategy"}
Commute == \A i \in 1..(Len(seq) - 1) :
   (seq[i].op \in Free /\ seq[i + 1].op # seq[i].op /\ seq[i + 1].op # "run") =>
     StateAfter(SubSeq(seq, 1, i + 1)) = StateAfter(SubSeq(seq, 1, i - 1) \o <<seq[i + 1], seq[i]>>)
EmitCalls == PrintT(<<"CALLS", ToJson([base |-> base, devs |-> devs, calls |-> seq])>>)
===================================================================================
