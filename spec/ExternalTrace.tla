-------------------------------- MODULE ExternalTrace -----------------------------
(* Recorded studies with executables.  The plan (what each executable does at each call) is known. *)
EXTENDS External, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l
tvars == <<vars, t, l>>
T == Traces[t]
Ev == T.ev
At(k) == l <= Len(Ev) /\ Ev[l].e = k
E == Ev[l]
One(s, x) == \E i \in DOMAIN s : s[i] = x
TInit == t \in DOMAIN Traces /\ l = 1 /\ Start(T.nf, T.budget, TRUE, T.shared, [i \in 1..T.nf |-> NONE])
Kind == T.plan[f][it]

RowsMatch(o, h) ==      \* o: observed rows (after the initial ones), h: recorded designs
  /\ o.ok
  /\ Len(o.rows) = Len(h)
  /\ \A i \in DOMAIN h : One(o.rows[i].dvs, h[i].dv) /\ \A j \in 1..Len(o.rows[i].vals) : One(o.rows[i].vals[j], h[i].vals[o.col + j])
\* the files of the study hold exactly the recorded designs (one row per design; coinciding designs may be left out of the training data)
FilesHold(fs) ==
  /\ RowsMatch(fs.hist, rec)
  /\ \A i \in DOMAIN fs.data :
       /\ fs.data[i].ok
       /\ (~T.coincide) => RowsMatch(fs.data[i], rec)

TPropose == At("call") /\ E.f = 1 /\ Propose(E.dv) /\ UNCHANGED <<t, l>>
\* the first executable cannot be started: its design is not seen
TProposeUnseen == ~At("call") /\ it < budget /\ T.plan[1][it + 1] \in CannotStart /\ Propose(0) /\ UNCHANGED <<t, l>>
TWrite == WriteDesign /\ UNCHANGED <<t, l>>
TLaunch ==
  IF Kind \in CannotStart
  THEN Launch(Kind, 0) /\ UNCHANGED <<t, l>>
  ELSE /\ At("call") /\ E.f = f /\ E.kind = Kind
       /\ E.clean /\ E.dv = dfile[f] /\ E.exact       \* the design vector file held this design and nothing else
       /\ E.n = it - 1                                \* called once per design
       /\ (f = 1 => FilesHold(E.files))
       /\ Launch(Kind, E.val) /\ l' = l + 1 /\ t' = t
TRead == Read /\ UNCHANGED <<t, l>>
TRecord ==
  /\ Record
  /\ IF At("evaluated") THEN E.exact /\ One(E.dvs, design) /\ (\A i \in 1..nf : One(E.vals[i], got[i])) /\ l' = l + 1 ELSE l' = l
  /\ t' = t
TEnd ==
  /\ At("end")
  /\ \/ Finished /\ E.status = 0
     \/ pc = "failed" /\ E.status # 0
  /\ FilesHold(E.files)
  /\ l' = l + 1 /\ UNCHANGED <<vars, t>>
Finish == l > Len(Ev) /\ PrintT(<<"ACCEPTED", t>>) /\ UNCHANGED tvars
TNext ==
  \/ TPropose \/ TProposeUnseen
  \/ TWrite \/ (pc = "launch" /\ TLaunch) \/ TRead \/ TRecord \/ TEnd \/ Finish
TraceSpec == TInit /\ [][TNext]_tvars
Progress == PrintT(<<"AT", t, l, pc, it>>)
================================================================================
