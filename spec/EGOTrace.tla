-------------------------------- MODULE EGOTrace --------------------------------
(***************************************************************************)
(* Validation of recorded runs against EGO.                                *)
(*                                                                         *)
(* A trace is the sequence of things observed in one run (or one run, its  *)
(* death, and the run that continues it).  "Hard" events -- evaluations,   *)
(* deaths, the end of the run -- drive the state machine.  The others only *)
(* report parts of the state; they are compared with the state of the      *)
(* specification when they appear at a step where they belong and are      *)
(* otherwise skipped, so that moving them about does not matter.           *)
(*                                                                         *)
(* Focus is the set of properties being decided: a conjunct is required    *)
(* only if its property is in Focus.  For the others the specification     *)
(* adopts what the implementation reports.  A run that leaves the          *)
(* structure of the loop altogether (P01) is not judged any further for    *)
(* other properties.                                                       *)
(***************************************************************************)
EXTENDS EGO, TLC, Json, IOUtils

CONSTANTS File, Focus

Traces == JsonDeserialize(File)

VARIABLES t, l, lost
tvars == <<vars, t, l, lost>>

T  == Traces[t]
Ev == T.ev
At(kind) == l <= Len(Ev) /\ Ev[l].e = kind
E  == Ev[l]
F(p) == p \in Focus
Req(p, b) == F(p) => b
Has(kind) == \E i \in DOMAIN T.have : T.have[i] = kind
InBox(dv) == T.inbox[dv]
One(s, x) == \E i \in DOMAIN s : s[i] = x       \* x occurs in the sequence s

Samples(rows) == [i \in DOMAIN rows |-> [dv |-> rows[i][1], val |-> rows[i][2]]]

TraceInit ==
  /\ t \in DOMAIN Traces
  /\ l = 1 /\ lost = FALSE
  /\ cfg = T.cfg
  /\ pc = "init" /\ k = 1 /\ iter = 0 /\ cur = NoDesign /\ hist = <<>> /\ nInit = 0 /\ ref = NOREF /\ best = 0
  /\ len = LEN0 /\ succ = 0 /\ fail = 0 /\ grow = 0 /\ bestDelta = 0 /\ trained = <<>>
  /\ data = Samples(T.d0)
  /\ cdata = [c \in DOMAIN T.c0 |-> Samples(T.c0[c])]

--------------------------------------------------------------------------------
(* Comparison of observations with the state *)

\* An observed number or design is given by the list of codes it may denote (a file has
\* fewer digits than the memory).
ConMatches(o, con) == Len(o) = Len(con) /\ \A c \in DOMAIN con : One(o[c], con[c])
\* rows of a history: r is observed, h is the state
RowMatches(r, h) ==
  /\ One(r.dvs, h.dv) /\ One(r.obj, h.obj)
  /\ ConMatches(r.con, h.con)
  /\ r.feas = h.feas
  /\ r.ilo <= h.imp /\ h.imp <= r.ihi
\* o.same leading rows equal those of the previous observation of the same kind
HistMatches(o) ==
  /\ o.ok
  /\ o.same + Len(o.rows) = Len(hist)
  /\ \A i \in DOMAIN o.rows : RowMatches(o.rows[i], hist[o.same + i])
DataMatches(o, d) ==
  /\ o.ok
  /\ o.same + Len(o.rows) = Len(d)
  /\ \A i \in DOMAIN o.rows : One(o.rows[i].dvs, d[o.same + i].dv) /\ One(o.rows[i].val, d[o.same + i].val)
BestMatches(o) ==
  /\ o.ok
  /\ o.id = best - 1
  /\ One(o.dvs, hist[best].dv) /\ One(o.obj, hist[best].obj)
  /\ ConMatches(o.con, hist[best].con)
  /\ o.feas = (FeasRows(hist) # {})
FilesMatch(s) ==
  /\ Req("P02", HistMatches(s.hist))
  /\ Req("P04", BestMatches(s.xml))
  /\ (F("P10") \/ F("P11")) => DataMatches(s.data[1], data) /\ \A c \in Cons : DataMatches(s.data[c + 1], cdata[c])
DataFilesMatch(s) == DataMatches(s.data[1], data) /\ \A c \in Cons : DataMatches(s.data[c + 1], cdata[c])

TOL == 30
Abs(x) == IF x < 0 THEN -x ELSE x
Clip(x) == IF x < 0 THEN 0 ELSE IF x > 100000000 THEN 100000000 ELSE x
WinLo(i) == Clip(T.norm[hist[best].dv][i] - len \div 10)
WinHi(i) == Clip(T.norm[hist[best].dv][i] + len \div 10)

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
IsPermutation(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])

--------------------------------------------------------------------------------
(* Actions *)

Keep == UNCHANGED vars
Consume == l' = l + 1 /\ UNCHANGED <<t, lost>>
Silent == UNCHANGED <<t, l, lost>>

\* Constraint samples are found by design up to a tiny tolerance: when another stored design is
\* that close, its value may be found as well.
TwinValues(c, dv) ==
  {cdata[c][i].val : i \in {j \in DOMAIN cdata[c] : One(T.twin[dv], cdata[c][j].dv)}}
    \cup (IF \E i \in DOMAIN cdata[c] : cdata[c][i].dv = dv THEN {} ELSE {MISS})
TRows ==
  LET r0 == RowsOf(data, cdata, InBox) IN
  IF ~At("initialized") \/ Len(E.hist.rows) # Len(r0) THEN r0
  ELSE [i \in DOMAIN r0 |-> [r0[i] EXCEPT !.con =
          [c \in Cons |->
             LET o == E.hist.rows[i].con[c]
                 V == {v \in TwinValues(c, r0[i].dv) : One(o, v)}
             IN IF Len(T.twin[r0[i].dv]) > 1 /\ V # {} THEN CHOOSE v \in V : TRUE ELSE r0[i].con[c]]]]

TInitialize ==
  LET h0 == HistoryOf(TRows)
      h == IF At("initialized") /\ ~F("P03") /\ Len(E.hist.rows) = Len(h0)
           THEN [i \in DOMAIN h0 |-> [h0[i] EXCEPT !.feas = E.hist.rows[i].feas]] ELSE h0
      r == IF At("initialized") /\ ~F("P05") THEN E.ref ELSE InitRef(h)
  IN /\ InitializeWith(h, r, BestSet(h))
     /\ IF At("initialized")
        THEN /\ Req("P05", E.ref = r)
             /\ Req("P03", Len(E.hist.rows) = Len(h) /\ \A i \in DOMAIN h : E.hist.rows[i].feas = h[i].feas)
             /\ (F("P02") \/ F("P11")) =>
                  /\ Len(E.hist.rows) = Len(h)
                  /\ \A i \in DOMAIN h : One(E.hist.rows[i].dvs, h[i].dv) /\ One(E.hist.rows[i].obj, h[i].obj)
                                         /\ ConMatches(E.hist.rows[i].con, h[i].con)
             /\ Req("P10", DataFilesMatch(E.files))
             /\ Req("P11", DataFilesMatch(E.files))
             /\ Consume
        ELSE Silent

\* observations that belong to the step reached
Fresh == pc \in {"begin"} /\ iter = 0
Observe ==
  \/ /\ pc \in {"begin", "done"} /\ At("best")
     /\ Req("P04", BestMatches(E))
     /\ Consume /\ Keep
  \/ /\ pc \in {"train", "propose"} /\ At("iteration")
     /\ Req("P01", E.iter = iter)
     /\ Consume /\ Keep
  \/ /\ pc = "propose" /\ At("window")
     /\ Req("P06", /\ Abs(E.length - len) <= 1
                   /\ \A i \in DOMAIN E.lb : /\ Abs(Clip(E.center[i]) - Clip(T.norm[hist[best].dv][i])) <= TOL
                                             /\ Abs(E.lb[i] - WinLo(i)) <= TOL
                                             /\ Abs(E.ub[i] - WinHi(i)) <= TOL)
     /\ Consume /\ Keep
  \/ /\ pc = "objective" /\ At("samples")
     /\ (F("P10") \/ F("P19")) => DataMatches(E, IF E.f = 0 THEN data ELSE cdata[E.f])
     /\ Consume /\ Keep
  \/ /\ pc = "store" /\ At("evaluated")
     /\ Req("P03", E.feas = cur.feas)
     /\ Req("P05", E.imp = cur.imp /\ E.ref = ref)
     /\ Req("P07", One(E.dv, cur.dv))
     /\ Req("P02", One(E.dv, cur.dv) /\ One(E.obj, cur.obj) /\ ConMatches(E.con, cur.con))
     /\ Consume /\ Keep
  \/ /\ pc = "region" /\ At("recorded")
     /\ Req("P02", HistMatches(E.hist) /\ HistMatches(E.files.hist))
     /\ Req("P03", LET r == E.hist.rows IN Len(r) = 0 \/ r[Len(r)].feas = hist[Len(hist)].feas)
     /\ Req("P05", LET r == E.hist.rows IN Len(r) = 0 \/ (r[Len(r)].ilo <= cur.imp /\ cur.imp <= r[Len(r)].ihi))
     /\ Req("P10", DataFilesMatch(E.files))
     /\ Consume /\ Keep
  \/ /\ pc = "best" /\ At("region")
     /\ Req("P06", /\ Abs(E.length - len) <= 1 /\ E.success = succ /\ E.failure = fail
                   /\ E.grow = grow
                   /\ E.sigma >= 1000 /\ E.sigma <= 100000)
     /\ Consume /\ Keep

ObservationPending ==
  \/ pc \in {"begin", "done"} /\ At("best")
  \/ pc \in {"train", "propose"} /\ At("iteration")
  \/ pc = "propose" /\ At("window")
  \/ pc = "objective" /\ At("samples")
  \/ pc = "store" /\ At("evaluated")
  \/ pc = "region" /\ At("recorded")
  \/ pc = "best" /\ At("region")

TTrain ==
  IF Has("trained") /\ F("P19")
  THEN /\ At("trained") /\ Train /\ Consume
       /\ Has("model_trained") => IsPermutation(E.n, [f \in 1..(cfg.nc + 1) |-> IF f = 1 THEN Len(data) ELSE Len(cdata[f - 1])])
  ELSE Train /\ (IF At("trained") THEN Consume ELSE Silent)

\* where the next design is proposed from: the incumbent's window
ProposalOk(e) ==
  /\ Req("P06", \A i \in DOMAIN e.norm : e.norm[i] >= WinLo(i) - TOL /\ e.norm[i] <= WinHi(i) + TOL)
  \* discrete coordinates: p is the proposed position in thousandths of the increment, last the last grid index
  /\ Req("P07", \A j \in DOMAIN e.disc :
        LET d == e.disc[j] IN d.k >= 0 /\ d.k <= d.last
          /\ (d.k < d.last => d.p <= 1000*d.k + 501) /\ (d.k > 0 => d.p >= 1000*d.k - 501))
DesignOk(dv) ==
  Req("P07", T.inbox[dv] /\ T.grid[dv])

TPropose ==
  \/ /\ At("proposal") /\ Propose(E.dv) /\ ProposalOk(E) /\ DesignOk(E.dv) /\ Consume
  \/ /\ At("call") /\ E.f = 0 /\ Propose(E.dv) /\ DesignOk(E.dv) /\ Silent
TEvaluateObjective ==
  /\ At("call") /\ E.f = 0 /\ ~E.thrown
  /\ F("P01") => E.dv = cur.dv
  /\ F("P07") => E.dv = cur.dv
  /\ (F("P02") \/ F("P04") \/ F("P10")) => FilesMatch(E.files)
  /\ EvaluateObjective(E.val) /\ Consume
TEvaluateConstraint ==
  /\ At("call") /\ E.f = NextCon /\ ~E.thrown
  /\ F("P01") => E.dv = cur.dv
  /\ F("P07") => E.dv = cur.dv
  /\ EvaluateConstraint(E.val) /\ Consume
TFault ==
  /\ At("call") /\ E.thrown
  /\ E.f = IF pc = "objective" THEN 0 ELSE NextCon
  /\ Fault /\ Consume
TAssess ==
  LET f == IF At("evaluated") /\ ~F("P03") THEN E.feas ELSE Feasible(cur.con)
      i == IF At("evaluated") /\ ~F("P05") THEN E.imp ELSE ImprovementOf(f, cur.obj, ref)
      r == IF At("evaluated") /\ ~F("P05") THEN E.ref ELSE RefAfter(f, cur.obj, ref)
  IN AssessWith(f, i, r) /\ Silent

\* equal up to rounding of the file: never stored twice; merely close: either way
Discards(d, dv, v) ==
  IF \E i \in DOMAIN d : d[i].dv = dv /\ d[i].val = v THEN {TRUE}
  ELSE IF (F("P10") \/ F("P11") \/ F("P19")) /\ \E i \in DOMAIN d : One(T.near[dv], d[i].dv) /\ d[i].val = v THEN {TRUE, FALSE}
  ELSE {FALSE}
TStoreObjective ==
  \E d \in Discards(data, cur.dv, cur.obj) : StoreObjective(d) /\ Silent
TStoreConstraint ==
  \E c \in Cons : \E d \in Discards(cdata[c], cur.dv, cur.con[c]) : StoreConstraint(c, d) /\ Silent

TUpdateRegion == \E r \in BOOLEAN : UpdateRegion(r) /\ Silent

\* the search for the incumbent comes right after; adopt it when it is not being judged
RECURSIVE NextBest(_)
NextBest(i) == IF i > Len(Ev) THEN 0 ELSE IF Ev[i].e = "best" THEN Ev[i].id + 1
               ELSE IF Ev[i].e \in {"region"} THEN NextBest(i + 1) ELSE 0
TUpdateBest ==
  /\ UpdateBestFrom(IF ~F("P04") /\ NextBest(l) \in DOMAIN hist THEN {NextBest(l)} ELSE BestSet(hist))
  /\ Silent

--------------------------------------------------------------------------------
(* Death and end of a run *)

TCrash ==
  /\ At("crash")
  /\ (F("P10") \/ F("P11")) => DataFilesMatch(E.files)
  /\ IF F("P10") \/ F("P11") THEN UNCHANGED <<data, cdata>>
     ELSE /\ data' = Samples(E.d)
          /\ cdata' = [c \in DOMAIN E.c |-> Samples(E.c[c])]
  /\ pc \notin {"failed"}
  /\ pc' = "init"
  /\ UNCHANGED <<cfg, k, iter, cur, hist, nInit, ref, best, len, succ, fail, grow, bestDelta, trained>>
  /\ Consume

TEnd ==
  /\ At("end")
  /\ (pc = "done" /\ E.status = 0) \/ (pc = "failed" /\ E.status # 0)
  /\ pc = "done" => FilesMatch(E.files)
  /\ pc = "failed" => (F("P02") => HistMatches(E.files.hist)) /\ (F("P10") => DataFilesMatch(E.files))
  /\ Keep /\ Consume

Waiting == pc \in {"propose", "objective", "constraints", "done", "failed"}
Hard == At("call") \/ At("end") \/ At("crash")
HardExpected ==
  \/ At("crash")
  \/ At("call") /\ pc \in {"propose", "objective"} /\ E.f = 0
  \/ At("call") /\ pc = "constraints" /\ E.f = NextCon
  \/ At("end") /\ pc = "done" /\ E.status = 0
  \/ At("end") /\ pc = "failed" /\ E.status # 0
\* observations out of place
Skip ==
  /\ Waiting /\ l <= Len(Ev) /\ ~Hard /\ ~ObservationPending
  /\ ~(pc = "propose" /\ At("proposal"))
  /\ ~(F("P19") /\ At("trained") /\ iter > 0)
  /\ Keep /\ Consume
\* the run left the loop of the specification
Lose ==
  /\ ~F("P01") /\ Waiting /\ Hard /\ ~HardExpected
  /\ lost' = TRUE /\ UNCHANGED <<vars, t, l>>

Finished == lost \/ l > Len(Ev)
Finish == Finished /\ PrintT(<<"ACCEPTED", t>>) /\ UNCHANGED tvars

TraceNext ==
  \/ ~lost /\
     \/ TCrash
     \/ Observe
     \/ /\ ~ObservationPending
        /\ \/ pc = "init" /\ ~At("crash") /\ TInitialize
           \/ pc = "begin" /\ Begin /\ Silent
           \/ pc = "train" /\ TTrain
           \/ pc = "propose" /\ TPropose
           \/ pc = "objective" /\ (TEvaluateObjective \/ TFault)
           \/ pc = "constraints" /\ (TEvaluateConstraint \/ TFault)
           \/ pc = "assess" /\ TAssess
           \/ pc = "store" /\ TStoreObjective
           \/ pc = "storecon" /\ TStoreConstraint
           \/ pc = "record" /\ Record /\ Silent
           \/ pc = "region" /\ TUpdateRegion
           \/ pc = "best" /\ TUpdateBest
           \/ pc \in {"done", "failed"} /\ TEnd
           \/ Skip \/ Lose
  \/ Finish

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* diagnosis of a rejected trace
Progress == PrintT(<<"AT", t, l, pc, iter>>)
================================================================================
