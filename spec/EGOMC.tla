--------------------------------- MODULE EGOMC ---------------------------------
(* Exhaustive exploration of EGO with small constants, crashes and faults.   *)
EXTENDS EGO
CONSTANTS Tok, Val, Budgets, MaxCrash, Init0Len
VARIABLE crashes
mcvars == <<vars, crashes>>

InBox(dv) == dv # 1          \* token 1 stands for a sample outside the box
Sorted(S) == LET RECURSIVE f(_) f(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o f(T \ {m}) IN f(S)

MCInit ==
  /\ cfg \in [nc : {0, 1}, budget : Budgets, retrain : {1, 2}, op : {<<"<">>}, thr : {<<1>>}, stol : {2}, ftol : {2}]
  /\ pc = "init" /\ k = 1 /\ iter = 0 /\ cur = NoDesign /\ hist = <<>> /\ nInit = 0 /\ ref = NOREF /\ best = 0
  /\ len = LEN0 /\ succ = 0 /\ fail = 0 /\ grow = 0 /\ bestDelta = 0 /\ trained = <<>>
  /\ \E n \in Init0Len : \E f \in [1..n -> Val] : data = [i \in 1..n |-> [dv |-> i, val |-> f[i]]]
  /\ cdata \in {<<cd>> : cd \in
        {<<>>} \cup {<<[dv |-> t, val |-> v]>> : t \in {1, 2}, v \in {0, 1}}}
  /\ crashes = 0

\* a design coincides with a stored one if token and value are equal
Stored(d, dv, v) == \E i \in DOMAIN d : d[i].dv = dv /\ d[i].val = v

Step ==
  \/ Initialize(RowsOf(data, cdata, InBox))
  \/ Begin \/ Train
  \/ \E dv \in Tok : Propose(dv)
  \/ \E v \in Val : EvaluateObjective(v)
  \/ \E v \in {0, 1} : EvaluateConstraint(v)
  \/ Assess \/ Fault
  \/ StoreObjective(Stored(data, cur.dv, cur.obj))
  \/ \E c \in Cons : StoreConstraint(c, Stored(cdata[c], cur.dv, cur.con[c]))
  \/ Record
  \/ \E r \in BOOLEAN : UpdateRegion(r)
  \/ UpdateBest
MCNext ==
  \/ Step /\ UNCHANGED crashes
  \/ Crash /\ crashes < MaxCrash /\ crashes' = crashes + 1
  \/ pc \in {"done", "failed"} /\ UNCHANGED mcvars
Spec == MCInit /\ [][MCNext]_mcvars

(* P11: after a crash a sample is lost only if its iteration was not stored, and
   constraint files lag at most one row per crash behind the objective file *)
CrashLag ==
  \A c \in Cons : pc \in {"store", "begin", "done"} /\ cfg.nc > 0 =>
     Cardinality({i \in DOMAIN data : i > nInit /\ ~\E j \in DOMAIN cdata[c] : cdata[c][j].dv = data[i].dv}) <= crashes
\* a restarted run starts from exactly the stored samples
RestartFaithful ==
  pc = "begin" /\ iter = 0 =>
    /\ Len(hist) = Len(data)
    /\ \A i \in DOMAIN data : hist[i].dv = data[i].dv /\ hist[i].obj = data[i].val
    /\ \A i \in DOMAIN data : \A c \in Cons :
         (~\E j \in DOMAIN cdata[c] : cdata[c][j].dv = data[i].dv) => ~hist[i].feas
================================================================================
