---------------------------------- MODULE DoEMC ----------------------------------
EXTENDS DoE, TLC, Json
CONSTANTS MaxN, MaxP, MaxF
Init == /\ n \in 0..MaxN /\ p \in 1..MaxP /\ nf \in 1..MaxF /\ latin \in BOOLEAN
        /\ failAt \in {<<0, 0>>} \cup ((1..nf) \X (1..n))
        /\ strata = <<>> /\ calls = <<>> /\ files = [f \in 1..nf |-> Old] /\ status = "new"
Samples == {st \in [1..n -> [1..p -> 0..(n - 1)]] : latin => \A j \in 1..p : \A s \in 0..(n - 1) : Cardinality({i \in 1..n : st[i][j] = s}) = 1}
Next == (\E st \in Samples : Choose(st)) \/ Refuse \/ Evaluate \/ Fail \/ Complete
Spec == Init /\ [][Next]_dvars /\ WF_dvars(Next)
Ends == <>(status \in {"done", "failed"})
EmitCases == status = "new" => PrintT(<<"CASE", ToJson([n |-> n, p |-> p, nf |-> nf, latin |-> latin, fail |-> failAt])>>)
===================================================================================
