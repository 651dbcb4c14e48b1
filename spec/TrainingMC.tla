-------------------------------- MODULE TrainingMC -------------------------------
EXTENDS Training, TLC, Json
CONSTANTS MaxThreads, Values, Fail, MaxSamples
Init == /\ \E n \in 1..MaxThreads : value \in [1..n -> Values \cup {Fail}]
        /\ order = <<>> /\ chosen = 0 /\ status = "running"
        /\ \E n \in 1..MaxSamples : data = [i \in 1..n |-> i]
Next == (\E t \in Threads : HandIn(t)) \/ Complete
Spec == Init /\ [][Next]_tvars /\ WF_tvars(Next)
NeverFails == NoFailure(Fail)
DataKept == [][data' = data]_tvars
Ends == <>(status = "done")
Emit == (status = "done" /\ Len(data) = 1) => PrintT(<<"CASE", ToJson([value |-> value, order |-> order])>>)
===================================================================================
