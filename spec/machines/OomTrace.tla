--------------------------------- MODULE OomTrace --------------------------------
(* Outcomes of the real calls under refused allocations, each explained as the     *)
(* final state of a run of Oom.tla: the record gives whether the call succeeds     *)
(* undisturbed, how many requests it makes then, which of the requests made were   *)
(* refused, how it ended and whether its result was the undisturbed one.           *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES i, good, need, hist, pc, right
Log == ndJsonDeserialize(IOEnv.VF_TRACE)
M == INSTANCE Oom WITH Needs <- 1, Variant <- "any"
Load(k) == good = Log[k].good /\ need = 1 /\ hist = << >> /\ pc = "run" /\ right = TRUE
Init == i = 1 /\ Load(1)
\* refusals after the first change nothing in what is allowed: one refused request stands for all of them, one granted for a call without any
Step == i <= Len(Log) /\ pc = "run" /\ UNCHANGED i /\ (M!Return \/ (IF Log[i].refused > 0 THEN M!Refused ELSE M!Granted))
Fits == i <= Len(Log) /\ pc = Log[i].out /\ (pc = "ok" => Log[i].same)
Take == /\ Fits /\ i' = i + 1 /\ good' = (IF i < Len(Log) THEN Log[i+1].good ELSE TRUE) /\ need' = 1 /\ hist' = << >> /\ pc' = "run" /\ right' = TRUE
\* a record no run explains is reported and passed over
Bad(k) == LET x == Log[k] IN
  ~(\/ x.out = "stopped" /\ x.refused > 0
    \/ x.out = "failed" /\ (x.refused > 0 \/ ~x.good)
    \/ x.out = "ok" /\ x.good /\ x.same)
Pass == /\ i <= Len(Log) /\ Bad(i) /\ hist = << >> /\ PrintT(<<"BAD",i>>) /\ i' = i + 1
        /\ good' = (IF i < Len(Log) THEN Log[i+1].good ELSE TRUE) /\ UNCHANGED <<need,hist,pc,right>>
Next == Step \/ Take \/ Pass
Spec == Init /\ [][Next]_<<i,good,need,hist,pc,right>>
Reached == i = Len(Log) + 1 => PrintT(<<"END",i>>)
\* what Bad says is what the machine says
Agree == [][Take => ~Bad(i)]_<<i>>
=================================================================================
