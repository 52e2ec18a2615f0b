----------------------------------- MODULE Oom -----------------------------------
(* Allocation failure inside a call.  A call needs memory a number of times; any   *)
(* of these requests may be refused.  A call that is refused memory may stop the   *)
(* process (as the library does: exit(111)), may return failure, or may cope       *)
(* without the memory; it never goes on with what it does not have.  Good says     *)
(* whether the call would succeed undisturbed (a genuine signature) or be rejected *)
(* (a forged one).  Variant selects the design; TLC rejects the wrong ones:        *)
(* "ignore" (the result of the request is not looked at), "skip" (the step that    *)
(* needed the memory is left out), "accept" (the error is taken for success),      *)
(* "late" (only the last request is checked).                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Needs, Variant
VARIABLES good, need, hist, pc, right
vars == <<good,need,hist,pc,right>>
Init == /\ good \in BOOLEAN /\ need \in 1..Needs /\ hist = << >> /\ pc = "run" /\ right = TRUE
More == pc = "run" /\ Len(hist) < need
Granted == More /\ hist' = Append(hist,"y") /\ UNCHANGED <<good,need,pc,right>>
Refused == /\ More /\ hist' = Append(hist,"n") /\ UNCHANGED <<good,need>>
           /\ \/ Variant \in {"stop","any"} /\ pc' = "stopped" /\ right' = right
              \/ Variant \in {"error","any"} /\ pc' = "failed" /\ right' = right
              \/ Variant \in {"cope","any"} /\ UNCHANGED <<pc,right>>
              \/ Variant = "ignore" /\ pc' = "died" /\ right' = right
              \/ Variant = "skip" /\ pc' = pc /\ right' = FALSE
              \/ Variant = "accept" /\ pc' = "ok" /\ right' = FALSE
              \/ Variant = "late" /\ (IF Len(hist) + 1 = need THEN pc' = "stopped" /\ right' = right ELSE pc' = pc /\ right' = FALSE)
Return == pc = "run" /\ Len(hist) = need /\ pc' = (IF good \/ ~right THEN "ok" ELSE "failed") /\ UNCHANGED <<good,need,hist,right>>
Next == Granted \/ Refused \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Outcomes == {"stopped","failed","ok"}
\* success is reported only for what would have succeeded, with the result it would have had; nothing runs into missing memory
FailClosed == pc = "ok" => good /\ right
NoFault == pc # "died"
Ends == <>(pc \in Outcomes)
\* the pattern of refusals, once over (later requests of a stopped call are refused too)
Pat == [i \in 1..need |-> IF i <= Len(hist) THEN hist[i] ELSE "n"]
Str == IF need = 4 THEN Pat[1] \o Pat[2] \o Pat[3] \o Pat[4] ELSE ""
Emit == pc # "run" /\ need = 4 /\ "n" \in {hist[i] : i \in 1..Len(hist)} => PrintT("PAT " \o Str)
=================================================================================
