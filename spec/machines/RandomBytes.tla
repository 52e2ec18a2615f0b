------------------------------ MODULE RandomBytes ------------------------------
(* The random-byte function over an operating system call that may deliver      *)
(* fewer bytes than asked, be interrupted, or fail.  One action per OS call.    *)
(* Limit is the largest request the OS accepts.                                 *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS MaxN, Limit, MaxIntr, Errnos
VARIABLES n, got, pc, hist, intr
vars == <<n, got, pc, hist, intr>>
Init == /\ n \in 0..MaxN
        /\ got = 0
        /\ pc = (IF n = 0 THEN "ok" ELSE "ask")
        /\ hist = << >>
        /\ intr = 0
Request == IF n - got > Limit THEN Limit ELSE n - got
Deliver(k) == /\ pc = "ask" /\ k \in 1..Request
              /\ got' = got + k /\ hist' = Append(hist,k)
              /\ pc' = IF got + k = n THEN "ok" ELSE "ask"
              /\ UNCHANGED <<n,intr>>
Interrupt == /\ pc = "ask" /\ intr < MaxIntr
             /\ intr' = intr + 1 /\ hist' = Append(hist,-4)
             /\ UNCHANGED <<n,got,pc>>
Nothing == /\ pc = "ask" /\ intr < MaxIntr                       \* a delivery of no bytes: nothing has been gained; giving up is allowed too
           /\ intr' = intr + 1 /\ hist' = Append(hist,0)
           /\ UNCHANGED <<n,got,pc>>
Error(e) == /\ pc = "ask" /\ pc' = "fail" /\ hist' = Append(hist,-e) /\ UNCHANGED <<n,got,intr>>
Next == (\E k \in 1..MaxN : Deliver(k)) \/ Interrupt \/ Nothing \/ (\E e \in Errnos : Error(e))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoShortSuccess == pc = "ok" => got = n
InBounds == got <= n /\ (pc = "ask" => Request \in 1..(n - got))
ProgressKept == [][got' >= got]_vars
Terminates == <>(pc \in {"ok","fail"})
Emit == IF pc \in {"ok","fail"} THEN PrintT(<<"RUN", n, pc, ToJson(hist)>>) ELSE TRUE
=============================================================================
