---------------------------------- MODULE Fresh ----------------------------------
(* Signing calls of several threads drawing nonces from the OS.  The OS numbers   *)
(* the units it delivers, so freshness is a statement about numbers.  A draw may  *)
(* deliver part of the request or fail.  Variant selects the design: "spec", or   *)
(* a wrong one that TLC must reject ("shared": one buffer for all threads;        *)
(* "keep": a failed or partial draw leaves old units in place and is ignored).    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Need, Calls, Variant
VARIABLES next, pc, buf, start, left, sigs, hist
vars == <<next,pc,buf,start,left,sigs,hist>>
Init == /\ next = 1 /\ pc = [p \in Procs |-> "idle"] /\ buf = [p \in Procs |-> << >>]
        /\ start = [p \in Procs |-> 0] /\ left = [p \in Procs |-> Calls] /\ sigs = {} /\ hist = << >>
Slot(p) == IF Variant = "shared" THEN CHOOSE q \in Procs : TRUE ELSE p
Begin(p) == /\ pc[p] = "idle" /\ left[p] > 0
            /\ pc' = [pc EXCEPT ![p] = "draw"] /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ start' = [start EXCEPT ![p] = next]
            /\ buf' = (IF Variant = "keep" THEN buf ELSE [buf EXCEPT ![Slot(p)] = << >>])
            /\ hist' = Append(hist,<<p,"begin",0>>) /\ UNCHANGED <<next,sigs>>
Have(p) == IF Variant = "keep" THEN 0 ELSE Len(buf[Slot(p)])
Draw(p,k) == /\ pc[p] = "draw" /\ k \in 1..(Need - Have(p))
             /\ LET ids == [i \in 1..k |-> next + i - 1]
                    b == IF Variant = "keep" THEN ids \o SubSeq(buf[p],k+1,Len(buf[p])) ELSE buf[Slot(p)] \o ids IN
                /\ buf' = [buf EXCEPT ![Slot(p)] = b]
                /\ pc' = [pc EXCEPT ![p] = IF Len(b) >= Need THEN "sign" ELSE "draw"]
             /\ next' = next + k /\ hist' = Append(hist,<<p,"draw",k>>) /\ UNCHANGED <<start,left,sigs>>
Fail(p) == /\ pc[p] = "draw" /\ hist' = Append(hist,<<p,"fail",0>>) /\ UNCHANGED <<next,buf,start,left,sigs>>
           /\ pc' = [pc EXCEPT ![p] = IF Variant = "keep" /\ Len(buf[p]) >= Need THEN "sign" ELSE "idle"]
\* in the shared variant another thread may have completed (or restarted) the buffer
Join(p) == /\ Variant = "shared" /\ pc[p] = "draw" /\ Have(p) >= Need /\ pc' = [pc EXCEPT ![p] = "sign"]
           /\ UNCHANGED <<next,buf,start,left,sigs,hist>>
Sign(p) == /\ pc[p] = "sign" /\ Len(buf[Slot(p)]) >= Need /\ sigs' = sigs \cup {[p |-> p, from |-> start[p], nonce |-> SubSeq(buf[Slot(p)],1,Need)]}
           /\ pc' = [pc EXCEPT ![p] = "idle"] /\ hist' = Append(hist,<<p,"sign",0>>) /\ UNCHANGED <<next,buf,start,left>>
Next == \E p \in Procs : Begin(p) \/ Join(p) \/ Fail(p) \/ Sign(p) \/ \E k \in 1..Need : Draw(p,k)
Spec == Init /\ [][Next]_vars
Ids(s) == {s.nonce[i] : i \in 1..Len(s.nonce)}
Complete == \A s \in sigs : Len(s.nonce) = Need /\ Cardinality(Ids(s)) = Need
FreshIds == \A s \in sigs : \A i \in Ids(s) : i >= s.from
Disjoint == \A s,t \in sigs : s # t => Ids(s) \cap Ids(t) = {}
Idle == \A p \in Procs : pc[p] = "idle" /\ left[p] = 0
Emit == IF Idle THEN PrintT(<<"RUN",ToJson(hist)>>) ELSE TRUE
=============================================================================
