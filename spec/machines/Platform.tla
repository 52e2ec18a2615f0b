--------------------------------- MODULE Platform --------------------------------
(* Random bytes on a system with two sources: the preferred one, and a provider    *)
(* that has to be opened and closed, used when the preferred one fails (Windows).  *)
(* A request can ask for at most Limit bytes; a wider count is cut off.  Systems   *)
(* with one source that cannot fail (BSD, WASI) are the case Sources = 1.          *)
(* Variant selects the design; TLC rejects "narrow" (one request for everything),  *)
(* "leak" (the provider stays open after a failure), "mixed" (the provider fills   *)
(* only what follows the failed request's end), "deaf" (failure is not looked at). *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS MaxN, Limit, Sources, Variant
VARIABLES n, pos, cov, open, pc, hist
vars == <<n,pos,cov,open,pc,hist>>
Init == n \in 0..MaxN /\ pos = 0 /\ cov = {} /\ open = 0 /\ pc = "prim" /\ hist = ""
Want == n - pos
Req == IF Variant = "narrow" THEN Want % (Limit + 1) ELSE IF Want > Limit THEN Limit ELSE Want
Next_(k) == IF Variant = "narrow" THEN n ELSE pos + k
Got == cov' = cov \cup {pos + i : i \in 1..Req} /\ pos' = Next_(Req)
Prim(ok) == /\ pc = "prim" /\ hist' = hist \o (IF ok THEN "p" ELSE "P")
            /\ IF ok \/ Variant = "deaf" THEN /\ (IF ok THEN Got ELSE pos' = Next_(Req) /\ cov' = cov)
                                              /\ pc' = (IF pos' = n THEN "ok" ELSE "prim")
               ELSE /\ pos' = (IF Variant = "mixed" THEN Next_(Req) ELSE 0) /\ cov' = cov /\ pc' = "acq"
            /\ UNCHANGED <<n,open>>
Acq(ok) == /\ pc = "acq" /\ hist' = hist \o (IF ok THEN "a" ELSE "A") /\ open' = (IF ok THEN 1 ELSE 0)
           /\ pc' = (IF ~ok THEN "fail" ELSE IF pos = n THEN "rel" ELSE "gen") /\ UNCHANGED <<n,pos,cov>>
Gen(ok) == /\ pc = "gen" /\ hist' = hist \o (IF ok THEN "g" ELSE "G")
           /\ IF ok THEN Got /\ pc' = (IF pos' = n THEN "rel" ELSE "gen") ELSE UNCHANGED <<pos,cov>> /\ pc' = (IF Variant = "leak" THEN "fail" ELSE "relf")
           /\ UNCHANGED <<n,open>>
Rel(ok) == /\ pc \in {"rel","relf"} /\ hist' = hist \o (IF ok THEN "r" ELSE "R") /\ open' = 0
           /\ pc' = (IF ok /\ pc = "rel" THEN "ok" ELSE "fail") /\ UNCHANGED <<n,pos,cov>>
Next == \E ok \in BOOLEAN : (Sources = 1 => ok) /\ (Prim(ok) \/ Acq(ok) \/ Gen(ok) \/ Rel(ok))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Over == pc \in {"ok","fail"}
FullDelivery == pc = "ok" => cov = 1..n
AllReleased == Over => open = 0
Ends == <>Over
Emit == Over => PrintT("RUN " \o ToString(n) \o " " \o pc \o " " \o hist)
=================================================================================
