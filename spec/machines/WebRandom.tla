-------------------------------- MODULE WebRandom --------------------------------
(* Random bytes in the WebAssembly build, from inline JavaScript.  In a browser    *)
(* the page's generator is used; it refuses requests for more than Quota bytes.    *)
(* Elsewhere the host's module is used, which has to be found first.  Any of them  *)
(* may throw; an exception that leaves the function unwinds the C code (Escape).   *)
(* Variant selects the design; TLC rejects "once" (one request for everything),    *)
(* "nocatch" (the page's exceptions are not caught), "deaf" (an exception is       *)
(* caught and taken for success), "first" (only the first request counts),         *)
(* "weak" (a caught exception is answered with a weak generator).                  *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS MaxN, Quota, Variant
VARIABLES env, n, pos, cov, pc, hist
vars == <<env,n,pos,cov,pc,hist>>
\* page: a window with a generator; host: a module that can be loaded
Envs == [page : BOOLEAN, host : BOOLEAN]
Init == env \in Envs /\ n \in 0..MaxN /\ pos = 0 /\ cov = {} /\ hist = "" /\ pc = (IF env.page THEN "page" ELSE IF env.host THEN "host" ELSE "fail")
Size == IF Variant = "once" \/ n - pos <= Quota THEN n - pos ELSE Quota
Take(k) == cov' = cov \cup {pos + i : i \in 1..k} /\ pos' = pos + k
Page(ok) == /\ pc = "page" /\ UNCHANGED <<env,n>>
            /\ IF n = pos THEN pc' = "ok" /\ UNCHANGED <<pos,cov,hist>>
               ELSE IF ok /\ Size <= Quota THEN Take(Size) /\ hist' = hist \o "w" /\ pc' = (IF Variant = "first" THEN "ok" ELSE "page")
               ELSE /\ hist' = hist \o "W" /\ UNCHANGED <<pos,cov>>
                    /\ pc' = (IF Variant \in {"once","nocatch"} THEN "escape" ELSE IF Variant \in {"deaf","weak"} THEN "ok" ELSE "fail")
Host(ok) == /\ pc = "host" /\ UNCHANGED <<env,n>>
            /\ IF ok THEN Take(n - pos) /\ hist' = hist \o "h" /\ pc' = "ok"
               ELSE UNCHANGED <<pos,cov>> /\ hist' = hist \o "H" /\ pc' = (IF Variant = "deaf" THEN "ok" ELSE "fail")
Next == \E ok \in BOOLEAN : Page(ok) \/ Host(ok)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Over == pc \in {"ok","fail","escape"}
FullDelivery == pc = "ok" => cov = 1..n
NoEscape == pc # "escape"
\* without a fault of the generator, and with a generator, there are bytes
Fault == \E i \in 1..Len(hist) : SubSeq(hist,i,i) \in {"W","H"}
FailsOnlyWithCause == pc = "fail" => Fault \/ ~(env.page \/ env.host)
Ends == <>Over
Emit == Over => PrintT("RUN " \o ToString(n) \o " " \o (IF env.page THEN "1" ELSE "0") \o (IF env.host THEN "1" ELSE "0") \o " " \o pc \o " " \o hist)
=================================================================================
