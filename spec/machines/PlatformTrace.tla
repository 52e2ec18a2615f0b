------------------------------ MODULE PlatformTrace ------------------------------
(* Recorded calls of the random-byte function built for another system.  Each      *)
(* record has the number of bytes, the requests to the system in order (numbers    *)
(* as pairs in base 2^24, since they exceed TLC's integers) and how it returned.   *)
(* Any size and order of requests is a behaviour; what counts is what they cover.  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VF_TRACE)
B == 16777216
Add(a,b) == LET l == a[2] + b[2] IN << a[1] + b[1] + (l \div B), l % B >>
Leq(a,b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Zero == <<0,0>>
VARIABLES i, j, iv, open, good
vars == <<i,j,iv,open,good>>
Init == i = 1 /\ j = 1 /\ iv = {} /\ open = 0 /\ good = TRUE
R == Log[i]
E == R.ev[j]
Inside == Leq(Add(E.off,E.len),R.n)
Event == /\ i <= Len(Log) /\ j <= Len(R.ev) /\ j' = j + 1 /\ UNCHANGED i
         /\ CASE E.op \in {"prim","gen"} -> /\ iv' = (IF E.ok THEN iv \cup {<<E.off,Add(E.off,E.len)>>} ELSE iv) /\ good' = (good /\ Inside /\ (E.op = "gen" => open > 0)) /\ UNCHANGED open
              [] E.op \in {"acq","open"} -> open' = (IF E.ok THEN open + 1 ELSE open) /\ UNCHANGED <<iv,good>>
              [] E.op = "rel" -> open' = (IF open > 0 THEN open - 1 ELSE 0) /\ good' = (good /\ open > 0) /\ UNCHANGED iv
              [] OTHER -> good' = FALSE /\ UNCHANGED <<iv,open>>
\* the end of what the intervals cover from position p on without a gap
RECURSIVE Reach(_)
Reach(p) == LET s == {x \in iv : Leq(x[1],p) /\ ~Leq(x[2],p)} IN IF s = {} THEN p ELSE Reach((CHOOSE x \in s : TRUE)[2])
\* failure has a cause in the fallback; a system that never failed is no cause
Cause == \E k \in 1..Len(R.ev) : R.ev[k].op \in {"acq","gen","rel"} /\ ~R.ev[k].ok
Fine == good /\ open = 0 /\ (IF R.rc = 0 THEN Leq(R.n,Reach(Zero)) ELSE Cause)
Return == /\ i <= Len(Log) /\ j = Len(R.ev) + 1 /\ i' = i + 1 /\ j' = 1 /\ iv' = {} /\ open' = 0 /\ good' = TRUE
          /\ (IF Fine THEN TRUE ELSE PrintT(<<"BAD",i>>))
Next == Event \/ Return
Spec == Init /\ [][Next]_vars
Reached == i = Len(Log) + 1 => PrintT(<<"END",i>>)
=================================================================================
