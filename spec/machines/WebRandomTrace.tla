------------------------------ MODULE WebRandomTrace -----------------------------
(* Recorded calls of the random-byte function of the WebAssembly build.  A record  *)
(* has the environment, the number of bytes, the requests to generators in order   *)
(* (size; 1 delivered, 0 failed, 2 refused because too large), how the call ended, *)
(* and where each byte of the buffer came from: pieces (position, length, request, *)
(* offset in what that request delivered).  Any order and size of requests within  *)
(* the quota is a behaviour.                                                       *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES i, j, upto, good
vars == <<i,j,upto,good>>
Init == i = 1 /\ j = 1 /\ upto = 0 /\ good = TRUE
R == Log[i]
P == R.pieces[j]
Disjoint(a,b) == a[3] # b[3] \/ a[4] + a[2] <= b[4] \/ b[4] + b[2] <= a[4]
Piece == /\ i <= Len(Log) /\ j <= Len(R.pieces) /\ j' = j + 1 /\ UNCHANGED i
         /\ upto' = (IF P[1] = upto THEN upto + P[2] ELSE upto)
         /\ good' = (good /\ P[1] = upto /\ R.calls[P[3] + 1][2] = 1 /\ P[4] + P[2] <= R.calls[P[3] + 1][1] /\ \A k \in 1..(j - 1) : Disjoint(R.pieces[k],P))
Cause == R.worker \/ ~(R.page \/ R.host) \/ \E k \in 1..Len(R.calls) : R.calls[k][2] = 0
Fine == /\ ~R.escape /\ R.guard
        /\ IF R.rc = 0 THEN good /\ upto = R.n /\ ~R.weak ELSE Cause
Return == /\ i <= Len(Log) /\ j = Len(R.pieces) + 1 /\ i' = i + 1 /\ j' = 1 /\ upto' = 0 /\ good' = TRUE
          /\ (IF Fine THEN TRUE ELSE PrintT(<<"BAD",i>>))
Next == Piece \/ Return
Spec == Init /\ [][Next]_vars
Reached == i = Len(Log) + 1 => PrintT(<<"END",i>>)
=================================================================================
