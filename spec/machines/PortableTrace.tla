------------------------------- MODULE PortableTrace --------------------------------
(* Recorded results of the real code: per run the call (a number), the platform, and *)
(* what the caller observed (success, length, digest of the outputs).  Agree of      *)
(* Portable.tla over all platforms on which a call was run.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES i, out, on
vars == <<i,out,on>>
Calls == {Log[k].call : k \in 1..Len(Log)}
Init == i = 1 /\ out = [c \in Calls |-> <<>>] /\ on = [c \in Calls |-> {}]
R == Log[i]
Run == /\ i <= Len(Log) /\ i' = i + 1 /\ on' = [on EXCEPT ![R.call] = @ \cup {R.plat}]
       /\ IF out[R.call] = <<>> THEN out' = [out EXCEPT ![R.call] = R.res]
          ELSE UNCHANGED out /\ (IF out[R.call] = R.res THEN TRUE ELSE PrintT(<<"BAD",i>>))
Next == Run
Spec == Init /\ [][Next]_vars
\* the comparison is not empty: every call was run on several platforms
Reached == i = Len(Log) + 1 => PrintT(<<"END",i>>) /\ \A c \in Calls : (IF Cardinality(on[c]) > 2 THEN TRUE ELSE PrintT(<<"LONE",c>>))
====================================================================================
