-------------------------------- MODULE Forge ---------------------------------
(* Near-miss signatures made with the secret key: everything about them is      *)
(* right except the last comparison, which differs in the bits of tw.  Each is  *)
(* printed for replay; Rejected is the specification's own verdict on it.       *)
(* dfree: signatures under the keyless key (t1 = 0) with chosen response, hint  *)
(* vector h and hint encoding y, violating exactly the conditions in fault.     *)
EXTENDS Dilithium, Ed25519, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES i, st
B(s) == HexToBytes(s)
Sig(j) == IF j.op = "dfree" THEN DFreeChallenge(B(j.m),B(j.rho),B(j.z),B(j.h))
          ELSE IF j.op = "dtweak" THEN DSignTweak(B(j.m),B(j.sk),1000,B(j.tw)).sig ELSE EdSignTweak(B(j.m),B(j.sk),B(j.tw))
Rejected(j,s) == IF j.op = "dfree" THEN DFaults(s \o B(j.z) \o B(j.y),B(j.m),DFreePk(B(j.rho))) = { j.fault[k] : k \in 1..Len(j.fault) }
               ELSE IF j.op = "dtweak" THEN DFaults(s,B(j.m),B(j.pk)) = {"challenge"} ELSE EdVerdict(s,B(j.m),B(j.pk)) = "equation"
Init == i \in 1..Len(Jobs) /\ st = "todo"
Make == /\ st = "todo"
        /\ LET s == TLCEval(Sig(Jobs[i])) IN PrintT("OUT " \o ToString(i) \o " " \o BytesToHex(s)) /\ st' = IF Rejected(Jobs[i],s) THEN "rejected" ELSE "wrong"
        /\ UNCHANGED i
Spec == Init /\ [][Make]_<<i,st>>
OnlyNear == st # "wrong"
===============================================================================
