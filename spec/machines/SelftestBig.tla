----------------------------- MODULE SelftestBig -----------------------------
(* The same for BigNat (on its own, because the modules above it compute constants  *)
(* with it when they are loaded, which the definitions by bits are too slow for).   *)
EXTENDS BigNat
VARIABLE g
P(k,n) == TLCEval([i \in 1..n |-> (((k*(i+7)) % 257) + ((i*i*k) \div 3)) % 256])
FP == <<237>> \o Repeat(255,30) \o <<127>>
GL == <<237,211,245,92,26,99,18,88,214,156,247,162,222,249,222,20>> \o Zeros(15) \o <<16>>
\* numbers small enough for the definitions by bits
Ms == << <<251>>, <<255,255>>, <<1,0,0,128>>, P(7,3) \o <<1>>, <<237,255,127>> >>
As == << <<0>>, <<250>>, <<255,255,255>>, P(11,5), P(13,2), <<0,0,0,128>> >>
BigCases == << [j \in 1..5 |-> [i \in 1..6 |-> BnMod(As[i],Ms[j])]],
   [j \in 1..6 |-> [i \in 1..6 |-> BnLt(As[i],As[j])]],
   [m \in 1..5 |-> [j \in 1..6 |-> [i \in 1..6 |-> BnAddMod(As[i],As[j],Ms[m])]]],
   [m \in 1..5 |-> [j \in 1..6 |-> [i \in 1..6 |-> BnSubMod(As[i],As[j],Ms[m])]]],
   [m \in 1..5 |-> [j \in 1..6 |-> [i \in 1..6 |-> BnMulMod(As[i],As[j],Ms[m])]]],
   [m \in 1..5 |-> [i \in 1..6 |-> BnPowMod(As[i],<<77>>,Ms[m])]],
   BnMulMod(P(3,32),P(6,32),FP), BnMod(P(5,64),GL), BnPowMod(P(3,32),<<5>>,FP), BnSubMod(Zeros(32),P(2,32),FP) >>
Init == g = 0
Next == g = 0 /\ g' = 1 /\ LET C == BigCases IN \A i \in 1..Len(C) : PrintT("CASE " \o ToString(i) \o " " \o ToString(C[i]))
Spec == Init /\ [][Next]_g
=============================================================================
