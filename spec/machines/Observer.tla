--------------------------------- MODULE Observer --------------------------------
(* What an observer sees of a computation on a secret: the branches taken and the  *)
(* addresses accessed.  Two runs (self-composition) with equal public inputs and   *)
(* any two secrets; their observations have to be equal whenever what they publish *)
(* about their rejections is equal.  A secret is a sequence of K bits, a table has *)
(* 2^K entries.  The computation: a ladder over the bits (operation, selection),   *)
(* a look-up, a comparison with a public word, a loop that rejects some results.   *)
(* Variant selects the design; TLC rejects "branch" (work only for one bits),      *)
(* "skip" (leading zeros skipped), "lookup" (the table is indexed by the secret),  *)
(* "early" (comparison stops at the first difference), "reject" (the number of     *)
(* attempts depends on the secret and is not published).                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS K, Variant
Bits == [1..K -> {0,1}]
VARIABLES sec, word, pc, i, obs, pub
vars == <<sec,word,pc,i,obs,pub>>
Runs == {1,2}
Val(s) == LET RECURSIVE v(_) v(k) == IF k = 0 THEN 0 ELSE 2 * v(k - 1) + s[k] IN v(K)
Init == /\ sec \in [Runs -> Bits] /\ word \in Bits /\ pc = "ladder" /\ i = 1
        /\ obs = [r \in Runs |-> <<>>] /\ pub = [r \in Runs |-> <<>>]
Add(f) == obs' = [r \in Runs |-> obs[r] \o f[r]]
Leading(s,k) == \A j \in 1..k : s[j] = 0
Ladder == /\ pc = "ladder" /\ UNCHANGED <<sec,word,pub>>
          /\ Add([r \in Runs |-> IF Variant = "branch" THEN (IF sec[r][i] = 1 THEN <<"double","add">> ELSE <<"double">>)
                                 ELSE IF Variant = "skip" /\ Leading(sec[r],i) THEN <<>>
                                 ELSE <<"double","add","select">>])
          /\ IF i = K THEN i' = 1 /\ pc' = "table" ELSE i' = i + 1 /\ pc' = "ladder"
Table == /\ pc = "table" /\ UNCHANGED <<sec,word,pub,i>> /\ pc' = "compare"
         /\ Add([r \in Runs |-> IF Variant = "lookup" THEN <<"read",Val(sec[r])>> ELSE <<"read all">>])
FirstDiff(s) == IF \E j \in 1..K : s[j] # word[j] THEN CHOOSE j \in 1..K : s[j] # word[j] /\ \A k \in 1..(j - 1) : s[k] = word[k] ELSE K
Compare == /\ pc = "compare" /\ UNCHANGED <<sec,word,pub,i>> /\ pc' = "attempts"
           /\ Add([r \in Runs |-> IF Variant = "early" THEN <<"compared",FirstDiff(sec[r])>> ELSE <<"compared",K>>])
\* a rejected attempt shows; the number of attempts is published with the result
Attempts == /\ pc = "attempts" /\ UNCHANGED <<sec,word,i>> /\ pc' = "end"
            /\ LET k == [r \in Runs |-> 1 + (Val(sec[r]) % 3)] IN
                 Add([r \in Runs |-> <<"attempts",k[r]>>]) /\ pub' = [r \in Runs |-> IF Variant = "reject" THEN <<>> ELSE <<k[r]>>]
Next == Ladder \/ Table \/ Compare \/ Attempts
Spec == Init /\ [][Next]_vars
Blind == pc = "end" /\ pub[1] = pub[2] => obs[1] = obs[2]
=================================================================================
