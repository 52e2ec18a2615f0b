----------------------------------- MODULE Box -----------------------------------
(* Secret-key and public-key boxes against an active adversary.  A box is a tag   *)
(* and a body; the tag is a one-time authenticator over the body under a key that *)
(* key and nonce determine.  Honest parties seal; the adversary alters, truncates,*)
(* extends, splices and presents boxes under any key and nonce; open checks the   *)
(* whole tag, and only then decrypts.                                             *)
(* Variant: "spec" or one that TLC has to reject: "release" (decrypts before the  *)
(* check), "prefix" (compares part of the tag), "header" (authenticates only the  *)
(* first part of the body), "swallow" (returns success regardless).               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Nonces, Msgs, MaxSeals, Variant
VARIABLES sealed, box, tried, res
vars == <<sealed,box,tried,res>>
\* a body has two parts and a length change; ideal authenticator: a term of everything it covers
Body(k,n,m) == [a |-> <<"a",k,n,m>>, b |-> <<"b",k,n,m>>, cut |-> 0]
Covered(x) == IF Variant = "header" THEN [a |-> x.a, b |-> 0, cut |-> x.cut] ELSE x
Tag(k,n,x) == [lo |-> <<"lo",k,n,Covered(x)>>, hi |-> <<"hi",k,n,Covered(x)>>]
Seal(k,n,m) == [tag |-> Tag(k,n,Body(k,n,m)), body |-> Body(k,n,m)]
Junk == <<"junk">>
Init == sealed = {} /\ box = << >> /\ tried = "none" /\ res = << >>
DoSeal == /\ box = << >> /\ Cardinality(sealed) < MaxSeals
          /\ \E k \in Keys, n \in Nonces, m \in Msgs : ~ (\E s \in sealed : s.k = k /\ s.n = n) /\ sealed' = sealed \cup {[k |-> k, n |-> n, m |-> m]}
          /\ UNCHANGED <<box,tried,res>>
\* one alteration of a sealed box, presented under a key and nonce
Alter == /\ box = << >>
         /\ \E s \in sealed, k \in Keys, n \in Nonces :
            LET o == Seal(s.k,s.n,s.m) IN
            \/ /\ tried' = (IF k # s.k THEN (IF n # s.n THEN "wrongboth" ELSE "wrongkey") ELSE IF n # s.n THEN "wrongnonce" ELSE "genuine") /\ box' = <<k,n,o>>
            \/ /\ k = s.k /\ n = s.n
               /\ \/ tried' = "taglo" /\ box' = <<k,n,[o EXCEPT !.tag.lo = Junk]>>
                  \/ tried' = "taghi" /\ box' = <<k,n,[o EXCEPT !.tag.hi = Junk]>>
                  \/ tried' = "bodya" /\ box' = <<k,n,[o EXCEPT !.body.a = Junk]>>
                  \/ tried' = "bodyb" /\ box' = <<k,n,[o EXCEPT !.body.b = Junk]>>
                  \/ tried' = "cut" /\ box' = <<k,n,[o EXCEPT !.body.cut = 1]>>
                  \/ tried' = "extend" /\ box' = <<k,n,[o EXCEPT !.body.cut = 2]>>
                  \/ \E t \in sealed : /\ t # s /\ tried' = "splice" /\ box' = <<k,n,[tag |-> o.tag, body |-> Seal(t.k,t.n,t.m).body]>>
         /\ UNCHANGED <<sealed,res>>
Same(x,y) == IF Variant = "prefix" THEN x.lo = y.lo ELSE x = y
Open == /\ box # << >> /\ res = << >>
        /\ LET k == box[1] n == box[2] x == box[3] good == Same(x.tag,Tag(k,n,x.body)) IN
           res' = [ok |-> good \/ Variant = "swallow", out |-> IF good \/ Variant \in {"release","swallow"} THEN <<"plain",x.body>> ELSE <<"nothing">>]
        /\ UNCHANGED <<sealed,box,tried>>
Next == DoSeal \/ Alter \/ Open
Spec == Init /\ [][Next]_vars
Genuine == box # << >> /\ \E s \in sealed : s.k = box[1] /\ s.n = box[2] /\ box[3] = Seal(s.k,s.n,s.m)
Authentic == res # << >> /\ res.ok => Genuine
RoundTrip == res # << >> /\ Genuine => res.ok /\ res.out = <<"plain",box[3].body>>
NoRelease == res # << >> /\ ~ res.ok => res.out = <<"nothing">>
Emit == IF res # << >> THEN PrintT(<<"TRY",tried,res.ok>>) ELSE TRUE
=============================================================================
