--------------------------------- MODULE Layout ---------------------------------
(* Where each part of the hybrid keys lies and which seed bytes it depends on.   *)
(* TLC checks that the parts partition the keys and the seed, that the public    *)
(* key is contained in the secret key, and emits for every seed byte which key   *)
(* intervals must change, and which may not.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
PkLen == 1408  SkLen == 4064  SeedLen == 160
\* name, offset, length, seed bytes it depends on
I(a,n) == a..(a+n-1)
SeedEd == I(0,32)  SeedDil == I(32,32)  SphSk == I(64,32)  SphPrf == I(96,32)  SphPk == I(128,32)
Pk == << [at |-> 0,    n |-> 32,   dep |-> SeedEd],
         [at |-> 32,   n |-> 1312, dep |-> SeedDil],
         [at |-> 1344, n |-> 32,   dep |-> SphPk],
         [at |-> 1376, n |-> 32,   dep |-> SphPk \cup SphSk] >>
Sk == << [at |-> 0,    n |-> 32,   dep |-> SeedEd],
         [at |-> 32,   n |-> 32,   dep |-> SeedEd],
         [at |-> 64,   n |-> 2560, dep |-> SeedDil],
         [at |-> 2624, n |-> 1312, dep |-> SeedDil],
         [at |-> 3936, n |-> 32,   dep |-> SphSk],
         [at |-> 3968, n |-> 32,   dep |-> SphPrf],
         [at |-> 4000, n |-> 32,   dep |-> SphPk],
         [at |-> 4032, n |-> 32,   dep |-> SphPk \cup SphSk] >>
\* public key part -> the secret key offset that repeats it
PkInSk == << <<0,32,32>>, <<32,2624,1312>>, <<1344,4000,64>> >>
Partition(P,len) == /\ P[1].at = 0 /\ P[Len(P)].at + P[Len(P)].n = len
                    /\ \A i \in 1..(Len(P)-1) : P[i].at + P[i].n = P[i+1].at
ASSUME Partition(Pk,PkLen) /\ Partition(Sk,SkLen)
ASSUME UNION {Sk[i].dep : i \in 1..Len(Sk)} = I(0,SeedLen)       \* no seed byte is lost
ASSUME \A i \in 1..Len(Pk) : \A j \in 1..Len(Pk) : i # j /\ {i,j} # {3,4} => Pk[i].dep \cap Pk[j].dep = {}
VARIABLE b
Init == b = 0
Next == b < SeedLen - 1 /\ b' = b + 1
Changed(P) == { <<P[i].at,P[i].n>> : i \in {j \in 1..Len(P) : b \in P[j].dep} }
Lost == Changed(Sk) # {}
Emit == PrintT(<<"DEP", b, ToJson(Changed(Pk)), ToJson(Changed(Sk))>>)
Spec == Init /\ [][Next]_b
=============================================================================
