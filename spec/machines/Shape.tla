-------------------------------- MODULE Shape --------------------------------
(* Parsing of a claimed signature as the code does it: bound the stated length, *)
(* read the identifier, read the message length, compare the stated length with *)
(* the implied one.  WellFormedOnly: a run reaches "shaped" only for exactly     *)
(* the documented triples.  The reachable "shaped" triples are emitted and form  *)
(* the acceptance table against which the code is swept.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Bases           \* [compact |-> 2526, full |-> 52342]
VARIABLES mode, id, len, slen, pc
vars == <<mode, id, len, slen, pc>>
Base(m) == IF m = 1 THEN Bases[1] ELSE Bases[2]
\* stated lengths near every interesting boundary
Lens(m) == { Base(m) + d : d \in 0..70 } \cup { 0, 1, 2, 66, 2486, Base(m) - 1, Base(m) - 2, Base(m) + 255, Base(3 - m) + 1, Base(3 - m) + 64 }
Init == /\ mode \in {1,2} /\ id \in {0,1,2,3,127,128,255} /\ len \in 0..255 /\ slen \in Lens(mode) /\ pc = "bound"
Bound == pc = "bound" /\ pc' = IF slen \in (Base(mode)+1)..(Base(mode)+64) THEN "id" ELSE "reject"
Ident == pc = "id" /\ pc' = IF id = mode THEN "len" ELSE "reject"
MLen  == pc = "len" /\ pc' = IF len \in 1..64 THEN "total" ELSE "reject"
Total == pc = "total" /\ pc' = IF slen = Base(mode) + len THEN "shaped" ELSE "reject"
Next == (Bound \/ Ident \/ MLen \/ Total) /\ UNCHANGED <<mode, id, len, slen>>
Spec == Init /\ [][Next]_vars
WellFormed == id = mode /\ len \in 1..64 /\ slen = Base(mode) + len
WellFormedOnly == pc = "shaped" => WellFormed
NothingLost == pc = "reject" => ~ WellFormed
Table == { [mode |-> m, id |-> m, len |-> n, slen |-> Base(m) + n] : m \in {1,2}, n \in 1..64 }
EmitTable == /\ TLCGet("stats").distinct > 0
             /\ ndJsonSerialize(IOEnv.VF_OUT, SetToSeq(Table))
=============================================================================
