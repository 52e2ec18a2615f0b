---------------------------------- MODULE Wasm ----------------------------------
(* The exported WebAssembly layer: (a) an allocator whose blocks are erased on    *)
(* release, and (b) wrappers, each bound to one library function.  The machine    *)
(* runs a wrapper call and the library call side by side from the same state.     *)
(* Variant: "spec", or a design TLC has to reject: "partial" (erases a fixed      *)
(* number of bytes), "late" (erases after release), "none" (does not erase),      *)
(* "other" (a wrapper bound to another function), "drop" (result not returned),   *)
(* "guard" (a wrapper with a check of its own).                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, MaxOps, MaxBlocks, Variant
Bind == [dp_sign_keypair_seed |-> "keyseed", dp_sign_keypair |-> "keypair", dp_sign |-> "csign", dp_sign_verify |-> "cverify",
         dp_sign_seedexpander |-> "expander", dp_randombytes |-> "random", dp_seedexpander_wrapper |-> "prng"]
Lib == {Bind[w] : w \in DOMAIN Bind} \cup {"fsign","fverify"}
\* argument classes of a call, and the outcome of the library function: abstractly a return value and an effect
ArgCls == {"valid","invalid","null","norandom"}
LibRc(g,a) == CASE a = "valid" -> 0 [] a = "null" -> 1 [] a = "invalid" -> 2 [] OTHER -> 3
LibEff(g,a) == IF a = "valid" THEN <<g,"written">> ELSE <<"none">>
Target(w) == IF Variant = "other" /\ w = "dp_sign" THEN "fsign" ELSE Bind[w]
WrapRc(w,a) == IF Variant = "drop" /\ w = "dp_randombytes" THEN 0
               ELSE IF Variant = "guard" /\ w = "dp_sign_verify" /\ a = "invalid" THEN 1 ELSE LibRc(Target(w),a)
WrapEff(w,a) == LibEff(Target(w),a)

VARIABLES blocks, pool, pairs, hist
vars == <<blocks,pool,pairs,hist>>
Init == blocks = << >> /\ pool = {} /\ pairs = {} /\ hist = << >>
Room == Len(hist) < MaxOps /\ pairs = {}
Alloc(k,n) == /\ Room /\ Len(blocks) < MaxBlocks /\ blocks' = Append(blocks,[n |-> n, dirty |-> FALSE, gone |-> FALSE])
              /\ hist' = Append(hist,<<"alloc",k,n>>) /\ UNCHANGED <<pool,pairs>>
Fill(i) == /\ Room /\ ~ blocks[i].gone /\ ~ blocks[i].dirty /\ blocks' = [blocks EXCEPT ![i].dirty = TRUE]
           /\ hist' = Append(hist,<<"fill",i - 1>>) /\ UNCHANGED <<pool,pairs>>
\* the bytes of a released block that still hold data at the moment of release, and afterwards
Left(b) == IF ~ b.dirty THEN 0 ELSE CASE Variant = "partial" -> (IF b.n > 4 THEN b.n - 4 ELSE 0) [] Variant \in {"none","late"} -> b.n [] OTHER -> 0
Free(i) == /\ Room /\ ~ blocks[i].gone /\ blocks' = [blocks EXCEPT ![i].gone = TRUE, ![i].dirty = FALSE]
           /\ pool' = pool \cup {[id |-> i, left |-> Left(blocks[i])]}
           /\ hist' = Append(hist,<<"free",i - 1,blocks[i].n>>) /\ UNCHANGED pairs
Call(w,a) == /\ hist = << >> /\ <<w,a>> \notin {<<p.w,p.a>> : p \in pairs} /\ Cardinality(pairs) < 2
             /\ pairs' = pairs \cup {[w |-> w, a |-> a, rc |-> WrapRc(w,a), lrc |-> LibRc(Bind[w],a), eff |-> WrapEff(w,a), leff |-> LibEff(Bind[w],a)]}
             /\ UNCHANGED <<blocks,pool,hist>>
Next == \/ \E k \in {"b","ll"}, n \in Sizes : Alloc(k,n)
        \/ \E i \in 1..Len(blocks) : Fill(i) \/ Free(i)
        \/ \E w \in DOMAIN Bind, a \in ArgCls : Call(w,a)
Spec == Init /\ [][Next]_vars
Erased == \A r \in pool : r.left = 0
Faithful == \A p \in pairs : p.rc = p.lrc /\ p.eff = p.leff
Emit == IF Len(hist) > 0 /\ (\A i \in 1..Len(blocks) : blocks[i].gone) THEN PrintT(<<"RUN",ToJson(hist)>>) ELSE TRUE
Bindings == TLCGet("stats").distinct > 0 /\ PrintT(<<"BIND",ToJson(Bind)>>)
=============================================================================
