---------------------------------- MODULE Portable ----------------------------------
(* One program, compiled for platforms that differ in byte order, in the width of    *)
(* `long` and `size_t`, and in the signedness of `char`.  A byte has base BYTE, a     *)
(* wide word four bytes; a long is wide or half as wide.  The tasks are the places    *)
(* where the library turns bytes into numbers and back: Keccak lanes (little-endian), *)
(* SPHINCS+ addresses and indices (big-endian), the length byte of a signature, the   *)
(* arithmetic shift in reductions, and a length returned through a pointer.  Same:    *)
(* every platform computes the task's meaning.  Variant # "spec": designs which one   *)
(* kind of platform does not show.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS BYTE, Variant
Platforms == [end : {"le","be"}, long : {2,4}, char : {"s","u"}]
Tasks == {"lane","addr","index","len","reduce","outlen"}
Pow(b,n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN b ELSE IF n = 2 THEN b*b ELSE IF n = 3 THEN b*b*b ELSE b*b*b*b
Wide == 0..Pow(BYTE,4)-1
MaxLen == BYTE - 1                               \* does not fit a signed char
Dig(v,i) == (v \div Pow(BYTE,i)) % BYTE          \* byte i, by value
\* memory: what a store of an n-byte word leaves, and what a load makes of it
Store(p,v,n) == [k \in 1..n |-> IF p.end = "le" THEN Dig(v,k-1) ELSE Dig(v,n-k)]
Load(p,b) == LET n == Len(b) s(k) == b[k] * Pow(BYTE, IF p.end = "le" THEN k-1 ELSE n-k) IN
             IF n = 4 THEN s(1)+s(2)+s(3)+s(4) ELSE s(1)+s(2)
LE(b) == b[1] + BYTE*b[2] + Pow(BYTE,2)*b[3] + Pow(BYTE,3)*b[4]
BE(b) == b[4] + BYTE*b[3] + Pow(BYTE,2)*b[2] + Pow(BYTE,3)*b[1]
LEbytes(v) == <<Dig(v,0),Dig(v,1),Dig(v,2),Dig(v,3)>>
BEbytes(v) == <<Dig(v,3),Dig(v,2),Dig(v,1),Dig(v,0)>>
Char(p,x) == IF p.char = "s" /\ 2*x >= BYTE THEN x - BYTE ELSE x
\* a task's meaning; input v
Top == Pow(BYTE,4)
Bump(v) == (v + Pow(BYTE,2) + 1) % Top           \* stands for work inside a lane
Meaning(t,v) == CASE t = "lane"   -> LEbytes(Bump(LE(BEbytes(v))))     \* absorb the bytes of the input, permute, squeeze
                  [] t = "addr"   -> BEbytes(v)
                  [] t = "index"  -> <<v \div BYTE, v % BYTE>>            \* tree and leaf
                  [] t = "len"    -> <<v % BYTE, v % BYTE <= MaxLen>>
                  [] t = "reduce" -> <<(v - Top \div 2) \div BYTE>>       \* rounding towards minus infinity
                  [] t = "outlen" -> <<v % Pow(BYTE,2)>>
\* what the compiled program does
Run(p,t,v) ==
  CASE t = "lane" -> IF Variant = "memcpy" THEN Store(p,Bump(Load(p,BEbytes(v))),4)
                     ELSE IF Variant = "char" THEN LET b == BEbytes(v) c(i) == Char(p,b[i]) IN
                          LEbytes(Bump((c(1) + BYTE*c(2) + Pow(BYTE,2)*c(3) + Pow(BYTE,3)*c(4)) % Top))
                     ELSE LEbytes(Bump(LE(BEbytes(v))))
    [] t = "addr" -> IF Variant = "word" THEN Store(p,v,4) ELSE BEbytes(v)
    [] t = "index" -> IF Variant = "long" THEN LET w == v % Pow(BYTE,p.long) IN <<w \div BYTE, w % BYTE>> ELSE <<v \div BYTE, v % BYTE>>
    [] t = "len" -> LET x == v % BYTE IN IF Variant = "lenchar" THEN <<x, Char(p,x) >= 0 /\ Char(p,x) <= MaxLen>> ELSE <<x, x <= MaxLen>>
    [] t = "reduce" -> IF Variant = "logical" THEN <<IF p.long = 4 THEN (v - Top \div 2) \div BYTE ELSE ((v + Top \div 2) % Top) \div BYTE>>
                       ELSE <<(v - Top \div 2) \div BYTE>>
    \* the callee stores a size_t into the caller's variable, which was zero
    [] t = "outlen" -> LET n == v % Pow(BYTE,2) IN
                       IF Variant = "pun" THEN <<Load(p, Store(p,n,p.long) \o (IF p.long = 2 THEN <<0,0>> ELSE <<>>))>>
                       ELSE <<Load(p,Store(p,n,p.long))>>
VARIABLES task, in, out
vars == <<task,in,out>>
Init == task \in Tasks /\ in \in Wide /\ out = [p \in {} |-> <<>>]
Step(p) == p \notin DOMAIN out /\ out' = (p :> Run(p,task,in)) @@ out /\ UNCHANGED <<task,in>>
\* the platforms in one order: they do not meet, so that no other order shows more
Rank(p) == (IF p.end = "be" THEN 4 ELSE 0) + (IF p.long = 4 THEN 2 ELSE 0) + (IF p.char = "u" THEN 1 ELSE 0)
Next == \E p \in Platforms : Rank(p) = Cardinality(DOMAIN out) /\ Step(p)
Spec == Init /\ [][Next]_vars
Same == \A p \in DOMAIN out : out[p] = Meaning(task,in)
Agree == \A p, q \in DOMAIN out : out[p] = out[q]
====================================================================================
