---------------------------------- MODULE Prng ----------------------------------
(* The seed expander as a stream machine.  Requests return consecutive parts of  *)
(* one ideal stream, each request consuming whole 8-byte words.  The ideal       *)
(* stream is served by a sponge that delivers Rate-byte blocks, as implemented:  *)
(* left = unread bytes of the current block.  TLC checks that what is returned   *)
(* (as ideal stream indices) depends only on the words requested before, for     *)
(* every partition, with two states running side by side and cloning.            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Word, Rate, Sizes, Depth, Full   \* Full: also run the sponge (small constants)
S == {1,2}
VARIABLES pos, blk, left, out, hist
vars == <<pos,blk,left,out,hist>>
\* pos: ideal position; (blk,left): the sponge's own position
Init == pos = [s \in S |-> 0] /\ blk = [s \in S |-> 0] /\ left = [s \in S |-> 0] /\ out = << >> /\ hist = << >>
Up(n) == ((n + Word - 1) \div Word) * Word
\* squeezing k bytes one by one from block position (b,l)
RECURSIVE Sq(_,_,_,_)
Sq(b,l,k,acc) == IF k = 0 THEN [b |-> b, l |-> l, o |-> acc]
                 ELSE IF l = 0 THEN Sq(b+1,Rate,k,acc)
                 ELSE Sq(b,l-1,k-1,Append(acc,(b-1)*Rate + (Rate-l)))
Req(s,n) == LET q == IF Full THEN Sq(blk[s],left[s],Up(n),<< >>) ELSE [b |-> 0, l |-> 0, o |-> << >>] IN
            /\ blk' = [blk EXCEPT ![s] = q.b] /\ left' = [left EXCEPT ![s] = q.l]
            /\ pos' = [pos EXCEPT ![s] = @ + Up(n)]
            /\ out' = <<s, pos[s], IF Full THEN SubSeq(q.o,1,n) ELSE << >> >>
            /\ hist' = Append(hist,<<s,n,pos[s]>>)
Clone == /\ blk' = [blk EXCEPT ![2] = blk[1]] /\ left' = [left EXCEPT ![2] = left[1]] /\ pos' = [pos EXCEPT ![2] = pos[1]]
         /\ out' = << >> /\ hist' = Append(hist,<<0,0,0>>)
Next == Len(hist) < Depth /\ ((\E s \in S, n \in Sizes : Req(s,n)) \/ Clone)
Spec == Init /\ [][Next]_vars
Consecutive == out # << >> => \A i \in 1..Len(out[3]) : out[3][i] = out[2] + i - 1
WordAligned == \A s \in S : pos[s] % Word = 0
Emit == IF ~Full /\ Len(hist) = Depth THEN PrintT(<<"RUN",ToJson(hist)>>) ELSE TRUE
=============================================================================
