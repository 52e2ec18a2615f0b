--------------------------------- MODULE Sponge ---------------------------------
(* Incremental sponge contexts as implemented: a block buffer fill counter while  *)
(* absorbing, an unread-bytes counter while squeezing.  Bytes and permutations    *)
(* are symbolic: st[x] is the list of full blocks permuted in so far plus the     *)
(* pending bytes, output bytes are (absorbed input, block number, offset).        *)
(* TLC checks for every chunking, cloning and interleaving of two contexts that   *)
(* the result is the one-shot function of the concatenated input (FIPS 202).      *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Rate, Sizes, Depth
X == {1,2}
VARIABLES st, ideal, hist, last
vars == <<st, ideal, hist, last>>
\* implementation state: phase, blocks permuted in (sequence of Rate-tuples), pending bytes, squeeze block, unread
Fresh == [ph |-> "abs", blocks |-> << >>, pend |-> << >>, blk |-> 0, left |-> 0]
\* ideal state: phase, all bytes absorbed, number of bytes squeezed
IFresh == [ph |-> "abs", in |-> << >>, pos |-> 0]
Init == st = [x \in X |-> Fresh] /\ ideal = [x \in X |-> IFresh] /\ hist = << >> /\ last = << >>
RECURSIVE Abs(_,_)      \* byte by byte, permuting whenever the block is full
Abs(s,bs) == IF bs = << >> THEN s
             ELSE LET p == Append(s.pend,Head(bs)) IN
                  Abs(IF Len(p) = Rate THEN [s EXCEPT !.blocks = Append(@,p), !.pend = << >>] ELSE [s EXCEPT !.pend = p], Tail(bs))
Data(x,n) == [i \in 1..n |-> <<x,Len(ideal[x].in)+i>>]      \* distinguishable input bytes
Absorb(x,n) == /\ st[x].ph = "abs"
               /\ st' = [st EXCEPT ![x] = Abs(@,Data(x,n))]
               /\ ideal' = [ideal EXCEPT ![x].in = @ \o Data(x,n)]
               /\ hist' = Append(hist,<<"a",x,n>>) /\ last' = << >>
Finalize(x) == /\ st[x].ph = "abs"
               /\ st' = [st EXCEPT ![x].ph = "sq", ![x].blocks = Append(@,st[x].pend \o <<"pad">>), ![x].pend = << >>]
               /\ ideal' = [ideal EXCEPT ![x].ph = "sq"]
               /\ hist' = Append(hist,<<"f",x,0>>) /\ last' = << >>
RECURSIVE Sq(_,_,_)
Sq(s,k,acc) == IF k = 0 THEN [s |-> s, o |-> acc]
               ELSE IF s.left = 0 THEN Sq([s EXCEPT !.blk = @+1, !.left = Rate],k,acc)
               ELSE Sq([s EXCEPT !.left = @-1],k-1,Append(acc,<<s.blk,Rate-s.left>>))
Squeeze(x,n) == /\ st[x].ph = "sq"
                /\ LET q == Sq(st[x],n,<< >>) IN
                   /\ st' = [st EXCEPT ![x] = q.s]
                   /\ last' = <<x,ideal[x].pos,q.o>>
                /\ ideal' = [ideal EXCEPT ![x].pos = @ + n]
                /\ hist' = Append(hist,<<"s",x,n>>)
Clone == /\ st' = [st EXCEPT ![2] = st[1]] /\ ideal' = [ideal EXCEPT ![2] = ideal[1]]
         /\ hist' = Append(hist,<<"c",1,0>>) /\ last' = << >>
Next == Len(hist) < Depth /\ ((\E x \in X : Finalize(x) \/ \E n \in Sizes : Absorb(x,n) \/ Squeeze(x,n)) \/ Clone)
Spec == Init /\ [][Next]_vars
\* --- the one-shot function
Block(in,i) == SubSeq(in,(i-1)*Rate+1,i*Rate)
Shape(in) == [i \in 1..(Len(in) \div Rate) |-> Block(in,i)]
Rest(in) == SubSeq(in,(Len(in) \div Rate)*Rate+1,Len(in))
OneShotIn == \A x \in X : LET d == ideal[x] s == st[x] IN
               IF d.ph = "abs" THEN s.blocks = Shape(d.in) /\ s.pend = Rest(d.in)
               ELSE s.blocks = Append(Shape(d.in),Rest(d.in) \o <<"pad">>)
OneShotOut == last # << >> => \A i \in 1..Len(last[3]) :
               last[3][i] = <<(last[2]+i-1) \div Rate + 1, (last[2]+i-1) % Rate>>
Squeezes == \E i \in 1..Len(hist) : hist[i][1] = "s"
Emit == IF Len(hist) = Depth /\ Squeezes THEN PrintT(<<"RUN",ToJson(hist)>>) ELSE TRUE
=============================================================================
