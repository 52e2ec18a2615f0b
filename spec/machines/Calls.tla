---------------------------------- MODULE Calls ----------------------------------
(* Calls of the library by several threads in one process.  A call reads its      *)
(* arguments into scratch memory, draws what randomness it needs, and returns; it *)
(* can be interrupted between any two of these steps.  Arguments and OS random    *)
(* units are numbered, so "depends only on its own arguments and randomness" is a *)
(* statement about numbers.  All calls of a thread use the same buffer addresses. *)
(* Variant selects the design: "spec" (scratch memory belongs to the call), or    *)
(* one that TLC has to reject: "static" (one scratch for all calls), "rndstatic"  *)
(* (one buffer for random bytes), "sticky" (an error is remembered), "cache"      *)
(* (intermediate values are reused when the address of the arguments repeats).    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Calls, Variant, Nested, Kinds
\* the kinds of call: d draws of OS randomness, and whether the last of them (or, without draws, an input check) fails
AllKinds ==
  [keyseed |-> <<0,FALSE>>, expand |-> <<0,FALSE>>, key |-> <<1,FALSE>>, keyshort |-> <<3,FALSE>>, keyfail |-> <<1,TRUE>>, keylate |-> <<2,TRUE>>,
   csign |-> <<1,FALSE>>, csignshort |-> <<3,FALSE>>, csignfail |-> <<1,TRUE>>, csignlate |-> <<2,TRUE>>, csignbad |-> <<0,TRUE>>,
   copen |-> <<0,FALSE>>, copenrej |-> <<0,TRUE>>, copenlen |-> <<0,TRUE>>, cverify |-> <<0,FALSE>>, cverifyrej |-> <<0,TRUE>>,
   fsign |-> <<1,FALSE>>, fsignfail |-> <<1,TRUE>>, fopen |-> <<0,FALSE>>, fopenrej |-> <<0,TRUE>>, fverify |-> <<0,FALSE>>, fverifyrej |-> <<0,TRUE>>,
   hdverify |-> <<0,FALSE>>, hdverifyrej |-> <<0,TRUE>>,
   edkey |-> <<1,FALSE>>, edsign |-> <<0,FALSE>>, edopen |-> <<0,FALSE>>, edopenrej |-> <<0,TRUE>>,
   dkey |-> <<1,FALSE>>, dkeyseed |-> <<0,FALSE>>, dsign |-> <<0,FALSE>>, dverify |-> <<0,FALSE>>, dverifyrej |-> <<0,TRUE>>,
   skey |-> <<1,FALSE>>, skeyseed |-> <<0,FALSE>>, ssign |-> <<1,FALSE>>, sverify |-> <<0,FALSE>>, sverifyrej |-> <<0,TRUE>>,
   random |-> <<1,FALSE>>, randomshort |-> <<3,FALSE>>, randomfail |-> <<2,TRUE>>, prng |-> <<0,FALSE>>,
   shake |-> <<0,FALSE>>, sha3 |-> <<0,FALSE>>, sha512 |-> <<0,FALSE>>,
   secretbox |-> <<0,FALSE>>, sbopen |-> <<0,FALSE>>, sbopenrej |-> <<0,TRUE>>, boxkey |-> <<1,FALSE>>, box |-> <<0,FALSE>>, scalarmult |-> <<0,FALSE>>]
K == IF Kinds = {} THEN DOMAIN AllKinds ELSE Kinds
Draws(k) == AllKinds[k][1]
Fails(k) == AllKinds[k][2]

VARIABLES pc, call, scratch, rnd, memo, sticky, left, next, res, hist, stack
vars == <<pc,call,scratch,rnd,memo,sticky,left,next,res,hist,stack>>
Slot(p) == IF Variant = "static" THEN 0 ELSE p
RSlot(p) == IF Variant = "rndstatic" THEN 0 ELSE p
Init == /\ pc = [p \in Procs |-> "idle"] /\ call = [p \in Procs |-> [k |-> "", id |-> 0, got |-> << >>]]
        /\ scratch = [p \in Procs \cup {0} |-> 0] /\ rnd = [p \in Procs \cup {0} |-> << >>]
        /\ memo = [p \in Procs |-> 0] /\ sticky = FALSE /\ left = [p \in Procs |-> Calls] /\ next = 1 /\ res = {} /\ hist = << >> /\ stack = << >>
\* re-entry: a nested call runs to its end before the interrupted one goes on
May(p) == ~Nested \/ stack = << >> \/ stack[Len(stack)] = p
Begin(p,k) == /\ pc[p] = "idle" /\ left[p] > 0 /\ (Nested => p = Len(stack) + 1)
              /\ pc' = [pc EXCEPT ![p] = "work"] /\ left' = [left EXCEPT ![p] = @ - 1] /\ next' = next + 1
              /\ call' = [call EXCEPT ![p] = [k |-> k, id |-> next, got |-> << >>]]
              /\ LET v == IF Variant = "cache" /\ memo[p] # 0 THEN memo[p] ELSE next IN
                 scratch' = [scratch EXCEPT ![Slot(p)] = v] /\ memo' = [memo EXCEPT ![p] = v]
              /\ rnd' = [rnd EXCEPT ![RSlot(p)] = << >>]
              /\ hist' = Append(hist,<<p,k>>) /\ stack' = Append(stack,p) /\ UNCHANGED <<sticky,res>>
Draw(p) == /\ pc[p] = "work" /\ May(p) /\ Len(call[p].got) < Draws(call[p].k)
           /\ call' = [call EXCEPT ![p].got = Append(@,next)] /\ next' = next + 1
           /\ rnd' = [rnd EXCEPT ![RSlot(p)] = Append(@,next)]
           /\ hist' = Append(hist,<<p,"draw">>) /\ UNCHANGED <<pc,scratch,memo,sticky,left,res,stack>>
Ret(p) == /\ pc[p] = "work" /\ May(p) /\ Len(call[p].got) = Draws(call[p].k)
          /\ LET f == Fails(call[p].k) IN
             /\ res' = res \cup {[k |-> call[p].k, id |-> call[p].id, got |-> call[p].got, ok |-> ~f /\ ~sticky, arg |-> scratch[Slot(p)], rnd |-> rnd[RSlot(p)]]}
             /\ sticky' = (sticky \/ (Variant = "sticky" /\ f))
          /\ pc' = [pc EXCEPT ![p] = "idle"] /\ hist' = Append(hist,<<p,"ret">>)
          /\ stack' = (IF Nested THEN SubSeq(stack,1,Len(stack)-1) ELSE stack) /\ UNCHANGED <<call,scratch,rnd,memo,left,next>>
Next == \E p \in Procs : Draw(p) \/ Ret(p) \/ \E k \in K : Begin(p,k)
Spec == Init /\ [][Next]_vars
\* every finished call returned what it would have returned alone in a fresh process
Alone == \A r \in res : r.arg = r.id /\ r.rnd = r.got /\ r.ok = ~Fails(r.k)
Over == \A p \in Procs : pc[p] = "idle" /\ left[p] = 0
Emit == IF Over THEN PrintT(<<"RUN",ToJson(hist)>>) ELSE TRUE
View == <<pc,call,scratch,rnd,memo,sticky,left,next,res,stack>>
KindTable == TLCGet("stats").distinct > 0 /\ PrintT(<<"KINDS",ToJson(AllKinds)>>)
=============================================================================
