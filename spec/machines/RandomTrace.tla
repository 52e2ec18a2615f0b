------------------------------ MODULE RandomTrace ------------------------------
(* Trace specification: recorded OS calls of real executions, replayed as steps  *)
(* of the RandomBytes actions.  One trace line is one execution:                 *)
(* [n, calls: <<[len, ret]>> (ret < 0: -errno), ok, match, seeded]: match says    *)
(* that the buffer equals the delivered bytes, seeded that every request asked    *)
(* for bytes of a seeded generator (no GRND_INSECURE).  Sizes may exceed 2^31: n, len and got *)
(* are pairs <<high, low>> in base 2^24; off is the offset a delivery went to.   *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
Limit == 33554431
Base == 16777216
P(x) == <<x \div Base, x % Base>>
Add(a,x) == LET l == a[2] + x IN <<a[1] + l \div Base, l % Base>>          \* pair + integer
Le(a,b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
VARIABLES t, j, got, pc
vars == <<t, j, got, pc>>
Init == t \in 1..Len(Trace) /\ j = 1 /\ got = <<0,0>> /\ pc = "ask"
E == Trace[t]
Call == E.calls[j]
Step == /\ pc = "ask" /\ j <= Len(E.calls)
        /\ Le(<<0,1>>,Call.len) /\ Le(Call.len,P(Limit)) /\ Le(Add(got,Call.len[1]*Base+Call.len[2]),E.n)    \* asks for part of what is still missing
        /\ \/ Call.ret = 0 /\ got' = got /\ pc' \in {"ask","fail"}      \* nothing delivered: go on, or give up
           \/ Call.ret > 0 /\ Le(P(Call.ret),Call.len) /\ Call.off = got /\ got' = Add(got,Call.ret) /\ pc' = "ask"
           \/ Call.ret = -4 /\ got' = got /\ pc' = "ask"              \* interrupted: go on
           \/ Call.ret < 0 /\ Call.ret # -4 /\ got' = got /\ pc' = "fail"
        /\ j' = j + 1 /\ UNCHANGED t
Finish == /\ j = Len(E.calls) + 1
          /\ \/ pc = "ask" /\ got = E.n /\ E.ok /\ E.match /\ E.seeded
             \/ pc = "fail" /\ ~ E.ok
          /\ pc' = "done" /\ UNCHANGED <<t, j, got>> /\ PrintT(<<"DONE", t>>)
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
InBounds == Le(got,E.n)
=============================================================================
