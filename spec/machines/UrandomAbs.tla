------------------------------ MODULE UrandomAbs ------------------------------
(* What the device fallback of the random-byte function may be seen to do, in   *)
(* terms of its operating system calls only: the property C10 as a machine.     *)
(* files: which of u (/dev/urandom), r (/dev/random), p (entropy_avail) is open *)
(* ent: a report of at least 128 bits has been seen; due: a wait has ended and  *)
(* no fresh report has been obtained since; fatal: an unrecoverable error.      *)
EXTENDS Naturals, Integers, Sequences
VARIABLES n, got, ent, due, fatal, files, ret
avars == <<n, got, ent, due, fatal, files, ret>>
EINTR == 4   EAGAIN == 11   ENOTTY == 25   ENOSYS == 38   Bits == 128
Live == ret = "none" /\ ~fatal
OpenOk(f)    == Live /\ f \notin files /\ files' = files \cup {f} /\ UNCHANGED <<n,got,ent,due,fatal,ret>>
OpenErr(f,e) == Live /\ fatal' = ~(e = EINTR /\ f # "p") /\ UNCHANGED <<n,got,ent,due,files,ret>>
Report(f,v)  == Live /\ f \in files /\ ent' = (ent \/ v >= Bits) /\ due' = FALSE /\ UNCHANGED <<n,got,fatal,files,ret>>
ReportErr(f,e) == /\ Live /\ f \in files
                  /\ fatal' = (IF f = "p" THEN e # EINTR ELSE e \notin {ENOTTY,ENOSYS})
                  /\ UNCHANGED <<n,got,ent,due,files,ret>>
PollOk       == Live /\ "r" \in files /\ ~due /\ ~ent /\ due' = TRUE /\ UNCHANGED <<n,got,ent,fatal,files,ret>>
PollErr(e)   == Live /\ "r" \in files /\ fatal' = (e \notin {EINTR,EAGAIN}) /\ UNCHANGED <<n,got,ent,due,files,ret>>
Read(len,k)  == /\ Live /\ "u" \in files /\ ent /\ ~due /\ len \in 1..(n - got) /\ k \in 1..len
                /\ got' = got + k /\ UNCHANGED <<n,ent,due,fatal,files,ret>>
ReadErr(e)   == /\ Live /\ "u" \in files /\ ent /\ ~due       \* e = 0: end of file
                /\ fatal' = (e \notin {EINTR,EAGAIN}) /\ UNCHANGED <<n,got,ent,due,files,ret>>
Close(f)     == ret = "none" /\ f \in files /\ files' = files \ {f} /\ UNCHANGED <<n,got,ent,due,fatal,ret>>
RetOk        == Live /\ got = n /\ files = {} /\ ret' = "ok" /\ UNCHANGED <<n,got,ent,due,fatal,files>>
RetErr       == ret = "none" /\ fatal /\ files = {} /\ ret' = "err" /\ UNCHANGED <<n,got,ent,due,fatal,files>>
AInit == got = 0 /\ ent = FALSE /\ due = FALSE /\ fatal = FALSE /\ files = {} /\ ret = "none"
F == {"u","r","p"}
ANext == \/ \E f \in F : OpenOk(f) \/ Close(f) \/ (\E e \in 1..133 : OpenErr(f,e) \/ ReportErr(f,e)) \/ (\E v \in {0,127,128,4096} : Report(f,v))
         \/ PollOk \/ (\E e \in 1..133 : PollErr(e)) \/ (\E e \in 0..133 : ReadErr(e))
         \/ (\E len \in 1..n, k \in 1..n : Read(len,k)) \/ RetOk \/ RetErr
ASpec == AInit /\ [][ANext]_avars
\* the property, as invariants of the abstract machine
FullDelivery == ret = "ok" => got = n /\ ~fatal
NoLeak       == ret # "none" => files = {}
EntropyFirst == got > 0 => ent
=============================================================================
