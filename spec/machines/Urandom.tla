-------------------------------- MODULE Urandom --------------------------------
(* The device fallback as implemented: open the device, ask for the entropy     *)
(* count (ioctl, or /proc when the ioctl is not supported), wait on /dev/random *)
(* until it is at least 128 bits, then read.  One action per OS call; the OS's  *)
(* answer is chosen freely.  hist is the script that reproduces the behaviour.  *)
EXTENDS UrandomAbs, TLC, Json
CONSTANTS MaxN, MaxRetry, Fatal
VARIABLES pc, proc, budget, hist
vars == <<n, got, ent, due, fatal, files, ret, pc, proc, budget, hist>>
Log(op,v) == hist' = Append(hist,<<op,v>>)
Spend == budget > 0 /\ budget' = budget - 1
Keep == UNCHANGED budget
Init == n \in 0..MaxN /\ AInit /\ pc = "openu" /\ proc = FALSE /\ budget = MaxRetry /\ hist = << >>
OpenDev(f,at,to) ==
  /\ pc = at /\ UNCHANGED proc
  /\ \/ OpenOk(f) /\ pc' = to /\ Keep /\ Log(at,0)
     \/ OpenErr(f,EINTR) /\ f # "p" /\ pc' = at /\ Spend /\ Log(at,-EINTR)
     \/ \E e \in Fatal : OpenErr(f,e) /\ pc' = "end" /\ Keep /\ Log(at,-e)
Ioctl0 == /\ pc = "ioctl0"
          /\ \/ \E v \in {0,127,128,4096} : Report("u",v) /\ Log("ioctl",v) /\ Keep /\ UNCHANGED proc /\ pc' = (IF v >= Bits THEN "read" ELSE "openr")
             \/ \E e \in {ENOTTY,ENOSYS} : ReportErr("u",e) /\ Log("ioctl",-e) /\ Keep /\ proc' = TRUE /\ pc' = "fopen"
             \/ \E e \in Fatal : ReportErr("u",e) /\ Log("ioctl",-e) /\ Keep /\ UNCHANGED proc /\ pc' = "end"
Poll == /\ pc = "poll" /\ UNCHANGED proc
        /\ \/ PollOk /\ Log("poll",1) /\ Keep /\ pc' = "again"
           \/ \E e \in {EINTR,EAGAIN} : PollErr(e) /\ Log("poll",-e) /\ Spend /\ pc' = "poll"
           \/ \E e \in Fatal : PollErr(e) /\ Log("poll",-e) /\ Keep /\ pc' = "end"
Again == /\ pc = "again" /\ UNCHANGED proc
         /\ LET f == IF proc THEN "p" ELSE "u"  op == IF proc THEN "scan" ELSE "ioctl" IN
            \/ \E v \in {0,127,128,4096} : Report(f,v) /\ Log(op,v)
                   /\ (IF v >= Bits THEN pc' = "wdone" /\ Keep ELSE pc' = "poll" /\ Spend)
            \/ proc /\ ReportErr("p",EINTR) /\ Log(op,-EINTR) /\ Spend /\ pc' = "again"
            \/ \E e \in Fatal \cup (IF proc THEN {1000,1001} ELSE {}) : ReportErr(f,e) /\ Log(op,-e) /\ Keep /\ pc' = "end"
WDone == /\ pc = "wdone" /\ Keep /\ UNCHANGED <<proc,hist>>
         /\ IF "r" \in files THEN Close("r") /\ pc' = pc
            ELSE IF "p" \in files THEN Close("p") /\ pc' = pc
            ELSE pc' = "read" /\ UNCHANGED avars
ReadDev == /\ pc = "read" /\ UNCHANGED proc
           /\ IF got = n THEN pc' = "end" /\ UNCHANGED avars /\ UNCHANGED <<hist,budget>>
              ELSE \/ \E k \in 1..(n-got) : Read(n-got,k) /\ Log("read",k) /\ Keep /\ pc' = "read"
                   \/ \E e \in {EINTR,EAGAIN} : ReadErr(e) /\ Log("read",-e) /\ Spend /\ pc' = "read"
                   \/ ReadErr(0) /\ Log("read",0) /\ Keep /\ pc' = "end"
                   \/ \E e \in Fatal : ReadErr(e) /\ Log("read",-e) /\ Keep /\ pc' = "end"
End == /\ pc = "end" /\ Keep /\ UNCHANGED <<proc,hist>>
       /\ IF files # {} THEN Close(CHOOSE f \in files : TRUE) /\ pc' = pc
          ELSE pc' = "done" /\ (RetOk \/ RetErr)
Next == OpenDev("u","openu","ioctl0") \/ Ioctl0 \/ OpenDev("p","fopen","openr") \/ OpenDev("r","openr","poll")
        \/ Poll \/ Again \/ WDone \/ ReadDev \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Refines == ASpec
Terminates == <>(ret # "none")
Emit == IF ret # "none" THEN PrintT(<<"RUN", n, ret, ToJson(hist)>>) ELSE TRUE
=============================================================================
