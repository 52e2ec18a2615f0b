------------------------------ MODULE UrandomTrace ------------------------------
(* Recorded executions of the fallback against UrandomAbs.                       *)
EXTENDS UrandomAbs, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES t, l
Ev == Traces[t].ev
TInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ n = Traces[t].n /\ AInit
Step(e) ==
  CASE e.op = "openu" -> IF e.res = 0 THEN OpenOk("u") ELSE OpenErr("u",e.err)
    [] e.op = "openr" -> IF e.res = 0 THEN OpenOk("r") ELSE OpenErr("r",e.err)
    [] e.op = "fopen" -> IF e.res = 0 THEN OpenOk("p") ELSE OpenErr("p",e.err)
    [] e.op = "ioctl" -> IF e.res >= 0 THEN Report("u",e.res) ELSE ReportErr("u",e.err)
    [] e.op = "scan"  -> IF e.res >= 0 THEN Report("p",e.res) ELSE ReportErr("p",e.err)
    [] e.op = "poll"  -> IF e.res >= 0 THEN PollOk ELSE PollErr(e.err)
    [] e.op = "read"  -> IF e.res > 0 THEN Read(e.arg,e.res) ELSE ReadErr(e.err)
    [] e.op = "close" -> Close(CASE e.arg = 1 -> "u" [] e.arg = 2 -> "r" [] OTHER -> "p")
    [] e.op = "ret"   -> IF e.res = 0 THEN RetOk ELSE RetErr
    [] OTHER -> FALSE
TNext == /\ l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED t
         /\ (IF l = Len(Ev) THEN PrintT(<<"DONE",t>>) ELSE TRUE)
TSpec == TInit /\ [][TNext]_<<avars,t,l>>
=============================================================================
