------------------------------- MODULE ObserverTrace -----------------------------
(* Recorded observations of the real code: per run the public part (a number: the  *)
(* operation, its public inputs, lengths, and what it published), the number of    *)
(* the secret, and the observation (number of events, digest in two halves).       *)
(* Blind of Observer.tla over every pair of runs with equal public parts.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES i, seen, secrets
vars == <<i,seen,secrets>>
Publics == {Log[k].pub : k \in 1..Len(Log)}
Init == i = 1 /\ seen = [p \in Publics |-> <<>>] /\ secrets = [p \in Publics |-> {}]
R == Log[i]
Run == /\ i <= Len(Log) /\ i' = i + 1
       /\ secrets' = [secrets EXCEPT ![R.pub] = @ \cup {R.sec}]
       /\ IF seen[R.pub] = <<>> THEN seen' = [seen EXCEPT ![R.pub] = R.obs]
          ELSE UNCHANGED seen /\ (IF seen[R.pub] = R.obs THEN TRUE ELSE PrintT(<<"BAD",i>>))
Next == Run
Spec == Init /\ [][Next]_vars
\* the comparison is not empty: every public part was met with different secrets
Reached == i = Len(Log) + 1 => PrintT(<<"END",i>>) /\ \A p \in Publics : (IF Cardinality(secrets[p]) > 1 THEN TRUE ELSE PrintT(<<"LONE",p>>))
=================================================================================
