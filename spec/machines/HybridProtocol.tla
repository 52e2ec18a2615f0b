---------------------------- MODULE HybridProtocol ----------------------------
(* Symbolic (Dolev-Yao) model of the hybrid signature scheme.  Signers issue   *)
(* compact and full signatures; an adversary owns a set of broken component    *)
(* schemes (in which it can produce a component signature of any key over any  *)
(* payload) and otherwise only splices components of issued signatures.        *)
(* Unforgeable is the combiner's security; Scenarios enumerates every          *)
(* candidate over every mixture of key parts together with the specification's *)
(* verdict, for replay against the real code.                                  *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS NK, NN, NM, MaxIssue, Variant
VARIABLES issued, broken
vars == <<issued, broken>>

Key == 1..NK   Nonce == 1..NN   Msg == 1..NM   Scheme == {"ed","dil","sph"}
\* payload terms: message atoms and SHA3-512(nonce || message || SPHINCS+ key of k)
Atom(m) == [t |-> "m", n |-> 0, m |-> m, k |-> 0]
H(n,m,k) == [t |-> "h", n |-> n, m |-> m, k |-> k]
Hashes == { H(n,m,k) : n \in Nonce, m \in Msg, k \in Key }
Payload == { Atom(m) : m \in Msg } \cup Hashes          \* a 64-byte message may itself be such a hash
Comp == [by : Key, p : Payload]
Junk == [by |-> 0, p |-> Atom(0)]
CSig(k,n,m) == [mode |-> "c", ed |-> [by |-> k, p |-> H(n,m,k)], dil |-> [by |-> k, p |-> H(n,m,k)],
                sph |-> Junk, nonce |-> n, msg |-> Atom(m)]
FSig(k,p) == LET c == [by |-> k, p |-> p] IN
             [mode |-> "f", ed |-> c, dil |-> c, sph |-> c, nonce |-> 0, msg |-> p]

\* --- verification; Variant "spec" is the scheme, the others are deliberately wrong
\* combiners used to show that Unforgeable is not vacuous
Valid(c,part,p) == c.by = part /\ c.p = p
Accept(s,pk) ==
  IF s.mode = "c"
  THEN LET ok(c,part) == \/ Valid(c,part,H(s.nonce,s.msg.m,pk.sph))
                         \/ Variant = "nosph" /\ \E k \in Key : Valid(c,part,H(s.nonce,s.msg.m,k))
                         \/ Variant = "nononce" /\ \E n \in Nonce : Valid(c,part,H(n,s.msg.m,pk.sph))
                         \/ Variant = "nomsg" /\ \E m \in Msg : Valid(c,part,H(s.nonce,m,pk.sph))
       IN IF Variant = "or" THEN ok(s.ed,pk.ed) \/ ok(s.dil,pk.dil)
          ELSE IF Variant = "noed" THEN ok(s.dil,pk.dil) ELSE ok(s.ed,pk.ed) /\ ok(s.dil,pk.dil)
  ELSE /\ (Variant = "noed" \/ Valid(s.ed,pk.ed,s.msg))
       /\ Valid(s.dil,pk.dil,s.msg)
       /\ (Variant = "or" \/ Valid(s.sph,pk.sph,s.msg))
Required(mode) == IF mode = "c" THEN {"ed","dil"} ELSE Scheme
HonestPk(k) == [ed |-> k, dil |-> k, sph |-> k]

\* --- behaviour
Init == issued = {} /\ broken \in SUBSET Scheme
SignCompact(k,n,m) == issued' = issued \cup {CSig(k,n,m)}
SignFull(k,p) == issued' = issued \cup {FSig(k,p)}
Next == /\ Cardinality(issued) < MaxIssue
        /\ \/ \E k \in Key, n \in Nonce, m \in Msg : SignCompact(k,n,m)
           \/ \E k \in Key, p \in Payload : SignFull(k,p)
        /\ UNCHANGED broken
Spec == Init /\ [][Next]_vars

\* components the adversary can place into a candidate with target payloads T: junk, any component
\* of an issued signature, and in a broken scheme a component of any key over a target payload
Known(sch,T) == {Junk} \cup { s[sch] : s \in issued } \cup (IF sch \in broken THEN [by : Key, p : T] ELSE {})
Candidates ==
  UNION { LET T == { H(n,m,k) : k \in Key } IN
          [mode : {"c"}, ed : Known("ed",T), dil : Known("dil",T), sph : {Junk}, nonce : {n}, msg : {Atom(m)}] : n \in Nonce, m \in Msg }
  \cup UNION { [mode : {"f"}, ed : Known("ed",{p}), dil : Known("dil",{p}), sph : Known("sph",{p}), nonce : {0}, msg : {p}] : p \in Payload }
Forgery(s,k) == /\ Accept(s,HonestPk(k))
                /\ ~ (Required(s.mode) \subseteq broken)
                /\ s # (IF s.mode = "c" THEN CSig(k,s.nonce,s.msg.m) ELSE FSig(k,s.msg))
                   \/ s \notin issued
\* known finding: the modes are not domain separated.  Components of a full signature over the
\* 64-byte message SHA3-512(nonce || m || pk) form a compact signature of m, and (if SPHINCS+ is
\* broken) those of a compact signature of m are part of a full signature over that hash.
Confused(s) ==
  \/ /\ s.mode = "c"
     /\ \E f \in issued : f.mode = "f" /\ f.msg.t = "h" /\ (s.ed = f.ed \/ s.dil = f.dil)
  \/ /\ s.mode = "f" /\ s.msg.t = "h"
     /\ \E c \in issued : c.mode = "c" /\ (s.ed = c.ed \/ s.dil = c.dil)
Unforgeable == \A s \in Candidates, k \in Key : Forgery(s,k) => Confused(s)
UnforgeableStrict == \A s \in Candidates, k \in Key : ~ Forgery(s,k)

\* --- scenarios for replay: every component choice x every mixture of key parts
AnyComp == Comp \cup {Junk}
CompactScenarios == [mode : {"c"}, ed : AnyComp, dil : AnyComp, sph : {Junk}, nonce : Nonce, msg : {Atom(m) : m \in Msg}]
\* full-mode payloads restricted to atoms and one hash, to keep the product small
FPay == { Atom(m) : m \in Msg } \cup {H(1,1,1)}
FComp == [by : Key, p : FPay] \cup {Junk}
FullScenarios == [mode : {"f"}, ed : FComp, dil : FComp, sph : FComp, nonce : {0}, msg : FPay]
Pks == [ed : Key, dil : Key, sph : Key]
Describe(s,pk) == [s |-> s, pk |-> pk, accept |-> Accept(s,pk)]
Scenarios(S) == { Describe(s,pk) : s \in S, pk \in Pks }
Kind == IOEnv.VF_KIND
EmitScenarios == /\ TLCGet("stats").distinct > 0
                 /\ ndJsonSerialize(IOEnv.VF_OUT, SetToSeq(Scenarios(IF Kind = "c" THEN CompactScenarios ELSE FullScenarios)))
=============================================================================
