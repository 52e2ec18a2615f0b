--------------------------------- MODULE Api ---------------------------------
(* The public hybrid functions as call machines: validate the arguments, draw  *)
(* randomness, run the component schemes, and only then write every output in  *)
(* one step.  Argument classes stand for concrete values chosen by the driver. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, IOUtils, SequencesExt
VARIABLES f, nul, mc, sc, body, rng, pc, written, rc
vars == <<f, nul, mc, sc, body, rng, pc, written, rc>>

Fns == {"expander","keyseed","keypair","fsign","csign","fopen","copen","fverify","cverify","dverify"}
Ptrs(g) == CASE g = "expander" -> {"seed","out"} [] g = "keyseed" -> {"pk","sk","seed"} [] g = "keypair" -> {"pk","sk"}
             [] g \in {"fsign","csign"} -> {"sm","smlen","m","sk"}
             [] g \in {"fopen","copen"} -> {"m","mlen","sm","pk"}
             [] OTHER -> {"m","sm","pk"}
Outs(g) == CASE g = "expander" -> {"out"} [] g \in {"keyseed","keypair"} -> {"pk","sk"}
             [] g \in {"fsign","csign"} -> {"sm","smlen"} [] g \in {"fopen","copen"} -> {"m","mlen"} [] OTHER -> {}
Signs(g) == g \in {"fsign","csign"}     Opens(g) == g \in {"fopen","copen"}
Verifies(g) == g \in {"fverify","cverify","dverify"}
\* message length classes: 0, 1, the signed length, 64, 65, and values equal modulo 2^8, 2^32
MLens(g) == IF Signs(g) \/ Verifies(g) THEN {"zero","one","mid","max","over","mod8","mod32","huge"} ELSE {"na"}
MOk(c) == c \in {"one","mid","max","na"}
\* stated signature length classes
SLens(g) == IF Opens(g) \/ Verifies(g) THEN {"exact","zero","minus1","plus1","belowmin","abovemax","mod32"} ELSE {"na"}
\* content classes of the signature (and key) presented
Bodies(g) == IF Opens(g) \/ Verifies(g)
             THEN {"genuine","badid","badlen","baded","baddil","wrongkey"}
                  \cup (IF g = "dverify" THEN {} ELSE {"badmsg"})
                  \cup (IF g \in {"copen","cverify"} THEN {"badnonce"} ELSE {})
                  \cup (IF g \in {"fopen","fverify"} THEN {"badsph"} ELSE {})
             ELSE {"na"}
Rngs(g) == IF g \in {"keypair","fsign","csign"} THEN {"ok","fail","failmid","eintr"} ELSE {"na"}
RngOk(x) == x \in {"ok","na","eintr"}
Init == /\ f \in Fns /\ nul \in SUBSET Ptrs(f) /\ mc \in MLens(f) /\ sc \in SLens(f) /\ body \in Bodies(f) /\ rng \in Rngs(f)
        /\ (nul = {} \/ (mc \in {"mid","na"} /\ sc \in {"exact","na"}))        \* NULLs are combined with otherwise valid lengths
        /\ pc = "validate" /\ written = {} /\ rc = 0
Fail == pc' = "done" /\ rc' = 1 /\ UNCHANGED written
Go(p) == pc' = p /\ UNCHANGED <<written, rc>>
Validate == /\ pc = "validate"
            /\ IF nul # {} \/ ~ MOk(mc) \/ sc \notin {"exact","na"} THEN Fail ELSE Go("draw")
Draw == pc = "draw" /\ IF RngOk(rng) THEN Go("work") ELSE Fail
\* "mid" and "one"/"max" verification messages: the driver presents the signed message only for "mid"
\* the stand-alone Dilithium function sees only the Dilithium part: other fields do not exist there
Body(g) == IF g = "dverify" /\ body \in {"badid","badlen","baded"} THEN "genuine" ELSE body
Work == pc = "work" /\ IF Body(f) \in {"genuine","na"} /\ (Verifies(f) => mc = "mid") THEN Go("write") ELSE Fail
Write == pc = "write" /\ written' = Outs(f) /\ rc' = 0 /\ pc' = "done"
Next == (Validate \/ Draw \/ Work \/ Write) /\ UNCHANGED <<f, nul, mc, sc, body, rng>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

FailedUntouched == rc # 0 => written = {}
NullFails == pc = "done" /\ nul # {} => rc # 0
LengthFails == pc = "done" /\ (~ MOk(mc)) => rc # 0
AllOrNothing == written \in {{}, Outs(f)}
Terminates == <>(pc = "done")

Scen == IF pc = "done" THEN PrintT(<<"SCEN", ToJson([f |-> f, nul |-> nul, mc |-> mc, sc |-> sc, body |-> body, rng |-> rng, ok |-> rc = 0])>>) ELSE TRUE
=============================================================================
