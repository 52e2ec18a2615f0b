-------------------------------- MODULE Entropy --------------------------------
(* Which calls draw how much randomness, and that a failing draw fails the call. *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES f, drawn, failAt, pc, result
vars == <<f, drawn, failAt, pc, result>>
Need(g) == CASE g = "h_keypair" -> 160 [] g = "c_sign" -> 40 [] g = "f_sign" -> 32 [] g = "ed_keypair" -> 32
             [] g = "d_keypair" -> 32 [] g = "s_keypair" -> 96 [] g = "s_signature" -> 32 [] g = "s_sign" -> 32 [] g = "n_box_keypair" -> 32
Fns == {"h_keypair","c_sign","f_sign","ed_keypair","d_keypair","s_keypair","s_signature","s_sign","n_box_keypair"}
None == 1000
Init == f \in Fns /\ failAt \in (0..(Need(f)-1)) \cup {None} /\ drawn = 0 /\ pc = "draw" /\ result = "none"
Draw == /\ pc = "draw" /\ drawn < Need(f) /\ drawn < failAt
        /\ drawn' = drawn + 1 /\ UNCHANGED <<f, failAt, pc, result>>
Failed == pc = "draw" /\ drawn = failAt /\ pc' = "done" /\ result' = "error" /\ UNCHANGED <<f, drawn, failAt>>
Done == pc = "draw" /\ drawn = Need(f) /\ pc' = "done" /\ result' = "output" /\ UNCHANGED <<f, drawn, failAt>>
Next == Draw \/ Failed \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
FailClosed == result = "output" => drawn = Need(f) /\ failAt = None
Answers == <>(result # "none")
Emit == IF pc = "done" THEN PrintT(<<"RUN", f, failAt, result, Need(f)>>) ELSE TRUE
=============================================================================
