------------------------------ MODULE Footprint ------------------------------
(* Which bytes a call may touch.                                               *)
(* Part 1: the open functions as machines that record every interval they read *)
(* of the claimed signature (slen bytes) and write of the message buffer.      *)
(* ReadsInside and WritesInside hold for every identifier, length byte and     *)
(* stated length; the wrong orders of checks (Variant) are rejected.           *)
(* Part 2: the extents of every argument of every exported function; the       *)
(* calls are emitted and executed on buffers of exactly these sizes.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Variant        \* "spec", "notbound", "nototal", "nolen", "trust"
VARIABLES mode, id, len, slen, pc, reads, writes, rc
vars == <<mode, id, len, slen, pc, reads, writes, rc>>
EdB == 64  DilB == 2420  SphB == 49856  NonceB == 40
Base(m) == IF m = 1 THEN 2 + EdB + DilB + NonceB ELSE 2 + EdB + DilB + SphB
LenBytes == {0,1,2,31,32,63,64,65,66,127,128,200,255}
SLens(m) == {0,1,2,3,65,66,67,2486} \cup { Base(m) + d : d \in {-1,0,1,2,31,32,33,63,64,65,66,100,127,128,200,255} }
Init == /\ mode \in {1,2} /\ id \in {0,1,2,255} /\ len \in LenBytes /\ slen \in SLens(mode)
        /\ pc = "bound" /\ reads = {} /\ writes = {} /\ rc = -1
Stop(r) == pc' = "done" /\ rc' = r
Go(p) == pc' = p /\ UNCHANGED rc
Bound == /\ pc = "bound" /\ UNCHANGED <<reads,writes>>
         /\ IF Variant # "notbound" /\ slen \notin (Base(mode)+1)..(Base(mode)+64) THEN Stop(1) ELSE Go("id")
Ident == /\ pc = "id" /\ reads' = reads \cup {<<0,1>>} /\ UNCHANGED writes /\ IF id = mode THEN Go("len") ELSE Stop(1)
MLen  == /\ pc = "len" /\ reads' = reads \cup {<<1,2>>} /\ UNCHANGED writes /\ IF Variant = "nolen" \/ len \in 1..64 THEN Go("total") ELSE Stop(1)
Total == /\ pc = "total" /\ UNCHANGED <<reads,writes>>
         /\ IF Variant \in {"nototal","nolen"} \/ slen = Base(mode) + len THEN Go("body") ELSE Stop(1)
MsgOff == IF mode = 1 THEN Base(1) ELSE 2 + EdB
Fields == IF mode = 1 THEN { <<2,66>>, <<66,2486>>, <<2486,2526>>, <<2526,2526+len>> }
          ELSE { <<2,66>>, <<66,66+len>>, <<66+len,66+len+DilB>>, <<66+len+DilB,66+len+DilB+SphB>> }
\* the component schemes decide; whether they accept is open here
Body == /\ pc = "body" /\ reads' = reads \cup Fields
        /\ \/ Stop(1) /\ UNCHANGED writes
           \/ Stop(0) /\ writes' = {<<0,len>>}
Next == (Bound \/ Ident \/ MLen \/ Total \/ Body) /\ UNCHANGED <<mode,id,len,slen>>
Spec == Init /\ [][Next]_vars
ReadsInside == \A r \in reads : 0 <= r[1] /\ r[1] <= r[2] /\ r[2] <= slen
WritesInside == \A w \in writes : w[1] = 0 /\ w[2] <= 64
Covered == rc = 0 => UNION { r[1]..(r[2]-1) : r \in reads } = 0..(slen-1)        \* nothing of an accepted signature is ignored
Scen == IF pc = "done" /\ rc = 1 THEN PrintT(<<"SCEN", mode, id, len, slen, reads = {}>>) ELSE TRUE

\* ---- part 2: argument extents.  role: what the driver puts there; w: bytes set when the call succeeds
In(r,n)  == [d |-> "in", r |-> r, n |-> n, w |-> 0]
Out(n,w) == [d |-> "out", r |-> "", n |-> n, w |-> w]
O(n)     == Out(n,n)
LenP     == [d |-> "len", r |-> "", n |-> 8, w |-> 8]
Val(v)   == [d |-> "val", r |-> "", n |-> v, w |-> 0]
Call(f,a) == [f |-> f, a |-> a]
Msgs == {0,1,2,31,32,33,63,64}
Hy   == {1,2,31,32,33,63,64}
Lg   == {0,1,8,63,64,65,111,112,113,127,128,129,135,136,137,168,200,272,1000}
Trunc(N) == {0,1,N \div 2,N-1,N,N+1}
Keys == { Call("vf_ed_keypair_seed",<<O(32),O(64),In("rnd",32)>>), Call("vf_ed_keypair",<<O(32),O(64)>>),
          Call("vf_d_keypair_seed",<<O(1312),O(2560),In("rnd",32)>>), Call("vf_d_keypair",<<O(1312),O(2560)>>),
          Call("vf_s_keypair_seed",<<O(64),O(128),In("rnd",96)>>), Call("vf_s_keypair",<<O(64),O(128)>>),
          Call("vf_h_keypair_seed",<<O(1408),O(4064),In("rnd",160)>>), Call("vf_h_keypair",<<O(1408),O(4064)>>),
          Call("vf_h_expander",<<In("rnd",96),O(160)>>), Call("vf_n_box_keypair",<<O(32),O(32)>>) }
Signs == UNION { { Call("vf_c_sign",<<O(2526+n),LenP,In("msg",n),Val(n),In("hsk",4064)>>), Call("vf_f_sign",<<O(52342+n),LenP,In("msg",n),Val(n),In("hsk",4064)>>) } : n \in Hy }
  \cup UNION { { Call("vf_ed_sign",<<O(64+n),LenP,In("msg",n),Val(n),In("edsk",64)>>), Call("vf_d_signature",<<O(2420),LenP,In("msg",n),Val(n),In("dsk",2560)>>),
                 Call("vf_d_sign",<<O(2420+n),LenP,In("msg",n),Val(n),In("dsk",2560)>>) } : n \in Lg }
  \cup UNION { { Call("vf_s_signature",<<O(49856),LenP,In("msg",n),Val(n),In("ssk",128)>>), Call("vf_s_sign",<<O(49856+n),LenP,In("msg",n),Val(n),In("ssk",128)>>) } : n \in {0,1,40,72,200} }
Opens == UNION { { Call("vf_c_open",<<O(n),LenP,In("csig",2526+n),Val(2526+n),In("hpk",1408)>>), Call("vf_f_open",<<O(n),LenP,In("fsig",52342+n),Val(52342+n),In("hpk",1408)>>),
                   Call("vf_c_verify",<<In("msg",n),Val(n),In("csig",2526+n),Val(2526+n),In("hpk",1408)>>), Call("vf_f_verify",<<In("msg",n),Val(n),In("fsig",52342+n),Val(52342+n),In("hpk",1408)>>),
                   Call("vf_c_open",<<O(n),LenP,In("rnd",2526+n),Val(2526+n),In("rnd",1408)>>), Call("vf_f_verify",<<In("msg",n),Val(n),In("rnd",52342+n),Val(52342+n),In("rnd",1408)>>),
                   Call("vf_hd_verify",<<In("msg",n),Val(n),In("dsig",2420),Val(2420),In("dpk",1312)>>) } : n \in Hy }
  \cup UNION { { Call("vf_d_open",<<Out(s,IF s >= 2420 THEN s-2420 ELSE 0),LenP,In("dsm",s),Val(s),In("dpk",1312)>>) } : s \in Trunc(2420) \cup {2484} }
  \cup UNION { { Call("vf_d_verify",<<In("dsig",s),Val(s),In("msg",n),Val(n),In("dpk",1312)>>), Call("vf_d_verify",<<In("rnd",s),Val(s),In("msg",n),Val(n),In("rnd",1312)>>),
                 Call("vf_hd_verify",<<In("msg",n),Val(n),In("dsig",s),Val(s),In("dpk",1312)>>) } : s \in Trunc(2420), n \in {0,1,32,64,65} }
  \cup UNION { { Call("vf_s_open",<<Out(s,IF s >= 49856 THEN s-49856 ELSE 0),LenP,In("ssm",s),Val(s),In("spk",64)>>) } : s \in Trunc(49856) \cup {49920} }
  \cup UNION { { Call("vf_s_verify",<<In("ssig",s),Val(s),In("msg",n),Val(n),In("spk",64)>>), Call("vf_s_verify",<<In("rnd",s),Val(s),In("msg",n),Val(n),In("rnd",64)>>) } : s \in Trunc(49856), n \in {0,1,64} }
  \cup UNION { { Call("vf_ed_open",<<Out(s,IF s >= 64 THEN s-64 ELSE 0),LenP,In("edsm",s),Val(s),In("edpk",32)>>), Call("vf_ed_open",<<Out(s,0),LenP,In("rnd",s),Val(s),In("rnd",32)>>) } : s \in {0,1,32,63,64,65,66,96,127,128,129,200,264} }
(* contexts: 0, 1 SHAKE-128, -256; 2..4 SHA3-256, -384, -512; 5, 6 SHAKE-128, -256 in whole blocks *)
Dig(k,n) == CASE k = 2 -> 32 [] k = 3 -> 48 [] k = 4 -> 64 [] OTHER -> n
Rate(k) == IF k = 5 THEN 168 ELSE 136
Misc == UNION { { Call("vf_randombytes",<<O(n),Val(n)>>) } : n \in {0,1,2,31,32,40,160,4096,5000} }
  \cup UNION { { Call("vf_prng_wrapper",<<In("rnd",s),Val(s),O(n),Val(n)>>) } : s \in {0,1,31,32,33,48,64,135,136,137}, n \in {0,1,32,33,40,63,64,65,128,136,137,200,1001} }
  \cup UNION { { Call("vf_shake128",<<O(n),Val(n),In("rnd",s),Val(s)>>), Call("vf_shake256",<<O(n),Val(n),In("rnd",s),Val(s)>>) } : s \in {0,1,135,136,137,167,168,169,400}, n \in {0,1,32,135,136,137,167,168,169,500} }
  \cup UNION { { Call("vf_sha3_256",<<O(32),In("rnd",s),Val(s)>>), Call("vf_sha3_384",<<O(48),In("rnd",s),Val(s)>>), Call("vf_sha3_512",<<O(64),In("rnd",s),Val(s)>>), Call("vf_n_sha512",<<O(64),In("rnd",s),Val(s)>>) } : s \in Lg \cup {71,72,73,103,104,105} }
  \cup UNION { { Call("vf_hash_stream",<<Val(k),O(Dig(k,n)),Val(Dig(k,n)),In("rnd",s),Val(s),Val(p)>>), Call("vf_hash_copy",<<Val(k),O(Dig(k,n)),Val(Dig(k,n)),In("rnd",s),Val(s),Val(p)>>) } : k \in 0..4, n \in {1,136,169,400}, s \in {0,71,72,136,200,337}, p \in {1,72,104,136,168,500} }
  \cup UNION { { Call("vf_hash_copy",<<Val(k),O(b*Rate(k)),Val(b*Rate(k)),In("rnd",s),Val(s),Val(0)>>) } : k \in 5..6, b \in 0..3, s \in {0,1,135,136,137,167,168,169,400} }
  \cup UNION { { Call("vf_prng_stream",<<O(n),Val(n),In("rnd",s),Val(s),Val(p)>>) } : s \in {32,64,135,136,137}, n \in {0,1,7,8,9,136,137,1001}, p \in {8,32,136,2000} }
  \cup UNION { { Call("vf_n_secretbox",<<O(n),In("boxm",n),Val(n),In("nonce",24),In("key",32)>>), Call("vf_n_secretbox_open",<<O(n),In("box",n),Val(n),In("nonce",24),In("key",32)>>), Call("vf_n_secretbox_open",<<O(n),In("rnd",n),Val(n),In("nonce",24),In("key",32)>>),
                 Call("vf_n_afternm",<<O(n),In("boxm",n),Val(n),In("nonce",24),In("key",32)>>), Call("vf_n_open_afternm",<<O(n),In("box",n),Val(n),In("nonce",24),In("key",32)>>),
                 Call("vf_n_box",<<O(n),In("boxm",n),Val(n),In("nonce",24),In("rnd",32),In("rnd",32)>>), Call("vf_n_box_open",<<O(n),In("rnd",n),Val(n),In("nonce",24),In("rnd",32),In("rnd",32)>>) } : n \in {32,33,47,48,49,63,64,65,95,96,97,128,200,1000} }
  \cup UNION { { Call("vf_n_secretbox",<<Out(n,0),In("rnd",n),Val(n),In("nonce",24),In("key",32)>>), Call("vf_n_secretbox_open",<<Out(n,0),In("rnd",n),Val(n),In("nonce",24),In("key",32)>>) } : n \in {0,1,15,16,31} }
  \cup UNION { { Call("vf_n_stream_xsalsa20",<<O(n),Val(n),In("nonce",24),In("key",32)>>), Call("vf_n_stream_xsalsa20_xor",<<O(n),In("rnd",n),Val(n),In("nonce",24),In("key",32)>>),
                 Call("vf_n_stream_salsa20",<<O(n),Val(n),In("rnd",8),In("key",32)>>), Call("vf_n_stream_salsa20_xor",<<O(n),In("rnd",n),Val(n),In("rnd",8),In("key",32)>>), Call("vf_n_auth",<<O(16),In("rnd",n),Val(n),In("key",32)>>), Call("vf_n_auth_verify",<<In("rnd",16),In("rnd",n),Val(n),In("key",32)>>) } : n \in {0,1,15,16,17,31,32,33,63,64,65,127,128,129,500} }
  \cup { Call("vf_n_scalarmult",<<O(32),In("rnd",32),In("rnd",32)>>), Call("vf_n_scalarmult_base",<<O(32),In("rnd",32)>>), Call("vf_n_beforenm",<<O(32),In("rnd",32),In("rnd",32)>>),
         Call("vf_n_core_salsa20",<<O(64),In("rnd",16),In("rnd",32),In("rnd",16)>>), Call("vf_n_core_hsalsa20",<<O(32),In("rnd",16),In("rnd",32),In("rnd",16)>>), Call("vf_n_verify16",<<In("rnd",16),In("rnd",16)>>), Call("vf_n_verify32",<<In("rnd",32),In("rnd",32)>>) }
Calls == Keys \cup Signs \cup Opens \cup Misc
EmitCalls == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.VF_OUT, SetToSeq(Calls))
=============================================================================
