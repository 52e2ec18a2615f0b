-------------------------------- MODULE Conform --------------------------------
(* Trace specification for recorded calls of the library.  A trace is a set of  *)
(* call events; each is explained (st = "ok") only if the byte-level            *)
(* specification gives exactly the recorded result.  Calls are stateless by     *)
(* specification, so events are independent and TLC's workers evaluate them in  *)
(* parallel.                                                                    *)
EXTENDS Hybrid, Nacl, Json, IOUtils, Integers

Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES i, st
B(s) == HexToBytes(s)

HashOf(alg,x,n) == CASE alg = "shake128" -> Shake128(x,n) [] alg = "shake256" -> Shake256(x,n)
                     [] alg = "sha3-256" -> Sha3_256(x) [] alg = "sha3-384" -> Sha3_384(x)
                     [] alg = "sha3-512" -> Sha3_512(x) [] alg = "sha512" -> Sha512(x)
OkIff(e,b) == e.ok = b

HKey(e)  == LET k == TLCEval(HKeyGen(B(e.seed))) IN e.ok /\ k.pk = B(e.pk) /\ k.sk = B(e.sk)
CSign(e) == e.ok /\ B(e.sm) = CompactSign(B(e.m),B(e.sk),B(e.rnd))
COpen(e) == LET o == TLCEval(CompactOpen(B(e.sm),B(e.pk))) IN OkIff(e,o.ok) /\ (o.ok => o.msg = B(e.m))
FOpen(e) == LET o == TLCEval(FullOpen(B(e.sm),B(e.pk))) IN OkIff(e,o.ok) /\ (o.ok => o.msg = B(e.m))
FSign(e) == e.ok /\ B(e.sm) = FullSign(B(e.m),B(e.sk),B(e.rnd))
\* the cheap form: the SPHINCS+ part is checked by verification and by its randomiser
FSignV(e) == LET sm == TLCEval(B(e.sm))  m == B(e.m)  sk == TLCEval(B(e.sk))  p == FullParts(sm) IN
             /\ e.ok /\ WellFormed(IdFull,FullBase,sm) /\ p.msg = m
             /\ p.ed = EdSign(m,SkEd(sk)) /\ p.dil = DSign(m,SkDil(sk))
             /\ SubSeq(p.sph,1,32) = SRandomiser(m,SkSph(sk),B(e.rnd))
             /\ SVerify(p.sph,m,SubSeq(SkSph(sk),65,128))
EdKey(e)  == LET p == TLCEval(EdPub(B(e.seed))) IN e.ok /\ B(e.pk) = p /\ B(e.sk) = B(e.seed) \o p
EdSgn(e)  == e.ok /\ B(e.sm) = EdSign(B(e.m),B(e.sk)) \o B(e.m)
EdOpn(e)  == LET sm == TLCEval(B(e.sm)) IN
             IF Len(sm) < 64 THEN OkIff(e,FALSE)
             ELSE LET m == SubSeq(sm,65,Len(sm)) v == EdVerify(SubSeq(sm,1,64),m,B(e.pk))
                  IN OkIff(e,v) /\ (v => B(e.m) = m)
DKey(e)  == LET k == TLCEval(DKeyGen(B(e.seed))) IN e.ok /\ k.pk = B(e.pk) /\ k.sk = B(e.sk)
DSgn(e)  == e.ok /\ B(e.sig) = DSign(B(e.m),B(e.sk))
DVer(e)  == OkIff(e,DVerify(B(e.sig),B(e.m),B(e.pk)))
HDVer(e) == OkIff(e,DilVerify(B(e.m),B(e.sig),B(e.pk)))
SKey(e)  == LET k == TLCEval(SKeyGen(B(e.seed))) IN e.ok /\ k.pk = B(e.pk) /\ k.sk = B(e.sk)
SSgn(e)  == e.ok /\ B(e.sig) = SSign(B(e.m),B(e.sk),B(e.rnd))
\* the cheap form: a verifying signature with the right randomiser is the reference one, collisions of SHAKE256 aside
SSgnV(e) == LET sig == TLCEval(B(e.sig)) sk == TLCEval(B(e.sk)) m == TLCEval(B(e.m)) IN
            /\ e.ok /\ Len(sig) = SSigBytes /\ SubSeq(sig,1,32) = SRandomiser(m,sk,B(e.rnd)) /\ SVerify(sig,m,SubSeq(sk,65,128))
SVer(e)  == OkIff(e,SVerify(B(e.sig),B(e.m),B(e.pk)))
\* --- NaCl
NSb(e)   == e.ok /\ B(e.c) = SecretBox(B(e.m),B(e.n),B(e.k))
NSbo(e)  == LET o == TLCEval(SecretBoxOpen(B(e.c),B(e.n),B(e.k))) IN OkIff(e,o.ok) /\ (o.ok => o.m = B(e.m))
NFun(e)  == e.ok /\ B(e.out) =
            (CASE e.f = "scalarmult" -> X25519(B(e.a),B(e.b)) [] e.f = "base" -> X25519(B(e.a),XBase)
               [] e.f = "auth" -> Poly1305(B(e.a),B(e.b)) [] e.f = "xsalsa" -> XSalsa20(Len(e.out) \div 2,B(e.a),B(e.b))
               [] e.f = "salsa" -> Salsa20Stream(Len(e.out) \div 2,B(e.a),B(e.b))
               [] e.f = "salsawin" -> SubSeq(SStreamFrom(Len(e.out) \div 2,B(e.a),B(e.b),e.ctr),1,Len(e.out) \div 2)      \* part of a long stream
               [] e.f = "xsalsawin" -> SubSeq(SStreamFrom(Len(e.out) \div 2,SubSeq(B(e.a),17,24),TLCEval(CoreHSalsa20(SubSeq(B(e.a),1,16),B(e.b))),e.ctr),1,Len(e.out) \div 2)
               [] e.f = "core" -> CoreSalsa20(B(e.a),B(e.b)) [] e.f = "hcore" -> CoreHSalsa20(B(e.a),B(e.b))
               [] e.f = "beforenm" -> BoxKey(B(e.a),B(e.b)))

Accepts(e) ==
  CASE e.op = "hashrep" -> B(e.out) = Sha512Repeat(e.byte,e.hi,e.lo)
    [] e.op = "hash"  -> B(e.out) = HashOf(e.alg,B(e.in),Len(e.out) \div 2)
    [] e.op = "expand" -> e.ok /\ LET s == TLCEval(B(e.seed)) o == TLCEval(B(e.out)) IN o = SeedExpandPinned(s) \/ o = SeedExpand(s)
    [] e.op = "prng"  -> e.ok /\ B(e.out) = PrngStream(B(e.seed),Len(e.out) \div 2)
    [] e.op = "hkey"  -> HKey(e)   [] e.op = "csign" -> CSign(e)  [] e.op = "copen" -> COpen(e)
    [] e.op = "fopen" -> FOpen(e)  [] e.op = "fsign" -> FSign(e)  [] e.op = "fsignv" -> FSignV(e)
    [] e.op = "cverify" -> OkIff(e,CompactVerify(B(e.m),B(e.sm),B(e.pk)))
    [] e.op = "fverify" -> OkIff(e,FullVerify(B(e.m),B(e.sm),B(e.pk)))
    [] e.op = "edkey" -> EdKey(e)  [] e.op = "edsign" -> EdSgn(e) [] e.op = "edopen" -> EdOpn(e)
    [] e.op = "dkey"  -> DKey(e)   [] e.op = "dsign" -> DSgn(e)   [] e.op = "dverify" -> DVer(e)
    [] e.op = "hdverify" -> HDVer(e)
    [] e.op = "skey"  -> SKey(e)   [] e.op = "ssign" -> SSgn(e)  [] e.op = "ssignv" -> SSgnV(e)   [] e.op = "sverify" -> SVer(e)
    [] e.op = "secretbox" -> NSb(e) [] e.op = "secretboxopen" -> NSbo(e) [] e.op = "nacl" -> NFun(e)

Init == i \in 1..Len(Trace) /\ st = "todo"
Explain == /\ st = "todo"
           /\ LET ok == TLCEval(Accepts(Trace[i])) IN
              /\ st' = IF ok THEN "ok" ELSE "bad"
              /\ IF ok THEN TRUE ELSE PrintT(<<"BAD",i,Trace[i].op>>)
           /\ UNCHANGED i
Spec == Init /\ [][Explain]_<<i,st>>
AllSeen == TLCGet("stats").distinct = 2*Len(Trace)
=============================================================================
