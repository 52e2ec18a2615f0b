------------------------------- MODULE Ed25519 -------------------------------
(* RFC 8032 Ed25519 (pure EdDSA, cofactorless verification), and the field   *)
(* and group arithmetic it needs.  Points are extended coordinates           *)
(* <<X,Y,Z,T>>, numbers are 32-byte little-endian sequences.                 *)
EXTENDS Sha512

FP == <<237>> \o Repeat(255,30) \o <<127>>                                \* 2^255 - 19
\* group order L = 2^252 + 27742317777372353535851937790883648493
GL == <<237,211,245,92,26,99,18,88,214,156,247,162,222,249,222,20>> \o Zeros(15) \o <<16>>
N32(n) == LE(n,4) \o Zeros(28)
FAdd(a,b) == BnAddMod(a,b,FP)
FSub(a,b) == BnSubMod(a,b,FP)
FMul(a,b) == BnMulMod(a,b,FP)
FNeg(a)   == BnSubMod(Zeros(32),a,FP)
FPm2   == [FP EXCEPT ![1] = 235]                                         \* p-2
FInv(a)   == BnPowMod(a,FPm2,FP)
\* (p-5)/8 = 2^252 - 3 ; (p-1)/4 = 2^253 - 5
E58 == <<253>> \o Repeat(255,30) \o <<15>>
E14 == <<251>> \o Repeat(255,30) \o <<31>>
SqrtM1 == TLCEval(BnPowMod(N32(2),E14,FP))
DD == TLCEval(FMul(FNeg(N32(30000*4+1665)),FInv(N32(30000*4+1666))))        \* -121665/121666
DD2 == TLCEval(FAdd(DD,DD))

PAdd(p,q) ==
  LET A == FMul(FSub(p[2],p[1]),FSub(q[2],q[1]))
      B == FMul(FAdd(p[2],p[1]),FAdd(q[2],q[1]))
      C == FMul(FMul(p[4],q[4]),DD2)
      D == FMul(FAdd(p[3],p[3]),q[3])
      E == FSub(B,A)  F == FSub(D,C)  G == FAdd(D,C)  H == FAdd(B,A)
  IN << FMul(E,F), FMul(G,H), FMul(F,G), FMul(E,H) >>
PZero == << Zeros(32), N32(1), N32(1), Zeros(32) >>
RECURSIVE SMulBits(_,_,_,_)
SMulBits(s,p,i,acc) == IF i < 0 THEN acc
  ELSE LET d == TLCEval(PAdd(acc,acc))
       IN SMulBits(s,p,i-1, IF Bit(s,i) = 1 THEN TLCEval(PAdd(d,p)) ELSE d)
SMul(s,p) == SMulBits(s,p,8*Len(s)-1,PZero)
PNeg(p) == << FNeg(p[1]), p[2], p[3], FNeg(p[4]) >>

Parity(a) == a[1] % 2
PEncode(p) == LET zi == TLCEval(FInv(p[3]))  x == TLCEval(FMul(p[1],zi))  y == TLCEval(FMul(p[2],zi))
              IN [y EXCEPT ![32] = @ + 128*Parity(x)]
\* decoding: y reduced modulo p, x recovered with the stated parity; NoPoint if not on the curve
NoPoint == << >>
PDecode(b) ==
  LET sgn == b[32] \div 128
      y == BnMod([b EXCEPT ![32] = @ % 128],FP)
      y2 == TLCEval(FMul(y,y))
      u == TLCEval(FSub(y2,N32(1)))
      v == TLCEval(FAdd(FMul(DD,y2),N32(1)))
      v3 == FMul(FMul(v,v),v)
      v7 == FMul(FMul(v3,v3),v)
      r == TLCEval(FMul(FMul(u,v3),BnPowMod(FMul(u,v7),E58,FP)))
      chk == TLCEval(FMul(v,FMul(r,r)))
      x0 == IF chk = u THEN r ELSE IF chk = FNeg(u) THEN TLCEval(FMul(r,SqrtM1)) ELSE << >>
  IN IF x0 = << >> THEN NoPoint
     ELSE LET x == IF Parity(x0) = sgn THEN x0 ELSE TLCEval(FNeg(x0))
          IN << x, y, N32(1), FMul(x,y) >>
BaseY == TLCEval(FMul(N32(4),FInv(N32(5))))
BasePt == TLCEval(PDecode(BaseY))

Clamp(h) == [i \in 1..32 |-> IF i = 1 THEN (h[1] \div 8)*8
                             ELSE IF i = 32 THEN (h[32] % 64) + 64 ELSE h[i]]
EdPub(seed) == LET h == Sha512(seed) IN PEncode(SMul(Clamp(SubSeq(h,1,32)),BasePt))
EdSk(seed)  == seed \o EdPub(seed)                                   \* 64 bytes: seed | public key
\* signature of m under the 64-byte secret key (the embedded public key is used as is); tw alters the
\* encoded commitment: zero for the real function, otherwise a signature that violates only the final
\* comparison, in exactly the bits of tw
EdSignTweak(m,sk,tw) ==
  LET h == TLCEval(Sha512(SubSeq(sk,1,32)))
      a == Clamp(SubSeq(h,1,32))
      r == TLCEval(BnMod(Sha512(SubSeq(h,33,64) \o m),GL))
      R == TLCEval(XorBytes(PEncode(SMul(r,BasePt)),tw))
      k == TLCEval(BnMod(Sha512(R \o SubSeq(sk,33,64) \o m),GL))
      S == BnAddMod(r,BnMulMod(k,a,GL),GL)
  IN R \o S
EdSign(m,sk) == EdSignTweak(m,sk,Zeros(32))
\* verdict with the reason: "ok", "len", "scalar", "point", "equation"
EdVerdict(sig,m,pk) ==
  IF Len(sig) # 64 THEN "len"
  ELSE LET R == SubSeq(sig,1,32)  S == SubSeq(sig,33,64) IN
  IF ~ BnLt(S,GL) THEN "scalar"
  ELSE LET A == PDecode(pk) IN
  IF A = NoPoint THEN "point"
  ELSE LET k == TLCEval(BnMod(Sha512(R \o pk \o m),GL))
           Q == PAdd(SMul(S,BasePt),SMul(k,PNeg(A)))
       IN IF PEncode(Q) = R THEN "ok" ELSE "equation"
EdVerify(sig,m,pk) == EdVerdict(sig,m,pk) = "ok"
\* the same scalar plus the group order: the classical malleated signature
EdMalleate(sig) == SubSeq(sig,1,32) \o Ext(BnAdd(SubSeq(sig,33,64),GL),32)
=============================================================================
