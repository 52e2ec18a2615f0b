------------------------------ MODULE Dilithium ------------------------------
(* CRYSTALS-Dilithium2 (round 3.1+: 64-byte tr, deterministic signing with   *)
(* 32 zero bytes of rnd) as used by the repository.  Polynomials are          *)
(* sequences of 256 coefficients in 0..Q-1; the NTT is defined as evaluation *)
(* at the odd powers of zeta, not as a butterfly network.                     *)
EXTENDS Keccak, Integers

Q == 8380417   DLK == 4   DLL == 4   DLEta == 2   Tau == 39   Beta == 78
Gamma1 == 131072   Gamma2 == (Q-1) \div 88   Omega == 80   DD_ == 13
DPkBytes == 1312   DSkBytes == 2560   DSigBytes == 2420

\* product modulo Q within 31 bits: Horner over base-256 digits of b (overridden)
MulQ(a,b) == LET g(x,d) ==   \* x*256 and a*d are below 2^31
                           (((x*256) % Q) + ((a*d) % Q)) % Q
             IN g(g(((b \div 65536) * a) % Q, (b \div 256) % 256), b % 256)
AddQ(a,b) == (a+b) % Q
SubQ(a,b) == (a-b+Q) % Q
Ctr(a)    == IF a > (Q-1) \div 2 THEN a - Q ELSE a
Abs(a)    == IF a < 0 THEN -a ELSE a
Norm(a)   == Abs(Ctr(a))

RECURSIVE PowQ(_,_)
PowQ(a,e) == IF e = 0 THEN 1 ELSE LET h == PowQ(a, e \div 2) s == MulQ(h,h) IN IF e % 2 = 1 THEN MulQ(s,a) ELSE s
Zeta == 1753
ZetaPow == TLCEval([e \in 0..511 |-> PowQ(Zeta,e)])
RECURSIVE Brv(_,_)
Brv(i,k) == IF k = 0 THEN 0 ELSE (i % 2)*Pow2(k-1) + Brv(i \div 2,k-1)
RECURSIVE DotEval(_,_,_,_,_)
DotEval(a,zp,e,j,acc) == IF j = 256 THEN acc ELSE DotEval(a,zp,e,j+1,TLCEval(AddQ(acc,MulQ(a[j+1],zp[(e*j) % 512]))))
NTT(a) == LET zp == TLCEval(ZetaPow)  x == TLCEval(a) IN [i \in 1..256 |-> DotEval(x, zp, TLCEval(2*Brv(i-1,8)+1), 0, 0)]
RECURSIVE DotInv(_,_,_,_,_)
DotInv(a,zp,j,i,acc) == IF i = 256 THEN acc
   ELSE DotInv(a,zp,j,i+1,TLCEval(AddQ(acc,MulQ(a[i+1],zp[(512 - (((2*Brv(i,8)+1)*j) % 512)) % 512]))))
InvNTT(a) == LET zp == TLCEval(ZetaPow)  x == TLCEval(a) IN [j \in 1..256 |-> MulQ(8347681, DotInv(x,zp,j-1,0,0))]          \* 256^-1 mod Q

PolyAdd(a,b) == [i \in 1..256 |-> (a[i]+b[i]) % Q]
PolySub(a,b) == [i \in 1..256 |-> (a[i]-b[i]+Q) % Q]
PolyMulNTT(a,b) == [i \in 1..256 |-> MulQ(a[i],b[i])]
VecAdd(a,b) == [k \in 1..Len(a) |-> TLCEval(PolyAdd(a[k],b[k]))]
VecSub(a,b) == [k \in 1..Len(a) |-> TLCEval(PolySub(a[k],b[k]))]
VecNTT(a)   == [k \in 1..Len(a) |-> TLCEval(NTT(a[k]))]
VecInv(a)   == [k \in 1..Len(a) |-> TLCEval(InvNTT(a[k]))]
ScaleNTT(c,a) == [k \in 1..Len(a) |-> TLCEval(PolyMulNTT(c,a[k]))]
RowDot(row,v) == PolyAdd(PolyAdd(TLCEval(PolyMulNTT(row[1],v[1])),TLCEval(PolyMulNTT(row[2],v[2]))),
                         PolyAdd(TLCEval(PolyMulNTT(row[3],v[3])),TLCEval(PolyMulNTT(row[4],v[4]))))
MatVec(A,v) == [k \in 1..DLK |-> TLCEval(RowDot(A[k],v))]
PolyNormLt(p,b) == \A i \in 1..256 : Norm(p[i]) < b
VecNormLt(v,b) == \A k \in 1..Len(v) : PolyNormLt(v[k],b)
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
VecNorm(v) == SetMax({ SetMax({ Norm(v[k][i]) : i \in 1..256 }) : k \in 1..Len(v) })

\* --- bit packing: b bits per value, little endian bit order (overridden)
PackBits(v,b) == [k \in 1..((Len(v)*b) \div 8) |->
   LET RECURSIVE S(_)
       S(j) == IF j = 8 THEN 0
               ELSE LET t == 8*(k-1)+j IN ((v[(t \div b)+1] \div Pow2(t % b)) % 2)*Pow2(j) + S(j+1)
   IN S(0)]
UnpackBits(s,b) == [i \in 1..((Len(s)*8) \div b) |->
   LET RECURSIVE S(_)
       S(j) == IF j = b THEN 0
               ELSE LET t == b*(i-1)+j IN ((s[(t \div 8)+1] \div Pow2(t % 8)) % 2)*Pow2(j) + S(j+1)
   IN S(0)]
ModQ(a) == (a % Q)                                        \* TLA+ % is non-negative
PackOff(v,b,off)   == PackBits([i \in 1..256 |-> off - Ctr(v[i])],b)
UnpackOff(s,b,off) == LET u == TLCEval(UnpackBits(s,b)) IN [i \in 1..256 |-> ModQ(off - u[i])]
UnpackVec(s,o,n,len,b,off) == [k \in 1..n |-> TLCEval(UnpackOff(Slice(s,o+(k-1)*len,len),b,off))]

\* --- rounding
Power2Round1(r) == (r + 4095) \div 8192                   \* r in 0..Q-1; low part in (-2^12, 2^12]
Power2Round0(r) == r - 8192*Power2Round1(r)
ModPM(r,a) == LET m == r % a IN IF m > a \div 2 THEN m - a ELSE m
Low_(r) == ModPM(r,2*Gamma2)
HighBits(r) == IF r - Low_(r) = Q-1 THEN 0 ELSE (r - Low_(r)) \div (2*Gamma2)
LowBits(r)  == IF r - Low_(r) = Q-1 THEN Low_(r) - 1 ELSE Low_(r)
UseHint(h,r) == LET r1 == HighBits(r) IN
   IF h = 0 THEN r1 ELSE IF LowBits(r) > 0 THEN (r1+1) % 44 ELSE (r1+43) % 44

\* the same on whole polynomials
PolyHigh(w) == [i \in 1..256 |-> HighBits(w[i])]
PolyUseHint(h,w) == [i \in 1..256 |-> UseHint(h[i],w[i])]
PolyMakeHint(r,ct0,w1) == [i \in 1..256 |-> IF HighBits((r[i]+ct0[i]) % Q) = w1[i] THEN 0 ELSE 1]
\* low bits of w minus (w - r), i.e. the low part after subtracting c s2
PolyLowOk(w,r) == \A i \in 1..256 : Abs(Ctr(ModQ(LowBits(w[i]) - (w[i] - r[i])))) < Gamma2 - Beta

\* --- sampling
First256(s) == SubSeq(s,1,256)
RECURSIVE UniformFrom(_,_)
UniformFrom(seed,nb) ==
  LET st == TLCEval(Shake128(seed, 168*nb))
      cand == [i \in 1..((168*nb) \div 3) |-> st[3*i-2] + 256*st[3*i-1] + 65536*(st[3*i] % 128)]
      acc == SelectSeq(cand, LAMBDA t : t < Q)
  IN IF Len(acc) >= 256 THEN First256(acc) ELSE UniformFrom(seed,nb+1)
ExpandA(rho) == [i \in 1..DLK |-> [j \in 1..DLL |-> TLCEval(UniformFrom(rho \o <<j-1,i-1>>,5))]]
RECURSIVE EtaFrom(_,_)
EtaFrom(seed,nb) ==
  LET st == TLCEval(Shake256(seed, 136*nb))
      nib == [i \in 1..(272*nb) |-> IF i % 2 = 1 THEN st[(i+1) \div 2] % 16 ELSE st[i \div 2] \div 16]
      acc == SelectSeq(nib, LAMBDA t : t < 15)
  IN IF Len(acc) >= 256 THEN [i \in 1..256 |-> ModQ(2 - (acc[i] % 5))] ELSE EtaFrom(seed,nb+1)
ExpandS(rhop,n,from) == [k \in 1..n |-> TLCEval(EtaFrom(rhop \o LE(from+k-1,2),1))]
ExpandMask(rhop,kappa) == [k \in 1..DLL |->
   TLCEval(UnpackOff(Shake256(rhop \o LE((DLL*kappa+k-1) % 65536,2),576),18,Gamma1))]
RECURSIVE BallFrom(_,_,_,_,_)
BallFrom(st,pos,i,c,sgn) ==      \* i: next index 217..255 (0 based), sgn: sign-bit number
  IF i = 256 THEN c
  ELSE LET b == st[pos+1] IN
       IF b > i THEN BallFrom(st,pos+1,i,c,sgn)
       ELSE LET s == (st[(sgn \div 8)+1] \div Pow2(sgn % 8)) % 2
            IN BallFrom(st,pos+1,i+1,TLCEval([[c EXCEPT ![i+1] = c[b+1]] EXCEPT ![b+1] = IF s = 1 THEN Q-1 ELSE 1]),sgn+1)
SampleInBall(ct) == BallFrom(TLCEval(Shake256(ct,136*3)), 8, 256-Tau, Zeros(256), 0)

\* --- keys
DKeyGen(seed) ==
  LET h == TLCEval(Shake256(seed,128))
      rho == SubSeq(h,1,32)  rhop == SubSeq(h,33,96)  key == SubSeq(h,97,128)
      A == TLCEval(ExpandA(rho))
      s1 == TLCEval(ExpandS(rhop,DLL,0))
      s2 == TLCEval(ExpandS(rhop,DLK,DLL))
      t == TLCEval(VecAdd(VecInv(MatVec(A,VecNTT(s1))),s2))
      t1 == [k \in 1..DLK |-> [i \in 1..256 |-> Power2Round1(t[k][i])]]
      t0 == [k \in 1..DLK |-> [i \in 1..256 |-> Power2Round0(t[k][i])]]
      pk == TLCEval(rho \o Flat([k \in 1..DLK |-> PackBits(t1[k],10)]))
      tr == Shake256(pk,64)
      sk == rho \o key \o tr \o Flat([k \in 1..DLL |-> PackOff(s1[k],3,2)])
                             \o Flat([k \in 1..DLK |-> PackOff(s2[k],3,2)])
                             \o Flat([k \in 1..DLK |-> PackBits([i \in 1..256 |-> 4096 - t0[k][i]],13)])
  IN [pk |-> pk, sk |-> TLCEval(sk)]

\* --- hints
HintIdx(h) == SelectSeq([i \in 1..256 |-> i-1], LAMBDA i : h[i+1] = 1)
PackHint(h) == LET ix == TLCEval([k \in 1..DLK |-> HintIdx(h[k])])
                   all == ix[1] \o ix[2] \o ix[3] \o ix[4]
                   c1 == Len(ix[1]) c2 == c1+Len(ix[2]) c3 == c2+Len(ix[3]) c4 == c3+Len(ix[4])
               IN all \o Zeros(Omega-Len(all)) \o <<c1,c2,c3,c4>>
\* decoding accepts exactly the canonical encodings
HintCanonical(y) ==
  LET c(k) == IF k = 0 THEN 0 ELSE y[Omega+k] IN
  /\ \A k \in 1..DLK : c(k-1) <= c(k) /\ c(k) <= Omega
  /\ \A k \in 1..DLK : \A j \in (c(k-1)+2)..c(k) : y[j-1] < y[j]
  /\ \A j \in (c(DLK)+1)..Omega : y[j] = 0
UnpackHint(y) == LET c(k) == IF k = 0 THEN 0 ELSE y[Omega+k] IN
  [k \in 1..DLK |-> TLCEval([i \in 1..256 |-> IF \E j \in (c(k-1)+1)..c(k) : y[j] = i-1 THEN 1 ELSE 0])]
HintWeight(h) == LET w(k) == Len(HintIdx(h[k])) IN w(1)+w(2)+w(3)+w(4)

\* --- signing; result carries the rejection history
PackW1(w1) == Flat([k \in 1..DLK |-> PackBits(w1[k],6)])
\* tw alters the challenge hash: <<>> for the real function, otherwise a forgery made with the secret key
\* that violates nothing but the equality of the challenge, in exactly the bits of tw
RECURSIVE SignLoop(_,_,_,_,_,_,_,_,_,_)
SignLoop(A,s1,s2,t0,mu,rhop,kappa,hist,maxit,tw) ==
  IF kappa = maxit THEN [sig |-> << >>, hist |-> hist] ELSE
  LET y == TLCEval(ExpandMask(rhop,kappa))
      w == TLCEval(VecInv(MatVec(A,VecNTT(y))))
      w1 == TLCEval([k \in 1..DLK |-> TLCEval(PolyHigh(w[k]))])
      hc == TLCEval(Shake256(mu \o PackW1(w1),32))
      ct == IF tw = << >> THEN hc ELSE TLCEval(XorBytes(hc,tw))
      c == TLCEval(NTT(SampleInBall(ct)))
      z == TLCEval(VecAdd(y,VecInv(ScaleNTT(c,s1))))
      r == TLCEval(VecSub(w,VecInv(ScaleNTT(c,s2))))
      r0ok == \A k \in 1..DLK : PolyLowOk(w[k],r[k])
      ct0 == TLCEval(VecInv(ScaleNTT(c,t0)))
      h == TLCEval([k \in 1..DLK |-> TLCEval(PolyMakeHint(r[k],ct0[k],w1[k]))])
      again(why) == SignLoop(A,s1,s2,t0,mu,rhop,kappa+1,Append(hist,why),maxit,tw)
  IN IF ~ VecNormLt(z,Gamma1-Beta) THEN again("z")
     ELSE IF ~ r0ok THEN again("r0")
     ELSE IF ~ VecNormLt(ct0,Gamma2) THEN again("ct0")
     ELSE IF HintWeight(h) > Omega THEN again("hint")
     ELSE [sig |-> TLCEval(ct \o Flat([k \in 1..DLL |-> PackOff(z[k],18,Gamma1)]) \o PackHint(h)),
           hist |-> hist, znorm |-> VecNorm(z), weight |-> HintWeight(h)]
DSignTweak(m,sk,maxit,tw) ==
  LET rho == SubSeq(sk,1,32)  key == SubSeq(sk,33,64)  tr == SubSeq(sk,65,128)
      s1 == TLCEval(VecNTT(UnpackVec(sk,128,DLL,96,3,2)))
      s2 == TLCEval(VecNTT(UnpackVec(sk,512,DLK,96,3,2)))
      t0 == TLCEval(VecNTT(UnpackVec(sk,896,DLK,416,13,4096)))
      mu == TLCEval(Shake256(tr \o m,64))
      rhop == TLCEval(Shake256(key \o Zeros(32) \o mu,64))
  IN SignLoop(TLCEval(ExpandA(rho)),s1,s2,t0,mu,rhop,0,<< >>,maxit,tw)
DSignMax(m,sk,maxit) == DSignTweak(m,sk,maxit,<< >>)
DSign(m,sk) == DSignMax(m,sk,1000).sig

\* --- verification with the set of violated conditions ({} = accept)
DFaults(sig,m,pk) ==
  IF Len(sig) # DSigBytes THEN {"len"} ELSE
  LET ct == SubSeq(sig,1,32)
      z == TLCEval(UnpackVec(sig,32,DLL,576,18,Gamma1))
      y == Slice(sig,32+4*576,Omega+DLK)
      hok == HintCanonical(y)
      cntok == \A k \in 1..DLK : y[Omega+k] <= Omega
      h == IF cntok THEN TLCEval(UnpackHint(y)) ELSE [k \in 1..DLK |-> Zeros(256)]
      mu == TLCEval(Shake256(Shake256(pk,64) \o m,64))
      A == TLCEval(ExpandA(SubSeq(pk,1,32)))
      t1 == [k \in 1..DLK |-> LET u == TLCEval(UnpackBits(Slice(pk,32+320*(k-1),320),10))
                              IN TLCEval([i \in 1..256 |-> u[i]*8192])]
      c == TLCEval(NTT(SampleInBall(ct)))
      w == TLCEval(VecInv(VecSub(MatVec(A,VecNTT(z)),ScaleNTT(c,VecNTT(t1)))))
      w1 == [k \in 1..DLK |-> TLCEval(PolyUseHint(h[k],w[k]))]
      ct2 == TLCEval(Shake256(mu \o PackW1(w1),32))
  IN (IF hok THEN {} ELSE {"hint"}) \cup (IF VecNormLt(z,Gamma1-Beta) THEN {} ELSE {"znorm"})
     \cup (IF ct2 = ct THEN {} ELSE {"challenge"})
DVerify(sig,m,pk) == DFaults(sig,m,pk) = {}
\* --- the keyless key: with t1 = 0 the challenge does not enter the commitment, so every response z and hint vector
\* h (1024 bits, packed) has a matching challenge, and each acceptance condition can be met or violated on its own
DFreePk(rho) == rho \o Zeros(1280)
DFreeChallenge(m,rho,zp,hb) ==
  LET z == TLCEval(UnpackVec(zp,0,DLL,576,18,Gamma1))
      h == [k \in 1..DLK |-> TLCEval(UnpackBits(Slice(hb,32*(k-1),32),1))]
      w == TLCEval(VecInv(MatVec(TLCEval(ExpandA(rho)),VecNTT(z))))
      w1 == [k \in 1..DLK |-> TLCEval(PolyUseHint(h[k],w[k]))]
  IN Shake256(Shake256(Shake256(DFreePk(rho),64) \o m,64) \o PackW1(w1),32)
=============================================================================
