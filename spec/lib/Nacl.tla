--------------------------------- MODULE Nacl ---------------------------------
(* Salsa20, XSalsa20, Poly1305, secretbox, X25519 and box, from their original  *)
(* definitions.  32-bit words are pairs <<lo,hi>> of 16-bit limbs.              *)
EXTENDS Ed25519

\* --- words
W32Add(a,b) == LET l == a[1]+b[1] IN << l % 65536, (a[2]+b[2]+(l \div 65536)) % 65536 >>
W32Xor(a,b) == << Xor16(a[1],b[1]), Xor16(a[2],b[2]) >>
W32Rot(a,n) == LET x == IF n >= 16 THEN <<a[2],a[1]>> ELSE a   r == n % 16  IN
             << ((x[1]*Pow2(r)) % 65536) + (x[2] \div Pow2(16-r)), ((x[2]*Pow2(r)) % 65536) + (x[1] \div Pow2(16-r)) >>
Words(s) == [i \in 1..(Len(s) \div 4) |-> << s[4*i-3]+256*s[4*i-2], s[4*i-1]+256*s[4*i] >>]
Unwords(w) == Flat([i \in 1..Len(w) |-> << w[i][1] % 256, w[i][1] \div 256, w[i][2] % 256, w[i][2] \div 256 >>])
\* quarter round on positions a,b,c,d (0-based) of a 16-word state
QR(x,a,b,c,d) ==
  LET b1 == W32Xor(x[b+1],W32Rot(W32Add(x[a+1],x[d+1]),7))
      c1 == W32Xor(x[c+1],W32Rot(W32Add(b1,x[a+1]),9))
      d1 == W32Xor(x[d+1],W32Rot(W32Add(c1,b1),13))
      a1 == W32Xor(x[a+1],W32Rot(W32Add(d1,c1),18))
  IN TLCEval([x EXCEPT ![a+1] = a1, ![b+1] = b1, ![c+1] = c1, ![d+1] = d1])
ColRound(x) == QR(QR(QR(QR(x,0,4,8,12),5,9,13,1),10,14,2,6),15,3,7,11)
RowRound(x) == QR(QR(QR(QR(x,0,1,2,3),5,6,7,4),10,11,8,9),15,12,13,14)
RECURSIVE Doubles(_,_)
Doubles(x,n) == IF n = 0 THEN x ELSE Doubles(TLCEval(RowRound(TLCEval(ColRound(x)))),n-1)
Sigma == <<101,120,112,97,110,100,32,51,50,45,98,121,116,101,32,107>>     \* "expand 32-byte k"
SState(in,k) == Words(SubSeq(Sigma,1,4) \o SubSeq(k,1,16) \o SubSeq(Sigma,5,8) \o in \o SubSeq(Sigma,9,12)
                      \o SubSeq(k,17,32) \o SubSeq(Sigma,13,16))
CoreSalsa20(in,k) == LET x == TLCEval(SState(in,k)) y == TLCEval(Doubles(x,10))
                     IN Unwords([i \in 1..16 |-> W32Add(x[i],y[i])])
CoreHSalsa20(in,k) == LET y == TLCEval(Doubles(TLCEval(SState(in,k)),10))
                      IN Unwords(<<y[1],y[6],y[11],y[16],y[7],y[8],y[9],y[10]>>)
RECURSIVE SStreamFrom(_,_,_,_)
SStreamFrom(n,nonce8,k,ctr) == IF n <= 0 THEN << >>
  ELSE TLCEval(CoreSalsa20(nonce8 \o LE(ctr,4) \o Zeros(4),k)) \o SStreamFrom(n-64,nonce8,k,ctr+1)
Salsa20Stream(n,nonce8,k) == SubSeq(SStreamFrom(n,nonce8,k,0),1,n)
XSalsa20(n,nonce,k) == Salsa20Stream(n,SubSeq(nonce,17,24),TLCEval(CoreHSalsa20(SubSeq(nonce,1,16),k)))

\* --- Poly1305: ((c1 r^q + ... + cq r) mod 2^130-5) + s mod 2^128
PP == <<251>> \o Repeat(255,15) \o <<3>>
ClampR(r) == [i \in 1..16 |-> IF i \in {4,8,12,16} THEN r[i] % 16 ELSE IF i \in {5,9,13} THEN (r[i] \div 4)*4 ELSE r[i]]
RECURSIVE PolyAcc(_,_,_)
PolyAcc(m,r,acc) == IF m = << >> THEN acc
  ELSE LET n == IF Len(m) < 16 THEN Len(m) ELSE 16
           c == SubSeq(m,1,n) \o <<1>>
       IN PolyAcc(SubSeq(m,n+1,Len(m)),r,TLCEval(BnMulMod(BnAddMod(acc,Ext(c,17),PP),r,PP)))
Poly1305(m,k) == Ext(BnAdd(PolyAcc(m,ClampR(SubSeq(k,1,16)) \o <<0>>,Zeros(17)),SubSeq(k,17,32)),16)

\* --- secretbox with the 32 / 16 zero-byte paddings of the C interface
SecretBox(m,n,k) ==          \* m without padding; result: tag | ciphertext
  LET s == TLCEval(XSalsa20(32+Len(m),n,k))
      c == XorBytes(m,SubSeq(s,33,32+Len(m)))
  IN TLCEval(Poly1305(c,SubSeq(s,1,32))) \o c
SecretBoxOpen(c,n,k) ==
  IF Len(c) < 16 THEN [ok |-> FALSE, m |-> << >>]
  ELSE LET s == TLCEval(XSalsa20(16+Len(c),n,k))
           body == SubSeq(c,17,Len(c))
       IN IF Poly1305(body,SubSeq(s,1,32)) = SubSeq(c,1,16)
          THEN [ok |-> TRUE, m |-> XorBytes(body,SubSeq(s,33,16+Len(c)))] ELSE [ok |-> FALSE, m |-> << >>]

\* --- X25519 (RFC 7748 ladder)
XBase == <<9>> \o Zeros(31)
A24 == N32(121665)
RECURSIVE Ladder(_,_,_,_,_,_,_)
Ladder(k,x1,t,x2,z2,x3,z3) ==
  IF t < 0 THEN <<x2,z2>>
  ELSE LET b == Bit(k,t)
           a2 == IF b = 1 THEN x3 ELSE x2   b2 == IF b = 1 THEN z3 ELSE z2
           a3 == IF b = 1 THEN x2 ELSE x3   b3 == IF b = 1 THEN z2 ELSE z3
           A == TLCEval(FAdd(a2,b2))  AA == TLCEval(FMul(A,A))  Bm == TLCEval(FSub(a2,b2))  BB == TLCEval(FMul(Bm,Bm))
           E == TLCEval(FSub(AA,BB))  DA == TLCEval(FMul(FSub(a3,b3),A))  CB == TLCEval(FMul(FAdd(a3,b3),Bm))
           s == TLCEval(FAdd(DA,CB))  d == TLCEval(FSub(DA,CB))
           nx3 == TLCEval(FMul(s,s))  nz3 == TLCEval(FMul(x1,FMul(d,d)))
           nx2 == TLCEval(FMul(AA,BB)) nz2 == TLCEval(FMul(E,FAdd(AA,FMul(A24,E))))
       IN IF b = 1 THEN Ladder(k,x1,t-1,nx3,nz3,nx2,nz2) ELSE Ladder(k,x1,t-1,nx2,nz2,nx3,nz3)
X25519(n,p) ==
  LET k == TLCEval(Clamp(n))  u == TLCEval(BnMod([p EXCEPT ![32] = @ % 128],FP))
      r == TLCEval(Ladder(k,u,254,N32(1),Zeros(32),u,N32(1)))
  IN FMul(r[1],FInv(r[2]))
BoxKey(pk,sk) == CoreHSalsa20(Zeros(16),TLCEval(X25519(sk,pk)))
=============================================================================
