------------------------------- MODULE BigNat -------------------------------
(* Non-negative integers as little-endian byte sequences.  All modular      *)
(* operations return Len(m) bytes.  Overridden with BigInteger; the pure    *)
(* definitions are cross-checked (Selftest.tla).                            *)
EXTENDS Bytes

Ext(a,n) == IF Len(a) >= n THEN SubSeq(a,1,n) ELSE a \o Zeros(n - Len(a))
RECURSIVE BnLtAt(_,_,_)
BnLtAt(a,b,i) == IF i = 0 THEN FALSE
                 ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BnLtAt(a,b,i-1)
Max2(a,b) == IF a > b THEN a ELSE b
BnLt(a,b) == LET n == Max2(Len(a),Len(b)) IN BnLtAt(Ext(a,n),Ext(b,n),n)

RECURSIVE AddC(_,_,_,_)
AddC(a,b,i,c) == IF i > Len(a) THEN <<c>>
                 ELSE LET t == a[i]+b[i]+c IN <<t % 256>> \o AddC(a,b,i+1,t \div 256)
BnAdd(a,b) == LET n == Max2(Len(a),Len(b)) IN AddC(Ext(a,n),Ext(b,n),1,0)     \* n+1 bytes
RECURSIVE SubC(_,_,_,_)
SubC(a,b,i,c) == IF i > Len(a) THEN << >>
                 ELSE LET t == a[i]-b[i]-c IN IF t < 0 THEN <<t+256>> \o SubC(a,b,i+1,1)
                                                       ELSE <<t>> \o SubC(a,b,i+1,0)
BnSub(a,b) == LET n == Max2(Len(a),Len(b)) IN SubC(Ext(a,n),Ext(b,n),1,0)     \* needs a >= b

CondSub(a,m) == IF BnLt(a,m) THEN Ext(a,Len(m)) ELSE Ext(BnSub(a,m),Len(m))   \* needs a < 2m
\* a mod m, bit by bit from the top
Bit(a,i) == (a[(i \div 8)+1] \div Pow2(i % 8)) % 2
RECURSIVE ModBits(_,_,_,_)
ModBits(a,m,i,acc) == IF i < 0 THEN acc
   ELSE LET d == BnAdd(acc,acc)  e == [d EXCEPT ![1] = d[1] + Bit(a,i)]
        IN ModBits(a,m,i-1,TLCEval(CondSub(e,m)))
BnMod(a,m) == ModBits(a,m,8*Len(a)-1,Zeros(Len(m)))
BnAddMod(a,b,m) == BnMod(BnAdd(a,b),m)
BnSubMod(a,b,m) == LET x == BnMod(a,m) y == BnMod(b,m)
                   IN IF BnLt(x,y) THEN Ext(BnSub(BnAdd(x,m),y),Len(m)) ELSE Ext(BnSub(x,y),Len(m))
\* multiplication: double and add over the bits of a
RECURSIVE MulBits(_,_,_,_,_)
MulBits(a,b,m,i,acc) == IF i < 0 THEN acc
   ELSE LET d == CondSub(BnAdd(acc,acc),m)
        IN MulBits(a,b,m,i-1,TLCEval(IF Bit(a,i) = 1 THEN CondSub(BnAdd(d,b),m) ELSE d))
BnMulMod(a,b,m) == MulBits(a,BnMod(b,m),m,8*Len(a)-1,Zeros(Len(m)))
RECURSIVE PowBits(_,_,_,_,_)
PowBits(a,e,m,i,acc) == IF i < 0 THEN acc
   ELSE LET s == BnMulMod(acc,acc,m)
        IN PowBits(a,e,m,i-1,TLCEval(IF Bit(e,i) = 1 THEN BnMulMod(s,a,m) ELSE s))
BnPowMod(a,e,m) == PowBits(BnMod(a,m),e,m,8*Len(e)-1,Ext(<<1>>,Len(m)))
=============================================================================
