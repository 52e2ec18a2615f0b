------------------------------- MODULE Sha512 -------------------------------
(* FIPS 180-4 SHA-512; 64-bit words as four 16-bit limbs, least significant *)
(* first.  The constants are defined from the primes: the first 64 bits of  *)
(* the fractional parts of square and cube roots, found by integer search.  *)
(* Sha512 itself is overridden (java.security); cross-checked in Selftest.   *)
EXTENDS BigNat

W64(b) == [l \in 1..4 |-> b[8-2*l+2] + 256*b[8-2*l+1]]          \* 8 big-endian bytes -> limbs
W64Bytes(w) == [k \in 1..8 |-> LET l == w[4 - ((k-1) \div 2)]
                               IN IF (k % 2) = 1 THEN l \div 256 ELSE l % 256]
W(a,b,c,d) == <<d,c,b,a>>
RECURSIVE WAddC(_,_,_,_)
WAddC(a,b,i,c) == IF i > 4 THEN << >> ELSE LET t == a[i]+b[i]+c IN <<t % 65536>> \o WAddC(a,b,i+1,t \div 65536)
WAdd(a,b) == WAddC(a,b,1,0)
WXor(a,b) == [i \in 1..4 |-> Xor16(a[i],b[i])]
WAnd(a,b) == [i \in 1..4 |-> And16(a[i],b[i])]
WNot(a)   == [i \in 1..4 |-> 65535 - a[i]]
WShr(a,n) == LET q == n \div 16  r == n % 16
                 at(i) == IF i > 4 THEN 0 ELSE a[i]
             IN [i \in 1..4 |-> (at(i+q) \div Pow2(r)) + ((at(i+q+1) * Pow2(16-r)) % 65536)]
WRotr(a,n) == LET q == n \div 16  r == n % 16
                  at(i) == a[((i-1) % 4)+1]
              IN [i \in 1..4 |-> (at(i+q) \div Pow2(r)) + ((at(i+q+1) * Pow2(16-r)) % 65536)]

IsPrime(n) == n > 1 /\ \A d \in 2..(n-1) : n % d # 0
RECURSIVE NthPrimes(_,_)
NthPrimes(n,from) == IF n = 0 THEN << >>
                     ELSE IF IsPrime(from) THEN <<from>> \o NthPrimes(n-1,from+1) ELSE NthPrimes(n,from+1)
Primes80 == NthPrimes(80,2)
\* largest 72-bit x with x^k <= p * 2^(64k); the low 64 bits are the constant
BigMod == Zeros(39) \o <<1>>       \* products below 2^312 never wrap
RootLe(x,k,p) ==
  LET sq == BnMulMod(x,x,BigMod)
      pw == IF k = 2 THEN sq ELSE BnMulMod(sq,x,BigMod)
      rhs == Zeros(8*k) \o <<p % 256, p \div 256>>
  IN ~ BnLt(rhs, pw)
RECURSIVE RootSearch(_,_,_,_)
RootSearch(x,k,p,i) == IF i < 0 THEN x
  ELSE LET y == [x EXCEPT ![(i \div 8)+1] = @ + Pow2(i % 8)]
       IN RootSearch(TLCEval(IF RootLe(y,k,p) THEN y ELSE x),k,p,i-1)
FracRoot(k,p) == LET x == RootSearch(Zeros(9),k,p,68)
                 IN [l \in 1..4 |-> x[2*l-1] + 256*x[2*l]]
H0 == TLCEval([i \in 1..8 |-> FracRoot(2,Primes80[i])])
KC == TLCEval([i \in 1..80 |-> FracRoot(3,Primes80[i])])

BSig0(x) == WXor(WXor(WRotr(x,28),WRotr(x,34)),WRotr(x,39))
BSig1(x) == WXor(WXor(WRotr(x,14),WRotr(x,18)),WRotr(x,41))
SSig0(x) == WXor(WXor(WRotr(x,1),WRotr(x,8)),WShr(x,7))
SSig1(x) == WXor(WXor(WRotr(x,19),WRotr(x,61)),WShr(x,6))
Ch(x,y,z)  == WXor(WAnd(x,y),WAnd(WNot(x),z))
Maj(x,y,z) == WXor(WXor(WAnd(x,y),WAnd(x,z)),WAnd(y,z))
RECURSIVE Sched(_)
Sched(w) == IF Len(w) = 80 THEN w
  ELSE LET t == Len(w)+1
       IN Sched(Append(w, TLCEval(WAdd(WAdd(SSig1(w[t-2]),w[t-7]),WAdd(SSig0(w[t-15]),w[t-16])))))
RECURSIVE Rounds(_,_,_)
Rounds(v,w,t) == IF t > 80 THEN v
  ELSE LET t1 == TLCEval(WAdd(WAdd(WAdd(v[8],BSig1(v[5])),WAdd(Ch(v[5],v[6],v[7]),KC[t])),w[t]))
           t2 == TLCEval(WAdd(BSig0(v[1]),Maj(v[1],v[2],v[3])))
       IN Rounds(<<WAdd(t1,t2),v[1],v[2],v[3],WAdd(v[4],t1),v[5],v[6],v[7]>>,w,t+1)
Compress(h,blk) == LET w == Sched([i \in 1..16 |-> W64(SubSeq(blk,8*i-7,8*i))])
                       v == Rounds(h,w,1)
                   IN [i \in 1..8 |-> WAdd(h[i],v[i])]
RECURSIVE Blocks(_,_)
Blocks(h,m) == IF m = << >> THEN h ELSE Blocks(TLCEval(Compress(h,SubSeq(m,1,128))),SubSeq(m,129,Len(m)))
Sha512Pad(m) == LET z == (128 - ((Len(m)+17) % 128)) % 128
                IN m \o <<128>> \o Zeros(z+8) \o Zeros(4) \o BE(8*Len(m),4)
Sha512(m) == Flat([i \in 1..8 |-> W64Bytes(Blocks(H0,Sha512Pad(m))[i])])
\* the digest of hi*2^20+lo copies of one byte (for inputs too long to be written down)
Sha512Repeat(x,hi,lo) == Sha512(Repeat(x,hi*1048576+lo))
=============================================================================
