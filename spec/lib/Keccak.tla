------------------------------- MODULE Keccak -------------------------------
(* FIPS 202.  The permutation is defined on 25 lanes, each a sequence of   *)
(* four 16-bit limbs (least significant first).  SHA-3 and SHAKE are the   *)
(* sponge over it.  KeccakF and Sponge have Java overrides; the pure       *)
(* definitions below are cross-checked against them (Selftest.tla).        *)
EXTENDS Bytes

\* --- 64-bit lanes as 4 limbs
LXor(a,b) == << Xor16(a[1],b[1]), Xor16(a[2],b[2]), Xor16(a[3],b[3]), Xor16(a[4],b[4]) >>
LNotAnd(a,b) == LET f(i) == And16(65535 - a[i], b[i]) IN << f(1), f(2), f(3), f(4) >>
LRotl(a,n) == LET q == (n \div 16) % 4   r == n % 16
                  g(i) == a[(((i - 1) + 8 - q) % 4) + 1]
                  p(i) == a[(((i - 1) + 7 - q) % 4) + 1]
                                f(i) == ((g(i) * Pow2(r)) % 65536) + (p(i) \div Pow2(16-r))
              IN  << f(1), f(2), f(3), f(4) >>

\* round constants from the degree-8 LFSR of FIPS 202, algorithm 5
RECURSIVE LfsrState(_)
LfsrState(t) == IF t = 0 THEN <<1,0,0,0,0,0,0,0>>
                ELSE LET r == LfsrState(t-1)
                         x(a,b) == (a+b) % 2
                         s == <<0>> \o r       \* R = 0 || R
                     IN << x(s[1],s[9]), s[2], s[3], s[4], x(s[5],s[9]), x(s[6],s[9]), x(s[7],s[9]), s[8] >>
RcBit(t) == LfsrState(t % 255)[1]
RoundConst == TLCEval([ir \in 0..23 |->
   TLCEval([l \in 1..4 |->
      LET bit(k) == IF \E j \in 0..6 : Pow2(j)-1 = k /\ RcBit(j + 7*ir) = 1 THEN 1 ELSE 0
          RECURSIVE S(_)
          S(b) == IF b = 16 THEN 0 ELSE bit(16*(l-1)+b) * Pow2(b) + S(b+1)
      IN S(0)])])

\* rho offsets: FIPS 202 algorithm 2
RECURSIVE RhoWalk(_,_,_)
RhoWalk(t,x,y) == IF t = 24 THEN << >>
                  ELSE << [x |-> x, y |-> y, o |-> (((t+1)*(t+2)) \div 2) % 64] >>
                        \o RhoWalk(t+1, y, (2*x+3*y) % 5)
RhoTab == RhoWalk(0,1,0)
RhoOff(x,y) == IF x = 0 /\ y = 0 THEN 0
               ELSE (CHOOSE e \in {RhoTab[i] : i \in 1..24} : e.x = x /\ e.y = y).o
RhoOffs == TLCEval([x \in 0..4 |-> [y \in 0..4 |-> RhoOff(x,y)]])

\* state: function on 0..24, lane index x + 5y
KRound(A, ir) ==
  LET C == TLCEval([x \in 0..4 |-> LXor(LXor(LXor(A[x],A[x+5]),LXor(A[x+10],A[x+15])),A[x+20])])
      D == TLCEval([x \in 0..4 |-> LXor(C[(x+4)%5], LRotl(C[(x+1)%5],1))])
      T == TLCEval([i \in 0..24 |-> LXor(A[i], D[i%5])])
      B == TLCEval([i \in 0..24 |->   \* pi: B[x,y] takes lane (x+3y, x)
              LET x == i % 5  y == i \div 5
                  sx == (x + 3*y) % 5   sy == x
              IN LRotl(T[sx + 5*sy], RhoOffs[sx][sy])])
      E == TLCEval([i \in 0..24 |-> LET x == i % 5  y == i \div 5
                   IN LXor(B[i], LNotAnd(B[((x+1)%5)+5*y], B[((x+2)%5)+5*y]))])
  IN [E EXCEPT ![0] = LXor(E[0], RoundConst[ir])]
RECURSIVE KRounds(_,_)
KRounds(A, ir) == IF ir = 24 THEN A ELSE KRounds(TLCEval(KRound(A,ir)), ir+1)

BytesToLanes(s) == TLCEval([i \in 0..24 |-> LET f(l) == s[8*i+2*l-1] + 256*s[8*i+2*l] IN << f(1), f(2), f(3), f(4) >>])
LanesToBytes(A) == [k \in 1..200 |-> LET i == (k-1) \div 8  b == (k-1) % 8
                                         w == A[i][(b \div 2)+1]
                                     IN IF b % 2 = 0 THEN w % 256 ELSE w \div 256]
KeccakF(s) == LanesToBytes(KRounds(BytesToLanes(s), 0))     \* 200 bytes -> 200 bytes

\* --- sponge
PadBlock(rest, rate, suffix) ==      \* last block: rest || suffix 0..0 || 0x80
  LET z == rest \o << suffix >> \o Zeros(rate - Len(rest) - 1)
  IN [z EXCEPT ![rate] = Xor16(z[rate], 128)]
AbsorbBlock(s, blk) == [i \in 1..200 |-> IF i <= Len(blk) THEN Xor16(s[i], blk[i]) ELSE s[i]]
RECURSIVE AbsorbAll(_,_,_,_)
AbsorbAll(s, m, rate, suffix) ==
  IF Len(m) >= rate
  THEN AbsorbAll(TLCEval(KeccakF(AbsorbBlock(s, SubSeq(m,1,rate)))), SubSeq(m,rate+1,Len(m)), rate, suffix)
  ELSE KeccakF(AbsorbBlock(s, PadBlock(m, rate, suffix)))
RECURSIVE SqueezeAll(_,_,_)
SqueezeAll(s, n, rate) ==
  IF n <= rate THEN SubSeq(s,1,n)
  ELSE SubSeq(s,1,rate) \o SqueezeAll(TLCEval(KeccakF(s)), n-rate, rate)
Sponge(rate, suffix, m, n) == SqueezeAll(AbsorbAll(Zeros(200), m, rate, suffix), n, rate)

Shake128(m,n) == Sponge(168, 31, m, n)
Shake256(m,n) == Sponge(136, 31, m, n)
Sha3_256(m)   == Sponge(136, 6, m, 32)
Sha3_384(m)   == Sponge(104, 6, m, 48)
Sha3_512(m)   == Sponge(72, 6, m, 64)
=============================================================================
