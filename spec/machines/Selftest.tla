------------------------------- MODULE Selftest -------------------------------
(* The operators with Java overrides, evaluated on fixed arguments.  bin/selftest *)
(* evaluates each group twice: with the overrides, and with the group's own       *)
(* operators replaced by their TLA+ definitions; both have to print the same.     *)
EXTENDS Dilithium, Sphincs, Nacl, IOUtils
VARIABLE g
Grp == IOEnv.VF_GROUP
P(k,n) == TLCEval([i \in 1..n |-> (((k*(i+7)) % 257) + ((i*i*k) \div 3)) % 256])          \* some bytes
PQ(k)  == TLCEval([i \in 1..256 |-> (((k*65537 + 32749*i) % 4194301)*2) % Q])              \* some polynomial
PS(k)  == TLCEval([i \in 1..256 |-> ModQ((((k*i*i+3*i) \div 2) % 5) - 2)])                \* a short one
\* around the rounding boundaries
PE == TLCEval([i \in 1..256 |-> LET m == (i \div 5) % 44 IN ModQ(m*2*Gamma2 + (IF i % 2 = 0 THEN Gamma2 ELSE 0) + (i % 5) - 2)])
Bit256 == TLCEval([i \in 1..256 |-> IF (i*i) % 7 = 1 THEN 1 ELSE 0])
Key == [seed |-> P(3,32), prf |-> P(4,32), pub |-> P(5,32)]
Tree == BaseW(P(9,8))

BytesCases == << [i \in 0..24 |-> Xor16((i*2713+5) % 65536,(i*i*977) % 65536)], [i \in 0..24 |-> And16((i*2713+5) % 65536,(i*i*977) % 65536)],
   Xor16(65535,65535), And16(65535,32769), Zeros(0), Zeros(5), Flat(<<>>), Flat(<< <<>>,<<1,2>>,<<>>,<<3>> >>), HexToBytes(""), HexToBytes("00ff10a9"),
   BytesToHex(<<>>), BytesToHex(<<0,255,16,169>>) >>
KeccakCases == << KeccakF(Zeros(200)), KeccakF(P(3,200)), Sponge(136,31,<<>>,32), Sponge(168,31,P(2,167),200), Sponge(136,6,P(2,136),32),
   Sponge(72,6,P(8,150),64), Sponge(104,6,P(8,103),48) >>
ShaCases == << Sha512(<<>>), Sha512(P(1,111)), Sha512(P(1,112)), Sha512(P(2,130)), Sha512Repeat(7,0,200) >>
DilCases == << [i \in 0..30 |-> MulQ((i*270001) % Q,(i*i*9001+Q-5) % Q)], MulQ(Q-1,Q-1), NTT(PQ(3)), NTT(PS(2)), InvNTT(PQ(5)),
   PolyAdd(PQ(1),PQ(2)), PolySub(PQ(1),PQ(2)), PolyMulNTT(PQ(3),PQ(4)),
   PackBits([i \in 1..256 |-> (i*37) % 1024],10), PackBits([i \in 1..256 |-> (i*37) % 8],3), PackBits([i \in 1..256 |-> i % 64],6),
   UnpackBits(P(3,320),10), UnpackBits(P(3,96),3), UnpackBits(P(3,416),13),
   [b \in {1,2,3,Gamma1-Beta,Gamma2-Beta} |-> <<PolyNormLt(PS(3),b),PolyNormLt(PQ(3),b),PolyNormLt(Zeros(256),b)>>],
   PolyHigh(PQ(3)), PolyHigh(PE), PolyUseHint(Bit256,PQ(3)), PolyUseHint(Bit256,PE), PolyMakeHint(PE,PS(1),PolyHigh(PE)), PolyMakeHint(PE,PS(3),PolyHigh(PE)),
   PolyLowOk(PQ(3),PQ(4)), PolyLowOk(PS(3),PS(4)), PolyLowOk(PE,PE), PackOff(PS(4),3,2), PackOff([i \in 1..256 |-> ModQ((i*511) - 65000)],18,Gamma1),
   UnpackOff(P(9,576),18,Gamma1), UnpackOff(P(9,416),13,4096), UniformFrom(P(1,34),5), UniformFrom(P(1,34),1), EtaFrom(P(1,66),1), EtaFrom(P(2,66),2) >>
SphCases == << Chain(P(1,32),P(2,32),0,15,3,Tree,7,66), Chain(P(1,32),P(2,32),4,4,0,Tree,1,0), Chain(P(1,32),P(2,32),13,15,16,Tree,0,1),
   WotsLeaf(Key,0,Tree,5), WotsLeaf(Key,16,Zeros(16),15), ForsNode(Key,Tree,3,0,17919), ForsNode(Key,Tree,3,4,1000), ForsNode(Key,Tree,15,2,0) >>
\* representation-independent: points compared as encodings
EdCases == << [s \in {0,1,2,5,255} |-> PEncode(SMul(<<s>>,BasePt))], PEncode(SMul(<<77,3>>,BasePt)), PEncode(SMul(P(3,32),BasePt)),
   PEncode(SMul(GL,BasePt)), PEncode(SMul(<<9>>,PNeg(BasePt))) >>
NaclCases == << Doubles(SState(P(1,16),P(2,32)),10), Doubles(SState(Zeros(16),P(2,32)),1), SStreamFrom(130,P(3,8),P(4,32),0), SStreamFrom(64,P(3,8),P(4,32),70000),
   PolyAcc(P(3,40),ClampR(P(1,16)) \o <<0>>,Zeros(17)), PolyAcc(<<>>,ClampR(P(1,16)) \o <<0>>,Zeros(17)), PolyAcc(Repeat(255,32),Repeat(255,3) \o Zeros(14),Zeros(17)) >>
Cases == CASE Grp = "Bytes" -> BytesCases [] Grp = "Keccak" -> KeccakCases [] Grp = "Sha512" -> ShaCases
           [] Grp = "Dilithium" -> DilCases [] Grp = "Sphincs" -> SphCases [] Grp = "Ed25519" -> EdCases [] Grp = "Nacl" -> NaclCases
Init == g = 0
Next == g = 0 /\ g' = 1 /\ LET C == Cases IN \A i \in 1..Len(C) : PrintT("CASE " \o ToString(i) \o " " \o ToString(C[i]))
Spec == Init /\ [][Next]_g
=============================================================================
