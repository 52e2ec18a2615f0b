------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences over 0..255.  Integers in TLC are 32-bit, so *)
(* wide words are sequences of bytes or of 16-bit limbs throughout.        *)
EXTENDS Naturals, Sequences, TLC

Byte == 0..255

Zeros(n)      == [i \in 1..n |-> 0]
Slice(s,o,n)  == SubSeq(s, o+1, o+n)          \* n bytes starting at offset o (C style)
Pow2(n)       == 2^n
\* bit-wise xor of two naturals below 2^16, by definition on bits (overridden for speed)
RECURSIVE XorN(_,_,_)
XorN(a,b,k) == IF k = 0 THEN 0
               ELSE (((a % 2) + (b % 2)) % 2) + 2 * XorN(a \div 2, b \div 2, k-1)
RECURSIVE AndN(_,_,_)
AndN(a,b,k) == IF k = 0 THEN 0
               ELSE (a % 2) * (b % 2) + 2 * AndN(a \div 2, b \div 2, k-1)
Xor16(a,b) == XorN(a,b,16)
And16(a,b) == AndN(a,b,16)
XorBytes(a,b) == [i \in 1..Len(a) |-> Xor16(a[i],b[i])]

RECURSIVE LE(_,_)
LE(n,k) == IF k = 0 THEN << >> ELSE << n % 256 >> \o LE(n \div 256, k-1)   \* little endian, k bytes
RECURSIVE BE(_,_)
BE(n,k) == IF k = 0 THEN << >> ELSE BE(n \div 256, k-1) \o << n % 256 >>   \* big endian, k bytes
RECURSIVE FromLE(_)
FromLE(s) == IF s = << >> THEN 0 ELSE s[1] + 256 * FromLE(Tail(s))

\* hexadecimal codec used only at the trace boundary
HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexVal(c) == CHOOSE v \in 0..15 : HexDigits[v+1] = c
HexToBytes(s) == [i \in 1..(Len(s) \div 2) |->
                    16*HexVal(SubSeq(s,2*i-1,2*i-1)) + HexVal(SubSeq(s,2*i,2*i))]
RECURSIVE BytesToHex(_)
BytesToHex(b) == IF b = << >> THEN ""
                 ELSE HexDigits[(b[1] \div 16)+1] \o HexDigits[(b[1] % 16)+1] \o BytesToHex(Tail(b))

Repeat(b,n) == [i \in 1..n |-> b]
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
=============================================================================
