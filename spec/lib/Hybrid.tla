-------------------------------- MODULE Hybrid --------------------------------
(* The hybrid scheme at byte level: key layout, seed expander, compact and    *)
(* full signatures.  This is the oracle for recorded calls of the library.    *)
EXTENDS Dilithium, Sphincs, Ed25519

PkBytes == 1408   SkBytes == 4064   SeedBytes == 160   NonceBytes == 40
MinMsg == 1       MaxMsg == 64
IdCompact == 1    IdFull == 2
CompactBase == 1+1+64+2420+40        FullBase == 1+1+64+2420+49856
CompactLen(n) == CompactBase + n
FullLen(n)    == FullBase + n

\* --- public key and secret key layout
PkEd(pk) == Slice(pk,0,32)    PkDil(pk) == Slice(pk,32,1312)   PkSph(pk) == Slice(pk,1344,64)
SkEd(sk) == Slice(sk,0,64)    SkDil(sk) == Slice(sk,64,2560)   SkDilPk(sk) == Slice(sk,2624,1312)
SkSph(sk) == Slice(sk,3936,128)
PkOfSk(sk) == Slice(sk,32,32) \o SkDilPk(sk) \o Slice(sk,3936+64,64)

HKeyGen(seed) ==
  LET e == EdPub(Slice(seed,0,32))
      d == TLCEval(DKeyGen(Slice(seed,32,32)))
      s == TLCEval(SKeyGen(Slice(seed,64,96)))
  IN [pk |-> e \o d.pk \o s.pk,
      sk |-> Slice(seed,0,32) \o e \o d.sk \o d.pk \o s.sk]

\* --- the 96 -> 160 byte key-seed expander
PrngDomain == 2
PrngStream(seed,n) == Shake256(seed \o <<PrngDomain>>, n)
\* as documented: all 64 seed bytes are expanded
SeedExpand(seed) ==
  LET x == TLCEval(PrngStream(Slice(seed,0,64),128))
  IN Slice(x,0,32) \o Slice(seed,64,32) \o Slice(x,32,96)
\* as implemented (KNOWN FINDING: odd-indexed seed bytes are replaced by zero)
DropOdd(s) == [i \in 1..64 |-> IF i % 2 = 1 THEN s[i] ELSE 0]
SeedExpandPinned(seed) == SeedExpand(DropOdd(Slice(seed,0,64)) \o Slice(seed,64,32))

\* --- compact mode
CompactHash(nonce,m,sphpk) == Sha3_512(nonce \o m \o sphpk)
CompactBlob(ed,dil,nonce,m) == <<IdCompact,Len(m)>> \o ed \o dil \o nonce \o m
CompactSign(m,sk,nonce) ==
  LET h == TLCEval(CompactHash(nonce,m,Slice(SkSph(sk),64,64)))
  IN CompactBlob(EdSign(h,SkEd(sk)),DSign(h,SkDil(sk)),nonce,m)
\* --- full mode
FullBlob(ed,m,dil,sph) == <<IdFull,Len(m)>> \o ed \o m \o dil \o sph
FullSign(m,sk,opt) == FullBlob(EdSign(m,SkEd(sk)),m,DSign(m,SkDil(sk)),SSign(m,SkSph(sk),opt))

\* --- parsing (accept iff the header and the stated length agree)
WellFormed(id,base,sm) == /\ Len(sm) >= 2
                          /\ sm[1] = id
                          /\ sm[2] \in MinMsg..MaxMsg
                          /\ Len(sm) = base + sm[2]
CompactParts(sm) == [ed |-> Slice(sm,2,64), dil |-> Slice(sm,66,2420),
                     nonce |-> Slice(sm,2486,40), msg |-> Slice(sm,2526,sm[2])]
FullParts(sm) == LET n == sm[2] IN
                 [ed |-> Slice(sm,2,64), msg |-> Slice(sm,66,n),
                  dil |-> Slice(sm,66+n,2420), sph |-> Slice(sm,2486+n,49856)]
Reject == [ok |-> FALSE, msg |-> << >>]
CompactOpen(sm,pk) ==
  IF ~ WellFormed(IdCompact,CompactBase,sm) THEN Reject
  ELSE LET p == CompactParts(sm)
           h == TLCEval(CompactHash(p.nonce,p.msg,PkSph(pk)))
       IN IF EdVerify(p.ed,h,PkEd(pk)) /\ DVerify(p.dil,h,PkDil(pk))
          THEN [ok |-> TRUE, msg |-> p.msg] ELSE Reject
FullOpen(sm,pk) ==
  IF ~ WellFormed(IdFull,FullBase,sm) THEN Reject
  ELSE LET p == FullParts(sm)
       IN IF EdVerify(p.ed,p.msg,PkEd(pk)) /\ DVerify(p.dil,p.msg,PkDil(pk)) /\ SVerify(p.sph,p.msg,PkSph(pk))
          THEN [ok |-> TRUE, msg |-> p.msg] ELSE Reject
CompactVerify(m,sm,pk) == Len(m) \in MinMsg..MaxMsg /\ LET o == CompactOpen(sm,pk) IN o.ok /\ o.msg = m
FullVerify(m,sm,pk)    == Len(m) \in MinMsg..MaxMsg /\ LET o == FullOpen(sm,pk) IN o.ok /\ o.msg = m
DilVerify(m,sig,pk)    == Len(m) \in MinMsg..MaxMsg /\ DVerify(sig,m,pk)
===============================================================================
