------------------------------- MODULE Sphincs -------------------------------
(* SPHINCS+-SHAKE-256f-simple: n=32, d=17 layers of height 4, FORS 35 trees  *)
(* of height 9, Winternitz w=16 (67 chains).  Tree addresses (64 bits) are   *)
(* sequences of 16 nibbles, most significant first.                          *)
EXTENDS Keccak

SN == 32   SD == 17   SHt == 4   FK == 35   FH == 9   WLen == 67
SPkBytes == 64   SSkBytes == 128   SSigBytes == 49856
\* address types
TWots == 0  TWotsPk == 1  TTree == 2  TForsTree == 3  TForsPk == 4  TWotsPrf == 5  TForsPrf == 6

NibBytes(t) == [i \in 1..8 |-> 16*t[2*i-1] + t[2*i]]
Adr(layer,tree,type,kp,w6,w7) ==
   <<0,0,0,layer,0,0,0,0>> \o NibBytes(tree) \o <<0,0,0,type,0,0,0,kp,0,0,0,w6,
      0,(w7 \div 65536) % 256,(w7 \div 256) % 256,w7 % 256>>
Th(pub,a,x)  == Shake256(pub \o a \o x, 32)
Prf(pub,a,sk) == Shake256(pub \o a \o sk, 32)

\* --- WOTS
BaseW(m) == [i \in 1..(2*Len(m)) |-> IF i % 2 = 1 THEN m[(i+1) \div 2] \div 16 ELSE m[i \div 2] % 16]
RECURSIVE SumTo(_,_)
SumTo(s,n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s,n-1)
ChainLens(m) == LET b == TLCEval(BaseW(m))
                    cs == 64*15 - SumTo(b,64)
                IN b \o << cs \div 256, (cs \div 16) % 16, cs % 16 >>
RECURSIVE Chain(_,_,_,_,_,_,_,_)
Chain(pub,x,from,to,layer,tree,kp,c) ==     \* apply steps from..to-1
   IF from >= to THEN x
   ELSE Chain(pub,Th(pub,Adr(layer,tree,TWots,kp,c,from),x),from+1,to,layer,tree,kp,c)
WotsSk(k,layer,tree,kp,c) == Prf(k.pub,Adr(layer,tree,TWotsPrf,kp,c,0),k.seed)
WotsPkHash(pub,layer,tree,kp,ends) == Th(pub,Adr(layer,tree,TWotsPk,kp,0,0),Flat(ends))
WotsLeaf(k,layer,tree,kp) == WotsPkHash(k.pub,layer,tree,kp,
    [c \in 1..WLen |-> TLCEval(Chain(k.pub,WotsSk(k,layer,tree,kp,c-1),0,15,layer,tree,kp,c-1))])
WotsSign(k,m,layer,tree,kp) == LET l == TLCEval(ChainLens(m)) IN
    Flat([c \in 1..WLen |-> TLCEval(Chain(k.pub,WotsSk(k,layer,tree,kp,c-1),0,l[c],layer,tree,kp,c-1))])
WotsPkFromSig(pub,sig,m,layer,tree,kp) == LET l == TLCEval(ChainLens(m)) IN
    WotsPkHash(pub,layer,tree,kp,
      [c \in 1..WLen |-> TLCEval(Chain(pub,Slice(sig,32*(c-1),32),l[c],15,layer,tree,kp,c-1))])

\* --- Merkle trees, by definition: Node(h,i) hashes its two children
RECURSIVE TreeNode(_,_,_,_,_)
TreeNode(k,layer,tree,h,i) ==
   IF h = 0 THEN TLCEval(WotsLeaf(k,layer,tree,i))
   ELSE TLCEval(Th(k.pub,Adr(layer,tree,TTree,0,h,i),
           TreeNode(k,layer,tree,h-1,2*i) \o TreeNode(k,layer,tree,h-1,2*i+1)))
Sib(i) == IF i % 2 = 0 THEN i+1 ELSE i-1
RECURSIVE RootFrom(_,_,_,_,_,_,_)
\* climb from node x at height h, index i (global index base already included);
\* a: layer, tree, type and key pair of the nodes' addresses
RootFrom(pub,x,i,auth,h,H,a) ==
   IF h = H THEN x
   ELSE LET sib == Slice(auth,32*h,32)
            pair == IF i % 2 = 0 THEN x \o sib ELSE sib \o x
        IN RootFrom(pub,TLCEval(Th(pub,Adr(a.layer,a.tree,a.type,a.kp,h+1,i \div 2),pair)),
                    i \div 2,auth,h+1,H,a)

\* --- FORS
ForsSk(k,tree,kp,g) == Prf(k.pub,Adr(0,tree,TForsPrf,kp,0,g),k.seed)
ForsLeaf(pub,tree,kp,g,sk) == Th(pub,Adr(0,tree,TForsTree,kp,0,g),sk)
RECURSIVE ForsNode(_,_,_,_,_)
ForsNode(k,tree,kp,h,g) ==                      \* g: global index at height h
   IF h = 0 THEN ForsLeaf(k.pub,tree,kp,g,ForsSk(k,tree,kp,g))
   ELSE TLCEval(Th(k.pub,Adr(0,tree,TForsTree,kp,h,g),
           ForsNode(k,tree,kp,h-1,2*g) \o ForsNode(k,tree,kp,h-1,2*g+1)))
ForsIdx(md) == [t \in 1..FK |->
   LET RECURSIVE S(_)
       S(j) == IF j = FH THEN 0
               ELSE LET o == FH*(t-1)+j IN
                    ((md[(o \div 8)+1] \div Pow2(7 - (o % 8))) % 2)*Pow2(FH-1-j) + S(j+1)
   IN S(0)]
ForsPk(pub,tree,kp,roots) == Th(pub,Adr(0,tree,TForsPk,kp,0,0),Flat(roots))
ForsPkFromSig(pub,sig,md,tree,kp) ==
   LET ix == TLCEval(ForsIdx(md))
       a == [layer |-> 0, tree |-> tree, type |-> TForsTree, kp |-> kp]
       root(t) == LET g == ix[t] + 512*(t-1)
                      s == Slice(sig,320*(t-1),320)
                  IN RootFrom(pub,ForsLeaf(pub,tree,kp,g,SubSeq(s,1,32)),g,SubSeq(s,33,320),0,FH,a)
   IN ForsPk(pub,tree,kp,[t \in 1..FK |-> TLCEval(root(t))])
ForsSign(k,md,tree,kp) ==
   LET ix == TLCEval(ForsIdx(md))
       one(t) == LET g == ix[t] + 512*(t-1) IN
                 ForsSk(k,tree,kp,g) \o
                 Flat([h \in 1..FH |-> TLCEval(ForsNode(k,tree,kp,h-1,Sib(g \div Pow2(h-1))))])
   IN Flat([t \in 1..FK |-> TLCEval(one(t))])

\* --- message digest: 40 bytes FORS digest | 8 bytes tree | 1 byte leaf
SDigest(R,pk,m) == Shake256(R \o pk \o m, 49)
SMd(d)   == SubSeq(d,1,40)
STree(d) == BaseW(SubSeq(d,41,48))
SLeaf(d) == d[49] % 16
Up(tree) == <<0>> \o SubSeq(tree,1,15)

SKeyOf(sk) == [seed |-> SubSeq(sk,1,32), prf |-> SubSeq(sk,33,64), pub |-> SubSeq(sk,65,96), root |-> SubSeq(sk,97,128)]
SKeyGen(seed96) ==
   LET k == [seed |-> SubSeq(seed96,1,32), prf |-> SubSeq(seed96,33,64), pub |-> SubSeq(seed96,65,96)]
       root == TreeNode(k,SD-1,Zeros(16),SHt,0)
   IN [pk |-> k.pub \o root, sk |-> seed96 \o root]

RECURSIVE HyperSign(_,_,_,_,_)
HyperSign(k,layer,root,tree,leaf) ==
   IF layer = SD THEN << >>
   ELSE LET ws == TLCEval(WotsSign(k,root,layer,tree,leaf))
            auth == TLCEval(Flat([h \in 1..SHt |-> TreeNode(k,layer,tree,h-1,Sib(leaf \div Pow2(h-1)))]))
            a == [layer |-> layer, tree |-> tree, type |-> TTree, kp |-> 0]
            r2 == TLCEval(RootFrom(k.pub,WotsPkFromSig(k.pub,ws,root,layer,tree,leaf),leaf,auth,0,SHt,a))
        IN ws \o auth \o HyperSign(k,layer+1,r2,Up(tree),tree[16])
\* the signature is a function of key, message and randomiser R
SSignR(m,sk,R) ==
   LET k == SKeyOf(sk)
       d == TLCEval(SDigest(R,SubSeq(sk,65,128),m))
       tree == TLCEval(STree(d))
       fs == TLCEval(ForsSign(k,SMd(d),tree,SLeaf(d)))
       fpk == TLCEval(ForsPkFromSig(k.pub,fs,SMd(d),tree,SLeaf(d)))
   IN R \o fs \o HyperSign(k,0,fpk,tree,SLeaf(d))
SRandomiser(m,sk,opt) == Shake256(SubSeq(sk,33,64) \o opt \o m, 32)
SSign(m,sk,opt) == SSignR(m,sk,TLCEval(SRandomiser(m,sk,opt)))

RECURSIVE HyperRoot(_,_,_,_,_,_)
HyperRoot(pub,sig,layer,root,tree,leaf) ==
   IF layer = SD THEN root
   ELSE LET o == layer*(67*32+4*32)
            a == [layer |-> layer, tree |-> tree, type |-> TTree, kp |-> 0]
            lf == TLCEval(WotsPkFromSig(pub,Slice(sig,o,67*32),root,layer,tree,leaf))
            r2 == TLCEval(RootFrom(pub,lf,leaf,Slice(sig,o+67*32,128),0,SHt,a))
        IN HyperRoot(pub,sig,layer+1,r2,Up(tree),tree[16])
SVerify(sig,m,pk) ==
   /\ Len(sig) = SSigBytes
   /\ LET d == TLCEval(SDigest(SubSeq(sig,1,32),pk,m))
          pub == SubSeq(pk,1,32)
          tree == TLCEval(STree(d))
          fpk == TLCEval(ForsPkFromSig(pub,Slice(sig,32,11200),SMd(d),tree,SLeaf(d)))
      IN HyperRoot(pub,Slice(sig,11232,SSigBytes-11232),0,fpk,tree,SLeaf(d)) = SubSeq(pk,33,64)
=============================================================================
