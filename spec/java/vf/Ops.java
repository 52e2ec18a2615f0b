package vf;

import java.math.BigInteger;
import java.security.MessageDigest;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Fast versions of operators whose pure TLA+ definitions live in spec/lib. */
public class Ops {
    static final IntValue[] IV = new IntValue[65536];
    static { for (int i = 0; i < IV.length; i++) IV[i] = IntValue.gen(i); }
    static IntValue iv(int i) { return (i >= 0 && i < 65536) ? IV[i] : IntValue.gen(i); }

    static int[] ints(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("expected a sequence, got " + v.getKindString());
        Value[] e = t.elems;
        int[] r = new int[e.length];
        for (int i = 0; i < e.length; i++) r[i] = ((IntValue) e[i]).val;
        return r;
    }
    static byte[] bytes(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("expected a byte sequence, got " + v.getKindString());
        Value[] e = t.elems;
        byte[] r = new byte[e.length];
        for (int i = 0; i < e.length; i++) {
            int x = ((IntValue) e[i]).val;
            if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
            r[i] = (byte) x;
        }
        return r;
    }
    static Value seq(byte[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = IV[b[i] & 255];
        return new TupleValue(e);
    }
    static Value seq(int[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = iv(b[i]);
        return new TupleValue(e);
    }
    static int i(Value v) { return ((IntValue) v).val; }

    // ---------------------------------------------------------------- Bytes
    @TLAPlusOperator(identifier = "Xor16", module = "Bytes", warn = false)
    public static Value xor16(Value a, Value b) { return iv(i(a) ^ i(b)); }
    @TLAPlusOperator(identifier = "And16", module = "Bytes", warn = false)
    public static Value and16(Value a, Value b) { return iv(i(a) & i(b)); }
    @TLAPlusOperator(identifier = "Zeros", module = "Bytes", warn = false)
    public static Value zeros(Value n) { return seq(new byte[i(n)]); }
    @TLAPlusOperator(identifier = "HexToBytes", module = "Bytes", warn = false)
    public static Value hexToBytes(Value s) {
        String h = ((StringValue) s).getVal().toString();
        byte[] b = new byte[h.length() / 2];
        for (int k = 0; k < b.length; k++)
            b[k] = (byte) ((Character.digit(h.charAt(2*k), 16) << 4) | Character.digit(h.charAt(2*k+1), 16));
        return seq(b);
    }
    @TLAPlusOperator(identifier = "BytesToHex", module = "Bytes", warn = false)
    public static Value bytesToHex(Value v) {
        StringBuilder sb = new StringBuilder();
        for (byte x : bytes(v)) { sb.append(Character.forDigit((x >> 4) & 15, 16)); sb.append(Character.forDigit(x & 15, 16)); }
        return new StringValue(sb.toString());
    }
    @TLAPlusOperator(identifier = "Flat", module = "Bytes", warn = false)
    public static Value flat(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        java.util.ArrayList<Value> l = new java.util.ArrayList<>();
        for (Value x : t.elems) { TupleValue y = (TupleValue) x.toTuple(); for (Value z : y.elems) l.add(z); }
        return new TupleValue(l.toArray(new Value[0]));
    }

    // --------------------------------------------------------------- Keccak
    static final long[] RC = new long[24];
    static final int[] ROT = new int[25];
    static {
        int r = 1;
        for (int n = 0; n < 24; n++) {
            long c = 0;
            for (int j = 0; j < 7; j++) {
                if ((r & 1) == 1) c |= 1L << ((1 << j) - 1);
                r <<= 1; if ((r & 0x100) != 0) r ^= 0x171;
            }
            RC[n] = c;
        }
        int x = 1, y = 0;
        for (int t = 0; t < 24; t++) { ROT[x + 5*y] = ((t+1)*(t+2)/2) % 64; int ny = (2*x + 3*y) % 5; x = y; y = ny; }
    }
    static void keccakf(long[] a) {
        long[] b = new long[25], c = new long[5];
        for (int n = 0; n < 24; n++) {
            for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20];
            for (int x = 0; x < 5; x++) {
                long d = c[(x+4)%5] ^ Long.rotateLeft(c[(x+1)%5], 1);
                for (int y = 0; y < 25; y += 5) a[x+y] ^= d;
            }
            for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++)
                b[y + 5*((2*x+3*y)%5)] = Long.rotateLeft(a[x+5*y], ROT[x+5*y]);
            for (int y = 0; y < 25; y += 5) for (int x = 0; x < 5; x++)
                a[x+y] = b[x+y] ^ (~b[(x+1)%5+y] & b[(x+2)%5+y]);
            a[0] ^= RC[n];
        }
    }
    static byte[] sponge(int rate, int suf, byte[] m, int n) {
        long[] s = new long[25];
        int nb = m.length / rate + 1;
        byte[] p = java.util.Arrays.copyOf(m, nb * rate);
        p[m.length] ^= (byte) suf; p[p.length-1] ^= (byte) 0x80;
        for (int k = 0; k < nb; k++) {
            for (int j = 0; j < rate; j++) s[j/8] ^= (p[k*rate+j] & 255L) << (8*(j%8));
            keccakf(s);
        }
        byte[] o = new byte[n];
        for (int k = 0; k < n; k++) {
            if (k > 0 && k % rate == 0) keccakf(s);
            int j = k % rate;
            o[k] = (byte) (s[j/8] >>> (8*(j%8)));
        }
        return o;
    }
    @TLAPlusOperator(identifier = "Sponge", module = "Keccak", warn = false)
    public static Value spongeOp(Value rate, Value suf, Value m, Value n) { return seq(sponge(i(rate), i(suf), bytes(m), i(n))); }
    @TLAPlusOperator(identifier = "KeccakF", module = "Keccak", warn = false)
    public static Value keccakF(Value v) {
        byte[] b = bytes(v); long[] s = new long[25];
        for (int j = 0; j < 200; j++) s[j/8] |= (b[j] & 255L) << (8*(j%8));
        keccakf(s);
        for (int j = 0; j < 200; j++) b[j] = (byte) (s[j/8] >>> (8*(j%8)));
        return seq(b);
    }
    @TLAPlusOperator(identifier = "Sha512", module = "Sha512", warn = false)
    public static Value sha512(Value m) throws Exception { return seq(MessageDigest.getInstance("SHA-512").digest(bytes(m))); }

    @TLAPlusOperator(identifier = "Sha512Repeat", module = "Sha512", warn = false)
    public static Value sha512rep(Value x, Value hi, Value lo) throws Exception {
        MessageDigest d = MessageDigest.getInstance("SHA-512"); byte[] b = new byte[1048576]; java.util.Arrays.fill(b, (byte) i(x));
        for (int k = 0; k < i(hi); k++) d.update(b);
        d.update(b, 0, i(lo)); return seq(d.digest());
    }

    // --------------------------------------------------------------- BigNat
    static BigInteger big(Value v) {
        byte[] b = bytes(v); byte[] r = new byte[b.length];
        for (int k = 0; k < b.length; k++) r[k] = b[b.length-1-k];
        return new BigInteger(1, r);
    }
    static Value nat(BigInteger x, int len) {
        byte[] b = x.toByteArray(); byte[] r = new byte[len];
        for (int k = 0; k < len && k < b.length; k++) r[k] = b[b.length-1-k];
        return seq(r);
    }
    static int len(Value v) { return ((TupleValue) v.toTuple()).elems.length; }
    @TLAPlusOperator(identifier = "BnLt", module = "BigNat", warn = false)
    public static Value bnLt(Value a, Value b) { return big(a).compareTo(big(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "BnMod", module = "BigNat", warn = false)
    public static Value bnMod(Value a, Value m) { return nat(big(a).mod(big(m)), len(m)); }
    @TLAPlusOperator(identifier = "BnAddMod", module = "BigNat", warn = false)
    public static Value bnAddMod(Value a, Value b, Value m) { return nat(big(a).add(big(b)).mod(big(m)), len(m)); }
    @TLAPlusOperator(identifier = "BnSubMod", module = "BigNat", warn = false)
    public static Value bnSubMod(Value a, Value b, Value m) { return nat(big(a).subtract(big(b)).mod(big(m)), len(m)); }
    @TLAPlusOperator(identifier = "BnMulMod", module = "BigNat", warn = false)
    public static Value bnMulMod(Value a, Value b, Value m) { return nat(big(a).multiply(big(b)).mod(big(m)), len(m)); }
    @TLAPlusOperator(identifier = "BnPowMod", module = "BigNat", warn = false)
    public static Value bnPowMod(Value a, Value e, Value m) { return nat(big(a).modPow(big(e), big(m)), len(m)); }

    // ------------------------------------------------------------ Dilithium
    static final int Q = 8380417;
    static int mulq(int a, int b) { return (int) ((long) a * b % Q); }
    static final int[] ZP = new int[512];
    static final int[] BRV = new int[256];
    static {
        ZP[0] = 1; for (int k = 1; k < 512; k++) ZP[k] = mulq(ZP[k-1], 1753);
        for (int k = 0; k < 256; k++) BRV[k] = Integer.reverse(k) >>> 24;
    }
    @TLAPlusOperator(identifier = "MulQ", module = "Dilithium", warn = false)
    public static Value mulQ(Value a, Value b) { return iv(mulq(i(a), i(b))); }
    @TLAPlusOperator(identifier = "NTT", module = "Dilithium", warn = false)
    public static Value ntt(Value v) {
        int[] a = ints(v), r = new int[256];
        for (int k = 0; k < 256; k++) {
            int e = 2*BRV[k] + 1; long s = 0;
            for (int j = 0; j < 256; j++) s += (long) a[j] * ZP[(e*j) & 511];
            r[k] = (int) (s % Q);
        }
        return seq(r);
    }
    @TLAPlusOperator(identifier = "InvNTT", module = "Dilithium", warn = false)
    public static Value invntt(Value v) {
        int[] a = ints(v), r = new int[256];
        for (int j = 0; j < 256; j++) {
            long s = 0;
            for (int k = 0; k < 256; k++) s += (long) a[k] * ZP[(512 - (((2*BRV[k]+1)*j) & 511)) & 511];
            r[j] = mulq((int) (s % Q), 8347681);
        }
        return seq(r);
    }
    @TLAPlusOperator(identifier = "PolyAdd", module = "Dilithium", warn = false)
    public static Value polyAdd(Value x, Value y) {
        int[] a = ints(x), b = ints(y); for (int k = 0; k < 256; k++) a[k] = (a[k] + b[k]) % Q; return seq(a);
    }
    @TLAPlusOperator(identifier = "PolySub", module = "Dilithium", warn = false)
    public static Value polySub(Value x, Value y) {
        int[] a = ints(x), b = ints(y); for (int k = 0; k < 256; k++) a[k] = (a[k] - b[k] + Q) % Q; return seq(a);
    }
    @TLAPlusOperator(identifier = "PolyMulNTT", module = "Dilithium", warn = false)
    public static Value polyMul(Value x, Value y) {
        int[] a = ints(x), b = ints(y); for (int k = 0; k < 256; k++) a[k] = mulq(a[k], b[k]); return seq(a);
    }
    @TLAPlusOperator(identifier = "PackBits", module = "Dilithium", warn = false)
    public static Value packBits(Value v, Value bb) {
        int[] a = ints(v); int b = i(bb); byte[] r = new byte[a.length*b/8];
        for (int t = 0; t < 8*r.length; t++) if (((a[t/b] >> (t%b)) & 1) == 1) r[t/8] |= 1 << (t%8);
        return seq(r);
    }
    @TLAPlusOperator(identifier = "UnpackBits", module = "Dilithium", warn = false)
    public static Value unpackBits(Value v, Value bb) {
        byte[] a = bytes(v); int b = i(bb); int[] r = new int[a.length*8/b];
        for (int t = 0; t < b*r.length; t++) if (((a[t/8] >> (t%8)) & 1) == 1) r[t/b] |= 1 << (t%b);
        return seq(r);
    }

    static int ctr(int a) { return a > (Q-1)/2 ? a - Q : a; }
    static final int G2 = (Q-1)/88;
    static int low(int r) { int a = 2*G2, m = r % a; int l = m > a/2 ? m - a : m; return r - l == Q-1 ? l - 1 : l; }
    static int high(int r) { int a = 2*G2, m = r % a; int l = m > a/2 ? m - a : m; return r - l == Q-1 ? 0 : (r - l) / a; }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "PolyNormLt", module = "Dilithium", warn = false)
    public static Value polyNormLt(Value p, Value b) { for (int x : ints(p)) if (Math.abs(ctr(x)) >= i(b)) return bool(false); return bool(true); }
    @TLAPlusOperator(identifier = "PolyHigh", module = "Dilithium", warn = false)
    public static Value polyHigh(Value p) { int[] a = ints(p); for (int k = 0; k < 256; k++) a[k] = high(a[k]); return seq(a); }
    @TLAPlusOperator(identifier = "PolyUseHint", module = "Dilithium", warn = false)
    public static Value polyUseHint(Value hh, Value p) {
        int[] h = ints(hh), a = ints(p);
        for (int k = 0; k < 256; k++) { int r1 = high(a[k]); a[k] = h[k] == 0 ? r1 : low(a[k]) > 0 ? (r1+1) % 44 : (r1+43) % 44; }
        return seq(a);
    }
    @TLAPlusOperator(identifier = "PolyMakeHint", module = "Dilithium", warn = false)
    public static Value polyMakeHint(Value rr, Value cc, Value ww) {
        int[] r = ints(rr), c = ints(cc), w = ints(ww);
        for (int k = 0; k < 256; k++) r[k] = high((r[k]+c[k]) % Q) == w[k] ? 0 : 1;
        return seq(r);
    }
    @TLAPlusOperator(identifier = "PolyLowOk", module = "Dilithium", warn = false)
    public static Value polyLowOk(Value ww, Value rr) {
        int[] r = ints(rr), w = ints(ww);
        for (int k = 0; k < 256; k++) if (Math.abs(ctr(Math.floorMod(low(w[k]) - (w[k]-r[k]), Q))) >= G2 - 78) return bool(false);
        return bool(true);
    }
    @TLAPlusOperator(identifier = "PackOff", module = "Dilithium", warn = false)
    public static Value packOff(Value v, Value b, Value off) {
        int[] a = ints(v); int o = i(off); for (int k = 0; k < 256; k++) a[k] = o - ctr(a[k]); return packBits(seq(a), b);
    }
    @TLAPlusOperator(identifier = "UnpackOff", module = "Dilithium", warn = false)
    public static Value unpackOff(Value v, Value b, Value off) {
        int[] a = ints(unpackBits(v, b)); int o = i(off); for (int k = 0; k < 256; k++) a[k] = Math.floorMod(o - a[k], Q); return seq(a);
    }
    @TLAPlusOperator(identifier = "UniformFrom", module = "Dilithium", warn = false)
    public static Value uniformFrom(Value seed, Value nb) {
        byte[] s = bytes(seed);
        for (int n = i(nb); ; n++) {
            byte[] st = sponge(168, 31, s, 168*n); int[] r = new int[256]; int c = 0;
            for (int k = 0; k + 2 < st.length && c < 256; k += 3) {
                int t = (st[k] & 255) | (st[k+1] & 255) << 8 | (st[k+2] & 127) << 16;
                if (t < Q) r[c++] = t;
            }
            if (c == 256) return seq(r);
        }
    }
    @TLAPlusOperator(identifier = "EtaFrom", module = "Dilithium", warn = false)
    public static Value etaFrom(Value seed, Value nb) {
        byte[] s = bytes(seed);
        for (int n = i(nb); ; n++) {
            byte[] st = sponge(136, 31, s, 136*n); int[] r = new int[256]; int c = 0;
            for (int k = 0; k < 2*st.length && c < 256; k++) {
                int t = k % 2 == 0 ? st[k/2] & 15 : (st[k/2] >> 4) & 15;
                if (t < 15) r[c++] = Math.floorMod(2 - t % 5, Q);
            }
            if (c == 256) return seq(r);
        }
    }

    // -------------------------------------------------------------- Sphincs
    static byte[] adr(int layer, byte[] tree, int type, int kp, int w6, int w7) {
        byte[] a = new byte[32];
        a[3] = (byte) layer; System.arraycopy(tree, 0, a, 8, 8); a[19] = (byte) type; a[23] = (byte) kp; a[27] = (byte) w6;
        a[29] = (byte) (w7 >> 16); a[30] = (byte) (w7 >> 8); a[31] = (byte) w7; return a;
    }
    static byte[] nib(Value t) { int[] x = ints(t); byte[] r = new byte[8]; for (int k = 0; k < 8; k++) r[k] = (byte) (16*x[2*k] + x[2*k+1]); return r; }
    static byte[] cat(byte[]... xs) {
        int n = 0; for (byte[] x : xs) n += x.length; byte[] r = new byte[n]; n = 0;
        for (byte[] x : xs) { System.arraycopy(x, 0, r, n, x.length); n += x.length; } return r;
    }
    static byte[] th(byte[] pub, byte[] a, byte[] x) { return sponge(136, 31, cat(pub, a, x), 32); }
    @TLAPlusOperator(identifier = "Chain", module = "Sphincs", warn = false)
    public static Value chain(Value pub, Value x, Value from, Value to, Value layer, Value tree, Value kp, Value c) {
        byte[] p = bytes(pub), v = bytes(x), t = nib(tree);
        for (int k = i(from); k < i(to); k++) v = th(p, adr(i(layer), t, 0, i(kp), i(c), k), v);
        return seq(v);
    }
    static byte[] field(Value k, String f) { return bytes(((RecordValue) k.toRcd()).select(new StringValue(f))); }
    @TLAPlusOperator(identifier = "WotsLeaf", module = "Sphincs", warn = false)
    public static Value wotsLeaf(Value k, Value layer, Value tree, Value kp) {
        byte[] pub = field(k, "pub"), seed = field(k, "seed"), t = nib(tree); byte[][] e = new byte[67][];
        int l = i(layer), q = i(kp);
        for (int c = 0; c < 67; c++) {
            byte[] v = th(pub, adr(l, t, 5, q, c, 0), seed);
            for (int s = 0; s < 15; s++) v = th(pub, adr(l, t, 0, q, c, s), v);
            e[c] = v;
        }
        return seq(th(pub, adr(l, t, 1, q, 0, 0), cat(e)));
    }
    static byte[] forsNode(byte[] pub, byte[] seed, byte[] t, int kp, int h, int g) {
        if (h == 0) return th(pub, adr(0, t, 3, kp, 0, g), th(pub, adr(0, t, 6, kp, 0, g), seed));
        return th(pub, adr(0, t, 3, kp, h, g), cat(forsNode(pub, seed, t, kp, h-1, 2*g), forsNode(pub, seed, t, kp, h-1, 2*g+1)));
    }
    @TLAPlusOperator(identifier = "ForsNode", module = "Sphincs", warn = false)
    public static Value forsNodeOp(Value k, Value tree, Value kp, Value h, Value g) {
        return seq(forsNode(field(k, "pub"), field(k, "seed"), nib(tree), i(kp), i(h), i(g)));
    }

    // -------------------------------------------------------------- Ed25519
    static final BigInteger P = BigInteger.ONE.shiftLeft(255).subtract(BigInteger.valueOf(19));
    static final BigInteger D2 = BigInteger.valueOf(-121665).multiply(BigInteger.valueOf(121666).modInverse(P)).shiftLeft(1).mod(P);
    static BigInteger[] padd(BigInteger[] p, BigInteger[] q) {
        BigInteger a = p[1].subtract(p[0]).multiply(q[1].subtract(q[0])).mod(P), b = p[1].add(p[0]).multiply(q[1].add(q[0])).mod(P);
        BigInteger c = p[3].multiply(q[3]).mod(P).multiply(D2).mod(P), d = p[2].multiply(q[2]).shiftLeft(1).mod(P);
        BigInteger e = b.subtract(a), f = d.subtract(c), g = d.add(c), h = b.add(a);
        return new BigInteger[] { e.multiply(f).mod(P), g.multiply(h).mod(P), f.multiply(g).mod(P), e.multiply(h).mod(P) };
    }
    @TLAPlusOperator(identifier = "SMul", module = "Ed25519", warn = false)
    public static Value smul(Value s, Value p) {
        BigInteger k = big(s); Value[] e = ((TupleValue) p.toTuple()).elems;
        BigInteger[] q = new BigInteger[4]; for (int j = 0; j < 4; j++) q[j] = big(e[j]);
        BigInteger[] r = { BigInteger.ZERO, BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO };
        for (int j = k.bitLength() - 1; j >= 0; j--) { r = padd(r, r); if (k.testBit(j)) r = padd(r, q); }
        Value[] o = new Value[4]; for (int j = 0; j < 4; j++) o[j] = nat(r[j], 32);
        return new TupleValue(o);
    }

    // ----------------------------------------------------------------- Nacl
    static int[] words(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems; int[] w = new int[e.length];
        for (int j = 0; j < e.length; j++) { Value[] q = ((TupleValue) e[j].toTuple()).elems; w[j] = i(q[0]) | (i(q[1]) << 16); }
        return w;
    }
    static int rotl(int x, int n) { return (x << n) | (x >>> (32 - n)); }
    static void qr(int[] x, int a, int b, int c, int d) { x[b] ^= rotl(x[a] + x[d], 7); x[c] ^= rotl(x[b] + x[a], 9); x[d] ^= rotl(x[c] + x[b], 13); x[a] ^= rotl(x[d] + x[c], 18); }
    static void doubles(int[] x, int n) {
        for (; n > 0; n--) {
            qr(x, 0, 4, 8, 12); qr(x, 5, 9, 13, 1); qr(x, 10, 14, 2, 6); qr(x, 15, 3, 7, 11);
            qr(x, 0, 1, 2, 3); qr(x, 5, 6, 7, 4); qr(x, 10, 11, 8, 9); qr(x, 15, 12, 13, 14);
        }
    }
    @TLAPlusOperator(identifier = "Doubles", module = "Nacl", warn = false)
    public static Value doublesV(Value v, Value n) {
        int[] x = words(v); doubles(x, i(n)); Value[] o = new Value[x.length];
        for (int j = 0; j < x.length; j++) o[j] = new TupleValue(new Value[] { iv(x[j] & 65535), iv(x[j] >>> 16) });
        return new TupleValue(o);
    }
    static int le32(byte[] b, int o) { return (b[o] & 255) | (b[o + 1] & 255) << 8 | (b[o + 2] & 255) << 16 | (b[o + 3] & 255) << 24; }
    @TLAPlusOperator(identifier = "SStreamFrom", module = "Nacl", warn = false)
    public static Value sstream(Value n, Value nonce, Value key, Value ctr) {
        int len = i(n), c = i(ctr); byte[] k = bytes(key), nn = bytes(nonce), g = "expand 32-byte k".getBytes(); if (len < 0) len = 0;
        byte[] out = new byte[(len + 63) / 64 * 64];
        for (int o = 0; o < out.length; o += 64, c++) {
            int[] x = { le32(g, 0), le32(k, 0), le32(k, 4), le32(k, 8), le32(k, 12), le32(g, 4), le32(nn, 0), le32(nn, 4), c, 0, le32(g, 8), le32(k, 16), le32(k, 20), le32(k, 24), le32(k, 28), le32(g, 12) }, y = x.clone();
            doubles(y, 10);
            for (int j = 0; j < 16; j++) { int w = x[j] + y[j]; out[o + 4*j] = (byte) w; out[o + 4*j + 1] = (byte) (w >> 8); out[o + 4*j + 2] = (byte) (w >> 16); out[o + 4*j + 3] = (byte) (w >> 24); }
        }
        return seq(out);
    }
    static final BigInteger P1305 = BigInteger.ONE.shiftLeft(130).subtract(BigInteger.valueOf(5));
    @TLAPlusOperator(identifier = "PolyAcc", module = "Nacl", warn = false)
    public static Value polyAcc(Value m, Value r, Value acc) {
        byte[] b = bytes(m); BigInteger k = big(r), h = big(acc);
        for (int o = 0; o < b.length; o += 16) {
            int n = Math.min(16, b.length - o); byte[] c = new byte[n + 2]; c[1] = 1; for (int j = 0; j < n; j++) c[n + 1 - j] = b[o + j];
            h = h.add(new BigInteger(c)).multiply(k).mod(P1305);
        }
        return nat(h, 17);
    }
    @TLAPlusOperator(identifier = "XorBytes", module = "Bytes", warn = false)
    public static Value xorBytes(Value a, Value b) { byte[] x = bytes(a), y = bytes(b); for (int j = 0; j < x.length; j++) x[j] ^= y[j]; return seq(x); }
    @TLAPlusOperator(identifier = "Ladder", module = "Nacl", warn = false)
    public static Value ladder(Value k, Value x1, Value t, Value x2, Value z2, Value x3, Value z3) {
        BigInteger s = big(k), u = big(x1), a = big(x2), b = big(z2), c = big(x3), d = big(z3), A24 = BigInteger.valueOf(121665);
        for (int j = i(t); j >= 0; j--) {
            boolean w = s.testBit(j); BigInteger q;
            if (w) { q = a; a = c; c = q; q = b; b = d; d = q; }
            BigInteger A = a.add(b), AA = A.multiply(A).mod(P), B = a.subtract(b), BB = B.multiply(B).mod(P), E = AA.subtract(BB), DA = c.subtract(d).multiply(A).mod(P), CB = c.add(d).multiply(B).mod(P);
            BigInteger p = DA.add(CB), m = DA.subtract(CB);
            c = p.multiply(p).mod(P); d = u.multiply(m.multiply(m).mod(P)).mod(P); a = AA.multiply(BB).mod(P); b = E.multiply(AA.add(A24.multiply(E))).mod(P);
            if (w) { q = a; a = c; c = q; q = b; b = d; d = q; }
        }
        return new TupleValue(new Value[] { nat(a, 32), nat(b, 32) });
    }
}
