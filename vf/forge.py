"""Alterations of genuine signatures that keep the signed content but change the encoding."""
L25519 = 2**252 + 27742317777372353535851937790883648493
def ed_malleate(sig):
    """S + kL for every k that fits into 32 bytes, and the negated/topmost variants"""
    R, S = sig[:32], int.from_bytes(sig[32:], "little"); out = []
    k = 1
    while S + k * L25519 < 2**256:
        out.append(("S+%dL" % k, R + (S + k * L25519).to_bytes(32, "little"))); k += 1
    out.append(("L-S", R + ((L25519 - S) % L25519).to_bytes(32, "little")))
    out.append(("R sign flipped", R[:31] + bytes([R[31] ^ 0x80]) + sig[32:]))
    p = 2**255 - 19; y = int.from_bytes(R, "little") & (2**255 - 1)
    if y + p < 2**255: out.append(("R non-canonical", ((y + p) | (R[31] >> 7) << 255).to_bytes(32, "little") + sig[32:]))
    return out
OMEGA, K = 80, 4
def hint_of(sig): return sig[-84:]
def dil_malleate(sig, r):
    """hint encodings with the same or nearly the same meaning; none of them is canonical"""
    h = hint_of(sig); pre = sig[:-84]; idx, cnt = list(h[:OMEGA]), list(h[OMEGA:]); out = []
    tot = cnt[3]; lo = [0] + cnt[:3]
    for k in range(K):                       # reorder two indices of one polynomial
        a, b = lo[k], cnt[k]
        if b - a >= 2:
            i = r.randrange(a, b - 1); x = idx[:]; x[i], x[i + 1] = x[i + 1], x[i]
            out.append(("hint %d reordered" % k, pre + bytes(x + cnt)))
            x = idx[:]; x[a], x[b - 1] = x[b - 1], x[a]; out.append(("hint %d ends swapped" % k, pre + bytes(x + cnt)))
    for k in range(K):                       # repeat the last index of polynomial k
        a, b = lo[k], cnt[k]
        if b > a and tot < OMEGA:
            x = idx[:b] + [idx[b - 1]] + idx[b:OMEGA - 1]; c2 = [v + (1 if j >= k else 0) for j, v in enumerate(cnt)]
            out.append(("hint %d duplicated" % k, pre + bytes(x + c2)))
            x = idx[:a] + [idx[a]] + idx[a:OMEGA - 1]
            out.append(("hint %d first duplicated" % k, pre + bytes(x + c2)))
    for j in sorted({tot, OMEGA - 1, (tot + OMEGA) // 2}):   # non-zero padding
        if tot <= j < OMEGA:
            for v in (1, 0x80, 255):
                x = idx[:]; x[j] = v; out.append(("hint padding byte %d set to %d" % (j, v), pre + bytes(x + cnt)))
    for k in range(K):                       # counters
        for d in (1, -1, 100, 200):
            c2 = cnt[:]; c2[k] = (c2[k] + d) % 256; out.append(("hint counter %d %+d" % (k, d), pre + bytes(idx + c2)))
    out.append(("hint counter above omega", pre + bytes(idx + cnt[:3] + [81]))); out.append(("hint counter above omega", pre + bytes(idx + cnt[:3] + [255])))
    return out
# ---- edwards25519 in a few lines, used to make signatures the signing function would never produce
P25519 = 2**255 - 19; ED_D = -121665 * pow(121666, -1, P25519) % P25519; SQRTM1 = pow(2, (P25519 - 1) // 4, P25519)
def ed_add(a, b):
    p = P25519; A = (a[1] - a[0]) * (b[1] - b[0]) % p; B = (a[1] + a[0]) * (b[1] + b[0]) % p; C = 2 * a[3] * b[3] * ED_D % p; Dd = 2 * a[2] * b[2] % p
    E, F, G, H = B - A, Dd - C, Dd + C, B + A; return (E * F % p, G * H % p, F * G % p, E * H % p)
ED_ZERO = (0, 1, 1, 0)
def ed_mul(s, q):
    r = ED_ZERO
    while s:
        if s & 1: r = ed_add(r, q)
        q = ed_add(q, q); s >>= 1
    return r
def ed_neg(a): return (-a[0] % P25519, a[1], a[2], -a[3] % P25519)
def ed_enc(a):
    zi = pow(a[2], -1, P25519); x, y = a[0] * zi % P25519, a[1] * zi % P25519; return (y | (x & 1) << 255).to_bytes(32, "little")
def ed_dec(b):
    p = P25519; v = int.from_bytes(b, "little"); y = (v & (2**255 - 1)) % p; u, w = (y * y - 1) % p, (ED_D * y * y + 1) % p
    x = u * pow(w, 3, p) * pow(u * pow(w, 7, p), (p - 5) // 8, p) % p
    if w * x * x % p != u: x = x * SQRTM1 % p
    if w * x * x % p != u: return None
    if x & 1 != v >> 255: x = -x % p
    return (x, y, 1, x * y % p)
ED_B = ed_dec((4 * pow(5, -1, P25519) % P25519).to_bytes(32, "little"))
def ed_torsion():
    """the eight points of small order, as multiples 0..7 of a generator"""
    y = 2
    while True:
        q = ed_dec(y.to_bytes(32, "little")); y += 1
        if q is None: continue
        t = ed_mul(L25519, q)
        if ed_enc(ed_mul(4, t)) != ed_enc(ED_ZERO): return [ed_mul(k, t) for k in range(8)]
def ed_h(R, pk, m):
    import hashlib; return int.from_bytes(hashlib.sha512(R + pk + m).digest(), "little") % L25519
