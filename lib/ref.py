"""Independent reference implementations (pure Python + hashlib); shares no code with /repo."""
import hashlib, hmac as _hmac, os, struct, unicodedata
# ------------------------------------------------------------------ hashes
sha256 = lambda b: hashlib.sha256(b).digest()
sha512 = lambda b: hashlib.sha512(b).digest()
dsha = lambda b: sha256(sha256(b))
_R1 = [list(range(16)), [7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8], [3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12], [1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2], [4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13]]
_R2 = [[5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12], [6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2], [15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13], [8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14], [12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11]]
_S1 = [[11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8], [7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12], [11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5], [11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12], [9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6]]
_S2 = [[8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6], [9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11], [9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5], [15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8], [8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11]]
_K1 = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E]; _K2 = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0]
_M = 0xffffffff
_F = [lambda x,y,z: x^y^z, lambda x,y,z: (x&y)|(~x&z), lambda x,y,z: (x|(~y&_M))^z, lambda x,y,z: (x&z)|(y&~z), lambda x,y,z: x^(y|(~z&_M))]
def _rmd_py(m):
    h = [0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0]
    m = m + b"\x80" + b"\0" * ((55 - len(m)) % 64) + struct.pack("<Q", 8 * len(m))
    for o in range(0, len(m), 64):
        w = struct.unpack("<16I", m[o:o+64]); A = h[:]; B = h[:]
        for (V, R, S, K, rev) in ((A,_R1,_S1,_K1,0),(B,_R2,_S2,_K2,1)):
            a,b,c,d,e = V
            for j in range(5):
                f = _F[4-j if rev else j]
                for r, s in zip(R[j], S[j]):
                    t = (a + f(b,c,d) + w[r] + K[j]) & _M
                    t = (((t << s) | (t >> (32 - s))) + e) & _M
                    a, e, d, c, b = e, d, ((c << 10) | (c >> 22)) & _M, b, t
            V[:] = [a,b,c,d,e]
        t = (h[1]+A[2]+B[3]) & _M
        h[1:] = [(h[2]+A[3]+B[4])&_M, (h[3]+A[4]+B[0])&_M, (h[4]+A[0]+B[1])&_M, (h[0]+A[1]+B[2])&_M]; h[0] = t
    return struct.pack("<5I", *h)
try:
    hashlib.new("ripemd160", b""); rmd160 = lambda b: hashlib.new("ripemd160", b).digest()
except Exception: rmd160 = _rmd_py
class _Collect:
    def __init__(self): self.b = []
    def update(self, x): self.b.append(x)
    def digest(self): return rmd160(b"".join(self.b))
def hasher(alg): return _Collect() if alg == "rmd160" and rmd160 is _rmd_py else hashlib.new({"rmd160": "ripemd160"}.get(alg, alg))
hash160 = lambda b: rmd160(sha256(b))
def hmac(alg, k, m): return _hmac.new(k, m, alg).digest()
def tagged(tag, m): t = sha256(tag); return sha256(t + t + m)
def expand(seed, n):
    """n pseudo-random bytes, a pure function of the (generated) seed"""
    return hashlib.shake_128(b"x%d" % seed).digest(n)
# ------------------------------------------------------------------ secp256k1
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
def inv(a, m): return pow(a, -1, m)
def add(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0: return None
        l = 3 * a[0] * a[0] * inv(2 * a[1], P) % P
    else: l = (b[1] - a[1]) * inv(b[0] - a[0], P) % P
    x = (l * l - a[0] - b[0]) % P
    return (x, (l * (a[0] - x) - a[1]) % P)
def neg(a): return None if a is None else (a[0], (-a[1]) % P)
def _jdbl(p):
    X, Y, Z = p
    if not Z: return p
    A = Y * Y % P; S = 4 * X * A % P; M = 3 * X * X % P
    x = (M * M - 2 * S) % P
    return (x, (M * (S - x) - 8 * A * A) % P, 2 * Y * Z % P)
def _jadd(p, q):  # q affine
    X, Y, Z = p
    if not Z: return (q[0], q[1], 1)
    Z2 = Z * Z % P; U = q[0] * Z2 % P; S = q[1] * Z2 * Z % P
    H = (U - X) % P; R = (S - Y) % P
    if not H: return _jdbl(p) if not R else (0, 1, 0)
    H2 = H * H % P; H3 = H * H2 % P; V = X * H2 % P
    x = (R * R - H3 - 2 * V) % P
    return (x, (R * (V - x) - Y * H3) % P, H * Z % P)
def _aff(p):
    if not p[2]: return None
    zi = inv(p[2], P); z2 = zi * zi % P
    return (p[0] * z2 % P, p[1] * z2 * zi % P)
_GT = None
def _gtab():
    global _GT
    _GT = []; b = G
    for i in range(64):
        row = [None, b]
        for j in range(14): row.append(add(row[-1], b))
        _GT.append(row); b = add(row[15], b)
def mulG(k):
    if _GT is None: _gtab()
    k %= N; r = (0, 1, 0)
    for i in range(64):
        d = (k >> (4 * i)) & 15
        if d: r = _jadd(r, _GT[i][d])
    return _aff(r)
def mul(k, p):
    k %= N
    if p is None or not k: return None
    if p == G: return mulG(k)
    r = (0, 1, 0)
    for b in bin(k)[2:]:
        r = _jdbl(r)
        if b == "1": r = _jadd(r, p)
    return _aff(r)
def lift(x, odd):
    if x >= P: return None
    c = (x * x * x + 7) % P; y = pow(c, (P + 1) // 4, P)
    if y * y % P != c: return None
    return (x, y if y % 2 == odd else P - y)
def b32(i): return i.to_bytes(32, "big")
I = lambda b: int.from_bytes(b, "big")
def sec(p, comp=True):
    if p is None: return None
    return bytes([2 + p[1] % 2]) + b32(p[0]) if comp else b"\x04" + b32(p[0]) + b32(p[1])
def parse_sec(b):
    """exact-length SEC -> (point, compressed) or None"""
    if len(b) == 33 and b[0] in (2, 3):
        p = lift(I(b[1:]), b[0] & 1); return None if p is None else (p, True)
    if len(b) == 65 and b[0] == 4:
        x, y = I(b[1:33]), I(b[33:])
        if x < P and y < P and (y * y - x**3 - 7) % P == 0: return ((x, y), False)
    return None
# ------------------------------------------------------------------ signatures
def rfc6979(d, h32):
    V = b"\1" * 32; K = b"\0" * 32; x = b32(d) + h32
    K = hmac("sha256", K, V + b"\0" + x); V = hmac("sha256", K, V)
    K = hmac("sha256", K, V + b"\1" + x); V = hmac("sha256", K, V)
    while True:
        V = hmac("sha256", K, V); k = I(V)
        if 0 < k < N: yield k
        K = hmac("sha256", K, V + b"\0"); V = hmac("sha256", K, V)
def rfc_x(d, h):
    """the digest enters the generator as given, as in libsecp256k1 and trezor-crypto (RFC 6979 reduces it modulo n first: differs only for digests >= n)"""
    return h
def ecdsa_sign(d, h):
    z = I(h) % N
    for k in rfc6979(d, rfc_x(d, h)):
        R = mulG(k); r = R[0] % N
        if not r: continue
        s = inv(k, N) * (z + r * d) % N
        if not s: continue
        idx = (R[1] & 1) | (2 if R[0] >= N else 0)
        if s > N // 2: s = N - s; idx ^= 1
        return r, s, idx
def ecdsa_verify(Q, h, r, s):
    if not (0 < r < N and 0 < s < N) or Q is None: return False
    w = inv(s, N); R = add(mulG(I(h) * w % N), mul(r * w % N, Q))
    return R is not None and R[0] % N == r
def schnorr_sign(d, m):
    Pt = mulG(d); d = d if Pt[1] % 2 == 0 else N - d
    k = I(tagged(b"BIP0340/nonce", b32(d) + b32(Pt[0]) + m)) % N
    R = mulG(k); k = k if R[1] % 2 == 0 else N - k
    e = I(tagged(b"BIP0340/challenge", b32(R[0]) + b32(Pt[0]) + m)) % N
    return b32(R[0]) + b32((k + e * d) % N)
def schnorr_verify(px, m, sig):
    Pt = lift(px, 0)
    if Pt is None: return False
    r, s = I(sig[:32]), I(sig[32:])
    if r >= P or s >= N: return False
    e = I(tagged(b"BIP0340/challenge", sig[:32] + b32(px) + m)) % N
    R = add(mulG(s), neg(mul(e, Pt)))
    return R is not None and R[1] % 2 == 0 and R[0] == r
def _derint(v):
    b = v.to_bytes(32, "big").lstrip(b"\0") or b"\0"
    if b[0] & 128: b = b"\0" + b
    return b"\x02" + bytes([len(b)]) + b
def der(r, s):
    b = _derint(r) + _derint(s); return b"\x30" + bytes([len(b)]) + b
def der_parse(b):
    """strict DER at the start of b -> (r, s, consumed) or None (also None when truncated)"""
    if len(b) < 2 or b[0] != 0x30: return None
    L = b[1]; p = 2; v = []
    for _ in range(2):
        if p + 2 > len(b) or b[p] != 2: return None
        n = b[p+1]
        if n < 1 or n > 33 or p + 2 + n > len(b): return None
        x = b[p+2:p+2+n]
        if x[0] & 128: return None
        if n > 1 and x[0] == 0 and not x[1] & 128: return None
        if n == 33 and x[0] != 0: return None
        v.append(I(x)); p += 2 + n
    if L != p - 2: return None
    return v[0], v[1], p
# ------------------------------------------------------------------ codecs
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
B43 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ$*+-./:"
def base_enc(b, A):
    z = len(b) - len(b.lstrip(b"\0")); n = I(b); s = ""
    while n: n, r = divmod(n, len(A)); s = A[r] + s
    return A[0] * z + s
def base_dec(s, A):
    n = 0
    for c in s:
        i = A.find(c)
        if i < 0: return None
        n = n * len(A) + i
    z = len(s) - len(s.lstrip(A[0]))
    return b"\0" * z + n.to_bytes((n.bit_length() + 7) // 8, "big")
b58 = lambda b: base_enc(b, B58)
b58d = lambda s: base_dec(s, B58)
b58c = lambda b: b58(b + dsha(b)[:4])
def b58cd(s):
    d = b58d(s)
    if d is None or len(d) < 4 or dsha(d[:-4])[:4] != d[-4:]: return None
    return d[:-4]
B64A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64U = B64A[:62] + "-_"
def b64(b, url=False, pad=True):
    A = B64U if url else B64A; s = ""
    for i in range(0, len(b), 3):
        c = b[i:i+3]; v = I(c + b"\0" * (3 - len(c))); k = len(c) + 1
        s += "".join(A[(v >> (18 - 6 * j)) & 63] for j in range(k)) + ("=" * (4 - k) if pad else "")
    return s
def b64d(s, url=False, pad=True):
    A = B64U if url else B64A
    if pad:
        if len(s) % 4: return None
        t = s.rstrip("=")
        if len(s) - len(t) > 2: return None
    else: t = s
    if len(t) % 4 == 1: return None
    v = bits = 0; out = bytearray()
    for c in t:
        i = A.find(c)
        if i < 0 or not c: return None
        v = ((v << 6) | i) & 0xffffff; bits += 6
        if bits >= 8: bits -= 8; out.append((v >> bits) & 255)
    return bytes(out)
CH = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
def _pm(vals):
    c = 1
    for v in vals:
        t = c >> 25; c = (c & 0x1ffffff) << 5 ^ v
        for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)):
            if (t >> i) & 1: c ^= g
    return c
def _hx(h): return [ord(c) >> 5 for c in h] + [0] + [ord(c) & 31 for c in h]
def bech32_enc(hrp, data, const=1):
    p = _pm(_hx(hrp) + data + [0] * 6) ^ const
    return hrp + "1" + "".join(CH[d] for d in data + [(p >> 5 * (5 - i)) & 31 for i in range(6)])
def bech32_dec(s):
    if any(ord(c) < 33 or ord(c) > 126 for c in s) or (s.lower() != s and s.upper() != s): return None
    s = s.lower(); p = s.rfind("1")
    if p < 1 or p + 7 > len(s) or len(s) > 90: return None
    if any(c not in CH for c in s[p+1:]): return None
    d = [CH.find(c) for c in s[p+1:]]; k = _pm(_hx(s[:p]) + d)
    if k not in (1, 0x2bc830a3): return None
    return s[:p], d[:-6], k
def bits(data, f, t, pad):
    a = b = 0; o = []; m = (1 << t) - 1
    for v in data:
        a = (a << f) | v; b += f
        while b >= t: b -= t; o.append((a >> b) & m)
    if pad:
        if b: o.append((a << (t - b)) & m)
    elif b >= f or ((a << (t - b)) & m): return None
    return o
def segwit_addr(hrp, ver, prog): return bech32_enc(hrp, [ver] + bits(prog, 8, 5, True), 1 if ver == 0 else 0x2bc830a3)
def segwit_dec(hrp, s):
    d = bech32_dec(s)
    if not d or d[0] != hrp or not d[1]: return None
    v = d[1][0]; pr = bits(d[1][1:], 5, 8, False)
    if pr is None or not 2 <= len(pr) <= 40 or v > 16: return None
    if v == 0 and len(pr) not in (20, 32): return None
    if d[2] != (1 if v == 0 else 0x2bc830a3): return None
    return v, bytes(pr)
def varint(n):
    if n < 253: return bytes([n])
    if n < 1 << 16: return b"\xfd" + struct.pack("<H", n)
    if n < 1 << 32: return b"\xfe" + struct.pack("<I", n)
    return b"\xff" + struct.pack("<Q", n)
def vstr(b): return varint(len(b)) + b
# ------------------------------------------------------------------ descriptors (BIP-380)
DIN = "0123456789()[],'/*abcdefgh@:$%{}IJKLMNOPQRSTUVWXYZ&+-.;<=>?!^_|~ijklmnopqrstuvwxyzABCDEFGH`#\"\\ "
def desc_checksum(s):
    def pm(c, v):
        t = c >> 35; c = ((c & 0x7ffffffff) << 5) ^ v
        for i, g in enumerate((0xf5dee51989, 0xa9fdca3312, 0x1bab10e32d, 0x3706b1677a, 0x644d626ffd)):
            if (t >> i) & 1: c ^= g
        return c
    c = 1; cls = n = 0
    for ch in s:
        p = DIN.find(ch)
        if p < 0: return None
        c = pm(c, p & 31); cls = cls * 3 + (p >> 5); n += 1
        if n == 3: c = pm(c, cls); cls = n = 0
    if n: c = pm(c, cls)
    for _ in range(8): c = pm(c, 0)
    c ^= 1
    return "".join(CH[(c >> (5 * (7 - i))) & 31] for i in range(8))
# ------------------------------------------------------------------ networks
NETS = [
    dict(p2pkh=0x00, p2sh=0x05, hrp="bc", wif=0x80, bip32=0, xprv="0488ade4", yprv="049d7878", zprv="04b2430c", Yprv="0295b005", Zprv="02aa7a99", xpub="0488b21e", ypub="049d7cb2", zpub="04b24746", Ypub="0295b43f", Zpub="02aa7ed3"),
    dict(p2pkh=0x6F, p2sh=0xC4, hrp="tb", wif=0xEF, bip32=1, xprv="04358394", yprv="044a4e28", zprv="045f18bc", Yprv="024285b5", Zprv="02575048", xpub="043587cf", ypub="044a5262", zpub="045f1cf6", Ypub="024289ef", Zpub="02575483"),
]
NETS.append(dict(NETS[1], hrp="bcrt")); NETS.append(dict(NETS[1]))
FAMILY = [0, 1, 1, 1]
# script types of the library's public enum
UNKNOWN, DIRECT, P2PKH, P2SH, P2WPKH, P2WSH, P2SH_P2WPKH, P2SH_P2WSH, MULTISIG = range(9)
SLIP = {UNKNOWN: "x", DIRECT: "x", P2PKH: "x", P2SH: "x", MULTISIG: "x", P2WPKH: "z", P2WSH: "Z", P2SH_P2WPKH: "y", P2SH_P2WSH: "Y"}
# ------------------------------------------------------------------ keys, addresses
def wif(secret, comp, net): return b58c(bytes([NETS[net]["wif"]]) + secret + (b"\1" if comp else b""))
def spk_pkh(h): return b"\x76\xa9\x14" + h + b"\x88\xac"
def spk_sh(h): return b"\xa9\x14" + h + b"\x87"
def spk_wit(v, p): return bytes([0 if v == 0 else 0x50 + v, len(p)]) + p
def addr_legacy(pub, net): return b58c(bytes([NETS[net]["p2pkh"]]) + hash160(pub))
def addr_sh(h, net): return b58c(bytes([NETS[net]["p2sh"]]) + h)
def addr_segwit(pub, net): return segwit_addr(NETS[net]["hrp"], 0, hash160(pub))
def addr_nested(pub, net): return addr_sh(hash160(b"\0\x14" + hash160(pub)), net)
def script_type(s):
    if len(s) == 25 and s[:3] == b"\x76\xa9\x14" and s[-2:] == b"\x88\xac": return P2PKH
    if len(s) == 23 and s[:2] == b"\xa9\x14" and s[-1] == 0x87: return P2SH
    if len(s) == 22 and s[:2] == b"\0\x14": return P2WPKH
    if len(s) == 34 and s[:2] == b"\0\x20": return P2WSH
    return UNKNOWN
def script_addr(s, net):
    t = script_type(s); n = NETS[net]
    if t == P2PKH: return b58c(bytes([n["p2pkh"]]) + s[3:23])
    if t == P2SH: return addr_sh(s[2:22], net)
    if t in (P2WPKH, P2WSH): return segwit_addr(n["hrp"], 0, s[2:])
    return None
def addr_script(a):
    """the scriptPubkey of a valid address of a known network, else None"""
    d = b58cd(a)
    if d is not None and len(d) == 21:
        if d[0] in (0x00, 0x6F): return spk_pkh(d[1:])
        if d[0] in (0x05, 0xC4): return spk_sh(d[1:])
    for h in ("bc", "tb", "bcrt"):
        r = segwit_dec(h, a)
        if r: return spk_wit(*r)
    return None
# ------------------------------------------------------------------ BIP-39
WORDS = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "wordlist.txt")).read().split()
_WI = {w: i for i, w in enumerate(WORDS)}
def mnemonic(e):
    cs = len(e) // 4; v = (I(e) << cs) | (sha256(e)[0] >> (8 - cs)); n = (len(e) * 8 + cs) // 11
    return " ".join(WORDS[(v >> (11 * (n - 1 - i))) & 2047] for i in range(n))
def words_value(ws):
    """(entropy, checksum ok) or None when a word is unknown / the count is wrong"""
    n = len(ws)
    if n not in (12, 15, 18, 21, 24): return None
    v = 0
    for w in ws:
        if w not in _WI: return None
        v = v << 11 | _WI[w]
    cs = n // 3; e = (v >> cs).to_bytes(n * 4 // 3, "big")
    return e, (v & ((1 << cs) - 1)) == sha256(e)[0] >> (8 - cs)
def mn_seed(phrase, pw): return hashlib.pbkdf2_hmac("sha512", phrase, b"mnemonic" + pw, 2048)
# ------------------------------------------------------------------ BIP-32
class XPrv:
    """extended private key (library fields: type, network are tracked with the library's documented rules)"""
    def __init__(s, k, c, depth=0, fp=b"\0" * 4, child=0, net=0, typ=UNKNOWN): s.k, s.c, s.depth, s.fp, s.child, s.net, s.typ = k, c, depth, fp, child, net, typ
    @staticmethod
    def seed(b, net=0):
        r = hmac("sha512", b"Bitcoin seed", b); return XPrv(I(r[:32]), r[32:], net=net)
    def pub(s): return XPub(mulG(s.k), s.c, s.depth, s.fp, s.child, s.net, s.typ)
    def fpr(s): return hash160(sec(mulG(s.k)))[:4]
    def ckd(s, i):
        pt = sec(mulG(s.k))
        r = hmac("sha512", s.c, (b"\0" + b32(s.k) if i >> 31 else pt) + struct.pack(">I", i))
        return XPrv((I(r[:32]) + s.k) % N, r[32:], s.depth + 1, hash160(pt)[:4], i, s.net, s.typ)
    def path(s, l):
        for i in l: s = s.ckd(i)
        return s
    def raw(s): return bytes.fromhex(NETS[s.net][SLIP[s.typ] + "prv"]) + bytes([s.depth]) + s.fp + struct.pack(">I", s.child) + s.c + b"\0" + b32(s.k)
    def str(s): return b58c(s.raw())
class XPub:
    def __init__(s, p, c, depth=0, fp=b"\0" * 4, child=0, net=0, typ=UNKNOWN): s.p, s.c, s.depth, s.fp, s.child, s.net, s.typ = p, c, depth, fp, child, net, typ
    def fpr(s): return hash160(sec(s.p))[:4]
    def ckd(s, i):
        pt = sec(s.p); r = hmac("sha512", s.c, pt + struct.pack(">I", i))
        return XPub(add(mulG(I(r[:32])), s.p), r[32:], s.depth + 1, hash160(pt)[:4], i, s.net, s.typ)
    def path(s, l):
        for i in l: s = s.ckd(i)
        return s
    def raw(s): return bytes.fromhex(NETS[s.net][SLIP[s.typ] + "pub"]) + bytes([s.depth]) + s.fp + struct.pack(">I", s.child) + s.c + sec(s.p)
    def str(s): return b58c(s.raw())
# ------------------------------------------------------------------ transactions
# tx = dict(version, locktime, ins=[dict(id (wire order), index, seq, script, wit=[items])], outs=[dict(amount, script)])
def ser_in(i): return i["id"] + struct.pack("<I", i["index"]) + vstr(i["script"]) + struct.pack("<I", i["seq"])
def ser_out(o): return struct.pack("<Q", o["amount"]) + vstr(o["script"])
def ser_wit(w): return varint(len(w)) + b"".join(vstr(x) for x in w)
def has_wit(t): return any(i["wit"] for i in t["ins"])
def ser_tx(t, segwit=None):
    if segwit is None: segwit = has_wit(t)
    r = struct.pack("<I", t["version"]) + (b"\0\1" if segwit else b"") + varint(len(t["ins"])) + b"".join(map(ser_in, t["ins"])) + varint(len(t["outs"])) + b"".join(map(ser_out, t["outs"]))
    if segwit: r += b"".join(ser_wit(i["wit"]) for i in t["ins"])
    return r + struct.pack("<I", t["locktime"])
def txid(t): return dsha(ser_tx(t, False))[::-1]
def wtxid(t): return dsha(ser_tx(t))[::-1]
def hash_prevouts(t): return dsha(b"".join(i["id"] + struct.pack("<I", i["index"]) for i in t["ins"]))
def hash_seq(t): return dsha(b"".join(struct.pack("<I", i["seq"]) for i in t["ins"]))
def hash_outs(t): return dsha(b"".join(map(ser_out, t["outs"])))
def sighash_legacy(t, n, script, ty=1):
    """ty: 1 ALL, 2 NONE, 3 SINGLE"""
    if ty == 3 and n >= len(t["outs"]): return b"\1" + bytes(31)
    u = dict(t, ins=[dict(i, script=script if k == n else b"", seq=i["seq"] if k == n or ty == 1 else 0, wit=[]) for k, i in enumerate(t["ins"])])
    if ty == 2: u["outs"] = []
    if ty == 3: u["outs"] = [dict(amount=2**64 - 1, script=b"")] * n + [t["outs"][n]]
    return dsha(ser_tx(u, False) + struct.pack("<I", ty))
def sighash_segwit(t, n, script, amount, ty=1):
    i = t["ins"][n]; Z = bytes(32); ho = hash_outs(t) if ty == 1 else dsha(ser_out(t["outs"][n])) if ty == 3 and n < len(t["outs"]) else Z
    return dsha(struct.pack("<I", t["version"]) + hash_prevouts(t) + (hash_seq(t) if ty == 1 else Z) + i["id"] + struct.pack("<I", i["index"]) + vstr(script) + struct.pack("<Q", amount) + struct.pack("<I", i["seq"]) + ho + struct.pack("<I", t["locktime"]) + struct.pack("<I", ty))
def push(b):
    """standard minimal-opcode data push of b (by length)"""
    n = len(b)
    if n < 76: return bytes([n]) + b
    if n < 256: return b"\x4c" + bytes([n]) + b
    return b"\x4d" + struct.pack("<H", n) + b
