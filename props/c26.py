from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
import c18
RULE = "every function taking (buffer, size): encoders and decoders (hex, bin, Base58, Base58Check, Base43, Base64), varints, WIF, SEC, DER, addresses of keys and scripts, extended keys, mnemonic entropy, descriptor checksums, and stream serialization (binary, hex, text) of every object type; called with all small sizes, sizes around the result length and larger ones, on buffers of exactly that size under AddressSanitizer. Non-trivial: some size lies within 2 of the result length."
def out(ret, buf, n, w, what, text=True, must=None):
    """complete result, or 0; success is required for sizes of at least must"""
    L = len(w)
    expect(ret in (0, L), "%s into %d bytes returns %d, the result has %d", what, n, ret, L)
    if n < L: eq(ret, 0, "%s into %d bytes (needs %d)" % (what, n, L))
    elif ret: 
        eq(buf[:2 * L], w.hex(), "%s into %d bytes" % (what, n))
        if text and n > L: eq(buf[2 * L:2 * L + 2], "00", "terminating zero of %s in %d bytes" % (what, n))
    if must is not None and n >= must and L: eq(ret, L, "%s into %d bytes" % (what, n))
@st.composite
def sizes(draw, L, lo=()):
    l = draw(st.lists(st.one_of(st.integers(0, 4), st.integers(0, L + 60), st.sampled_from([L - 2, L - 1, L, L + 1, L + 2])), min_size=3, max_size=8))
    return sorted({max(0, x) for x in l + [2 * L + 160] + list(lo)})
ENC = {"hex": lambda b, f: b.hex(), "bin": lambda b, f: "".join("{:08b}".format(x) for x in b), "b58": lambda b, f: R.b58(b), "b58c": lambda b, f: R.b58c(b), "b43": lambda b, f: R.base_enc(b, R.B43), "b64": lambda b, f: R.b64(b, bool(f & 1), not f & 2)}
FL = [0, 1, 2, 3]
@st.composite
def codec(draw):
    k = draw(st.sampled_from(sorted(ENC))); b = draw(blob(130)); f = draw(st.sampled_from(FL)) if k == "b64" else 0; w = ENC[k](b, f)
    return [k, f, b, draw(sizes(len(w))), draw(sizes(len(b), range(0, min(len(b), 6))))]
def c_codec(s, c):
    k, f, b, es, ds = c; w = T(ENC[k](b, f))
    for n in es: r = s("enc", k, f, n, b); out(r["ret"], r["buf"], n, w, "%s encoding of %s" % (k, b.hex()), True, 2 * len(w) + 30)
    for form in "sn":
        for n in ds: r = s("dec", k, form, f, n, w); out(r["ret"], r["buf"], n, b, "%s decoding of %r" % (k, w), False, len(b) + 30 if not (k == "b58c" and not b) else None)
@st.composite
def keys(draw): return [draw(secret), draw(st.booleans()), draw(net), draw(rbytes(32)), draw(st.integers(0, 8)), draw(st.lists(st.integers(0, 130), min_size=4, max_size=10)), draw(digest)]
def c_keys(s, c):
    d, comp, n, chain, ty, ss, z = c; pt = R.mulG(d); pub = R.sec(pt, comp); cp = R.sec(pt); s("prv", 0, R.b32(d), comp, n); s("pub", 1, "sec", pub); x = R.XPrv(d, chain, 3, b"abcd", 7, n, ty); s("hd_ctor", 2, R.b32(d), chain, 3, b"abcd", 7, n, ty); s("hd_xpub", 3, 2)
    W = lambda v: v.encode() if isinstance(v, str) else v; wif = R.wif(R.b32(d), comp, n); ad = {"legacy": R.addr_legacy(pub, n), "segwit": R.addr_segwit(pub, n), "nested": R.addr_nested(pub, n)}; ad["address"] = ad["legacy"]; ha = {R.P2WPKH: R.addr_segwit, R.P2SH_P2WPKH: R.addr_nested, R.P2PKH: R.addr_legacy}.get(ty, R.addr_segwit)(cp, n)
    r_, s_, _ = R.ecdsa_sign(d, z); der = R.der(r_, s_); s("sig", 4, R.b32(r_), R.b32(s_)); pts = sorted(set(ss) | {0, 1, 200} | {max(0, l + q) for q in (-1, 0, 1) for l in (33, 65, 52, len(wif), len(der), 42, 34, 35, 62, 76, 111, 112)})
    for m in pts:
        r = s("prv_wif", 0, m); out(r["ret"], r["buf"], m, W(wif), "wif", True, 60); r = s("pub_secout", 1, m); eq([r["ret"], r["buf"][:2 * len(pub)]], [min(m, len(pub)), pub[:m].hex()], "sec (a stream serialization) into %d bytes" % m); r = s("sig_derout", 4, m); out(r["ret"], r["buf"], m, der, "der", False, 72)
        r = s("hd_out", 2, m); out(r["r1"], r["xprv"], m, W(x.str()), "xprv", True, 115); out(r["r2"], r["xpub"], m, W(x.pub().str()), "xpub", True, 115); r = s("hp_out", 3, m); out(r["r"], r["xpub"], m, W(x.pub().str()), "xpub of the public key", True, 115)
        r = s("hd_addr", 2, m); out(r["ret"], r["buf"], m, W(ha), "address of the extended key", True, 76); r = s("hp_addr", 3, m); out(r["ret"], r["buf"], m, W(ha), "address of the extended public key", True, 76)
        for k, a in ad.items(): r = s("paddr", 1, k, n, m); out(r["ret"], r["buf"], m, W(a), "%s address" % k, True, 76); r = s("prv_addr", 0, k, m); out(r["ret"], r["buf"], m, W(a), "%s address of the private key" % k, True, 76)
        s("sig_bin", 4, m)
@st.composite
def misc(draw):
    k = draw(st.sampled_from(["scr", "mn", "dc", "vi", "int"]))
    if k == "scr": h = draw(rbytes(32)); v = draw(st.sampled_from([R.spk_pkh(h[:20]), R.spk_sh(h[:20]), b"\0\x14" + h[:20], b"\0\x20" + h])); return [k, v, draw(net), draw(sizes(62, (34, 35, 42, 62, 63, 75, 76, 77)))]
    if k == "mn": e = R.expand(draw(seed64), draw(st.sampled_from([16, 20, 24, 28, 32]))); return [k, e, 0, draw(sizes(len(e), range(34)))]
    if k == "dc": return [k, draw(st.text(R.DIN, max_size=30)), 0, list(range(12))]
    v = draw(u64); return [k, v, 0, list(range(12))]
def c_misc(s, c):
    k, v, n, ss = c
    for m in ss:
        if k == "scr": a = R.script_addr(v, n).encode(); s("scr", 0, v); r = s("scr_address", 0, n, m); out(r["ret"], r["buf"], m, a, "address of %s" % v.hex(), True, 76); s("txout", 1, "as", 5, 0); r = s("txout_addr", 1, n, m); out(r["ret"], r["buf"], m, a, "address of the output", True, 76)
        elif k == "mn":
            for f in "sn": r = s("mn_toentropy", f, m, T(R.mnemonic(v))); out(r["ret"], r["buf"], m, v, "entropy of the mnemonic", False, 33)
        elif k == "dc": r = s("dcheck", "n", m, T(v)); out(r["ret"], r["s"], m, R.desc_checksum(v).encode(), "descriptor checksum", True, 9)
        elif k == "vi": r = s("viwrite", v, m); out(r["ret"], r["b"], m, R.varint(v), "varint %d" % v, False, 9)
        else:
            w = (v % 256**m).to_bytes(m, "big") if m else b""; eq(s("i2b", "be", v, m)["b"], w.hex(), "big-endian %d in %d bytes" % (v, m)); eq(s("i2b", "le", v, m)["b"], w[::-1].hex(), "little-endian %d in %d bytes" % (v, m))
@st.composite
def streams(draw):
    k = draw(st.sampled_from(c18.KINDS)); b = draw(c18.valid(k).filter(lambda b: len(b) < 3000)); return [k, b, draw(sizes(len(b))), draw(sizes(2 * len(b)))]
def c_stream(s, c):
    k, b, rs, hs = c; s("new", 0, k); s("parse", 0, "raw", b); eq(s("status", 0)["st"], 0, "status of %s" % k); full = bytes.fromhex(s("full", 0)["b"])
    for n in rs: r = s("ser", 0, "raw", 0, n); eq([r["ret"], r["buf"][:2 * r["ret"]]], [min(n, len(full)), full[:n].hex()], "%s into %d bytes" % (k, n))
    h = full.hex(); t = txt(s("tostr", 0)["s"])
    for n in hs:
        r = s("ser", 0, "hex", 0, n); w = min(n // 2, len(full)); eq([r["ret"], txt(r["buf"])[:2 * w]], [w, h[:2 * w]], "%s as hex into %d bytes" % (k, n))
        if n > 2 * w: eq(r["buf"][4 * w:4 * w + 2], "00", "terminating zero of %s as hex in %d bytes" % (k, n))
        r = s("tostrb", 0, n)
        if k in ("prv", "hprv", "hpub"): out(r["ret"], r["buf"], n, t.encode(), "text of %s" % k, True, 120)
        else: eq(txt(r["buf"])[:2 * w], t[:2 * w], "text of %s into %d bytes" % (k, n))
near = lambda L, ss: any(abs(x - L) <= 2 for x in ss)
SUBS = [Sub("codecs", codec(), c_codec, lambda c: c[0] if near(len(ENC[c[0]](c[2], c[1])), c[3]) or near(len(c[2]), c[4]) else None, n=4000),
        Sub("keys", keys(), c_keys, lambda c: "keys", n=480),
        Sub("misc", misc(), c_misc, lambda c: c[0], n=2000),
        Sub("streams", streams(), c_stream, lambda c: c[0] if near(len(c[1]), c[2]) or near(2 * len(c[1]), c[3]) else None, n=4000)]
