"""Generated PSBTs (BIP-174): structure, serialization and what the library's dump of them must be."""
import struct
from hypothesis import strategies as st
import ref as R
from gens import *
MAGIC = b"psbt\xff"
def kv(k, v): return R.vstr(k) + R.vstr(v)
def der_val(fp, path): return fp + b"".join(struct.pack("<I", x) for x in path)
def in_pairs(i):
    o = [(bytes(k), bytes(v)) for k, v in i["extra"]]
    if i["nonwit"] is not None: o.append((b"\0", R.ser_tx(i["nonwit"])))
    if i["wit"] is not None: o.append((b"\1", R.ser_out(i["wit"])))
    for pub, r, s, t in i["sigs"]: o.append((b"\2" + pub, R.der(R.I(r), R.I(s)) + bytes([t])))
    if i["redeem"]: o.append((b"\4", i["redeem"]))
    if i["wscript"]: o.append((b"\5", i["wscript"]))
    for pub, fp, path in i["ders"]: o.append((b"\6" + pub, der_val(fp, path)))
    return o
def out_pairs(i):
    o = [(bytes(k), bytes(v)) for k, v in i["extra"]]
    if i["redeem"]: o.append((b"\0", i["redeem"]))
    if i["wscript"]: o.append((b"\1", i["wscript"]))
    for pub, fp, path in i["ders"]: o.append((b"\2" + pub, der_val(fp, path)))
    return o
def shuffled(l, seed):
    """order of the pairs; pairs of one repeated type keep their relative order (it decides the order of the exposed list)"""
    if not seed: return l
    ks = sorted(range(len(l)), key=lambda i: R.sha256(struct.pack("<Q", seed) + l[i][0][:1])); return [l[i] for i in ks]
def ser(p):
    r = MAGIC + kv(b"\0", R.ser_tx(p["tx"], False)) + b"".join(kv(bytes(k), bytes(v)) for k, v in p["glob"]) + b"\0"
    for i in p["ins"]: r += b"".join(kv(k, v) for k, v in shuffled(in_pairs(i), i["order"])) + b"\0"
    for o in p["outs"]: r += b"".join(kv(k, v) for k, v in shuffled(out_pairs(o), o["order"])) + b"\0"
    return r
def out_ser(p, sigs):
    """what the library serializes: the transaction and partial signatures; sigs: per input a list of (pubkey, der, sighash byte)"""
    return MAGIC + kv(b"\0", R.ser_tx(p["tx"], False)) + b"\0" + b"".join(b"".join(kv(b"\2" + k, d + bytes([t])) for k, d, t in l) + b"\0" for l in sigs) + b"\0" * len(p["outs"])
def in_sigs(p): return [[(x[0], R.der(R.I(x[1]), R.I(x[2])), x[3]) for x in i["sigs"]] for i in p["ins"]]
def utxo(p, k):
    i = p["ins"][k]; a = i["nonwit"]["outs"][p["tx"]["ins"][k]["index"]] if i["nonwit"] is not None else None
    return i["wit"] if i["wit"] is not None else a
def fee(p):
    us = [utxo(p, k) for k in range(len(p["ins"]))]
    if any(u is None or u["amount"] == 0 for u in us): return 0
    f = sum(u["amount"] for u in us) - sum(o["amount"] for o in p["tx"]["outs"]); return max(f, 0)
def scr_dump(b): return b.hex()
def check_dump(d, p, eq, sigs=True):
    w = tx_dump(p["tx"])
    for k in w: eq(d["tx"][k], w[k], "%s of the PSBT's transaction" % k)
    eq(len(d["ins"]), len(p["ins"]), "inputs"); eq(len(d["outs"]), len(p["outs"]), "outputs")
    ders = lambda l: [dict(pub=x[0].hex(), fp=x[1].hex(), path=list(x[2])) for x in l]
    for k, (g, i) in enumerate(zip(d["ins"], p["ins"])):
        u = utxo(p, k); eq([g["utxo"]["amount"], g["utxo"]["script"]], [u["amount"], u["script"].hex()] if u else [0, ""], "UTXO of input %d" % k)
        eq(g["ders"], ders(i["ders"]), "derivations of input %d" % k); eq(g["redeem"], i["redeem"].hex(), "redeem script of input %d" % k); eq(g["wscript"], i["wscript"].hex(), "witness script of input %d" % k)
        if sigs: eq(g["sigs"], [dict(pub=x[0].hex(), sig=R.der(R.I(x[1]), R.I(x[2])).hex()) for x in i["sigs"]], "partial signatures of input %d" % k)
    for k, (g, o) in enumerate(zip(d["outs"], p["outs"])):
        eq(g["ders"], ders(o["ders"]), "derivations of output %d" % k); eq(g["redeem"], o["redeem"].hex(), "redeem script of output %d" % k); eq(g["wscript"], o["wscript"].hex(), "witness script of output %d" % k)
    eq(d["fee"], fee(p), "fee"); eq(d["valid"], 1, "valid")
amount = st.one_of(loglen(0, 2**52), st.integers(0, 21 * 10**14), st.sampled_from([0, 1, 546, 2**32, 10**8, 2**32 - 1, 2**53 + 1, 2**61 + 3]))
huge = st.one_of(amount, amount, amount, amount, amount, st.sampled_from([2**62, 2**63 - 1, 2**63, 2**63 + 1, 2**63 + 2**40]))       # with the others still below 2^64
index = st.one_of(loglen(0, 2**31 - 1), st.integers(0, 20), st.integers(0, 2**31 - 1), st.sampled_from([0, 1, 2**31 - 1]))
hard = index.map(lambda i: i + 2**31)
@st.composite
def paths(draw, mx=6):
    k = draw(st.integers(0, 5))
    if k <= 2: return [draw(st.sampled_from([44, 49, 84, 48, 86, 0])) + 2**31, draw(st.integers(0, 1)) + 2**31, draw(st.integers(0, 2)) + 2**31, draw(st.integers(0, 1)), draw(index)]
    if k == 3: return []
    return draw(st.lists(st.one_of(index, hard), max_size=mx if draw(st.integers(0, 7)) else 14))
@st.composite
def extras(draw, used, mx=2):
    """pairs of other types: unknown, proprietary, or known ones the library ignores"""
    o, seen = [], set()
    for _ in range(draw(st.integers(0, mx)) if draw(st.booleans()) else 0):
        k = bytes([draw(st.one_of(st.sampled_from([3, 7, 8, 9, 0x0a, 0x0f, 0xfc, 0xfb, 0xff]), st.integers(0, 255)).filter(lambda x: x not in used))]) + draw(st.one_of(st.just(b""), st.binary(max_size=40), blob(300))); v = draw(st.one_of(blob(300), st.sampled_from([b"\1\0\0\0", b"\x83\0\0\0", b"\2\0\0\0"])))
        if k not in seen: seen.add(k); o.append([k, v])
    return o
@st.composite
def prevtx(draw, out, index):
    """a previous transaction with the wanted output at the index; (tx)"""
    n = index + 1 + draw(st.integers(0, 2)) if index < 8 else draw(st.integers(index + 1, 252)); outs = [dict(amount=draw(amount), script=draw(scr_bytes(False))) for _ in range(min(n, 6))]
    while len(outs) < n: outs.append(dict(amount=outs[0]["amount"] ^ len(outs), script=bytes([len(outs)])))
    outs[index] = out; ins = [draw(txin(draw(st.booleans()))) for _ in range(draw(st.integers(1, 2)))]
    if draw(st.integers(0, 9)) == 0: ins = [dict(id=R.sha256(bytes([k])), index=k, seq=k, script=b"", wit=[b"w"] if k % 3 == 0 else []) for k in range(draw(st.integers(3, 252)))]
    return dict(version=draw(u32), locktime=draw(u32), ins=ins, outs=outs)
previndex = st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(0, 3), st.integers(0, 3), st.integers(4, 251), st.sampled_from([127, 128, 250, 251]))
def fix_order(draw, l): return draw(st.sampled_from([0, 0, 1, 2, 3, 4]))
@st.composite
def psbts(draw, small=False, maxin=3, maxout=3):
    """structurally well-formed PSBT with arbitrary (not wallet-related) contents"""
    pool = [R.sec(R.mulG(draw(st.integers(1, 50))), draw(st.integers(0, 5)) > 0) for _ in range(3)]
    if draw(st.integers(0, 3)) == 0: pool[1] = R.sec((lambda q: (q[0], R.P - q[1]))(R.parse_sec(pool[0])[0]), len(pool[0]) == 33)       # the other point with this x
    ni, no = (draw(st.integers(1, maxin)), draw(st.integers(0, maxout))) if draw(st.integers(0, 29)) else draw(st.sampled_from([(130, 126), (252, 4), (3, 252), (252, 252), (200, 60)]))
    big = ni + no > 20; ins, tins = [], []
    ders = lambda: [[k, draw(rbytes(4)), draw(paths())] for k in (draw(st.lists(st.sampled_from(pool), max_size=3, unique=True)) if not big else [])]
    for n in range(ni):
        t = draw(txin(False, True)) if not big or n < 2 else dict(tins[-1], index=n); t["script"] = b""; out = dict(amount=draw(amount if n else huge), script=draw(scr_bytes(False))) if not big else dict(amount=n, script=b"")
        i = dict(nonwit=None, wit=None, sigs=[], redeem=b"", wscript=b"", ders=ders(), extra=[], order=0)
        if not big:
            k = draw(st.integers(0, 3))
            if k == 0: t["index"] = draw(previndex); i["nonwit"] = draw(prevtx(out, t["index"])); t["id"] = R.txid(i["nonwit"])[::-1]
            elif k in (1, 2): i["wit"] = out
            i["sigs"] = [[k, R.b32(draw(secret)), R.b32(draw(secret)), draw(st.one_of(st.sampled_from([1, 1, 1, 2, 3, 0x81, 0x83]), st.integers(0, 255)))] for k in draw(st.lists(st.sampled_from(pool), max_size=2, unique=True))]
            i["redeem"] = draw(scr_bytes(False)); i["wscript"] = draw(scr_bytes(False)); i["extra"] = draw(extras({0, 1, 2, 4, 5, 6})); i["order"] = fix_order(draw, ni)
        ins.append(i); tins.append(t)
    outs = [dict(redeem=draw(scr_bytes(False)) if not big else b"", wscript=draw(scr_bytes(False)) if not big else b"", ders=ders(), extra=draw(extras({0, 1, 2})) if not big else [], order=fix_order(draw, no) if not big else 0) for _ in range(no)]
    touts = [dict(amount=draw(amount if n else huge), script=draw(scr_bytes(False))) if not big else dict(amount=n, script=b"") for n in range(no)]
    return dict(tx=dict(version=draw(u32), locktime=draw(u32), ins=tins, outs=touts), ins=ins, outs=outs, glob=draw(extras({0})))
def label(p): return "in%d out%d%s" % (min(4, len(p["ins"])), min(4, len(p["outs"])), " sigs" if any(i["sigs"] for i in p["ins"]) else "")
# ---- wallet PSBTs: inputs and outputs of real types, derivations of a root key and of others
@st.composite
def wallets(draw, maxin=3, maxout=3, root=None):
    net_ = draw(st.integers(0, 1)); roots = [R.XPrv.seed(draw(rbytes(16)) + bytes([i]), net_) for i in range(2)]; roots[0] = root or roots[0]
    pool = [draw(paths(5)) for _ in range(draw(st.integers(1, 3)))]; fps = [r.fpr() for r in roots]
    def path():
        p = draw(st.sampled_from(pool)); k = draw(st.integers(0, 5))
        if k == 0: return draw(paths(5))
        if k == 1 and p: return p[:draw(st.integers(0, len(p) - 1))]
        if k == 2: return p + [draw(index)]
        if k == 3 and p: return p[:-1] + [draw(index)]
        return p
    def near(f): j = draw(st.integers(0, 3)); return f[:j] + bytes([f[j] ^ (1 << draw(st.integers(0, 7)))]) + f[j + 1:]
    def key():
        """(pub, fingerprint, path): of the root, of another root, or not matching"""
        who = draw(st.sampled_from([0, 0, 0, 0, 1, "fp", "path", "rand", "neg"])); p = path(); own = R.sec(roots[0].path(p).pub().p)
        if who == 0: return [own, fps[0], p]
        if who == 1: return [R.sec(roots[1].path(p).pub().p), fps[1], p]
        if who == "fp": return [own, draw(st.sampled_from([fps[1], b"\0\0\0\0", fps[0][::-1], near(fps[0]), near(fps[0])])), p]
        if who == "path" and p and draw(st.booleans()): j = draw(st.integers(0, len(p) - 1)); k = roots[0].path(p[:j] + [p[j] ^ draw(st.sampled_from([1, 2**31, 256, 65536]))] + p[j + 1:]); return [R.sec(k.pub().p) if k else own, fps[0], p]
        if who == "path": return [R.sec(roots[0].path(p + [draw(index)]).pub().p), fps[0], p]
        if who == "neg": return [bytes([own[0] ^ 1]) + own[1:], fps[0], p]   # the other point with this x
        return [R.sec(R.mulG(draw(secret))), fps[0], p]
    def scripts():
        """script data of one random type: (scriptPubKey, redeem, witness script, derivations)"""
        t = draw(st.sampled_from(["pkh", "wpkh", "shwpkh", "sh", "wsh", "shwsh", "direct"])); k = key(); h = R.hash160(k[0])
        if t == "pkh": return R.spk_pkh(h), b"", b"", [k]
        if t == "wpkh": return b"\0\x14" + h, b"", b"", [k]
        if t == "shwpkh": r = b"\0\x14" + h; return R.spk_sh(R.hash160(r)), r, b"", [k]
        if t == "direct": return R.push(k[0]) + b"\xac", b"", b"", [k]
        ks = [k] + [key() for _ in range(draw(st.integers(0, 3)))]; u = {}
        for x in ks: u.setdefault(x[0], x)
        ks = list(u.values()); m = draw(st.integers(1, len(ks))); sc = bytes([0x50 + m]) + b"".join(R.push(x[0]) for x in ks) + bytes([0x50 + len(ks), 0xae])
        if draw(st.integers(0, 3)) == 0: sc = R.push(ks[0][0]) + b"\xac" + b"\x51\x69" * draw(st.sampled_from([0, 1, 20, 107, 108, 109, 110, 150])); ks = ks[:1]
        if draw(st.integers(0, 6)) == 0: sc = draw(st.sampled_from([b"\xac", b"\x51", b"\0", b"\x51\x69", b"\0\x14", b"\x51\xac\x69"])); ks = ks[:1]
        ks = ks[:draw(st.integers(0 if draw(st.integers(0, 4)) == 0 else 1, len(ks)))]
        if t == "sh": return R.spk_sh(R.hash160(sc)), sc, b"", ks
        w = b"\0\x20" + R.sha256(sc)
        if t == "wsh": return w, b"", sc, ks
        return R.spk_sh(R.hash160(w)), w, sc, ks
    ins, tins = [], []
    more = draw(st.integers(0, 7)) == 0
    for n in range(draw(st.integers(1, maxin + 5 * more))):
        spk, red, ws, ders = scripts(); out = dict(amount=draw(amount), script=spk); t = dict(id=draw(rbytes(32)), index=draw(u32), seq=draw(u32), script=b"", wit=[]); i = dict(nonwit=None, wit=None, sigs=[], redeem=red, wscript=ws, ders=ders, extra=draw(extras({0, 1, 2, 4, 5, 6}, 1)), order=draw(st.integers(0, 4)))
        k = draw(st.integers(0, 4))
        if k in (0, 1): t["index"] = draw(previndex); i["nonwit"] = draw(prevtx(out, t["index"])); t["id"] = R.txid(i["nonwit"])[::-1]
        if k != 0: i["wit"] = out
        if draw(st.integers(0, 3)) == 0: i["sigs"] = [[R.sec(R.mulG(draw(st.integers(1, 99)))), R.b32(draw(secret)), R.b32(draw(secret)), draw(st.one_of(st.sampled_from([1, 1, 2, 3, 0x81]), st.integers(0, 255)))]]
        if i["ders"] and draw(st.integers(0, 3)) == 0:         # signatures of a key of this input, or of the other point with its x
            q = draw(st.sampled_from(i["ders"]))[0]; i["sigs"] = [[x, R.b32(draw(secret)), R.b32(draw(secret)), draw(st.sampled_from([1, 1, 2, 3, 0x81]))] for x in draw(st.sampled_from([[q], [q], [bytes([q[0] ^ 1]) + q[1:]], [q, bytes([q[0] ^ 1]) + q[1:]]]))]
        ins.append(i); tins.append(t)
    outs, touts = [], []
    for n in range(draw(st.integers(0, maxout + 5 * more))):
        spk, red, ws, ders = scripts(); touts.append(dict(amount=draw(amount), script=spk)); outs.append(dict(redeem=red, wscript=ws, ders=ders if draw(st.integers(0, 3)) else [], extra=draw(extras({0, 1, 2}, 1)), order=draw(st.integers(0, 4))))
    return dict(root=[roots[0].k, roots[0].c, net_], psbt=dict(tx=dict(version=draw(u32), locktime=draw(u32), ins=tins, outs=touts), ins=ins, outs=outs, glob=draw(extras({0}, 1))))
def root_of(w): return R.XPrv(w["root"][0], bytes(w["root"][1]), net=w["root"][2])
def digest_of(p, n, pub):
    i, u = p["ins"][n], utxo(p, n) or dict(amount=0, script=b"")
    if i["wscript"]: return R.sighash_segwit(p["tx"], n, i["wscript"], u["amount"])
    pkh = R.spk_pkh(R.hash160(pub)); iswpkh = lambda s: len(s) == 22 and s[:2] == b"\0\x14"
    if i["redeem"]: return R.sighash_segwit(p["tx"], n, pkh, u["amount"]) if iswpkh(i["redeem"]) else R.sighash_legacy(p["tx"], n, i["redeem"])
    return R.sighash_segwit(p["tx"], n, pkh, u["amount"]) if iswpkh(u["script"]) else R.sighash_legacy(p["tx"], n, u["script"])
def own_sigs(w):
    """per input {pubkey: DER + sighash} that signing with the root must add"""
    p, root = w["psbt"], root_of(w); fp = root.fpr(); o = []
    for n, i in enumerate(p["ins"]):
        d = {}
        for pub, f, path in i["ders"]:
            if f != fp: continue
            k = root.path(path)
            if k is not None and R.sec(k.pub().p) == pub: r, s = R.ecdsa_sign(k.k, digest_of(p, n, pub))[:2]; d[pub] = R.der(r, s) + b"\1"
        o.append(d)
    return o
def parse_maps(b, n):
    """independent reading of a serialized PSBT: n maps, or None"""
    if b[:5] != MAGIC: return None
    def vs(p):
        if p >= len(b): raise IndexError
        v = b[p]; p += 1
        if v >= 0xfd: w = {0xfd: 2, 0xfe: 4, 0xff: 8}[v]; v = int.from_bytes(b[p:p + w], "little"); p += w
        if p + v > len(b): raise IndexError
        return b[p:p + v], p + v
    o, p = [], 5
    try:
        for _ in range(n):
            m = []
            while True:
                k, p = vs(p)
                if not k: break
                v, p = vs(p); m.append((k, v))
            o.append(m)
    except IndexError: return None
    return o if p == len(b) else None
