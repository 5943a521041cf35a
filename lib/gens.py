"""Shared Hypothesis strategies. Every random choice is Hypothesis' own; long payloads are expanded from a drawn seed."""
from hypothesis import strategies as st
import ref as R
seed64 = st.integers(0, 2**64 - 1)
EDGES = [0, 1, 2, 3, 7, 8, 15, 16, 19, 20, 21, 31, 32, 33, 34, 54, 55, 56, 57, 63, 64, 65, 75, 76, 77, 78, 83, 84, 85, 110, 111, 112, 113, 119, 120, 121, 127, 128, 129, 183, 191, 192, 193, 247, 248, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 300, 383, 384, 385]
def length(mx, extra=()):
    e = [x for x in list(EDGES) + list(extra) if x <= mx]
    return st.one_of(st.integers(0, min(mx, 40)), st.sampled_from(e), st.integers(0, mx))
@st.composite
def loglen(draw, lo, hi):
    """a length of any order of magnitude from lo to hi"""
    b = draw(st.integers(lo.bit_length(), hi.bit_length())); return draw(st.integers(max(lo, 1 << (b - 1) if b else 0), min(hi, (1 << b) - 1)))
@st.composite
def blob(draw, mx=600, extra=(), mn=0, big=0):
    """bytes of an interesting length: random, constant, zero-led, or short hand-drawn; one in 16 of any order of magnitude up to big"""
    n = max(mn, draw(length(mx, extra)) if not big or draw(st.integers(0, 15)) else draw(loglen(min(mx, big), big)))
    k = draw(st.integers(0, 9))
    if k <= 4: return R.expand(draw(seed64), n)
    if k == 5: return bytes([draw(st.sampled_from([0, 255, 1, 0x80, 0x41]))]) * n
    if k == 6: z = draw(st.integers(0, n)); return b"\0" * z + R.expand(draw(seed64), n - z)
    if k == 7: z = draw(st.integers(0, n)); return R.expand(draw(seed64), n - z) + b"\0" * z
    m = min(n, 24); return draw(st.binary(min_size=m, max_size=m)) + R.expand(draw(seed64), n - m)
def rbytes(n): return st.one_of(seed64.map(lambda s: R.expand(s, n)), st.binary(min_size=n, max_size=n))
N, P = R.N, R.P
SPECIAL = [0, 1, 2, 3, 7, N - 1, N - 2, N, N + 1, N // 2, N // 2 + 1, N // 2 - 1, P - 1, P, P + 1, P - N, 2**256 - 1, 2**255, 2**255 - 1, 2**128, 2**128 - 1, 2**64, 2**64 - 1, 2**32, 2**32 - 1, 2**248, 2**240 - 1, 2**30, 2**30 - 1, 2**60, 255, 256]
@st.composite
def u256(draw):
    k = draw(st.integers(0, 9))
    if k <= 4: return R.I(R.expand(draw(seed64), 32))
    if k <= 6: return draw(st.sampled_from(SPECIAL))
    if k == 7: return draw(st.integers(0, 2**256 - 1))
    if k == 8: b = draw(st.integers(0, 255)); return (1 << b) + draw(st.sampled_from([-1, 0, 1])) if b else 1
    # sparse / limb-aligned patterns
    v = 0
    for _ in range(draw(st.integers(1, 4))): v |= draw(st.integers(0, 2**30 - 1)) << draw(st.sampled_from([0, 30, 60, 90, 120, 150, 180, 210, 226]))
    return v % 2**256
scalar = u256().map(lambda v: v % N)                       # 0..n-1
secret = u256().map(lambda v: (v % N) or 1)                # 1..n-1
secret_b = secret.map(R.b32)
digest = st.one_of(rbytes(32), u256().map(R.b32))
net = st.integers(0, 3)
def splits(draw, b, mx=8, singles=False):
    """cut b into consecutive chunks (possibly empty)"""
    n = len(b); k = draw(st.integers(0, 5 if not singles else 6))
    if k == 0: return [b]
    if k == 6 or (k == 5 and n <= 400): return [b[i:i+1] for i in range(n)] or [b]
    cuts = sorted(draw(st.lists(st.integers(0, n), min_size=1, max_size=mx)))
    o, p = [], 0
    for c in cuts + [n]: o.append(b[p:c]); p = c
    return o
def hexcase(draw, s):
    k = draw(st.integers(0, 2))
    if k == 0: return s
    if k == 1: return s.upper()
    m = R.expand(draw(seed64), len(s)); return "".join(c.upper() if m[i] & 1 else c for i, c in enumerate(s))
T = lambda s: s.encode("latin1")        # text argument -> bytes
def txt(h): return bytes.fromhex(h).decode("latin1")
# ---- transactions
BIGLEN = [65534, 65535, 65536, 65537]
@st.composite
def scr_bytes(draw, big=True):
    """script / witness item bytes: empty, short, standard, around the varint limits"""
    k = draw(st.integers(0, 11))
    if k <= 1: return b""
    if k <= 4: return draw(st.binary(max_size=12))
    if k <= 6: h = R.expand(draw(seed64), 32); return draw(st.sampled_from([R.spk_pkh(h[:20]), R.spk_sh(h[:20]), b"\0\x14" + h[:20], b"\0\x20" + h]))
    if k == 11 and big and draw(st.integers(0, 9)) == 0: return R.expand(draw(seed64), draw(st.sampled_from(BIGLEN)))
    if k == 10 and draw(st.integers(0, 5)) == 0: return R.expand(draw(seed64), draw(loglen(100, 66000 if big else 9000)))
    return R.expand(draw(seed64), draw(st.one_of(st.integers(0, 110), st.sampled_from([75, 76, 107, 251, 252, 253, 254, 255, 256, 257, 300, 520, 1000]))))
u32 = st.one_of(loglen(0, 2**32 - 1), st.sampled_from([0, 1, 2, 0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, 0xff, 0x100, 0xffff, 0x10000, 0xfffffffd]), st.integers(0, 2**32 - 1))
u64 = st.one_of(loglen(0, 2**64 - 1), st.sampled_from([0, 1, 546, 10**8, 21 * 10**14, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1]), st.integers(0, 2**64 - 1), st.integers(0, 21 * 10**14))
def count(mx, lo=1): return st.one_of(st.integers(lo, 3), st.integers(lo, 3), st.integers(lo, 3), st.integers(lo, 3), st.integers(lo, 8), st.one_of(st.sampled_from([16, 127, 128, mx - 1, mx]), st.integers(min(9, mx), mx)))
@st.composite
def wit_items(draw, mx=252):
    n = draw(st.integers(0, 4)) if draw(st.integers(0, 15)) else draw(st.one_of(st.sampled_from([16, 128, mx]), st.integers(5, mx))); small = n > 8
    return [draw(scr_bytes()) if not small else R.expand(i, i % 3) for i in range(n)]
@st.composite
def txin(draw, segwit=True, small=False):
    return dict(id=draw(rbytes(32)), index=draw(u32), seq=draw(u32), script=draw(st.binary(max_size=3)) if small else draw(scr_bytes()), wit=(draw(wit_items()) if not small else [b"x"] * draw(st.integers(0, 2))) if segwit else [])
@st.composite
def txout(draw, small=False): return dict(amount=draw(u64), script=draw(st.binary(max_size=3)) if small else draw(scr_bytes()))
@st.composite
def txs(draw, segwit=None, maxin=252, maxout=252, minout=0):
    if segwit is None: segwit = draw(st.booleans())
    ni, no = draw(count(maxin)), draw(count(maxout, minout))
    def many(f, n):
        if n <= 8: return [draw(f(False)) for _ in range(n)]
        base = [draw(f(True)) for _ in range(3)]; o = [dict(base[i % 3]) for i in range(n)]
        for i, x in enumerate(o):
            if "id" in x: x["id"] = R.sha256(x["id"] + bytes([i])); x["index"] = (x["index"] + i) % 2**32
            else: x["amount"] = (x["amount"] + i) % 2**64
        return o
    t = dict(version=draw(u32), locktime=draw(u32), ins=many(lambda s: txin(segwit, s), ni), outs=many(lambda s: txout(s), no))
    if segwit and not R.has_wit(t): t["ins"][draw(st.integers(0, ni - 1))]["wit"] = [draw(st.binary(max_size=3))]
    return t
def tx_label(t): return "%s in%s out%s" % ("segwit" if R.has_wit(t) else "legacy", "1" if len(t["ins"]) == 1 else "2+" if len(t["ins"]) < 9 else "9+", "0" if not t["outs"] else "1+" if len(t["outs"]) < 9 else "9+")
def tx_dump(t):
    """what the server's dump of this transaction must be"""
    return dict(version=t["version"], locktime=t["locktime"], ins=[dict(hash=i["id"].hex(), index=i["index"], seq=i["seq"], script=i["script"].hex(), wcount=len(i["wit"]), wit=R.ser_wit(i["wit"]).hex(), len=len(R.ser_in(i)), segwit=int(bool(i["wit"]))) for i in t["ins"]], outs=[dict(amount=o["amount"], script=o["script"].hex(), len=len(R.ser_out(o))) for o in t["outs"]], len=len(R.ser_tx(t)), segwit=int(R.has_wit(t)), txid=R.txid(t).hex(), wtxid=R.wtxid(t).hex(), valid=1)
def tx_build(s, slot, t, aux=40):
    """assemble t through the API (parts of at most 10000 bytes)"""
    s("new", slot, "tx"); s("tx_set", slot, t["version"], t["locktime"])
    for i in t["ins"]:
        s("scr", aux, i["script"]); s("txin", aux + 1, "b", i["id"][::-1], i["index"], i["seq"], aux)
        if i["wit"]:
            s("new", aux + 2, "wit")
            for w in i["wit"]: s("wit_push", aux + 2, "bytes", w)
            s("txin_wit", aux + 1, aux + 2)
        s("tx_addin", slot, aux + 1)
    for o in t["outs"]: s("scr", aux, o["script"]); s("txout", aux + 1, "as", o["amount"], aux); s("tx_addout", slot, aux + 1)
def tx_small(t): return all(len(i["script"]) <= 10000 and len(b"".join(map(R.vstr, i["wit"]))) <= 10000 for i in t["ins"]) and all(len(o["script"]) <= 10000 for o in t["outs"])
# ---- edits of a transaction through its public members
small_scr = scr_bytes(False)
@st.composite
def tx_edit(draw):
    k = draw(st.sampled_from(["set", "seq", "idx", "scr", "wit", "wit", "wpush", "in", "addin", "addout", "amount", "oscr", "out", "other", "copy", "parse", "look"])); i = draw(st.integers(0, 60))
    v = {"set": st.tuples(u32, u32).map(list), "seq": u32, "idx": u32, "scr": small_scr, "oscr": small_scr, "wit": st.one_of(st.just([]), st.lists(small_scr, max_size=3)), "wpush": small_scr, "in": txin().filter(lambda x: tx_small(dict(ins=[x], outs=[]))), "out": txout().filter(lambda x: len(x["script"]) <= 10000), "amount": u64, "look": st.integers(0, 400)}
    v["addin"] = v["in"]; v["addout"] = v["out"]; v["other"] = v["parse"] = txs(maxin=5, maxout=5).filter(tx_small)
    return [k, i, draw(v[k]) if k in v else 0]
def tx_apply(s, x, t, e, aux=40):
    """performs one edit on the transaction in slot x and returns the edited model"""
    k, i, v = e; t = dict(t, ins=[dict(a) for a in t["ins"]], outs=[dict(o) for o in t["outs"]]); ni, no = len(t["ins"]), len(t["outs"])
    def put_in(v):
        s("scr", aux, v["script"]); s("txin", aux + 1, "b", v["id"][::-1], v["index"], v["seq"], aux)
        if v["wit"]: s("wit", aux + 2, R.ser_wit(v["wit"])); s("txin_wit", aux + 1, aux + 2)
    if k == "set": s("tx_set", x, *v); t["version"], t["locktime"] = v
    elif k == "seq": s("tx_setin", x, i % ni, "seq", v); t["ins"][i % ni]["seq"] = v
    elif k == "idx": s("tx_setin", x, i % ni, "index", v); t["ins"][i % ni]["index"] = v
    elif k == "scr": s("scr", aux, v); s("tx_setin", x, i % ni, "scr", aux); t["ins"][i % ni]["script"] = v
    elif k == "wit": s("wit", aux, R.ser_wit(v)); s("tx_setin", x, i % ni, "wit", aux); t["ins"][i % ni]["wit"] = v
    elif k == "wpush": s("tx_setin", x, i % ni, "wpush", v); t["ins"][i % ni]["wit"] = t["ins"][i % ni]["wit"] + [v]
    elif k == "in": put_in(v); s("tx_setin", x, i % ni, "in", aux + 1); t["ins"][i % ni] = v
    elif k == "addin": put_in(v); s("tx_addin", x, aux + 1); t["ins"].append(v)
    elif k in ("addout", "out"):
        s("scr", aux, v["script"]); s("txout", aux + 1, "as", v["amount"], aux)
        if k == "addout" or not no: s("tx_addout", x, aux + 1); t["outs"].append(v)
        else: s("tx_setout", x, i % no, "out", aux + 1); t["outs"][i % no] = v
    elif k == "amount" and no: s("tx_setout", x, i % no, "amount", v); t["outs"][i % no]["amount"] = v
    elif k == "oscr" and no: s("scr", aux, v); s("tx_setout", x, i % no, "scr", aux); t["outs"][i % no]["script"] = v
    elif k == "other": tx_build(s, aux + 5, v); s("assign", x, aux + 5); t = v
    elif k == "copy": s("copy", aux + 5, x); s("copy", x, aux + 5)
    elif k == "parse": s("parse", x, "raw", R.ser_tx(v)); t = v
    elif k == "look": s("ser", x, "raw", v, 1 + v % 37)
    return t
# ---- few values, recombined many times: what one call leaves behind must not reach the next
@st.composite
def related(draw, base, n=4):
    """up to n byte strings, some of which differ from another one in a single byte, the head or the tail only"""
    o = [draw(base)]
    for _ in range(draw(st.integers(1, n - 1))):
        b = bytearray(o[draw(st.integers(0, len(o) - 1))]); k = draw(st.integers(0, 4)); w = draw(base); i = draw(st.integers(0, max(0, len(b) - 1)))
        if k == 0 or not b: b = w
        elif k <= 2: b[[i, len(b) - 1][k - 1]] ^= 1 << draw(st.integers(0, 7))
        elif k == 3: b = b[:i] + w[i:]
        else: b = w[:i] + b[i:]
        o.append(bytes(b))
    return o
def keyish(b): return R.b32(R.I(b) % N or 1)
pairs = st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list), min_size=2, max_size=10)
# ---- histories of one private-key object
@st.composite
def prv_op(draw):
    k = draw(st.sampled_from(["ctor", "set", "set", "raw", "hex", "wif", "wif", "wifc", "assign", "copy", "self", "read", "sc"])); return [k, draw(secret_b), draw(st.booleans()), draw(net)]
def prv_apply(s, x, m, e, aux=40):
    """-> (secret, compressed or None, network or None) of the key in slot x afterwards"""
    k, d, comp, n = e
    if k == "ctor": s("prv", x, d, comp, n); return (d, comp, n)
    if k == "set": s("prv_set", x, d); return (d, None, m[2])
    if k in ("raw", "hex"): eq_(s("parse", x, k, d if k == "raw" else d.hex().encode())["st"], 0, "status of a private key"); return (d, None, m[2])
    if k in ("wif", "wifc"): s("prv_fromwif", x, "n" if k == "wif" else "c", T(R.wif(d, comp, n))); return (d, comp, R.FAMILY[n])
    if k == "assign": s("prv", aux, d, comp, n); s("assign", x, aux); return (d, comp, n)
    if k == "sc": s("sc_arr", aux, d); s("prv_sc", x, aux); return (d, None, None)
    if k == "copy": s("copy", aux, x); s("copy", x, aux)
    elif k == "self": s("assign", x, x)
    elif k == "read": s("full", x); s("tostr", x); s("sign", x, d)
    return m
def eq_(a, b, what):
    from client import eq
    eq(a, b, what)
