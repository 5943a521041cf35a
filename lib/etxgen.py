"""Generated Electrum unsigned transactions ("EPTF"): extended-key inputs, legacy or native segwit with amounts."""
import struct
from hypothesis import strategies as st
import ref as R
from gens import *
MAGIC = b"EPTF\xff\0"
u16 = st.one_of(st.integers(0, 3), st.sampled_from([0, 1, 255, 256, 0x7fff, 0x8000, 0xffff]), st.integers(0, 65535))
def xpub(k, typ, net_): return R.XPub(R.mulG(k[0]), k[1], k[2], k[3], k[4], net_, typ)
@st.composite
def etxs(draw, maxin=252, seg=None):
    seg = draw(st.booleans()) if seg is None else seg; net_ = draw(st.integers(0, 1)); keys = [[draw(secret), draw(rbytes(32)), draw(st.one_of(st.integers(0, 5), st.integers(0, 255))), draw(rbytes(4)), draw(u32)] for _ in range(2)]
    if draw(st.integers(0, 3)) == 0: keys[1][0] = keys[0][0]          # the same key under another chain code
    ni = draw(count(min(60, maxin))); no = draw(count(40, 0)); ins = []
    for k in range(ni):
        ins.append(dict(id=R.sha256(bytes([k])) if k > 3 else draw(rbytes(32)), index=k if k > 3 else draw(u32), seq=draw(u32) if k < 4 else 0, key=draw(st.sampled_from([0, 0, 0, 1])), typ=draw(st.sampled_from([R.P2WPKH, R.P2WPKH, R.P2WPKH, R.P2SH_P2WPKH, R.P2SH_P2WPKH, R.UNKNOWN])) if seg else R.UNKNOWN, d=[draw(u16), draw(u16)], amount=draw(st.one_of(st.integers(0, 21 * 10**14), st.sampled_from([0, 1, 2**32 - 1, 2**32, 0xfd, 0xfdfdfdfd, 2**48, 2**53 + 1] + ([2**63, 2**63 - 1, 2**62 + 7] if k == 0 else [])))) if k < 12 else k))
    outs = [draw(txout(small=k > 3)) if k < 6 else dict(amount=k, script=b"\x51") for k in range(no)]
    for o in outs: o["amount"] %= 10**15
    return dict(seg=seg, net=net_, keys=keys, ins=ins, outs=outs, version=draw(u32), locktime=draw(u32))
def raw_xpub(e, i): return xpub(e["keys"][i["key"]], i["typ"], e["net"]).raw()
def der(i): return struct.pack("<HH", *i["d"])
def plain(e):
    """the unsigned transaction"""
    return dict(version=e["version"], locktime=e["locktime"], ins=[dict(id=i["id"], index=i["index"], seq=i["seq"], script=b"", wit=[]) for i in e["ins"]], outs=e["outs"])
def ser(e):
    t = plain(e)
    if not e["seg"]:
        for i, j in zip(t["ins"], e["ins"]): i["script"] = b"\1\xff\x4c\x53\xff" + raw_xpub(e, j) + der(j)
        return MAGIC + R.ser_tx(t, False)
    r = MAGIC + struct.pack("<I", t["version"]) + b"\0\1" + R.varint(len(t["ins"])) + b"".join(map(R.ser_in, t["ins"])) + R.varint(len(t["outs"])) + b"".join(map(R.ser_out, t["outs"]))
    for j in e["ins"]: r += b"\xfe\xff\xff\xff\xff" + struct.pack("<Q", j["amount"]) + b"\0\0\2\1\xff\x53\xff" + raw_xpub(e, j) + der(j)
    return r + struct.pack("<I", t["locktime"])
def fee(e):
    if not e["seg"] or any(i["amount"] == 0 for i in e["ins"]): return 0
    return max(0, sum(i["amount"] for i in e["ins"]) - sum(o["amount"] for o in e["outs"]))
def label(e): return "%s in%d" % ("segwit" if e["seg"] else "legacy", min(9, len(e["ins"])))
