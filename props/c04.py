from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "64-bit integers biased to powers of two, CompactSize thresholds and 0/2^64-1; field widths 0..40; buffer sizes 0..12. Non-trivial: integer > 0 and width > 0."
EDGE = sorted(set(v for k in (0, 1, 7, 8, 15, 16, 24, 31, 32, 40, 48, 56, 63) for v in ((1 << k) - 1, 1 << k, (1 << k) + 1)) | {252, 253, 254, 255, 256, 65535, 65536, 65537, 2**32 - 1, 2**32, 2**32 + 1, 2**64 - 1, 2**64 - 2, 0xfd00, 0xffff00})
u64 = st.one_of(st.sampled_from(EDGE), st.integers(0, 2**64 - 1), seed64.map(lambda s: R.I(R.expand(s, 8))), st.integers(0, 70000))
def c_int(s, c):
    v, w, e = c; o = "little" if e == "le" else "big"
    b = bytes.fromhex(s("i2b", e, v, w)["b"]); want = (v % (1 << (8 * w))).to_bytes(w, o)
    eq(b.hex(), want.hex(), "%d as %d bytes %s" % (v, w, e)); eq(s("b2i", e, b)["v"], v % (1 << (8 * w)) % 2**64, "reading back %d bytes %s" % (w, e))
def c_read(s, c):
    b, e = c; eq(s("b2i", e, b)["v"], int.from_bytes(b, "little" if e == "le" else "big") % 2**64, "integer from %s %s" % (b.hex(), e))
def c_vi(s, c):
    v, size, tail = c; w = R.varint(v)
    eq(s("vilen", v)["v"], len(w), "lenVarInt(%d)" % v); r = s("viwrite", v, size)
    if size < len(w): eq(r["ret"], 0, "writeVarInt into %d bytes" % size); eq(r["b"], "5a" * size, "buffer after a refused writeVarInt")
    else: eq(r["ret"], len(w), "writeVarInt length"); eq(r["b"], w.hex() + "5a" * (size - len(w)), "writeVarInt(%d)" % v)
    eq(s("viread", w + tail)["v"], v, "readVarInt")
def c_vt(s, c):
    w = R.varint(c[0])[:c[1]]; v = s("viread", w)["v"]
    if len(w) < len(R.varint(c[0])): eq(v, 0, "readVarInt of truncated data")
SUBS = [Sub("int", st.tuples(u64, st.one_of(st.integers(0, 9), st.integers(0, 40)), st.sampled_from(["le", "be"])).map(list), c_int, lambda c: "width>8" if c[1] > 8 else "width<=8" if c[0] and c[1] else None, n=16000, examples=[[v, w, e] for v in (1, 2**64 - 1, 0x0102030405060708) for w in (0, 1, 7, 8, 9, 16, 32) for e in ("le", "be")]),
        Sub("read", st.tuples(blob(12), st.sampled_from(["le", "be"])).map(list), c_read, lambda c: "read" if c[0] else None, n=8000),
        Sub("varint", st.tuples(u64, st.integers(0, 12), blob(4)).map(list), c_vi, lambda c: "len%d" % len(R.varint(c[0])) if c[0] else None, n=16000, examples=[[v, 9, b""] for v in EDGE]),
        Sub("truncated", st.tuples(u64, st.integers(1, 8)).map(list), c_vt, lambda c: "trunc" if c[0] > 252 else None, n=4000)]
