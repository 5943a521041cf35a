from hypothesis import strategies as st
import hist as HI, ref as R
from runner import Sub
RULE = "histories of 2..14 operations (construct, parse whole, in part and continued, damaged; copy, assign, assign to itself, push, clear, set fields, add parts taken from other objects, sign, serialize, reset, extract a part, destroy) over up to 7 objects of one or two kinds, some of which are equally long and differ in one bit only; after every operation every live object is dumped: one that was not the target must be as before, and objects with the same history (copies, also of unfinished parses that are then continued separately) must be equal. Non-trivial: at least one copy, assignment or part extraction."
def cut(b):
    """a place to stop: anywhere, early, or inside a length of several bytes"""
    p = [i + j for i in range(len(b)) if b[i] in (0xfd, 0xfe) for j in (1, 2, 3)][:60]; p = [x for x in p if x <= len(b)]
    return st.one_of(*[st.integers(0, len(b)), st.integers(0, min(len(b), 8))] + ([st.sampled_from(p)] * 2 if p else []))
@st.composite
def unfinished(draw):
    """part of an object is parsed, the object copied or assigned, and original and copy continued (or not) in some order"""
    k = draw(st.sampled_from(HI.DEEP + HI.FLAT)); b, r = draw(HI.obj(k)); d = draw(cut(b)); ops = [["feed", 0, 0, 0, d]] + draw(st.sampled_from([[["copy", 0, 1, 0, 0]], [["copy", 0, 1, 0, 0], ["assign", 0, 1, 0, 0]], [["new", 1, 0, 0, 0], ["assign", 0, 1, 0, 0], ["copy", 1, 2, 0, 0]], [["copy", 0, 1, 0, 0], ["self", 0, 0, 0, 0]], [["copy", 0, 1, 0, 0], ["parse", 1, 0, 0, 0], ["assign", 0, 1, 0, 0]]]))
    for _ in range(draw(st.integers(2, 6))): ops.append(["rest", draw(st.integers(0, 3)), 0, draw(st.integers(0, 3)), draw(st.integers(0, 2000))])
    return dict(pool=[[k, b]], root=r or [b"\5" * 32, bytes(32)], ops=ops + [[draw(st.sampled_from(["sign", "mut", "copy", "query", "del", "parse"])), draw(st.integers(0, 3)), 1, 0, 7] for _ in range(draw(st.integers(0, 3)))])
@st.composite
def twins(draw):
    """two objects of one kind, equally long, that differ in little: assignments and copies between them"""
    k = draw(st.sampled_from(HI.DEEP + ["scr"] * 4 + ["wit"] * 3 + HI.FLAT)); b, r = draw(HI.obj(k))
    if k in ("scr", "wit") and draw(st.booleans()): v = R.expand(draw(st.integers(0, 999)), draw(st.sampled_from([1, 75, 252, 253, 256, 520, 521, 600, 1000, 3000, 9000]))); b = R.vstr(v) if k == "scr" else R.ser_wit(draw(st.sampled_from([[v], [v, b"x"], [b"", v], [v, v]])))
    q = bytearray(b); i = draw(st.one_of(st.integers(0, len(b) - 1), st.sampled_from([len(b) - 1, len(b) // 2]))); q[i] ^= 1 << draw(st.integers(0, 7))
    ops = [[draw(st.sampled_from(["assign"] * 5 + ["copy", "copy", "parse", "self", "mut", "sign", "rst", "query"])), draw(st.integers(0, 5)), draw(st.integers(0, 5)), draw(st.integers(0, 3)), draw(st.integers(0, 2**16))] for _ in range(draw(st.integers(1, 8)))]
    return dict(pool=[[k, b], [k, bytes(q)]], root=r or [b"\5" * 32, bytes(32)], ops=ops)
def run(s, c): HI.Model(s, c).run()
def lab(c): return HI.label(c) if any(o[0] in ("copy", "assign", "self", "part") for o in c["ops"]) else None
SUBS = [Sub("deep", HI.histories(), run, lab, n=4800), Sub("flat", HI.histories(deep=False), run, lab, n=1600), Sub("unfinished", unfinished(), run, lambda c: HI.label(c), n=1200), Sub("twins", twins(), run, lab, n=1500)]
