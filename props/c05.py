from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "scalars 0..n-1 biased to 0, 1, n-1, n/2, powers of two, limb patterns; points k*G with related k (equal, opposite, doubles, generator, infinity), both compression flags; small integers over all 32 bits. Non-trivial: at least one operand outside {0, 1, infinity}."
N = R.N
u32 = st.one_of(st.integers(0, 2**32 - 1), st.sampled_from([0, 1, 2, 3, 2**30 - 1, 2**30, 2**30 + 1, 2**31, 2**32 - 1]))
@st.composite
def pair(draw):
    a = draw(scalar); k = draw(st.integers(0, 9))
    b = a if k == 0 else (N - a) % N if k == 1 else (a + draw(st.sampled_from([1, N - 1, 2]))) % N if k == 2 else 2 * a % N if k == 3 else draw(scalar)
    return [a, b]
F = {"+": lambda a, b: (a + b) % N, "-": lambda a, b: (a - b) % N, "*": lambda a, b: a * b % N, "/": lambda a, b: a * R.inv(b, N) % N if b else None}
def load(s, slot, v): s("sc_arr", slot, R.b32(v))
def val(s, slot): return R.I(bytes.fromhex(s("dump", slot)["num"]))
def c_sc(s, c):
    a, b = c; load(s, 0, a); load(s, 1, b)
    for op in ("+", "-", "*", "/", "+=", "-=", "*=", "/="):
        w = F[op[0]](a, b)
        if w is None: continue
        s("sc_op", 2, op, 0, 1); eq(val(s, 2), w, "%x %s %x" % (a, op, b))
    s("sc_neg", 2, 0); eq(val(s, 2), -a % N, "-%x" % a)
    eq(s("sc_cmp", 0, 1), dict(eq=int(a == b), ne=int(a != b), lt=int(a < b), gt=int(a > b), le=int(a <= b), ge=int(a >= b)), "comparison of %x and %x" % (a, b))
    eq(val(s, 0), a, "left operand afterwards"); eq(val(s, 1), b, "right operand afterwards")
    eq(s("dump", 2)["valid"], int(a != 0), "validity of -a")
def c_si(s, c):
    a, i = c; s("sc_hex", 0, "%064x" % a); eq(val(s, 0), a, "ECScalar from hex"); load(s, 0, a); s("sc_int", 1, i); eq(val(s, 1), i, "ECScalar(%d)" % i)
    for op in ("+", "-", "*", "/", "i+", "i-", "i*", "i/", "+=", "-=", "v+", "v-"):
        x, y = (i, a) if op[0] == "i" else (a, i); o = op.strip("iv=")
        w = F[o](x, y)
        if w is None: continue
        s("sc_opi", 2, op, 0, i); eq(val(s, 2), w, "%x %s %d" % (a, op, i))
@st.composite
def ptpair(draw):
    a, b = draw(pair()); return [a, b, draw(st.booleans()), draw(st.booleans()), draw(scalar)]
def mk(s, slot, k, comp):
    p = R.mulG(k)
    if p is None: s("pt_const", slot, "inf")
    else: s("pt_sec", slot, "xy" if comp else "xyu", R.b32(p[0]) + R.b32(p[1]))
    return p
def chk(s, slot, p, what):
    d = s("dump", slot)
    eq(d["point"], "00" * 64 if p is None else (R.b32(p[0]) + R.b32(p[1])).hex(), what)
    if p is not None: eq(d["valid"], 1, "validity of " + what)
    else:
        s("pt_const", 9, "inf"); eq(s("pt_cmp", slot, 9)["eq"], 1, what + " == InfinityPoint"); eq(d["valid"], 0, "validity of infinity")
def c_pt(s, c):
    a, b, ca, cb, k = c; A = mk(s, 0, a, ca); B = mk(s, 1, b, cb)
    for op in ("+", "-", "+=", "-="):
        s("pt_op", 2, op, 0, 1); chk(s, 2, R.add(A, B if op[0] == "+" else R.neg(B)), "%x*G %s %x*G" % (a, op, b))
    s("pt_neg", 2, 0); chk(s, 2, R.neg(A), "-(%x*G)" % a)
    if A is not None: eq(s("full", 2)["b"], R.sec(R.neg(A), ca).hex(), "serialization of -(%x*G)" % a)
    chk(s, 0, A, "left operand afterwards"); chk(s, 1, B, "right operand afterwards")
    if A is not None and B is not None:
        x, y = R.sec(A, ca), R.sec(B, cb); r = s("pt_cmp", 0, 1)
        eq(r["lt"], int(x < y), "%s < %s" % (x.hex(), y.hex())); eq(r["gt"], int(x > y), "point >")
        eq(r["le"], int(x <= y), "point <="); eq(r["ge"], int(x >= y), "point >="); eq(r["eq"], int(A == B), "point =="); eq(r["ne"], int(A != B), "point !=")
def c_mul(s, c):
    a, b, ca, cb, k = c; A = mk(s, 0, a, ca); load(s, 1, k)
    for op in ("sp", "ps"): s("pt_mul", 2, op, 1, 0); chk(s, 2, R.mul(k, A), "%x * (%x*G)" % (k, a)); f = s("full", 2)["b"]; w = R.mul(k, A); expect(w is None or f == R.sec(w, ca).hex(), "serialization of %x * (%x*G): %s", k, a, f)
    if k: s("pt_mul", 2, "div", 1, 0); chk(s, 2, R.mul(R.inv(k, N), A), "(%x*G) / %x" % (a, k))
    s("pt_const", 3, "gen"); s("pt_mul", 4, "sp", 1, 3); chk(s, 4, R.mulG(k), "%x * GeneratorPoint" % k)
    # (k*A)+(b*A) == (k+b)*A through the library alone
    load(s, 5, b); s("pt_mul", 6, "sp", 5, 0); s("pt_mul", 7, "sp", 1, 0); s("pt_op", 8, "+", 6, 7); chk(s, 8, R.mul((k + b) % N, A), "distributivity")
wide = st.one_of(scalar, digest.map(R.I), st.sampled_from([0, 1, N - 1, N, N + 1, 2**256 - 1, N + 2**32, 2**256 - N, 2 * N - 2**256 + N]), st.integers(N, 2**256 - 1))
def c_io(s, c):
    """32 bytes as a scalar or private key: the number modulo the order, zero refused; and back"""
    v, old, form, kind, cut = c; b = R.b32(v % 2**256); w = v % 2**256 % N; s("new", 0, kind)
    if old is not None: s("parse", 0, "raw", R.b32(old or 1))
    data = b if form == "raw" else T(b.hex()); fld = "num" if kind == "sc" else "secret"; what = "%s as a %s (%s)" % (b.hex(), kind, form)
    if 0 < cut < 32: m = cut if form == "raw" else 2 * cut; q = s("feed", 0, form, data[:m], data[m:])["r"]; x = dict(ret=sum(i[0] for i in q), st=q[-1][1])
    else: x = s("parse", 0, form, data)
    d = s("dump", 0); eq(x["ret"], 32, "bytes consumed by " + what); eq(x["st"], 0 if w else 2, "status of " + what); eq((d[fld], d["valid"]), (R.b32(w).hex(), int(w > 0)), what)
    if kind == "prv": p = R.mulG(w); eq(d["pub"]["point"], (R.b32(p[0]) + R.b32(p[1])).hex() if p else "00" * 64, "public key of " + what)
    f = s("full", 0); eq((f["len"], f["b"]), (32, R.b32(w).hex()), "serialization of " + what)
    if kind == "sc": s("sc_hex", 1, b.hex()); d = s("dump", 1); eq((d["num"], d["valid"]), (R.b32(w).hex(), int(w > 0)), "ECScalar(%s)" % b.hex()); s("sc_arr", 2, b); eq(s("dump", 2)["num"], R.b32(w).hex(), "ECScalar(array %s)" % b.hex())
T01 = (0, 1)
SUBS = [Sub("scalar", pair(), c_sc, lambda c: "equal" if c[0] == c[1] else "opposite" if sum(c) == N else "generic" if c[0] > 1 or c[1] > 1 else None, n=6000, examples=[[0, 0], [0, 1], [1, 0], [N - 1, 1], [N - 1, N - 1], [1, 2], [N // 2, N // 2 + 1]]),
        Sub("small", st.tuples(scalar, u32).map(list), c_si, lambda c: "i>=2^30" if c[1] >= 2**30 else "i<2^30" if c[0] > 1 else None, n=5000, examples=[[a, i] for a in (0, 1, N - 1, 2**30 - 1) for i in (0, 1, 2**30, 2**32 - 1)]),
        Sub("point", ptpair(), c_pt, lambda c: ("inf" if 0 in c[:2] else "equal" if c[0] == c[1] else "opposite" if (c[0] + c[1]) % N == 0 else "generic"), n=3000, examples=[[a, b, True, x, 5] for a in (0, 1, 2, N - 1) for b in (0, 1, 2, N - 1) for x in (True, False)]),
        Sub("mul", ptpair(), c_mul, lambda c: ("inf" if c[0] == 0 else "k=0" if c[4] == 0 else "generator" if c[0] == 1 else "generic"), n=2500, examples=[[a, b, True, True, k] for a in (0, 1, 2, N - 1) for b in (0, 3) for k in (0, 1, 2, N - 1)]),
        Sub("io", st.tuples(wide, st.one_of(st.none(), scalar), st.sampled_from(["raw", "hex"]), st.sampled_from(["sc", "prv"]), st.integers(0, 34)).map(list), c_io, lambda c: "zero" if c[0] % N == 0 else "over n" if c[0] >= N else "in range", n=2000, examples=[[v, o, f, k, 0] for v in (0, N, N + 1, N - 1, 2**256 - 1) for o in (None, 5) for f in ("raw", "hex") for k in ("sc", "prv")])]
