"""Histories of operations on library objects: generated as lists of small integers and payload references, interpreted against the server.
Every object carries a term (how it came about); two objects with the same term must be observably equal, and an operation may change no object but its target."""
import hashlib
from hypothesis import strategies as st
import ref as R, psbtgen as PG, etxgen as EG, c18
from gens import *
from client import expect, eq
NS = 7                               # object slots 0..NS-1; helpers behind them
H_ROOT, H_PRV, H_SIG, H_PUB, H_AUX = 50, 51, 52, 53, 54
EQ = {"sc", "pt", "pub", "sig", "ssig", "scr", "wit", "hpub", "prv", "hprv"}
DEEP = ["scr", "wit", "txin", "txout", "tx", "tx", "psbt", "psbt", "psbt", "etx", "etx"]
FLAT = ["sc", "pt", "pub", "prv", "hprv", "hpub", "sig", "ssig"]
@st.composite
def obj(draw, k):
    """(bytes, root key or None) of one valid object"""
    if k == "psbt" and draw(st.integers(0, 2)): w = draw(PG.wallets(maxin=2, maxout=2)); return PG.ser(w["psbt"]), [R.b32(w["root"][0]), w["root"][1]]
    if k == "etx": e = draw(EG.etxs(maxin=4)); return EG.ser(e), [R.b32(e["keys"][0][0]), e["keys"][0][1]]
    return draw(c18.valid(k).filter(lambda b: len(b) < 4000)), None
OPS = ["copy", "copy", "assign", "assign", "assign", "self", "parse", "parse", "feed", "feed", "rest", "rest", "bad", "mut", "mut", "mut", "mut", "mut", "sign", "sign", "rst", "del", "new", "part", "query"]
@st.composite
def histories(draw, mx=14, deep=True):
    ks = draw(st.lists(st.sampled_from(DEEP if deep else FLAT), min_size=1, max_size=2)); pool = []; root = None
    for k in ks:
        for _ in range(draw(st.integers(1, 2))):
            b, r = draw(obj(k)); pool.append([k, b]); root = root or r
            if draw(st.integers(0, 2)) == 0:     # a twin of equal length, one bit apart
                if k in ("scr", "wit") and draw(st.booleans()): v = R.expand(draw(st.integers(0, 999)), draw(st.sampled_from([252, 253, 520, 521, 600, 1000, 3000]))); b = R.vstr(v) if k == "scr" else R.ser_wit([v]); pool.append([k, b])
                q = bytearray(b); i = draw(st.one_of(st.integers(0, len(b) - 1), st.sampled_from([len(b) - 1, len(b) // 2]))); q[i] ^= 1 << draw(st.integers(0, 7)); pool.append([k, bytes(q)])
    ops = [[draw(st.sampled_from(OPS)), draw(st.integers(0, 15)), draw(st.integers(0, 15)), draw(st.integers(0, 3)), draw(st.integers(0, 2**16))] for _ in range(draw(st.integers(2, mx)))]
    return dict(pool=pool, root=root or [R.b32(5), bytes(32)], ops=ops)
def H(*a): return hashlib.sha1(repr(a).encode()).hexdigest()[:16]
class Model:
    """interprets a history; with verify=False it only performs the calls"""
    def __init__(self, s, case, verify=True):
        self.s, self.c, self.verify = s, case, verify; self.o = {}; self.known = {}; self.log = []      # slot -> [kind, term, status, rest]
        s("hd_ctor", H_ROOT, case["root"][0], case["root"][1], 0, bytes(4), 0, 0, 0); s("prv", H_PRV, R.b32(77), 1, 0); s("sig", H_SIG, R.b32(12345), R.b32(2**255 + 1)); s("pub", H_PUB, "sec", R.sec(R.mulG(77)))
    def new(self, slot, k): self.s("new", slot, k); self.o[slot] = [k, H("new", k), 0, b""]
    def run(self):
        kinds = []
        for k, _ in self.c["pool"]:
            if k not in kinds: kinds.append(k)
        for i, (k, b) in enumerate(self.c["pool"]): self.new(i, k); self.parse(i, b, False)
        self.check(set(self.o))
        for op in self.c["ops"]:
            ch = self.step(op, kinds)
            if ch: self.check(ch)
    def pick(self, n, kind=None):
        l = [x for x in sorted(self.o) if kind is None or self.o[x][0] == kind]
        return l[n % len(l)] if l else None
    def payload(self, k, n):
        l = [b for kk, b in self.c["pool"] if kk == k]
        return l[n % len(l)] if l else None
    def parse(self, x, b, hex_):
        o = self.o[x]; fresh = o[2] == 0; r = self.s("parse", x, "hex" if hex_ else "raw", b.hex().encode() if hex_ else b); o[1] = H("parse", H("new", o[0]) if fresh else o[1], b); o[2] = r["st"]
        if fresh and o[2] != 0: o[1] = H("kept", o[1], x, len(self.log))   # an unfinished parse over an older object: no claim on what the unread fields hold
        return r
    def step(self, op, kinds):
        name, a, b, c, d = op; s = self.s; self.log.append(name)
        x = self.pick(a)
        if name == "new" or x is None:
            x = a % NS; self.new(x, kinds[b % len(kinds)]); return {x}
        o = self.o[x]; k = o[0]
        if name == "copy":
            y = b % NS
            if y == x: return None
            s("copy", y, x); self.o[y] = list(o); return {y}
        if name == "assign":
            y = self.pick(b, k); s("assign", y, x)
            if y != x: self.o[y] = list(o)
            return {y}
        if name == "self": s("assign", x, x); return {x}
        if name == "del":
            if len(self.o) < 2: return None
            s("del", x); del self.o[x]; return set()
        if name == "rst": s("rst", x); o[1] = H("rst", o[1]); o[2] = 0; o[3] = b""; return {x}
        if name in ("parse", "feed", "bad"):
            if o[2] != 0: s("rst", x); o[1] = H("rst", o[1]); o[2] = 0
            p = self.payload(k, b)
            if p is None: return None
            if name == "feed": n = d % (len(p) + 1); self.parse(x, p[:n], False); o[3] = p[n:]
            elif name == "bad":
                q = bytearray(p); q[d % len(q)] ^= 1 << (c * 2); self.parse(x, bytes(q), False); o[3] = b""
            else: self.parse(x, p, c == 1); o[3] = b""
            return {x}
        if name == "rest":
            l = [i for i in sorted(self.o) if self.o[i][2] == 1]
            if not l: return None
            x = l[a % len(l)]; o = self.o[x]; n = len(o[3]) if c < 2 else d % (len(o[3]) + 1)
            r = s("feed", x, "raw", o[3][:n])["r"][0]; o[1] = H("feed", o[1], o[3][:n]); o[2] = r[1]; o[3] = o[3][n:]; return {x}
        if name == "query": s("full", x); s("sers", x, d % 50, d % 7); s("tostr", x); return {x}
        if name == "part":
            l = [i for i in sorted(self.o) if self.o[i][0] in ("tx", "psbt", "etx") and self.o[i][2] == 0]
            if not l: return None
            t = l[a % len(l)]; dd = self.dump(t); dd = dd.get("tx", dd); w = ["in", "out", "tx"][c % 3]; y = b % NS
            if y == t: return None
            n = len(dd["ins"]) if w == "in" else len(dd["outs"]) if w == "out" else 1
            if n == 0: return None
            s("tx_get", y, t, w, d % n); self.o[y] = [{"in": "txin", "out": "txout", "tx": "tx"}[w], H("part", self.o[t][1], w, d % n), 0, b""]; return {y}
        if name == "sign":
            if o[2] != 0: return None
            if k == "psbt": s("psbt_sign", x, H_ROOT)
            elif k == "etx": s("etx_sign", x, H_ROOT)
            elif k == "tx":
                n = len(self.dump(x)["ins"])
                if n == 0: return None
                d %= n
                if c % 2: s("tx_sign", x, d, H_PRV)
                else: s("tx_signw", x, d, H_PRV, 1000 + b, [4, 6][c // 2])
            else: return None
            o[1] = H("sign", o[1], c, b, d); return {x}
        if name == "mut": return self.mutate(x, op)
    def mutate(self, x, op):
        name, a, b, c, d = op; s = self.s; o = self.o[x]; k = o[0]; v = R.expand(d, [0, 1, 5, 75, 76, 256, 300, 3000][b % 8])
        if o[2] != 0: return None
        if k == "scr":
            if c == 0: s("scr_push", x, "bytes", v)
            elif c == 1: s("scr_push", x, "op", b)
            elif c == 2 and b < 6: s("scr_clear", x)
            elif c == 2: s("scr_push", x, "scr", x)      # itself
            else: s("scr_push", x, ["pub", "sig"][b % 2], [H_PUB, H_SIG][b % 2])
        elif k == "wit":
            if c <= 1: s("wit_push", x, "bytes", v)
            elif c == 2 and b < 6: s("wit_clear", x)
            elif c == 2: s("scr", H_AUX, v); s("wit_push", x, "scr", H_AUX)
            else: s("wit_push", x, ["pub", "sig"][b % 2], [H_PUB, H_SIG][b % 2])
        elif k == "txin":
            if c <= 1: s("wit", H_AUX, R.ser_wit([v])); s("txin_wit", x, H_AUX)
            else: s("scr", H_AUX, v); s("txin_scr", x, H_AUX)
        elif k in ("tx", "psbt", "etx"):
            dd = self.dump(x); dd = dd.get("tx", dd); ni, no = len(dd["ins"]), len(dd["outs"]); y = None
            if b % 4 == 0 and k == "tx":
                y = self.pick(a + 1, "txin" if c % 2 else "txout")
                if y is not None and self.o[y][2] != 0: y = None
                if c % 2 and ni < 250 and y is not None: s("tx_addin", x, y)
                elif not c % 2 and no < 250 and y is not None: s("tx_addout", x, y)
                elif c % 2 and ni < 250: s("txin", H_AUX, "b", R.expand(d, 32), d, d); s("tx_addin", x, H_AUX)
                elif no < 250: s("scr", H_AUX + 1, v); s("txout", H_AUX, "as", d, H_AUX + 1); s("tx_addout", x, H_AUX)
                o[1] = H("add", o[1], c, b, d, self.o[y][1] if y is not None else None); return {x}
            if b % 4 == 1: s("tx_set", x, d, b)
            elif b % 4 == 2 and ni: s("tx_setin", x, d % ni, ["seq", "index", "push", "wpush"][c], d if c < 2 else v)
            elif no: s("tx_setout", x, d % no, ["amount", "push"][c % 2], d if c % 2 == 0 else v)
            else: return None
        elif k == "txout": s("scr", H_AUX, v); s("txout", H_AUX + 1, "as", d, H_AUX); s("assign", x, H_AUX + 1); o[1] = H("txout", b, c, d); return {x}
        elif k == "prv": s("prv_set", x, R.b32(d + 1))
        elif k == "hprv": s("hd_reseed", x, R.expand(d, 16), c)
        elif k in ("sc", "pt", "pub", "sig", "ssig", "hpub"):
            p = self.payload(k, b)
            if p is None: return None
            self.parse(x, p, True); return {x}
        o[1] = H("mut", o[1], b, c, d); return {x}
    def dump(self, x): d = self.s("dump", x); return d
    def check(self, changed):
        """dumps of all live objects against what is known of them"""
        if not self.verify: return
        sl = sorted(self.o); rs = self.s.calls([q for x in sl for q in (("dump", x), ("status", x))]); hist = " -> ".join(self.log)[-300:]
        for n, x in enumerate(sl):
            k, term, stt, _ = self.o[x]; got = (rs[2 * n], rs[2 * n + 1]); old = self.known.setdefault(term, (got, x, hist))
            if old[0] != got: eq(diff(got, old[0]), diff(old[0], got), "%s in slot %d, %s after %s (equal to the object seen in slot %d after %s)" % (k, x, "changed" if x in changed else "NOT touched", hist, old[1], old[2]))
        if len(changed) == 1:
            x = next(iter(changed)); k = self.o[x][0]
            if k in EQ and self.o[x][2] == 0:
                for y in sl:
                    if self.o[y][1] == self.o[x][1]:
                        r = self.s("eq", x, y); expect(r["eq"] == 1 and r["ne"] == 0, "== of equal %s (slots %d, %d) is %s, != is %s after %s", k, x, y, r["eq"], r["ne"], hist)
def diff(a, b):
    """the part of a that differs from b, for the message"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return [diff(x, y) for x, y in zip(a, b) if x != y]
    if isinstance(a, dict) and isinstance(b, dict): return {k: diff(v, b.get(k)) for k, v in a.items() if v != b.get(k)}
    return a
def label(c): return "+".join(sorted({k for k, _ in c["pool"]}))
