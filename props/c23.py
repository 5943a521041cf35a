import hashlib, os, re, shutil, subprocess, sys, tempfile, time
from hypothesis import strategies as st
import ref as R, psbtgen as PG, etxgen as EG, c18, c28, hist as HI, borrow as BO, build as B
from gens import *
from client import expect, eq, ASAN
from runner import Sub
RULE = "(1) structured mutation: valid serializations of every kind with bytes, lengths and counts altered, cut, extended, spliced with another object, or huge counts and lengths planted, parsed whole, in chunks or as hex into fresh and used objects, then queried, serialized, copied, assigned, signed, parsed again and destroyed under AddressSanitizer; (2) text of every kind (valid, altered, arbitrary bytes) to every text entry point with arbitrary output sizes, and the cases of the other properties' parsing sub-tests; (3) coverage-guided fuzzing (libFuzzer, started from generated valid objects) of the same entry points and follow-up calls. Non-trivial: the parser consumed more than 4 bytes; for (3), inputs kept for new coverage."
VB = [b"\xfd\xff\xff", b"\xfd\0\0", b"\xfe\xff\xff\xff\xff", b"\xfe\xff\xff\xff\x7f", b"\xff" * 9, b"\xff" + b"\xff" * 7 + b"\x7f", b"\xfd\x10\x27", b"\xfe\0\0\1\0", b"\xfc", b"\xfd", b"\0", b"\xff\0\0\0\0\1\0\0\0", b"\xfd\xf8\x2a", b"\xfe\0\0\0\x10"]
@st.composite
def mutated(draw):
    k = draw(st.sampled_from(c18.KINDS + ["psbt", "psbt", "etx", "tx", "wit"])); b = draw(c18.valid(k).filter(lambda b: len(b) < 6000)); c = bytearray(b)
    for _ in range(draw(st.integers(1, 4))):
        if not c: break
        m = draw(st.integers(0, 7)); i = draw(st.integers(0, len(c) - 1)) if draw(st.booleans()) else draw(st.integers(0, min(len(c) - 1, 60)))
        if m == 0: c[i] = draw(st.sampled_from([0, 1, 2, 5, 0x4c, 0x4d, 0xfc, 0xfd, 0xfe, 0xff, 0x80, 0x7f]))
        elif m == 1: c[i] ^= 1 << draw(st.integers(0, 7))
        elif m == 2: c = c[:i]
        elif m == 3: del c[i:i + draw(st.integers(1, 40))]
        elif m == 4: c[i:i] = draw(st.binary(min_size=1, max_size=12))
        elif m in (5, 6): v = draw(st.sampled_from(VB)); c[i:i + (len(v) if draw(st.booleans()) else 1)] = v
        else: o = draw(c18.valid(draw(st.sampled_from([k, "tx", "psbt", "pub", "sig"]))).filter(lambda b: len(b) < 3000)); j = draw(st.integers(0, len(o))); c = c[:i] + o[j:]
    c = bytes(c); return [k, b, c, splits(draw, c), draw(st.integers(0, 255)), draw(st.sampled_from(["new", "used", "hex", "shex"]))]
def follow(s, x, k, fl):
    """every kind of later use of object x"""
    s("dump", x); n = s("full", x)["len"]; s("ser", x, "raw", n // 3, n // 2 + 1); s("ser", x, "hex", 0, n); s("tostr", x); s("tostrb", x, fl); s("status", x)
    if k == "psbt": s("hd_seed", 40, b"seed" * 4, 0); s("hd_xpub", 41, 40); s("psbt_fee", x); s("psbt_sign", x, 40); s("psbt_tob64", x); [s("psbt_mine", x, o, y) for o in range(min(2, len(s("dump", x)["outs"]))) for y in (40, 41)]
    if k == "etx": s("hd_seed", 40, b"seed" * 4, 0); s("etx_fee", x); s("etx_sign", x, 40)
    if k == "tx":
        d = s("dump", x)
        if d["ins"]: s("prv", 42, R.b32(9), 1, 0); i = fl % len(d["ins"]); s("scr", 43, b"\x51"); s("tx_sighash", x, i, 43); s("tx_sighashw", x, i, 43, 5); s("tx_sign", x, i, 42); s("tx_signw", x, i, 42, 5, 6); s("tx_get", 44, x, "in", i); s("tx_addin", x, 44)
        if d["outs"]: s("tx_get", 45, x, "out", fl % len(d["outs"])); s("txout_addr", 45, fl % 4, 80); s("tx_addout", x, 45)
        s("tx_hashes", x)
    if k == "scr": s("scr_address", x, 0, 80); s("scr_spk", 43, x, fl % 9); s("scr_push", x, "bytes", b"abc"); s("scr_push", x, "scr", x); s("dump", x)
    if k == "wit": s("wit_push", x, "bytes", b"abc"); s("dump", x)
    if k in ("pub", "hpub"): s("verify", x, R.b32(5) + R.b32(6), bytes(32)); s("sverify", x, R.b32(5) + R.b32(6), bytes(32)); [s("paddr", x, q, 0, 80) for q in ("legacy", "segwit", "nested")]
    if k == "hpub": s("hp_child", 43, x, "t", fl); s("hp_out", x, 120); s("hp_path", 44, x, T("m/1/2"))
    if k in ("prv", "hprv"): s("sign", x, bytes(31) + b"\1"); s("prv_pub", 43, x)
    if k == "hprv": s("hd_child", 43, x, "h", fl); s("hd_out", x, 120); s("hd_xpub", 44, x)
def c_mut(s, c):
    k, b, d, ch, fl, how = c; s("new", 0, k)
    if how == "used": s("parse", 0, "raw", b)
    if how in ("hex", "shex"): s("parse", 0, how, d.hex().encode())
    else: s("feed", 0, "raw", *ch)
    s("copy", 1, 0); s("new", 2, k); s("parse", 2, "raw", b)
    if fl & 1: follow(s, 0, k, fl)
    s("assign", 2, 0); s("assign", 0, 0)
    if fl & 2: s("rst", 0)
    s("parse", 0, "raw", b); follow(s, 0, k, fl); s("del", 0); follow(s, 1, k, fl); s("feed", 1, "raw", *ch); s("assign", 1, 2); s("del", 2); follow(s, 1, k, fl)
TXT = ["hexish", "b58", "addr", "wif", "xprv", "xpub", "path", "mn", "desc", "psbt64", "raw"]
@st.composite
def texts(draw):
    k = draw(st.sampled_from(TXT)); x = R.XPrv(draw(secret), draw(rbytes(32)), 1, b"abcd", 3, draw(net), draw(st.sampled_from([0, 4, 6])))
    t = {"hexish": lambda: draw(blob(200)).hex(), "b58": lambda: R.b58c(draw(blob(90))), "addr": lambda: draw(st.sampled_from([R.addr_legacy, R.addr_segwit, R.addr_nested]))(R.sec(R.mulG(x.k)), x.net) if draw(st.booleans()) else R.bech32_enc(R.NETS[x.net]["hrp"], [draw(st.one_of(st.integers(0, 16), st.integers(0, 31)))] + R.bits(draw(st.one_of(blob(60), st.integers(33, 41).flatmap(rbytes))), 8, 5, True), draw(st.sampled_from([1, 1, 0x2bc830a3]))), "wif": lambda: R.wif(R.b32(x.k), draw(st.booleans()), x.net), "xprv": x.str, "xpub": lambda: x.pub().str(), "path": lambda: draw(st.sampled_from(["m/", ""])) + "/".join(str(draw(u64)) + draw(st.sampled_from(["", "h", "'", "H"])) for _ in range(draw(st.integers(0, 12)))), "mn": lambda: R.mnemonic(R.expand(draw(seed64), draw(st.sampled_from([16, 20, 24, 28, 32])))), "desc": lambda: draw(st.text(R.DIN, max_size=40)), "psbt64": lambda: R.b64(PG.ser(draw(PG.psbts(small=True)))), "raw": lambda: draw(st.binary(max_size=200)).decode("latin1")}[k]()
    b = bytearray(T(t))
    for _ in range(draw(st.integers(0, 3))):
        m = draw(st.integers(0, 5)); i = draw(st.integers(0, len(b)))
        if m == 0 and i < len(b): b[i] = draw(st.integers(0, 255))
        elif m == 1: b = b[:i]
        elif m == 2: b[i:i] = draw(st.binary(max_size=4))
        elif m == 3: del b[i:i + draw(st.integers(1, 5))]
        elif m == 4: b = b[:i] + b[:draw(st.integers(0, 400))] * draw(st.integers(1, 3))
        elif m == 5: b[i:i] = draw(st.sampled_from([b"\0", b" ", b"  ", b"=", b"==", b"1", b"/", b"h", b"'", b"\xff", b"\x80", b"bc1", b"zoo ", b"abandon " * 12, b"q" * 120]))
    return [k, bytes(b[:20000]), draw(st.one_of(st.integers(0, 40), st.integers(0, 300)))]
def c_text(s, c):
    k, t, n = c; z = t.split(b"\0")[0]
    for e in ("hex", "bin", "b58", "b58c", "b43", "b64"):
        for f in "sn": s("dec", e, f, n % 4 if e == "b64" else 0, n, t)
    s("b64hex", 0, t); s("hexb64", 0, t); s("declen", "b58", 0, t); s("scr_addr", 0, "c", z); s("scr_address", 0, 0, 80); s("scr_addr", 0, "s", t); s("prv_fromwif", 1, "n", t) if s("new", 1, "prv") is not None else 0; s("prv_fromwif", 1, "c", z); s("prv_wifctor", 2, t); s("hd_str", 3, z); s("hp_str", 4, z); s("hd_seed", 5, b"0123456789abcdef", 0); s("hd_xpub", 6, 5); s("hd_path", 7, 5, z); s("hp_path", 8, 6, z); s("mn_check", z); s("mn_toentropy", "n", n, t); s("mn_toentropy", "s", n, t); s("dcheck", "n", n, t); s("dcheck", "s", n, t)
    s("new", 9, "psbt"); s("psbt_b64", 9, t); s("dump", 9); s("copy", 10, 9); s("txin", 11, "c", z, 1, 2); s("txout", 12, "ac", 5, z); s("dump", 11); s("dump", 12); s("full", 3); s("full", 4)
    for i, q in enumerate(["sc", "pt", "pub", "prv", "hprv", "hpub", "sig", "ssig", "scr", "wit", "txin", "txout", "tx", "psbt", "etx"]): s("new", 20, q); s("fromstr", 20, z); s("dump", 20); s("full", 20); s("new", 20, q); s("fromstrn", 20, t); s("dump", 20); s("parse", 20, "shex", t); s("dump", 20)
OTHERS = ["C02", "C03", "C06", "C09", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C20", "C21", "C22", "C25"]
def c_others(s, c): BO.perform(s, c, True)
SUBS = [Sub("mutated", mutated(), c_mut, lambda c: c[0] if len(c[2]) > 4 else None, n=4800), Sub("text", texts(), c_text, lambda c: c[0] if len(c[1]) > 4 else None, n=1200), Sub("others", BO.cases(OTHERS, ("C12/seed", "C12/mixed", "C12/generate")), c_others, lambda c: c[0], n=1200), Sub("history", HI.histories(mx=18), lambda s, c: HI.Model(s, c, verify=False).run(), HI.label, n=1200)]
# ------------------------------------------------------------------ coverage-guided stage
ROOT = R.XPrv.seed(b"\1\2\3" + bytes(13))
# (kind, weight): one process each; the small kinds share processes
PLAN = [["psbt"], ["psbt"], ["tx"], ["etx"], ["text"], ["text"], ["wit", "txin", "hprv", "sig"], ["scr", "txout", "hpub", "pub"]]
TIME = {"quick": 55, "thorough": 2400}
ENV = dict(ASAN_OPTIONS=ASAN.replace("max_allocation_size_mb=64", "max_allocation_size_mb=32").replace("max_malloc_fill_size=65536", "max_malloc_fill_size=8192").replace("max_free_fill_size=65536", "max_free_fill_size=8192").replace("exitcode=99", "exitcode=77"), PATH=os.environ.get("PATH", "/usr/bin:/bin"), LC_ALL="C")
def corpus(kind, seed, n):
    """generated valid objects as the starting corpus"""
    import hypothesis as H
    from hypothesis import settings, HealthCheck, Phase
    out = []
    def one(draw):
        if kind == "text":
            t = draw(texts()); i = {"hexish": 0, "b58": 3, "addr": 6, "wif": 7, "xprv": 8, "xpub": 8, "path": 9, "mn": 11, "desc": 12, "psbt64": 13, "raw": draw(st.integers(0, 15))}[t[0]]
            if t[0] == "path" and draw(st.booleans()): i = 10
            if t[0] == "hexish": i = draw(st.sampled_from([0, 1, 4, 5, 14, 15]))
            return bytes([i + 16 * draw(st.integers(0, 15)), t[2] % 256]) + t[1]
        if kind == "psbt" and draw(st.booleans()): b = PG.ser(draw(PG.wallets(maxin=2, maxout=2, root=ROOT))["psbt"])
        elif kind == "etx": e = draw(EG.etxs(maxin=3)); e["keys"][0] = [ROOT.k, ROOT.c, 0, bytes(4), 0]; b = EG.ser(e)
        else: b = draw(c18.valid(kind))
        return bytes([draw(st.integers(0, 127)), draw(st.integers(0, 255))]) + b
    def t(data):
        b = one(data.draw)
        if len(b) < 4096: out.append(b)
    f = H.seed(seed)(settings(max_examples=n, deadline=None, database=None, phases=[Phase.generate], suppress_health_check=list(HealthCheck))(H.given(st.data())(t))); f()
    return out
def fuzz_exe(): return B.build("fuzz", "fuzz.cpp", ["-fsanitize=fuzzer"])
def run_one(kind, data, exe=None, runs=3):
    """message when the input fails every time"""
    exe = exe or fuzz_exe(); d = tempfile.mkdtemp(prefix="c23r"); msg = None
    try:
        p = os.path.join(d, "in"); open(p, "wb").write(data)
        for _ in range(runs):
            r = subprocess.run([exe, "-timeout=40", "-rss_limit_mb=6000", "-malloc_limit_mb=0", p], cwd=d, env=dict(ENV, FUZZ_KIND=kind), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if r.returncode == 0: return None
            t = r.stdout.decode("latin1"); keep = [l.strip() for l in t.splitlines() if "ERROR:" in l or "runtime error" in l or l.strip().startswith(("#0 ", "#1 ", "#2 ", "#3 ", "#4 ")) or l.startswith("SUMMARY")]; msg = " / ".join(keep[:9])[:900] or "exit %d" % r.returncode
        return msg
    finally: shutil.rmtree(d, ignore_errors=True)
def replay_fuzz(sub, data): return run_one(sub.split(":")[1], data)
def extra(tier, seed, t0):
    exe = fuzz_exe(); os.makedirs(B.BUILD, exist_ok=True); work = tempfile.mkdtemp(prefix="c23", dir=B.BUILD); total = float(os.environ.get("VERIF_FUZZ_S", TIME[tier])); res = []; viol = None
    try:
        from concurrent.futures import ThreadPoolExecutor
        corp = {}
        def lane(n):
            o = []
            for k in PLAN[n]:
                d = os.path.join(work, "%d_%s" % (n, k)); os.makedirs(d + "/c"); 
                for i, b in enumerate(corp[k]): open("%s/c/s%d" % (d, i), "wb").write(b)
                t = total / len(PLAN[n])
                r = subprocess.run([exe, "-seed=%d" % (seed * 100 + n + 1), "-max_total_time=%d" % t, "-max_len=4096", "-len_control=0", "-timeout=40", "-rss_limit_mb=3500", "-malloc_limit_mb=0", "-print_final_stats=1", "-artifact_prefix=%s/" % d, "-use_value_profile=%d" % (n % 2), d + "/c"], cwd=d, env=dict(ENV, FUZZ_KIND=k), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t + 400)
                out = r.stdout.decode("latin1"); m = re.search(r"number_of_executed_units:\s*(\d+)", out); cov = re.findall(r"cov: (\d+)", out)
                arts = [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.startswith(("crash-", "timeout-", "oom-"))]; kept = len(os.listdir(d + "/c")) - len(corp[k])
                o.append(dict(kind=k, runs=int(m.group(1)) if m else 0, cov=int(cov[-1]) if cov else 0, new=max(0, kept), arts=arts, rc=r.returncode, tail=out[-1500:], dir=d))
                if arts: break
            return o
        for k in sorted({k for l in PLAN for k in l}): corp[k] = corpus(k, seed, 150 if k in ("psbt", "tx", "etx", "text") else 40)
        with ThreadPoolExecutor(8) as ex:
            for l in ex.map(lane, range(len(PLAN))): res += l
        for r in res:
            for a in r["arts"]:
                data = open(a, "rb").read(); msg = run_one(r["kind"], data, exe)
                if not msg: continue      # did not reproduce (a slow moment of the machine, memory pressure)
                data = shrink(r["kind"], data, exe, 40); viol = ("fuzz:" + r["kind"], data.hex(), run_one(r["kind"], data, exe, 1) or msg); break
            if viol: break
        dead = [r for r in res if r["rc"] not in (0,) and not r["arts"]]
        if dead and not viol: raise RuntimeError("libFuzzer ended unexpectedly: %s" % dead[0]["tail"])
        ex = dict(evaluations=sum(r["runs"] for r in res), distinct_nontrivial=sum(r["new"] for r in res), fuzzing=[dict(kind=r["kind"], runs=r["runs"], edges=r["cov"], new_inputs=r["new"]) for r in res])
        return viol, ex
    finally: shutil.rmtree(work, ignore_errors=True)
def shrink(kind, data, exe, budget):
    """greedy removal of blocks while the failure stays"""
    t = time.monotonic() + budget; step = max(1, (len(data) - 2) // 2)
    while step >= 1 and time.monotonic() < t:
        i = 2; hit = False
        while i < len(data) and time.monotonic() < t:
            c = data[:i] + data[i + step:]
            if run_one(kind, c, exe, 1): data = c; hit = True
            else: i += step
        if step == 1 and not hit: break
        step = max(1, step // 2) if not hit or step > 1 else 1
    return data
