"""Runs one property's generated checks: 8 worker processes, Hypothesis for generation and shrinking, replay before any verdict."""
import hashlib, importlib, json, queue, multiprocessing as mp, os, sys, time, traceback, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props"))
import build as B
from client import Server, Violation, HarnessError
VERIF = B.VERIF
import warnings; warnings.filterwarnings("ignore")
SHARDS = 8
SESSION = 250          # cases per server process
SHRINK_S = 60          # how long a failure may be shrunk
CAP = {"quick": 420, "thorough": 3 * 3600}
class Stop(BaseException): pass
class Sub:
    def __init__(self, name, strategy, check, classify=None, n=2000, examples=(), thorough=30):
        self.name, self.strategy, self.check, self.n, self.examples, self.thorough = name, strategy, check, n, list(examples), thorough
        self.classify = classify or (lambda c: "case")   # label of a non-trivial case, or None
def enc(o):
    if isinstance(o, (bytes, bytearray)): return {"$b": bytes(o).hex()}
    if isinstance(o, dict): return {k: enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)): return [enc(x) for x in o]
    return o
def dec(o):
    if isinstance(o, dict): return bytes.fromhex(o["$b"]) if set(o) == {"$b"} else {k: dec(v) for k, v in o.items()}
    if isinstance(o, list): return [dec(x) for x in o]
    return o
def dumps(c): return json.dumps(enc(c), sort_keys=True)
_SUBS = {}
def subs_of(pid):
    if pid not in _SUBS: l = list(importlib.import_module(pid.lower()).SUBS); _SUBS[pid] = {s.name: s for s in l + sequence(l)}
    return _SUBS[pid]
def sequence(subs):
    """a further sub-test: cases of all the others in turn (accepted and refused input, different keys, ...), so that nothing one call leaves behind may show in another"""
    from hypothesis import strategies as st
    l = {s.name: s for s in subs if s.n >= 0.04 * max(x.n for x in subs)}; item = st.one_of(*[s.strategy.map(lambda c, n=s.name: [n, c]) for s in l.values()])
    def check(srv, c):
        for k, (name, case) in enumerate(c):
            if k: srv("reset")
            try: l[name].check(srv, case)
            except Violation as v: raise Violation("step %d (%s) of %s: %s" % (k + 1, name, [x[0] for x in c], v))
    return [Sub("sequence", st.lists(item, min_size=2, max_size=6), check, lambda c: "%d steps" % len(c) if len({dumps(x) for x in c}) > 1 else None, n=max(40, sum(s.n for s in subs) // 40))]
def run_case(sub, srv, case):
    """one evaluation; a failed expectation or a crash/hang of the library raises Violation"""
    srv("reset")
    sub.check(srv, case)
def replay_list(pid, exe, items):
    """fresh server; run the items in order; the message of the violation raised by the last item, or None"""
    subs = subs_of(pid); srv = Server(exe); msg = None
    try:
        for k, (name, case) in enumerate(items):
            try: run_case(subs[name], srv, dec(json.loads(json.dumps(enc(case)))))
            except Violation as v:
                if k == len(items) - 1: msg = str(v)
                else: return None
    finally: srv.stop()
    return msg
def independent(H):
    """Hypothesis follows each generated case by up to five variants that repeat parts of it; most workers draw independent cases instead"""
    from hypothesis.internal.conjecture import engine
    if hasattr(engine.ConjectureRunner, "generate_mutations_from"): engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
class Worker:
    def __init__(self, pid, exe, tier, seed, shard, q, t_end):
        self.pid, self.exe, self.tier, self.seed, self.shard, self.q, self.t_end = pid, exe, tier, seed, shard, q, t_end
        self.srv = Server(exe); self.n = {}; self.seen = {}; self.cls = {}; self.samples = {}; self.fail = None; self.capped = False
    def one(self, sub, case):
        srv = self.srv
        if srv.p is None or len(srv.cases) >= SESSION: srv.start()
        srv.cases.append((sub.name, case))
        self.n[sub.name] = self.n.get(sub.name, 0) + 1
        lab = sub.classify(case)
        if lab:
            h = int.from_bytes(hashlib.sha1((sub.name + dumps(case)).encode()).digest()[:7], "big")
            st = self.seen.setdefault(sub.name, set())
            if h not in st:
                st.add(h)
                k = sub.name + "/" + str(lab); self.cls[k] = self.cls.get(k, 0) + 1
                if len(self.samples.setdefault(sub.name, [])) < 3 and len(st) in (1, 5, 40): self.samples[sub.name].append(case)
        try: run_case(sub, srv, case)
        except Violation as v:
            hist = list(srv.cases)
            srv.stop()
            size = len(dumps(case))
            if self.fail is None: self.fail = dict(sub=sub.name, first=(case, str(v), hist), best=None, t=time.monotonic())
            b = self.fail["best"]
            if b is None or size < b[0]: self.fail["best"] = (size, case, str(v), hist)
            raise
    def run(self):
        import hypothesis as H
        from hypothesis import HealthCheck, Phase, settings
        if self.shard % 4: independent(H)
        subs = list(subs_of(self.pid).values())
        rounds = 1 if self.tier == "quick" else max(s.thorough for s in subs)
        for sub in subs:            # hand-picked edge cases and earlier shrunk failures
            for i, c in enumerate(sub.examples):
                if i % SHARDS == self.shard:
                    try: self.one(sub, c)
                    except Violation: return
        for rnd in range(rounds):
            for sub in subs:
                if rnd >= (1 if self.tier == "quick" else sub.thorough) or sub.n == 0: continue
                if time.monotonic() > self.t_end: self.capped = True; return
                sd = int.from_bytes(hashlib.sha256(("%s/%s/%d/%d/%d" % (self.pid, sub.name, self.seed, self.shard, rnd)).encode()).digest()[:8], "big")
                def t(case):
                    if self.fail is None:
                        if time.monotonic() > self.t_end: raise Stop()
                    elif time.monotonic() > self.fail["t"] + SHRINK_S: raise Stop()
                    self.one(sub, case)
                f = H.given(sub.strategy)(t)
                f = settings(max_examples=max(1, -(-sub.n // SHARDS)), deadline=None, database=None, phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False)(f)
                f = H.seed(sd)(f)
                try: f()
                except Stop: self.capped = self.fail is None
                except HarnessError: raise
                except Exception as e:      # Violation, or Hypothesis' own wrapper around it (Flaky ...)
                    if self.fail is None: raise
                if self.fail: return
                if self.capped: return
    def main(self):
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        err = None
        try: self.run()
        except BaseException: err = traceback.format_exc()
        self.srv.stop()
        self.q.put(dict(shard=self.shard, n=self.n, seen=self.seen, cls=self.cls, samples={k: [enc(c) for c in v] for k, v in self.samples.items()}, capped=self.capped, err=err,
                        fail=None if not self.fail else dict(sub=self.fail["sub"], cands=[(enc(self.fail["best"][1]), self.fail["best"][2], enc(self.fail["best"][3])), (enc(self.fail["first"][0]), self.fail["first"][1], enc(self.fail["first"][2]))])))
def confirm(pid, exe, fail):
    """replays the shrunk case (then the first one, then with its session history) 3 times in fresh servers"""
    for case, msg, hist in fail["cands"]:
        name = fail["sub"]
        plans = [[(name, case)]]
        h = [tuple(x) for x in hist]
        k = 2
        while k < len(h): plans.append(h[-k:]); k *= 4
        if len(h) > 1: plans.append(h)
        for pl in plans:
            pl = [(n, dec(c)) for n, c in pl]
            r = [replay_list(pid, exe, pl) for _ in range(3)]
            if all(r): return pl, r[0]
    return None, None
def load_known(pid):
    """known findings: lines 'known: property=<id> match=<substring of the violation message> -- <what fails>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % pid): out.append(l.strip()[len("known: "):])
    return out
def main(pid, tier):
    t0 = time.monotonic(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    exe = B.build("asan", "server.cpp")
    mod = importlib.import_module(pid.lower())
    q = mp.Queue(); cap = float(os.environ.get("VERIF_CAP", CAP[tier]))
    ws = []
    for s in range(SHARDS):
        w = Worker(pid, exe, tier, seed, s, q, t0 + cap)
        p = mp.Process(target=w.main); p.start(); ws.append(p)
    res, errs, viol = [], [], None
    unrep = 0
    while len(res) < SHARDS:
        try: r = q.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in ws) and q.empty(): errs.append("a worker died without a result: %s" % [p.exitcode for p in ws]); break
            continue
        res.append(r)
        if r["err"]: errs.append(r["err"])
        if r["fail"] and viol is None:
            pl, msg = confirm(pid, exe, r["fail"])
            if pl is None: unrep += 1; print("note: a failure of %s/%s did not reproduce: %s" % (pid, r["fail"]["sub"], r["fail"]["cands"][1][1][:400]), flush=True)
            else:
                viol = (r["fail"]["sub"], pl, msg)
                for p in ws: p.terminate()
                break
    for p in ws: p.join(timeout=20)
    extra = {}
    if viol is None and not errs and hasattr(mod, "extra"):   # a further deciding stage (coverage-guided fuzzing)
        v, extra = mod.extra(tier, seed, t0)
        if v: viol = v
    replay = None
    if viol:
        d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
        body = dict(property=pid, sub=viol[0], items=[[n, enc(c)] for n, c in viol[1]], message=viol[2], seed=seed, tier=tier) if not isinstance(viol[1], str) else dict(property=pid, sub=viol[0], fuzz_input=viol[1], message=viol[2], seed=seed, tier=tier)
        replay = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]))
        json.dump(body, open(replay, "w"), indent=1)
    n, cls, seen, samples = {}, {}, {}, {}
    for r in res:
        for k, v in r["n"].items(): n[k] = n.get(k, 0) + v
        for k, v in r["cls"].items(): cls[k] = cls.get(k, 0) + v
        for k, v in r["seen"].items(): seen.setdefault(k, set()).update(v)
        for k, v in r["samples"].items(): samples.setdefault(k, []).extend(v)
    cov = dict(evaluations=sum(n.values()) + extra.get("evaluations", 0), distinct_nontrivial=sum(len(v) for v in seen.values()) + extra.get("distinct_nontrivial", 0),
               rule=mod.RULE, samples=[{"sub": k, "case": _cut(v[0])} for k, v in samples.items()] + extra.get("samples", []),
               per_subtest={k: dict(evaluations=n[k], distinct_nontrivial=len(seen.get(k, ()))) for k in n}, classes=cls, capped=any(r["capped"] for r in res), unreproduced_failures=unrep)
    for k, v in extra.items():
        if k not in ("evaluations", "distinct_nontrivial", "samples"): cov[k] = v
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.monotonic() - t0, 2), violations=1 if viol else 0),
              open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for l in load_known(pid): print("KNOWN-FINDING: " + l)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.monotonic() - t0))
    if viol:
        print("failing sub-test %s: %s" % (viol[0], viol[2][:3000])); print("case: %s" % json.dumps(enc(viol[1][-1]) if not isinstance(viol[1], str) else viol[1])[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, replay)); sys.stdout.flush(); return 1
    if errs: print("harness error:\n" + errs[0]); return 2
    return 0
def _cut(c):
    s = json.dumps(c)
    return c if len(s) < 4000 else s[:4000] + "..."
def replay_file(path):
    b = json.load(open(path)); pid = b["property"]
    if "fuzz_input" in b:
        v = importlib.import_module(pid.lower()).replay_fuzz(b["sub"], bytes.fromhex(b["fuzz_input"]))
    else: v = replay_list(pid, B.build("asan", "server.cpp"), [(n, dec(c)) for n, c in b["items"]])
    if v: print("reproduced: " + v); print("VIOLATION property=%s replay=%s" % (pid, path)); return 1
    print("not reproduced: the property holds on this input"); return 0
