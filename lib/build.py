"""Builds the harness binaries from /repo's current working tree into /verif/build (git-ignored)."""
import hashlib, os, subprocess, glob, shutil, sys, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("UBTC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
COMMON = ["-I" + REPO + "/src", "-DUSE_STDONLY", "-w", "-g1", "-fno-omit-frame-pointer"]
VARIANTS = {
    # AddressSanitizer + array bounds; uninitialised stack memory gets a fixed pattern so that results are repeatable
    "asan": dict(cc="clang", cxx="clang++", flags=["-O1", "-fsanitize=address,bounds,return,unreachable", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern", "-fstrict-flex-arrays=3"]),
    # coverage-guided fuzzing
    "fuzz": dict(cc="clang", cxx="clang++", flags=["-O1", "-fsanitize=fuzzer-no-link,address,bounds,return,unreachable", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern", "-fstrict-flex-arrays=3"]),
}
def sources():
    s = REPO + "/src"
    return sorted(glob.glob(s + "/*.cpp") + glob.glob(s + "/utility/*.c") + glob.glob(s + "/utility/*.cpp") + glob.glob(s + "/utility/trezor/*.c"))
def tree_hash(variant, mains):
    h = hashlib.sha256()
    for r, d, f in sorted(os.walk(REPO + "/src")):
        d.sort()
        for n in sorted(f):
            p = os.path.join(r, n); h.update(p.encode()); h.update(open(p, "rb").read())
    for m in sorted(set(mains) | set(glob.glob(os.path.join(VERIF, "harness", "*")))): h.update(open(m, "rb").read())
    h.update(repr((VARIANTS[variant], COMMON)).encode())
    return h.hexdigest()[:16]
class BuildError(Exception): pass
def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
def build(variant, main, link=()):
    """returns the path of the executable made of `main` and the library sources"""
    main = os.path.join(VERIF, "harness", main)
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant + "-" + os.path.splitext(os.path.basename(main))[0] + "-" + tree_hash(variant, [main]))
    exe = os.path.join(d, "run")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        for old in glob.glob(os.path.join(BUILD, variant + "-" + os.path.splitext(os.path.basename(main))[0] + "-*")): shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        jobs, objs = [], []
        for i, s in enumerate([main] + sources()):
            o = os.path.join(d, "%d_%s.o" % (i, os.path.basename(s))); objs.append(o)
            if s.endswith(".c"): jobs.append([v["cc"], "-c", s, "-o", o] + v["flags"] + COMMON)
            else: jobs.append([v["cxx"], "-std=c++17", "-c", s, "-o", o] + v["flags"] + COMMON)
        with ThreadPoolExecutor(8) as ex: list(ex.map(_run, jobs))
        _run([v["cxx"]] + v["flags"] + list(link) + objs + ["-o", exe + ".tmp"])
        for o in objs: os.unlink(o)
        os.rename(exe + ".tmp", exe)
    return exe
if __name__ == "__main__":
    print(build("asan", "server.cpp"))
