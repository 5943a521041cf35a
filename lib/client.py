"""Talks to the command server (one fresh process per session); every call is recorded so that a failure can be replayed."""
import ctypes, json, os, select, signal, subprocess, tempfile, time
class Violation(Exception):
    """the property does not hold"""
class Crash(Violation):
    """the library crashed or did not return"""
class HarnessError(BaseException):
    """the machinery was misused (never a verdict)"""
TIMEOUT = 40.0
ASAN = "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=64:malloc_fill_byte=165:max_malloc_fill_size=65536:free_fill_byte=90:max_free_fill_size=65536:quarantine_size_mb=16:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:symbolize=1:handle_abort=1"
def _arg(a):
    if isinstance(a, (bytes, bytearray)): return a.hex() if a else "-"
    if isinstance(a, bool): return "1" if a else "0"
    if isinstance(a, int): return str(a)
    if a == "": return "-"
    return a
_libc = ctypes.CDLL(None)
def _pdeath(): _libc.prctl(1, signal.SIGKILL)   # the server never outlives its worker
class Server:
    def __init__(self, exe):
        self.exe, self.p, self.cases, self.slot = exe, None, [], 0
        self.errf = None
    def start(self):
        self.stop()
        self.errf = tempfile.TemporaryFile()
        env = {"ASAN_OPTIONS": ASAN, "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C"}
        if os.environ.get("ASAN_SYMBOLIZER_PATH"): env["ASAN_SYMBOLIZER_PATH"] = os.environ["ASAN_SYMBOLIZER_PATH"]
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, bufsize=0, env=env, close_fds=True, preexec_fn=_pdeath)
        self.buf = b""; self.cases = []
    def stop(self):
        if self.p:
            try: self.p.kill()
            except OSError: pass
            self.p.stdin.close(); self.p.stdout.close(); self.p.wait(); self.p = None
        if self.errf: self.errf.close(); self.errf = None
    def _err(self):
        self.errf.seek(0); t = self.errf.read().decode("latin1")
        keep = [l for l in t.splitlines() if l.startswith("SUMMARY") or "ERROR: AddressSanitizer" in l or "runtime error" in l or l.strip().startswith(("#0 ", "#1 ", "#2 ", "#3 ", "#4 "))]
        return " / ".join(k.strip() for k in keep[:9])[:900]
    def calls(self, reqs):
        """pipelined calls: send all requests, read all replies"""
        if not self.p: self.start()
        lines = []
        for r in reqs: lines.append(" ".join([_arg(x) for x in r]))
        out = []
        # keep the pipe from filling up: at most 64 KB of requests and ~40 replies in flight
        i = 0
        while i < len(lines):
            j, n = i, 0
            while j < len(lines) and (j == i or (j - i < 24 and n + len(lines[j]) < 16000)): n += len(lines[j]) + 1; j += 1
            data = ("\n".join(lines[i:j]) + "\n").encode()
            try: self.p.stdin.write(data) if len(data) < 65000 else self._bigwrite(data)
            except (BrokenPipeError, ValueError): pass
            for k in range(i, j): out.append(self._read(lines[k]))
            i = j
        return out
    def _bigwrite(self, data):
        mv = memoryview(data)
        while len(mv): mv = mv[os.write(self.p.stdin.fileno(), mv[:65536]):]
    def _read(self, line):
        t0 = time.monotonic()
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], 1.0)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 20)
                if not d:
                    self.p.wait(); rc = self.p.returncode; e = self._err(); self.stop()
                    raise Crash("the library crashed (exit %s) in: %s -- %s" % (rc, line[:300], e))
                self.buf += d
            elif time.monotonic() - t0 > TIMEOUT:
                self.stop(); raise Crash("the call does not return (%d s): %s" % (TIMEOUT, line[:300]))
        l, self.buf = self.buf.split(b"\n", 1)
        r = json.loads(l)
        if isinstance(r, dict) and "harness_error" in r: raise HarnessError("%s in %s" % (r["harness_error"], line[:300]))
        if isinstance(r, dict) and "incoherent" in r: raise Violation("two forms of the same call (isValid and bool, toString and std::string, serialize with other integer types) give different results: %s" % line[:300])
        return r
    def __call__(self, *req): return self.calls([req])[0]
def expect(cond, msg, *a):
    if not cond: raise Violation(msg % a if a else msg)
def eq(got, want, what):
    if got != want: raise Violation("%s: got %s, expected %s" % (what, str(got)[:600], str(want)[:600]))
