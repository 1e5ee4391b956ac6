"""Drives the Rust shims (real code, public API) and the z3 oracle."""
import subprocess, os, select, threading, queue, time, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "build", "target"))


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
             CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0")
    e["RUSTFLAGS"] = "--cfg verif_hooks --cap-lints allow"
    return e


class BuildError(Exception):
    pass


def build(name):
    d = os.path.join(VERIF, "runner", name)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout[-6000:])
    return os.path.join(TARGET, "debug", "verif-run-" + name)


class Shim:
    """One worker process.  ask() -> (tag, payload); a dead or slow worker is restarted."""

    def __init__(self, exe, timeout=20.0, cwd=None, mem_mb=6000):
        self.exe, self.timeout, self.cwd, self.mem = exe, timeout, cwd, mem_mb
        self.p, self.printed = None, []

    def start(self):
        import resource
        lim = self.mem * 1024 * 1024

        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, cwd=self.cwd, preexec_fn=pre)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except Exception:
                    pass
            self.p = None

    def ask(self, op, *texts):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        self.printed = []
        line = op + "".join(" " + t.encode().hex() for t in texts) + "\n"
        try:
            self.p.stdin.write(line.encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            self.stop()
            return ("DIED", "")
        end = time.time() + self.timeout
        fd = self.p.stdout.fileno()
        while True:
            while b"\n" in self.buf:
                l, self.buf = self.buf.split(b"\n", 1)
                if not l.startswith(b"@@ "):
                    self.printed.append(l.decode("utf-8", "replace"))
                else:
                    f = l.decode().split(" ")
                    return (f[1], *[bytes.fromhex(x).decode() for x in f[2:]])
            left = end - time.time()
            if left <= 0:
                self.stop()
                return ("TIMEOUT", "")
            r, _, _ = select.select([fd], [], [], left)
            if r:
                d = os.read(fd, 1 << 16)
                if not d:
                    rc = self.p.wait()
                    self.stop()
                    return ("DIED", "exit %s" % rc)
                self.buf += d


class Z3:
    """z3 -in as an oracle: check(text) -> sat|unsat|unknown for a standalone script body."""

    def __init__(self, timeout_ms=4000, exe="z3"):
        self.t, self.exe = timeout_ms, exe
        self.p = None

    def check(self, smt, extra="", model=None):
        smt = "(reset)\n(set-option :timeout %d)\n%s\n%s\n(check-sat)\n(echo \"@@done\")\n" % (self.t, smt, extra)
        for _ in range(2):
            if self.p is None or self.p.poll() is not None:
                self.p = subprocess.Popen([self.exe, "-in"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, text=True)
            try:
                self.p.stdin.write(smt)
                self.p.stdin.flush()
            except BrokenPipeError:
                self.p = None
                continue
            out = []
            while True:
                l = self.p.stdout.readline()
                if not l:
                    self.p = None
                    break
                l = l.strip()
                if l.strip('"') == "@@done":
                    r = [x for x in out if x in ("sat", "unsat", "unknown", "timeout")]
                    if any("error" in x for x in out):
                        return "error: " + " ".join(out)[:500]
                    return r[-1] if r else "unknown"
                out.append(l)
        return "unknown"


def pmap(fn_factory, items, workers=8, deadline=None):
    """Run items through `workers` threads; each thread gets its own fn from fn_factory()."""
    q = queue.Queue()
    for i, it in enumerate(items):
        q.put((i, it))
    res, lock = {}, threading.Lock()

    def work():
        fn, close = fn_factory()
        try:
            while True:
                if deadline and time.time() > deadline:
                    return
                try:
                    i, it = q.get_nowait()
                except queue.Empty:
                    return
                r = fn(it)
                with lock:
                    res[i] = r
        finally:
            close()
    ts = [threading.Thread(target=work) for _ in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res
