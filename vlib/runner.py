"""Builds the harness against /repo's current sources and runs exploration tasks on worker processes."""
import fcntl, hashlib, json, os, queue, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    return e


def source_hash():
    """content of everything the harness is compiled from; file times are not trusted"""
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "symx", "src")):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(VERIF, "symx", f) for f in ("Cargo.toml", "Cargo.lock")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build():
    """returns {'dev': path, 'release': path}; raises RuntimeError if the tree does not build"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = source_hash()
        stamp = os.path.join(BUILD, "stamp")
        bins = {"dev": os.path.join(BUILD, "target", "debug", "symx"),
                "release": os.path.join(BUILD, "target", "release", "symx")}
        ok = os.path.exists(stamp) and open(stamp).read() == key and all(os.path.exists(b) for b in bins.values())
        if not ok:
            if os.path.exists(stamp):
                os.unlink(stamp)
            cwd = os.path.join(VERIF, "symx")
            if os.path.isdir(os.path.join(BUILD, "target")):
                for extra in ([], ["--release"]):
                    subprocess.run(["cargo", "clean", "--offline", "-p", "artlr_syntax", "-p", "symx"] + extra, cwd=cwd, env=env(),
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            procs = []
            for extra in ([], ["--release"]):
                r = subprocess.run(["cargo", "build", "--offline", "-q"] + extra, cwd=cwd, env=env(),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    raise RuntimeError("build failed:\n" + r.stdout[-4000:])
            with open(stamp, "w") as f:
                f.write(key)
        return bins, key


class Task:
    __slots__ = ("id", "prop", "seed", "flags", "grammar", "tokens", "max_viol", "samples", "every", "smt", "group")

    def __init__(self, prop, grammar, tokens="", flags="", seed=1, group=""):
        self.prop, self.grammar, self.tokens, self.flags, self.seed, self.group = prop, grammar, tokens, flags, seed, group
        self.id, self.max_viol, self.samples, self.every, self.smt = 0, 4, 0, 1, 0


def run_tasks(binary, tasks, deadline, on_result, workers=None, z3_ms=20000, task_ms=None):
    """Feeds `tasks` to worker processes. on_result(task, dict) returns True to stop. Returns tasks never run."""
    workers = workers or min(os.cpu_count() or 4, 8)
    q = queue.Queue()
    for t in tasks:
        q.put(t)
    stop = threading.Event()
    lock = threading.Lock()
    tmp = os.path.join(BUILD, "run-%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    left = []
    procs = set()

    def work(n):
        cur = os.path.join(tmp, "cur%d" % n)
        proc = None

        def start():
            p = subprocess.Popen([binary, "worker", cur], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, text=True, bufsize=1)
            procs.add(p)
            return p
        while not stop.is_set():
            try:
                t = q.get_nowait()
            except queue.Empty:
                break
            ms = int((deadline - time.time()) * 1000)
            if ms < 500:
                with lock:
                    left.append(t)
                continue
            if task_ms:
                ms = min(ms, task_ms)
            if proc is None:
                proc = start()
            open(cur, "w").close()
            line = "\t".join(str(x) for x in (t.id, t.prop, t.seed, t.flags, t.grammar, t.tokens, ms, t.every, t.samples,
                                              t.max_viol, t.smt, z3_ms))
            # a worker that neither answers nor ends is ended here; its own limits are much lower
            timer = threading.Timer(ms / 1000 + 90, proc.kill)
            timer.start()
            out = ""
            try:
                proc.stdin.write(line + "\n")
                proc.stdin.flush()
                out = proc.stdout.readline()
            except (BrokenPipeError, OSError):
                pass
            timer.cancel()
            if out:
                r = json.loads(out)
                if r["error"] == "hang":
                    proc.kill()
                    proc.wait()
                    proc = None
            else:
                code = proc.wait()
                proc = None
                text = open(cur).read() if os.path.exists(cur) else ""
                r = {"id": t.id, "crash": code, "input": text}
            with lock:
                if stop.is_set():
                    break
                if on_result(t, r):
                    stop.set()
        if proc is not None:
            if stop.is_set():
                proc.kill()
            else:
                proc.stdin.close()
            proc.wait()

    ths = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    for t in ths:
        t.start()
    # a stop must not wait for workers that are in the middle of long tasks
    for t in ths:
        while t.is_alive():
            t.join(0.2)
            if stop.is_set():
                break
        if stop.is_set():
            break
    if stop.is_set():
        for p in list(procs):
            p.kill()
        for t in ths:
            t.join(5)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    return left


def native(binary, text, seed, kind, timeout=25):
    """the observation of a concrete input on the real code with ordinary symbols"""
    d = os.path.join(BUILD, "run-native-%d-%d" % (os.getpid(), threading.get_ident()))
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "input")
    try:
        with open(f, "w") as h:
            h.write(text)
        try:
            p = subprocess.run([binary, "native", f, str(seed), kind], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return {"crash": "does not return (%d s)" % timeout}
        if p.returncode != 0 or not p.stdout:
            return {"crash": "ended by %s %s" % (("signal %d" % -p.returncode) if p.returncode < 0 else ("status %d" % p.returncode),
                                                 p.stderr.strip()[-200:])}
        return json.loads(p.stdout)
    finally:
        if os.path.exists(f):
            os.unlink(f)
        os.rmdir(d)


def batch(binary, texts, kind, timeout=120):
    p = subprocess.run([binary, "batch", kind], input="".join(t + "end\n" for t in texts), stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    return [json.loads(l) for l in p.stdout.splitlines()]
