"""Starting and talking to a zygote (see runner.py)."""
import os, subprocess, json, re, signal

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/vp/venv/bin/python"
_aslr = None


def asan_lib():
    return subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()


def no_aslr_prefix():
    """address-space randomisation is a source of nondeterminism (tables keyed by object address): switch it off where permitted"""
    global _aslr
    if _aslr is None:
        try:
            ok = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        except OSError:
            ok = False
        _aslr = ["setarch", "-R"] if ok else []
    return _aslr


class Zygote:
    def __init__(self, so, hashseed="0", asan=None):
        self.so, self.hashseed = so, hashseed
        self.asan = asan or asan_lib()
        self.p = None
        self.start()

    def start(self):
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LD_PRELOAD": self.asan, "PYTHONMALLOC": "malloc", "PYTHONHASHSEED": self.hashseed, "PYTHONDONTWRITEBYTECODE": "1",
               "PYTHONNOUSERSITE": "1", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent",
               "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:symbolize=%d:handle_abort=0:disable_coredump=1:detect_odr_violation=0:quarantine_size_mb=64:max_malloc_fill_size=0:allow_user_segv_handler=0:verify_asan_link_order=1:print_legend=0:print_full_thread_history=0" % ("SIM_BT" in os.environ)}
        for v in ("SIM_CPU", "SIM_BT"):
            if v in os.environ:
                env[v] = os.environ[v]
        self.p = subprocess.Popen(no_aslr_prefix() + [PY, "-s", os.path.join(HERE, "runner.py"), self.so], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd="/")
        self.n = 0

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.stdout.close()
            except OSError:
                pass
            self.p.kill()
            self.p.wait()
            self.p = None

    def ask(self, req):
        if self.p is None:
            self.start()
        self.n += 1
        first = "seed" if "seed" in req else "case"
        req = {first: req[first], **req}
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = b""
        if not line:
            self.close()
            raise RuntimeError("the zygote died")
        res = json.loads(line)
        classify(res, self.so)
        return res


_sym = {}


def symbol(so, off):
    key = (so, off)
    if key not in _sym:
        try:
            o = subprocess.run(["addr2line", "-f", "-s", "-e", so, off], stdout=subprocess.PIPE, text=True).stdout.split("\n")
            _sym[key] = "%s (%s)" % (o[0], o[1])
        except OSError:
            _sym[key] = off
    return _sym[key]


def classify(res, so):
    """turn a dead child into a violation"""
    if "harness" in res or "crash" not in res:
        return
    st, err = res["crash"], res.get("stderr", "")
    frames = [symbol(so, m) for m in re.findall(r"simpointless\.so\+(0x[0-9a-f]+)\)", err)[:12]]
    frames = [f for f in frames if not f.startswith(("__wrap_", "py_", "??", "fill"))]
    top = frames[0].split(" ")[0] if frames else ""
    m = re.search(r"ERROR: AddressSanitizer: (?:attempting )?([\w-]+)", err)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 99 and m:
        cls, msg = "asan:" + m.group(1), "%s; stack: %s" % (m.group(0), " < ".join(frames[:6]))
        if m.group(1) == "SEGV":
            cls = "signal:11"
    elif os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s in (signal.SIGPROF, signal.SIGALRM):
            cls, msg = "hang", "the operation did not finish within the CPU limit"
        else:
            cls, msg = "signal:%d" % s, "killed by signal %d %s" % (s, err[-300:])
    else:
        cls, msg = "exit", "the process was terminated (exit status %d) by the library %s" % (os.WEXITSTATUS(st), err[-300:])
    res["v"] = [cls, msg]
    res["top"] = top
    res["dead"] = 1
