#!/usr/bin/env python3
"""Rebuilds the extension from /repo's working tree with the simulation kernel linked in.

Nothing is written into /repo. Output goes to /verif/build/<hash>/pointless.so, keyed by the content of every input.
"""
import concurrent.futures, fcntl, hashlib, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
PY = "/opt/vp/venv/bin/python"

WRAPS = """malloc calloc realloc free strdup strndup reallocarray posix_memalign aligned_alloc
open open64 openat creat mkstemp mkstemp64 mkostemp mkstemps mktemp write pwrite pwrite64 writev read pread pread64 lseek lseek64
fsync fdatasync syncfs sync msync sync_file_range fchmod chmod close dup rename renameat renameat2 unlink unlinkat remove link
ftruncate ftruncate64 truncate posix_fallocate fstat fstat64 stat stat64 lstat lstat64 access fopen fopen64 fdopen fileno fileno_unlocked
mmap mmap64 munmap madvise PyEval_SaveThread PyEval_RestoreThread""".split()


def files_under(d, exts):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(r, f))
    return out


def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def judy_inputs():
    """tracked Judy sources only (generated tables and objects are rebuilt)"""
    base = os.path.join(REPO, "judy-1.0.5", "src")
    out = []
    for p in files_under(base, (".c", ".h")) + [os.path.join(base, "sh_build")]:
        if os.path.islink(p) or re.search(r"Judy[1L]Tables(Gen)?\.c$", p) and not p.endswith("TablesGen.c"):
            continue
        if os.path.exists(p):
            out.append(p)
    return out


def run(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise SystemExit("build step failed: %s\n%s" % (" ".join(cmd) if isinstance(cmd, list) else cmd, r.stdout[-6000:]))
    return r.stdout


def build_judy():
    ins = judy_inputs()
    key = sha(ins, "judy2")
    lib = os.path.join(BUILD, "judy-" + key, "libJudy.a")
    if os.path.exists(lib):
        return lib, key
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="judy-tmp-", dir=BUILD)
    try:
        src = os.path.join(tmp, "src")
        shutil.copytree(os.path.join(REPO, "judy-1.0.5", "src"), src, symlinks=True, ignore=shutil.ignore_patterns("*.o", "*.a", "Judy?Tables.c", "Judy?TablesGen"))
        env = dict(os.environ, CC="gcc", COPT="-DJU_64BIT -O0 -g -fPIC -fno-strict-aliasing -fno-aggressive-loop-optimizations")
        run(["sh", "-e", "./sh_build"], cwd=src, env=env)
        os.makedirs(os.path.dirname(lib), exist_ok=True)
        shutil.copy(os.path.join(src, "libJudy.a"), lib + ".tmp")
        os.rename(lib + ".tmp", lib)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return lib, key


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build()


def ext_sources():
    """the source list of setup.py, read from its text"""
    t = open(os.path.join(REPO, "setup.py")).read()
    m = re.search(r"sources\s*=\s*\[(.*?)\]", t, re.S)
    return re.findall(r"'([^']+\.c)'", m.group(1))


def _build():
    lib, jkey = build_judy()
    srcs = ext_sources()
    ins = [os.path.join(REPO, s) for s in srcs] + files_under(os.path.join(REPO, "include"), (".h",)) + [os.path.join(REPO, "pointless_ext.h"), os.path.join(HERE, "simk.c"), os.path.abspath(__file__)]
    ins += [p for p in files_under(os.path.join(REPO, "src"), (".h",)) + files_under(os.path.join(REPO, "python"), (".h",))]
    key = sha(ins, "ext1" + jkey)
    out = os.path.join(BUILD, "ext-" + key)
    so = os.path.join(out, "simpointless.so")
    if os.path.exists(so):
        return so
    inc = run([PY, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"]).strip()
    tmp = tempfile.mkdtemp(prefix="ext-tmp-", dir=BUILD)
    try:
        base = ["gcc", "-c", "-g", "-O1", "-fPIC", "-fno-omit-frame-pointer", "-DNDEBUG", "-D_GNU_SOURCE", "-w",
                "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "judy-1.0.5", "src"), "-I" + inc]
        jobs = []
        for s in srcs:
            o = os.path.join(tmp, s.replace("/", "_") + ".o")
            jobs.append((base + ["-std=c99", "-fsanitize=address", "-o", o, os.path.join(REPO, s)], o))
        o = os.path.join(tmp, "simk.o")
        jobs.append((base + ["-std=gnu11", "-O2", "-o", o, os.path.join(HERE, "simk.c")], o))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(lambda j: run(j[0]), jobs))
        cmd = ["gcc", "-shared", "-g", "-fsanitize=address", "-o", os.path.join(tmp, "simpointless.so")] + [j[1] for j in jobs]
        cmd += ["-Wl,--wrap=" + w for w in WRAPS] + ["-Wl,-Bsymbolic", lib, "-lm", "-lpthread"]
        run(cmd)
        os.makedirs(out, exist_ok=True)
        os.rename(os.path.join(tmp, "simpointless.so"), so)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep the cache small
    olds = sorted((d for d in os.listdir(BUILD) if d.startswith("ext-") and not d.startswith("ext-tmp")), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in olds[:-6]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    return so


if __name__ == "__main__":
    print(build())
