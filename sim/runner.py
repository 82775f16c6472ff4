"""The zygote: an interpreter under the address sanitiser with the rebuilt library and the simulation kernel loaded once.

Every request line on stdin is one case (or one seed to generate a case from). A forked child runs it, so each run starts from the
same pristine process image; the parent reports the outcome, including crashes, sanitiser reports, exits and CPU-time exhaustion.
"""
import sys, os, json, gc, signal, importlib.machinery, importlib.util, random, threading, struct, resource, faulthandler

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
so = sys.argv[1]
CPU = float(os.environ.get("SIM_CPU", "20"))


def load(name):
    l = importlib.machinery.ExtensionFileLoader(name, so)
    s = importlib.util.spec_from_file_location(name, so, loader=l)
    m = importlib.util.module_from_spec(s)
    l.exec_module(m)
    sys.modules[name] = m
    return m


simk = load("simk")
P = load("pointless")
import engine, vals, acts, props, fsworld, bisect, math
SCN = {"fsworld": fsworld}
for n in ("damage", "handles", "primvec", "bitvec", "iters", "leak"):
    try:
        SCN[n] = __import__(n)
    except ModuleNotFoundError as e:
        if e.name != n:
            raise


def one(req):
    """in the child"""
    prof = props.PROFILES[req["prop"]]
    scn = SCN[prof["scn"]]
    case = req["case"]
    ctx = engine.Ctx(case, P, simk)
    ctx.start()
    out = {}
    viol = None
    try:
        scn.run(ctx, prof)
    except engine.Violation as e:
        viol = [e.cls, e.msg]
    except MemoryError as e:
        import traceback
        viol = ["unexpected-exception", "MemoryError outside of an operation: " + traceback.format_exc()[-600:]]
    except Exception as e:
        import traceback
        viol = ["unexpected-exception", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1200:])]
    if viol is None:
        a = simk.anomaly()
        if a:
            viol = ["anomaly", a]
    h, log = simk.trace()
    fired, seen, ev = simk.stats()
    out.update(v=viol, trace=h, fired=fired, seen=seen, ev=ev, probes=ctx.probes, steps=ctx.steps, ep_steps=ctx.ep_steps, switches=ctx.switches, profile=ctx.profile)
    if os.environ.get("SIM_BT"):
        out["stderr"] = os.pread(2, 100000, 0).decode("utf-8", "replace")
    if viol or req.get("log"):
        out["log"] = log[-20000:] if log else ""
    return out


def generate(req):
    """in a child of its own: what generating a case leaves in the interpreter must not influence its run"""
    prof = props.PROFILES[req["prop"]]
    case = SCN[prof["scn"]].gen(random.Random(req["seed"]), prof)
    case["prop"], case["seed"] = req["prop"], req["seed"]
    return case


def child(line, w, err):
    os.dup2(err, 2)
    try:
        for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPROF):
            signal.signal(s, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_PROF, CPU)
        signal.alarm(int(CPU * 30))
        req = json.loads(line)
        line = None
        gc.collect()
        out = generate(req) if "seed" in req else one(req)
        data = json.dumps(out).encode()
    except BaseException:
        import traceback
        data = json.dumps({"harness": traceback.format_exc()[-3000:]}).encode()
    signal.setitimer(signal.ITIMER_PROF, 0)
    n = 0
    while n < len(data):
        n += os.write(w, data[n:])
    os._exit(0)


def main():
    # the real stdout carries the protocol; the code under test may print
    proto = os.dup(1)
    nul = os.open("/dev/null", os.O_RDWR)
    os.dup2(nul, 1)
    warm()
    gc.collect()
    gc.freeze()
    gc.disable()
    inp = os.fdopen(0, "rb", buffering=1 << 16)
    while True:
        line = inp.readline()
        if not line:
            break
        case = None
        if line.startswith(b'{"seed"'):
            data, st, e = ask(line)
            if not data or data.startswith(b'{"harness"'):
                send(proto, data or json.dumps({"harness": "generating a case failed: %s %s" % (st, e)}).encode())
                continue
            case = data
            # the request that repeats this run, with the fields of this one but the seed
            line = b'{"case": ' + data + b", " + line[line.index(b",") + 1:]
        data, st, e = ask(line)
        if not data:
            data = json.dumps({"crash": st, "stderr": e}).encode()
        if case:
            data = b'{"case": ' + case + b", " + data[1:]
        send(proto, data)
        del data, case, line, e


def send(proto, data):
    out = data + b"\n"
    n = 0
    while n < len(out):
        n += os.write(proto, out[n:])


def ask(line):
    """one child -> (what it reported, its status, its error output)"""
    r, w = os.pipe()
    err = os.memfd_create("err")
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(line, w, err)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if not data.endswith(b"}"):
        # it died before, or while, it reported
        data = b""
    e = ""
    if not data:
        e = os.pread(err, min(os.fstat(err).st_size, 400000), 0).decode("utf-8", "replace")[:12000]
    os.close(err)
    return data, st, e


def warm():
    """touch everything lazily initialised"""
    t = threading.Thread(target=lambda: None)
    t.start()
    t.join()
    import traceback, json.encoder, json.decoder
    for s in range(3):
        r = random.Random(s)
        for name in props.PROFILES:
            if props.PROFILES[name]["scn"] in SCN:
                SCN[props.PROFILES[name]["scn"]].gen(r, props.PROFILES[name])
    try:
        raise ValueError("warm")
    except ValueError:
        traceback.format_exc()
    struct.pack("<f", 1.0)


main()
