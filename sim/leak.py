"""leak: a history (faults and schedule included) is repeated in one process; what the process holds afterwards must not grow.

The history is a case of one of the other scenarios; memory of the library is counted by the simulator's allocator (must come back to exactly what it
was), memory of the interpreter by its allocator hooks (must not grow in every repetition), descriptors, mappings and files by the simulated kernel."""
import gc, array, random
import engine, props
import fsworld, damage, handles, primvec, bitvec, iters

MEM = {"malloc": 6, "pyalloc": 4}
V = {"n": 6, "depth": 3}
SUBS = {
    "fsworld": (fsworld, {"ops": {"cdup": 0.3, "v32": 0.4, "export": 5, "recreate": 3, "reexport": 1.5, "tobuf": 4, "open": 3, "openbuf": 2, "reopen": 2, "probe": 5, "read": 2, "drop": 1, "walk": 1, "unlink": 0.2}, "actors": [1, 1, 1, 2], "nops": [1, 2, 3, 5], "epochs": [1],
                          "init": 0.9, "bad": True, "damaged": True, "how": ["py", "py", "c"], "val": V}),
    "damage": (damage, {"tries": 3, "val": V}),
    "handles": (handles, {"ops": props.PROFILES["C10"]["ops"], "actors": [1, 1, 2], "nops": [3, 6, 10], "epochs": [1], "val": V}),
    "primvec": (primvec, {"nops": [3, 6, 12], "actors": [1, 1, 2]}),
    "bitvec": (bitvec, {"nops": [3, 6, 12], "actors": [1, 1, 2]}),
    "iters": (iters, {"nops": [3, 6], "actors": [1, 1, 2], "val": V}),
}
PICK = ["fsworld"] * 8 + ["damage"] * 2 + ["handles"] * 3 + ["primvec"] * 4 + ["bitvec"] * 3 + ["iters"] * 2


def gen(r, prof):
    sub = r.choice(PICK)
    scn, p = SUBS[sub]
    case = scn.gen(r, p)
    case["sub"] = sub
    case["scn"] = "leak"
    case.pop("events", None)
    return case


def run(ctx, prof):
    case, k = ctx.case, ctx.k
    scn, p = SUBS[case["sub"]]
    held = array.array("q", [0] * 48)
    sub = None
    n = 0
    ctx.probe("sub_" + case["sub"])
    gc.collect()
    base = k.live()[0]
    for rep in range(8):
        sub = engine.Ctx(case, ctx.P, k)
        sub.start()
        seq = k.laseq()
        scn.run(sub, p)
        for t in sub.threads:
            t.join()
        if rep == 0:
            ctx.profile, ctx.probes = sub.profile[:], dict(sub.probes, **ctx.probes)
            ctx.steps, ctx.ep_steps, ctx.switches = sub.steps, sub.ep_steps, sub.switches
        sub = t = None
        random.seed(1)
        gc.collect()
        live = k.live()
        fds, maps = k.open_handles(-1)
        if live[0] != base:
            # what is reachable only through an object the interpreter still holds is not the library's
            ctx.viol("leak", "%d memory blocks of the library (%s) are held after everything was dropped" % (live[0] - base, [x[:2] for x in k.live_list(seq)][:6]))
        if fds or maps:
            ctx.viol("leak", "%d descriptors and %d mappings are left" % (fds, maps))
        held[rep] = live[2]
        live = None
        if rep >= 2 and held[rep] <= held[rep - 1]:
            return
    ctx.viol("leak", "every repetition leaves more objects of the interpreter behind: %s" % [held[i] - held[i - 1] for i in range(1, 8)])
