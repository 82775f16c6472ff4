"""Per-property configuration: which scenario, which workload mix, which faults, which budgets."""

MEM = {"malloc": 6, "pyalloc": 2}
IO_W = {"mkstemp": 2, "fdopen": 2, "write": 6, "fsync": 3, "fchmod": 3, "close": 2, "rename": 4, "seek": 1, "fopen": 1}
IO_R = {"open": 3, "fopen": 3, "fstat": 3, "mmap": 3, "fdopen": 1, "read": 2}
V = {"n": 8, "depth": 3}

PROFILES = {
    "C01": {"scn": "fsworld", "ops": {"export": 6, "recreate": 3, "reexport": 1, "open": 2, "read": 1}, "actors": [1, 1, 2], "nops": [1, 2, 3], "epochs": [1, 2, 2, 3],
            "faults": {}, "events": {"crash": 1.0}, "variants": 24, "split": 0.8, "val": V},
    "C02": {"scn": "fsworld", "ops": {"export": 6, "recreate": 3, "reexport": 1, "open": 1}, "actors": [1, 1, 2], "nops": [1, 2, 3], "epochs": [1, 2, 2],
            "faults": {}, "events": {"power": 1.0}, "variants": 24, "split": 0.8, "val": V},
    "C03": {"scn": "fsworld", "ops": {"v32": 0.2, "export": 6, "recreate": 3, "reexport": 1, "open": 1, "unlink": 0.3}, "actors": [1, 1, 1, 2], "nops": [1, 2, 3],
            "faults": dict(IO_W, unlink=0.3, open=1, fstat=1, mmap=1), "nfaults": [1, 1, 1, 2, 3], "variants": 24, "val": V, "bad": True},
    "C04": {"scn": "fsworld", "ops": {"cdup": 0.4, "v32": 0.2, "export": 5, "tobuf": 4, "reexport": 1, "openbuf": 1}, "actors": [1], "nops": [1, 1, 2], "bad": True, "how": ["py", "py", "c"],
            "faults": {"malloc": 6, "pyalloc": 2, "mkstemp": 0.1}, "nfaults": [1, 1, 1, 2], "persist": 0.2, "variants": 40, "sweep": 0.5, "split": 0, "val": V},
    "C05": {"scn": "fsworld", "ops": {"open": 4, "openbuf": 2, "reopen": 2, "probe": 7, "battery": 1, "recreate": 1, "drop": 1, "walk": 1, "read": 0.5}, "actors": [1], "nops": [3, 4, 6], "init": 1.0, "damaged": True,
            "faults": dict(IO_R, malloc=8, pyalloc=4), "nfaults": [1, 1, 2, 3], "persist": 0.15, "variants": 30, "sweep": 0.3, "split": 0, "val": V},
    "C06": {"scn": "damage", "tries": 40, "faults": {"malloc": 1}, "nfaults": [1, 2, 3, 5], "variants": 2, "val": dict(V, share=0.4)},
    "C07": {"scn": "fsworld", "ops": {"open": 5, "reopen": 2, "read": 3, "export": 5, "recreate": 2, "unlink": 1, "probe": 1, "drop": 1, "walk": 1}, "actors": [2, 2, 3, 4], "nops": [2, 3, 5], "init": 0.9,
            "faults": dict(IO_W, malloc=2), "nfaults": [0, 0, 1, 2], "events": {"crash": 0.3}, "variants": 24, "val": V},
    "C08": {"scn": "fsworld", "cdump": 1, "ops": {"cdup": 0.8, "export": 4, "tobuf": 2, "open": 3, "openbuf": 3, "read": 2, "probe": 2, "battery": 4, "reexport": 3, "recreate": 2, "drop": 0.5, "reopen": 1}, "actors": [1, 1, 2], "nops": [4, 6, 10], "epochs": [1, 1, 2], "init": 0.8,
            "faults": dict(IO_W, malloc=6, pyalloc=2), "nfaults": [0, 1, 2, 3], "events": {"crash": 0.1, "power": 0.1}, "variants": 5, "val": dict(V, depth=4, n=12, huge=1)},
    "C09": {"scn": "fsworld", "ops": {"export": 8, "recreate": 3, "reexport": 1, "open": 1}, "actors": [2, 2, 3, 4], "nops": [1, 2, 3],
            "faults": dict(IO_W), "nfaults": [0, 0, 0, 1], "events": {"crash": 0.15}, "variants": 24, "val": V},
    "C10": {"scn": "handles", "ops": {"open": 4, "reopen": 2, "root": 6, "derive": 8, "read": 6, "step": 5, "odrop": 5, "hdrop": 4, "refs": 4, "info": 1, "bare": 0.3, "alias": 1, "buf": 2, "replace": 1.5, "unlink": 0.5},
            "actors": [1, 1, 2, 2, 3], "nops": [6, 12, 20], "epochs": [1, 1, 2], "faults": dict(IO_R, malloc=4, pyalloc=4), "nfaults": [0, 0, 1, 2], "variants": 16, "val": V},
    "C11": {"scn": "handles", "ops": {"open": 6, "reopen": 7, "root": 5, "derive": 3, "read": 3, "step": 2, "odrop": 4, "hdrop": 4, "refs": 2, "info": 2, "bare": 1, "alias": 3, "buf": 4, "replace": 3, "unlink": 0.7},
            "actors": [2, 2, 3, 4], "nops": [4, 8, 14], "epochs": [1, 1, 2], "faults": dict(IO_R, malloc=4, pyalloc=2), "nfaults": [0, 0, 1, 2], "variants": 24, "val": V},
    "C12": {"scn": "primvec", "faults": {"malloc": 6, "pyalloc": 4}, "nfaults": [0, 1, 1, 2, 4], "persist": 0.1, "variants": 8, "sweep": 0.2},
    "C13": {"scn": "bitvec", "faults": {"malloc": 6, "pyalloc": 4}, "nfaults": [0, 1, 1, 2, 4], "persist": 0.1, "variants": 8, "sweep": 0.2},
    "C14": {"scn": "leak", "faults": dict(IO_W, open=3, fstat=3, mmap=3, malloc=8, pyalloc=6), "nfaults": [0, 1, 1, 1, 2], "persist": 0.05, "variants": 16, "sweep": 0.3, "val": V},
    "C15": {"scn": "iters", "faults": {"malloc": 1, "pyalloc": 6}, "nfaults": [0, 1, 1, 2, 4], "persist": 0.05, "variants": 12, "sweep": 0.2, "val": V},
    "C16": {"scn": "fsworld", "ops": {"export": 5, "tobuf": 4, "reexport": 2, "open": 1, "recreate": 1, "openbuf": 1}, "actors": [1, 1, 2], "nops": [2, 4, 6], "knobs": True,
            "faults": dict(IO_W, malloc=6, pyalloc=2), "nfaults": [0, 0, 1, 2], "variants": 6, "val": dict(V, depth=4, n=12, huge=1)},
    "C17": {"scn": "fsworld", "cdump": 1, "ops": {"recreate": 8, "export": 2, "unlink": 0.7, "open": 1, "reexport": 1}, "actors": [1, 1, 2, 3], "nops": [1, 2, 3], "init": 0.9, "damaged": True, "epochs": [1, 1, 2],
            "faults": dict(IO_W, malloc=10, open=2, fopen=2, fstat=2, mmap=2), "nfaults": [0, 1, 1, 1, 2], "events": {"crash": 0.1, "power": 0.1}, "variants": 24, "sweep": 0.15, "val": dict(V, share=0.5, cycle=0.4)},
}
