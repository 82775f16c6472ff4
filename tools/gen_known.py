#!/usr/bin/env python3
"""Writes the 'fixed:' part of KNOWN_FINDINGS from the fix commits in /repo; the 'finding:' lines are kept as they are."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(V, "KNOWN_FINDINGS")
# subject fragment -> property under which the defect was found
MAP = [("creator state and output buffer", "C14"), ("temporary file (its name", "C03"), ("Judy insertion is reported", "C04"), ("outside the BMP", "C08"), ("exporting a set releases", "C14"),
       ("cycle marker is reported", "C04"), ("slice of a value vector", "C08"), ("re-numbering vectors", "C04"), ("contains something unhashable is refused instead of dereferencing", "C04"),
       ("vector min(), max()", "C08"), ("exhausted iterator forgets", "C11"), ("map and set iterators do not skip", "C15"), ("methods of a handle that is not open", "C05"), ("re-opening a handle", "C11"),
       ("keys of different types with equal hashes", "C08"), ("looking for a value of another type", "C08"), ("bitvectors of different encodings", "C08"), ("an empty vector is hashed", "C08"),
       ("mixing negative and large", "C08"), ("could not be wrapped", "C04"), ("hashing a stored vector", "C06"), ("comparing acyclic vectors", "C06"), ("huge item count", "C06"),
       ("item assignment with a negative", "C12"), ("append_bulk of a primitive", "C12"), ("pop_bulk", "C12"), ("failed primitive vector construction", "C12"), ("slices and remaps", "C12"), ("FromRemap", "C12"),
       ("sort_proj", "C12"), ("min, max and range of a primitive", "C12"), ("constructing a bit vector", "C13"), ("deleting an item of a bit", "C13"), ("pop of a bit vector", "C13"), ("append_bulk of a bit", "C13"),
       ("a copied bit vector", "C13"), ("re-initialising a stored bit", "C13")]
EXTRA = os.path.join(V, "tools", "fix_props.txt")
if os.path.exists(EXTRA):
    for l in open(EXTRA):
        p, _, frag = l.strip().partition(" ")
        if frag:
            MAP.append((frag, p))
keep = [l for l in open(F)] if os.path.exists(F) else []
keep = [l for l in keep if l.startswith("finding:")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
out = ["# genuine defects of the code under test.\n", "# 'finding:' lines are recorded, not repaired: reported as KNOWN-FINDING while they last, identified by sig.\n", "# 'fixed:' lines are repaired in /repo and suppress nothing.\n"] + keep
for l in log:
    h, _, s = l.partition(" ")
    if not s.startswith("fix:"):
        continue
    ps = [p for f, p in MAP if f in s]
    if len(ps) != 1:
        raise SystemExit("no (unique) property for: %s %s" % (s, ps))
    out.append("fixed: property=%s %s %s\n" % (ps[0], h, s[5:]))
open(F, "w").writelines(out)
print(len(out) - 3, "lines")
