#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for its text is this file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Exporting to a file replaces the destination atomically, whatever the crash",
 "Whenever the process performing an export or a file-to-file re-creation dies, at any instant, the destination path still names either exactly what it named before (the complete previous file, or nothing) or the complete new file. A destination that existed is never missing, empty, shortened or partly written at any instant another process can look, and other files in the directory are never touched.",
 ["crash_points", "inputs", "histories"],
 "every system call boundary of every export or re-creation, for every exported value, previous destination content and stdio buffer size, including several exports and crashes in a row",
 "The tests only export successfully and never stop an export midway; the guarantee is over every instant of the write sequence.",
 ["src/pointless_create.c", "src/pointless_recreate.c", "python/pointless_create.c"],
 [("temporary file, then rename over the destination", "src/pointless_create.c:pointless_create_output_and_end_f"), ("re-creation writes through the same path", "src/pointless_recreate.c:pointless_recreate_64")],
 ["destination path content seen by a concurrent or later reader", "directory listing after the crash"])

prop("C02", "Power loss never exposes an incomplete export under the destination name",
 "If the machine loses power at any instant during or after an export, then after restart the destination path holds either the complete previous content or the complete new content, even though un-synced data may be lost, torn or zeroed while later directory changes survive. No later reader can observe a mixture, a truncated file or zero-filled content under that name.",
 ["crash_points", "fault_sequences", "histories"],
 "every power-loss instant, every subset of unsynced blocks and every prefix of directory operations the simulated disk may have persisted, for sequences of exports with earlier crashes and leftovers",
 "A test on a real file system cannot drop un-synced writes; a missing or misplaced sync passes every existing test.",
 ["src/pointless_create.c"],
 [("flush and sync of the temporary file before the rename", "src/pointless_create.c:pointless_create_output_and_end_f"), ("stdio flush precedes sync", "src/pointless_create.c:pointless_create_output_and_end_f")],
 ["content of the destination after simulated restart"])

prop("C03", "A failing write path is reported and leaves no trace",
 "If any file operation during an export fails (cannot create, short write, disk full, I/O error on write, flush, sync, permission change, close or rename), the export reports an error to the caller, the destination is exactly as before, and no temporary file or open descriptor is left behind. If the export reports success, the destination holds the complete, correct new content. Retrying after the fault has cleared succeeds.",
 ["fault_sequences", "inputs", "histories"],
 "every file operation of the export, every error number and every partial transfer, at every occurrence, singly and in combination, for every value and stdio buffer size, from both the Python and the C interface",
 "The tests never make a system call fail.",
 ["src/pointless_create.c", "src/pointless_recreate.c", "python/pointless_create.c"],
 [("error checks after every step and the cleanup path", "src/pointless_create.c:pointless_create_output_and_end_f"), ("write errors propagate out of the layout code", "src/pointless_create.c:pointless_create_output_and_end_")],
 ["return value or exception", "destination content", "directory listing", "open descriptors"])

prop("C04", "Running out of memory while creating is reported, harmless and retryable",
 "If any memory allocation fails while a value is being built and exported (to a file, a buffer or a byte array, through the Python or the C interface), the call either still produces exactly the right output or reports failure; it never crashes, hangs, corrupts memory, terminates the process or damages the source objects or the destination. A retry once memory is available produces exactly the output it would have produced without the failure.",
 ["fault_sequences", "inputs"],
 "every allocation made by the library, its index structure and the interpreter on its behalf, failing once, several times or from some point on, for every value shape",
 "The tests never make an allocation fail; most of the error paths have never run.",
 ["src/pointless_create.c", "src/pointless_create_cache.c", "src/pointless_dynarray.c", "src/pointless_hash_table.c", "src/pointless_cycle_marker.c", "src/pointless_bitvector.c", "python/pointless_create.c"],
 [("every allocation is checked and unwinds to the creator state destructor", "src/pointless_create.c"), ("index insertions are checked", "src/pointless_create_cache.c")],
 ["exception or return code", "memory errors seen by the sanitiser", "bytes produced by the retry"])

prop("C05", "Opening and reading stay safe when memory or system calls fail",
 "If an allocation or system call fails while a file or buffer is opened, checked, traversed, looked up, sliced, compared, hashed, printed or re-created, the operation reports an error or returns the right answer and never a wrong one, never crashes and never hangs. A handle whose opening failed, was never performed, or was repeated stays safe to use, to re-open and to drop, and every descriptor and mapping is released.",
 ["fault_sequences", "histories"],
 "every allocation, open, stat, map and close on the read path, failing at every occurrence, over sequences of opens, failed opens, re-opens and reads",
 "The tests only open readable files with ample memory.",
 ["src/pointless_reader.c", "src/pointless_validate.c", "src/pointless_cycle_marker.c", "python/pointless_object.c", "python/pointless_vector.c", "python/pointless_map.c", "python/pointless_set.c", "python/pointless_print.c"],
 [("staged open with cleanup", "src/pointless_reader.c:_pointless_open_f"), ("open flag gates use", "python/pointless_object.c")],
 ["exception or value", "open descriptors and mappings", "memory errors seen by the sanitiser"])

prop("C06", "A damaged file is rejected or can be traversed safely",
 "Whatever bytes a file or buffer contains (bit flips, torn or zeroed or swapped blocks, truncation, extension, or a mixture of two versions), opening it with checking enabled either fails with an error or yields a handle on which every traversal, lookup, comparison, hash, print and re-creation finishes, stays inside the mapping and does not crash. Opening takes time and memory bounded by the size of the input, and damage to the header is never followed blindly.",
 ["fault_sequences", "inputs"],
 "every damage pattern over every stored value, including damage that keeps the file structurally plausible, for file- and buffer-backed opening",
 "The tests open files the library itself has just written.",
 ["src/pointless_reader.c", "src/pointless_validate.c", "src/pointless_validate_heap.c", "src/pointless_validate_heap_ref.c", "src/pointless_validate_hash_table.c", "src/pointless_hash_table.c"],
 [("header, offset and heap checks at open", "src/pointless_validate.c"), ("hash-table probe check", "src/pointless_validate_hash_table.c"), ("recursion depth bound", "src/pointless_validate.c")],
 ["outcome of opening", "out-of-bounds reads on an exactly sized mapping", "CPU-time bound"])

prop("C07", "A reader keeps seeing exactly the version it opened",
 "Once a reader has opened a file, everything it reads through that handle is the single complete version that the name referred to at the moment of opening, no matter how often the name is replaced, removed or re-created afterwards by other processes. A reader that opens a name while exporters replace it gets some version that was current between the start and the end of its open, and never an error or a mixture.",
 ["schedules", "histories"],
 "every interleaving of system calls and reads of several readers with several exporters, removers and re-creators on the same names",
 "The tests read files nobody else is writing.",
 ["src/pointless_create.c", "src/pointless_reader.c", "python/pointless_object.c"],
 [("exports never modify an existing file in place", "src/pointless_create.c:pointless_create_output_and_end_f"), ("the opened descriptor, not the name, is measured and mapped", "src/pointless_reader.c:_pointless_open_f")],
 ["values read through each handle against the version history of the name"])

prop("C08", "What was exported is what is read back, through any history",
 "Every value an application exports reads back equal to the original through every access path (indexing, iteration forwards and backwards, slices, membership, key lookup, length, minimum, maximum and bisection, comparison and equality, and the bytes of numeric vectors; and through every reading function of the C interface, its key lookups and path expressions included), whether it went through a file, a buffer or a byte array, was re-created or re-exported from a handle, and whatever failed exports, crashes, faults and other work preceded or accompanied it. Lookups find exactly the keys that were exported and nothing else.",
 ["inputs", "histories", "fault_sequences"],
 "every supported value (all integer widths and boundaries, floats, strings of every character width, nested and shared and cyclic containers, primitive vectors, bit vectors) in every history of successful, failed and retried operations",
 "The tests compare a few hand-picked values in a fault-free process.",
 ["src/pointless_create.c", "src/pointless_create_cache.c", "src/pointless_reader.c", "src/pointless_reader_helpers.c", "src/pointless_eval.c", "src/pointless_hash.c", "src/pointless_hash_table.c", "src/pointless_bitvector.c", "src/pointless_recreate.c", "python/pointless_create.c", "python/pointless_vector.c", "python/pointless_map.c", "python/pointless_set.c"],
 [("type selection and compression of vectors", "src/pointless_create.c"), ("hash-table population and probing", "src/pointless_hash_table.c"), ("hashes agree between creation and lookup", "src/pointless_hash.c, python/pointless_pyobject_hash.c"), ("de-duplication of equal values", "src/pointless_create_cache.c"), ("key lookups of the C interface", "src/pointless_reader_helpers.c"), ("path expressions of the C interface", "src/pointless_eval.c")],
 ["values read back against a model value"])

prop("C09", "Concurrent exports to one destination never interfere",
 "When several processes or threads export to the same destination or to neighbouring names at the same time, every export that reports success has at some moment installed its own complete content, every content ever visible under a name is the complete content of exactly one export made to that name, and no export fails, loses its output or leaves anything behind because of another. When all have finished, the destination holds the content of the successful export that installed last.",
 ["schedules", "histories", "crash_points"],
 "every interleaving of the system calls of several exporters (some of which crash or hit faults) on shared and neighbouring names",
 "The tests export from one process at a time, to private names.",
 ["src/pointless_create.c", "python/pointless_create.c"],
 [("each export works on its own uniquely named temporary file", "src/pointless_create.c:pointless_create_output_and_end_f"), ("only its own temporary file is removed on failure", "src/pointless_create.c:pointless_create_output_and_end_f")],
 ["version history of each name", "directory listing at quiescence"])

prop("C10", "A file stays mapped exactly as long as something refers to it",
 "As long as any value, container, iterator or memory view obtained from a handle is alive, it reads correctly, even after the handle itself was dropped or opened again on another file, and whatever thread drops which object in which order. The mapping and its descriptor are released exactly once, when the last reference goes, and the reported reference counts equal the number of live objects of each kind.",
 ["schedules", "histories"],
 "every order of creating, sharing and dropping handles, vectors, bit vectors, sets, maps, iterators, slices and memory views across threads, including thread switches at every point where the interpreter lock is released",
 "The tests keep a handle alive for the whole test and drop everything at once.",
 ["python/pointless_object.c", "python/pointless_vector.c", "python/pointless_bitvector.c", "python/pointless_set.c", "python/pointless_map.c", "src/pointless_reader.c"],
 [("every child holds a reference on the handle", "python/pointless_vector.c, python/pointless_set.c, python/pointless_map.c, python/pointless_bitvector.c"), ("the last reference closes the mapping", "python/pointless_object.c:PyPointless_dealloc")],
 ["reads through surviving objects", "live mappings and descriptors", "reported reference counts"])

prop("C11", "Threads may open, read, re-open and drop handles concurrently",
 "Any number of threads may open the same or different files and buffers, re-open shared handles, read and drop them at the same time, while other threads modify, resize or drop the source buffers; every operation either gives the answer it would give if operations ran one at a time or reports an error. No interleaving, including switches while the interpreter lock is released during opening and closing, crashes, hangs, reads freed memory or returns a mixture.",
 ["schedules", "histories"],
 "every interleaving of several threads at operation boundaries, at interpreter-lock releases and at system calls made without the lock",
 "The one threaded test lets the operating system choose a handful of schedules and shares nothing between the threads.",
 ["python/pointless_object.c", "python/pointless_prim_vector.c", "src/pointless_reader.c"],
 [("opening works on private state and copies buffer sources", "python/pointless_object.c:PyPointless_init"), ("exports block resizing while a buffer is in use", "python/pointless_prim_vector.c")],
 ["answers against a sequential model", "memory errors seen by the sanitiser"])

prop("C12", "A primitive vector acts as a typed list; failed operations change nothing",
 "Every history of operations on a primitive vector (construction from every source, append, bulk append, insert by index, delete, pop, remove, search, slicing, sorting, sorting by projection, byte-level access, copying out of a file) gives the results a list restricted to the element type's range would give. An operation that fails, whether for a bad value, an exhausted allocation, an exception from a caller-supplied iterator or a live memory view, leaves the vector exactly as it was, and memory views stay valid while they live.",
 ["histories", "fault_sequences", "schedules"],
 "every sequence of operations for every element type, with allocation failures at every point, misbehaving and re-entrant iterators, and threads that interleave at every callback",
 "The tests run short fixed sequences with no failing allocation, callback or live view.",
 ["python/pointless_prim_vector.c", "src/pointless_dynarray.c", "src/custom_sort.c"],
 [("range check per element type", "python/pointless_prim_vector.c"), ("roll-back of partial bulk operations", "python/pointless_prim_vector.c:PyPointlessPrimVector_append_bulk"), ("export count blocks resizing", "python/pointless_prim_vector.c")],
 ["contents, length, type code and exceptions against a list model"])

prop("C13", "A bit vector acts as a list of booleans; failed operations change nothing",
 "Every history of operations on a bit vector (construction from a size, a sequence or a file, append, bulk append, extension, assignment, pop, copy, slicing by prefix and postfix counts, any-set test, iteration, indexing, export and re-import in any compressed form) gives the results a list of booleans would give. An operation that fails for a bad argument, an exhausted allocation or a misbehaving iterator leaves the bit vector exactly as it was.",
 ["histories", "fault_sequences", "schedules"],
 "every sequence of operations and sizes around word boundaries, with allocation failures at every point and misbehaving or re-entrant iterators",
 "The tests use a few sizes and never combine removal, bulk append and the summary queries, nor fail an allocation.",
 ["python/pointless_bitvector.c", "src/pointless_bitvector.c", "src/bitutils.c"],
 [("bit storage grown on demand", "python/pointless_bitvector.c"), ("cached count of set bits", "python/pointless_bitvector.c"), ("compressed forms chosen at export", "src/pointless_bitvector.c")],
 ["contents, length, counts and exceptions against a list model"])

prop("C14", "Nothing leaks: memory, descriptors, mappings and references are conserved",
 "After any operation has finished, successfully or not, and its results have been dropped, all memory, descriptors, mappings and temporary files it acquired have been released, and every caller-supplied object has the reference count it had before. Repeating any history of operations, faults included, any number of times does not increase what the process holds.",
 ["histories", "fault_sequences"],
 "every operation of the Python and C interface on every input, with and without failing allocations, failing system calls, rejected inputs and raising callbacks",
 "The tests never count what is held, and never run the error paths.",
 ["python/pointless_create.c", "python/pointless_object.c", "python/pointless_prim_vector.c", "python/pointless_bitvector.c", "python/pointless_vector.c", "python/pointless_set.c", "python/pointless_map.c", "src/pointless_create.c", "src/pointless_reader.c"],
 [("creator state destructor", "src/pointless_create.c:pointless_create_end"), ("cleanup labels in every entry point", "python/*.c")],
 ["live allocations, descriptors, mappings and reference counts before and after"])

prop("C15", "Interleaved and shared iteration gives each element exactly once",
 "Any number of iterators and lookups over the same container, advanced in any interleaving by one or many threads, each deliver exactly the container's elements, once each and in the container's order; an iterator shared between threads delivers each element to exactly one of them. An exhausted iterator stays exhausted, and an error raised while delivering an element, such as a failed allocation, is reported without losing, repeating or inventing elements and without stopping the iteration early.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of iterators (vectors forwards and backwards, bit vectors, sets, map keys, values and items) and lookups, with allocation failures at every step",
 "The tests run each iterator alone, to its end, without failures.",
 ["python/pointless_vector.c", "python/pointless_bitvector.c", "python/pointless_set.c", "python/pointless_map.c", "src/pointless_hash_table.c"],
 [("iteration state private to each iterator", "python/pointless_vector.c, python/pointless_set.c, python/pointless_map.c"), ("hash-table scan position", "src/pointless_hash_table.c")],
 ["multiset and order of delivered elements"])

prop("C16", "The exported bytes depend only on the value and the options",
 "Exporting the same value with the same options always produces the same bytes, whether to a file, a buffer or a byte array, whatever memory the allocator hands out, however writes are buffered or split, and whatever other exports, failures or threads preceded or accompanied it. Nothing from uninitialised or unrelated memory ever reaches the output.",
 ["histories", "configurations", "schedules", "fault_sequences"],
 "every value, every content and placement of allocated memory, every buffering and partial-write pattern and every history of earlier successful and failed exports in the process",
 "The tests never compare the bytes of two exports.",
 ["src/pointless_create.c", "src/pointless_create_cache.c", "src/pointless_bitvector.c", "src/pointless_hash_table.c", "python/pointless_create.c"],
 [("layout in creation order with zeroed padding", "src/pointless_create.c"), ("creator state is private to each export", "src/pointless_create.c:pointless_create_begin_64")],
 ["bytes of the outputs under different memory contents, buffer sizes and histories"])

prop("C17", "Re-creating a file yields an equivalent, stable file",
 "Re-creating a file from a file produces a destination whose every value equals the source's, even when source and destination are the same name, the source is replaced or removed meanwhile, or the value is shared or self-referencing; re-creating the result again gives the same bytes. If the source is missing, damaged, or any allocation or file operation fails, failure is reported, the destination is unchanged and nothing is left behind.",
 ["histories", "fault_sequences", "schedules", "inputs"],
 "every stored value, every fault on the reading or writing side, and every interleaving with exporters of the source and the destination",
 "The C test re-creates a few files with no faults and compares nothing under interleaving.",
 ["src/pointless_recreate.c", "src/pointless_create.c", "src/pointless_reader.c"],
 [("walk of the source with per-object mapping of handles", "src/pointless_recreate.c:pointless_recreate_convert_rec"), ("installation through the atomic export", "src/pointless_create.c:pointless_create_output_and_end_f")],
 ["destination content against the source's model value", "live resources"])

prop("N01", "Hashes and comparisons of equal values agree across all representations",
 "Two values that compare equal have the same hash and the same ordering relative to any third value, whichever representation (interpreter object, stored value, value under construction) each of them has. The ordering is total over comparable values.",
 ["inputs"],
 "every pair and triple of values in every pair of representations",
 "Tests compare a few hundred pairs.",
 ["src/pointless_cmp.c", "src/pointless_hash.c", "python/pointless_pyobject_cmp.c", "python/pointless_pyobject_hash.c"],
 [("parallel implementations per representation", "src/pointless_cmp.c, python/pointless_pyobject_cmp.c")],
 ["comparison and hash results"])

prop("N02", "Path expressions address exactly the element they spell out",
 "A path expression made of string keys, integer subscripts and placeholders yields exactly the element that the same chain of subscripts yields on the stored value, or reports failure when some step does not exist. Malformed expressions are always rejected.",
 ["programs", "inputs"],
 "every expression, argument list and stored value",
 "Tests evaluate a handful of expressions.",
 ["src/pointless_eval.c", "src/pointless_int_ops.c"],
 [("expression scanner and step-wise lookup", "src/pointless_eval.c")],
 ["evaluation results"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
