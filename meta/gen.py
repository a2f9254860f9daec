#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS

def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None))
CO = "include/soro/utls/coroutine/"
T = []
T.append(P("C01", "Lazy sequences deliver every element exactly once, in order",
  "A consumer of a lazy sequence (plain, recursive, iterator-style, mapped or collected) sees exactly the elements its producer yields, in the order of the yields, each once, including those of nested sequences at the place of their nesting. This holds however consumption is interleaved with other sequences, moved to another holder, or handed to another thread between elements.",
  ["programs", "schedules", "inputs"], "every producer program (nesting depth, values and references, by-value and const element types), every consumer interleaving, move or hand-over point",
  "The tests iterate a few fixed sequences front to back on one thread; nesting shapes, moves of half-consumed sequences and interleaved consumers are unbounded.",
  [CO + f for f in ("generator.h", "iterator.h", "recursive_generator.h", "coro_map.h", "collect.h")],
  [("resume on increment, handle comparison at the end", CO + "generator.h, iterator.h"), ("root/leaf/parent links of nested sequences", CO + "recursive_generator.h"), ("re-yield of mapped values", CO + "coro_map.h")],
  [("current element", "pointer to, or copy of, the value at the last yield", "promise types"), ("leaf", "innermost active nested sequence", "recursive_generator promise")],
  ["dereference and comparison of the sequence iterators", "collect(), emplace_back()"]))
T.append(P("C02", "A producer's failure is never mistaken for the end of the sequence",
  "If the code producing a lazy sequence fails (throws, or runs out of memory), the consumer that asked for the next element gets that failure after having received all elements yielded before it. A sequence ends normally only if its producer ended normally; a failure that an enclosing producer handles does not disturb the rest.",
  ["fault_sequences", "programs", "schedules"], "every point of every producer program, every nesting depth, every allocation inside it at which a failure can occur, in any interleaving with other sequences",
  "No test throws inside a producer; the failing point, nesting and allocation are unbounded.",
  [CO + f for f in ("generator.h", "iterator.h", "recursive_generator.h", "coro_map.h", "collect.h")],
  [("unhandled_exception stores, the resuming side rethrows", CO + "generator.h, iterator.h, recursive_generator.h")],
  [("stored exception", "failure of the producer not yet reported", "promise types")], ["increment of the sequence iterators", "begin()", "collect()"]))
T.append(P("C03", "Producers release what they hold exactly once, at the end or when dropped",
  "Everything a producer of a lazy sequence holds (locals, captured values, its own memory, nested producers) is released exactly once: when it ends, fails, or when the consumer drops the sequence at any point, also after moving or swapping it. Nothing is accessed after its release and nothing is leaked.",
  ["programs", "fault_sequences", "crash_points"], "every point at which a consumer can abandon, move, swap or self-assign a sequence, every failure inside the producer or of memory allocation",
  "The tests consume sequences to their end and do not observe releases.",
  [CO + f for f in ("generator.h", "iterator.h", "recursive_generator.h", "coro_map.h")],
  [("owner destroys the coroutine frame", "destructors of generator, coro_it, recursive_generator"), ("move leaves an empty source", "move operations of the same")],
  [("coroutine handle", "unique owner of a suspended producer", "generator, coro_it, recursive_generator")], ["resource counters of producers", "heap"]))
T.append(P("F01", "Writing a file stores every byte or reports that it did not",
  "When writing a buffer to a file returns normally the file holds exactly that buffer, whatever the disk did meanwhile (open, write, flush and close errors, full disk, short writes, interrupted calls). A write on a working disk succeeds, also right after failed ones.",
  ["fault_sequences", "inputs", "schedules"], "every buffer, older content, disk fault kind and position, several writers on distinct files",
  "Tests run on a working disk, where a missing check of the stream state never shows.",
  ["include/soro/utls/file/binary_buffer_to_file.h"], [("stream state is checked after write and close", "include/soro/utls/file/binary_buffer_to_file.h")], [], ["return or exception of the write", "contents of the file"]))
T.append(P("F02", "Reading a file yields all its bytes or reports that it did not",
  "When reading a file (into a buffer, into text, or mapped) returns normally the result is exactly the file's contents, whatever the disk did meanwhile (missing file, open, stat, read and mapping errors, short reads). Reading an existing file on a working disk succeeds, also right after failed reads.",
  ["fault_sequences", "inputs", "schedules"], "every file size and content, disk fault kind and position, several readers",
  "Tests read small files on a working disk.",
  ["include/soro/utls/file/file_to_binary_buffer.h", "include/soro/utls/file/loaded_file.h"], [("size is taken, bytes read are compared with it", "include/soro/utls/file/*.h")], [], ["return or exception of the read"]))
T += []  # further groups are appended by properties_more.py
try:
    from properties_more import more
    T += more(P)
except ImportError:
    pass
NA = []
try:
    from properties_more import NA as NA2
    NA += NA2
except ImportError:
    pass
NOTES = {}
ids = [t["id"] for t in T]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for t in T:
        assert len(t["title"]) <= 80, t["title"]
        f.write(json.dumps(t) + "\n")
na_ids = {n["property"] for n in NA}
for p in PROPS: assert p in ids, p
for i in ids: assert (i in PROPS) != (i in na_ids), i
GEN_NOTE = "Seeded search over simulated executions, not exhaustive: a violation that needs a schedule, fault sequence or input the seeds do not reach is missed. Trusts the simulator (self-tested in setup_cmd), the stand-ins for the utl/cista libraries and g++-12 at -O1 with thread instrumentation. "
m = dict(version=1, setup_cmd="./check --setup",
  hooks=dict(guard="none", enable="No hooks in /repo: every seam is below the code (pthread, clock, disk and heap symbols are interposed at link time, memory accesses are observed through compiler instrumentation), so the checks compile /repo's sources unchanged with -fsanitize=thread and link the simulator instead of its runtime.", source_commits=[]),
  checks=[dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough",
               technique="deterministic simulation with fault injection, seeded search: " + PROPS[p].get("technique", PROPS[p]["nontrivial"]),
               level="exploration", level_note=GEN_NOTE + " ".join(PROPS[p].get("assumptions", []))) for p in ids if p in PROPS],
  not_applicable=NA, notes="Run ./check <property> quick|thorough; ./check --replay FILE reproduces a violation. VERIF_SECS overrides the search time.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
import jsonschema
for a, b in (("properties.jsonl", "PROPERTIES"), ("MANIFEST.json", "MANIFEST")):
    s = json.load(open(f"/root/.vp/{b}.schema.json"))
    for x in ([json.loads(l) for l in open(os.path.join(V, a))] if a.endswith("l") else [json.load(open(os.path.join(V, a)))]):
        jsonschema.validate(x, s)
print(len(T), "properties,", len(m["checks"]), "checks")
