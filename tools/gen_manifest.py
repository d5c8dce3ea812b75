#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MODEL = "Assumes that the harness's own encoder and model (written from the format description, independent of the library) are right. "
T = {
 "C01": ("runtime monitor: differential trace check of blob iteration against a generator's model, tokens in payloads", "Explores generated streams and read splits; exact order, content, offset and end of every iteration are judged."),
 "C02": ("runtime monitor: differential decoding oracle, three zlib builds compared by recorded outcome logs", "Every compression setting against the stored content in each of the three builds, and the outcome logs of the builds against each other."),
 "C03": ("runtime monitor: model comparison of all header accessors", "Directed (all field subsets) and random headers."),
 "C04": ("runtime monitor: model comparison with exact 128 bit arithmetic, overflow checks on", "Directed extremes and group sizes, random blocks."),
 "C05": ("runtime monitor: model comparison of tags, raw tags and string tables", "Directed neighbourhoods and sizes, random blocks."),
 "C06": ("runtime monitor: model comparison of metadata accessors", "Directed presence subsets, random blocks."),
 "C07": ("runtime monitor: model comparison of references and locations", "Directed lengths and extremes, random ways."),
 "C08": ("runtime monitor: model comparison of members", "Directed lengths, random relations."),
 "C09": ("runtime monitor: traversal traces of all iterators compared with the model and each other", "Directed group layouts, random blocks, interleaved traversals."),
 "C10": ("runtime monitor: metamorphic comparison of independently drawn encodings", "Every view of the same data through 2 to 5 legal encodings."),
 "C11": ("runtime monitor: callback trace checked against the stored sequence", "Exactly once, order and content for several kinds of readers."),
 "C12": ("runtime monitor: ledger (exactly once, conservation) over instrumented map and reduce with injected delays", "Thread counts 1 to 16, injected delays and yields; the number of distinct interleavings seen is recorded."),
 "C13": ("runtime monitor with injected damage, sequential and parallel, injected delays", "Every kind of damage at varying places under varying thread counts; the error class is judged."),
 "C14": ("runtime monitor: history checker over one reader, model oracle", "Random operation histories, every operation judged completely."),
 "C15": ("runtime monitor: history checker over one reader, filter call trace, model oracle", "Random operation histories, every operation judged completely."),
 "C16": ("runtime monitor with fault injection at every source operation, history checker", "Every source operation of small histories is failed once and persistently; later operations must fail or be complete."),
 "C17": ("runtime monitor: lockstep comparison of memory map and stream on hostile bytes", "Intact, cut, mutated and crafted files; fault signals count as violations."),
 "C18": ("runtime monitor: history checker against a position model", "Random histories of all cursor operations over several sources."),
 "C19": ("runtime monitor: header trace plus byte-range watch of the source", "What the library requested from the source is recorded and judged."),
 "C20": ("fault enumeration: every cut position of small files, sampled in larger ones, all readers monitored", "Complete over cut positions of the small files generated in the run."),
 "C21": ("fault enumeration: every source operation failed, all reading methods monitored", "Complete over source operations (up to 120 per method) of the files generated in the run."),
 "C22": ("runtime monitor with injected damage of known class, neighbours judged", "Class of every error and content of every neighbour, through stream, random access and map."),
 "C23": ("hostile input workloads with overflow checks and debug assertions on and off; panic, signal and abort monitor", "Structured hostile inputs reach deep accessors; two builds."),
 "C24": ("runtime monitor: operation budget on the source, CPU and deadlock watchdog", "Linear budgets on source operations and items; a run that does not end is a violation."),
 "C25": ("runtime monitor: counting allocator and boundary probes", "Peak memory and CPU are measured on every run; sizes directly around the limits."),
 "C26": ("runtime monitor: model comparison of every string accessor on blocks with bad references", "Index and UTF-8 position judged exactly."),
 "C27": ("runtime monitor: stepwise length checker and clone comparison", "Every step of every iterator; clones at many points."),
 "C28": ("AddressSanitizer, ThreadSanitizer, MemorySanitizer (instrumented std) and Miri over hostile, concurrent and stress workloads", "Sanitizer reports, fault signals and failed unsafe preconditions are violations. Miri runs a small number of small inputs, without memory maps."),
 "C29": ("runtime monitor: concurrent readers with random interleavings compared with the model", "Results of every thread judged; distinct completion orders are recorded."),
 "C30": ("runtime monitor: virtual and sparse multi-gigabyte sources, offsets checked", "Offsets beyond 4 GiB by virtual streams and sparse files; one sequential read of more than 4 GiB."),
 "C31": ("runtime monitor: byte-range watch of the source during indexed queries", "Requests for payload bytes are recorded and judged against what earlier queries showed."),
 "C32": ("runtime monitor: the compiled example programs run on generated files, output checked", "Exit status and printed numbers judged against the model, several thread counts."),
 "C33": ("runtime monitor: every error examined (kind, message, cause, location, conversions) under injected I/O errors and damage", "What an error has to tell is known from the fault that was injected."),
 "C34": ("runtime monitor: counting allocator, long files against short ones", "Peak memory of reading a unit of blobs once and many times over, all readers."),
 "C35": ("runtime monitor: CPU time of the thread, pairs of files 16 times apart", "Growth is judged with a wide margin (linear 16, alarm above 90, quadratic 256), repeated before it counts."),
 "C36": ("fault injection: panicking callbacks, deliveries and later operations monitored", "Panics at random calls of every kind of callback; hanging is detected by the watchdog."),
 "C37": ("runtime monitor: sources that release bytes blob by blob and note early requests; live pipes, FIFOs and sockets", "A request for bytes behind the current blob is observed at the source; a blob that is not delivered within 60 s after its last byte counts as withheld."),
 "C38": ("runtime monitor: map calls that wait for each other; nested reads with complete results; watchdog for deadlocks", "Schedules as rayon makes them; hanging is detected by timeouts of 60 s."),
 "C39": ("runtime monitor: descriptors, maps, threads and allocated bytes before and after; files deleted, replaced and changed", "Growth must be zero over repeated uses (64 KiB slack for the queues of the thread pool), repeated before it counts."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in T:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": T[i][0],
        "level": "fault_enumeration" if i in ("C20", "C21") else "exploration",
        "level_note": T[i][1] + " " + MODEL + "Nothing is claimed beyond the executions observed.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": "no check yet"} for p in props if p["id"] not in T],
    "notes": "No hooks in /repo: everything is observed at the public interface, the byte source, the allocator and the process.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
