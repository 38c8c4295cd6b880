#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (kept as a script so that the per-property texts live in one place)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = (" Exploration, not proof: a fixed number of seeds per tier, a prefix of an unbounded seed space; small to medium objects. "
          "Trusted: the simulator, the reference models in sim/, gcc, AddressSanitizer, libc stdio formatting and GMP. Real code: every file of /repo/source "
          "from the working tree; stand-ins: allocator, scheduler, clock, pipes, files, disk, environment, exit.")
CHECKS = {
 "C01": ("deterministic simulation: seeded relay chains of clients over simulated streams, content compared with a reference model",
  "Random SCoPs and parts of every kind, at every precision, go through 1-3 relays (pipes and files with seeded chunk sizes, stdio buffers, latencies, schedules) and through strings; every hop is compared with the generated content tree, with the library's own equality and with the second printing."),
 "C02": ("deterministic simulation: seeded interleavings of writer and reader over bounded pipes, step-exact consumption oracle, deadlock detection",
  "Request/response exchanges and back-to-back objects over pipes of seeded capacity; a reader that over-reads, waits for later bytes or leaves bytes shows as a deadlock, a content difference or a stream position difference."),
 "C03": ("deterministic simulation with fault injection: end of file, I/O error and peer crash at swept byte positions",
  "Each plan is first run fault free, then once per swept cut position (all positions when the document is short) with end of file, sticky and one-shot read errors and writer crashes; the outcome must be a diagnosed stop or exactly the complete leading objects."),
 "C04": ("deterministic simulation with fault injection: disk full, write errors, short and torn writes, crash and restart with only synced data surviving",
  "Saves through a simulated disk and through pipes, with a write fault at swept byte positions or a crash at swept steps, followed by recovery; success reported implies readable and equal after power loss, failure must be visible, the printed object unchanged."),
 "C05": ("deterministic simulation with fault injection: failing allocation swept over the positions of each operation",
  "Each plan is replayed with its n-th allocation failing (all n when few, a seeded sample otherwise; one failure or failing from then on); the only acceptable outcomes are a diagnosed non-zero stop, or a result identical to the fault-free one where the library does not need the block; operands are compared with their reference afterwards."),
 "C06": ("deterministic simulation: seeded preemptive schedules of 2-4 clients, each compared with its solo run",
  "Clients on disjoint data run under seeded schedules with preemption at every allocation, release, stream callback and diagnostic (a third of the plans: between any two basic blocks), with crashes and failing allocations in other clients; transcript, diagnostics and output must equal the solo run."),
 "C07": ("deterministic simulation: concurrent readers of one shared object under seeded schedules, write-protected shared memory",
  "The shared objects live in a write-protected arena: any store traps; results are compared with the solo run of each client."),
 "C08": ("deterministic simulation: seeded histories of clone, change, edit, free and owner crash across clients against reference contents",
  "Every client object has a reference content tree; after each operation all other live objects are compared with theirs; block ownership shows shared memory, AddressSanitizer shows use after release."),
 "C09": ("deterministic simulation: seeded histories of public operations with an allocator that accounts for every block",
  "At the end of each client every block it allocated must be gone; double releases, wild releases, use after release and out-of-bounds accesses are trapped during the run."),
 "C10": ("deterministic simulation: seeded histories of copy, single-field change and comparison against a reference equality",
  "Every leaf of every kind (numbers, names, flags, list lengths, union parts) is a candidate for the single change; both argument orders, NULL and empty operands are compared with the reference equality."),
 "C11": ("deterministic simulation: seeded edit histories, stepwise refinement against list-and-matrix reference models",
  "Every edit operation runs on the library object and on an independent plain model (decimal arithmetic included); contents are compared after every step, expected refusals run as faults, and the edited objects are printed, cloned, compared and freed in between."),
 "C12": ("deterministic simulation: relay chains of clients configured with different precisions, content compared as decimal text",
  "Clients with seeded precision configurations (including unset and unusable) relay documents whose numbers fit all of them; values and printed text must agree; precision changes run against the reference."),
 "C13": ("deterministic simulation: relay chains of clients with seeded registries of known extensions",
  "The reference removes exactly the extensions a client does not know; contents and the diagnostics naming each ignored extension are compared at every hop."),
 "C14": ("deterministic simulation with fault injection: corrupted bytes, lines and blocks in transit, bounded steps and memory",
  "1-6 seeded corruptions per document; the reader must stop with a diagnostic or return something that can be cloned, compared, printed, dumped and freed, within a step and memory budget and without an AddressSanitizer report."),
 "C15": ("deterministic simulation: each plan replayed under seven allocator fill and placement patterns, results compared",
  "Heap and stack contents are filled with different patterns and blocks are placed differently; every transcript, diagnostic and text must be identical."),
 "C16": ("deterministic simulation: seeded histories of integer operations on registers, stepwise refinement against independent decimal arithmetic, with failing allocations",
  "Banks of five registers at each precision; destination and operands alias at random, values cluster at the limits of the words; all registers are compared with decimal text after every step, and operations whose result does not fit must stop with a diagnostic."),
 "C17": ("deterministic simulation: seeded edit histories and injected inconsistencies, verdict compared with a reference predicate",
  "Structures come out of edit histories; zero to two inconsistencies (or harmless changes that look like one) are injected into a copy, and verdict, warning and unchanged content are compared with a reference predicate on the content tree."),
 "C18": ("deterministic simulation: seeded clients export SCoPs to a reference reader standing for a tool of the older format, among edit histories and with failing allocations",
  "Compatible SCoPs of 0-3 statements with 0-3 iterators, parameters and subscripts; the exported text is read by a small independent reader and compared entry by entry with what it was built from; incompatible ones must be refused."),
 "C19": ("deterministic simulation: seeded texts delivered in seeded pieces with read errors, item-exact comparison with what the text was composed of",
  "Texts are composed from known items with lengths around every buffer size, near-miss flags, blanks and comments; every item, the position after it and refusals are compared; substitution, tag contents and appending run against small references."),
 "C20": ("deterministic simulation: seeded clients print objects with seeded names among failing allocations; comments, headers and dumps parsed back and compared with the data",
  "Relations with rows of every shape comments distinguish, statements, multi-scop documents and dependences are printed with generated, given, missing or odd names; every comment is parsed into a linear form and compared with its row, every header with the columns; generated names, expressions and dumps are compared too."),
 "C21": ("deterministic simulation: seeded clients exchange documents with a stand-in for another tool that knows only the written definition of the format, among failing allocations, parallel clients and any stream behaviour",
  "An independent reader takes apart what the library prints and an independent writer states generated content in every way the definition allows (order of relations, counts given or omitted, layout, comments, noise before the document) or with one rule broken; content, refusals and positions are compared."),
}
NA = {
}
checks = [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
           "technique": t, "level": "exploration", "level_note": n + COMMON} for p, (t, n) in CHECKS.items()]
json.dump({"version": 1, "setup_cmd": "python3 tools/build.py /tmp/oslsim-setup-check && rm -r /tmp/oslsim-setup-check", "checks": checks,
           "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
           "notes": "No hooks in /repo: the library is compiled unchanged from the working tree and its libc symbols (allocation, exit, environment, stdio objects) are redirected at link time; preemption points inside basic blocks come from -fsanitize-coverage. Every check builds for itself; setup_cmd only verifies that the toolchain and the tree build."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
