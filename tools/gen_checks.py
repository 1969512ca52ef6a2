"""Writes tools/checks.json: what each registered check does (used by check.py)."""
import json, os
T = "deterministic simulation with fault injection: seeded "
C = {}
def c(p, technique, note, level="exploration", **kw):
    C[p] = dict(technique=T + technique, note=note, level=level, **kw)
ENC = "the sender model's own syntax writer and the parameter-set table are trusted as the reading of H.265; elements the library does not implement are not coded"
c("C01", "sender/network/receiver sessions, compared field by field with the sender's own values",
  "Seeded exploration; every report of an intact unit is compared with the complete value tree its sender coded. " + ENC,
  assumptions=[ENC])
c("C02", "parameter-set histories with faults and receiver restarts, refinement against a reference parameter-set table",
  "Seeded exploration; the parser state is compared with the reference table after every delivery, and slices with a fresh receiver holding the same sets.")
c("C03", "byte-stream framing with damage, compared with a reference start-code splitter and the sender's own layout",
  "Seeded exploration over unit sizes, start-code lengths, look-alikes, junk, truncation and in-unit damage.",
  state="hash of the stream", clock="one step per stream buffer")
c("C04", "length-prefixed framing with damaged length fields and truncation, compared with a reference reader",
  "Seeded exploration; buffers are exactly sized heap blocks under AddressSanitizer, so an overrun is a violation too.",
  state="hash of the buffer", clock="one step per buffer")
c("C05", "RTP packetisation with loss, duplication, reordering, damage; units compared with the sender and with stand-alone parsing",
  "Seeded exploration of single/aggregation/fragmentation packets over a faulty simulated network.")
c("C06", "configuration records followed by samples, compared with in-band delivery; truncation and damage at every kind of place",
  "Seeded exploration; records of any arrays and unit counts, cut and damaged, then samples.", clock="simulated record and sample times")
c("C08", "paired sessions: long-running receiver vs fresh receiver with the same sets, dirty memory, restarts, convergence after faults stop",
  "Seeded exploration; every report is compared with one made on a fresh state and differently filled heap and stack.")
c("C07", "twin sessions: the same schedule delivered damaged and undamaged, compared unit by unit",
  "Seeded exploration; every unit that neither was damaged nor depends on a damaged or lost set must be reported identically in both twins, over every carrier.")
c("C09", "seeded orders of parsing, replacing sets, freeing and scribbling buffers, dropping states and results, re-reading every retained result",
  "Seeded exploration under AddressSanitizer; every retained result is re-read (all fields and its dump) after later operations and must be what it was.",
  clock="one step per caller operation (parse, dump, free, overwrite, drop, destroy)",
  state="hash of the retained results and live objects",
  rule="one run = one seeded history of caller operations over one or more parser states and many retained results; runs are distinct when their event log differs; runs that retained nothing are discarded")
c("C10", "hostile senders and damaged deliveries into every entry point of one session, under AddressSanitizer and UBSan in forked workers",
  "Seeded exploration; any crash, abort, sanitizer report or unbounded loop is a violation. Allocation failure is not injected (the library is built without a way to report it).")
c("C11", "hostile senders and damaged sessions with executed code edges as the simulated clock and a metered allocator",
  "Seeded exploration; each call's executed edges, allocated bytes and dump output are held against linear bounds of the bytes given plus stored sets, and growth families n, 2n, 4n, 8n look for super-linear work.",
  clock="executed code edges of the library", state="hash of (parameter-set table, leading bytes of the delivery)")
c("C12", "thread scheduler: real threads, one running at a time, switched at basic-block edges of the library",
  "Seeded exploration of interleavings (random, bursty, PCT-like and targeted switch plans) of whole sessions and of shared-result readers; each session's reports are compared with its solo run. Weak-memory effects are not simulated (one thread runs at a time).",
  clock="executed code edges of the library, all threads", state="hash of (thread, edge) at the switches taken",
  rule="one run = two to several threads, each with its own session (or reading and dumping shared finished results), interleaved by one seeded schedule; runs are distinct when the schedule or reports differ; runs without a switch inside the library are discarded",
  real=["the whole h265nal library, on real pthreads"],
  stub=["the thread scheduler (which thread runs after each executed edge)", "sender model, packetiser, heap and stack fill"])
IOREAL = ["h265_utils.cc ReadFile, the whole library and libc stdio, compiled from /repo's working tree, in an own process"]
IOSTUB = ["the kernel: every open, read, write, seek, stat, close of the simulated files and standard streams is answered by the simulator through ptrace"]
c("C13", "simulated kernel under the real ReadFile: short reads, EINTR, EIO, failing opens/seeks/stats, files that shrink or grow at any system call",
  "Seeded exploration; success is believed only with exactly the simulated file's or stream's bytes, and fault-free or merely short reads must succeed.",
  clock="10 us per simulated system call", state="hash of the sequence of (system call, outcome)",
  rule="one run = one process reading one or more simulated files or the simulated standard input through ReadFile while the simulated kernel decides the outcome of every system call; runs are distinct when the log of system calls and outcomes differs",
  real=IOREAL, stub=IOSTUB)
c("C14", "simulated kernel under the real command-line tool: short and failed writes, full disk, EINTR, failing opens, reads, seeks and closes, damaged inputs",
  "Seeded exploration over options, inputs and fault sequences; status zero is believed only with the complete output the library gives in-process for the same bytes and options. Changes of --help/--version text are not judged.",
  clock="10 us per simulated system call", state="hash of the sequence of (system call, outcome)",
  rule="one run = one execution of the tool on a simulated input under seeded options while the simulated kernel decides the outcome of every system call; runs are distinct when options, input or the log of system calls differ",
  real=["the command-line tool, the whole library and libc stdio, compiled from /repo's working tree, in an own process"], stub=IOSTUB)
c("C15", "sessions whose receivers query slice QP on streams and packets under loss, damage, PPS replacement and restarts, against the sender's own QPs",
  "Seeded exploration; intact independent slices must give the sender's QP, other decodable slices 26 plus the values parsed unit by unit at that point; parameter sets after a query equal those of parsing.",
  state="hash of (PPS table, leading bytes of the delivery)")
c("C16", "sessions whose retained results are dumped in every form, indent and option set, repeatedly, onto full or unbuffered outputs, parsed back and compared with the result's fields",
  "Seeded exploration; every printed name/value must equal the field the result holds, fields that are always printed when present must be printed, the one-line and indented forms must say the same, and no dump may change the result. Field names printed under another name are mapped in the harness; the table of always-printed fields is sim/dump_fields.inc.",
  state="hash of (parameter-set table, leading bytes of the delivery)")
c("C17", "deliveries of the same unit over several carriers, with in-word damage, against a reference checksum and the sender's own bit counts",
  "Seeded exploration; checksum, presence of metadata, and parsed length are compared with an independent computation for intact and damaged units.")
c("C18", "one session delivered twice over different carriers, groupings and metadata options, with the same in-unit damage",
  "Seeded exploration; all reports and the resulting parameter-set tables must agree between the two deliveries.")
c("C19", "truncation faults at byte positions before the end of the mandatory syntax, over every carrier, inside running sessions",
  "Seeded exploration; a unit cut before its last mandatory bit must have no decoded payload and must not change the stored sets.")
c("C23", "sessions with rule-breaking senders (one element beyond its limit, or many) and damage, over every carrier; invariant over every report and stored set",
  "Seeded exploration; a unit whose only fault is one element beyond its limit must be refused and change nothing, and no report or stored set may hold a value beyond its limit or a list whose length differs from its count.",
  state="hash of (element, size of the unit)")
NA = {
 "C20": "pure lookup on one value: there is no concurrency, time, I/O, history or fault for a simulated schedule to decide; a plain table comparison would be another technique",
 "C21": "pure function of one structure's flags: no schedule, history or fault for the simulation to decide",
 "C22": "sequential in-memory encode/decode of one value sequence, and the bit writer is not used by the parser at all: no schedule, history or fault to simulate",
}
for k, v in NA.items():
    C[k] = {"na": v}
json.dump(C, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks.json"), "w"), indent=1)
