#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after editing it)."""
import json
T="deterministic simulation with fault injection"
claimed=[
("C01",T+": seeded I/O error, short-write, quota and lost-close sequences against a healthy reference run"),
("C02",T+": the same fault space on listing and label files against a healthy reference run"),
("C03",T+": faults and crashes on redirected echo targets; prefix/exactly-once oracle over the redirection history"),
("C04",T+": read/open/seek faults and truncation on every input; silent use of a partial input is the violation"),
("C05",T+": crashes, rejections and unreadable inputs; invariant over the ordered operation history"),
("C06",T+": crash/failed-run histories followed by a fault-free rerun, compared with a clean directory"),
("C07",T+": every mutating operation of the history checked against the set of requested targets, under faults"),
("C08",T+": same inputs under different clocks, heap/stack garbage, addresses, environment, chunking"),
("C09",T+": seeded interleavings of 2-4 assembler processes over a shared simulated disk, compared with solo runs"),
("C10",T+": atomic replacement of inputs at seeded points of the operation history; old-or-new oracle"),
("C11",T+": seeded histories of in-process assemblies through the library entry points, compared with a fresh process"),
("C12",T+": seeded programs and faults; printed diagnostics against exit status"),
("C13",T+": transient/permanent error storms, tiny transfers, special and truncated inputs; bounded-step progress"),
("C14",T+": seeded failing allocations"),
("C15",T+": simulated clock steps at seeded points of the run"),
("C16",T+": seeded search-path layouts with permission and vanish faults against a small lookup model"),
("C17",T+": console failures only; products and status compared with a healthy console"),
("C18",T+": descriptor limit and peak monitored while programs are replicated and faults injected"),
("C19",T+": seeded transfer-size schedules (short reads/writes, block sizes)"),
("C20",T+": every kind of seeded failure; a failing status without a line of explanation is the violation"),
("C21",T+": seeded kills, also in the middle of writes; what is left of each product against the finished one"),
("C22",T+": seeded interleavings of assemblers that append to one log, with kills and faults; interleaving oracle over the log"),
("C23",T+": the same seeded run with the simulated tree mounted at other places; products and console compared"),
("C24",T+": seeded histories of in-process assemblies with faults; descriptors counted between the assemblies"),
("C25",T+": seeded assemblies with lasting faults repeated in one process; bytes held compared between the rounds"),
("C26",T+": seeded programs that read back what they redirect x faults on those files; products against the same program with the text written out"),
]
notes={
"C08":"Seeded sampling. Environment variation is what the simulator controls: clock, addresses, fresh-memory contents, allocator policy, environment variables, descriptor numbers, transfer sizes.",
"C11":"Seeded sampling of histories. dll.cpp is compiled with a small Windows shim (sim/dllshim.h); ended-process histories are discarded as vacuous.",
}
base="Seeded sampling, not proof: every explored run satisfied the property. Trusts the simulated kernel's model of POSIX files, descriptors, clock and allocator (sim/kernel.cpp); assembler sources and glibc stdio run for real."
pure={
"C31":"A pure function of the source text: no schedule, clock, fault or interleaving changes the encoding, so there is nothing for a simulator to decide beyond generating inputs.",
"C32":"Expression values are a pure function of the source text; no fault or schedule is involved.",
"C33":"Text expansion is a pure function of the source text; no fault or schedule is involved (leaks of its state between in-process runs are C11).",
"C34":"Container layout is a pure function of the image bytes and file name; delivery of those bytes under faults is C01/C19.",
"C35":"Agreement of listing, label file and image for one source is a pure function of that source; completeness under faults is C02.",
"C36":"Counters are a pure function of the source text.",
"C37":"Robustness against malformed source text is an input-space question without faults or schedules; the simulator only reaches it where a truncated or unreadable file produces such text (C13).",
}
checks=[]
for i,t in claimed:
    checks.append(dict(property=i,quick_cmd=f"bash ./check.sh {i}",thorough_cmd=f"bash ./check.sh {i}",evidence_file=f"evidence/{i}.json",technique=t,level="exploration",level_note=(notes[i]+" " if i in notes else "")+base))
json.dump(dict(version=1,setup_cmd="bash sim/build.sh dll",checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in pure.items()],
 notes="No hooks in /repo: every system call, clock read and allocation of the real sources is intercepted below libc (seccomp trap and link-time wrapping). VERIF_TIER=thorough raises the number of seeded groups and the time cap."),open("MANIFEST.json","w"),indent=1)
open("MANIFEST.json","a").write("\n")
