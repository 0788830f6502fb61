#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; a property without a built check is listed as not claimed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("online monitor: reference server and OpenSSL observe real handshakes under varied workloads", "Every handshake of the workload is judged by an independent server that recomputes keys and both Finished values, and by OpenSSL over TCP. Samples the space of servers, randomness and fragmentations."),
"C02": ("man-in-the-middle fault injection with an accept/reject monitor", "Every byte position of every handshake message in both directions is altered (each with a few masks), plus structured edits; acceptance is observed on the real client. The adversary does not search for collisions of the primitives."),
"C03": ("trace monitor: accept/reject oracle over generated server message histories", "All single omissions, repetitions, insertions and swaps over the prescribed sequence at every position, every bit of Finished, and random longer histories; an independent automaton says which must be accepted."),
"C04": ("online monitor over exhaustive field values and hostile points", "All values of the small fields, and points from every class of invalid encoding; the oracle is membership in the offered set and the curve equation in independent arithmetic, plus the absence of a key share on the wire."),
"C05": ("online monitor: independent decryption and record checks of everything written", "Every record written is opened and checked by independent code while the transport splits, delays and interrupts writes."),
"C06": ("nonce recorder and independent decryption over long and faulted histories", "Records 70k+ per direction, plus jumps (hook) to 2^32 and the last numbers; every write operation of a session fails in turn while all sealed records are checked for nonce reuse."),
"C07": ("differential stream monitor over record sizes, buffers and transport schedules", "Bytes delivered are compared with bytes sent for each call under generated schedules."),
"C08": ("attacker fault injection with a prefix monitor", "Each byte position (every header byte, tag byte and a sample of payload bytes; all in thorough) and each edit kind at each record index; the prefix property is checked on every later read."),
"C09": ("history monitor over alerts and closures", "All 65536 alert bodies (sampled in quick, all defined descriptions always) and other ending records at varied stream positions; reads after the end are observed."),
"C10": ("panic, overflow and progress monitors under hostile traffic, debug and release builds", "Mutated, structure-aware and random traffic in every phase, in the clear and protected; panics, overflow checks, CPU time and reads at end of stream are observed."),
"C11": ("online monitor of the client's last records for every failure class", "Failure catalogue in every phase; the last record is opened with independent keys and compared with the reported error."),
"C12": ("differential codec monitor against an independent encoder and parser", "Generated values, mutated encodings and all cuts, against independent encoders."),
"C13": ("differential monitor against independent SHA-256/HMAC/PRF", "All lengths around block boundaries up to several KB, sampled longer ones, one of 2^29 bytes and more; standards' known answers."),
"C14": ("differential monitor against independent ChaCha20-Poly1305", "All short lengths, sampled longer ones, and inputs constructed for carry and reduction limits; independent implementations in two forms."),
"C15": ("differential monitor against independent P-256 arithmetic", "Structured and random scalars, points and field elements, against arbitrary-precision arithmetic; intermediate operations included."),
"C16": ("system-call interposition and bit-influence monitor", "The random source is interposed; every drawn bit is flipped in turn and its effect on the wire observed; repetition is observed across connections and threads."),
"C17": ("valgrind taint tracking of secrets and instruction-count comparison", "Secrets are marked undefined, so that memcheck reports any branch or address that depends on them, at instruction level in an unoptimised build; instruction counts of accept/reject paths are compared."),
"C18": ("Miri, AddressSanitizer and MemorySanitizer over honest and hostile workloads, results compared between builds", "The same generated work runs under debug assertions, AddressSanitizer, MemorySanitizer with an instrumented std (a larger amount) and Miri (a reduced amount: provenance, alignment, uninitialised memory); digests of all results have to agree between the builds. Only what is executed is judged."),
"C19": ("exhaustive single-fault enumeration over the transport operations of a session", "Each operation of several recorded sessions fails in turn in each way, and the stream ends at each byte; results, later calls and wire bytes are monitored."),
"C20": ("counting allocator as monitor under hostile length fields and long streams", "Peak and total allocation per call against a bound linear in the bytes received."),
"C21": ("differential monitor of connections in company against the same connections alone, ThreadSanitizer, Miri", "Connections interleaved on one thread, nested, on several threads, moved between threads, in fresh processes and next to failing neighbours give call by call what each gives alone (results, bytes sent, randomness drawn); ThreadSanitizer and Miri watch a part of the same work for data races. Schedules are sampled."),
"C22": ("CPU-time growth monitor: each scenario at a size and at eight times that size", "27 scenarios (long messages, many short parts, records and transport reads of a byte, long streams, old connections, the primitives) at n and 8n on the thread's CPU clock: growth above 26 times in six rounds of best-of-several is a violation. Growth that only shows beyond these sizes or outside these shapes is not seen."),
}
checks, na = [], []
for pid, (tech, note) in T.items():
    built = os.path.exists(os.path.join(here, "harness/src/bin/%s.rs" % pid.lower()))
    if built:
        checks.append({"property": pid, "quick_cmd": "VERIF_TIER=quick ./check " + pid, "thorough_cmd": "VERIF_TIER=thorough ./check " + pid,
                       "technique": "runtime monitoring: " + tech, "level": "fault_enumeration" if pid == "C19" else "exploration", "level_note": note})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "husk_verif (rustc --cfg)", "enable": "RUSTFLAGS='--cfg husk_verif' cargo build (the check runner does it)", "source_commits": ["71b989eb42d45418bdf14dadd34cc1a02b07a8d4", "4cabd95cc9c864570fe3d165460d8712a9752c75"]},
     "checks": checks, "not_applicable": na,
     "notes": "./check Cxx [--only group/index] runs one property or replays one case. Defects found and repaired: known-findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
