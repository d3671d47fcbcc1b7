#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
T = "generated-input search (choice-tape property testing with shrinking): "
N = {
 "C01": (T + "random, mutated and grammar-built packets walked in generated ways; no-panic/termination/count invariants; libFuzzer in thorough",
         "Each quick run walks some 10^5 hostile packets with overflow checks and debug assertions on, with a CPU and memory guard per case. Trusts the watchdog's 30 s CPU limit as 'hang'."),
 "C02": (T + "differential against an independent RFC 1035/6762 parser, on well-formed and damaged messages",
         "Every field of every entry is compared; compression layouts, walking orders, trailing bytes and damage are generated. Trusts the reference parser, which is itself checked against the generating model."),
 "C03": (T + "generated pointer graphs against an independent name reader; metamorphic resume check",
         "Pointer chains, overlaps, self, forward and broken targets, deep chains up to the 14-bit offset range."),
 "C04": (T + "round-trip through encoder, library decoder and independent parser",
         "All supported record types, classes, TTLs, dirty buffers, finish/drop; messages up to hundreds of entries and far offsets."),
 "C05": (T + "every buffer size of generated messages (exhaustive per message) against the exact wire size; prefix oracle",
         "For each generated message all sizes from the header up to past the full length are tried (sampled for big ones)."),
 "C06": (T + "exhaustive flag words and model-based setter histories",
         "All 65536 flag words x all setters with boundary values; random setter sequences against a bit-level model."),
 "C07": (T + "all label lengths, generated texts and construction histories against a model",
         "Includes non-UTF-8 labels, every text over a small alphabet, and all ways of building the same name."),
 "C08": (T + "typed views compared with an independent rdata reader under every RDLENGTH near the boundary",
         "Neighbouring bytes are varied so that any read past the record's data changes the outcome; entries after the record are checked."),
 "C09": (T + "exhaustive 16-bit codes against the matching rule and IANA tables",
         "All 65536 query types/classes against a related set of record codes plus random others."),
 "C10": (T + "histories of registrations and queries against a model database",
         "Responses are parsed by the independent parser and compared with the multiset of matching records; large set-ups reach truncation."),
 "C11": (T + "packet histories on one advertiser, each answer compared with a fresh advertiser; floods of matches",
         "Garbage, mutated, foreign-opcode and proper packets interleaved; floods exceed 65535 answers."),
 "C12": (T + "end-to-end discovery over generated registrations, in memory and over multicast in a private network namespace",
         "Multicast runs use real sockets, sync and async clients; a mismatch must repeat with much longer time limits before it counts."),
 "C13": (T + "generated TXT entries and add_flag histories against a key/value model",
         "Order of iteration is not checked (documented FIXME); everything else is."),
 "C14": (T + "generated PTR targets, including near misses, against a parse model",
         "Which error kind is reported is not checked."),
 "C15": (T + "generated queries and responses against the independent parser",
         "The expected id is taken from the query the library itself encodes."),
 "C16": (T + "scripted fake servers on loopback sockets against a model of the receive loop, sync and async",
         "Scripts end with a sentinel answer, so no verdict depends on timing; a failing case must fail again."),
 "C17": (T + "scripted packet histories from a fake server against a de-duplication model, sync and async",
         "As C16."),
 "C18": (T + "scripted packet histories from a fake server against a model of SRV/TXT selection, sync and async",
         "Which of several TXT records is kept is not checked."),
 "C19": (T + "fault injection: a fake server loses generated numbers of queries or sends useless packets; sync and async",
         "Only lower bounds of time and very generous upper bounds (25 s) are used."),
 "C20": (T + "packet histories sent by several clients to a listening advertiser in a private network namespace; answers compared with the packet handler's",
         "Sentinel queries delimit what was processed, so no verdict depends on timing."),
 "C21": (T + "packet histories sent to a running tap with captured log, compared with the independent parser",
         "Sentinel packets delimit what was processed."),
 "C22": (T + "generated hostile data rendered as text; alphabet and field-order oracle",
         "Checks the alphabet of every rendering and the presence and order of fields, not the exact layout."),
"C23": (T + "generated schedules and abandonment histories of asynchronous operations on one executor, against scripted servers",
         "Interleavings are driven by packet order and generated polling patterns; the answers to an abandoned call arrive before the next query."),
"C24": (T + "histories of several advertisers and taps on one port in a network namespace; multiset of responses of fresh packet handlers as oracle",
         "All on one host; the instances' names differ."),
"C25": (T + "histories of several scripted multicast responders against the resolver and discovery models",
         "Link is a virtual device or loopback; skipped parts (no IPv6 multicast) show in the evidence classes."),
"C26": (T + "fault injection: the network of a namespace or the server's port goes away and comes back at generated points of a history, signals interrupt calls and daemons, system calls fail; error and result models",
         "Faults are lost addresses (sending fails), a device that is down (packets get lost) and closed ports; without namespaces only the last."),
"C27": (T + "long generated histories (calls, failures, abandoned calls, objects, packets handed over by replaced receive functions) with the heap, descriptors and threads measured after a quarter and at the end; result models",
         "Growth below 32 KiB, 16 descriptors or 16 threads over a history is taken for a cache or pool."),
}
import sys
claimed = json.load(open("tools/claimed.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/thorough {i}",
                       "technique": N[i][0], "level": "exploration", "level_note": N[i][1]})
    else:
        na.append({"property": i, "reason": "check still under construction"})
m = {"version": 1, "setup_cmd": "bash -c '. bin/build.sh'", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observed through the public API, the log crate and sockets. Fixes are listed in known_findings.txt."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
