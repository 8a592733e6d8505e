#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RACE = "C15 C19 C20 C21 C22 C33".split()
T = {
 "C01": "runtime round-trip monitor: API-built packets encoded and decoded by the real code, every accessor compared with what was set",
 "C02": "runtime conformance monitor: every emitted byte string parsed by an independent reference decoder and compared with what was set",
 "C03": "runtime conformance monitor: wire packets from an independent encoder (short forms, permuted properties) decoded by the real code, accessors compared",
 "C04": "runtime acceptance monitor: enumerated and mutated malformed packets, verdicts compared with a reference decoder",
 "C05": "runtime totality and purity monitor with watchdog, panic detection, read-only mapped inputs and replayed histories",
 "C06": "runtime re-encode monitor: accepted packets (enumerated short bodies, random, mutated) re-encoded, re-decoded and compared",
 "C07": "runtime framing monitor: every prefix, every extension and every length-field form, reported lengths compared with the reference",
 "C08": "runtime buffer monitor: guard bytes, dirty and short buffers of every length around Encode",
 "C09": "runtime size-limit monitor: lazily mapped giant contents around the 268,435,455 boundary and beyond 32-bit sums",
 "C10": "runtime property-table monitor: exhaustive type x id x value grid through the setters and through the wire against MQTT 5 table 2-4",
 "C11": "online trace monitor: property operation histories against a last-value model through four views",
 "C12": "runtime grammar monitor: enumerated and random filters and names against an independent recogniser, parts compared",
 "C13": "runtime text monitor: enumerated malformed UTF-8 and controls in every text field against an independent UTF-8 checker",
 "C14": "runtime table monitor: all codes x types x versions through validity, setters and decoder against the specification's tables",
 "C15": "online model monitor of clone and original under setter histories, race detector on",
 "C16": "runtime clock monitor: each answer bracketed by two clock readings; objects watched across expiry",
 "C17": "online trace monitor: CONNECT setter histories, refused calls included, against a last-accepted-value model",
 "C18": "online trace monitor: PUBLISH setter histories, refused calls included, against a last-accepted-value model",
 "C19": "race detector plus differential monitor: concurrent scripts compared with the same scripts run alone",
 "C20": "race detector plus per-clone model monitor under concurrent fan-out",
 "C21": "race detector plus offline checkers of recorded counter histories (linear order, real-time order, conservation)",
 "C22": "race detector plus barrier-round monitor with quiescent-point bounds and monotone observers",
 "C23": "runtime aliasing monitor: buffer overwritten under watched objects, objects changed under a watched buffer",
 "C24": "runtime allocation monitor: heap bytes per Decode call on lying and dense inputs against a linear bound",
 "C25": "runtime identifier monitor: all 65,536 identifiers for every type and version through setters and wire",
 "C26": "runtime conversion monitor: version switches compared with expected content by the reference decoder",
 "C27": "runtime list monitor: order, count and early stop on object and wire, up to 70,000 entries",
 "C28": "runtime gating monitor: exhaustive type/version/level/name grid through New, Decode and Valid",
 "C29": "runtime differential monitor: random configuration maps against the expected map, input re-checked afterwards",
 "C30": "runtime vocabulary monitor: exhaustive value ranges of status, access and error types",
 "C31": "runtime field monitor: all lengths and buffer sizes through WriteLPBytes and ReadLPBytes with guard bytes",
 "C32": "runtime option monitor: all 256 option bytes per version through accessors, API and wire",
 "C34": "exhaustive table monitor: every value of every byte-sized vocabulary against the specification",
 "C35": "runtime refusal monitor: the error of every refused packet, truncated and corrupted at every position, against the specification's reason code tables",
 "C36": "runtime emission monitor: hostile setter histories on every packet type, everything that Encode emits parsed by the reference decoder and by the library",
 "C37": "online trace monitor: call histories on pairs of acknowledgement and subscription packets sharing arguments, against a last-accepted-value model",
 "C38": "runtime retention monitor: weak pointers to dropped objects, live heap and goroutine counts before and after",
 "C39": "runtime complexity monitor: CPU time per operation and input shape at two sizes, growth compared with proportionality",
 "C40": "runtime monitor: packets built and read by name compared with the specification's numbers on the wire (reference codec)",
 "C41": "runtime monitor: snapshots of packet content, encoding and caller-owned values before and after reading operations",
 "C33": "race detector plus value monitor on concurrently queried descriptors",
}
N = {
 "base": "Exploration: holds on every execution made, which are generated from VERIF_SEED. Trusts the reference model in harness/ref (written from the MQTT specifications, sharing no code with the library), the adapter that reads packets through public accessors, and the Go toolchain.",
 "race": " Race detector reports inside the library count as violations; schedules are sampled by the Go scheduler under stress, not enumerated.",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "env VERIF_TIER=thorough ./check.sh " + i,
                   "technique": T[i], "level": "exploration", "level_note": N["base"] + (N["race"] if i in RACE else "")})
m = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks are needed in /repo: all monitors work through the public API. check.sh rebuilds against /repo's working tree on every run."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
