#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = "runtime monitor: differential oracle (independent executable model) over generated executions, optimised and assertion-armed builds"
NOTE = "Every generated call of the real code is compared with an independent model (itself cross-checked against the C library). Assurance is the reach of the biased generators; assumes the model and the C library are right."
T = {f"C{i:02d}": (DIFF, NOTE) for i in range(1, 17)}
T["C02"] = ("runtime monitor: differential oracle plus a scripted nonce generator that injects inadmissible nonces", NOTE + " Nonce rejection is driven through a stand-in for the hmac-drbg dependency with the same interface.")
T["C08"] = (DIFF, NOTE + " Short strings over a DER-relevant alphabet are enumerated completely.")
T["C09"] = (DIFF, NOTE + " The oracle is a transcription of Bitcoin Core's lax parser, cross-checked against the C library's.")
T["C17"] = ("runtime monitor: complete table comparison, hostile allocators (garbage-filled memory, injected allocation failure)", "All 17408 table entries are compared with the model; allocation failure is injected at every allocation of context construction, in child processes.")
T["C18"] = ("sanitizers and interpreters: AddressSanitizer, valgrind memcheck, Miri, overflow/debug assertions, cross-build transcript comparison under a hostile workload", "A run-time monitor sees only executed paths; the workload chains every public entry point on hostile data. Assumes the sanitizers report what they claim.")
T["C19"] = ("runtime monitor: transcripts of one workload compared across every feature combination and build profile, and under Miri for a 32-bit and a big-endian target", "Each documented combination is built and run; transcripts must be identical. The build without std is linked for a target without std.")
T["C20"] = ("runtime monitor: history/permutation and concurrency oracle, plus ThreadSanitizer on first-use races", "Every call is repeated after other histories and from many threads and must give the recorded answer; ThreadSanitizer watches lazily initialised state. Schedules are sampled, not enumerated.")
T["C21"] = ("runtime monitor: memory scan at deallocation (allocator and stack monitors) in optimised builds", "The bytes the secret occupied are read back after the wipe, before anything else can reuse them, in -O3 and LTO builds.")
T["C22"] = ("runtime monitor: instruction and table-access traces under valgrind, compared between secrets", "Instruction counts and touched table locations are compared for structured and random secrets; a leak that needs a secret pattern not in the sample would be missed. Micro-architectural effects are out of scope.")
T["C24"] = ("runtime monitor: model-based random walks, every value shadowed by an independent model and compared in use", NOTE + " Walks are sampled; what each reached is counted in the evidence.")
T["C25"] = ("runtime monitor: model cursor checked after every decoder operation", NOTE.replace(" (itself cross-checked against the C library)","").replace(" and the C library are right"," is right"))
T["C23"] = ("runtime monitor: painted stacks and a counting allocator around every operation, in optimised and unoptimised builds", "Sees the stack and heap used by the executed calls; stack that is reserved without being touched is seen through the page probes only.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
import re
have = set(re.findall(r"^def check_(C\d+)", open(os.path.join(V, "tools", "special.py")).read(), re.M))
for p in props:
    i = p["id"]
    if 16 < int(i[1:]) < 24 and i not in have:
        na.append({"property": i, "reason": "check under construction"})
        continue
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough", "technique": t, "level": "exploration", "level_note": n})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
