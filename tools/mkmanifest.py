#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a scenario in sim/."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(root + "/sim/sc_*.cpp"):
    have |= set(re.findall(r'Scenario\{\s*"(L\d\d)"', open(f).read()))
T = "deterministic simulation with fault injection: "
N = {
 "L01": ("seeded sender/receiver histories over a simulated lossy link against an independent OSC codec", "Sampled histories of build/serialise/send/decode with loss, duplication, reordering and delay; every datagram compared byte for byte with an independent encoder and decoder. Trusts the harness codec."),
 "L02": ("seeded damage to datagrams on a simulated link, guarded memory around every received byte", "Sampled damage (truncation, extension, bit flips, splices, forged sizes/types) in exact-size buffers under AddressSanitizer with a step budget; the validator's accepts are compared with a strict decoder. Trusts ASan and the simulated allocator."),
 "L03": ("seeded API histories under an accounting allocator", "Every block of the installed allocator is followed from allocation to release; blocks have guard zones, freed blocks are poisoned. Histories are sampled."),
 "L04": ("one seeded history replayed under several allocator personalities, traces compared", "The same history runs under 3-4 allocators (zeroed, garbage, recycled, moving or in-place realloc, shifted addresses); the full observable traces must be equal. Histories are sampled."),
 "L05": ("seeded allocation-failure points in histories of the operations that report errors", "Every allocation of a sampled operation is made to fail in turn; result, inputs, leaks and retry are compared with the same operation run without the failure."),
 "L06": ("seeded edit histories against an ordered-list model, simulated allocator", "Sampled histories; after each operation every view of the bundle is compared with a list model and an independent encoder and pattern matcher."),
 "L07": ("seeded edit histories against an ordered-list model, simulated allocator", "Sampled histories; after each operation the bytes are decoded by an independent strict decoder and compared with a list model."),
 "L08": ("seeded edit histories against a list model, simulated allocator", "Sampled histories; after each operation every view of the message is compared with a list of typed values."),
 "L09": ("seeded bind/rebind/rename/dispatch histories with re-entrant handlers against a table model", "Sampled histories with handlers that edit the table and dispatch again; calls recorded and compared with a reference dispatcher."),
 "L10": ("seeded query histories against an independent pattern matcher", "Sampled bundles, selectors and wildcard addresses; each result set compared with a reference partition."),
 "L11": ("seeded histories against map and sequence models, simulated allocator", "Sampled histories including forced collisions and destructor accounting."),
 "L12": ("simulated clock with steps, skew and second boundaries; arithmetic against 64-bit fixed point", "Clock readings and time tags are sampled with emphasis on boundary values; reference is 64-bit integer arithmetic."),
 "L13": ("simulated byte streams, interleaved and damaged, against a framing recogniser", "Sampled streams, interleavings and damage; accept, stickiness and restart compared with an independent decoder."),
 "L14": ("simulated threads preempted at every memory access by a seeded scheduler", "Each thread's trace under a seeded interleaving must equal its trace alone. Sampled thread programs and interleavings; sequentially consistent memory."),
 "L15": ("seeded expression programs against a reference interpreter", "Sampled programs over the language's operators and core functions on sampled bundles, compared with an interpreter written from the documentation."),
 "L16": ("seeded histories of parse, evaluate, copy, format, free with faults between, traces compared", "Sampled expressions evaluated repeatedly, copied, reformatted and interleaved with rejected inputs; each evaluation must repeat the first."),
 "L17": ("seeded text/bundle histories, exact-size buffers, simulated allocator", "Sampled bundles and texts; text compared with a reference formatter and parsed back, malformed text must be refused without a leak."),
 "L18": ("seeded explode/flatten histories against a tree model", "Sampled bundles and depths; the exploded form is compared with a reference tree, flattening restores the model."),
 "L20": ("seeded histories of questions about functions from a process without the kept tables, simulated allocator", "Sampled orders of questions; lists, documentation and argument counts are held against the function records and against each other. The records themselves are taken as the truth."),
}
# not claimed: id -> reason
NA = {
 "L19": "The numeric functions are pure functions of their arguments: no state, time, scheduling, I/O or fault is involved, so a simulated schedule or injected fault cannot affect them.",
}
checks, na = [], []
for l in open(root + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in have:
        t, n = N[i]
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": T + t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for this property yet.")})
m = {"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the allocator seam (osc_set_mem) and link-time symbol renaming in the simulator's own build suffice. Fixes in /repo are listed in known_findings.txt."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
