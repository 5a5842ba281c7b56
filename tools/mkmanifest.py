#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
CALL = ("{}, model checked with TLC (definition = algorithm-shaped form over all vectors of small widths{}); calls enumerated by the specification (GenCalls) and random "
        "calls are performed by the code in debug and release builds and every recorded call has to satisfy the contract in Calls (TraceCalls)")
W = ", and carry/shift/compare word algorithms in WordAlg refine it for small word sizes"
T = {
 "C01": "Canon: canonical form as an invariant over register programs; random programs and GenCalls' enumerated calls, every result fed back, validated by TLC (TraceCanon); Bits/WordAlg model checked",
 "C02": CALL.format("Bits arithmetic", W), "C03": CALL.format("Bits shifts", W), "C04": CALL.format("Bits bitwise operations", W),
 "C05": CALL.format("Bits slice/concat/extensions", W), "C06": CALL.format("Bits orders", W), "C08": CALL.format("Bits/Calls machine integer conversions", ""),
 "C09": CALL.format("Text/Digits printing", ""), "C10": CALL.format("Text/Digits parsing (accepted, too wide, invalid)", ""), "C11": CALL.format("Bits/Calls byte and big-integer conversions", ""),
 "C12": CALL.format("Calls fixed point values", ""),
 "C07": "Coherence: the order answered so far as a growing partial order, abstract maps; walks over WalkMaps cover every transition of the map model and are performed by the code; recorded pairs, maps and sorts validated by TLC (TraceCoherence)",
 "C13": "Regs: register machine; walks cover every transition of WalkRegs and are performed on owned values, views and registers in one store; recorded histories validated by TLC (TraceRegs)",
 "C14": "Slab: word store; walks cover every placement of destination and sources in WalkSlab and are performed by the code; recorded accesses validated by TLC (TraceSlab)",
 "C15": "Interner: injective map from values to disjoint ranges; walks cover every transition of WalkInterner and are performed by the code; recorded histories validated by TLC (TraceInterner); MCBulk justifies the bulk step",
 "C16": "Arrays (total functions as default and exceptions), shown equal to Tables (plain tuples) by TLC; walks over MCArrays performed by the code; recorded histories validated by TLC (TraceArrays; TraceTables for up to millions of elements)",
 "C17": "Arrays/Tables: conversions as identity on contents, sparse entries as exact exceptions; walks over MCArrays performed by the code; recorded histories validated by TLC (TraceArrays, TraceTables)",
 "C18": "Arrays/Tables: extensional equality; in every state of MCArrays both arrays are compared by the code; recorded histories validated by TLC (TraceArrays, TraceTables)",
 "C19": "Arrays, Tables and Regs with serialization as the identity action; walks over MCArrays and WalkRegs with every copy serialized; recorded histories validated by TLC (TraceArrays, TraceTables, TraceRegs)",
 "C20": "TraceProfiles: every call, of all drivers and of GenCalls' enumerations, in both builds as one event; contract violations refused in debug, reduced modulo 2^w in release; validated by TLC",
 "C22": "TraceFeatures: every call, of all drivers and of GenCalls' enumerations, in builds with all, single and no features as one event: equal, or an operation of an absent feature; validated by TLC",
 "C21": "Values: slots with opaque payloads; walks cover every transition of MCValues and are performed by the code; recorded histories validated by TLC (TraceValues)",
}
checks = []
for c in sorted(T):
    checks.append(dict(property=c, quick_cmd=f"python3 check.py {c} --quick", thorough_cmd=f"python3 check.py {c} --thorough",
        evidence_file=f"evidence/{c}.json", technique="TLA+ specification checked with TLC and bound to the code by trace validation. " + T[c],
        level="model_checking",
        level_note="The specification is model checked exhaustively for small constants; the code is decided on the recorded behaviours (every event in debug and release builds has to match an action of the specification). Trusts TLC, the harness' logging through the public API, and that behaviours beyond those driven are alike."))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
    notes="No hooks in /repo: every observation goes through the public API. fix: commits in /repo are listed in known_findings.json."), open("MANIFEST.json", "w"), indent=1)
