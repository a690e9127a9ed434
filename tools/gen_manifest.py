#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
P = "property-based testing: "
T = {
 "C01": P + "generated frames, round trip through the code and field-by-field comparison with the generated arguments",
 "C02": P + "generated frames, differential against an independent encoder written from the protocol text",
 "C03": P + "generated hostile byte strings, invariant on outcome, allocations and buffer accesses",
 "C04": P + "generated byte strings, differential against an independent decoder written from the protocol text",
 "C05": P + "generated malformed byte strings, differential against the set of errors an independent decoder allows",
 "C06": P + "generated frames, announced length against bytes appended to a prefilled buffer",
 "C07": P + "metamorphic relation: the same bytes in one piece and in generated pieces and buffer types",
 "C08": P + "generated accepted byte strings, decode/encode/decode round trip",
 "C09": P + "generated payloads and chunk sizes, reference model of the chunk sequence",
 "C10": P + "generated payloads fragmented, encoded, cut and possibly corrupted, reassembly compared with the original",
 "C11": P + "model-based operation sequences, the buffer list against a plain byte string",
 "C12": P + "model-based histories, the allocator against a reference allocator",
 "C13": P + "generated groups of callers, their interleavings run under loom and with real threads, invariant on the ids",
 "C14": P + "model-based histories, the counter against exact integer arithmetic",
 "C15": P + "generated groups of callers, their interleavings run under loom and with real threads, linearizability oracle",
 "C16": P + "model-based call sequences with injected refusals, recorded frames against the caller's payloads",
 "C17": P + "generated calls and generated schedules on real threads under a baton scheduler, per-call oracle on recorded frames",
 "C18": P + "generated timeouts and schedules on a virtual clock, bounds on the recorded closes",
 "C19": P + "generated status histories on a deterministic runtime, observed events against published ones and poll counts",
 "C20": P + "every well-known type exhaustively and generated near-miss strings, table oracle and round trip",
 "C21": P + "every protocol error code and generated errors, classification table oracle",
 "C22": P + "generated builder call sequences, reference model of the builder plus round trip",
 "C23": P + "generated out-of-range arguments, reduced-or-refused oracle and round trip, in builds with and without debug assertions",
 "C24": P + "all 65,536 header values exhaustively, protocol table oracle",
 "C25": P + "all 24-bit integers exhaustively and generated larger ones and versions, arithmetic oracle",
 "C26": P + "generated builder call sequences, reference model of the payload",
 "C27": P + "generated call histories with injected refusals, wire interleavings and buffer cuts, end-to-end round trip to a reassembling peer",
 "C28": P + "generated pairs of frames and payloads and single-bit changes to them, equality against an independent reading of both",
 "C30": P + "generated histories over several requesters, buffer lists, id providers and counters in turn, each compared with its own reference model; several requesters on one simulated clock",
 "C29": P + "generated sequences of questions to the codec, asked in several orders, from a shared buffer and from three threads at once; the first answers are the reference for all others",
}
N = {
 "default": "Generated-input search, not proof: quantifies over the cases generated in this run (count, rule and samples in the evidence), each run in a debug-assertion build and in a release build. Trusts the oracle in harness/src and the installed compiler.",
 "C13": "Every interleaving loom can enumerate of each generated group of 2-3 callers (up to three preemptions for the larger groups), plus real threads; larger groups and weak-memory behaviour of the DashMap in-use set are only sampled by the real threads.",
 "C15": "Every interleaving loom can enumerate of each generated group of 2-3 callers (up to three preemptions for the larger groups), plus real threads for larger ones.",
 "C17": "Generated schedules that switch threads at call and frame boundaries; finer interleavings of stream id allocation are C13's.",
 "C18": "Timers run on tokio's paused clock: exact, and no wall time enters. Timeouts up to 100 days, as that clock misbehaves beyond 2^36 ms.",
 "C24": "Exhaustive: all 65,536 header values, in both builds.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
assert ids == sorted(T), (ids, sorted(T))
m = {
 "version": 1,
 "setup_cmd": "bin/check --build",
 "hooks": {
  "guard": "--cfg binate_verif",
  "enable": "RUSTFLAGS='--cfg binate_verif' (the interleaving checks of C13 and C15 add '--cfg loom'), set by bin/check for the crates under /verif, which depend on /repo/binate by path",
  "source_commits": ["6e7d77343706d7dfe79a2fa9c69a42d5b907b1e0"],
 },
 "checks": [{
  "property": i,
  "quick_cmd": "bin/check %s --tier quick" % i,
  "thorough_cmd": "bin/check %s --tier thorough" % i,
  "technique": T[i],
  "level": "exploration",
  "level_note": N.get(i, N["default"]),
 } for i in ids],
 "not_applicable": [],
 "notes": "bin/check ID --replay FILE runs one recorded case again. Findings: known_findings.txt. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
