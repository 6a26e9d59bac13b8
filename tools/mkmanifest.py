import json
T="deterministic simulation: seeded search over thread schedules, injected faults and call histories, judged against a reference model"
PLAIN=T
NOTE="Sampled, not exhaustive. Trusts the reference model (sim/src/model.rs, url.rs, spec.rs), the simulated operating-system calls (sim/src/rt.rs), and that threads interact only at instrumented control-flow edges and calls into the system (one thread runs at a time; weak-memory reorderings are not simulated). "
extra={
"C01":"Deciding runs need a particular order of sections on the pool: two to six builders on pools of 1 to 8 workers, half of the maps spoiled in one respect.",
"C02":"Every section carries its own sources and contents, so each answer is attributable to one section.",
"C03":"Blames only what fails when failing calls and faults are present: each failing history is re-run without them, and a mismatch that stays is left to the property it belongs to.",
"C04":"Every client's history is re-run alone in a fresh process and must be answered identically.",
"C18":"Every client has a twin, and the plan is run again under another hash seed, pool size, scheduler, clock and number of earlier objects; the bytes must be equal.",
"C17":"Faults are in the stored bytes: truncation, bit flips, overwritten, lost, duplicated and swapped blocks.",
"C10":"Names of a shape the conventions do not settle (after damage) are only held to be resolved consistently.",
}
ids=[f"C{i:02d}" for i in range(1,20)]
na={
"N01":"a pure function of one integer, with no schedule, fault, clock or history for the property to depend on; the encoder is exercised through C14 and C16, which decide the guarantee users see",
"N02":"a pure function of a slice; exercised through C11 and C05, which decide what users see of it",
"N03":"a pure function of two strings; exercised through C10, C15 and, for concurrent first uses, C04",
"N04":"a pure function of two or three values; exercised through C14 and C19, which decide the order users see",
"N05":"a pure function of one value: which variant it is; every simulated build of a consumer goes through one accessor",
}
m=dict(version=1,setup_cmd="./build.sh",
 checks=[dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"./check.sh {i} thorough",technique=T,level="exploration",level_note=NOTE+extra.get(i,"")) for i in ids],
 not_applicable=[dict(property=k,reason=v) for k,v in na.items()],
 notes="No hooks in /repo: the seams are the operating-system calls the process makes (interposed symbols) and compiler-inserted callbacks on control-flow edges (sim/rustc-wrap.sh). VERIF_TIER selects the length of the search; DST_SECS overrides it. Replay: target/debug/dst replay <file>.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
have={json.loads(l)["id"] for l in open("/verif/properties.jsonl")}
assert have==set(ids)|set(na)
