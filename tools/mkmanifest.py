#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T={
"C01":"property-based testing against a naive reference search",
"C02":"property-based testing against a naive reference search",
"C03":"property-based testing against a reference index",
"C04":"property-based metamorphic testing: statement words find their document",
"C05":"property-based testing: tamper with answers, compare the index before and after",
"C06":"property-based testing against a byte-level reference tokenizer",
"C07":"property-based testing against reference filters and the Snowball stemmer, one token at a time",
"C08":"property-based metamorphic testing of rewritten queries and statements",
"C09":"property-based testing against the Snowball definition",
"C10":"model-based stateful property testing",
"C11":"model-based stateful property testing",
"C12":"model-based stateful property testing under generated worker schedules",
"C13":"model-based stateful property testing with exact deadlock detection",
"C14":"stateful property testing: keep answers, tamper, re-read",
"C15":"generated histories and schedules, linearizability against the sequential model",
"C16":"generated concurrent histories and schedules, loss and duplication accounting",
"C17":"generated concurrent histories and schedules under the race detector, exact deadlock detection",
"C18":"property-based round-trip and differential testing against encoding/json, mutation fuzzing",
"C19":"property-based round-trip testing of saved indices",
"C20":"property-based testing of pairs of documents",
"C21":"property-based metamorphic testing over generated schedules",
"C22":"model-based stateful property testing with a recording index under generated schedules",
"C23":"property-based testing on generated index views against set intersection",
"C24":"property-based metamorphic testing over extended histories and queries",
"C25":"model-based stateful property testing of the dump",
"C26":"property-based testing against the documented order",
"C27":"model-based stateful property testing of interleaved histories under generated schedules and the race detector",
"C28":"stateful property testing under generated schedules, counting what is left",
"C29":"stateful property testing with recording analysers and engines against a model",
"C32":"stateful property testing of reading plans against the answer read at once",
"C31":"stateful property testing with weak references and the garbage collector as oracle",
"C30":"property testing over shapes of posting lists, counting steps against the documented cost",
}
NOTE="Every case generated from the seed held against the oracle; nothing is claimed for cases not generated. Trusts the Go toolchain, rapid, the oracle in harness/props, "
SEQ=NOTE+"and the harness."
CON=NOTE+"and harness/vsync, which replaces package sync in an overlay of /repo's current sources (no change to /repo) and makes schedules part of the generated case."
rows=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
INSTR={"C10","C11","C12","C13","C14","C15","C16","C17","C21","C22","C25","C27","C28","C29","C30","C32"}
m={"version":1,
"setup_cmd":"python3 tools/setup.py",
"checks":[{"property":p["id"],"quick_cmd":"./check "+p["id"],"thorough_cmd":"VERIF_TIER=thorough ./check "+p["id"],
 "evidence_file":"evidence/%s.json"%p["id"],"technique":T[p["id"]],"level":"exploration","level_note":CON if p["id"] in INSTR else SEQ} for p in rows],
"not_applicable":[],
"notes":"No hooks in /repo: in-process access goes through the public API, and schedules through a build overlay made by harness/instr from /repo's current sources. Fixed defects: KNOWN_FINDINGS.txt. ./check ID --replay FILE reruns a saved case."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
