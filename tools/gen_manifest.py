import json
T="deterministic simulation with fault injection"
note={
"C01":"real encoder builds against a simulated Write (short, interrupted, failing, zero, panicking writes; flush), concurrent and repeated calls; every accepted byte compared with the string API's document",
"C02":"real decoder builds against a simulated Read (short, interrupted, failing, panicking reads) over intact and damaged documents; result compared with the string API on the whole input",
"C03":"a store of files written, crashed, torn, relayed and read by five builds of the library under seeded schedules; every read compared with a reference model of the data",
"C04":"every prefix of small documents, sampled prefixes of larger ones; strict decoding judged by a model of what a cut may leave",
"C05":"lines and blocks lost, repeated, moved, swapped; the lengths declared in the damaged text are read by the model and compared with what was decoded",
"C06":"corrupted documents and fragment soups up to 64 KiB; panics, signals, hangs and allocation peaks observed per process, then an intact document is decoded in the same process",
"C07":"every participant of a Serialize tree can fail or panic at entry or exit, hints lie; results compared with the fault-free twin and the injected identity",
"C08":"every callback of a visitor can fail, panic or stop early; results compared with the fault-free twin and the injected identity",
"C09":"several clients, re-entrant calls, faults and preemption at every seam event; each result compared with the same call alone in a fresh process",
"C10":"the real binary under scripted read, write and open results and kills; exit status and bytes compared with what the library says is due",
"C11":"the global allocator of the node fails once or for good at a chosen allocation; the outcome compared with the fault-free twin",
"C12":"two real processes joined by a simulated pipe under scripted system calls and kills; final JSON compared with the original by the model",
"C13":"the same value written by several builds and entry points against simulated writers, then read and rewritten hop by hop across builds; all bytes compared",
"C14":"every encoder's documents mangled at one place found by a model of the layout; strict decoding compared with the same decoder's result for the intact document",
"C15":"rounds of the same faulted calls, and long successions of fresh ones, in one process; live bytes counted by the node's allocator after every round",
"C16":"any text (hand-written dialects, soups, damaged documents) read by every build and entry point through simulated readers, passed on by every build and read again; all results compared with one another by the model",
"C17":"every encoder's documents damaged at one place, and any other text, read strictly by every build through simulated readers; the line each refusal names compared with the place of the damage and with one another",
"C18":"builds that count their steps on a simulated clock (every basic block and every eight bytes moved) run the same call on data with one part repeated ever more often, through chunking readers and writers; steps and peak memory per byte compared across sizes",
"C19":"encoded and hand-written documents with seeded noise in their layout read by every build through simulated readers, strictly and leniently; each result compared with the same reader's result for the clean text",
}
na={
"N01":"a pure function of one number: no concurrency, time, I/O, crash or second party takes part, so there is no schedule or fault to search",
"N02":"a pure function of the value and the options: which layout and which quoting is chosen depends on no fault, schedule or history",
"N04":"a pure function of the value and the options: nothing a simulator controls influences it; that folded documents read back is C03",
"N06":"one comparison of the input's length with a constant: no schedule, fault or history enters it",
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[{"property":k,"quick_cmd":f"bash run.sh {k} quick","thorough_cmd":f"bash run.sh {k} thorough","technique":T,"level":"exploration",
 "level_note":note[k]+". Seeded search, not exhaustive: it is evidence over the executions run. Assumes the seams carry all the library takes from its environment and trusts the reference model in sim/sim/src/model.rs."} for k in note]
ids=[p['id'] for p in props]
assert set(ids)==set(note)|set(na),(ids)
json.dump({"version":1,"setup_cmd":"bash sim/build.sh def perf alloc std wasm cli sdef sperf salloc","checks":checks,"not_applicable":[{"property":k,"reason":na[k]} for k in na],
"notes":"No hooks in /repo: every seam is one the code has (Read, Write, Serialize, Deserialize, the global allocator, system calls of the tool)."},open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
