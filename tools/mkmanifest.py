#!/usr/bin/env python3
# Regenerates MANIFEST.json.
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
T={ # property: (technique, level, level_note)
"C01":("runtime monitoring: offline losslessness checker over parses of generated, mutated and enumerated texts","exploration","Every parse is judged by an independent tiling and text check; explores generated, corpus-mutated and exhaustively enumerated short token sequences, no more."),
"C02":("runtime monitoring: panic/abort/hang monitor around parses in watched worker processes with overflow checks and small stacks","exploration","Panics, aborts, stack overflow on 2 MiB and CPU-time limits are observed per input; explores hostile inputs, no guarantee for others."),
"C03":("runtime monitoring: instruction-count monitor (valgrind cachegrind) over scaled input families, screened by CPU time","exploration","Judges the growth ratio of executed instructions on the families tried; pathological inputs outside of them are not excluded."),
"C04":("runtime monitoring: result-equality checker across threads, histories and processes","exploration","Compares results across repetitions, thread counts, histories and processes actually executed."),
"C05":("runtime monitoring: online checker of error events against the tree","exploration","Checks every error of every malformed text tried."),
"C06":("runtime monitoring: tree-shape oracle with generator ground truth","exploration","The expected structure is the generator's own abstract expression, rendered and parsed; covers all operator pairs plus random compositions."),
"C07":("runtime monitoring: tree-shape oracle with generator ground truth","exploration","The expected structure is the generator's own document; covers every tag form in every context plus random compositions."),
"C08":("runtime monitoring: tree-shape oracle with generator ground truth","exploration","The expected structure is the generator's own document; covers random compositions."),
"C09":("runtime monitoring: fault injection (structural deletions) with an error-reported monitor","fault_enumeration","Every deletion of a structural token of each generated document is tried; the documents themselves are sampled."),
"C10":("runtime monitoring: metamorphic structure comparison over re-spaced documents","exploration","Compares the structure of re-spaced variants of generated documents."),
"C11":("runtime monitoring: lockstep metamorphic checker over documents with stretches swapped between contexts","exploration","Compares the subtree of each stretch in different surroundings, of generated and corpus documents; other documents are not excluded."),
"C12":("runtime monitoring: accessor results compared with generator ground truth","exploration","Every accessor of the typed tree is called on every node of generated documents."),
"C13":("sanitizers: AddressSanitizer, LeakSanitizer, ThreadSanitizer, Miri, allocation balance monitor","exploration","Reports of the instrumented builds over hostile parses; Miri without aliasing models because the third-party tree library violates them."),
"C20":("runtime monitoring: offline checker of printed positions, counts and exit status against the files linted","exploration","Every finding printed for generated and damaged files is located again in the file; counts and status are recomputed."),
"C21":("runtime monitoring: file-access log (LD_PRELOAD recorder) and reports compared with an independent model of the selection rules","exploration","Random directory trees, ignore files, links and arguments; the model is the documentation's, other trees are not excluded."),
"C22":("runtime monitoring: file-system event log and snapshots of every run, with injected delays and concurrent observers","exploration","All writes of a run are recorded below libc and compared with what may be written; sampled trees and texts."),
"C23":("runtime monitoring: fault injection at every file-system call (LD_PRELOAD) with an outcome monitor","fault_enumeration","Each reachable file operation of the sampled runs fails in turn with several errors, also partially; combinations are sampled."),
"C24":("runtime monitoring: second-run monitor (the fixed text linted and fixed again)","exploration","Judges each fixed text by what the program itself reports afterwards; one listed known finding."),
"C25":("runtime monitoring: meaning-preservation oracle over fixed texts (generator ground truth and token comparison)","exploration","The meaning of the fixed text is compared with that of the generator's document; one listed known finding."),
"C26":("runtime monitoring: monitor of whitespace-sensitive text (generator ground truth) before and after fixing","exploration","The sensitive stretches of generated documents are followed through the fix; sampled documents and configurations."),
"C27":("runtime monitoring: expected-findings oracle from generator ground truth","exploration","Both missing and unfounded findings are detected on generated documents under random configurations; nothing is proved about others."),
"C28":("runtime monitoring: independent layout model recomputing findings and fixed text","exploration","A second implementation of the layout rules predicts findings and fixed text of generated documents; sampled."),
"C29":("runtime monitoring: expected-findings oracle from generator ground truth and fixed texts","exploration","Both missing and unfounded findings are detected on generated documents under random configurations; nothing is proved about others."),
"C30":("runtime monitoring: expected-findings oracle from generator ground truth and fixed texts","exploration","Both missing and unfounded findings are detected on generated documents under random configurations; nothing is proved about others."),
"C31":("runtime monitoring: expected-findings oracle from generator ground truth","exploration","Both missing and unfounded findings are detected on generated documents under random configurations; nothing is proved about others."),
"C32":("runtime monitoring: expected-findings oracle from generator ground truth","exploration","Both missing and unfounded findings are detected on generated documents under random configurations; nothing is proved about others."),
"C33":("runtime monitoring: expected-findings oracle from generator ground truth and fixed texts","exploration","Both missing and unfounded findings are detected on generated documents under random configurations; nothing is proved about others."),
"C34":("runtime monitoring: metamorphic comparison of runs with rule sets, orders and single rules","exploration","Union of single-rule runs against runs of sets and orders; all single rules, sampled sets."),
"C35":("runtime monitoring: suppression oracle from generator ground truth, over findings and fixed texts","exploration","Each expected finding must appear exactly when no directive covers it and covered stretches stay unfixed; sampled placements."),
"C36":("race detection (ThreadSanitizer) and run-comparison monitor over thread counts, processor sets, injected delays and orders","exploration","The schedules are those that occurred (distinct output orders are counted); not all are enumerated."),
"C37":("runtime monitoring: findings and fixed texts under generated configurations compared with generator ground truth; file-access log for invalid ones","exploration","Random configurations through every channel; other combinations are not excluded."),
"C38":("runtime monitoring: printed trees compared line by line with the parse, everything else with a run without the option","exploration","Well-formed, damaged and unreadable files, sampled."),
}
extra=json.load(open(V+'/tools/manifest_cli.json')) if os.path.exists(V+'/tools/manifest_cli.json') else {}
T.update({k:tuple(v) for k,v in extra.items()})
NA={}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T:
        t,l,n=T[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"./check.sh {i} thorough","technique":t,"level":l,"level_note":n})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check built yet")})
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"none","enable":"no hooks: everything is observed through the public library API and the command line","source_commits":[]},"checks":checks,"not_applicable":na,
"notes":"check.sh builds from /repo's working tree into /verif/target and runs harness binary lv. VERIF_TIER=thorough raises the budgets."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(checks),len(na))
