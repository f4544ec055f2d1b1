#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl
import json
T={
"C01":"runtime monitor: contents of the index against a ledger of insertions, serial/parallel/racing workloads, delays injected at hooks",
"C02":"runtime monitor: every answer judged against stored vectors and a second evaluation of the metric",
"C03":"runtime monitor: differential against brute force, forced levels and interleavings injected at hooks",
"C04":"runtime monitor: recall and metric evaluations counted against brute force",
"C05":"runtime monitor: filtered answers against the filter and brute force",
"C06":"runtime monitor: batch against single answers; graph snapshots before and after read operations",
"C07":"runtime monitor: concurrent histories checked offline (happened-before order), deadlock and crash detection, delays injected at hooks",
"C08":"runtime monitor: structural checker of the graph at quiescent points, three views compared",
"C09":"runtime monitor: dump, reload and independent parser of the files compared",
"C10":"runtime monitor: graph-only reload and flattened views compared with the index dumped",
"C11":"runtime monitor: mapped reload and data map compared with memory, all thresholds",
"C12":"runtime monitor: file system snapshots around dumps of mapped indexes",
"C13":"runtime monitor: all pairs of type and metric, refusals observed",
"C14":"fault injection: files cut at every byte, removed, magic numbers altered; outcomes monitored",
"C15":"fault injection: write failure at every byte (file size limit, full device, unopenable files); outcomes monitored",
"C16":"runtime monitor: model based histories over reloads and insertions",
"C17":"runtime monitor: statistical test of levels observed against the law stated",
"C18":"runtime monitor: counting allocator, descriptors and mappings over repeated lives of an index",
"C19":"runtime monitor: differential between C and Rust interfaces under the same seeds; aborts detected",
"C21":"runtime monitor: dumps rewritten in older formats, reload in all modes compared with the index",
"C22":"runtime monitor: rule of selection checked on graph snapshots after every insertion",
"C23":"runtime monitor: addresses of vectors against the mappings of the process; files altered under the index",
"C24":"runtime monitor: counting allocator and comparison of indexes announced for different sizes; extreme k and ef",
"C25":"fault injection: panics of metric and filter at random evaluations, index observed afterwards",
"C26":"monitor on the metric: every pair evaluated by a search is recorded and compared with its answer; number of evaluations bounded",
"C27":"metamorphic monitor: constructions that differ by something irrelevant are observed and compared link by link and answer by answer",
"C28":"runtime monitor: file operations of several threads at once compared with the same made alone, directory snapshots, AddressSanitizer and ThreadSanitizer in C20",
"C20":"AddressSanitizer and ThreadSanitizer (standard library instrumented) with library precondition checks on",
}
L={"C14":"fault_enumeration","C15":"fault_enumeration"}
N={
"C14":"Every cut of small dumps of every kind of element, samples of cuts in larger ones; assumes damage by truncation, loss or altered magic only.",
"C15":"Every failing byte of small dumps of every kind, samples in larger ones; failures injected by the kernel (RLIMIT_FSIZE, /dev/full, missing targets).",
"C20":"No report on the executions explored; sanitizers see what is executed only, and the mapped file ends are guarded at page granularity plus slice checks.",
"C17":"Statistical: deviations beyond 6 sigma are reported; smaller ones are not seen.",
"C04":"Statistical: thresholds of the statement judged on samples of random data.",
}
D="Held on every execution observed; seeds, schedules and sizes are sampled (see the evidence file for what was seen), other executions are not judged."
checks=[]
for l in open('properties.jsonl'):
    i=json.loads(l)['id']
    checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","technique":T[i],"level":L.get(i,"exploration"),"level_note":N.get(i,D)})
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"--cfg hnsw_vhook","enable":"RUSTFLAGS=\"--cfg hnsw_vhook\" (set by build.sh)","source_commits":["128261fec0dd357e1fec9eb765a2943adf795f15"]},"checks":checks,"not_applicable":[]}
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
