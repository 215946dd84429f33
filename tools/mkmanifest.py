#!/usr/bin/env python3
# writes MANIFEST.json
import json
ENUM="exhaustive bounded enumeration of inputs / operation sequences executed on the real code against a reference model"
SCH="stateless model checking of the real code: exhaustive exploration of all schedules and environment choices up to a deviation bound under a controlled scheduler with virtual time"
BOTH="stateless model checking of the real code (exhaustive bounded exploration of schedules and environment choices) and exhaustive bounded enumeration of inputs and message sequences against a reference session automaton"
BOTHE="exhaustive bounded enumeration of inputs / operation sequences executed on the real code against a reference model, and stateless model checking (all schedules up to a deviation bound) of concurrent users"
T={ "C01":ENUM,"C02":ENUM,"C03":ENUM,"C04":ENUM,"C05":BOTHE,"C16":ENUM,
 "C06":SCH,"C07":SCH,"C08":BOTH,"C09":BOTH,"C10":BOTH,"C11":BOTH,"C12":SCH,"C13":SCH,
 "C14":BOTH,"C15":SCH,"C17":BOTH,"C18":SCH,"C19":SCH,"C20":BOTH, "C21":ENUM, "C22":BOTHE, "C23":BOTHE, "C24":ENUM, "C25":BOTHE }
N={
"E":"Every case within the stated alphabet and depth is executed on the code of the current tree and compared with an independently written reference; values outside the boundary alphabet and longer inputs are not covered.",
"S":"Every execution with at most the stated number of deviations from the default schedule / environment is executed on the code of the current tree (instrumented through a build overlay). Assumes sequential consistency, LIFO pools, a fake in-order network and virtual time; deeper preemption patterns and larger configurations are not covered.",
}
props=[json.loads(l) for l in open('properties.jsonl')]
checks=[]
for p in props:
    i=p['id']
    checks.append({"property":i,"quick_cmd":f"./check {i}","thorough_cmd":f"VERIF_TIER=thorough ./check {i}",
      "technique":T[i],"level":"model_checking","level_note":N["E" if T[i]==ENUM else "S"]+(" "+N["E"] if T[i] in (BOTH,BOTHE) else "")})
m={"version":1,"setup_cmd":"./check list","checks":checks,"not_applicable":[],
 "notes":"No hooks in /repo: the library is instrumented at build time through a 'go build -overlay' generated from the current working tree by instr/. All changes to /repo are fix: commits, listed in KNOWN_FINDINGS.txt."}
json.dump(m,open('MANIFEST.json','w'),indent=1)
open('MANIFEST.json','a').write('\n')
