import json,os,sys
ROOT=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(ROOT+'/properties.jsonl')]
T="deterministic simulation with fault injection: seeded search over "
checks={
"C01":("exploration",T+"statement-level schedules of concurrent callers","every call's outcome is compared with the outcome of the same call alone; assurance is that of a large random search over schedules, not a proof; trusts the simulated sync package and the reference model used to compare messages"),
}
for k,v in list(json.load(open(ROOT+'/tools/checks.json')).items()) if len(sys.argv)<2 else []:
    checks[k]=tuple(v)
na={
"C16":"Comparing generated sources with checked-in ones is one deterministic computation on fixed inputs (map order and clock do not enter it); simulation with faults adds nothing. The behaviour of the generated codecs is covered by C01-C11 and C14.",
}
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"none: /repo carries no hooks","enable":"every check copies the working tree of /repo to a scratch directory, instruments the copy (scheduling points, simulated package sync, resettable package state) and builds it with an overlay over the Go runtime's random source; /repo itself is not touched","source_commits":[]},
"checks":[],"not_applicable":[],
"notes":"check.sh ID is the check, replay.sh FILE replays a violation, selftest.sh (by hand) checks determinism and sensitivity of the machinery. VERIF_SEED and VERIF_TIER are honoured; VERIF_REPO points a run at another tree for experiments."}
for p in props:
    i=p["id"]
    if i in checks:
        l,t,n=checks[i]
        m["checks"].append({"property":i,"quick_cmd":f"VERIF_TIER=quick ./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","evidence_file":f"evidence/{i}.json","technique":t,"level":l,"level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":na.get(i,"check under construction")})
json.dump(m,open(ROOT+'/MANIFEST.json','w'),indent=1)
open(ROOT+'/MANIFEST.json','a').write('\n')
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
