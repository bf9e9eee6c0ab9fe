#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
MODEL="explicit enumeration of a bounded schema space; every state is converted by the real code and the generated source, read back strictly, is compared with an independent reference model"
checks={}
def c(id,tech,level,note): checks[id]=(tech,level,note)
exec(open(here+'/tools/checks.py').read())
m={"version":1,
 "setup_cmd":"cd /verif/mc && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o /dev/null ./cmd/mc",
 "checks":[{"property":p["id"],"quick_cmd":"./run.sh %s quick"%p["id"],"thorough_cmd":"./run.sh %s thorough"%p["id"],
   "technique":checks[p["id"]][0],"level":checks[p["id"]][1],"level_note":checks[p["id"]][2]} for p in props if p["id"] in checks],
 "not_applicable":[{"property":p["id"],"reason":NA.get(p["id"],"check not built yet")} for p in props if p["id"] not in checks],
}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write("\n")
