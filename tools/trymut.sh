#!/bin/bash
# trymut.sh SEED...: run the property's check against each seeded change, on a scratch copy of /repo
for s; do
	p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
	m=/tmp/mr.$s; rm -rf "$m"; mkdir "$m"; git -C /repo archive HEAD | tar x -C "$m"; [ -e /repo/lib/configure.h ] && cp /repo/lib/configure.h "$m/lib/"
	(cd "$m" && git init -q . 2>/dev/null; git apply --unsafe-paths /verif/seeded/$s/patch.diff) || echo "apply failed"
	echo "== $s $p"; VERIF_REPO=$m timeout 900 python3 /verif/check.py $p > /tmp/mut.$s.log 2>&1
	grep -v "obligations discharged" /tmp/mut.$s.log | head -${LINES_OUT:-6}
	python3 - "$s" <<'P'
import json,re,sys,os
s=sys.argv[1]; t=open('/tmp/mut.%s.log'%s).read(); f='/verif/tools/seed_results.json'
d=json.load(open(f)) if os.path.exists(f) else {}
v='VIOLATION' in t
labs=re.findall(r'failed obligation: ob:([^:( \n]+)',t)
hs=re.findall(r'replay=\S*/replays/(\S+?)\.json( no-failing-input-found)?',t)
d[s]=(', '.join(dict.fromkeys(x[0].split('-',1)[1]+(' (no failing input)' if x[1] else ' (replayed)') for x in hs))+': '+', '.join(dict.fromkeys(labs))[:200]) if v else 'MISSED'
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
	rm -f /tmp/mut.$s.log
	rm -rf "$m"
done
