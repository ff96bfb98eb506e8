n=${1:-1500}; base=${2:-1}; shift 2
for c in ${@:-01 02 03 04 05 06 07 08 09 10 11 12 13}; do (echo "{\"prop\":\"C$c\",\"base\":$base,\"from\":0,\"n\":$n,\"points\":1200}" | timeout 600 ${SIM:-/tmp/w/simrun} worker > /tmp/o.$c 2>/tmp/e.$c) & done; wait
for c in ${@:-01 02 03 04 05 06 07 08 09 10 11 12 13}; do echo "== C$c"; tail -c 1500 /tmp/e.$c; python3 - /tmp/o.$c <<'E'
import sys,json
for l in open(sys.argv[1]):
    try:o=json.loads(l)
    except Exception: print(l[:300]);continue
    print({k:o[k] for k in ('runs','others','bad')}, len(o['nontriv'] or []))
    s=o['stats']
    print({k:v for k,v in s.items() if k in('op.ok','op.panic','op.skip','op.exit','rejected','accepted-invalid')}, {k:v for k,v in s.items() if k.startswith('fault')})
    if o.get('found'):print(json.dumps(o['found']['violations'])[:2500])
E
done
