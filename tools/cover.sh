#!/bin/bash
# cover.sh OUT [RUNS] [BASE]: which statements of loukoum do the simulated runs never reach? OUT is a directory
# that build.sh OUT has filled. The instrumented loukoum is copied, since coverage does not see overlays.
set -eu
out=$1 runs=${2:-300} base=${3:-1}
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${VERIF_REPO:-/repo}
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export GOCACHE=${VERIF_GOCACHE:-$here/.cache/go}
mkdir -p "$out/cov" "$out/covdata"
cp -a "$repo/." "$out/cov/"
python3 - "$out" "$repo" <<'P'
import json, os, shutil, sys
out, repo = sys.argv[1:]
std = {}
for k, v in json.load(open(out + '/inst/overlay.json'))['Replace'].items():
    if not k.startswith(repo + '/'):
        std[k] = v
        continue
    d = out + '/cov/' + k[len(repo) + 1:]
    os.makedirs(os.path.dirname(d), exist_ok=True)
    if v: shutil.copy(v, d)
    elif os.path.exists(d): os.remove(d)
json.dump({'Replace': std}, open(out + '/cov.json', 'w'))
P
sed "s#=> /repo#=> $out/cov#" "$here/sim/go.mod" >"$out/cov.mod"
cp "$here/sim/go.sum" "$out/cov.sum"
cd "$here/sim"
go build -modfile "$out/cov.mod" -overlay "$out/cov.json" -cover \
  -coverpkg=github.com/ulule/loukoum/v3/...,verif.local/sim/cmd/simrun -o "$out/simrun-cov" ./cmd/simrun
for c in 01 02 03 04 05 06 07 08 09 10 11 12 13; do
  echo "{\"prop\":\"C$c\",\"base\":$base,\"from\":0,\"n\":$runs,\"points\":1200}" | GOCOVERDIR=$out/covdata timeout 600 "$out/simrun-cov" worker >/dev/null &
done
wait
go tool covdata textfmt -i="$out/covdata" -o "$out/cov.txt"
python3 - "$out" <<'P'
import collections, re, sys
out = sys.argv[1]
hits = collections.Counter()
for l in open(out + '/cov.txt'):
    m = re.match(r'github.com/ulule/loukoum/v3/(\S+):(\d+)\.\d+,(\d+)\.\d+ (\d+) (\d+)', l)
    if m: hits[(m[1], int(m[2]), int(m[3]))] += int(m[5])
print(sum(1 for c in hits.values() if c), 'of', len(hits), 'blocks reached; not reached:')
for (f, a, b), c in sorted(hits.items()):
    if not c:
        text = open(out + '/cov/' + f).read().split('\n')[a - 1:min(b, a + 2)]
        print('%s:%d %s' % (f, a, re.sub(r'simhook__\.Y\(\d+\); ?', '', ' | '.join(x.strip() for x in text))[:120]))
P
