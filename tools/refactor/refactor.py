#!/usr/bin/env python3
"""refactor.py [-n SEEDS] [id...]: applies edits that change no behaviour to a scratch clone of /repo, one
after another, and reports every property whose simulated runs are not quiet on the outcome.

Edits are (file, old, new); a file that does not exist yet has old None.
"""
import json, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SCRATCH = os.environ.get('REFACTOR_DIR', '/tmp/refactor')
ALL = {}


def refactor(name, *edits):
    assert name not in ALL, name
    ALL[name] = edits


exec(open(os.path.join(HERE, 'edits.py')).read())


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def apply(repo, edits):
    for file, old, new in edits:
        path = os.path.join(repo, file)
        if old is None:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            open(path, 'w').write(new)
            continue
        text = open(path).read()
        if isinstance(old, re.Pattern):
            text, n = old.subn(new, text)
            assert n, (file, old)
        else:
            assert old in text, (file, old)
            text = text.replace(old, new)
        open(path, 'w').write(text)


def main():
    args = sys.argv[1:]
    n, base = 600, 77
    if args[:1] == ['-n']:
        n, args = int(args[1]), args[2:]
    env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local')
    bad = []
    for name in args or list(ALL):
        repo, out = SCRATCH + '/repo', SCRATCH + '/out'
        for d in (repo, out):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(SCRATCH, exist_ok=True)
        sh('git clone -q /repo ' + repo)
        apply(repo, ALL[name])
        r = sh('gofmt -l . ; go vet ./builder ./stmt ./format ./lexer ./parser ./types ./token && go test ./... 2>&1 | tail -30', cwd=repo, env=env)
        if 'FAIL' in r.stdout or r.returncode or 'vet:' in r.stdout:
            print(name, 'DOES NOT BUILD OR PASS', r.stdout[-1500:])
            continue
        r = sh('%s/build.sh %s race' % (VERIF, out), env=dict(env, VERIF_REPO=repo))
        if r.returncode:
            print(name, 'BUILD', r.stdout[-1500:])
            bad.append(name)
            continue
        jobs = []
        for i in range(1, 14):
            prop = 'C%02d' % i
            for binary, count in (('simrun', n), ('simrun-race', n // 4)):
                p = subprocess.Popen([out + '/' + binary, 'worker'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=open('%s/%s.%s.err' % (out, prop, binary), 'w'), text=True)
                p.stdin.write(json.dumps({'prop': prop, 'base': base, 'from': 0, 'n': count, 'points': 1200}) + '\n')
                p.stdin.close()
                jobs.append((prop, binary, p))
        for prop, binary, p in jobs:
            text = p.stdout.read()
            code = p.wait()
            try:
                o = json.loads(text.strip().splitlines()[-1])
            except Exception:
                o = None
            if o is None or code or o.get('found') or (o.get('others') or {}).get('drift'):
                bad.append(name)
                print(name, prop, binary, 'NOT QUIET code', code, json.dumps((o or {}).get('found', {}) )[:1500] if o else
                      open('%s/%s.%s.err' % (out, prop, binary)).read()[-1500:])
            elif o.get('others'):
                print(name, prop, binary, 'others', o['others'])
        print(name, 'done', flush=True)
    print('not quiet:', sorted(set(bad)))


main()
