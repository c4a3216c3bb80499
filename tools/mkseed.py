#!/usr/bin/env python3
"""mkseed.py SPEC.py [ids...]: builds /verif/seeded/<id>/ from a spec and validates each planted bug in a scratch copy of /repo.

SPEC.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new)], needs, breaks, demo (Go main program).
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local",
           GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
OUT = "/verif/seeded"
DEMO = r'''#!/bin/bash
# Exit 0 when the behaviour is right, nonzero when it is wrong. Run with cwd /repo.
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -buildvcs=false @FLAGS@-overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 3
timeout 120 "$tmp/demo"
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, capture_output=True, text=True, **k)
def passed(p):
    x = json.load(open(p))
    for k in ('stable', 'passed', 'pass', 'tests'):
        if k in x:
            return set(x[k]) if not isinstance(x[k], dict) else {n for n, v in x[k].items() if v in ('pass', 'passed', True)}
def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = set(sys.argv[2:])
    base = passed('/opt/vp/BASELINE.json')
    bad = 0
    for s in m.SEEDS:
        if want and s['id'] not in want: continue
        wt = tempfile.mkdtemp(prefix='seed', dir='/tmp')
        try:
            sh('cp -a /repo/. %s/ && git checkout -q -- .' % wt, wt)
            err = None
            for f, old, new in s['edits']:
                p = os.path.join(wt, f); t = open(p).read()
                if t.count(old) != 1: err = '%s: old text occurs %d times' % (f, t.count(old)); break
                open(p, 'w').write(t.replace(old, new))
            if err: print(s['id'], 'BAD', err); bad += 1; continue
            diff = sh('git diff', wt).stdout
            orig = sh("git rev-list --max-parents=0 HEAD", wt).stdout.strip()
            hit = False
            for f in {f for f, _, _ in s['edits']}:
                bl = sh('git blame -l -s HEAD -- ' + f, wt).stdout.split('\n')
                n = 0
                for l in sh('git diff -U0 -- ' + f, wt).stdout.split('\n'):
                    if l.startswith('@@'): n = int(l.split()[1][1:].split(',')[0])
                    elif l.startswith('-') and not l.startswith('---'):
                        hit = hit or bl[n-1].lstrip('^').startswith(orig[:39]) and len(l.strip()) > 2; n += 1
            if not hit: print(s['id'], 'WARNING: removes or changes no original line')
            b = sh('go build ./... && go vet ./...', wt)
            if sh('go build ./...', wt).returncode: print(s['id'], 'BAD build', b.stderr[:500]); bad += 1; continue
            ts = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + wt)
            open('/tmp/%s.t.sh' % os.path.basename(wt), 'w').write(ts)
            sh('bash /tmp/%s.t.sh /tmp/%s.json' % ((os.path.basename(wt),) * 2), wt)
            miss = base - passed('/tmp/%s.json' % os.path.basename(wt))
            for e in ('.json', '.t.sh'): os.unlink('/tmp/' + os.path.basename(wt) + e)
            if miss: print(s['id'], 'BAD tests fail:', sorted(miss)[:4]); bad += 1; continue
            d = os.path.join(OUT, s['id']); os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.sh', 'w').write(DEMO.replace('@FLAGS@', s.get('flags', ''))); os.chmod(d + '/demo.sh', 0o755)
            open(d + '/main.go.txt', 'w').write(s['demo'].lstrip())
            json.dump({"property": s['property'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            r0 = sh('bash %s/demo.sh' % d, '/repo'); r1 = sh('bash %s/demo.sh' % d, wt)
            ok = r0.returncode == 0 and r1.returncode not in (0, 3)
            print(s['id'], 'ok' if ok else 'BAD', 'clean rc', r0.returncode, 'patched rc', r1.returncode, (r1.stdout + r1.stderr).strip()[-150:].replace('\n', ' | '))
            if not ok: bad += 1; print(r0.stdout[-500:], r0.stderr[-800:]); shutil.rmtree(d)
        finally:
            shutil.rmtree(wt, ignore_errors=True)
    sys.exit(bad)
main()
