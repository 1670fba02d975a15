#!/usr/bin/env python3
"""mkseed.py [id ...]: (re)builds /verif/seeded/<id> from tools/seeds/*.txt and
confirms each change in a scratch copy of /repo.

A definition file holds, per change:
  #### id | property | file
  needs: ...
  breaks: ...
  <<<<   old text   ====   new text   >>>>     (one or more; optional 'file:' line before)
  demo:  body of a Go main package up to ####
"""
import json, os, re, shutil, subprocess, sys, tempfile, glob
V = '/verif'
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOSUMDB='off', HOME='/root')
DEMO = '''#!/bin/bash
# Exit 0 when the property holds on the demonstrated input, 1 otherwise.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'find "$w" -delete' EXIT
cp "$here/main.go.txt" "$w/main.go"
cp "$repo/go.sum" "$w/go.sum"
{
  echo "module demo"
  grep -v '^module ' "$repo/go.mod"
  echo "require github.com/nlpodyssey/gotokenizers v0.0.0"
  echo "replace github.com/nlpodyssey/gotokenizers => $repo"
} > "$w/go.mod"
cd "$w" && go build -o demo . || exit 2
timeout 100 ./demo > out.txt 2>&1; rc=$?; head -c 2000 out.txt; [ $rc -eq 0 ] || exit 1
'''
def defs():
    for f in sorted(glob.glob(V + '/tools/seeds/*.txt')):
        for part in re.split(r'^#### ', open(f).read(), flags=re.M)[1:]:
            head, body = part.split('\n', 1)
            i, prop, file = [x.strip() for x in head.split('|')]
            needs = re.search(r'^needs: (.*)$', body, re.M).group(1)
            breaks = re.search(r'^breaks: (.*)$', body, re.M).group(1)
            pre, demo = body.split('\ndemo:\n', 1)
            edits, cur = [], file
            for m in re.finditer(r'^file: (.*)$|^<<<<\n(.*?)^====\n(.*?)^>>>>$', pre, re.M | re.S):
                if m.group(1): cur = m.group(1).strip()
                else: edits.append((cur, m.group(2), m.group(3)))
            yield i, prop, needs, breaks, edits, demo
def run(cmd, cwd, t=400):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def main():
    want = set(sys.argv[1:])
    stable = json.load(open('/opt/vp/BASELINE.json'))
    bad = 0
    for i, prop, needs, breaks, edits, demo in defs():
        if want and i not in want: continue
        d = f'{V}/seeded/{i}'
        os.makedirs(d, exist_ok=True)
        open(d + '/main.go.txt', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        w = tempfile.mkdtemp(prefix='seed-')
        try:
            r = w + '/repo'
            run(['git', 'clone', '-q', '/repo', r], w)
            ok = run(['bash', d + '/demo.sh'], r)
            for f, a, b in edits:
                s = open(f'{r}/{f}').read()
                if s.count(a) != 1: print(i, 'BAD EDIT', f, s.count(a)); break
                open(f'{r}/{f}', 'w').write(s.replace(a, b))
            open(d + '/patch.diff', 'w').write(run(['git', 'diff'], r).stdout)
            b = run(['go', 'build', './...'], r)
            t = run(['go', 'test', '-vet=off', '-count=1', './...'], r)
            ko = run(['bash', d + '/demo.sh'], r)
            v = [ok.returncode == 0, b.returncode == 0, t.returncode == 0, ko.returncode == 1]
            print(i, prop, 'OK' if all(v) else 'PROBLEM %s' % v, '|', ko.stdout.strip().split('\n')[-1][:150])
            if not all(v):
                bad += 1
                print(ok.stdout[-1500:], b.stdout[-800:], '\n'.join(l for l in t.stdout.split('\n') if 'FAIL' in l or 'Error' in l)[:800], ko.stdout[-600:])
        finally:
            shutil.rmtree(w)
    return bad
sys.exit(main())
