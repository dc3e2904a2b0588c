#!/usr/bin/env python3
"""mkseed.py FILE: builds seeded/<id>/ directories from a description file.

The file is a Python module with a list BUGS of dicts: id, property, edits
[(file, old, new)], demo (Go statements or a whole file), cli (bool), needs,
breaks. Every change is confirmed in a scratch copy of /repo: it applies,
builds, passes the stable tests, and its demonstration tells the two apart.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds for the demonstrated input; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
t="$(mktemp -d)"
trap 'rm -rf -- "$t"' EXIT
printf '{"Replace":{"%%s/zzdemo/main.go":"%%s/main.go"}}' "$PWD" "$here" > "$t/ov.json"
go build -overlay "$t/ov.json" -o "$t/demo" ./zzdemo || exit 9
%s(cd "$t" && timeout 120 ./demo "$t/rap-cli")
'''

def sh(c, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    for b in bugs:
        if only and b['id'] not in only:
            continue
        d = os.path.join(ROOT, 'seeded', b['id'])
        tmp = tempfile.mkdtemp(prefix='seed-')
        r = os.path.join(tmp, 'repo')
        sh('cp -a /repo %s' % r)
        sh('git checkout -q -- . && git clean -fdq', r)
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'edit not unique in', f, s.count(old)); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            shutil.rmtree(tmp); continue
        os.makedirs(d, exist_ok=True)
        diff = sh('git diff', r).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/main.go', 'w').write(b['demo'])
        sh('gofmt -w %s/main.go' % d)
        open(d + '/demo.sh', 'w').write(DEMO % ('go build -o "$t/rap-cli" ./cmd/rap-cli || exit 9\n' if b.get('cli') else ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        good = sh('bash %s/demo.sh' % d, '/repo')
        bad = sh('bash %s/demo.sh' % d, r)
        t = sh('. /opt/vp/env.sh; go build ./...; go test ./... 2>&1 | grep "^ *--- FAIL\\|build failed" | grep -v Test_Oct24', r)
        print(b['id'], 'demo clean', good.returncode, 'demo patched', bad.returncode, 'tests:', t.stdout.strip()[:500] or 'pass')
        if good.returncode != 0: print('   ', good.stdout[:600])
        if bad.returncode in (0, 9): print('   ', bad.stdout[:600])
        shutil.rmtree(tmp)
main()
