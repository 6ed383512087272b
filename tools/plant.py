#!/usr/bin/env python3
"""Planted bugs. Works on a scratch copy of /repo at /tmp/wt; never touches /repo (or SRC, where that is set).

plant.py wt                    make or reset the scratch copy
plant.py keep ID PROP DEMO.cpp 'needs' 'what it breaks'   keep the scratch copy's change as seeded/ID
plant.py demo ID               run the demonstration on /repo (must pass) and with the patch (must fail)
plant.py check ID [PROP]       run the property's check against the patched scratch copy
"""
import sys, os, subprocess, shutil, json, time
V = '/verif'; SRC = os.environ.get('SRC', '/repo'); WT = '/tmp/wt'; S = V + '/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, **k)
def wt():
    if not os.path.isdir(WT): sh('cp -a /repo %s' % WT, check=True)
    head = sh('git -C %s rev-parse HEAD' % SRC, capture_output=True, text=True).stdout.strip()
    sh('cd %s && git fetch -q %s HEAD && git checkout -qf %s && git checkout -qf -- .' % (WT, SRC, head), check=True)
DEMO = '''#!/bin/bash
# Builds the demonstration from the tree it is run in and runs it in a scratch directory.
D=$(mktemp -d) || exit 99
export TMPDIR="$D/tmp"; mkdir -p "$D/tmp"
VERIF_REPO="$PWD" python3 "$(dirname "$0")/h/harness/build.py" "$D/b" demo >"$D/log" 2>&1 || { tail -30 "$D/log"; rm -rf "$D"; exit 98; }
timeout 200 "$D/b/demo" "$D/s"; rc=$?
rm -rf "$D"
exit $rc
'''
def keep(i, prop, demo, needs, breaks):
    d = '%s/%s' % (S, i); shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/h/harness')
    p = sh('git -C %s diff' % WT, capture_output=True, text=True).stdout
    assert p.strip(), 'no change'
    open(d + '/patch.diff', 'w').write(p)
    for f in ('build.py', 'lib.h', 'mini.h', 'blocks.h', 'clock.h', 'pch.h'): shutil.copy('%s/harness/%s' % (V, f), d + '/h/harness/')
    shutil.copytree(V + '/standin', d + '/h/standin')
    shutil.copy(demo, d + '/h/harness/demo.cpp')
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    sh('cd %s && git checkout -qf -- .' % WT, check=True)
def demo(i):
    d = '%s/%s' % (S, i)
    a = sh('cd %s && bash %s/demo.sh' % (SRC, d)).returncode
    wt(); sh('cd %s && git apply %s/patch.diff' % (WT, d), check=True)
    b = sh('cd %s && bash %s/demo.sh' % (WT, d)).returncode
    print('DEMO %s: clean %d patched %d %s' % (i, a, b, 'ok' if a == 0 and b not in (0, 98, 99) else 'BAD'))
def check(i, prop=None):
    d = '%s/%s' % (S, i); prop = prop or json.load(open(d + '/meta.json'))['property']
    wt(); sh('cd %s && git apply %s/patch.diff' % (WT, d), check=True)
    t = time.time(); r = sh('cd %s && VERIF_REPO=%s VERIF_EVIDENCE=/tmp/w/ev python3 run.py %s' % (V, WT, prop), capture_output=True, text=True)
    print('CHECK %s %s: exit %d in %.0f s %s\n%s' % (i, prop, r.returncode, time.time() - t, 'caught' if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED', (r.stdout + r.stderr)[-1500:]))
    sh('cd %s && git checkout -qf -- .' % WT)
a = sys.argv[1:]
{'wt': wt, 'keep': keep, 'demo': demo, 'check': check}[a[0]](*a[1:])
