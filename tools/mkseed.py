#!/usr/bin/env python3
"""Make a planted bug: tools/mkseed.py SPEC.py   (SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)])
The demo is C text with main() including mdbx.c; confirmed here against a scratch copy: exit 0 without, nonzero with the patch."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
SH = r'''#!/bin/bash
# run with cwd = the libmdbx tree: builds the demo against the current mdbx.c and runs it in a scratch directory
d=$(cd "$(dirname "$0")" && pwd)
src=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -f "$t"/*; rmdir "$t"' EXIT
gcc -std=gnu2x -O1 -w -DNDEBUG=1 -DMDBX_CONFIG_H='"demo_config.h"' -I"$d" -I"$src" "$d/demo.c" -o "$t/demo" -lpthread -lm || exit 3
cd "$t" && timeout 250 ./demo
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns['SEEDS']:
    d = os.path.join(V, 'seeded', s['id'])
    w = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        os.makedirs(d, exist_ok=True)
        subprocess.check_call(['git', '-C', R, 'worktree', 'prune'])
        for f in ('mdbx.c', 'mdbx.h', 'mdbx-internals.h'):
            shutil.copy(os.path.join(R, f), w)
        subprocess.check_call(['git', 'init', '-q', w]); subprocess.check_call(['git', '-C', w, 'add', '-A'])
        subprocess.check_call(['git', '-C', w, '-c', 'user.email=a@b', '-c', 'user.name=x', 'commit', '-qm', 'x'])
        shutil.copy(os.path.join(V, 'lib', 'vf_config.h'), os.path.join(d, 'demo_config.h'))
        open(os.path.join(d, 'demo.c'), 'w').write(s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(SH); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        r0 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=w, capture_output=True, text=True)
        bad = False
        for f, old, new in s['edits']:
            p = os.path.join(w, f); t = open(p, encoding='utf8').read()
            if t.count(old) != 1:
                print(s['id'], 'edit matches', t.count(old), 'times:', old[:60]); bad = True; break
            open(p, 'w', encoding='utf8').write(t.replace(old, new))
        if bad:
            continue
        diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        r1 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=w, capture_output=True, text=True)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        ap = subprocess.run(['git', '-C', R, 'apply', '--check', os.path.join(d, 'patch.diff')]).returncode
        ok = r0.returncode == 0 and r1.returncode not in (0, 3) and ap == 0
        print(s['id'], 'OK' if ok else 'BAD', 'without:', r0.returncode, 'with:', r1.returncode, 'applies:', ap == 0, (r0.stdout + r0.stderr)[-300:] if r0.returncode else '', (r1.stdout + r1.stderr)[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
