#!/usr/bin/env python3
"""Makes seeded/<id>/ for the planted bugs of seeds.py and tries them out on scratch copies of /repo.
   seed.py make [ID...]    writes the folders
   seed.py test [ID...]    demo on the clean and the changed tree, build, the stable tests, and the property's quick check"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
import seeds2, seeds3
KIT = ['wsym.h', 'w32.h', 'w32.cc', 'agent_assert.cc', 'in_common.h', 'pipe_out.h', 'con.h', 'vt.h', 'lib.h', 'sec.h', 'agentk.h', 'dbg_prelude.h', 'font.h', 'ux.h']

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def make(s):
    d = f'{V}/seeded/{s["id"]}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/kit')
    t = tempfile.mkdtemp(prefix='seed-')
    try:
        for f in {e[0] for e in s['edits']}:
            for x in 'ab':
                os.makedirs(os.path.dirname(f'{t}/{x}/{f}'), exist_ok=True)
                shutil.copy('/repo/' + f, f'{t}/{x}/{f}')
        for f, old, new in s['edits']:
            p = f'{t}/b/{f}'; c = open(p, newline='').read()
            if c.count(old) != 1: sys.exit(f'{s["id"]}: {c.count(old)} matches in {f}: {old}')
            open(p, 'w', newline='').write(c.replace(old, new))
        r = sh(['git', 'diff', '--no-index', '--no-color', 'a', 'b'], cwd=t).stdout
        r = re.sub(r'(^|[ \n])a/a/', r'\1a/', r); r = re.sub(r'([ \n])b/b/', r'\1b/', r)
        open(d + '/patch.diff', 'w').write(r)
    finally:
        shutil.rmtree(t)
    # The kit, and the scenarios that the demonstration runs.
    files, todo = set(KIT), re.findall(r'#include "(\w+\.cc)"', s['demo'])
    while todo:
        f = todo.pop()
        files.add(f); todo += re.findall(r'#include "(\w+\.cc)"', open(f'{V}/harness/{f}').read())
    for f in files:
        shutil.copy(f'{V}/harness/{f}', d + '/kit')
    for f in ('demo.h', 'demo_rt.cc', 'run.sh'):
        shutil.copy(f'{HERE}/kit/{f}', d + '/kit')
    open(d + '/demo.cc', 'w').write(s['demo'].strip() + '\n')
    with open(d + '/demo.sh', 'w') as f:
        extra = s.get('extra') or {}
        for name, text in extra.items(): open(f'{d}/{name}', 'w').write(text)
        f.write('#!/bin/bash\n' + (f'EXTRA="{" ".join("@" + n for n in extra)}"\n' if extra else '') + f'. "$(dirname "$0")/kit/run.sh" {s["group"]}\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)

def wine_env(t):
    p = t + '/wine'
    if not os.path.exists(p):
        os.mkdir(p)
        for f in glob.glob('/opt/vp/wine/*.reg') + ['/opt/vp/wine/.update-timestamp']: shutil.copy(f, p)
        subprocess.check_call(['cp', '-as', '/opt/vp/wine/drive_c', p])
        os.mkdir(p + '/dosdevices'); os.symlink('../drive_c', p + '/dosdevices/c:'); os.symlink('/', p + '/dosdevices/z:')
    return p

def test(s, tests=True, check=True):
    d = f'{V}/seeded/{s["id"]}'
    t = tempfile.mkdtemp(prefix='seedtest-')
    out = []
    try:
        subprocess.check_call(['cp', '-a', '/repo', t + '/repo'])
        r = sh(['bash', d + '/demo.sh'], cwd=t + '/repo'); out.append(f'demo clean {r.returncode}')
        if r.returncode or 'demo: ok' not in r.stdout: print(s['id'], 'DEMO FAILS ON CLEAN', r.stdout[-1500:]); return
        r = sh(['git', 'apply', d + '/patch.diff'], cwd=t + '/repo')
        if r.returncode: print(s['id'], 'DOES NOT APPLY', r.stdout); return
        r = sh(['bash', d + '/demo.sh'], cwd=t + '/repo'); out.append(f'demo bug {r.returncode} {r.stdout.strip()[-120:]}')
        if r.returncode == 0: print(s['id'], 'DEMO PASSES WITH BUG', r.stdout[-800:]); return
        if tests:
            os.mkdir(t + '/vp')
            for f in ('build.sh', 'test.sh', 'run_tests.py', 'results.py'):
                c = open('/opt/vp/' + f).read().replace('/repo', t + '/repo').replace('/opt/vp/wine', wine_env(t)).replace('/opt/vp/', t + '/vp/')
                open(f'{t}/vp/{f}', 'w').write(c)
            r = sh(['bash', t + '/vp/test.sh', t + '/out.json'])
            res = json.load(open(t + '/out.json'))
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            miss = [x for x in stable if x not in res['passed']]
            out.append('tests ok' if not miss else 'TESTS FAIL ' + str(miss) + (r.stdout[-600:] if not res['passed'] else ''))
        if check:
            r = sh(['python3', V + '/check.py', s['prop']], env=dict(os.environ, WSYM_DEV_REPO=t + '/repo'))
            v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or l.startswith('violation')]
            out.append(f'check {s["prop"]} exit {r.returncode} ' + ('CAUGHT' if r.returncode == 1 and v else 'MISSED ' + r.stdout[-300:]))
        print(s['id'], '; '.join(out), flush=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)

if __name__ == '__main__':
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    todo = [s for s in SEEDS if not ids or s['id'] in ids or any(s['id'].startswith(i) for i in ids)]
    for s in todo:
        make(s)
        if sys.argv[1] == 'test': test(s, '--no-tests' not in sys.argv, '--no-check' not in sys.argv)
