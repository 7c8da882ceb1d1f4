#!/usr/bin/env python3
"""seed.py ID: (re)build patch.diff of a planted bug from /tmp/seeds/ID.mut (path, old, new blocks), then confirm
it: builds, stable tests pass, demo passes on the unchanged tree and fails with the patch; report which checks catch it."""
import sys, os, subprocess, json, re
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(i, all_checks):
    d = f'/verif/seeded/{i}'
    mut = f'{d}/edit.mut'
    assert not sh('git -C /repo status --short').stdout.strip(), 'dirty'
    if os.path.exists(mut):
        txt = open(mut).read(); path = None
        for m in re.finditer(r'@@ (\S+)\n((?:<<<<\n.*?\n====\n.*?>>>>\n?)+)', txt, re.S):
            p = '/repo/' + m[1]; s = open(p).read()
            for b in re.finditer(r'<<<<\n(.*?\n)====\n(.*?)>>>>\n?', m[2], re.S):
                assert s.count(b[1]) == 1, (m[1], s.count(b[1]), b[1])
                s = s.replace(b[1], b[2])
            open(p, 'w').write(s)
        open(f'{d}/patch.diff', 'w').write(sh('git -C /repo diff').stdout); sh('git -C /repo checkout -- .')
        os.unlink(mut)
    b = sh('bash /opt/vp/build.sh'); assert b.returncode == 0
    ok0 = [sh(f'timeout 300 bash {d}/demo.sh', cwd='/repo') for _ in range(3)]
    print('unpatched demo', [x.returncode for x in ok0]);
    if any(x.returncode for x in ok0): print(ok0[0].stdout[-2000:])
    try:
        r = sh(f'git -C /repo apply {d}/patch.diff'); assert r.returncode == 0, r.stdout
        b = sh('bash /opt/vp/build.sh'); print('build', b.returncode)
        if b.returncode: print(b.stdout[-1500:])
        ok1 = [sh(f'timeout 300 bash {d}/demo.sh', cwd='/repo') for _ in range(3)]
        print('patched demo', [x.returncode for x in ok1], ok1[0].stdout[-300:])
        print('tests', sh('bash /tmp/w/stable.sh').stdout.strip())
        meta = json.load(open(f'{d}/meta.json'))
        ids = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']] if all_checks else [meta['property']]
        for q in ids:
            c = sh(f'cd /verif && ./check {q}'); 
            if c.returncode: print(q, c.returncode, [l for l in c.stdout.split('\n') if 'VIOLATION' in l][:1], c.stdout[-600:] if q==meta['property'] else '')
            elif q == meta['property']: print(q, 'MISSED')
    finally:
        sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
main(sys.argv[1], len(sys.argv) > 2)
