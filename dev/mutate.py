#!/usr/bin/env python3
"""Development aid (no check reads it): apply small source edits to a scratch copy and
say which checks react.  mutate.py FILE...  where FILE holds blocks

    ## <property>[,<property>..] <bad|ok> <name>
    @@ path
    <<<<
    old text
    ====
    new text
    >>>>
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def parse(path):
    out = []
    cur = None
    txt = open(path).read()
    for blk in re.split(r'^## ', txt, flags=re.M)[1:]:
        head, _, body = blk.partition('\n')
        props, kind, name = head.split(None, 2)
        edits = []
        f = None
        for m in re.finditer(r'^@@ (\S+)\n|^<<<<\n(.*?)^====\n(.*?)^>>>>', body, re.M | re.S):
            if m.group(1):
                f = m.group(1)
            else:
                edits.append((f, m.group(2).rstrip('\n'), m.group(3).rstrip('\n')))
        out.append((props.split(','), kind, name, edits))
    return out


def run(m):
    props, kind, name, edits = m
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        for s in ('src', 'include'):
            shutil.copytree('/repo/' + s, d + '/' + s)
        for f, a, b in edits:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(a) < 1:
                return name, 'EDIT-FAILED', a[:60]
            open(p, 'w').write(t.replace(a, b, 1))
        res = []
        ev = dict(os.environ, VERIF_REPO=d, VERIF_EVID=d)
        for pid in props:
            p = subprocess.run([os.path.join(ROOT, 'check'), pid], env=ev, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            want = 1 if kind == 'bad' else 0
            ok = p.returncode == want
            res.append(('' if ok else 'UNEXPECTED ') + '%s rc=%d' % (pid, p.returncode) +
                       ('' if ok and kind == 'ok' else '\n      ' + '\n      '.join(p.stdout.strip().split('\n')[:3])))
        return name, kind, '; '.join(res)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    ms = []
    for f in sys.argv[1:]:
        ms += parse(f)
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for n, k, r in ex.map(run, ms):
            if 'UNEXPECTED' in r or k == 'EDIT-FAILED':
                bad += 1
                print('!! %s [%s] %s' % (n, k, r))
            else:
                print('   %s [%s] %s' % (n, k, r.split(chr(10))[1].strip()[:150] if k == 'bad' and chr(10) in r else 'quiet'))
    print('%d mutants, %d unexpected' % (len(ms), bad))
