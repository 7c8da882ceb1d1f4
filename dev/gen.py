#!/usr/bin/env python3
"""Write properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from dev/props/*.py."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, design, technique, note, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()),
                      why=' '.join(why.split()), files=files, mech=mech, design=design.strip(), technique=technique,
                      note=' '.join(note.split()), observe=list(observe), state=list(state)))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, 'not applicable: ' + reason, None, '')
    NA.append((id, ' '.join(reason.split())))


for f in sorted(glob.glob(os.path.join(ROOT, 'dev', 'props', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
PROPS.sort(key=lambda p: p['id'])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                         'observe_at': p['observe'], 'hook_needed': None}}
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 --version && /usr/lib/llvm-18/bin/clang --version && /usr/lib/llvm-18/bin/opt --version && /usr/lib/llvm-18/bin/llvm-link --version',
     'checks': [], 'not_applicable': [{'property': a, 'reason': b} for a, b in sorted(NA)],
     'notes': 'Static analysis of the LLVM IR clang produces from the current sources in /repo; nothing of /repo is executed. See DESIGN.md.'}
for p in PROPS:
    if p['technique'] is None:
        continue
    m['checks'].append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check ' + p['id'],
                        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other',
                        'level_note': p['note']})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
dp = os.path.join(ROOT, 'DESIGN.md')
if os.path.exists(dp):
    t = open(dp).read()
    body = []
    for p in PROPS:
        body.append('### %s  %s\n\n%s\n\n%s\n' % (p['id'], p['title'], '> ' + p['statement'], p['design']))
    a, b = '<!-- properties -->', '<!-- end properties -->'
    t = t[:t.index(a) + len(a)] + '\n\n' + '\n'.join(body) + '\n' + t[t.index(b):]
    open(dp, 'w').write(t)
import importlib.util
print(len(PROPS), 'properties', len(NA), 'n/a')
