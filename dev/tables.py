"""rewrites the last two sections of DESIGN.md: planted bugs, genuine defects"""
import os, json, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(H)
s = open('DESIGN.md').read()
head = s[:s.index('## Planted bugs')]
o = ['## Planted bugs', '',
     'Each is in `seeded/<id>/`, confirmed to build, to pass the 34 stable tests and to fail its own demonstration; each is reported by',
     'the check of the property it was written against (confirmed with `dev/seed.py`). Ones a check first missed led to new rules: an',
     'emptiness test by linear form (P01), the receive buffer of whole files as a linear form (P32), the room of generator guards (P25),',
     'spin limits (P25), the order of sleeping tasks (P06).', '',
     '| planted | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % d))
    n = re.sub(r'\s+', ' ', m['needs'] if isinstance(m['needs'], str) else '; '.join(m['needs']))
    o.append('| %s | %s | %s | %s |' % (d, m['property'], n[:150].replace('|', '/'), m['property']))
o += ['', 'Besides these, `dev/pNN.mut` holds for each property small bad edits (must be reported) and behaviour-preserving ones (must not be);',
      'and a mechanical refactoring of every function of nine source files (body moved to a helper, if/else inverted, returned values through',
      'a local, conditions through a local, while to for(;;)/break) was run against all checks.', '',
      '## Genuine defects', '', 'Repaired (one `fix:` commit each in /repo; the check reports each again on the tree before it):', '']
for l in open('known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        o.append('- %s (`%s`): %s' % m.groups())
o += ['', open('dev/unrepaired.md').read().strip(), '']
open('DESIGN.md', 'w').write(head + '\n'.join(o))
