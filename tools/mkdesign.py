"""DESIGN.md: hand-written parts of tools/design/*.md around the per-property part, which is made from the
documentation of the rules (engine/r_*.py), tools/techniques.py, the seeds and tools/design/notes.py."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine'); sys.path.insert(0, V + '/tools'); sys.path.insert(0, V + '/tools/design')
import techniques, notapplicable, notes
R = {}
for m in sorted(glob.glob(V + '/engine/r_*.py')):
    mod = importlib.import_module(os.path.basename(m)[:-3])
    R.update({k: (v, 'engine/' + os.path.basename(m)) for k, v in mod.RULES.items()})
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
seeds = {}
for d in sorted(glob.glob(V + '/seeded/*')):
    j = json.load(open(d + '/meta.json'))
    seeds.setdefault(j['property'], []).append((os.path.basename(d), j))
out = [open(V + '/tools/design/head.md').read().rstrip(), '', '## The properties, one by one', '']
for p in props:
    i = p['id']
    out.append('### %s %s' % (i, p['title']))
    out.append('')
    if i in R:
        f, m = R[i]
        out.append('*Rule* (`%s`, `%s`): %s' % (m, f.__name__, ' '.join((f.__doc__ or '').split())))
        out.append('')
        out.append('*Technique:* %s.' % techniques.TECH[i][0])
    else:
        out.append('*Not claimed:* %s' % notapplicable.NA.get(i, 'no check for it has been built yet'))
    n = notes.N.get(i)
    if n:
        out += ['', ' '.join(n.split())]
    if i in seeds:
        out.append('')
        for s, j in seeds[i]:
            out.append('- planted `%s`: %s (needs: %s). %s' % (s, ' '.join(str(j['what_it_breaks']).split()).rstrip('.'), ' '.join(str(j['needs']).split()).rstrip('.'),
                                                                'Caught by %s.' % ', '.join(notes.CAUGHT.get(s, [i])) if notes.CAUGHT.get(s, [i]) else 'Not caught.'))
    out.append('')
out.append(open(V + '/tools/design/tail.md').read().rstrip())
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
