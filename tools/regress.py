#!/usr/bin/env python3
"""regress.py [-c] [-p IDS] [FILE...] [-k NAME]: runs the checks against edited copies of /repo's sources.  Each case file in
/verif/regress holds CASES = [(name, expected property ids, [(file, old, new), ...])]: an empty set of ids means
an edit that keeps the behaviour, on which every check has to stay quiet.  -c also compiles the edited copy.
A developing aid; no registered command uses it."""
import concurrent.futures as cf, glob, os, shutil, subprocess, sys, tempfile, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
comp = '-c' in args
args = [a for a in args if a != '-c']
pat = None
only = None
if '-k' in args:
    i = args.index('-k'); pat = args[i + 1]; del args[i:i + 2]
if '-p' in args:
    i = args.index('-p'); only = args[i + 1].split(','); del args[i:i + 2]
files = args or sorted(glob.glob(os.path.join(V, 'regress', '*.py')))
M = json.load(open(os.path.join(V, 'MANIFEST.json')))
IDS = [c['property'] for c in M['checks']]
RUN = r'''
import sys, os
sys.path.insert(0, %r)
sys.setrecursionlimit(100000)
import check, json, traceback
from facts import Broken
import facts
try:
    p = facts.load()
except Exception as e:
    print('RES ALL 2 load: ' + str(e)[-1500:].replace('\n', ' '))
    sys.exit()
for i in %r:
    try:
        ctx = check.decide(i, 'quick', p)
        b = ctx.bad()
        print('RES', i, 1 if b else 0, '; '.join('%%s|%%s|%%s|%%s' %% (o.rule, o.key, o.where, o.why) for o in b[:4]).replace('\n', ' '))
    except Broken as e:
        print('RES', i, 2, 'broken: ' + str(e)[:600].replace('\n', ' '))
    except Exception as e:
        print('RES', i, 2, 'internal: ' + traceback.format_exc()[-400:].replace('\n', ' '))
'''


def one(case):
    name, expect, edits = case[:3]
    d = tempfile.mkdtemp(prefix='hycu-reg-')
    r = os.path.join(d, 'repo')
    try:
        os.makedirs(r)
        for x in os.listdir('/repo'):
            if x in ('_build', '.git'):
                continue
            s = os.path.join('/repo', x)
            shutil.copytree(s, os.path.join(r, x), symlinks=True) if os.path.isdir(s) else shutil.copy2(s, r)
        if os.path.isdir('/repo/_build'):
            os.symlink('/repo/_build', os.path.join(r, '_build'))
        if isinstance(edits, str) and edits.startswith('SED:'):
            for dd, _, fs in os.walk(os.path.join(r, 'src')):
                for f in fs:
                    q = os.path.join(dd, f); x = y = open(q).read()
                    for w in edits[4:].split(';'):
                        a, b = w.split('='); y = re.sub(r'\b%s\b' % a, b, y)
                    if x != y: open(q, 'w').write(y)
        elif isinstance(edits, str):
            q = subprocess.run(['patch', '-p1', '-s', '-d', r, '-i', edits], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if q.returncode:
                return case, None, 'patch: ' + q.stdout
        else:
            for f, old, new in edits:
                p = os.path.join(r, f)
                t = open(p).read() if os.path.exists(p) else ''
                if old == '':
                    t += new
                else:
                    if t.count(old) != 1:
                        return case, None, 'edit does not match %d times: %s: %s' % (t.count(old), f, old[:60])
                    t = t.replace(old, new)
                open(p, 'w').write(t)
        env = dict(os.environ, HYCU_REPO=r)
        q = subprocess.run(['python3', '-c', RUN % (os.path.join(V, 'engine'), only or IDS)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        res = {}
        for l in q.stdout.splitlines():
            if l.startswith('RES '):
                w = l.split(' ', 3)
                res[w[1]] = (int(w[2]), w[3] if len(w) > 3 else '')
        if not res:
            return case, None, q.stdout[-1500:]
        return case, res, ''
    finally:
        shutil.rmtree(d, ignore_errors=True)


cases = []
for f in files:
    g = {}
    if f.endswith('.diff'):
        cases.append((f, {'?'}, f)); continue
    exec(open(f).read(), g)
    cases += g['CASES']
if pat:
    cases = [c for c in cases if re.search(pat, c[0])]
bad = 0
with cf.ThreadPoolExecutor(8) as ex:
    for case, res, err in ex.map(one, cases):
        exp = set(case[1])
        if res is None:
            print('ERR  ', case[0], err[:1500]); bad += 1; continue
        hit = {i for i, r in res.items() if r[0] == 1}
        brk = {i for i, r in res.items() if r[0] == 2}
        if exp == {'?'}:
            st = 'INFO '
        elif exp:
            miss = exp & set(only or IDS) - hit
            st = 'ok   ' if not miss else 'MISS '
        else:
            st = 'quiet' if not hit and not brk else 'ALARM'
        if st in ('MISS ', 'ALARM'):
            bad += 1
        print(st, case[0], 'expect', sorted(exp), 'hit', sorted(hit), 'broken', sorted(brk))
        if st in ('MISS ', 'ALARM', 'INFO ') or '-v' in os.environ.get('V', ''):
            for i in sorted(hit | brk):
                print('       ', i, res[i][1][:700])
        sys.stdout.flush()
print('%d cases, %d bad' % (len(cases), bad))
