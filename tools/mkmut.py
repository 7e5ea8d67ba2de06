#!/usr/bin/env python3
"""mkmut.py NAME DIR: a copy of /repo's sources with one case of /verif/regress applied (a developing aid)."""
import glob, os, re, shutil, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name, d = sys.argv[1:3]
cases = []
for f in sorted(glob.glob(os.path.join(V, 'regress', '*.py'))):
    g = {}
    exec(open(f).read(), g)
    cases += g['CASES']
c = [x for x in cases if x[0] == name][0]
if os.path.isdir(d + '/src'):
    shutil.rmtree(d + '/src')
os.makedirs(d, exist_ok=True)
for x in os.listdir('/repo'):
    if x in ('_build', '.git') or os.path.exists(os.path.join(d, x)) and x != 'src':
        continue
    s = os.path.join('/repo', x)
    shutil.copytree(s, os.path.join(d, x), symlinks=True) if os.path.isdir(s) else shutil.copy2(s, d)
if not os.path.exists(d + '/_build'):
    os.symlink('/repo/_build', d + '/_build')
for f, old, new in (c[2] if not isinstance(c[2], str) else ()):
    p = os.path.join(d, f)
    t = open(p).read()
    assert t.count(old) == 1, (f, old)
    open(p, 'w').write(t.replace(old, new))
