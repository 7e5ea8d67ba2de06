"""check.py <property> [--thorough]: decides one property on the current source of /repo."""
import hashlib, importlib, json, os, pickle, sys, time
sys.setrecursionlimit(100000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import facts
from facts import Broken, VERIF
import lib

RULES = {}


def tree_hash():
    h = hashlib.sha256()
    for root in (facts.SRC, os.path.join(VERIF, 'front')):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0')
                h.update(open(p, 'rb').read())
    for f in ('CMakeLists.txt', 'src/CMakeLists.txt'):
        p = os.path.join(facts.REPO, f)
        if os.path.exists(p):
            h.update(open(p, 'rb').read())
    h.update(open(os.path.join(HERE, 'facts.py'), 'rb').read())
    return h.hexdigest()[:24]


def program():
    """The parsed program, cached under build/ by the content of the source tree."""
    d = os.path.join(VERIF, 'build')
    os.makedirs(d, exist_ok=True)
    c = os.path.join(d, 'prog-%s.pkl' % tree_hash())
    if os.path.exists(c):
        try:
            with open(c, 'rb') as f:
                return pickle.load(f)
        except Exception:
            pass
    p = facts.load()
    for f in os.listdir(d):
        if f.startswith('prog-') and f.endswith('.pkl'):
            try:
                if time.time() - os.path.getmtime(os.path.join(d, f)) > 600:
                    os.unlink(os.path.join(d, f))
            except OSError:
                pass
    tmp = c + '.%d' % os.getpid()
    with open(tmp, 'wb') as f:
        pickle.dump(p, f)
    os.replace(tmp, c)
    return p


def known(prop):
    """Listed findings of a property: [(rule, key, text)]."""
    out = []
    p = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def rules():
    for m in sorted(os.listdir(HERE)):
        if m.startswith('r_') and m.endswith('.py'):
            mod = importlib.import_module(m[:-3])
            RULES.update(mod.RULES)
    return RULES


def decide(prop, tier, prog=None):
    prog = prog or program()
    r = rules()
    if prop not in r:
        raise Broken('no rule for property ' + prop)
    ctx = lib.Ctx(prog, prop, tier)
    r[prop](ctx)
    if not ctx.obs:
        raise Broken('rule of %s generated no obligation' % prop)
    return ctx


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = os.path.join(VERIF, 'evidence', prop + '.json')
    try:
        ctx = decide(prop, tier)
    except Broken as e:
        print('check.py: cannot decide %s: %s' % (prop, e))
        return 2
    bad = ctx.bad()
    kn = known(prop)
    new, listed = [], []
    for o in bad:
        k = [d for d in kn if d['rule'] == o.rule and d['key'] == o.key]
        (listed if k else new).append(o)
    fnset, sites = set(), set()
    for it in ctx.interps:
        fnset |= it.stats['functions']
    for fs in getattr(ctx, 'extra_functions', ()):
        fnset.add(fs)
    byrule = {}
    for o in ctx.obs.values():
        b = byrule.setdefault(o.rule, {'obligations': 0, 'discharged': 0, 'sites': []})
        b['obligations'] += 1
        b['discharged'] += o.ok
        if len(b['sites']) < 12:
            b['sites'].append(o.where + ': ' + o.what)
    doc = ctx_doc(prop)
    cov = {
        'explanation': doc,
        'obligations': len(ctx.obs), 'discharged': sum(o.ok for o in ctx.obs.values()),
        'functions_analysed': sorted(fnset), 'entry_points': sorted({k[0] for k in ctx.runs}),
        'abstract_paths': ctx.paths, 'calls_inlined': sum(i.stats['calls'] for i in ctx.interps),
        'loops_stabilised': sum(i.stats['loops'] for i in ctx.interps),
        'translation_units': [facts.rel(t) for t in ctx.p.tus],
        'rules': byrule,
        'known_findings': [o.key for o in listed],
    }
    rep = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
           'coverage': cov, 'assumptions': ASSUME + ctx.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    for o in listed:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (prop, o.key, o.where, o.why))
    rc = 0
    if new:
        rc = 1
        rp = os.path.join(VERIF, 'evidence', prop + '.violations.json')
        with open(rp, 'w') as f:
            json.dump([{'rule': o.rule, 'construct': o.key, 'where': o.where, 'obligation': o.what, 'why': o.why} for o in new], f, indent=1)
        for o in new:
            print('%s: %s: rule %s: %s%s' % (o.where, o.key, o.rule, o.what, ('\n    ' + o.why) if o.why else ''))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        rep['coverage']['violating'] = [{'rule': o.rule, 'construct': o.key, 'where': o.where, 'why': o.why} for o in new]
    with open(ev, 'w') as f:
        json.dump(rep, f, indent=1)
        f.write('\n')
    if not new:
        print('%s: %d obligations discharged in %d abstract paths, %.1f s' % (prop, cov['discharged'], ctx.paths, rep['wall_s']))
    return rc


ASSUME = [
    'the C++ library, Boost, yaml-cpp and FLINT behave as their documentation says (engine/models.py states what is used)',
    'mangled names and types as clang 18 resolves them for the compile commands of the real build; OpenCL code is not built here and not analysed',
]


def ctx_doc(prop):
    f = RULES[prop]
    return ' '.join((f.__doc__ or prop).split())


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        print('check.py: internal error, nothing decided')
        rc = 2
    sys.exit(rc)
