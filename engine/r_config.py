"""Rules about configurations: reading and writing them as YAML (C20), sending them to other processes (C21)."""
from lib import *
import r_pool

REC = 'ConfigNode'
DOC = {'prime': 'Prime', 'prime_exponent': 'PrimeExponent', 'genus': 'Genus', 'with_marked_point': 'WithMarkedPoint',
       'count_exponent': 'CountExponent', 'result_path': 'ResultPath', 'package_size': 'PackageSize'}
# entries that may be missing, with what they stand for then
DEFAULT = {'with_marked_point': lambda get_: C(0), 'count_exponent': lambda get_: get_('genus')}
RANGE = {'bool': (0, 1), 'int': (1, 31), 'unsigned int': (0, 32), 'long': (1, 63), 'unsigned long': (0, 64),
         'long long': (1, 63), 'unsigned long long': (0, 64), 'short': (1, 15), 'unsigned short': (0, 16), 'char': (1, 7),
         'unsigned char': (0, 8), 'signed char': (1, 7)}


def wide(t, need):
    """Does the type named t have all values of the type named need?"""
    if t not in RANGE or need not in RANGE:
        return None
    if (t == 'bool') != (need == 'bool'):
        return False
    (s, b), (s2, b2) = RANGE[t], RANGE[need]
    return b >= b2 and s >= s2


def conv(ctx, name, what):
    fs = [f for f in ctx.fns(lambda f: f['q'].endswith('::' + name) and f['q'].startswith('YAML::convert') and
                             any(REC in tname(q['t']) for q in f['params']))]
    ctx.need(len(fs) == 1, 'the function that %s a configuration was not found' % what)
    return fs[0]


def fields(ctx):
    return {x['n']: x['t'] for x in ctx.record(REC)['fields']}


def param(f, what):
    return next((i for i, q in enumerate(f['params']) if what in tname(q['t'])), None)


def entry(t):
    """(node, key) of an entry of a node."""
    return t[2:] if t[0] == 'app' and t[1] == 'yaml[]' and t[3][0] == 'c' else None


def read_as(v):
    """(key, type) if a value is what an entry was read as."""
    if v[0] == 'S' and len(v[1]) == 1 and v[1][0][0] == 'b':
        v = v[1][0][1]
    if v[0] == 'app' and v[1] == 'yaml.as' and entry(v[2]):
        return entry(v[2])[1][1], v[3][1]
    return None


def present(facts, root, key):
    return test(facts, atom_eq0(('app', 'yaml?', ('app', 'yaml[]', root, C(key))))) if True else None


def known(facts, root, key):
    """Is the entry known to be there (True), to be missing (False)?"""
    r = present(facts, root, key)
    return None if r is None else not r


def const_of(v):
    return v


def c20(ctx):
    """For every path on which a configuration is decoded, the value of each setting is the one that the entry
    of the documented name was read as, in a type that has all values of the setting; a missing optional entry
    yields its documented default and a missing required one never a configuration.  For every path on which
    one is encoded each setting is stored under the name under which it is read, unless it has the value that
    is read when the entry is missing."""
    flds = fields(ctx)
    d = conv(ctx, 'decode', 'reads')
    ps, it = ctx.run(d, tag='config')
    ci, ni = param(d, REC), param(d, 'Node')
    ctx.need(ci is not None and ni is not None, 'the parameters of %s were not found' % d['q'])
    cname, nname = d['params'][ci]['n'], d['params'][ni]['n']
    root = ('sym', 'arg:' + nname)
    cloc = next((e.a['loc'][0] for p in ps for e in flat(p.events) if e.kind == 'w' and str(show_loc(e.a['loc'])).startswith('arg:' + cname)), None)
    ctx.need(cloc is not None, '%s does not write a configuration' % d['q'])
    keys, good = {}, 0
    opt_missing = {f: False for f in DEFAULT if f in flds}
    for p in ps:
        if p.kind != 'ret':
            continue
        loops_ = [e for e in p.events if e.kind == 'loop']
        ctx.need(not loops_, 'a loop in ' + d['q'])
        if p.val == C(0):
            # refusing a configuration
            asked = [a for a in p.facts if any(isinstance(x, tuple) and x[:2] == ('app', 'yaml?') for x in subterms(a))]
            req = [DOC[f] for f in flds if f in DOC and f not in DEFAULT]
            miss = any(known(p.facts, root, k) is False for k in req)
            other = [a for a in p.facts if a not in asked]
            # a refusal that hangs on several entries at once leaves nothing known about any single one
            ctx.ob(miss or other or not asked, 'not-refused', d['q'], d, 'a configuration with all required entries is not refused',
                   'refused on ' + ', '.join('%s %s' % (show(entry(a[1][0][0][2])[1]) if a[0] == 'eqk' and entry(a[1][0][0][2]) else a[0], 'missing' if p.facts[a] else 'given') for a in asked))
            continue
        good += 1
        val = lambda f: it.load(p.st, (cloc, (f,)))
        for f, t in flds.items():
            v = val(f)
            r = read_as(v)
            k = DOC.get(f) if set(flds) == set(DOC) else None
            if f in opt_missing:
                kk = k or (r and r[0])
                if k and known(p.facts, root, k) is False:
                    opt_missing[f] = True
                    dv = DEFAULT[f](val)
                    ctx.ob(v == dv or v == C(False) and dv == C(0), 'default', f, d, 'when the entry %s is missing the setting has its default value' % k, 'it has the value ' + show(v))
                    continue
            ctx.ob(r is not None, 'read', f, d, 'the setting %s is read from the configuration file' % f, 'its value is ' + show(v))
            if r is None:
                continue
            keys.setdefault(f, set()).add(r[0])
            if k:
                ctx.ob(r[0] == k, 'read-name', f, d, 'the setting %s is read from the entry %s' % (f, k), 'it is read from ' + str(r[0]))
                ctx.ob(known(p.facts, root, k) is not False, 'required', f, d, 'the entry %s is required' % k)
            if 'path' in tname(t) or 'string' in tname(t):
                ctx.ob('string' in r[1] or 'path' in r[1], 'read-type', f, d, 'the setting %s is read as text' % f, 'it is read as ' + r[1])
            else:
                w = wide(r[1], tname(t))
                ctx.need(w is not None, 'the setting %s is read as %s' % (f, r[1]))
                ctx.ob(w, 'read-type', f, d, 'the setting %s is read in a type that has all of its values' % f, 'it is read as %s, and is %s' % (r[1], tname(t)))
    ctx.need(good, 'no path on which a configuration is read')
    for f, ok in opt_missing.items():
        ctx.ob(ok or set(flds) != set(DOC), 'optional', f, d, 'the entry %s may be missing' % DOC.get(f, f))
    # distinct settings have distinct names
    for f in flds:
        ks = keys.get(f, set())
        ctx.ob(len(ks) <= 1, 'one-name', f, d, 'each setting is read from one entry', 'read from ' + ', '.join(sorted(ks)))
        for g in flds:
            if g < f and ks & keys.get(g, set()):
                ctx.ob(False, 'own-name', f, d, 'different settings are read from different entries', '%s and %s are both read from %s' % (g, f, sorted(ks)[0]))
    encode(ctx, flds, keys)


def encode(ctx, flds, keys):
    e = conv(ctx, 'encode', 'writes')
    ps, it = ctx.run(e, tag='config')
    ci = param(e, REC)
    arg = ('sym', 'arg:' + e['params'][ci]['n'])
    n = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        n += 1
        ctx.need(not [x for x in p.events if x.kind == 'loop'], 'a loop in ' + e['q'])
        sets = [x for x in flat(p.events) if x.kind == 'yamlset']
        got = {}
        for x in sets:
            en = entry(x.a['node_'])
            ctx.need(en, 'an entry of unknown name is written by ' + e['q'])
            v = x.a['val']
            if v[0] == 'S' and len(v[1]) == 1 and v[1][0][0] == 'b':
                v = v[1][0][1]
            got[en[1][1]] = (v, x)
            ctx.ob(en[0] == p.val, 'written-to', en[1][1], x, 'entries are written to the node that is returned')
        for f in flds:
            ks = keys.get(f)
            if not ks:
                continue
            k = sorted(ks)[0]
            me = ('fld', arg, f)
            if k in got:
                v, x = got[k]
                same = v == me or test(p.facts, atom_eqv(v, me)) is True
                if not same and tname(flds[f]) == 'bool' and v in (C(0), C(1), C(True), C(False)):
                    same = test(p.facts, atom_eq0(me)) is (not v[1])
                ctx.ob(same, 'written', f, x, 'the setting %s is written under the name under which it is read' % f, 'written is ' + show(v))
            elif f in DEFAULT:
                dv = DEFAULT[f](lambda g: ('fld', arg, g))
                left = test(p.facts, atom_eqv(me, dv)) is True or dv == C(0) and test(p.facts, atom_eq0(me)) is True
                ctx.ob(left, 'left-out', f, e, 'the setting %s is left out only if it has its default value' % f)
            else:
                ctx.ob(False, 'written', f, e, 'the setting %s is written under the name under which it is read' % f, 'it is not written')
    ctx.need(n, 'no path on which a configuration is written')


# ------------------------------------------------------------------------------------------ C21
def show_loc(l):
    r = l[0]
    if r[0] == 'o':
        return str(r[1]) + ''.join('.%s' % (x,) for x in l[1])
    return show(('ptr', l)).lstrip('&')


def serializers(ctx):
    """{type: ([saving functions], [loading functions])} for types with a serialize function of their own."""
    out = {}
    for f in ctx.fns(lambda f: f['q'].rsplit('::', 1)[-1] in ('serialize', 'save', 'load') and len(f['params']) >= 1):
        if 'archive' not in tname(f['params'][0]['t']):
            continue
        t = tname(f['params'][1]['t']) if len(f['params']) > 1 and not f.get('rec') else f.get('rec')
        if not t or 'Serializer' in (f.get('rec') or ''):
            continue
        out.setdefault(t.replace('const ', ''), []).append(f)
    return out


def trace(ctx, f):
    """[(type, value or None, location)] transferred on the paths of a function, saving or loading."""
    ps, it = ctx.run(f, tag='ar')
    res = []
    for p in ps:
        if p.kind != 'ret':
            continue
        ctx.need(not [x for x in p.events if x.kind == 'loop' and any(y.kind == 'ar' for y in flat([x]))], 'a loop in ' + f['q'])
        res.append((p, [e for e in flat(p.events) if e.kind == 'ar'], it))
    return res


def field_of(v, arg):
    """The member of the object that a saved value is."""
    if v[0] == 'S' and len(v[1]) == 1 and v[1][0][0] == 'b':
        v = v[1][0][1]
    while v[0] == 'app' and v[1] in ('path.generic_string', 'path.string', 'path.native', 'str'):
        v = v[2]
    path = []
    while v[0] == 'fld':
        path.insert(0, v[2])
        v = v[1]
    return path[0] if v == arg and len(path) == 1 else None


def c21(ctx):
    """For every type that is sent and has a serialisation of its own: saving and loading transfer the same
    number of values, of the same types; each member is saved exactly once and loaded from the value at the
    same position.  A configuration or a block that other processes get is the one that the pool was given, and
    they hand to their threads what they received."""
    sers = serializers(ctx)
    ctx.need(any(REC in t for t in sers), 'the serialisation of configurations was not found')
    for t, fs in sorted(sers.items()):
        saves, loads = [], []
        for f in fs:
            # the archive of the instantiation tells the direction
            (loads if 'iarchive' in tname(f['params'][0]['t']) else saves).append(f)
        if not saves or not loads:
            ctx.need(REC not in t, 'the serialisation of configurations is not instantiated in both directions')
            continue
        members = member_types(ctx, t, fs[0])
        for fs_ in saves:
            for fl in loads:
                pair(ctx, t, members, fs_, fl)
    transfers(ctx)


def member_types(ctx, t, f):
    q = f['params'][1]['t'] if len(f['params']) > 1 else None
    while isinstance(q, dict) and q['k'] in ('lref', 'rref'):
        q = q['to']
    if t in ctx.p.records:
        return {x['n']: x['t'] for x in ctx.p.records[t]['fields']}
    if isinstance(q, dict) and q.get('rec') in ctx.p.records:
        return {x['n']: x['t'] for x in ctx.p.records[q['rec']]['fields']}
    if isinstance(q, dict) and q.get('q') in ('std::tuple', 'std::pair'):
        a = [x for x in q.get('args') or []]
        a = [y for x in a for y in (x if isinstance(x, list) else x.get('pack', [x]) if isinstance(x, dict) else [x])]
        return {(('first', 'second')[i] if q['q'] == 'std::pair' else i): x for i, x in enumerate(a)}
    ctx.need(False, 'members of %s not found' % t)


def pair(ctx, t, members, fs_, fl):
    sn = fs_['params'][1]['n'] if len(fs_['params']) > 1 and not fs_.get('rec') else None
    arg = ('sym', 'arg:' + sn) if sn else ('sym', 'this')
    key = t
    for p, out, it in trace(ctx, fs_):
        order = [field_of(e.a['val'], arg) for e in out]
        for e, f in zip(out, order):
            ctx.ob(f is not None and f in members, 'saved-member', key, e, 'what is saved are members', 'saved is ' + show(e.a['val']))
        for f in members:
            ctx.ob(order.count(f) == 1, 'saved', '%s: %s' % (key, f), fs_, 'the member %s is saved once' % f, 'saved %d times' % order.count(f))
        for q, inn, it2 in trace(ctx, fl):
            same = [e.a.get('type') for e in out] == [e.a.get('type') for e in inn]
            ctx.ob(same, 'same-types', key, fl, 'loading transfers the types that saving does, in the same order',
                   'saved %s, loaded %s' % ([e.a.get('type') for e in out], [e.a.get('type') for e in inn]))
            if not same:
                continue
            ln = fl['params'][1]['n'] if len(fl['params']) > 1 and not fl.get('rec') else 'this'
            loc = next((r for r in q.st.mem if r[0] == 'o' and r[1] in ('arg:' + ln, ln)), None)
            ctx.need(loc is not None or not members, 'the loaded object was not found in ' + fl['q'])
            for i, f in enumerate(order):
                if f not in members:
                    continue
                v = it2.load(q.st, (loc, (f,)))
                if v[0] == 'S' and len(v[1]) == 1 and v[1][0][0] == 'b':
                    v = v[1][0][1]
                ctx.ob(v == inn[i].a['val'], 'loaded', '%s: %s' % (key, f), inn[i], 'the member %s is loaded from the value that was saved from it' % f, 'it becomes ' + show(v))


def transfers(ctx):
    f, ps, tab = r_pool.handlers(ctx)
    n = 0
    for t, hs in tab.items():
        for h in hs:
            for o in h.ops:
                kind = r_pool.optype(o)
                if kind in ('config', 'assign'):
                    n += 1
                    got = [v for r in h.recvs for v in r.a['vals']]
                    ok = o.a['args'] and o.a['args'][0] in got
                    ctx.ob(ok, 'handed-on', '%s: %s' % (f['q'], r_pool.tagname(ctx, t)), o, 'the threads are given what was received', '' if ok else 'they are given ' + show(o.a['args'][0]))
            for s in h.sends:
                rets = [o.a.get('ret') for o in h.ops]
                ok = all(any(r_pool.core(v) == r_pool.core(r) for r in rets if r is not None) for v in s.a['vals'])
                ctx.ob(ok, 'answered', '%s: %s' % (f['q'], r_pool.tagname(ctx, t)), s, 'the answer is the result of the operation', 'it is ' + ', '.join(show(v) for v in s.a['vals']))
    ctx.need(n, 'no message carries a configuration or a block')
    for rec, tp, fsf in r_pool.pools(ctx):
        for g in r_pool.entries(ctx, rec):
            qs, it = r_pool.run(ctx, g, rec)
            for p in qs:
                for e in flat(p.events):
                    for a in r_pool.acts(ctx, e):
                        if a.kind == 'req' and a.op in ('config', 'assign') and a.args:
                            what = a.args[0]
                            ok = what[0] == 'sym' and str(what[1]).startswith('arg:')
                            ctx.ob(ok, 'passed-on', '%s: %s' % (g['q'], a.op), e, 'other processes and the own threads get what the pool was given', 'they get ' + show(what))


RULES = {'C20': c20, 'C21': c21}
