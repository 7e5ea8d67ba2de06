"""Rules about the enumeration of curves (C30)."""
import itertools
from lib import *
from r_curve import trips
from interp import renorm_atom

ENUM, BLOCKS, FIELD = 'CurveIterator', 'BlockIterator', 'FqElementTable'
REPS = FIELD + '::power_coset_representatives'


def enum_opaque(f):
    return f['q'] in (BLOCKS + '::' + BLOCKS, REPS)


# ------------------------------------------------------------------ linear facts
class Lin:
    """A conjunction of linear inequalities over integers, from the facts of an iteration and from the counters of
    the loops around it; what follows from it is decided by elimination of variables."""

    def __init__(s, facts, around, cases=()):
        s.le = []                            # (dict, k): sum <= k
        s.ne = []
        for a, b in cases:
            c, d = lin(sub(a, b))
            s.le.append((d, -c))
        s.facts, s.around = facts, around
        for a, v in facts.items():
            if a[0] == 'le':
                d = dict(a[1])
                s.le.append((d, a[2]) if v else ({x: -c for x, c in d.items()}, -a[2] - 1))
            elif a[0] == 'eqk':
                d = dict(a[1])
                if v:
                    s.le += [(d, a[2]), ({x: -c for x, c in d.items()}, -a[2])]
                else:
                    s.ne.append((d, a[2]))
        for le in around:
            L = le.a['loop']
            for k, step in L.step.items():
                if k not in L.start or not step:
                    continue
                c, d = lin(sub(('iv', L.marker, k), L.start[k]))
                if step > 0:
                    d, c = {x: -y for x, y in d.items()}, -c
                s.le.append((d, -c))
        for x in {x for d, _ in s.le + s.ne for x in d}:
            if x[0] == 'sym' and x[1] == 'arg:genus' or x[0] == 'size':
                s.le.append(({x: -1}, 0))
        for _ in range(3):                   # a <= k and a != k
            for d, k in list(s.ne):
                n = {x: -c for x, c in d.items()}
                if s.holds(n, -k):           # d >= k
                    s.le.append((n, -k - 1))
                    s.ne.remove((d, k))
                elif s.holds(d, k):
                    s.le.append((d, k - 1))
                    s.ne.remove((d, k))

    def holds(s, d, k):
        """Is sum d <= k?"""
        # refute sum d >= k + 1
        sys_ = [({x: -c for x, c in d.items() if c}, -k - 1)]
        vs = {x for x in sys_[0][0]}
        todo = [(dict(x), y) for x, y in s.le]
        ch = True
        while ch:                            # those that have to do with it
            ch = False
            for i in list(todo):
                if vs & set(i[0]):
                    sys_.append(i)
                    todo.remove(i)
                    if not set(i[0]) <= vs:
                        vs |= set(i[0])
                        ch = True
        for v in sorted(vs, key=str):
            up = [x for x in sys_ if x[0].get(v, 0) > 0]
            dn = [x for x in sys_ if x[0].get(v, 0) < 0]
            rest = [x for x in sys_ if not x[0].get(v, 0)]
            for a, b in itertools.product(up, dn):
                m, n = -b[0][v], a[0][v]
                r = {}
                for q, f in ((a[0], m), (b[0], n)):
                    for x, c in q.items():
                        r[x] = r.get(x, 0) + f * c
                r = {x: c for x, c in r.items() if c}
                k2 = m * a[1] + n * b[1]
                if not r and k2 < 0:
                    return True
                if r and (r, k2) not in rest:
                    rest.append((r, k2))
            sys_ = rest
            if len(sys_) > 400:
                return False
        return any(not d and k < 0 for d, k in sys_)

    def leq(s, a, b):
        c, d = lin(sub(a, b))
        return s.holds(d, -c) if d else c <= 0

    def eq(s, a, b):
        return a == b or s.leq(a, b) and s.leq(b, a)

    def absurd(s):
        return any(not d and k < 0 for d, k in s.le) or any(
            s.holds({x: 1}, -10 ** 6) and s.holds({x: -1}, -10 ** 6) for x in {x for d, _ in s.le for x in d})


class Split(Exception):
    """It depends on whether a <= b how keys are distributed."""

    def __init__(s, a, b):
        s.a, s.b = a, b


# ------------------------------------------------------------------ contents of maps
class Piece:
    """Keys lo, .., hi - 1 of a map, with the values that they may have: [(value, state, facts)]."""

    def __init__(s, lo, hi, vals, where, key):
        s.lo, s.hi, s.vals, s.where, s.key = lo, hi, vals, where, key

    def __repr__(s):
        return '%s..%s' % (show(s.lo), show(sub(s.hi, C(1))))


class Family:
    def __init__(s, it, ev, before, st, facts, around, cases=()):
        s.cases = cases                      # (a, b): a <= b besides
        s.it, s.ev, s.before, s.st, s.facts, s.around = it, ev, before, st, facts, around
        s.lin = Lin(facts, around, cases)

    def loop(s, marker):
        ls = [le for le in loops(s.before) if le.a['loop'].marker == marker]
        if not ls:
            raise Broken('a map that is filled outside of what is known about it')
        return ls[-1]

    def content(s, m, st, facts):
        """The pieces of a map, disjoint, in no particular order."""
        if m[0] == 'S' and not m[1]:
            return []
        if m[0] != 'M':
            raise Broken('the map %s is filled in a way that is not understood' % show(m)[:200])
        _, base, ov = m
        if base == C('{}') or base == ('c', '{}'):
            r = []
        elif base[0] == 'w':
            le = s.loop(base[1])
            L = le.a['loop']
            r = s.content(s.it.load(L.entry, base[2]), L.entry, le.a.get('xfacts', {}))
            tr = trips(le)
            if tr is None:
                raise Broken('the loop at line %s fills a map and was not understood' % le.line if hasattr(le, 'line') else 'a loop that fills a map was not understood')
            n, iv, s0, step = tr
            per = {}
            for a in le.a['alts']:
                v = s.it.load(a.st, base[2])
                if v[0] != 'M' or v[1] != base:
                    raise Broken('a loop fills a map in a way that is not understood')
                for k, ok, x in v[2]:
                    d = sub(k, iv)
                    if not ok or not isint(d):
                        raise Broken('a loop fills a map at %s' % show(k))
                    per.setdefault(d, []).append((x, a.st, a.facts, a))
            for d, xs in per.items():
                if len({id(x[3]) for x in xs}) != len(le.a['alts']):
                    raise Broken('a loop fills a map only sometimes')
                lo, hi = (s0, add(s0, n)) if step == 1 else (add(sub(s0, n), C(1)), add(s0, C(1)))
                if s.lin.leq(hi, lo):
                    continue
                if not s.lin.leq(lo, hi):
                    raise Split(lo, hi)
                r = s.put(r, Piece(add(lo, d), add(hi, d), [x[:3] for x in xs], le, None))
        else:
            raise Broken('the map %s is filled in a way that is not understood' % show(m)[:200])
        for k, ok, x in ov:
            if not ok:
                raise Broken('entries of a map are removed')
            r = s.put(r, Piece(k, add(k, C(1)), [(x, st, facts)], s.ev, k))
        return r

    def put(s, ps, n):
        """Pieces after the keys of another one were written."""
        out = []
        q = s.lin
        for p in ps:
            if q.leq(p.hi, n.lo) or q.leq(n.hi, p.lo):
                out.append(p)
            elif q.leq(n.lo, p.lo) and q.leq(p.hi, n.hi):
                pass
            elif q.leq(p.lo, n.lo) and q.leq(n.hi, p.hi):
                if not q.eq(p.lo, n.lo):
                    out.append(Piece(p.lo, n.lo, p.vals, p.where, None))
                if not q.eq(p.hi, n.hi):
                    out.append(Piece(n.hi, p.hi, p.vals, p.where, None))
            elif not q.leq(p.lo, n.lo) and not q.leq(add(n.lo, C(1)), p.lo):
                raise Split(p.lo, n.lo)
            elif not q.leq(n.hi, p.hi) and not q.leq(add(p.hi, C(1)), n.hi):
                raise Split(n.hi, p.hi)
            elif not q.leq(n.hi, p.lo) and not q.leq(add(p.lo, C(1)), n.hi):
                raise Split(n.hi, p.lo)
            elif not q.leq(p.hi, n.lo) and not q.leq(add(n.lo, C(1)), p.hi):
                raise Split(p.hi, n.lo)
            elif q.leq(p.lo, n.lo):
                out.append(Piece(p.lo, n.lo, p.vals, p.where, None))
            else:
                out.append(Piece(n.hi, p.hi, p.vals, p.where, None))
        return out + [n]

    def at(self, ps, k):
        for p in ps:
            if self.lin.leq(p.lo, k) and self.lin.leq(add(k, C(1)), p.hi):
                return p
        return None

    # -------------------------------------------------------------- lists
    def members(s, v, st, depth=0):
        """What a list holds: ('reps', n), ('val', v)."""
        if depth > 6:
            raise Broken('lists within lists')
        if v[0] == 'S':
            for k, x in [y[:2] for y in v[1]]:
                if k == 'e':
                    yield 'val', x
                elif k == 'b':
                    yield from s.members(x, st, depth + 1)
                else:
                    raise Broken('a list is filled in a way that is not understood: %s' % show(v)[:200])
        elif v[0] == 'app' and v[1] == REPS:
            yield 'reps', v[3]
        elif v[0] == 'ptr':
            yield from s.members(s.it.load(st, v[1]), st, depth + 1)
        elif v[0] == 'M':
            if v[1] == C('{}') or v[1] == ('c', '{}'):
                for k, ok, x in v[2]:
                    yield 'val', k
            elif v[1][0] == 'w':
                le = s.loop(v[1][1])
                for a in le.a['alts']:
                    x = s.it.load(a.st, v[1][2])
                    if x[0] != 'M' or x[1] != v[1]:
                        raise Broken('a list is filled in a way that is not understood')
                    for k, ok, y in x[2]:
                        yield 'val', k
                    for e in a.events:
                        if e.kind == 'cop' and e.a['loc'] == v[1][2] and e.a['op'] == 'insert_present':
                            yield 'val', e.a['args'][0]
            else:
                raise Broken('a list is filled in a way that is not understood: %s' % show(v)[:200])
        elif v[0] == 'fld' and v[1][0] == 'w' and isinstance(v[2], tuple) and v[2][0] == 'k':
            ps = s.content(('M', v[1], ()), st, {})
            p = s.at(ps, v[2][1])
            if p is None:
                raise Broken('it is not known which list %s is' % show(v))
            for x, st2, _ in p.vals:
                yield from s.members(x, st2, depth + 1)
        else:
            raise Broken('a list is filled in a way that is not understood: %s' % show(v)[:200])


def families(ctx):
    """Every place where a family is made, in every iteration that makes it."""
    fs = [f for f in ctx.methods(ENUM) if f.get('ctor') and len(f['params']) >= 3]
    ctx.need(fs, 'no constructor of %s' % ENUM)
    out = []
    for f in fs:
        ps, it = ctx.run(f, opaque=enum_opaque, tag='enum')

        def walk(evs, before, st, facts, around):
            for i, e in enumerate(evs):
                if e.kind == 'loop':
                    for a in e.a['alts']:
                        walk(a.events, before + evs[:i], a.st, a.facts, around + [e])
                elif e.kind == 'ctor' and e.a['rec'] == BLOCKS:
                    k = (repr(e.a['args']), e.a.get('fnid'), tuple(sorted((show_atom(a), str(v)) for a, v in facts.items())))
                    if k not in seen:
                        seen.add(k)
                        out.append((f, it, e, before + evs[:i], st, facts, around))
        seen = set()
        for p in ps:
            if p.kind == 'ret':
                walk(list(p.events), [], p.st, p.facts, [])
    ctx.need(out, 'the enumeration of curves makes no families')
    return out


def arguments(ctx, e):
    f = ctx.p.functions.get(e.a['fnid'])
    r = {}
    for q, v in zip(f['params'], e.a['args']):
        t = tname(q['t']).replace('const ', '')
        if t.startswith('std::map<unsigned long, std::tuple<unsigned int, unsigned int>'):
            r['blocks'] = v
        elif t.startswith('std::map<unsigned long, std::vector<unsigned int>'):
            r['sets'] = v
        elif t.startswith('std::map<unsigned long, std::tuple<unsigned long, std::map'):
            r['deps'] = v
        elif t.startswith('unsigned long'):
            r['length'] = v
        elif t.startswith('unsigned int'):
            r['package'] = v
    return r


def contradicts(fam, facts, contents):
    """Does an iteration say that a map lacks an entry which is there?"""
    for a, v in facts.items():
        if a[0] != 'has' or v:
            continue
        m = a[1] if a[1][0] == 'M' else ('M', a[1], ())
        try:
            ps = fam.content(m, fam.st, {})
        except Broken:
            continue
        if fam.at(ps, a[2]) is not None:
            return True
    return False


def c30(ctx):
    """At every place where the constructor of the enumeration makes a family, in every iteration of the loops around
    it, the keys under which it entered ranges, lists and dependent lists are intervals that lie one after another
    from zero to the length of the polynomial, without gap and without overlap, as follows from the linear facts of
    that iteration; ranges lie within the field and are not empty, lists are not empty and have codes of the field;
    those of the leading coefficient lack the code of zero; a dependent list has an entry for every position of the
    list it depends on."""
    n = 0
    sites = {}
    for f, it, e, before, st, facts, around in families(ctx):
        site = sites.setdefault((e.a.get('fnid'), where_of(e)), len(sites) + 1)
        todo = [()]
        while todo:
            cases = todo.pop()
            try:
                n += family(ctx, f, Family(it, e, before, st, facts, around, cases), '%s/family%d' % (f['q'], site))
            except Split as x:
                if len(cases) > 6:
                    raise Broken('%s distributes the coefficients in a way that is not understood' % f['q'])
                todo += [cases + ((x.a, x.b),), cases + ((add(x.b, C(1)), x.a),)]
    ctx.need(n, 'no family is made')


def family(ctx, f, fam, name):
    if fam.lin.absurd():
        return 0
    args = arguments(ctx, fam.ev)
    if 'length' not in args:
        raise Broken('%s makes a family in a form that is not understood' % f['q'])
    if contradicts(fam, fam.facts, {}):
        return 0
    cont = {}
    for k in ('blocks', 'sets', 'deps'):
        cont[k] = fam.content(args[k], fam.st, fam.facts) if k in args else []
    if tile(ctx, fam, cont, args['length'], name):
        values(ctx, fam, cont, args, name)
    return 1


def where_of(e):
    return str(getattr(e, 'line', None) or getattr(e, 'node', None) and e.node.get('l') or e.a.get('loc'))


def tile(ctx, fam, cont, length, name):
    q = fam.lin
    left = [(k, p) for k in cont for p in cont[k]]
    cur = C(0)
    order = []
    while left:
        nx = [x for x in left if q.eq(x[1].lo, cur)]
        nx.sort(key=lambda x: not q.eq(x[1].lo, x[1].hi))
        if not nx:
            break
        order.append(nx[0])
        left.remove(nx[0])
        cur = nx[0][1].hi
    ok = not left and q.eq(cur, length)
    why = ''
    if not ok:
        why = counterexample(fam, cont, length)
        if why is None:
            raise Broken('%s: the coefficients are distributed in a way that is not understood: %s' % (name, ', '.join('%s %r' % (k, p) for k in cont for p in cont[k])))
    return ctx.ob(ok, 'once', name, fam.ev, 'every coefficient from the constant to the leading one has one range', why)


def value_of(t, env):
    """The number that a term has under an assignment; None if it has none."""
    if t[0] == 'c':
        return t[1] if isinstance(t[1], (int, bool)) else None
    if t in env:
        return env[t]
    if t[0] == 'app' and t[1] == '%':
        a, b = value_of(t[2], env), value_of(t[3], env)
        return None if a is None or not b else a % b
    c, d = lin(t)
    if list(d) == [t]:
        return None
    r = c
    for x, k in d.items():
        v = value_of(x, env)
        if v is None:
            return None
        r += k * v
    return r


def counterexample(fam, cont, length):
    """Values of the variables which the facts admit and for which a coefficient has no range or two."""
    ps = [(k, p) for k in cont for p in cont[k]]
    ivs = {('iv', le.a['loop'].marker, k) for le in fam.around for k in le.a['loop'].step}
    vs = []

    def vars_(t):
        for x in subterms(t):
            if x in ivs or x and (x[0] == 'sym' or x[0] == 'fld') and isinstance(x[1], (str, tuple)) and not (x[0] == 'sym' and any(y[0] == 'fld' and y[1] == x for y in subterms(t) if y)):
                if x not in vs:
                    vs.append(x)
    for _, p in ps:
        vars_(p.lo), vars_(p.hi)
    vars_(length)
    for v in ivs:
        if v not in vs:
            vs.append(v)
    lins = []
    for le in fam.around:
        L = le.a['loop']
        for k, step in L.step.items():
            if k in L.start:
                lins.append((('iv', L.marker, k), L.start[k], step))
                vars_(L.start[k])
    atoms = []
    for a, v in fam.facts.items():
        if a[0] in ('le', 'eqk'):
            for x, _ in a[1]:
                for y in subterms(x):
                    if y in ivs or y and y[0] == 'fld' and y[2] == 'prime' or y and y[0] == 'sym' and y[1] in ('arg:genus', 'arg:with_marked_point'):
                        if y not in vs:
                            vs.append(y)
            atoms.append((a, v))
    if len(vs) > 7:
        return None

    def dom(x):
        if x[0] == 'fld' and x[2] == 'prime':
            return (3, 5, 7, 11, 13)
        if x[0] == 'sym' and 'marked' in x[1]:
            return (0, 1)
        if x[0] == 'sym':
            return (1, 2, 3)
        return range(-1, 9)

    def good(env):
        for a, v in atoms:
            r = [(value_of(x, env), c) for x, c in a[1]]
            if any(x is None for x, _ in r):
                continue
            t = sum(x * c for x, c in r)
            if ((t <= a[2]) if a[0] == 'le' else (t == a[2])) != v:
                return False
        for a, b in fam.cases:
            x, y = value_of(a, env), value_of(b, env)
            if x is not None and y is not None and x > y:
                return False
        for iv, s0, step in lins:
            x, y = value_of(iv, env), value_of(s0, env)
            if x is not None and y is not None and ((x - y) * step < 0 or (x - y) % step):
                return False
        return True
    vs.sort(key=lambda x: (x[0] != 'sym', x[0] != 'fld', str(x)))

    def search(i, env):
        if not good(env):
            return None
        if i == len(vs):
            n = value_of(length, env)
            cov = {}
            for k, p in ps:
                lo, hi = value_of(p.lo, env), value_of(p.hi, env)
                if lo is None or hi is None:
                    return None
                for x in range(lo, hi):
                    cov.setdefault(x, []).append(k)
            if n is None:
                return None
            for x in range(n):
                if len(cov.get(x, [])) != 1:
                    return 'for %s the coefficient %d of %d has %s' % (', '.join('%s = %d' % (show(v), env[v]) for v in vs), x, n, 'no range' if x not in cov else '%d ranges' % len(cov[x]))
            ex = [x for x in cov if not 0 <= x < n]
            if ex:
                return 'for %s there is a range for the coefficient %d of %d' % (', '.join('%s = %d' % (show(v), env[v]) for v in vs), ex[0], n)
            return None
        for x in dom(vs[i]):
            env[vs[i]] = x
            r = search(i + 1, env)
            if r:
                return r
            del env[vs[i]]
        return None
    return search(0, {})


def values(ctx, fam, cont, args, name):
    q = fam.lin
    top = sub(args['length'], C(1))
    pred = None
    for x in [y for k in cont for p in cont[k] for v, _, _ in p.vals for y in [v]]:
        for y in subterms(x):
            if y and y[0] == 'fld' and y[2] in ('prime_power_pred', 'prime_power'):
                pred = ('fld', y[1], 'prime_power_pred')
            if y and y[0] == 'app' and y[1] == REPS:
                pred = ('fld', y[2], 'prime_power_pred')
    for y in () if pred is not None else [z for k in cont for p in cont[k] for v, st, _ in p.vals if k == 'sets' for _, m in fam.members(v, st) for z in subterms(m)]:
        if y and y[0] == 'fld' and y[2] in ('prime_power_pred', 'prime_power'):
            pred = ('fld', y[1], 'prime_power_pred')
    if pred is None:
        raise Broken('%s: the field is not known' % name)
    nrm = lambda v: subst(v, {('fld', pred[1], 'prime_power'): add(pred, C(1))})

    def code(v):
        """Is it a code: 'zero', 'unit', or None."""
        v = nrm(v)
        if v == pred:
            return 'zero'
        if v[0] == 'app' and v[1] == '%' and nrm(v[3]) == pred:
            return 'unit'
        if isint(v):
            return 'unit' if 0 <= v[1] <= 1 else None
        c, d = lin(v)
        if d == {pred: 1} and c in (-1, -2):
            return 'unit'
        if v[0] == 'fld' and v[1][0] == 'app' and v[1][1] == REPS:
            return 'unit'
        raise Broken('%s: the entry %s of a list is not understood' % (name, show(v)[:200]))
    for p in cont['blocks']:
        lead = q.leq(p.lo, top) and q.leq(add(top, C(1)), p.hi)
        for v, st, _ in p.vals:
            lo, hi = [nrm(get(fam.facts, v, i)) for i in (0, 1)]
            d = sub(hi, lo)
            c, k = lin(d)
            up, ku = lin(sub(hi, pred))
            if not isint(lo) or k not in ({pred: 1}, {}) or ku not in ({}, {pred: -1}):
                raise Broken('%s: the range %s is not understood' % (name, show(v)[:200]))
            ne = c >= 1 if not k else c >= -1        # the group has two elements at least
            ctx.ob(ne, 'range', name + '/nonempty', fam.ev, 'ranges are not empty', '' if ne else 'the range of %r is %s..%s' % (p, show(lo), show(hi)))
            inside = lo[1] >= 0 and (up <= 1 if not ku else up <= 3)
            ctx.ob(inside, 'range', name + '/field', fam.ev, 'ranges lie within the field', '' if inside else 'the range of %r is %s..%s' % (p, show(lo), show(hi)))
            if lead:
                nz = up <= 0 if not ku else up <= 2
                ctx.ob(nz, 'leading', name, fam.ev, 'the leading coefficient is not zero', '' if nz else 'its range is %s..%s' % (show(lo), show(hi)))

    def lists(p, v, st, lead, what):
        ms = list(fam.members(v, st))
        ctx.ob(bool(ms), 'range', name + '/nonempty', fam.ev, 'lists are not empty', '' if ms else 'the list of %s is' % what)
        for k, x in ms:
            c = 'unit' if k == 'reps' else code(x)
            ctx.ob(c is not None, 'range', name + '/field', fam.ev, 'lists have codes of the field', '' if c else 'the list of %s has %s' % (what, show(x)))
            if lead:
                ctx.ob(c != 'zero', 'leading', name, fam.ev, 'the leading coefficient is not zero', '' if c != 'zero' else 'its list has the code of zero')
    for p in cont['sets']:
        lead = q.leq(p.lo, top) and q.leq(add(top, C(1)), p.hi)
        for v, st, _ in p.vals:
            lists(p, v, st, lead, repr(p))
    for p in cont['deps']:
        lead = q.leq(p.lo, top) and q.leq(add(top, C(1)), p.hi)
        for v, st, F in p.vals:
            on = get(F, v, 0)
            m = get(F, v, 1)
            target = fam.at(cont['sets'], on)
            if target is None:
                inb = fam.at(cont['blocks'], on) or fam.at(cont['deps'], on)
                if inb is None and any(not (q.leq(add(on, C(1)), x.lo) or q.leq(x.hi, on)) for x in cont['sets']):
                    raise Broken('%s: it is not known what coefficient %s has' % (name, show(on)))
                ctx.ob(False, 'dependent', name, fam.ev, 'a dependent list depends on a coefficient that has a list', 'it depends on %s' % show(on))
                continue
            ctx.ob(True, 'dependent', name, fam.ev, 'a dependent list depends on a coefficient that has a list')
            # a list for every position
            if m[0] != 'M' or m[1][0] != 'w' or m[2]:
                raise Broken('%s: dependent lists are made in a way that is not understood' % name)
            le = fam.loop(m[1][1])
            tr = trips(le)
            if tr is None:
                raise Broken('%s: dependent lists are made in a loop that is not understood' % name)
            cnt, iv, s0, step = tr
            sz = None
            for y in subterms(cnt):
                if y and y[0] == 'size':
                    sz = y
            ok = False
            if sz is not None and sz[1][0] == 'fld' and isinstance(sz[1][2], tuple) and sz[1][2][0] == 'k':
                same = fam.at(fam.content(('M', sz[1][1], ()) if sz[1][1][0] == 'w' else sz[1][1], st, {}), sz[1][2][1])
                ok = same is not None and [repr(x[0]) for x in same.vals] == [repr(x[0]) for x in target.vals]
            elif sz is not None:
                ok = [bare(sz[1])] == [bare(x[0]) for x in target.vals]
            if sz is None or not ok and any(bare(x[0])[0] != 'app' for x in target.vals):
                raise Broken('%s: the number of dependent lists, %s, is not understood' % (name, show(cnt)[:200]))
            full = ok and (cnt == sz and s0 == C(0) and step == 1 or step == -1 and cnt == sz and s0 == sub(sz, C(1)))
            ctx.ob(full, 'dependent', name + '/positions', le, 'there is a list for every position of the list that it depends on',
                   '' if full else '%s lists, from %s on, for %s' % (show(cnt)[:200], show(s0), show(on)))
            for a in le.a['alts']:
                x = fam.it.load(a.st, m[1][2])
                vs = [y for k, ok2, y in x[2]] if x[0] == 'M' and x[1] == m[1] else None
                if not vs or any(sub(k, iv) != C(0) for k, _, _ in x[2]):
                    raise Broken('%s: dependent lists are made in a way that is not understood' % name)
                fam2 = Family(fam.it, fam.ev, fam.before + a.events, a.st, a.facts, fam.around + [le], fam.cases)
                for y in vs:
                    ms = list(fam2.members(y, a.st))
                    ctx.ob(bool(ms), 'range', name + '/nonempty', fam.ev, 'lists are not empty', '' if ms else 'the dependent list of %r is' % p)
                    for k, z in ms:
                        c = 'unit' if k == 'reps' else code(z)
                        ctx.ob(c is not None, 'range', name + '/field', fam.ev, 'lists have codes of the field', '' if c else 'the dependent list of %r has %s' % (p, show(z)))
                        if lead:
                            ctx.ob(c != 'zero', 'leading', name, fam.ev, 'the leading coefficient is not zero', '' if c != 'zero' else 'its list has the code of zero')


def bare(v):
    """A list that is a copy of another one, as that one."""
    while v[0] == 'S' and len(v[1]) == 1 and v[1][0][0] == 'b':
        v = v[1][0][1]
    return v



# ------------------------------------------------------------------ weights (C35)
MULT = ENUM + '::multiplicity'
Q1 = {(1, ()): 1, (0, ()): -1}               # q - 1


class Inexact(Exception):
    pass


def qc(n):
    return {(0, ()): n} if n else {}


def qadd(a, b, f=1):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) + f * c
    return {k: c for k, c in r.items() if c}


def qmul(a, b):
    r = {}
    for (i, g), c in a.items():
        for (j, h), d in b.items():
            m = dict(g)
            for x, e in h:
                m[x] = m.get(x, 0) + e
            k = (i + j, tuple(sorted((x, e) for x, e in m.items() if e)))
            r[k] = r.get(k, 0) + c * d
    return {k: c for k, c in r.items() if c}


def qgcd(k):
    """gcd(k, q - 1) for odd q."""
    k = abs(k)
    return Q1 if k == 0 else qc(k) if k in (1, 2) else {(0, ((k, 1),)): 1}


def qshow(a):
    return ' + '.join('*'.join([str(c)] * (c != 1 or k == (0, ())) + ['q^%d' % k[0]] * (k[0] > 0) + ['gcd(q-1,%d)%s' % (x, '' if e == 1 else '^%d' % e) for x, e in k[1]])
                      for k, c in sorted(a.items(), key=str, reverse=True)) or '0'


def qvalue(t, Qt, env):
    """A term as a polynomial in q with greatest common divisors; Qt: {term: polynomial}."""
    if t in Qt:
        return Qt[t]
    if isint(t):
        return qc(t[1])
    n = value_of(t, env)
    if n is not None:
        return qc(n)
    if t[0] == 'lin':
        r = qc(t[1])
        for x, c in t[2]:
            r = qadd(r, qvalue(x, Qt, env), c)
        return r
    if t[0] == 'prod':
        r = qc(1)
        for x in t[1] if isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else t[1:]:
            r = qmul(r, qvalue(x, Qt, env))
        return r
    if t[0] == 'app' and t[1] == 'n_gcd' and len(t) == 4:
        a, b = qvalue(t[2], Qt, env), qvalue(t[3], Qt, env)
        for x, y in ((a, b), (b, a)):
            if x == Q1 and (not y or list(y) == [(0, ())]):
                return qgcd(int(y.get((0, ()), 0)))
        raise Broken('a greatest common divisor is not understood: %s' % show(t))
    if t[0] == 'app' and t[1] == '/' and len(t) == 4:
        from fractions import Fraction
        a, b = qvalue(t[2], Qt, env), qvalue(t[3], Qt, env)
        if len(b) != 1:
            raise Broken('a division is not understood: %s' % show(t)[:300])
        (k, c), = b.items()
        if k[0]:
            raise Broken('a division is not understood: %s' % show(t)[:300])
        if k == (0, ()):
            if any(g for _, g in a):
                raise Broken('a division is not understood: %s' % show(t)[:300])
            for q in range(3, 3 + 2 * int(c), 2):                # q is odd
                if sum(d * q ** i for (i, _), d in a.items()) % c:
                    raise Inexact('%s is not a multiple of %d' % (qshow(a), c))
        elif sum(d for (i, g), d in a.items()) != 0:             # (q - 1) divides it?
            raise Inexact('%s need not be a multiple of %s' % (qshow(a), qshow(b)))
        return qmul(a, {(0, tuple((x, -e) for x, e in k[1])): Fraction(1) / c})
    raise Broken('a weight is not understood: %s' % show(t)[:300])


def weights(ctx):
    """weight(support, p): the polynomial that the function gives for this support in characteristic p."""
    fs = [f for f in ctx.p.functions.values() if f['q'] == MULT and f.get('body')]
    ctx.need(len(fs) == 1, 'no function gives the weight of a polynomial')
    f = fs[0]
    vec = [q for q in f['params'] if tname(q['t']).replace('const ', '').startswith('std::vector')]
    ctx.need(len(vec) == 1 and len(f['params']) == 4, 'the weight depends on something else than the field and the support')
    un = [q for q in f['params'] if tname(q['t']).replace('const ', '') == 'unsigned int']
    out = [q for q in f['params'] if q not in vec and q not in un]
    ctx.need(len(un) == 2 and len(out) == 1, 'the parameters of the weight')
    by = {('power' if 'power' in q['n'] else 'prime'): q for q in un}
    ctx.need(len(by) == 2, 'the parameters of the weight')
    sym = lambda q: ('sym', 'arg:' + q['n'])
    V, Pm, Qm = sym(vec[0]), sym(by['prime']), sym(by['power'])
    ps, it = ctx.run(f, tag='weight', keep=400)
    rows = []
    for p in ps:
        if p.kind in ('dead', 'exc'):
            continue
        rows.append((p, it.load(p.st, (('d', sym(out[0])), ()))))
    memo = {}

    def weight(support, prime):
        k = (support, prime)
        if k in memo:
            return memo[k]
        env = {size(V): len(support), Pm: prime}
        for i, x in enumerate(support):
            env['fld', V, ('x', C(i))] = x

        def conc(t):
            if not isinstance(t, tuple) or not t:
                return t
            if t[0] == 'fld' and t[1] == V and isinstance(t[2], tuple) and t[2][0] == 'x':
                i = value_of(t[2][1], env)
                return C(support[i]) if i is not None and 0 <= i < len(support) else ('sym', '#outside')
            if t in env:
                return C(env[t])
            u = tuple(conc(x) for x in t)
            if u[0] == 'app' and u[1] in ('%', '/') and len(u) == 4 and isint(u[2]) and isint(u[3]) and u[2][1] >= 0 and u[3][1] > 0:
                return C(u[2][1] % u[3][1] if u[1] == '%' else u[2][1] // u[3][1])
            return renorm(u) if u != t else t
        got = []
        for p, v in rows:
            ok = True
            for a, w in p.facts.items():
                b = conc_atom(a, conc)
                if b is None:
                    if contains(a, {V, Pm}) and not contains(conc(a) if False else a, {Qm}) and a[0] in ('le', 'eqk'):
                        continue
                    continue
                if b != w:
                    ok = False
                    break
            if ok:
                v = conc(v)
                if contains(v, {('sym', '#outside')}):
                    raise Inexact('the weight for the support %s in characteristic %d depends on a place that does not exist' % (support, prime))
                r = qvalue(v, {Qm: {(1, ()): 1}}, env)
                if r not in got:
                    got.append(r)
        if len(got) != 1:
            raise Broken('%d weights for the support %s in characteristic %d' % (len(got), support, prime))
        memo[k] = got[0]
        return got[0]
    return f, weight


def conc_atom(a, conc):
    """Truth of a linear atom whose terms become numbers; None if they do not."""
    if a[0] not in ('le', 'eqk'):
        return None
    t = 0
    for x, c in a[1]:
        y = conc(x)
        if not isint(y):
            return None
        t += c * y[1]
    return t <= a[2] if a[0] == 'le' else t == a[2]


def amount(fam, v, st, env, Qt, depth=0):
    """How many entries of a list are the code of zero, and how many are others."""
    zero, unit = {}, {}

    def code(x):
        p = qvalue(x, Qt, env) if not (x[0] == 'app' and x[1] == '%') else None
        return p == Q1
    if depth > 6:
        raise Broken('lists within lists')
    if v[0] == 'S':
        for y in v[1]:
            if y[0] == 'e':
                if element(y[1]) or not code(y[1]):
                    unit = qadd(unit, qc(1))
                else:
                    zero = qadd(zero, qc(1))
            elif y[0] == 'b':
                z, u = amount(fam, y[1], st, env, Qt, depth + 1)
                zero, unit = qadd(zero, z), qadd(unit, u)
            else:
                raise Broken('a list is filled in a way that is not understood: %s' % show(v)[:200])
    elif v[0] == 'app' and v[1] == REPS:
        n = value_of(v[3], env)
        if n is None:
            raise Broken('the number of representatives is not understood: %s' % show(v))
        unit = qgcd(n)
    elif v[0] == 'ptr':
        return amount(fam, fam.it.load(st, v[1]), st, env, Qt, depth + 1)
    elif v[0] == 'M' and v[1][0] == 'w' and not v[2]:
        le = fam.loop(v[1][1])
        sw = None
        tr = trips(le)
        if tr is None or not le.a['alts']:
            raise Broken('a list is filled in a way that is not understood: %s' % show(v)[:200])
        # a set of products of one element with different ones
        src = None
        for a in le.a['alts']:
            ks = [k for k, ok, _ in fam.it.load(a.st, v[1][2])[2]]
            ks += [e.a['args'][0] for e in a.events if e.kind == 'cop' and e.a['loc'] == v[1][2] and e.a['op'] == 'insert_present']
            for k in ks:
                els = {x for x in subterms(k) if x and x[0] == 'fld' and isinstance(x[2], tuple) and x[2] == ('x', tr[1])}
                if len(els) != 1:
                    raise Broken('a list is filled in a way that is not understood: %s' % show(k)[:200])
                src = els.pop()
                arg = k[2] if k[0] == 'app' and k[1] == '%' else k
                if lin(arg)[1].get(src) not in (1, -1):
                    raise Broken('a list is filled in a way that is not understood: %s' % show(k)[:200])
        base = fam.it.load(fam.it and le.a['loop'].entry, v[1][2])
        if base[0] != 'M' or base[2] or base[1] not in (C('{}'), ('c', '{}')):
            raise Broken('a list is filled in a way that is not understood: %s' % show(v)[:200])
        z, u = amount(fam, src[1], st, env, Qt, depth + 1)
        n = qvalue(subst(tr[0], {size(src[1]): ('sym', '#n')}), dict(Qt, **{}) | {('sym', '#n'): qadd(z, u)}, env)
        if z or n != u:
            raise Broken('a list is filled in a way that is not understood: %s' % show(v)[:200])
        unit = u
    elif v[0] == 'M' and v[1] in (C('{}'), ('c', '{}')):
        for k, ok, _ in v[2]:
            if code(k):
                zero = qadd(zero, qc(1))
            else:
                unit = qadd(unit, qc(1))
    else:
        raise Broken('a list is filled in a way that is not understood: %s' % show(v)[:200])
    return zero, unit


def element(x):
    return x[0] == 'app' and x[1] == '%' or x[0] == 'fld' and x[1][0] == 'app' and x[1][1] == REPS


def fieldq(t):
    """Terms that stand for the size of the field."""
    r = {}
    for x in subterms(t):
        if x and x[0] == 'fld' and x[2] == 'prime_power_pred':
            r[x] = Q1
        if x and x[0] == 'fld' and x[2] == 'prime_power':
            r[x] = {(1, ()): 1}
    return r


PRIMES = (3, 5, 7, 11)
GENERA = (1, 2, 3)


def instances(ctx, fam, cont, length):
    """Values of characteristic, genus, mark and counters of the loops for which the family is made."""
    ivs = {('iv', le.a['loop'].marker, k) for le in fam.around for k in le.a['loop'].step}
    base = {}

    def scan(t):
        for x in subterms(t):
            if x and x[0] == 'fld' and x[2] == 'prime':
                base[x] = 'prime'
            if x and x[0] == 'sym' and x[1] == 'arg:genus':
                base[x] = 'genus'
            if x and x[0] == 'sym' and x[1] == 'arg:with_marked_point':
                base[x] = 'mark'
    atoms, lins = [], []
    for a, v in fam.facts.items():
        if a[0] in ('le', 'eqk'):
            for x, _ in a[1]:
                scan(x)
            atoms.append((a, v))
    for le in fam.around:
        L = le.a['loop']
        if le.a['exit'] != 'cond':
            raise Broken('a loop of the enumeration may end early')
        for k, step in L.step.items():
            if k in L.start:
                scan(L.start[k])
                lins.append((('iv', L.marker, k), L.start[k], step))
    scan(length)
    marks = [x for x in base if base[x] == 'mark']
    order = [('iv', le.a['loop'].marker, k) for le in fam.around for k in le.a['loop'].step]

    def good(env):
        for a, v in atoms:
            r = [(value_of(x, env), c) for x, c in a[1]]
            if any(x is None for x, _ in r):
                continue
            t = sum(x * c for x, c in r)
            if ((t <= a[2]) if a[0] == 'le' else (t == a[2])) != v:
                return False
        for a, b in fam.cases:
            x, y = value_of(a, env), value_of(b, env)
            if x is not None and y is not None and x > y:
                return False
        for iv, s0, step in lins:
            x, y = value_of(iv, env), value_of(s0, env)
            if x is not None and y is not None and ((x - y) * step < 0 or (x - y) % step):
                return False
        return True
    for p in PRIMES:
        for g in GENERA:
            for m in (0, 1):
                env = {x: {'prime': p, 'genus': g, 'mark': m}[k] for x, k in base.items()}

                def search(i):
                    if not good(env):
                        return
                    if i == len(order):
                        yield (p, g, m), dict(env)
                        return
                    for x in range(-1, 2 * g + 4):
                        env[order[i]] = x
                        yield from search(i + 1)
                        del env[order[i]]
                yield from search(0)


def c35(ctx):
    """The families that the constructor of the enumeration makes, with the number of values that each range and list
    has (a polynomial in the size q of the field and greatest common divisors with q - 1, by kind: zero or not), are
    combined with the weight that is read off from the paths of the function for each support; for every
    characteristic and genus considered, with and without a marked point, the sum over the polynomials of a degree is
    half of the number of all polynomials of that degree as a polynomial in q, and no others are produced.  Every
    family that is made is kept."""
    wf, weight = weights(ctx)
    total, byfam = {}, {}
    seen = {}
    n = 0
    sites = {}
    fs = families(ctx)
    for f, it, e, before, st, facts, around in fs:
        site = sites.setdefault((e.a.get('fnid'), where_of(e)), len(sites) + 1)
        todo = [()]
        while todo:
            cases = todo.pop()
            fam = Family(it, e, before, st, facts, around, cases)
            if fam.lin.absurd() or contradicts(fam, fam.facts, {}):
                continue
            args = arguments(ctx, e)
            try:
                cont = {k: fam.content(args[k], st, facts) if k in args else [] for k in ('blocks', 'sets', 'deps')}
            except Split as x:
                if len(cases) > 6:
                    raise Broken('%s distributes the coefficients in a way that is not understood' % f['q'])
                todo += [cases + ((x.a, x.b),), cases + ((add(x.b, C(1)), x.a),)]
                continue
            ivs = [('iv', le.a['loop'].marker, k) for le in around for k in le.a['loop'].step]
            for key, env in instances(ctx, fam, cont, args['length']):
                num = value_of(args['length'], env)
                if num is None:
                    raise Broken('the length of a family is not understood: %s' % show(args['length']))
                co = {}
                for k in cont:
                    for p in cont[k]:
                        lo, hi = value_of(p.lo, env), value_of(p.hi, env)
                        if lo is None or hi is None:
                            raise Broken('the place of a range is not understood: %r' % p)
                        for x in range(lo, hi):
                            am = {repr(y): y for y in [sizes_of(fam, k, v, s2, F2, env) for v, s2, F2 in p.vals]}
                            if len(am) != 1:
                                raise Broken('a range is one of several')
                            if x in co or not 0 <= x < num:
                                raise Broken('ranges overlap (see C30)')
                            co[x] = next(iter(am.values()))
                if len(co) != num:
                    raise Broken('a coefficient has no range (see C30)')
                inst = (site, key, tuple(env.get(v) for v in ivs))
                sig = repr(sorted(co.items()))
                if inst in seen:
                    if seen[inst] != sig:
                        raise Broken('a family has several forms')
                    continue
                seen[inst] = sig
                n += 1
                deg = num - 1
                try:
                    w = {}
                    stack = [(deg, (), qc(1))]
                    while stack:
                        x, sup, c = stack.pop()
                        if not c:
                            continue
                        if x < 0:
                            if not sup or sup[-1] != deg:
                                raise Broken('a leading coefficient may be zero (see C30)')
                            w = qadd(w, qmul(c, weight(sup, key[0])))
                            continue
                        z, u = co[x]
                        stack.append((x - 1, sup, qmul(c, z)))
                        stack.append((x - 1, (x,) + sup, qmul(c, u)))
                except Inexact as x:
                    ctx.ob(False, 'exact', MULT, wf, 'weights are whole numbers', str(x))
                    return
                total[key, deg] = qadd(total.get((key, deg), {}), w)
    ctx.need(n, 'no family is understood')
    ctx.ob(True, 'exact', MULT, wf, 'weights are whole numbers')
    for p in PRIMES:
        for g in GENERA:
            for m in (0, 1):
                degs = {2 * g + 1} | ({2 * g + 2} if not m else set())
                for d in sorted(degs | {x for k, x in total if k == (p, g, m)}):
                    half = {(d + 1, ()): 1, (d, ()): -1} if d in degs else {}
                    got = {k: 2 * c for k, c in total.get(((p, g, m), d), {}).items()}
                    ok = got == half
                    ctx.ob(ok, 'mass', '%s/p=%d/g=%d/%s/degree %d' % (ENUM, p, g, 'marked' if m else 'all', d), fs[0][0],
                           'the weights of the polynomials of a degree add up to half of the number of all of them',
                           '' if ok else 'twice the sum is %s instead of %s' % (qshow(got), qshow(half)))
    kept(ctx, fs)
    support(ctx)
    ctx.extra = '%d instances of families' % n


def sizes_of(fam, kind, v, st, F, env):
    if kind == 'blocks':
        Qt = fieldq(v)
        lo, hi = [qvalue(get(F, v, i), Qt, env) for i in (0, 1)]
        d = qadd(hi, lo, -1)
        z = qc(1) if hi == qadd(Q1, qc(1)) else {}
        if hi not in (Q1, qadd(Q1, qc(1))):
            raise Broken('a range is not understood: %s' % show(v)[:200])
        return z, qadd(d, z, -1)
    if kind == 'sets':
        Qt = {}
        for y in deep(fam, v, st):
            Qt.update(fieldq(y))
        return amount(fam, v, st, env, Qt)
    m = get(F, v, 1)
    if m[0] != 'M' or m[1][0] != 'w' or m[2]:
        raise Broken('dependent lists are made in a way that is not understood')
    le = fam.loop(m[1][1])
    res = {}
    for a in le.a['alts']:
        x = fam.it.load(a.st, m[1][2])
        vs = [y for k, ok, y in x[2]] if x[0] == 'M' and x[1] == m[1] else None
        if not vs:
            raise Broken('dependent lists are made in a way that is not understood')
        f2 = Family(fam.it, fam.ev, fam.before + a.events, a.st, a.facts, fam.around + [le], fam.cases)
        for y in vs:
            Qt = {}
            for z in deep(f2, y, a.st):
                Qt.update(fieldq(z))
            r = amount(f2, y, a.st, env, Qt)
            res[repr(r)] = r
    if len(res) != 1:
        raise Broken('dependent lists have different sizes')
    return next(iter(res.values()))


def deep(fam, v, st, depth=0):
    yield v
    if depth < 4:
        for x in subterms(v):
            if x and x[0] == 'ptr':
                yield from deep(fam, fam.it.load(st, x[1]), st, depth + 1)


def kept(ctx, fs):
    """Every family that is made is appended to the list that is gone through, and the list is not changed else."""
    for f, it in {id(x[0]): (x[0], x[1]) for x in fs}.values():
        ps, _ = ctx.run(f, opaque=enum_opaque, tag='enum')

        def walk(evs):
            made, put = [], []
            for e in evs:
                if e.kind == 'loop':
                    for a in e.a['alts']:
                        walk(a.events)
                elif e.kind == 'ctor' and e.a['rec'] == BLOCKS:
                    made.append(e)
                elif e.kind == 'cop' and e.a['loc'] and e.a['loc'][1] and e.a['loc'][1][-1] == 'enumerators':
                    if e.a['op'] in ('push_back', 'emplace_back'):
                        put.append(e)
                    elif mutates(e):
                        raise Broken('the list of families is changed by %s' % e.a['op'])
            if made or put:
                ok = len(made) == len(put)
                ctx.ob(ok, 'kept', f['q'] + '/line' + where_of((made or put)[0]), (made or put)[0], 'every family that is made is enumerated once',
                       '' if ok else '%d are made and %d are appended to the list' % (len(made), len(put)))
        for p in ps:
            if p.kind == 'ret':
                walk(p.events)


SUPPORT = 'HyCu::Curve::rhs_support'


def support(ctx):
    """The support of a curve that is weighted: the places of the coefficients other than zero, in ascending order."""
    fs = [f for f in ctx.p.functions.values() if f['q'] in (SUPPORT, SUPPORT[6:]) and f.get('body')]
    ctx.need(len(fs) == 1, 'no function gives the support of a curve')
    f = fs[0]
    ps, it = ctx.run(f, tag='support')
    PP = None
    for p in ps:
        if p.kind != 'ret':
            continue
        les = [e for e in p.events if e.kind == 'loop']
        v = it.load(p.st, p.val[1]) if p.val[0] == 'ptr' else p.val
        if v == ('S', ()) and not les:
            ctx.ob(False, 'support', f['q'], f, 'the support holds the place of every coefficient that is not zero', 'it is empty')
            continue
        ctx.need(len(les) == 1 and v[0] == 'S', 'the support is found in a way that is not understood: %s' % show(v)[:200])
        le, L = les[0], les[0].a['loop']
        keys = [k for k in L.kind if L.kind[k] == 'hole']
        ctx.need(len(keys) == 1 and L.start.get(keys[0]) == ('S', ()) and len(v[1]) == 1 and v[1][0][0] == 'star' and le.a['exit'] == 'cond',
                 'the support is found in a way that is not understood: %s' % show(v)[:200])
        tr = trips(le)
        ctx.need(tr is not None, 'the coefficients are gone through in a way that is not understood')
        n, iv, s0, step = tr
        sizes = {x for x in subterms(n) if x[0] == 'size'}
        ctx.need(len(sizes) == 1 and not (set(lin(n)[1]) - sizes) and not (lin(n)[1].get(next(iter(sizes))) != 1), 'the number of coefficients that are gone through: %s' % show(n))
        vec = next(iter(sizes))[1]
        ok = n == size(vec) and s0 == (C(0) if step == 1 else sub(size(vec), C(1)))
        ctx.ob(ok, 'support', f['q'] + '/range', f, 'every coefficient is gone through',
               '' if ok else '%s of them from %s on are' % (show(n), show(s0)))
        # counters that move together are one
        same = {('iv', L.marker, k): add(iv, sub(L.start[k], s0)) for k in L.step if k in L.start and L.step[k] == step and isint(sub(L.start[k], s0))}
        for a in le.a['alts']:
            app = tuple((x[0], subst(x[1], same)) for x in a.appended.get(keys[0], ()))
            facts = {}
            for at, w in a.facts.items():
                if at[0] in ('le', 'eqk'):
                    at = renorm_atom((at[0], tuple((subst(x, same), c) for x, c in at[1]), at[2]))
                    if at[0] == 'not':
                        at, w = at[1], not w
                    if at[0] == 'const':
                        continue
                facts[at] = w
            this = [(at, w) for at, w in facts.items() if at[0] == 'eqk' and ('fld', vec, ('x', iv)) in dict(at[1])]
            el = [(at, w) for at, w in this if len(at[1]) == 2 and at[2] == 0 and any(x[0] == 'fld' and x[2] == 'prime_power_pred' for x, _ in at[1])]
            if len(this) == 1 and not el:
                ctx.ob(False, 'support', f['q'] + '/zero', f, 'coefficients that are zero are not in the support', 'what is tested is %s' % show_atom(this[0][0]))
                continue
            ctx.need(len(el) == 1, 'coefficients that are zero are told from others in a way that is not understood')
            other = [at for at, w in facts.items() if at != el[0][0] and not (at[0] in ('le', 'eqk') and iv in dict(at[1]) and all(x in (iv, size(vec)) for x, _ in at[1]))]
            ctx.need(not other, 'whether a place is in the support depends on something else: %s' % [show_atom(x) for x in other][:2])
            zero = el[0][1]
            if zero:
                ctx.ob(not app, 'support', f['q'] + '/zero', f, 'coefficients that are zero are not in the support', '' if not app else 'their places are appended')
            else:
                good = app == (('e', iv),)
                ctx.need(good or all(x[0] == 'e' for x in app), 'what is appended to the support is not understood')
                ctx.ob(good and step == 1, 'support', f['q'] + '/other', f, 'the places of other coefficients are in the support in ascending order',
                       '' if good and step == 1 else 'what is appended: %s' % ', '.join(show(x[1]) for x in app) if not good else 'they are in descending order')
            # places at the ends that are left out
            for at, w in facts.items():
                if at[0] == 'le' and iv in dict(at[1]):
                    d = dict(at[1])
                    if d == {iv: 1} and not w and at[2] >= 0 or d == {iv: 1, size(vec): -1} and w and at[2] < -1:
                        ctx.ob(False, 'support', f['q'] + '/range', f, 'every coefficient is gone through', 'only those with %s%s' % ('' if w else 'not ', show_atom(at)))


RULES = {'C30': c30, 'C35': c35}
