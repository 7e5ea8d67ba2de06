"""C36: a family of polynomials is gone through completely and without repetition."""
from lib import *
from r_curve import trips, mklin_, one_counter
from interp import renorm_atom

B = 'BlockIterator'
ITER = 'CurveIterator'
THIS = ('sym', 'this')
KINDS = ('dependent', 'set', 'block')


LOOPS = ('for', 'while', 'do', 'rangefor', 'forrange', 'ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')


class Fields:
    """The members of the iterator by their role."""

    def __init__(s, ctx):
        def one(pred, what):
            fs = [f['n'] for f in ctx.field(B, pred, what)]
            ctx.need(len(fs) == 1, 'several members of %s are %s' % (B, what))
            return fs[0]
        u, z = 'unsigned int', 'unsigned long'
        s.map = {
            'block': one(lambda t: t['s'].startswith('std::map<%s, std::tuple<%s, %s, %s>' % (z, u, u, u)), 'the ranges'),
            'set': one(lambda t: t['s'].startswith('std::map<%s, std::vector<%s>' % (z, u)), 'the sets'),
            'dependent': one(lambda t: t['s'].startswith('std::map<%s, std::tuple<%s, std::map<%s, std::vector<%s>' % (z, z, u, u)), 'the dependent sets')}
        s.pos = one(lambda t: t['s'] == 'std::vector<%s>' % u, 'the position')
        s.end = one(lambda t: t['s'] == 'bool', 'the end')
        s.len = one(lambda t: t['s'] == z, 'the length')
        s.orders = [f['n'] for f in ctx.field(B, lambda t: t['s'] == 'std::vector<%s>' % z)]
        s.order = {}

    def f(s, n):
        return ('fld', THIS, n)


def norm(t):
    """Reads of a sequence after changes of other entries are reads of the sequence; maps without changes are what they were."""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(norm(x) for x in t)
    while True:
        if t[0] == 'fld' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'O' and t[1][1] is not None:
            hit = [v for k, v in t[1][2] if k == t[2]]
            t = hit[-1] if hit else ('fld', t[1][1], t[2])
        elif t[0] == 'fld' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'upd' and t[1][1] == B + '::as_position':
            t = ('fld', t[1][2], t[2])                                   # it changes nothing, see position
        elif t[0] == 'M' and len(t) == 3 and t[2] == () and t[1] and t[1][0] in ('fld', 'sym'):
            t = t[1]
        else:
            break
    return renorm(t) if t and isinstance(t[0], str) and t[0] in ('lin', 'prod', 'app') else t


def natom(a, w):
    """A linear atom with normalised terms, as ('le'|'eqk', term, k, value); None for other atoms."""
    if a[0] not in ('le', 'eqk'):
        return None
    t = C(0)
    for x, c in a[1]:
        t = add(t, scale(norm(x), c))
    return a[0], t, a[2], w


def sign(facts, e):
    """What the facts on e say: (lo, hi) for integers, None where there is no bound; 'odd' if it is compared with something that is not zero."""
    lo = hi = None
    seen = False
    ne = set()
    for a, w in facts.items():
        n = natom(a, w)
        if n is None:
            continue
        k, t, c, w = n
        for s, d in ((1, sub(t, e)), (-1, add(t, e))):
            if not isint(d) or not lin(e)[1]:
                continue
            seen = True
            c0 = c - d[1]                      # s*e <= c0, == c0
            if k == 'le':
                if (s == 1) == w:              # e <= c0  or  -e > c0 (e < -c0)
                    b = c0 if s == 1 else -c0 - 1
                    hi = b if hi is None else min(hi, b)
                else:                          # e > c0  or  -e <= c0
                    b = c0 + 1 if s == 1 else -c0
                    lo = b if lo is None else max(lo, b)
            elif w:
                lo = hi = c0 * s
            else:
                ne.add(c0 * s)
    return seen, lo, hi, ne


def empty_fact(facts, sizes):
    """Is one of the containers known to be empty (True), nonempty (False), or is nothing known (None)?"""
    for z in sizes:
        seen, lo, hi, ne = sign(facts, z)
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo >= 1 or 0 in ne:
            return False
    return None


def whole(le, n):
    """Does the loop run over 0, .., n - 1?  The counter if it does."""
    tr = trips(le)
    if tr is None or le.a['exit'] != 'cond':
        return None
    m, iv, s0, step = tr
    if norm(m) == norm(n) and s0 == (C(0) if step == 1 else sub(n, C(1))):
        return iv
    return False


def whole_map(F, le, kind):
    """(map, counter) if the loop runs over all entries of the map; reads with the operator of maps do not add entries."""
    L = le.a['loop']
    for m in msizes(F, le, kind):
        iv = whole(le, size(m))
        if iv:
            return m, iv
        for k, st in L.step.items():
            iv = ('iv', L.marker, k)
            if st != 1 or L.start.get(k) != C(0) or le.a['exit'] != 'cond':
                continue
            for a, w in le.a['xfacts'].items():
                if a[0] == 'eqk' and w and a[2] == 0 and sub(mklin_(0, dict(a[1])), C(0)) in (sub(iv, size(m)), sub(size(m), iv)):
                    if all(x.facts.get(a) is False for x in le.a['alts']):
                        return m, iv
    return None


def live(facts, maps):
    """Without those paths on which a map lacks a key that it has."""
    return not any(a[0] == 'has' and not w and maps(a[1]) for a, w in facts.items())


def on_map(F, which=KINDS):
    def f(t):
        t = norm(t)
        while True:
            if any(t == F.f(F.map[k]) for k in which):
                return True
            if t[0] == 'w' and isinstance(t[2], tuple) and t[2][0] == ('o', 'this') and t[2][1] and t[2][1][0] in [F.map[k] for k in which]:
                return True
            if t[0] == 'M':
                t = t[1]
            elif t[0] == 'fld' and isinstance(t[1], tuple):
                t = t[1]
            else:
                return False
    return f


def is_map(F, t, kind):
    """Is the term the map of this kind (perhaps as it is in a loop that reads it with the operator of maps)?"""
    t = norm(t)
    if t[0] == 'M' and t[2] == ():
        t = t[1]
    return t == F.f(F.map[kind]) or t[0] == 'w' and t[2] == (('o', 'this'), (F.map[kind],))


def writes(evs, F):
    """Writes to members of the iterator: [(path, value)]; paths as in locations."""
    out = []
    for e in evs:
        if e.kind == 'w' and e.a['loc'] and e.a['loc'][0] == ('o', 'this') and e.a['loc'][1]:
            out.append((e.a['loc'][1], norm(e.a['val'])))
        elif e.kind == 'cop' and e.a['loc'] and e.a['loc'][0] == ('o', 'this') and mutates(e) and e.a['op'] not in ('at', 'operator[]', '[]'):
            out.append((e.a['loc'][1], None))
    return out


# ------------------------------------------------------------------ the rule
def c36(ctx):
    """The digits of the position (entries that run through a range, a set, or a set that depends on another entry) are
    stepped like those of a counter: on every path through the stepping functions one digit moves by its step; it starts
    again, and the next digit of a fixed order is stepped, exactly if it has reached its limit; the end is reached
    exactly if the last digit starts again.  The constructors make every entry one digit with its first value, and what
    is handed out is the value that the position stands for, or the range of a step."""
    F = Fields(ctx)
    ms = ctx.methods(B)
    name = lambda f: f['q'].split('::')[-1]
    ctors = [f for f in ms if name(f) == B and f['params'] and not (len(f['params']) == 1 and tname(f['params'][0]['t']).replace('const ', '') == B)]
    big = [f for f in ctors if len([q for q in f['params'] if 'std::map' in tname(q['t'])]) == 3 and any('unsigned int' == tname(q['t']).replace('const ', '') for q in f['params'])]
    small = [f for f in ctors if len(f['params']) == 1]
    ctx.need(len(big) == 1 and len(small) == 1, 'the constructors of %s' % B)
    big, small = big[0], small[0]
    uses = {}
    for f in ms:
        u = set()
        mem_names(f.get('body'), u)
        uses[f['fn']] = u
    # roles of the other functions
    cg = ctx.callgraph()
    helpers = [f for f in ms if f is not big and f is not small and name(f) != B and not name(f).startswith('~')]
    public = {'step', 'is_end', 'as_position', 'as_block', 'length', 'as_block_enumerator'}
    init_b = [f for f in helpers if f['fn'] in cg.get(big['fn'], ()) and F.map['block'] in uses[f['fn']] and f['params']]
    init_p = [f for f in helpers if f['fn'] in cg.get(big['fn'], ()) and F.pos in uses[f['fn']] and not f['params']]
    ctx.need(len(init_b) == 1 and len(init_p) == 1, 'how the position is set up')
    init_b, init_p = init_b[0], init_p[0]
    step = ctx.fn(B + '::step')
    digit = [f for f in helpers if f not in (init_b, init_p) and name(f) not in public and set(F.orders) & uses[f['fn']] and F.pos in uses[f['fn']]]
    loops_ = not digit or F.pos in uses[step['fn']] or any(has_loop(f.get('body')) for f in digit)
    dn = {f['fn']: f for f in digit}
    opq = lambda f: f['fn'] in dn or f['fn'] in (init_b['fn'], init_p['fn'])

    for part in (lambda: constructors(ctx, F, big, small, init_b, init_p, opq), lambda: ranges(ctx, F, init_b), lambda: start(ctx, F, init_p),
                 lambda: stepping_loops(ctx, F, step) if loops_ else stepping(ctx, F, step, digit, dn, opq), lambda: position(ctx, F), lambda: block(ctx, F), lambda: block_enumerator(ctx, F, big), lambda: accessors(ctx, F, big, opq), lambda: families_step(ctx)):
        try:
            part()
        except (Broken, KeyError):
            if not ctx.bad():
                raise


def mem_names(node, out):
    if isinstance(node, dict):
        m = node.get('m') or node.get('member') or node.get('decl')
        if isinstance(m, dict) and m.get('n'):
            out.add(m['n'])
        if isinstance(m, str):
            out.add(m)
        if isinstance(node.get('n'), str):
            out.add(node['n'])
        if isinstance(node.get('name'), str):
            out.add(node['name'])
        for v in node.values():
            if isinstance(v, (dict, list)):
                mem_names(v, out)
    elif isinstance(node, list):
        for v in node:
            mem_names(v, out)


def has_loop(node):
    if isinstance(node, dict):
        if node.get('k') in LOOPS or node.get('kind') in LOOPS:
            return True
        return any(has_loop(v) for v in node.values() if isinstance(v, (dict, list)))
    return isinstance(node, list) and any(has_loop(v) for v in node)


def constructors(ctx, F, big, small, init_b, init_p, opq):
    ps, it = ctx.run(big, opaque=opq, tag='block')
    par = {}
    for q in big['params']:
        t = tname(q['t']).replace('const ', '')
        for k, pre in (('dependent', 'std::map<unsigned long, std::tuple<unsigned long'), ('block', 'std::map<unsigned long, std::tuple<unsigned int'), ('set', 'std::map<unsigned long, std::vector'), ('length', 'unsigned long'), ('package', 'unsigned int')):
            if t.startswith(pre):
                par.setdefault(k, ('sym', 'arg:' + q['n']))
                break
    ctx.need(len(par) == 5, 'the parameters of the constructor of %s' % B)
    n = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        n += 1
        calls_ = [e for e in p.events if e.kind == 'call' and e.a['fnid'] in (init_b['fn'], init_p['fn'])]
        ib = [e for e in calls_ if e.a['fnid'] == init_b['fn']]
        ip = [e for e in calls_ if e.a['fnid'] == init_p['fn']]
        ok = len(ib) == 1 and len(ip) == 1 and {norm(x) for x in ib[0].a['args']} == {par['block'], par['package']}
        ctx.ob(ok, 'setup', big['q'] + '/ranges', big, 'the ranges are set up once, with the package size',
               '' if ok else 'they are set up %d times, the position %d times' % (len(ib), len(ip)) if len(ib) != 1 or len(ip) != 1 else 'from %s' % ', '.join(show(x) for x in ib[0].a['args']))
        if not ok:
            continue
        last = max(i for i, e in enumerate(p.events) if e is ip[0])
        late = [e for i, e in enumerate(p.events) if i > last and (e.kind == 'loop' or e is ib[0])]
        ctx.ob(not late, 'setup', big['q'] + '/last', big, 'the position is set up after everything else', '' if not late else 'something else is set up later')
        pre = it
        got = {}
        for kind in ('set', 'dependent'):
            k = (('o', 'this'), (F.map[kind],))
            v = [e for e in p.events if e.kind in ('w', 'moved') and e.a.get('loc') == k]
            vals = [norm(e.a['val']) for e in v if e.kind == 'w']
            inits = vals[-1] if vals else None
            if inits is None:
                inits = stored(it, p, k, init_p)
            ctx.need(inits is not None, 'what the %ss are is not understood' % kind)
            ctx.ob(inits == par[kind], 'setup', big['q'] + '/' + kind, big, 'the %ss are those that are given' % kind, '' if inits == par[kind] else show(inits)[:200])
        for le in loops(p.events):
            for o in F.orders:
                k = (('o', 'this'), (o,))
                hits = []
                for a in le.a['alts']:
                    hits.append(appended(it, a, le, k))
                if not any(hits):
                    continue
                src = {x[1] for h in hits for x in h if x[0] == 'key'}
                wrong = [x for h in hits for x in h if x[0] == 'fld' and isinstance(x[2], int) and norm(x[1])[0] == 'fld' and norm(x[1])[1] in par.values()]
                if wrong:
                    ctx.ob(False, 'digits', '%s/%s' % (big['q'], o), big, 'digits are the entries that the sets are for', 'it is %s' % show(wrong[0])[:150])
                    continue
                ctx.need(len(src) == 1 and all(x[0] == 'key' for h in hits for x in h), 'what is put into the order of digits: %s' % [show(x)[:100] for h in hits for x in h][:2])
                src = next(iter(src))
                kind = next((k2 for k2 in ('set', 'dependent') if norm(src) in (par[k2], F.f(F.map[k2]))), None)
                ctx.need(kind, 'what is put into the order of digits is of %s' % show(src))
                iv = whole(le, size(src))
                ctx.need(iv is not None, 'the %ss are gone through in a way that is not understood' % kind)
                once = iv and all(h == (('key', src, iv),) for h in hits)
                ctx.ob(bool(once), 'digits', '%s/%s' % (big['q'], kind), big, 'every %s is one digit' % kind,
                       '' if once else 'not all are gone through' if not iv else 'some are put %s into the order' % ('not or more than once'))
                got.setdefault(kind, o)
        for kind in ('set', 'dependent'):
            ctx.ob(kind in got, 'digits', '%s/%s' % (big['q'], kind), big, 'every %s is one digit' % kind, '' if kind in got else 'they are not put into the order')
        for k in got:
            ctx.need(F.order.get(k, got[k]) == got[k], 'the order of digits')
            F.order[k] = got[k]
        ln = [norm(e.a['val']) for e in p.events if e.kind == 'w' and e.a['loc'] == (('o', 'this'), (F.len,))]
        l = ln[-1] if ln else stored(it, p, (('o', 'this'), (F.len,)), init_p)
        ctx.need(l is not None, 'the length of the position is not understood')
        ctx.ob(l == par['length'], 'setup', big['q'] + '/length', big, 'the position has the length that is given', '' if l == par['length'] else show(l)[:100])
    ctx.need(n, 'the constructor of %s' % B)
    rest = [o for o in F.orders if o not in F.order.values()]
    ctx.need(len(rest) == 1 and len(set(F.order.values())) == 2 or not ctx.bad() is False, 'the orders of digits')
    if len(rest) == 1:
        F.order['block'] = rest[0]
    # from the bounds of a block
    ps, it = ctx.run(small, opaque=opq, tag='block')
    arg = ('sym', 'arg:' + small['params'][0]['n'])
    for p in ps:
        if p.kind != 'ret':
            continue
        ib = [e for e in p.events if e.kind == 'call' and e.a['fnid'] == init_b['fn']]
        ip = [e for e in p.events if e.kind == 'call' and e.a['fnid'] == init_p['fn']]
        ctx.need(len(ib) == 1 and len(ip) == 1, 'a block is set up in a way that is not understood')
        i1, i2 = p.events.index(ib[0]), p.events.index(ip[0])
        ctx.ob(i1 < i2, 'setup', small['q'] + '/block/last', small, 'the position is set up after everything else', '' if i1 < i2 else 'the ranges are set up later')
        a = list(ib[0].a['args'])
        pk = [x for x in a if isint(x)]
        mp = [x for x in a if x[0] == 'M']
        ctx.need(len(a) in (1, 2) and len(mp) == 1, 'a block is set up in a way that is not understood')
        if len(a) == 2:
            one = pk == [C(1)]
            ctx.ob(one, 'setup', small['q'] + '/block/package', small, 'the polynomials of a block are gone through one by one', '' if one else show(a[1]))
        m = mp[0]
        ctx.need(m[1][0] == 'w' and not m[2], 'the ranges of a block are found in a way that is not understood')
        le = [x for x in loops(p.events) if x.a['loop'].marker == m[1][1]]
        ctx.need(len(le) == 1, 'the ranges of a block are found in a way that is not understood')
        le = le[0]
        iv = whole(le, size(arg))
        ctx.need(iv is not None, 'the ranges of a block are gone through in a way that is not understood')
        ok = bool(iv)
        why = '' if ok else 'not all are used'
        for al in le.a['alts']:
            v = it.load(al.st, m[1][2])
            if any(e.kind == 'cop' and e.a['op'] == 'insert_present' and one_counter(le, iv, e.a['args'][0]) == iv for e in al.events):
                continue                    # every place is met once, none is there already
            ctx.need(v[0] == 'M' and v[1] == m[1], 'the ranges of a block are found in a way that is not understood')
            if ok:
                good = [(one_counter(le, iv, k), one_counter(le, iv, norm(x))) for k, pres, x in v[2]] in ([(iv, ('fld', arg, ('x', iv)))], [(iv, pair_of(('fld', arg, ('x', iv))))])
                if not good:
                    ok, why = False, 'the range of an entry: %s' % ', '.join('%s at %s' % (show(norm(x))[:80], show(k)) for k, _, x in v[2])
        ctx.ob(ok, 'digits', small['q'] + '/block', small, 'every range of a block is one digit', why)
        ln = [norm(e.a['val']) for e in p.events if e.kind == 'w' and e.a['loc'] == (('o', 'this'), (F.len,))]
        l = ln[-1] if ln else stored(it, p, (('o', 'this'), (F.len,)), init_p)
        ctx.need(l is not None, 'the length of the position is not understood')
        ctx.ob(l == size(arg), 'setup', small['q'] + '/block/length', small, 'the position has the length of the block', '' if l == size(arg) else show(l)[:100])


def pair_of(t):
    return ('O', None, ((0, ('fld', t, 0)), (1, ('fld', t, 1))))


def stored(it, p, loc, callee):
    """A member at the end of a constructor, as it was before functions that are not looked into."""
    v = it.load(p.st, loc)
    d = 0
    while v[0] == 'fld' and isinstance(v[1], tuple) and v[1][0] == 'app' and v[1][1] in ('upd',) and d < 8 or v[0] == 'fld' and isinstance(v[1], tuple) and v[1][0] == 'upd' and d < 8:
        inner = [x for x in v[1][1:] if isinstance(x, tuple) and x and x[0] in ('O', 'fld', 'app', 'upd')]
        if not inner:
            return None
        v = get({}, inner[0], v[2])
        d += 1
    return norm(v)


def appended(it, a, le, k):
    """What an iteration appends to a list."""
    if k in a.appended:
        return tuple(x[1] for x in a.appended[k])
    v = it.load(a.st, k)
    w = ('w', le.a['loop'].marker, k)
    if v == w or v == ('S', (('b', w),)):
        return ()
    if v[0] == 'S' and v[1] and v[1][0] == ('b', w) and all(x[0] == 'e' for x in v[1][1:]):
        return tuple(x[1] for x in v[1][1:])
    if contains(v, {w}):
        raise Broken('a list is changed in a way that is not understood: %s' % show(v)[:200])
    return ()


# ------------------------------------------------------------------ ranges
def ranges(ctx, F, f):
    ps, it = ctx.run(f, tag='block')
    M = [q for q in f['params'] if 'std::map' in tname(q['t'])]
    K = [q for q in f['params'] if tname(q['t']).replace('const ', '') == 'unsigned int']
    ctx.need(len(M) == 1 and len(K) == 1, 'how ranges are set up')
    M, K = ('sym', 'arg:' + M[0]['n']), ('sym', 'arg:' + K[0]['n'])
    okey = (('o', 'this'), (F.order['block'],))
    bkey = (('o', 'this'), (F.map['block'],))
    n = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        n += 1
        les = [le for le in loops(p.events) if any(appended(it, a, le, okey) or it.load(a.st, bkey) != ('w', le.a['loop'].marker, bkey) and
                                                   le.a['loop'].kind.get(bkey) for a in le.a['alts'])]
        ctx.need(len(les) == 1, 'ranges are set up in a way that is not understood')
        le = les[0]
        L = le.a['loop']
        # what is gone through
        tr = trips(le)
        ctx.need(tr is not None and le.a['exit'] == 'cond', 'ranges are gone through in a way that is not understood')
        cont = [x[1] for x in subterms(tr[0]) if x and x[0] == 'size']
        ctx.need(len(cont) == 1, 'ranges are gone through in a way that is not understood')
        cont, iv = cont[0], whole(le, size(cont[0]))
        src = None
        if norm(cont) == M:
            key = ('key', cont, iv)
            width = None
        else:
            stars = [x for x in subterms(cont) if x and x[0] == 'star']
            cand = [l for l in loops(p.events) if l is not le and any(l.a['loop'].kind.get(k) == 'hole' for s_ in stars for k in s_[1:] if isinstance(k, tuple) and k)]
            base = cont
            while base[0] == 'app' and base[1] in ('sort', 'reverse', 'stable_sort'):
                base = base[2]
            ctx.need(base[0] == 'S' and len(base[1]) == 1 and base[1][0][0] == 'star' and len(cand) == 1, 'ranges are collected in a way that is not understood')
            l2 = cand[0]
            k2 = [k for k in l2.a['loop'].kind if l2.a['loop'].kind[k] == 'hole']
            ctx.need(len(k2) == 1 and l2.a['loop'].start.get(k2[0]) == ('S', ()), 'ranges are collected in a way that is not understood')
            iv2 = whole(l2, size(M))
            ctx.need(iv2 is not None, 'ranges are collected in a way that is not understood')
            ctx.ob(bool(iv2), 'digits', f['q'] + '/all', f, 'every range is one digit', '' if iv2 else 'not all are gone through')
            if not iv2:
                continue
            key2 = ('key', M, iv2)
            R = ('fld', M, ('k', key2))
            comp = None
            for a in l2.a['alts']:
                app = appended(it, a, l2, k2[0])
                if not app:
                    ctx.ob(False, 'digits', f['q'] + '/all', f, 'every range is one digit', 'some are left out')
                    continue
                ctx.need(len(app) == 1 and app[0][0] == 'O' and app[0][1] is None, 'what is collected of ranges is not understood: %s' % [show(x)[:80] for x in app])
                comp = dict(app[0][2])
            ks = [c for c, v in (comp or {}).items() if norm(v) == key2]
            ws = [c for c, v in (comp or {}).items() if norm(v) == norm(sub(('fld', R, 1), ('fld', R, 0)))]
            ctx.need(len(ks) == 1, 'what is collected of ranges is not understood')
            key = ('fld', ('fld', cont, ('x', iv)), ks[0])
            width = ('fld', ('fld', cont, ('x', iv)), ws[0]) if len(ws) == 1 else None
        ctx.ob(bool(iv), 'digits', f['q'] + '/order', f, 'every range is put into the order of digits', '' if iv else 'not all are gone through')
        if not iv:
            continue
        R = ('fld', M, ('k', key))
        real = sub(('fld', R, 1), ('fld', R, 0))
        if width is None:
            width = real
        pks = [k for k in L.kind if L.start.get(k) == K or k in L.kind and it.load(L.entry, k) == K]
        for a in le.a['alts']:
            app = tuple(norm(x) for x in appended(it, a, le, okey))
            ok = app == (norm(key),)
            ctx.ob(ok, 'digits', f['q'] + '/order', f, 'every range is put into the order of digits', '' if ok else 'what is put there: %s' % ', '.join(show(x)[:80] for x in app))
            v = it.load(a.st, bkey)
            if v == ('M', ('w', L.marker, bkey), ()) and any(e.kind == 'cop' and e.a['op'] == 'insert_present' and e.a['loc'] == bkey and norm(e.a['args'][0]) == norm(key) for e in a.events):
                continue                    # each range is met once, and none is there before
            ctx.need(v[0] == 'M' and v[1] == ('w', L.marker, bkey) and len(v[2]) == 1, 'the ranges are stored in a way that is not understood: %s' % show(v)[:200])
            k, pres, x = v[2][0]
            x = norm(x)
            ctx.need(x[0] == 'O' and x[1] is None and len(x[2]) == 3, 'the ranges are stored in a way that is not understood: %s' % show(x)[:200])
            x = dict(x[2])
            same = norm(k) == norm(key) and x[0] == norm(('fld', R, 0)) and x[1] == norm(('fld', R, 1))
            ctx.ob(same, 'digits', f['q'] + '/range', f, 'each digit has its range', '' if same else '%s to %s at %s' % (show(x[0])[:80], show(x[1])[:80], show(k)[:80]))
            # the step
            stp = x[2]
            if stp == C(1):
                continue
            if not pks and (stp in (K, norm(width), norm(real)) or stp[0] == 'app' and stp[1] in ('min', 'std::min') and K in stp[2:]):
                ctx.ob(False, 'step', f['q'] + '/rest', f, 'the rest of the package is what remains for other digits', 'every digit may use all of it')
                continue
            ctx.need(len(pks) == 1, 'how the package size is used is not understood: %s' % show(stp)[:200])
            W = ('w', L.marker, pks[0])
            nxt = norm(it.load(a.st, pks[0]))
            seen, lo, hi, ne = sign(a.facts, sub(W, norm(width)))        # package - width
            if stp == W:
                ok = hi is not None and hi <= 0
                why = 'a step may be larger than its range'
                ok2 = nxt in (C(1), ('app', '/', W, W))
            elif stp in (norm(width), norm(real)):
                ok = lo is not None and lo >= 0
                why = 'a step may be larger than what is left of the package, and the others none'
                ok2 = nxt == ('app', '/', W, stp)
            elif stp[0] == 'app' and stp[1] in ('min', 'std::min') and set(stp[2:]) == {W, norm(width)}:
                ok, why = True, ''
                ok2 = nxt == ('app', '/', W, stp)
            else:
                raise Broken('the step of a range is not understood: %s' % show(stp)[:200])
            ctx.ob(ok, 'step', f['q'] + '/step', f, 'steps are positive and fit into the package', '' if ok else why)
            wit = None
            if not ok2:
                env = lambda k, b: {W: k, norm(width): b, norm(real): b}
                for k in range(1, 13):
                    for b in range(1, 13):
                        if any(holds(x, w, env(k, b)) is False for x, w in a.facts.items()):
                            continue
                        u, v = number(stp, env(k, b)), number(nxt, env(k, b))
                        if u and v is not None and (v < 1 or u * v > k):
                            wit = wit or (k, b, u, v)
            if wit:
                ctx.ob(False, 'step', f['q'] + '/rest', f, 'the rest of the package is what remains for other digits', 'of %d, with a range of %d and steps of %d, it is %d' % (wit[0], wit[1], wit[2], wit[3]))
                continue
            if not ok2:
                raise Broken('what is left of the package is not understood: %s' % show(nxt)[:200])
            ctx.ob(ok2, 'step', f['q'] + '/rest', f, 'the rest of the package is what remains for other digits', '' if ok2 else 'it is %s' % show(nxt)[:150])
    ctx.need(n, 'how ranges are set up')


def number(t, env):
    """The value of a term, if it is made of what env knows."""
    t = norm(t)
    if t in env:
        return env[t]
    if isint(t):
        return t[1]
    if t[0] == 'lin':
        c, xs = lin(t)
        vs = [(number(x, env), k) for x, k in xs.items()] if isinstance(xs, dict) else [(number(x, env), k) for x, k in xs]
        return None if any(v is None for v, _ in vs) else c + sum(v * k for v, k in vs)
    if t[0] == 'app' and t[1] in ('/', '%', '*', 'min', 'max', 'std::min', 'std::max'):
        vs = [number(x, env) for x in t[2:]]
        if None in vs or t[1] in '/%' and vs[1] == 0:
            return None
        return {'/': lambda: vs[0] // vs[1], '%': lambda: vs[0] % vs[1], '*': lambda: vs[0] * vs[1]}.get(t[1], lambda: (min if 'min' in t[1] else max)(vs))()
    return None


def holds(a, w, env):
    """Is the fact true?  None if env does not say."""
    n = natom(a, w)
    if n is None:
        return None
    v = number(n[1], env)
    if v is None:
        return None
    return ((v <= n[2]) if n[0] == 'le' else v == n[2]) == w


# ------------------------------------------------------------------ the first position
def start(ctx, F, f):
    ps, it = ctx.run(f, tag='block')
    n = 0
    for p in ps:
        if p.kind != 'ret' or not live(p.facts, on_map(F)):
            continue
        n += 1
        ws = [e for e in p.events if e.kind == 'w' and e.a['loc'] == (('o', 'this'), (F.pos,))]
        filled = None
        at = -1
        for i, e in enumerate(p.events):
            if e.kind == 'w' and e.a['loc'] == (('o', 'this'), (F.pos,)):
                v = e.a['val']
                at, filled = i, v
        length = F.f(F.len)
        zero = False
        if filled is not None:
            fl = [x for x in subterms(filled) if x and x[0] == 'app' and x[1] == 'filled' or x and x[0] == 'filled']
            zero = bool(fl) and contains(filled, {length}) and (len(fl[0]) <= 3 or fl[0][-1] == C(0))
            ctx.need(zero, 'the first position is set up in a way that is not understood: %s' % show(filled)[:200])
        ctx.ob(filled is not None, 'start', f['q'] + '/length', f, 'the position gets the length of the family', '' if filled is not None else 'it does not')
        got = {}
        for i, le in enumerate(p.events):
            if le.kind != 'loop':
                continue
            for kind in KINDS:
                O_ = F.f(F.order[kind])
                iv = whole(le, size(O_))
                if not iv:
                    mp = F.f(F.map[kind])
                    iv2 = whole(le, size(mp))
                    if iv2:
                        px = ('key', mp, iv2)
                    else:
                        continue
                else:
                    px = ('fld', O_, ('x', iv))
                vals = []
                for a in le.a['alts']:
                    if not live(a.facts, on_map(F)):
                        continue
                    w = [(l, v) for l, v in writes(a.events, F) if l[0] == F.pos]
                    vals.append(w)
                for w in vals:
                    if len(w) == 1 and w[0][0] == (F.pos, ('x', px)):
                        v = w[0][1]
                        if kind == 'block':
                            ok = v[0] == 'fld' and v[2] == 0 and v[1][0] == 'fld' and v[1][2] == ('k', px) and is_map(F, v[1][1], 'block')
                        else:
                            ok = v == C(0)
                        got.setdefault(kind, []).append((ok, show(v)[:100], i > at))
                    elif w:
                        raise Broken('the first position is set up in a way that is not understood: %s' % w[0][0][-1:])
        for kind in KINDS:
            g = got.get(kind)
            if g is None:
                ok, why = kind != 'block' and zero, 'they are not set'
            else:
                ok = all(x[0] and x[2] for x in g)
                why = '' if ok else '; '.join(x[1] for x in g if not x[0]) or 'the position is set up later'
            ctx.ob(ok, 'start', '%s/%s' % (f['q'], kind), f, 'the digits of %ss have their first value at first' % kind, '' if ok else why)
        ends = [v for l, v in writes(p.events, F) if l == (F.end,)]
        emp = empty_fact(p.facts, [length])
        if not ends:
            ctx.ob(False, 'start', f['q'] + '/end', f, 'the end is not reached at first', 'nothing says whether it is')
        else:
            v = ends[-1]
            if not isint(v):
                a = truth_atom(v)
                ctx.need(isinstance(a, tuple) and len(a) == 2, 'whether the end is reached at first is not understood: %s' % show(v)[:100])
                e = empty_fact({a[0]: a[1]}, [length])                   # the length if the end is reached at first
                e2 = empty_fact({a[0]: not a[1]}, [length])
                ctx.need(e is not None or e2 is not None, 'whether the end is reached at first is not understood: %s' % show(v)[:100])
                ok = e is True
                ctx.ob(ok, 'start', f['q'] + '/end', f, 'the end is not reached at first', '' if ok else 'it may be: %s' % show(v)[:100])
                continue
            if emp is False or emp is None:
                ok = v == C(0)
                ctx.ob(ok, 'start', f['q'] + '/end', f, 'the end is not reached at first', '' if ok else 'it is')
    ctx.need(n, 'how the first position is set up')


# ------------------------------------------------------------------ stepping
class Digit:
    def __init__(s, F, kind, px):
        P = F.f(F.pos)
        s.kind = kind
        s.old = ('fld', P, ('x', px))
        m = ('fld', F.f(F.map[kind]), ('k', px))
        if kind == 'block':
            s.inc, s.first, s.limit = ('fld', m, 2), ('fld', m, 0), ('fld', m, 1)
        elif kind == 'set':
            s.inc, s.first, s.limit = C(1), C(0), size(m)
        else:
            s.inc, s.first = C(1), C(0)
            s.limit = size(('fld', ('fld', m, 1), ('k', ('fld', P, ('x', ('fld', m, 0))))))
        s.new = add(s.old, s.inc)


def stepping(ctx, F, step, digit, dn, opq):
    rows = []                    # (kind, condition on parameters, path, wrap, more, calls, end)
    for f in digit:
        ps, it = ctx.run(f, opaque=opq, tag='block')
        par = [('sym', 'arg:' + q['n']) for q in f['params']]
        for p in ps:
            if p.kind != 'ret':
                ctx.need(p.kind in ('dead', 'exc'), 'a path through %s' % f['q'])
                continue
            if not live(p.facts, on_map(F)):
                continue
            ctx.need(not any(e.kind == 'loop' for e in p.events), 'digits are stepped in a loop, which is not understood')
            ws = writes(p.events, F)
            moved = [(l, v) for l, v in ws if l[0] == F.pos]
            other = [l for l, v in ws if l[0] not in (F.pos, F.end)]
            ctx.need(not other, 'stepping changes %s' % ([l[0] for l in other][:1]))
            if not moved:
                raise Broken('a path through %s moves no digit' % f['q'])
            idx = {l[1] if len(l) == 2 else None for l, v in moved}
            ctx.need(None not in idx and all(isinstance(x, tuple) and x[0] == 'x' for x in idx), 'stepping changes the whole position')
            pxs = {norm(x[1]) for x in idx}
            who = []
            for px in pxs:
                k = [k for k in KINDS if px[0] == 'fld' and px[1] == F.f(F.order[k])]
                ctx.need(len(k) == 1 and isinstance(px[2], tuple) and px[2][0] == 'x', 'which digit is stepped: %s' % show(px)[:100])
                who.append((k[0], px, px[2][1]))
            if len(who) != 1:
                ctx.ob(False, 'digit', '%s/%s' % (f['q'], who[0][0]), f, 'one digit moves at a time', '%d do' % len(who))
                continue
            kind, px, ix = who[0]
            D = Digit(F, kind, px)
            final = moved[-1][1]
            seen, lo, hi, ne = sign(p.facts, norm(sub(D.new, D.limit)))
            key = '%s/%s' % (f['q'], kind)
            eq_only = (0 in ne and lo is None and hi is None) or (lo == hi == 0)
            if seen and kind != 'block' and eq_only:
                wrap = lo == 0
            elif seen and lo is not None and lo >= 0:
                wrap = True
                if lo > 0:
                    ctx.ob(False, 'limit', key, f, 'a digit starts again exactly if it reaches its limit', 'it moves on to its limit')
                    continue
            elif seen and hi is not None and hi <= -1:
                wrap = False
                if hi < -1:
                    ctx.ob(False, 'limit', key, f, 'a digit starts again exactly if it reaches its limit', 'it starts again before')
                    continue
            elif seen:
                ctx.ob(False, 'limit', key, f, 'a digit starts again exactly if it reaches its limit', 'it is compared with something else (%s, %s)' % (lo, hi))
                continue
            else:
                about = [a for a, w in p.facts.items() if a[0] in ('le', 'eqk') and contains(norm(a), {D.old})]
                if about:
                    ctx.ob(False, 'limit', key, f, 'a digit starts again exactly if it reaches its limit', 'what is tested is %s' % show_atom(about[0])[:200])
                else:
                    ctx.ob(False, 'limit', key, f, 'a digit starts again exactly if it reaches its limit', 'its limit is not tested')
                continue
            want = D.first if wrap else D.new
            ok = norm(final) == norm(want)
            ctx.ob(ok, 'digit', key + ('/again' if wrap else '/on'), f, 'a digit %s' % ('starts again with its first value' if wrap else 'moves by its step'),
                   '' if ok else 'it becomes %s' % show(final)[:150])
            nxt = sub(add(ix, C(1)), size(F.f(F.order[kind])))
            seen2, lo2, hi2, ne2 = sign(p.facts, norm(nxt))
            more = None
            if seen2:
                if lo2 is not None and lo2 == 0 or lo2 == hi2 == 0:
                    more = False
                elif hi2 is not None and hi2 == -1 or 0 in ne2 and lo2 is None and hi2 is None:
                    more = True
            calls_ = [e for e in p.events if e.kind == 'call' and e.a['fnid'] in dn]
            end = [v for l, v in ws if l == (F.end,)]
            rows.append((f, par, p, kind, ix, wrap, more if seen2 else None, calls_, end, key, seen2, show_range(lo2, hi2)))
    # which digit a call steps
    def target(e):
        f = dn[e.a['fnid']]
        args = [norm(x) for x in e.a['args']]
        par = [('sym', 'arg:' + q['n']) for q in f['params']]
        m = dict(zip(par, args))
        ks = {}
        for r in rows:
            if r[0] is not f:
                continue
            ok = True
            for a, w in r[2].facts.items():
                if a[0] in ('le', 'eqk') and all(x in par for x, _ in a[1]):
                    b = renorm_atom((a[0], tuple((subst(x, m), c) for x, c in a[1]), a[2]))
                    if b[0] == 'const':
                        if b[1] != w:
                            ok = False
                    elif b[0] in ('le', 'eqk', 'not') and all(x == r[4] for x, _ in a[1]):
                        pass
                    else:
                        bb, ww = (b[1], False) if b[0] == 'not' else (b, True)
                        known = [v for a2, v in facts_of.get(id(e), {}).items() if a2 == bb]
                        if known and (known[0] == ww) != w:
                            ok = False
            if ok:
                ks[r[3]] = norm(subst(r[4], m))
        if len(ks) != 1:
            raise Broken('which digit is stepped by a call is not understood')
        return next(iter(ks.items()))
    facts_of = {}
    for r in rows:
        for e in r[7]:
            facts_of[id(e)] = r[2].facts
    if ctx.bad():
        return                                                           # what follows relies on what is reported already
    after = {k: set() for k in KINDS}
    plan = []
    for r in rows:
        f, par, p, kind, ix, wrap, more, calls_, end, key, seen2, rng = r
        if len(calls_) > 1:
            ctx.ob(False, 'carry', key, f, 'one other digit is stepped if a digit starts again', '%d are' % len(calls_))
            continue
        if not wrap:
            ok = not calls_ and not end
            ctx.ob(ok, 'carry', key + '/on', f, 'nothing else happens if a digit moves on', '' if ok else 'another digit is stepped' if calls_ else 'the end is set')
            continue
        t = target(calls_[0]) if calls_ else None
        if seen2 and more is None:
            ctx.ob(False, 'carry', key + '/next', f, 'the next digit of its kind follows', 'whether there is one is tested wrongly (%s)' % rng)
            continue
        if t and t[0] == kind:
            good = norm(t[1]) == norm(add(ix, C(1))) and more is True
            ctx.ob(good, 'carry', key + '/next', f, 'the next digit of its kind follows',
                   '' if good else 'the digit %s follows' % show(t[1]) if norm(t[1]) != norm(add(ix, C(1))) else 'it is not known that there is one')
            continue
        if more is not False:
            ctx.ob(False, 'carry', key + '/next', f, 'the next digit of its kind follows', 'it is left out')
            continue
        if t:
            after[kind].add(t[0])
            good = t[1] == C(0)
            ctx.ob(good, 'carry', key + '/first', f, 'the first digit of another kind follows', '' if good else 'the digit %s follows' % show(t[1]))
        plan.append((f, p, kind, t, end, key))
    order = sorted(KINDS, key=lambda k: -len(after[k]))
    ok = all(after[k] == set(order[i + 1:]) for i, k in enumerate(order))
    have = {r[3] for r in rows}
    ctx.ob(ok and have == set(KINDS), 'carry', 'order of the kinds', step, 'the kinds of digits follow each other in a fixed order',
           '' if ok else '; '.join('after %ss: %s' % (k, ', '.join(sorted(after[k])) or 'none') for k in KINDS))
    if not ok:
        return
    good = order.index('dependent') < order.index('set') and order.index('dependent') < order.index('block')
    ctx.ob(good, 'carry', 'dependent first', step, 'dependent sets are stepped before what they depend on', '' if good else ' then '.join(order))
    sizes = lambda k: [size(F.f(F.order[k])), size(F.f(F.map[k]))]
    for f, p, kind, t, end, key in plan:
        later = order[order.index(kind) + 1:]
        for j in later:
            if t and j == t[0]:
                emp = empty_fact(p.facts, sizes(j))
                ctx.ob(emp is False, 'carry', '%s/%s' % (key, j), f, 'a kind is stepped only if it has digits', '' if emp is False else 'there may be none')
                break
            emp = empty_fact(p.facts, sizes(j))
            ctx.ob(emp is True, 'carry', '%s/skip %s' % (key, j), f, 'a kind is left out only if it has no digits', '' if emp is True else 'there may be some')
        if t:
            ctx.ob(not end, 'end', key + '/early', f, 'the end is not reached as long as a digit follows', '' if not end else 'it is')
        else:
            ok = bool(end) and isint(end[-1]) and end[-1] != C(0)
            ctx.ob(ok, 'end', key, f, 'the end is reached if no digit follows', '' if ok else 'it is not noticed')
    # the public function
    ps, it = ctx.run(step, opaque=opq, tag='block')
    for p in ps:
        if p.kind != 'ret':
            continue
        calls_ = [e for e in p.events if e.kind == 'call' and e.a['fnid'] in dn]
        ws = writes(p.events, F)
        for e in calls_:
            facts_of[id(e)] = p.facts
        ended = empty_fact(p.facts, [F.f(F.end)])       # True: it is zero
        if ended is False:
            ok = not calls_ and not ws
            ctx.ob(ok, 'end', step['q'] + '/end', step, 'nothing is stepped after the end', '' if ok else 'something is')
            continue
        ctx.need(not ws, 'stepping changes members besides')
        if len(calls_) != 1:
            ctx.ob(False, 'carry', step['q'], step, 'one digit is stepped first', '%d are' % len(calls_))
            continue
        t = target(calls_[0])
        ctx.ob(t[1] == C(0), 'carry', step['q'] + '/first', step, 'the first digit of the first kind is stepped', '' if t[1] == C(0) else 'the digit %s' % show(t[1]))
        for j in order:
            emp = empty_fact(p.facts, sizes(j))
            if j == t[0]:
                if j != order[-1]:
                    ctx.ob(emp is False, 'carry', '%s/%s' % (step['q'], j), step, 'a kind is stepped only if it has digits', '' if emp is False else 'there may be none')
                break
            ctx.ob(emp is True, 'carry', '%s/skip %s' % (step['q'], j), step, 'a kind is left out only if it has no digits', '' if emp is True else 'there may be some')


def stepping_loops(ctx, F, step):
    """The same, if the digits of a kind are stepped in a loop over the order of that kind."""
    ps, it = ctx.run(step, opaque=lambda f: False, tag='block')
    P = F.f(F.pos)
    mine = [F.pos] + list(F.map.values())

    def home(t):
        m = {}
        for x in subterms(t):
            if x and x[0] == 'w' and len(x) == 3 and isinstance(x[2], tuple) and x[2][0] == ('o', 'this') and len(x[2][1]) == 1 and x[2][1][0] in mine:
                m[x] = F.f(x[2][1][0])
        return norm(subst(t, m)) if m else norm(t)

    def homef(fs):
        return {home(a): w for a, w in fs.items()}

    def moves(evs):
        out = []
        for e in evs:
            if e.kind == 'loop':
                raise Broken('digits are stepped in loops within loops')
            if e.kind == 'w' and e.a['loc'] and e.a['loc'][0] == ('o', 'this') and e.a['loc'][1]:
                out.append((tuple(home(x) if isinstance(x, tuple) else x for x in e.a['loc'][1]), home(e.a['val'])))
            elif e.kind == 'cop' and e.a['loc'] and e.a['loc'][0] == ('o', 'this') and mutates(e) and e.a['op'] not in ('at', 'operator[]', '[]', 'index', 'insert_present'):
                out.append((e.a['loc'][1], None))
        return out

    def digit_of(le, ws):
        """(kind, entry, number in the order) of the digit that is written, for a pass of the loop."""
        idx = {l[1] if len(l) == 2 else None for l, v in ws}
        ctx.need(None not in idx and all(isinstance(x, tuple) and x[0] == 'x' for x in idx), 'stepping changes the whole position')
        pxs = {home(x[1]) for x in idx}
        if len(pxs) != 1:
            return None
        px = next(iter(pxs))
        k = [k for k in KINDS if px[0] == 'fld' and px[1] == F.f(F.order[k])]
        ctx.need(len(k) == 1 and isinstance(px[2], tuple) and px[2][0] == 'x', 'which digit is stepped: %s' % show(px)[:100])
        L = le.a['loop']
        iv = px[2][1]
        good = iv[0] == 'iv' and iv[1] == L.marker and L.start.get(iv[2]) == C(0) and L.step.get(iv[2]) == 1
        ctx.need(good, 'in which order the digits are stepped')
        return k[0], px

    def one(le, evs, facts, wrap):
        ws = moves(evs)
        other = [l for l, v in ws if l[0] != F.pos]
        ctx.need(not other, 'stepping changes %s' % ([l[0] for l in other][:1]))
        if not ws:
            raise Broken('a pass of a loop of %s moves no digit' % step['q'])
        d = digit_of(le, ws)
        if d is None:
            ctx.ob(False, 'digit', step['q'], step, 'one digit moves at a time', 'several do')
            return None
        kind, px = d
        D = Digit(F, kind, px)
        key = '%s/%s' % (step['q'], kind)
        fs = homef(facts)
        seen, lo, hi, ne = sign(fs, norm(sub(D.new, D.limit)))
        if wrap:
            ok = seen and (lo == 0 or lo is None and hi is not None and hi == 0 and kind != 'block')
        else:
            ok = seen and (hi == -1 or kind != 'block' and lo is None and hi is None and 0 in ne)
        ctx.ob(bool(ok), 'limit', key, step, 'a digit starts again exactly if it reaches its limit', '' if ok else 'it is tested otherwise (%s)' % show_range(lo, hi) if seen else 'its limit is not tested')
        final = ws[-1][1]
        want = D.first if wrap else D.new
        ok = final is not None and norm(final) == norm(want)
        ctx.ob(ok, 'digit', key + ('/again' if wrap else '/on'), step, 'a digit %s' % ('starts again with its first value' if wrap else 'moves by its step'),
               '' if ok else 'it becomes %s' % (show(final)[:150] if final is not None else 'something else'))
        return kind

    n = 0
    orders = set()
    for p in ps:
        if p.kind != 'ret':
            ctx.need(p.kind in ('dead', 'exc'), 'a path through %s' % step['q'])
            continue
        if not live(p.facts, on_map(F)):
            continue
        parts = [(None, [])]
        for e in p.events:
            if e.kind == 'loop':
                parts.append((e, []))
            else:
                parts[-1][1].append(e)
        ended = empty_fact(p.facts, [F.f(F.end)])       # True: it is zero
        if ended is not True:
            ok = ended is False and len(parts) == 1 and not moves(parts[0][1])
            ctx.ob(ok, 'end', step['q'] + '/over', step, 'nothing is stepped after the end', '' if ok else 'something is')
            continue
        n += 1
        ctx.need(not moves(parts[0][1]), 'digits are stepped before the loops')
        order = []
        done = False
        ends = []
        for le, tail in parts[1:]:
            ws = [x for x in moves(tail)]
            ends += [v for l, v in ws if l == (F.end,)]
            ws = [x for x in ws if x[0] != (F.end,)]
            again = [a for a in le.a['alts'] if live(a.facts, on_map(F))]
            if done:
                ok = not again and not ws
                ctx.ob(ok, 'carry', step['q'] + '/on', step, 'nothing else happens if a digit moves on', '' if ok else 'another digit is stepped')
                continue
            kinds = set()
            for a in again:
                kinds.add(one(le, a.events, a.facts, True))
            if ws:
                kinds.add(one(le, tail, p.facts, False))
                done = True
                if None in kinds:
                    return
                ctx.need(len(kinds) == 1, 'several kinds of digits are stepped in one loop')
                order.append(next(iter(kinds)))
                continue
            full = [k for k in KINDS if whole(le, size(F.f(F.order[k])))]
            if None in kinds:
                return
            ctx.need(len(kinds | set(full)) <= 1, 'several kinds of digits are stepped in one loop')
            k = next(iter(kinds | set(full)), None)
            ctx.ob(len(full) == 1, 'carry', '%s/%s/next' % (step['q'], k), step, 'the next digit of its kind follows', '' if full else 'some are left out')
            if not full:
                return
            order.append(k)
        if done:
            ctx.ob(not ends, 'end', step['q'] + '/early', step, 'the end is not reached as long as a digit follows', '' if not ends else 'it is')
        else:
            ok = bool(ends) and isint(ends[-1]) and ends[-1] != C(0)
            ctx.ob(ok, 'end', step['q'] + '/reached', step, 'the end is reached if no digit follows', '' if ok else 'it is not noticed')
            left = set(KINDS) - set(order)
            left = {k for k in left if empty_fact(p.facts, [size(F.f(F.order[k])), size(F.f(F.map[k]))]) is not True}
            ctx.ob(not left, 'carry', 'order of the kinds', step, 'the kinds of digits follow each other in a fixed order', '' if not left else '%s are left out' % ', '.join(sorted(left)))
        orders.add(tuple(order))
    ctx.need(n and any(orders), 'how the position is stepped')
    longest = max(orders, key=len)
    ok = all(o == longest[:len(o)] for o in orders) and len(set(longest)) == len(longest)
    ctx.ob(ok, 'carry', 'order of the kinds/fixed', step, 'the kinds of digits follow each other in a fixed order', '' if ok else 'they do not')
    good = ok and len(longest) == 3 and longest[0] == 'dependent'
    ctx.ob(good, 'carry', 'dependent first', step, 'dependent sets are stepped before what they depend on', '' if good else ' then '.join(longest))


def show_range(lo, hi):
    return '%s..%s' % ('' if lo is None else lo, '' if hi is None else hi)


# ------------------------------------------------------------------ the rest of the interface
def accessors(ctx, F, big, opq):
    """The end, the length, and the constructor without a package size."""
    for q, m, what in (('is_end', F.end, 'the end is what stepping has reached'), ('length', F.len, 'the length is that of the position')):
        f = ctx.fn(B + '::' + q)
        ps, it = ctx.run(f, tag='block')
        for p in ps:
            if p.kind != 'ret':
                continue
            v = norm(p.val)
            ok = v in (F.f(m), size(F.f(F.pos)) if q == 'length' else None)
            if not ok and q == 'is_end':
                e = empty_fact(p.facts, [F.f(F.end)])
                if isint(v) and e is not None:
                    ok = (v == C(0)) == e
                elif not isint(v):
                    a = truth_atom(v)
                    ctx.need(isinstance(a, tuple) and len(a) == 2, 'whether the end is reached: %s' % show(v)[:100])
                    e = empty_fact({a[0]: a[1]}, [F.f(F.end)])
                    ctx.need(e is not None, 'whether the end is reached: %s' % show(v)[:100])
                    ok = not e
            ctx.ob(ok, 'interface', f['q'], f, what, '' if ok else show(v)[:100])
    for c in ctx.methods(B):
        if c['q'].split('::')[-1] != B or c is big or len(c['params']) < 3:
            continue
        ps, it = ctx.run(c, opaque=lambda g: g['fn'] == big['fn'], tag='block')
        for p in ps:
            if p.kind != 'ret':
                continue
            cs = [e for e in p.events if e.kind in ('call', 'ctor') and (e.a.get('fnid') == big['fn'] or e.kind == 'ctor' and e.a.get('q', '').endswith(B))]
            ctx.need(len(cs) == 1, 'the constructor without a package size')
            args = [norm(x) for x in cs[0].a['args']]
            byname = {q['n']: ('sym', 'arg:' + q['n']) for q in c['params']}
            bytype = {tname(q['t']).replace('const ', '').replace(' &', ''): ('sym', 'arg:' + q['n']) for q in c['params']}
            for q, x in zip(big['params'], args):
                t = tname(q['t']).replace('const ', '').replace(' &', '')
                want = bytype.get(t, C(1) if t == 'unsigned int' else None)
                ctx.need(want is not None, 'the constructor without a package size')
                ctx.ob(x == want, 'interface', '%s/%s' % (c['q'], q['n']), c, 'without a package size, one polynomial after another', '' if x == want else show(x)[:100])


# ------------------------------------------------------------------ what is handed out
def position(ctx, F):
    f = ctx.fn(B + '::as_position')
    ps, it = ctx.run(f, tag='block')
    P = F.f(F.pos)
    n = 0
    for p in ps:
        if p.kind != 'ret' or not live(p.facts, on_map(F)):
            continue
        n += 1
        v = norm(it.load(p.st, p.val[1]) if p.val[0] == 'ptr' else p.val)
        chain = []
        while v != P:
            if v[0] == 'S' and len(v[1]) == 1 and v[1][0][0] == 'b':
                v = norm(v[1][0][1])
                continue
            ctx.need(v[0] == 'w', 'the position that is handed out: %s' % show(v)[:200])
            le = [x for x in loops(p.events) if x.a['loop'].marker == v[1]]
            ctx.need(len(le) == 1, 'the position that is handed out: %s' % show(v)[:200])
            chain.insert(0, (le[0], v))
            ctx.need(len(chain) < 6, 'the position that is handed out')
            v = norm(it.load(le[0].a['loop'].entry, v[2]))
        done = []
        for le, w in chain:
            kind = next((k for k in ('dependent', 'set', 'block') if whole_map(F, le, k)), None)
            ctx.need(kind, 'what the position stands for is found in a way that is not understood')
            m, iv = whole_map(F, le, kind)
            key = ('key', m, iv)
            raw = {w, P} | {x for _, x in chain if all(k == 'dependent' for k in done)} if all(k == 'dependent' for k in done) and kind == 'dependent' else {P}
            own = {w, P} if kind not in done else {P}
            for a in le.a['alts']:
                if not live(a.facts, on_map(F)):
                    continue
                x = norm(it.load(a.st, w[2]))
                if x[0] == 'S' and len(x[1]) == 1 and x[1][0][0] == 'b':
                    x = norm(x[1][0][1])
                ctx.need(x[0] == 'O' and x[1] == w, 'what the position stands for is found in a way that is not understood: %s' % show(x)[:200])
                ctx.need(len(x[2]) == 1 and x[2][0][0] == ('x', key), 'what the position stands for is found in a way that is not understood: %s' % show(x)[:200])
                y = norm(x[2][0][1])
                ok = False
                if y[0] == 'fld' and isinstance(y[2], tuple) and y[2][0] == 'x':
                    i = norm(y[2][1])
                    iok = i[0] == 'fld' and i[2] == ('x', key) and i[1] in own
                    lst = norm(y[1])
                    ent = ('fld', m, ('k', key))
                    if kind == 'set':
                        ok = iok and lst == norm(ent)
                    elif kind == 'dependent':
                        ok = iok and lst[0] == 'fld' and lst[1] == norm(('fld', ent, 1)) and isinstance(lst[2], tuple) and lst[2][0] == 'k'
                        if ok:
                            j = norm(lst[2][1])
                            ok = j[0] == 'fld' and j[2] == ('x', norm(('fld', ent, 0))) and j[1] in raw
                ctx.ob(ok, 'value', '%s/%s' % (f['q'], kind), f, 'a digit of a %s stands for the entry of the %s' % (kind, kind),
                       '' if ok else 'it stands for %s%s' % (show(y)[:200], ', after other digits were replaced' if done else ''))
            done.append(kind)
        for kind in ('set', 'dependent'):
            ok = done.count(kind) == 1
            ctx.ob(ok, 'value', '%s/%s/all' % (f['q'], kind), f, 'digits of %ss are replaced by what they stand for' % kind, '' if ok else 'they are %s' % ('not' if not done.count(kind) else 'more than once'))
        ws = [l for l, v in writes([x for le in loops(p.events) for a in le.a['alts'] if live(a.facts, on_map(F)) for x in a.events] + p.events, F)]
        ctx.ob(not ws, 'value', f['q'] + '/kept', f, 'the position itself is kept', '' if not ws else '%s is changed' % ws[0][0])
    ctx.need(n, 'the position that is handed out')


def msizes(F, le, kind):
    m = F.map[kind]
    return [F.f(m), ('w', le.a['loop'].marker, (('o', 'this'), (m,)))]


def block(ctx, F):
    f = ctx.fn(B + '::as_block')
    ap = ctx.fn(B + '::as_position')
    ps, it = ctx.run(f, opaque=lambda g: g['fn'] == ap['fn'], tag='block')
    n = 0
    for p in ps:
        if p.kind != 'ret' or not live(p.facts, on_map(F)):
            continue
        n += 1
        v = norm(it.load(p.st, p.val[1]) if p.val[0] == 'ptr' else p.val)
        pos = [e for e in p.events if e.kind == 'call' and e.a['fnid'] == ap['fn']]
        ctx.need(len(pos) == 1, 'the block does not come from the position')
        if v[0] == 'S' and len(v[1]) == 1 and v[1][0][0] == 'b':
            v = norm(v[1][0][1])
        if v[0] == 'S' and len(v[1]) == 1 and v[1][0][0] == 'star':
            ctx.ob(False, 'block', f['q'] + '/ranges', f, 'the range of a digit is that of one step', 'ranges are not handed out')
            continue
        ctx.need(v[0] == 'w', 'the block that is handed out: %s' % show(v)[:200])
        le = [x for x in loops(p.events) if x.a['loop'].marker == v[1]]
        ctx.need(len(le) == 1, 'the block that is handed out: %s' % show(v)[:200])
        le, w = le[0], v
        m = whole_map(F, le, 'block')
        ctx.ob(m is not None, 'block', f['q'] + '/all', f, 'every range is handed out', '' if m else 'not all are gone through')
        if m is None:
            continue
        m, key = norm(m[0]), norm(('key', m[0], m[1]))
        # what it was before
        b = norm(it.load(le.a['loop'].entry, w[2]))
        ctx.need(b[0] == 'S' and len(b[1]) == 1 and b[1][0][0] == 'star', 'the block that is handed out: %s' % show(b)[:200])
        l1 = [x for x in loops(p.events) if x is not le and x.a['loop'].kind.get(w[2]) == 'hole']
        ctx.need(len(l1) == 1 and l1[0].a['loop'].start.get(w[2]) == ('S', ()), 'the block that is handed out')
        l1 = l1[0]
        tr = trips(l1)
        ctx.need(tr is not None, 'the block that is handed out')
        vec = [x[1] for x in subterms(tr[0]) if x and x[0] == 'size']
        ctx.need(len(vec) == 1 and any(t and t[0] in ('ret', 'call', 'w', 'app') for t in [vec[0]]), 'the block that is handed out')
        vec = vec[0]
        iv = whole(l1, size(vec))
        ctx.ob(bool(iv), 'block', f['q'] + '/entries', f, 'every entry is handed out', '' if iv else 'not all are gone through')
        if not iv:
            continue
        for a in l1.a['alts']:
            app = tuple(norm(x) for x in appended(it, a, l1, w[2]))
            c = ('fld', vec, ('x', iv))
            good = len(app) == 1 and app[0][0] == 'O' and dict(app[0][2]) == {0: c, 1: add(c, C(1))}
            ctx.ob(good, 'block', f['q'] + '/entry', f, 'the range of an entry is its value', '' if good else ', '.join(show(x)[:100] for x in app))
        R = norm(('fld', m, ('k', key)))
        for a in le.a['alts']:
            if not live(a.facts, on_map(F)):
                continue
            x = norm(it.load(a.st, w[2]))
            if x[0] == 'S' and len(x[1]) == 1 and x[1][0][0] == 'b':
                x = norm(x[1][0][1])
            ctx.need(x[0] == 'O' and x[1] == w and all(k[0] == ('x', key) or k == key or k[0] == ('x', key) for k in x[2]), 'the block that is handed out: %s' % show(x)[:200])
            y = norm(x[2][-1][1])
            ctx.need(y[0] == 'O', 'the block that is handed out: %s' % show(y)[:200])
            d = dict(y[2])
            lo0 = norm(('fld', ('fld', w, ('x', key)), 0))
            lows = (lo0, norm(('fld', vec, ('x', key))))
            ok, why = cut(a.facts, lows, d.get(0, lo0 if y[1] is not None else None), d.get(1), R)
            ctx.ob(ok, 'block', f['q'] + '/ranges', f, 'the range of a digit is that of one step', why)
    ctx.need(n, 'the block that is handed out')


def cut(facts, lows, lo, hi, R):
    """Is [lo, hi) the part of the range R that belongs to the step at the position (one of lows)?"""
    if lo not in lows:
        return False, 'it begins with %s' % show(lo)[:100]
    top = norm(('fld', R, 1))
    sg = (False, None, None, set())
    for l in lows:
        s2 = sign(facts, norm(sub(add(l, ('fld', R, 2)), ('fld', R, 1))))
        if s2[0]:
            sg = s2
    steps = [norm(add(l, ('fld', R, 2))) for l in lows]
    if hi == top:
        ok = sg[1] is not None and sg[1] >= 0
        return ok, '' if ok else 'it may be more than a step'
    if hi in steps:
        ok = sg[2] is not None and sg[2] <= 0
        return ok, '' if ok else 'it may exceed the range'
    if hi is not None and hi[0] == 'app' and hi[1] in ('min', 'std::min') and top in hi[2:] and any(x in hi[2:] for x in steps):
        return True, ''
    return False, 'it ends before %s' % (show(hi)[:100] if hi else '?')


EMPTY = (('c', '{}'), ('empty',))


def block_enumerator(ctx, F, big):
    """The block of a position as an iterator: every digit of the iterator is one of its digits."""
    f = ctx.fn(B + '::as_block_enumerator', required=False)
    if f is None:
        return
    ap = ctx.fn(B + '::as_position')
    ps, it = ctx.run(f, opaque=lambda g: g.get('rec') == B and g['fn'] != f['fn'], tag='block')
    n = 0
    for p in ps:
        if p.kind != 'ret' or not live(p.facts, on_map(F)):
            continue
        n += 1
        v = norm(it.load(p.st, p.val[1]) if p.val[0] == 'ptr' else p.val)
        pos = [e for e in p.events if e.kind == 'call' and e.a['fnid'] == ap['fn']]
        ctx.need(len(pos) == 1, 'the block does not come from the position')
        vec = norm(pos[0].a['ret'])
        ctx.need(v[0] == 'app' and v[1] == 'ctor:' + B and len(v) > 4, 'the iterator of a block: %s' % show(v)[:200])
        args = [x for x in v[2:]]
        l = args.pop(0)
        ok = l == F.f(F.len) or l[0] in ('app', 'call') and 'length' in str(l[1]) or l == size(vec) or l == size(F.f(F.pos))
        ctx.ob(ok, 'block', f['q'] + '/length', f, 'the block has the length of the position', '' if ok else show(l)[:100])
        if isint(args[1]):
            one = args.pop(1) == C(1)
            ctx.ob(one, 'block', f['q'] + '/package', f, 'the polynomials of a block are gone through one by one', '' if one else 'the step is larger')
        empty = args[2] if len(args) > 2 else ('M', ('c', '{}'), ())
        ctx.need(empty[0] == 'M' and not empty[2] and empty[1] in EMPTY, 'the iterator of a block; %r' % (empty,))
        got = {k: [] for k in KINDS}
        for which, t in (('range', args[0]), ('set', args[1])):
            while True:
                if t[0] == 'w':
                    key_ = t
                else:
                    ctx.need(t[0] == 'M' and not t[2], 'the iterator of a block: %s' % show(t)[:200])
                    key_ = t[1]
                if key_[0] != 'w':
                    ctx.need(key_ in EMPTY, 'the iterator of a block: %s' % repr(t)[:200])
                    break
                le = [x for x in loops(p.events) if x.a['loop'].marker == key_[1]]
                ctx.need(len(le) == 1, 'the iterator of a block: %s' % show(t)[:200])
                le = le[0]
                kind = next((k for k in KINDS if whole_map(F, le, k)), None)
                if kind is None:
                    ctx.ob(False, 'block', f['q'] + '/digits', f, 'every digit is one of the block', 'not all are gone through')
                    return
                m, iv = whole_map(F, le, kind)
                key = norm(('key', norm(m), iv))
                for i, a in enumerate(le.a['alts']):
                    if not live(a.facts, on_map(F)):
                        continue
                    x = it.load(a.st, key_[2])
                    ctx.need(x == key_ or x[0] == 'M' and (x[1] == key_), 'the iterator of a block: %r' % (x,))
                    ents = [(norm(k), norm(y), y) for k, _, y in x[2]] if x[0] == 'M' else []
                    got[kind].append((id(le), i, which, key, ents, a, m))
                t = it.load(le.a['loop'].entry, key_[2])
        for kind in KINDS:
            alts = {}
            for l_, i, which, key, ents, a, m in got[kind]:
                alts.setdefault((l_, i), []).extend((which, key, k, y, r, a, m) for k, y, r in ents)
                alts[(l_, i)] += []
            per = len({l_ for l_, i in alts})
            ctx.ob(per == 1, 'block', '%s/%s' % (f['q'], kind), f, 'every digit is one of the block', '' if per == 1 else 'they are put there %d times' % per)
            if per != 1:
                continue
            for xs in alts.values():
                ok, why = len(xs) == 1, 'an entry is %s' % ('left out' if not xs else 'put there more than once')
                if ok:
                    which, key, k, y, raw, a, m = xs[0]
                    c = norm(('fld', vec, ('x', key)))
                    if k != key:
                        ok, why = False, 'it is put at %s' % show(k)[:100]
                    elif which == 'range':
                        d = dict(y[2]) if y[0] == 'O' else {}
                        if kind == 'block':
                            ok, why = cut(a.facts, (c,), d.get(0), d.get(1), norm(('fld', m, ('k', key))))
                        else:
                            ok = d.get(0) == c and d.get(1) == norm(add(c, C(1)))
                            why = show(y)[:100]
                    else:
                        lst = single(it, a, raw)
                        ctx.need(lst is not None, 'the entries of a block: %s' % show(y)[:200])
                        ok, why = [norm(z) for z in lst] == [c], ', '.join(show(z)[:80] for z in lst)
                        if ok and kind == 'block':
                            R = norm(('fld', m, ('k', key)))
                            st, tp = norm(sub(add(c, ('fld', R, 2)), ('fld', R, 1))), None
                            s1 = sign(a.facts, norm(sub(('fld', R, 1), c)))
                            s2 = sign(a.facts, norm(('fld', R, 2)))
                            ok = s1[2] is not None and s1[2] <= 1 or s2[2] is not None and s2[2] <= 1
                            why = 'there may be more in this step'
                ctx.ob(ok, 'block', '%s/%s/entry' % (f['q'], kind), f, 'each digit of the block has what belongs to the step', '' if ok else why)
    ctx.need(n, 'the iterator of a block')


def single(it, a, y):
    """The elements of a list."""
    for _ in range(4):
        if y[0] == 'ptr':
            y = it.load(a.st, y[1])
        elif y[0] == 'S' and len(y[1]) == 1 and y[1][0][0] == 'b':
            y = y[1][0][1]
        else:
            break
    if y[0] == 'S':                      # what a new entry of a map is before is empty
        y = ('S', tuple(z for z in y[1] if not (z[0] == 'b' and z[1][0] == 'fld' and z[1][1][0] == 'w' and isinstance(z[1][2], tuple) and z[1][2][0] == 'k')))
        if all(z[0] == 'e' for z in y[1]):
            return [z[1] for z in y[1]]
    if norm(y)[0] == 'fld' or y[0] == 'S' and contains(y, {THIS}):
        return [y]                       # all of another list
    return None


# ------------------------------------------------------------------ one family after another
def families_step(ctx):
    opq = lambda g: g.get('rec') == B
    fs = ctx.field(ITER, lambda t: t['s'].startswith('std::vector<BlockIterator'), 'the list of families')
    cur = ctx.field(ITER, lambda t: 'iterator' in t['s'] or t['s'].startswith('BlockIterator *') or t['s'] == 'unsigned long', 'the family that is gone through')
    ctx.need(len(fs) == 1 and len(cur) == 1, 'the families of %s' % ITER)
    fs, cur = fs[0]['n'], cur[0]['n']
    f = ctx.fn(ITER + '::step')
    ps, it = ctx.run(f, opaque=opq, tag='block')
    here = ('fld', THIS, cur)
    deref = None
    n = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        n += 1
        over = at_end(p.facts, here, fs)
        cs = [e for e in p.events if e.kind == 'call' and short(e.a['q']) in (B + '::step', B + '::is_end')]
        ws = [(e.a['loc'], e.a['val']) for e in p.events if e.kind == 'w' and e.a['loc'][0] == ('o', 'this')]
        moved = [v for l, v in ws if l[1] == (cur,)]
        ctx.need(len(moved) == len([1 for l, v in ws]), 'stepping changes other members')
        steps = [e for e in cs if short(e.a['q']) == B + '::step']
        if over is True:
            ok = not steps and not moved
            ctx.ob(ok, 'families', f['q'] + '/end', f, 'nothing is stepped after the last family', '' if ok else 'something is')
            continue
        ctx.ob(over is False, 'families', f['q'] + '/end', f, 'nothing is stepped after the last family', '' if over is False else 'whether there is one is not tested')
        ok = len(steps) == 1
        ctx.ob(ok, 'families', f['q'] + '/one', f, 'the current family is stepped once', '' if ok else 'it is stepped %d times' % len(steps))
        if not ok:
            continue
        # the end of the family, asked for after the step
        ends = None
        for a, w in p.facts.items():
            if a[0] in ('eqk', 'le') and len(a[1]) == 1 and any(x[0] == 'app' or x[0] in ('ret', 'call') for x, _ in a[1]) and 'is_end' in str(a):
                ends = not w if a[0] == 'eqk' and a[2] == 0 else None
        asked = [i for i, e in enumerate(p.events) if e in cs and short(e.a['q']) == B + '::is_end']
        si = p.events.index(steps[0])
        late = [i for i in asked if i > si]
        if ends is None and not late:
            ctx.ob(False, 'families', f['q'] + '/next', f, 'the next family follows exactly if the current one is at its end', 'whether it is is not tested after the step')
            continue
        ctx.need(ends is not None and len(asked) == 1, 'whether a family is at its end is tested in a way that is not understood')
        good = late and (len(moved) == 1) == ends and len(moved) < 2
        ctx.ob(bool(good), 'families', f['q'] + '/next', f, 'the next family follows exactly if the current one is at its end',
               '' if good else 'it %s' % ('does not follow' if ends else 'follows before the end' if late else 'is tested before the step'))
        for v in moved:
            one = next_of(here, v)
            ctx.need(one is not None, 'which family follows is not understood: %s' % show(v)[:200])
            ctx.ob(one, 'families', f['q'] + '/one further', f, 'the next family is the one that follows', '' if one else show(v)[:100])
    ctx.need(n, 'how families are stepped')
    for q, callee in (('as_position', 'as_position'), ('as_block', 'as_block')):
        g = ctx.fn(ITER + '::' + q, required=False)
        if g is None:
            continue
        ps, it = ctx.run(g, opaque=opq, tag='block')
        for p in ps:
            if p.kind != 'ret':
                continue
            cs = [e for e in p.events if e.kind == 'call' and short(e.a['q']).startswith(B + '::')]
            ok = len(cs) == 1 and short(cs[0].a['q']) == B + '::' + callee
            ctx.ob(ok, 'families', g['q'], g, 'what is handed out is that of the current family', '' if ok else ', '.join(e.a['q'] for e in cs) or 'something else')
    g = ctx.fn(ITER + '::is_end')
    ps, it = ctx.run(g, opaque=opq, tag='block')
    for p in ps:
        if p.kind != 'ret':
            continue
        v = p.val
        if isint(v):
            over = at_end(p.facts, here, fs)
            ctx.need(over is not None or off_end(p.facts, here, fs), 'whether the last family is over')
            ok = over is not None and over == (v != C(0))
        else:
            a = truth_atom(v)
            ctx.need(isinstance(a, tuple) and len(a) == 2, 'whether the last family is over: %s' % show(v)[:100])
            over = at_end({a[0]: True}, here, fs)
            ctx.need(over is not None or off_end({a[0]: True}, here, fs), 'whether the last family is over: %s' % show(v)[:100])
            ok = over is not None and over == a[1]
        ctx.ob(ok, 'families', g['q'], g, 'the end is reached after the last family', '' if ok else show(v)[:100])
    # the first family
    for c in ctx.methods(ITER):
        if c['q'].split('::')[-1] == ITER and len(c['params']) > 1:
            from r_enum import enum_opaque
            ps, it = ctx.run(c, opaque=enum_opaque, tag='enum')
            for p in ps:
                if p.kind != 'ret':
                    continue
                v = it.load(p.st, (('o', 'this'), (cur,)))
                ok = v[0] == 'it' and v[1] == (('o', 'this'), (fs,)) and ('idx' in str(v[2][0]) and (v[2][1] == C(0) if len(v[2]) > 1 else False))
                ctx.need(v[0] == 'it', 'the first family: %s' % show(v)[:100])
                ctx.ob(ok, 'families', c['q'] + '/first', c, 'the first family comes first', '' if ok else show(v)[:100])


def at_end(facts, here, fs):
    """Is the current family behind the last one?"""
    for a, w in facts.items():
        if a[0] == 'eq' and here in (a[1], a[2]):
            o = a[2] if a[1] == here else a[1]
            if o[0] == 'it' and o[1] == (('o', 'this'), (fs,)) and contains(o, {size(('fld', THIS, fs))}):
                return w
    return None


def off_end(facts, here, fs):
    """Is another place than the current family compared with the end?"""
    for a, w in facts.items():
        if a[0] == 'eq':
            for x, o in ((a[1], a[2]), (a[2], a[1])):
                if o[0] == 'it' and o[1] == (('o', 'this'), (fs,)) and contains(o, {size(('fld', THIS, fs))}) and isint(sub(x, here)):
                    return True
    return False


def next_of(here, v):
    t = sub(v, here)
    if isint(t):
        return t == C(1)
    s = str(v)
    if v[0] == 'app' and v[1] in ('next', '+', 'itadd') and here in v[2:]:
        return C(1) in v[2:] or v[1] == 'next' and len(v) == 3
    if v[0] == 'it' or v[0] == 'adv':
        r = [x for x in v[1:] if isint(x)] if v[0] == 'adv' else None
        return r == [C(1)] if r else None
    return None


RULES = {'C36': c36}
