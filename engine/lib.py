"""What the rule modules share: the analysed program, cached abstract runs, automata over event traces,
the AST call graph, and the book-keeping of obligations and violations."""
import re, sys
import facts as F_
from facts import Broken, rel, walk
from terms import *
import interp as I_
from interp import flat, Interp


class Ob:
    __slots__ = ('rule', 'key', 'where', 'what', 'ok', 'why')

    def __init__(s, rule, key, where, what, ok, why):
        s.rule, s.key, s.where, s.what, s.ok, s.why = rule, key, where, what, ok, why


class Ctx:
    def __init__(s, prog, prop, tier):
        s.p, s.prop, s.tier = prog, prop, tier
        s.obs = {}
        s.runs = {}
        s.interps = []
        s.notes = []
        s.paths = 0
        s.assumptions = []
        s._cg = None

    # ---------------------------------------------------------------- obligations
    def ob(s, ok, rule, key, where, what, why=''):
        """One obligation: `rule` applied to the construct `key` (stable text, no line numbers) at `where`."""
        if hasattr(where, 'where'):
            where = where.where()
        elif isinstance(where, dict):
            where = '%s:%s in %s' % (rel(where.get('file', '')), where.get('l', 0), where.get('q', '?'))
        k = (rule, key)
        o = s.obs.get(k)
        if o is None:
            s.obs[k] = Ob(rule, key, where, what, bool(ok), why)
        elif o.ok and not ok:
            o.ok, o.where, o.why, o.what = False, where, why, what
        return bool(ok)

    def need(s, cond, text):
        if not cond:
            raise Broken(text)

    def bad(s):
        return [o for o in s.obs.values() if not o.ok]

    # ---------------------------------------------------------------- program access
    def fn(s, q, nparams=None, required=True, static=None):
        fs = [f for f in s.p.find(q) if f.get('body')]
        if nparams is not None:
            fs = [f for f in fs if len(f['params']) == nparams]
        if not fs:
            if required:
                raise Broken('anchor %s not found' % q)
            return None
        return fs[0]

    def fns(s, pred):
        return [f for f in s.p.functions.values() if f.get('body') and pred(f)]

    def methods(s, rec, public=None):
        return s.fns(lambda f: f.get('rec') == rec)

    def record(s, q):
        r = s.p.records.get(q)
        if r is None:
            raise Broken('anchor class %s not found' % q)
        return r

    def field(s, rec, pred, what=None):
        fs = [f for f in s.record(rec)['fields'] if pred(f['t'])]
        if what and not fs:
            raise Broken('anchor: %s has no member that is %s' % (rec, what))
        return fs

    # ---------------------------------------------------------------- abstract runs
    def run(s, fn, opaque=None, shared=None, tag='', pre=None, this='this', on_emit=None, on_access=None, keep=None):
        """Cached abstract run of one entry point: (paths, interp)."""
        if isinstance(fn, str):
            fn = s.fn(fn)
        k = (fn['fn'], tag)
        if k in s.runs:
            return s.runs[k]
        it = Interp(s.p, opaque=opaque, shared=shared)
        it.on_emit, it.on_access = on_emit, on_access
        it.keep = keep or it.keep
        ps = it.run(fn, pre=pre) if pre else it.run(fn)
        s.runs[k] = (ps, it)
        s.interps.append(it)
        s.paths += len(ps)
        if not ps:
            raise Broken('no path through %s' % fn['q'])
        return s.runs[k]

    # ---------------------------------------------------------------- call graph
    def callgraph(s):
        if s._cg is None:
            g = {}
            for f in s.p.functions.values():
                out = set()
                for part in ('body', 'inits', 'params'):
                    for n in walk(f.get(part) or []):
                        for c in (n.get('callee'), n.get('ctor'), n.get('dtor')):
                            if isinstance(c, dict) and c.get('fn'):
                                out.add(c['fn'])
                                if c.get('virt'):
                                    out.update(s.p.all_overriders(c['fn']))
                            elif isinstance(c, str):
                                out.update(s.p.byq.get(c, [c]))
                        if isinstance(n.get('fn'), str):
                            out.add(n['fn'])
                        c = n.get('callee')
                        if isinstance(c, dict) and c.get('q') in ('std::make_shared', 'std::make_unique'):
                            for a in (c.get('rt') or {}).get('args') or []:
                                if isinstance(a, dict) and a.get('rec') in s.p.records:
                                    out.update(x['fn'] for x in s.p.functions.values() if x.get('rec') == a['rec'] and x.get('ctor'))
                g[f['fn']] = out
            s._cg = g
        return s._cg

    def reachable(s, roots):
        g = s.callgraph()
        seen, todo = {}, [(r, None) for r in roots]
        while todo:
            x, via = todo.pop()
            if x in seen:
                continue
            seen[x] = via
            for y in g.get(x, ()):
                todo.append((y, x))
        return seen

    def reachable_without(s, roots, cut):
        g = s.callgraph()
        seen, todo = {}, [(r, None) for r in roots]
        while todo:
            x, via = todo.pop()
            if x in seen or x in cut:
                continue
            seen[x] = via
            todo += [(y, x) for y in g.get(x, ())]
        return seen

    def entries(s, rec):
        """The member functions by which other code enters a class: public ones that are not mere helpers of
        the class itself (every caller inside the class, at least one of them)."""
        own = {f['fn'] for f in s.p.functions.values() if f.get('rec') == rec or (f.get('lambda') and f['q'].startswith(rec + '::'))}
        inside, outside = set(), set()
        for c, out in s.callgraph().items():
            for y in out:
                (inside if c in own else outside).add(y)
        res = []
        for f in s.methods(rec):
            if f.get('lambda') or f.get('access') not in ('public', None):
                continue
            if f['fn'] in inside and f['fn'] not in outside and not f.get('dtor') and not f.get('ctor'):
                continue
            res.append(f)
        return res

    def chain(s, seen, x):
        out = []
        while x is not None:
            f = s.p.functions.get(x)
            out.append(f['q'] if f else x)
            x = seen[x]
        return ' <- '.join(out)


# -------------------------------------------------------------------- automata over traces
def automaton(evs, states, step, onloop=None):
    """Runs a nondeterministic automaton (step(state, ev) -> states) over a trace, loops to a fixpoint.
    onloop(states, loop event) may summarise a loop (None: descend into it)."""
    cur = set(states)
    for e in evs:
        if e.kind == 'loop':
            if onloop:
                r = onloop(cur, e)
                if r is not None:
                    cur = set(r)
                    continue
            H = {0: set(cur)}
            todo = [0]
            while todo:
                h = todo.pop()
                for a in e.a['alts']:
                    if a.src != h:
                        continue
                    out = automaton(a.events, H[h], step, onloop)
                    d = H.setdefault(a.dst, set())
                    if not out <= d:
                        d |= out
                        todo.append(a.dst)
            cur = H.get(e.a['head'], set())
        else:
            nxt = set()
            for x in cur:
                nxt.update(step(x, e))
            cur = nxt
        if not cur:
            return cur
    return cur


def count(evs, pred, cap=2):
    """Possible numbers (capped) of events satisfying pred along the trace."""
    return automaton(evs, {0}, lambda n, e: (min(n + 1, cap) if pred(e) else n,))


def linear(le, t):
    """Is t an index that is 0 at the first iteration of the loop and grows by one with each?"""
    L = le.a['loop']
    if t[0] == 'iv' and t[1] == L.marker:
        return L.start.get(t[2]) == C(0) and L.step.get(t[2]) == 1
    if t[0] == 'w' and t[1] == L.marker and len(t) > 2:
        if L.start.get(t[2]) != C(0):
            return False
        root = t[2][0]
        if root[0] == 't' and root[-1] == 'iv':
            return True           # the hidden iterator of a range-based for loop
        for a in le.a['alts']:
            ws = [e for e in flat(a.events) if e.kind == 'w' and e.a['loc'] == t[2]]
            if len(ws) != 1 or ws[0] not in a.events or sub(ws[0].a['val'], t) != C(1):
                return False
        return bool(le.a['alts'])
    return False


def covered(le):
    """(index, container) if the exit facts of the loop say that a linear index reached the container's size."""
    for a, v in le.a['xfacts'].items():
        if a[0] not in ('eqk', 'le') or len(a[1]) != 2:
            continue
        d = dict(a[1])
        szs = [x for x in d if x[0] == 'size']
        if len(szs) != 1:
            continue
        sz = szs[0]
        i = [x for x in d if x != sz][0]
        if d[i] + d[sz] != 0 or not linear(le, i):
            continue
        if a[0] == 'eqk' and v and a[2] == 0:
            return i, sz[1]
        if a[0] == 'le' and (d[i] == 1 and not v and a[2] == -1 or d[i] == -1 and v and a[2] == 0):
            return i, sz[1]
    return None


def sweep(le):
    """What a loop event runs over completely: ('iter', container value, element terms) for an induction
    variable from 0 to the size, ('drain', location, None) for popping until nothing is left."""
    if le.a['exit'] != 'cond' and not le.a.get('xfacts'):
        return None
    L, xf = le.a['loop'], le.a['xfacts']
    if le.a['exit'] == 'cond':
        r = None
        for a in le.a['alts']:
            cs = {(e.a['cont'], x[1]) for e in flat(a.events) if e.kind == 'elem' for x in e.a['val'][2:3]
                  if isinstance(x, tuple) and x[0] in ('x', 'sx', 'n') and linear(le, x[1])
                  and test(xf, atom_eqv(x[1], size(e.a['cont']))) is True}
            cs |= {(e.a['old'], e.a['args'][0]) for e in flat(a.events) if e.kind == 'cop' and e.a['op'] in ('index', 'at') and e.a['args']
                   and e.a['old'][0] == 'S' and linear(le, e.a['args'][0]) and test(xf, atom_lt(e.a['args'][0], size(e.a['old']))) is False}
            r = cs if r is None else r & cs
        if r:
            c, i = next(iter(r))
            return ('iter', c, i)
    c = covered(le)
    if c and le.a['exit'] == 'cond':
        return ('iter', c[1], c[0])
    locs = None
    for a in le.a['alts']:
        pops = {}
        for e in flat(a.events):
            if e.kind == 'cop' and e.a['op'] in ('pop_back', 'pop_front'):
                pops[e.a['loc']] = pops.get(e.a['loc'], 0) + 1
        one = {l for l, n in pops.items() if n == 1}
        locs = one if locs is None else locs & one
    for l in locs or ():
        v = le.a['xst'].mem.get(l[0])
        if v is None:
            continue
        for p in l[1]:
            v = get(xf, v, p)
        if test(xf, atom_eq0(size(v))) is True:
            return ('drain', l, None)
    return None


def is_elem(t, cont, iv):
    """Is t the element of the container value cont at the induction variable iv?"""
    for k in ('x', 'sx', 'n', 'k'):
        if k == 'k':
            if t == get({}, cont, ('k', ('key', unbase(cont), iv))):
                return True
        elif t == get({}, cont, (k, iv)):
            return True
    return False


def unbase(v):
    while v[0] == 'M':
        v = v[1]
    return v


def pointee(v):
    """t if v is the address of *t (a smart pointer's value used as an address), else v."""
    if v and v[0] == 'ptr' and v[1][0][0] == 'd' and not v[1][1]:
        return v[1][0][1]
    return v


def popped(e):
    """Value of the element that a pop event removes; of an element that was moved from, what it was before."""
    old = e.a['old']
    if e.a['op'] == 'pop_front':
        ix = C(0)
    elif e.a['op'] in ('pop_back', 'pop'):
        ix = sub(size(old), C(1))
    else:
        return None
    v = get(e.facts, old, ('x', ix))
    gone = lambda x: x in (('S', ()), C(0), ('O', None, ()))
    while v[0] == 'O' and v[1] is not None and v[2] and all(gone(x) for _, x in v[2]):
        v = v[1]
    if gone(v):
        seq = old
        while seq[0] == 'S' and len(seq[1]) == 1 and seq[1][0][0] == 'b':
            seq = seq[1][0][1]
        if seq[0] == 'O' and seq[1] is not None and all(k == ('x', ix) for k, _ in seq[2]):
            v = get(e.facts, seq[1], ('x', ix))
    return v


def nonzero(facts, t):
    """Is t known not to be zero, if what is known to be zero is left out of sums?  None if nothing is known."""
    k = test(facts, atom_eq0(t))
    if k is not None:
        return not k
    from interp import renorm_atom
    own = set(lin(t)[1])
    zeros = [a for a, w in facts.items() if w and (a[0] == 'eqk' or a[0] == 'le' and a[2] == 0 and all(c > 0 for _, c in a[1]))]       # sums of sizes that are at most zero are zero
    for a, w in list(facts.items()):
        xs = {x for x, _ in a[1]} if a[0] in ('le', 'eqk') else set()
        if len(xs) > len(own) and own <= xs:
            for z in zeros:
                if {x for x, _ in z[1]} <= xs - own:
                    for sg in (1, -1):
                        d = dict(a[1])
                        for x, c in z[1]:
                            d[x] = d.get(x, 0) - sg * c
                        items = tuple((x, c) for x, c in a[1] if d[x])
                        items = tuple((x, d[x]) for x, _ in items)
                        if len(items) >= len(xs):
                            continue
                        b = renorm_atom((a[0], items, a[2] - sg * z[2]))
                        f = dict(facts)
                        if b[0] == 'not':
                            f[b[1]] = not w
                        elif b[0] != 'const':
                            f[b] = w
                        k = test(f, atom_eq0(t))
                        if k is not None:
                            return not k
    return None


def elem_test(le, alt):
    """(container key, predicate telling whether a term is the element that this iteration handles), for a
    loop that runs over a whole container; None otherwise."""
    sw = sweep(le)
    if sw is None:
        return None
    kind, c, iv = sw
    if kind == 'iter':
        return ('val', c), lambda t: is_elem(pointee(t), c, iv) or is_elem(t, c, iv)
    vals = [popped(e) for e in flat(alt.events) if e.kind == 'cop' and e.a['op'] in ('pop_back', 'pop_front') and e.a['loc'] == c]
    return ('loc', c), lambda t: t in vals or pointee(t) in vals


def loops(evs):
    """Every loop event, outermost first."""
    for e in evs:
        if e.kind == 'loop':
            yield e
            for a in e.a['alts']:
                yield from loops(a.events)


def each_once(paths, contpred, act, whole=None):
    """On every path: exactly one loop (or none but an equivalent) runs over a whole container satisfying
    contpred(key) and does act(event, elemtest) exactly once in every iteration, and act happens nowhere
    else; whole tells events that do it to all of them at once.  Returns (ok, reason)."""
    for p in paths:
        if p.kind != 'ret':
            continue
        n = 0
        for le in p.events:
            if le.kind != 'loop':
                continue
            hit = False
            for a in le.a['alts']:
                et = elem_test(le, a)
                if et and contpred(et[0], le):
                    c = count(a.events, lambda e: act(e, et[1]))
                    if c == {0}:
                        if hit:
                            return False, 'an iteration skips it'
                        continue
                    hit = True
                    if c != {1}:
                        return False, 'an iteration does it %s times' % sorted(c)
            if hit:
                for a in le.a['alts']:
                    et = elem_test(le, a)
                    if not et or count(a.events, lambda e: act(e, et[1])) != {1}:
                        return False, 'an iteration skips it'
                n += 1
        n += sum(1 for e in p.events if whole and whole(e, p))
        if n != 1:
            return False, 'a path runs over all of them %d times' % n
    return True, ''


def allevs(paths):
    for p in paths:
        yield from flat(p.events)


# -------------------------------------------------------------------- patterns
def tname(t):
    while t and t['k'] in ('lref', 'rref', 'ptr') and isinstance(t.get('to'), dict):
        t = t['to']
    return (t or {}).get('s', '')


def short(q):
    """Qualified name without template arguments."""
    out, d = '', 0
    for ch in q or '':
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out += ch
    return out


def calls(ev, q, inl=None):
    return ev.kind == 'call' and short(ev.a['q']) == q


def fieldof(loc):
    """(base location, field) if loc ends in a plain member."""
    if loc and loc[1] and isinstance(loc[1][-1], str):
        return (loc[0], loc[1][:-1]), loc[1][-1]
    return None


def locval(loc):
    """The value that an untouched location has when a function is entered."""
    root, path = loc
    if root[0] == 'o':
        v = ('sym', root[1])
    elif root[0] == 'd':
        v = ('deref', root[1])
    elif root[0] == 'r':
        v = root[1]
    elif root[0] == 'g':
        v = ('glob', root[1])
    else:
        return None
    for p in path:
        v = ('fld', v, p)
    return v


MUT = {'push_back', 'push_front', 'pop_back', 'pop_front', 'clear', 'insert', 'insert_all', 'erase', 'append',
       'insert_present', 'sort', 'resize', 'assign', 'swap', 'reverse'}


def mutates(e):
    """Location an event writes to, else None."""
    if e.kind == 'w':
        return e.a['loc']
    if e.kind == 'cop' and (e.a['op'] in MUT or e.a.get('new') not in (None, e.a.get('old'))):
        return e.a['loc']
    if e.kind == 'moved':
        return e.a.get('loc')
    return None


# -------------------------------------------------------------------- evaluation under hypotheses
def reval(facts, t):
    """t with every selection evaluated anew under the facts."""
    memo = {}
    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        k = id(x)
        if k in memo:
            return memo[k][1]
        if x[0] == 'fld' and len(x) == 3:
            r = get(facts, go(x[1]), go(x[2]))
        else:
            ys = tuple(go(y) for y in x)
            r = renorm(ys) if ys != x else x
        memo[k] = (x, r)
        return r
    return go(t)


def has_key(facts, m, key):
    """Does the map value m contain key?  True, False or None."""
    if m[0] == 'M':
        for k, pres, val in reversed(m[2]):
            r = key_eq(facts, k, key)
            if r is True:
                return pres
            if r is None:
                return None
        m = m[1]
    if m == EMPTY or m[0] == 'undef':
        return False
    return decide(facts, ('has', m, key))


def consistent(facts):
    """No atom of the facts contradicts the others (as far as maps and decided comparisons go)."""
    for a, v in facts.items():
        if a[0] == 'has':
            m = reval(facts, a[1])
            rest = facts if m != a[1] else {b: w for b, w in facts.items() if b != a}
            r = has_key(rest, m, reval(facts, a[2]))
            if r is not None and r != v:
                return False
    return True


def rename(t, m):
    """subst for facts (a dict) or terms."""
    if isinstance(t, dict):
        out = {}
        for a, v in t.items():
            b = I_.renorm_atom(subst(a, m))
            if b[0] == 'const':
                if b[1] != v:
                    return None
                continue
            if b[0] == 'not':
                b, v = b[1], not v
            if out.get(b, v) != v:
                return None
            out[b] = v
        return out
    return subst(t, m)
