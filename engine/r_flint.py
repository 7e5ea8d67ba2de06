"""Rules about objects of the number theory library and hand-made heap objects: each is set up before use and
released once (C19), and results own their numbers (C18).  Typestate over the events of abstract runs."""
import re
from lib import *
import models

INIT = re.compile(r'^(?!nmod_init$)(\w+_init\d?(_\w+)?|flint_randinit)$')
CLEAR = re.compile(r'^(\w+_clear|flint_randclear|_fmpz_demote|flint_rand_clear)$')
STR = re.compile(r'^\w+_get_str(_pretty)?$')


def contains(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(contains(y, x) for y in t)


def pairs_with(c):
    """Library type of a clear or init function, up to spelling."""
    q = c.replace('flint_rand_clear', 'flint_randclear')
    q = re.sub(r'flint_rand(init|clear)$', 'flint_rand', q)
    return re.sub(r'_(init\d?(_\w+)?|clear)$', '', q)


class Sim:
    """The typestate automaton of one path.  A state is a frozenset of (key, value) with keys
    ('h', loc)   status of an object of the library: U not set up, (I, type) set up, D released
    ('p', root)  a heap object: A allocated, F freed, O owned by something else
    ('o', root)  the container that owns a heap object
    ('c', loc)   a container of such objects: E empty, U not set up, L all set up, C all released but not
                 deleted, X all gone
    ('s',)       number of texts the library allocated that are not freed yet"""

    def __init__(s, ctx, path, it, fn, rule, own=None, handles=()):
        s.ctx, s.path, s.it, s.fn, s.rule = ctx, path, it, fn, rule
        s.own = own                     # 'ctor', 'dtor' or None: what happens to this
        s.handles = set(handles)
        s.errs = {}
        s.seen = {}
        s.elem, s.vals = {}, {}
        for e in flat(path.events):
            if e.kind == 'elem':
                s.elem[e.a['val']] = e.a['cloc']
                s.elem[e.a['loc']] = e.a['cloc']
            if e.kind == 'cop' and e.a['op'] in ('index', 'at', 'front', 'back') and e.a['args']:
                i = e.a['args'][0]
                s.elem[get(e.facts, e.a['old'], ('x', i))] = e.a['loc']
                s.elem[(e.a['loc'][0], e.a['loc'][1] + (('x', i),))] = e.a['loc']
            if e.kind == 'cop':
                for v in (e.a.get('old'), e.a.get('new')):
                    if v is not None and v[0] in ('S', 'fld') and v[1]:
                        s.vals.setdefault(v, e.a['loc'])
        for le in loops(path.events):
            for root, v in le.a['xst'].mem.items():
                if root[0] == 'v' and v[0] == 'S' and v[1]:
                    s.vals.setdefault(v, (root, ()))
        for loc in handles:
            s.vals.setdefault(locval(loc), loc)

    def home(s, v):
        """The container that the value v is an element of."""
        if v in s.elem:
            return s.elem[v]
        if v[0] == 'fld' and isinstance(v[2], tuple) and v[2][0] in ('x', 'sx', 'n'):
            return s.vals.get(v[1])
        if len(v) == 2 and isinstance(v[1], tuple) and v[1] and isinstance(v[1][-1], tuple) and v[1][-1][0] == 'x' and v[0][0] != 'h':
            c = (v[0], v[1][:-1])
            if c in s.handles or c in s.vals.values():
                return c
        return None

    def err(s, e, what, why):
        k = (what, e.fn['q'] if hasattr(e, 'fn') and isinstance(e.fn, dict) else s.fn['q'])
        s.errs.setdefault(k, (e, why))

    # ------------------------------------------------------------ keys
    def local(s, loc):
        return loc[0][0] in ('v', 't') or loc[0][0] == 'h'

    def default(s, loc):
        r = loc[0]
        if r[0] in ('v', 'h', 't'):
            return None
        if r == ('o', 'this') and s.own == 'ctor' and len(loc[1]) >= 1:
            return 'U'
        return 'B'                      # set up by somebody else

    def obj(s, st, loc):
        v = st.get(('h', loc))
        if v is None:
            v = s.default(loc)
            if v == 'B':
                v = ('I', None)
        return v

    def cont(s, st, loc):
        v = st.get(('c', loc))
        if v is not None:
            return v
        if s.default(loc) in (None, 'U'):
            return 'E'
        return 'L'

    def canon(s, st, loc):
        """The object at loc, followed through copies of C structures and decays of arrays."""
        root, path = loc
        while path and path[-1] == ('x', C(0)) and ('h', (root, path)) not in st:
            path = path[:-1]
        loc = (root, path)
        n = 0
        while ('a', loc) in st and n < 20:
            loc = st[('a', loc)]
            n += 1
        return loc

    # ------------------------------------------------------------ steps
    def step(s, fz, e, el=None):
        st = dict(fz)
        k = e.kind
        if k == 'ext' and e.a.get('flint'):
            s.flint(st, e, el)
        elif k == 'new':
            r = e.a['loc'][0]
            s.leave(st, r, e)
            st[('p', r)] = 'A'
            st.pop(('h', e.a['loc']), None)
        elif k == 'delete':
            s.delete(st, e, el)
        elif k == 'bits':
            src = e.a['src']
            if src is not None:
                src = s.canon(st, src)
                if ('h', src) in st:
                    st[('a', e.a['loc'])] = src
                    st[('last',)] = (e.a['val'], src)
            elif st.get(('last',), (None,))[0] == e.a['val']:
                st[('a', e.a['loc'])] = st[('last',)][1]
        elif k == 'cop':
            s.cop(st, e, el)
        elif k == 'w':
            s.write(st, e)
        elif k == 'moved':
            l = e.a['loc']
            if l is not None and ('c', l) in st:
                st[('moved',)] = (l, e.a['val'])
        elif k in ('ctor', 'ext', 'call') and not e.a.get('inl'):
            for v in tuple(e.a.get('args') or ()) + tuple(e.a.get('locs') or ()):
                s.escape(st, v)
        return (frozenset(st.items()),)

    def escape(s, st, v):
        for key in [k for k in st if k[0] == 'p' and st[k] == 'A']:
            if contains(v, ('ptr', (key[1], ()))):
                st[key] = 'O'

    def leave(s, st, r, e):
        """The heap object r is no longer reachable by its own name."""
        p = st.pop(('p', r), None)
        o = st.pop(('o', r), None)
        h = st.pop(('h', (r, ())), None)
        if p == 'A' and o is None:
            s.err(e, 'a heap object is lost', 'the object allocated at this place in an earlier pass was neither deleted nor stored')
        if o is not None and p != 'F':
            if h is None:
                if s.cont(st, o) == 'L':
                    s.err(e, 'an object is stored without being initialised', 'the container holds it together with initialised ones')
                else:
                    st[('c', o)] = 'U'
            elif h == 'D':
                s.err(e, 'a released object stays in its container', 'the element was cleared, but not removed')

    def flint(s, st, e, el):
        q, locs, args, modes = e.a['q'], e.a['locs'], e.a['args'], e.a.get('modes') or ()
        if q == 'flint_free':
            v = args[0] if args else None
            if v and v[0] == 'app' and (v[1] == 'fmpz_text' or STR.match(str(v[1]))):
                n = st.get(('s',), 0)
                s.ob(e, 'a text of the library is freed once')
                if n <= 0:
                    s.err(e, 'a text is freed twice', '')
                st[('s',)] = n - 1
            return
        init, clear = bool(INIT.match(q)), bool(CLEAR.match(q))
        for i, l in reversed(list(enumerate(locs))):
            m = modes[i] if i < len(modes) else 'v'
            if m not in ('p', 'cp', 'r', 'c'):
                continue
            first = i == 0
            if el is not None and s.iselem(el, l):
                s.elemuse(st, e, q, init and first, clear and first)
                continue
            loc = l[1] if l[0] == 'ptr' else None
            if loc is None:
                c = s.home(l)
                if c is not None:
                    s.element(st, e, q, c, init and first, clear and first)
                elif l[0] not in ('c', 'iv') and s.borrowed(l) and clear and first and not (s.own == 'dtor'):
                    s.err(e, 'an object of somebody else is released', show(l))
                continue
            loc = s.canon(st, loc)
            c = s.home(loc)
            if c is not None and loc[0][0] != 'h':
                s.element(st, e, q, c, init and first, clear and first)
                continue
            cur = s.obj(st, loc)
            s.ob(e, '%s on %s' % (q, s.name(loc)))
            if init and first:
                if cur and cur[0] == 'I':
                    s.err(e, 'an object is initialised again without being released', '%s: %s' % (q, s.name(loc)))
                st[('h', loc)] = ('I', pairs_with(q))
                for a in [a for a in st if a[0] == 'a' and a[1] == loc]:
                    del st[a]
            elif clear and first:
                if cur == 'D':
                    s.err(e, 'an object is released twice', '%s: %s' % (q, s.name(loc)))
                elif cur == 'U' or cur is None and args[i] == UNDEF:
                    s.err(e, 'an object is released that was never initialised', '%s: %s' % (q, s.name(loc)))
                elif cur and cur[0] == 'I':
                    if cur[1] not in (None, pairs_with(q)):
                        s.err(e, 'an object is released by the function of another type', '%s: %s' % (q, s.name(loc)))
                if cur is not None or args[i] == UNDEF:
                    st[('h', loc)] = 'D'
            else:
                if s.maybe_self(st, e, loc):
                    s.err(e, 'an object is used after its release', '%s: %s may be the object itself' % (q, s.name(loc)))
                if cur == 'D':
                    s.err(e, 'an object is used after its release', '%s: %s' % (q, s.name(loc)))
                elif cur == 'U' or cur is None and args[i] == UNDEF:
                    s.err(e, 'an object is used before it is initialised', '%s: %s' % (q, s.name(loc)))
        if STR.match(q) and (not q.startswith('fmpz_') or args[0] == C(0)):
            s.ob(e, 'a text of the library is freed once')
            st[('s',)] = min(st.get(('s',), 0) + 1, 3)

    def maybe_self(s, st, e, loc):
        """Is loc a member of a parameter that may be this object, whose own member is released?"""
        r, p = loc
        if r[0] != 'o' or not str(r[1]).startswith('arg:') or s.fn.get('ctor'):
            return False
        ps = [x for x in s.fn['params'] if 'arg:' + x['n'] == r[1]]
        if not ps or tname(ps[0]['t']).replace('const ', '') != (s.fn.get('rec') or ''):
            return False
        v = st.get(('h', (('o', 'this'), p)))
        return v == 'D' and test(e.facts, atom_eqv(('ptr', (('o', 'this'), ())), ('ptr', (r, ())))) is not False

    def borrowed(s, t):
        return t[0] in ('fld', 'deref', 'sym') and not t[0] == 'c'

    def name(s, loc):
        r, p = loc
        n = {'o': lambda: str(r[1]), 'v': lambda: s.it.varname.get(r[1], 'a local object') if hasattr(s.it, 'varname') else 'a local object',
             'h': lambda: 'a heap object', 'd': lambda: 'an object reached through a pointer'}.get(r[0], lambda: 'an object')()
        return n + ''.join('.' + (x if isinstance(x, str) else '[]') for x in p)

    def ob(s, e, what):
        s.seen.setdefault((e.where(), what), e)

    # ------------------------------------------------------------ elements of containers
    def iselem(s, el, v):
        if v[0] == 'ptr' and v[1] == el.get('loc'):
            return True
        return el['test'](v)

    def elemuse(s, st, e, q, init, clear):
        cur = st[('e',)]
        s.ob(e, '%s on every element' % q)
        if init:
            if cur == 'I':
                s.err(e, 'an object is initialised again without being released', 'elements of a container')
            st[('e',)] = 'I'
        elif clear:
            if cur != 'I':
                s.err(e, 'an object is released twice' if cur in 'CX' else 'an object is released that was never initialised', 'elements of a container')
            st[('e',)] = 'C'
        elif cur != 'I':
            s.err(e, 'an object is used after its release' if cur in 'CX' else 'an object is used before it is initialised', 'elements of a container')

    def element(s, st, e, q, c, init, clear):
        """Use of a single element of the container c."""
        cur = s.cont(st, c)
        s.ob(e, '%s on an element of %s' % (q, s.name(c)))
        if clear:
            s.err(e, 'only some elements of a container are released', '%s: %s' % (q, s.name(c)))
        elif init:
            if cur == 'L':
                s.err(e, 'an object is initialised again without being released', 'an element of %s' % s.name(c))
        elif cur in 'XC':
            s.err(e, 'an object is used after its release', 'an element of %s' % s.name(c))
        elif cur == 'U':
            s.err(e, 'an object is used before it is initialised', 'an element of %s' % s.name(c))

    def delete(s, st, e, el):
        v = e.a['val']
        s.ob(e, 'delete')
        if el is not None and s.iselem(el, v):
            if st[('e',)] == 'I':
                s.err(e, 'an object is deleted without being released', 'elements of a container')
            if st[('e',)] == 'X':
                s.err(e, 'a heap object is deleted twice', 'elements of a container')
            st[('e',)] = 'X'
            return
        if v[0] == 'ptr' and v[1][0][0] == 'h' and not v[1][1]:
            r = v[1][0]
            if st.get(('p', r)) == 'F':
                s.err(e, 'a heap object is deleted twice', '')
            h = st.get(('h', (r, ())))
            if h and h[0] == 'I':
                s.err(e, 'an object is deleted without being released', '')
            if ('p', r) in st:
                st[('p', r)] = 'F'
                if ('o', r) in st:
                    st[('c', st.pop(('o', r)))] = 'X'
            return
        if s.home(v) is not None:
            s.err(e, 'only some elements of a container are released', 'delete of an element of %s' % s.name(s.home(v)))

    def holds(s, e):
        """Does the container operation add a heap object?  Its root."""
        for a in e.a['args'] or ():
            if isinstance(a, tuple) and a and a[0] == 'ptr' and a[1][0][0] == 'h' and not a[1][1]:
                return a[1][0]
        return None

    def cop(s, st, e, el):
        op, loc = e.a['op'], e.a['loc']
        r = s.holds(e)
        if r is not None and ('p', r) in st and op in MUT:
            cur = s.cont(st, loc)
            if cur in 'XC':
                s.err(e, 'released elements stay in a container that is filled again', s.name(loc))
            st[('o', r)] = loc
            st[('c', loc)] = 'L'
            s.ob(e, '%s of an object into %s' % (op, s.name(loc)))
            h = st.get(('h', (r, ())))
            if h == 'D':
                s.err(e, 'a released object is stored', s.name(loc))
            return
        if not s.tracked(st, loc):
            return
        if op in ('clear',) or op in ('resize', 'assign', 'erase') and s.cont(st, loc) != 'E':
            cur = s.cont(st, loc)
            s.flush(st, loc, e)
            cur = s.cont(st, loc)
            if cur in ('L', 'C'):
                s.err(e, 'elements are dropped without being released' if cur == 'L' else 'the elements of a container are not deleted', s.name(loc))
            st[('c', loc)] = 'E'
        elif op in ('pop_back', 'pop_front') and el is None and s.cont(st, loc) == 'L':
            s.err(e, 'elements are dropped without being released', s.name(loc))

    def tracked(s, st, loc):
        return ('c', loc) in st or loc in s.handles

    def flush(s, st, loc, e):
        for k in [k for k in st if k[0] == 'o' and st[k] == loc]:
            s.leave(st, k[1], e)

    def write(s, st, e):
        loc, v = e.a['loc'], e.a['val']
        if re.match(r'^\w+_swap$', str(e.a.get('op'))):
            return
        if st.get(('moved',), (None, None))[1] is not None and st[('moved',)][1] == v:
            src = st.pop(('moved',))[0]
            if src != loc:
                st[('c', loc)] = s.cont(st, src)
                st[('c', src)] = 'E'
                for k in [k for k in st if k[0] == 'o' and st[k] == src]:
                    st[k] = loc
            return
        # an object is overwritten other than by the library
        for key in [k for k in st if k[0] == 'h'] + [('h', h) for h in s.handles]:
            h = key[1]
            if loc[0] == h[0] and loc[1][:len(h[1])] == h[1] and not is_lib(e.a.get('op')) and h[0][0] != 'v' and e.a.get('op') != 'init':
                s.err(e, 'an object of the library is overwritten', '%s is written bit by bit' % s.name(h))
        if v[0] == 'ptr' and v[1][0][0] == 'h' and loc[0][0] not in ('v', 't'):
            s.escape(st, v)

    # ------------------------------------------------------------ loops
    def onloop(s, cur, le):
        alts = le.a['alts']
        if not alts:
            return None
        hit = None
        ets = []
        for a in alts:
            et = elem_test(le, a)
            if et is None:
                return None
            elocs, clocs = [], set()
            if et[0][0] == 'loc':
                clocs = {et[0][1]}
            for e in flat(a.events):
                if e.kind == 'elem' and et[1](e.a['val']):
                    clocs.add(e.a['cloc'])
                    elocs.append(e.a['loc'])
                if e.kind == 'cop' and e.a['op'] in ('index', 'at') and e.a['args'] and et[1](get(e.facts, e.a['old'], ('x', e.a['args'][0]))):
                    clocs.add(e.a['loc'])
                    elocs.append((e.a['loc'][0], e.a['loc'][1] + (('x', e.a['args'][0]),)))
                v = e.a['val'] if e.kind == 'delete' else e.a['locs'][0] if e.kind == 'ext' and e.a.get('flint') and e.a['locs'] else None
                if v is not None and et[1](v) and s.home(v) is not None:
                    clocs.add(s.home(v))
            el = {'test': et[1], 'loc': elocs[0] if elocs else None, 'cloc': clocs}
            ets.append((a, el))
            for e in flat(a.events):
                if e.kind == 'delete' and s.iselem(el, e.a['val']) or e.kind == 'ext' and e.a.get('flint') and \
                        (CLEAR.match(e.a['q']) or INIT.match(e.a['q'])) and e.a['locs'] and s.iselem(el, e.a['locs'][0]):
                    hit = clocs
        if not hit or len(hit) != 1:
            return None
        loc = next(iter(hit))
        out = set()
        for fz in cur:
            st0 = dict(fz)
            s.flush(st0, loc, le)
            c = s.cont(st0, loc)
            start = {'L': 'I', 'E': 'I', 'U': 'U', 'X': 'X', 'C': 'C'}[c]
            H = {0: {frozenset(st0.items())}}
            todo, ends, res = [0], set(), set()
            while todo:
                h = todo.pop()
                for a, el in ets:
                    if a.src != h:
                        continue
                    begin = set()
                    for x in H[h]:
                        d = dict(x)
                        d[('e',)] = start
                        begin.add(frozenset(d.items()))
                    got = automaton(a.events, begin, lambda x, e, el=el: s.step(x, e, el), s.onloop)
                    fin = set()
                    for x in got:
                        d = dict(x)
                        ends.add(d.pop(('e',)))
                        fin.add(frozenset(d.items()))
                    D = H.setdefault(a.dst, set())
                    if not fin <= D:
                        D |= fin
                        todo.append(a.dst)
            if len(ends) > 1:
                s.err(le, 'only some elements of a container are released', s.name(loc))
            for x in H.get(le.a['head'], ()):
                d = dict(x)
                end = next(iter(ends)) if ends else start
                drain = any(e.kind == 'cop' and e.a['loc'] == loc and e.a['op'] in ('pop_back', 'pop_front') for a in alts for e in flat(a.events))
                if end == 'C' and not s.raw(loc):
                    end = 'X'
                if drain and end == 'C':
                    s.err(le, 'the elements of a container are not deleted', s.name(loc))
                d[('c', loc)] = 'E' if drain and end in 'CX' else {'I': 'L', 'U': 'U', 'C': 'C', 'X': 'X'}[end]
                out.add(frozenset(d.items()))
        return out

    def raw(s, loc):
        t = None
        r, p = loc
        if r[0] == 'v':
            t = s.it.vartype.get(r[1])
        elif p and isinstance(p[-1], str):
            for rec in s.ctx.p.records.values():
                for f in rec['fields']:
                    if f['n'] == p[-1] and rec['q'] == short(s.fn.get('rec') or ''):
                        t = f['t']
        a = (t or {}).get('args') or [None]
        return bool(a[0]) and a[0].get('k') == 'ptr'

    # ------------------------------------------------------------ the end of the function
    def end(s, fz, members, conts, ret):
        st = dict(fz)
        e = s.path_end
        for k in [k for k in st if k[0] == 'o']:
            s.leave(st, k[1], e)
        if st.get(('s',), 0) > 0 and not (ret and any(contains(ret, x) for x in (ret,) if x[0] == 'app')):
            s.err(e, 'a text of the library is never freed', 'on a path to the end of %s' % s.fn['q'])
        for k, v in sorted(st.items(), key=repr):
            if k[0] == 'h' and s.local(k[1]) and v[0] == 'I' and k[1][0][0] != 'h':
                if not s.returned(st, k[1], ret):
                    s.err(e, 'an object is never released', '%s on a path to the end of %s' % (s.name(k[1]), s.fn['q']))
            if k[0] == 'p' and v == 'A' and not contains(ret, ('ptr', (k[1], ()))):
                s.err(e, 'a heap object is lost', 'on a path to the end of %s' % s.fn['q'])
            if k[0] == 'c' and v == 'C':
                s.err(e, 'the elements of a container are not deleted', s.name(k[1]))
            if k[0] == 'c' and v in ('L', 'U') and s.local(k[1]) and not contains(ret, s.final(k[1])):
                s.err(e, 'the elements of a container are never released', '%s on a path to the end of %s' % (s.name(k[1]), s.fn['q']))
        for k, v in sorted(st.items(), key=repr):
            if k[0] == 'h' and not s.local(k[1]) and v == 'D' and not (k[1][0] == ('o', 'this') and (s.own == 'dtor' or k[1] in members)):
                s.err(e, 'an object of somebody else is released', s.name(k[1]))
        for loc in members:
            v = s.obj(st, loc)
            if s.own == 'dtor':
                if v and v[0] == 'I':
                    s.err(e, 'an object is never released', '%s when its owner is destroyed' % s.name(loc))
            elif not (v and v[0] == 'I'):
                s.err(e, 'a member is left uninitialised' if s.own == 'ctor' else 'a member is left released', s.name(loc))
        for loc in conts:
            v = s.cont(st, loc)
            if s.own == 'dtor':
                if v in ('L', 'U'):
                    s.err(e, 'the elements of a container are never released', '%s when its owner is destroyed' % s.name(loc))
            elif v in ('X', 'U'):
                s.err(e, 'released elements stay in a container' if v == 'X' else 'an object is stored without being initialised', s.name(loc))

    def final(s, loc):
        return s.it.pathval(s.path.st, loc[0], loc[1]) if loc[0] in s.path.st.mem else ('none',)

    def returned(s, st, loc, ret):
        if ret is None:
            return False
        if contains(ret, ('ptr', loc)):
            return True
        rt = s.fn.get('rt')
        return bool(rt) and I_.foreign(rt) and st.get(('last',), (None, None))[1] == loc

    def run(s, members, conts):
        class End:
            pass
        s.path_end = s.fn
        out = automaton(s.path.events, {frozenset()}, s.step, s.onloop)
        if s.path.kind == 'ret':
            for fz in out:
                s.end(fz, members, conts, s.path.val)


def is_lib(op):
    return isinstance(op, str) and bool(models.is_flint(op))


# ------------------------------------------------------------------------------------------ which functions
def uses_lib(f):
    for part in ('body', 'inits'):
        for n in walk(f.get(part) or []):
            c = n.get('callee')
            if isinstance(c, dict) and models.is_flint(c.get('q', '')) and not c['q'].startswith('n_'):
                yield 'lib', c['q'], n
            if n.get('k') in ('new', 'delete'):
                yield n['k'], n['k'], n


def handle_arrays(t):
    """Is t the array type of an object of the library?"""
    if not t or t['k'] != 'array':
        return False
    to = t['to']
    return to.get('s') == 'long' or I_.foreign(to)


def pointers_to_lib(t):
    """A container whose elements are (pointers to) structures of the library."""
    a = (t or {}).get('args') or []
    if not a or not isinstance(a[0], dict) or not str((t or {}).get('rec', '')).startswith('std::'):
        return False
    x = a[0]
    return x.get('k') == 'ptr' and I_.foreign(x.get('to')) or I_.foreign(x)


def inits_member(ctx, rec, name):
    """Do the constructors of the class pass the member to an init function of the library anywhere?"""
    for f in ctx.p.functions.values():
        if f.get('rec') != rec:
            continue
        for n in walk(f.get('body') or []):
            c = n.get('callee')
            if isinstance(c, dict) and INIT.match(c.get('q', '')) and models.is_flint(c['q']) and n.get('c'):
                if any(m.get('k') == 'member' and m.get('n') == name for m in walk(n['c'][0])):
                    return True
    return False


def owners(ctx):
    """{record: (members that are objects of the library, members that are containers of such)}"""
    out = {}
    for q, r in ctx.p.records.items():
        hs = [f['n'] for f in r['fields'] if handle_arrays(f['t'])
              or f['t'].get('rec') and I_.foreign(f['t'])]
        hs = [n for n in hs if next(f for f in r['fields'] if f['n'] == n)['t'].get('to', {}).get('s') != 'long' or inits_member(ctx, q, n)
              or clears_member(ctx, q, n)]
        cs = [f['n'] for f in r['fields'] if pointers_to_lib(f['t'])]
        if hs or cs:
            out[q] = (hs, cs)
    return out


def clears_member(ctx, rec, name):
    for f in ctx.p.functions.values():
        if f.get('rec') == rec:
            for n in walk(f.get('body') or []):
                c = n.get('callee')
                if isinstance(c, dict) and models.is_flint(c.get('q', '')) and any(
                        m.get('k') == 'member' and m.get('n') == name for a in n.get('c') or [] if a for m in walk(a)):
                    return True
    return False


def handle_param(p):
    t = p['t']
    while t and t['k'] in ('lref', 'rref', 'ptr') and isinstance(t.get('to'), dict):
        if t['k'] == 'ptr' and (I_.foreign(t['to']) or t['to'].get('s', '').replace('const ', '') == 'long'):
            return True
        t = t['to']
    return handle_arrays(t) or I_.foreign(t)


def entries_of(ctx):
    """The functions to run: every one that (with what it calls) uses the library or the heap by hand, unless it
    is a helper that only makes sense inside its callers."""
    own = owners(ctx)
    direct = {f['fn'] for f in ctx.p.functions.values() if f.get('body') is not None and any(True for _ in uses_lib(f))}
    direct |= {f['fn'] for f in ctx.p.functions.values() if f.get('body') is not None and f.get('rec') in own and not f.get('implicit')
               and (f.get('ctor') or f.get('dtor') or short(f['q']).endswith('::operator='))}
    g = ctx.callgraph()
    callers = {}
    for a, bs in g.items():
        for b in bs:
            callers.setdefault(b, set()).add(a)
    todo, need, out = list(direct), set(direct), []
    while todo:
        x = todo.pop()
        f = ctx.p.functions.get(x)
        if f is None:
            continue
        rt = f.get('rt')
        helper = bool(f.get('lambda')) or any(handle_param(p) for p in f['params']) or I_.foreign(rt) or \
            bool(rt) and rt['k'] == 'ptr' and I_.foreign(rt.get('to')) and any(k == 'new' for k, _, _ in uses_lib(f)) or \
            f.get('rec') in own and f.get('access') in ('private', 'protected') and not f.get('ctor') and not f.get('dtor')
        up = {c for c in callers.get(x, ()) if c != x and ctx.p.functions.get(c, {}).get('body') is not None}
        if helper and up and not (f.get('rec') in own and short(f['q']).endswith('::operator=')):
            for c in up:
                if c not in need:
                    need.add(c)
                    todo.append(c)
        else:
            out.append(f)
    return sorted(out, key=lambda f: f['fn']), direct


def simulate(ctx, rule, f, own):
    ps, it = ctx.run(f, tag='lib', opaque=None)
    hs, cs = own.get(f.get('rec'), ((), ()))
    me = ('o', 'this')
    kind = 'ctor' if f.get('ctor') else 'dtor' if f.get('dtor') else None
    mine = f.get('rec') in own and not f.get('static')
    members = [(me, (h,)) for h in hs] if mine else []
    conts = [(me, (c,)) for c in cs] if mine else []
    seen, errs = {}, {}
    for p in ps:
        s = Sim(ctx, p, it, f, rule, kind, members + conts)
        s.run(members, conts)
        seen.update(s.seen)
        for k, v in s.errs.items():
            errs.setdefault(k, v)
    name = f['q'] + ('(%s)' % ','.join(x['t']['s'] for x in f['params']) if f.get('ctor') else '')
    for (w, what), e in seen.items():
        ctx.ob(True, rule, '%s: %s' % (name, what), e, 'the object is set up and not yet released')
    for loc in members + conts:
        ctx.ob(True, rule, '%s: %s at the end' % (name, loc[1][-1]), f, 'set up by every constructor, released by the destructor')
    for (what, q), (e, why) in errs.items():
        ctx.ob(False, rule, '%s: %s (%s)' % (name, what, q), e, what, why)
    return bool(seen)


def c19(ctx):
    """Every function of the program that uses objects of the number theory library (FLINT) or allocates by hand is
    run abstractly with everything it calls.  Along each path a typestate automaton follows every local object,
    member, heap object and container of such objects: used only between its initialisation and its release,
    initialised and released alternately, and released at the end of the path unless it is returned or belongs
    to a longer living owner; constructors leave the members initialised, destructors release all of them, and
    containers are released by a complete pass over their elements.  Classes that own such objects have no
    generated copy operation in use."""
    own = owners(ctx)
    ctx.need(own, 'no class owns an object of the library')
    fs, direct = entries_of(ctx)
    done = 0
    for f in fs:
        if simulate(ctx, 'typestate', f, own):
            done += 1
    ran = ctx.reachable([f['fn'] for f in fs])
    for fn in direct:
        f = ctx.p.functions[fn]
        ctx.need(fn in ran or f.get('lambda'), 'the function %s was not reached' % f['q'])
    for rec in own:
        copies(ctx, 'no generated copies', rec)
    for rec, (hs, cs) in own.items():
        r = ctx.p.records[rec]
        has = any(m['kind'] == 'dtor' and m['userprov'] for m in r['methods'])
        ctx.ob(has, 'owner has a destructor', rec, '%s:%s' % (rel(r['file']), r['l']), 'the class releases what it owns', 'the class has no destructor')


def copies(ctx, rule, rec):
    r = ctx.p.records[rec]
    for m in r['methods']:
        if m['kind'] not in ('copyctor', 'movector', 'copyassign', 'moveassign'):
            continue
        bad = m['used'] and not m['userprov'] and not m['deleted']
        ctx.ob(not bad, rule, '%s %s' % (rec, m['kind']), '%s:%s' % (rel(r['file']), m.get('l', r['l'])),
               'an owner is not copied member by member', 'the generated %s copies the object of the library bit by bit' % m['kind'])


def c18(ctx):
    """A class of results that holds a number of the library is copied by operations of its own only: no generated
    copy or move is in use, the copy gets the value of the original through the library, into a number it has
    initialised itself, the original keeps its value, assignment to itself included, and each constructor
    initialises the number once and the destructor releases it once."""
    own = {rec: v for rec, v in owners(ctx).items() if v[0] and short(rec).startswith('HyCu::StoreData')}
    ctx.need(own, 'no class of results owns a number')
    for rec, (hs, cs) in own.items():
        copies(ctx, 'no generated copies', rec)
        r = ctx.p.records[rec]
        fs = [f for f in ctx.p.functions.values() if f.get('rec') == rec and f.get('body') is not None and (f.get('ctor') or f.get('dtor') or short(f['q']).endswith('::operator='))]
        ctx.need(any(f.get('ctor') for f in fs), 'no constructor of %s found' % rec)
        ctx.ob(any(f.get('dtor') and not f.get('implicit') for f in fs), 'releases its number', rec, '%s:%s' % (rel(r['file']), r['l']), 'the class has a destructor', 'it has none')
        for f in fs:
            if f.get('implicit'):
                continue
            simulate(ctx, 'own number', f, own)
            kind = next((m['kind'] for m in r['methods'] if m['fn'] == f['fn']), None)
            if kind in ('copyctor', 'copyassign', 'movector', 'moveassign'):
                value_copied(ctx, rec, f, hs, kind)
        for f in ctx.p.functions.values():
            if f.get('body') is None or f.get('implicit') or f in fs:
                continue
            ps = [i for i, p in enumerate(f['params']) if tname(p['t']).replace('const ', '').startswith((rec, rec.rsplit('::', 1)[0]))]
            if ps and f.get('rec') is None and 'operator' in f['q']:
                untouched(ctx, rec, f)


def value_copied(ctx, rec, f, hs, kind):
    ps, it = ctx.run(f, tag='lib')
    src = ('o', 'arg:' + f['params'][0]['n'])
    swap = kind.startswith('move')
    for p in ps:
        if p.kind != 'ret':
            ctx.ob(kind.endswith('assign'), 'copy has the value', '%s %s' % (rec, kind), f, 'copying a result succeeds', 'a path ends the program')
            continue
        for h in hs:
            v = it.pathval(p.st, ('o', 'this'), (h,)) if ('o', 'this') in p.st.mem else None
            orig = ('fld', ('sym', src[1]), h)
            same = test(p.facts, atom_eqv(('ptr', (('o', 'this'), ())), ('ptr', (src, ())))) is True
            if v is not None and v[0] == 'S' and len(v[1]) == 1:
                v = v[1][0][1]
            now = ('fld', ('sym', 'this'), h) if v is None else v
            ctx.ob(same or now == orig or number_of(now) == number_of(orig), 'copy has the value', '%s %s %s' % (rec, kind, h), f, 'the copy has the value of the original', 'it is %s' % show(now))
            sv = it.pathval(p.st, src, (h,)) if src in p.st.mem else None
            if not swap:
                ctx.ob(sv in (None, orig), 'original keeps its value', '%s %s %s' % (rec, kind, h), f, 'the original keeps its value', 'it becomes %s' % show(sv))


def number_of(v):
    while v and v[0] == 'fld' and v[2] == ('x', C(0)):
        v = v[1]
    return v


def untouched(ctx, rec, f):
    """Operators change only what they are given to change."""
    ps, it = ctx.run(f, tag='lib')
    for i, q in enumerate(f['params']):
        t = q['t']
        const = t['k'] == 'lref' and t['to'].get('const')
        if not const:
            continue
        src = ('o', 'arg:' + q['n'])
        bad = [e for e in allevs(ps) if mutates(e) and mutates(e)[0] == src]
        ctx.ob(not bad, 'operands keep their value', '%s %s' % (f['q'], q['n']), bad[0] if bad else f, 'a constant operand keeps its value', 'it is written')


RULES = {'C18': c18, 'C19': c19}
