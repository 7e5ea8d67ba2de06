"""Abstract interpreter over the exported syntax trees: a path-sensitive (trace-partitioned) dataflow
analysis.  An abstract state is a map from abstract locations to value numbers, the set of guards known
to hold, the mutexes held and the sequence of observable events; loops are brought to a fixpoint by
widening (induction variables, append-only sequences, otherwise an opaque value), branches that nobody
can tell apart are joined, calls into the repository are analysed in context, virtual calls by class
hierarchy.  Nothing is executed and no solver is used."""
import facts as F_
from facts import Broken, rel
from terms import *
import models

KEEP = 8
MAXSTATES = 6000
MAXDEPTH = 40


def shown(k, v):
    if k in ('loc', 'm', 'cv', 'cloc', 'target', 'ar') and isinstance(v, tuple) and len(v) == 2:
        return show_loc(v, 4)
    if k in ('args', 'vals') and isinstance(v, tuple):
        return '(' + ', '.join(show(x, 4) for x in v) + ')'
    return show(v, 4) if isinstance(v, tuple) else str(v)


class Ev:
    __slots__ = ('kind', 'a', 'node', 'fn', 'locks', 'facts', 'file', 'line', 'frame')

    def __init__(s, kind, a, node, fn, locks, facts, frame=0):
        s.kind, s.a, s.node, s.fn, s.locks, s.facts, s.frame = kind, a, node, fn, locks, facts, frame
        s.file = fn['file'] if fn else ''
        s.line = node.get('l', 0) if node else 0

    def __repr__(s):
        return '<%s %s:%s %s>' % (s.kind, rel(s.file), s.line,
                                  ' '.join('%s=%s' % (k, shown(k, v)) for k, v in s.a.items()
                                           if k not in ('loop', 'alts', 'exit', 'fnid', 'frame', 'types', 'locs', 'xst', 'xfacts', 'snap')))

    def where(s):
        return '%s:%d in %s' % (rel(s.file), s.line, s.fn['q'] if s.fn else '?')


class St:
    __slots__ = ('mem', 'facts', 'locks', 'tr', 'vars', 'gen')

    def __init__(s, mem, facts, locks, tr, vars, gen):
        s.mem, s.facts, s.locks, s.tr, s.vars, s.gen = mem, facts, locks, tr, vars, gen

    def fork(s):
        return St(dict(s.mem), s.facts, s.locks, s.tr, s.vars, s.gen)

    def events(s):
        return events(s.tr)


def events(tr):
    out = []
    while tr is not None:
        out.append(tr[1])
        tr = tr[0]
    out.reverse()
    return out


class Frame:
    __slots__ = ('fid', 'fn', 'this', 'parent', 'depth', 'abr', 'thislam')

    def __init__(s, fid, fn, this, parent):
        s.fid, s.fn, s.this, s.parent = fid, fn, this, parent
        s.depth = parent.depth + 1 if parent else 0
        s.thislam = None


class Alt:
    """One way through a loop body: from one head to another."""
    __slots__ = ('src', 'dst', 'events', 'facts', 'st', 'appended')


FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


def narrow(op, u, v, a, b):
    """Comparisons of unsigned values with 0 and 1, and of truth values with constants, as comparisons with 0."""
    if u[0] == 'c' and v[0] != 'c':
        op, u, v, a, b = FLIP[op], v, u, b, a
    if v[0] == 'c' and type(v[1]) in (int, bool):
        t, n = a.get('t') or {}, int(v[1])
        if isbool(a) and n == 1 and op in ('==', '!='):
            return '!=' if op == '==' else '==', u, C(0)
        if t.get('signed') is False and t.get('bits', 0) > 1:
            if (op, n) in (('>', 0), ('>=', 1)):
                return '!=', u, C(0)
            if (op, n) in (('<=', 0), ('<', 1)):
                return '==', u, C(0)
    return op, u, v


def isbool(n):
    while n:
        if (n.get('t') or {}).get('s') in ('bool', 'const bool'):
            return True
        if n.get('k') not in ('cast', 'paren') or len(n.get('c') or []) != 1:
            return False
        n = n['c'][0]
    return False


class Loop:
    def __init__(s, n, marker, node, fn):
        s.n, s.marker, s.node, s.fn = n, marker, node, fn
        s.kind = {}     # location key -> 'iv' | 'hole' | 'w'
        s.start = {}
        s.step = {}
        s.heads = []    # [(key, state)]
        s.alts = []
        s.entry = 0
        s.exits = []
        s.dirty = False
        s.grows = set()

    def iv(s, key):
        return ('iv', s.marker, key)


class Path:
    """One abstract path class of an entry function."""
    __slots__ = ('kind', 'st', 'val', 'events')

    def __init__(s, kind, st, val):
        s.kind, s.st, s.val, s.events = kind, st, val, st.events()

    @property
    def facts(s):
        return s.st.facts


def flat(evs, star=True):
    """All events, those of every loop alternative included."""
    for e in evs:
        if e.kind == 'loop':
            if star:
                for a in e.a['alts']:
                    yield from flat(a.events)
        yield e


def foreign(t):
    """Is t a structure of a C library (copied bit by bit)?"""
    return bool(t) and t.get('k') == 'rec' and not t.get('repo') and '::' not in t.get('rec', '::')


class Interp:
    def __init__(s, prog, opaque=None, shared=None, dyn=None):
        s.p = prog
        s.opaque = opaque or (lambda f: False)
        s.shared = shared or {}      # record -> set of fields other threads may write
        s.fids = {}
        s.abr = []
        s.loops = []
        s.loc_mutex = {}             # mutex loc -> (record, field) or global name
        s.vartype = {}
        s.stats = {'calls': 0, 'states': 0, 'loops': 0, 'functions': set(), 'sites': set()}
        s.stack = []
        s.locksets = {}              # node uid -> set of frozenset(lock ids)
        s.on_emit = None
        s.on_access = None
        s.on_load = None
        s.cur = None
        s.fieldtypes = {}
        for r in prog.records.values():
            for f in r['fields']:
                s.fieldtypes.setdefault(f['n'], []).append(f['t'])
        s.recs = prog.records
        s.gconst = {}
        s.cb_uid = 0
        s.keep = KEEP

    # ------------------------------------------------------------ helpers
    def fid(s, parent, node, fn):
        k = (parent.fid if parent else None, node.get('u', node.get('i')) if node else None, fn)
        if k not in s.fids:
            s.fids[k] = len(s.fids) + 1
        return s.fids[k]

    def uid(s, node):
        return node.get('u', node.get('i', 0)) if node else 0

    def emit(s, st, kind, node, F, /, **a):
        e = Ev(kind, a, node, F.fn if F else None, st.locks, st.facts, F.fid if F else 0)
        st.tr = (st.tr, e)
        if s.on_emit:
            s.on_emit(st, e)

    def assume(s, st, r):
        """Adds a literal; False if it contradicts what is known."""
        if isinstance(r, bool):
            return r
        d = decide(st.facts, r[0])
        if d is not None:
            if d == r[1]:
                return True
            return False
        st.facts = dict(st.facts)
        st.facts[r[0]] = r[1]
        return True

    def branch(s, st, r):
        t = test(st.facts, r)
        if t is not None:
            return [(st, t)]
        o = st.fork()
        s.assume(st, r)
        s.assume(o, neg(r))
        return [(st, True), (o, False)]

    def fresh(s, st, tag, node, F, extra=()):
        t = ('call', tag, s.uid(node), F.fid if F else 0) + tuple(extra)
        if t in st.gen:
            s.rename(st, t, ('old', t))
        st.gen = st.gen | {t}
        return t

    def rename(s, st, t, new):
        nm = {}
        hit = False
        for r, v in st.mem.items():
            r2, v2 = subst(r, {t: new}), subst(v, {t: new})
            hit |= r2 is not r or v2 is not v
            nm[r2] = v2
        if hit:
            st.mem = nm
        nf, fh = {}, False
        for a, b in st.facts.items():
            if contains(a, {t}):
                fh = True
                a2 = subst(a, {t: new})
                nf[a2] = b
            elif contains(a, {new}):
                fh = True
            else:
                nf[a] = b
        if fh:
            st.facts = nf
        st.locks = subst(st.locks, {t: new})

    def unsigned(s, t, typ):
        if typ and typ.get('k') == 'builtin' and typ.get('signed') is False and typ.get('bits') and t[0] not in ('c', 'lin', 'B', 'iv', 'undef'):
            UNSIGNED.add(t)
        return t

    # ------------------------------------------------------------ memory
    def default(s, root):
        k = root[0]
        if k == 'd':
            return ('deref', root[1])
        if k == 'r':
            return root[1]
        if k == 'o':
            return ('sym', root[1])
        if k == 'g':
            c = s.global_const(root[1])
            return c if c is not None else ('glob', root[1])
        return UNDEF

    def global_const(s, q):
        if q in s.gconst:
            return s.gconst[q]
        s.gconst[q] = None
        g = s.p.globals.get(q)
        if g and g.get('init') and g['t'] and (g['t'].get('const')):
            st = St({}, {}, (), None, (), frozenset())
            F = Frame(0, {'q': q, 'file': g['file'], 'l': g['l'], 'fn': q}, NULL, None)
            try:
                r = s.rv(g['init'], st, F)
                if len(r) == 1:
                    s.gconst[q] = r[0][1]
            except Broken:
                pass
        return s.gconst[q]

    def load(s, st, loc):
        if s.on_load:
            s.on_load(st, loc)
        root, path = loc
        v = st.mem.get(root)
        if v is None:
            v = s.default(root)
        for p in path:
            v = get(st.facts, v, p)
        while v[0] == 'ref':
            v = s.load(st, v[1])
        return v

    def rawroot(s, st, root):
        v = st.mem.get(root)
        return s.default(root) if v is None else v

    def store(s, st, loc, val):
        root, path = loc
        if not path:
            st.mem[root] = val
            return
        st.mem[root] = put(st.facts, s.rawroot(st, root), path, val)

    def write(s, st, loc, val, node, F, op='='):
        old = s.load(st, loc)
        s.store(st, loc, val)
        s.emit(st, 'w', node, F, loc=loc, val=val, old=old, op=op)

    def deref(s, v):
        if v[0] == 'ptr':
            return v[1]
        if v[0] == 'it':
            return (v[1][0], v[1][1] + (models.it_sel(v),))
        return (('d', v), ())

    def sub(s, st, loc, name):
        """member `name` of the object at loc"""
        root, path = loc
        if path and isinstance(path[-1], tuple) and path[-1][0] in ('n', 'nk') and name == 'second':
            cont = s.load(st, (root, path[:-1]))
            return (root, path[:-1] + (('k', elem_key(cont, path[-1])),))
        l = (root, path + (name,))
        v = s.rawsub(st, l)
        if v is not None and v[0] == 'ref':
            return v[1]
        return l

    def rawsub(s, st, loc):
        root, path = loc
        v = st.mem.get(root)
        if v is None:
            return None
        for p in path:
            v = get(st.facts, v, p)
            if v[0] == 'ref' and p is not path[-1]:
                return None
        return v

    def tmp(s, st, node, F, val, tag=''):
        root = ('t', s.uid(node), F.fid, tag)
        st.mem[root] = val
        return (root, ())

    def haslock(s, st, loc):
        return loc in st.locks

    # ------------------------------------------------------------ entry points
    def run(s, fn, this='this', args=None, pre=None):
        """Analyses function node fn as an entry point with unknown arguments."""
        st = St({}, {}, (), None, (), frozenset())
        F = Frame(s.fid(None, None, fn['fn']), fn, NULL, None)
        if fn.get('rec') and not fn.get('static') and not fn.get('lambda'):
            F.this = ('ptr', (('o', 'this'), ()))
            if fn.get('ctor'):
                st.mem[('o', 'this')] = ('O', None, ())
        if pre:
            pre(st)
        vals = []
        for i, p in enumerate(fn['params']):
            name = 'arg:' + (p['n'] or str(i))
            t = p['t']
            if args and p['n'] in args:
                v = args[p['n']]
            elif t and t['k'] in ('lref', 'rref'):
                v = ('ptr', (('o', name), ()))
            elif t and t['k'] == 'rec' and models.family(t) in models.SMART:
                v = s.unsigned(('sym', name), t)
            else:
                v = s.unsigned(('sym', name), t)
            vals.append(v)
        return s.paths(s.body(fn, st, F, vals, entry=True))

    def paths(s, outs):
        return [Path(k, st, v) for k, st, v in outs]

    def body(s, fn, st, F, vals, entry=False):
        """Binds parameters and runs a function body; outcomes (kind, st, val) with kind ret|dead|exc."""
        s.stats['functions'].add(fn['q'])
        if F.depth > MAXDEPTH:
            raise Broken('call depth exceeded in ' + fn['q'])
        for p, v in zip(fn['params'], vals):
            root = ('v', p['id'], F.fid)
            s.vartype[p['id']] = p['t']
            if p['t'] and p['t']['k'] in ('lref', 'rref'):
                st.mem[root] = ('ref', s.deref(v))
            else:
                st.mem[root] = v
                if not entry and models.needs_dtor(s, p['t']):
                    st.vars = st.vars + ((root, p['t']),)
        depth0 = len(st.vars)
        saved, s.abr = s.abr, []
        s.stack.append(fn['fn'])
        try:
            sts = [st]
            if fn.get('ctor'):
                sts = s.ctor_inits(fn, st, F)
            outs = []
            for st1 in sts:
                outs += s.exec(fn['body'], st1, F)
            outs += s.abr
        finally:
            s.abr = saved
            s.stack.pop()
        res = []
        for k, st1, v in outs:
            if k == 'n':
                k, v = 'ret', VOID
                if fn['q'].split('::')[-1] == 'main':
                    v = C(0)
            res.append((k, st1, v))
        return res

    def ctor_inits(s, fn, st, F):
        loc = F.this[1]
        sts = [st]
        for i in fn.get('inits', []):
            e = i.get('e')
            nxt = []
            for x in sts:
                if i.get('field'):
                    l = (loc[0], loc[1] + (i['field'],))
                    ft = s.field_type(fn['rec'], i['field'])
                    if ft and ft['k'] in ('lref', 'rref'):
                        for y, v in s.eval(e, x, F):
                            s.store(y, l, ('ref', s.deref(v)))
                            nxt.append(y)
                        continue
                    if e is None or (e['k'] == 'opaque' and not e.get('c')):
                        s.store(x, l, models.default_value(s, x, ft, e, F, l) if ft else UNDEF)
                        nxt.append(x)
                        continue
                    for y in s.init(e, x, F, l):
                        if i.get('written'):
                            s.emit(y, 'w', e, F, loc=l, val=s.load(y, l), old=UNDEF, op='init')
                        nxt.append(y)
                elif i.get('deleg') or (i.get('base') and i['base'].get('rec') in s.recs):
                    nxt += s.init(e, x, F, loc)
                else:
                    nxt.append(x)
            sts = nxt
        return sts

    def field_type(s, rec, field):
        r = s.recs.get(rec)
        if r:
            for f in r['fields']:
                if f['n'] == field:
                    return f['t']
        return None

    def call(s, fn, st, this, vals, node, F, lam=None):
        """Inlined call: list of (st, value)."""
        s.stats['calls'] += 1
        if s.stack.count(fn['fn']) >= 2:
            return [(st, s.fresh(st, 'rec:' + fn['q'], node, F))]
        F2 = Frame(s.fid(F, node, fn['fn']), fn, this, F)
        nv = len(st.vars)
        lk = st.locks
        if lam is not None:
            for cid, byref, val in lam[2]:
                st.mem[('v', cid, F2.fid)] = ('ref', val[1]) if byref else val
            F2.this = lam[3]
        outs = s.body(fn, st, F2, vals)
        res = []
        for k, x, v in outs:
            x = s.unwind(x, nv, F2)
            s.clean(x, F2, v)
            if k == 'ret':
                res.append((x, v))
            else:
                s.abr.append((k, x, v))
        return s.merge_vals(res)

    def clean(s, st, F, v):
        dead = [r for r in st.mem if (r[0] == 'v' or r[0] == 't') and r[2] == F.fid]
        for r in dead:
            del st.mem[r]

    def unwind(s, st, n, F):
        """Destroys automatic objects declared since scope depth n, innermost first."""
        while len(st.vars) > n:
            root, t = st.vars[-1]
            st.vars = st.vars[:-1]
            r = models.destroy(s, st, (root, ()), t, F)
            st = r
            st.mem.pop(root, None)
        return st

    def sig(s, st):
        return (frozenset(st.mem.items()), st.locks, id(st.tr) if st.tr else 0, tuple(r for r, _ in st.vars))

    def merge_vals(s, res):
        return [(x, v) for _, x, v in s.merge([('v', x, v) for x, v in res])]

    def merge(s, outs):
        """Joins outcomes in equal states.  What is known about them is kept apart (a disjunction) as long as
        there are few; beyond that only what they have in common is kept."""
        if len(outs) < 2:
            return outs
        keys = [(k, s.sig(st), v) for k, st, v in outs]
        out = {}
        for (k, st, v), key in zip(outs, keys):
            key += (frozenset(st.facts.items()),)
            if key in out:
                o = out[key][1]
                o.gen = o.gen | st.gen
            else:
                out[key] = (k, st, v)
        if len(out) > s.keep:
            out = {}
            for (k, st, v), key in zip(outs, keys):
                if key in out:
                    o = out[key][1]
                    o.facts = {a: b for a, b in o.facts.items() if st.facts.get(a) == b}
                    o.gen = o.gen | st.gen
                else:
                    out[key] = (k, st, v)
        if len(out) > MAXSTATES:
            raise Broken('too many abstract states')
        return list(out.values())

    # ------------------------------------------------------------ statements
    def exec(s, node, st, F):
        """[(kind, st, val)]: n, brk, cont, ret, dead, exc"""
        if node is None:
            return [('n', st, VOID)]
        saved, s.abr = s.abr, []
        try:
            r = s.exec_(node, st, F)
            r = r + s.abr
        finally:
            s.abr = saved
        return s.merge(r)

    def exec_(s, node, st, F):
        k = node['k']
        m = getattr(s, 'x_' + k, None)
        if m:
            return m(node, st, F)
        # expression statement
        out = []
        for x, v in s.eval(node, st, F):
            if not node.get('lv') and node.get('t') and models.needs_dtor(s, node['t']) and node['t']['k'] == 'rec':
                l = s.tmp(x, node, F, v, 'disc')
                x = models.destroy(s, x, l, node['t'], F)
                x.mem.pop(l[0], None)
            out.append(('n', x, VOID))
        return out

    def seqx(s, nodes, st, F):
        cur = [('n', st, VOID)]
        for n in nodes:
            if n is None:
                continue
            nxt = []
            for k, x, v in cur:
                if k == 'n':
                    nxt += s.exec(n, x, F)
                else:
                    nxt.append((k, x, v))
            cur = s.merge(nxt)
        return cur

    def x_compound(s, node, st, F):
        n = len(st.vars)
        return [(k, s.unwind(x, n, F), v) for k, x, v in s.seqx(node['c'], st, F)]

    def x_null(s, node, st, F):
        return [('n', st, VOID)]

    def x_decl(s, node, st, F):
        sts = [st]
        for v in node['vars']:
            nxt = []
            for x in sts:
                nxt += s.declare(v, x, F, node)
            sts = nxt
        return [('n', x, VOID) for x in sts]

    def declare(s, v, st, F, node):
        root = ('v', v['id'], F.fid)
        t = v['t']
        s.vartype[v['id']] = t
        if v.get('static'):
            return [st]
        out = []
        init = v.get('init')
        if t and t['k'] in ('lref', 'rref'):
            if init is None:
                return [st]
            for x, val in s.eval(init, st, F):
                if not s.is_lv(init):
                    l = s.tmp(x, init, F, val)
                    val = ('ptr', l)
                x.mem[root] = ('ref', s.deref(val))
                out.append(x)
        elif init is None:
            st.mem[root] = models.default_value(s, st, t, None, F, (root, ()))
            out = [st]
        else:
            st.mem.pop(root, None)
            out = s.init(init, st, F, (root, ()), fresh=True)
            for x in out:
                if t and t['k'] not in ('rec',):
                    s.emit(x, 'w', init, F, loc=(root, ()), val=s.load(x, (root, ())), old=UNDEF, op='init')
        for x in out:
            if t and t['k'] == 'rec' and models.needs_dtor(s, t):
                x.vars = x.vars + ((root, t),)
            elif t and t['k'] == 'array':
                pass
            for bi, b in enumerate(v.get('bind', [])):
                base = (root, ())
                rv_ = x.mem.get(root)
                if rv_ is not None and rv_[0] == 'ref':
                    base = rv_[1]
                tt = t['to'] if t and t['k'] in ('lref', 'rref') else t
                fam = models.family(tt)
                if fam == 'std::pair':
                    l = s.sub(x, base, 'first' if bi == 0 else 'second')
                elif fam == 'std::tuple':
                    l = s.sub(x, base, bi)
                elif tt and tt.get('rec') in s.recs:
                    l = s.sub(x, base, s.recs[tt['rec']]['fields'][bi]['n'])
                else:
                    l = (base[0], base[1] + (('x', C(bi)),))
                for key in ('id', 'hid'):
                    if key in b:
                        x.mem[('v', b[key], F.fid)] = ('ref', l)
        return out

    def x_if(s, node, st, F):
        n = len(st.vars)
        pre = [('n', st, VOID)]
        if node.get('init'):
            pre = s.exec(node['init'], st, F)
        out = []
        for k, x, v in pre:
            if k != 'n':
                out.append((k, x, v))
                continue
            xs = [x]
            if node.get('var'):
                xs = s.declare(node['var'], x, F, node)
            for y in xs:
                for z, b in s.cond(node['cond'], y, F):
                    out += s.exec(node.get('then') if b else node.get('else'), z, F)
        return [(k, s.unwind(x, n, F), v) for k, x, v in out]

    def x_return(s, node, st, F):
        e = node.get('v')
        if e is None:
            return [('ret', st, VOID)]
        rt = F.fn.get('rt')
        if rt and rt['k'] in ('lref', 'rref'):
            return [('ret', x, v) for x, v in s.eval(e, st, F)]
        return [('ret', x, v) for x, v in s.rv(e, st, F)]

    def x_break(s, node, st, F):
        return [('brk', st, VOID)]

    def x_continue(s, node, st, F):
        return [('cont', st, VOID)]

    def x_while(s, node, st, F):
        def cond(x):
            n = len(x.vars)
            xs = s.declare(node['var'], x, F, node) if node.get('var') else [x]
            return [r for y in xs for r in s.cond(node['cond'], y, F)]
        return s.loop(st, node, F, cond, lambda x: s.exec(node['body'], x, F), None)

    def x_do(s, node, st, F):
        return s.loop(st, node, F, lambda x: s.cond(node['cond'], x, F), lambda x: s.exec(node['body'], x, F), None,
                      test_first=False)

    def x_for(s, node, st, F):
        n = len(st.vars)
        out = []
        for k, x, v in s.exec(node.get('init'), st, F):
            if k != 'n':
                out.append((k, x, v))
                continue
            cond = (lambda y: s.cond(node['cond'], y, F)) if node.get('cond') else (lambda y: [(y, True)])
            inc = (lambda y: s.exec(node['inc'], y, F)) if node.get('inc') else None
            out += s.loop(x, node, F, cond, lambda y: s.exec(node['body'], y, F), inc)
        return [(k, s.unwind(x, n, F), v) for k, x, v in out]

    def x_rangefor(s, node, st, F):
        n = len(st.vars)
        out = []
        pre = s.exec(node['init'], st, F) if node.get('init') else [('n', st, VOID)]
        for k, x, v in pre:
            if k != 'n':
                out.append((k, x, v))
                continue
            rng = node['range']
            for y, rvv in s.eval(rng, x, F):
                if s.is_lv(rng):
                    loc = s.deref(rvv)
                else:
                    loc = s.tmp(y, rng, F, rvv, 'range')
                ct = rng.get('t')
                it = s.load(y, loc)
                if it[0] == 'it':
                    loc, ct = it[1], None
                out += s.foreach(y, node, F, loc, ct, node['var'], lambda z: s.exec(node['body'], z, F))
        return [(k, s.unwind(x, n, F), v) for k, x, v in out]

    def foreach(s, st, node, F, loc, ct, var, body):
        """Range-for: an induction variable from 0 to the container's size.  A list that is written out in the
        program is gone through entry by entry."""
        froz = s.load(st, loc)
        rt = node['range'].get('t') or {}
        literal = 'initializer_list' in str(rt.get('rec') or '')
        if literal and froz[0] == 'ptr':
            loc = froz[1]
            froz = s.load(st, loc)
        if (literal or rt.get('k') == 'array' or rt.get('const')) and models.elem_kind(ct) not in ('n', 'sx') and \
                not var.get('bind') and froz[0] == 'S' and 0 < len(froz[1]) <= 8 and all(x[0] == 'e' for x in froz[1]):
            return s.each_entry(st, node, F, loc, len(froz[1]), var, body)
        ivroot = ('t', s.uid(node), F.fid, 'iv')
        st.mem[ivroot] = C(0)
        kind = models.elem_kind(ct)
        froz = s.load(st, loc)

        def cond(x):
            return [(y, not b) for y, b in s.branch(x, atom_eqv(x.mem[ivroot], size(s.load(x, loc))))]

        def bodyf(x):
            nv = len(x.vars)
            cont = s.load(x, loc)
            sel = (kind, x.mem[ivroot])
            if kind in ('n', 'sx'):
                s.assume(x, (('has', unwrap(mp(cont)), elem_key(cont, sel)), True))
            eloc = (loc[0], loc[1] + (sel,))
            root = ('v', var['id'], F.fid)
            t = var['t']
            s.vartype[var['id']] = t
            if t and t['k'] in ('lref', 'rref'):
                x.mem[root] = ('ref', eloc)
            else:
                x.mem[root] = s.unsigned(s.load(x, eloc), t)
                if models.needs_dtor(s, t):
                    x.vars = x.vars + ((root, t),)
            base = x.mem[root][1] if x.mem[root][0] == 'ref' else (root, ())
            for bi, b in enumerate(var.get('bind', [])):
                tt = t['to'] if t and t['k'] in ('lref', 'rref') else t
                l = s.sub(x, base, (('first', 'second')[bi] if models.family(tt) == 'std::pair' else bi))
                for key in ('id', 'hid'):
                    if key in b:
                        x.mem[('v', b[key], F.fid)] = ('ref', l)
            s.emit(x, 'elem', node, F, cont=cont, loc=eloc, val=s.load(x, eloc), cloc=loc)
            r = body(x)
            res = []
            for k, y, v in r:
                y = s.unwind(y, nv, F)
                y.mem.pop(root, None)
                for b in var.get('bind', []):
                    for key in ('id', 'hid'):
                        if key in b:
                            y.mem.pop(('v', b[key], F.fid), None)
                res.append((k, y, v))
            return res

        def inc(x):
            x.mem[ivroot] = add(x.mem[ivroot], C(1))
            return [('n', x, VOID)]
        outs = s.loop(st, node, F, cond, bodyf, inc)
        for k, x, v in outs:
            x.mem.pop(ivroot, None)
        return outs

    def each_entry(s, st, node, F, loc, n, var, body):
        cur, out = [st], []
        root = ('v', var['id'], F.fid)
        t = var['t']
        s.vartype[var['id']] = t
        for i in range(n):
            nxt = []
            for x in cur:
                nv = len(x.vars)
                eloc = (loc[0], loc[1] + (('x', C(i)),))
                if t and t['k'] in ('lref', 'rref'):
                    x.mem[root] = ('ref', eloc)
                else:
                    x.mem[root] = s.unsigned(s.load(x, eloc), t)
                    if models.needs_dtor(s, t):
                        x.vars = x.vars + ((root, t),)
                for k, y, v in body(x):
                    y = s.unwind(y, nv, F)
                    y.mem.pop(root, None)
                    if k in ('n', 'cont'):
                        nxt.append(('n', y, VOID))
                    elif k == 'brk':
                        out.append(('n', y, VOID))
                    else:
                        out.append((k, y, v))
            cur = [x for _, x, _ in s.merge(nxt)]
        return out + [('n', x, VOID) for x in cur]

    def x_switch(s, node, st, F):
        n = len(st.vars)
        out = []
        pre = s.exec(node['init'], st, F) if node.get('init') else [('n', st, VOID)]
        items = node['body']['c'] if node['body'] and node['body']['k'] == 'compound' else [node['body']]
        # flatten labels
        flatl = []
        for it in items:
            labels = []
            while it is not None and it['k'] in ('case', 'default'):
                labels.append(it)
                it = it.get('sub')
            flatl.append((labels, it))
        for k, x, v in pre:
            if k != 'n':
                out.append((k, x, v))
                continue
            xs = s.declare(node['var'], x, F, node) if node.get('var') else [x]
            for x1 in xs:
                for y, val in s.rv(node['cond'], x1, F):
                    todo = [y]
                    starts = []
                    default = None
                    for i, (labels, _) in enumerate(flatl):
                        for lb in labels:
                            if lb['k'] == 'default':
                                default = i
                                continue
                            nxt = []
                            for z in todo:
                                for z2, b in s.branch(z, atom_eqv(val, C(lb.get('v')))):
                                    if b:
                                        starts.append((i, z2))
                                    else:
                                        nxt.append(z2)
                            todo = nxt
                    for z in todo:
                        if default is not None:
                            starts.append((default, z))
                        else:
                            out.append(('n', z, VOID))
                    for i, z in starts:
                        for k2, w, v2 in s.seqx([b for _, b in flatl[i:]], z, F):
                            out.append(('n' if k2 == 'brk' else k2, w, v2))
        return [(k, s.unwind(x, n, F), v) for k, x, v in out]

    def x_case(s, node, st, F):
        return s.exec(node.get('sub'), st, F)
    x_default = x_case

    def x_try(s, node, st, F):
        out = []
        n = len(st.vars)
        for k, x, v in s.exec(node['body'], st, F):
            if k != 'exc':
                out.append((k, x, v))
                continue
            x = s.unwind(x, n, F)
            for h in node['handlers']:
                y = x.fork()
                if h.get('var'):
                    y.mem[('v', h['var']['id'], F.fid)] = v
                s.emit(y, 'catch', node, F)
                out += s.exec(h['body'], y, F)
        return out

    def x_unsup(s, node, st, F):
        raise Broken('unsupported statement %s at %s:%s' % (node.get('cls'), rel(F.fn['file']), node.get('l')))

    # ------------------------------------------------------------ loops
    def loop(s, st, node, F, cond, body, inc, test_first=True):
        s.stats['loops'] += 1
        marker = ('L', s.uid(node), F.fid)
        if marker in st.gen:
            s.rename(st, marker, ('Lo', s.uid(node), F.fid))
        st.gen = st.gen | {marker}
        pre = st.tr
        nv = len(st.vars)
        entry = st.fork()
        entry.tr = None
        L = Loop(len(s.loops), marker, node, F.fn)
        L.entry = entry
        s.loops.append(L)
        part = set()

        def pkey(x):
            return (x.locks, tuple((r, p, s.pathval(x, r, p)) for r, p in sorted(part, key=repr)))

        def iterate(x):
            """one pass through the loop from head x: back states and exits"""
            backs, exits = [], []
            if test_first:
                saved, s.abr = s.abr, []
                try:
                    cs = cond(x)
                    exits += [(k, y, v) for k, y, v in s.abr]
                finally:
                    s.abr = saved
            else:
                cs = [(x, True)]
            for y, b in cs:
                if not b:
                    exits.append(('cond', y, VOID))
                    continue
                for k, z, v in body(y):
                    if k in ('n', 'cont'):
                        for k2, w, v2 in (inc(z) if inc else [('n', z, VOID)]):
                            if k2 != 'n':
                                exits.append((k2, w, v2))
                                continue
                            if test_first:
                                backs.append(w)
                                continue
                            saved, s.abr = s.abr, []
                            try:
                                c2 = cond(w)
                                exits += s.abr
                            finally:
                                s.abr = saved
                            for u, b2 in c2:
                                if b2:
                                    backs.append(u)
                                else:
                                    exits.append(('cond', u, VOID))
                    else:
                        exits.append((k, z, v))
            for w in backs:
                s.unwind(w, nv, F)
            return s.merge_states(backs), exits

        restart = True
        rounds = 0
        while restart:
            restart = False
            rounds += 1
            if rounds > 12:
                raise Broken('loop at %s:%s does not stabilise' % (rel(F.fn['file']), node.get('l')))
            heads = {pkey(entry): entry.fork()}
            order = [pkey(entry)]
            work = [pkey(entry)]
            passes = 0
            while work and not restart:
                hk = work.pop(0)
                passes += 1
                if passes > 60:
                    raise Broken('loop at %s:%s does not stabilise' % (rel(F.fn['file']), node.get('l')))
                x = heads[hk].fork()
                x.tr = None
                backs, _ = iterate(x)
                for b in backs:
                    # enumerable flags become part of the partition
                    new = s.new_parts(entry, heads[hk], b, part, L)
                    if new:
                        part |= new
                        L.kind = {k: v for k, v in L.kind.items() if not any(k[0] == r and k[1][:len(p)] == p for r, p in new)}
                        restart = True
                        break
                    bk = pkey(b)
                    if bk not in heads:
                        texts = {(r, p) for r, p in part if literal(s.pathval(b, r, p))}
                        if len(heads) >= 8 and texts:
                            part -= texts
                            L.grows |= texts
                            restart = True
                            break
                        if len(heads) >= 12:
                            raise Broken('too many loop heads at %s:%s' % (rel(F.fn['file']), node.get('l')))
                        h = b.fork()
                        h.tr = None
                        h = s.enter_head(heads[order[0]], h, L)
                        heads[bk] = h
                        order.append(bk)
                        work.append(bk)
                    else:
                        changed = s.join(heads[bk], b, L)
                        if changed and bk not in work:
                            work.append(bk)
                    if L.dirty:
                        # a location was generalised: every head has to be generalised alike, and what
                        # was computed from the old heads is out of date
                        L.dirty = False
                        for k2 in order:
                            if s.generalise(heads[k2], L) and k2 not in work:
                                work.append(k2)
                        if hk not in work:
                            work.insert(0, hk)
                        break
        # final pass: collect the transitions
        L.heads = [(k, heads[k]) for k in order]
        idx = {k: i for i, k in enumerate(order)}
        rawexits = []
        for k in order:
            x = heads[k].fork()
            x.tr = None
            backs, exits = iterate(x)
            for b in backs:
                a = Alt()
                a.src, a.dst = idx[k], idx.get(pkey(b), -1)
                a.events, a.facts, a.st = events(b.tr), b.facts, b
                a.appended = s.appended(heads[k], b, L)
                L.alts.append(a)
            for e in exits:
                rawexits.append((idx[k], e))
        # alternatives that can precede an exit from head h
        pred = {}
        for a in L.alts:
            pred.setdefault(a.dst, set()).add(a.src)
        out = []
        for h, (k, x, v) in rawexits:
            if not test_first and k == 'cond':
                pass
            back = {h}
            todo = [h]
            while todo:
                for p in pred.get(todo.pop(), ()):
                    if p not in back:
                        back.add(p)
                        todo.append(p)
            alts = [a for a in L.alts if a.src in back and a.dst in back]
            ev = events(x.tr)
            hd = heads[order[h]]
            le = Ev('loop', {'loop': L, 'alts': alts, 'exit': k, 'head': h, 'zero': h == 0, 'tail': ev,
                             'test_first': test_first, 'xst': x}, node, F.fn, entry.locks, hd.facts, F.fid)
            tr = (pre, le)
            for e in ev:
                tr = (tr, e)
            x.tr = tr
            s.close_holes(x, L, h, alts)
            if k == 'cond':
                s.forall(x, L, alts)
            L.exits.append((k, h, x))
            le.a['xst'] = x.fork()
            le.a['xfacts'] = x.facts
            if not alts and not s.not_entered(x, L, entry):
                continue
            if k == 'brk' or k == 'cond':
                x = s.unwind(x, nv, F)
                out.append(('n', x, VOID))
            else:
                out.append((k, x, v))
        return s.merge(out)

    def not_entered(s, x, L, entry):
        """The loop was left before anything was repeated: what it changes still has its value from before.
        False if that is impossible."""
        m = {}
        for key, k in L.kind.items():
            if k == 'iv' and key in L.start:
                m[('iv', L.marker, key)] = L.start[key]
            elif k == 'w':
                v = s.pathval(entry, *key)
                if v is not None and v[0] not in ('S', 'M', 'O'):
                    m[('w', L.marker, key)] = v
        if not m:
            return True
        fs = {}
        for a, v in x.facts.items():
            b = renorm_atom(subst(a, m))
            if b[0] == 'const':
                if b[1] != v:
                    return False
                continue
            if b[0] == 'not':
                b, v = b[1], not v
            if fs.get(b, v) != v:
                return False
            fs[b] = v
        x.facts = fs
        for r in list(x.mem):
            v = subst(x.mem[r], m)
            if v is not x.mem[r]:
                x.mem[r] = v
        return True

    def merge_states(s, sts):
        return [x for _, x, _ in s.merge([('n', x, VOID) for x in sts])]

    def pathval(s, st, root, path):
        v = s.rawroot(st, root)
        for p in path:
            v = get(st.facts, v, p)
        return v

    def loctype(s, root, path):
        names = [p for p in path if isinstance(p, str)]
        if path:
            if not isinstance(path[-1], str):
                return None
            ts = s.fieldtypes.get(path[-1])
            if not ts or len({t['s'] for t in ts}) != 1:
                return None
            return ts[0]
        if root[0] == 'v':
            return s.vartype.get(root[1])
        if root[0] == 'g':
            g = s.p.globals.get(root[1])
            return g['t'] if g else None
        return None

    def new_parts(s, entry, h, b, part, L):
        new = set()
        for r in h.mem:
            if r in b.mem and h.mem[r] != b.mem[r]:
                for path, hv, bv in diffs(h.mem[r], b.mem[r]):
                    if (r, path) in part or L.kind.get((r, path)) == 'w':
                        continue
                    if hv[0] in ('c', 'undef') and bv[0] == 'c' and isinstance(bv[1], int):
                        t = s.loctype(r, path)
                        if t and (t['k'] == 'enum' or t['s'].replace('const ', '') == 'bool') and hv[0] == 'c':
                            new.add((r, path))
                        elif hv[0] == 'c' and isinstance(hv[1], int) and hv[1] == -bv[1] and abs(bv[1]) == 1:
                            new.add((r, path))       # a sign that alternates
                    elif (r, path) not in L.grows and literal(hv) and literal(bv) and not any(isinstance(y, str) and y.startswith('#') for y in path):
                        new.add((r, path))           # a separator, say
                    elif (hv == NULL and bv[0] == 'ptr') or (hv[0] == 'ptr' and bv == NULL):
                        pass
        return new

    def gsym(s, L, key, shape):
        w = ('w', L.marker, key)
        if shape and shape[0] == 'S':
            return ('S', (('b', w),))
        if shape and shape[0] == 'M':
            return ('M', w, ())
        return w

    def widen(s, h, b, key, L):
        if h == b:
            return h
        k = L.kind.get(key)
        if k == 'w':
            return s.gsym(L, key, h if h[0] in ('S', 'M') else b)
        if k == 'iv':
            iv = ('iv', L.marker, key)
            if h != iv:
                # another head's start value
                return iv
            d = sub(b, h)
            if d[0] == 'c' and isinstance(d[1], int) and L.step.get(key, d[1]) == d[1]:
                L.step[key] = d[1]
                return h
            L.kind[key] = 'w'
            L.dirty = True
            return s.gsym(L, key, b)
        if k == 'hole':
            hi = h[1] if h[0] == 'S' else ()
            if h[0] == 'S' and b[0] == 'S' and b[1][:len(hi)] == hi and hi and hi[-1] == ('hole', L.marker, key):
                return h
            if h[0] == 'S' and h == L.start.get(key) and b[0] == 'S' and b[1][:len(hi)] == hi:
                return ('S', hi + (('hole', L.marker, key),))    # the entry, after a restart
            L.kind[key] = 'w'
            L.dirty = True
            return s.gsym(L, key, h)
        if b[0] == 'O' and b[1] == h and h[0] != 'O':
            h = ('O', h, ())
        if h[0] == 'O' and h[1] == b and b[0] != 'O':
            b = ('O', b, ())
        if h[0] == 'O' and b[0] == 'O' and h[1] == b[1]:
            sels = [x for x, _ in h[2]] + [x for x, _ in b[2] if all(x != y for y, _ in h[2])]
            if all(not isinstance(x, tuple) for x in sels):
                new = []
                for x in sels:
                    new.append((x, s.widen(get({}, h, x), get({}, b, x), (key[0], key[1] + (x,)), L)))
                new.sort(key=lambda u: repr(u[0]))
                return ('O', h[1], tuple(new))
        if h[0] == 'it' and b[0] == 'it' and h[1] == b[1] and h[3] == b[3] and h[2][0] == b[2][0] == 'idx':
            i = s.widen(h[2][1], b[2][1], (key[0], key[1] + ('#idx',)), L)
            return ('it', h[1], ('idx', i), h[3])
        if h[0] == 'S' and b[0] == 'S' and b[1][:len(h[1])] == h[1] and len(b[1]) > len(h[1]):
            h0 = s.entryval(L, key, h)
            if h0[0] == 'S' and h[1][:len(h0[1])] == h0[1]:
                L.kind[key] = 'hole'
                L.start[key] = h0
                L.dirty = True
                return ('S', h0[1] + (('hole', L.marker, key),))
        if h[0] == 'S' and b[0] == 'S' and h[1] and b[1] and h[1][-1][0] == b[1][len(h[1]) - 1:len(h[1])][0:1] and False:
            pass
        if h[0] not in ('S', 'M', 'O', 'ptr', 'undef', 'it', 'ref') and b[0] not in ('S', 'M', 'O', 'ptr', 'undef', 'it', 'ref'):
            d = sub(b, h)
            h0 = s.entryval(L, key, h)
            d0 = sub(h, h0) if h0[0] not in ('S', 'M', 'O', 'ptr', 'undef', 'it', 'ref') else UNDEF
            if d[0] == 'c' and isinstance(d[1], int) and d[1] != 0 and d0[0] == 'c' and isinstance(d0[1], int):
                L.kind[key] = 'iv'
                L.start[key] = h0
                L.step[key] = d[1]
                L.dirty = True
                return ('iv', L.marker, key)
        if h[0] == 'ref' and b[0] == 'ref':
            if h[1][0] == b[1][0] and len(h[1][1]) == len(b[1][1]):
                pass
        L.kind[key] = 'w'
        L.dirty = True
        return s.gsym(L, key, h if h[0] in ('S', 'M') else b)

    def entryval(s, L, key, h):
        """Value with which the loop was entered (h is that of one of its heads)."""
        root, path = key
        if root not in L.entry.mem:
            return h
        if path and path[-1] == '#idx':
            v = s.pathval(L.entry, root, path[:-1])
            return v[2][1] if v[0] == 'it' and v[2][0] == 'idx' else UNDEF
        return s.pathval(L.entry, root, path)

    def generalise(s, h, L):
        """Applies the loop's generalisations to a head that was entered before they were made."""
        changed = False
        h.facts = s.carry(L, h.facts, lambda key: s.pathval(h, *key) if key[0] in h.mem else None)
        for key, k in list(L.kind.items()):
            root, path = key
            if root not in h.mem:
                continue
            if path and path[-1] == '#idx':
                v = s.pathval(h, root, path[:-1])
                if v[0] != 'it' or v[2][0] != 'idx':
                    continue
                new = ('it', v[1], ('idx', s.want(v[2][1], key, k, L)), v[3])
                if new != v:
                    s.store(h, (root, path[:-1]), new)
                    changed = True
                continue
            v = s.pathval(h, root, path)
            new = s.want(v, key, k, L)
            if new != v:
                s.store(h, (root, path), new)
                changed = True
        return changed

    def want(s, v, key, k, L):
        if k == 'iv':
            return ('iv', L.marker, key)
        if k == 'w':
            return s.gsym(L, key, v)
        if k == 'hole':
            h = ('hole', L.marker, key)
            if v[0] == 'S' and v[1] and v[1][-1] == h:
                return v
            st = L.start[key]
            return ('S', st[1] + (h,))
        return v

    def carry(s, L, facts, value):
        """What is known about the current values of locations is also known about the symbols that stand for
        them from now on."""
        tr = {}
        for key, k in L.kind.items():
            if k != 'w' or key[1] and key[1][-1] == '#idx':
                continue
            v = value(key)
            if v is None:
                continue
            sym = ('w', L.marker, key)
            cur = unwrap(v) if v[0] in ('S', 'M') else v
            if cur != sym and cur[0] not in ('c', 'undef', 'lin', 'ptr', 'S', 'M', 'O', 'it', 'ref'):
                tr[cur] = sym
            if v[0] in ('S', 'M') and v != cur and cur != sym:
                tr[v] = ('M', sym, ()) if v[0] == 'M' else ('S', (('b', sym),))
        if not tr:
            return facts
        g = dict(facts)
        for a, v in facts.items():
            a2 = subst(a, tr)
            if a2 is not a:
                a2 = renorm_atom(a2)
                if a2[0] == 'not':
                    a2, v = a2[1], not v
                if a2[0] != 'const':
                    g.setdefault(a2, v)
        return g

    def stale(s, L, h, b):
        """Symbols of this loop whose meaning changed on the way to the back edge b."""
        out, tr = set(), {}
        for key, k in L.kind.items():
            root, path = key
            if root not in b.mem:
                continue
            if path and path[-1] == '#idx':
                v = s.pathval(b, root, path[:-1])
                v = v[2][1] if v[0] == 'it' and v[2][0] == 'idx' else v
            else:
                v = s.pathval(b, root, path)
            sym = {'iv': ('iv', L.marker, key), 'w': ('w', L.marker, key), 'hole': ('hole', L.marker, key)}[k]
            cur = unwrap(v) if v[0] in ('S', 'M') else v
            if cur != sym and not (k == 'hole' and v[0] == 'S' and v[1][-1:] == (sym,)):
                out.add(sym)
                if k == 'w' and cur[0] not in ('c', 'undef', 'lin'):
                    tr[cur] = sym
                if k == 'w' and v[0] in ('S', 'M') and v != cur:
                    tr[v] = ('M', sym, ()) if v[0] == 'M' else ('S', (('b', sym),))
        return out, tr

    def transl(s, facts, L, h, b):
        st, tr = s.stale(L, h, b)
        f = facts
        if st:
            f = {a: v for a, v in f.items() if not contains(a, st)}
        if tr:
            g = dict(f)
            for a, v in f.items():
                a2 = subst(a, tr)
                if a2 is not a:
                    g[renorm_atom(a2)] = v
            f = g
        return f

    def ivfacts(s, L, facts):
        f = dict(facts)
        for key, k in L.kind.items():
            if k == 'iv' and key in L.step:
                iv, st, d = ('iv', L.marker, key), L.start.get(key), L.step[key]
                if st is None:
                    continue
                r = atom_le(sub(st, iv)) if d > 0 else atom_le(sub(iv, st))
                if not isinstance(r, bool):
                    f[r[0]] = r[1]
        return f

    def enter_head(s, h0, b, L):
        f = s.transl(b.facts, L, h0, b)
        b.facts = {}
        s.generalise(b, L)
        b.facts = s.ivfacts(L, f)
        return b

    def join(s, h, b, L):
        changed = False
        L.dirty = False
        oldmem = dict(h.mem)
        newmem = {}
        for r, hv in h.mem.items():
            if r not in b.mem:
                if r[0] in ('v', 't'):
                    changed = True
                    continue
                bv = s.default(r)
            else:
                bv = b.mem[r]
            nv = s.widen(hv, bv, (r, ()), L)
            if nv != hv:
                changed = True
            newmem[r] = nv
        for r, bv in b.mem.items():
            if r not in h.mem and r[0] in ('d', 'o', 'g', 'r'):
                hv = s.default(r)
                nv = s.widen(hv, bv, (r, ()), L)
                newmem[r] = nv
                changed = True
            elif r not in h.mem and r[0] == 'h':
                newmem[r] = bv
                changed = True
        h.mem = newmem
        if L.dirty:
            s.generalise(h, L)
        fb = s.transl(b.facts, L, h, b)
        fh = h.facts
        if L.dirty:
            def was(key):
                v = oldmem.get(key[0])
                for q in key[1] if v is not None else ():
                    v = get(fh, v, q)
                return v
            fh = s.carry(L, fh, was)
        nf = {}
        for a, v in fh.items():
            if fb.get(a) == v or (a not in fb and decide(fb, a) == v):
                nf[a] = v
        nf = s.ivfacts(L, nf)
        if nf != fh:
            changed = True
        h.facts = nf
        g = h.gen | b.gen
        if g != h.gen:
            h.gen = g
        return changed

    def appended(s, h, b, L):
        out = {}
        for key, k in L.kind.items():
            if k == 'hole' and key[0] in b.mem and key[0] in h.mem:
                hv, bv = s.pathval(h, *key), s.pathval(b, *key)
                if hv[0] == 'S' and bv[0] == 'S':
                    out[key] = bv[1][len(hv[1]):]
        return out

    def close_holes(s, x, L, h, alts=()):
        m = {}
        comp = complete_over(x.facts, L) if alts else None
        each = comp and get({}, comp[1], ('x', comp[0]))
        copied = lambda key: comp and len(alts) == 1 and alts[0].appended.get(key) in ((('e', each),), (('e', ('S', (('b', each),))),))
        for key, k in L.kind.items():
            if k == 'hole':
                m[('hole', L.marker, key)] = ('b', comp[1]) if copied(key) else ('star', L.n, key, h)
        if m:
            for r in list(x.mem):
                v = x.mem[r]
                v2 = subst(v, m)
                if v2 is not v:
                    x.mem[r] = v2
            x.facts = {renorm_atom(subst(a, m)): v for a, v in x.facts.items()}

    def forall(s, x, L, alts):
        """Facts that every completed iteration established about 'its' element, when the loop ran over a
        whole container."""
        if not alts:
            return
        comp = complete_over(x.facts, L)
        if not comp:
            return
        iv, cont = comp
        common = None
        for a in alts:
            fs = {(k, v) for k, v in a.facts.items() if contains(k, {iv})}
            common = fs if common is None else common & fs
        if not common:
            return
        x.facts = dict(x.facts)
        for a, v in common:
            x.facts[('all', cont, subst(a, {iv: ('each',)}), v)] = True

    # ------------------------------------------------------------ expressions
    def is_lv(s, node):
        return bool(node.get('lv'))

    def rv(s, node, st, F):
        """value of an expression (loads lvalues)"""
        if 'cv' in node and node['k'] not in ('assign',):
            return [(st, C(node['cv']))]
        out = []
        for x, v in s.eval(node, st, F):
            if s.is_lv(node):
                t = node.get('t')
                if t and t['k'] == 'array' or v[0] in ('fn',):
                    out.append((x, v))
                    continue
                v = s.unsigned(s.load(x, s.deref(v)), t)
            out.append((x, v))
        return out

    def rvs(s, nodes, st, F):
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for x, vs in cur:
                for y, v in s.rv(n, x, F):
                    nxt.append((y, vs + [v]))
            cur = nxt
        return cur

    def lval(s, node, st, F):
        """[(st, loc)]; prvalues are materialised"""
        out = []
        for x, v in s.eval(node, st, F):
            if s.is_lv(node):
                out.append((x, s.deref(v)))
            else:
                out.append((x, s.tmp(x, node, F, v)))
        return out

    def cond(s, node, st, F):
        k = node['k']
        if k == 'full':
            n = len(st.vars)
            return [(s.unwind(x, n, F), b) for x, b in s.cond(node['c'][0], st, F)]
        if 'cv' in node:
            return [(st, bool(node['cv']))]
        if k == 'unop' and node['op'] == '!':
            return [(x, not b) for x, b in s.cond(node['c'][0], st, F)]
        if k == 'binop' and node['op'] in ('&&', '||'):
            out = []
            for x, b in s.cond(node['c'][0], st, F):
                if b == (node['op'] == '||'):
                    out.append((x, b))
                else:
                    out += s.cond(node['c'][1], x, F)
            return out
        if k == 'cast' and node['ck'] in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return s.cond(node['c'][0], st, F)
        out = []
        for x, v in s.rv(node, st, F):
            out += s.branch(x, truth_atom(v))
        return out

    def eval(s, node, st, F):
        if node is None:
            return [(st, VOID)]
        s.stats['sites'].add(s.uid(node))
        s.cur = (node, F)
        return getattr(s, 'e_' + node['k'], s.e_opaque)(node, st, F)

    def e_int(s, node, st, F):
        return [(st, C(node['v']))]
    e_float = e_int

    def e_str(s, node, st, F):
        v = node.get('v', '')
        if node.get('lv'):
            return [(st, ('ptr', (('r', ('c', v)), ())))]
        return [(st, C(v))]

    def e_nullptr(s, node, st, F):
        return [(st, NULL)]

    def e_this(s, node, st, F):
        return [(st, F.this)]

    def e_zeroinit(s, node, st, F):
        return [(st, models.zero_value(s, st, node.get('t'), node, F))]

    def e_opaque(s, node, st, F):
        if 'cv' in node:
            return [(st, C(node['cv']))]
        cur = [st]
        for c in node.get('c') or []:
            if c and c.get('t') is not None:
                cur = [y for x in cur for y, _ in s.eval(c, x, F)]
        out = []
        for x in cur:
            v = s.fresh(x, 'opaque:' + str(node.get('cls')), node, F)
            out.append((x, ('ptr', (('r', v), ())) if node.get('lv') else v))
        return out

    def e_ref(s, node, st, F):
        rk = node['rk']
        if rk == 'func':
            return [(st, ('fn', node['callee']['fn'], node['callee']['q']))]
        if rk == 'enum':
            return [(st, C(node['v']))]
        if rk in ('local', 'binding'):
            root = ('v', node['id'], F.fid)
            v = st.mem.get(root)
            if v is not None and v[0] == 'ref':
                loc = v[1]
            else:
                loc = (root, ())
            return [(st, ('ptr', loc))]
        if rk == 'global':
            s.note(node, st, F, (('g', node['q']), ()))
            return [(st, ('ptr', (('g', node['q']), ())))]
        return [(st, ('ptr', (('g', node.get('q', node['n'])), ())))]

    def note(s, node, st, F, loc):
        """Remembers the locks held wherever this member or global is touched."""
        if s.on_access:
            s.on_access(st, node, F, loc)

    def lock_id(s, l, loc=None):
        """(class, member) of a mutex, with a flag telling whether it is a member of the object at loc."""
        name = s.loc_mutex.get(l, repr(l))
        same = loc is not None and l[0] == loc[0]
        return (name, same or l[0][0] == 'g')

    def e_member(s, node, st, F):
        base = node['c'][0]
        out = []
        if base is None:
            return [(st, ('ptr', (('o', 'this'), (node['n'],))))]
        if node.get('arrow'):
            rs = s.rv(base, st, F)
            rs = [(x, s.deref(v)) for x, v in rs]
        else:
            rs = s.lval(base, st, F)
        for x, loc in rs:
            l = s.sub(x, loc, node['n'])
            if node.get('rec') in s.recs:
                t = node.get('t')
                if t and t['k'] == 'rec' and models.family(t) in models.MUTEXES:
                    s.loc_mutex[l] = (node['rec'], node['n'])
                s.note(node, x, F, l)
            out.append((x, ('ptr', l)))
        return out

    def e_full(s, node, st, F):
        n = len(st.vars)
        out = []
        for x, v in s.eval(node['c'][0], st, F):
            if node.get('lv') or not len(x.vars) > n:
                out.append((s.unwind(x, n, F), v))
            else:
                out.append((s.unwind(x, n, F), v))
        return out

    def e_bindtemp(s, node, st, F):
        return s.eval(node['c'][0], st, F)

    def e_mat(s, node, st, F):
        sub_ = node['c'][0]
        root = ('t', s.uid(node), F.fid, '')
        outs = s.init(sub_, st, F, (root, ()), fresh=True)
        t = node.get('t')
        for x in outs:
            if t and t['k'] == 'rec' and models.needs_dtor(s, t):
                if node.get('ext'):
                    x.vars = x.vars + ((root, t),)
                else:
                    x.vars = x.vars + ((root, t),)
        return [(x, ('ptr', (root, ()))) for x in outs]

    def e_cast(s, node, st, F):
        if 'cv' in node:
            return [(st, C(node['cv']))]
        ck = node['ck']
        e = node['c'][0]
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return [(x, boolterm(truth_atom(v))) for x, v in s.rv(e, st, F)]
        if ck == 'NullToPointer':
            return [(st, NULL)]
        if ck == 'ToVoid':
            return [(x, VOID) for x, _ in s.eval(e, st, F)]
        if node.get('lv'):
            if s.is_lv(e):
                return s.eval(e, st, F)
            return [(x, ('ptr', l)) for x, l in s.lval(e, st, F)]
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic', 'BitCast'):
            return s.rv(e, st, F)
        if ck == 'IntegralCast' and node.get('t'):
            out = []
            for x, v in s.rv(e, st, F):
                t = node['t']
                if v[0] == 'c' and isinstance(v[1], int) and t.get('bits'):
                    m = v[1] & ((1 << t['bits']) - 1)
                    if t.get('signed') and m >> (t['bits'] - 1):
                        m -= 1 << t['bits']
                    v = C(m)
                out.append((x, v))
            return out
        if ck == 'FloatingToIntegral':
            return [(x, C(int(v[1])) if v[0] == 'c' and isinstance(v[1], float) else v) for x, v in s.rv(e, st, F)]
        return s.rv(e, st, F)

    def e_lambda(s, node, st, F):
        cur = [(st, [])]
        this = NULL
        for c in node['caps']:
            if c.get('this'):
                this = F.this
                continue
            nxt = []
            for x, cs in cur:
                if c.get('initcap'):
                    init = c.get('init')
                    if c['byref']:
                        for y, l in s.lval(init, x, F):
                            nxt.append((y, cs + [(c['id'], True, ('ptr', l))]))
                    else:
                        for y, v in s.rv(init, x, F):
                            nxt.append((y, cs + [(c['id'], False, v)]))
                    continue
                root = ('v', c['id'], F.fid)
                v = x.mem.get(root, UNDEF)
                loc = v[1] if v[0] == 'ref' else (root, ())
                if c['byref']:
                    nxt.append((x, cs + [(c['id'], True, ('ptr', loc))]))
                else:
                    nxt.append((x, cs + [(c['id'], False, s.load(x, loc))]))
            cur = nxt
        return [(x, ('lam', node['fn'], tuple(cs), this)) for x, cs in cur]

    def e_cond(s, node, st, F):
        out = []
        for x, b in s.cond(node['c'][0], st, F):
            e = node['c'][1] if b else node['c'][2]
            if e['k'] == 'throw':
                s.eval(e, x, F)
                continue
            if node.get('lv'):
                out += [(y, ('ptr', l)) for y, l in s.lval(e, x, F)]
            else:
                out += s.rv(e, x, F)
        return s.merge_vals(out)

    def e_throw(s, node, st, F):
        if node.get('c'):
            for x, v in s.rv(node['c'][0], st, F):
                s.emit(x, 'throw', node, F, val=v)
                s.abr.append(('exc', x, v))
        else:
            s.emit(st, 'die', node, F)
            s.abr.append(('dead', st, VOID))
        return []

    def e_initlist(s, node, st, F):
        t = node.get('t')
        out = []
        for x, vs in s.rvs([c for c in node['c'] if c], st, F):
            if t and t['k'] == 'rec' and t.get('rec') in s.recs:
                fs = s.recs[t['rec']]['fields']
                v = ('O', None, tuple(sorted(((f['n'], a) for f, a in zip(fs, vs)), key=lambda u: repr(u[0]))))
            elif t and t['k'] == 'builtin':
                v = vs[0] if vs else C(0)
            elif t and t['k'] == 'ptr':
                v = vs[0] if vs else NULL
            else:
                v = ('S', tuple(('e', a) for a in vs))
            out.append((x, v))
        return out

    def e_unop(s, node, st, F):
        op = node['op']
        e = node['c'][0]
        out = []
        if op == '&':
            if e['k'] == 'ref' and e.get('rk') == 'func':
                return s.eval(e, st, F)
            return [(x, ('ptr', l)) for x, l in s.lval(e, st, F)]
        if op == '*':
            return [(x, ('ptr', s.deref(v))) for x, v in s.rv(e, st, F)]
        if op == '!':
            return [(x, C(int(b))) for x, b in s.cond(node, st, F)]
        if op in ('++', '--'):
            d = C(1 if op == '++' else -1)
            for x, l in s.lval(e, st, F):
                old = s.unsigned(s.load(x, l), e.get('t'))
                new = models.advance(old, d)
                s.write(x, l, new, node, F, op)
                out.append((x, old if node.get('post') else ('ptr', l)))
            return out
        for x, v in s.rv(e, st, F):
            if op == '-':
                v = scale(v, -1)
            elif op == '~':
                v = ('app', '~', v)
            elif op == '+':
                pass
            else:
                v = ('app', op, v)
            out.append((x, v))
        return out

    def compare(s, op, a, b, t=None):
        num = not (t and t['k'] == 'rec')
        if op in ('==', '!='):
            r = atom_eqv(a, b, num)
            return boolterm(r if op == '==' else neg(r))
        if a[0] == 'it' and b[0] == 'it':
            a, b = a[2][1], b[2][1]
        if op == '<':
            r = atom_lt(a, b)
        elif op == '>':
            r = atom_lt(b, a)
        elif op == '<=':
            r = neg(atom_lt(b, a))
        else:
            r = neg(atom_lt(a, b))
        return boolterm(r)

    def e_binop(s, node, st, F):
        op = node['op']
        a, b = node['c']
        if op == ',':
            out = []
            for x, _ in s.eval(a, st, F):
                out += s.eval(b, x, F)
            return out
        if op in ('&&', '||'):
            return s.merge_vals([(x, C(int(v))) for x, v in s.cond(node, st, F)])
        out = []
        for x, (u, v) in s.rvs([a, b], st, F):
            if op in ('==', '!=', '<', '>', '<=', '>='):
                out.append((x, s.compare(*narrow(op, u, v, a, b))))
            elif u[0] == 'it' and op in ('+', '-') and v[0] != 'it':
                out.append((x, models.advance(u, v if op == '+' else scale(v, -1))))
            elif u[0] == 'ptr' and op in ('+', '-') and v[0] != 'ptr':
                l = u[1]
                if v == C(0):
                    out.append((x, u))
                else:
                    out.append((x, ('ptr', (l[0], l[1] + (('x', v if op == '+' else scale(v, -1)),)))))
            else:
                r = arith(op, u, v)
                t = node.get('t')
                if t and t.get('signed') is False and r[0] not in ('c', 'lin'):
                    s.unsigned(r, t)
                out.append((x, r))
        return out

    def e_assign(s, node, st, F):
        op = node['op']
        a, b = node['c']
        out = []
        for x, v in s.rv(b, st, F):
            for y, l in s.lval(a, x, F):
                if op == '=':
                    s.write(y, l, v, node, F)
                else:
                    old = s.load(y, l)
                    if old[0] == 'it':
                        new = models.advance(old, v if op == '+=' else scale(v, -1))
                    else:
                        new = arith(op[:-1], old, v)
                    s.write(y, l, new, node, F, op)
                out.append((y, ('ptr', l)))
        return out

    def e_index(s, node, st, F):
        a, b = node['c']
        out = []
        for x, (p, i) in s.rvs([a, b], st, F):
            l = s.deref(p)
            bt = a.get('t')
            if i == C(0):
                out.append((x, ('ptr', l)))
            else:
                out.append((x, ('ptr', (l[0], l[1] + (('x', i),)))))
        return out

    def e_new(s, node, st, F):
        root = s.heap(st, node, F)
        if node.get('init'):
            outs = s.init(node['init'], st, F, (root, ()), fresh=True)
        else:
            st.mem[root] = models.default_value(s, st, node.get('nt'), None, F, (root, ()))
            outs = [st]
        for x in outs:
            s.emit(x, 'new', node, F, loc=(root, ()), t=node['nt']['s'] if node.get('nt') else '', array=bool(node.get('array')))
        return [(x, ('ptr', (root, ()))) for x in outs]

    def heap(s, st, node, F, tag=''):
        root = ('h', s.uid(node), F.fid, tag)
        if root in st.gen:
            s.rename(st, root, ('h', s.uid(node), F.fid, ('old', tag)))
        st.gen = st.gen | {root}
        return root

    def e_delete(s, node, st, F):
        out = []
        for x, v in s.rv(node['c'][0], st, F):
            s.emit(x, 'delete', node, F, val=v, array=bool(node.get('array')))
            out.append((x, VOID))
        return out

    # ------------------------------------------------------------ construction
    def init(s, node, st, F, loc, fresh=False):
        """Initialises the object at loc from an initialiser; returns states."""
        n0 = len(st.vars)
        k = node['k']
        if k == 'full':
            out = []
            for x in s.init(node['c'][0], st, F, loc, fresh):
                out.append(s.unwind(x, n0, F))
            return out
        if k == 'bindtemp':
            return s.init(node['c'][0], st, F, loc, fresh)
        if k == 'cast' and node['ck'] in ('ConstructorConversion', 'UserDefinedConversion', 'NoOp') and not node.get('lv'):
            return s.init(node['c'][0], st, F, loc, fresh)
        if k == 'construct':
            return s.construct(node, st, F, loc)
        if k == 'initlist' and node.get('t') and node['t']['k'] == 'rec' and node['t'].get('rec') in s.recs:
            sts = [st]
            st.mem.pop(loc[0], None) if not loc[1] else None
            s.store(st, loc, ('O', None, ()))
            for f, c in zip(s.recs[node['t']['rec']]['fields'], node['c']):
                sts = [y for x in sts for y in s.init(c, x, F, (loc[0], loc[1] + (f['n'],)))] if c else sts
            return sts
        out = []
        for x, v in s.rv(node, st, F):
            s.store(x, loc, v)
            if foreign(node.get('t')):
                s.emit(x, 'bits', node, F, loc=loc, src=None, val=v)
            out.append(x)
        return out

    def ctors(s, rec):
        return [f for f in s.p.functions.values() if f.get('ctor') and f.get('rec') == rec]

    def args(s, node, st, F, cal):
        """Evaluates call arguments: references and array parameters as ('ptr', loc), others as values."""
        modes = list(cal.get('modes', []))
        cur = [(st, [])]
        for i, c in enumerate(node['c']):
            m = modes[i] if i < len(modes) else 'v'
            nxt = []
            for x, vs in cur:
                if m in ('r', 'c', 'm'):
                    for y, l in s.lval(c, x, F):
                        nxt.append((y, vs + [('ptr', l)]))
                else:
                    for y, v in s.rv(c, x, F):
                        nxt.append((y, vs + [v]))
            cur = nxt
        return cur

    def construct(s, node, st, F, loc):
        cal = node['callee']
        rec = node['rec']
        cs = [c for c in node['c'] if c]
        if (node.get('copy') or node.get('move')) and len(cs) >= 1:
            fn = s.p.functions.get(cal['fn'])
            user = fn is not None and not fn.get('implicit')
            if node.get('elide') and not s.is_lv(cs[0]):
                return s.init(cs[0], st, F, loc)
            if not user or s.opaque(fn):
                out = []
                for x, l in s.lval(cs[0], st, F):
                    v = s.load(x, l)
                    s.store(x, loc, v)
                    if foreign(node.get('t')):
                        s.emit(x, 'bits', node, F, loc=loc, src=l, val=v)
                    if node.get('move') and cs[0].get('xv'):
                        models.moved_from(s, x, l, node.get('t'))
                        s.emit(x, 'moved', node, F, loc=l, val=v)
                    out.append(x)
                return out
        fn = s.p.functions.get(cal['fn'])
        if fn is not None:
            out = []
            for x, vs in s.args(node, st, F, cal):
                out += s.construct_fn(fn, x, F, loc, vs, node, rec)
            return out
        if rec in s.recs:
            # implicit default constructor without a body here
            s.store(st, loc, models.default_value(s, st, node.get('t'), None, F, loc))
            return [st]
        return models.construct(s, node, st, F, loc, cal, rec)

    def construct_fn(s, fn, st, F, loc, vs, node, rec):
        if s.opaque(fn):
            vals = tuple(s.argval(st, v, p['t']) for v, p in zip(vs, fn['params']))
            s.store(st, loc, ('app', 'ctor:' + rec) + vals)
            s.emit(st, 'ctor', node, F, q=fn['q'], rec=rec, loc=loc, args=vals, locs=tuple(vs), inl=False, fnid=fn['fn'])
            return [st]
        if not loc[1]:
            st.mem[loc[0]] = ('O', None, ())
        else:
            s.store(st, loc, ('O', None, ()))
        vals = tuple(s.argval(st, v, p['t']) for v, p in zip(vs, fn['params']))
        s.emit(st, 'ctor', node, F, q=fn['q'], rec=rec, loc=loc, args=vals, locs=tuple(vs), inl=True, fnid=fn['fn'])
        vs = s.defaults(fn, st, F, vs)
        return [x for x, _ in s.call(fn, st, ('ptr', loc), vs, node, F)]

    def defaults(s, fn, st, F, vs):
        vs = list(vs)
        for p in fn['params'][len(vs):]:
            v = UNDEF
            if p.get('def'):
                r = s.rv(p['def'], st, F)
                if r:
                    v = r[0][1]
            if p['t'] and p['t']['k'] in ('lref', 'rref'):
                v = ('ptr', s.tmp(st, p.get('def') or {}, F, v, 'def' + str(p['id'])))
            vs.append(v)
        return vs

    def argval(s, st, v, t):
        if t and t['k'] in ('lref', 'rref') and v[0] in ('ptr', 'it'):
            return s.load(st, s.deref(v))
        return v

    def e_construct(s, node, st, F):
        cs = [c for c in node['c'] if c]
        if node.get('elide') and cs and not s.is_lv(cs[0]):
            return s.rv(cs[0], st, F)
        root = ('t', s.uid(node), F.fid, 'c')
        out = []
        for x in s.construct(node, st, F, (root, ())):
            v = x.mem.pop(root, UNDEF)
            out.append((x, v))
        return out

    # ------------------------------------------------------------ calls
    def targets(s, cal, st, this, node):
        fn = s.p.functions.get(cal['fn'])
        if cal.get('virt') and not node.get('qualified'):
            c = [s.p.functions[o] for o in s.p.all_overriders(cal['fn']) if o in s.p.functions]
            if fn is not None:
                c = [fn] + c
            c = [f for f in c if not f.get('dtor')]
            return c
        return [fn] if fn is not None else []

    def invoke(s, cal, st, this, vs, node, F, thisloc=None):
        """Calls a function given by its callee descriptor; [(st, value)]."""
        ts = s.targets(cal, st, this, node)
        opq = [f for f in ts if s.opaque(f)]
        if not ts and s.opaque({'q': cal['q'], 'fn': cal['fn'], 'rec': cal.get('rec')}):
            opq = [{'q': cal['q'], 'fn': cal['fn'], 'params': [{'t': None, 'm': m} for m in cal.get('modes', [])],
                    'rt': cal.get('rt'), 'cm': cal.get('cm'), 'static': cal.get('static'), 'rec': cal.get('rec')}]
        if opq:
            f = opq[0]
            if cal.get('virt'):
                f = dict(f, q=cal['q'])
            return s.opaque_call(f, cal, st, this, vs, node, F)
        if not ts:
            return None
        out = []
        for i, f in enumerate(ts):
            x = st if i == len(ts) - 1 else st.fork()
            vals = tuple(s.argval(x, v, p['t']) for v, p in zip(vs, f['params']))
            s.emit(x, 'call', node, F, q=f['q'], fnid=f['fn'], this=this, args=vals, locs=tuple(vs), inl=True, rec=f.get('rec'))
            v2 = s.defaults(f, x, F, vs)
            out += s.call(f, x, this, v2, node, F)
        return out

    def opaque_call(s, f, cal, st, this, vs, node, F):
        tv = None
        if this is not None and this != NULL:
            tv = s.load(st, s.deref(this))
        modes = cal.get('modes', [])
        vals = []
        for i, v in enumerate(vs):
            m = modes[i] if i < len(modes) else 'v'
            vals.append(s.load(st, s.deref(v)) if m in ('r', 'c', 'm') and v[0] in ('ptr', 'it') else v)
        vals = tuple(vals)
        rt = cal.get('rt')
        pure = bool(cal.get('cm') or (not f.get('rec') and not any(m in ('r', 'p') for m in modes)))
        if s.impure(f['q']):
            pure = False
        if pure:
            ret = ('app', f['q']) + ((tv,) if tv is not None else ()) + vals
        else:
            ret = s.fresh(st, f['q'], node, F)
        ev = dict(q=f['q'], fnid=f['fn'], this=this, thisval=tv, args=vals, locs=tuple(vs), inl=False, ret=ret, rec=f.get('rec'))
        s.emit(st, 'call', node, F, **ev)
        if this is not None and this != NULL and not cal.get('cm') and not cal.get('static'):
            s.store(st, s.deref(this), ('upd', f['q'], tv, s.fresh(st, 'upd:' + f['q'], node, F)))
        for i, v in enumerate(vs):
            m = modes[i] if i < len(modes) else 'v'
            if m in ('r', 'p') and v[0] == 'ptr':
                s.store(st, v[1], s.fresh(st, 'out%d:%s' % (i, f['q']), node, F))
        if rt and rt['k'] in ('lref', 'rref'):
            if not pure and this is not None and cal.get('rt') and models.strip(rt) == models.strip_rec(cal.get('rec')):
                ret = this     # returns *this by convention of steppers
            else:
                ret = ('ptr', (('r', ret), ()))
        else:
            s.unsigned(ret, rt)
        return [(st, ret)]

    def impure(s, q):
        return False

    def e_mcall(s, node, st, F):
        cal = node.get('callee')
        if not cal:
            return s.e_opaque(node, st, F)
        obj = node['obj']
        ot = node.get('objt')
        out = []
        if ot and ot['k'] == 'ptr':
            rs = [(x, s.deref(v)) for x, v in s.rv(obj, st, F)]
        else:
            rs = s.lval(obj, st, F)
        for x, loc in rs:
            for y, vs in s.args(node, x, F, cal):
                r = None if cal.get('static') else None
                r = s.invoke(cal, y, ('ptr', loc), vs, node, F)
                if r is None:
                    r = models.method(s, node, y, F, cal, loc, vs, obj)
                out += r
        return out

    def e_opcall(s, node, st, F):
        cal = node.get('callee')
        if not cal:
            return s.e_opaque(node, st, F)
        out = []
        if node.get('member'):
            n2 = dict(node, c=node['c'][1:])
            for x, loc in s.lval(node['c'][0], st, F):
                for y, vs in s.args(n2, x, F, cal):
                    r = None
                    if cal.get('recq', '').startswith('(lambda') or (s.p.functions.get(cal['fn']) or {}).get('lambda'):
                        lam = s.load(y, loc)
                        if lam[0] == 'lam':
                            r = s.call_value(lam, y, vs, node, F)
                    if r is None:
                        fn = s.p.functions.get(cal['fn'])
                        if node['op'] == '=' and (fn is None or fn.get('implicit')) and cal.get('rec') in s.recs and len(vs) == 1:
                            s.write(y, loc, s.load(y, s.deref(vs[0])), node, F)
                            r = [(y, ('ptr', loc))]
                    if r is None:
                        r = s.invoke(cal, y, ('ptr', loc), vs, node, F)
                    if r is None:
                        r = models.method(s, n2, y, F, cal, loc, vs, node['c'][0])
                    out += r
            return out
        for x, vs in s.args(node, st, F, cal):
            r = s.invoke(cal, x, NULL, vs, node, F)
            if r is None:
                r = models.function(s, node, x, F, cal, vs)
            out += r
        return out

    def call_value(s, fv, st, vs, node, F):
        """Calls a lambda or function value."""
        if fv[0] == 'lam':
            fn = s.p.functions.get(fv[1])
            if fn is not None:
                vs2 = s.adapt(fn, st, F, vs, node)
                return s.call(fn, st, fv[3], vs2, node, F, lam=fv)
        if fv[0] == 'fn':
            fn = s.p.functions.get(fv[1])
            if fn is not None and not s.opaque(fn):
                s.emit(st, 'call', node, F, q=fn['q'], fnid=fn['fn'], this=NULL, args=tuple(vs), locs=tuple(vs), inl=True, rec=fn.get('rec'))
                return s.call(fn, st, NULL, s.adapt(fn, st, F, vs, node), node, F)
        return None

    def adapt(s, fn, st, F, vs, node):
        out = []
        for i, p in enumerate(fn['params']):
            v = vs[i] if i < len(vs) else UNDEF
            if p['t'] and p['t']['k'] in ('lref', 'rref'):
                if v[0] not in ('ptr', 'it'):
                    v = ('ptr', s.tmp(st, node, F, v, 'a%d' % i))
            elif v[0] in ('ptr',) and p['t'] and p['t']['k'] != 'ptr' and models.family(p['t']) not in models.SMART:
                v = s.load(st, v[1])
            elif v[0] == 'ptr' and p['t'] and (p['t']['k'] == 'ptr' or models.family(p['t']) in models.SMART):
                # passed by reference to a value parameter
                pass
            out.append(v)
        return out

    def e_call(s, node, st, F):
        cal = node.get('callee')
        out = []
        if not cal:
            fe = node.get('fexpr')
            for x, fv in s.rv(fe, st, F):
                for y, vs in s.rvs([c for c in node['c'] if c], x, F):
                    r = s.call_value(fv, y, vs, node, F)
                    if r is None:
                        s.emit(y, 'ext', node, F, q='?', args=tuple(vs), this=None)
                        r = [(y, s.fresh(y, '?', node, F))]
                    out += r
            return out
        if 'cv' in node and cal['q'].startswith(('std::', '__')):
            return [(st, C(node['cv']))]
        for x, vs in s.args(node, st, F, cal):
            r = s.invoke(cal, x, NULL, vs, node, F)
            if r is None:
                r = models.function(s, node, x, F, cal, vs)
            out += r
        return out


def renorm_atom(a):
    """Re-normalises linear atoms after substitution."""
    if a[0] in ('le', 'eqk'):
        t = C(0)
        for x, v in a[1]:
            t = add(t, scale(x, v))
        ts = lin(t)
        if a[0] == 'le':
            r = atom_le(t, a[2])
        else:
            r = atom_eq0(sub(t, C(a[2])))
        if isinstance(r, bool):
            return ('const', r, a)
        return r[0] if r[1] else ('not', r[0])
    if a[0] == 'eq':
        r = atom_eqv(a[1], a[2])
        if isinstance(r, bool):
            return ('const', r, a)
        return r[0] if r[1] else ('not', r[0])
    return a


def complete_over(facts, L):
    """(iv, container) if these exit facts say that an induction variable of L reached a container's size."""
    for a, v in facts.items():
        if a[0] not in ('eqk', 'le') or len(a[1]) != 2:
            continue
        ivs = [x for x, c in a[1] if x[0] == 'iv' and x[1] == L.marker]
        szs = [x for x, c in a[1] if x[0] == 'size']
        if len(ivs) != 1 or len(szs) != 1:
            continue
        iv, sz = ivs[0], szs[0]
        d = dict(a[1])
        if d[iv] + d[sz] != 0 or L.start.get(iv[2]) != C(0) or L.step.get(iv[2]) != 1:
            continue
        if a[0] == 'eqk' and v and a[2] == 0:
            return iv, sz[1]
        # iv >= size:  le with sign
        if a[0] == 'le':
            # d[iv]*iv + d[sz]*sz <= k is v
            if d[iv] == 1 and not v and a[2] == -1:
                return iv, sz[1]
            if d[iv] == -1 and v and a[2] == 0:
                return iv, sz[1]
    return None


def literal(v):
    """Is the value a literal text?"""
    if v[0] == 'ptr' and v[1][0][0] == 'r' and not v[1][1]:
        v = v[1][0][1]
    return v[0] == 'c' and isinstance(v[1], str) and v[1] != '{}' or v[0] == 'S' and all(x[0] == 'l' for x in v[1])


def diffs(a, b, path=()):
    """Paths at which two object values differ."""
    if a == b:
        return
    if a[0] == 'O' and b[0] == 'O' and a[1] == b[1]:
        da, db = dict(a[2]), dict(b[2])
        if all(not isinstance(k, tuple) for k in list(da) + list(db)):
            for k in list(da) + [k for k in db if k not in da]:
                va = da.get(k, get({}, a, k))
                vb = db.get(k, get({}, b, k))
                yield from diffs(va, vb, path + (k,))
            return
    yield path, a, b
