"""Rules about the programs: release of the other processes (C24), rejected input (C25), every configuration
and every block once (C33)."""
from lib import *
import models, r_pool
from r_pool import core

ENUM = ('FqElementTable', 'CurveIterator', 'ReductionTable')
SINGLE = 'single_curve_fp'


def owned(m, rec):
    """Is the pool held by a smart pointer among the local variables of the program, which destroys it on return?"""
    held, let_go = False, False
    for n in walk(m['body']):
        t = n.get('t')
        if n.get('k') in ('decl', 'var', 'declstmt') or 'init' in n:
            for v in [n] + (n.get('vars') or []):
                t = v.get('t') or {}
                if isinstance(t, dict) and t.get('k') == 'rec' and str(t.get('q', '')) in ('std::unique_ptr', 'std::shared_ptr') and \
                        any(isinstance(a, dict) and a.get('rec') == rec for a in t.get('args') or []) and not v.get('static'):
                    held = True
        c = n.get('callee')
        if isinstance(c, dict) and c.get('q', '').startswith(('std::unique_ptr', 'std::shared_ptr')) and c['q'].endswith('::release'):
            let_go = True
    return held and not let_go


def isopaque(ctx):
    recs = {r for r, _, _ in r_pool.pools(ctx)}
    roots = {f['fn'] for f in r_pool.worker_roots(ctx)}

    def opq(f):
        q = short(f['q'])
        return q.rpartition('::')[0] in recs or f.get('rec') in recs or f['fn'] in roots or q.rpartition('::')[0] in ENUM \
            or q == 'ConfigNode::verify' or q == SINGLE
    return opq


def mains(ctx):
    """[(function, pool class or None)] of the programs that compute."""
    if hasattr(ctx, '_mains'):
        return ctx._mains
    recs = {r for r, _, _ in r_pool.pools(ctx)}
    out = []
    for f in ctx.fns(lambda f: f['q'] == 'main'):
        reach = ctx.reachable([f['fn']])
        made = set()
        for x in reach:
            g = ctx.p.functions.get(x)
            for n in walk((g or {}).get('body') or []):
                c = n.get('ctor')
                if isinstance(c, dict) and c.get('rec') in recs:
                    made.add(c['rec'])
                c = n.get('callee')
                if isinstance(c, dict) and c.get('q') in ('std::make_shared', 'std::make_unique'):
                    made |= {a['rec'] for a in (c.get('rt') or {}).get('args') or [] if isinstance(a, dict) and a.get('rec') in recs}
        made |= {ctx.p.functions[x].get('rec') for x in reach if x in ctx.p.functions and ctx.p.functions[x].get('ctor')} & recs
        ctx.need(len(made) <= 1, 'a program with several worker pools')
        out.append((f, made.pop() if made else None))
    got = {r for _, r in out}
    for r in recs:
        ctx.need(r in got, 'no program uses %s' % r)
    ctx._mains = out
    return out


def run(ctx, f):
    return ctx.run(f, opaque=isopaque(ctx), tag='main')


def prog(f):
    return rel(f['file'])


def made(p, rec):
    return [e for e in flat(p.events) if e.kind == 'ctor' and e.a['rec'] == rec]


def gone(p, rec):
    return [e for e in flat(p.events) if e.kind == 'call' and e.a['q'].endswith('::~' + rec)]


def aborts(p):
    return [e for e in flat(p.events) if e.kind in ('mpi', 'abort') and e.a.get('q', '').endswith('::abort') or
            e.kind == 'mpi' and e.a.get('q') == 'MPI_Abort']


def ops(ctx, rec):
    """(names of operations that take a configuration, name of the one that offers a block)."""
    es = r_pool.entries(ctx, rec)
    c = {f['fn'] for f, _ in r_pool.reconfigurers(ctx, rec)}
    a = {f['fn'] for f in es if not f.get('ctor') and any('vector<std::tuple<unsigned int, unsigned int' in tname(q['t']) for q in f['params'])}
    ctx.need(c and a, '%s: operations not found' % rec)
    return c, a


# ------------------------------------------------------------------------------------------ C24
def rank_fact(facts):
    """Is the path that of process 0?  True, False, None (unknown)."""
    for a, v in facts.items():
        if a[0] == 'eqk' and len(a[1]) == 1 and a[1][0][0][:2] == ('app', 'mpi:rank'):
            if a[2] == 0:
                return v
            if v:
                return False
        if a[0] == 'le' and len(a[1]) == 1 and a[1][0][0][:2] == ('app', 'mpi:rank'):
            c = a[1][0][1]
            if c > 0 and a[2] == 0:
                return v
            if c < 0 and a[2] == -1:
                return not v
    return None


def shared_atom(a):
    """Is the fact about the command line, which all processes have in common?"""
    ok = False
    for x in subterms(a):
        if not isinstance(x, tuple) or not x or not isinstance(x[0], str):
            continue
        if x[0] == 'call':
            if 'program_options' not in x[1]:
                return False
            ok = True
        elif x[0] == 'app':
            n = x[1]
            if n.startswith('po:') or 'program_options' in n:
                ok = True
            elif ':' in n and not n.startswith('str.'):
                return False
        elif x[0] == 'sym' and x[1] in ('arg:argc', 'arg:argv'):
            ok = True
    return ok


def together(f, g):
    """Can two processes take these paths in the same run?  (same command line)"""
    for a, v in f.items():
        if a in g and g[a] != v and shared_atom(a):
            return False
    return True


def c24(ctx):
    """Every path of the distributed program that process 0 can take is classified: it creates and destroys the
    worker pool, aborts all processes, or is one on which no other process can be in its loop, because every
    path into that loop contradicts it in a fact about the common command line.  The destructor of the pool
    tells every other process to stop, and the loop is left on that message."""
    f, wps, tab = r_pool.handlers(ctx)
    n = 0
    for m, rec in mains(ctx):
        if not rec or not r_pool.many(ctx, rec):
            continue
        n += 1
        ps, it = run(ctx, m)
        workers = [p for p in ps if any(e.kind == 'call' and e.a.get('fnid') == f['fn'] for e in flat(p.events))]
        ctx.need(workers, '%s: the loop of the other processes is not entered' % prog(m))
        for w in workers:
            e = next(e for e in flat(w.events) if e.kind == 'call' and e.a.get('fnid') == f['fn'])
            ctx.ob(rank_fact(w.facts) is False, 'worker-rank', prog(m), e, 'only processes other than 0 wait for messages of process 0')
            after = list(flat(w.events))
            after = after[after.index(e) + 1:]
            bad = [x for x in after if x.kind in ('send', 'recv', 'bcast', 'barrier', 'probe')]
            ctx.ob(not made(w, rec), 'controller-rank', prog(m), (made(w, rec) + [e])[0], 'only process 0 creates the pool')
            ctx.ob(not bad and w.kind == 'ret', 'worker-ends', prog(m), bad[0] if bad else e, 'a process that has left its loop ends')
        pools_ = []
        for p in ps:
            if p in workers or rank_fact(p.facts) is False:
                continue
            if p.kind == 'exc':
                continue                    # ends by std::terminate
            c, d, a = made(p, rec), gone(p, rec), aborts(p)
            if p.kind == 'dead' and not ends(p):
                continue
            if c:
                pools_.append(p)
                ctx.ob(count(p.events, lambda e: e in c) == {1}, 'one-pool', prog(m), c[0], 'the pool is created once')
                ctx.ob(p.kind == 'ret' and (count(p.events, lambda e: e in d) == {1} or owned(m, rec)) or a, 'released', prog(m), where(p, c[0]),
                       'process 0 destroys the pool, which stops the other processes, or aborts them',
                       'a path ends without it: ' + pathtext(p))
                first = [e for e in flat(p.events) if e in c or e in d or e in a]
                ctx.ob(not any(e in d for e in first[:1]), 'released-after', prog(m), c[0], 'the pool is destroyed after it was created')
            elif a:
                ctx.ob(True, 'aborted', prog(m) + ': ' + pathkey(p), a[0], 'process 0 aborts the others')
            else:
                bad = [w for w in workers if together(p.facts, w.facts)]
                ctx.ob(not bad, 'nobody-waits', prog(m) + ': ' + pathkey(p), where(p, None, m),
                       'process 0 ends without releasing the others only if none of them can have entered its loop',
                       'path: %s' % pathtext(p))
        ctx.need(pools_, '%s: process 0 never creates the pool' % prog(m))
        for p in ps:
            if rank_fact(p.facts) is True or p in workers or p.kind != 'ret':
                continue
            if rank_fact(p.facts) is None and made(p, rec):
                ctx.ob(False, 'controller-rank', prog(m), made(p, rec)[0], 'only process 0 creates the pool')
            elif not made(p, rec) and not aborts(p):
                bad = [q for q in pools_ if together(p.facts, q.facts)]
                ctx.ob(not bad, 'joins', prog(m) + ': ' + pathkey(p), where(p, None, m), 'every other process joins when process 0 creates the pool',
                       'path: %s' % pathtext(p))
        for d in [x for x in r_pool.entries(ctx, rec) if x.get('dtor')]:
            qs, it = r_pool.run(ctx, d, rec)
            for q in qs:
                if q.kind != 'ret':
                    continue
                r_pool.ACTS = lambda e: r_pool.acts(ctx, e)
                stop = lambda e: any(x.kind == 'req' and x.op == 'stop' and x.proc != r_pool.OWN for x in r_pool.acts(ctx, e))
                ctx.ob(r_pool.every_rank(q.events, stop) == {1}, 'stops-all', d['q'], d, 'the destructor of the pool tells every other process to stop')
    ctx.need(n, 'no distributed program')
    stops = [h for hs in tab.values() for h in hs if any(r_pool.optype(o) == 'stop' for o in h.ops)]
    ctx.ob(stops, 'stop-handled', f['q'], f, 'the message to stop is handled')
    for h in stops:
        ctx.ob(h.leaves, 'stop-leaves', f['q'], h.where, 'the loop is left on the message to stop')
    for t, hs in tab.items():
        for h in hs:
            for o in h.ops:
                if r_pool.optype(o) != 'stop':
                    ctx.ob(not h.leaves, 'stays', '%s: %s' % (f['q'], r_pool.tagname(ctx, t)), h.where, 'the loop is left on no other message of process 0')
    ctx.assumptions.append('the launcher ends all processes when one of them terminates by an uncaught exception or a signal; all processes get the same command line')


def ends(p):
    """Does a path without return end the process in the ordinary way?  (exit)"""
    return any(e.kind == 'die' and e.a.get('q', '').rsplit('::', 1)[-1] in ('exit', '_Exit', 'quick_exit', '_exit') for e in flat(p.events))


def where(p, e, m=None):
    last = None
    for x in flat(p.events):
        if x.line and x.kind in ('out', 'call', 'ext', 'w', 'ctor', 'cop'):
            last = x
    return last or e or m


def pathtext(p):
    out = []
    for a, v in p.facts.items():
        s = show_atom(a, v)
        if len(s) < 120:
            out.append(s)
    return '; '.join(out[:6])


def show_atom(a, v):
    if a[0] == 'has':
        return '%s%s given' % (show(a[2]), '' if v else ' not')
    if a[0] == 'eqk' and len(a[1]) == 1:
        return '%s %s %s' % (show(a[1][0][0]), '=' if v else '!=', a[2])
    return '%s is %s' % (a[0], v)


def pathkey(p):
    """Stable text that tells the paths of a program apart: the facts about the command line."""
    return ', '.join(sorted(show_atom(a, v) for a, v in p.facts.items() if a[0] == 'has' and shared_atom(a))) or 'start'


# ------------------------------------------------------------------------------------------ C33 and C25
def base(v):
    """The element of which v is a modified copy."""
    while v[0] == 'O' and v[1] is not None:
        v = v[1]
    return v


def config_loops(ctx, rec, p):
    """Loop events in which the pool is configured."""
    cs, _ = ops(ctx, rec)
    return [e for e in p.events if e.kind == 'loop' and any(x.kind == 'call' and x.a.get('fnid') in cs for a in e.a['alts'] for x in flat(a.events))]


def isop(fns):
    return lambda e: e.kind == 'call' and e.a.get('fnid') in fns


def complete(p, rec):
    return p.kind == 'ret' and made(p, rec) and (p.val == C(0) or p.val[0] != 'c')


def c33(ctx):
    """On every path on which a program computes and ends successfully: one loop runs over all configurations
    of the input, one by one from the first; each iteration configures the pool with its configuration exactly
    once, then builds the enumeration from the fields of the same configuration and offers blocks; the inner
    loop is left only when the enumeration has ended, each iteration offers the current block exactly once and
    then advances exactly once.  The list of configurations takes in every entry of the input exactly once."""
    n = 0
    for m, rec in mains(ctx):
        if not rec:
            continue
        cs, as_ = ops(ctx, rec)
        ps, it = run(ctx, m)
        lists = list_keys(ctx, ps)
        ctx.ob(lists, 'list-read', prog(m), m, 'the input may have a list of configurations, which is read')
        k = 0
        for p in ps:
            if not complete(p, rec):
                continue
            k += 1
            outer = config_loops(ctx, rec, p)
            ctx.ob(len(outer) == 1, 'configurations', prog(m), made(p, rec)[0], 'a successful run goes through the configurations', 'gone through %d times' % len(outer))
            stray = [e for e in p.events if isop(cs)(e) or isop(as_)(e)]
            others = [e for e in p.events if e.kind == 'loop' and e not in outer and any(isop(as_)(x) or isop(cs)(x) for x in flat([e]))]
            ctx.ob(not stray and not others, 'configurations-only', prog(m), (stray + others + [made(p, rec)[0]])[0], 'blocks are offered only while the configurations are gone through')
            if len(outer) != 1:
                continue
            le = outer[0]
            each = iteration(ctx, m, le)
            if not each:
                continue
            cont, iv, cloc = each
            listed(ctx, m, p, le, cont, cloc, lists)
            for a in le.a['alts']:
                one_config(ctx, m, rec, a, cont, iv, cs, as_)
        ctx.need(k, '%s: no path on which it computes' % prog(m))
        n += k
    ctx.need(n, 'no program computes')


def iteration(ctx, m, le):
    sw = sweep(le)
    ok = sw and sw[0] == 'iter' and le.a['exit'] == 'cond'
    ctx.ob(ok, 'all-configurations', prog(m), le, 'the loop goes through all configurations from the first to the last')
    if not ok:
        return None
    cont, iv = sw[1], sw[2]
    locs = {e.a['cloc'] for a in le.a['alts'] for e in flat(a.events) if e.kind == 'elem' and is_elem(e.a['val'], cont, iv)}
    locs |= {e.a['loc'] for a in le.a['alts'] for e in flat(a.events) if e.kind == 'cop' and e.a['op'] in ('index', 'at') and e.a['args'] == (iv,) and core(e.a['old']) == core(cont)}
    return cont, iv, (locs.pop() if len(locs) == 1 else None)


def of_yaml(v):
    """Is v an entry of the input read as a configuration?  -> the node"""
    v = base(v)
    if v[0] == 'app' and v[1] == 'yaml.as' and v[3] == C('ConfigNode'):
        return v[2]
    return None


def yaml_test(facts, node, asked=False):
    """Is the entry known to exist (True), to be missing (False)?"""
    for a, v in facts.items():
        if a[0] == 'eqk' and len(a[1]) == 1 and a[2] == 0:
            t = a[1][0][0]
            if t[0] == 'app' and t[1] in ('yaml?', 'yaml.IsSequence', 'yaml.IsMap') and t[2] == node or t == size(node):
                return not v
    return None


def list_keys(ctx, ps):
    """Names under which the input has lists of configurations."""
    out = set()
    for p in ps:
        for e in flat(p.events):
            if e.kind == 'yamlas' and e.a['type'] == 'ConfigNode':
                n = e.a['node_']
                if n[0] == 'fld' and n[1][:2] == ('app', 'yaml[]'):
                    out.add(n[1][2:])
    return out


def listed(ctx, m, p, le, cont, cloc, lists):
    """The container holds every configuration of the input."""
    if yaml_node(cont):
        return
    ctx.need(cloc is not None, '%s: the list of configurations was not found' % prog(m))
    here = {cloc} | {x.a['loc'] for x in flat(p.events) if x.kind == 'cop' and x.a['op'] in ADDS and x.a['args'] and of_yaml(x.a['args'][0]) is not None}
    put = lambda x: x.kind == 'cop' and x.a['loc'] in here and x.a['op'] in ADDS
    adds = [e for e in p.events if put(e)]
    fills = [e for e in p.events if e.kind == 'loop' and any(put(x) for x in flat([e]))]
    odd = [x for x in flat(p.events) if x.kind == 'cop' and x.a['loc'] in here and mutates(x) and x.a['op'] not in ADDS + ('index', 'at', 'reserve')]
    ctx.ob(not odd, 'list-kept', prog(m), odd[0] if odd else le, 'configurations are not removed from the list')
    ctx.ob(len(adds) + len(fills) == 1, 'listed', prog(m), (adds + fills + [le])[0], 'the list of configurations is filled from the input once',
           'filled %d times' % (len(adds) + len(fills)))
    for e in adds:
        nd = of_yaml(e.a['args'][0]) if e.a['args'] else None
        ctx.ob(nd is not None, 'listed-input', prog(m) + ': single', e, 'a single configuration is taken from the input')
        for root, k in lists:
            ctx.ob(nd is None or yaml_test(p.facts, ('app', 'yaml[]', root, k)) is False, 'listed-single', '%s: %s' % (prog(m), show(k)), e,
                   'a single configuration is read only if the input has no list', 'nothing is known about the entry ' + show(k))
    for e in fills:
        sw = sweep(e)
        ok = sw and sw[0] == 'iter' and yaml_node(sw[1]) and e.a['exit'] == 'cond'
        ctx.ob(ok, 'listed-all', prog(m), e, 'all entries of the list in the input are gone through')
        if not ok:
            continue
        for a in e.a['alts']:
            ctx.ob(count(a.events, put) == {1}, 'listed-each', prog(m), e, 'each entry is added exactly once', 'added %s times' % sorted(count(a.events, put)))
            for x in flat(a.events):
                if put(x):
                    nd = of_yaml(x.a['args'][0]) if x.a['args'] else None
                    ctx.ob(nd is not None and is_elem(nd, sw[1], sw[2]), 'listed-entry', prog(m), x, 'the configuration that is added is that of the entry')
                    ctx.ob(x.a['op'] in ('push_back', 'emplace_back'), 'listed-order', prog(m), x, 'configurations keep their order')


ADDS = ('push_back', 'emplace_back', 'push_front', 'emplace_front')


def yaml_node(v):
    return any(isinstance(x, tuple) and x[:2] in (('app', 'yaml[]'), ('app', 'YAML::LoadFile')) for x in subterms(core(v)))


def one_config(ctx, m, rec, a, cont, iv, cs, as_):
    key = prog(m)
    el = lambda v: is_elem(base(v), cont, iv) or of_yaml(v) is not None and is_elem(of_yaml(v), cont, iv)
    us = [e for e in a.events if isop(cs)(e)]
    ctx.ob(count(a.events, isop(cs)) == {1} and len(us) == 1, 'configured-once', key, us[0] if us else a.events[0], 'each configuration is given to the pool exactly once',
           '%s times' % sorted(count(a.events, isop(cs))))
    if len(us) != 1:
        return
    u = us[0]
    ctx.ob(u.a['args'] and el(u.a['args'][0]), 'configured-with', key, u, 'the pool is given the configuration at hand', 'it is given ' + show(u.a['args'][0]) if u.a['args'] else '')
    inner = [e for e in a.events if e.kind == 'loop' and any(isop(as_)(x) for x in flat([e]))]
    stray = [e for e in a.events if isop(as_)(e)]
    ctx.ob(len(inner) == 1 and not stray, 'enumerated', key, (inner + stray + [u])[0], 'the blocks of each configuration are gone through exactly once', '%d times' % len(inner))
    if len(inner) != 1:
        return
    le = inner[0]
    ctx.ob(a.events.index(u) < a.events.index(le), 'configured-first', key, u, 'the pool is configured before blocks are offered')
    # the enumeration is that of this configuration
    its = [e for e in a.events if e.kind == 'ctor' and e.a['rec'] == 'CurveIterator']
    ctx.ob(len(its) == 1 and a.events.index(its[0]) < a.events.index(le), 'enumeration', key, le, 'one enumeration is set up for each configuration')
    if len(its) != 1:
        return
    c = its[0]
    f = ctx.p.functions.get(c.a.get('fnid'))
    roles = enumeration_params(ctx, f, len(c.a['args']))
    cfg = u.a['args'][0]
    for i, fld in enumerate(roles):
        v = c.a['args'][i] if i < len(c.a['args']) else None
        if fld == '#table':
            w = [t for t in subterms(v) if isinstance(t, tuple) and t[:2] == ('app', 'ctor:FqElementTable')] if v is not None else []
            ok = w and len(w[0]) >= 4 and fieldof(w[0][2], el, 'prime') and fieldof(w[0][3], el, 'prime_exponent')
            ctx.ob(ok, 'enumeration-field', key, c, 'it runs over the field of this configuration', '' if ok else 'its field is ' + show(v))
        else:
            ctx.ob(v is not None and fieldof(v, el, fld), 'enumeration-of', '%s: %s' % (key, fld), c, 'it is set up with the %s of this configuration' % fld, 'it gets ' + (show(v) if v is not None else 'nothing'))
    # walk through it
    loc = c.a['loc']
    def on(e, name):
        return e.kind == 'call' and e.a['q'] == 'CurveIterator::' + name and e.a['this'] == ('ptr', loc)
    ended = lambda facts, truth: any(b[0] == 'eqk' and b[2] == 0 and len(b[1]) == 1 and b[1][0][0][:2] == ('app', 'CurveIterator::is_end') and v is (not truth) for b, v in facts.items())
    asked = [e for e in flat([le]) if on(e, 'is_end')] + [e for e in le.a.get('tail') or [] if on(e, 'is_end')]
    ctx.ob(asked and le.a['exit'] in ('cond', 'brk') and last_end(le, on) is True, 'to-the-end', key, le, 'blocks are offered until the enumeration has ended', 'left by ' + le.a['exit'])
    for b in le.a['alts']:
        seqs = [e for e in b.events if on(e, 'is_end') or on(e, 'as_block') or on(e, 'step') or isop(as_)(e)]
        n, k = count(b.events, isop(as_)), count(b.events, lambda e: on(e, 'step'))
        ctx.ob(n == {1}, 'offered-once', key, le, 'each block is offered exactly once', 'offered %s times' % sorted(n))
        ctx.ob(k == {1}, 'advanced-once', key, le, 'the enumeration advances by one block at a time', '%s steps' % sorted(k))
        if n != {1} or k != {1}:
            continue
        x = next(e for e in flat(b.events) if isop(as_)(e))
        bl = [e for e in flat(b.events) if on(e, 'as_block')]
        st = next(e for e in flat(b.events) if on(e, 'step'))
        order = list(flat(b.events))
        ok = any(x.a['args'] and core(x.a['args'][0]) == core(e.a['ret']) and order.index(e) < order.index(st) for e in bl)
        ctx.ob(ok, 'current-block', key, x, 'the block that is offered is the current one of the enumeration')
        known = [e for e in order if on(e, 'is_end')]
        ctx.ob(ended_false(b, order, st, on) or order.index(x) > order.index(st) and False, 'not-beyond', key, x, 'no block is offered beyond the end')


def last_end(le, on):
    """At the exit: is the enumeration known to have ended?"""
    xs = [e for e in le.a.get('tail') or [] if on(e, 'is_end')]
    for e in xs[-1:]:
        v = test(le.a['xfacts'], atom_eq0(e.a['ret']))
        return None if v is None else not v
    # do-while: asked at the end of an iteration
    for e in [e for a in le.a['alts'] for e in a.events if on(e, 'is_end')][-1:]:
        v = test(le.a['xfacts'], atom_eq0(e.a['ret']))
        return None if v is None else not v
    return None


def ended_false(b, order, st, on):
    """Is it known in this iteration, before the step, that the enumeration has not ended?"""
    for e in order[:order.index(st)]:
        if on(e, 'is_end') and test(b.facts, atom_eq0(e.a['ret'])) is True:
            return True
    return False


def fieldof(v, el, fld):
    return v[0] == 'fld' and v[2] == fld and el(v[1])


def enumeration_params(ctx, f, n):
    """What each parameter of the constructor of the enumeration is: the configuration's field of that name."""
    ctx.need(f, 'constructor of the enumeration not found')
    fields = {x['n'] for x in ctx.record('ConfigNode')['fields']}
    out = ['#table' if 'FqElementTable' in tname(q['t']) else q['n'] for q in f['params']]
    if not all(q == '#table' or q in fields for q in out) and len(out) == 4:
        out = ['#table', 'genus', 'with_marked_point', 'package_size']
    for q in out:
        ctx.need(q == '#table' or q in fields, 'parameter %s of the enumeration has no counterpart in the configuration' % q)
    return out


# ------------------------------------------------------------------------------------------ C25
def helped(p):
    return any(a[0] == 'has' and v and a[2] == ('S', (('l', 'help'),)) for a, v in p.facts.items())


def true_of(facts, q, val):
    """Is the result of the predicate q on val known?"""
    r = None
    for a, v in facts.items():
        if a[0] == 'eqk' and a[2] == 0 and len(a[1]) == 1 and a[1][0][0][:2] == ('app', q) and a[1][0][0][2:] == val:
            r = not v
    return r


def refused(facts):
    """Facts that say that a configuration is not valid."""
    return [a for a, v in facts.items() if v and a[0] == 'eqk' and a[2] == 0 and len(a[1]) == 1 and a[1][0][0][:2] == ('app', VERIFY)]


VERIFY = 'ConfigNode::verify'


def facts_of(evs, facts):
    yield facts
    for e in evs:
        if e.kind == 'loop':
            yield e.a['xfacts']
            for a in e.a['alts']:
                yield from facts_of(a.events, a.facts)


def before(evs, x, facts):
    """The facts and the loops that have been passed when event x of a trace occurs."""
    loops_ = []
    for e in evs:
        if e is x:
            return facts, loops_
        if e.kind == 'loop':
            for a in e.a['alts']:
                r = before(a.events, x, a.facts)
                if r:
                    return r[0], loops_ + r[1]
            loops_.append(e)
    return None


def passes(le, pred, facts=None, evs=()):
    """Has every way through a loop that arrives at its exit gone through an iteration with pred?"""
    if pred(le.a['xfacts']):
        return True
    reach, todo = {0}, [0]
    while todo:
        h = todo.pop()
        for a in le.a['alts']:
            if a.src == h and not pred(a.facts) and a.dst not in reach:
                reach.add(a.dst)
                todo.append(a.dst)
    if le.a['head'] not in reach:
        return True
    # a counter that starts at zero, changes only in iterations with pred and is not zero afterwards
    before_ = list(evs)[:list(evs).index(le)] if le in evs else []
    for a, v in (facts or {}).items():
        if not v and len(a[1]) == 1 and (a[0] == 'eqk' and a[2] == 0 or a[0] == 'le' and a[1][0][1] > 0 and a[2] >= 0):
            t = a[1][0][0]
            if t[0] == 'iv' and t[1] == le.a['loop'].marker:
                l = t[2]
                init = [e for e in before_ if e.kind == 'w' and e.a['loc'] == l]
                if init and init[-1].a['val'] == C(0) and all(pred(b.facts) or not any(e.kind == 'w' and e.a['loc'] == l for e in flat(b.events)) for b in le.a['alts']):
                    return True
    return False


def verified_before(loops_, v):
    """Has an earlier loop verified every element of the container that v is an element of?"""
    for le in loops_:
        sw = sweep(le)
        if not sw or sw[0] != 'iter' or le.a['exit'] != 'cond' or not le.a['alts']:
            continue
        ok = True
        for a in le.a['alts']:
            vs = [e for e in flat(a.events) if e.kind == 'call' and e.a['q'] == VERIFY]
            ok &= bool(vs) and true_of(a.facts, VERIFY, (vs[-1].a['thisval'],)) is True and is_elem(base(vs[-1].a['thisval']), sw[1], sw[2])
            locs = {e.a['cloc'] for e in flat(a.events) if e.kind == 'elem' and is_elem(e.a['val'], sw[1], sw[2])}
            ok &= bool(locs)
        if ok and v[0] == 'fld':
            # the element is not changed any more
            x = le.a['xst'].mem
            if any(core(x.get(l[0], NULL)) == core(v[1]) for l in locs):
                return True
    return False


def c25(ctx):
    """No program configures its workers with a configuration that is not known to be valid, where valid means
    that the settings the enumeration divides by or counts to are nonzero and that the directory for results
    exists.  Paths on which something was refused do not end with exit status 0: a path with status 0 either
    computes or answers a request for help.  A named kind of results is one the program knows."""
    v = ctx.fn(VERIFY)
    qs, it = ctx.run(v, tag='verify')
    n = 0
    for p in qs:
        if p.kind != 'ret' or p.val == C(0):
            continue
        n += 1
        def fld(x):
            return ('fld', ('sym', 'this'), x)
        f = dict(p.facts)
        if p.val[0] == 'B' or p.val[0] != 'c':
            r = truth_atom(p.val)
            if r is False or r is not True and f.setdefault(r[0], r[1]) != r[1]:
                continue                                                 # it is not valid then
        for x in ('prime', 'prime_exponent', 'genus', 'count_exponent', 'package_size'):
            ok = test(f, atom_eq0(fld(x))) is False
            ctx.ob(ok, 'valid', x, v, 'a configuration is valid only if its %s is not zero' % x)
        d = fld('result_path')
        known = any(a[0] == 'eqk' and a[2] == 0 and not val and len(a[1]) == 1 and (
            a[1][0][0][0] == 'app' and a[1][0][0][1] in ('fs:is_directory', 'fs:exists') and a[1][0][0][2] == d
            or a[1][0][0][0] == 'call' and a[1][0][0][1].startswith('create_director')) for a, val in f.items())
        made_ = any(e.kind == 'fs' and e.a['op'].startswith('create_director') and e.a['args'] and e.a['args'][0] == d for e in flat(p.events))
        ctx.ob(known or made_, 'valid', 'result_path', v, 'a configuration is valid only if its directory for results exists or could be created')
    ctx.need(n, 'no path on which a configuration is valid')
    wroots = {f['fn'] for f in r_pool.worker_roots(ctx)}
    for m in ctx.fns(lambda f: f['q'] == 'main'):
        rec = dict((f['fn'], r) for f, r in mains(ctx)).get(m['fn'])
        ps, it = ctx.run(m, opaque=main_opaque(ctx, rec), tag='main' if rec else 'main25')
        if rec:
            with_pool(ctx, m, rec, ps, wroots)
        else:
            other(ctx, m, ps)
    ctx.assumptions.append('a program that terminates by an uncaught exception has a nonzero exit status; a configuration with a base field of composite order is not recognised as invalid by the programs')


def main_opaque(ctx, rec):
    if rec:
        return isopaque(ctx)
    base_ = isopaque(ctx)
    stores = {f['fn'] for f in ctx.p.functions.values() if (f.get('rec') or '').startswith(('FileStore', 'Store<', 'HyCu::')) or short(f['q']).split('::')[0] in ('Curve', 'FileStore', 'Store')}
    return lambda f: base_(f) or f['fn'] in stores


def status0(p):
    """May the path end the program with exit status 0?"""
    return p.kind == 'ret' and (p.val is None or p.val == VOID or p.val[0] != 'c' or p.val == C(0))


def with_pool(ctx, m, rec, ps, wroots):
    cs, as_ = ops(ctx, rec)
    k = 0
    for p in ps:
        for e in flat(p.events):
            if isop(cs)(e):
                k += 1
                v = e.a['args'][0] if e.a['args'] else NULL
                r = before(p.events, e, p.facts)
                ok = r and (true_of(r[0], VERIFY, (v,)) is True or verified_before(r[1], v))
                order = list(flat(p.events))
                if ok and true_of(r[0], VERIFY, (v,)) is True:
                    ok = any(x.kind == 'call' and x.a['q'] == VERIFY and x.a['thisval'] == v for x in order[:order.index(e)])
                ctx.ob(ok, 'configured-valid', prog(m), e, 'the workers are given a configuration only after it was found to be valid as it is')
        for e in aborts(p):
            if e.a.get('args'):
                ctx.ob(e.a['args'][-1] != C(0), 'abort-status', prog(m), e, 'aborting reports an error')
        if p.kind == 'exc' or p.kind == 'dead':
            for e in flat(p.events):
                if e.kind == 'die' and e.a.get('args') and e.a.get('q', '').endswith('exit'):
                    ctx.ob(e.a['args'][0] != C(0), 'exit-status', prog(m), e, 'exit reports an error')
            continue
        if not status0(p) or any(e.kind == 'call' and e.a.get('fnid') in wroots for e in flat(p.events)):
            continue
        bad = next((f for f in facts_of(p.events, p.facts) if refused(f)), None)
        ctx.ob(not bad, 'refused', prog(m), where(p, None, m), 'the program does not succeed when a configuration was refused')
        if not made(p, rec):
            ctx.ob(helped(p), 'refused-start', prog(m) + ': ' + pathkey(p), where(p, None, m), 'the program succeeds without computing only when it is asked for help', 'path: ' + pathtext(p))
            continue
        kinds(ctx, m, p)
    ctx.need(k, '%s: the workers are never configured' % prog(m))


def kinds(ctx, m, p):
    """The entry that names the kind of results."""
    root = next((x for a in list(p.facts) for x in subterms(a) if isinstance(x, tuple) and x[:2] == ('app', 'YAML::LoadFile')), None)
    ctx.need(root, '%s: the input is not read' % prog(m))
    nd = ('app', 'yaml[]', root, C('StoreType'))
    t = yaml_test(p.facts, nd)
    lit = any(a[0] == 'eq' and v and any(isinstance(x, tuple) and x[:3] == ('app', 'yaml.as', nd) for x in subterms(a)) and ground(a) for a, v in p.facts.items())
    ctx.ob(t is False or lit, 'known-kind', prog(m), where(p, None, m), 'the program computes only if no kind of results is named or it is one that it knows',
           'nothing is known about the name' if t else 'it is not looked at')


def ground(a):
    """Does the equality compare with a literal?"""
    return any(t[0] in ('c', 'S') or t[0] == 'ptr' and t[1][0][0] == 'r' for t in a[1:3] if isinstance(t, tuple) and t)


def other(ctx, m, ps):
    """The merger and the program for a single curve."""
    key = prog(m)
    single = any(e.kind == 'call' and e.a['q'] == SINGLE for p in ps for e in flat(p.events))
    n = 0
    for p in ps:
        for e in flat(p.events):
            if e.kind == 'call' and e.a['q'] == SINGLE:
                n += 1
                valid_curve(ctx, m, p, e)
        if not status0(p):
            continue
        did = any(e.kind == 'call' and e.a['q'] == SINGLE for e in flat(p.events)) if single else any(e.kind in ('fopen', 'fwrite') for e in flat(p.events))
        if not did:
            ctx.ob(helped(p), 'refused-start', key + ': ' + pathkey(p), where(p, None, m), 'the program succeeds without computing only when it is asked for help', 'path: ' + pathtext(p))
    if not single:
        n = sum(1 for p in ps if any(e.kind == 'fopen' for e in flat(p.events)))
    ctx.need(n, '%s: the computation was not found' % key)


def valid_curve(ctx, m, p, e):
    key = prog(m)
    q, cs = e.a['args'][:2]
    facts, loops_ = before(p.events, e, p.facts)
    prime = lambda f: any(a[0] == 'eqk' and a[2] == 0 and not v and len(a[1]) == 1 and a[1][0][0][0] == 'app' and a[1][0][0][1].startswith('n_is_prime') and a[1][0][0][2] == q for a, v in f.items())
    ctx.ob(prime(facts), 'prime', key, e, 'a curve is built only over a field of prime order')
    ctx.ob(test(facts, atom_eqv(q, C(2))) is False, 'odd', key, e, 'a curve is built only over a field of odd order')

    def nonconstant(f):
        for a, v in f.items():
            if a[0] == 'eqk' and a[2] == 0 and not v and len(a[1]) == 1:
                t = a[1][0][0]
                if t[:2] == ('app', '%') and t[3] == q and t[2][0] == 'fld' and t[2][1] == cs and t[2][2][0] in ('x', 'sx'):
                    i = t[2][2][1]
                    if test(f, atom_lt(C(0), i)) is True or i[0] == 'c' and i[1] > 0 or i[0] != 'c' and test(f, atom_eqv(i, C(0))) is False:
                        return True
        return False
    ok = nonconstant(facts) or any(passes(le, nonconstant, facts, p.events) for le in loops_)
    ctx.ob(ok, 'nonconstant', key, e, 'a curve is built only from a polynomial that is not constant')


RULES = {'C24': c24, 'C25': c25, 'C33': c33}
