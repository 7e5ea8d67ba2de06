"""Rules about workers: races (C01), wake-ups (C02), locks (C03), finished reports (C05), the block loop
(C06), pool bookkeeping (C07)."""
from lib import *
import models

COMPUTE = ('Curve::', 'FqElementTable::', 'ReductionTable::', 'BlockIterator::', 'Store::register_curve')


def worker_opaque(f):
    return short(f['q']).startswith(COMPUTE)


def ctl_opaque(f):
    return short(f['q']).startswith(('Curve::', 'FqElementTable::', 'ReductionTable::', 'BlockIterator::'))


def spawns(ctx):
    """Every construction of a thread: [(function value, event)], found by running what contains one."""
    if hasattr(ctx, '_spawns'):
        return ctx._spawns
    out = []
    for rec in ('Thread', 'ThreadPool'):
        for f in ctx.entries(rec):
            if f.get('dtor') or f.get('lambda'):
                continue
            if f['q'] in worker_names(ctx):
                continue
            ps, it = ctx.run(f, opaque=ctl_opaque, tag='ctl')
            for e in allevs(ps):
                if e.kind == 'spawn':
                    out.append((e.a['f'], e))
    ctx.need(out, 'no thread is started by Thread or ThreadPool')
    ctx._spawns = out
    return out


def worker_names(ctx):
    """Names of the functions that thread objects are constructed from (syntactically)."""
    if hasattr(ctx, '_wn'):
        return ctx._wn
    out = set()
    for f in ctx.p.functions.values():
        for n in walk(f.get('body') or []):
            c = n.get('callee') or n.get('ctor')
            q = c.get('q') if isinstance(c, dict) else (c if isinstance(c, str) else '')
            t = (n.get('t') or {}).get('s', '') if isinstance(n.get('t'), dict) else ''
            if n.get('k') in ('construct', 'call', 'new') and (t in ('std::thread', 'std::jthread') or str(q).startswith(('std::async', 'std::thread::thread', 'std::jthread'))):
                for m in walk(n):
                    if m.get('rk') == 'func' and isinstance(m.get('callee'), dict):
                        out.add(m['callee']['q'])
                    if m.get('k') == 'lambda':
                        lf = ctx.p.functions.get(m.get('fn') or '')
                        for b in walk((lf or {}).get('body') or m.get('body') or []):
                            c2 = b.get('callee')
                            if isinstance(c2, dict) and c2.get('fn') in ctx.p.functions:
                                out.add(c2['q'])
    ctx._wn = {q for q in out if q in ctx.p.byq and not q.startswith('std::')}
    return ctx._wn


def roots(ctx):
    """Functions executed by worker threads."""
    ns = worker_names(ctx)
    fs = [f for q in sorted(ns) for f in ctx.p.find(q) if f.get('body')]
    # the outermost ones: what a root calls itself is not a root of its own
    g = ctx.callgraph()
    called = set()
    for f in fs:
        r = ctx.reachable([f['fn']])
        called |= {x for x in r if x != f['fn']}
    fs2 = [f for f in fs if f['fn'] not in called] or fs
    ctx.need(fs2, 'no function is started as a thread')
    return fs2


def ctl_runs(ctx, rec):
    rn = {f['fn'] for f in roots(ctx)}
    out = []
    for f in ctx.entries(rec):
        if f['fn'] in rn or f.get('lambda') or f.get('dtor') and not f.get('body'):
            continue
        ps, it = ctx.run(f, opaque=ctl_opaque, tag='ctl')
        out.append((f, ps, it))
    return out


def shared_fields(ctx, rec):
    """Members of rec that code on the controlling side writes."""
    out = set()
    for f, ps, it in ctl_runs(ctx, rec):
        if f.get('ctor'):
            continue
        for e in allevs(ps):
            l = mutates(e)
            b = fieldof(l) if l else None
            while b:
                if b[0] == (('o', 'this'), ()):
                    out.add(b[1])
                b = fieldof(b[0])
    syncs = {f['n'] for f in ctx.record(rec)['fields'] if sync_type(f['t'])}
    return out - syncs


def sync_type(t):
    n = models.family(t) if t else ''
    return n in models.MUTEXES or n in ('std::condition_variable', 'std::condition_variable_any', 'std::thread', 'std::jthread')


def worker_runs(ctx):
    sh = {'Thread': shared_fields(ctx, 'Thread')}
    out = []
    for f in roots(ctx):
        ps, it = ctx.run(f, opaque=worker_opaque, shared=sh, tag='worker')
        out.append((f, ps, it))
    return out


# ------------------------------------------------------------------------------------------ C02
def c02(ctx):
    """Wake-up protocol.  At each wait of the worker the facts established since the mutex was taken must
    include, for every write of the controlling side that is announced by a notification, a fact which
    that write falsifies; every such write must be made under the mutex of the wait, on the same worker
    object, and be followed (or preceded in the same critical section) by a notification of the condition
    variable of the wait on every path; after waking up the worker takes a block only under a fact that
    the queue is not empty and returns only under facts that the stop request establishes."""
    wr = worker_runs(ctx)
    waits, takes, rets = [], [], []
    for f, ps, it in wr:
        seen = set()
        for e in allevs(ps):
            if e.kind == 'wait':
                waits.append((f, e))
            if e.kind == 'cop' and e.a['op'] in ('front', 'back', 'pop_front', 'pop_back', 'at') and isblockqueue(ctx, e.a['loc']):
                takes.append((f, e))
        for p in ps:
            if p.kind == 'ret':
                rets.append((f, p))
    # what the controlling side writes, and announces
    sh = shared_fields(ctx, 'Thread')
    relevant = set()
    for f, e in waits:
        for l, v in e.a['snap']:
            for a in e.facts:
                if contains(a, {v}):
                    relevant.add(l[1][-1])
    for f, p in rets:
        for fld in sh:
            v = fieldval(p, fld)
            if v is not None and any(contains(a, {v}) for a in p.facts):
                relevant.add(fld)
    for f, e in takes:
        relevant.add(e.a['loc'][1][-1])
    ctx.need(waits or takes, 'the worker neither waits nor takes blocks')
    # 1. the waits
    for f, e in waits:
        w = e.a['mutexes']
        ctx.ob(w and all(m in e.locks for m in w), 'wait-holds-mutex', f['q'] + ': wait', e, 'the wait releases a mutex that the worker holds')
        if e.a['timed']:
            continue
        cvl = fieldof(e.a['cv'])
        for g, ps, it in ctl_runs(ctx, 'Thread'):
            if g.get('ctor') or g.get('dtor'):
                continue
            for p in ps:
                if p.kind == 'ret':
                    check_announcement(ctx, f, e, g, p, relevant, cvl)
        # 2. facts that announcements falsify
        for fld in sorted(relevant):
            sn = [v for l, v in e.a['snap'] if l[1][-1] == fld]
            if not sn:
                ctx.ob(False, 'wait-predicate', '%s: %s' % (f['q'], fld), e, 'the mutex of the wait guards ' + fld)
                continue
            fs = [(a, x) for a, x in e.facts.items() if contains(a, {sn[0]})]
            ctx.ob(fs, 'wait-predicate', '%s: %s' % (f['q'], fld), e,
                   'when the worker goes to sleep it has examined %s since it took the mutex' % fld,
                   'no fact about %s holds at the wait: a change made before the worker slept would be missed' % fld)
            for g, ps, it in ctl_runs(ctx, 'Thread'):
                ps = [p for p in ps if any(x.kind == 'notify' for x in flat(p.events))]
                for nv, ev in announced_values(ps, fld):
                    r = [falsifies(e.facts, a, x, sn[0], nv, ev.a.get('old')) for a, x in fs]
                    ctx.ob(True in r, 'wait-predicate-falsified',
                           '%s: %s written by %s' % (f['q'], fld, g['q']), e,
                           'the value that %s gives %s contradicts what the worker knew when it went to sleep' % (g['q'], fld),
                           'the worker goes to sleep although %s may already have the value written by %s' % (fld, g['q']))
    # 3. taking blocks
    if not waits:
        for f, p in rets:
            pass
    for f, e in takes:
        old = e.a['old']
        t = test(e.facts, neg_empty(old))
        ctx.ob(e.locks and t is True, 'take-nonempty', '%s: %s' % (f['q'], e.a['op']), e,
               'the worker takes a block under its mutex and under a check that there is one',
               'not known to be nonempty' if e.locks else 'no mutex held')
    ctx.need(takes, 'the worker takes no block from a queue')
    # 4. returning only on request, and the request makes it return
    stopfacts = {}
    for f, p in rets:
        ok = False
        for fld in sh:
            v = fieldval(p, fld)
            if v is None or v == ('undef',):
                continue
            for a, x in p.facts.items():
                if contains(a, {v}):
                    stopfacts.setdefault(fld, []).append((a, x, v, p))
                    ok = True
        ctx.ob(ok, 'return-on-request', f['q'] + ': return', f, 'the worker returns only after it has seen the request to stop')
    stop = ctx.fn('Thread::shutdown', required=False)
    ctx.need(stop, 'anchor Thread::shutdown not found')
    ps, it = ctx.run(stop, opaque=ctl_opaque, tag='ctl')
    for p in ps:
        if p.kind != 'ret':
            continue
        sets = False
        for fld, l in stopfacts.items():
            nv = [v for v, ev in announced_values([p], fld)]
            if nv and all(falsifies({}, a, not x, v, nv[-1], None) for a, x, v, _ in l):
                sets = True
        ctx.ob(sets, 'shutdown-requests', stop['q'], stop, 'on every path Thread::shutdown gives the flag the value on which the worker returns')
    asg = ctx.fn('Thread::assign', required=False)
    ctx.need(asg, 'anchor Thread::assign not found')
    ps, it = ctx.run(asg, opaque=ctl_opaque, tag='ctl')
    for p in ps:
        if p.kind == 'ret':
            n = count(p.events, lambda e: e.kind == 'cop' and e.a['op'] in ('push_back', 'push_front', 'insert') and isblockqueue(ctx, e.a['loc']))
            ctx.ob(n == {1}, 'assign-enqueues', asg['q'], asg, 'Thread::assign puts the block into the queue of the worker exactly once', 'pushes: %s' % sorted(n))


def neg_empty(v):
    return neg(atom_eq0(size(v)))


def fieldval(p, fld):
    """Final value of member fld of the worker object of a path."""
    for root, v in p.st.mem.items():
        if root[0] == 'd' or root == ('o', 'this'):
            x = get(p.facts, v, fld)
            if x != UNDEF and not (x[0] == 'fld' and x[1] == v):
                return x
    return None


def isblockqueue(ctx, loc):
    b = fieldof(loc)
    if not b:
        return False
    for f in ctx.record('Thread')['fields']:
        if f['n'] == b[1]:
            s = tname(f['t'])
            return ('deque' in s or 'vector' in s or 'list' in s or 'queue' in s) and 'vector<std::tuple<unsigned int, unsigned int' in s or \
                ('tuple<std::vector<std::tuple<unsigned int, unsigned int' in s)
    return False


def announced_values(ps, fld):
    for e in allevs(ps):
        l = mutates(e)
        b = fieldof(l) if l else None
        if b and b[1] == fld:
            yield (e.a['val'] if e.kind == 'w' else e.a.get('new')), e


def falsifies(facts, atom, val, v, nv, old):
    """Does giving the shared value v the value nv contradict the literal (atom, val)?  True/False/None."""
    if nv is None:
        return None
    m = {v: nv}
    if nv[0] == 'S':
        # an appended queue: its old content is unknown
        m[('size', v)] = size(nv)
    a = subst(atom, m)
    if a == atom:
        return None
    a2 = I_.renorm_atom(a)
    if a2[0] == 'const':
        return a2[1] != val
    pol = True
    if a2[0] == 'not':
        a2, pol = a2[1], False
    d = decide({}, a2)
    if d is None:
        return None
    return (d == pol) != val


def check_announcement(ctx, f, w, g, p, relevant, cvl):
    """Along path p of control entry g: writes that can wake the worker are locked and notified."""
    cs = {'n': 0}
    facts = {l[1][-1]: v for l, v in w.a['snap']}
    mfield = w.a['mutexes'][0][1][-1] if w.a['mutexes'] and w.a['mutexes'][0][1] else None
    spawned = any(e.kind == 'spawn' for e in flat(p.events))

    def is_wake(e):
        l = mutates(e)
        b = fieldof(l) if l else None
        if not b or b[1] not in relevant:
            return None
        nv = e.a['val'] if e.kind == 'w' else e.a.get('new')
        v = facts.get(b[1])
        if v is None or nv is None:
            return None
        lits = [(a, x) for a, x in w.facts.items() if contains(a, {v})]
        if lits and all(falsifies({}, a, x, v, nv, None) is False for a, x in lits):
            return None
        return b
    # state: (base of pending write or None, notified in this critical section, before spawn)
    def step(s, e):
        pend, early, born = s
        if e.kind == 'spawn':
            return ((pend, early, True),)
        if e.kind == 'notify':
            b = fieldof(e.a['cv'])
            if b and cvl and b[1] == cvl[1]:
                held = any(m[1] and m[1][-1] == mfield for m in e.locks)
                return ((None if pend == b[0] else pend, held and b[0], born),)
            return (s,)
        if e.kind == 'unlock':
            return ((pend, None, born),)
        b = is_wake(e)
        if b:
            locked = any(m == (b[0][0], b[0][1] + (mfield,)) for m in e.locks)
            ctx.ob(locked, 'announce-locked', '%s: %s' % (g['q'], b[1]), e,
                   'what the worker waits for is changed under the mutex of the wait, on the same object')
            if early == b[0] and locked:
                return (s,)
            return ((b[0], early, born),)
        return (s,)
    end = automaton(p.events, {(None, None, False)}, step)
    for pend, _, _ in end:
        ctx.ob(pend is None, 'announce-notify', g['q'], g,
               'after a change that the worker waits for its condition variable is notified on every path',
               'a path through %s changes what the worker waits for and does not notify it afterwards' % g['q'])


# ------------------------------------------------------------------------------------------ C05
def publishes(e):
    return e.kind == 'call' and short(e.a['q']).endswith('::flush_to_static_store')


def finishes(e):
    return e.kind == 'call' and short(e.a['q']) == 'ThreadPool::finished_block'


def takes_block(ctx, e):
    return e.kind == 'cop' and e.a['op'] in ('pop_front', 'pop_back') and isblockqueue(ctx, e.a['loc'])


def is_block_of(t, entry):
    """Is t the block of a queue entry (the entry itself, or its component)?"""
    t = unwrap(t)
    return t == unwrap(entry) or is_part(t, entry) or any(t == unwrap(get({}, entry, k)) for k in (0, '0', ('i', 0), 'block', 'first'))


def is_part(t, entry):
    """Is t a component of a queue entry?  (Which one follows from the types.)"""
    t = unwrap(t)
    if t[0] == 'fld' and t[1] == entry:
        return not (isinstance(t[2], tuple) and t[2][0] in ('x', 'k', 'n', 'sx'))
    return entry[0] == 'O' and any(unwrap(v) == t for _, v in entry[2])


def c05(ctx):
    """Order of the events of one block in the worker (typestate: idle, taken, published): a block is taken
    only when the previous one was reported; between taking it and reporting it the store that collected
    its curves is flushed with exactly that block, once, on every path; the report names that block, once;
    the worker returns only when idle.  ThreadPool::finished_block enters exactly that block once into the
    list of finished blocks on every path that returns; ThreadPool::flush_finished_blocks returns that list
    and leaves it empty; both pools remove from their books exactly what is reported."""
    for f, ps, it in worker_runs(ctx):
        done = {'n': 0}

        def step(s, e):
            ph, b = s
            if takes_block(ctx, e):
                ctx.ob(ph == 'idle', 'take-when-idle', f['q'], e, 'a block is taken only when the one before was reported',
                       'a block is taken while another is ' + ph)
                return (('taken', popped(e)),)
            if publishes(e):
                done['n'] += 1
                ok = ph == 'taken' and is_block_of(e.a['args'][0], b)
                ctx.ob(ok, 'publish-taken-block', f['q'], e, 'the store is flushed once, under the block that was taken',
                       'state ' + ph if ph != 'taken' else 'flushed under another block: ' + show(e.a['args'][0]))
                return (('published', b),)
            if finishes(e):
                ok = ph == 'published' and is_block_of(e.a['args'][0], b)
                ctx.ob(ok, 'report-after-publish', f['q'], e, 'the block is reported finished once, after its results are in the global store',
                       {'idle': 'reported twice', 'taken': 'reported before its results are published'}.get(ph, 'another block is reported'))
                return (('idle', None),)
            return (s,)
        for p in ps:
            end = automaton(p.events, {('idle', None)}, step)
            if p.kind == 'ret':
                ctx.ob(all(x[0] == 'idle' for x in end), 'no-block-lost', f['q'] + ': return', f,
                       'the worker returns only when no block is taken and unreported')
            if p.kind == 'exc':
                ctx.ob(False, 'no-block-lost', f['q'] + ': exception', f, 'no exception leaves the worker')
            for le in loops(p.events):
                for a in le.a['alts']:
                    pass
        ctx.need(done['n'], 'the worker publishes nothing')
        # every loop alternative that takes a block reports it before the loop comes round
        for p in ps:
            for le in p.events:
                if le.kind == 'loop':
                    for a in le.a['alts']:
                        out = automaton(a.events, {('idle', None)}, lambda s, e: step(s, e))
                        ctx.ob(all(x[0] == 'idle' for x in out), 'no-block-lost', f['q'] + ': iteration', le,
                               'every block that an iteration takes is reported in it',
                               'an iteration ends with a block that is ' + '/'.join(sorted({x[0] for x in out})))
    fb = ctx.fn('ThreadPool::finished_block')
    ff = ctx.fn('ThreadPool::flush_finished_blocks')
    fins = [x['n'] for x in ctx.record('ThreadPool')['fields'] if block_list(x['t'])]
    ctx.need(fins, 'ThreadPool has no list of finished blocks')
    arg = ('sym', 'arg:' + fb['params'][0]['n'])
    ps, it = ctx.run(fb, opaque=ctl_opaque, tag='ctl')
    target = set()
    for p in ps:
        if p.kind != 'ret':
            continue
        pushes = [e for e in flat(p.events) if e.kind == 'cop' and e.a['op'] in ('push_back', 'push_front', 'insert', 'insert_present')
                  and e.a['loc'][1][-1:] and e.a['loc'][1][-1] in fins]
        n = count(p.events, lambda e: e in pushes)
        ctx.ob(n == {1} and pushes[0].a['args'][-1 if pushes[0].a['op'] != 'insert' else 0] == arg, 'record-finished', fb['q'], fb,
               'the block is entered exactly once into the list of finished blocks', 'entered %s times' % sorted(n) if n != {1} else 'another value is entered')
        target |= {e.a['loc'] for e in pushes}
    ps, it = ctx.run(ff, opaque=ctl_opaque, tag='ctl')
    for p in ps:
        if p.kind != 'ret':
            continue
        for loc in target:
            old = locval(loc)
            ctx.ob(p.val == old or listing_of(p, old), 'hand-out-finished', ff['q'] + ': result', ff, 'the whole list of finished blocks is returned', show(p.val))
            cur = it.load(p.st, loc)
            emp = test(p.facts, atom_eq0(size(cur))) is True or cur[0] == 'moved' or moved_out(p, loc)
            ctx.ob(emp, 'hand-out-finished', ff['q'] + ': emptied', ff, 'a finished block is handed out once', 'the list is not emptied: ' + show(cur))


def listing_of(p, old):
    return old is not None and p.val[0] == 'S' and p.val[1] == (('b', old),)


def moved_out(p, loc):
    m = False
    for e in flat(p.events):
        if e.kind == 'moved' and e.a['loc'] == loc:
            m = True
        elif mutates(e) == loc and e.kind != 'moved':
            m = False
    return m


def block_list(t):
    n = tname(t)
    return n.startswith(('std::vector<std::vector<std::tuple<unsigned int, unsigned int', 'std::deque<std::vector<std::tuple<unsigned int, unsigned int',
                         'std::list<std::vector<std::tuple<unsigned int, unsigned int', 'std::set<std::vector<std::tuple<unsigned int, unsigned int'))


# ------------------------------------------------------------------------------------------ C06
def isq(e, *names):
    return e.kind == 'call' and short(e.a['q']).split('::')[-1] in [n.split('::')[-1] for n in names] and \
        any(short(e.a['q']).endswith(n) for n in names)


def truth_of(facts, v):
    """Truth of a boolean value under facts: True, False or None."""
    if isint(v):
        return bool(v[1])
    return test(facts, truth_atom(v))


def calls_on(evs, q, obj):
    return [e for e in flat(evs) if e.kind == 'call' and short(e.a['q']) == q and e.a['this'] == ('ptr', obj)]


def c06(ctx):
    """Structure of the worker's loop over a block, on every abstract path.  The iterator is built from the
    block that was taken and advanced exactly once per iteration until is_end; each iteration builds one
    curve from the field table of the queue entry and the position of the iterator; where the fact that its
    right hand side is squarefree is known to be true the curve is registered exactly once, after a complete
    sweep over the reduction tables of the entry that counts this curve with each, and in the store that is
    flushed later; where it is false nothing is registered.  Queue entries carry the tables of the worker,
    and Thread::update_config builds tables for the exponents e, 2e, .., c*e of the configuration."""
    for f, ps, it in worker_runs(ctx):
        for p in ps:
            c06_scan(ctx, f, p.events, None)
    ctx.need('block-loop' in {o.rule for o in ctx.obs.values()}, 'no loop over the positions of a block in the worker')
    # what a queue entry carries
    asg = ctx.fn('Thread::assign')
    ps, it = ctx.run(asg, opaque=ctl_opaque, tag='ctl')
    fq = [x['n'] for x in ctx.record('Thread')['fields'] if 'FqElementTable' in tname(x['t']) and not isblockqueue(ctx, (('o', 'this'), (x['n'],)))]
    rt = [x['n'] for x in ctx.record('Thread')['fields'] if 'ReductionTable' in tname(x['t']) and not isblockqueue(ctx, (('o', 'this'), (x['n'],)))]
    this = ('sym', 'this')
    for e in allevs(ps):
        if e.kind == 'cop' and e.a['op'] in ('push_back', 'push_front', 'insert') and isblockqueue(ctx, e.a['loc']):
            v = e.a['args'][0]
            parts = [get({}, v, k) for k in (0, 1, 2)]
            ok = parts[0] == ('sym', 'arg:' + asg['params'][0]['n'])
            ctx.ob(ok, 'queue-entry', asg['q'] + ': block', e, 'the queue entry carries the block that was assigned')
            if len(fq) == 1 and len(rt) == 1:
                ctx.ob(parts[1] == ('fld', this, fq[0]) and parts[2] == ('fld', this, rt[0]), 'queue-entry', asg['q'] + ': tables', e,
                       'the queue entry carries the tables of the present configuration')
    # the tables of a configuration
    up = ctx.fn('Thread::update_config')
    ps, it = ctx.run(up, opaque=lambda f: False, tag='tables')
    for p in ps:
        if p.kind != 'ret':
            continue
        nfq = [e for e in p.events if e.kind == 'ctor' and e.a['rec'] == 'FqElementTable']
        P = nfq[0].a['args'][0] if nfq else None
        E = nfq[0].a['args'][1] if nfq else None
        ok = len(nfq) == 1 and fldname(P) == 'prime' and fldname(E) == 'prime_exponent' and P[1] == E[1]
        ctx.ob(ok, 'tables-of-config', up['q'] + ': field table', up, 'the field table is built for the prime and the exponent of the configuration')
        if not ok:
            continue
        end = it.load(p.st, (('o', 'this'), (fq[0],)))
        ctx.ob(end == ('ptr', nfq[0].a['loc']), 'tables-of-config', up['q'] + ': field table kept', up, 'the new field table becomes that of the worker', show(end))
        les = [le for le in p.events if le.kind == 'loop' and any(e.kind == 'ctor' and e.a['rec'] == 'ReductionTable' for a in le.a['alts'] for e in flat(a.events))]
        ctx.ob(len(les) == 1, 'tables-of-config', up['q'] + ': loop', up, 'one loop builds the reduction tables')
        if len(les) != 1:
            continue
        le = les[0]
        empt = [e for e in p.events[:p.events.index(le)] if mutates(e) == (('o', 'this'), (rt[0],))]
        okc = bool(empt) and test(empt[-1].facts, atom_eq0(size((empt[-1].a.get('new') if empt[-1].kind == 'cop' else empt[-1].a['val'])))) is True
        fresh_list = any(e.kind == 'w' and e.a['loc'] == (('o', 'this'), (rt[0],)) for e in p.events[p.events.index(le):])
        ctx.ob(okc or fresh_list, 'tables-of-config', up['q'] + ': cleared', up, 'tables of an earlier configuration are dropped')
        cnt = ('fld', P[1], 'count_exponent')
        for a in le.a['alts']:
            cs = [e for e in a.events if e.kind == 'ctor' and e.a['rec'] == 'ReductionTable']
            pushes = [e for e in a.events if e.kind == 'cop' and e.a['op'] in ('push_back', 'push_front', 'insert') and cs and ('ptr', cs[0].a['loc']) in e.a['args']]
            ok = len(cs) == 1 and len(pushes) == 1 and cs[0].a['args'][0] == P
            ctx.ob(ok, 'tables-of-config', up['q'] + ': table', le, 'each iteration builds one table over the prime of the configuration and keeps it')
            if not ok:
                continue
            arg = cs[0].a['args'][1]
            good, why = covers_multiples(p.events, le, a, arg, E, cnt)
            ctx.ob(good, 'tables-of-config', up['q'] + ': exponents', cs[0],
                   'the loop builds a table for each of e, 2e, .., count_exponent*e and for no other exponent', why)


def fldname(v):
    return v[2] if v and v[0] == 'fld' else None


def covers_multiples(before, le, alt, arg, E, cnt):
    """Does arg run through exactly E, 2E, .., cnt*E in the iterations of the loop?"""
    vs = {t for t in subterms_atom(arg) if t[0] in ('iv', 'w')}
    if len(vs) != 1:
        return False, 'the exponent depends on %d loop variables' % len(vs)
    v = vs.pop()
    start, step = progress(before, le, alt, v)
    if start is None or step is None:
        return False, 'no progression found for the loop variable'
    if not isint(step) and contains(step, {v}):
        return False, 'no progression found for the loop variable'
    total = mul(E, cnt)
    first = subst(arg, {v: start})
    d = sub(subst(arg, {v: add(v, step)}), arg)
    if arg == mul(v, E) and isint(step):
        first, d = mul(start, E), mul(step, E)
    if first == total and d == scale(E, -1):
        goes, stops = E, C(0)
    elif first == E and d == E:
        goes, stops = total, add(total, E)
    else:
        return False, 'first exponent %s, difference %s' % (show(first), show(d))
    if arg == mul(v, E):
        g, st = {E: (C(1), C(0)), total: (cnt, add(cnt, C(1)))}[goes]
    elif not contains(sub(arg, v), {v}):
        g, st = sub(goes, sub(arg, v)), sub(stops, sub(arg, v))
    else:
        return False, 'exponent %s' % show(arg)
    pos = {}
    for t in (E, cnt, total):
        a, pol = atom_le(t, 0)
        pos[a] = not pol
    for a, val in le.a['xfacts'].items():
        if contains(a, {v}):
            x, y = decide_at(a, v, st, pos), decide_at(a, v, g, pos)
            if x is not None and y is not None and x == val and y != val:
                return True, ''
    return False, 'the loop does not end right after the exponent %s' % show(goes)


def decide_at(a, v, x, pos):
    b = I_.renorm_atom(subst(a, {v: x}))
    if b[0] == 'const':
        return b[1]
    pol = True
    if b[0] == 'not':
        b, pol = b[1], False
    d = decide(pos, b)
    return None if d is None else d == pol


def progress(before, le, alt, v):
    """(start, step) of the loop variable v."""
    for e in flat(alt.events):
        if e.kind == 'w' and e.a.get('old') == v:
            loc = e.a['loc']
            step = sub(e.a['val'], v)
            if contains(step, {v}):
                return None, None
            start = None
            for b in before:
                if b is le:
                    break
                if b.kind == 'w' and b.a['loc'] == loc:
                    start = b.a['val']
            return start, step
    return None, None


def c06_scan(ctx, f, evs, entry):
    """Walks a trace of the worker looking for the processing of a block."""
    last = entry
    iters, stores = {}, []
    for i, e in enumerate(evs):
        if takes_block(ctx, e):
            last = popped(e)
            iters = {}
        if e.kind == 'ctor' and short(e.a['q']) == 'BlockIterator::BlockIterator':
            a = e.a['args'][0] if e.a['args'] else None
            iters[e.a['loc']] = a
            ctx.ob(last is not None and is_block_of(a, last), 'iterates-taken-block', f['q'], e,
                   'the positions of the block that was taken are enumerated', show(a))
        if e.kind == 'loop':
            regs = [x for a in e.a['alts'] for x in flat(a.events) if isq(x, '::register_curve')]
            cur = [x for a in e.a['alts'] for x in a.events if x.kind == 'ctor' and x.a['rec'] == 'Curve']
            if cur:
                c06_loop(ctx, f, e, evs[i + 1:], last, iters)
            elif regs and not any(takes_block(ctx, x) for a in e.a['alts'] for x in flat(a.events)):
                ctx.ob(False, 'block-loop', f['q'], e, 'curves are built where they are registered')
            else:
                for a in e.a['alts']:
                    c06_scan(ctx, f, a.events, last)
        elif isq(e, '::register_curve'):
            ctx.ob(False, 'registered-in-loop', f['q'], e, 'curves are registered only in the loop over the positions of the block')


def c06_loop(ctx, f, le, rest, entry, iters):
    q = f['q']
    pub = [e for e in flat(rest) if publishes(e)]
    part = lambda x: entry is not None and is_part(x, entry)
    # the iterator: the one that is stepped
    for a in le.a['alts']:
        it = [l for l in iters if calls_on(a.events, 'BlockIterator::step', l)]
        ok = len(it) == 1 and count(a.events, lambda e: e.kind == 'call' and short(e.a['q']) == 'BlockIterator::step') == {1}
        ctx.ob(ok, 'block-loop', q + ': step', le, 'each iteration moves the iterator of the block by exactly one position')
        if not ok:
            continue
        itl = it[0]
        cs = [e for e in a.events if e.kind == 'ctor' and e.a['rec'] == 'Curve']
        ctx.ob(len(cs) == 1, 'block-loop', q + ': curve', le, 'each iteration builds exactly one curve')
        if len(cs) != 1:
            continue
        c = cs[0]
        pos = [e for e in a.events if e.kind == 'call' and short(e.a['q']) == 'BlockIterator::as_position' and e.a['this'] == ('ptr', itl)]
        stepi = [i for i, e in enumerate(a.events) if e.kind == 'call' and short(e.a['q']) == 'BlockIterator::step']
        good = [e for e in pos if e.a['ret'] == c.a['args'][1] and stepi and a.events.index(e) < stepi[0]]
        ctx.ob(bool(good), 'curve-at-position', q, c, 'the curve is built from the present position of the iterator', show(c.a['args'][1]))
        ctx.ob(part(c.a['args'][0]), 'curve-over-configured-field', q, c, 'the curve is built over the field table of the queue entry', show(c.a['args'][0]))
        sq = calls_on(a.events, 'Curve::has_squarefree_rhs', c.a['loc'])
        known = [truth_of(a.facts, e.a['ret']) for e in sq]
        t = True if True in known else (False if False in known else None)
        n = count(a.events, lambda e: isq(e, '::register_curve'))
        if t is None:
            ctx.ob(n == {0}, 'squarefree-first', q, le, 'a curve is registered only after its polynomial was found to be squarefree',
                   'registered on a path that does not know it')
            ctx.ob(n != {0}, 'squarefree-registered', q, le, 'every squarefree polynomial is registered exactly once', 'a path skips the polynomial without knowing that it is not squarefree')
            continue
        if t is False:
            ctx.ob(n == {0}, 'nonsquarefree-skipped', q, le, 'a polynomial that is not squarefree is never registered')
            continue
        ctx.ob(n == {1}, 'squarefree-registered', q, le, 'every squarefree polynomial is registered exactly once', 'registered %s times' % sorted(n))
        seen = False
        for i, e in enumerate(a.events):
            if e.kind == 'loop':
                if any(isq(x, '::register_curve') for b in e.a['alts'] for x in flat(b.events)):
                    ctx.ob(False, 'squarefree-registered', q, e, 'every squarefree polynomial is registered exactly once', 'registered inside an inner loop')
                ok = bool(e.a['alts'])
                for b in e.a['alts']:
                    et = elem_test(e, b)
                    ok = ok and et is not None and et[0][0] == 'val' and part(et[0][1]) and \
                        count(b.events, lambda x: x.kind == 'call' and short(x.a['q']) == 'Curve::count' and x.a['this'] == ('ptr', c.a['loc']) and et[1](x.a['args'][0])) == {1}
                seen = seen or ok
            if isq(e, '::register_curve'):
                ctx.ob(seen, 'counted-before-registered', q, e, 'the points of the curve are counted with every table of the queue entry before it is registered')
                same = e.a['locs'] and e.a['locs'][0] == ('ptr', c.a['loc'])
                ctx.ob(bool(same), 'registers-the-curve', q, e, 'the curve that was counted is the one that is registered')
                ctx.ob(bool(pub) and all(x.a['this'] == e.a['this'] for x in pub), 'registers-in-flushed-store', q, e, 'the curve enters the store that is published for this block')
    done = False
    for l in iters:
        for at, v in le.a['xfacts'].items():
            for t in subterms_atom(at):
                if t[0] == 'app' and t[1] == 'BlockIterator::is_end' and truth_of(le.a['xfacts'], t) is True:
                    done = True
    ctx.ob(done, 'block-loop', q + ': end', le, 'the loop ends only when the iterator has reached the end of the block')


def subterms_atom(a):
    out = []
    def rec(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out.append(x)
            for y in x:
                rec(y)
    rec(a)
    return out


# ------------------------------------------------------------------------------------------ C07
def pool_fields(ctx, kind):
    """Members of ThreadPool by what they hold: 'threads' (sequences of workers), 'busy' (block -> worker)."""
    out = []
    for f in ctx.record('ThreadPool')['fields']:
        n = tname(f['t'])
        seq_ = any(n.startswith('std::%s<std::shared_ptr<Thread>' % c) for c in ('vector', 'deque', 'list', 'set', 'unordered_set', 'queue', 'stack'))
        busy = n.startswith(('std::map<std::vector<std::tuple<unsigned int, unsigned int', 'std::unordered_map<std::vector<std::tuple')) and 'shared_ptr<Thread>' in n
        if kind == 'threads' and seq_ or kind == 'busy' and busy:
            out.append(f['n'])
    return out


def thread_calls(e, name):
    return e.kind == 'call' and e.a['q'] == name


def pool_seq(ctx, e, ops):
    """Field of ThreadPool (of this) holding workers that e operates on with one of ops."""
    if e.kind == 'cop' and e.a['op'] in ops:
        b = fieldof(e.a['loc'])
        if b and b[0] == (('o', 'this'), ()) and b[1] in pool_fields(ctx, 'threads'):
            return b[1]
    return None


POPS = ('pop_back', 'pop_front', 'pop', 'erase')
PUSH = ('push_back', 'push_front', 'insert', 'insert_present', 'append', 'push')


def pool_run(ctx, q):
    f = ctx.fn(q)
    rn = {x['fn'] for x in roots(ctx)}
    sh = set(pool_fields(ctx, 'threads')) | set(pool_fields(ctx, 'busy')) | {x['n'] for x in ctx.record('ThreadPool')['fields'] if block_list(x['t'])}
    ps, it = ctx.run(f, opaque=lambda g: g.get('rec') == 'Thread' and not g.get('cm') and not g.get('ctor'), shared={'ThreadPool': sh}, tag='pool')
    return f, ps, it


def opencl_truth(facts, t):
    """Whether worker t is an OpenCL worker, according to facts."""
    for fld in [x['n'] for x in OPENCL['ctx'].record('Thread')['fields'] if 'OpenCLInterface' in tname(x['t'])]:
        r = truth_of(facts, ('fld', ('deref', t), fld))
        if r is not None:
            return r
    return None


OPENCL = {}


def c07(ctx):
    """Bookkeeping of ThreadPool as typestate of its workers.  assign removes exactly one worker from the
    idle ones, and this worker is entered as busy with the block and handed the block, in one critical
    section; finished_block makes exactly the worker that was busy with the block ready and frees the
    block; flush_ready_threads sweeps all ready workers, moves each to the idle ones once, on the side from
    which assign takes its kind, empties the ready ones, and the numbers returned grow by one for each
    worker of their kind; starting makes every created worker ready once; configuring and stopping reach
    every worker once."""
    OPENCL['ctx'] = ctx
    busyf = pool_fields(ctx, 'busy')
    ctx.need(busyf, 'ThreadPool does not record which worker is busy with a block')
    # assign
    f, ps, it = pool_run(ctx, 'ThreadPool::assign')
    blk = ('sym', 'arg:' + f['params'][0]['n'])
    flag = ('sym', 'arg:' + f['params'][1]['n']) if len(f['params']) > 1 else None
    idle, takes_side = set(), {}
    rets = [p for p in ps if p.kind == 'ret']
    ctx.need(rets, 'ThreadPool::assign never returns')
    for p in rets:
        n = count(p.events, lambda e: pool_seq(ctx, e, POPS))
        ctx.ob(n == {1}, 'assign-takes-idle', f['q'], f, 'assign removes exactly one worker from the idle ones', 'removes %s' % sorted(n))
        if n != {1}:
            continue
        pe = [e for e in flat(p.events) if pool_seq(ctx, e, POPS)][0]
        T = popped(pe)
        if T is None:
            for e in flat(p.events):
                if e.kind == 'call' and e.a['q'] == 'Thread::assign':
                    T = pointee(e.a['this'])
        idle.add(pe.a['loc'][1][-1])
        h = [e for e in flat(p.events) if thread_calls(e, 'Thread::assign')]
        nh = count(p.events, lambda e: thread_calls(e, 'Thread::assign'))
        ok = nh == {1} and pointee(h[0].a['this']) == T and h[0].a['args'][0] == blk
        ctx.ob(ok, 'assign-hands-over', f['q'], f, 'exactly the worker that was removed is handed exactly the block',
               'handed over %s times' % sorted(nh) if nh != {1} else 'worker or block differ: %s' % show(h[0].a['this']))
        b = it.load(p.st, (('o', 'this'), (busyf[0], ('k', blk))))
        ctx.ob(b == T, 'assign-marks-busy', f['q'], f, 'the worker that was removed is recorded as busy with the block', show(b))
        if flag is not None:
            fl, oc = truth_of(p.facts, flag), opencl_truth(p.facts, T)
            if fl is None:
                fl = oc
            ok = fl is not None and kind_fact(p.facts, T, flag, fl)
            ctx.ob(ok, 'assign-kind', f['q'], f, 'assign returns only if the worker is of the kind that was asked for')
            if fl is not None:
                takes_side.setdefault(fl, set()).add((pe.a['loc'][1][-1], 'front' if pe.a['op'] == 'pop_front' else 'back'))
        # one critical section: the worker can report only after busy was recorded
        def step(s, e):
            popped_, handed, busy, torn = s
            if e is pe:
                return ((True, handed, busy, torn),)
            if thread_calls(e, 'Thread::assign'):
                return ((popped_, True, busy, torn),)
            l = mutates(e)
            if l and l[1] and l[1][0] == busyf[0] and e.kind == 'w':
                return ((popped_, handed, True, torn),)
            if e.kind == 'unlock' and fieldof(e.a['m']) and fieldof(e.a['m'])[0] == (('o', 'this'), ()) and handed and not busy:
                return ((popped_, handed, busy, True),)
            return (s,)
        end = automaton(p.events, {(False, False, False, False)}, step)
        held = all(any(m[0] == ('o', 'this') for m in e.locks) for e in h)
        ctx.ob(not any(x[3] for x in end) and (held or all(order_before(p.events, busyf[0], x) for x in h)), 'assign-atomic', f['q'], f,
               'the worker is recorded as busy before it can report the block finished')
    # finished_block
    f, ps, it = pool_run(ctx, 'ThreadPool::finished_block')
    blk = ('sym', 'arg:' + f['params'][0]['n'])
    ready = set()
    for p in ps:
        if p.kind != 'ret':
            continue
        n = count(p.events, lambda e: pool_seq(ctx, e, PUSH))
        pu = [e for e in flat(p.events) if pool_seq(ctx, e, PUSH)]
        ok = n == {1} and isbusy(pu[0].a['args'][-1], busyf[0], blk) or n == {1} and isbusy(pu[0].a['args'][0], busyf[0], blk)
        ctx.ob(ok, 'finished-ready', f['q'], f, 'exactly the worker that was busy with the block becomes ready, once', 'made ready %s times' % sorted(n) if n != {1} else show(pu[0].a['args'][0]))
        ready |= {e.a['loc'][1][-1] for e in pu}
        m = [e for e in flat(p.events) if e.kind == 'cop' and e.a['op'] in ('erase', 'clear') and e.a['loc'][1][-1:] == (busyf[0],)]
        has = end_has(it, p, busyf[0], blk)
        ctx.ob(has is False, 'finished-frees', f['q'], f, 'the block is no longer recorded as being worked on')
    # flush_ready_threads
    f, ps, it = pool_run(ctx, 'ThreadPool::flush_ready_threads')
    gives_side = {}
    for p in ps:
        if p.kind != 'ret':
            continue
        rv = [get({}, p.val, 0), get({}, p.val, 1)]
        les = [le for le in p.events if le.kind == 'loop' and any(pool_seq(ctx, e, PUSH) for a in le.a['alts'] for e in flat(a.events))]
        ctx.ob(len(les) == 1, 'ready-to-idle', f['q'] + ': loop', f, 'one loop moves the ready workers to the idle ones', '%d loops' % len(les))
        if len(les) != 1:
            continue
        le = les[0]
        sw = sweep(le)
        swept = None
        if sw and sw[0] == 'iter':
            swept = fieldname_of(sw[1])
        elif sw and sw[0] == 'drain':
            swept = sw[1][1][-1]
        ctx.ob(swept in ready, 'ready-to-idle', f['q'] + ': all', le, 'the loop runs over all workers that finished_block made ready', 'not a complete pass over the ready workers')
        if sw is None:
            continue
        tot = [None, None]
        for a in le.a['alts']:
            et = elem_test(le, a)
            pu = [e for e in flat(a.events) if pool_seq(ctx, e, PUSH)]
            n = count(a.events, lambda e: pool_seq(ctx, e, PUSH))
            ok = n == {1} and et is not None and (et[1](pu[0].a['args'][0])) and pu[0].a['loc'][1][-1] in idle
            ctx.ob(ok, 'ready-to-idle', f['q'] + ': each', le, 'each ready worker becomes idle exactly once', 'made idle %s times' % sorted(n) if n != {1} else 'another worker or another list')
            if not ok:
                continue
            T = pu[0].a['args'][0]
            oc = opencl_truth(a.facts, T)
            side = (pu[0].a['loc'][1][-1], 'front' if pu[0].a['op'] == 'push_front' else 'back')
            for k in ([oc] if oc is not None else [True, False]):
                gives_side.setdefault(k, set()).add(side)
            inc = [per_elem(r, a, sw[1]) for r in rv]
            want = {True: (0, 1), False: (1, 0)}.get(oc)
            ctx.ob(want is not None and tuple(inc) == want, 'ready-counted', f['q'], le, 'each worker that becomes idle is counted once, among those of its kind',
                   'an %s worker changes the numbers returned by %s' % ({True: 'OpenCL', False: 'ordinary'}.get(oc, 'arbitrary'), inc))
        for k, r in enumerate(rv):
            ctx.ob(starts_at_zero(p.events, le, r), 'ready-counted', f['q'] + ': initial', le, 'counting starts at zero', show(r))
        for rf in ready:
            cur = it.load(p.st, (('o', 'this'), (rf,)))
            ctx.ob(test(p.facts, atom_eq0(size(cur))) is True or moved_out(p, (('o', 'this'), (rf,))), 'ready-emptied', f['q'], f, 'no worker is ready any more afterwards', show(cur))
            lost = [e for e in flat(p.events) if mutates(e) == (('o', 'this'), (rf,)) and e.kind == 'cop' and e.a['op'] == 'clear']
            for e in lost:
                sv = sw[1] if sw[0] == 'iter' else None
                ctx.ob(sv is None or unwrap(e.a['old']) == unwrap(sv) or e.a['old'] == sv, 'ready-emptied', f['q'] + ': same', e, 'only workers that were made idle are dropped from the ready ones',
                       'what is dropped is not what was swept (the lock was released in between)')
    for k, name in ((True, 'OpenCL'), (False, 'ordinary')):
        if k in takes_side and k in gives_side:
            ctx.ob(takes_side[k] == gives_side[k], 'idle-sides', 'ThreadPool: ' + name, ctx.fn('ThreadPool::assign'),
                   'assign takes %s workers from where flush_ready_threads put them' % name, '%s versus %s' % (sorted(takes_side[k]), sorted(gives_side[k])))
    # start
    f, ps, it = pool_run(ctx, 'ThreadPool::spark_threads')
    all_ = set()
    for p in ps:
        if p.kind != 'ret':
            continue
        for e in flat(p.events):
            fl = pool_seq(ctx, e, PUSH)
            if fl and e.a['args'] and e.a['args'][0][0] == 'ptr' and e.a['args'][0][1][0][0] == 'h':
                all_.add(fl)
    reg = all_ - ready
    ctx.ob(len(reg) == 1, 'start-registers', f['q'], f, 'created workers are kept in the list of all workers')
    for p in [p for p in ps if p.kind == 'ret']:
        for le in loops(p.events):
            for a in le.a['alts']:
                nw = [e for e in a.events if e.kind == 'new' and e.a.get('t') == 'Thread']
                for e in nw:
                    n = count(a.events, lambda x: pool_seq(ctx, x, PUSH) in reg and x.a['args'][0] == ('ptr', e.a['loc']))
                    ctx.ob(n == {1}, 'start-registers', f['q'] + ': each', e, 'each created worker is entered once into the list of all workers')
    inreg = lambda k, le: fieldname_any(k) in reg or grown(k, le, reg)

    def plain(v):
        while v[0] == 'S' and len(v[1]) == 1 and v[1][0][0] == 'b':
            v = v[1][0][1]
        return v

    def becomes_ready(e, p):
        """All workers at once: the list, as it is in the end, is appended or copied."""
        fl = fieldof(e.a['loc']) if e.kind in ('cop', 'w') and e.a.get('loc') else None
        if not fl or fl[0] != (('o', 'this'), ()) or fl[1] not in ready:
            return False
        vs = e.a['args'] if e.kind == 'cop' and e.a['op'] in ('append', 'insert', 'assign') else [e.a['val']] if e.kind == 'w' else []
        return any(plain(v) == plain(it.load(p.st, (('o', 'this'), (x,)))) for v in vs for x in reg)
    for what, actn in (('spark', lambda e, et: thread_calls(e, 'Thread::spark') and et(e.a['this'])),
                       ('ready', lambda e, et: pool_seq(ctx, e, PUSH) in ready and et(e.a['args'][0]))):
        ok, why = each_once(ps, inreg, actn, becomes_ready if what == 'ready' else None)
        ok2 = ok or per_new(ctx, ps, what, reg, ready)
        ctx.ob(ok2, 'start-all', f['q'] + ': ' + what, f, {'spark': 'every worker is started once', 'ready': 'every started worker becomes ready once'}[what], why)
    for q, m in (('ThreadPool::shutdown_threads', 'Thread::shutdown'), ('ThreadPool::update_config', 'Thread::update_config')):
        f, ps, it = pool_run(ctx, q)
        ok, why = each_once(ps, lambda k, le: fieldname_any(k) in reg, lambda e, et: thread_calls(e, m) and et(e.a['this']))
        ctx.ob(ok, 'reach-all', q, f, '%s reaches every worker once' % q, why)
        for e in allevs(ps):
            if thread_calls(e, m) and e.a['args']:
                ctx.ob(e.a['args'][0] == ('sym', 'arg:' + f['params'][0]['n']) or e.a['locs'][0] == ('ptr', (('o', 'arg:' + f['params'][0]['n']), ())), 'reach-all', q + ': argument', e, 'the workers get the configuration of the pool')


def kind_fact(facts, T, flag, fl):
    o = opencl_truth(facts, T)
    if o is not None:
        return o == fl
    fields = [x['n'] for x in OPENCL['ctx'].record('Thread')['fields'] if 'OpenCLInterface' in tname(x['t'])]
    for a, v in facts.items():
        if contains(a, {flag}) and any(contains(a, {('fld', ('deref', T), n)}) for n in fields):
            if a[0] == 'eqk' and v and a[2] == 0:
                return True
    return False


def order_before(evs, fld, ev):
    fl = list(flat(evs))
    i = fl.index(ev)
    return any(mutates(e) and fld in mutates(e)[1] and e.kind == 'w' for e in fl[:i])


def isbusy(v, fld, blk):
    return v[0] == 'fld' and v[2] == ('k', blk) or v[0] == 'fld' and isinstance(v[2], tuple) and v[2][0] in ('n', 'k', 'nk') and contains(v[2], {blk})


def end_has(it, p, fld, blk):
    m = it.load(p.st, (('o', 'this'), (fld,)))
    while m[0] == 'M':
        for k, pres, val in reversed(m[2]):
            if k == blk:
                return pres
        m = m[1]
    return None


def fieldname_of(v):
    v = unwrap(v)
    while v[0] in ('M',):
        v = v[1]
    if v[0] == 'S' and len(v[1]) == 1 and v[1][0][0] == 'b':
        v = v[1][0][1]
    if v[0] == 'fld':
        return v[2]
    if v[0] == 'w' and v[2][1]:
        return v[2][1][-1]
    if v[0] == 'call' and isinstance(v[1], str) and v[1].startswith('shared:'):
        return v[1].split(':', 1)[1]
    return None


def fieldname_any(k):
    if k[0] == 'loc':
        return k[1][1][-1] if k[1][1] else None
    return fieldname_of(k[1])


def grown(k, le, names):
    """The container swept is what a loop before built up in one of the named members."""
    if k[0] != 'val':
        return False
    for e in flat([x for a in le.a['alts'] for x in a.events]):
        if e.kind == 'elem' and e.a['cont'] == k[1] and e.a['cloc'] and e.a['cloc'][1][-1:] and e.a['cloc'][1][-1] in names:
            return True
    return False


def per_new(ctx, ps, what, reg, ready):
    """Every loop iteration that creates a worker also starts it / makes it ready, once."""
    n = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        for le in loops(p.events):
            for a in le.a['alts']:
                for e in a.events:
                    if e.kind == 'new' and e.a.get('t') == 'Thread':
                        t = ('ptr', e.a['loc'])
                        c = count(a.events, lambda x: thread_calls(x, 'Thread::spark') and x.a['this'] == t if what == 'spark'
                                  else bool(pool_seq(ctx, x, PUSH) in ready and x.a['args'][0] == t))
                        if c != {1}:
                            return False
                        n += 1
    return n > 0


def per_elem(expr, alt, cont):
    """By how much one iteration changes an expression over loop variables and the size of the container."""
    m = {}
    for t in set(x for x in subterms_atom(expr) if x[0] in ('iv', 'w')):
        for e in flat(alt.events):
            if e.kind == 'w' and e.a.get('old') == t:
                m[t] = e.a['val']
    d = sub(subst(expr, m), expr)
    if cont and isinstance(cont, tuple) and isinstance(cont[0], str):
        d = add(d, sub(subst(expr, {size(cont): add(size(cont), C(1))}), expr))
    return d[1] if isint(d) else None


def starts_at_zero(before, le, expr):
    L = le.a['loop']
    m = {}
    for t in set(x for x in subterms_atom(expr) if x[0] in ('iv', 'w')):
        if t[0] == 'iv' and t[2] in L.start:
            m[t] = L.start[t[2]]
    e = subst(expr, m)
    for t in set(x for x in subterms_atom(e) if x[0] == 'size'):
        e = subst(e, {t: C(0)})
    return e == C(0)


# ------------------------------------------------------------------------------------------ C03
def wp_opaque(f):
    return short(f['q']).startswith(('ThreadPool::', 'FileStore::', 'create_store_factory', 'ConfigNode::'))


def all_units(ctx):
    """Runs that together cover every place where locks are used: (function, paths, interpreter)."""
    out = list(worker_runs(ctx))
    for rec in ('Thread', 'ThreadPool'):
        out += ctl_runs(ctx, rec)
    for rec in ('StandaloneWorkerPool', 'MPIWorkerPool'):
        for f in ctx.entries(rec):
            if not f.get('lambda'):
                out.append((f,) + ctx.run(f, opaque=wp_opaque, tag='wp'))
    f = ctx.fn('main_mpi_worker', required=False)
    if f:
        out.append((f,) + ctx.run(f, opaque=wp_opaque, tag='wp'))
    return out


def lock_sites(ctx):
    """Every place in the sources where a mutex is taken: (function, line)."""
    out = set()
    for f in ctx.p.functions.values():
        for n in walk(f.get('body') or []):
            if n.get('k') in ('construct', 'var', 'mcall', 'call', 'new'):
                t = n.get('t')
                fam = models.family(t) if isinstance(t, dict) else ''
                c = n.get('callee')
                cq = short(c.get('q', '')) if isinstance(c, dict) else ''
                if n['k'] == 'construct' and fam in ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock', 'std::shared_lock') or \
                        cq in ('std::mutex::lock', 'std::recursive_mutex::lock', 'std::timed_mutex::lock', 'std::shared_mutex::lock', 'std::lock'):
                    out.add((f['fn'], f['q'], n.get('l', 0), f['file']))
    return out


def mname(it, m):
    n = it.loc_mutex.get(m)
    if n:
        return short(n[0]) + '.' + n[1]
    return show_loc(m)


def c03(ctx):
    """Lock graph over the classes' mutexes: an edge for every acquisition (directly, or in a function called)
    while another mutex is held.  The graph must be acyclic, no mutex is acquired by its holder, every
    unlock releases a mutex that is held, no path leaves an entry function holding one, and no thread joins,
    sleeps, or waits on a condition with an additional mutex held that worker threads acquire."""
    units = all_units(ctx)
    acq = {}
    wlocks = set()
    rn = {f['fn'] for f in roots(ctx)}
    covered = set()
    for f, ps, it in units:
        for e in allevs(ps):
            if e.kind == 'lock':
                covered.add((e.fn['fn'] if e.fn else '', e.line))
                acq.setdefault(f['q'], set()).add(mname(it, e.a['m']))
                if f['fn'] in rn:
                    wlocks.add(mname(it, e.a['m']))
    # locks taken inside functions that stay opaque
    called = {}
    for f, ps, it in units:
        for e in allevs(ps):
            if e.kind == 'call' and not e.a['inl']:
                called.setdefault(f['q'], set()).add(e.a['q'])
    changed = True
    while changed:
        changed = False
        for q, cs in called.items():
            for c in cs:
                for m in acq.get(c, ()):
                    if m not in acq.setdefault(q, set()):
                        acq[q].add(m)
                        changed = True
    edges = {}
    nlocks = 0
    for f, ps, it in units:
        for e in allevs(ps):
            held = [mname(it, m) for m in e.locks]
            if e.kind == 'lock':
                nlocks += 1
                me = mname(it, e.a['m'])
                ctx.ob(e.a['m'] not in e.locks, 'no-relock', '%s: %s' % (e.fn['q'], me), e, 'a mutex is not acquired by the thread that holds it')
                for h, hn in zip(e.locks, held):
                    if h != e.a['m']:
                        edges.setdefault((hn, me), e)
            elif e.kind == 'unlock':
                ctx.ob(e.a['m'] in e.locks, 'unlock-held', '%s: %s' % (e.fn['q'], mname(it, e.a['m'])), e, 'only a mutex that is held is released')
            elif e.kind == 'call' and not e.a['inl'] and held:
                for m in acq.get(e.a['q'], ()):
                    for hn in held:
                        if hn == m and same_pool(e, it, m):
                            ctx.ob(False, 'no-relock', '%s: %s' % (e.fn['q'], m), e, 'a mutex is not acquired by the thread that holds it', 'by way of ' + e.a['q'])
                        elif hn != m:
                            edges.setdefault((hn, m), e)
            elif e.kind in ('join', 'sleep', 'probe', 'recv', 'barrier', 'bcast', 'wait'):
                own = e.a.get('mutexes') or () if e.kind == 'wait' else ()
                for m, hn in zip(e.locks, held):
                    if m in own:
                        continue
                    bad = hn in wlocks
                    ctx.ob(not bad, 'no-blocking-under-lock', '%s: %s' % (e.fn['q'], e.kind), e,
                           'no thread blocks while it holds a mutex that worker threads need', 'holds ' + hn)
                if e.kind in ('join', 'sleep'):
                    ctx.ob(True, 'no-blocking-under-lock', '%s: %s' % (e.fn['q'], e.kind), e, 'no thread blocks while it holds a mutex that worker threads need')
        for p in ps:
            if p.kind in ('ret', 'exc'):
                left = [mname(it, m) for m in p.st.locks]
                ctx.ob(not left, 'released', f['q'], f, 'every mutex is released on every path that leaves the function', 'left holding ' + ', '.join(left))
    ctx.need(nlocks, 'no lock operation found')
    # order
    g = {}
    for (a, b), e in edges.items():
        g.setdefault(a, set()).add(b)
    for (a, b), e in sorted(edges.items()):
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += g.get(x, ())
        ctx.ob(a not in seen, 'lock-order', '%s before %s' % (a, b), e, 'mutexes are acquired in one order', '%s is also acquired while %s is held' % (a, b))
    # every lock in the sources was seen
    cov = {c for c in covered}
    for fn, q, line, file in sorted(lock_sites(ctx)):
        ok = (fn, line) in cov or any(c[0] == fn for c in cov)
        ctx.ob(ok, 'lock-sites-covered', q, {'file': file, 'l': line, 'q': q}, 'the lock is taken in code that was analysed')


def same_pool(e, it, m):
    """The object called is the one whose mutex is held (or cannot be told apart from it)."""
    th = e.a.get('this')
    for l in e.locks:
        if mname(it, l) == m:
            base = (l[0], l[1][:-1])
            if th is None or th == ('ptr', base) or l[0][0] == 'g':
                return True
    return False


# ------------------------------------------------------------------------------------------ C01
class Access:
    __slots__ = ('rec', 'field', 'kind', 'locks', 'own', 'phase', 'where', 'fn')


def lock_names(it, locks, loc):
    """Names of held mutexes, with those of the object that loc belongs to, or global, marked as its own."""
    out = set()
    for m in locks:
        n = mname(it, m)
        base = (m[0], m[1][:-1])
        own = m[0][0] == 'g' or (loc is not None and loc[0] == base[0] and loc[1][:len(base[1])] == base[1])
        if own:
            out.add(n)
    return frozenset(out)


def collect(ctx, f, opaque, shared, tag, side):
    """Accesses to members of Thread and ThreadPool and to globals during a run of f."""
    acc = {}
    own = {}
    rn = {x['fn'] for x in roots(ctx)}

    def classify(loc):
        root, path = loc
        if root[0] in ('v', 't', 'h', 'r', 'lam'):
            return None
        if root[0] == 'g':
            if root[1].startswith('std::') or ':str' in root[1]:
                return None
            return ('', root[1], (root, ()))
        for i in range(len(path), 0, -1):
            k = own.get((root, path[:i]))
            if k:
                return (k[0], k[1], (root, path[:i - 1]))
        return None

    def phase(st):
        o = st.mem
        if ('o', '#popped') in o:
            return 'running'
        if ('o', '#joined') in o:
            return 'joined'
        if ('o', '#spawned') in o:
            return 'spawned'
        return 'start'

    def rec(st, kind, loc, locks, where):
        c = classify(loc)
        if not c:
            return
        if c[0] == 'Thread' and f.get('rec') != 'Thread' and where[0] and where[0].get('rec') == 'Thread' and f['fn'] not in rn:
            return      # judged where the operation of Thread itself is run
        k = (c[0], c[1], kind, lock_names(it, locks, c[2]), phase(st))
        acc.setdefault(k, where)

    def on_access(st, node, F, loc):
        r = node.get('rec')
        if r in ('Thread', 'ThreadPool'):
            own[loc] = (r, node['n'])

    def on_load(st, loc):
        n, F = it.cur or (None, None)
        rec(st, 'read', loc, st.locks, (F.fn, n.get('l', 0)) if F else (f, 0))

    def on_emit(st, e):
        if takes_block(ctx, e):
            st.mem[('o', '#popped')] = C(1)
        if e.kind == 'spawn':
            st.mem[('o', '#spawned')] = C(1)
        if e.kind == 'join':
            st.mem[('o', '#joined')] = C(1)
        l = mutates(e)
        if l:
            rec(st, 'write', l, e.locks, (e.fn, e.line))
    it = Interp(ctx.p, opaque=opaque, shared=shared)
    it.on_emit, it.on_access, it.on_load = on_emit, on_access, on_load
    ps = it.run(f)
    ctx.interps.append(it)
    ctx.paths += len(ps)
    ctx.runs[(f['fn'], tag)] = (ps, it)
    return acc, ps


def c01(ctx):
    """Lockset analysis.  Every access to a member of Thread or ThreadPool and to a mutable global, on every
    abstract path of the worker function and of every operation of the controlling thread, is recorded with
    the mutexes held that belong to the same object (or are global) and with its phase (before the thread is
    started, after it was joined, before or after the worker obtained a block).  Two accesses from different
    threads of which one is a write must hold a common mutex, unless the program orders them: construction
    and start precede the worker, an operation that starts workers precedes the first block, and joined
    workers have ended.  Opaque computation reachable from the worker must not touch mutable globals."""
    sh = {'Thread': shared_fields(ctx, 'Thread')}
    worker, control = {}, {}
    for f in roots(ctx):
        a, ps = collect(ctx, f, worker_opaque, sh, 'race', 'worker')
        for k, w in a.items():
            worker.setdefault(k, (f, w))
    rn = {f['fn'] for f in roots(ctx)}
    reach = ctx.reachable([f['fn'] for f in roots(ctx)])
    starters = set()
    masters = [x['fn'] for x in ctx.p.functions.values() if x.get('body') and (x.get('rec') in ('StandaloneWorkerPool', 'MPIWorkerPool') or x['q'] in ('main_mpi_worker', 'main'))]
    mreach = ctx.reachable(masters)
    for x in list(mreach):
        if x in rn:
            mreach = ctx.reachable_without(masters, rn)
            break
    for rec in ('Thread', 'ThreadPool'):
        for f in ctx.entries(rec):
            if f['fn'] in rn or f.get('ctor') or f.get('dtor') or f.get('lambda'):
                continue
            a, ps = collect(ctx, f, ctl_opaque, {}, 'race', 'control')
            sp = any(e.kind == 'spawn' for e in allevs(ps))
            if sp:
                starters.add(f['q'])
            only_worker = f['fn'] in reach and f['fn'] not in mreach
            for k, w in a.items():
                if only_worker:
                    worker.setdefault(k[:4] + ('running',), (f, w))
                else:
                    control.setdefault(k + (sp,), (f, w))
    ctx.need(worker and control, 'no accesses found')
    syncs = {(r, x['n']) for r in ('Thread', 'ThreadPool') for x in ctx.record(r)['fields']
             if sync_type(x['t']) or tname(x['t']).startswith(('std::atomic', 'std::atomic_'))}
    consts = {(r, x['n']) for r in ('Thread', 'ThreadPool') for x in ctx.record(r)['fields'] if tname(x['t']).startswith('const ')}

    def skip(rec, field):
        if (rec, field) in syncs or (rec, field) in consts:
            return True
        if rec == '':
            g = ctx.p.globals.get(field) if hasattr(ctx.p, 'globals') else None
            t = tname(g['t']) if g else ''
            return t.startswith('const ') or 'mutex' in t or t.startswith('std::atomic') or bool(g and g.get('const')) or bool(g and g.get('tls'))
        return False
    fields = {}
    for k, fw in worker.items():
        fields.setdefault(k[:2], [[], []])[0].append((k, fw))
    for k, fw in control.items():
        fields.setdefault(k[:2], [[], []])[1].append((k, fw))
    for (rec, field), (ws, cs) in sorted(fields.items()):
        if skip(rec, field):
            continue
        name = '%s%s' % (rec + '::' if rec else '', field)
        pool = rec != 'Thread'
        pairs = [(a, b, 'worker and controlling thread') for a in ws for b in cs]
        if pool:
            pairs += [(a, b, 'two workers') for a in ws for b in ws]
        for a, b, who in pairs:
            (k1, (f1, w1)), (k2, (f2, w2)) = a, b
            if k1[2] == 'read' and k2[2] == 'read':
                continue
            if len(k2) == 6:
                if k2[5]:
                    # an operation that starts workers
                    if rec == 'Thread' and k2[4] == 'start' or rec != 'Thread' and k1[4] == 'running':
                        ctx.ob(True, 'ordered', name + ': start', {'file': w2[0]['file'], 'l': w2[1], 'q': w2[0]['q']}, 'the access precedes the first block of any worker')
                        continue
                if rec == 'Thread' and k2[4] == 'joined':
                    ctx.ob(True, 'ordered', name + ': join', {'file': w2[0]['file'], 'l': w2[1], 'q': w2[0]['q']}, 'the access follows the end of the worker')
                    continue
            common = k1[3] & k2[3]
            ctx.ob(common, 'common-lock', '%s: %s / %s' % (name, w1[0]['q'], w2[0]['q']), {'file': w1[0]['file'], 'l': w1[1], 'q': w1[0]['q']},
                   'accesses to %s by %s hold a common mutex' % (name, who),
                   '%s at %s:%d holding {%s}, %s at %s:%d holding {%s}' % (k1[2], rel(w1[0]['file']), w1[1], ', '.join(sorted(k1[3])),
                                                                        k2[2], rel(w2[0]['file']), w2[1], ', '.join(sorted(k2[3]))))
    # phases: the operations that start workers come before any block
    ctx.need(starters, 'no operation starts workers')
    users = [(r, f) for r in ('StandaloneWorkerPool', 'MPIWorkerPool') for f in ctx.entries(r) if not f.get('lambda')]
    m = ctx.fn('main_mpi_worker', required=False)
    if m:
        users.append(('', m))
    for r, f in users:
        ps, it = ctx.run(f, opaque=wp_opaque, tag='wp')
        for p in ps:
            def step(s, e):
                if e.kind == 'call' and e.a['q'] == 'ThreadPool::assign':
                    return ((True, s[1]),)
                if e.kind == 'call' and e.a['q'] in starters:
                    th = e.a['this']
                    ok = not s[0] and (f.get('ctor') or th and th[0] == 'ptr' and th[1][0][0] == 'h')
                    ctx.ob(ok, 'start-before-work', f['q'], e, 'workers are started on a new pool, before any block is handed out')
                return (s,)
            automaton(p.events, {(False, False)}, step)
    # globals in computation that is not interpreted
    opq = [g for g in reach if g in ctx.p.functions]
    for g in sorted(opq):
        fn = ctx.p.functions[g]
        if not fn.get('body'):
            continue
        for n in walk(fn.get('body') or []):
            if n.get('k') in ('ref',) and n.get('rk') == 'global' and mutable_global(ctx, n):
                q = n['q']
                guarded = any(k[1] == q for k in worker)
                ctx.ob(guarded, 'no-shared-global', '%s: %s' % (fn['q'], q), {'file': fn['file'], 'l': n.get('l', 0), 'q': fn['q']},
                       'code that workers run touches no unguarded mutable global', ctx.chain(reach, g))
            if n.get('k') == 'var' and n.get('static') and not const_type(n.get('t')):
                ctx.ob(False, 'no-shared-global', '%s: static %s' % (fn['q'], n.get('n')), {'file': fn['file'], 'l': n.get('l', 0), 'q': fn['q']},
                       'code that workers run touches no unguarded mutable static variable', ctx.chain(reach, g))


def const_type(t):
    n = tname(t or {})
    return n.startswith('const ') or bool((t or {}).get('const')) or n.startswith('std::atomic') or sync_type(t)


def mutable_global(ctx, n):
    q = n.get('q', '')
    if q.startswith(('std::', 'boost::', 'YAML::', '__')):
        return False
    return not const_type(n.get('t'))


RULES = {'C01': c01, 'C02': c02, 'C03': c03, 'C05': c05, 'C06': c06, 'C07': c07}
