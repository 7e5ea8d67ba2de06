"""Rules about worker pools: handing out blocks (C08), waiting before a change of configuration (C09), saving
what is exported (C10), the messages between processes (C22), who communicates (C23)."""
from lib import *
import models
import r_threads

API = {'ThreadPool': ('assign', 'flush_ready_threads', 'flush_finished_blocks', 'flush_global_store', 'update_config',
                      'shutdown_threads', 'spark_threads'),
       'FileStore': ('save', 'contains', 'FileStore')}
OPS = {'assign': 'assign', 'flush_ready_threads': 'ready', 'flush_finished_blocks': 'finished', 'flush_global_store': 'export',
       'update_config': 'config', 'shutdown_threads': 'stop'}
OWN = C(0)
THIS = ('o', 'this')


def api_opaque(f):
    c, _, m = short(f['q']).rpartition('::')
    return m in API.get(c, ()) or c in ('FqElementTable', 'CurveIterator', 'ReductionTable', 'Curve')


def anchors(ctx):
    for c, ms in API.items():
        have = {x['q'].rsplit('::', 1)[-1] for x in ctx.p.functions.values() if x.get('rec') == c}
        for m in ms:
            ctx.need(m in have, 'anchor %s::%s not found' % (c, m))


def pools(ctx):
    """Classes that own a pool of threads and a store of files: [(name, thread pool member, file store member)]."""
    out = []
    for q, r in sorted(ctx.p.records.items()):
        def mem(what):
            return [f['n'] for f in r['fields'] if what in tname(f['t'])]
        tp, fs = mem('ThreadPool'), mem('FileStore')
        if tp and fs:
            ctx.need(len(tp) == 1 and len(fs) == 1, '%s has several thread pools or file stores' % q)
            out.append((q, tp[0], fs[0]))
    ctx.need(out, 'no worker pool found')
    return out


def hook(rec, fields):
    """Notes the current values of some members at each event."""
    def on_emit(st, e):
        v = st.mem.get(THIS)
        e.a['cur'] = {f: get(st.facts, v, f) if v is not None else ('fld', ('sym', 'this'), f) for f in fields}
    return on_emit


def run(ctx, f, rec=None):
    fields = [x['n'] for x in ctx.record(rec)['fields']] if rec else []
    return ctx.run(f, opaque=api_opaque, tag='pool', on_emit=hook(rec, fields) if rec else None)


def entries(ctx, rec):
    return [f for f in ctx.entries(rec) if not f.get('lambda') and not f.get('static') and f.get('body')]


# ------------------------------------------------------------------------------- what workers do
class Handler:
    """What a process does on a message of one tag: the types it receives, the operation on its thread pool,
    the messages it answers with."""
    def __init__(s):
        s.recvs, s.ops, s.sends, s.leaves, s.where, s.ev = [], [], [], False, None, None


def tag_known(facts, t):
    for a, v in facts.items():
        if a[0] == 'eqk' and v and len(a[1]) == 1 and a[1][0][0] == t and a[1][0][1] in (1, -1):
            return a[2] * a[1][0][1]
    return None


def tagof(e):
    t = e.a['tag']
    if t[0] == 'c':
        return t[1]
    return tag_known(e.facts, t) if t[:2] == ('app', 'mpi:tag') else None


def worker_roots(ctx):
    """Functions that wait for messages of unknown kind."""
    out = []
    for f in ctx.p.functions.values():
        if f.get('body') and not f.get('rec') and f['q'] != 'main':
            for n in walk(f['body']):
                c = n.get('callee')
                if isinstance(c, dict) and c.get('q') in ('boost::mpi::communicator::probe', 'boost::mpi::communicator::iprobe'):
                    out.append(f)
                    break
    if not out:
        return out
    # the outermost function with a body of its own
    r = {f['fn']: ctx.reachable([f['fn']]) for f in out}
    return [f for f in out if not any(f['fn'] in r[g['fn']] for g in out if g is not f)]


def optype(e):
    if e.kind == 'call' and e.a.get('inl') is False and e.a.get('rec') == 'ThreadPool':
        return OPS.get(e.a['q'].rsplit('::', 1)[-1])
    return None


def handlers(ctx):
    """{tag: Handler} and the runs of the function that waits for messages."""
    if hasattr(ctx, '_handlers'):
        return ctx._handlers
    rs = worker_roots(ctx)
    ctx.need(len(rs) == 1, 'the function in which other processes wait for messages was not found (%d candidates)' % len(rs))
    f = rs[0]
    ps, it = run(ctx, f)
    tab = {}

    def tails(evs, leaves, facts, p):
        """Splits a list of events at its last probe."""
        at = [i for i, e in enumerate(evs) if e.kind == 'probe']
        if at:
            yield evs[at[-1]:], leaves, facts
    def visit(evs, facts, p, top):
        for e in evs:
            if e.kind == 'loop':
                for a in e.a['alts']:
                    if any(x.kind == 'probe' for x in a.events):
                        seg(a.events, a.facts, False, None)
                    else:
                        visit(a.events, a.facts, p, False)
        if top and any(x.kind == 'probe' for x in evs):
            seg(evs, facts, True, p)

    def seg(evs, facts, leaves, p):
        at = [i for i, e in enumerate(evs) if e.kind == 'probe']
        ctx.need(len(at) == 1, 'several messages are awaited in one step')
        evs = evs[at[0]:]
        pr = evs[0]
        ctx.need(pr.a['blocking'], 'messages are polled')
        t = tag_known(facts, ('app', 'mpi:tag', pr.a['val']))
        h = Handler()
        h.where, h.probe, h.leaves, h.kind = pr, pr, leaves, p.kind if p else 'ret'
        h.val = p.val if p else None
        for e in flat(evs):
            if e.kind == 'recv':
                h.recvs.append(e)
            elif e.kind == 'send':
                h.sends.append(e)
            elif optype(e):
                h.ops.append(e)
            if e.kind in ('recv', 'send') or optype(e):
                h.where = e
        h.evs, h.facts = evs, facts
        if h.kind != 'dead':
            tab.setdefault(t, []).append(h)
    for p in ps:
        visit(p.events, p.facts, p, True)
    ctx.need(any(t is not None for t in tab), 'no message is handled')
    ctx._handlers = (f, ps, tab)
    return ctx._handlers


def tagname(ctx, t):
    e = ctx.p.enums.get('MPIWorkerPoolTag')
    if e:
        for c in e.get('values', e.get('consts', [])):
            if isinstance(c, dict) and c.get('v') == t:
                return c.get('n')
            if isinstance(c, (list, tuple)) and len(c) > 1 and c[1] == t:
                return c[0]
    return 'tag %s' % t


def remote_op(ctx, t):
    """The operation that other processes perform on a message of tag t."""
    f, ps, tab = handlers(ctx)
    hs = tab.get(t)
    if not hs:
        return None
    ops = {optype(o) for h in hs for o in h.ops}
    return ops.pop() if len(ops) == 1 else None


class Act:
    """A request to the threads of one process, or its answer."""
    def __init__(s, kind, op, proc, ev, args=None, val=None):
        s.kind, s.op, s.proc, s.ev, s.args, s.val = kind, op, proc, ev, args, val


def acts(ctx, e, tpf=None):
    """The requests and answers that an event stands for, in a controlling process."""
    o = optype(e)
    if o:
        return [Act('req', o, OWN, e, args=e.a['args']), Act('ans', o, OWN, e, val=e.a.get('ret'))]
    if e.kind == 'send':
        t = tagof(e)
        o = remote_op(ctx, t) if t is not None else None
        if not o:
            return [Act('req', '?', e.a['dest'], e, args=e.a['vals'])]
        h = handlers(ctx)[2][t][0]
        op = [x for x in h.ops if optype(x) == o][0]
        m = {}
        for r in h.recvs:
            for i, v in enumerate(r.a['vals']):
                if i < len(e.a['vals']):
                    m[v] = e.a['vals'][i]
        return [Act('req', o, e.a['dest'], e, args=tuple(subst(x, m) for x in op.a['args']))]
    if e.kind == 'recv':
        t = tagof(e)
        o = remote_op(ctx, t) if t is not None else None
        return [Act('ans', o or '?', e.a['src'], e, val=e.a['vals'][0] if e.a['vals'] else None)]
    return []


def same(facts, a, b):
    return a == b or test(facts, atom_eqv(a, b)) is True


def rank_loop(le):
    """(index, iterations that concern other processes) if a loop runs over the ranks of all other processes."""
    L, xf = le.a['loop'], le.a['xfacts']
    if le.a['exit'] != 'cond' or not le.a.get('test_first', True):
        return None
    for key, start in L.start.items():
        if L.step.get(key) != 1 or start not in (C(0), C(1)):
            continue
        iv = ('iv', L.marker, key)
        sizes = {x for a in xf for x in subterms(a) if isinstance(x, tuple) and len(x) > 1 and x[:2] == ('app', 'mpi:size')}
        if not any(upto(le, iv, x) for x in sizes):
            continue
        alts = [a for a in le.a['alts'] if start == C(1) or test(a.facts, atom_eq0(iv)) is not True]
        return iv, alts
    return None


def own_alts(le):
    """The iterations of a loop over all ranks that concern this process."""
    r = rank_loop(le)
    if not r or le.a['loop'].start.get(r[0][2]) != C(0):
        return None
    return [a for a in le.a['alts'] if test(a.facts, atom_eq0(r[0])) is True]


def own_count(evs, pred):
    """Possible numbers of events that concern this process; the index of a loop over all ranks is 0 once."""
    def onloop(states, le):
        o = own_alts(le)
        if not o or any(0 not in c or len(c) > 1 for c in [count(a.events, pred) for a in rank_loop(le)[1]]):
            return None
        return {min(n + k, 2) for n in states for a in o for k in own_count(a.events, pred)}
    return automaton(evs, {0}, lambda n, e: (min(n + 1, 2) if pred(e) else n,), onloop)


def core(v):
    while True:
        w = unwrap(unbase(v))
        if w == v:
            return v
        v = w


def upto(le, iv, bound):
    """Does the loop go on exactly as long as the index iv, which is incremented, is less than the bound?"""
    xf = le.a['xfacts']
    if test(xf, atom_lt(iv, bound)) is False and all(test(a.facts, atom_lt(iv, bound)) is True for a in le.a['alts']):
        return True
    return test(xf, atom_eqv(iv, bound)) is True and all(test(a.facts, atom_eqv(iv, bound)) is False for a in le.a['alts'])


# ------------------------------------------------------------------------------------------ C08
def slots(ctx, rec):
    """{member: component} for the members that count or list free slots, and the events that credit them."""
    if not hasattr(ctx, '_slots'):
        ctx._slots = {}
    if rec in ctx._slots:
        return ctx._slots[rec]
    comp, credit, bad = {}, set(), []
    ready = []

    def credits(e, R, proc):
        """Components of R that event e credits to the slots of proc: {component: member}."""
        out = {}
        if e.kind == 'w' and e.a['loc'][0] == THIS and len(e.a['loc'][1]) == 1:
            d = sub(e.a['val'], e.a['old']) if e.a['old'] is not None else None
            for i in (0, 1):
                if d == get({}, R, i):
                    out[i] = (e.a['loc'][1][0], e)
        if e.kind == 'loop':
            pushes = None
            for a in e.a['alts']:
                ps = [x for x in flat(a.events) if x.kind == 'cop' and x.a['op'] in ('push_back', 'push_front') and x.a['loc'][0] == THIS]
                here = {x.a['loc'][1] for x in ps}
                pushes = here if pushes is None else pushes & here
            for l in pushes or ():
                for i in (0, 1):
                    b = get({}, R, i)
                    if times(e, b) and all(count(a.events, lambda x: x.kind == 'cop' and mutates(x) == (THIS, l)) == {1} for a in e.a['alts']):
                        evs = [x for a in e.a['alts'] for x in flat(a.events) if x.kind == 'cop' and mutates(x) == (THIS, l)]
                        if all(same(x.facts, x.a['args'][0], proc) for x in evs):
                            out[i] = (l[0], evs)
        if e.kind == 'cop' and e.a['op'] in ('insert_n', 'append_n') and e.a['loc'][0] == THIS:
            for i in (0, 1):
                if e.a['args'][-2:] == (get({}, R, i), proc):
                    out[i] = (e.a['loc'][1][0], e)
        return out

    def scan(f, evs):
        for n, e in enumerate(evs):
            if e.kind == 'loop':
                for a in e.a['alts']:
                    scan(f, a.events)
            for x in acts(ctx, e):
                if x.kind != 'ans' or x.op != 'ready':
                    continue
                ready.append(x)
                rest = []
                for y in evs[n + 1:]:
                    if any(z.kind == 'ans' and z.op == 'ready' for z in acts(ctx, y)):
                        break
                    rest.append(y)
                for i in (0, 1):
                    cs = [(c[i], y) for y in rest for c in (credits(y, x.val, x.proc),) if i in c]
                    if len(cs) != 1:
                        bad.append((f, x, i, len(cs)))
                    for (m, ev), y in cs:
                        comp.setdefault(m, set()).add(i)
                        for z in ev if isinstance(ev, list) else [ev]:
                            credit.add(id(z))
    for f in entries(ctx, rec):
        ps, it = run(ctx, f, rec)
        for p in ps:
            if p.kind == 'ret':
                scan(f, p.events)
    ctx._slots[rec] = (comp, credit, bad, ready)
    return ctx._slots[rec]


def times(le, bound):
    """Does the loop run exactly `bound` times?  (an index from 0 up to it, or a counter down from it)"""
    if le.a['exit'] != 'cond':
        return False
    L, xf = le.a['loop'], le.a['xfacts']
    if not le.a.get('test_first', True):
        return False
    for key, start in L.start.items():
        iv = ('iv', L.marker, key)
        st = L.step.get(key)
        if start == C(0) and st == 1 and upto(le, iv, bound):
            return True
        if start == bound and st == -1 and test(xf, atom_eq0(iv)) is True and all(test(a.facts, atom_eq0(iv)) is False for a in le.a['alts']):
            return True
    return False


def c08(ctx):
    """For every path of the operation that offers a block: it is handed to the threads of exactly one process
    (in this process or by a message that makes the other one assign it) exactly when the file store of the
    configuration is known not to contain it; one slot of that process and kind, known to be free, is used
    up; the block is noted as outstanding for that process.  Slots are credited exactly as announced, to the
    process that announced them; outstanding blocks are removed only as that process reports them.  The file
    store reads each record of its directory completely before it is asked."""
    anchors(ctx)
    for rec, tpf, fsf in pools(ctx):
        es = entries(ctx, rec)
        asg = [f for f in es if any('vector<std::tuple<unsigned int, unsigned int' in tname(q['t']) for q in f['params'])
               and not f.get('ctor')]
        ctx.need(len(asg) == 1, '%s: the operation that offers a block was not found (%d candidates)' % (rec, len(asg)))
        f = asg[0]
        blk = [q['n'] for q in f['params'] if 'vector<std::tuple' in tname(q['t'])][0]
        B = ('sym', 'arg:' + blk)
        comp, credit, badc, ready = slots(ctx, rec)
        ctx.need(ready, '%s never asks for free slots' % rec)
        for g, x, i, n in badc:
            ctx.ob(False, 'slots-credited', '%s: component %d' % (rec, i), x.ev,
                   'the free slots of each kind that a process announces are credited to it exactly once', 'credited %d times' % n)
        if not badc:
            ctx.ob(True, 'slots-credited', rec, ready[0].ev, 'the free slots of each kind that a process announces are credited to it exactly once')
        for m, s in comp.items():
            ctx.ob(len(s) == 1, 'slot-kinds', '%s::%s' % (rec, m), f, 'slots of different kinds are kept apart')
        kind = {m: min(s) for m, s in comp.items()}
        ps, it = run(ctx, f, rec)
        out = outstanding(ctx, rec, f, B)
        n = 0
        for p in ps:
            if p.kind != 'ret':
                continue
            n += 1
            offered(ctx, rec, f, p, B, kind, credit, fsf, out)
        ctx.need(n, 'no path through %s' % f['q'])
        # slots and outstanding blocks change in no other way
        for g in es:
            if g.get('ctor'):
                continue
            qs, it = run(ctx, g, rec)
            for p in qs:
                if p.kind == 'ret':
                    reports(ctx, rec, g, p.events, out)
                    for e in flat(p.events):
                        others(ctx, rec, g, e, kind, credit, out, g is f, B)
    store_contains(ctx)
    store_loads(ctx)
    ctx.assumptions.append('each block is offered once per configuration (C33); what the thread pools do with it is C05 to C07')


def outstanding(ctx, rec, f, B):
    """Members in which blocks are noted as outstanding."""
    ps, it = run(ctx, f, rec)
    out = set()
    for e in allevs(ps):
        if e.kind == 'cop' and e.a['op'] in ('insert', 'insert_present', 'push_back') and e.a['loc'][0] == THIS and e.a['args'] and e.a['args'][0] == B:
            out.add(e.a['loc'][1][0])
    ctx.need(len(out) <= 1, '%s notes outstanding blocks in several members' % rec)
    ctx.ob(out, 'noted', f['q'] + ': outstanding', f, 'a block that is handed out is noted as outstanding')
    return out.pop() if out else None


def offered(ctx, rec, f, p, B, kind, credit, fsf, out):
    key = f['q']
    cs = [e for e in flat(p.events) if e.kind == 'call' and e.a['q'] == 'FileStore::contains' and e.a.get('inl') is False and e.a['args'] == (B,)]
    recorded = None
    for e in cs:
        r = test(p.facts, atom_eq0(e.a['ret']))
        if r is not None:
            recorded = not r
    hand = lambda e: any(x.kind == 'req' and x.op == 'assign' for x in acts(ctx, e))
    note = lambda e: e.kind == 'cop' and e.a['op'] in ('insert', 'insert_present') and e.a['loc'][0] == THIS and e.a['loc'][1][:1] == (out,) \
        and e.a['args'] and e.a['args'][0] == B
    n, k = count(p.events, hand), count(p.events, note)
    if recorded is not False:
        ctx.ob(n == {0}, 'recorded-skipped', key, next((e for e in flat(p.events) if hand(e)), f),
               'a block is handed out only when the file store of the configuration does not contain it',
               'a path hands it out without knowing that it is not recorded' if recorded is None else 'a path hands out a recorded block')
        if recorded is None:
            ctx.ob(n != {0}, 'offered-kept', key, f, 'a block that is not recorded is handed out', 'a path drops the block')
        ctx.ob(k == {0} or recorded is None, 'recorded-not-noted', key, f, 'a recorded block is not noted as outstanding')
        return
    ctx.ob(n == {1}, 'handed-once', key, next((e for e in flat(p.events) if hand(e)), f),
           'a block that is not recorded is handed to exactly one process', 'handed out %s times' % '/'.join(map(str, sorted(n))))
    if n != {1}:
        return
    hs = [(x, e) for e in p.events for x in acts(ctx, e) if x.kind == 'req' and x.op == 'assign']
    if len(hs) != 1:
        ctx.ob(False, 'handed-once', key, f, 'a block is handed out once', 'handed out inside a loop')
        return
    x, he = hs[0]
    ctx.ob(x.args and x.args[0] == B, 'handed-block', key, he, 'the block handed out is the block offered')
    # outstanding for that process, before anything is reported
    ns = [e for e in p.events if note(e)]
    ctx.ob(len(ns) == 1, 'noted', key, he, 'a block that is handed out is noted as outstanding exactly once', 'noted %d times' % len(ns))
    for e in ns:
        l = e.a['loc'][1]
        keyed = [s for s in l[1:] if isinstance(s, tuple) and s[0] == 'k']
        ok = not keyed and x.proc == OWN and not many(ctx, rec) or keyed and same(p.facts, keyed[0][1], x.proc)
        ctx.ob(ok, 'noted-process', key, e, 'the block is noted as outstanding for the process that it is handed to',
               'noted for %s, handed to %s' % (show(keyed[0][1]) if keyed else 'no process', show(x.proc)))
        i, j = sorted((p.events.index(e), p.events.index(he)))
        ctx.ob(not any(y.kind == 'ans' and y.op == 'finished' for z in flat(p.events[i:j]) for y in acts(ctx, z)), 'noted-first', key, e,
               'no report is taken between handing out and noting')
    # one free slot
    used = [e for e in flat(p.events) if consumption(e, kind)]
    top = [e for e in p.events if consumption(e, kind)]
    ctx.ob(len(used) == 1 and len(top) == 1, 'slot-used', key, he, 'handing out a block uses up exactly one slot', 'it uses up %d' % len(used))
    if len(used) == 1:
        e = used[0]
        m = mutates(e)[1][0]
        old = e.a['old']
        ctx.ob(nonzero(e.facts, size(old) if e.kind == 'cop' else old) is True, 'slot-free', key + ': ' + m, e, 'the slot that is used up is known to be free')
        if len(x.args) > 1 and x.args[1][0] == 'c':
            ctx.ob(bool(x.args[1][1]) == bool(kind[m]), 'slot-kind', key + ': ' + m, he, 'the block is handed to a worker of the kind whose slot is used up')
        if e.kind == 'cop':
            ctx.ob(same(p.facts, popped(e), x.proc), 'slot-process', key + ': ' + m, he, 'the block is handed to the process whose slot is used up',
                   'slot of %s, handed to %s' % (show(popped(e)), show(x.proc)))
        else:
            ctx.ob(x.proc == OWN, 'slot-process', key + ': ' + m, he, 'the block is handed to the process whose slot is used up')


def many(ctx, rec):
    """Does the pool talk to other processes?"""
    return any('communicator' in tname(f['t']) for f in ctx.record(rec)['fields'])


def consumption(e, kind):
    l = mutates(e)
    if not l or l[0] != THIS or not l[1] or l[1][0] not in kind:
        return False
    if e.kind == 'w':
        return e.a['old'] is not None and sub(e.a['val'], e.a['old']) == C(-1)
    return e.kind == 'cop' and e.a['op'] in ('pop_front', 'pop_back')


def others(ctx, rec, g, e, kind, credit, out, isasg, B):
    l = mutates(e)
    if not l or l[0] != THIS or not l[1]:
        return
    m = l[1][0]
    if m in kind and id(e) not in credit and not (isasg and consumption(e, kind)):
        ctx.ob(False, 'slots-otherwise', '%s: %s' % (g['q'], m), e, 'free slots change only as they are announced and used')
    if m == out:
        if e.kind == 'cop' and e.a['op'] in ('insert', 'insert_present') and (e.a.get('dflt') or isasg and e.a['args'][:1] == (B,)):
            return
        if e.kind == 'cop' and e.a['op'] in ('erase', 'extract'):
            return                                # judged by reports()
        if e.kind == 'cop' and e.a['op'] == 'clear' and test(e.facts, atom_eq0(size(e.a['old']))) is True:
            return
        ctx.ob(False, 'outstanding-otherwise', '%s: %s' % (g['q'], m), e, 'outstanding blocks change only as blocks are handed out and reported')


def reports(ctx, rec, g, evs, out):
    """Each reported block is removed from the outstanding ones of the process that reports it; nothing else is."""
    allowed = set()

    def scan(evs):
        for n, e in enumerate(evs):
            if e.kind == 'loop':
                for a in e.a['alts']:
                    scan(a.events)
            for x in acts(ctx, e):
                if x.kind != 'ans' or x.op != 'finished':
                    continue
                hits = 0
                for y in evs[n + 1:]:
                    if any(z.kind == 'ans' and z.op == 'finished' for z in acts(ctx, y)):
                        break
                    if y.kind != 'loop':
                        continue
                    sw = sweep(y)
                    if not sw or sw[0] != 'iter' or core(sw[1]) != core(x.val):
                        continue
                    hits += 1
                    el = lambda t: is_elem(pointee(t), sw[1], sw[2]) or is_elem(t, sw[1], sw[2])

                    def er(z):
                        return z.kind == 'cop' and z.a['op'] in ('erase', 'extract') and z.a['loc'][0] == THIS and z.a['loc'][1][:1] == (out,) \
                            and z.a['args'] and el(z.a['args'][0])
                    for a in y.a['alts']:
                        c = count(a.events, er)
                        gone = any(b[0] == 'has' and not v and el(b[2]) for b, v in a.facts.items())
                        ctx.ob(c == {1} or gone and c == {0}, 'report-removes', g['q'], y, 'each block that a process reports as finished is removed from the outstanding ones',
                               'removed %s times' % sorted(c))
                        for z in flat(a.events):
                            if er(z):
                                allowed.add(id(z))
                                ks = [s for s in z.a['loc'][1][1:] if isinstance(s, tuple) and s[0] == 'k']
                                ok = not ks and not many(ctx, rec) or ks and same(z.facts, ks[0][1], x.proc)
                                ctx.ob(ok, 'report-process', g['q'], z, 'it is removed for the process that reported it',
                                       'removed for %s, reported by %s' % (show(ks[0][1]) if ks else 'no process', show(x.proc)))
                ctx.ob(hits == 1, 'report-handled', '%s: %s' % (g['q'], 'own' if x.proc == OWN else 'other'), e,
                       'the finished blocks that a process reports are gone through exactly once', 'gone through %d times' % hits)
    scan(evs)
    for z in flat(evs):
        if z.kind == 'cop' and z.a['op'] in ('erase', 'extract') and z.a['loc'][0] == THIS and z.a['loc'][1][:1] == (out,) and id(z) not in allowed:
            ctx.ob(False, 'removed-otherwise', g['q'], z, 'outstanding blocks are removed only when they are reported as finished')


def store_contains(ctx):
    f = ctx.fn('FileStore::contains')
    ps, it = ctx.run(f, tag='contains')
    B = ('sym', 'arg:' + f['params'][0]['n'])
    fields = {x['n'] for x in ctx.record('FileStore')['fields']}
    for p in ps:
        if p.kind != 'ret':
            continue
        ok = False
        for fld in fields:
            m = ('fld', ('sym', 'this'), fld)
            d = decide(p.facts, ('has', m, B))
            v = p.val
            if d is not None and v[0] == 'c' and bool(v[1]) == d:
                ok = True
            if v == boolterm((('has', m, B), True)) or v == boolterm(('has', m, B)):
                ok = True
            if ok:
                ctx._recfield = fld
                break
        ctx.ob(ok, 'contains', f['q'], f, 'the file store contains exactly the blocks that it has read from its records', 'value: ' + show(p.val))


def store_loads(ctx):
    """The constructor reads each regular file with the extension of records, completely, into the set that is
    asked later."""
    fs = [f for f in ctx.methods('FileStore') if f.get('ctor') and f.get('body') and any('ConfigNode' in tname(q['t']) for q in f['params'])]
    ctx.need(len(fs) == 1, 'constructor of FileStore not found')
    f = fs[0]
    cfg = [q['n'] for q in f['params'] if 'ConfigNode' in tname(q['t'])][0]
    fld = getattr(ctx, '_recfield', None)
    if fld is None:
        return
    import r_files
    def opq(g):
        return short(g['q']) == 'FileStore::extract'
    ps, it = ctx.run(f, opaque=opq, tag='load')
    target = (THIS, (fld,))
    rp = ('fld', ('sym', 'arg:' + cfg), 'result_path')
    def takes(e):
        return e.kind == 'call' and short(e.a['q']) == 'FileStore::extract' and any(a == ('ptr', target) or a == target for a in e.a.get('locs') or ())
    for p in ps:
        if p.kind != 'ret':
            continue
        nodir = any(a[0] == 'eqk' and v and len(a[1]) == 1 and a[2] == 0 and a[1][0][0][:2] == ('app', 'fs:is_directory') and contains(a[1][0][0], {rp})
                    for a, v in p.facts.items())
        nodir = nodir or any(a[0] == 'eqk' and v and len(a[1]) == 1 and a[2] == 0 and a[1][0][0][:2] == ('app', 'fs:exists') for a, v in p.facts.items())
        les = [e for e in loops(p.events) if any(takes(x) for a in e.a['alts'] for x in flat(a.events))]
        if nodir:
            continue
        n = 0
        for le in les:
            sw = sweep(le) or dirsweep(le)
            ok = sw and sw[0] == 'iter' and dirlist_of(sw[1], rp)
            ctx.ob(ok, 'records-read', f['q'], le, 'the constructor goes through all files of the result directory')
            if not ok:
                continue
            n += 1
            el = get({}, sw[1], ('x', sw[2]))
            for a in le.a['alts']:
                c = count(a.events, takes)
                skip = any(irrelevant(b, v, el) for b, v in a.facts.items())
                ctx.ob(c == {1} or c == {0} and skip, 'record-read', f['q'], le, 'each record among them is read into the set of recorded blocks',
                       'an iteration skips a file that may be a record' if c == {0} else 'read %s times' % sorted(c))
                for e in flat(a.events):
                    if takes(e):
                        v = e.a['args'][0]
                        ctx.ob(contains(v, {el}) or opened(a.events, e, el), 'record-file', f['q'], e, 'the file that is read is the one found')
        ctx.ob(n == 1 or not les and copied_all(p), 'records-read', f['q'], f, 'the constructor goes through all files of the result directory', 'gone through %d times' % n)


def copied_all(p):
    return False


def dirsweep(le):
    return None


def dirlist_of(c, rp):
    c = unbase(c)
    for x in subterms(c):
        if isinstance(x, tuple) and x[:2] == ('app', 'dirlist'):
            return contains(x[2], {rp}) or x[2] == rp
    return False


def irrelevant(b, v, el):
    """Does the fact say that the directory entry el is no record?  (not a regular file, or another extension)"""
    if not contains(b, {el}):
        return False
    if b[0] == 'eqk' and len(b[1]) == 1 and b[2] == 0 and b[1][0][0][:2] == ('app', 'fs:is_regular_file'):
        return v is True
    if b[0] == 'eq':
        lits = [x for x in b[1:] if isinstance(x, tuple) and x[0] == 'S' and len(x[1]) == 1 and x[1][0][0] == 'l']
        return v is False and any(l[1][0][1].startswith('.') for l in lits) and any(x[:2] == ('app', 'extension') for x in subterms(b) if isinstance(x, tuple))
    return False


def opened(evs, e, el):
    for x in flat(evs):
        if x.kind == 'fopen' and contains(x.a.get('path'), {el}):
            return True
    return False


# ------------------------------------------------------------------------------------------ C09
def quiet(e, out):
    """Is no block outstanding for any process, as far as is known at the event?"""
    if out is None:
        return False
    v = e.a['cur'].get(out)
    if v is None:
        return False
    if test(e.facts, atom_eq0(size(v))) is True:
        return True
    each = get({}, v, ('k', ('key', unbase(v), ('each',))))
    for a, x in e.facts.items():
        if a[0] == 'all' and x is True and unbase(a[1]) == unbase(v) and a[3] is True and a[2][0] == 'eqk' and a[2][2] == 0 \
                and len(a[2][1]) == 1 and a[2][1][0][0] == size(each):
            return True
    return False


def nostore(e, fsf):
    """Is it known that nothing has been configured yet?"""
    return test(e.facts, atom_eq0(e.a['cur'].get(fsf, ('undef',)))) is True or test(e.facts, atom_eq0(('fld', ('sym', 'this'), fsf))) is True


def outmember(ctx, rec):
    """The member that notes outstanding blocks (as in C08)."""
    for f in entries(ctx, rec):
        for q in f['params']:
            if 'vector<std::tuple<unsigned int, unsigned int' in tname(q['t']) and not f.get('ctor'):
                ps, it = run(ctx, f, rec)
                for e in allevs(ps):
                    if e.kind == 'cop' and e.a['op'] in ('insert', 'insert_present', 'push_back') and e.a['loc'][0] == THIS and e.a['args'] and e.a['args'][0] == ('sym', 'arg:' + q['n']):
                        return e.a['loc'][1][0]
    raise Broken('%s does not note outstanding blocks' % rec)


def reconfigurers(ctx, rec):
    """Entries that take a configuration: [(function, its value)]."""
    return [(f, ('sym', 'arg:' + q['n'])) for f in entries(ctx, rec) if not f.get('ctor') for q in f['params'] if 'ConfigNode' in tname(q['t'])]


def every_rank(evs, pred):
    """How often pred holds for each other process along the trace: the set of possible numbers, or None if
    not every process is treated alike."""
    def step(n, e):
        if n is None:
            return (None,)
        return (None,) if pred(e) else (n,)       # outside a loop over all processes
    def onloop(states, le):
        if not any(pred(x) for x in flat([le])):
            return states
        r = rank_loop(le)
        if not r or None in states:
            return {None}
        iv, alts = r
        if not alts:
            return {None}
        # an iteration addresses its own process
        ns = set()
        for a in alts:
            ns |= count(a.events, pred)
            for x in flat(a.events):
                if pred(x) and not any(same(x.facts, y.proc, iv) for y in [z for z in ACTS(x)]):
                    return {None}
        return {min(n + k, 2) for n in states for k in ns}
    return automaton(evs, {0}, step, onloop)


ACTS = None


def c09(ctx):
    """On every path of every operation of a worker pool, at each point where the file store is replaced or
    workers are reconfigured or stopped: no block is known to be outstanding for any process, and since then
    the results of this process and of every other one have been exported (what becomes of them is C10).  The
    operation that takes a configuration hands it to the threads of every process exactly once, and the
    destructor stops those of every process exactly once; the other processes do so on the message."""
    global ACTS
    anchors(ctx)
    ACTS = lambda e: acts(ctx, e)
    for rec, tpf, fsf in pools(ctx):
        out = outmember(ctx, rec)
        rc = reconfigurers(ctx, rec)
        ctx.need(rc, '%s has no operation that takes a configuration' % rec)
        multi = many(ctx, rec)
        n = 0
        for f in entries(ctx, rec):
            if f.get('ctor'):
                continue
            ps, it = run(ctx, f, rec)
            for p in ps:
                if p.kind != 'ret':
                    continue
                n += changes(ctx, rec, f, p, out, fsf, multi)
        ctx.need(n, '%s is never reconfigured or stopped' % rec)
        for f, cfg in rc:
            ps, it = run(ctx, f, rec)
            for p in ps:
                if p.kind != 'ret':
                    continue
                isc = lambda e: any(x.kind == 'req' and x.op == 'config' and x.args[:1] == (cfg,) for x in acts(ctx, e))
                own = lambda e: any(x.kind == 'req' and x.op == 'config' and x.args[:1] == (cfg,) and x.proc == OWN for x in acts(ctx, e))
                oth = lambda e: isc(e) and not own(e)
                ctx.ob(own_count(p.events, own) == {1}, 'configured-own', f['q'], f, 'the new configuration is given to the threads of this process exactly once')
                if multi:
                    ctx.ob(every_rank(p.events, oth) == {1}, 'configured-all', f['q'], f, 'the new configuration is sent to every other process exactly once')
                ctx.ob(count(p.events, lambda e: e.kind == 'w' and e.a['loc'] == (THIS, (fsf,)) and e.a['val'] != C(0)) == {1}, 'configured-store', f['q'], f,
                       'a file store is set up for the new configuration')
        ds = [f for f in entries(ctx, rec) if f.get('dtor')]
        ctx.ob(ds, 'stopped', rec + ': destructor', {'file': ctx.record(rec).get('file', ''), 'l': 0, 'q': rec}, 'the pool stops its workers when it is destroyed')
        for f in ds:
            ps, it = run(ctx, f, rec)
            for p in ps:
                if p.kind != 'ret':
                    continue
                isc = lambda e: any(x.kind == 'req' and x.op == 'stop' for x in acts(ctx, e))
                own = lambda e: any(x.kind == 'req' and x.op == 'stop' and x.proc == OWN for x in acts(ctx, e))
                ctx.ob(own_count(p.events, own) == {1}, 'stopped-own', f['q'], f, 'the threads of this process are stopped exactly once')
                if multi:
                    ctx.ob(every_rank(p.events, lambda e: isc(e) and not own(e)) == {1}, 'stopped-all', f['q'], f,
                           'every other process is told to stop exactly once')
        waits(ctx, rec, out, multi)
    if any(many(ctx, r) for r, _, _ in pools(ctx)):
        f, ps, tab = handlers(ctx)
        for t, hs in tab.items():
            for h in hs:
                for o in h.ops:
                    if optype(o) in ('config', 'assign'):
                        ctx.ob(any(v == o.a['args'][0] for r in h.recvs for v in r.a['vals']), 'handled-value', '%s: %s' % (f['q'], tagname(ctx, t)), o,
                               'another process uses the configuration or block it was sent')
        stops = [h for hs in tab.values() for h in hs if any(optype(o) == 'stop' for o in h.ops)]
        ctx.ob(stops and all(h.leaves and len([o for o in h.ops if optype(o) == 'stop']) == 1 for h in stops), 'worker-stops', f['q'], f,
               'told to stop, another process stops its threads and ends')


def changes(ctx, rec, f, p, out, fsf, multi):
    n = [0]

    def exported_by(evs):
        return [x for e in flat(evs) for x in acts(ctx, e) if x.kind == 'req' and x.op == 'export']

    def step(s, e):
        own, oth = s
        for x in acts(ctx, e):
            if x.kind != 'req':
                continue
            if x.op == 'assign':
                own = oth = False
            if x.op == 'export' and x.proc == OWN and quiet(e, out):
                own = True
            if x.op in ('config', 'stop'):
                judge(e, own, oth)
        if e.kind == 'w' and e.a['loc'] == (THIS, (fsf,)):
            judge(e, own, oth)
        return ((own, oth),)

    def onloop(states, le):
        r = rank_loop(le)
        if r and r[1]:
            iv, alts = r
            ok = True
            for a in alts:
                c = count(a.events, lambda e: any(x.kind == 'req' and x.op == 'export' and same(e.facts, x.proc, iv) and quiet(e, out) for x in acts(ctx, e)))
                ok = ok and c == {1}
            mine = own_alts(le)
            me = mine and all(count(a.events, lambda e: any(x.kind == 'req' and x.op == 'export' and x.proc == OWN and quiet(e, out)
                                                           for x in acts(ctx, e))) == {1} for a in mine)
            if ok:
                inner = set()
                for s in states:
                    for a in alts + (mine or []):
                        inner |= automaton(a.events, {s}, step, onloop)
                return {(o or bool(me), True) for o, _ in inner or states}
        return None

    def judge(e, own, oth):
        n[0] += 1
        if nostore(e, fsf):
            ctx.ob(True, 'nothing-configured', f['q'], e, 'nothing has been computed before the first configuration')
            return
        ctx.ob(quiet(e, out), 'awaited', f['q'], e, 'when workers are reconfigured or stopped no block is outstanding for any process',
               'blocks may be outstanding at that point')
        ctx.ob(own and (oth or not multi), 'saved-before', f['q'], e, 'what was computed has been exported before workers are reconfigured or stopped',
               'since the last block was reported nothing was exported from ' + ('this process' if not own else 'the other processes'))
    automaton(p.events, {(False, not multi)}, step, onloop)
    return n[0]


def waits(ctx, rec, out, multi):
    """Each round of a loop that waits for outstanding blocks asks every process for its finished ones."""
    for f in entries(ctx, rec):
        if f.get('ctor'):
            continue
        ps, it = run(ctx, f, rec)
        for p in ps:
            if p.kind != 'ret':
                continue
            for le in loops(p.events):
                if not any(e.kind == 'sleep' for a in le.a['alts'] for e in a.events):
                    continue
                asks = lambda e: any(x.kind == 'req' and x.op == 'finished' for x in acts(ctx, e))
                own = lambda e: any(x.kind == 'req' and x.op == 'finished' and x.proc == OWN for x in acts(ctx, e))
                if not any(asks(e) for a in le.a['alts'] for e in flat(a.events)):
                    continue
                for a in le.a['alts']:
                    ctx.ob(0 not in own_count(a.events, own), 'wait-asks', f['q'] + ': own', le, 'each round of waiting takes the finished blocks of this process')
                    if multi:
                        r = every_rank(a.events, lambda e: asks(e) and not own(e))
                        ctx.ob(None not in r and 0 not in r, 'wait-asks', f['q'] + ': others', le, 'each round of waiting takes the finished blocks of every other process')


# ------------------------------------------------------------------------------------------ C10
def c10(ctx):
    """Every value that is exported from the stores, here or in the answer of another process, reaches
    FileStore::save of the pool's file store exactly once on every path, while that file store is still the
    one that was set up for the configuration given to the workers; other processes answer with what their
    stores exported."""
    anchors(ctx)
    for rec, tpf, fsf in pools(ctx):
        n = 0
        for f in entries(ctx, rec):
            ps, it = run(ctx, f, rec)
            for p in ps:
                if p.kind == 'ret':
                    n += exports(ctx, rec, f, p.events, fsf, [])
                    saves(ctx, rec, f, p)
        ctx.need(n, '%s exports nothing' % rec)
        for f, cfg in reconfigurers(ctx, rec):
            ps, it = run(ctx, f, rec)
            for p in ps:
                if p.kind != 'ret':
                    continue
                ws = [e for e in flat(p.events) if e.kind == 'w' and e.a['loc'] == (THIS, (fsf,)) and e.a['val'] != C(0)]
                sync = {}
                for e in flat(p.events):
                    if e in ws:
                        sync['files'] = True
                    for x in acts(ctx, e):
                        who = 'own' if x.proc == OWN else 'other'
                        if x.kind == 'req' and x.op == 'config':
                            sync[who] = True
                        if x.kind == 'req' and x.op == 'export' and not nostore(e, fsf):
                            ctx.ob(sync.get('files') == sync.get(who), 'export-in-step', '%s: %s' % (f['q'], who), e,
                                   'results are exported only while the file store and the workers have the same configuration',
                                   'the file store has been replaced, the workers have not' if sync.get('files') else 'the workers have been reconfigured')
                made = {e.a['loc']: e for e in flat(p.events) if e.kind == 'ctor' and e.a['rec'] == 'FileStore'}
                for e in ws:
                    v = e.a['val']
                    c = made.get(v[1]) if v[0] == 'ptr' else None
                    ctx.ob(c is not None and tuple(c.a['args'][:1]) == (cfg,), 'store-of-config', f['q'], e,
                           'the file store is set up for the configuration that the workers get')
    if any(many(ctx, r) for r, _, _ in pools(ctx)):
        f, ps, tab = handlers(ctx)
        for t, hs in tab.items():
            for h in hs:
                for o in h.ops:
                    if optype(o) in ('export', 'ready', 'finished'):
                        c = count(h.evs, lambda e: e.kind == 'send' and tuple(e.a['vals']) == (o.a['ret'],))
                        ctx.ob(c == {1}, 'answers', '%s: %s' % (f['q'], tagname(ctx, t)), o, 'another process answers with what was exported, exactly once')


def issave(y):
    return y.kind == 'call' and y.a['q'] == 'FileStore::save' and y.a.get('inl') is False


def saved_value(y, V):
    return issave(y) and (tuple(y.a['args']) == (V,) or tuple(y.a['args']) == (get({}, V, 0), get({}, V, 1)))


def passed_on(le, loc):
    """Does the loop run over all elements of the local container and save each of them exactly once?"""
    sw = sweep(le)
    if not sw or sw[0] != 'iter' or not le.a['alts']:
        return False
    for a in le.a['alts']:
        els = {e.a['val'] for e in flat(a.events) if e.kind == 'elem' and e.a['cloc'] == loc} | {get({}, sw[1], ('x', sw[2]))}
        if not any(e.kind == 'elem' and e.a['cloc'] == loc and is_elem(e.a['val'], sw[1], sw[2]) for e in flat(a.events)):
            return False
        if not any(count(a.events, lambda y: saved_value(y, v)) == {1} for v in els):
            return False
    return True


def exports(ctx, rec, f, evs, fsf, after):
    """Judges what is exported along the trace; what is collected in a local container has to be passed on by
    a later loop: `after` lists the events that follow, level by level."""
    n = 0
    for i, e in enumerate(evs):
        if e.kind == 'loop':
            for a in e.a['alts']:
                n += exports(ctx, rec, f, a.events, fsf, [evs[i + 1:]] + after)
        for x in acts(ctx, e):
            if x.kind != 'ans' or x.op != 'export':
                continue
            n += 1
            who = 'own' if x.proc == OWN else 'other'
            if nostore(e, fsf):
                continue
            V = x.val
            c = count(evs[i:], lambda y: saved_value(y, V))
            where = evs[i:]
            if c == {0}:
                put = [y for y in evs[i:] if y.kind == 'cop' and y.a['op'] in ('push_back', 'emplace_back', 'push_front') and y.a['args'] == (V,) and y.a['loc'][0][0] == 'v']
                if len(put) == 1:
                    loc = put[0].a['loc']
                    rest = [z for l in [evs[evs.index(put[0]) + 1:]] + after for z in l]
                    ls = [z for z in rest if z.kind == 'loop' and passed_on(z, loc)]
                    lost = [z for z in flat(rest[:rest.index(ls[0])] if ls else []) if mutates(z) == loc and z.a.get('op') not in ('push_back', 'emplace_back', 'push_front')]
                    if len(ls) == 1 and not lost:
                        c, where = {1}, ls
                        V = None
            ctx.ob(c == {1}, 'saved', '%s: %s' % (f['q'], who), e, 'what is exported is saved exactly once', 'saved %s times' % '/'.join(map(str, sorted(c))))
            for y in flat(where):
                if V is None and issave(y) or V is not None and saved_value(y, V):
                    th = y.a['this']
                    ctx.ob(y.a['cur'].get(fsf) == e.a['cur'].get(fsf) and th and th[0] == 'ptr' and pointee(th) == y.a['cur'].get(fsf), 'saved-under', '%s: %s' % (f['q'], who), y,
                           'it is saved in the file store under which it was computed')
    return n


def saves(ctx, rec, f, p):
    ex = {x.val for e in flat(p.events) for x in acts(ctx, e) if x.kind == 'ans' and x.op == 'export'}
    # containers that take in nothing but what is exported
    took = {}
    for e in flat(p.events):
        if e.kind == 'cop' and e.a['op'] in ('push_back', 'emplace_back', 'push_front') and e.a['loc'][0][0] == 'v':
            took.setdefault(e.a['loc'], []).append(e.a['args'][0] in ex if e.a['args'] else False)
    coll = {id(y) for z in loops(p.events) for l, oks in took.items() if all(oks) and passed_on(z, l) for y in flat([z]) if issave(y)}
    for y in flat(p.events):
        if y.kind == 'call' and y.a['q'] == 'FileStore::save' and y.a.get('inl') is False:
            a = tuple(y.a['args'])
            ok = len(a) == 1 and a[0] in ex or len(a) == 2 and any(a == (get({}, v, 0), get({}, v, 1)) for v in ex) or id(y) in coll
            ctx.ob(ok, 'save-exported', f['q'], y, 'only what was exported is saved, records and results belonging together', 'saved: ' + ', '.join(show(v) for v in a))


# ------------------------------------------------------------------------------------------ C22
def ctype(t):
    t = re.sub(r'\bconst\b', '', t).replace('&', ' ')
    return re.sub(r'\s+', ' ', t).strip()


def types(e):
    return tuple(ctype(t) for t in e.a['types'])


def c22(ctx):
    """The messages of the two kinds of processes as a protocol: what the waiting loop of the other processes
    does for each tag (types received, answers sent) is tabulated; every trace of the controlling pool is run
    through the automaton that this table defines.  Collective steps agree in number, order, types and root."""
    anchors(ctx)
    f, wps, tab = handlers(ctx)
    ms = [(r, t, s) for r, t, s in pools(ctx) if many(ctx, r)]
    ctx.need(ms, 'no pool that controls other processes')
    for t, hs in sorted(tab.items(), key=str):
        if t is None:
            continue
        name = tagname(ctx, t)
        for h in hs:
            key = '%s: %s' % (f['q'], name)
            ok = len(h.recvs) == 1 and tagof(h.recvs[0]) == t
            ctx.ob(ok and count(h.evs, lambda e: e.kind == 'recv') == {1}, 'receives-announced', key, h.where, 'the message that was announced is received, exactly once',
                   '%d received' % len(h.recvs))
            for r in h.recvs:
                ctx.ob(r.a['src'] in (C(0), C(-1)) or contains(r.a['src'], {h.probe.a['val']}), 'receives-from', key, r, 'it is received from the controlling process')
                if h.sends:
                    seq_ = [e for e in flat(h.evs) if e.kind in ('recv', 'send')]
                    ctx.ob(seq_[0].kind == 'recv', 'answers-after', key, r, 'an answer follows the message')
            for e in h.sends:
                ctx.ob(e.a['dest'] == C(0) or contains(e.a['dest'], {h.probe.a['val']}), 'answers-to', key, e, 'the answer goes to the controlling process')
                ctx.ob(count(h.evs, lambda x: x is e) == {1}, 'answers-always', key, e, 'the answer is sent on every path')
        sig = {(tuple(types(r) for r in h.recvs), tuple((tagof(e), types(e)) for e in h.sends), h.leaves) for h in hs}
        ctx.ob(len(sig) == 1, 'handled-alike', '%s: %s' % (f['q'], name), hs[0].where, 'a message is answered in the same way on every path')
    for h in tab.get(None, []):
        ctx.ob(not h.sends, 'unknown-unanswered', f['q'], h.where, 'no answer is sent to an unknown message')
    pa = [h.probe.a['args'] for hs in tab.values() for h in hs]
    for a in pa:
        ctx.ob(all(x == C(-1) or x == C(0) for x in a[:1]) and all(x == C(-1) for x in a[1:]), 'awaits-any', f['q'], f, 'every kind of message of the controlling process is awaited')
    for rec, tpf, fsf in ms:
        for g in entries(ctx, rec):
            ps, it = run(ctx, g, rec)
            for p in ps:
                if p.kind == 'ret':
                    protocol(ctx, rec, g, p, tab)
    collectives(ctx, f, wps, [r for r, _, _ in ms])


def protocol(ctx, rec, g, p, tab):
    def step(s, e):
        pend, gone = s
        if e.kind == 'send':
            t = tagof(e)
            name = '%s: %s' % (g['q'], tagname(ctx, t) if t is not None else show(e.a['tag']))
            ctx.ob(pend is None, 'answer-awaited', name, e, 'the answer to the previous message is received before the next is sent',
                   'an answer with %s is still to come' % (tagname(ctx, pend[2]) if pend else ''))
            hs = tab.get(t)
            ctx.ob(hs, 'tag-handled', name, e, 'the other processes handle messages with this tag')
            d = e.a['dest']
            ctx.ob(test(e.facts, atom_eq0(d)) is False or 'iv' == d[0] and test(e.facts, atom_lt(d, C(1))) is False, 'to-other', name, e, 'messages are sent to other processes')
            ctx.ob(not gone, 'after-stop', name, e, 'nothing is sent to a process that was told to stop')
            if hs:
                want = tuple(types(r) for r in hs[0].recvs)
                ctx.ob(want == (types(e),), 'types-sent', name, e, 'the types sent are those received', 'sent %s, received %s' % (types(e), want))
                pend = ('one', d, t, 0) if hs[0].sends else None
                if hs[0].leaves:
                    gone = True
            return ((pend, gone),)
        if e.kind == 'recv':
            t = tagof(e)
            name = '%s: %s' % (g['q'], tagname(ctx, t) if t is not None else show(e.a['tag']))
            ok = pend is not None and pend[0] == 'one' and same(e.facts, e.a['src'], pend[1])
            ctx.ob(ok, 'answer-expected', name, e, 'an answer is awaited only from a process that was asked')
            if ok:
                w = tab[pend[2]][0].sends[pend[3]]
                ctx.ob(tagof(w) == t and types(w) == types(e), 'types-answered', name, e, 'tag and types of the answer are those sent',
                       'sent %s %s, received %s %s' % (tagname(ctx, tagof(w)), types(w), tagname(ctx, t), types(e)))
                k = pend[3] + 1
                pend = ('one', pend[1], pend[2], k) if k < len(tab[pend[2]][0].sends) else None
            return ((pend, gone),)
        return (s,)

    def onloop(states, le):
        if not any(x.kind in ('send', 'recv') for x in flat([le])):
            return states
        r = rank_loop(le)
        if not r or not r[1]:
            return None
        iv, alts = r
        res = set()
        for pend, gone in states:
            st = (None, False) if pend is None else (('one', iv, pend[2], pend[3]), False) if pend[0] == 'all' else None
            if st is None:
                return None
            if gone:
                for x in flat([le]):
                    if x.kind == 'send':
                        ctx.ob(False, 'after-stop', g['q'], x, 'nothing is sent to a process that was told to stop')
            ends = set()
            for a in alts:
                ends |= automaton(a.events, {st}, step, onloop)
            for q, gn in ends:
                res.add((None if q is None else ('all', None, q[2], q[3]), gone or gn))
        return res
    end = automaton(p.events, {(None, False)}, step, onloop)
    for pend, gone in end:
        ctx.ob(pend is None, 'answer-awaited', g['q'] + ': end', g, 'every answer that another process sends is received', 'an answer is left')


def collectives(ctx, f, wps, recs):
    def seqs(ps):
        out = {}
        for p in ps:
            l = []
            for e in p.events:
                if e.kind == 'bcast':
                    l.append(('bcast', types(e), e.a['root']))
                elif e.kind == 'barrier':
                    l.append(('barrier',))
                elif e.kind == 'loop':
                    for x in flat([e]):
                        if x.kind in ('bcast', 'barrier'):
                            l.append(('in a loop', x.line))
                elif e.kind in ('probe', 'send', 'recv') and l and l[-1] != 'messages':
                    l.append('messages')
            while l and l[-1] == 'messages':
                l.pop()
            if p.kind == 'ret':
                out[tuple(l)] = p
        return out
    w = seqs(wps)
    ctx.ob(len(w) == 1, 'collectives', f['q'], f, 'every path takes part in the same collective steps')
    for rec in recs:
        for g in entries(ctx, rec):
            ps, it = run(ctx, g, rec)
            m = seqs(ps)
            if g.get('ctor'):
                ctx.ob(set(m) == set(w), 'collectives', g['q'], g, 'both kinds of processes take part in the same collective steps, in the same order, with the same types and root',
                       'here %s, there %s' % (sorted(map(str, m)), sorted(map(str, w))))
                # what is broadcast reaches those who wait for it
                for p in ps:
                    for e in flat(p.events):
                        if e.kind == 'bcast':
                            ctx.ob(e.a['root'] == C(0), 'root', g['q'], e, 'the controlling process is the root')
            else:
                ctx.ob(set(m) <= {()}, 'collectives', g['q'], g, 'no collective step after the start')


# ------------------------------------------------------------------------------------------ C23
COMM = ('boost::mpi::communicator::', 'boost::mpi::broadcast', 'boost::mpi::gather', 'boost::mpi::all_', 'boost::mpi::reduce', 'boost::mpi::scatter',
        'boost::mpi::environment::', 'boost::mpi::request::', 'boost::mpi::wait', 'boost::mpi::test', 'MPI_')


def c23(ctx):
    """No function that a started thread can reach through the call graph (virtual calls to every overrider,
    calls of stored functions to everything ever stored) communicates; MPI is initialised for a process that
    has several threads."""
    seeds, sites = set(), []
    for f in ctx.p.functions.values():
        for n in walk([f.get(k) for k in ('body', 'inits') if f.get(k)]):
            c = n.get('callee') or n.get('ctor')
            q = c.get('q', '') if isinstance(c, dict) else str(c or '')
            t = tname(n.get('t')) if isinstance(n.get('t'), dict) else ''
            obj = str(c.get('rec') or '') if isinstance(c, dict) else ''
            if not (n.get('k') in ('construct', 'new', 'call', 'mcall', 'opcall') or n.get('ctor')):
                continue
            if t in ('std::thread', 'std::jthread') or q.startswith(('std::async', 'std::thread::thread', 'std::jthread', 'pthread_create')) \
                    or 'std::thread' in obj and q.rsplit('::', 1)[-1] in ('emplace_back', 'emplace', 'push_back'):
                hit = False
                for m in walk(n):
                    if m.get('rk') == 'func' and isinstance(m.get('callee'), dict) and m['callee'].get('fn') in ctx.p.functions:
                        seeds.add(m['callee']['fn'])
                        hit = True
                    if m.get('k') == 'lambda' and m.get('fn'):
                        seeds.add(m['fn'])
                        hit = True
                if hit:
                    sites.append((f, n))
    ctx.need(seeds, 'no thread is started')
    # functions that are stored and called later
    stored = set()
    for f in ctx.p.functions.values():
        for n in walk(f.get('body') or []):
            t = n.get('t')
            if isinstance(t, dict) and models.family(t) == 'std::function':
                for m in walk(n):
                    if m.get('k') == 'lambda' and m.get('fn'):
                        stored.add(m['fn'])
                    elif m.get('rk') == 'func' and isinstance(m.get('callee'), dict) and m['callee'].get('fn') in ctx.p.functions:
                        stored.add(m['callee']['fn'])
    reach = ctx.reachable(seeds)
    if any('std::function' in x and 'operator()' in x for x in reach) or any(
            isinstance(n.get('callee'), dict) and n['callee'].get('q', '').startswith('std::function') for x in reach if x in ctx.p.functions for n in walk(ctx.p.functions[x].get('body') or [])):
        reach = ctx.reachable(seeds | stored)
    nfn = 0
    for x in sorted(reach):
        fn = ctx.p.functions.get(x)
        if not fn or not fn.get('body'):
            continue
        nfn += 1
        hit = None
        for n in walk([fn.get(k) for k in ('body', 'inits') if fn.get(k)]):
            c = n.get('callee')
            q = c.get('q', '') if isinstance(c, dict) else ''
            if q.startswith(COMM):
                hit = (q, n.get('l', 0))
        ctx.ob(hit is None, 'no-communication', fn['q'], {'file': fn['file'], 'l': hit[1] if hit else fn['l'], 'q': fn['q']},
               'code that worker threads run does not communicate with other processes', '%s called: %s' % (hit[0], ctx.chain(reach, x)) if hit else '')
    ctx.need(nfn > 5, 'the code of worker threads was not found')
    # the library is told that there are threads
    for f in ctx.p.functions.values():
        for n in walk(f.get('body') or []):
            if tname(n.get('t') if isinstance(n.get('t'), dict) else None) == 'boost::mpi::environment' and n.get('k') == 'construct':
                vs = [m.get('cv', m.get('v')) for m in n.get('c') or [] if isinstance(m, dict) and 'threading' in tname(m.get('t') if isinstance(m.get('t'), dict) else None)]
                ctx.ob(vs and isinstance(vs[0], int) and vs[0] >= 1, 'threads-announced', f['q'], {'file': f['file'], 'l': n.get('l', 0), 'q': f['q']},
                       'MPI is initialised for processes with several threads')


RULES = {'C08': c08, 'C09': c09, 'C10': c10, 'C22': c22, 'C23': c23}
