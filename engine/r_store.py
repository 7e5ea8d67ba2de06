"""Rules about results: publication and export (C04), sums (C14), registration and twists (C15), order of the
keys (C17), ownership of counts (C18)."""
from lib import *
import models
from r_threads import isq, roots, worker_runs, publishes, truth_of


def st_opaque(f):
    return short(f['q']).startswith(('Curve::', 'CurveIterator::'))


def store_method(ctx, name, params=None):
    fs = [f for f in ctx.p.functions.values() if f.get('body') and f.get('rec') and short(f['q']).endswith('::' + name)
          and short(f['rec']).split('::')[-1] == 'Store']
    if params is not None:
        fs = [f for f in fs if len(f['params']) == params]
    ctx.need(fs, 'Store::%s not found' % name)
    return fs


def st_run(ctx, f):
    return ctx.run(f, opaque=st_opaque, tag='st')


def maps_of(ctx, rec):
    """The members of a store that hold its own results."""
    return [f['n'] for f in ctx.record(rec)['fields'] if models.family(f['t']) in ('std::map', 'std::unordered_map')]


def glob_root(loc):
    return loc[0] if loc and loc[0][0] == 'g' else None


def final(p, root, path=()):
    v = p.st.mem.get(root)
    if v is None:
        return None
    for s in path:
        v = get(p.facts, v, s)
    return v


def empty(facts, v):
    return v is not None and (v in (EMPTY, EMPTYS, EMPTYM) or test(facts, atom_eq0(size(v))) is True)


def count_at(facts, m, key):
    """The number that the map value m holds for key: a term, with 0 for a missing key; None if undecided."""
    if m[0] == 'M':
        for k, pres, val in reversed(m[2]):
            r = key_eq(facts, k, key)
            if r is True:
                return number(facts, val) if pres else C(0)
            if r is None:
                return None
        m = m[1]
    if m in (EMPTY, EMPTYM) or m[0] == 'undef':
        return C(0)
    h = decide(facts, ('has', m, key))
    if h is True:
        return number(facts, ('fld', m, ('k', key)))
    if h is False:
        return C(0)
    return None


def number(facts, v):
    """The number inside a result value."""
    while v[0] == 'O' and v[1] is None and len(v[2]) == 1:
        v = v[2][0][1]
    if v[0] == 'O' and v[1] is not None and len(v[2]) == 1:
        return v[2][0][1]
    if v[0] == 'fld' and isinstance(v[2], tuple) and v[2][0] == 'k':
        return ('num', v)
    return v


def nums(t):
    """Wraps the counters of stored results, so that x.counter and x compare alike."""
    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x[0] == 'fld' and len(x) == 3 and isinstance(x[2], str) and x[1][0] == 'fld' and isinstance(x[1][2], tuple) and x[1][2][0] == 'k':
            return ('num', go(x[1]))
        if x[0] == 'fld' and len(x) == 3 and isinstance(x[2], str) and x[1][0] == 'num':
            return go(x[1])
        ys = tuple(go(y) for y in x)
        return renorm(ys) if ys != x else x
    return go(t)


# ------------------------------------------------------------------------------------------ C04
def published_to(ctx, f):
    """(global list of blocks, global results, own field) as the publication of f uses them."""
    ps, it = st_run(ctx, f)
    rec, res = set(), set()
    blk = {('sym', 'arg:' + p['n']) for p in f['params']}
    own = set(maps_of(ctx, f['rec']))
    for p in ps:
        for e in flat(p.events):
            l = mutates(e)
            g = glob_root(l)
            if g is None and e.kind == 'cop' and e.a['op'] in ('insert_present', 'index'):
                g = glob_root(e.a['loc'])
            if g is None or e.kind not in ('cop', 'w'):
                continue
            if e.kind == 'cop' and e.a['args'] and e.a['args'][0] in blk:
                rec.add(g)
            else:
                res.add(g)
    return rec, res - rec, own


def own_sweeps(evs, own):
    """Loops of the trace that run over the whole of the store's own results: [(event, test)]."""
    out = []
    for e in evs:
        if e.kind != 'loop' or not e.a['alts']:
            continue
        sw = sweep(e)
        if sw is None:
            continue
        if sw[0] == 'iter' and unbase(sw[1]) in own or sw[0] == 'drain' and locval(sw[1]) in own:
            out.append(e)
    return out


def touches(e, g):
    """Does the event change the container g (or add to it)?"""
    l = mutates(e)
    if l is None and e.kind == 'cop' and e.a['op'] in ('insert_present',):
        l = e.a['loc']
    return glob_root(l) == g if l else False


def section(evs, pick):
    """(mutexes held throughout by all picked events without being given up in between, picked events)."""
    seq = [e for e in flat(evs)]
    idx = [i for i, e in enumerate(seq) if pick(e)]
    if not idx:
        return None, []
    common = None
    for i in idx:
        ms = set(held(seq[i]))
        common = ms if common is None else common & ms
    for i in range(idx[0], idx[-1] + 1):
        if seq[i].kind == 'unlock':
            common.discard(seq[i].a['m'])
        if seq[i].kind == 'wait':
            common.clear()
    return common, [seq[i] for i in idx]


def held(e):
    return [l[0] if isinstance(l, tuple) and len(l) == 2 and isinstance(l[0], tuple) and isinstance(l[1], int) else l for l in e.locks]


def c04(ctx):
    """Every path through the publication of a block: in one critical section of one mutex the name of the
    block is added to the common block list and every result of the store (a complete sweep) is added to the
    common results; the store is empty afterwards or is never published twice.  Every path through the export:
    in one critical section of the same mutex the complete block list and the complete results are taken and
    both are left empty.  No other function touches the common containers."""
    mut = None
    G = None
    pubs = store_method(ctx, 'flush_to_static_store')
    exps = store_method(ctx, 'flush_static_store')
    for f in pubs:
        q = f['q']
        ps, it = st_run(ctx, f)
        rec, res, own = published_to(ctx, f)
        ctx.ob(len(rec) == 1, 'block-recorded', q, f, 'a publication adds its block to the common list of blocks', 'lists: %d' % len(rec))
        ctx.need(len(res) == 1 or not rec, 'cannot tell which container holds the common results (%d)' % len(res))
        if len(rec) != 1 or len(res) != 1:
            continue
        rec, res = list(rec)[0], list(res)[0]
        G = (rec, res)
        ownv = {('fld', ('sym', 'this'), n) for n in own}
        blk = {('sym', 'arg:' + p['n']) for p in f['params']}
        mm = None
        cleared = True
        for p in ps:
            if p.kind != 'ret':
                continue
            n = count(p.events, lambda e: touches(e, rec))
            ctx.ob(n == {1}, 'block-recorded', q + ': once', f, 'the block is added exactly once on every path', 'added %s times' % sorted(n))
            bad = [e for e in flat(p.events) if touches(e, rec) and not (e.kind == 'cop' and e.a['op'] in ('insert', 'insert_present') and e.a['args'][0] in blk)]
            ctx.ob(not bad, 'block-recorded', q + ': only', bad[0] if bad else f, 'nothing but the block that is published is added to the list of blocks, and nothing is removed')
            sw = own_sweeps(p.events, ownv)
            moved = [e for e in p.events if e.kind == 'w' and e.a['loc'] == (res, ()) and unbase(e.a['val']) in ownv]
            ctx.ob(len(sw) == 1 or (moved and not sw), 'all-results-published', q, f, 'a publication runs over all results of the store once', '%d complete sweeps' % len(sw))
            for le in sw:
                for a in le.a['alts']:
                    et = elem_test(le, a)
                    n = count(a.events, lambda e: touches(e, res) and e.kind == 'w')
                    n2 = count(a.events, lambda e: touches(e, res))
                    ctx.ob(0 not in n2, 'all-results-published', q + ': each', le, 'each result of the store is added to the common results', 'an iteration adds nothing')
            ms, evs = section(p.events, lambda e: touches(e, rec) or touches(e, res))
            ctx.ob(bool(ms), 'publish-atomic', q, evs[0] if evs else f, 'block and results are published in one critical section', 'no mutex is held from the first to the last change')
            mm = ms if mm is None else mm & (ms or set())
            # the results must not change hands while they are published
            fin = [final(p, ('o', 'this'), (n,)) for n in own]
            cleared = cleared and all(v is not None and empty(p.facts, v) for v in fin)
            if sw:
                i = p.events.index(sw[0])
                early = [e for e in flat(p.events[:i]) if mutates(e) and mutates(e)[0] == ('o', 'this') and mutates(e)[1][:1] and mutates(e)[1][0] in own]
                ctx.ob(not early, 'all-results-published', q + ': unchanged', early[0] if early else f, 'the results of the store are not changed before they are published')
        if not cleared:
            once = fresh_store_each_time(ctx)
            ctx.ob(once, 'published-once', q, f, 'a store is left empty by its publication, or each publication uses a store of its own', 'results stay in the store and it is published again')
        else:
            ctx.ob(True, 'published-once', q, f, 'a store is left empty by its publication, or each publication uses a store of its own')
        mut = mm if mut is None else mut & (mm or set())
    if not G:
        return
    rec, res = G
    for f in exps:
        q = f['q']
        ps, it = st_run(ctx, f)
        for p in ps:
            if p.kind != 'ret':
                continue
            for g, what in ((rec, 'list of blocks'), (res, 'results')):
                v = final(p, g)
                ctx.ob(v is not None and empty(p.facts, v), 'left-empty', '%s: %s' % (q, what), f, 'an export leaves the common %s empty' % what)
                gv = ('glob', g[1])
                sws = [e for e in p.events if e.kind == 'loop' and sweep(e) and sweep(e)[0] == 'iter' and unbase(sweep(e)[1]) == gv]
                outs = [e for e in sws if e.a['alts'] and all(0 not in count(a.events, lambda x: x.kind == 'out') for a in e.a['alts'])]
                ctx.ob(len(outs) == 1, 'all-exported', '%s: %s' % (q, what), f, 'an export writes out the complete common %s once' % what, '%d complete sweeps that write' % len(outs))
                for e in outs:
                    stars = {x for x in subterms_of(p.val) if x[0] == 'star'}
                    ctx.ob(any(in_loop(e, x) for x in stars), 'export-returned', '%s: %s' % (q, what), f, 'what was written out is returned')
                # mutated after it was read, nowhere else
                seq = list(p.events)
                if outs:
                    i = seq.index(outs[0])
                    cl = outs[0]
                    direct = [e for a in cl.a['alts'] for e in a.events if e.kind == 'elem' and glob_root(e.a['cloc']) == g]
                    early = [e for e in flat(seq[:i]) if touches(e, g)]
                    if direct:
                        ctx.ob(not early, 'all-exported', '%s: %s unchanged' % (q, what), early[0] if early else f, 'the common %s are not changed before they are written out' % what)
            def picks(e):
                if touches(e, rec) or touches(e, res):
                    return True
                return e.kind == 'elem' and glob_root(e.a.get('cloc')) in (rec, res)
            ms, evs = section(p.events, picks)
            ctx.ob(bool(ms), 'export-atomic', q, evs[0] if evs else f, 'list of blocks and results are taken in one critical section', 'no mutex is held from the first to the last access')
            if ms is not None and mut is not None:
                ctx.ob(bool(ms & mut), 'common-mutex', q, f, 'publication and export use the same mutex')
    # nobody else
    names = {rec[1], res[1]}
    short_names = {str(n).split('::')[-1] for n in names}
    ok = {f['fn'] for f in pubs + exps}
    g = ctx.callgraph()
    callers = {}
    for c, out in g.items():
        for y in out:
            callers.setdefault(y, set()).add(c)
    def inside(fn, seen=()):
        if fn in ok:
            return True
        cs = callers.get(fn, set()) - set(seen)
        return bool(cs) and all(inside(c, seen + (fn,)) for c in cs)
    n = 0
    for f in ctx.p.functions.values():
        if not f.get('body') or f.get('rec') is None or short(f['rec']).split('::')[-1] != 'Store':
            if not (f.get('body') and any_ref(f, names)):
                continue
        if any_ref(f, names):
            n += 1
            ctx.ob(inside(f['fn']), 'only-publication-and-export', f['q'], f, 'only publication and export use the common containers')
    ctx.need(n, 'no function refers to the common containers by name')


def any_ref(f, names):
    for part in ('body', 'inits'):
        for n in walk(f.get(part) or []):
            if n.get('q') in names or n.get('rk') in ('global', 'static') and n.get('q') in names:
                return True
    return False


def subterms_of(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms_of(x)


def in_loop(le, star):
    return star[1] == le.a['loop'].n


def fresh_store_each_time(ctx):
    ok = True
    for f, ps, it in worker_runs(ctx):
        for p in ps:
            def step(s, e):
                if isq(e, '::create'):
                    return (1,)
                if publishes(e):
                    return (0,) if s == 1 else (2,)
                return (s,)
            if 2 in automaton(p.events, {0}, lambda s, e: (2,) if s == 2 else step(s, e)):
                ok = False
    return ok



# ------------------------------------------------------------------------------------------ C14, C15
def vtype_fields(ctx, rec):
    """(ramification field, offset field) of a curve data value by their element types."""
    ram, off = [], []
    for f in ctx.record(rec)['fields']:
        t = f['t']
        if models.family(t) == 'std::vector':
            n = tname(t)
            (ram if 'unsigned' in n or 'size_t' in n else off).append(f['n'])
    ctx.need(len(ram) == 1 and len(off) == 1, 'cannot tell the members of %s apart' % rec)
    return ram[0], off[0]


def hw_call(t, name):
    return t[0] == 'app' and short(t[1]) == 'Curve::' + name


class Reg:
    """What one path of register_curve does to the results of the store."""


def register_paths(ctx, f):
    own = maps_of(ctx, f['rec'])
    ctx.need(len(own) == 1, 'the store has %d containers of results' % len(own))
    cn = [p['n'] for p in f['params']][0]
    curve = ('sym', 'arg:' + cn)
    base = ('fld', ('sym', 'this'), own[0])
    ps, it = st_run(ctx, f)
    out = []
    for p in ps:
        if p.kind != 'ret':
            continue
        r = Reg()
        r.p, r.base, r.curve, r.own = p, base, curve, own[0]
        r.m = final(p, ('o', 'this'), (own[0],))
        if r.m is None:
            r.m = base
        out.append(r)
    return out


def weights(p, curve):
    """Terms that are the weight of the curve: the output of CurveIterator::multiplicity for its field and ranges."""
    out = []
    for e in flat(p.events):
        if calls(e, 'CurveIterator::multiplicity'):
            a = e.a['args']
            good = len(a) == 4 and all(hw_call(x, n) and len(x) > 2 and x[2] == curve for x, n in
                                       zip(a[1:], ('prime', 'prime_power', 'rhs_support')))
            out.append((e, good))
    return out


def keys_of(ctx, p, m, curve):
    """(key of the curve, key of the twist) among the values that the path looks up or changes."""
    cand = []
    for e in flat(p.events):
        if e.kind == 'cop' and e.a['loc'][0] == ('o', 'this') and e.a['args']:
            cand.append(e.a['args'][0])
    for u in (m[2] if m[0] == 'M' else ()):
        cand.append(u[0])
    out = []
    for c in cand:
        if c not in out:
            out.append(c)
    return out


def c15_keys(ctx, f, vrec):
    ram, off = vtype_fields(ctx, vrec)
    rs = register_paths(ctx, f)
    for r in rs:
        r.K = r.T = None
        r.extra = []
        for k in keys_of(ctx, r.p, r.m, r.curve):
            ro, oo = get({}, k, ram), get({}, k, off)
            if hw_call(oo, 'hasse_weil_offsets') and oo[2] == r.curve:
                if r.K is None:
                    r.K = k
                elif r.K != k:
                    r.extra.append(k)
            else:
                if r.T is None:
                    r.T = k
                elif r.T != k:
                    r.extra.append(k)
        # a path on which both agree need not look up the twist
        if r.T is None:
            for t in {t for a, v in r.p.facts.items() for t in subterms_of(a) if t[0] == 'O' and v} - {r.K}:
                if r.K and {x[0] for x in t[2]} == {ram, off}:
                    r.T = t
            for a, v in r.p.facts.items():
                if r.T is None and r.K and v and a[0] == 'eq' and get({}, r.K, off) in a[1:]:
                    o = [x for x in a[1:] if x != get({}, r.K, off)][0]
                    r.T = put({}, r.K, (off,), o)
    return rs, ram, off


def twist_sign(ctx, p, K, T, ram, off):
    """Is T the twist of K?  Returns (ok, reason)."""
    x = get({}, K, off)
    v = get({}, T, off)
    if get({}, T, ram) != get({}, K, ram):
        return False, 'the ramification type of the twist is not that of the curve'
    for le in loops(p.events):
        L = le.a['loop']
        cv = covered(le)
        # built by appending
        stars = [t for t in subterms_of(v) if t[0] == 'star' and t[1] == L.n]
        if stars and v == ('S', (stars[0],)):
            if cv is None or le.a['exit'] != 'cond' or unbase(cv[1]) != x:
                return False, 'not every offset is considered'
            idx, key = cv[0], stars[0][2]
            if L.start.get(key, EMPTYS) not in (EMPTYS, EMPTY):
                return False, 'the offsets of the twist do not start empty'
            par = head_parities(le)
            for a in le.a['alts']:
                app = (a.appended or {}).get(key, ())
                if len(app) != 1 or app[0][0] != 'e':
                    return False, 'an offset of the curve gives %d offsets of the twist' % len(app)
                for b in parity(a.facts, idx, par.get(a.src) if par else None):
                    want = scale(get({}, x, ('x', idx)), -1 if b == 0 else 1)
                    got = at_parity(app[0][1], idx, b)
                    if got != want:
                        return False, 'the offset at an %s position of the list becomes %s' % ('even' if b == 0 else 'odd', show(got))
            return True, ''
        # a copy of the offsets, changed in place
        ws = [e for a in le.a['alts'] for e in a.events if e.kind == 'w' and e.a['loc'][1] and isinstance(e.a['loc'][1][-1], tuple)
              and e.a['loc'][1][-1][0] == 'x']
        if ws and any(t[0] in ('w', 'hole') and t[1] == L.marker for t in subterms_of(v)):
            ivs = {e.a['loc'][1][-1][1] for e in ws}
            if len(ivs) != 1 or len(ws) != len(le.a['alts']):
                return False, 'positions are changed in a way that is not understood'
            i = ivs.pop()
            L2 = L
            if not (i[0] == 'iv' and L2.start.get(i[2]) == C(0) and L2.step.get(i[2]) == 2):
                return False, 'the changed positions are not the first, third, ...'
            for e in ws:
                if e.a['val'] != scale(e.a['old'], -1):
                    return False, 'the offset becomes %s' % show(e.a['val'])
            return True, ''
    return None, 'no loop builds the offsets of the twist'


def head_parities(le):
    """Parity of the number of finished iterations at each head, if every cycle through the heads is even."""
    par = {0: 0}
    ch = True
    while ch:
        ch = False
        for a in le.a['alts']:
            if a.src in par:
                q = 1 - par[a.src]
                if a.dst in par:
                    if par[a.dst] != q:
                        return None
                else:
                    par[a.dst] = q
                    ch = True
    return par


def parity(facts, idx, known):
    if known is not None:
        return [known]
    r = test(facts, atom_eq0(('par', idx)))
    if r is True:
        return [0]
    if r is False:
        return [1]
    return [0, 1]


def at_parity(t, idx, b):
    return reval({}, subst(t, {('par', idx): C(b)}))


def hypotheses(r, K, T):
    """(label, facts, final map, same, present K, present T) for each consistent case of one path."""
    for same in (True, False):
        if same:
            m = {T: K}
            for s in set(x[0] for x in (T[2] if T[0] == 'O' else ())):
                a, b = get({}, T, s), get({}, K, s)
                if a != b:
                    m[a] = b
            facts = rename(dict(r.p.facts), m)
            M = subst(r.m, m)
            if facts is None:
                continue
        else:
            facts = dict(r.p.facts)
            M = r.m
            at = atom_eqv(K, T)
            if isinstance(at, bool):
                if at:
                    continue
            else:
                if facts.get(at[0], not at[1]) == at[1]:
                    continue
                facts[at[0]] = not at[1]
            # the offsets are all that can differ
            for s in set(x[0] for x in (T[2] if T[0] == 'O' else ())):
                a, b = get({}, T, s), get({}, K, s)
                if a != b:
                    at = atom_eqv(a, b)
                    if not isinstance(at, bool):
                        if facts.get(at[0]) == at[1]:
                            facts = None
                            break
                        facts[at[0]] = not at[1]
            if facts is None:
                continue
        T2 = K if same else T
        for hk in (True, False):
            for ht in ((hk,) if same else (True, False)):
                f2 = dict(facts)
                ka, ta = ('has', r.base, K), ('has', r.base, T2)
                if f2.get(ka, hk) != hk or f2.get(ta, ht) != ht:
                    continue
                f2[ka], f2[ta] = hk, ht
                if not consistent(f2):
                    continue
                yield same, hk, ht, f2, reval(f2, M), T2


def register_effect(ctx, f, report):
    """Checks what register_curve adds; report(ok, rule, key, where, what, why)."""
    vrec = [r for r in ctx.p.records if r.endswith('ExplicitRamificationHasseWeil::ValueType')]
    ctx.need(vrec, 'no value type of curve data')
    q = f['q']
    rs, ram, off = c15_keys(ctx, f, vrec[0])
    needclosed = None
    for r in rs:
        p, K, T = r.p, r.K, r.T
        if K is None:
            report(False, 'curve-key', q, f, 'the data of the curve itself are entered', 'no key is made of the offsets of the curve')
            return
        oo = get({}, K, off)
        report(hw_call(oo[3] if len(oo) > 3 else C(0), 'max_prime_exponent') and hw_call(get({}, K, ram), 'ramification_type'),
               'curve-key', q, f, 'the key of a curve is its ramification type and all its offsets', show(K))
        if T is None:
            report(False, 'twist-key', q, f, 'the data of the twist are entered', 'no key for the twist')
            return
        report(not r.extra, 'only-curve-and-twist', q, f, 'nothing but the data of the curve and its twist is changed', 'further keys: ' + ', '.join(show(x) for x in r.extra[:2]))
        ok, why = twist_sign(ctx, p, K, T, ram, off)
        ctx.need(ok is not None, why)
        report(ok, 'twist-rule', q, f, 'the twist has the sign of the first, third, ... offset changed and the others unchanged', why)
        ws = weights(p, r.curve)
        report(len(ws) == 1 and ws[0][1], 'weight', q, ws[0][0] if ws else f, 'the weight of a curve is computed from its field and its own coefficient ranges')
        if len(ws) != 1:
            continue
        wt = [t for t in subterms_of(r.m) if t[0] == 'ret' and 'multiplicity' in str(t[1]) ] if r.m[0] == 'M' else []
        wl = ws[0][0].a['args'][0]
        W = weight_value(p, ws[0][0])
        keys = [u[0] for u in r.m[2]] if r.m[0] == 'M' else []
        report(r.m[0] == 'M' and r.m[1] == r.base, 'others-unchanged', q, f, 'results of other data are left as they are', show(r.m, 3))
        if not (r.m[0] == 'M' and r.m[1] == r.base):
            continue
        for same, hk, ht, facts, M, T2 in hypotheses(r, K, T):
            old = lambda h, k: ('num', ('fld', r.base, ('k', k))) if h else C(0)
            good = True
            for k, h in ((K, hk), (T2, ht)):
                got = count_at(facts, M, k)
                ctx.need(got is not None, 'cannot evaluate the results after register_curve')
                got = nums(got)
                want = add(old(h, k), scale(W, 2) if same else W)
                if got != want:
                    good = False
                    which = 'the curve' if k == K else 'the twist'
                    why = 'the count for %s becomes %s instead of %s (%s)' % (which, show(got), show(want), case(same, hk, ht))
                    if hk != ht:
                        needclosed = (why, f)
                    else:
                        report(False, 'adds-weight', q, f, 'the weight is added once for the curve and once for its twist', why)
            if good:
                report(True, 'adds-weight', q, f, 'the weight is added once for the curve and once for its twist')
            pk, pt = has_key(facts, M, K), has_key(facts, M, T2)
            r.closed = getattr(r, 'closed', True) and pk is True and pt is True
    if needclosed:
        ok = all(getattr(r, 'closed', False) for r in rs)
        report(ok, 'adds-weight', q, f, 'the weight is added once for the curve and once for its twist', needclosed[0])
        if ok:
            other = store_changers(ctx, f)
            report(not other, 'closed-under-twist', q, f, 'a store in which only one of a curve and its twist is present never gets further curves',
                   'the contents of the store are also changed by ' + ', '.join(sorted(other)))


def case(same, hk, ht):
    return 'curve and twist agree' if same else 'curve %s, twist %s before' % ('present' if hk else 'absent', 'present' if ht else 'absent')


def weight_value(p, e):
    """The value that CurveIterator::multiplicity leaves in its first argument."""
    evs = list(flat(p.events))
    for t in subterms_of(p.st.mem.get(('o', 'this'), UNDEF)):
        if t[0] == 'call' and str(t[1]).startswith('out0:CurveIterator::multiplicity'):
            return t
    for v in p.st.mem.values():
        for t in subterms_of(v):
            if t[0] == 'call' and str(t[1]).startswith('out0:CurveIterator::multiplicity'):
                return t
    return ('sym', 'weight')


def store_changers(ctx, reg):
    """Functions other than registration and publication that worker code can reach and that change the store."""
    out = set()
    own = maps_of(ctx, reg['rec'])
    r = ctx.reachable([f['fn'] for f in roots(ctx)])
    for fn in r:
        f = ctx.p.functions.get(fn)
        if f and f.get('rec') == reg['rec'] and f.get('body') and short(f['q']).split('::')[-1] in ('extract',):
            out.add(f['q'])
    return out


def c15(ctx):
    """Every path through register_curve, for every combination of curve and twist being equal or not, present
    or not: the count at the key of the curve and at the key of its twist each grow by exactly the weight (by
    twice the weight if the keys agree), and no other key changes.  The twist is computed by a complete sweep
    over the offsets that changes the sign at the first, third, ... position only."""
    for f in store_method(ctx, 'register_curve'):
        register_effect(ctx, f, ctx.ob)


def merge_loop(ctx, f, p, le, own_path, what):
    """Every iteration of a loop adds one contribution to one key of the results at own_path = (root, path)."""
    root, path = own_path
    q = f['q']
    n = 0
    for a in le.a['alts']:
        st = a.st
        if st is None:
            continue
        v = st.mem.get(root)
        if v is None:
            continue
        for s in path:
            v = get(a.facts, v, s)
        touched = [e for e in flat(a.events) if mutates(e) and mutates(e)[0] == root and mutates(e)[1][:len(path)] == tuple(path)]
        if not touched:
            ctx.ob(False, 'contribution-added', q, le, 'each contribution is added to the %s' % what, 'an iteration adds nothing')
            continue
        n += 1
        if v[0] != 'M':
            ctx.ob(False, 'contribution-added', q, le, 'each contribution is added to the %s' % what, 'the %s become %s' % (what, show(v, 3)))
            continue
        base = v[1]
        ctx.ob(base[0] in ('w', 'hole') or base == locval((root, tuple(path))), 'others-unchanged', q, le, 'other results are left as they are', show(base, 3))
        keys = []
        for k, pres, val in v[2]:
            if k not in keys:
                keys.append(k)
        ctx.ob(len(keys) == 1, 'others-unchanged', q, le, 'an iteration changes the result of one key', '%d keys' % len(keys))
        if len(keys) != 1:
            continue
        k = keys[0]
        c = contribution(ctx, le, a, k)
        ctx.need(c is not None, '%s: cannot find the contribution that an iteration adds' % q)
        for h in (True, False):
            facts = dict(a.facts)
            at = ('has', base, k)
            if facts.get(at, h) != h:
                continue
            facts[at] = h
            if not consistent(facts):
                continue
            got = count_at(facts, reval(facts, v), k)
            ctx.need(got is not None, '%s: cannot evaluate the result of an iteration' % q)
            want = add(('num', ('fld', base, ('k', k))) if h else C(0), c)
            ctx.ob(nums(got) == want, 'contribution-added', q, le, 'each contribution is added to the %s' % what,
                   'the count for a key that is %s becomes %s instead of %s' % ('present' if h else 'absent', show(nums(got)), show(want)))
    return n


def contribution(ctx, le, a, k):
    """The number that belongs to key k in this iteration: the result stored next to k in what the loop runs
    over, or the one read from the same line."""
    et = elem_test(le, a)
    if et and et[0][0] == 'val':
        c = et[0][1]
        cb = unbase(c)
        if k[0] == 'key' and k[1] == cb:
            return ('num', ('fld', cb, ('k', k)))
    # read from a stream: a value built from a text of the same line as the key's text
    texts = {t for t in subterms_of(k)}
    out = []
    for e in flat(a.events):
        if e.kind == 'w' and isinstance(e.a['val'], tuple) and e.a['val'][0] == 'app' and str(e.a['val'][1]).startswith('fmpz_str'):
            out.append(e.a['val'])
        elif e.kind == 'w' and isinstance(e.a['val'], tuple) and e.a['val'][0] == 'fmpz_str':
            out.append(e.a['val'])
    out = list(dict.fromkeys(out))
    return out[0] if len(out) == 1 else None


def c14(ctx):
    """At every place where results are combined the analysis computes, per path and loop iteration, the count
    of the changed key afterwards as a symbolic sum and compares it with the count before (0 if absent) plus the
    contribution; no other key may change, and nothing is removed except after a complete export or
    publication."""
    for f in store_method(ctx, 'register_curve'):
        register_effect(ctx, f, lambda ok, rule, *a: ctx.ob(ok, 'registered-' + rule, *a) if rule in ('adds-weight', 'others-unchanged', 'closed-under-twist') else None)
    for f in store_method(ctx, 'flush_to_static_store'):
        ps, it = st_run(ctx, f)
        rec, res, own = published_to(ctx, f)
        ctx.need(len(res) == 1, 'cannot tell which container holds the common results')
        g = list(res)[0]
        ownv = {('fld', ('sym', 'this'), n) for n in own}
        for p in ps:
            if p.kind != 'ret':
                continue
            for e in p.events:
                if e.kind == 'loop' and any(touches(x, g) for a in e.a['alts'] for x in flat(a.events)):
                    sw = own_sweeps([e], ownv)
                    ctx.ob(len(sw) == 1, 'all-contributions', f['q'], e, 'the published results are all results of the store, each once')
                    merge_loop(ctx, f, p, e, (g, ()), 'common results')
                elif touches(e, g):
                    ctx.ob(False, 'contribution-added', f['q'], e, 'the common results change only by adding results of the store', str(e)[:200])
            i = [n for n, e in enumerate(p.events) if e.kind == 'loop' and own_sweeps([e], ownv)]
            rm = [n for n, e in enumerate(p.events) if mutates(e) and mutates(e)[0] == ('o', 'this')]
            ctx.ob(not rm or (bool(i) and min(rm) > i[-1]), 'removed-after-publication', f['q'], f, 'results are removed from a store only after they were published')
    exs = [f for f in store_method(ctx, 'extract') if f.get('static') or len(f['params']) == 1]
    for f in exs:
        if f.get('static'):
            continue
        ps, it = st_run(ctx, f)
        own = maps_of(ctx, f['rec'])
        for p in ps:
            if p.kind != 'ret':
                continue
            n = 0
            for e in p.events:
                if e.kind == 'loop' and any(mutates(x) and mutates(x)[0] == ('o', 'this') for a in e.a['alts'] for x in flat(a.events)):
                    n += merge_loop(ctx, f, p, e, (('o', 'this'), (own[0],)), 'results of the store')
                elif mutates(e) and mutates(e)[0] == ('o', 'this') and e.a.get('loc', (0, ()))[1][:1] == (own[0],):
                    ctx.ob(False, 'contribution-added', f['q'], e, 'reading results only adds them to the results of the store', str(e)[:200])
            ctx.ob(n > 0, 'contribution-added', f['q'] + ': loop', f, 'the results that are read are added to the results of the store')


# ------------------------------------------------------------------------------------------ C17
REL = ('lt', 'eq', 'gt')


def rel_facts(a, b, r):
    f = {('ltv', a, b): r == 'lt', ('ltv', b, a): r == 'gt'}
    at = atom_eqv(a, b, numeric=False)
    f[at[0]] = (r == 'eq') == at[1]
    return f


def rel_table(ctx, f, fields):
    """Result of the comparison f for every combination of relations between the fields."""
    import itertools
    pn = ['arg:' + p['n'] for p in f['params']]
    ctx.need(len(pn) == 2, '%s does not compare two values' % f['q'])
    tab = {}
    for rs in itertools.product(REL, repeat=len(fields)):
        facts = {}
        for fl, r in zip(fields, rs):
            facts.update(rel_facts(('fld', ('sym', pn[0]), fl), ('fld', ('sym', pn[1]), fl), r))
        ps, it = ctx.run(f, tag='rel' + '.'.join(rs), pre=lambda st: setattr(st, 'facts', dict(st.facts, **{}) | facts))
        vals = set()
        for p in ps:
            if p.kind == 'ret':
                t = test(p.facts, truth_atom(p.val))
                vals.add(t)
        if len(vals) != 1 or None in vals:
            why = refute(ctx, f, fields, pn)
            ctx.need(why, '%s: the result for %s is not determined by the order of the members' % (f['q'], rs))
            ctx.ob(False, 'decision', f['q'], f, 'the result is decided by the order of the members', why)
            return None
        tab[rs] = vals.pop()
    return tab


def refute(ctx, f, fields, pn):
    """The decision table of a comparison whose branches look at more than the order of the members, read off for
    lists of at most two numbers: what it says that no order (or no equality) does; '' if it says none."""
    import itertools
    ps, it = ctx.run(f, tag='apart', keep=400)
    rows = [p for p in ps if p.kind == 'ret']

    class No(Exception):
        pass

    def num(t, env):
        if t in env:
            return env[t]
        if t[0] == 'c':
            return t[1]
        if t[0] == 'lin':
            return t[1] + sum(c * num(x, env) for x, c in t[2])
        if t[0] == 'size':
            return len(num(t[1], env))
        if t[0] == 'fld' and isinstance(t[2], tuple) and t[2][0] == 'x':
            v, i = num(t[1], env), num(t[2][1], env)
            return v[i] if 0 <= i < len(v) else -1
        if t[0] == 'B':
            return holds(t[1], env) == bool(t[2])
        raise No()

    def holds(a, env):
        if a[0] == 'le':
            return sum(c * num(x, env) for x, c in a[1]) <= a[2]
        if a[0] == 'eqk':
            return sum(c * num(x, env) for x, c in a[1]) == a[2]
        if a[0] == 'eq':
            return num(a[1], env) == num(a[2], env)
        if a[0] == 'ltv':
            return num(a[1], env) < num(a[2], env)
        if a[0] == 'true':
            return bool(num(a[1], env))
        raise No()
    lists = [(), (0,), (1,), (0, 1), (1, 0), (1, 1)]
    vals = list(itertools.product(lists, repeat=len(fields)))
    memo = {}

    def R(x, y):
        if (x, y) not in memo:
            env = {('fld', ('sym', p), fl): v for p, z in zip(pn, (x, y)) for fl, v in zip(fields, z)}
            got = set()
            for p in rows:
                if all(holds(a, env) == v for a, v in p.facts.items()):
                    got.add(bool(num(p.val, env)))
            if len(got) != 1:
                raise No()
            memo[x, y] = got.pop()
        return memo[x, y]
    sh = lambda x: ';'.join(','.join(map(str, y)) for y in x)
    try:
        if f['q'].endswith('operator=='):
            for x, y in itertools.product(vals, vals):
                if R(x, y) != (x == y):
                    return '%s and %s are taken as %s' % (sh(x), sh(y), 'equal' if R(x, y) else 'different')
            return ''
        for x, y in itertools.product(vals, vals):
            if x == y and R(x, x):
                return '%s is less than itself' % sh(x)
            if x != y and R(x, y) == R(y, x):
                return '%s of %s and %s is less than the other' % ('each' if R(x, y) else 'none', sh(x), sh(y))
        for x, y, z in itertools.product(vals, vals, vals):
            if R(x, y) and R(y, z) and not R(x, z):
                return '%s is less than %s, that is less than %s, but the first is not less than the last' % (sh(x), sh(y), sh(z))
    except No:
        pass
    return ''


FLIP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}
COMP = {}
for _a in REL:
    for _b in REL:
        COMP[_a, _b] = (_a,) if _b == 'eq' or _a == _b else ((_b,) if _a == 'eq' else REL)


def c17(ctx):
    """The comparison functions of curve data are evaluated for every combination of the relations (less, equal,
    greater) between their members; from the complete table follow irreflexivity, asymmetry, totality and
    transitivity, and that equality holds exactly if all members are equal.  Every map keyed by curve data must
    use that order."""
    import itertools
    vrec = [r for r in ctx.p.records if r.endswith('ExplicitRamificationHasseWeil::ValueType')]
    ctx.need(vrec, 'no value type of curve data')
    vrec = vrec[0]
    fields = [f['n'] for f in ctx.record(vrec)['fields']]
    def cmp(f):
        if len(f['params']) == 2:
            return all(tstrip(p['t']) == vrec for p in f['params'])
        return False
    less = [f for f in ctx.p.functions.values() if f.get('body') and cmp(f) and
            (f['q'].endswith('::operator()') and 'less' in f['q'] or f['q'].split('::')[-1] == 'operator<')]
    eqs = [f for f in ctx.p.functions.values() if f.get('body') and cmp(f) and f['q'].split('::')[-1] == 'operator==']
    ctx.need(less, 'no order of curve data found')
    ctx.need(eqs, 'no equality of curve data found')
    for f in less:
        q = f['q']
        t = rel_table(ctx, f, fields)
        if t is None:
            continue
        name = lambda rs: ', '.join('%s %s' % x for x in zip(fields, rs))
        E = ('eq',) * len(fields)
        ctx.ob(t[E] is False, 'irreflexive', q, f, 'no value is less than itself')
        for rs, v in t.items():
            fl = tuple(FLIP[r] for r in rs)
            if rs != E:
                ctx.ob(not (v and t[fl]), 'asymmetric', q, f, 'of two values not each is less than the other', name(rs))
                ctx.ob(v or t[fl], 'total', q, f, 'of two different values one is less than the other', name(rs))
        bad = ''
        for x, y in itertools.product(t, t):
            if t[x] and t[y]:
                for z in itertools.product(*[COMP[a, b] for a, b in zip(x, y)]):
                    if not t[z]:
                        bad = '%s then %s' % (name(x), name(y))
        ctx.ob(not bad, 'transitive', q, f, 'the order is transitive', bad)
    for f in eqs:
        t = rel_table(ctx, f, fields)
        for rs, v in (t or {}).items():
            ctx.ob(v == all(r == 'eq' for r in rs), 'equality', f['q'], f, 'two values are equal exactly if all members are equal',
                   ', '.join('%s %s' % x for x in zip(fields, rs)))
    n = 0
    for rn, rec in ctx.p.records.items():
        for fl in rec['fields']:
            t = fl['t']
            if models.family(t) == 'std::map' and tname(t) and vrec in tname(t):
                n += 1
                args = [a.get('s', '') for a in t.get('args', []) if isinstance(a, dict)]
                cmpa = args[2] if len(args) > 2 else ''
                ok = not cmpa or cmpa.startswith(('std::less<', 'less<')) and any('less' in f['q'] or True for f in less)
                ctx.ob(ok, 'map-order', '%s::%s' % (short(rn), fl['n']), less[0], 'results are kept in the order that was checked', cmpa)
    ctx.need(n, 'no map is keyed by curve data')


def tstrip(t):
    while t and t['k'] in ('lref', 'rref') and isinstance(t.get('to'), dict):
        t = t['to']
    return (t or {}).get('rec')


RULES = {'C04': c04, 'C14': c14, 'C15': c15, 'C17': c17}
