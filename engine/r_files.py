"""Rules about result files: order of writing (C11), names (C12), the merger (C13), text formats (C16)."""
from lib import *
import models
import textio
from r_store import store_method
from r_threads import isq


def no_opaque(f):
    return False


def stream_params(ctx, q, name, want):
    """Functions q(stream, container): those that do the work themselves (an lvalue stream)."""
    out = []
    for f in ctx.p.functions.values():
        if not f.get('body') or len(f['params']) != 2 or short(f['q']) != q:
            continue
        a, b = f['params'][0]['t'], f['params'][1]['t']
        if a['k'] == 'lref' and want(b):
            out.append(f)
    return out


def strip_t(t):
    while t and t['k'] in ('lref', 'rref', 'ptr') and isinstance(t.get('to'), dict):
        t = t['to']
    return t


def famof(t):
    return models.family(strip_t(t))


def c16(ctx):
    """Product of the grammar that a writer prints with the transducer that its reader is, for lists of blocks
    and for results."""
    sets = ('std::set', 'std::unordered_set')
    maps = ('std::map', 'std::unordered_map')
    for what, cls, fams in (('blocks', 'FileStore', sets), ('results', 'Store', maps)):
        ws = stream_params(ctx, cls + '::insert', 'insert', lambda t: famof(t) in fams)
        rs = stream_params(ctx, cls + '::extract', 'extract', lambda t: famof(t) in fams)
        ctx.need(len(ws) == 1 and len(rs) == 1, 'writer and reader of %s not found (%d, %d)' % (what, len(ws), len(rs)))
        w, r = ws[0], rs[0]
        textio.agree(ctx, what, w, [p['n'] for p in w['params']], r, [p['n'] for p in r['params']], no_opaque,
                     nonempty=key_lists(ctx) if what == 'results' else ())
    ctx.assumptions.append('keys of results have nonempty lists: they come from curves (a curve has at least one factor and one offset)')


def key_lists(ctx):
    out = set()
    for q, r in ctx.p.records.items():
        if 'CurveData' in q and q.endswith('::ValueType'):
            out |= {f['n'] for f in r['fields'] if models.family(f['t']) == 'std::vector'}
    return out


# ------------------------------------------------------------------------------------------ files
IN, OUT = 8, 16


def parts(v):
    """(stem, extension) of a path value; the extension is None if it is not known."""
    v = models.seq(v)
    if v[1] and v[1][-1][0] == 'l':
        t = v[1][-1][1]
        if '.' in t.rsplit('/', 1)[-1]:
            a, b = t.rsplit('.', 1)
            return canon_stem(v[1][:-1] + ((('l', a),) if a else ())), '.' + b
    return canon_stem(v[1]), None


def canon_stem(ps):
    """Writes directory / stem of a path as the path without its extension."""
    ps = tuple(ps)
    if len(ps) == 3 and ps[0][0] == 'b' and ps[1] == ('l', '/') and ps[2][0] == 'b' and ps[0][1][:2] == ('app', 'parent_path') \
            and ps[2][1][:2] == ('app', 'stem') and ps[0][1][2] == ps[2][1][2]:
        return (('b', ('app', 'noext', ps[0][1][2])),)
    return ps


def noext(t):
    """The stem of a path that is known as the term t only."""
    return (('b', ('app', 'noext', t)),)


def mode_of(e):
    m = e.a['mode']
    if not isint(m):
        raise Broken('mode of the file opened at %s is not constant' % e.where())
    return m[1]


class File:
    def __init__(s, e):
        s.path, s.loc, s.ev, s.st, s.mode = e.a['path'], e.a['loc'], e, e.a['st'], mode_of(e)
        s.end, s.endst, s.wrote = None, None, []


def lives(evs):
    """Along a trace: [(index, kind, data)] for opening (open, File), appearance by renaming (rename, (src, dst, event)),
    removal; the Files know the events that write and end them."""
    out, cur = [], {}
    for i, e in enumerate(evs):
        if e.kind == 'loop':
            if any(x.kind == 'fopen' and mode_of(x) & OUT or x.kind in ('rename', 'fs') for x in flat([e])):
                raise Broken('files are written in a loop at %s' % e.where())
            for x in flat([e]):
                f = cur.get(x.a.get('loc')) if x.kind == 'out' else None
                if f:
                    f.wrote.append((i, x))
                    f.end = None
        elif e.kind == 'fopen':
            f = File(e)
            cur[f.loc] = f
            out.append((i, 'open', f))
        elif e.kind == 'out' and e.a['loc'] in cur:
            f = cur[e.a['loc']]
            f.wrote.append((i, e))
            f.end = None
        elif e.kind == 'flush' and e.a['loc'] in cur:
            f = cur[e.a['loc']]
            f.end, f.endst = i, e.a['st']
        elif e.kind == 'fclose' and e.a['loc'] in cur:
            f = cur.pop(e.a['loc'])
            if not (e.a['implicit'] and f.end is not None):
                f.end, f.endst = i, None if e.a['implicit'] else e.a['st']
        elif e.kind == 'call' and not e.a['inl']:
            for v in e.a['locs']:
                if v[0] == 'ptr' and v[1] in cur:
                    f = cur[v[1]]
                    f.wrote.append((i, e))
                    f.end = None
        elif e.kind == 'rename':
            out.append((i, 'rename', (models.seq(e.a['src']), models.seq(e.a['dst']), e)))
        elif e.kind == 'fs':
            out.append((i, 'fs', e))
    return out


def verified(f, facts, before):
    """Was everything that was written to f flushed before, and does the path know that this succeeded?"""
    if f.end is None or f.end >= before:
        return False, 'its file is still open then, what was written may not have reached it'
    if f.endst is None or test(facts, truth_atom(f.endst)) is not True:
        return False, 'that writing its file succeeded is not checked'
    return True, ''


def is_record_ctor(f):
    return f.get('ctor') or short(f['q']).split('::')[-1] == short(f.get('rec') or '').split('::')[-1]


def file_store(ctx):
    """Constructor (reads the directory) and save function (writes to it) of the class of result directories."""
    cs = [f for f in ctx.p.functions.values() if short(f['q']) == 'FileStore::FileStore' and f.get('body') and not f.get('implicit')
          and len(f['params']) == 1 and 'ConfigNode' in f['params'][0]['t']['s']]
    ctx.need(len(cs) == 1, 'constructor of FileStore not found')
    return cs[0], ctx.fn('FileStore::save')


def merger_main(ctx):
    ms = [f for f in ctx.p.functions.values() if f['q'] == 'main' and f['file'].endswith('merger.cc')]
    ctx.need(len(ms) == 1, 'main function of the merger not found')
    return ms[0]


def known_ext(facts, t):
    """The extension that the facts say the path t has; ('not', ...) if they say it has none of the known ones."""
    e = ('S', (('b', ('app', 'extension', t)),))
    for a, v in facts.items():
        if a[0] == 'eq' and v and e in a[1:3]:
            o = a[1] if a[2] == e else a[2]
            if o[0] == 'S' and len(o[1]) == 1 and o[1][0][0] == 'l':
                return o[1][0][1]
    return None


def not_ext(facts, t, x):
    e, o = ('S', (('b', ('app', 'extension', t)),)), models.seq(C(x))
    return any(a[0] == 'eq' and not v and set(a[1:3]) == {e, o} for a, v in facts.items())


def the_term(v):
    """The path value v as a single term."""
    v = models.seq(v)
    return v[1][0][1] if len(v[1]) == 1 and v[1][0][0] == 'b' else None


def listing(t):
    """The listing of a directory that the path t is an entry of: (listing, directory)."""
    if t is not None and len(t) > 2 and t[0] == 'fld' and isinstance(t[2], tuple) and t[2][0] == 'x':
        c = d = t[1]
        while d[0] == 'app' and d[1] in ('sort', 'stable_sort', 'reverse', 'shuffle') and len(d) > 2:
            d = d[2]
        if d[0] == 'app' and d[1] == 'dirlist':
            return c, d[2]
    return None


def scan_ext(ctx, paths, what):
    """The extension by which files of a listing are read, and the extension of the partner that is read with them."""
    xs, ys = set(), set()
    for le in loops([e for p in paths for e in p.events]):
        for a in le.a['alts']:
            opened = [e for e in a.events if e.kind == 'fopen']
            for e in opened:
                t = the_term(e.a['path'])
                if listing(t):
                    x = known_ext(a.facts, t)
                    ctx.ob(x is not None, 'names-agree', '%s: extension of records' % what, e, 'files are read as records by their extension only', 'any file of the directory is read')
                    xs.add(x)
                else:
                    st, y = parts(e.a['path'])
                    if y is None:
                        raise Broken('name of the file opened at %s is not understood' % e.where())
                    ys.add(y)
    return xs - {None}, ys


def plain_opaque(f):
    return False


def c12(ctx):
    """Value analysis of the names under which results are saved, against the names that the readers accept and
    the facts that are known about existing files when the name is chosen."""
    ctor, save = file_store(ctx)
    rps, _ = ctx.run(ctor, opaque=plain_opaque, tag='io')
    mps, _ = ctx.run(merger_main(ctx), opaque=plain_opaque, tag='io')
    x1, _ = scan_ext(ctx, rps, 'directory')
    x2, ys = scan_ext(ctx, mps, 'merger')
    ctx.need(len(x1) == 1 and len(x2) == 1 and len(ys) == 1, 'extensions of records and results not found (%s, %s, %s)' % (sorted(x1), sorted(x2), sorted(ys)))
    X, Y = next(iter(x1)), next(iter(ys))
    ctx.ob(x2 == {X} and X != Y, 'names-agree', 'extension of records', ctor, 'a result directory and the merger find records by the same extension', 'they look for %s and %s' % (X, sorted(x2)))
    sps, _ = ctx.run(save, opaque=plain_opaque, tag='io')
    n = 0
    temps = {d[0] for p in sps for i, k, d in lives(p.events) if k == 'rename'}
    for p in sps:
        new = {}
        first = None
        ls = lives(p.events)
        for i, k, d in ls:
            if k == 'open' and d.mode & OUT:
                first = i if first is None else first
                if d.path not in temps:
                    new[models.seq(d.path)] = d.ev
            elif k == 'rename':
                new[d[1]] = d[2]
        if not new:
            continue
        n += 1
        by = {}
        for v, e in new.items():
            st, x = parts(v)
            ctx.ob(x in (X, Y), 'names-agree', 'save: extension', e, 'what is saved has an extension by which it is found again', 'it is called %s' % show(v)[:120])
            by.setdefault(st, {})[x] = e
            direct = len(st) >= 2 and st[0] == ('b', ('fld', ('fld', ('sym', 'this'), 'config'), 'result_path')) and st[1][0] == 'l' and st[1][1] == '/' \
                and all(q[0] == 'f' or q[0] == 'l' and '/' not in q[1] for q in st[2:])
            ctx.ob(direct, 'names-agree', 'save: directory', e, 'what is saved is placed in the configured result directory', 'it is called %s' % show(v)[:120])
            for x in (X, Y):
                w = models.seq(models.cat(('S', st), C(x)))
                ok = False
                for pr in ('is_regular_file', 'exists'):
                    a = truth_atom(('app', 'fs:' + pr, w))
                    at = [j for j, y in enumerate(p.events[:first]) for z in flat([y]) if z.kind == 'ext' and z.a['args'] and models.seq(z.a['args'][0]) == w]
                    if test(p.facts, a) is False and at:
                        ok = True
                ctx.ob(ok, 'name-unused', 'save: %s' % x, e, 'no file %s of the chosen name exists' % x, 'this is not known when the first of the files is opened')
            ctx.ob(any(q[0] == 'f' for q in st), 'name-unused', 'save: fresh', e, 'the name of what is saved is chosen anew', 'it is always the same')
        ctx.ob(len(by) == 1, 'names-agree', 'save: pair', save, 'a record and its results have the same name', 'they get %d names' % len(by))
    ctx.need(n, 'no path of FileStore::save writes files')
    n = 0
    for p in mps:
        new = {}
        for i, k, d in lives(p.events):
            if k == 'open' and d.mode & OUT:
                new[models.seq(d.path)] = d.ev
            elif k == 'rename':
                new.pop(d[0], None)
                new[d[1]] = d[2]
        if len(new) < 2:
            continue
        n += 1
        ps = {parts(v) for v in new}
        ctx.ob(len({s for s, x in ps}) == 1 and {x for s, x in ps} == {X, Y}, 'names-agree', 'merger: output', list(new.values())[0], 'the outputs of the merger have the same name and the two extensions',
               'they are called %s' % ', '.join(sorted(show(v)[-60:] for v in new)))
    ctx.need(n, 'no path of the merger writes its output')


def c11(ctx):
    """Typestate of the files that are written, along every path: results closed and verified, then the record."""
    ctor, save = file_store(ctx)
    rps, _ = ctx.run(ctor, opaque=plain_opaque, tag='io')
    x1, _ = scan_ext(ctx, rps, 'directory')
    mps, _ = ctx.run(merger_main(ctx), opaque=plain_opaque, tag='io')
    x2, ys = scan_ext(ctx, mps, 'merger')
    X = sorted(x1 | x2)
    ctx.need(X and ys, 'extensions of records and results not found')
    for what, ps, whole in (('save', ctx.run(save, opaque=plain_opaque, tag='io')[0], True), ('merger', mps, False)):
        n = 0
        for p in ps:
            ls = lives(p.events)
            files = [(i, d) for i, k, d in ls if k == 'open' and d.mode & OUT]
            recs = [(i, models.seq(d.path), d, d.ev) for i, d in files if parts(d.path)[1] in X]
            for i, k, d in ls:
                if k == 'rename' and parts(d[1])[1] in X:
                    src = [f for j, f in files if models.seq(f.path) == d[0] and j < i]
                    recs.append((i, d[1], src[-1] if src else None, d[2]))
                    ctx.ob(len(src) >= 1, 'record-whole', what + ': renamed', d[2], 'what becomes a record was written before', 'the file that is renamed was not written')
                    if src:
                        ok, why = verified(src[-1], p.facts, i)
                        ctx.ob(ok, 'record-whole', what + ': complete', d[2], 'a record appears only when its file was written completely', why)
                elif k == 'fs' and recs and any(parts(v)[1] in ys for v in d.a['args'] if v[0] == 'S'):
                    ctx.ob(False, 'results-first', what + ': kept', d, 'results of a record are kept', 'they are removed or replaced')
            for i, path, f, e in recs:
                n += 1
                if whole:
                    ctx.ob(e.kind == 'rename', 'record-whole', what + ': at once', e, 'a record appears in a result directory as a whole', 'its file is written under its final name')
                stem = parts(path)[0]
                part = [(j, g) for j, g in files if parts(g.path)[0] == stem and parts(g.path)[1] in ys]
                ctx.ob(bool(part) and all(j < i for j, g in part), 'results-first', what + ': exist', e, 'when a record appears the file of its results was written before',
                       'it is written afterwards' if part else 'no such file is written')
                for j, g in part:
                    ctx.ob(bool(g.wrote), 'results-first', what + ': written', g.ev, 'the results are written to their file', 'nothing is written')
                    if j < i:
                        ok, why = verified(g, p.facts, i)
                        ctx.ob(ok, 'results-first', what + ': complete', e, 'a record appears only after its results were written completely and this was verified', why)
            outs = [d for i, d in files]
            done = p.kind == 'ret' and (p.val is None or p.val == VOID or p.val == C(0) or not isint(p.val))
            if done and outs:
                ctx.ob(bool(recs), 'failure-reported', what + ': returns', outs[-1].ev, 'a function that could not save does not return as if it had', 'on one path it returns without a record')
                for i, path, f, e in recs:
                    if f is not None:
                        ok, why = verified(f, p.facts, len(p.events) + 1)
                        ctx.ob(ok, 'failure-reported', what + ': record', e, 'success is reported only after the record was written completely', why)
        ctx.need(n, 'no path of %s writes a record' % what)


# ------------------------------------------------------------------------------------------ the merger
def text_functions(ctx):
    """{mangled name: (role, index of the stream, index of the container)} of the readers and writers of texts."""
    out = {}
    sets = ('std::set', 'std::unordered_set')
    maps = ('std::map', 'std::unordered_map')
    for what, cls, fams in (('blocks', 'FileStore', sets), ('results', 'Store', maps)):
        for op in ('insert', 'extract'):
            fs = stream_params(ctx, cls + '::' + op, op, lambda t: famof(t) in fams)
            ctx.need(len(fs) == 1, '%s of %s not found' % (op, what))
            out[fs[0]['fn']] = (what, op)
    return out


def c13(ctx):
    """Effects of the merger along every path, with the readers and writers of texts (C16) opaque: the loop over
    the directory covers it, each iteration reads a record and its results once or skips what is no record."""
    tf = text_functions(ctx)
    opq = lambda f: f.get('fn') in tf
    mm = merger_main(ctx)
    ps, _ = ctx.run(mm, opaque=opq, tag='texts')
    ctor, save = file_store(ctx)
    x1, _ = scan_ext(ctx, ctx.run(ctor, opaque=plain_opaque, tag='io')[0], 'directory')
    x2, ys = scan_ext(ctx, ps, 'merger')
    ctx.need(len(x1) == 1 and len(ys) == 1, 'extensions of records and results not found')
    X, Y = next(iter(x1)), next(iter(ys))
    n = 0

    def texts(evs, what, op):
        return [e for e in evs if e.kind == 'call' and tf.get(e.a['fnid']) == (what, op)]
    for p in ps:
        if p.kind != 'ret' or isint(p.val) and p.val != C(0):
            continue
        listed = [t for e in flat(p.events) for v in list(e.a.values()) if isinstance(v, tuple) for t in subterms(v) if len(t) > 2 and t[:2] == ('app', 'dirlist')]
        touched = [e for e in flat(p.events) if e.kind in ('fopen', 'rename', 'fs')]
        if not listed and not touched:
            ok = any(a[0] == 'has' and v and a[2] == models.seq(C('help')) for a, v in p.facts.items())
            ctx.ob(ok, 'merges-all', 'nothing done', mm, 'the merger succeeds without merging only if it was asked for help', 'there is another path')
            continue
        n += 1
        acc = {}
        main = [e for e in p.events if e.kind == 'loop' and any(x.kind == 'fopen' for x in flat([e]))]
        ctx.ob(len(main) <= 1 and bool(main), 'merges-all', 'loop', main[0] if main else mm, 'the files of the directory are read in one loop over it', '%d loops read files' % len(main))
        if not main:
            continue
        if len(main) > 1:
            raise Broken('several loops read files')
        le = main[0]
        sw = sweep(le)
        dirs = {listing(the_term(e.a['path'])) for e in flat([le]) if e.kind == 'fopen'} - {None}
        ctx.ob(len(dirs) == 1, 'merges-all', 'directory', le, 'the records of one directory are read', '%d listings are read' % len(dirs))
        if len(dirs) != 1:
            continue
        lst, d = next(iter(dirs))
        inp = [t for t in subterms(d) if t[0] == 'S' and t[1] == (('l', 'input-path'),)]
        ctx.ob(bool(sw) and sw[0] == 'iter' and lst in (unbase(sw[1]), unwrap(sw[1])), 'merges-all', 'complete', le, 'the loop runs over all files of the directory', 'it may end before' if not sw else 'it runs over something else')
        ctx.ob(bool(inp), 'merges-all', 'input', le, 'the directory is the one given as input', 'it is %s' % show(d)[:80])
        for a in le.a['alts']:
            evs = [e for e in a.events]
            ops = [e for e in evs if e.kind == 'fopen']
            deep = [e for e in flat(evs) if e not in evs and (e.kind == 'fopen' or e.kind == 'call' and e.a['fnid'] in tf)]
            if deep:
                raise Broken('files are read in an inner loop at %s' % deep[0].where())
            elem = None
            for e in ops:
                if listing(the_term(e.a['path'])):
                    elem = the_term(e.a['path'])
            if elem is None:
                # skipped: it has to be no record
                es = {t for f in a.facts for t in subterms(f) if listing(t) and listing(t)[0] == lst and any(x[0] in ('iv', 'w') and linear(le, x) for x in subterms(t[2]) if len(x) > 2)}
                ok = any(not_ext(a.facts, t, X) or test(a.facts, truth_atom(('app', 'fs:is_regular_file', models.seq(t)))) is False
                         or test(a.facts, truth_atom(('app', 'fs:is_regular_file', ('S', (('b', t),))))) is False or test(a.facts, truth_atom(('app', 'fs:is_regular_file', t))) is False for t in es)
                bad = [e for e in evs if e.kind == 'call' and e.a['fnid'] in tf]
                ctx.ob(ok and not bad, 'merges-all', 'skipped', le, 'only files that are no records are skipped', 'a file may be skipped for another reason')
                continue
            ix = listing(elem) and elem[2][1]
            ctx.ob(linear(le, ix), 'merges-all', 'each', ops[0], 'each file is read in its iteration', 'the file %s is read' % show(elem)[:80])
            want = {'blocks': (('b', elem),), 'results': None}
            for what in ('blocks', 'results'):
                cs = texts(evs, what, 'extract')
                ctx.ob(len(cs) == 1, 'merges-all', what + ': once', ops[0], 'each record and its results are read once', '%s are read %d times in an iteration' % (what, len(cs)))
                for c in cs:
                    ls = [v[1] for v in c.a['locs'] if v[0] == 'ptr']
                    fs = [o for o in ops if ls and o.a['loc'] == ls[0] and evs.index(o) < evs.index(c)]
                    ctx.need(len(ls) == 2 and fs, 'arguments of the reader of %s are not understood' % what)
                    o = fs[-1]
                    if what == 'blocks':
                        ok = the_term(o.a['path']) == elem
                    else:
                        st, y = parts(o.a['path'])
                        ok = st == noext(elem) and y == Y
                    ctx.ob(ok, 'merges-all', what + ': file', o, '%s are read from the file of the record%s' % (what, '' if what == 'blocks' else ' with the extension of results'), 'they are read from %s' % show(o.a['path'])[:100])
                    ctx.ob(mode_of(o) & IN and not mode_of(o) & OUT, 'inputs-checked', what + ': mode', o, 'the inputs are opened for reading only', 'mode %d' % mode_of(o))
                    ctx.ob(test(a.facts, truth_atom(o.a['st'])) is True, 'inputs-checked', what + ': readable', o, 'the merger fails if a file can not be opened', 'that the file was opened is not checked')
                    acc.setdefault(what, set()).add(ls[1])
        # what is written
        i0 = p.events.index(le)
        for what in ('blocks', 'results'):
            locs = acc.get(what, set())
            ctx.ob(len(locs) == 1, 'merges-all', what + ': accumulated', le, '%s of all records are collected in one place' % what, '%d places' % len(locs))
            ws = texts(p.events, what, 'insert')
            ctx.ob(len(ws) == 1 and p.events.index(ws[0]) > i0, 'writes-all', what + ': once', ws[0] if ws else le, 'what was collected is written once, after everything was read', '%d times' % len(ws))
            for c in ws:
                ls = [v[1] for v in c.a['locs'] if v[0] == 'ptr']
                fs = [e for e in p.events[:p.events.index(c)] if e.kind == 'fopen' and ls and e.a['loc'] == ls[0]]
                ctx.need(len(ls) == 2 and fs, 'arguments of the writer of %s are not understood' % what)
                ctx.ob({ls[1]} == locs, 'writes-all', what + ': collected', c, 'what is written is what was collected', 'it is something else')
                o = fs[-1]
                st, y = parts(o.a['path'])
                temp = [e for e in p.events if e.kind == 'rename' and models.seq(e.a['src']) == models.seq(o.a['path'])]
                if temp:
                    st, y = parts(temp[-1].a['dst'])
                ctx.ob(y == (X if what == 'blocks' else Y), 'writes-all', what + ': file', o, '%s are written to the file with the extension for them' % what, 'they are written to a file %s' % y)
                ctx.ob(any(t[0] == 'S' and t[1] == (('l', 'output-file'),) for q in st for t in subterms(q)), 'writes-all', what + ': name', o, 'the output has the given name', 'it is %s' % show(('S', st))[:80])
                ends = [e for e in p.events[p.events.index(c):] if e.kind in ('fclose', 'flush') and e.a['loc'] == ls[0] and not e.a.get('implicit')]
                ctx.ob(any(test(p.facts, truth_atom(e.a['st'])) is True for e in ends), 'outputs-checked', what, o, 'the merger fails if its output can not be written', 'that it was written is not checked')
            # nothing else changes the collection
            for l in locs:
                for e in flat(p.events):
                    m = mutates(e)
                    if m is not None and m[0] == l[0] and (m[1][:len(l[1])] == l[1] or l[1][:len(m[1])] == m[1]) and not (e.kind == 'w' and e.a.get('op') == 'init'):
                        ctx.ob(False, 'merges-all', what + ': kept', e, 'nothing but reading changes what was collected', 'it is changed by %s' % (e.a.get('op') or e.kind))
                inits = [e for e in flat([x for a in le.a['alts'] for x in a.events]) if e.kind == 'ctor' and e.a.get('loc') and e.a['loc'][0] == l[0]]
                ctx.ob(not inits, 'merges-all', what + ': one collection', inits[0] if inits else le, 'one collection is used for all records', 'it is created again in each iteration')
    ctx.need(n, 'no path of the merger succeeds')


RULES = {'C11': c11, 'C12': c12, 'C13': c13, 'C16': c16}
