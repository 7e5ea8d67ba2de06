"""Abstract semantics of the libraries the code under analysis uses: standard containers, strings,
streams, smart pointers, threads and locks, boost (filesystem, program options, MPI, serialization),
yaml-cpp and FLINT."""
import re
from terms import *

LOCKS = {'std::unique_lock', 'std::lock_guard', 'std::scoped_lock', 'std::shared_lock'}
MUTEXES = {'std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex', 'std::recursive_timed_mutex'}
SMART = {'std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr'}
SEQS = {'std::vector', 'std::deque', 'std::list', 'std::string', 'std::array', 'std::initializer_list', 'std::queue',
        'std::stack', 'std::forward_list'}
MAPS = {'std::map', 'std::unordered_map', 'std::multimap'}
SETS = {'std::set', 'std::unordered_set', 'std::multiset'}
FSTREAMS = {'std::fstream', 'std::ifstream', 'std::ofstream'}
SSTREAMS = {'std::stringstream', 'std::ostringstream', 'std::istringstream'}
STREAMS = FSTREAMS | SSTREAMS | {'std::istream', 'std::ostream', 'std::iostream', 'std::ios'}
PATHS = {'boost::filesystem::path', 'std::filesystem::path', 'boost::filesystem::directory_entry', 'std::filesystem::directory_entry'}
TUPLES = {'std::tuple', 'std::pair'}
ATOMICS = {'std::atomic', 'std::__atomic_base', 'std::atomic_flag'}
CANON = {'std::__shared_ptr': 'std::shared_ptr', 'std::__shared_ptr_access': 'std::shared_ptr',
         'std::__weak_ptr': 'std::weak_ptr', 'std::basic_string': 'std::string',
         'std::basic_fstream': 'std::fstream', 'std::basic_ifstream': 'std::ifstream',
         'std::basic_ofstream': 'std::ofstream', 'std::basic_stringstream': 'std::stringstream',
         'std::basic_ostringstream': 'std::ostringstream', 'std::basic_istringstream': 'std::istringstream',
         'std::basic_ostream': 'std::ostream', 'std::basic_istream': 'std::istream', 'std::basic_ios': 'std::ios',
         'std::basic_iostream': 'std::iostream', 'std::_Vector_base': 'std::vector', 'std::__atomic_base': 'std::atomic',
         'std::condition_variable_any': 'std::condition_variable', 'std::jthread': 'std::thread'}
ITERS = ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator',
         'std::reverse_iterator', 'std::_Deque_iterator', 'std::_List_iterator', 'std::_List_const_iterator',
         'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator_base')
EXITS = {'exit', 'std::exit', 'abort', 'std::abort', '_exit', 'std::terminate', 'std::quick_exit', 'quick_exit', '_Exit',
         'std::_Exit', 'flint_abort'}


def canon(name):
    n = (name or '').split('<')[0]
    return CANON.get(n, n)


def strip(t):
    """Type without references and const, as text."""
    while t and t['k'] in ('lref', 'rref'):
        t = t['to']
    return t['s'].replace('const ', '') if t else ''


def strip_rec(rec):
    return rec or ''


def deref_t(t):
    while t and t['k'] in ('lref', 'rref'):
        t = t['to']
    return t


def family(t):
    t = deref_t(t)
    if not t or t['k'] != 'rec':
        return ''
    return canon(t.get('rec'))


def targs(t):
    t = deref_t(t)
    return (t or {}).get('args') or []


def it_sel(it):
    pos, kind = it[2], it[3]
    if pos[0] == 'idx':
        return ('x' if kind == 'rx' else kind, pos[1])
    if pos[0] == 'key':
        return ('nk' if kind == 'n' else 'sk', pos[1])
    return ('x', ('app', 'end'))


def advance(v, d):
    if v[0] == 'it':
        if v[2][0] == 'idx':
            return ('it', v[1], ('idx', add(v[2][1], scale(d, -1) if v[3] == 'rx' else d)), v[3])
        return ('it', v[1], ('idx', ('app', 'adv', v[2][1] if len(v[2]) > 1 else NULL, d)), v[3])
    return add(v, d)


def elem_kind(ct):
    f = family(ct)
    if f in MAPS:
        return 'n'
    if f in SETS:
        return 'sx'
    return 'x'


def user_dtor(interp, rec):
    if not hasattr(interp, '_dtors'):
        interp._dtors = {f['rec']: f for f in interp.p.functions.values() if f.get('dtor') and not f.get('implicit')}
    return interp._dtors.get(rec)


def needs_dtor(interp, t):
    if not t or t['k'] != 'rec':
        return False
    f = family(t)
    if f in LOCKS or f in FSTREAMS:
        return True
    return t.get('rec') in interp.recs and user_dtor(interp, t.get('rec')) is not None


def destroy(interp, st, loc, t, F):
    f = family(t)
    v = interp.load(st, loc)
    if f in LOCKS:
        for m, owned in lk_parts(v):
            if owned:
                unlock(interp, st, m, {'l': 0}, F)
        return st
    if f in FSTREAMS:
        if get(st.facts, v, '#open') not in (C(0), UNDEF):
            interp.emit(st, 'fclose', {'l': 0}, F, loc=loc, path=get(st.facts, v, '#path'), implicit=True, buf=get(st.facts, v, '#buf'),
                        mode=get(st.facts, v, '#mode'))
        return st
    fn = user_dtor(interp, t.get('rec'))
    if fn is not None:
        if interp.opaque(fn):
            interp.emit(st, 'call', {'l': 0}, F, q=fn['q'], fnid=fn['fn'], this=('ptr', loc), thisval=v, args=(), locs=(), inl=False,
                        ret=VOID, rec=fn['rec'])
            return st
        r = interp.call(fn, st, ('ptr', loc), [], {'l': 0, 'u': ('dtor', repr(loc))}, F)
        if not r:
            return st
        if len(r) > 1:
            for x, _ in r[1:]:
                pass
        return r[0][0]
    return st


# ---------------------------------------------------------------- default construction
def default_value(interp, st, t, e, F, loc):
    if not t:
        return UNDEF
    k = t['k']
    if k in ('builtin', 'enum', 'ptr', 'array'):
        return UNDEF
    if k in ('lref', 'rref'):
        return UNDEF
    f = family(t)
    if f in SEQS:
        return EMPTYS
    if f in MAPS or f in SETS:
        return EMPTYM
    if f in SMART:
        return NULL
    if f in PATHS:
        return EMPTYS
    if f in LOCKS:
        return ('lk', ())
    if f in SSTREAMS:
        return new_stream(EMPTYS)
    if f in FSTREAMS:
        return ('O', None, (('#buf', EMPTYS), ('#open', C(0)), ('#path', EMPTYS), ('#st', C(1))))
    if f in TUPLES:
        a = targs(t)
        names = ['first', 'second'] if f == 'std::pair' else list(range(len(a)))
        return ('O', None, tuple((n, zero_value(interp, st, x, None, F)) for n, x in zip(names, a)))
    if f in MUTEXES or f in ('std::condition_variable', 'std::condition_variable_any'):
        return C('new:' + f)
    if f == 'std::thread':
        return C('nothread')
    if f in ATOMICS:
        return UNDEF
    rec = t.get('rec')
    if rec in interp.recs:
        for fn in interp.ctors(rec):
            if not fn.get('implicit') and not fn['params'] and not interp.opaque(fn):
                n = interp.construct_fn(fn, st, F, loc, [], {'l': 0, 'u': ('dflt', rec, repr(loc))}, rec)
                if len(n) != 1:
                    break
                adopt(st, n[0])
                return interp.load(st, loc)
        flds = []
        for fl in interp.recs[rec]['fields']:
            v = None
            if fl.get('init'):
                r = interp.rv(fl['init'], st, F)
                if len(r) == 1:
                    adopt(st, r[0][0])
                    v = r[0][1]
            if v is None:
                v = default_value(interp, st, fl['t'], None, F, (loc[0], loc[1] + (fl['n'],)))
            flds.append((fl['n'], v))
        flds.sort(key=lambda u: repr(u[0]))
        return ('O', None, tuple(flds))
    return UNDEF if not rec or '_struct' in rec or '::' not in rec else C('new:' + rec)


def adopt(st, o):
    if st is not o:
        st.mem, st.facts, st.locks, st.tr, st.vars, st.gen = o.mem, o.facts, o.locks, o.tr, o.vars, o.gen


def zero_value(interp, st, t, node, F):
    if not t:
        return C(0)
    if t['k'] in ('builtin', 'enum'):
        return C(0)
    if t['k'] == 'ptr':
        return NULL
    root = ('t', interp.uid(node), F.fid if F else 0, 'zero')
    v = default_value(interp, st, t, None, F, (root, ()))
    st.mem.pop(root, None)
    return v


def new_stream(inp, st=C(1)):
    return ('O', None, (('#buf', inp), ('#st', st)))


# ---------------------------------------------------------------- locks
def lk_parts(v):
    return list(v[1]) if v[0] == 'lk' else []


def mutex_name(interp, m):
    if m not in interp.loc_mutex and m[0][0] == 'g':
        q = m[0][1]
        interp.loc_mutex[m] = (q.rsplit('::', 1)[0] if '::' in q else '', q.rsplit('::', 1)[-1])
    return interp.loc_mutex.get(m)


def lock(interp, st, m, node, F, try_=False):
    name = mutex_name(interp, m)
    interp.emit(st, 'lock', node, F, m=m, name=name)
    st.locks = st.locks + (m,)
    havoc(interp, st, m, node, F)


def unlock(interp, st, m, node, F):
    mutex_name(interp, m)
    interp.emit(st, 'unlock', node, F, m=m, name=interp.loc_mutex.get(m))
    l = list(st.locks)
    if m in l:
        l.reverse()
        l.remove(m)
        l.reverse()
    st.locks = tuple(l)


def havoc(interp, st, m, node, F):
    """Other threads may have changed whatever the mutex protects."""
    if not m[1]:
        if m[0][0] == 'g':
            cls = m[0][1].rsplit('::', 1)[0]
            for g in interp.shared.get(cls, ()):
                if '::' in g:
                    st.mem[('g', g)] = interp.fresh(st, 'shared:' + g, node, F)
        return
    name = interp.loc_mutex.get(m)
    if not name:
        return
    for f in sorted(interp.shared.get(name[0], ())):
        if '::' in f:
            continue
        v = interp.fresh(st, 'shared:' + f, node, F, (m[0],))
        interp.store(st, (m[0], m[1][:-1] + (f,)), v)


# ---------------------------------------------------------------- has
def has(facts, m, key):
    m = mp(m)
    for k2, pres, _ in reversed(m[2]):
        r = key_eq(facts, k2, key)
        if r is True:
            return pres
        if r is None:
            return (('has', m, key), True)
    if m[1] == EMPTY:
        return False
    return (('has', m[1], key), True)


def put_key(m, key, val):
    m = mp(m)
    return ('M', m[1], tuple(u for u in m[2] if u[0] != key) + ((key, True, val),))


def del_key(m, key):
    m = mp(m)
    upd = tuple(u for u in m[2] if u[0] != key)
    if m[1] == EMPTY and all(u[1] for u in upd) and (len(upd) < len(m[2])):
        return ('M', m[1], upd)
    return ('M', m[1], upd + ((key, False, UNDEF),))


def lvr(node, v):
    """Packs a value as the result of an expression."""
    if node.get('lv') and v[0] != 'ptr':
        return ('ptr', (('r', v), ()))
    return v


def at(loc, sel):
    return (loc[0], loc[1] + (sel,))


def arg(interp, st, v):
    """Value of an argument that was passed by reference or by value."""
    return interp.load(st, v[1]) if v[0] == 'ptr' else v


def mname(cal):
    q = cal['q']
    m = re.search(r'(operator.*)$', q)
    if m and ('::operator' in q or q.startswith('operator')):
        return m.group(1)
    return q.rsplit('::', 1)[-1]


def vals_of(interp, st, cal, vs):
    modes = cal.get('modes', [])
    out = []
    for i, v in enumerate(vs):
        m = modes[i] if i < len(modes) else 'v'
        out.append(interp.load(st, v[1]) if m in ('r', 'c', 'm') and v[0] == 'ptr' else v)
    return out


def taken(interp, st, cal, vs, i, node, F):
    """Argument i; a by-rvalue argument is left moved-from."""
    modes = cal.get('modes', [])
    m = modes[i] if i < len(modes) else 'v'
    v = vs[i]
    if m in ('r', 'c') and v[0] == 'ptr':
        return interp.load(st, v[1])
    if m == 'm' and v[0] == 'ptr':
        x = interp.load(st, v[1])
        args = [c for c in node['c'] if c]
        if i < len(args) and args[i].get('xv') and args[i]['k'] != 'mat':
            moved_from(interp, st, v[1], args[i].get('t'))
            interp.emit(st, 'moved', node, F, loc=v[1], val=x)
        return x
    return v


def moved_from(interp, st, loc, t):
    f = family(t)
    v = interp.load(st, loc)
    if f in SEQS:
        interp.store(st, loc, EMPTYS)
    elif f in MAPS or f in SETS:
        interp.store(st, loc, EMPTYM)
    elif f in SMART:
        interp.store(st, loc, NULL)
    elif f in LOCKS:
        interp.store(st, loc, ('lk', ()))
    elif t and t['k'] == 'rec' and t.get('rec') in interp.recs:
        for fl in interp.recs[t['rec']]['fields']:
            moved_from(interp, st, (loc[0], loc[1] + (fl['n'],)), fl['t'])
    elif f in TUPLES:
        a = targs(t)
        for n, x in zip(['first', 'second'] if f == 'std::pair' else range(len(a)), a):
            if isinstance(x, dict) and x['k'] == 'rec':
                moved_from(interp, st, (loc[0], loc[1] + (n,)), x)


def cop(interp, st, op, loc, args, new, node, F, **kw):
    """A container operation: records it and stores the new value."""
    old = interp.load(st, loc)
    if new is not None:
        interp.store(st, loc, new)
    interp.emit(st, 'cop', node, F, op=op, loc=loc, args=tuple(args), old=old, new=new, **kw)


# ---------------------------------------------------------------- building values
def build(interp, st, t, vs, node, F, tag='b', cal=None):
    """Value of a T constructed from already evaluated arguments; [(st, value)]."""
    f = family(t)
    rec = deref_t(t).get('rec') if t and deref_t(t)['k'] == 'rec' else None
    if rec in interp.recs:
        cands = [c for c in interp.ctors(rec) if len([p for p in c['params'] if not p.get('def')]) <= len(vs) <= len(c['params'])
                 and not c.get('deleted')]
        cands = rank_ctors(interp, st, cands, vs, node)
        if len(vs) == 1 and vs[0][0] == 'ptr' and not [c for c in cands if not c.get('implicit')]:
            return [(st, interp.load(st, vs[0][1]))]
        if cands and not (cands[0].get('implicit') and not vs):
            root = ('t', interp.uid(node), F.fid, tag)
            fn = cands[0]
            out = []
            for x in interp.construct_fn(fn, st, F, (root, ()), conform(interp, st, fn, vs, node, F), node, rec):
                out.append((x, x.mem.pop(root, UNDEF)))
            return out
        if not vs:
            root = ('t', interp.uid(node), F.fid, tag)
            v = default_value(interp, st, t, None, F, (root, ()))
            st.mem.pop(root, None)
            return [(st, v)]
        return [(st, ('app', 'ctor:' + str(rec)) + tuple(arg(interp, st, v) for v in vs))]
    vals = [arg(interp, st, v) for v in vs]
    if f in TUPLES:
        names = ['first', 'second'] if f == 'std::pair' else range(len(vals))
        if len(vals) == 1 and len(targs(t)) != 1:
            return [(st, vals[0])]
        if not vals:
            return [(st, default_value(interp, st, t, None, F, (('t', 0, 0, 'x'), ())))]
        return [(st, ('O', None, tuple(zip(names, vals))))]
    if not vals:
        return [(st, default_value(interp, st, t, None, F, (('t', 0, 0, 'x'), ())))]
    if f in ('std::vector', 'std::deque') and not (vals[0][0] == 'c' and isinstance(vals[0][1], str)) and vals[0][0] in ('c', 'lin', 'sym', 'app', 'iv', 'size', 'fld', 'w'):
        at = arg_types(node, len(vs))[0]
        if at is None or at['k'] != 'rec':
            if at is not None or vals[0][0] in ('c', 'lin', 'iv', 'size'):
                return [(st, filled(vals))]
    if len(vals) == 1:
        return [(st, vals[0])]
    return [(st, ('app', 'ctor:' + str(rec)) + tuple(vals))]


def filled(vals):
    """A list of equal entries; a few of a number that is written out are listed one by one."""
    if len(vals) >= 2 and isint(vals[0]) and 0 <= vals[0][1] <= 4 and vals[1][0] not in ('O',):
        return ('S', tuple(('e', vals[1]) for _ in range(vals[0][1])))
    return ('S', (('b', ('app', 'filled') + tuple(vals)),))


def arg_types(node, n):
    """Static types of the last n arguments of a call, None where the tree does not tell."""
    a = (node.get('args') or node.get('c') or []) if isinstance(node, dict) else []
    if len(a) < n:
        return [None] * n
    return [deref_t(x.get('t')) if isinstance(x, dict) and x.get('t') else None for x in a[len(a) - n:]]


def rank_ctors(interp, st, cands, vs, node=None):
    ats = arg_types(node, len(vs))

    def score(c):
        s = 0
        for v, p, at in zip(vs, c['params'], ats):
            t = deref_t(p['t'])
            if at and t and at['k'] == 'rec' and t['k'] == 'rec':
                s += 8 if at.get('rec') == t.get('rec') else -8
            elif at and t and at['k'] != t['k'] and 'rec' in (at['k'], t['k']):
                s -= 8
            x = interp.load(st, v[1]) if v[0] == 'ptr' and p['t'] and p['t']['k'] in ('lref', 'rref') else v
            f = family(t)
            if t and t['k'] == 'rec' and t.get('rec') == c['rec']:
                s -= 2
            if t and t['k'] == 'builtin' and x[0] in ('S', 'M', 'O', 'ptr', 'it'):
                s -= 3
            if f in SEQS and x[0] == 'S':
                s += 1
            if f in SMART and x[0] in ('S', 'M', 'O'):
                s -= 3
        return -s
    return sorted(cands, key=score)


def conform(interp, st, fn, vs, node, F):
    out = []
    for i, p in enumerate(fn['params'][:len(vs)]):
        v = vs[i]
        isref = p['t'] and p['t']['k'] in ('lref', 'rref')
        if isref and v[0] != 'ptr':
            v = ('ptr', interp.tmp(st, node, F, v, 'cf%d' % i))
        elif isref and v[0] == 'ptr' and not is_ref_to(interp, st, v, p['t']):
            v = ('ptr', interp.tmp(st, node, F, v, 'cf%d' % i))
        elif not isref and v[0] == 'ptr' and v[0] == 'ptr' and family(p['t']) not in SMART and not (p['t'] and p['t']['k'] == 'ptr'):
            v = interp.load(st, v[1])
        elif not isref and v[0] == 'ptr' and (v[1] in REFARGS.get(id(st), ())):
            v = interp.load(st, v[1])
        out.append(v)
    return out


REFARGS = {}


def is_ref_to(interp, st, v, t):
    return True


def forward_args(interp, st, cal, vs, fn_params=None):
    """make_shared & co take every argument by forwarding reference."""
    return vs


# ---------------------------------------------------------------- constructors of library types
def construct(interp, node, st, F, loc, cal, rec):
    f = canon(rec)
    cs = [c for c in node['c'] if c]
    out = []
    for x, vs in interp.args(node, st, F, cal):
        out += construct1(interp, node, x, F, loc, cal, rec, f, vs, cs)
    return out


def construct1(interp, node, st, F, loc, cal, rec, f, vs, cs):
    t = node.get('t')
    vals = vals_of(interp, st, cal, vs)
    # allocators and tags do not matter
    while vals and cs and len(cs) >= len(vals) and cs[len(vals) - 1].get('t') and 'allocator' in strip(cs[len(vals) - 1]['t'])[:16]:
        vals = vals[:-1]
        vs = vs[:-1]
    while len(vals) < len(vs):
        vs = vs[:-1]
    if cs and cs[-1].get('k') == 'defarg' and len(vals) > 1:
        pass

    def ret(v):
        interp.store(st, loc, v)
        return [st]
    if f in LOCKS:
        tag = strip(cs[-1]['t']) if len(cs) > 1 and cs[-1].get('t') else ''
        ms = [v[1] for v in vs if v[0] == 'ptr' and not is_tag(v)]
        if 'defer_lock' in tag or 'adopt_lock' in tag or 'try_to_lock' in tag:
            ms = ms[:1]
        if not ms:
            return ret(('lk', ()))
        owned = True
        if 'defer_lock' in tag:
            owned = False
        elif 'adopt_lock' in tag:
            owned = True
        elif 'try_to_lock' in tag:
            o = st.fork()
            interp.store(o, loc, ('lk', ((ms[0], False),)))
            lock(interp, st, ms[0], node, F, True)
            interp.store(st, loc, ('lk', ((ms[0], True),)))
            return [st, o]
        else:
            for m in ms:
                lock(interp, st, m, node, F)
        return ret(('lk', tuple((m, owned) for m in ms)))
    if f in SEQS or f in PATHS:
        if not vals:
            return ret(EMPTYS)
        v = vals[0]
        if v[0] == 'it' and len(vals) >= 2 and vals[1][0] == 'it':
            return ret(range_value(interp, st, v, vals[1]))
        if f == 'std::string' or f in PATHS:
            if len(vals) >= 2 and cal['modes'][:2] == ['v', 'v']:
                if isint(vals[0]) and isint(vals[1]):
                    return ret(seq(C(chr(vals[1][1] & 255) * vals[0][1])))
                return ret(('S', (('b', ('app', 'filled') + tuple(vals)),)))
            if v[0] in ('ptr',):
                v = interp.load(st, v[1])
            if len(vals) > 2:
                return ret(('S', (('b', ('app', 'substr') + tuple(vals)),)))
            return ret(seq(v))
        if v[0] == 'S' or 'initializer_list' in strip(cs[0].get('t')) or family(cs[0].get('t')) == f:
            return ret(seq(v))
        if v[0] == 'ptr' and interp.load(st, v[1])[0] == 'S':        # a list of initialisers
            return ret(interp.load(st, v[1]))
        return ret(filled(vals))
    if f in MAPS or f in SETS:
        if not vals:
            return ret(EMPTYM)
        v = vals[0]
        if v[0] == 'it' and len(vals) >= 2 and vals[1][0] == 'it':
            r = range_value(interp, st, v, vals[1])
            return ret(r if r[0] == 'M' else ('M', ('app', 'asset', r), ()))
        if v[0] == 'S':
            m = EMPTYM
            for it in v[1]:
                if it[0] != 'e':
                    m = ('M', ('app', 'asset', v), ())
                    break
                if f in MAPS:
                    m = put_key(m, get(st.facts, it[1], 'first'), get(st.facts, it[1], 'second'))
                else:
                    m = put_key(m, it[1], C(1))
            return ret(m)
        return ret(mp(v))
    if f in SMART:
        if not vals:
            return ret(NULL)
        v = vals[0]
        if len(cs) >= 1 and node_moves(cs[0]) and vs[0][0] == 'ptr' and cal.get('modes', ['v'])[0] == 'm':
            moved_from(interp, st, vs[0][1], cs[0].get('t'))
        return ret(v)
    if f in TUPLES:
        n = len(targs(t))
        names = ['first', 'second'] if f == 'std::pair' else list(range(n))
        if not vals:
            return ret(default_value(interp, st, t, None, F, loc))
        if len(vals) == 1 and n != 1:
            return ret(vals[0])
        vals = [taken(interp, st, cal, vs, i, node, F) for i in range(len(vals))]
        items = []
        for nme, v, a, raw in zip(names, vals, targs(t), vs):
            if isinstance(a, dict) and a['k'] in ('lref', 'rref') and raw[0] == 'ptr':
                v = ('ref', raw[1])
            items.append((nme, v))
        return ret(('O', None, tuple(items)))
    if f in SSTREAMS:
        inp = EMPTYS
        if vals and family(cs[0].get('t')) == 'std::string':
            inp = seq(vals[0])
        return ret(new_stream(inp))
    if f in FSTREAMS:
        if not vals:
            return ret(default_value(interp, st, t, None, F, loc))
        mode = vals[1] if len(vals) > 1 else C({'std::ofstream': 16, 'std::ifstream': 8}.get(f, 24))
        return [fopen(interp, st, loc, seq(vals[0]), mode, node, F, f)]
    if f == 'std::thread':
        if not vals:
            return ret(C('nothread'))
        fnv = vals[0]
        if vs[0][0] == 'ptr' and fnv[0] not in ('fn', 'lam'):
            fnv = vs[0]
        interp.emit(st, 'spawn', node, F, f=fnv, args=tuple(vals[1:]), locs=tuple(vs[1:]), loc=loc)
        return ret(('app', 'thread', fnv) + tuple(vals[1:]))
    if f in ITERS or f.startswith('__gnu_cxx::__normal'):
        return ret(vals[0] if vals else UNDEF)
    if f in MUTEXES or f.startswith('std::condition_variable'):
        return ret(C('new:' + f))
    if f == 'std::function' or f == 'std::reference_wrapper':
        return ret(vals[0] if vals else NULL)
    if f in ATOMICS:
        return ret(vals[0] if vals else UNDEF)
    if '_struct' in f or '_s' == f[-2:] or (not vals and '::' not in f):
        return ret(vals[0] if vals else UNDEF)
    if f == 'boost::filesystem::directory_iterator' or f.endswith('recursive_directory_iterator'):
        # the entries are a sequence of paths
        if not vals:
            return ret(('it', (('r', ('app', 'dirend')), ()), ('end',), 'x'))
        if vals[0][0] == 'it':
            return ret(vals[0])
        return ret(('it', (('r', ('app', 'dirlist', vals[0], interp.fresh(st, 'dir', node, F))), ()), ('idx', C(0)), 'x'))
    if f == 'YAML::Node' and vals:
        return ret(vals[0])
    if f == 'std::random_device' or 'distribution' in f or f.startswith('std::mersenne'):
        return ret(C('new:' + f))
    interp.emit(st, 'ext', node, F, q=cal['q'], args=tuple(vals), locs=tuple(vs), this=('ptr', loc))
    if not vals:
        return ret(C('new:' + str(rec)))
    return ret(('app', 'ctor:' + str(rec)) + tuple(vals))


def is_tag(v):
    return v[1][0][0] == 'g' and v[1][0][1].startswith('std::')


def node_moves(n):
    return n.get('xv') and n['k'] != 'mat'


def range_value(interp, st, a, b):
    cont = interp.load(st, a[1])
    if a[2] == ('idx', C(0)) and ((a[1] == b[1] and b[2] == ('idx', size(cont))) or b[2] == ('end',)):
        return cont
    return ('S', (('b', ('app', 'range', cont, a[2][-1] if len(a[2]) > 1 else NULL, b[2][-1] if len(b[2]) > 1 else NULL)),))


def fopen(interp, st, loc, p, mode, node, F, fam=''):
    s0 = interp.fresh(st, 'fopen', node, F)
    old = interp.load(st, loc)
    interp.store(st, loc, ('O', None, (('#buf', EMPTYS), ('#mode', mode), ('#open', C(1)), ('#path', p), ('#st', s0))))
    interp.emit(st, 'fopen', node, F, loc=loc, path=p, mode=mode, st=s0, fam=fam)
    return st


# ---------------------------------------------------------------- methods
def method(interp, node, st, F, cal, loc, vs, obj):
    f = canon(cal.get('rec') or '')
    n = mname(cal)
    if n == '~' + f.split('::')[-1] or n.startswith('~'):
        return [(st, VOID)]
    ot = deref_t(obj.get('t')) if obj else None
    if ot and ot['k'] == 'ptr':
        ot = deref_t(ot.get('to'))
    of = family(ot)
    if of and of != f and (of in SEQS or of in MAPS or of in SETS or of in SMART or of in STREAMS):
        f = of
    if f in LOCKS:
        return m_lock(interp, node, st, F, cal, loc, vs, n)
    if f in MUTEXES:
        return m_mutex(interp, node, st, F, cal, loc, vs, n)
    if f.startswith('std::condition_variable'):
        return m_cv(interp, node, st, F, cal, loc, vs, n)
    if f in SEQS:
        r = m_seq(interp, node, st, F, cal, loc, vs, n, ot)
        if r is not None:
            return r
    if f in MAPS or f in SETS:
        r = m_assoc(interp, node, st, F, cal, loc, vs, n, ot, f)
        if r is not None:
            return r
    if f in SMART:
        r = m_smart(interp, node, st, F, cal, loc, vs, n)
        if r is not None:
            return r
    if f in STREAMS:
        r = m_stream(interp, node, st, F, cal, loc, vs, n, f)
        if r is not None:
            return r
    if f in PATHS:
        r = m_path(interp, node, st, F, cal, loc, vs, n)
        if r is not None:
            return r
    if f in ITERS or 'iterator' in f:
        r = m_iter(interp, node, st, F, cal, loc, vs, n)
        if r is not None:
            return r
    if f in TUPLES and n == 'operator=':
        return [tuple_assign(interp, node, st, F, cal, loc, vs)]
    if f in TUPLES and n == 'swap':
        return [(swap(interp, st, loc, vs[0][1], node, F), VOID)]
    if f == 'std::thread':
        return m_thread(interp, node, st, F, cal, loc, vs, n)
    if f == 'std::enable_shared_from_this':
        return [(st, ('ptr', loc))]
    if f in ATOMICS:
        r = m_atomic(interp, node, st, F, cal, loc, vs, n)
        if r is not None:
            return r
    if f == 'std::function' and n == 'operator()':
        v = interp.load(st, loc)
        r = interp.call_value(v, st, vs, node, F)
        if r is not None:
            return r
    if f == 'std::reference_wrapper':
        v = interp.load(st, loc)
        return [(st, lvr(node, v))]
    if f.startswith('boost::mpi'):
        r = m_mpi(interp, node, st, F, cal, loc, vs, n, f)
        if r is not None:
            return r
    if 'archive' in f and n in ('operator&', 'operator<<', 'operator>>'):
        v = vs[0]
        val = interp.load(st, v[1]) if v[0] == 'ptr' else v
        inn = 'iarchive' in f or 'iarchive' in (obj.get('t') or {}).get('s', '')
        if inn and v[0] == 'ptr':
            nv = interp.fresh(st, 'ar', node, F)
            interp.store(st, v[1], nv)
            val = nv
        interp.emit(st, 'ar', node, F, val=val, loc=v[1] if v[0] == 'ptr' else None, inn=inn, ar=loc,
                    type=type_name([c for c in node['c'] if c][-1]))
        return [(st, ('ptr', loc))]
    if f == 'YAML::Node':
        r = m_yaml(interp, node, st, F, cal, loc, vs, n)
        if r is not None:
            return r
    if f.startswith('boost::program_options'):
        tv = interp.load(st, loc)
        vals = vals_of(interp, st, cal, vs)
        interp.emit(st, 'ext', node, F, q=cal['q'], args=tuple(vals), locs=tuple(vs), this=('ptr', loc))
        ta = ''
        if n == 'as':
            ta = ':' + ','.join(strip(a) if isinstance(a, dict) and 'k' in a else str(a) for a in (x.get('t', x) if isinstance(x, dict) else x for x in cal.get('targs', [])))
        if n == 'count':
            b = ('B', ('opt', tv, vals[0]), True)
            return [(x, C(int(y))) for x, y in interp.branch(st, truth_atom(b))]
        v = ('app', 'po:' + n + ta, tv) + tuple(vals)
        if 'easy_init' in f or n in ('add', 'options', 'positional', 'allow_unregistered', 'add_options'):
            return [(st, ('ptr', loc) if node.get('lv') else v)]
        return [(st, lvr(node, v))]
    return generic(interp, node, st, F, cal, ('ptr', loc), vs)


def m_lock(interp, node, st, F, cal, loc, vs, n):
    v = interp.load(st, loc)
    parts = lk_parts(v)
    if n == 'unlock':
        for m, o in parts:
            unlock(interp, st, m, node, F)
        interp.store(st, loc, ('lk', tuple((m, False) for m, o in parts)))
        return [(st, VOID)]
    if n in ('lock', 'try_lock'):
        for m, o in parts:
            lock(interp, st, m, node, F, n != 'lock')
        interp.store(st, loc, ('lk', tuple((m, True) for m, o in parts)))
        return [(st, VOID if n == 'lock' else C(1))]
    if n in ('owns_lock', 'operator bool'):
        return [(st, C(int(any(o for _, o in parts))))]
    if n == 'release':
        interp.store(st, loc, ('lk', ()))
        return [(st, ('ptr', parts[0][0]) if parts else NULL)]
    if n == 'mutex':
        return [(st, ('ptr', parts[0][0]) if parts else NULL)]
    if n == 'operator=':
        for m, o in parts:
            if o:
                unlock(interp, st, m, node, F)
        v = interp.load(st, vs[0][1]) if vs[0][0] == 'ptr' else vs[0]
        if vs[0][0] == 'ptr':
            interp.store(st, vs[0][1], ('lk', ()))
        interp.store(st, loc, v)
        return [(st, ('ptr', loc))]
    return generic(interp, node, st, F, cal, ('ptr', loc), vs)


def m_mutex(interp, node, st, F, cal, loc, vs, n):
    if n in ('lock', 'lock_shared'):
        lock(interp, st, loc, node, F)
        return [(st, VOID)]
    if n in ('unlock', 'unlock_shared'):
        unlock(interp, st, loc, node, F)
        return [(st, VOID)]
    if n.startswith('try_lock'):
        o = st.fork()
        lock(interp, st, loc, node, F, True)
        return [(st, C(1)), (o, C(0))]
    return generic(interp, node, st, F, cal, ('ptr', loc), vs)


def m_cv(interp, node, st, F, cal, loc, vs, n):
    if n.startswith('notify'):
        interp.emit(st, 'notify', node, F, cv=loc, all=n == 'notify_all')
        return [(st, VOID)]
    if n in ('wait', 'wait_for', 'wait_until'):
        lkv = interp.load(st, vs[0][1])
        parts = [m for m, o in lk_parts(lkv)]
        pred = None
        for v in vs[1:]:
            w = arg(interp, st, v)
            if w[0] in ('lam', 'fn'):
                pred = w

        def dowait(x):
            snap = []
            for m in parts:
                nm = interp.loc_mutex.get(m)
                if m[1] and nm:
                    for f in sorted(interp.shared.get(nm[0], ())):
                        if '::' not in f:
                            l = (m[0], m[1][:-1] + (f,))
                            snap.append((l, interp.load(x, l)))
            interp.emit(x, 'wait', node, F, cv=loc, mutexes=tuple(parts), timed=n != 'wait', snap=tuple(snap))
            for m in parts:
                if m in x.locks:
                    havoc(interp, x, m, node, F)
        if pred is None:
            dowait(st)
            return [(st, VOID if n == 'wait' else interp.fresh(st, 'cvstatus', node, F))]

        def cond(x):
            r = []
            for y, v in interp.call_value(pred, x, [], node, F):
                r += [(z, not b) for z, b in interp.branch(y, truth_atom(v))]
            return r

        def body(x):
            dowait(x)
            if n == 'wait':
                return [('n', x, VOID)]
            o = x.fork()
            return [('n', x, VOID), ('ret', o, C(0))]
        out = []
        for k, x, v in interp.loop(st, node, F, cond, body, None):
            if k == 'n':
                out.append((x, VOID if n == 'wait' else C(1)))
            elif k == 'ret':
                out.append((x, v))
            else:
                interp.abr.append((k, x, v))
        return out
    return generic(interp, node, st, F, cal, ('ptr', loc), vs)


def elem_type(ot, i=0):
    a = targs(ot)
    return a[i] if len(a) > i and isinstance(a[i], dict) else None


def m_seq(interp, node, st, F, cal, loc, vs, n, ot):
    v = interp.load(st, loc)
    if v[0] == 'c' and isinstance(v[1], str) or v[0] == 'undef':
        v = seq(v)
    isstr = family(ot) == 'std::string' or canon(cal.get('rec')) == 'std::string'
    if n in ('size', 'length'):
        return [(st, size(v))]
    if n == 'empty':
        return [(st, boolterm(atom_eq0(size(v))))]
    if n in ('reserve', 'shrink_to_fit', 'get_allocator'):
        return [(st, VOID)]
    if n == 'capacity' or n == 'max_size':
        return [(st, ('app', n, v))]
    if n == 'clear':
        cop(interp, st, 'clear', loc, (), EMPTYS, node, F)
        return [(st, VOID)]
    if n in ('push_back', 'push', 'push_front', 'emplace_back', 'emplace_front', 'emplace'):
        front = n.endswith('front')
        et = elem_type(ot)
        if n.startswith('push'):
            items = [(st, taken(interp, st, cal, vs, 0, node, F))]
        else:
            if n == 'emplace' and vs and vs[0][0] == 'it':
                return None
            items = build(interp, st, et, refs(interp, st, cal, vs), node, F) if et else [(st, vs[0])]
        out = []
        for x, e in items:
            w = interp.load(x, loc)
            its = seq(w)[1]
            new = ('S', (('e', e),) + its) if front else ('S', its + (('e', e),))
            if isstr:
                new = cat(w, C(chr(e[1] & 255)) if isint(e) else ('S', (('e', e),)))
            cop(interp, x, 'push_front' if front else 'push_back', loc, (e,), new, node, F)
            if n.startswith('emplace'):
                x2 = at(loc, ('x', C(0) if front else sub(size(new), C(1))))
                out.append((x, ('ptr', x2) if node.get('lv') else VOID))
            else:
                out.append((x, VOID))
        return out
    if n in ('pop_back', 'pop_front', 'pop'):
        q = family(ot) or canon(cal.get('rec'))
        back = n == 'pop_back' or (n == 'pop' and q == 'std::stack')
        its = seq(v)[1]
        if back and its and its[-1][0] == 'e':
            new = ('S', its[:-1])
        elif not back and its and its[0][0] == 'e':
            new = ('S', its[1:])
        else:
            new = ('S', (('b', ('drop', unwrap(v), 'back' if back else 'front')),))
        cop(interp, st, 'pop_back' if back else 'pop_front', loc, (), new, node, F)
        return [(st, VOID)]
    if n in ('front', 'back', 'top'):
        i = C(0) if n == 'front' else sub(size(v), C(1))
        interp.emit(st, 'cop', node, F, op=n, loc=loc, args=(i,), old=v, new=None)
        return [(st, ('ptr', at(loc, ('x', i))))]
    if n in ('at', 'operator[]'):
        i = arg(interp, st, vs[0])
        interp.emit(st, 'cop', node, F, op='at' if n == 'at' else 'index', loc=loc, args=(i,), old=v, new=None)
        return [(st, ('ptr', at(loc, ('x', i))))]
    if n in ('begin', 'cbegin'):
        return [(st, ('it', loc, ('idx', C(0)), 'x'))]
    if n in ('end', 'cend'):
        return [(st, ('it', loc, ('idx', size(v)), 'x'))]
    if n in ('rbegin', 'crbegin'):
        return [(st, ('it', loc, ('idx', sub(size(v), C(1))), 'rx'))]
    if n in ('rend', 'crend'):
        return [(st, ('it', loc, ('idx', C(-1)), 'rx'))]
    if n == 'data':
        return [(st, ('ptr', loc))]
    if n == 'c_str':
        return [(st, v)]
    if n == 'operator=' or n == 'assign' and len(vs) == 1:
        w = taken(interp, st, cal, vs, 0, node, F)
        if vs[0][0] == 'ptr' and cal.get('modes', ['v'])[0] in ('p', 'cp'):
            w = vs[0] if vs[0][0] == 'c' else interp.load(st, vs[0][1])
        if isint(w) and isstr:
            w = C(chr(w[1] & 255))
        w = seq(w) if w[0] != 'S' else w
        interp.write(st, loc, w, node, F)
        return [(st, ('ptr', loc))]
    if n == 'swap':
        return [(swap(interp, st, loc, vs[0][1], node, F), VOID)]
    if n in ('operator+=', 'append') and isstr:
        w = arg(interp, st, vs[0])
        if len(vs) > 1:
            w = ('app', 'append') + tuple(arg(interp, st, a) for a in vs)
        if isint(w):
            w = C(chr(w[1] & 255))
        cop(interp, st, 'append', loc, (w,), cat(v, w), node, F)
        return [(st, ('ptr', loc))]
    if n == 'insert' and len(vs) == 3 and all(arg(interp, st, a)[0] == 'it' for a in vs):
        p, a, b = (arg(interp, st, z) for z in vs)
        r = range_value(interp, st, a, b)
        if p[2] == ('idx', size(v)):
            new = cat(v, r)
        else:
            new = ('S', (('b', ('app', 'ins', v, p[2][-1], r)),))
        cop(interp, st, 'append', loc, (r,), new, node, F)
        return [(st, p)]
    if n == 'assign' and len(vs) == 2 and not isstr:
        vals = tuple(arg(interp, st, a) for a in vs)
        if all(a[0] == 'it' for a in vals):
            w = range_value(interp, st, *vals)
        elif not any(a[0] == 'it' for a in vals):
            w = filled(vals)
        else:
            w = None
        if w is not None:
            interp.write(st, loc, w, node, F)
            return [(st, VOID)]
    if n in ('resize', 'insert', 'erase', 'assign', 'remove', 'splice', 'sort', 'unique', 'reverse', 'replace'):
        vals = tuple(arg(interp, st, a) for a in vs)
        vals = tuple(a[2][-1] if a[0] == 'it' else a for a in vals)
        new = ('S', (('b', ('app', n, v) + vals),))
        if n == 'insert' and len(vals) == 3 and not isstr:
            cop(interp, st, 'insert_n', loc, vals, new, node, F)
            return [(st, ('it', loc, ('idx', vals[0]), 'x'))]
        if n == 'resize' and len(vals) == 2 and not isstr and sub(vals[0], size(v))[0] in ('fld', 'call', 'w', 'sym', 'iv', 'app', 'deref'):
            cop(interp, st, 'insert_n', loc, (size(v), sub(vals[0], size(v)), vals[1]), new, node, F)
            return [(st, VOID)]
        cop(interp, st, n, loc, vals, new, node, F)
        return [(st, ('it', loc, ('idx', interp.fresh(st, n, node, F)), 'x') if n in ('insert', 'erase') else VOID)]
    if isstr:
        vals = tuple(arg(interp, st, a) for a in vs)
        return [(st, lvr(node, ('app', 'str.' + n, v) + vals))]
    return None


def refs(interp, st, cal, vs):
    return vs


def swap(interp, st, a, b, node, F):
    va, vb = interp.load(st, a), interp.load(st, b)
    interp.write(st, a, vb, node, F, 'swap')
    interp.write(st, b, va, node, F, 'swap')
    return st


def m_assoc(interp, node, st, F, cal, loc, vs, n, ot, f):
    v = mp(interp.load(st, loc))
    ismap = f in MAPS
    kind = 'n' if ismap else 'sx'
    if n == 'size':
        return [(st, size(v))]
    if n == 'empty':
        return [(st, boolterm(atom_eq0(size(v))))]
    if n == 'clear':
        cop(interp, st, 'clear', loc, (), EMPTYM, node, F)
        return [(st, VOID)]
    if n in ('begin', 'cbegin'):
        return [(st, ('it', loc, ('idx', C(0)), kind))]
    if n in ('end', 'cend'):
        return [(st, ('it', loc, ('idx', size(v)), kind))]
    if n in ('rbegin', 'crbegin'):
        return [(st, ('it', loc, ('idx', sub(size(v), C(1))), 'r' + kind))]
    if n in ('find', 'count', 'contains'):
        k = arg(interp, st, vs[0])
        interp.emit(st, 'cop', node, F, op='find', loc=loc, args=(k,), old=v, new=None)
        out = []
        for x, b in interp.branch(st, has(st.facts, v, k)):
            if n == 'find':
                out.append((x, ('it', loc, ('key', k) if b else ('end',), kind)))
            else:
                out.append((x, C(int(b))))
        return out
    if n in ('at', 'operator[]'):
        k = taken(interp, st, cal, vs, 0, node, F)
        out = []
        if n == 'at':
            interp.emit(st, 'cop', node, F, op='at', loc=loc, args=(k,), old=v, new=None, has=test(st.facts, has(st.facts, v, k)))
            interp.assume(st, has(st.facts, v, k))
            return [(st, ('ptr', at(loc, ('k', k))))]
        for x, b in interp.branch(st, has(st.facts, v, k)):
            if not b:
                mt = elem_type(ot, 1)
                mloc = at(loc, ('k', k))
                for y, d in default_states(interp, x, mt, F, node, mloc):
                    new = put_key(v, k, d)
                    cop(interp, y, 'insert', loc, (k, d), new, node, F, dflt=True)
                    out.append((y, ('ptr', mloc)))
            else:
                interp.emit(x, 'cop', node, F, op='index', loc=loc, args=(k,), old=v, new=None)
                out.append((x, ('ptr', at(loc, ('k', k)))))
        return out
    if n in ('insert', 'emplace', 'try_emplace', 'emplace_hint', 'insert_or_assign'):
        if n == 'emplace_hint' or (n == 'insert' and len(vs) == 2 and arg(interp, st, vs[0])[0] == 'it' and arg(interp, st, vs[1])[0] != 'it'):
            vs = vs[1:]
        if len(vs) == 2 and arg(interp, st, vs[0])[0] == 'it' and arg(interp, st, vs[1])[0] == 'it':
            r = range_value(interp, st, arg(interp, st, vs[0]), arg(interp, st, vs[1]))
            r = unwrap(r)
            new = mp(r) if unwrap(v) == EMPTY else ('M', ('app', 'union', unwrap(v), r), ())
            cop(interp, st, 'insert_all', loc, (r,), new, node, F)
            return [(st, VOID)]
        et = None
        if not ismap:
            items = [(st, taken(interp, st, cal, vs, 0, node, F), C(1))] if n == 'insert' else \
                [(x, e, C(1)) for x, e in build(interp, st, elem_type(ot), vs, node, F)]
        elif n == 'insert':
            p = taken(interp, st, cal, vs, 0, node, F)
            items = [(st, get(st.facts, p, 'first'), get(st.facts, p, 'second'))]
        else:
            k = arg(interp, st, vs[0])
            if len(vs) == 1 and n == 'emplace':
                items = [(st, get(st.facts, k, 'first'), get(st.facts, k, 'second'))]
            else:
                items = [(x, k, e) for x, e in build(interp, st, elem_type(ot, 1), vs[1:], node, F)]
        out = []
        for x, k, e in items:
            if n == 'insert_or_assign':
                cop(interp, x, 'insert', loc, (k, e), put_key(v, k, e), node, F)
                out.append((x, ('O', None, (('first', ('it', loc, ('key', k), kind)), ('second', UNDEF)))))
                continue
            used = node.get('used', True)
            if not ismap and has(x.facts, v, k) is not False and test(x.facts, has(x.facts, v, k)) is None and node.get('stmt'):
                cop(interp, x, 'insert', loc, (k,), put_key(v, k, e), node, F)
                out.append((x, VOID))
                continue
            for y, b in interp.branch(x, has(x.facts, v, k)):
                if not b:
                    cop(interp, y, 'insert', loc, (k, e) if ismap else (k,), put_key(v, k, e), node, F)
                else:
                    interp.emit(y, 'cop', node, F, op='insert_present', loc=loc, args=(k, e), old=v, new=None)
                r = ('it', loc, ('key', k), kind)
                fam = family(cal.get('rt'))
                out.append((y, ('O', None, (('first', r), ('second', C(int(not b))))) if fam == 'std::pair' else r))
        return out
    if n == 'erase':
        a = arg(interp, st, vs[0])
        if a[0] == 'it':
            if len(vs) == 2:
                b = arg(interp, st, vs[1])
                if a[2] == ('idx', C(0)) and b[2] == ('idx', size(v)):
                    cop(interp, st, 'clear', loc, (), EMPTYM, node, F)
                    return [(st, a)]
                cop(interp, st, 'erase_range', loc, (), ('M', interp.fresh(st, 'erased', node, F), ()), node, F)
                return [(st, a)]
            k = a[2][1] if a[2][0] == 'key' else elem_key(v, (kind, a[2][1]))
            if a[2][0] == 'end':
                k = UNDEF
            cop(interp, st, 'erase', loc, (k,), del_key(v, k), node, F)
            return [(st, ('it', loc, ('idx', ('app', 'next', a[2][-1])), kind))]
        out = []
        for x, b in interp.branch(st, has(st.facts, v, a)):
            if b:
                cop(interp, x, 'erase', loc, (a,), del_key(v, a), node, F)
            out.append((x, C(int(b))))
        return out
    if n == 'operator=':
        w = taken(interp, st, cal, vs, 0, node, F)
        interp.write(st, loc, mp(w), node, F)
        return [(st, ('ptr', loc))]
    if n == 'swap':
        return [(swap(interp, st, loc, vs[0][1], node, F), VOID)]
    if n == 'merge':
        o = vs[0][1]
        r = unwrap(mp(interp.load(st, o)))
        cop(interp, st, 'insert_all', loc, (r,), ('M', ('app', 'union', unwrap(v), r), ()), node, F)
        interp.store(st, o, ('M', ('app', 'inter', unwrap(v), r), ()))
        return [(st, VOID)]
    if n in ('lower_bound', 'upper_bound'):
        k = arg(interp, st, vs[0])
        return [(st, ('it', loc, ('idx', ('app', n, unwrap(v), k)), kind))]
    return None


def default_states(interp, st, t, F, node, loc):
    """Value-initialised T; [(st, value)]."""
    if t and t['k'] == 'rec' and t.get('rec') in interp.recs:
        cs = [c for c in interp.ctors(t['rec']) if not c.get('implicit') and not [p for p in c['params'] if not p.get('def')]]
        if cs and not interp.opaque(cs[0]):
            root = ('t', interp.uid(node), F.fid, 'dfl')
            out = []
            for x in interp.construct_fn(cs[0], st, F, (root, ()), [], node, t['rec']):
                out.append((x, x.mem.pop(root, UNDEF)))
            return out
        return [(st, default_value(interp, st, t, None, F, loc))]
    return [(st, zero_value(interp, st, t, node, F))]


def m_smart(interp, node, st, F, cal, loc, vs, n):
    v = interp.load(st, loc)
    if n == 'operator->' or n == 'get':
        return [(st, v)]
    if n == 'operator*':
        return [(st, ('ptr', interp.deref(v)))]
    if n == 'operator[]':
        l = interp.deref(v)
        return [(st, ('ptr', at(l, ('x', arg(interp, st, vs[0])))))]
    if n == 'operator bool':
        return [(st, boolterm(truth_atom(v)))]
    if n == 'operator=':
        w = vs[0]
        if cal.get('modes', ['v'])[0] in ('c', 'r', 'm') and w[0] == 'ptr':
            w = taken(interp, st, cal, vs, 0, node, F)
        interp.write(st, loc, w, node, F)
        return [(st, ('ptr', loc))]
    if n == 'reset':
        interp.write(st, loc, vs[0] if vs else NULL, node, F)
        return [(st, VOID)]
    if n == 'lock':
        return [(st, ('app', 'lock', v))]
    if n == 'expired':
        return [(st, boolterm(neg(truth_atom(('app', 'lock', v)))))]
    if n in ('use_count', 'unique'):
        return [(st, interp.fresh(st, n, node, F))]
    if n == 'swap':
        return [(swap(interp, st, loc, vs[0][1], node, F), VOID)]
    if n == 'release':
        interp.write(st, loc, NULL, node, F)
        return [(st, v)]
    return None


# ---------------------------------------------------------------- streams
SINKS = ('std::cout', 'std::cerr', 'std::clog')


def issink(loc):
    return loc[0][0] == 'g' and loc[0][1] in SINKS


def fmt(v, tag):
    """What inserting v appends to a text stream."""
    if v[0] == 'S':
        return v
    if v[0] == 'c' and isinstance(v[1], str):
        return seq(v)
    if isint(v):
        if tag == 'char':
            return seq(C(chr(v[1] & 255)))
        return seq(C(str(v[1])))
    if tag == 'str':
        return seq(v)
    return ('S', (('f', v, tag),))


def type_tag(t):
    t = deref_t(t)
    if not t:
        return '?'
    s = strip(t)
    if t['k'] == 'builtin':
        if t['s'].replace('const ', '') in ('char', 'unsigned char', 'signed char'):
            return 'char'
        if 'bool' in t['s']:
            return 'bool'
        if t.get('bits'):
            return ('i' if t.get('signed') else 'u') + str(t['bits'])
        return t['s']
    if t['k'] in ('ptr', 'array'):
        return 'str' if 'char' in s else 'ptr'
    f = family(t)
    if f == 'std::string':
        return 'str'
    if f in PATHS:
        return 'path'
    return s


def stream_out(interp, st, loc, v, tag, node, F):
    if tag == 'manip':
        if v[0] == 'fn' and v[2] in ('std::flush',):
            flush(interp, st, loc, node, F)
        if v[0] == 'fn' and v[2] in ('std::endl',):
            stream_out(interp, st, loc, C('\n'), 'endl', node, F)
            flush(interp, st, loc, node, F)
        else:
            interp.emit(st, 'manip', node, F, loc=loc, val=v)
        return
    if tag == 'endl':
        tag = 'manip'
    interp.emit(st, 'out', node, F, loc=loc, val=v, tag=tag)
    if issink(loc):
        return
    o = interp.load(st, loc)
    buf = get(st.facts, o, '#buf')
    new = cat(buf, fmt(v, tag))
    # characters one by one keep loops over streams uniform
    interp.store(st, at(loc, '#buf'), new)
    p = get(st.facts, o, '#path')
    if not (o[0] == 'O' and p == UNDEF):
        interp.store(st, at(loc, '#st'), interp.fresh(st, 'fwrite', node, F))
        if p[0] != 'fld':
            interp.emit(st, 'fwrite', node, F, loc=loc, path=p, val=v, mode=get(st.facts, o, '#mode'))


def flush(interp, st, loc, node, F):
    if not issink(loc):
        o = interp.load(st, loc)
        if o[0] == 'O' and get(st.facts, o, '#path') != UNDEF:
            ns = interp.fresh(st, 'flush', node, F)
            interp.store(st, at(loc, '#st'), ns)
            interp.emit(st, 'flush', node, F, loc=loc, st=ns)


def sstate(interp, st, loc):
    s = get(st.facts, interp.load(st, loc), '#st')
    return s


def good_term(interp, st, loc):
    s = sstate(interp, st, loc)
    return boolterm(truth_atom(s if s != UNDEF else C(1)))


def stream_in(interp, st, loc, target, tag, how, node, F, args=()):
    nv = interp.fresh(st, 'in:' + how, node, F)
    ns = interp.fresh(st, 'ins:' + how, node, F)
    before = interp.load(st, loc)
    if target is not None:
        if tag == 'str':
            interp.store(st, target, ('S', (('b', nv),)))
        else:
            interp.store(st, target, nv)
    if not issink(loc):
        interp.store(st, at(loc, '#st'), ns)
    interp.emit(st, 'in', node, F, how=how, loc=loc, target=target, tag=tag, val=nv, st=ns, before=before, args=tuple(args))
    return nv


def m_stream(interp, node, st, F, cal, loc, vs, n, f):
    if n == 'operator<<':
        v = vs[0]
        modes = cal.get('modes', ['v'])
        if modes[0] in ('c', 'r', 'm') and v[0] == 'ptr':
            v = interp.load(st, v[1])
        args = [c for c in node['c'] if c]
        e = args[-1]
        tag = type_tag(e.get('t'))
        if v[0] == 'fn':
            tag = 'manip'
        stream_out(interp, st, loc, v, tag, node, F)
        return [(st, ('ptr', loc))]
    if n == 'operator>>':
        e = [c for c in node['c'] if c][-1]
        if vs[0][0] != 'ptr':
            interp.emit(st, 'manip', node, F, loc=loc, val=vs[0])
            return [(st, ('ptr', loc))]
        stream_in(interp, st, loc, vs[0][1], type_tag(e.get('t')), 'extract', node, F)
        return [(st, ('ptr', loc))]
    if n in ('operator bool', 'good'):
        return [(st, good_term(interp, st, loc))]
    if n in ('operator!', 'fail', 'bad'):
        g = good_term(interp, st, loc)
        return [(st, boolterm(neg(truth_atom(g))))]
    if n == 'eof':
        s = sstate(interp, st, loc)
        return [(st, boolterm(truth_atom(('app', 'eof', s))))]
    if n == 'str':
        o = interp.load(st, loc)
        if vs:
            interp.store(st, at(loc, '#buf'), seq(arg(interp, st, vs[0])))
            return [(st, VOID)]
        return [(st, get(st.facts, o, '#buf'))]
    if n == 'close':
        o = interp.load(st, loc)
        interp.store(st, at(loc, '#st'), interp.fresh(st, 'fclose', node, F))
        interp.store(st, at(loc, '#open'), C(0))
        interp.emit(st, 'fclose', node, F, loc=loc, path=get(st.facts, o, '#path'), implicit=False, st=sstate(interp, st, loc),
                    buf=get(st.facts, o, '#buf'), mode=get(st.facts, o, '#mode'))
        return [(st, VOID)]
    if n == 'open':
        vals = vals_of(interp, st, cal, vs)
        return [(fopen(interp, st, loc, seq(vals[0]), vals[1] if len(vals) > 1 else C(24), node, F, f), VOID)]
    if n == 'is_open':
        o = interp.load(st, loc)
        op = get(st.facts, o, '#open')
        if op == C(0):
            return [(st, C(0))]
        return [(st, boolterm(truth_atom(sstate(interp, st, loc))))]
    if n == 'flush':
        flush(interp, st, loc, node, F)
        return [(st, ('ptr', loc))]
    if n == 'peek':
        nv = interp.fresh(st, 'peek', node, F)
        interp.emit(st, 'in', node, F, how='peek', loc=loc, target=None, tag='char', val=nv, st=None, before=interp.load(st, loc), args=())
        return [(st, nv)]
    if n in ('ignore', 'get', 'unget', 'putback', 'getline', 'read', 'readsome', 'sync'):
        vals = vals_of(interp, st, cal, vs)
        if n == 'get' and vs and vs[0][0] == 'ptr':
            stream_in(interp, st, loc, vs[0][1], 'char', 'get', node, F)
            return [(st, ('ptr', loc))]
        nv = stream_in(interp, st, loc, None, 'char', n, node, F, vals)
        return [(st, ('ptr', loc) if node.get('lv') else nv)]
    if n in ('write', 'put'):
        vals = vals_of(interp, st, cal, vs)
        v = vals[0]
        if v[0] == 'ptr':
            v = interp.load(st, v[1])
        stream_out(interp, st, loc, v, 'char' if n == 'put' else 'str', node, F)
        return [(st, ('ptr', loc))]
    if n == 'clear':
        interp.store(st, at(loc, '#st'), C(1))
        return [(st, VOID)]
    if n == 'setstate':
        interp.store(st, at(loc, '#st'), C(0))
        return [(st, VOID)]
    if n in ('exceptions', 'tie', 'imbue', 'precision', 'width', 'fill', 'setf', 'unsetf', 'flags'):
        interp.emit(st, 'ext', node, F, q=cal['q'], args=tuple(vals_of(interp, st, cal, vs)), locs=tuple(vs), this=('ptr', loc))
        return [(st, lvr(node, interp.fresh(st, n, node, F)))]
    if n == 'rdbuf':
        return [(st, ('app', 'rdbuf', get(st.facts, interp.load(st, loc), '#buf')))]
    return None


# ---------------------------------------------------------------- paths
def lit_split(v, ext=True):
    """(prefix, last component text) when the tail of the path is literal"""
    s = seq(v)
    if not s[1]:
        return None
    lastit = s[1][-1]
    if lastit[0] != 'l':
        return None
    return s[1][:-1], lastit[1]


def path_join(a, b):
    return cat(cat(a, C('/')), b)


def path_ext(v):
    s = slit(v)
    if s is not None:
        base = s.rsplit('/', 1)[-1]
        return seq(C('.' + base.rsplit('.', 1)[1])) if '.' in base[1:] else EMPTYS
    r = lit_split(v)
    if r and '.' in r[1]:
        return seq(C('.' + r[1].rsplit('.', 1)[1]))
    return ('S', (('b', ('app', 'extension', unwrap(v))),))


def m_path(interp, node, st, F, cal, loc, vs, n):
    v = seq(interp.load(st, loc))
    if n in ('native', 'string', 'c_str', 'generic_string', 'lexically_normal', 'make_preferred', 'path'):
        return [(st, lvr(node, v))]
    if n in ('is_regular_file', 'exists', 'is_directory') and not vs:
        return [(st, boolterm(truth_atom(('app', 'fs:' + n, v))))]
    if n in ('operator std::string', 'operator basic_string'):
        return [(st, v)]
    if n == 'operator=' or n == 'assign':
        w = vs[0]
        w = taken(interp, st, cal, vs, 0, node, F) if w[0] == 'ptr' else w
        interp.write(st, loc, seq(w), node, F)
        return [(st, ('ptr', loc))]
    if n in ('operator/=', 'append'):
        w = arg(interp, st, vs[0])
        interp.write(st, loc, path_join(v, w), node, F)
        return [(st, ('ptr', loc))]
    if n in ('operator+=', 'concat'):
        w = arg(interp, st, vs[0])
        if isint(w):
            w = C(chr(w[1] & 255))
        interp.write(st, loc, cat(v, w), node, F)
        return [(st, ('ptr', loc))]
    if n == 'extension':
        return [(st, path_ext(v))]
    if n in ('replace_extension',):
        w = arg(interp, st, vs[0]) if vs else EMPTYS
        r = lit_split(v)
        if r and '.' in r[1]:
            new = cat(('S', r[0] + (('l', r[1].rsplit('.', 1)[0]),) if r[1].rsplit('.', 1)[0] else r[0]), w)
        else:
            new = cat(('S', (('b', ('app', 'noext', unwrap(v))),)), w)
        interp.write(st, loc, new, node, F)
        return [(st, ('ptr', loc))]
    if n in ('filename', 'stem', 'parent_path', 'root_path', 'relative_path'):
        return [(st, ('S', (('b', ('app', n, unwrap(v))),)))]
    if n == 'empty':
        return [(st, boolterm(atom_eq0(size(v))))]
    if n == 'swap':
        return [(swap(interp, st, loc, vs[0][1], node, F), VOID)]
    return None


# ---------------------------------------------------------------- iterators
def iter_eq(interp, st, a, b):
    if a == b:
        return True
    if a[0] != 'it' or b[0] != 'it':
        return atom_eqv(a, b, False)
    pa, pb = a[2], b[2]
    if pa[0] == 'end' or pb[0] == 'end':
        if pb[0] == 'end':
            pa, pb = pb, pa
        if pb[0] == 'end':
            return True
        if pb[0] == 'key':
            return False
        sz = size(interp.load(st, a[1]))
        return True if pb[1] == sz else atom_eqv(pb[1], sz)
    if pa[0] == 'key' and pb[0] == 'key':
        return atom_eqv(pa[1], pb[1])
    if pa[0] == 'idx' and pb[0] == 'idx':
        return atom_eqv(pa[1], pb[1])
    i = pa if pa[0] == 'idx' else pb
    if i[1] == size(interp.load(st, a[1])):
        return False
    return (('eq',) + tuple(sorted((a, b), key=repr)), True)


def m_iter(interp, node, st, F, cal, loc, vs, n):
    v = interp.load(st, loc)
    if n == 'operator*':
        return [(st, ('ptr', interp.deref(v)))]
    if n == 'operator->':
        return [(st, ('ptr', interp.deref(v)))]
    if n in ('operator++', 'operator--'):
        new = advance(v, C(1 if n == 'operator++' else -1))
        interp.store(st, loc, new)
        interp.emit(st, 'w', node, F, loc=loc, val=new, old=v, op=n[-2:])
        return [(st, v if vs else ('ptr', loc))]
    if n in ('operator+', 'operator-', 'operator+=', 'operator-='):
        d = arg(interp, st, vs[0])
        if d[0] == 'it':
            return [(st, sub(v[2][-1], d[2][-1]))]
        new = advance(v, d if '+' in n else scale(d, -1))
        if n.endswith('='):
            interp.store(st, loc, new)
            return [(st, ('ptr', loc))]
        return [(st, new)]
    if n in ('operator==', 'operator!='):
        r = iter_eq(interp, st, v, arg(interp, st, vs[0]))
        return [(st, boolterm(r if n == 'operator==' else neg(r)))]
    if n == 'operator=':
        w = arg(interp, st, vs[0])
        interp.write(st, loc, w, node, F)
        return [(st, ('ptr', loc))]
    if n == 'operator[]':
        return [(st, ('ptr', interp.deref(advance(v, arg(interp, st, vs[0])))))]
    if n == 'base':
        return [(st, v)]
    return None


# ---------------------------------------------------------------- tuples
def tuple_assign(interp, node, st, F, cal, loc, vs):
    src = arg(interp, st, vs[0])
    raw = interp.rawsub(st, loc)
    if raw is None:
        raw = interp.load(st, loc)
    ismove = cal.get('modes', ['v'])[0] == 'm'
    if raw[0] == 'O' and any(v[0] == 'ref' for _, v in raw[2]):
        for s, v in raw[2]:
            w = get(st.facts, src, s)
            if v[0] == 'ref':
                interp.write(st, v[1], w, node, F)
            else:
                interp.store(st, at(loc, s), w)
    else:
        if src[0] == 'O' and any(v[0] == 'ref' for _, v in src[2]):
            src = ('O', src[1], tuple((s, interp.load(st, v[1]) if v[0] == 'ref' else v) for s, v in src[2]))
        interp.write(st, loc, src, node, F)
    return (st, ('ptr', loc))


# ---------------------------------------------------------------- threads, atomics
def m_thread(interp, node, st, F, cal, loc, vs, n):
    v = interp.load(st, loc)
    if n == 'join':
        interp.emit(st, 'join', node, F, loc=loc, val=v)
        interp.store(st, loc, C('nothread'))
        return [(st, VOID)]
    if n == 'detach':
        interp.emit(st, 'detach', node, F, loc=loc, val=v)
        interp.store(st, loc, C('nothread'))
        return [(st, VOID)]
    if n == 'joinable':
        return [(st, boolterm(truth_atom(('app', 'joinable', v))))]
    if n == 'operator=':
        w = taken(interp, st, cal, vs, 0, node, F)
        interp.write(st, loc, w, node, F)
        return [(st, ('ptr', loc))]
    if n == 'get_id':
        return [(st, ('app', 'tid', v))]
    return generic(interp, node, st, F, cal, ('ptr', loc), vs)


def m_atomic(interp, node, st, F, cal, loc, vs, n):
    v = interp.load(st, loc)
    if n in ('load',) or n.startswith('operator ') :
        interp.emit(st, 'atomic', node, F, op='load', loc=loc, val=v)
        return [(st, v)]
    if n in ('store', 'operator='):
        interp.write(st, loc, arg(interp, st, vs[0]), node, F)
        return [(st, arg(interp, st, vs[0]))]
    if n in ('operator++', 'operator--', 'fetch_add', 'fetch_sub', 'operator+=', 'operator-='):
        d = C(1) if not vs or n in ('operator++', 'operator--') else arg(interp, st, vs[0])
        if '-' in n or 'sub' in n:
            d = scale(d, -1)
        new = add(v, d)
        interp.write(st, loc, new, node, F)
        post = n.startswith('fetch') or (vs and n in ('operator++', 'operator--'))
        return [(st, v if post else new)]
    if n == 'exchange':
        interp.write(st, loc, arg(interp, st, vs[0]), node, F)
        return [(st, v)]
    return None


# ---------------------------------------------------------------- MPI, YAML
def m_mpi(interp, node, st, F, cal, loc, vs, n, f):
    tv = interp.load(st, loc)
    vals = vals_of(interp, st, cal, vs)
    if n in ('send', 'isend'):
        interp.emit(st, 'send', node, F, comm=tv, dest=vals[0], tag=vals[1], vals=tuple(vals[2:]), locs=tuple(vs[2:]),
                    types=tuple(type_name(a) for a in [c for c in node['c'] if c][2:]), isend=n == 'isend')
        return [(st, interp.fresh(st, 'req', node, F) if n == 'isend' else VOID)]
    if n in ('recv', 'irecv'):
        news = []
        for i, v in enumerate(vs[2:]):
            nv = interp.fresh(st, 'recv', node, F, (i,))
            if v[0] == 'ptr':
                interp.store(st, v[1], nv)
            news.append(nv)
        interp.emit(st, 'recv', node, F, comm=tv, src=vals[0], tag=vals[1], vals=tuple(news), locs=tuple(vs[2:]),
                    types=tuple(type_name(a) for a in [c for c in node['c'] if c][2:]), irecv=n == 'irecv')
        return [(st, interp.fresh(st, 'status', node, F))]
    if n in ('probe', 'iprobe'):
        nv = interp.fresh(st, n, node, F)
        interp.emit(st, 'probe', node, F, comm=tv, args=tuple(vals), blocking=n == 'probe', val=nv)
        return [(st, nv)]
    if n == 'abort':
        interp.emit(st, 'abort', node, F, args=tuple(vals), env=f)
        interp.emit(st, 'die', node, F, abort=True)
        interp.abr.append(('dead', st, VOID))
        return []
    if n == 'barrier':
        interp.emit(st, 'barrier', node, F)
        return [(st, VOID)]
    if n in ('rank', 'size', 'tag', 'source', 'error'):
        interp.emit(st, 'ext', node, F, q=cal['q'], args=(), locs=(), this=('ptr', loc))
        return [(st, ('app', 'mpi:' + n, tv))]
    return None


def type_name(e):
    t = deref_t(e.get('t'))
    return strip(t) if t else '?'


def m_yaml(interp, node, st, F, cal, loc, vs, n):
    tv = interp.load(st, loc)
    vals = vals_of(interp, st, cal, vs)
    vals = [interp.load(st, v[1]) if v[0] == 'ptr' else v for v in vals]
    if n == 'operator[]':
        k = vals[0]
        if slit(k) is not None:
            k = C(slit(k))
        at_ = deref_t(([c for c in node['c'] if c] or [{}])[-1].get('t')) or {}
        if at_.get('k') == 'builtin' and not (k[0] == 'c' and isinstance(k[1], str)):
            el = at(loc, ('x', k))
            val = interp.load(st, el)
            interp.emit(st, 'elem', node, F, cont=tv, loc=el, val=val, cloc=loc)
            return [(st, val)]
        return [(st, lvr(node, ('app', 'yaml[]', tv, k)))]
    if n == 'begin':
        return [(st, ('it', loc, ('idx', C(0)), 'x'))]
    if n == 'end':
        return [(st, ('it', loc, ('idx', size(tv)), 'x'))]
    if n == 'size':
        return [(st, interp.unsigned(size(tv), cal.get('rt')))]
    if n in ('operator!', 'operator bool', 'IsDefined'):
        b = boolterm(neg(atom_eq0(('app', 'yaml?', tv))))
        return [(st, b if n != 'operator!' else boolterm(neg(truth_atom(b))))]
    if n == 'as':
        ta = cal.get('targs') or [{}]
        a = ta[0].get('t', ta[0]) if isinstance(ta[0], dict) else {}
        name = strip(a) if isinstance(a, dict) and 'k' in a else strip(cal.get('rt'))
        if vals:
            q = truth_atom(boolterm(neg(atom_eq0(('app', 'yaml?', tv)))))
            out = []
            for x, b in interp.branch(st, q):
                if b:
                    interp.emit(x, 'yamlas', node, F, node_=tv, type=name)
                out.append((x, ('app', 'yaml.as', tv, C(name)) if b else vals[0]))
            return out
        interp.emit(st, 'yamlas', node, F, node_=tv, type=name)
        return [(st, interp.unsigned(('app', 'yaml.as', tv, C(name)), cal.get('rt')))]
    if n == 'operator=':
        w = vals[0]
        if tv[:2] != ('app', 'yaml[]'):
            interp.write(st, loc, w, node, F)
            return [(st, ('ptr', loc))]
        interp.emit(st, 'yamlset', node, F, node_=tv, val=w)
        return [(st, ('ptr', loc))]
    if n == 'push_back':
        interp.emit(st, 'yamlpush', node, F, node_=tv, val=vals[0])
        return [(st, VOID)]
    if n in ('IsMap', 'IsSequence', 'IsScalar', 'IsNull', 'Type', 'Scalar'):
        return [(st, lvr(node, ('app', 'yaml.' + n, tv)))]
    return None


# ---------------------------------------------------------------- free functions
def function(interp, node, st, F, cal, vs):
    q = cal['q']
    n = mname(cal)
    vals = vals_of(interp, st, cal, vs)
    modes = cal.get('modes', [])
    args = [c for c in node['c'] if c]
    if q in EXITS:
        interp.emit(st, 'die', node, F, q=q, args=tuple(vals))
        interp.abr.append(('dead', st, ('exit', vals[0]) if vals else VOID))
        return []
    if q in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof', 'std::__addressof',
             'std::move_if_noexcept', 'boost::ref', 'boost::cref') and len(vs) == 1:
        return [(st, vs[0])]
    if q == 'std::get' and len(vs) == 1:
        i = (cal.get('targs') or [{}])[0]
        i = i.get('v') if isinstance(i, dict) else i
        fam = family(args[0].get('t'))
        s = i if fam != 'std::pair' else ('first', 'second')[i]
        base = vs[0][1] if vs[0][0] == 'ptr' else interp.tmp(st, node, F, vs[0], 'get')
        return [(st, ('ptr', interp.sub(st, base, s)))]
    if q in ('std::tie', 'std::forward_as_tuple'):
        return [(st, ('O', None, tuple((i, ('ref', v[1])) for i, v in enumerate(vs) if v[0] == 'ptr')))]
    if q in ('std::make_tuple', 'std::make_pair'):
        names = ('first', 'second') if q.endswith('pair') else range(len(vs))
        vv = [taken(interp, st, cal, vs, i, node, F) for i in range(len(vs))]
        return [(st, ('O', None, tuple(zip(names, vv))))]
    if q in ('std::make_shared', 'std::make_unique', 'boost::make_shared', 'std::allocate_shared'):
        return make_ptr(interp, node, st, F, cal, vs)
    if q in ('std::dynamic_pointer_cast', 'std::static_pointer_cast', 'std::const_pointer_cast', 'std::reinterpret_pointer_cast'):
        return [(st, vals[0])]
    if q == 'std::swap' and len(vs) == 2:
        return [(swap(interp, st, vs[0][1], vs[1][1], node, F), VOID)]
    if q == 'std::exchange':
        old = interp.load(st, vs[0][1])
        interp.write(st, vs[0][1], taken(interp, st, cal, vs, 1, node, F), node, F, 'exchange')
        return [(st, old)]
    if q in ('std::min', 'std::max') and len(vs) >= 2 and vals[0][0] != 'it':
        out = []
        r = atom_lt(vals[1], vals[0]) if q == 'std::min' else atom_lt(vals[0], vals[1])
        for x, b in interp.branch(st, r):
            out.append((x, (vs[1] if b else vs[0]) if node.get('lv') else (vals[1] if b else vals[0])))
        return out
    if q in ('std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::size', 'std::empty', 'std::rbegin', 'std::rend'):
        t = deref_t(args[0].get('t'))
        fam = family(t)
        c2 = {'q': 'x::' + n, 'rec': fam, 'modes': []}
        if fam in SEQS or fam in ('',):
            r = m_seq(interp, node, st, F, c2, vs[0][1], [], n, t)
        else:
            r = m_assoc(interp, node, st, F, c2, vs[0][1], [], n, t, fam)
        if r is not None:
            return r
    if q in ('std::next', 'std::prev', 'std::advance'):
        d = vals[1] if len(vals) > 1 else C(1)
        if q == 'std::prev':
            d = scale(d, -1)
        if q == 'std::advance':
            interp.store(st, vs[0][1], advance(vals[0], d))
            return [(st, VOID)]
        return [(st, advance(vals[0], d))]
    if q == 'std::distance' and vals[0][0] == 'it' and vals[1][0] == 'it':
        return [(st, sub(vals[1][2][-1], vals[0][2][-1]))]
    r = algorithm(interp, node, st, F, cal, q, n, vs, vals, args)
    if r is not None:
        return r
    if q == 'std::back_inserter' or q == 'std::inserter' or q == 'std::front_inserter':
        return [(st, ('backins', vs[0][1], n))]
    if q in ('std::getline', 'boost::getline'):
        stream_in(interp, st, vs[0][1], vs[1][1], 'str', 'getline', node, F, vals[2:])
        return [(st, ('ptr', vs[0][1]))]
    if n == 'operator<<' and len(vs) == 2 and (family(args[0].get('t')) in STREAMS or 'stream' in strip(args[0].get('t'))):
        v = vals[1]
        if v[0] == 'ptr' and 'char' in strip(args[1].get('t')):
            v = interp.load(st, v[1])
        tag = type_tag(args[1].get('t'))
        if v[0] == 'fn':
            tag = 'manip'
        if 'quoted' in strip(args[1].get('t')) or tag == 'path':
            v = ('app', 'quoted', v)
        stream_out(interp, st, vs[0][1], v, tag, node, F)
        return [(st, vs[0])]
    if n == 'operator>>' and len(vs) == 2:
        stream_in(interp, st, vs[0][1], vs[1][1] if vs[1][0] == 'ptr' else None, type_tag(args[1].get('t')), 'extract', node, F)
        return [(st, vs[0])]
    if q in ('std::endl', 'std::flush', 'std::ends'):
        if vs and vs[0][0] == 'ptr':
            stream_out(interp, st, vs[0][1], ('fn', q, q), 'manip', node, F)
            return [(st, vs[0])]
    if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and len(vs) == 2:
        return compare(interp, node, st, F, n[8:], vals, args)
    if n in ('operator++', 'operator--') and vs and vs[0][0] == 'ptr' and 'iterator' in (family(args[0].get('t')) or strip(args[0].get('t'))):
        return m_iter(interp, node, st, F, cal, vs[0][1], vs[1:], n)
    if n == 'operator+' and len(vs) == 2:
        fs = [family(a.get('t')) for a in args]
        if 'std::string' in fs or any(f in PATHS for f in fs):
            vv = [interp.load(st, v[1]) if v[0] == 'ptr' else v for v in vals]
            vv = [C(chr(v[1] & 255)) if isint(v) else v for v in vv]
            return [(st, cat(vv[0], vv[1]))]
        if vals[0][0] == 'it' or vals[1][0] == 'it':
            a, b = (vals if vals[0][0] == 'it' else (vals[1], vals[0]))
            return [(st, advance(a, b))]
    if n == 'operator-' and vals and vals[0][0] == 'it' and vals[-1][0] == 'it':
        return [(st, sub(vals[0][2][-1], vals[1][2][-1]))]
    if n == 'operator/' and len(vs) == 2 and any(family(a.get('t')) in PATHS for a in args):
        vv = [interp.load(st, v[1]) if v[0] == 'ptr' else v for v in vals]
        return [(st, path_join(vv[0], vv[1]))]
    if n in ('operator|', 'operator&', 'operator^') and len(vs) == 2 and isint(vals[0]) and isint(vals[1]):
        return [(st, arith(n[8:], vals[0], vals[1]))]
    if n in ('operator|', 'operator&', 'operator^') and len(vs) == 2:
        return [(st, ('app', n) + tuple(sorted(vals, key=repr)))]
    if q == 'std::to_string':
        return [(st, fmt(vals[0], type_tag(args[0].get('t'))))]
    if q.endswith('filesystem::rename'):
        interp.emit(st, 'rename', node, F, src=seq(vals[0]), dst=seq(vals[1]))
        interp.emit(st, 'ext', node, F, q=q, args=tuple(vals), locs=tuple(vs), this=None)
        return [(st, VOID)]
    if 'filesystem::' in q and n in ('is_regular_file', 'exists', 'is_directory', 'file_size', 'is_empty'):
        interp.emit(st, 'ext', node, F, q=q, args=tuple(vals), locs=tuple(vs), this=None)
        return [(st, boolterm(truth_atom(('app', 'fs:' + n, vals[0]))))]
    if 'filesystem::' in q and n in ('remove', 'remove_all', 'create_directories', 'create_directory', 'copy_file', 'resize_file', 'copy'):
        interp.emit(st, 'fs', node, F, op=n, args=tuple(vals))
        interp.emit(st, 'ext', node, F, q=q, args=tuple(vals), locs=tuple(vs), this=None)
        return [(st, interp.fresh(st, n, node, F))]
    if q in ('std::remove', 'remove', 'unlink', 'rename', 'std::rename') and len(args) <= 2 and args and 'char' in strip(args[0].get('t')):
        vv = [interp.load(st, v[1]) if v[0] == 'ptr' else v for v in vals]
        if n == 'rename':
            interp.emit(st, 'rename', node, F, src=seq(vv[0]), dst=seq(vv[1]))
        else:
            interp.emit(st, 'fs', node, F, op='remove', args=tuple(vv))
        return [(st, interp.fresh(st, n, node, F))]
    if q in ('std::this_thread::sleep_for', 'std::this_thread::sleep_until', 'sleep', 'usleep', 'std::this_thread::yield'):
        interp.emit(st, 'sleep', node, F, q=q, args=tuple(vals))
        return [(st, VOID)]
    if q == 'boost::mpi::broadcast':
        tgt = vs[1]
        root = vals[2] if len(vals) > 2 else C(0)
        old = vals[1]
        interp.emit(st, 'bcast', node, F, comm=vals[0], val=old, loc=tgt[1] if tgt[0] == 'ptr' else None, root=root,
                    types=(type_name(args[1]),))
        if tgt[0] == 'ptr':
            interp.store(st, tgt[1], ('app', 'bcast', old, interp.fresh(st, 'bcast', node, F)))
        return [(st, VOID)]
    if q.startswith('boost::mpi::'):
        interp.emit(st, 'mpi', node, F, q=q, args=tuple(vals))
    if q.startswith('std::lock') and q == 'std::lock':
        for v in vs:
            l = v[1]
            lv = interp.load(st, l)
            if lv[0] == 'lk':
                for m, o in lk_parts(lv):
                    lock(interp, st, m, node, F)
                interp.store(st, l, ('lk', tuple((m, True) for m, o in lk_parts(lv))))
            else:
                lock(interp, st, l, node, F)
        return [(st, VOID)]
    if q.startswith('std::chrono') and n == 'now':
        return [(st, interp.fresh(st, 'now', node, F))]
    if n in ('pow', 'ceil', 'floor', 'sqrt', 'abs', 'log') and (q.startswith('std::') or '::' not in q):
        if q in ('std::abs', 'abs') and isint(vals[0]):
            return [(st, C(abs(vals[0][1])))]
        if n == 'pow' and isint(vals[0]) and isint(vals[1]):
            return [(st, C(float(vals[0][1] ** vals[1][1])))]
        return [(st, ('app', 'std::' + n) + tuple(vals))]
    if cal.get('noret'):
        interp.emit(st, 'die', node, F, q=q, args=tuple(vals))
        interp.abr.append(('dead', st, VOID))
        return []
    if is_flint(q):
        return flint(interp, node, st, F, cal, q, vs, vals, modes)
    return generic(interp, node, st, F, cal, None, vs)


def make_ptr(interp, node, st, F, cal, vs):
    t = (cal.get('targs') or [{}])[0]
    t = t.get('t', t) if isinstance(t, dict) else {}
    root = interp.heap(st, node, F)
    rec = t.get('rec') if isinstance(t, dict) and t.get('k') == 'rec' else None
    if rec in interp.recs:
        cands = [c for c in interp.ctors(rec) if len([p for p in c['params'] if not p.get('def')]) <= len(vs) <= len(c['params'])]
        cands = rank_ctors(interp, st, cands, vs, node)
        if cands and not (cands[0].get('implicit')):
            fn = cands[0]
            # every argument came by forwarding reference
            avs = []
            for i, p in enumerate(fn['params'][:len(vs)]):
                v = vs[i]
                isref = p['t'] and p['t']['k'] in ('lref', 'rref')
                if isref:
                    avs.append(v if v[0] == 'ptr' else ('ptr', interp.tmp(st, node, F, v, 'mk%d' % i)))
                else:
                    x = interp.load(st, v[1]) if v[0] == 'ptr' else v
                    avs.append(x)
            outs = interp.construct_fn(fn, st, F, (root, ()), avs, node, rec)
            for x in outs:
                interp.emit(x, 'new', node, F, loc=(root, ()), t=rec, array=False, smart=True)
            return [(x, ('ptr', (root, ()))) for x in outs]
        if vs and len(vs) == 1 and vs[0][0] == 'ptr':
            st.mem[root] = interp.load(st, vs[0][1])
        else:
            st.mem[root] = default_value(interp, st, t, None, F, (root, ()))
        interp.emit(st, 'ctor', node, F, q='%s::%s' % (rec, rec), rec=rec, loc=(root, ()), args=tuple(arg(interp, st, v) for v in vs),
                    locs=tuple(vs), inl=True, fnid='')
        interp.emit(st, 'new', node, F, loc=(root, ()), t=rec, array=False, smart=True)
        return [(st, ('ptr', (root, ())))]
    out = []
    for x, v in build(interp, st, t, vs, node, F, 'mk') if t else [(st, UNDEF)]:
        x.mem[root] = v
        interp.emit(x, 'new', node, F, loc=(root, ()), t=str(rec), array=False, smart=True)
        out.append((x, ('ptr', (root, ()))))
    return out


def deref_parts(interp, st, v):
    """A tuple of references as a tuple of values."""
    if v[0] == 'O' and v[1] is None and any(x[0] == 'ref' for _, x in v[2]):
        return ('O', None, tuple((s, interp.load(st, x[1]) if x[0] == 'ref' else x) for s, x in v[2]))
    return v


def parts_of(v):
    return [s for s, _ in v[2]] if v[0] == 'O' and v[1] is None else None


def compare(interp, node, st, F, op, vals, args):
    a, b = (deref_parts(interp, st, v) for v in vals)
    if op in ('<', '>', '<=', '>=') and parts_of(a) is not None and parts_of(a) == parts_of(b) and \
            any(family(e.get('t')) in TUPLES for e in args):
        # lexicographic
        if op in ('>', '<='):
            a, b = b, a
        ats = targs(deref_t(args[0].get('t')))
        todo, out = [st], []
        for i, (s_, x) in enumerate(a[2]):
            y = get({}, b, s_)
            num = i < len(ats) and (deref_t(ats[i]) or {}).get('k') in ('builtin', 'enum', 'ptr')
            nxt = []
            for z in todo:
                for w, lt in interp.branch(z, atom_lt(x, y) if num else (('ltv', x, y), True) if x != y else False):
                    if lt:
                        out.append((w, True))
                    else:
                        for u, eq in interp.branch(w, atom_eqv(x, y, num)):
                            if eq:
                                nxt.append(u)
                            else:
                                out.append((u, False))
            todo = nxt
        out += [(z, False) for z in todo]
        return [(z, C(int(r == (op in ('<', '>'))))) for z, r in out]
    if op in ('==', '!='):
        if a[0] == 'it' or b[0] == 'it':
            r = iter_eq(interp, st, a, b)
        elif a[0] == 'O' and b[0] == 'O' and a[1] is None and b[1] is None and [s for s, _ in a[2]] == [s for s, _ in b[2]]:
            # componentwise
            sts = [(st, True)]
            for (s_, x), (_, y) in zip(a[2], b[2]):
                nxt = []
                for z, ok in sts:
                    if not ok:
                        nxt.append((z, False))
                        continue
                    nxt += interp.branch(z, atom_eqv(x, y))
                sts = nxt
            return [(z, C(int(ok == (op == '==')))) for z, ok in sts]
        else:
            num = all((deref_t(e.get('t')) or {}).get('k') in ('builtin', 'enum', 'ptr') for e in args) or a == NULL or b == NULL or \
                any(family(e.get('t')) in SMART for e in args)
            if all(family(e.get('t')) in SMART for e in args if family(e.get('t'))):
                num = True
            r = atom_eqv(a, b, num)
        return [(st, boolterm(r if op == '==' else neg(r)))]
    if a[0] == 'it' and b[0] == 'it':
        return [(st, interp.compare(op, a, b))]
    if op == '>':
        a, b, op = b, a, '<'
    if op == '<=':
        return [(st, boolterm(neg((('ltv', b, a), True))) if a != b else C(1))]
    if op == '>=':
        return [(st, boolterm(neg((('ltv', a, b), True))) if a != b else C(1))]
    if a == b:
        return [(st, C(0))]
    return [(st, boolterm((('ltv', a, b), True)))]


# ---------------------------------------------------------------- algorithms
def over(interp, node, st, F, a, b, body, tag=''):
    """Runs body(state, element location) for the elements of the iterator range [a, b) that starts at the
    beginning; returns loop outcomes."""
    loc = a[1]
    kind = a[3]
    ivroot = ('t', interp.uid(node), F.fid, 'iv' + tag)
    st.mem[ivroot] = a[2][1]
    rev = kind == 'rx'

    def cond(x):
        return [(y, not c) for y, c in interp.branch(x, atom_eqv(x.mem[ivroot], b[2][1]))]

    def bodyf(x):
        k = 'x' if rev else kind
        sel = (k, x.mem[ivroot])
        cont = interp.load(x, loc)
        if k in ('n', 'sx'):
            interp.assume(x, (('has', unwrap(mp(cont)), elem_key(cont, sel)), True))
        eloc = at(loc, sel)
        interp.emit(x, 'elem', node, F, cont=cont, loc=eloc, val=interp.load(x, eloc), cloc=loc)
        return body(x, eloc)

    def inc(x):
        x.mem[ivroot] = add(x.mem[ivroot], C(-1 if rev else 1))
        return [('n', x, VOID)]
    outs = interp.loop(st, node, F, cond, bodyf, inc)
    for k, x, v in outs:
        x.mem.pop(ivroot, None)
    return outs


def algorithm(interp, node, st, F, cal, q, n, vs, vals, args):
    if not q.startswith('std::') or len(vals) < 2 or vals[0][0] != 'it' or vals[1][0] != 'it':
        return None
    if vals[0][2][0] == 'idx' and vals[1][2][0] == 'end':
        vals = [vals[0], ('it', vals[0][1], ('idx', size(interp.load(st, vals[0][1]))), vals[0][3])] + list(vals[2:])
    if vals[0][2][0] != 'idx' or vals[1][2][0] != 'idx':
        return None
    a, b = vals[0], vals[1]

    def fun(v):
        return v if v[0] in ('lam', 'fn') else None
    f = None
    for v, raw in zip(vals[2:], vs[2:]):
        if fun(v):
            f = v
    if n in ('for_each', 'all_of', 'any_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'find', 'count', 'transform',
             'accumulate', 'remove_if') and (f is not None or n in ('find', 'count', 'accumulate')):
        if n == 'remove_if':
            return None
        res = ('t', interp.uid(node), F.fid, 'acc')
        if n in ('count_if', 'count'):
            st.mem[res] = C(0)
        if n == 'accumulate':
            st.mem[res] = vals[2]
        ivroot = ('t', interp.uid(node), F.fid, 'iv')

        def body(x, eloc):
            out = []
            if n == 'accumulate':
                if f is None:
                    x.mem[res] = arith('+', x.mem[res], interp.load(x, eloc))
                    return [('n', x, VOID)]
                for y, v in interp.call_value(f, x, [x.mem[res], ('ptr', eloc)], node, F) or []:
                    y.mem[res] = v
                    out.append(('n', y, VOID))
                return out
            if f is None:
                rs = [(x, boolterm(atom_eqv(interp.load(x, eloc), vals[2])))]
            else:
                rs = interp.call_value(f, x, [('ptr', eloc)], node, F)
                if rs is None:
                    interp.emit(x, 'ext', node, F, q='?', args=(), locs=(), this=None)
                    rs = [(x, interp.fresh(x, '?', node, F))]
            if n == 'for_each':
                return [('n', y, VOID) for y, v in rs]
            if n == 'transform':
                for y, v in rs:
                    assign_out(interp, y, vals[2], v, node, F)
                    out.append(('n', y, VOID))
                return out
            for y, v in rs:
                for z, t in interp.branch(y, truth_atom(v)):
                    if n in ('count', 'count_if'):
                        if t:
                            z.mem[res] = add(z.mem[res], C(1))
                        out.append(('n', z, VOID))
                    elif n == 'all_of':
                        out.append(('n', z, VOID) if t else ('ret', z, C(0)))
                    elif n == 'any_of':
                        out.append(('ret', z, C(1)) if t else ('n', z, VOID))
                    elif n == 'none_of':
                        out.append(('ret', z, C(0)) if t else ('n', z, VOID))
                    else:
                        hit = t if n in ('find_if', 'find') else not t
                        it = ('it', a[1], ('idx', z.mem[ivroot]), a[3])
                        out.append(('ret', z, it) if hit else ('n', z, VOID))
            return out
        fin = {'all_of': C(1), 'any_of': C(0), 'none_of': C(1), 'find_if': b, 'find_if_not': b, 'find': b}.get(n, VOID)
        out = []
        for k, x, v in over(interp, node, st, F, a, b, body):
            acc = x.mem.pop(res, None)
            if k == 'n':
                out.append((x, acc if acc is not None else fin))
            elif k == 'ret':
                out.append((x, v))
            else:
                interp.abr.append((k, x, v))
        return out
    if n in ('copy', 'move') and len(vals) == 3:
        r = range_value(interp, st, a, b)
        d = vals[2]
        if d[0] == 'backins':
            old = interp.load(st, d[1])
            if old[0] == 'M':
                cop(interp, st, 'insert_all', d[1], (unwrap(r),), ('M', ('app', 'union', unwrap(old), unwrap(r)), ()), node, F)
            else:
                cop(interp, st, 'append', d[1], (r,), cat(old, r), node, F)
            return [(st, d)]
    if n in ('sort', 'stable_sort', 'reverse', 'unique', 'shuffle', 'rotate', 'fill', 'iota'):
        v = interp.load(st, a[1])
        new = ('S', (('b', ('app', n, unwrap(v)) + tuple(x for x in vals[2:] if x[0] != 'lam')),))
        cop(interp, st, n, a[1], tuple(vals[2:]), new, node, F)
        return [(st, b if n == 'unique' else VOID)]
    if n == 'equal' and len(vals) >= 3 and vals[2][0] == 'it':
        r1 = range_value(interp, st, a, b)
        r2 = interp.load(st, vals[2][1])
        return [(st, boolterm(atom_eqv(unwrap(r1), unwrap(r2), False)))]
    if n in ('set_union', 'merge') and len(vals) >= 5 and vals[4][0] == 'backins':
        r1, r2 = range_value(interp, st, a, b), range_value(interp, st, vals[2], vals[3])
        cop(interp, st, 'append', vals[4][1], (r1, r2), ('S', (('b', ('app', n, unwrap(r1), unwrap(r2))),)), node, F)
        return [(st, vals[4])]
    return None


def assign_out(interp, st, d, v, node, F):
    if d[0] == 'backins':
        old = interp.load(st, d[1])
        if old[0] == 'M' and d[2] == 'inserter':
            cop(interp, st, 'insert', d[1], (v,), put_key(old, v, C(1)), node, F)
        else:
            cop(interp, st, 'push_back', d[1], (v,), ('S', seq(old)[1] + (('e', v),)), node, F)
    elif d[0] == 'it':
        interp.write(st, interp.deref(d), v, node, F)


# ---------------------------------------------------------------- FLINT
FL = re.compile(r'^_?(fmpz|fq|nmod|n_|fq_nmod|fq_zech|flint)_?')
UPD = re.compile(r'(_set_coeff|_randtest|_neg_inplace|_addmul|_submul|_combit|_setbit)')


def is_flint(q):
    return bool(re.match(r'^_?(fmpz_|fq_|nmod_|n_|flint_)', q)) and '::' not in q


def flint(interp, node, st, F, cal, q, vs, vals, modes):
    interp.emit(st, 'ext', node, F, q=q, args=tuple(interp.load(st, v[1]) if v[0] == 'ptr' else v for v in vs), locs=tuple(vs), this=None,
                flint=True, modes=tuple(modes))

    def L(i):
        return interp.load(st, interp.deref(vs[i]))

    def S(i, v):
        interp.write(st, interp.deref(vs[i]), v, node, F, q)
        return [(st, VOID)]
    if q == 'fmpz_init':
        return S(0, C(0))
    if q in ('fmpz_init_set', 'fmpz_set'):
        return S(0, L(1))
    if q in ('fmpz_init_set_ui', 'fmpz_set_ui', 'fmpz_set_si', 'fmpz_init_set_si'):
        return S(0, vs[1])
    if q == 'fmpz_zero':
        return S(0, C(0))
    if q == 'fmpz_one':
        return S(0, C(1))
    if q in ('fmpz_add', 'fmpz_sub', 'fmpz_mul'):
        return S(0, arith({'a': '+', 's': '-', 'm': '*'}[q[5]], L(1), L(2)))
    if q in ('fmpz_add_ui', 'fmpz_sub_ui', 'fmpz_mul_ui', 'fmpz_add_si', 'fmpz_mul_si', 'fmpz_sub_si'):
        return S(0, arith({'a': '+', 's': '-', 'm': '*'}[q[5]], L(1), vs[2]))
    if q in ('fmpz_addmul_ui', 'fmpz_addmul_si'):
        return S(0, add(L(0), mul(L(1), vs[2])))
    if q == 'fmpz_addmul':
        return S(0, add(L(0), mul(L(1), L(2))))
    if q == 'fmpz_mul_2exp':
        return S(0, arith('<<', L(1), vs[2]))
    if q in ('fmpz_divexact_ui', 'fmpz_tdiv_q_ui', 'fmpz_fdiv_q_ui', 'fmpz_divexact_si'):
        return S(0, arith('/', L(1), vs[2]))
    if q in ('fmpz_divexact', 'fmpz_fdiv_q', 'fmpz_tdiv_q'):
        return S(0, arith('/', L(1), L(2)))
    if q in ('fmpz_fdiv_q_2exp', 'fmpz_tdiv_q_2exp'):
        return S(0, arith('>>', L(1), vs[2]))
    if q == 'fmpz_neg':
        return S(0, scale(L(1), -1))
    if q == 'fmpz_swap':
        a, b = L(0), L(1)
        S(0, b)
        return S(1, a)
    if q == 'fmpz_set_str':
        S(0, ('app', 'fmpz_str', interp.load(st, vs[1][1]) if vs[1][0] == 'ptr' else vs[1], vs[2]))
        return [(st, interp.fresh(st, q, node, F))]
    if q == 'fmpz_get_str':
        return [(st, ('app', 'fmpz_text', L(2), vs[1]))]
    if q in ('fmpz_get_ui', 'fmpz_get_si'):
        return [(st, L(0))]
    if q == 'fmpz_equal':
        return [(st, boolterm(atom_eqv(L(0), L(1))))]
    if q in ('fmpz_equal_ui', 'fmpz_equal_si'):
        return [(st, boolterm(atom_eqv(L(0), vs[1])))]
    if q == 'fmpz_is_zero':
        return [(st, boolterm(atom_eq0(L(0))))]
    if q == 'fmpz_cmp' or q == 'fmpz_cmp_ui':
        return [(st, ('app', 'cmp', L(0), L(1) if q == 'fmpz_cmp' else vs[1]))]
    ins = []
    for v, m in zip(vs, list(modes) + ['v'] * len(vs)):
        if m in ('cp', 'v', 'c'):
            ins.append(interp.load(st, v[1]) if v[0] == 'ptr' else v)
    ins = tuple(ins)
    if re.search(r'_clear$|^flint_free$|_cleanup$', q):
        return [(st, VOID)]
    for i, (v, m) in enumerate(zip(vs, modes)):
        if m == 'p' and v[0] in ('ptr', 'it') or (m == 'p' and v[0] not in ('c',)):
            l = interp.deref(v)
            if re.match(r'fq(_\w+)?_reduce$', q) and i == 0:
                new = interp.load(st, l)      # the same element, in the form that is unique
            elif UPD.search(q):
                new = ('app', q, interp.load(st, l)) + ins
                if 'rand' in q:
                    new = interp.fresh(st, q, node, F, (i,))
            elif re.search(r'_init\d?$', q):
                new = ('app', q) + ins
            else:
                new = ('app', q + ('#%d' % i if i else '')) + ins
            interp.write(st, l, new, node, F, q)
    rt = cal.get('rt')
    if rt and rt.get('s') == 'void':
        return [(st, VOID)]
    v = ('app', q) + ins
    interp.unsigned(v, rt)
    return [(st, lvr(node, v))]


# ---------------------------------------------------------------- anything else
PURE = re.compile(r'^(std::|YAML::|boost::)')
IMPURE = {'rand', 'random', 'time', 'std::rand', 'std::time', 'getenv'}


def generic(interp, node, st, F, cal, this, vs):
    """An unknown external function: a pure function of its inputs unless it can write something."""
    q = cal['q']
    n = mname(cal)
    modes = list(cal.get('modes', []))
    vals = []
    for i, v in enumerate(vs):
        m = modes[i] if i < len(modes) else 'v'
        vals.append(interp.load(st, v[1]) if m in ('r', 'c', 'm', 'cp') and v[0] == 'ptr' else v)
    vals = tuple(vals)
    tv = None
    if this is not None:
        tv = interp.load(st, this[1])
    interp.emit(st, 'ext', node, F, q=q, args=vals, locs=tuple(vs), this=this, thisval=tv)
    if n == 'operator=' and this is not None and len(vs) == 1:
        interp.write(st, this[1], vals[0], node, F)
        return [(st, this)]
    writes = [i for i in range(len(vs)) if (modes[i] if i < len(modes) else 'v') in ('r', 'p') and vs[i][0] == 'ptr']
    mut = this is not None and not cal.get('cm') and not cal.get('static')
    rand = 'distribution' in q or q in IMPURE or 'random' in q
    if not writes and not mut and not rand:
        v = ('app', q) + ((tv,) if tv is not None else ()) + vals
        rt = cal.get('rt')
        if rt and rt['k'] != 'lref':
            interp.unsigned(v, rt)
        return [(st, lvr(node, v))]
    v = interp.fresh(st, q, node, F)
    for i in writes:
        l = vs[i][1]
        if l[0][0] == 'g' and l[0][1].startswith('std::'):
            continue
        interp.write(st, l, interp.fresh(st, 'out:' + q, node, F, (i,)), node, F, q)
    if mut and not rand:
        interp.store(st, this[1], ('upd', q, tv, interp.fresh(st, 'upd:' + q, node, F)))
    rt = cal.get('rt')
    if rt and rt['k'] in ('lref', 'rref') and this is not None and strip(rt) == (cal.get('rec') or ''):
        return [(st, this)]
    if rt and rt['k'] != 'lref':
        interp.unsigned(v, rt)
    return [(st, lvr(node, v))]
