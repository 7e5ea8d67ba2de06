"""Agreement of a writer of text with its reader.  The output events of the writer form a grammar (literals,
labelled fields, loops); the input events of the reader form a transducer over it (formatted extraction, lines,
peeked characters).  Their product is explored to a fixpoint: texts are suffixes of the grammar, so there are
finitely many states, and every loop count is covered.  No program is run and no values are chosen: a field is
known only by its type and by the term that the writer printed."""
from lib import *

INT = re.compile(r'^[iu](8|16|32|64)$')
INF = float('inf')
WS = ' \n\t\r\v\f'
DIG = frozenset([45] + list(range(48, 58)))
HARMLESS = ('flush', 'dec', 'skipws', 'ws', 'unitbuf', 'nounitbuf')


def holds(outer, inner):
    """Does the integer type outer hold all values of inner?"""
    so, bo, si, bi = outer[0], int(outer[1:]), inner[0], int(inner[1:])
    if so == si:
        return bo >= bi
    return so == 'i' and bo > bi


# ------------------------------------------------------------------------------------------ the writer
class Grammar:
    def __init__(s, ctx, loc, main, drop):
        s.ctx, s.loc, s.main, s.drop = ctx, loc, main, drop
        s.loops, s.ids, s.memo = [], {}, {}
        s.fields, s.format = {}, None

    def items(s, evs):
        out = []
        for e in evs:
            if e.kind == 'loop':
                if any(x.kind in ('out', 'manip') and x.a['loc'] == s.loc for a in e.a['alts'] for x in flat(a.events)):
                    k = id(e)
                    if k not in s.ids:
                        s.ids[k] = len(s.loops)
                        s.loops.append(e)
                    out.append(('L', s.ids[k], 0, True))
            elif e.kind == 'manip' and e.a['loc'] == s.loc:
                q = e.a['val'][2] if e.a['val'][0] == 'fn' else '?'
                if str(q).split('::')[-1] in ('hex', 'oct', 'std::hex', 'std::oct', 'showpos', 'boolalpha', 'showbase'):
                    s.format = e
                elif str(q).split('::')[-1] not in HARMLESS:
                    raise Broken('output changes its format by %s at %s' % (show(e.a['val']), e.where()))
            elif e.kind == 'out' and e.a['loc'] == s.loc:
                out += s.value(e.a['val'], e.a['tag'], e)
        return tuple(out)

    def value(s, v, tag, e):
        if v[0] == 'S':
            r = []
            for x in v[1]:
                if x[0] == 'l':
                    r.append(('l', x[1]))
                elif x[0] == 'f':
                    r += s.value(x[1], x[2], e)
                elif x[0] == 'b' and x[1][0] == 'app' and x[1][1] == 'fmpz_text':
                    r += s.field(x[1][2], ('big', x[1][3]), e)
                elif x[0] == 'b':
                    r += s.field(x[1], 'str', e)
                else:
                    raise Broken('output of %s at %s is not understood' % (show(v), e.where()))
            return r
        if v[0] == 'c':
            if isinstance(v[1], str):
                return [('l', v[1])] if v[1] else []
            if isinstance(v[1], int) and tag == 'char':
                return [('l', chr(v[1]))]
            if isinstance(v[1], int) and INT.match(tag or ''):
                return [('l', str(v[1]))]
        if v[0] == 'app' and v[1] == 'fmpz_text':
            return s.field(v[2], ('big', v[3]), e)
        return s.field(v, tag, e)

    def field(s, v, tag, e):
        s.fields.setdefault((v, tag), e)
        return [('f', v, tag)]

    def alt(s, a, le, lid):
        k = id(a)
        if k not in s.memo:
            it = s.items(a.events)
            el = element(le, a, s.main)
            if el is not None:
                it = (('B', el),) + it
            s.memo[k] = it
        return s.memo[k]

    def step(s, item, rest):
        """The texts that a loop item stands for."""
        lid, node, first = item[1], item[2], item[3]
        le = s.loops[lid]
        out = []
        if node == le.a['head'] and (not first or le.a['zero'] and s.skippable(le)):
            out.append(rest)
        for a in le.a['alts']:
            if a.src == node and not s.drop(a.facts) and s.timely(le, a, first):
                out.append(norm(s.alt(a, le, lid) + (('L', lid, a.dst, False),) + rest))
        return out

    def skippable(s, le):
        """May the loop end before its first iteration, if some sequences are not empty?"""
        L = le.a['loop']
        for f, v in le.a['xfacts'].items():
            if f[0] not in ('eqk', 'le'):
                continue
            lo = hi = 0
            for t, c in f[1]:
                if t[0] == 'iv' and t[1] == L.marker and L.start.get(t[2]) is not None and isint(L.start[t[2]]):
                    lo, hi = lo + c * L.start[t[2]][1], hi + c * L.start[t[2]][1]
                elif t[0] == 'size':
                    least = 1 if s.drop({('eqk', ((t, 1),), 0): True}) else 0
                    lo, hi = (lo + c * least, INF) if c > 0 else (-INF, hi + c * least)
                else:
                    lo, hi = -INF, INF
            if f[0] == 'eqk' and v and not lo <= f[2] <= hi or f[0] == 'le' and v and lo > f[2] or f[0] == 'le' and not v and hi <= f[2]:
                return False
        return True

    def timely(s, le, a, first):
        """Can the alternative be taken in the first (or in a later) iteration, given what it says about the
        index of the loop?"""
        L = le.a['loop']
        for f, v in a.facts.items():
            if f[0] not in ('eqk', 'le') or len(f[1]) != 1:
                continue
            (t, c), k = f[1][0], f[2]
            if t[0] != 'iv' or t[1] != L.marker or L.step.get(t[2]) is None:
                continue
            b, d = L.start.get(t[2]), L.step[t[2]]
            if b is None or not isint(b):
                continue
            ok = lambda x: ((c * x == k) if f[0] == 'eqk' else (c * x <= k)) == v
            if first and not ok(b[1]):
                return False
            if not first and not any(ok(b[1] + d * j) for j in range(1, 4)):
                return False
        return True

    def heads(s, text):
        """All ways to make the first character or field of the text explicit: (element marks, text)."""
        out, seen, todo = [], set(), [((), norm(text))]
        while todo:
            marks, t = todo.pop()
            while t and t[0][0] == 'B':
                marks, t = marks + (t[0][1],), t[1:]
            if (marks, t) in seen or len(marks) > 3:
                continue
            seen.add((marks, t))
            if t and t[0][0] == 'L':
                todo += [(marks, x) for x in s.step(t[0], t[1:])]
            else:
                out.append((marks, t))
        return out


def norm(t):
    out = []
    for x in t:
        if x[0] == 'l':
            if not x[1]:
                continue
            if out and out[-1][0] == 'l':
                out[-1] = ('l', out[-1][1] + x[1])
                continue
        out.append(x)
    return tuple(out)


def element(le, a, main):
    """The element of the main container that an iteration of the loop treats: its key as a term."""
    for e in a.events:
        if e.kind == 'elem' and unbase(e.a['cont']) == main:
            for t in subterms(e.a['val']):
                if t[0] == 'key' and t[1] == main:
                    return t
    for e in a.events:
        if e.kind == 'out':
            for t in subterms(e.a['val']):
                if len(t) > 2 and t[0] == 'key' and t[1] == main and linear(le, t[2]):
                    return t
    return None


def keyed(t, main):
    for x in subterms(t):
        if x[0] == 'key' and x[1] == main:
            return x
    return None


def start_of(le, t):
    """The constant at which an index of the loop starts if it then grows by one, else None."""
    L = le.a['loop']
    if t[0] == 'iv' and t[1] == L.marker:
        st = L.start.get(t[2])
        if L.step.get(t[2]) == 1 and st is not None and isint(st):
            return st[1]
        return None
    if t[0] == 'w' and linear(le, t):
        return 0
    return None


def starts_at(le, n):
    L = le.a['loop']
    return [('iv', L.marker, k) for k, v in L.start.items() if v == C(n) and L.step.get(k) == 1]


def exhausted(le, c, t):
    """Do the exit facts say that the index t of the loop reached the size of c?"""
    xf = le.a['xfacts']
    return test(xf, atom_eqv(t, size(c))) is True or test(xf, atom_lt(t, size(c))) is False


def in_order(evs, facts, c, labels, loc):
    """Along one trace: are the elements of the sequence c printed completely and in order, every component
    once?  (ok, reason)."""
    def comps(t):
        """(index, component path) if t is part of an element of c"""
        path = []
        while t[0] == 'fld':
            if t[1] == c and isinstance(t[2], tuple) and t[2][0] == 'x':
                return t[2][1], tuple(reversed(path))
            path.append(t[2])
            t = t[1]
        return None
    nxt, done, shape = 0, False, None
    part = set()
    for e in evs:
        if e.kind == 'out' and e.a['loc'] == loc:
            for t in labels(e):
                ic = comps(t)
                if ic is None:
                    continue
                if ic[0] != C(nxt) and ic[0] == C(nxt + 1) and part:
                    nxt, part = nxt + 1, set()
                if ic[0] != C(nxt) or done or ic[1] in part:
                    return False, 'prints element %s where element %d is due' % (show(ic[0]), nxt)
                part.add(ic[1])
        elif e.kind == 'loop':
            mine = [comps(t) for x in flat([e]) if x.kind == 'out' and x.a['loc'] == loc for t in labels(x)]
            mine = [m for m in mine if m]
            if not mine:
                continue
            if part:
                nxt, part = nxt + 1, set()
            idx = {m[0] for m in mine}
            if len(idx) != 1 or done:
                return False, 'prints several elements in one step of a loop' if not done else 'prints elements after the last one'
            i = idx.pop()
            if start_of(e, i) != nxt:
                return False, 'a loop prints from element %s on where element %d is due' % (start_of(e, i), nxt)
            if not exhausted(e, c, i):
                return False, 'the loop that prints the elements does not run to the end'
            for a in e.a['alts']:
                got = [comps(t) for x in a.events if x.kind == 'out' and x.a['loc'] == loc for t in labels(x)]
                got = [g[1] for g in got if g]
                if len(set(got)) != len(got) or (shape is not None and set(got) != shape) or not got:
                    return False, 'an iteration prints %d parts of its element' % len(got)
                shape = set(got)
            done = True
    if part:
        nxt += 1
    if not done and any(e.kind == 'loop' and not e.a['alts'] and any(exhausted(e, c, t) for t in starts_at(e, nxt)) for e in evs):
        return True, ''
    if not done and test(facts, atom_eqv(size(c), C(nxt))) is not True and test(facts, atom_lt(C(nxt), size(c))) is not False:
        return False, 'only the first %d elements are printed' % nxt
    return True, ''


# ------------------------------------------------------------------------------------------ the reader
class Env:
    __slots__ = ('streams', 'strs', 'nums', 'vals', 'fresh', 'due', 'vars')

    def __init__(s):
        s.streams, s.strs, s.nums, s.vals, s.fresh, s.due, s.vars = {}, {}, {}, {}, (), None, {}

    def copy(s):
        e = Env()
        e.streams, e.strs, e.nums, e.vals = dict(s.streams), dict(s.strs), dict(s.nums), dict(s.vals)
        e.fresh, e.due, e.vars = s.fresh, s.due, dict(s.vars)
        return e

    def key(s):
        f = lambda d: frozenset(d.items())
        return (f(s.streams), f(s.strs), f(s.nums), f(s.vals), s.fresh, s.due, f(s.vars))


class Reader:
    def __init__(s, ctx, G, name, loc, result, rule):
        s.ctx, s.G, s.name, s.loc, s.result, s.rule = ctx, G, name, loc, result, rule
        s.states = 0
        s.pushmap = {}
        s.stored = set()
        s.taken = set()

    def bad(s, rule, key, e, what, why):
        s.ctx.ob(False, rule, '%s: %s' % (s.name, key), e, what, why)

    # ---- facts
    def possible(s, facts, env):
        for a, v in facts.items():
            if a[0] in ('eqk', 'le') and len(a[1]) == 1:
                (t, f), k = a[1][0], a[2]
                d = env.nums.get(t)
                if d is None:
                    continue
                rs = {(f * x == k) if a[0] == 'eqk' else (f * x <= k) for x in d}
                if v not in rs:
                    return False
            elif a[0] in ('truth', 'b') and len(a) > 1 and a[1] in env.nums:
                if v not in {bool(x) for x in env.nums[a[1]]}:
                    return False
        return True

    # ---- text
    def text(s, env, e):
        loc, before = e.a['loc'], e.a['before']
        if loc == s.loc:
            return env.streams[loc]
        buf = get({}, before, '#buf')
        cur = env.streams.get(loc)
        if cur is not None and cur[0] == buf:
            return cur
        if buf[0] != 'S':
            raise Broken('input from %s at %s is not understood' % (show(buf)[:80], e.where()))
        t = s.string(env, buf, e)
        if t is None:
            raise Broken('input from %s at %s is not understood' % (show(buf)[:80], e.where()))
        env.streams[loc] = (buf, t, True)
        return env.streams[loc]

    def string(s, env, v, e=None):
        """The text of a string value, None if unknown."""
        if v[0] == 'c' and isinstance(v[1], str):
            return norm((('l', v[1]),))
        if v[0] != 'S':
            return env.strs.get(v)
        out = ()
        for x in v[1]:
            if x[0] == 'l':
                out += (('l', x[1]),)
            elif x[0] == 'b' and x[1] in env.strs:
                out += env.strs[x[1]]
            else:
                return None
        return norm(out)

    def marks(s, env, ms, e):
        for m in ms:
            if env.due is not None:
                s.bad('element-stored', 'lost', e, 'every element that was written is stored by the reader', 'it goes on to the next one without having stored the one before')
            env.due = m

    def lost(s, env, e, what, tgt=None):
        for loc, t, lab in env.fresh:
            if tgt in (None, loc):
                s.bad('field-kept', field_name(lab), e, 'what is read of each element is stored', what)
        env.fresh = tuple(x for x in env.fresh if tgt not in (None, x[0]))

    def set(s, env, loc, t, ok=True):
        src = env.streams[loc][0]
        env.streams[loc] = (src, t, ok)

    # ---- events
    def io(s, env, e):
        """The ways in which an input event can go on from env."""
        how, loc = e.a['how'], e.a['loc']
        src, text, ok = s.text(env, e)
        st, val = e.a['st'], e.a['val']
        out = []
        if val is not None:
            drop_term(env, val)
        if how == 'peek':
            for ms, t in s.G.heads(text):
                n = env.copy()
                if not ok or not t:
                    n.nums[val] = frozenset([-1])
                elif t[0][0] == 'l':
                    n.nums[val] = frozenset([ord(t[0][1][0])])
                else:
                    n.nums[val] = DIG
                s.set(n, loc, tuple(('B', m) for m in ms) + t, ok)
                out.append(n)
            return out
        if not ok:
            n = env.copy()
            if st is not None:
                n.nums[st] = frozenset([0])
            if how == 'getline':
                n.strs[val] = ()
            return [n]
        if how == 'getline':
            if e.a.get('target') is None:
                raise Broken('input at %s is not understood' % e.where())
            d = e.a.get('args') or ()
            delim = '\n'
            if d:
                c = d[0]
                if not (isint(c) or (c[0] == 'c' and isinstance(c[1], str) and len(c[1]) == 1)):
                    raise Broken('delimiter of the line at %s is not constant' % e.where())
                delim = chr(c[1]) if isint(c) else c[1]
            for pre, rest, found in s.split(text, delim, e):
                n = env.copy()
                ms = [x[1] for x in pre if x[0] == 'B']
                pre = norm(tuple(x for x in pre if x[0] != 'B'))
                good = found or bool(pre)
                s.marks(n, ms, e)
                n.nums[st] = frozenset([1 if good else 0])
                s.set(n, loc, rest, good)
                old = [l for l, x in n.streams.items() if x[0] is not None and ('b', val) in x[0][1]]
                for l in old:
                    s.unread(n, n.streams[l][1], e)
                    del n.streams[l]
                n.strs[val] = pre
                out.append(n)
            return out
        if how == 'extract':
            tag = e.a['tag']
            if not INT.match(tag or '') and tag != 'char':
                raise Broken('input of type %s at %s is not understood' % (tag, e.where()))
            for ms, t in s.skip(text):
                n = env.copy()
                s.marks(n, ms, e)
                if not t:
                    n.nums[st] = frozenset([0])
                    s.set(n, loc, (), False)
                elif tag == 'char':
                    if t[0][0] == 'l':
                        n.nums[st] = frozenset([1])
                        n.nums[val] = frozenset([ord(t[0][1][0])])
                        s.set(n, loc, norm((('l', t[0][1][1:]),) + t[1:]))
                    else:
                        s.bad('fields-aligned', field_name(t[0][1]), e, 'the reader takes each field as a whole', 'it takes single characters of a number')
                        continue
                elif t[0][0] == 'l':
                    n.nums[st] = frozenset([0])
                    s.set(n, loc, t, False)
                else:
                    lab, ft = t[0][1], t[0][2]
                    nm = field_name(lab)
                    if not isinstance(ft, str) or not INT.match(ft):
                        s.bad('field-type', nm, e, 'each field is read with a type that holds all its values', 'a field of type %s is read as %s' % (ft, tag))
                        continue
                    s.ctx.ob(holds(tag, ft), 'field-type', '%s: %s' % (s.name, nm), e, 'each field is read with a type that holds all its values', 'a field of type %s is read as %s' % (ft, tag))
                    for ms2, r in s.G.heads(t[1:]):
                        if r and (r[0][0] == 'f' or r[0][1][0] in '0123456789'):
                            s.bad('fields-separated', nm, e, 'a number that is read ends where the number that was written ends', 'another number follows without a separator')
                    n.nums[st] = frozenset([1])
                    tgt = e.a['target']
                    if any(x[0] == tgt for x in n.fresh):
                        s.lost(n, e, 'it is not stored before the next is read', tgt)
                    n.vals[val] = lab
                    n.vars[tgt] = lab
                    n.fresh += ((tgt, val, lab),)
                    s.taken.add(lab)
                    s.set(n, loc, t[1:])
                out.append(n)
            return out
        if how in ('ignore', 'get'):
            cnt, delim = 1, None
            a = e.a.get('args') or ()
            if how == 'ignore' and a:
                if isint(a[0]):
                    cnt = a[0][1]
                if len(a) > 1 and isint(a[1]) and a[1][1] >= 0:
                    delim = chr(a[1][1])
            todo = [(env.copy(), text, cnt)]
            while todo:
                n, t, k = todo.pop()
                if k == 0:
                    n.nums[st] = frozenset([1])
                    s.set(n, loc, t)
                    out.append(n)
                    continue
                for ms, t2 in s.G.heads(t):
                    m = n.copy()
                    s.marks(m, ms, e)
                    if not t2:
                        if how == 'get':
                            m.nums[val] = frozenset([-1])
                        m.nums[st] = frozenset([0 if how == 'get' else 1])
                        s.set(m, loc, (), how != 'get')
                        out.append(m)
                    elif t2[0][0] == 'f':
                        s.bad('fields-aligned', field_name(t2[0][1]), e, 'the reader takes each field as a whole', 'it skips part of a number')
                    else:
                        ch = t2[0][1][0]
                        r = norm((('l', t2[0][1][1:]),) + t2[1:])
                        if how == 'get' and val is not None:
                            m.nums[val] = frozenset([ord(ch)])
                        todo.append((m, r, 0 if ch == delim else k - 1))
            return out
        raise Broken('input by %s at %s is not understood' % (how, e.where()))

    def skip(s, text):
        """Texts after white space."""
        out, seen, todo = [], set(), [((), text)]
        while todo:
            ms0, t0 = todo.pop()
            for ms, t in s.G.heads(t0):
                k = (ms0 + ms, t)
                if k in seen or len(ms0) > 4:
                    continue
                seen.add(k)
                if t and t[0][0] == 'l' and t[0][1][0] in WS:
                    todo.append((k[0], norm((('l', t[0][1].lstrip(WS)),) + t[1:])))
                else:
                    out.append(k)
        return out

    def split(s, text, delim, e):
        """(text before the delimiter, text after it, found) in all ways."""
        out, todo, seen = [], [((), norm(text))], set()
        while todo:
            pre, t = todo.pop()
            if (pre, t) in seen:
                continue
            seen.add((pre, t))
            if not t:
                out.append((norm(pre), (), False))
                continue
            x = t[0]
            if x[0] == 'l':
                if delim in x[1]:
                    i = x[1].index(delim)
                    out.append((norm(pre + (('l', x[1][:i]),)), norm((('l', x[1][i + 1:]),) + t[1:]), True))
                else:
                    todo.append((pre + (x,), t[1:]))
            elif x[0] == 'L' and not s.holds_delim(x, delim):
                todo.append((pre + (x,), t[1:]))
            elif x[0] == 'L':
                todo += [(pre, y) for y in s.G.step(x, t[1:])]
            elif x[0] == 'B':
                if pre.count(x) < 2:
                    todo.append((pre + (x,), t[1:]))
            else:
                if x[2] == 'str':
                    raise Broken('a string that may contain the delimiter is written')
                todo.append((pre + (x,), t[1:]))
        return out

    def holds_delim(s, item, delim, seen=None):
        seen = seen or set()
        if item[1] in seen:
            return False
        seen.add(item[1])
        le = s.G.loops[item[1]]
        for a in le.a['alts']:
            if s.G.drop(a.facts):
                continue
            for x in s.G.alt(a, le, item[1]):
                if x[0] == 'l' and delim in x[1] or x[0] == 'L' and s.holds_delim(x, delim, seen):
                    return True
        return False

    def unread(s, env, text, e):
        """A text is dropped: it must not contain fields any more."""
        for t in text:
            f = s.some_field(t, set())
            if f is not None:
                s.bad('field-read', field_name(f), e, 'every field that was written is read', 'the reader drops the rest of a line')

    def some_field(s, item, seen):
        if item[0] == 'f':
            return item[1]
        if item[0] == 'L' and item[1] not in seen:
            seen.add(item[1])
            le = s.G.loops[item[1]]
            for a in le.a['alts']:
                if s.G.drop(a.facts):
                    continue
                for x in s.G.alt(a, le, item[1]):
                    f = s.some_field(x, seen)
                    if f is not None:
                        return f
        return None

    # ---- values
    def resolve(s, env, t):
        """The written term whose value t has, ('?', t) if it is no field."""
        if t in env.vals:
            return env.vals[t]
        if t[0] == 'w' and len(t) > 2 and t[2] in env.vars:
            return env.vars[t[2]]
        if t[0] == 'app' and t[1] in ('fmpz_str',) and len(t) == 4:
            x = s.string(env, t[2])
            if x is not None and len(x) == 1 and x[0][0] == 'f':
                if x[0][2] == ('big', t[3]):
                    s.taken.add(x[0][1])
                    return x[0][1]
            return ('?', t)
        return ('?', t)

    def match(s, env, v, T, e):
        """Is the value v rebuilt from all parts of the written value T?"""
        if v[0] == 'O' and v[1] is None:
            for k, x in v[2]:
                r = s.match(env, x, get({}, T, k), e)
                if r is not True:
                    return r
            return True
        if v[0] == 'S':
            for x in v[1]:
                if x[0] == 'star':
                    m = s.pushmap.get(x[2], set())
                    if m - {T}:
                        return '%s is filled with %s' % (field_name(T), ', '.join(sorted(field_name(y) for y in m)))
                elif x[0] == 'e':
                    r = s.part_of(env, x[1], e)
                    if isinstance(r, str):
                        return r
                    if r != T:
                        return '%s is filled with %s' % (field_name(T), field_name(r))
                else:
                    return '%s still contains what was there before' % field_name(T)
            if not v[1] and any(contains(l, {T}) for l, _ in s.G.fields):
                # nothing was written for it either?
                return '%s stays empty' % field_name(T) if T in {c for m in s.pushmap.values() for c in m} or True else True
            return True
        r = s.resolve(env, v)
        if r == T:
            return True
        if r[0] == '?':
            return '%s is not what was read' % field_name(T)
        return '%s becomes %s' % (field_name(T), field_name(r))

    def part_of(s, env, v, e):
        """The sequence that v is one element of (all components in their places), or a reason."""
        if v[0] == 'O' and v[1] is None:
            rs = [(k, s.resolve(env, x)) for k, x in v[2]]
            es = set()
            for k, r in rs:
                if r[0] == '?':
                    return 'a component of the element is not what was read (%s)' % show(r[1])[:60]
                if r[0] != 'fld' or r[2] != k:
                    return 'component %s of the element is filled with %s' % (k, field_name(r))
                es.add(r[1])
            if len(es) != 1:
                return 'an element is made of several'
            r = es.pop()
        else:
            r = s.resolve(env, v)
            if r[0] == '?':
                return 'the element is not what was read (%s)' % show(r[1])[:60]
        if r[0] == 'fld' and isinstance(r[2], tuple) and r[2][0] == 'x':
            return r[1]
        return 'the element is no element of a sequence that was written'

    def use(s, env, v):
        ts = set(subterms(v)) if isinstance(v, tuple) else set()
        ws = {t[2] for t in ts if isinstance(t, tuple) and t and t[0] == 'w' and len(t) > 2}
        env.fresh = tuple(x for x in env.fresh if x[1] not in ts and x[0] not in ws)

    def store(s, env, e):
        """Events that keep what was read."""
        if e.kind == 'w' and e.a['loc'] in env.vars:
            r = s.resolve(env, e.a['val'])
            if r[0] == '?':
                env.vars.pop(e.a['loc'])
            else:
                env.vars[e.a['loc']] = r
        if e.kind == 'cop' and e.a['op'] in ('push_back', 'push_front', 'insert', 'insert_present', 'append', 'index', 'insert_all') or e.kind == 'w':
            loc = e.a['loc']
            if loc == s.result and e.kind == 'cop' and e.a['op'] in ('insert', 'insert_present') and len(e.a['args']) and not e.a.get('dflt'):
                s.element(env, e, e.a['args'][0])
                if e.a['op'] == 'insert' and len(e.a['args']) > 1 and not isint(e.a['args'][1]):
                    s.number(env, e, e.a['args'][1])
            elif e.kind == 'w' and loc[0] == s.result[0] and loc[1][:len(s.result[1])] == s.result[1] and len(loc[1]) > len(s.result[1]) \
                    and isinstance(loc[1][len(s.result[1])], tuple) and loc[1][len(s.result[1])][0] == 'k':
                s.element(env, e, loc[1][len(s.result[1])][1])
                s.number(env, e, e.a['val'])
            elif e.kind == 'cop' and e.a['op'] == 'push_back' and loc[0] != s.loc[0]:
                r = s.part_of(env, e.a['args'][0], e)
                if isinstance(r, str):
                    s.bad('field-kept', 'appended', e, 'the reader appends exactly the fields that it has read', r)
                else:
                    ts = set(subterms(e.a['args'][0]))
                    ws = {t[2] for t in ts if isinstance(t, tuple) and t and t[0] == 'w' and len(t) > 2}
                    if not any(x[1] in ts or x[0] in ws for x in env.fresh):
                        s.bad('field-kept', 'appended twice', e, 'the reader appends each field once', 'it is appended again')
                    s.pushmap.setdefault(loc, set()).add(r)
                s.use(env, e.a['args'][0])

    def element(s, env, e, k):
        T = env.due
        if T is None:
            if (e.where()) in s.stored and e.kind != 'w':
                s.bad('element-stored', 'twice', e, 'every element that was written is stored once', 'it is stored again')
            T = s.last
        r = s.match(env, k, T, e) if T is not None else 'no element was read'
        s.ctx.ob(r is True, 'element-stored', '%s: rebuilt' % s.name, e, 'the element that the reader stores is the one that was written', r if r is not True else '')
        s.use(env, k)
        s.last = T
        s.stored.add(e.where())
        env.due = None

    def number(s, env, e, v):
        """The value stored for a key."""
        T = s.last
        v = v[2][0][1] if v[0] == 'O' and len(v[2]) == 1 else v
        c, d = lin(v)
        got = [t for t in d if s.resolve(env, t)[0] != '?']
        want = [l for l, tag in s.G.fields if isinstance(tag, tuple)]
        ok = c == 0 and len(got) == 1 and d[got[0]] == 1 and s.resolve(env, got[0]) in want and contains(s.resolve(env, got[0]), {T})
        rest = [t for t in d if t not in got]
        old = e.a.get('old')
        if ok and rest:
            # something is added: only what was stored for the same key
            ok = v == add(got[0], old) if old is not None else False
        if v == C(0) and e.kind == 'w':
            return
        s.ctx.ob(ok, 'value-stored', '%s: value' % s.name, e, 'the value stored for an element is the one that was written for it', 'it is %s' % show(v)[:100])

    # ---- driver
    def run(s, evs, facts, env):
        envs = [env]
        for e in evs:
            if not envs:
                return []
            if e.kind == 'loop':
                nxt, seen = [], set()
                for x in envs:
                    for y in s.loop(e, x):
                        if y.key() not in seen:
                            seen.add(y.key())
                            nxt.append(y)
                envs = [x for x in nxt if s.possible(facts, x)]
                continue
            if e.kind == 'in':
                nxt, seen = [], set()
                for x in envs:
                    for y in s.io(x.copy(), e):
                        s.states += 1
                        if s.states > 20000:
                            raise Broken('too many states in the product of writer and reader')
                        if y.key() not in seen and s.possible(facts, y):
                            seen.add(y.key())
                            nxt.append(y)
                envs = nxt
            elif e.kind == 'manip':
                q = e.a['val'][2] if e.a['val'][0] == 'fn' else '?'
                if str(q).split('::')[-1] not in HARMLESS:
                    raise Broken('input changes its format by %s at %s' % (show(e.a['val']), e.where()))
            else:
                for x in envs:
                    s.store(x, e)
                    if e.kind in ('ext', 'call') and not e.a.get('inl'):
                        for v in e.a.get('args') or ():
                            s.use(x, v)
        return envs

    def loop(s, le, env):
        terms = {x.a['val'] for x in flat([le]) if x.kind == 'in'} | {x.a['st'] for x in flat([le]) if x.kind == 'in'}
        marks = {x.a['loop'].marker for x in flat([le]) if x.kind == 'loop'} | {le.a['loop'].marker}
        mk = le.a['loop'].marker

        def clean(x, e):
            x = x.copy()
            for d in (x.nums, x.vals):
                for t in list(d):
                    if t in terms or len(t) > 2 and t[0] == 'w' and t[1] in marks:
                        del d[t]
            for t in list(x.strs):
                if t in terms:
                    for l in [l for l, y in x.streams.items() if y[0] is not None and ('b', t) in y[0][1]]:
                        s.unread(x, x.streams[l][1], e)
                        del x.streams[l]
                    del x.strs[t]
            return x

        def bind(x):
            """What the loop's own variables stand for at its head."""
            x = x.copy()
            for l, y in x.streams.items():
                x.nums[('w', mk, (l[0], l[1] + ('#st',)))] = frozenset([1 if y[2] else 0])
            for l, lab in x.vars.items():
                x.vals[('w', mk, l)] = lab
            return x
        H, todo = {0: {}}, []
        e0 = clean(env, le)
        H[0][e0.key()] = e0
        todo.append((0, e0))
        while todo:
            node, x = todo.pop()
            for a in le.a['alts']:
                if a.src != node:
                    continue
                b = bind(x)
                own = {f: v for f, v in a.facts.items() if any(len(t) > 2 and t[0] == 'w' and t[1] == mk for t in subterms(f))}
                if not s.possible(own, b):
                    continue
                for y in s.run(a.events, a.facts, b):
                    if not s.possible(a.facts, y):
                        continue
                    y = clean(y, le)
                    d = H.setdefault(a.dst, {})
                    if y.key() not in d:
                        d[y.key()] = y
                        todo.append((a.dst, y))
        return [x for x in map(bind, H.get(le.a['head'], {}).values()) if s.possible(le.a['xfacts'], x)]


def drop_term(env, t):
    env.nums.pop(t, None)
    env.vals.pop(t, None)


def field_name(t):
    """A name for a written field that does not depend on positions in the source."""
    if t is None:
        return '?'
    if t[0] == 'fld':
        b = field_name(t[1])
        if isinstance(t[2], tuple):
            return b + {'x': '[i]', 'k': '[key]'}.get(t[2][0], '[]')
        return '%s.%s' % (b, t[2])
    if t[0] == 'key':
        return field_name(t[1]) + '[key]'
    if t[0] == 'sym':
        return t[1].replace('arg:', '')
    return show(t)[:60]


def labels_of(G):
    def f(e):
        return [x[1] for x in G.value(e.a['val'], e.a['tag'], e) if x[0] == 'f']
    return f


def agree(ctx, name, writer, wargs, reader, rargs, opaque, nonempty=()):
    """Decides that reader reads back what writer writes.  wargs/rargs: names of (stream, container) parameters.
    nonempty: fields of an element that are assumed not to be empty sequences."""
    wps, _ = ctx.run(writer, opaque=opaque, tag='io')
    rps, _ = ctx.run(reader, opaque=opaque, tag='io')
    wl, main = (('o', 'arg:' + wargs[0]), ()), ('sym', 'arg:' + wargs[1])
    rl, res = (('o', 'arg:' + rargs[0]), ()), (('o', 'arg:' + rargs[1]), ())

    def drop(facts):
        for a, v in facts.items():
            if a[0] == 'eqk' and v and a[2] == 0 and len(a[1]) == 1 and a[1][0][0][0] == 'size':
                c = a[1][0][0][1]
                if c[0] == 'fld' and c[1][0] == 'key' and c[2] in nonempty:
                    return True
        return False

    states = 0
    for wp in wps:
        if wp.kind != 'ret':
            if any(e.kind == 'out' for e in flat(wp.events)):
                ctx.ob(False, 'written-completely', '%s: %s' % (name, wp.kind), writer, 'the writer writes everything', 'a path ends before')
            continue
        G = Grammar(ctx, wl, main, drop)
        text = norm(G.items(wp.events))
        i = 0
        while i < len(G.loops):
            for a in G.loops[i].a['alts']:
                if not drop(a.facts):
                    G.alt(a, G.loops[i], i)
            i += 1
        lab = labels_of(G)
        # the main container, completely
        mains = [e for e in wp.events if e.kind == 'loop' and any(element(e, a, main) is not None for a in e.a['alts'])]
        sw = [e for e in mains if sweep(e) and sweep(e)[0] == 'iter' and unbase(sweep(e)[1]) == main]
        ctx.ob(len(mains) == 1 and len(sw) == 1, 'written-completely', name + ': elements', mains[0] if mains else writer,
               'every element of what is saved is written, once', '%d loops over it, %d of them complete' % (len(mains), len(sw)))
        if len(mains) != 1:
            continue
        if G.format:
            ctx.need(not any(e.kind == 'manip' for rp in rps for e in flat(rp.events)), 'formats of numbers are changed when writing and when reading')
            ctx.ob(False, 'field-type', name + ': format', G.format, 'numbers are written in the format in which they are read', 'the writer changes it, the reader does not')
        # sequences inside the elements, completely and in order
        seqs = {}
        for (t, tag), e in list(G.fields.items()):
            x = t
            while x[0] == 'fld':
                if isinstance(x[2], tuple) and x[2][0] == 'x':
                    seqs.setdefault(x[1], e)
                x = x[1]
        mute = [a for a in mains[0].a['alts'] if not drop(a.facts) and not any(x[0] != 'B' for x in G.alt(a, mains[0], G.ids.get(id(mains[0]), 0)))]
        ctx.ob(not mute, 'written-completely', name + ': each', mains[0], 'every element of what is saved is written, once', 'an iteration writes nothing')
        if mute:
            states += 1
            continue
        for a in mains[0].a['alts']:
            if drop(a.facts):
                continue
            for c, e in seqs.items():
                ok, why = in_order(a.events, a.facts, c, lab, wl)
                ctx.ob(ok, 'written-in-order', '%s: %s' % (name, field_name(c)), e, 'the elements of each sequence are written completely and in order', why)
        # the product
        for rp in rps:
            R = Reader(ctx, G, name, rl, res, None)
            R.last = None
            env = Env()
            env.streams[rl] = (None, text, True)
            ends = R.run(rp.events, rp.facts, env)
            ends = [x for x in ends if R.possible(rp.facts, x)]
            states += R.states
            if rp.kind != 'ret':
                ctx.ob(not ends, 'read-completely', '%s: %s' % (name, rp.kind), reader, 'the reader accepts what was written', 'it ends abnormally')
                continue
            for x in ends:
                rest = x.streams[rl][1]
                left = [t for ms, t in G.heads(rest) if t]
                ctx.ob(not left, 'read-completely', '%s: end' % name, reader, 'the reader reads up to the end of what was written',
                       'it may stop before %s' % (show_text(left[0]) if left else ''))
                ctx.ob(x.due is None, 'element-stored', '%s: last' % name, reader, 'every element that was written is stored by the reader', 'the last one is not')
                R.lost(x, reader, 'it is not stored')
                for l, y in x.streams.items():
                    if l != rl:
                        R.unread(x, y[1], reader)
            if ends:
                for (t, tag), e in G.fields.items():
                    ctx.ob(t in R.taken, 'field-read', '%s: %s' % (name, field_name(t)), e, 'every field that was written is read', 'it is never read')
                    ctx.ob(True, 'field-kept', '%s: %s' % (name, field_name(t)), e, 'what is read of each element is stored')
                ctx.ob(bool(R.stored), 'element-stored', '%s: any' % name, reader, 'the elements that were written are stored by the reader', 'nothing is stored')
    ctx.notes.append('%s: %d states of writer and reader' % (name, states))
    ctx.need(states, 'no joint run of writer and reader of %s' % name)


def show_text(t):
    x = t[0]
    return repr(x[1]) if x[0] == 'l' else field_name(x[1])
