"""The value domain: symbolic terms (value numbers), their linear normal form, containers as
functional values, and the facts (atoms) that guards establish.  Nothing here runs the program and no
solver is called: a guard is decided only by looking its normal form up."""
from math import gcd

NULL = ('c', 0)
VOID = ('c', None)
UNDEF = ('undef',)
EMPTYS = ('S', ())
EMPTY = ('c', '{}')
EMPTYM = ('M', EMPTY, ())
UNSIGNED = set()


def C(v):
    return ('c', v)


def isint(t):
    return t[0] == 'c' and isinstance(t[1], int)


# ---------------------------------------------------------------- linear integers
def lin(t):
    if t[0] == 'c':
        if isinstance(t[1], (int, float)):
            return t[1], {}
        return 0, {t: 1}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def _key(t):
    return repr(t)


def mklin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ('c', c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', c, tuple(sorted(d.items(), key=lambda kv: _key(kv[0]))))


def add(a, b, s=1):
    ca, da = lin(a)
    cb, db = lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + s * v
    return mklin(ca + s * cb, da)


def sub(a, b):
    return add(a, b, -1)


def scale(a, f):
    c, d = lin(a)
    return mklin(c * f, {k: v * f for k, v in d.items()})


def mul(a, b):
    if a[0] == 'c' and isinstance(a[1], (int, float)):
        return scale(b, a[1])
    if b[0] == 'c' and isinstance(b[1], (int, float)):
        return scale(a, b[1])
    ca, da = lin(a)
    cb, db = lin(b)
    out, const = {}, ca * cb
    for k, v in da.items():
        if cb:
            out[k] = out.get(k, 0) + v * cb
        for k2, v2 in db.items():
            m = _prod(k, k2)
            out[m] = out.get(m, 0) + v * v2
    for k2, v2 in db.items():
        if ca:
            out[k2] = out.get(k2, 0) + v2 * ca
    return mklin(const, out)


def _prod(a, b):
    fa = list(a[1]) if a[0] == 'prod' else [a]
    fb = list(b[1]) if b[0] == 'prod' else [b]
    return ('prod', tuple(sorted(fa + fb, key=_key)))


def arith(op, a, b):
    num = lambda t: t[0] == 'c' and isinstance(t[1], (int, float))
    if op == '+':
        return add(a, b)
    if op == '-':
        return sub(a, b)
    if op == '*':
        return mul(a, b)
    if op in ('/', '%', '>>', '<<', '&', '|', '^'):
        if num(a) and num(b):
            x, y = a[1], b[1]
            try:
                if op == '/':
                    if isinstance(x, float) or isinstance(y, float):
                        return C(x / y)
                    q = abs(x) // abs(y)
                    return C(q if (x < 0) == (y < 0) else -q)
                if op == '%':
                    r = abs(x) % abs(y)
                    return C(r if x >= 0 else -r)
                return C({'>>': x >> y, '<<': x << y, '&': x & y, '|': x | y, '^': x ^ y}[op])
            except Exception:
                return ('app', op, a, b)
        if op == '>>' and isint(b):
            op, b = '/', C(1 << b[1])
        if op == '<<' and isint(b):
            return scale(a, 1 << b[1])
        if op == '&' and isint(a):
            a, b = b, a
        if (op == '&' and b == C(1)) or (op == '%' and b == C(2)):
            return ('par', a)
        if op == '/' and b == C(1):
            return a
        if op in ('&', '|', '^'):
            a, b = sorted((a, b), key=_key)
        return ('app', op, a, b)
    return ('app', op, a, b)


# ---------------------------------------------------------------- atoms
def atom_le(t, k=0):
    """t <= k  ->  (atom, polarity) or a bool"""
    c, d = lin(t)
    k = k - c
    if not d:
        return 0 <= k
    if any(not isinstance(v, int) for v in d.values()) or not isinstance(k, int):
        return (('lef', tuple(sorted(d.items(), key=lambda kv: _key(kv[0]))), k), True)
    ts = sorted(d.items(), key=lambda kv: _key(kv[0]))
    g = 0
    for _, v in ts:
        g = gcd(g, abs(v))
    k = k // g
    if ts[0][1] > 0:
        return (('le', tuple((x, v // g) for x, v in ts), k), True)
    return (('le', tuple((x, -v // g) for x, v in ts), -k - 1), False)


def atom_lt(a, b):
    c, d = lin(sub(a, b))
    if any(not isinstance(v, int) for v in d.values()) or not isinstance(c, int):
        return (('lt', a, b), True) if d else c < 0
    return atom_le(sub(a, b), -1)


def atom_eq0(t):
    c, d = lin(t)
    if not d:
        return c == 0
    ts = sorted(d.items(), key=lambda kv: _key(kv[0]))
    if any(not isinstance(v, int) for _, v in ts) or not isinstance(c, int):
        return (('eqf', tuple(ts), c), True)
    g = 0
    for _, v in ts:
        g = gcd(g, abs(v))
    if c % g:
        return False
    s = 1 if ts[0][1] > 0 else -1
    return (('eqk', tuple((x, s * v // g) for x, v in ts), -c // g * s), True)


def neg(a):
    if isinstance(a, bool):
        return not a
    return (a[0], not a[1])


def isptr(t):
    return t[0] == 'ptr'


def atom_eqv(a, b, numeric=True):
    """a == b for arbitrary values"""
    if a == b:
        return True
    if a[0] == 'B' and b[0] == 'c':
        r = (a[1], a[2])
        return r if b[1] else neg(r)
    if b[0] == 'B' and a[0] == 'c':
        return atom_eqv(b, a)
    if isptr(a) and isptr(b):
        ra, rb = a[1][0], b[1][0]
        own = ('v', 'g', 'h', 't', 'o')
        if ra[0] in own and rb[0] in own and (ra != rb):
            if ra[0] == rb[0] == 'o':      # parameters may be the same object
                return (('eq',) + tuple(sorted((a, b), key=_key)), True)
            return False
        return (('eq',) + tuple(sorted((a, b), key=_key)), True)
    if isptr(a) or isptr(b):
        o = b if isptr(a) else a
        if o == NULL:
            return False
        return (('eq',) + tuple(sorted((a, b), key=_key)), True)
    if a[0] == 'c' and b[0] == 'c':
        return a[1] == b[1]
    if a[0] == 'S' and b[0] == 'S':
        la, lb = slit(a), slit(b)
        if la is not None and lb is not None:
            return la == lb
    if a[0] in ('O', 'S', 'M', 'it') or b[0] in ('O', 'S', 'M', 'it') or not numeric:
        return (('eq',) + tuple(sorted((a, b), key=_key)), True)
    return atom_eq0(sub(a, b))


def truth_atom(t):
    if t[0] == 'c':
        return bool(t[1])
    if t[0] == 'B':
        return (t[1], t[2])
    if t[0] == 'ptr':
        return True
    if t[0] == 'fn' or t[0] == 'lam':
        return True
    return neg(atom_eq0(t))


def boolterm(r):
    if isinstance(r, bool):
        return C(int(r))
    return ('B', r[0], r[1])


def nonneg(t):
    return t[0] in ('size', 'par', 'uc') or t in UNSIGNED


def lower(t):
    if t[0] == 'size':
        m = t[1]
        if m[0] == 'M' and m[2] and m[2][-1][1]:
            return 1
        return 0
    if nonneg(t):
        return 0
    return None


def bounds(facts, ts):
    """Interval of the linear combination ts that the facts imply."""
    lo = hi = None
    def isup(v):
        nonlocal hi
        if hi is None or v < hi:
            hi = v
    def islo(v):
        nonlocal lo
        if lo is None or v > lo:
            lo = v
    s = 0
    for x, v in ts:
        l = lower(x)
        if l is None or v < 0:
            break
        s += l * v
    else:
        islo(s)
    if len(ts) == 1 and ts[0][0][0] == 'par':
        isup(ts[0][1])
    ne = set()
    for a, val in facts.items():
        if a[0] == 'le' and a[1] == ts:
            isup(a[2]) if val else islo(a[2] + 1)
        elif a[0] == 'eqk' and a[1] == ts:
            if val:
                isup(a[2])
                islo(a[2])
            else:
                ne.add(a[2])
    while lo is not None and lo in ne and (hi is None or lo <= hi):
        lo += 1
    while hi is not None and hi in ne and (lo is None or lo <= hi):
        hi -= 1
    return lo, hi, ne


def decide(facts, atom):
    """True / False / None"""
    if atom in facts:
        return facts[atom]
    k = atom[0]
    if k in ('le', 'eqk'):
        lo, hi, ne = bounds(facts, atom[1])
        v = atom[2]
        if k == 'le':
            if hi is not None and hi <= v:
                return True
            if lo is not None and lo > v:
                return False
        else:
            if lo is not None and hi is not None and lo == hi == v:
                return True
            if v in ne or (lo is not None and v < lo) or (hi is not None and v > hi):
                return False
        # one variable with a unit difference to another bound: a <= b via a < c and c <= b is not attempted
    elif k == 'has':
        if atom[1][0] == 'c':
            return False
        if atom[2][0] == 'key' and atom[2][1] == atom[1]:
            return True
        if facts.get(('eqk', ((('size', atom[1]), 1),), 0)) is True:
            return False
    return None


def test(facts, r):
    if isinstance(r, bool):
        return r
    d = decide(facts, r[0])
    return None if d is None else (d == r[1])


# ---------------------------------------------------------------- containers
def slit(s):
    """The text of a string value made of literals only, else None."""
    if s[0] == 'c' and isinstance(s[1], str):
        return s[1]
    if s[0] != 'S':
        return None
    out = ''
    for it in s[1]:
        if it[0] == 'l':
            out += it[1]
        elif it[0] == 'e' and isint(it[1]):
            out += chr(it[1][1] & 255)
        else:
            return None
    return out


def seq(t):
    if t[0] == 'S':
        return t
    if t[0] == 'c' and isinstance(t[1], str) and t != EMPTY:
        return ('S', (('l', t[1]),)) if t[1] else EMPTYS
    if t[0] == 'undef' or t == EMPTY:
        return EMPTYS
    return ('S', (('b', t),))


def cat(a, b):
    ia, ib = seq(a)[1], seq(b)[1]
    if ia and ib and ia[-1][0] == 'l' and ib[0][0] == 'l':
        return ('S', ia[:-1] + (('l', ia[-1][1] + ib[0][1]),) + ib[1:])
    return ('S', ia + ib)


def unwrap(t):
    """('S',(('b',x),)) -> x"""
    if t[0] == 'S' and len(t[1]) == 1 and t[1][0][0] == 'b':
        return t[1][0][1]
    if t[0] == 'M' and not t[2]:
        return t[1]
    return t


def mp(t):
    if t[0] == 'M':
        return t
    if t[0] == 'undef':
        return EMPTYM
    return ('M', t, ())


def size(t):
    if t[0] == 'S':
        c = C(0)
        for it in t[1]:
            if it[0] == 'e':
                c = add(c, C(1))
            elif it[0] == 'l':
                c = add(c, C(len(it[1])))
            elif it[0] == 'b':
                c = add(c, size(it[1]))
            else:
                c = add(c, ('size', it))
        return c
    if t[0] == 'M':
        if not t[2]:
            return size(t[1])
        if t[1] == EMPTY and all(u[1] for u in t[2]) and all(u[0][0] == 'c' for u in t[2]):
            return C(len({u[0] for u in t[2]}))
        return ('size', t)
    if t[0] == 'O' and t[1] is not None:
        return size(t[1])
    if t[0] == 'drop':
        return sub(size(t[1]), C(1))
    if t[0] == 'app' and t[1] == 'filled':
        return t[2]
    if t == EMPTY or t[0] == 'undef':
        return C(0)
    if t[0] == 'c' and isinstance(t[1], str):
        return C(len(t[1]))
    return ('size', t)


def key_eq(facts, a, b):
    return test(facts, atom_eqv(a, b))


def sel_eq(facts, a, b):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        return key_eq(facts, a[1], b[1])
    if isinstance(a, tuple) and isinstance(b, tuple):
        return None
    return False


def get(facts, v, s):
    k = v[0]
    if isinstance(s, tuple) and s[0] in ('n', 'nk', 'sx', 'sk'):
        key = elem_key(v, s)
        if s[0] in ('sx', 'sk'):
            return key
        return ('O', None, (('first', key), ('second', get(facts, v, ('k', key)))))
    if k == 'O':
        for s2, val in reversed(v[2]):
            r = sel_eq(facts, s2, s)
            if r is True:
                return val
            if r is None:
                return ('fld', v, s)
        if v[1] is None:
            return UNDEF
        return get(facts, v[1], s)
    if k == 'M':
        if isinstance(s, tuple) and s[0] == 'k':
            for key, pres, val in reversed(v[2]):
                r = key_eq(facts, key, s[1])
                if r is True:
                    return val if pres else UNDEF
                if r is None:
                    return ('fld', v, s)
            return UNDEF if v[1] == EMPTY else ('fld', v[1], s)
        return ('fld', v, s)
    if k == 'S':
        if isinstance(s, tuple) and s[0] == 'x':
            r = seq_at(facts, v, s[1])
            return r
        return ('fld', unwrap(v), s)
    if k == 'undef':
        return UNDEF
    return ('fld', v, s)


def seq_at(facts, v, idx):
    items = v[1]
    off = C(0)
    for it in items:
        rel = sub(idx, off)
        if it[0] == 'e':
            if rel == C(0):
                return it[1]
            off = add(off, C(1))
            continue
        if it[0] == 'l' and isint(rel) and 0 <= rel[1] < len(it[1]):
            return C(ord(it[1][rel[1]]))
        if it[0] == 'b':
            if len(items) == 1 or test(facts, atom_lt(rel, size(it[1]))) is True:
                return get(facts, it[1], ('x', rel))
            off = add(off, size(it[1]))
            continue
        break
    # from the back
    off = size(v)
    for it in reversed(items):
        if it[0] != 'e':
            break
        off = sub(off, C(1))
        if off == idx:
            return it[1]
    return ('fld', v, ('x', idx))


def elem_key(v, s):
    if s[0] in ('nk', 'sk'):
        return s[1]
    b = v
    while b[0] == 'M':
        b = b[1]
    return ('key', b, s[1])


def _fieldkey(s):
    return repr(s)


def put(facts, v, path, val):
    if not path:
        return val
    s, rest = path[0], path[1:]
    if isinstance(s, tuple) and s[0] in ('n', 'nk') and rest and rest[0] == 'second':
        s, rest = ('k', elem_key(v, s)), rest[1:]
    new = put(facts, get(facts, v, s), rest, val) if rest else val
    k = v[0]
    if isinstance(s, tuple) and s[0] == 'k':
        m = mp(v)
        upd = tuple(u for u in m[2] if u[0] != s[1]) + ((s[1], True, new),)
        return ('M', m[1], upd)
    if k == 'S' and isinstance(s, tuple) and s[0] == 'x' and isint(s[1]) and all(i[0] == 'e' for i in v[1]) \
            and 0 <= s[1][1] < len(v[1]):
        return ('S', tuple(('e', new) if n == s[1][1] else i for n, i in enumerate(v[1])))
    if k == 'S':
        return ('S', (('b', ('O', unwrap(v), ((s, new),))),))
    if k == 'O':
        upd = [u for u in v[2] if u[0] != s] + [(s, new)]
        if all(not isinstance(u[0], tuple) for u in upd):
            upd.sort(key=lambda u: _fieldkey(u[0]))
        return ('O', v[1], tuple(upd))
    if k == 'undef':
        return ('O', None, ((s, new),))
    return ('O', v, ((s, new),))


# ---------------------------------------------------------------- generic term utilities
def subst(t, m):
    """Replaces subterms (keys of m) everywhere in the nested tuple t."""
    memo = {}
    def go(x):
        if not isinstance(x, tuple):
            return x
        i = id(x)
        if i in memo:
            return memo[i][1]
        try:
            if x in m:
                r = m[x]
                memo[i] = (x, r)
                return r
        except TypeError:
            pass
        ch = False
        out = []
        for y in x:
            z = go(y)
            ch |= z is not y
            out.append(z)
        r = x
        if ch:
            r = renorm(tuple(out))
        memo[i] = (x, r)
        return r
    return go(t)


def renorm(t):
    if t and t[0] == 'lin' and len(t) == 3 and isinstance(t[2], tuple):
        r = C(t[1])
        for k, v in t[2]:
            r = add(r, scale(k, v))
        return r
    return t


def contains(t, needles):
    """Does the nested tuple t contain one of the needles (a set of tuples)?"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple):
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x in needles:
            return True
        st.extend(x)
    return False


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        st.extend(x)


def show(t, depth=6):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    if depth == 0:
        return '…'
    k = t[0]
    s = lambda x: show(x, depth - 1)
    try:
        if k == 'c':
            return repr(t[1])
        if k == 'sym':
            return str(t[1])
        if k == 'lin':
            return '+'.join([str(t[1])] * (t[1] != 0) + [(s(x) if v == 1 else '%s*%s' % (v, s(x))) for x, v in t[2]])
        if k == 'ptr':
            return '&' + show_loc(t[1], depth - 1)
        if k == 'fld':
            return '%s.%s' % (s(t[1]), show_sel(t[2], depth - 1))
        if k == 'app':
            return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2:]))
        if k == 'S':
            return '[' + ' '.join((repr(i[1]) if i[0] == 'l' else i[0] + ':' + s(i[1])) for i in t[1]) + ']'
        if k == 'M':
            return '{%s | %s}' % (s(t[1]), ', '.join('%s:%s' % (s(u[0]), s(u[2]) if u[1] and u[2] else u[1]) for u in t[2]))
        if k == 'O':
            return '%s{%s}' % (s(t[1]) if t[1] else '', ', '.join('%s=%s' % (show_sel(a, depth - 1), s(b)) for a, b in t[2]))
        if k == 'B':
            return ('' if t[2] else '!') + show_atom(t[1], depth - 1)
        if k == 'call':
            return 'ret:%s' % t[1]
        if k in ('iv', 'w', 'hole'):
            return '%s@%s' % (k, t[1][1] if len(t[1]) > 1 else '')
        return '%s(%s)' % (k, ', '.join(s(x) for x in t[1:]))
    except Exception:
        return repr(t)


def show_sel(x, d=5):
    if isinstance(x, tuple):
        return '%s<%s>' % (x[0], show(x[1], d))
    return str(x)


def show_loc(l, d=5):
    r = l[0]
    b = {'v': 'var', 'g': 'global', 'h': 'heap', 't': 'tmp', 'd': '*', 'r': '', 'o': ''}.get(r[0], r[0])
    return b + (show(r[1], d) if r[0] in ('d', 'r') else str(r[1])) + ''.join('.' + show_sel(p, d) for p in l[1])


def show_atom(a, d=5):
    if a[0] in ('le', 'eqk'):
        return '(%s %s %s)' % ('+'.join((show(x, d) if v == 1 else '%d*%s' % (v, show(x, d))) for x, v in a[1]),
                               '<=' if a[0] == 'le' else '==', a[2])
    return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1:]))
