"""Rules about counting points (C26-C29, C31, C32) and about the enumeration of curves (C30).

Counting is decided in a small algebra.  A code (a number up to P, where P is the order of the multiplicative
group of the field) stands for a power of the generator, and P itself for zero; an element of FLINT stands for
itself.  Both are written as sums of monomials: a product of elements times a power of the generator, the
exponents of which are taken modulo P.  What a loop computes is read off one abstract iteration, with its
start and its end, and compared as an identity in that algebra; nothing is ever executed or sampled."""
import re
from lib import *

CURVE, TABLE, FIELD = 'Curve', 'ReductionTable', 'FqElementTable'
NB = 'nmb_points'
P = ('sym', '#P')


class Unk(Exception):
    """A form that the algebra does not know."""


# ------------------------------------------------------------------ sums of monomials
class Bad(Exception):
    """A value that is used in a way that is wrong."""


ONE = {((), C(0)): 1}


def pclean(p):
    return {m: c for m, c in p.items() if c}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
    return pclean(r)


def modP(e):
    """An exponent up to multiples of P."""
    c, d = lin(e)
    d = {k: v for k, v in d.items() if k != P and not (k[0] == 'prod' and P in k[1])}
    return mklin_(c, d)


def mklin_(c, d):
    t = C(c)
    for k, v in d.items():
        t = add(t, scale(k, v))
    return t


def pmul(a, b):
    r = {}
    for (m, e), c in a.items():
        for (n, f), d in b.items():
            k = {}
            for x, i in m + n:
                k[x] = k.get(x, 0) + i
            key = (tuple(sorted(((x, i) for x, i in k.items() if i), key=repr)), modP(add(e, f)))
            r[key] = r.get(key, 0) + c * d
    return pclean(r)


def pinv(a):
    if len(a) != 1:
        raise Unk('inverse of a sum')
    ((m, e), c), = a.items()
    if c not in (1, -1):
        raise Unk('inverse')
    return {(tuple((x, -i) for x, i in m), modP(scale(e, -1))): c}


def ppow(a, n):
    if n < 0:
        return ppow(pinv(a), -n)
    r = ONE
    for _ in range(n):
        r = pmul(r, a)
    return r


def gpow(e):
    return {((), modP(e)): 1}


def elem(x):
    return {(((x, 1),), C(0)): 1}


def patoms(p):
    out = set()
    for m, e in p:
        out |= {x for x, _ in m}
        for k in lin(e)[1]:
            out |= set(k[1]) if k[0] == 'prod' else {k}
    return out


def psubst(p, m):
    """Replaces head terms by sums (as elements) or terms (as exponents): m gives atom -> (poly, exponent)."""
    r = {}
    for (mo, e), c in p.items():
        t = {((), C(0)): c}
        for x, i in mo:
            t = pmul(t, ppow(m[x][0], i) if x in m else {(((x, i),), C(0)): 1})
        c0, d = lin(e)
        ex = C(c0)
        for k, v in d.items():
            parts = k[1] if k[0] == 'prod' else (k,)
            q = C(1)
            for x in parts:
                q = mul(q, m[x][1] if x in m and m[x][1] is not None else x)
            ex = add(ex, scale(q, v))
        r = padd(r, pmul(t, gpow(ex)))
    return r


def pshow(p):
    out = []
    for (m, e), c in p.items():
        s = '*'.join([show(x, 4) + ('^%d' % i if i != 1 else '') for x, i in m] + (['g^(%s)' % show(e, 5)] if e != C(0) else []))
        out.append(('' if c == 1 else '%d*' % c) + (s or '1'))
    return ' + '.join(out) or '0'


# ------------------------------------------------------------------ the field that a function counts over
class Field:
    """Reading codes and elements of one field."""

    def __init__(s, ctx, table=None, key=None, prime=None, roles=None):
        s.table, s.key = table, key
        s.red, s.inc = roles or (None, None)
        s.map = {}
        if table is not None:
            s.map[('fld', table, 'prime_power_pred')] = P
            s.map[('fld', table, 'prime_power')] = add(P, C(1))
        if prime is not None:
            s.map[('app', 'std::pow', prime, key)] = add(P, C(1))
        s.nz = {}

    def n(s, t):
        return subst(t, s.map)

    def facts(s, F):
        r = rename(F, s.map)
        return {} if r is None else r

    def lookup(s, t):
        """('red' | 'inc', index) if t is an entry of one of the tables."""
        if t[0] == 'fld' and isinstance(t[2], tuple) and t[2][0] == 'x' and t[1][0] == 'deref':
            b = t[1][1]
            if b[0] == 'fld' and b[1] == s.table and b[2] in (s.red, s.inc):
                return ('red' if b[2] == s.red else 'inc'), t[2][1]
        return None

    def gexp(s, t, F):
        """The generator to the power t."""
        c, d = lin(t)
        r = gpow(C(c))
        for a, k in d.items():
            if a == P:
                continue
            lk = s.lookup(a)
            if lk and lk[0] == 'red':
                f = s.gexp(lk[1], F)
            elif lk:
                # the logarithm of one plus a power of the generator, unless that is zero
                f = padd(ONE, s.gexp(lk[1], F)) if decide_eq(F, a, P) is False else elem(('untested', a))
            elif a[0] == 'app' and a[1] == '%' and a[3] == P:
                f = s.gexp(a[2], F)
            elif a[0] == 'app' and a[1] == '%' or foreign_(a):
                raise Unk('exponent %s' % show(a))
            else:
                f = gpow(a)
            r = pmul(r, ppow(f, k))
        return r

    def value(s, t, F):
        """The element that a code stands for."""
        if t == P:
            return {}
        r = decide_eq(F, t, P)
        if r is True:
            return {}
        lk = s.lookup(t)
        if r is None and not (lk and lk[0] == 'red') and not (t[0] == 'app' and t[1] == '%' and t[3] == P) and t != C(0):
            c, d = lin(t)
            if c >= 0 and len(d) > 1 and P not in d and all(k > 0 for k in d.values()):
                raise Bad('%s is taken for an exponent without being reduced, so it may be taken for the index of zero' % show(t))
            raise Unk('%s may or may not be zero' % show(t))
        return s.gexp(t, F)

    def ring(s, t, F):
        """An element of FLINT."""
        if t[0] == 'app' and isinstance(t[1], str):
            m = re.match(r'(?:fq_nmod|fq_zech|fq|nmod_poly|fq_default)_(\w+)$', t[1])
            if not m:
                raise Unk(t[1])
            op, a = m.group(1), t[2:]
            if op == 'zero':
                return {}
            if op == 'one':
                return ONE
            if op == 'gen':
                return gpow(C(1))
            if op == 'mul':
                return pmul(s.ring(a[0], F), s.ring(a[1], F))
            if op == 'sqr':
                return ppow(s.ring(a[0], F), 2)
            if op == 'add':
                return padd(s.ring(a[0], F), s.ring(a[1], F))
            if op == 'sub':
                return padd(s.ring(a[0], F), s.ring(a[1], F), -1)
            if op == 'neg':
                return padd({}, s.ring(a[0], F), -1)
            if op in ('set', 'reduce'):
                return s.ring(a[0], F)
            if op == 'pow_ui':
                b, n = s.ring(a[0], F), s.n(a[1])
                if isint(n):
                    return ppow(b, n[1]) if b or n[1] else ONE
                if len(b) == 1:
                    ((mo, e), c), = b.items()
                    if not mo and c == 1:
                        return gpow(mul(e, n))
                raise Unk('power of a sum')
            raise Unk(t[1])
        for a, v in F.items():
            if v and is_zero_of(a) == t:
                return {}
        return elem(t)


def is_zero_of(a):
    """The element of which an atom says whether it is zero."""
    if a[0] == 'eqk' and len(a[1]) == 1 and a[2] == 0 and a[1][0][0][0] == 'app' and str(a[1][0][0][1]).endswith('_is_zero'):
        return a[1][0][0][2]
    return None


def foreign_(a):
    return a[0] == 'app' and a[1] not in ('/',) or a[0] in ('undef', 'unk', 'top')


def decide_eq(F, a, b):
    r = atom_eqv(a, b)
    return test(F, r)


def suppose(F, a, b, v):
    """The facts with a == b (or not), None if they contradict it."""
    r = atom_eqv(a, b)
    k = test(F, r)
    if k is not None:
        return F if k == v else None
    F = dict(F)
    F[r[0]] = r[1] == v
    return F


# ------------------------------------------------------------------ loops
def same_sizes(le):
    """Lists of which a loop changes entries only keep the size that they have before it."""
    L, out = le.a['loop'], {}
    for k, kind in L.kind.items():
        if kind != 'w':
            continue
        ok = True
        for a in le.a['alts']:
            for e in flat(a.events):
                l = mutates(e)
                if l is None or l[0] != k[0]:
                    continue
                n = len(k[1])
                if not (l[1][:n] == k[1] and len(l[1]) > n and isinstance(l[1][n], tuple) and l[1][n][0] == 'x'):
                    ok = False
        if ok:
            v = L.entry.mem.get(k[0]) if not k[1] else None
            if v is not None and v[0] == 'S':
                out[size(('w', L.marker, k))] = size(v)
    return out


def one_counter(le, iv, t):
    """A term with the other counters of a loop written by the given one."""
    L = le.a['loop']
    m = {}
    for k, step in L.step.items():
        o = ('iv', L.marker, k)
        if o != iv and step in (1, -1) and k in L.start and L.step.get(iv[2]) in (1, -1):
            m[o] = add(L.start[k], scale(sub(iv, L.start[iv[2]]), step * L.step[iv[2]]))
    return subst(t, m) if m else t


def trips(le, alts=None):
    """The number of iterations (term) and the counter of a loop with a counter that moves by one, from the
    condition on which it ends."""
    L = le.a['loop']
    for key, step in L.step.items():
        iv = ('iv', L.marker, key)
        if step not in (1, -1) or key not in L.start:
            continue
        s0 = L.start[key]
        for a, v in le.a['xfacts'].items():
            if a[0] not in ('le', 'eqk'):
                continue
            d = dict(a[1])
            if d.get(iv) not in (1, -1) or any(contains(x, {iv}) for x in d if x != iv):
                continue
            if not all(x.facts.get(a) is (not v) for x in (alts or le.a['alts'])):
                continue
            c = d.pop(iv)
            rest = mklin_(0, d)
            if a[0] == 'eqk':
                if not v:
                    if scale(sub(C(a[2]), rest), c) == s0:      # goes on as long as it has its first value
                        return C(1), iv, s0, step
                    continue
                E = scale(sub(C(a[2]), rest), c)
            elif step == 1 and c == -1 and v:        # rest - iv <= k
                E = sub(rest, C(a[2]))
            elif step == 1 and c == 1 and not v:     # iv + rest > k
                E = sub(C(a[2] + 1), rest)
            elif step == -1 and c == 1 and v:        # iv + rest <= k
                E = sub(C(a[2]), rest)
            elif step == -1 and c == -1 and not v:   # rest - iv > k
                E = sub(rest, C(a[2] + 1))
            else:
                continue
            if contains(E, {L.marker}):
                E = subst(E, same_sizes(le))
            if contains(E, {L.marker}):
                continue
            return (sub(E, s0) if step == 1 else sub(s0, E)), iv, s0, step
    return None


def heads(le):
    """The locations whose value changes from one iteration to the next, with the term that stands for it."""
    L = le.a['loop']
    return {k: (('iv' if L.kind.get(k) == 'iv' else 'w'), L.marker, k) for k in L.kind}


class Sum:
    """A loop that evaluates a polynomial: result sum of coefs[i] * x^i over the indices of the vector."""
    __slots__ = ('term', 'coefs', 'x', 'ring', 'bad', 'le')


def coef_elems(t, le):
    """Elements of sequences at an index that moves with the counter of the loop."""
    L = le.a['loop']
    for x in subterms(t):
        if x and x[0] == 'fld' and len(x) == 3 and isinstance(x[2], tuple) and x[2] and x[2][0] in ('x', 'sx') and x[1][0] != 'deref':
            c, d = lin(x[2][1])
            if any(k[0] == 'iv' and k[1] == L.marker for k in d):
                yield x


def evaluation(fd, it, le, F0):
    """The values that a loop computes as sums over the coefficients of a polynomial: {head term: Sum}.  Values
    that no reading of the loop as such a sum explains get a Sum with bad set."""
    L, alts = le.a['loop'], le.a['alts']
    if not alts or le.a['exit'] != 'cond':
        return {}
    ks = [k for k in L.kind if L.kind[k] == 'w']
    end = {k: [fd.n(it.load(a.st, k)) for a in alts] for k in ks}
    entry = {k: fd.n(it.load(L.entry, k)) for k in ks}
    tr = trips(le)
    out = {}
    els = set()
    for a in alts:
        for k in ks:
            els |= set(coef_elems(it.load(a.st, k), le))
        for f in a.facts:
            els |= set(coef_elems(f, le))
    vecs = {x[1] for x in els}
    if len(vecs) != 1 or tr is None:
        return {}
    V = vecs.pop()
    accs = [k for k in ks if any(any(True for _ in coef_elems(x, le)) for x in end[k])]
    # a temporary variable that is overwritten before it is read is not carried along
    read = set()
    for a in alts:
        for k in ks:
            v = it.load(a.st, k)
            read |= {x for x in subterms(v) if x and x[0] == 'w' and x[1] == L.marker and x != ('w', L.marker, k)}
        for f in a.facts:
            read |= {x for x in subterms(f) if x and x[0] == 'w' and x[1] == L.marker}
    carried = [k for k in accs if ('w', L.marker, k) in read or any(contains(x, {('w', L.marker, k)}) for x in end[k])]
    for k in carried:
        f = ('w', L.marker, k)
        if k[1] or not isinstance(k[0], tuple):
            continue
        try:
            r = accumulate(fd, it, le, k, f, V, els, ks, end, entry, tr)
        except Unk as e:
            r = Sum()
            r.bad = ('?', str(e))
            r.ring = False
        except Bad as e:
            r = Sum()
            r.bad = ('x', str(e))
            r.ring = False
        if r is not None:
            r.term, r.le, r.coefs = f, le, V
            out[f] = r
    return out


def is_ring(t):
    return t[0] == 'app' and isinstance(t[1], str) and re.match(r'fq_|nmod_', t[1]) is not None


def accumulate(fd, it, le, k, f, V, els, ks, end, entry, tr):
    L, alts = le.a['loop'], le.a['alts']
    n, iv, s0, step = tr
    r = Sum()
    r.bad = None
    r.ring = any(is_ring(x) for x in end[k]) or is_ring(entry[k])
    if len(els) != 1:
        raise Unk('the loop reads the coefficients at %d places' % len(els))
    c = next(iter(els))
    j = c[2][1]                            # the index of the coefficient of this iteration
    dj = sub(j, iv)
    if not isint(sub(dj, C(0))) and lin(dj)[1]:
        raise Unk('index of the coefficient')
    val = (lambda t, F: fd.ring(t, F)) if r.ring else (lambda t, F: fd.value(t, F))
    atom = elem if r.ring else gpow
    # the general step: value' = A * value + c * M
    A = M = None
    cases = []
    for i, a in enumerate(alts):
        F = fd.facts(a.facts)
        if r.ring:
            hyps = [(F, None, None)]
        else:
            hyps = []
            for hf in (False, True):
                Ff = suppose(F, f, P, hf)
                for hc in (False, True):
                    Fc = suppose(Ff, c, P, hc) if Ff is not None else None
                    if Fc is not None:
                        hyps.append((Fc, hf, hc))
        for F, hf, hc in hyps:
            rel_ = None
            t = end[k][i]
            e = val(t, F)
            if r.ring:
                hf = False
                hc = val(c, F) == {}
            zero = not r.ring and decide_eq(F, t, P) is True
            if zero and not hf and not hc:
                # the sum was found to be zero: by which entry of the table?
                for at, v in F.items():
                    if at[0] == 'eqk' and v:
                        for x in dict(at[1]):
                            lk = fd.lookup(x)
                            if lk and lk[0] == 'inc' and decide_eq(F, x, P) is True:
                                rel_ = padd(ONE, fd.gexp(lk[1], F))
            same = None
            if not r.ring and not hf and not hc:
                # the term of the coefficient was found to be equal to the partial result
                same = next((x for x in {y for at in F for y in subterms(at) if y and y[0] == 'fld' and contains(y, {c})}
                             if fd.lookup(x) and fd.lookup(x)[0] == 'red' and test(F, atom_lt(x, f)) is False and test(F, atom_lt(f, x)) is False), None)
                if same is not None:
                    same = fd.gexp(same, F)
            cases.append((i, F, hf, hc, e, (rel_, same), a))
            if not hf and not hc and not zero and same is None:
                fa, ca = (f, 1), (c, 1)
                A2, B2 = {}, {}
                for (mo, ex), co in e.items():
                    cnt = dict(mo).get(f, 0) if r.ring else lin(ex)[1].get(f, 0)
                    if cnt == 1:
                        A2[(mo, ex)] = co
                    elif cnt == 0:
                        B2[(mo, ex)] = co
                    else:
                        r.bad = ('x', 'the partial result enters its successor as %s' % pshow(e))
                        return r
                A2, M2 = pmul(A2, pinv(atom(f))), pmul(B2, pinv(atom(c)))
                if A is None:
                    A, M = A2, M2
                elif (A, M) != (A2, M2):
                    r.bad = ('x', 'the coefficient enters the sum as %s in one case and as %s in another' % (pshow(M), pshow(M2)))
                    return r
    if A is None:
        raise Unk('no step for coefficients that are not zero')
    if A == {} and M == ONE and r.ring and all(e == ({} if hc else atom(c)) for _, _, hf, hc, e, _, _ in cases):
        # at the point zero the scheme of Horner leaves the coefficient that comes last
        last = subst(j, {iv: add(s0, scale(sub(n, C(1)), step))})
        if last != C(0):
            r.bad = ('x', 'the value left at the point zero is the coefficient of index %s' % show(last))
        r.x = {}
        return r
    if len(M) != 1 or len(A) != 1:
        r.bad = ('x', 'a step makes the value %s times itself plus the coefficient times %s' % (pshow(A), pshow(M)))
        return r
    for i, F, hf, hc, e, rel_, a in cases:
        want = padd({} if hf else pmul(A, atom(f)), {} if hc else pmul(M, atom(c)))
        rel_, same = rel_
        if e == want:
            continue
        if same is not None and same == pmul(M, atom(c)) and e in (padd(pmul(A, atom(f)), atom(f)), padd(pmul(A, same), same)):
            continue
        if same is not None and same == pmul(M, atom(c)) and e == {} and rel_ == padd(ONE, ONE):
            continue
        if rel_ is not None and e == {} and len(want) == 2:
            m1, m2 = [{m: q} for m, q in want.items()]
            q = pmul(m2, pinv(m1))
            if rel_ == padd(ONE, q) or rel_ == padd(ONE, pinv(q)):
                continue
        r.bad = ('x', 'with %s value and %s coefficient a step gives %s where %s is due' % (
            'a zero' if hf else 'a nonzero', 'a zero' if hc else 'a nonzero', pshow(e), pshow(want)))
        return r
    # how the factors move from one iteration to the next, and where they start
    own = {x for x in patoms(A) | patoms(M) if x and x[0] in ('w', 'iv') and x[1] == L.marker}
    def at(p, first):
        res = []
        for i, a in enumerate(alts):
            F = fd.facts(a.facts)
            m = {}
            for x in own:
                if x == iv:
                    m[x] = (elem(x), s0 if first else add(iv, C(step)))
                    continue
                t = entry[x[2]] if first else end[x[2]][i]
                if r.ring:
                    m[x] = (fd.ring(t, F), None)
                else:
                    q = fd.gexp(t, F)
                    if len(q) != 1 or next(iter(q))[0]:
                        raise Unk('power')
                    m[x] = (q, next(iter(q))[1])
            res.append(psubst(p, m))
        if any(x != res[0] for x in res):
            raise Unk('the powers of the point differ between the cases of a step')
        return res[0]
    inner = lambda p: any(contains(x, {L.marker}) for x in patoms(p))
    j0 = add(s0, dj)
    size_ = size(V)
    e0 = entry[k]
    ent = lambda idx: e0 == get({}, V, ('x', idx)) or e0 == ('fld', V, ('x', idx))
    zero0 = e0 == P if not r.ring else val(e0, {}) == {}
    if A == ONE and (step == 1 or M != ONE):
        if step != 1:
            raise Unk('sum of descending powers')
        nx = at(M, False)
        r.x = pmul(nx, pinv(M)) if nx else {}
        if inner(r.x):
            r.bad = ('x', 'the power of the point changes by %s from one step to the next' % pshow(r.x))
            return r
        if not isint(j0):
            raise Unk('first index %s' % show(j0))
        want = ppow(r.x, j0[1]) if r.x or j0[1] else ONE
        first = at(M, True)
        if first != want:
            r.bad = ('x', 'the first power used is %s, with the coefficient of index %d (point %s)' % (pshow(first), j0[1], pshow(r.x)))
            return r
        if not (zero0 and j0 == C(0) or ent(C(0)) and j0 == C(1)):
            r.bad = ('x', 'the sum starts with %s before the coefficient of index %s' % (show(e0), show(j0)))
            return r
        if add(n, j0) != size_ and fd.n(add(n, j0)) != fd.n(size_):
            r.bad = ('x', 'the last coefficient added is the one of index %s' % show(sub(add(n, j0), C(1))))
            return r
    else:
        if M != ONE or inner(A):
            r.bad = ('x', 'a step multiplies the value by %s and adds the coefficient times %s' % (pshow(A), pshow(M)))
            return r
        r.x = A
        if step != -1 and not (step == 1 and lin(j)[1].get(iv) == -1):
            r.bad = ('x', 'the scheme of Horner goes through the coefficients from the constant one on')
            return r
        last = add(n, C(0))
        if not (zero0 and j0 == sub(size_, C(1)) or ent(sub(size_, C(1))) and j0 == sub(size_, C(2))):
            r.bad = ('x', 'the scheme of Horner starts with %s before the coefficient of index %s' % (show(e0), show(j0)))
            return r
        if sub(j0, n) != C(-1):
            r.bad = ('x', 'the scheme of Horner ends with the coefficient of index %s' % show(add(sub(j0, n), C(1))))
            return r
    return r


# ------------------------------------------------------------------ the functions that count
NBLOC = (('o', 'this'), (NB,))


def roles(ctx):
    """The members of the table that reduce exponents and that hold the logarithms of 1 + g^i."""
    m = [f['n'] for f in ctx.record(TABLE)['fields'] if 'vector' in tname(f['t']) or 'vector' in str(f['t'])]
    red = [x for x in m if 'reduction' in x]
    inc = [x for x in m if 'increment' in x]
    ctx.need(len(red) == 1 and len(inc) == 1, 'the tables of %s were not recognised' % TABLE)
    return red[0], inc[0]


def on_map(e):
    """Does an event change the numbers of points (or the object as a whole)?"""
    l = mutates(e) if e.a.get('op') != 'insert_present' else None
    if l is None or l[0] != ('o', 'this'):
        return False
    return not l[1] or l[1][0] == NB


def counting(ctx):
    """(function, paths, interpreter) of the members of a curve that others call to count points."""
    out = []
    for f in ctx.entries(CURVE):
        if f.get('ctor') or f.get('dtor') or f['q'].split('::')[-1].startswith('operator'):
            continue
        try:
            ps, it = ctx.run(f)
        except Broken:
            raise
        if any(on_map(e) for e in allevs(ps)):
            out.append((f, ps, it))
    ctx.need(out, 'no member of %s counts points' % CURVE)
    return out


def keeps_keys(le):
    return not any(e.kind == 'cop' and on_map(e) and e.a['op'] in ('erase', 'clear', 'swap', 'assign') or
                   e.kind in ('w', 'moved') and on_map(e) and len(mutates(e)[1]) < 2 for a in le.a['alts'] for e in flat(a.events))


def possible(it, facts, ls):
    """Could this combination of facts occur?  Entries of the numbers of points that are there before a loop
    that removes none are there after it."""
    for a, v in facts.items():
        if a[0] == 'has' and a[1][0] == 'w' and not v:
            for le in ls:
                if le.a['loop'].marker == a[1][1]:
                    m = it.load(le.a['loop'].entry, NBLOC)
                    if a[1][2] == NBLOC and keeps_keys(le) and has_key(facts, m, a[2]) is True:
                        return False
    return True


def is_size_pos(F):
    return F


class Counted:
    """What one path of a counting function does to the numbers of points."""
    pass


def atoms_of(t):
    return lin(t)[1]


def grow(it, t, evs, F):
    """A number as constant + values from before + what loops add: (const, {atom: k}, [(loop, alt, amount)])."""
    c, d = lin(t)
    base, adds = {}, []
    for a, k in d.items():
        mk = [x for x in subterms(a) if x and x[0] == 'w' and len(x) == 3]
        mk = [x for x in mk if x[2] == NBLOC or (x[2][0] == NBLOC[0] and x[2][1][:1] == NBLOC[1])]
        if not mk and a[0] in ('w', 'iv') and len(a) == 3 and a[2][0][0] == 'v':
            mk = [a]         # a local variable that counts
        if not mk:
            base[a] = base.get(a, 0) + k
            continue
        w = max(mk, key=lambda x: len(repr(x)))
        le = next((l for l in loops(evs) if l.a['loop'].marker == w[1]), None)
        if le is None:
            base[a] = base.get(a, 0) + k
            continue
        def rebuild(v, facts):
            def go(x):
                if x == w:
                    return v
                return get(facts, go(x[1]), x[2])
            return go(a)
        L = le.a['loop']
        e = rebuild(it.load(L.entry, w[2]), F)
        c2, b2, a2 = grow(it, e, evs, F)
        c += k * c2
        for x, n in b2.items():
            base[x] = base.get(x, 0) + k * n
        adds += [(l, al, k * n) for l, al, n in a2]
        for al in le.a['alts']:
            if not possible(it, al.facts, list(loops(evs))):
                continue
            v = rebuild(it.load(al.st, w[2]), al.facts)
            dl = sub(v, a)
            if lin(dl)[1].get(a) == -1 and any(x[0] == 'has' and y is False and contains(a, {('fld', x[1], ('k', x[2]))}) for x, y in al.facts.items()):
                dl = v       # the entry was not there: it starts at zero
            c3, b3, a3 = grow(it, dl, al.events, al.facts)
            if b3 or a3:
                raise Unk('the numbers grow by %s in a step' % show(dl))
            adds.append((le, al, k * c3))
    return c, base, adds


def counted(ctx, f, ps, it):
    """The paths of a counting function that give numbers, with the numbers they give."""
    rd = roles(ctx)
    out = []
    for p in ps:
        if p.kind != 'ret':
            continue
        ls = list(loops(p.events))
        if not possible(it, p.facts, ls):
            continue
        ch = [e for e in flat(p.events) if on_map(e)]
        r = Counted()
        r.path, r.loops, r.changes, r.it, r.fn = p, ls, ch, it, f
        r.keys = set()
        for e in ch:
            l = mutates(e)
            if e.kind == 'cop' and len(l[1]) == 1 and e.a['op'] in ('insert', 'insert_present'):
                r.keys.add(e.a['args'][0])
            elif len(l[1]) > 1 and l[1][1][0] == 'k':
                r.keys.add(l[1][1][1])
            else:
                r.keys.add(None)
        out.append(r)
    return out


def field_of(ctx, r, key):
    """The field over which a path counts, from the entry that it fills."""
    if key[0] == 'fld' and key[2] == 'prime_exponent' and key[1] != ('deref', ('fld', ('sym', 'this'), 'table')):
        return Field(ctx, table=key[1], key=key, roles=roles(ctx)), 'log'
    for x in subterms(tuple(e.a['val'] for e in flat(r.path.events) if e.kind == 'w' and e.a['val'])):
        if x and x[0] == 'app' and x[1] == 'std::pow' and x[3] == key:
            return Field(ctx, key=key, prime=x[2]), 'ring'
    return None, None


def c27(ctx):
    """Every function by which others count the points of a curve touches, on every path, no more than the
    entry of the extension that it was asked for, and the number it leaves there is made from constants and
    from what it counts itself, nothing that was there before; if it leaves the entry alone then the entry is
    there."""
    n = 0
    for f, ps, it in counting(ctx):
        name = f['q'] + '/' + ','.join(tname(q['t']) for q in f['params'])
        for r in counted(ctx, f, ps, it):
            p, F = r.path, r.path.facts
            n += 1
            if not r.changes:
                m = it.load(p.st, NBLOC)
                has = [a for a, v in F.items() if a[0] == 'has' and v and a[1] == ('fld', ('sym', 'this'), NB)]
                ks = [a[2] for a in has if requested(f, a[2])]
                ctx.ob(bool(ks), 'kept', name, f, 'a path that counts nothing has found the entry of the requested extension',
                       '' if ks else 'a path returns without numbers for the extension')
                continue
            ok = True
            for e in r.changes:
                l = mutates(e)
                k = e.a['args'][0] if e.kind == 'cop' and len(l[1]) == 1 and e.a['op'] in ('insert', 'insert_present') else \
                    l[1][1][1] if len(l[1]) > 1 and l[1][1][0] == 'k' else None
                ok = ctx.ob(k is not None and requested(f, k), 'only-entry', name, e, 'counting changes only the entry of the requested extension',
                            'changes %s' % (show(k) if k is not None else 'the numbers of all extensions'))
                if not ok:
                    break
            other = [e for e in flat(p.events) if (mutates(e) or (None,))[0] == ('o', 'this') and not on_map(e)]
            ctx.ob(not other, 'no-other', name, other[0] if other else f, 'counting changes nothing else about the curve',
                   'writes %s' % show_loc(mutates(other[0])) if other else '')
            if not ok:
                continue
            key = next(iter(r.keys))
            for i, what in ((0, 'unramified'), (1, 'ramified')):
                v = get(F, get(F, it.load(p.st, NBLOC), ('k', key)), i)
                try:
                    c, base, adds = grow(it, v, p.events, F)
                except Unk:
                    base = None      # left to C26
                if base is None:
                    continue
                old = [a for a in base if contains(a, {('fld', ('sym', 'this'), NB)}) or contains(a, {NB})]
                ctx.ob(not old, 'fresh', name + '/' + what, r.changes[0], 'the number of %s points left for the extension is what this call has counted' % what,
                       'it includes %s from before' % show(old[0]) if old else '')
    ctx.need(n, 'no path of a counting function returns')


def requested(f, key):
    """Is a key the extension that a counting function was asked for: a parameter, or the one of a table that is
    a parameter?"""
    t = key
    if t[0] == 'fld' and t[2] == 'prime_exponent':
        t = t[1]
        while t[0] in ('deref', 'fld'):
            if t[0] == 'fld' and t[1] == ('sym', 'this'):
                return False
            t = t[1]
    return t[0] == 'sym' and t[1].startswith('arg:')



OWN = ('deref', ('fld', ('sym', 'this'), 'table'))


def c28(ctx):
    """On every path on which counting gives numbers the facts say that the characteristic of the table is that
    of the curve and that the extension is a multiple of the curve's own exponent (and is not zero where it is
    given as a number); lists of numbers of points are only made of entries that are there; every block of an
    enumeration is known to have a lower bound below its upper one when its constructor is done; the
    enumeration of curves is only constructed for odd characteristic and positive genus."""
    e, pr = ('fld', OWN, 'prime_exponent'), ('fld', OWN, 'prime')
    for f, ps, it in counting(ctx):
        name = f['q'] + '/' + ','.join(tname(q['t']) for q in f['params'])
        for r in counted(ctx, f, ps, it):
            if not r.changes:
                continue
            F = r.path.facts
            for key in r.keys:
                if key is None:
                    continue
                mult = test(F, atom_eq0(arith('%', key, e))) is True or decide_eq(F, key, e) is True
                odd = [a for a in F if contains(a, {key}) and contains(a, {e}) and a[0] not in ('has', 'all')
                       and not (a[0] == 'eqk' and len(a[1]) == 1 and a[1][0][0][:2] == ('app', '%')) and
                       not (a[0] in ('eqk', 'le') and {x for x, _ in a[1]} <= {key, e})]
                if not mult and odd:
                    raise Broken('%s compares the exponents in a way that is not understood: %s' % (name, show_atom(odd[0])))
                ctx.ob(mult, 'contains-field', name, f, 'numbers are only given for an extension that contains the field of the curve',
                       '' if mult else 'a path counts over %s without knowing that it is a multiple of the exponent of the curve' % show(key))
                if key[0] == 'sym':
                    nz = decide_eq(F, key, C(0)) is False
                    ctx.ob(nz, 'positive', name, f, 'numbers are only given for a positive exponent', 'exponent zero is a multiple of every exponent' if not nz else '')
                else:
                    t = key[1]
                    same = decide_eq(F, ('fld', t, 'prime'), pr) is True
                    ctx.ob(same, 'characteristic', name, f, 'numbers are only given with the tables of the characteristic of the curve',
                           '' if same else 'a path counts without having compared the characteristics')
    # lists of numbers of points
    n = 0
    for f in ctx.methods(CURVE):
        if f.get('lambda') or short(f['q']).split('::')[-1] != 'number_of_points' or not f['params']:
            continue
        ps, it = ctx.run(f)
        for p in ps:
            if p.kind != 'ret':
                continue
            for le in list(loops(p.events)):
                for a in le.a['alts']:
                    for ev in a.events:
                        if ev.kind == 'cop' and ev.a['op'] in ('push_back', 'emplace_back') and ev.a['args']:
                            v = ev.a['args'][0]
                            ks = {x[2][1] for x in subterms(v) if x and x[0] == 'fld' and x[1] == ('fld', ('sym', 'this'), NB) and isinstance(x[2], tuple)}
                            n += 1
                            ok = bool(ks) and all(test(a.facts, (('has', ('fld', ('sym', 'this'), NB), k), True)) is True for k in ks)
                            ctx.ob(ok, 'counted', f['q'], ev, 'a list of numbers of points has only numbers that have been counted',
                                   '' if ok else 'it takes %s without knowing that it is there' % show(v))
    ctx.need(n, 'no list of numbers of points is made')
    # ranges of blocks
    for f in ctx.methods('BlockIterator'):
        if not f.get('ctor') or any(tname(q['t']).endswith('BlockIterator') for q in f['params']):
            continue
        ps, it = ctx.run(f)
        name = 'BlockIterator/' + str(len(f['params']))
        for p in ps:
            if p.kind != 'ret' or not any(mutates(e_) and mutates(e_)[0] == ('o', 'this') and 'blocks' in mutates(e_)[1][:1] for e_ in flat(p.events)):
                continue
            ok = any(a[0] == 'all' and a[3] == v and nonempty_each(a[1], a[2]) for a, v in p.facts.items())
            ok = ok or any(le.a['alts'] and all(nonempty_alt(le, a) for a in le.a['alts']) for le in loops(p.events))
            ctx.ob(ok, 'nonempty', name, f, 'every block of a constructed enumeration has a lower bound below its upper bound',
                   '' if ok else 'a path constructs one without having compared the bounds of every block')
    # the enumeration of curves
    for f in ctx.methods('CurveIterator'):
        if not f.get('ctor') or len(f['params']) < 2:
            continue
        tab = next((q['n'] for q in f['params'] if FIELD in tname(q['t'])), None)
        gen = next((q['n'] for q in f['params'] if 'genus' in q['n']), None) or next((q['n'] for q in f['params'] if tname(q['t']) == 'unsigned int'), None)
        ctx.need(tab and gen, 'parameters of the enumeration of curves')
        ps, it = ctx.run(f)
        for p in ps:
            if p.kind != 'ret':
                continue
            prime = ('fld', ('sym', 'arg:' + tab), 'prime')
            odd = decide_eq(p.facts, prime, C(2)) is False
            ctx.ob(odd, 'odd', f['q'], f, 'curves are only enumerated in odd characteristic', '' if odd else 'a path constructs the enumeration for prime 2')
            pos = decide_eq(p.facts, ('sym', 'arg:' + gen), C(0)) is False
            ctx.ob(pos, 'genus', f['q'], f, 'curves are only enumerated for positive genus', '' if pos else 'a path constructs the enumeration for genus 0')
    # counting with OpenCL where there is none
    for f in ctx.methods(CURVE):
        if 'opencl' in f['q'].lower() and not f.get('lambda'):
            ps, it = ctx.run(f)
            bad = [p for p in ps if p.kind == 'ret' and not any(e_.kind in ('call', 'ext') for e_ in flat(p.events))]
            ctx.ob(not bad, 'opencl', f['q'], f, 'counting with OpenCL in a build without it gives no number', 'it returns' if bad else '')


def nonempty_each(cont, atom):
    """Does a fact about each entry of a container say that its first bound is below its second one?"""
    if atom[0] != 'le' or len(atom[1]) != 2 or atom[2] != -1:
        return False
    d = dict(atom[1])
    lo = [x for x in d if d[x] == 1]
    hi = [x for x in d if d[x] == -1]
    if len(lo) != 1 or len(hi) != 1:
        return False
    lo, hi = lo[0], hi[0]
    return lo[0] == hi[0] == 'fld' and lo[2] == 0 and hi[2] == 1 and lo[1] == hi[1] and contains(lo[1], {cont})


def nonempty_alt(le, a):
    sw = sweep(le)
    return bool(sw) and any(v and nonempty_each(sw[1], at) for at, v in a.facts.items() if sw[0] == 'iter')


def multiples(ctx, f, it, p, e, first=None):
    """The loop of a path that goes through the multiples of e from e on: (loop, term), or None."""
    first = e if first is None else first
    for le in loops(p.events):
        L = le.a['loop']
        for k in L.kind:
            if k not in L.kind or k[1]:
                continue
            t = (('iv' if L.kind[k] == 'iv' else 'w'), L.marker, k)
            if t[0] != 'w' or it.load(L.entry, k) != first:
                continue
            if le.a['alts'] and all(sub(it.load(a.st, k), t) == e for a in le.a['alts']):
                return le, t
    return None


class Event_:
    """Another reading of an event."""
    def __init__(s, kind, of, a):
        s.__dict__.update(of.__dict__) if hasattr(of, '__dict__') else [setattr(s, k, getattr(of, k)) for k in of.__slots__]
        s.kind, s.a = kind, a


def fresh_map(it, le, loc):
    """Is a map empty when a loop begins, each iteration of which has a key of its own?"""
    v = it.load(le.a['loop'].entry, loc)
    return v[0] == 'M' and v[1] == C('{}') and not v[2] if v[0] == 'M' else False


def c31(ctx):
    """The table of offsets has for every entry of the numbers of points, under the same key, the value of
    prime^key + 1 - unramified - ramified; the lists of offsets and of numbers of points go through the
    multiples of the exponent of the curve up to the requested one, one entry for each, taken under that
    key; the largest counted extension is the last one of the multiples before the first that is missing."""
    e, pr, nb = ('fld', OWN, 'prime_exponent'), ('fld', OWN, 'prime'), ('fld', ('sym', 'this'), NB)
    ms = [f for f in ctx.methods(CURVE) if not f.get('lambda')]
    get_ = lambda name, n: next((f for f in ms if short(f['q']).split('::')[-1] == name and len(f['params']) == n), None)
    off, offs, nums, mx = get_('hasse_weil_offsets', 0), get_('hasse_weil_offsets', 1), get_('number_of_points', 1), get_('max_prime_exponent', 0)
    ctx.need(off and offs and nums and mx, 'the functions of a curve that report numbers of points')

    def offset_loop(p, it, f):
        """The map that a path fills with the offsets."""
        for le in loops(p.events):
            sw = sweep(le)
            if not sw or sw[0] != 'iter' or sw[1] != nb or not le.a['alts']:
                continue
            locs = set()
            for a in le.a['alts']:
                ws = [x for x in a.events if x.kind == 'w' and x.a['loc'][1] and isinstance(x.a['loc'][1][-1], tuple) and x.a['loc'][1][-1][0] == 'k']
                ins = [x for x in a.events if x.kind == 'cop' and x.a['op'] == 'insert' and not x.a.get('dflt') and len(x.a['args']) == 2]
                if not ws and not ins and any(x.kind == 'cop' and x.a['op'] == 'insert_present' and x.a['args'][0] == ('key', nb, sw[2]) and
                                              fresh_map(it, le, x.a['loc']) for x in a.events):
                    continue                # every key is met once, so that none is there already
                if not ws and ins:
                    x = ins[-1]
                    ws = [Event_('w', x, dict(loc=(x.a['loc'][0], x.a['loc'][1] + (('k', x.a['args'][0]),)), val=x.a['args'][1]))]
                if not ws:
                    ctx.ob(False, 'offset', f['q'], le, 'every entry of the numbers of points has an offset', 'an iteration stores none')
                    continue
                w = ws[-1]
                k = ('key', nb, sw[2])
                v = get(a.facts, nb, ('k', k))
                want = sub(sub(add(('app', 'std::pow', pr, k), C(1)), get(a.facts, v, 0)), get(a.facts, v, 1))
                okk = w.a['loc'][1][-1][1] == k
                ctx.ob(okk, 'key', f['q'], w, 'the offset of an extension is stored under its exponent', '' if okk else 'stored under %s' % show(w.a['loc'][1][-1][1]))
                # the exponents are multiples of that of the field of the curve
                alike = {('app', 'std::pow', ('fld', OWN, 'prime_power'), ('app', '/', k, e)): ('app', 'std::pow', pr, k)}
                rest = sub(reval(a.facts, subst(w.a['val'], alike)), want)
                okv = rest == C(0)
                bases, exps = (pr, ('fld', OWN, 'prime_power')), (k, e, ('app', '/', k, e))
                known = lambda x: x in exps or x[:2] == ('app', 'std::pow') and x[2] in bases and (x[3] in exps or isint(x[3]))
                if not okv and any(x[0] == 'app' and not known(x) for x in subterms(rest) if len(x) > 1):
                    raise Broken('the offset is computed in a form that is not understood: %s' % show(w.a['val']))
                ctx.ob(okv, 'offset', f['q'], w, 'the offset is the number of elements plus one minus all points', '' if okv else 'it is %s' % show(w.a['val'], 8))
                locs.add((w.a['loc'][0], w.a['loc'][1][:-1]))
            return le, locs
        return None
    ps, it = ctx.run(off)
    for p in ps:
        if p.kind == 'ret':
            r = offset_loop(p, it, off)
            ctx.ob(r is not None, 'each', off['q'], off, 'the offsets are computed from every entry of the numbers of points', 'no loop runs over all of them' if r is None else '')
            if r:
                v = p.val
                ok = bool(v) and contains(v, {('w', r[0].a['loop'].marker, l) for l in r[1]})
                ctx.ob(ok, 'returned', off['q'], off, 'the offsets are what is returned', '' if ok else 'returns %s' % show(v))
    for f, what in ((offs, 'offsets'), (nums, 'numbers of points')):
        ps, it = ctx.run(f)
        mxp = ('sym', 'arg:' + f['params'][0]['n'])
        for p in ps:
            if p.kind != 'ret':
                continue
            src = None
            if f is offs:
                r = offset_loop(p, it, f)
                src = {('w', r[0].a['loop'].marker, l) for l in r[1]} if r else None
            m = multiples(ctx, f, it, p, e)
            if m is None and not any(e_.kind == 'loop' and e_.a['alts'] for e_ in p.events):
                continue
            ctx.ob(m is not None, 'multiples', f['q'], f, 'the list of %s goes through the multiples of the exponent of the curve' % what,
                   'no loop starts with it and moves by it' if m is None else '')
            if m is None:
                continue
            le, t = m
            done = test(le.a['xfacts'], atom_lt(mxp, t))
            within = all(test(a.facts, atom_lt(mxp, t)) is False for a in le.a['alts'])
            ctx.ob(done is True and within, 'upto', f['q'], le, 'the list of %s ends with the last multiple up to the requested one' % what,
                   'it goes on while %s' % '; '.join(show_atom(a) for a in le.a['xfacts'] if contains(a, {t})) if not (done is True and within) else '')
            for a in le.a['alts']:
                pu = [x for x in a.events if x.kind == 'cop' and x.a['op'] in ('push_back', 'emplace_back')]
                ok = len(pu) == 1
                if ok:
                    v = pu[0].a['args'][0]
                    ks = {x[2][1] for x in subterms(v) if x and x[0] == 'fld' and len(x) == 3 and isinstance(x[2], tuple) and x[2] and x[2][0] == 'k' and (src is None or True)}
                    dflt = v == C(0) and f is offs and any(b[0] == 'has' and b[2] == t and not w_ for b, w_ in a.facts.items())
                    ok = ks == {t} or dflt
                ctx.ob(ok, 'entry', f['q'], pu[0] if pu else le, 'the list of %s has for each multiple the entry of that extension' % what,
                       '' if ok else 'it gets %s' % (', '.join(show(x.a['args'][0]) for x in pu) or 'nothing'))
    ps, it = ctx.run(mx)
    for p in ps:
        if p.kind != 'ret':
            continue
        m, ahead = multiples(ctx, mx, it, p, e), C(0)
        if m is None:
            # a counter of the extensions that are there, the next one is asked for
            m, ahead = multiples(ctx, mx, it, p, e, C(0)), e
        if m is None and not any(e_.kind == 'loop' for e_ in p.events) and p.val == C(0) and (
                test(p.facts, (('has', nb, e), True)) is False or test(p.facts, atom_eq0(size(nb))) is True):
            continue
        ok = False
        if m:
            le, t = m[0], add(m[1], ahead)
            ok = p.val == sub(t, e) and test(p.facts, (('has', nb, t), True)) is False and \
                all(test(a.facts, (('has', nb, t), True)) is True for a in le.a['alts'])
        ctx.ob(ok, 'largest', mx['q'], mx, 'the largest counted extension is the last one before the first multiple that is missing',
               '' if ok else 'it returns %s' % show(p.val))



# ------------------------------------------------------------------ classification of values and points
CLS = {'zero': (0, 1), 'square': (2, 0), 'nonsquare': (0, 0)}
OWNC = ('fld', ('sym', 'this'), 'poly_coeff_exponents')
P_OWN = ('fld', OWN, 'prime_power_pred')


def truth(fd, atom, Y, H, ring):
    """Truth of an atom about the value Y when it is zero, a nonzero square or a nonsquare; None if either."""
    if atom[0] == 'eqk' and len(atom[1]) == 1:
        x, k = atom[1][0]
        if x == ('par', Y) and not ring:
            return k * (1 if H == 'nonsquare' else 0) == atom[2]
        if x == Y and not ring:
            return None if H == 'square' or atom[2] != 0 else False
        if ring and x[0] == 'app' and str(x[1]).endswith('_is_zero') and x[2] == Y:
            return k * (1 if H == 'zero' else 0) == atom[2]
        if ring and x[0] == 'app' and str(x[1]).endswith('_is_square') and x[2] == Y:
            return k * (0 if H == 'nonsquare' else 1) == atom[2]
        if ring and x[0] == 'app' and str(x[1]).endswith('_is_one'):
            y = x[2]
            if y == Y:
                return None if H == 'square' else k * 0 == atom[2]
            if y[0] == 'app' and str(y[1]).endswith('_pow_ui') and y[2] == Y:
                n = fd.n(y[3])
                if n == arith('/', P, C(2)):
                    return k * (1 if H == 'square' else 0) == atom[2]
                return 'wrong'
    if atom[0] in ('eqk', 'le') and not ring and len(atom[1]) == 2:
        d = dict(atom[1])
        if set(d) == {Y, P_OWN} and d[Y] == -d[P_OWN]:
            if Y[0] == 'fld' and Y[1] == OWNC:
                # the curve's own coefficient is the value only if both fields are the same
                return truth(fd, (atom[0], ((Y, d[Y]), (P, d[P_OWN])), atom[2]), Y, H, ring)
            if atom[0] == 'eqk' and atom[2] == 0 and H == 'zero':
                return False         # the code of zero is that of the extension
            return None
        if set(d) == {Y, P} and d[Y] == -d[P]:
            # s * (Y - P) related to k, where Y is between 0 and P
            s_ = d[Y]
            if atom[0] == 'eqk':
                return (H == 'zero') if atom[2] == 0 else None
            if s_ == 1:      # Y - P <= k
                return True if atom[2] >= 0 else (H != 'zero') if atom[2] == -1 else None
            return (H == 'zero') if atom[2] == 0 else True if atom[2] > 0 and H == 'zero' else None
    raise Unk('a test of the value: %s' % show_atom(atom))


def about(F, Y):
    return [(a, v) for a, v in F.items() if a[0] not in ('has', 'all') and contains(a, {Y})]


def agrees(fd, F, Y, H, ring):
    for a, v in about(F, Y):
        t = truth(fd, a, Y, H, ring)
        if t == 'wrong':
            continue
        if t is not None and t != v:
            return False
    return True


def wrong_power(fd, F, Y):
    for a, v in about(F, Y):
        for x in subterms(a):
            if x and x[0] == 'app' and str(x[1]).endswith('_pow_ui') and x[2] == Y and fd.n(x[3]) != arith('/', P, C(2)):
                return x[3]
    return None


S = ('sym', '#s')


def under(t, sizes, odd):
    """t when the number of coefficients is even or odd."""
    v = add(scale(S, 2), C(1 if odd else 0))
    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x in sizes:
            return v
        y = tuple(go(z) for z in x)
        y = renorm(y) if y != x else x
        if y[0] == 'par':
            c, d = lin(y[1])
            if all(k % 2 == 0 for k in d.values()):
                return C(c % 2)
        if y[0] == 'app' and len(y) == 4 and y[1] == '/' and y[3] == C(2):
            c, d = lin(y[2])
            if all(k % 2 == 0 for k in d.values()):
                return mklin_(c // 2, {a: k // 2 for a, k in d.items()})
        return y
    return go(t)


def degree_agrees(F, sizes, odd_size):
    for a, v in F.items():
        if a[0] in ('has', 'all') or not contains(a, sizes):
            continue
        if a[0] not in ('eqk', 'le'):
            continue
        t = C(0)
        for x, k in a[1]:
            t = add(t, scale(under(x, sizes, odd_size), k))
        c, d = lin(t)
        if not d:
            r = c == a[2] if a[0] == 'eqk' else c <= a[2]
            if r != v:
                return False
    return True


def star_key(V):
    if V[0] == 'S' and len(V[1]) == 1:
        V = V[1][0]
    return V[2] if V[0] == 'star' else None


class Counting:
    """One path that counts: the field, the sums that its loops form, the numbers it leaves."""


def countings(ctx):
    """Every path of every counting function that counts over a field that is understood."""
    if hasattr(ctx, '_countings'):
        return ctx._countings
    out = []
    for f, ps, it in counting(ctx):
        name = f['q'] + '/' + ','.join(tname(q['t']) for q in f['params'])
        some = False
        for r in counted(ctx, f, ps, it):
            if not r.changes:
                continue
            if len(r.keys) != 1 or None in r.keys:
                continue                 # C27
            key = next(iter(r.keys))
            fd, dom = field_of(ctx, r, key)
            if fd is None:
                raise Broken('the field over which %s counts is not understood' % name)
            r.key, r.fd, r.ring, r.name = key, fd, dom == 'ring', name
            r.F = fd.facts(r.path.facts)
            some = True
            out.append(r)
        if not some:
            raise Broken('no path of %s counts' % name)
    ctx._countings = out
    return out


def sums(r, evs):
    """{head term: Sum} for the loops among these events (not inside other loops)."""
    out = {}
    for le in evs:
        if le.kind == 'loop':
            k = (id(le), id(r.fd))
            if k not in SUMS:
                SUMS[k] = (le, evaluation(r.fd, r.it, le, {}))
            out.update(SUMS[k][1])
    return out


SUMS = {}


def conversion(ctx, r, V):
    """Is V the list of the coefficients of the curve as elements of the field that r counts over?  Returns the
    loop that makes it, True for the curve's own list, or None."""
    if V == OWNC or V == ('S', (('b', OWNC),)):
        return True
    k = star_key(V)
    if k is None:
        return None
    for le in r.loops:
        if le.a['loop'].kind.get(k) == 'hole' and k in le.a['loop'].start:
            return le
    return None


def check_conversion(ctx, r, le, rule):
    """Each step of a loop that converts the coefficients of the curve appends one, the one in the larger field."""
    fd, it = r.fd, r.it
    L = le.a['loop']
    sw = sweep(le)
    ok = bool(sw) and sw[0] == 'iter' and sw[1] == OWNC
    if not ok:
        tr = trips(le)
        ok = tr is not None and tr[0] == size(OWNC) and tr[3] == 1
    ctx.ob(ok, rule, r.name + '/all', le, 'every coefficient of the curve is carried over to the larger field, in order', '' if ok else 'the loop does not run over all of them')
    if not ok:
        return
    tr = trips(le)
    iv = tr[1] if tr else sw[2]
    c = get({}, OWNC, ('x', iv))
    m = {('fld', OWN, 'prime_power'): add(P_OWN, C(1))}
    q = arith('/', P, P_OWN)
    key = next(k for k in L.kind if L.kind[k] == 'hole' and k in L.start and not k[1])
    for a in le.a['alts']:
        pu = [e for e in a.events if e.kind == 'cop' and e.a['op'] in ('push_back', 'emplace_back')]
        one = len(pu) == 1 and len([e for e in flat(a.events) if e.kind == 'cop' and e.a['op'] in MUT]) == 1
        ctx.ob(one, rule, r.name + '/one', le, 'each coefficient gives one coefficient over the larger field', '' if one else 'a step appends %d' % len(pu))
        if not one:
            continue
        t = pu[0].a['args'][0]
        F0 = fd.facts(rename(a.facts, m) or {})
        for z in (False, True):
            F = suppose(F0, c, P_OWN, z)
            if F is None:
                continue
            if r.ring:
                if t[0] != 'ptr':
                    raise Broken('%s keeps coefficients in a form that is not understood' % r.name)
                v = it.load(a.st, t[1])
                try:
                    e = fd.ring(v, F)
                    # the exponent may be written in several ways
                    ok = e == {} if z else any(e == w for w in (gpow(mul(q, c)), gpow(arith('/', mul(P, c), P_OWN))))
                    got = pshow(e)
                except Unk as x:
                    ok, got = False, show(v)
                    if v[0] != 'app':
                        raise Broken('%s converts coefficients in a way that is not understood: %s' % (r.name, x))
            else:
                v = fd.n(subst(t, m))
                ok = decide_eq(F, v, P) is True if z else v in (mul(q, c), arith('/', mul(P, c), P_OWN), arith('%', mul(q, c), P))
                got = show(v, 8)
            ctx.ob(ok, rule, r.name + ('/zero' if z else '/nonzero'), pu[0],
                   'a coefficient that is zero stays zero' if z else 'a power of the generator of the field of the curve becomes the same element of the larger field',
                   '' if ok else 'it becomes %s' % got)


def poly_ok(ctx, r, V, where, rule):
    """The list V that a sum runs over is the polynomial of the curve over the field of r."""
    c = conversion(ctx, r, V)
    if c is None:
        raise Broken('%s reads coefficients from a list that is not understood: %s' % (r.name, show(V)))
    if c is True:
        same = not r.ring and decide_eq(r.path.facts, r.key, ('fld', OWN, 'prime_exponent')) is True
        ctx.ob(same, rule, r.name + '/own', where, 'the coefficients are used as they are only over the field of the curve itself',
               '' if same else 'they are codes of another field')
    else:
        check_conversion(ctx, r, c, rule)


def sweeping(r):
    """The numbers that a path leaves: (constants, {loop: {alt: [d0, d1]}})."""
    F = r.path.facts
    m = r.it.load(r.path.st, NBLOC)
    const, per = [0, 0], {}
    for i in (0, 1):
        v = get(F, get(F, m, ('k', r.key)), i)
        c, base, adds = grow(r.it, v, r.path.events, F)
        if base:
            raise Unk('the number includes %s' % ', '.join(show(a) for a in base))
        const[i] = c
        for le, al, n in adds:
            per.setdefault(id(le), (le, {}))[1].setdefault(id(al), (al, [0, 0]))[1][i] += n
    return tuple(const), list(per.values())


def point_of(r, le, x):
    """Does x run through every nonzero element once during the loop le?  (ok, reason)"""
    tr = trips(le)
    if tr is None:
        raise Unk('the number of points that are visited')
    n, iv, s0, step = tr
    n = r.fd.n(n)
    if n != P:
        return False, 'the loop makes %s steps, for %s nonzero elements' % (show(n), show(P))
    if len(x) != 1:
        return False, 'the point is %s' % pshow(x)
    ((mo, e), c), = x.items()
    L = le.a['loop']
    if not mo and c == 1:
        d = lin(e)[1]
        if d.get(iv) in (1, -1) and not any(contains(k, {L.marker}) for k in d if k != iv):
            return True, ''
        ws = [k for k in d if k[0] == 'w' and k[1] == L.marker]
        if len(d) == 1 and len(ws) == 1 and d[ws[0]] == 1:
            k = ws[0][2]
            for a in le.a['alts']:
                g = r.fd.gexp(r.fd.n(r.it.load(a.st, k)), r.fd.facts(a.facts))
                if g not in (pmul(gpow(ws[0]), gpow(C(1))), pmul(gpow(ws[0]), gpow(C(-1)))):
                    return False, 'the point changes by %s' % pshow(pmul(g, gpow(scale(ws[0], -1))))
            return True, ''
        return False, 'the point is the power %s of the generator in each step' % show(e)
    if len(mo) == 1 and mo[0][1] == 1 and e == C(0) and c == 1:
        w = mo[0][0]
        if w[0] != 'w' or w[1] != L.marker:
            return False, 'the point %s does not change' % show(w)
        g = set()
        for a in le.a['alts']:
            v = r.fd.ring(r.it.load(a.st, w[2]), r.fd.facts(a.facts))
            try:
                g.add(tuple(sorted(pmul(v, pinv(elem(w))).items(), key=repr)))
            except Unk:
                return False, 'the point changes to %s' % pshow(v)
        if len(g) != 1:
            return False, 'the point changes in different ways'
        g = dict(g.pop())
        if g not in (gpow(C(1)), gpow(C(-1))):
            return False, 'the point is multiplied by %s in each step' % pshow(g)
        st = r.fd.ring(r.it.load(L.entry, w[2]), {})
        if len(st) != 1 or next(iter(st))[0] or list(st.values()) != [1]:
            return False, 'the first point is %s' % pshow(st)
        gens = [y for a in le.a['alts'] for y in subterms(r.it.load(a.st, w[2])) if y and y[0] == 'app' and str(y[1]).endswith('_gen')]
        for y in gens:
            if not re.search(r'conway|fq_zech_ctx_init', str(y[2][1] if y[2][0] == 'app' else '')):
                return False, 'the element that FLINT calls a generator of %s need not generate the multiplicative group' % show(y[2])
        return True, ''
    return False, 'the point is %s' % pshow(x)


def c26(ctx):
    """On every path on which points are counted: one loop visits every nonzero element of the field once (its
    point is the generator to the power of a counter with as many steps as there are nonzero elements, or an
    element that is multiplied by the generator as often); in each of its cases the amounts added to the two
    numbers are those of the class of the value (zero, square, nonsquare) that the case allows; what is added
    outside of the loop is, for every combination of classes of the constant and the leading coefficient and
    of the parity of the degree that the path allows, the contribution of the value at zero and of infinity.
    The direct counts evaluate the polynomial as the sum of its coefficients times the powers of the point."""
    n = 0
    for r in countings(ctx):
        it, fd, name, ring = r.it, r.fd, r.name, r.ring
        f = r.fn
        try:
            const, per = sweeping(r)
        except Unk as e:
            if any(contains(x, {NB}) for x in [()]):
                pass
            raise Broken('%s: %s' % (name, e))
        n += 1
        hot = [(le, als) for le, als in per if any(d != [0, 0] for _, d in als.values())]
        ctx.ob(len(hot) == 1, 'sweep', name, f, 'one loop counts the points over the nonzero elements', '' if len(hot) == 1 else '%d loops count points' % len(hot))
        if len(hot) != 1:
            continue
        le, als = hot[0]
        vecs = set()
        for al, d in als.values():
            sm = sums(r, al.events)
            F = fd.facts(al.facts)
            used = [s for t, s in sm.items() if about(F, t)]
            if not used:
                direct = sm
                ctx.ob(False, 'class', name, le, 'every point is counted by the class of the value of the polynomial there',
                       'a case of the loop adds %s whatever the value is' % (tuple(d),))
                continue
            if len(used) != 1:
                raise Broken('%s tests several values in a step' % name)
            s = used[0]
            if s.bad:
                if s.bad[0] == '?':
                    raise Broken('%s evaluates the polynomial in a way that is not understood: %s' % (name, s.bad[1]))
                ctx.ob(False, 'value', name, s.le, 'the value is the sum of the coefficients times the powers of the point', s.bad[1])
            else:
                ctx.ob(True, 'value', name, s.le, 'the value is the sum of the coefficients times the powers of the point')
                try:
                    ok, why = point_of(r, le, s.x)
                except Unk as e:
                    raise Broken('%s: %s' % (name, e))
                ctx.ob(ok, 'points', name, le, 'the points visited are the nonzero elements of the field, each once', why)
                vecs.add(s.coefs)
            wp = wrong_power(fd, F, s.term) if ring else None
            if wp is not None:
                ctx.ob(False, 'euler', name, le, 'squares are recognised by their power to half the order of the group', 'the power taken is %s' % show(wp))
                continue
            for H in CLS:
                try:
                    if not agrees(fd, F, s.term, H, ring):
                        continue
                except Unk as e:
                    raise Broken('%s: %s' % (name, e))
                ok = tuple(d) == CLS[H]
                ctx.ob(ok, 'class', name + '/' + H, le, 'a point with a %s value adds %s to the (unramified, ramified) points' % (H, CLS[H]), '' if ok else 'it adds %s' % (tuple(d),))
        for V in vecs:
            poly_ok(ctx, r, V, f, 'coefficients')
        if not vecs:
            continue
        V = next(iter(vecs))
        if conversion(ctx, r, V) is None:
            raise Broken('%s counts a list of coefficients that is not understood' % name)
        fixed_part(ctx, r, V, const, name)
    ctx.need(n, 'no path counts points')
    strip(ctx)


def fixed_part(ctx, r, V, const, name):
    """What is added outside of the loop over the nonzero points."""
    fd, ring, F = r.fd, r.ring, r.F
    sm = sums(r, r.path.events)
    Vn = seqval(V)
    zeros = [get({}, Vn, ('x', C(0))), ('fld', V, ('x', C(0))), ('fld', Vn, ('x', C(0)))]
    for t, s in sm.items():
        if not s.bad and s.x == {} and s.coefs == V:
            zeros.append(t)
    for t, s in sm.items():
        if s.bad and about(F, t):
            if s.bad[0] == '?':
                raise Broken('%s: %s' % (name, s.bad[1]))
            ctx.ob(False, 'value', name, s.le, 'the value at zero is the sum of the coefficients times the powers of zero', s.bad[1])
    szs = {size(V), size(Vn), size(OWNC)}
    leads = []
    for sz in szs:
        for v in (V, Vn):
            leads += [get({}, v, ('x', sub(sz, C(1)))), ('fld', v, ('x', sub(sz, C(1))))]
    zeros, leads = list(dict.fromkeys(zeros)), list(dict.fromkeys(leads))
    own0 = atom_eqv(get({}, OWNC, ('x', C(0))), P_OWN)
    for t in zeros + leads:
        wp = wrong_power(fd, F, t) if ring else None
        if wp is not None:
            ctx.ob(False, 'euler', name, r.fn, 'squares are recognised by their power to half the order of the group', 'the power taken is %s' % show(wp))
            return
    for H0 in CLS:
        for odd_degree in (False, True):
            for Hl in ('square', 'nonsquare'):
                try:
                    if not all(agrees(fd, F, t, H0, ring) for t in zeros) or not all(agrees(fd, F, t, Hl, ring) for t in leads):
                        continue
                except Unk as e:
                    raise Broken('%s: %s' % (name, e))
                if test(r.path.facts, own0) not in (None, H0 == 'zero'):
                    continue
                if not degree_agrees(r.path.facts, szs, not odd_degree):
                    continue
                inf = (0, 1) if odd_degree else CLS[Hl]
                want = (CLS[H0][0] + inf[0], CLS[H0][1] + inf[1])
                ok = const == want
                ctx.ob(ok, 'fixed', '%s/%s/%s/%s' % (name, H0, 'odd' if odd_degree else 'even', Hl), r.changes[-1],
                       'with a %s value at zero, %s degree and a leading coefficient that is a %s, zero and infinity add %s' % (
                           H0, 'odd' if odd_degree else 'even', Hl, want), '' if ok else 'they add %s' % (const,))


def seqval(V):
    return V if V[0] != 'star' else ('S', (V,))


def strip(ctx):
    """The constructor of a curve removes leading coefficients that are zero, so the last one is not."""
    for f in ctx.methods(CURVE):
        if not f.get('ctor') or any(tname(q['t']).endswith('Curve') for q in f['params']):
            continue
        ps, it = ctx.run(f)
        for p in ps:
            if p.kind != 'ret':
                continue
            v = it.load(p.st, (('o', 'this'), ('poly_coeff_exponents',)))
            last = get(p.facts, v, ('x', sub(size(v), C(1))))
            tab = it.load(p.st, (('o', 'this'), ('table',)))
            ok = False
            for a, w in p.facts.items():
                if a[0] == 'eqk' and len(a[1]) == 2 and not w:
                    d = dict(a[1])
                    if last in d and any(x != last and d[x] == -d[last] and (x[0] == 'fld' and x[2] == 'prime_power_pred' and a[2] == 0 or
                                                                            x[0] == 'fld' and x[2] == 'prime_power') for x in d):
                        ok = True
            ctx.ob(ok, 'lead', f['q'], f, 'the leading coefficient of a constructed curve is not zero', '' if ok else 'a path keeps a last coefficient that may be zero')


# ------------------------------------------------------------------ tables (C32)
class Tables:
    """What the constructor of a table of a field has put into it, on one path."""


def tables(ctx):
    out = []
    red, inc = roles(ctx)
    for f in ctx.methods(TABLE):
        if not f.get('ctor') or any(tname(q['t']).endswith(TABLE) for q in f['params']):
            continue
        ps, it = ctx.run(f)
        for p in ps:
            if p.kind != 'ret':
                continue
            t = Tables()
            t.f, t.it, t.path = f, it, p
            t.this = {m: it.load(p.st, (('o', 'this'), (m,))) for m in ('prime', 'prime_exponent', 'prime_power', 'prime_power_pred', red, inc)}
            pw = t.this['prime_power']
            t.map = {t.this['prime_power']: add(P, C(1)), ('app', 'std::pow', t.this['prime'], t.this['prime_exponent']): add(P, C(1))}
            t.locs = []
            for m in (red, inc):
                v = t.this[m]
                ctx.need(v[0] == 'ptr', '%s makes its table %s in a way that is not understood' % (f['q'], m))
                t.locs.append(v[1])
            out.append(t)
    ctx.need(out, 'no table of logarithms is constructed')
    return out


def tnum(t, x):
    return expand(subst(x, t.map))


def expand(x):
    """A sum with the products in it multiplied out."""
    if x and x[0] == 'prod':
        r = C(1)
        for y in x[1]:
            r = mul(r, y)
        return r
    if x and x[0] == 'lin' and any(k[0] == 'prod' for k, _ in x[2]):
        r = C(x[1])
        for k, v in x[2]:
            r = add(r, scale(expand(k), v))
        return r
    return x


def segments(t, evs, loc, nest=()):
    """What is appended to a sequence, or written to its entries, in order: (nest of (loop, alt), event)."""
    for e in evs:
        if e.kind == 'loop':
            als = e.a['alts']
            hit = [a for a in als if any(mutates(x) and mutates(x)[0] == loc[0] and mutates(x)[1][:len(loc[1])] == loc[1] for x in flat(a.events))]
            for a in hit:
                yield from segments(t, a.events, loc, nest + ((e, a),))
        else:
            l = mutates(e)
            if l is not None and l[0] == loc[0] and l[1][:len(loc[1])] == loc[1]:
                yield nest, e


def same_alts(t, le, loc):
    """Do all alternatives of a loop do the same to a location?"""
    als = le.a['alts']
    k = {tuple(str((e.kind, e.a.get('op'), e.a.get('args'), e.a.get('val'), e.a.get('loc'))) for _, e in segments(t, a.events, loc)) for a in als}
    return len(k) == 1


def red_table(ctx, t):
    """Entry i of the table that reduces exponents is i modulo the order of the group."""
    loc = t.locs[0]
    segs = list(segments(t, t.path.events, loc))
    where = '%s/reduce' % t.f['q']
    n = C(0)                               # entries so far
    why = None
    seen = set()
    filled = None
    parts = []
    for nest, e in segs:
        if e.kind in ('ctor', 'new'):
            continue
        if e.kind == 'cop' and e.a['op'] in ('reserve', 'shrink_to_fit'):
            continue
        if e.kind == 'cop' and e.a['op'] in ('index', 'at', 'assign', 'resize') or e.kind == 'w':
            if e.kind == 'w' and len(e.a['loc'][1]) == len(loc[1]) + 1 and isinstance(e.a['loc'][1][-1], tuple) and e.a['loc'][1][-1][0] == 'x' and len(nest) == 1:
                le, al = nest[0]
                tr = trips(le)
                i = tnum(t, e.a['loc'][1][-1][1])
                off = sub(i, tr[1]) if tr is not None else None
                if tr is None or tr[3] != 1 or contains(off, {tr[1]}):
                    raise Broken('%s fills the table of exponents in a way that is not understood' % t.f['q'])
                v = tnum(t, e.a['val'])
                F = rename(al.facts, t.map) or {}
                lo, n_ = add(tnum(t, tr[2]), off), tnum(t, tr[0])
                d = sub(i, v)
                # whole turns are taken off, and what is left is below the order
                turns = multiple_of_P(d) and (sub(lo, d) == C(0) and n_ == P or d == C(0) and test(F, atom_lt(i, P)) is True)
                if not (turns or v != i and reduced(F, v, i)):
                    why = 'entry %s is %s' % (show(i), show(v))
                parts.append((lo, add(lo, n_)))
                continue
            if e.kind == 'w' and len(e.a['loc'][1]) == len(loc[1]) + 1 and isinstance(e.a['loc'][1][-1], tuple) and e.a['loc'][1][-1][0] == 'x' and len(nest) == 2:
                # rounds of entries: round h begins at h times the length of a round
                (lo_, _), (li, al) = nest
                to, ti = trips(lo_), trips(li)
                i = tnum(t, e.a['loc'][1][-1][1])
                if to is None or ti is None or to[3] != 1 or ti[3] != 1 or ti[0] != subst(ti[0], {to[1]: C(0)}):
                    raise Broken('%s fills the table of exponents in a way that is not understood' % t.f['q'])
                n_ = tnum(t, ti[0])
                off = sub(sub(i, ti[1]), mul(to[1], n_))
                if n_ != P or contains(off, {to[1], ti[1]}):
                    raise Broken('%s fills the table of exponents in a way that is not understood' % t.f['q'])
                lo = add(add(tnum(t, ti[2]), off), mul(tnum(t, to[2]), n_))
                v = tnum(t, e.a['val'])
                if sub(v, ti[1]) != scale(tnum(t, ti[2]), -1) or not multiple_of_P(lo):
                    why = 'entry %s is %s' % (show(i), show(v))
                parts.append((lo, add(lo, mul(tnum(t, to[0]), n_))))
                continue
            if e.kind == 'w' and len(nest) == 0 and not e.a['loc'][1][len(loc[1]):]:
                continue
            if e.kind == 'cop':
                continue
            raise Broken('%s fills the table of exponents in a way that is not understood' % t.f['q'])
        if e.kind != 'cop' or e.a['op'] not in ('push_back', 'emplace_back'):
            raise Broken('%s changes the table of exponents by %s' % (t.f['q'], e.a.get('op') or e.kind))
        v = tnum(t, e.a['args'][0])
        for le, al in nest:
            if id(le) in seen:
                raise Broken('%s appends several entries in a step' % t.f['q'])
        trs = [trips(le) for le, _ in nest]
        if any(x is None for x in trs) or not nest:
            raise Broken('%s appends to the table of exponents in a loop that is not understood' % t.f['q'])
        n_ = tnum(t, trs[-1][0])
        iv = trs[-1][1]
        F = rename(nest[-1][1].facts, t.map) or {}
        if len(nest[-1][0].a['alts']) == 1:
            seen.add(id(nest[-1][0]))
        reps = C(1)
        for x in trs[:-1]:
            reps = mul(reps, tnum(t, x[0]))
        start = tnum(t, trs[-1][2])
        at_ = n
        if len(nest) > 1 and n_ != P:
            why = 'the entries repeat after %s, not after %s' % (show(n_), show(P))
        q = multiple_of_P(at_)
        if q is None:
            why = 'a new round begins at entry %s' % show(at_)
        elif not reduced(F, v, sub(iv, start)) or n_ != P and v[0] != 'app':
            why = 'entry %s of a round of %s entries is %s' % (show(sub(iv, start)), show(n_), show(v))
        n = add(n, mul(reps, n_)) if len(nest[-1][0].a['alts']) == 1 else n
    if parts:
        filled, left = C(0), set(parts)
        while True:
            nxt = next((x for x in left if x[0] == filled), None)
            if nxt is None:
                break
            left.remove(nxt)
            filled = nxt[1]
        for lo, hi in left:
            c, d = lin(sub(lo, filled))
            if c < 0 or any(k != P or v < 0 for k, v in d.items()):
                raise Broken('%s fills the table of exponents in a way that is not understood' % t.f['q'])
            why = why or 'the entries from %s on are missing' % show(filled)
    if not segs or filled is None and n == C(0) and why is None:
        raise Broken('%s does not fill the table of exponents' % t.f['q'])
    ctx.ob(why is None, 'reduce', where, t.f, 'entry i of the table of exponents is i modulo the order of the multiplicative group', why or '')
    return filled or n


def multiple_of_P(x):
    c, d = lin(x)
    return True if c == 0 and all(k == P for k in d) else None


def reduced(F, v, i):
    """Is v the remainder of i modulo P?  i is at least zero."""
    if v == i or v == ('app', '%', i, P):
        return v != i or True
    if v == sub(i, P):
        return test(F, atom_lt(i, P)) is False
    return False


def inc_table(ctx, t):
    """The entry of the table at the logarithm of a is the logarithm of 1 + a."""
    it, loc = t.it, t.locs[1]
    p, e_ = t.this['prime'], t.this['prime_exponent']
    name = t.f['q']
    n = lambda x: tnum(t, x)
    segs = [(nest, e) for nest, e in segments(t, t.path.events, loc) if e.kind == 'w' and len(e.a['loc'][1]) > len(loc[1])]
    if not segs:
        raise Broken('%s does not fill the table of logarithms' % name)
    # the map from codes to exponents
    maps = {}
    for nest, e in segs:
        i = e.a['loc'][1][-1]
        for x in subterms(i[1]):
            if x and x[0] == 'fld' and isinstance(x[2], tuple) and x[2][0] == 'k':
                maps.setdefault(mapkey(x[1]), []).append(x)
    if len(maps) != 1:
        raise Broken('%s looks up exponents in %d maps' % (name, len(maps)))
    mk = next(iter(maps))
    code_map(ctx, t, mk)
    # entries
    last = {}
    parts = []                             # (kind, lo, hi, value) offsets in a block of p codes
    outer = None
    for nest, e in segs:
        i = n(e.a['loc'][1][-1][1])
        v = n(e.a['val'])
        F = rename(nest[-1][1].facts, t.map) if nest else t.path.facts
        if not nest and i == P:
            ok = v == C(0)
            ctx.ob(ok, 'one', name, e, 'the logarithm of one plus zero is that of one', '' if ok else 'it is %s' % show(v))
            continue
        src, dst = code_of(t, mk, i), code_of(t, mk, v)
        if src is None or dst is None:
            # an alternative on which the map has no entry for the code: not possible, the codes are complete
            if any(a[0] == 'has' and w is False for a, w in (F or {}).items()):
                continue
            raise Broken('%s fills the table of logarithms in a way that is not understood: %s := %s' % (name, show(i), show(v)))
        parts.append((nest, e, src, dst, F))
    if not parts:
        raise Broken('%s does not fill the table of logarithms' % name)
    blocks = {}
    seen = set()
    single = []
    for nest, e, src, dst, F in parts:
        d = sub(dst, src)
        k = (tuple(id(l) for l, _ in nest), src, dst)
        tr = trips(nest[-1][0])
        if tr is not None and lin(src)[1].get(tr[1]) == 1 and len(nest) == 2 or len(nest) == 1 and lin(src)[1] and tr is None:
            if k not in seen:
                seen.add(k)
                blocks.setdefault(id(nest[0][0]), (nest[0][0], []))[1].append((nest, src, d, tr, F, e))
        elif tr is not None and len(nest) == 1 and lin(src) == lin(tr[1]) or tr is not None and len(nest) == 1 and lin(sub(src, tr[1]))[1] == {}:
            single.append((nest, src, d, tr, F, e))
        else:
            raise Broken('%s fills the table of logarithms in a way that is not understood' % name)
    if single and blocks:
        raise Broken('%s fills the table of logarithms in several ways' % name)
    for le, bl in blocks.values():
        block_loop(ctx, t, le, bl)
    if single:
        single_loop(ctx, t, single)
    ctx.ob(True, 'increment', name + '/all', t.f, 'the table of logarithms is filled for every element')


def mapkey(m):
    m = unbase(m)
    return m[2] if m[0] == 'w' else m


def code_of(t, mk, x):
    """The code whose exponent the term x is, or None."""
    if x[0] == 'fld' and isinstance(x[2], tuple) and x[2][0] == 'k':
        if mapkey(x[1]) == mk:
            return tnum(t, x[2][1])
    return None


def block_loop(ctx, t, le, bl):
    """An outer loop over blocks of p codes."""
    name, it = t.f['q'], t.it
    p = t.this['prime']
    L = le.a['loop']
    # the start of the block
    cands = [k for k in L.kind if not k[1] and isint(it.load(L.entry, k)) and
             all(sub(it.load(a.st, k), ('w', L.marker, k)) == p for a in le.a['alts'])]
    base = None
    for k in cands:
        w = ('w', L.marker, k)
        if any(w in lin(src)[1] or any(contains(x, {w}) for x in ([tr[2]] if tr else [])) for _, src, _, tr, _, _ in bl):
            base = (w, it.load(L.entry, k))
    if base is None:
        for k in L.step:
            iv = ('iv', L.marker, k)
            raise Broken('%s goes through the codes in steps that are not understood' % name)
    w, s0 = base
    ctx.ob(s0 == C(0), 'increment', name + '/first', le, 'the codes are gone through from zero on', '' if s0 == C(0) else 'the first code is %s' % show(s0))
    # the last block begins at q - p: the loop must go on while the block begins below q
    ok = None
    for a, v in le.a['xfacts'].items():
        a2 = subst(a, t.map)
        if a2[0] != 'le':
            continue
        d = dict(a2[1])
        if w not in d or any(contains(x, {w}) for x in d if x != w):
            continue
        if d[w] == -1 and v:                # rest - w <= k: the loop ends with w >= rest - k
            c, dd = lin(sub(mklin_(0, {x: y for x, y in d.items() if x != w}), C(a2[2])))
            if dd == {P: 1}:
                ok = c >= 1 - 1 and c <= 1
                lim = add(P, C(c))
    if ok is None:
        raise Broken('%s ends filling the table on a condition that is not understood' % name)
    # ends when w >= P + c, w a multiple of p, q = P + 1 one as well: c in (2 - p .. 1) does
    ctx.ob(ok, 'increment', name + '/last', le, 'all codes are gone through', '' if ok else 'the loop ends at %s' % show(lim))
    # within a block
    cover = []
    done = set()
    for nest, src, d, tr, F, e in bl:
        if tr is not None and len(nest) == 2:
            lo = sub(tr[2], w)
            if len(tr) > 3 and tr[3] == -1:
                lo = sub(add(lo, C(1)), tr[0])
            hi = add(lo, tr[0])
            off = sub(src, tr[1])           # constant offset of the code to the counter
            cover.append((add(lo, off), add(hi, off), d, e))
        else:
            o = sub(src, w)
            k = (o, d)
            if k not in done:
                done.add(k)
                cover.append((o, add(o, C(1)), d, e))
    final = {}
    pm1 = sub(p, C(1))
    wrap = sub(C(1), p)
    # judged at the wrap-around and at the other codes: the last write counts
    low, top = None, None
    merged = []
    for x in sorted(cover, key=lambda x: (lin(x[0])[1] != {}, lin(x[0])[0])):
        if merged and merged[-1][1] == x[0] and merged[-1][2] == x[2] and x[1] != p:
            merged[-1] = (merged[-1][0], x[1]) + x[2:]
        else:
            merged.append(x)
    for lo, hi, d, e in merged:
        if hi == p and sub(hi, lo) == C(1):
            top = (d, e)
            continue
        if not lin(lo)[1] and lo[1] > 0 and not any(x[0] == C(0) for x in merged):
            ctx.ob(False, 'increment', name + '/next', e, 'the logarithm of one plus an element whose constant coefficient is not prime - 1 is the one with the next code',
                   'the entries of the codes below %s in each block are missing' % show(lo))
            return
        if lin(lo)[1] or lo[1] > 0:
            raise Broken('%s fills the table of logarithms from %s on' % (name, show(lo)))
        gap = sub(hi, pm1)
        if not isint(gap):
            raise Broken('%s fills the table of logarithms up to %s' % (name, show(hi)))
        low = (d, e, gap[1])
        if gap[1] >= 1:
            top = (d, e)
    good = low is not None and low[2] >= 0 and low[0] == C(1)
    ctx.ob(good, 'increment', name + '/next', low[1] if low else le, 'the logarithm of one plus an element whose constant coefficient is not prime - 1 is the one with the next code',
           '' if good else 'no such entry' if low is None else 'the codes differ by %s' % show(low[0]) if low[0] != C(1) else 'the last entry of each block is missing')
    good = top is not None and top[0] == wrap
    ctx.ob(good, 'increment', name + '/wrap', top[1] if top else le, 'if the constant coefficient is prime - 1 then the code is smaller by that',
           '' if good else 'no such entry' if top is None else 'the codes differ by %s' % show(top[0]))


def single_loop(ctx, t, single):
    """One loop over all codes, with a test for the wrap-around."""
    name = t.f['q']
    p = t.this['prime']
    for nest, src, d, tr, F, e in single:
        n, iv, s0, step = tr
        lo = add(sub(src, iv), s0) if step == 1 else None
        hi = add(lo, tnum(t, n)) if lo is not None else None
        ok = lo is not None and isint(lo) and lo[1] <= 0 and isint(sub(hi, P)) and sub(hi, P)[1] >= 1
        if lo is None:
            raise Broken('%s goes through the codes downwards' % name)
        ctx.ob(ok, 'increment', name + '/all', nest[-1][0], 'all codes are gone through', '' if ok else 'those from %s to %s are' % (show(lo), show(sub(hi, C(1)))))
        for wrapc in (False, True):
            # src = -1 or not modulo p
            hit = None
            for a, v in F.items():
                for x in subterms(a):
                    if x and x[0] == 'app' and x[1] == '%' and x[3] == p and isint(sub(x[2], src)):
                        o = sub(x[2], src)[1]
                        want = C(0) if o == 1 else sub(p, C(1)) if o == 0 else None
                        if want is not None:
                            r = test(F, atom_eqv(x, want))
                            if r is not None:
                                hit = r
            if hit is None:
                raise Broken('%s distinguishes codes in a way that is not understood' % name)
            if hit != wrapc:
                continue
            want = sub(C(1), p) if wrapc else C(1)
            ctx.ob(d == want, 'increment', name + ('/wrap' if wrapc else '/next'), e,
                   'if the constant coefficient is prime - 1 then the code is smaller by that' if wrapc else 'the logarithm of one plus an element is the one with the next code',
                   '' if d == want else 'the codes differ by %s' % show(d))


def code_map(ctx, t, mk):
    """The map from the codes of elements to their exponents is complete and right when the search for a
    generator ends."""
    it, name = t.it, t.f['q']
    p, e_ = t.this['prime'], t.this['prime_exponent']
    n = lambda x: tnum(t, x)
    outer = [le for le in loops(t.path.events) if any(mutates(x) and mutates(x) == mk for a in le.a['alts'] for x in flat(a.events))]
    if not outer:
        raise Broken('%s fills the map of exponents in a way that is not understood' % name)
    le = outer[0]
    # the iterations after which the search ends: those that lead to another state, or the one that is left by break
    ends = [a.events for a in le.a['alts'] if a.dst != a.src]
    if le.a['exit'] == 'brk':
        evs = t.path.events
        ends = [evs[evs.index(le) + 1:]] if le in evs else []
    ctx.need(ends, '%s: no way out of the search for a generator' % name)
    for evs in ends:
        ms = [(nest, e) for nest, e in segments(t, evs, mk)]
        clear = [e for nest, e in ms if not nest and e.kind == 'cop' and e.a['op'] == 'clear']
        ctx.ob(len(clear) >= 1, 'codes', name + '/clear', le, 'each attempt begins with an empty map', '' if clear else 'entries of an earlier attempt remain')
        z = None
        for nest, e in ms:
            if nest:
                continue
            k, v = put(e)
            if k == C(0):
                z = n(v)
        ctx.ob(z == P, 'codes', name + '/zero', le, 'the code of zero leads to the index of zero', '' if z == P else 'it leads to %s' % (show(z) if z else 'nothing'))
        fill = {}
        for nest, e in ms:
            if len(nest) == 1 and put(e)[0] is not None and put(e)[1] is not None and put(e)[0] != C(0):
                fill[id(nest[0][0])] = (nest[0], put(e), e)
        if len(fill) != 1:
            raise Broken('%s fills the map of exponents in %d loops' % (name, len(fill)))
        (fl, fa), (k, v), e = next(iter(fill.values()))
        tr = trips(fl)
        if tr is None:
            raise Broken('%s fills the map of exponents in a loop that is not understood' % name)
        ok = n(tr[0]) == P and tr[2] == C(0) and v == tr[1]
        ctx.ob(ok, 'codes', name + '/exponents', fl, 'the exponents from zero to the order of the group less one are entered', '' if ok else '%s exponents from %s on, as %s' % (show(n(tr[0])), show(tr[2]), show(v)))
        # the element and its powers
        code = None
        for l2 in loops(fa.events):
            ev = code_loop(t, l2, k)
            if ev is not None:
                code = ev
        if code is None:
            raise Broken('%s numbers the elements in a way that is not understood' % name)
        ok, why, el = code
        ctx.ob(ok, 'codes', name + '/digits', fl, 'the code of an element has its coefficients as digits to the base of the characteristic', why)
        if not ok:
            continue
        LF = fl.a['loop']
        if el[0] != 'w' or el[1] != LF.marker:
            raise Broken('%s: the element %s does not change from one exponent to the next' % (name, show(el)))
        fd = Field(ctx)
        try:
            first = fd.ring(it.load(LF.entry, el[2]), {})
        except Unk as x:
            raise Broken('%s begins with an element that is not understood: %s' % (name, x))
        ctx.ob(first == ONE, 'codes', name + '/first', fl, 'the exponent zero belongs to one', '' if first == ONE else 'it belongs to %s' % pshow(first))
        gens = set()
        for x in fl.a['alts']:
            y = canonical(it, x, el[2])
            if y is None:
                raise Broken('%s goes from one element to the next in a way that is not understood' % name)
            gens.add(tuple(sorted(map(str, y))))
        ok = len(gens) == 1 and len(y) == 2 and any(z == el for z in y) and all(not contains(z, {LF.marker}) for z in y if z != el)
        ctx.ob(ok, 'codes', name + '/powers', fl, 'each element is the one before times the generator', '' if ok else 'the next one is the product of %s' % ', '.join(show(z) for z in y))
        # no code twice
        ok = all(any(at[0] == 'has' and at[2] == k and w is False for at, w in x.facts.items())
                 for x in fl.a['alts'] if x.dst == x.src and any(put(e)[0] == k for _, e in segments(t, x.events, mk)))
        ctx.ob(ok, 'codes', name + '/distinct', fl, 'a code that occurs twice ends the attempt', '' if ok else 'elements that have several exponents are accepted')

def put(e):
    """(key, value) that an event enters into a map."""
    if e.kind == 'w' and e.a['loc'][1] and isinstance(e.a['loc'][1][-1], tuple) and e.a['loc'][1][-1][0] == 'k':
        return e.a['loc'][1][-1][1], e.a['val']
    if e.kind == 'cop' and e.a['op'] in ('insert', 'emplace') and not e.a.get('dflt') and len(e.a['args']) >= 2:
        return e.a['args'][0], e.a['args'][1]
    return None, None


def canonical(it, alt, key):
    """The factors of the value of a FLINT variable at the end of an alternative; reductions change nothing."""
    v = it.load(alt.st, key)
    for _ in range(3):
        if v[0] == 'app' and str(v[1]).endswith('_reduce'):
            # the value before the reduction
            old = [e.a['old'] for e in flat(alt.events) if e.kind == 'w' and e.a['loc'] == key and e.a['val'] == v]
            if not old:
                return None
            v = old[-1]
    if v[0] == 'app' and str(v[1]).endswith('_mul'):
        return [v[2], v[3]]
    return None


def code_loop(t, le, k):
    """If the loop computes the term k as the number with the coefficients of an element as digits:
    (ok, reason, element); None if it has nothing to do with it."""
    L, it = le.a['loop'], t.it
    if k[0] != 'w' or k[1] != L.marker:
        return None
    p, e_ = t.this['prime'], t.this['prime_exponent']
    tr = trips(le)
    if tr is None or len(le.a['alts']) != 1:
        return None
    n, iv, s0, step = tr
    a = le.a['alts'][0]
    v = it.load(a.st, k[2])
    c, d = lin(v)
    co = list({x for x in subterms(v) if x and x[0] == 'app' and 'get_coeff' in str(x[1])})
    if len(co) != 1 or c:
        return None
    el, idx = co[0][2], co[0][3]
    start = it.load(L.entry, k[2])
    if start != C(0):
        return False, 'the number starts with %s' % show(start), el
    rest = sub(v, co[0]) if d.get(co[0]) == 1 else None
    if rest is not None and rest == mul(p, k):
        # Horner: from the highest coefficient down
        first = subst(idx, {iv: s0})
        if lin(idx)[1].get(iv) != -step or contains(add(idx, scale(iv, step)), {iv}):
            return False, 'the digits are in the order of %s' % show(idx), el
        if first != sub(e_, C(1)):
            return False, 'the first digit is the coefficient %s' % show(first), el
        if n != e_:
            return False, 'the number has %s digits' % show(n), el
        return True, '', el
    if rest == k:
        return False, 'the digits are added', el
    ws = [x for x in L.kind if x != k[2] and L.kind[x] == 'w' and it.load(L.entry, x) == C(1) and it.load(a.st, x) == mul(p, ('w', L.marker, x))]
    for x in ws:
        if sub(v, k) == mul(('w', L.marker, x), co[0]):
            first = subst(idx, {iv: s0})
            ok = lin(idx)[1].get(iv) == step and first == C(0) and n == e_
            return ok, '' if ok else 'the digits are the coefficients from %s on, %s of them' % (show(first), show(n)), el
    return None


def c32(ctx):
    """The loops in which the table based count evaluates the polynomial are recognised as sums of coefficients
    times powers of the point, by arithmetic with powers of the generator in every case that they distinguish
    (value and coefficient zero or not, sum zero or not), over all coefficients; the coefficients are those of
    the curve in the larger field; the constructors of the table fill it with the remainders of exponents and
    with the logarithms of one plus each element."""
    n = 0
    for r in countings(ctx):
        if r.ring:
            continue
        try:
            const, per = sweeping(r)
        except Unk as e:
            raise Broken('%s: %s' % (r.name, e))
        for le, als in per:
            for al, d in als.values():
                if list(d) == [0, 0]:
                    continue
                for s in sums(r, al.events).values():
                    if not about(r.fd.facts(al.facts), s.term):
                        continue
                    n += 1
                    if s.bad and s.bad[0] == '?':
                        raise Broken('%s evaluates the polynomial in a way that is not understood: %s' % (r.name, s.bad[1]))
                    ctx.ob(not s.bad, 'value', r.name, s.le, 'the value is the sum of the coefficients times the powers of the point', s.bad[1] if s.bad else '')
                    poly_ok(ctx, r, s.coefs, r.fn, 'coefficients')
    ctx.need(n, 'no count by tables evaluates the polynomial')
    for t in tables(ctx):
        ok = tnum(t, t.this['prime_power']) == add(P, C(1)) and t.this['prime_power'] == ('app', 'std::pow', t.this['prime'], t.this['prime_exponent'])
        ctx.ob(ok, 'order', t.f['q'], t.f, 'the number of elements is the characteristic to the power of the exponent', '' if ok else 'it is %s' % show(t.this['prime_power']))
        ok = tnum(t, t.this['prime_power_pred']) == P
        ctx.ob(ok, 'order', t.f['q'] + '/group', t.f, 'the order of the multiplicative group is one less', '' if ok else 'it is %s' % show(t.this['prime_power_pred']))
        red_table(ctx, t)
        inc_table(ctx, t)


# ------------------------------------------------------------------ ranges (C29)
PMIN = 2                                   # the group has at least two elements (odd characteristic)


def ble(x, y):
    """aP+b <= cP+d for every P >= PMIN?"""
    a, b = y[0] - x[0], y[1] - x[1]
    return a >= 0 and a * PMIN + b >= 0


class Ranges:
    """Bounds (aP+b) of terms of a counting path: entries of the tables and coefficients are codes, variables that
    loops change have the bounds that every iteration keeps."""

    def __init__(s, r, vecs):
        s.r, s.fd, s.it, s.vecs = r, r.fd, r.it, vecs
        s.env = {}                         # head -> (lo, hi)
        s.steps = {}                       # head -> [(value after an iteration, facts)]
        s.memo = MEMO.setdefault(id(r.fd), {})

    def atom(s, a, F):
        """(lo, hi) of an atom without the facts that compare it."""
        if a == P:
            return (1, 0), (1, 0)
        lk = s.fd.lookup(a)
        if lk:
            return (0, 0), ((1, -1) if lk[0] == 'red' else (1, 0))
        if a in s.env:
            return s.env[a]
        if a[0] == 'app' and a[1] == '%' and a[3] == P:
            return (0, 0), (1, -1)
        if a[0] == 'app' and a[1] == '%' and isint(a[3]):
            return (0, 0), (0, a[3][1] - 1)
        if a[0] == 'fld' and isinstance(a[2], tuple) and a[2][0] in ('x', 'sx') and (a[1] in s.vecs or conversion_like(a[1])):
            return (0, 0), (1, 0)
        if a[0] == 'app' and a[1] == '/' and isint(a[3]):
            lo, hi = s.bounds(a[2], F)
            return (0, 0) if lo and ble((0, 0), lo) else None, hi if hi and ble((0, 0), hi) else None
        return None, None

    def grows(s, i):
        """A part of an index that has no bound since iterations increase it."""
        for a in lin(i)[1]:
            if a[0] == 'w' and a in s.steps:
                k, alts = s.steps[a]
                for x in alts:
                    F = s.fd.facts(x.facts)
                    d = sub(s.fd.n(s.it.load(x.st, k)), a)
                    lo, _ = s.bounds(d, F)
                    if d != C(0) and not contains(d, {a}) and lo is not None and ble((0, 0), lo):
                        return a
        return None

    def interval(s, d, c, F):
        lo, hi = (0, c), (0, c)
        for a, k in d.items():
            l, h = s.tight(a, F) if not (a == P) else ((1, 0), (1, 0))
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else (lo[0] + k * l[0], lo[1] + k * l[1])
            hi = None if hi is None or h is None else (hi[0] + k * h[0], hi[1] + k * h[1])
        return lo, hi

    def tight(s, a, F):
        """(lo, hi) of an atom with the facts that compare it with constants and P."""
        lo, hi = s.atom(a, F)
        for at, v in F.items():
            if at[0] not in ('le', 'eqk'):
                continue
            d = dict(at[1])
            if d.get(a) not in (1, -1) or any(k not in (a, P) for k in d):
                continue
            sg, p, k = d[a], d.get(P, 0), at[2]
            if at[0] == 'eqk':
                if v:
                    x = (-p * sg, k * sg)
                    lo = hi = x
                continue
            # sg*a + p*P <= k, or > k
            if v == (sg == 1):
                x = (-p, k) if sg == 1 else (p, -k - 1 + 0)
                if sg == 1:
                    hi = x if hi is None or ble(x, hi) else hi
                else:                       # -a + pP > k: a < pP - k
                    hi = x if hi is None or ble(x, hi) else hi
            else:
                x = (-p, k + 1) if sg == 1 else (p, -k)
                lo = x if lo is None or ble(lo, x) else lo
        if hi is not None:
            for at, v in F.items():
                if at[0] == 'eqk' and not v and dict(at[1]).get(a) in (1, -1) and not any(k not in (a, P) for k in dict(at[1])):
                    d = dict(at[1])
                    x = (-d.get(P, 0) * d[a], at[2] * d[a])
                    if x == hi:
                        hi = (hi[0], hi[1] - 1)
                    if x == lo:
                        lo = (lo[0], lo[1] + 1)
        return lo, hi

    def bounds(s, t, F):
        c, d = lin(t)
        lo, hi = s.interval(d, c, F)
        for at, v in F.items():
            if at[0] not in ('le', 'eqk') or at[0] == 'eqk' and not v:
                continue
            q = dict(at[1])
            if len(q) < 2 or not any(a in d for a in q if a != P):
                continue
            for sg in (1, -1):
                # t = sg * (sum q) + rest
                rest = dict(d)
                for a, k in q.items():
                    rest[a] = rest.get(a, 0) - sg * k
                rest = {a: k for a, k in rest.items() if k}
                if len([a for a in rest if a != P]) >= len([a for a in d if a != P]):
                    continue
                l, h = s.interval(rest, c, F)
                up = at[0] == 'eqk' or v     # sum q <= k, else sum q >= k + 1
                dn = at[0] == 'eqk' or not v
                k = at[2]
                if up:
                    if sg == 1 and h is not None:
                        x = (h[0], h[1] + k)
                        hi = x if hi is None or ble(x, hi) else hi
                    if sg == -1 and l is not None:
                        x = (l[0], l[1] - k)
                        lo = x if lo is None or ble(lo, x) else lo
                if dn:
                    k2 = k if at[0] == 'eqk' else k + 1
                    if sg == 1 and l is not None:
                        x = (l[0], l[1] + k2)
                        lo = x if lo is None or ble(lo, x) else lo
                    if sg == -1 and h is not None:
                        x = (h[0], h[1] - k2)
                        hi = x if hi is None or ble(x, hi) else hi
        return lo, hi

    CANDS = [(1, -1), (1, 0), (2, -2), (2, -1), (2, 0), None]

    def enter(s, le, F0):
        """Bounds for what a loop changes."""
        L, alts = le.a['loop'], le.a['alts']
        pos = {}
        for k in L.kind:
            if L.kind[k] == 'hole' or not isinstance(k, tuple):
                continue
            h = (('iv' if L.kind[k] == 'iv' else 'w'), L.marker, k)
            e = s.fd.n(s.it.load(L.entry, k))
            if e[0] in ('undef',) or not (isint(e) or e[0] in ('lin', 'iv', 'w', 'fld', 'app', 'sym')):
                continue
            lo, hi = s.bounds(e, F0)
            i = 0
            if hi is not None:
                while s.CANDS[i] is not None and not ble(hi, s.CANDS[i]):
                    i += 1
            else:
                i = len(s.CANDS) - 1
            pos[h] = [lo is not None and ble((0, 0), lo), i]
            s.steps[h] = (k, alts)
        key = (id(le), tuple((h, tuple(v)) for h, v in pos.items()))
        if key in s.memo:
            s.env.update(s.memo[key])
            return key
        for _ in range(40):
            for h, (z, i) in pos.items():
                s.env[h] = ((0, 0) if z else None, s.CANDS[i])
            ch = False
            for a in alts:
                F = s.fd.facts(a.facts)
                inner = [x for x in a.events if x.kind == 'loop']
                for x in inner:
                    s.enter(x, F)
                for h, st in pos.items():
                    v = s.fd.n(s.it.load(a.st, h[2]))
                    if v == h:
                        continue
                    lo, hi = s.bounds(v, F)
                    if st[0] and not (lo is not None and ble((0, 0), lo)):
                        st[0] = False
                        ch = True
                    if s.CANDS[st[1]] is not None and not (hi is not None and ble(hi, s.CANDS[st[1]])):
                        st[1] += 1
                        ch = True
            if not ch:
                break
        s.memo[key] = {h: s.env[h] for h in pos}
        return key


MEMO = {}
KEEP = []


def conversion_like(V):
    return star_key(V) is not None


def lookups(fd, evs):
    """Every access to an entry of the tables among the events of an iteration (not in loops inside): (event, table,
    index)."""
    for e in evs:
        if e.kind == 'cop' and e.a['op'] in ('index', 'at') and e.a.get('old') is not None:
            o = unbase(fd.n(e.a['old']))
            t = fd.lookup(('fld', o, ('x', fd.n(e.a['args'][0]))))
            if t:
                yield e, t[0], t[1]


def b_show(b):
    return 'unbounded' if b is None else show(add(scale(P, b[0]), C(b[1])))


def c29(ctx):
    """Bounds of the form a*(q-1)+b, for all q, of every index at which a count looks into the tables of a field,
    on every path: what tables hold and what coefficients are is known (C32), variables that loops change get the
    bounds that every iteration keeps; the sizes of the tables are those that their constructors make.  Lists of
    coefficients are turned into codes by looking up remainders only, in a map that the codes of all of them were
    entered into, by products that are formed in sufficiently wide arithmetic.  The element table ends its search
    only with an element that is not zero and whose powers, up to the order of the group, are not one."""
    sizes = {}
    for t in tables(ctx):
        n = red_table(ctx, t)
        ok = isint(sub(n, scale(P, lin(n)[1].get(P, 0))))
        ctx.need(ok, 'the size of the table of exponents is not understood: %s' % show(n))
        sizes.setdefault('red', set()).add((lin(n)[1].get(P, 0), lin(n)[0]))
        v = None
        loc = t.locs[1]
        for e in flat(t.path.events):
            if e.kind == 'cop' and e.a.get('loc') == loc and e.a['op'] == 'at' or e.kind == 'w' and e.a['loc'][0] == loc[0] and len(e.a['loc'][1]) > len(loc[1]):
                if e.kind == 'w':
                    continue
                z = tnum(t, size(e.a['old']))
                v = z if v is None else v
        for le in loops(t.path.events):
            if any((mutates(x) or (None,))[0] == loc[0] for a in le.a['alts'] for x in flat(a.events)):
                z = tnum(t, size(t.it.load(le.a['loop'].entry, loc)))
                if isint(sub(z, scale(P, lin(z)[1].get(P, 0)))):
                    v = z
                break
        ctx.need(v is not None and isint(sub(v, scale(P, lin(v)[1].get(P, 0)))), 'the size of the table of logarithms is not understood: %s' % (show(v) if v else '?'))
        sizes.setdefault('inc', set()).add((lin(v)[1].get(P, 0), lin(v)[0]))
    n = 0
    done = set()
    for r in countings(ctx):
        if r.ring:
            continue
        fd = r.fd
        vecs = set()
        for le in r.loops:
            for x in coef_vectors(r, le):
                vecs.add(x)
        R = Ranges(r, vecs)

        def visit(evs, F, name):
            nonlocal n
            for e in evs:
                if e.kind != 'loop':
                    continue
                k = R.enter(e, F)
                if k in done:
                    continue
                done.add(k)
                KEEP.append(e)
                for a in e.a['alts']:
                    Fa = fd.facts(a.facts)
                    check(a.events, Fa)
                    visit(a.events, Fa, name)

        def check(evs, F):
            nonlocal n
            for e, tab, i in lookups(fd, evs):
                lo, hi = R.bounds(i, F)
                for sz in sizes[tab]:
                    top = (sz[0], sz[1] - 1)
                    ok = lo is not None and hi is not None and ble((0, 0), lo) and ble(hi, top)
                    if not ok and (lo is None or hi is None):
                        k = (r.name, 'unb', show(i))
                        w = R.grows(i)
                        if w is not None:
                            ok = False
                            ctx.ob(False, 'range', '%s/%s' % (r.name, tab), e, 'the index lies within the table of %s entries' % b_show(sz), '%s grows from one iteration to the next and is not reduced' % show(w))
                            continue
                        raise Broken('%s: no bounds are known for the index %s' % (r.name, show(i)))
                    n += 1
                    ctx.ob(ok, 'range', '%s/%s' % (r.name, tab), e, 'the index lies within the table of %s entries' % b_show(sz),
                           '' if ok else '%s lies between %s and %s' % (show(i), b_show(lo), b_show(hi)))
        check(r.path.events, r.F)
        visit(r.path.events, r.F, r.name)
    ctx.need(n, 'no count looks into the tables')
    single(ctx)


def coef_vectors(r, le):
    for a in le.a['alts']:
        for x in flat(a.events):
            if x.kind == 'cop' and x.a['op'] in ('index', 'at') and x.a.get('old') is not None:
                o = unbase(r.fd.n(x.a['old']))
                if o == OWNC or star_key(o) is not None:
                    yield o
                    yield OWNC


# ------------------------------------------------------------------ coefficients of single curves (C29)
def nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from nodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from nodes(v)


def uncast(n):
    while n.get('k') in ('cast', 'paren', 'mat') and n.get('c'):
        n = n['c'][0]
    return n


def narrow_products(f):
    """Remainders of products of two variables that are formed in no wider a type than that of the factors."""
    for n in nodes(f['body']):
        if n.get('op') in ('%', '%=') and n.get('k') in ('binop', 'assign', 'compound', 'cbinop') and n.get('c'):
            m = n['c'][0]
            while m.get('k') in ('paren', 'cast') and m.get('c') and m.get('ck') != 'x':
                if m.get('op') == '*':
                    break
                m = m['c'][0]
            if m.get('op') != '*' or len(m.get('c', ())) != 2:
                continue
            a, b = [uncast(x) for x in m['c']]
            if a.get('k') == 'int' or b.get('k') == 'int':
                continue
            bits = (m.get('t') or {}).get('bits')
            w = max((x.get('t') or {}).get('bits', 0) for x in (a, b))
            if bits and bits <= w and bits < 64:
                yield n, bits


def single(ctx):
    """Where a list of coefficients is turned into codes before a curve is made of it."""
    k = 0
    for f in [ctx.fn('single_curve_fp')]:
        ps, it = ctx.run(f)
        for p in ps[:400]:
            cs = [e for e in p.events if e.kind == 'ctor' and e.a['rec'] == CURVE and len(e.a['args']) >= 2]
            for e in cs:
                key = star_key(e.a['args'][1])
                if key is None:
                    continue
                le = next((x for x in loops(p.events) if x.a['loop'].kind.get(key) == 'hole' and key in x.a['loop'].start), None)
                if le is None:
                    continue
                for a in le.a['alts']:
                    for c in a.events:
                        if c.kind != 'cop' or c.a['op'] not in ('push_back', 'emplace_back'):
                            continue
                        v = c.a['args'][0]
                        if v[0] == 'fld' and isinstance(v[2], tuple) and v[2][0] in ('k', 'x'):
                            k += 1
                            single_one(ctx, f, it, p, le, a, c, v, mapkey(v[1]))
        for n, bits in [x for g in ctx.fns(lambda g: g['file'] == f['file'] and not g.get('ctor')) for x in narrow_products(g)]:
            ctx.ob(False, 'wide', f['q'], f, 'products are formed in arithmetic that holds them before the remainder is taken', 'the product before %% in line %s has %d bits, as its factors' % (n.get('l'), bits))
        ctx.ob(True, 'wide', f['q'] + '/all', f, 'products before remainders were examined')
    ctx.need(k, 'no place was found where coefficients become codes')


def single_one(ctx, f, it, p, le, a, c, v, mk):
    key = v[2][1]
    mod = next((x[3] for x in [key] if x[0] == 'app' and x[1] == '%'), None)
    puts, fill = [], []
    for nest, e in segments(None, p.events, mk):
        k, w = put(e)
        if k is None and v[2][0] == 'x' and e.kind == 'w' and len(e.a['loc'][1]) == len(mk[1]) + 1 and isinstance(e.a['loc'][1][-1], tuple) and e.a['loc'][1][-1][0] == 'x':
            k, w = e.a['loc'][1][-1][1], e.a['val']
        if k is None or nest and nest[0][0] is le:
            continue
        (fill if nest else puts).append((nest, k, w, e))
    prime = ('sym', 'arg:' + f['params'][0]['n'])
    z = [w for _, k, w, _ in puts if k == C(0)]
    if not z or not fill:
        raise Broken('%s: the map from coefficients to codes is not understood' % f['q'])
    ok = z[-1] == sub(prime, C(1))
    ctx.ob(ok, 'single', f['q'] + '/zero', puts[0][3], 'the coefficient zero gets the index of zero', '' if ok else 'it gets %s' % show(z[-1]))
    ok = mod == prime
    if not ok:
        ok = test(a.facts, atom_lt(key, prime)) is True
    ctx.ob(ok, 'single', f['q'] + '/reduced', c, 'coefficients are reduced before they are looked up', '' if ok else '%s is looked up' % show(key))
    for nest, k, w, e in fill:
        fl, fa = nest[0]
        tr = trips(fl)
        if tr is None or len(nest) != 1:
            raise Broken('%s: the map from coefficients to codes is filled in a loop that is not understood' % f['q'])
        ok = tr[0] == sub(prime, C(1)) and tr[2] == C(0) and w == tr[1]
        ctx.ob(ok, 'single', f['q'] + '/exponents', fl, 'the codes 0 to prime - 2 are entered', '' if ok else '%s codes from %s on, as %s' % (show(tr[0]), show(tr[2]), show(w)))
        if k[0] != 'w' or k[1] != fl.a['loop'].marker:
            hs = [h for h in heads(fl).values() if h[0] == 'w' and contains(k, {h})]
            if len(hs) == 1 and all(it.load(x.st, hs[0][2]) == k for x in fl.a['alts']) and it.load(fl.a['loop'].entry, hs[0][2]) == C(1):
                ctx.ob(False, 'single', f['q'] + '/one', fl, 'the code 0 is that of one', 'it is that of the generator')
                continue
            raise Broken('%s: the map from coefficients to codes is filled for %s' % (f['q'], show(k)[:300]))
        st = it.load(fl.a['loop'].entry, k[2])
        ctx.ob(st == C(1), 'single', f['q'] + '/one', fl, 'the code 0 is that of one', '' if st == C(1) else 'it is that of %s' % show(st))
        for x in fl.a['alts']:
            n = it.load(x.st, k[2])
            ok = n[0] == 'app' and n[1] == '%' and n[3] == prime and contains(n[2], {k}) and n[2][0] in ('prod', 'lin') or n[0] == 'app' and n[1] in ('n_mulmod2', 'n_mulmod2_preinv', 'nmod_mul')
            ctx.ob(ok, 'single', f['q'] + '/next', fl, 'the next element is the product with the generator, reduced', '' if ok else 'it is %s' % show(n))


# ------------------------------------------------------------------ element tables (C34)
ELEMS = 'FqElementTable'


def c34(ctx):
    """The constructor of an element table, on every path: the search for a generator ends with a candidate that is
    known not to be zero and whose powers with exponents from one to the order of the group less one are known not
    to be one; the elements kept are those powers, from exponent zero on, each once, followed by zero.  The helpers
    return the index of zero, the ranges and the remainder that belong to this order, and representatives of the
    cosets of n-th powers are 0, .., gcd(n, q - 1) - 1."""
    rec = ctx.record(ELEMS)
    vs = [x['n'] for x in rec['fields'] if 'vector' in str(x['t'])]
    ctx.need(len(vs) == 1, 'the elements of %s were not recognised' % ELEMS)
    loc = (('o', 'this'), (vs[0],))
    n = 0
    for f in ctx.methods(ELEMS):
        if not f.get('ctor') or any(tname(q['t']).endswith(ELEMS) for q in f['params']):
            continue
        ps, it = ctx.run(f)
        for p in ps:
            if p.kind != 'ret':
                continue
            n += 1
            elements(ctx, f, it, p, loc)
    ctx.need(n, 'no element table is constructed')
    helpers(ctx)


def elements(ctx, f, it, p, loc):
    name = f['q']
    L = lambda m: it.load(p.st, (('o', 'this'), (m,)))
    prime, e = L('prime'), L('prime_exponent')
    q = ('app', 'std::pow', prime, e)
    for m, w in (('prime_power', q), ('prime_power_pred', sub(q, C(1)))):
        ok = L(m) == w
        ctx.ob(ok, 'order', '%s/%s' % (name, m), f, 'the order of the field and of its multiplicative group', '' if ok else '%s is %s' % (m, show(L(m))))
    n_ = lambda x: subst(x, {q: add(P, C(1))})
    fd = Field(ctx)
    segs = [(nest, x) for nest, x in segments(None, p.events, loc) if x.kind == 'cop' and x.a['op'] in ('push_back', 'emplace_back', 'clear')]
    search = [x for nest, x in segs if nest]
    if not search:
        raise Broken('%s fills the table in a way that is not understood' % name)
    outer = next(nest[0][0] for nest, x in segs if nest)
    tail = [x for nest, x in segs if not nest and x.a['op'] != 'clear']
    ends = [(a.events, a.st, a.facts) for a in outer.a['alts'] if a.dst != a.src]
    if outer.a['exit'] == 'brk':
        i = p.events.index(outer)
        ends = [(p.events[i + 1:], p.st, p.facts)]
        tail = []
    ctx.need(ends, '%s: no way out of the search for a generator' % name)
    M = outer.a['loop'].marker

    def ring(st, v):
        if v[0] != 'ptr':
            raise Broken('%s keeps elements in a form that is not understood' % name)
        return fd.ring(it.load(st, v[1]), {})
    try:
        for evs, st, F in ends:
            ss = [(nest, x) for nest, x in segments(None, evs, loc) if x.kind == 'cop' and x.a['op'] in ('push_back', 'emplace_back', 'clear')]
            body = ss
            if outer.a['exit'] == 'brk':
                last = [x for nest, x in ss if not nest]
            cl = [i for i, (nest, x) in enumerate(ss) if not nest and x.a['op'] == 'clear']
            if cl:
                body = ss[cl[-1] + 1:]
            else:
                ctx.ob(False, 'fresh', name, outer, 'each attempt begins with an empty table', 'elements of an earlier attempt remain')
            body = [(nest, x) for nest, x in body if x.a['op'] != 'clear']
            if outer.a['exit'] == 'brk' and body and not body[-1][0]:
                tail = [body.pop()[1]]
            count_ = C(0)
            gen = None
            base = None
            seen = set()
            for nest, x in body:
                if not nest:
                    v = ring(st, x.a['args'][0])
                    if count_ != C(0):
                        raise Broken('%s appends single elements after the first' % name)
                    base = v
                    count_ = add(count_, C(1))
                    continue
                if len(nest) > 1 or id(nest[0][0]) in seen:
                    raise Broken('%s fills the table in nested loops' % name)
                fl, fa = nest[0]
                seen.add(id(fl))
                tr = trips(fl)
                v = x.a['args'][0]
                val = it.load(fa.st, v[1]) if v[0] == 'ptr' else None
                k = next((y for y in subterms(val) if y and y[0] == 'w' and y[1] == fl.a['loop'].marker), None) if val else None
                if tr is None or val is None or k is None or fd.ring(val, {}) != elem(k):
                    raise Broken('%s fills the table in a way that is not understood' % name)
                entry = fd.ring(it.load(fl.a['loop'].entry, k[2]), {})
                step = pmul(fd.ring(it.load(fa.st, k[2]), {}), pinv(elem(k)))
                first = base if base is not None else entry
                want = pmul(base, step) if base is not None else entry
                ctx.ob(entry == want, 'powers', name + '/second', fl, 'each element is the one before times the generator', '' if entry == want else '%s follows %s' % (pshow(entry), pshow(base)))
                if base is None:
                    base = entry
                gens = [y for y in patoms(step)]
                ok = len(step) == 1 and len(gens) == 1 and step == elem(gens[0]) and not contains(gens[0], {fl.a['loop'].marker})
                ctx.ob(ok, 'powers', name + '/step', fl, 'each element is the one before times the generator', '' if ok else 'it is multiplied by %s' % pshow(step))
                gen = gens[0] if ok else None
                total = n_(add(count_, tr[0]))
                ctx.ob(total == P, 'powers', name + '/all', fl, 'as many powers are kept as the group has elements', '' if total == P else '%s of %s are' % (show(total), show(P)))
                # not one before the end
                ok = False
                for at, w in fa.facts.items():
                    y = at[1][0][0] if at[0] == 'eqk' and len(at[1]) == 1 and at[2] == 0 else None
                    if y is None or y[0] != 'app':
                        continue
                    if str(y[1]).endswith('_equal') and w and k in (y[2], y[3]):
                        o = y[3] if y[2] == k else y[2]
                        try:
                            ok = ok or fd.ring(o, {}) == base
                        except Unk:
                            pass
                    if str(y[1]).endswith('_is_one') and w and y[2] == k:
                        ok = True
                start = n_(tr[2])
                ctx.ob(ok, 'generator', name + '/order', fl, 'a power that is one before the order of the group is reached ends the attempt', '' if ok else 'elements of smaller order are accepted')
            if base is None or not seen:
                raise Broken('%s fills the table in a way that is not understood' % name)
            one = is_always_one(fd, it, outer, base)
            ctx.ob(one, 'powers', name + '/first', outer, 'the first element is one in every attempt', '' if one else 'it is %s' % pshow(base))
            if gen is not None:
                ok = any(is_zero_of(at) == gen and w is False for at, w in F.items()) or any(is_zero_of(at) == gen and w is False for at, w in p.facts.items())
                if not ok:
                    ok = any(at[0] == 'eqk' and w and at[2] == 0 and len(at[1]) == 1 and str(at[1][0][0][1]).endswith('_is_zero') and at[1][0][0][2] == gen for at, w in F.items())
                ctx.ob(ok, 'generator', name + '/zero', outer, 'zero is not accepted as a generator', '' if ok else 'nothing excludes it')
        if len(tail) != 1:
            ctx.ob(False, 'zero', name, f, 'zero is the last element, once', '%d elements follow the powers' % len(tail))
        else:
            v = ring(p.st, tail[0].a['args'][0])
            ctx.ob(v == {}, 'zero', name, tail[0], 'zero is the last element, once', '' if v == {} else 'it is %s' % pshow(v))
    except Unk as x:
        raise Broken('%s: %s' % (name, x))


def is_always_one(fd, it, outer, base):
    """Is the element one at the begin of every iteration of the loop?"""
    if base == ONE:
        return True
    L = outer.a['loop']
    ws = [x for x in patoms(base)]
    if len(ws) != 1 or base != elem(ws[0]) or ws[0][0] != 'w' or ws[0][1] != L.marker:
        return False
    w = ws[0]
    if fd.ring(it.load(L.entry, w[2]), {}) != ONE:
        return False
    for a in outer.a['alts']:
        if a.dst != a.src:
            continue
        v = it.load(a.st, w[2])
        if v == w or fd.ring(v, {}) in (ONE, elem(w)):
            continue
        ok = False
        for at, t in a.facts.items():
            y = at[1][0][0] if at[0] == 'eqk' and len(at[1]) == 1 and at[2] == 0 else None
            if y is not None and y[0] == 'app' and not t:
                if str(y[1]).endswith('_equal') and v in (y[2], y[3]):
                    o = y[3] if y[2] == v else y[2]
                    ok = ok or fd.ring(o, {}) == elem(w)
                if str(y[1]).endswith('_is_one') and y[2] == v:
                    ok = True
        if not ok:
            return False
    return True


def helpers(ctx):
    pp, pw = ('fld', ('sym', 'this'), 'prime_power_pred'), ('fld', ('sym', 'this'), 'prime_power')
    rel = {pw: add(pp, C(1))}
    want = {'zero_index': lambda a: pp, 'reduce_index': lambda a: ('app', '%', a[0], pp),
            'block_non_zero': lambda a: (C(0), pp), 'block_complete': lambda a: (C(0), add(pp, C(1)))}
    text = {'zero_index': 'the index of zero is the one after the powers of the generator', 'reduce_index': 'exponents are reduced modulo the order of the group',
            'block_non_zero': 'the nonzero elements are those with indices below the order of the group', 'block_complete': 'all indices up to that of zero make up the field'}
    n = 0
    for f in ctx.methods(ELEMS):
        m = f['q'].split('::')[-1]
        if m not in want and m != 'power_coset_representatives':
            continue
        ps, it = ctx.run(f)
        args = [('sym', 'arg:' + q['n']) for q in f['params']]
        for p in ps:
            if p.kind != 'ret':
                continue
            n += 1
            if m == 'power_coset_representatives':
                cosets(ctx, f, it, p, args, pp)
                continue
            w = want[m](args)
            if isinstance(w[0], tuple):
                got = tuple(subst(get(p.facts, p.val, i), rel) for i in (0, 1))
            else:
                got = subst(p.val, rel)
            ok = got == w
            ctx.ob(ok, 'helper', f['q'], f, text[m], '' if ok else '%s returns %s' % (m, show(p.val)))
    ctx.need(n, 'no helper of %s was found' % ELEMS)


def cosets(ctx, f, it, p, args, pp):
    v = p.val
    if v[0] == 'S' and len(v[1]) == 1 and v[1][0][0] == 'b':
        v = v[1][0][1]
    number = lambda g, w: ctx.ob(g[0] == 'app' and re.search('gcd', str(g[1])) is not None and set(g[2:]) == {args[0], pp}, 'helper', f['q'] + '/number', w,
                                 'there are gcd(n, q - 1) cosets of n-th powers', 'the list has %s entries' % show(g))
    rep = lambda ok, w, t: ctx.ob(ok, 'helper', f['q'] + '/representatives', w, 'the cosets are represented by the exponents 0, 1, ..', '' if ok else t)
    if v[:2] == ('app', 'iota') and len(v) == 4 and v[2][:2] == ('app', 'filled'):
        number(v[2][2], f)
        rep(v[3] == C(0), f, 'entries are counted from %s on' % show(v[3]))
        return
    for le in loops(p.events):
        tr = trips(le)
        ws = [e for a in le.a['alts'] for e in a.events if e.kind == 'w' and e.a['loc'][1] and isinstance(e.a['loc'][1][-1], tuple) and e.a['loc'][1][-1][0] == 'x']
        if tr is None or len(ws) != 1 or len(le.a['alts']) != 1:
            continue
        loc = (ws[0].a['loc'][0], ws[0].a['loc'][1][:-1])
        old = it.load(le.a['loop'].entry, loc)
        if old[0] == 'S' and len(old[1]) == 1 and old[1][0][0] == 'b':
            old = old[1][0][1]
        if old[:2] != ('app', 'filled') or not contains(p.val, {le.a['loop'].marker}) and it.load(p.st, loc) != p.val:
            continue
        number(old[2], le)
        i, w = one_counter(le, tr[1], ws[0].a['loc'][1][-1][1]), one_counter(le, tr[1], ws[0].a['val'])
        lo = add(sub(i, tr[1]), tr[2])
        ok = i == w and tr[0] == old[2] and lo == (C(0) if tr[3] == 1 else sub(tr[0], C(1)))
        rep(ok, ws[0], 'entry %s is %s, from %s on, of %s entries %s are set' % (show(i), show(w), show(lo), show(old[2]), show(tr[0])))
        return
    key = star_key(p.val)
    le = next((x for x in loops(p.events) if key is not None and x.a['loop'].kind.get(key) == 'hole' and key in x.a['loop'].start), None)
    if le is None:
        raise Broken('%s makes its list in a way that is not understood' % f['q'])
    tr = trips(le)
    pu = [e for a in le.a['alts'] for e in a.events if e.kind == 'cop' and e.a['op'] in ('push_back', 'emplace_back')]
    if tr is None or len(pu) != 1 or len(le.a['alts']) != 1:
        raise Broken('%s makes its list in a way that is not understood' % f['q'])
    g = tr[0]
    ok = g[0] == 'app' and re.search('gcd', str(g[1])) is not None and set(g[2:]) == {args[0], pp}
    ctx.ob(ok, 'helper', f['q'] + '/number', le, 'there are gcd(n, q - 1) cosets of n-th powers', '' if ok else 'the list has %s entries' % show(g))
    ok = pu[0].a['args'][0] == sub(tr[1], tr[2])
    ctx.ob(ok, 'helper', f['q'] + '/representatives', pu[0], 'the cosets are represented by the exponents 0, 1, ..', '' if ok else 'entries are %s, from %s on' % (show(pu[0].a['args'][0]), show(tr[2])))


RULES = {'C26': c26, 'C27': c27, 'C28': c28, 'C29': c29, 'C31': c31, 'C32': c32, 'C34': c34}
