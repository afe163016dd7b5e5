"""Value-graph terms: the abstract domain of the analyser.

A term denotes the value of an expression as a function of the values the analysed function started
from.  Terms are interned and kept in a normal form (multivariate polynomials over a non-commutative
matrix/quaternion algebra, guarded block writes, conditional terms), so two pieces of code that compute
the same thing in different ways are mapped to the same term.
"""
import hashlib
from fractions import Fraction

_table = {}
KINDS = {}   # field name -> (kind, dim), filled by the program loader


class T:
    __slots__ = ('op', 'a', 'kind', 'dim', '_d', '_c', '_s')

    def __repr__(self):
        return show(self)


def mk(op, *a, kind=None, dim=None):
    key = (op, a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.kind = kind
        t.dim = dim
        t._d = None
        t._c = None
        t._s = None
        _table[key] = t
    else:
        if t.kind is None and kind is not None:
            t.kind = kind
        if t.dim is None and dim is not None:
            t.dim = dim
    return t


def digest(t):
    """Deterministic structural key (independent of interning order)."""
    if isinstance(t, T):
        if t._d is None:
            h = hashlib.md5()
            h.update(t.op.encode())
            for x in t.a:
                h.update(b'|')
                h.update(digest(x).encode())
            t._d = h.hexdigest()
        return t._d
    if isinstance(t, tuple):
        return '(' + ','.join(digest(x) for x in t) + ')'
    return repr(t)


# ---------------------------------------------------------------- constants

def num(x, kind=None):
    if not isinstance(x, Fraction):
        x = Fraction(x)
    return mk('num', x, kind=kind or ('i' if x.denominator == 1 else 's'))


TRUE = mk('bool', True, kind='b')
FALSE = mk('bool', False, kind='b')
ZERO = num(0)
ONE = num(1)
UNINIT = mk('uninit')


def boolean(b):
    return TRUE if b else FALSE


def string(s):
    return mk('str', s, kind='str')


def sym(name, kind=None, dim=None):
    return mk('sym', name, kind=kind, dim=dim)


def isnum(t):
    return isinstance(t, T) and t.op == 'num'


def numval(t):
    return t.a[0]


def as_int(t):
    """int value of a constant term or None."""
    if isinstance(t, int):
        return t
    if isinstance(t, T) and t.op == 'num' and t.a[0].denominator == 1:
        return int(t.a[0])
    if isinstance(t, T) and t.op == 'enum':
        return t.a[1]
    if isinstance(t, T) and t.op == 'bool':
        return 1 if t.a[0] else 0
    return None


# ---------------------------------------------------------------- kinds and dimensions
NUMERIC = ('i', 's', 'm', 'b', 'q')


def kind(t):
    return t.kind


def ismat(t):
    return t.kind == 'm'


def isscalar(t):
    return t.kind in ('i', 's', 'b')


def zero(r, c):
    return mk('zero', tonum(r), tonum(c), kind='m')


def ident(r, c=None):
    r = tonum(r)
    c = r if c is None else tonum(c)
    return mk('ident', r, c, kind='m')


def tonum(x):
    if isinstance(x, T):
        return x
    return num(x)


def dims(t):
    """(rows, cols) as terms, or None."""
    if t.op in ('zero', 'ident', 'uninitm'):
        return (t.a[0], t.a[1])
    if t.op == 'mat':
        return (num(t.a[0]), num(t.a[1]))
    if t.op == 'blk':
        return (t.a[3], t.a[4])
    if t.op == 'mw':
        return dims(t.a[0])
    if t.op == 'lw':
        return dims(t.a[1])
    if t.op == 'tr':
        d = dims(t.a[0])
        return (d[1], d[0]) if d else None
    if t.op in ('R', 'skew'):
        return (num(3), num(3))
    if t.op == 'diagv':
        d = dims(t.a[0])
        return (d[0], num(1)) if d else None
    if t.op == 'asdiag':
        d = dims(t.a[0])
        return (d[0], d[0]) if d else None
    if t.op == 'poly':
        for (mono, _) in t.a[0]:
            d = mono_dims(mono)
            if d:
                return d
        return None
    if t.op == 'ite':
        d1, d2 = dims(t.a[1]), dims(t.a[2])
        if d1 and d2 and d1[0] is d2[0] and d1[1] is d2[1]:
            return d1
        if d1 and d2:
            return (ite(t.a[0], d1[0], d2[0]), ite(t.a[0], d1[1], d2[1]))
        return None
    if t.op == 'cwise':
        return dims(t.a[1])
    if t.op == 'insertmat':
        d1, d2 = dims(t.a[0]), dims(t.a[1])
        if d1 and d2:
            return (add(d1[0], d2[0]), add(d1[1], d2[1]))
        return None
    if t.op == 'removemat':
        d1 = dims(t.a[0])
        if d1:
            return (sub(d1[0], t.a[3]), sub(d1[1], t.a[3]))
        return None
    if t.op == 'resize':
        return (t.a[1], t.a[2])
    if t.dim is not None and t.kind == 'm':
        r, c = t.dim
        r = num(r) if isinstance(r, int) and r >= 0 else (r if isinstance(r, T) else mk('rows', t, kind='i'))
        c = num(c) if isinstance(c, int) and c >= 0 else (c if isinstance(c, T) else mk('cols', t, kind='i'))
        return (r, c)
    if t.kind == 'm':
        return (mk('rows', t, kind='i'), mk('cols', t, kind='i'))
    return None


def mono_dims(mono):
    nc = mono[1]
    if not nc:
        return None
    mats = [x for x in nc if x.kind == 'm']
    if not mats:
        return None
    d1, d2 = dims(mats[0]), dims(mats[-1])
    if not d1 or not d2:
        return None
    return (d1[0], d2[1])


def rows(t):
    d = dims(t)
    return d[0] if d else mk('rows', t, kind='i')


def cols(t):
    d = dims(t)
    return d[1] if d else mk('cols', t, kind='i')


def const_dims(t):
    d = dims(t)
    if not d:
        return None
    r, c = as_int(d[0]), as_int(d[1])
    if r is None or c is None:
        return None
    return (r, c)


# ---------------------------------------------------------------- polynomials
# mono = (scalars, nc): scalars = sorted tuple of (term, exp); nc = tuple of non-commuting factors
UNIT = ((), ())


def to_poly(t):
    """dict mono->coef"""
    if t.op == 'num':
        return {UNIT: t.a[0]} if t.a[0] != 0 else {}
    if t.op == 'bool':
        return {UNIT: Fraction(1)} if t.a[0] else {}
    if t.op == 'zero':
        return {}
    if t.op == 'poly':
        return dict(t.a[0])
    if isscalar(t):
        return {(((t, 1),), ()): Fraction(1)}
    return {((), (t,)): Fraction(1)}


def mono_key(m):
    return (len(m[1]), len(m[0]), digest(m))


def poly_kind(p):
    k = 'i'
    for m, c in p.items():
        if m[1]:
            ks = [x.kind for x in m[1]]
            return 'm' if 'm' in ks else ks[0]
        for (s, e) in m[0]:
            if s.kind == 's' or e < 0:
                k = 's'
        if c.denominator != 1:
            k = 's'
    return k


def from_poly(p, like=None):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        if like is not None:
            d = dims(like) if like.kind == 'm' else None
            if d:
                return zero(d[0], d[1])
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == UNIT:
            return num(c)
        if c == 1:
            if not m[1] and len(m[0]) == 1 and m[0][0][1] == 1:
                return m[0][0][0]
            if not m[0] and len(m[1]) == 1:
                return m[1][0]
    items = tuple(sorted(p.items(), key=lambda kv: mono_key(kv[0])))
    return mk('poly', items, kind=poly_kind(p))


def add(*ts):
    p = {}
    like = None
    for t in ts:
        if t.op == 'uninit':
            return UNINIT
        if t.kind == 'm' and like is None:
            like = t
        for m, c in to_poly(t).items():
            p[m] = p.get(m, 0) + c
    # fold ite atoms with matching guards: c1*ite(g,a,b) + c2*ite(g,x,y)
    p = {m: c for m, c in p.items() if c != 0}
    p = merge_ites(p)
    return from_poly(p, like)


def merge_ites(p):
    """linear occurrences of ite(g,..) with the same guard are merged; keeps sums canonical."""
    byg = {}
    for m, c in p.items():
        t = lin_atom(m)
        if t is not None and t.op == 'ite':
            byg.setdefault(t.a[0], []).append((m, c, t))
    for g, lst in byg.items():
        if len(lst) < 2:
            continue
        a = add(*[scale(t.a[1], c) for (_, c, t) in lst])
        b = add(*[scale(t.a[2], c) for (_, c, t) in lst])
        for (m, _, _) in lst:
            del p[m]
        r = ite(g, a, b)
        for m, c in to_poly(r).items():
            p[m] = p.get(m, 0) + c
    return {m: c for m, c in p.items() if c != 0}


def lin_atom(m):
    if not m[1] and len(m[0]) == 1 and m[0][0][1] == 1:
        return m[0][0][0]
    if not m[0] and len(m[1]) == 1:
        return m[1][0]
    return None


def scale(t, c):
    c = Fraction(c)
    if c == 1:
        return t
    if c == 0:
        return zero(*dims(t)) if t.kind == 'm' and dims(t) else ZERO
    if t.op == 'zero':
        return t
    return from_poly({m: k * c for m, k in to_poly(t).items()}, t)


def neg(t):
    if t.op == 'uninit':
        return t
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def mul_scalars(s1, s2):
    d = {}
    for (t, e) in s1 + s2:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e != 0), key=lambda x: digest(x[0])))


def mul_nc(n1, n2):
    """concatenate non-commutative factor lists with local simplification; returns list or None for zero"""
    out = list(n1)
    for x in n2:
        if x.op == 'ident' and out:
            continue
        if out and out[-1].op == 'ident':
            out.pop()
        if out:
            y = out[-1]
            # R * R^T = I
            if (x.op == 'tr' and x.a[0] is y and y.op == 'R') or (y.op == 'tr' and y.a[0] is x and x.op == 'R'):
                out.pop()
                if not out:
                    out.append(ident(3))
                continue
            if x.op == 'minv' and x.a[0] is y or y.op == 'minv' and y.a[0] is x:
                out.pop()
                if not out:
                    d = dims(x)
                    out.append(ident(d[0]) if d else mk('ident', ONE, ONE, kind='m'))
                continue
        out.append(x)
    return tuple(out)


def mul(a, b):
    if a.op == 'uninit' or b.op == 'uninit':
        return UNINIT
    if a.kind == 'q' and b.kind == 'q':
        return qmul(a, b)
    if a.kind == 'q' and b.kind == 'm':
        return mul(rot(a), b)
    if a.kind == 'q' and not isscalar(b):
        a = rot(a)
    if a.op == 'zero' or b.op == 'zero':
        da, db = dims(a), dims(b)
        if isscalar(a):
            return b
        if isscalar(b):
            return a
        if da and db:
            return zero(da[0], db[1])
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 600:
        return mk('mulop', a, b, kind='m' if 'm' in (a.kind, b.kind) else 's')
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = (mul_scalars(m1[0], m2[0]), mul_nc(m1[1], m2[1]))
            p[m] = p.get(m, 0) + c1 * c2
    like = None
    if a.kind == 'm' or b.kind == 'm':
        da, db = dims(a), dims(b)
        if isscalar(a):
            like = b
        elif isscalar(b):
            like = a
        elif da and db:
            like = zero(da[0], db[1])
    p = {m: c for m, c in p.items() if c != 0}
    big = [m for m in p if any(abs(e) > 1 and x.op == 'fn' and x.a[0] == 'sqrt' for x, e in m[0])]
    if big:
        # the square of a square root is its argument
        parts = []
        for m in big:
            c = p.pop(m)
            keep, r = [], None
            for x, e in m[0]:
                if abs(e) > 1 and x.op == 'fn' and x.a[0] == 'sqrt':
                    h = abs(e) // 2
                    y = x.a[1] if e > 0 else inv(x.a[1])
                    for _ in range(h):
                        r = y if r is None else mul(r, y)
                    e = (abs(e) - 2 * h) * (1 if e > 0 else -1)
                if e:
                    keep.append((x, e))
            parts.append(mul(r, from_poly({(tuple(keep), m[1]): c})))
        return add(*([from_poly(merge_ites(p), like)] if p else []), *parts)
    return from_poly(merge_ites(p), like)


def mulall(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = mul(r, t)
    return r


def inv(t):
    """scalar reciprocal"""
    if t.op == 'uninit':
        return t
    if t.op == 'num':
        if t.a[0] == 0:
            return mk('inv0', kind='s')
        return num(1 / t.a[0], kind='s')
    p = to_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if not m[1]:
            return from_poly({(tuple((s, -e) for s, e in m[0]), ()): 1 / c})
    # normalise leading coefficient
    items = sorted(p.items(), key=lambda kv: mono_key(kv[0]))
    lead = items[0][1]
    tt = from_poly({m: c / lead for m, c in p.items()})
    tt.kind = 's'
    return from_poly({(((tt, -1),), ()): 1 / lead})


def div(a, b):
    return mul(a, inv(b))


def power(t, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(power(t, -n))
    r = t
    for _ in range(n - 1):
        r = mul(r, t)
    return r


# ---------------------------------------------------------------- matrices
def transpose(t):
    if t.op == 'uninit':
        return t
    if isscalar(t):
        return t
    if t.op == 'tr':
        return t.a[0]
    if t.op == 'zero':
        return zero(t.a[1], t.a[0])
    if t.op == 'ident':
        return ident(t.a[1], t.a[0])
    if t.op == 'asdiag':
        return t
    if t.op == 'skew':
        return neg(t)
    if t.op == 'mat':
        r, c, e = t.a
        return mat(c, r, [e[i * c + j] for j in range(c) for i in range(r)])
    if t.op == 'ite':
        return ite(t.a[0], transpose(t.a[1]), transpose(t.a[2]))
    if t.op == 'blk':
        pass
    if t.op == 'poly':
        p = {}
        for (s, nc), c in t.a[0]:
            m = (s, ())
            r = mk('dummy')
            acc = from_poly({(s, ()): c})
            for x in reversed(nc):
                acc = mul(acc, transpose(x))
            for mm, cc in to_poly(acc).items():
                p[mm] = p.get(mm, 0) + cc
        return from_poly(p, mk('zero', *reversed(dims(t)), kind='m') if dims(t) else None)
    d = t.dim
    return mk('tr', t, kind='m', dim=(d[1], d[0]) if d else None)


def rot(q):
    """rotation matrix of a quaternion"""
    if q.op == 'qmul':
        r = rot(q.a[0])
        for x in q.a[1:]:
            r = mul(r, rot(x))
        return r
    if q.op == 'qinv':
        return transpose(rot(q.a[0]))
    if q.op == 'qident':
        return ident(3)
    if q.op == 'ite':
        return ite(q.a[0], rot(q.a[1]), rot(q.a[2]))
    if q.op == 'quatof' and q.a[0].kind == 'm':
        return q.a[0]
    if q.op == 'uninit':
        return q
    return mk('R', q, kind='m', dim=(3, 3))


QID = mk('qident', kind='q')


def qmul(*qs):
    out = []
    for q in qs:
        parts = q.a if q.op == 'qmul' else (q,)
        for x in parts:
            if x.op == 'qident':
                continue
            if out and (x.op == 'qinv' and x.a[0] is out[-1] or out[-1].op == 'qinv' and out[-1].a[0] is x):
                out.pop()
                continue
            out.append(x)
    if not out:
        return QID
    if len(out) == 1:
        return out[0]
    return mk('qmul', *out, kind='q')


def qinv(q):
    if q.op == 'qinv':
        return q.a[0]
    if q.op == 'qident':
        return q
    if q.op == 'qmul':
        return qmul(*[qinv(x) for x in reversed(q.a)])
    if q.op == 'ite':
        return ite(q.a[0], qinv(q.a[1]), qinv(q.a[2]))
    if q.op == 'rv2q':
        return mk('rv2q', neg(q.a[0]), kind='q')
    return mk('qinv', q, kind='q')


def minv(t):
    if t.op == 'R':
        return transpose(t)
    if t.op == 'tr' and t.a[0].op == 'R':
        return t.a[0]
    if t.op == 'minv':
        return t.a[0]
    if t.op == 'ident':
        return t
    if t.op == 'poly' and len(t.a[0]) == 1:
        (s, nc), c = t.a[0][0]
        if nc and all(x.op == 'R' or x.op == 'tr' and x.a[0].op == 'R' for x in nc):
            acc = inv(from_poly({(s, ()): c}))
            for x in reversed(nc):
                acc = mul(acc, transpose(x))
            return acc
    return mk('minv', t, kind='m', dim=t.dim)


def skew(v):
    if v.op == 'zero':
        return zero(3, 3)
    if v.op == 'ite':
        return ite(v.a[0], skew(v.a[1]), skew(v.a[2]))
    if v.op == 'poly':
        p = {}
        ok = True
        for (s, nc), c in v.a[0]:
            base = from_poly({((), nc): Fraction(1)})
            if base.op == 'poly' or True:
                sk = mk('skew', base, kind='m', dim=(3, 3))
            mm = (s, (sk,))
            p[mm] = p.get(mm, 0) + c
        if ok:
            return from_poly(p)
    return mk('skew', v, kind='m', dim=(3, 3))


def mat(r, c, entries):
    """small constant-dimension matrix; collapses to a linear combination of vectors when possible"""
    entries = tuple(entries)
    if all(e.op == 'num' and e.a[0] == 0 for e in entries):
        return zero(r, c)
    if r == c and r > 1 and all(isnum(e) and e.a[0] == (1 if i % (c + 1) == 0 else 0) for i, e in enumerate(entries)):
        return ident(r)
    if c == 1 and r > 1:
        t = uncomponent(r, entries)
        if t is not None:
            return t
    if r == 1 and c == 1:
        return mk('mat', 1, 1, entries, kind='m')
    # common negative sign / common scalar is left alone
    return mk('mat', r, c, entries, kind='m')


def uncomponent(r, entries):
    """[e_i] with e_i = sum_k c_k * elem(v_k, i)  ->  sum_k c_k v_k"""
    def lift(e, i):
        p = to_poly(e)
        acc = []
        for (s, nc), c in p.items():
            if nc:
                return None
            el = [(t, x) for (t, x) in s if t.op == 'elem' and x == 1 and as_int(t.a[1]) == i and as_int(t.a[2]) == 0 and
                  const_dims(t.a[0]) == (r, 1)]
            if len(el) != 1:
                return None
            rest = tuple(y for y in s if y[0] is not el[0][0])
            acc.append(mul(from_poly({(rest, ()): c}), el[0][0].a[0]))
        return add(*acc) if acc else None
    first = lift(entries[0], 0)
    if first is None:
        return None
    for i in range(1, r):
        if lift(entries[i], i) is not first:
            return None
    return first


HAS = [None]   # smart constructor for map membership (set by libmodel)
INDEX_DISJOINT = [None]   # optional oracle: f(offset_poly_a, offset_poly_b) -> bool


def le(a, b):
    """provably a <= b"""
    d = sub(b, a)
    return nonneg(d)


def nonneg(d):
    if isnum(d):
        return d.a[0] >= 0
    if d.op == 'bool':
        return True
    p = to_poly(d)
    for (s, nc), c in p.items():
        if nc or c < 0:
            if not nc and c < 0:
                return False
            return False
        for (t, e) in s:
            if not known_nonneg(t):
                return False
    return True


def known_nonneg(t):
    if t.op in ('size', 'rows', 'cols', 'count', 'kidx'):
        return True
    if t.op in ('psum', 'sum'):
        return t.kind == 'i'
    if t.op == 'ite':
        return nonneg(t.a[1]) and nonneg(t.a[2])
    if t.op == 'fld' and t.a[1] in NONNEG_FIELDS:
        return True
    if t.op == 'sym' and t.a[0] in NONNEG_SYMS:
        return True
    return False


NONNEG_FIELDS = set()
NONNEG_SYMS = set()


def disjoint1(o1, n1, o2, n2):
    if le(add(o1, n1), o2) or le(add(o2, n2), o1):
        return True
    f = INDEX_DISJOINT[0]
    if f and f(o1, n1, o2, n2):
        return True
    return False


def blk_disjoint(w1, w2):
    return disjoint1(w1[0], w1[2], w2[0], w2[2]) or disjoint1(w1[1], w1[3], w2[1], w2[3])


def setblk(m, r, c, h, w, v, guard=TRUE):
    r, c, h, w = tonum(r), tonum(c), tonum(h), tonum(w)
    if guard is FALSE:
        return m
    if as_int(h) == 0 or as_int(w) == 0:
        return m
    if m.op in ('uninit',):
        m = mk('uninitm', mk('rows', m), mk('cols', m), kind='m')
    d = dims(m)
    if guard is TRUE and d and isnum(r) and isnum(c) and numval(r) == 0 and numval(c) == 0 and d[0] is h and d[1] is w:
        if v.kind != 'm' and not isscalar(v):
            return v
        if ismat(v):
            return v
        if isscalar(v):
            pass
    if m.op == 'mat' or (m.op in ('zero', 'ident', 'uninitm') and const_dims(m) and const_dims(m)[0] * const_dims(m)[1] <= 36):
        ri, ci, hi, wi = (as_int(x) for x in (r, c, h, w))
        if None not in (ri, ci, hi, wi) and guard is TRUE and hi * wi <= 36:
            R, Cc = const_dims(m)
            if ri + hi <= R and ci + wi <= Cc and ri >= 0 and ci >= 0:
                if (hi, wi) == (1, 1) or v.op in ('mat', 'zero', 'ident'):
                    es = mat_entries(m)
                    for i in range(hi):
                        for j in range(wi):
                            es[(ri + i) * Cc + ci + j] = v if isscalar(v) else elem(v, num(i), num(j))
                    if m.op in ('uninitm',) or m.op == 'mat' or (hi, wi) == (1, 1) or True:
                        if hi * wi == 1 or R * Cc <= 9:
                            return mat(R, Cc, es)
    # what is there already is not a write
    if as_int(h) == 1 and as_int(w) == 1 and (v.op in ('elem', 'ite')):
        cur = elem(m, r, c)
        if v is cur:
            return m
        if v.op == 'ite' and (v.a[1] is cur or v.a[2] is cur):
            if v.a[2] is cur:
                return setblk(m, r, c, h, w, v.a[1], and_(guard, v.a[0]))
            return setblk(m, r, c, h, w, v.a[2], and_(guard, not_(v.a[0])))
    if m.op == 'mw':
        base, ws = m.a
    else:
        base, ws = m, ()
    ws = list(ws)
    new = (r, c, h, w, v, guard)
    # a later write to exactly the same region with guard implied replaces the earlier one
    keep = []
    for x in ws:
        if guard is TRUE and x[0] is r and x[1] is c and x[2] is h and x[3] is w:
            continue
        if guard is TRUE and contains_region(new, x):
            continue
        keep.append(x)
    ws = keep
    ws.append(new)
    return mkmw(base, ws)


def contains_region(big, small):
    return (le(big[0], small[0]) and le(big[1], small[1]) and le(add(small[0], small[2]), add(big[0], big[2])) and
            le(add(small[1], small[3]), add(big[1], big[3])))


def write_key(w):
    return digest(w)


def mkmw(base, ws):
    # writing back zeros over a zero base is a no-op
    out = []
    for w in ws:
        if base.op == 'zero' and w[4].op == 'zero' and all(blk_disjoint(w, o) for o in out):
            continue
        if base.op == 'zero' and isnum(w[4]) and w[4].a[0] == 0 and all(blk_disjoint(w, o) for o in out):
            continue
        out.append(w)
    ws = sort_writes(out)
    if not ws:
        return base
    return mk('mw', base, tuple(ws), kind='m', dim=base.dim)


def sort_writes(ws):
    # canonical order: bubble adjacent disjoint writes by key
    ws = list(ws)
    n = len(ws)
    changed = True
    while changed:
        changed = False
        for i in range(n - 1):
            a, b = ws[i], ws[i + 1]
            if write_key(a) > write_key(b) and (blk_disjoint(a, b) or excl(a[5], b[5])):
                ws[i], ws[i + 1] = b, a
                changed = True
    out = []
    for w in ws:
        if out and out[-1][:5] == w[:5]:
            out[-1] = w[:5] + (or_(out[-1][5], w[5]),)
        else:
            out.append(w)
    return out


def excl(g1, g2):
    return and_(g1, g2) is FALSE


def mat_entries(m):
    if m.op == 'mat':
        return list(m.a[2])
    r, c = const_dims(m)
    if m.op == 'zero':
        return [ZERO] * (r * c)
    if m.op == 'ident':
        return [ONE if i == j else ZERO for i in range(r) for j in range(c)]
    if m.op == 'uninitm':
        return [UNINIT] * (r * c)
    return [elem(m, num(i), num(j)) for i in range(r) for j in range(c)]


def blk(m, r, c, h, w):
    r, c, h, w = tonum(r), tonum(c), tonum(h), tonum(w)
    if m.op == 'uninit':
        return m
    d = dims(m)
    if d and isnum(r) and isnum(c) and numval(r) == 0 and numval(c) == 0 and d[0] is h and d[1] is w:
        return m
    if m.op == 'zero':
        return zero(h, w)
    if m.op == 'ident':
        if r is c and h is w:
            return ident(h)
        if disjoint1(r, h, c, w):
            return zero(h, w)
    if m.op == 'blk':
        return blk(m.a[0], add(m.a[1], r), add(m.a[2], c), h, w)
    if m.op == 'tr':
        return transpose(blk(m.a[0], c, r, w, h))
    if m.op == 'mat':
        ri, ci, hi, wi = (as_int(x) for x in (r, c, h, w))
        if None not in (ri, ci, hi, wi):
            R, Cc, es = m.a
            if ri + hi <= R and ci + wi <= Cc:
                return mat(hi, wi, [es[(ri + i) * Cc + ci + j] for i in range(hi) for j in range(wi)])
    if m.op == 'ite':
        return ite(m.a[0], blk(m.a[1], r, c, h, w), blk(m.a[2], r, c, h, w))
    if m.op == 'poly':
        acc = []
        for (s, nc), cf in m.a[0]:
            if len(nc) == 1:
                acc.append(mul(from_poly({(s, ()): cf}), blk(nc[0], r, c, h, w)))
            else:
                base = from_poly({((), nc): Fraction(1)})
                acc.append(mul(from_poly({(s, ()): cf}), mk('blk', base, r, c, h, w, kind='m')))
        return add(*acc)
    if m.op == 'mw':
        base, ws = m.a
        for i in range(len(ws) - 1, -1, -1):
            x = ws[i]
            if x[0] is r and x[1] is c and x[2] is h and x[3] is w:
                rest = mkmw(base, list(ws[:i]))
                return ite(x[5], x[4] if ismat(x[4]) else x[4], blk(rest, r, c, h, w))
            if disjoint1(x[0], x[2], r, h) or disjoint1(x[1], x[3], c, w):
                continue
            if contains_region(x, (r, c, h, w)):
                rest = mkmw(base, list(ws[:i]))
                v = x[4]
                if ismat(v):
                    return ite(x[5], blk(v, sub(r, x[0]), sub(c, x[1]), h, w), blk(rest, r, c, h, w))
            # partial / unknown overlap: keep only relevant writes
            rel = [y for y in ws[:i + 1] if not (disjoint1(y[0], y[2], r, h) or disjoint1(y[1], y[3], c, w))]
            return mk('blk', mkmw(base, rel), r, c, h, w, kind='m')
        return blk(base, r, c, h, w)
    return mk('blk', m, r, c, h, w, kind='m')


def elem(m, i, j=ZERO):
    i, j = tonum(i), tonum(j)
    if m.op == 'uninit' or m.op == 'uninitm':
        return UNINIT
    if isscalar(m):
        return m
    if m.op == 'mat':
        ii, jj = as_int(i), as_int(j)
        if ii is not None and jj is not None and 0 <= ii < m.a[0] and 0 <= jj < m.a[1]:
            return m.a[2][ii * m.a[1] + jj]
    if m.op == 'zero':
        return ZERO
    if m.op == 'ident':
        if i is j:
            return ONE
        if isnum(sub(i, j)):
            return ZERO
    if m.op == 'poly':
        acc = []
        for (s, nc), c in m.a[0]:
            co = from_poly({(s, ()): c})
            if len(nc) == 1:
                acc.append(mul(co, elem(nc[0], i, j)))
            elif not nc:
                acc.append(co)
            else:
                base = from_poly({((), nc): Fraction(1)})
                acc.append(mul(co, mk('elem', base, i, j, kind='s')))
        return add(*acc)
    if m.op == 'blk':
        return elem(m.a[0], add(m.a[1], i), add(m.a[2], j))
    if m.op == 'tr':
        return elem(m.a[0], j, i)
    if m.op == 'ite':
        return ite(m.a[0], elem(m.a[1], i, j), elem(m.a[2], i, j))
    if m.op == 'diagv':
        return elem(m.a[0], i, i)
    if m.op == 'cwise' and m.a[0] in ('sq',):
        e = elem(m.a[1], i, j)
        return mul(e, e)
    if m.op == 'cwise' and m.a[0] == 'sqrt':
        return fn('sqrt', elem(m.a[1], i, j))
    if m.op == 'cwise':
        return cwise_scalar(m.a[0], [elem(x, i, j) if ismat(x) else x for x in m.a[1:]])
    if m.op == 'mw':
        b = blk(m, i, j, ONE, ONE)
        if b.op == 'ite':
            return ite(b.a[0], elem1(b.a[1]), elem1(b.a[2]))
        if isscalar(b):
            return b
        if b.op == 'blk' and b.a[0] is m:
            return mk('elem', m, i, j, kind='s')
        return elem1(b)
    return mk('elem', m, i, j, kind='s')


def elem1(b):
    return b if isscalar(b) else elem(b, ZERO, ZERO)


def diagv(m):
    """diagonal as a vector"""
    if m.op == 'asdiag':
        return m.a[0]
    if m.op == 'poly':
        acc = []
        for (s, nc), c in m.a[0]:
            co = from_poly({(s, ()): c})
            base = from_poly({((), nc): Fraction(1)})
            acc.append(mul(co, diagv(base) if base.op != 'poly' else mk('diagv', base, kind='m')))
        return add(*acc)
    if m.op == 'ite':
        return ite(m.a[0], diagv(m.a[1]), diagv(m.a[2]))
    if m.op == 'zero':
        return zero(m.a[0], 1)
    return mk('diagv', m, kind='m')


def asdiag(v):
    if v.op == 'diagv':
        return mk('asdiag', v, kind='m')
    return mk('asdiag', v, kind='m')


def cwise_scalar(name, a):
    if name == 'prod':
        return mul(a[0], a[1])
    if name == 'quot':
        return div(a[0], a[1])
    if name == 'inv':
        return div(ONE, a[0])
    if name == 'cube':
        return mul(a[0], mul(a[0], a[0]))
    return fn(name, *a)


def cwise(name, *a):
    """an operation on every element of matrices of one size; scalars stand for matrices of equal elements"""
    for x in a:
        if x.op == 'ite':
            return ite(x.a[0], cwise(name, *[y.a[1] if y is x else y for y in a]), cwise(name, *[y.a[2] if y is x else y for y in a]))
    m = [x for x in a if ismat(x)]
    cd = const_dims(m[0])
    if cd and cd[0] * cd[1] <= 16:
        return mat(cd[0], cd[1], [cwise_scalar(name, [elem(x, num(i), num(j)) if ismat(x) else x for x in a])
                                  for i in range(cd[0]) for j in range(cd[1])])
    return mk('cwise', name, *a, kind='m', dim=m[0].dim)


def cwise_sqrt(m):
    if m.op == 'zero':
        return m
    if m.op == 'ident':
        return m
    if m.op == 'ite':
        return ite(m.a[0], cwise_sqrt(m.a[1]), cwise_sqrt(m.a[2]))
    if m.op == 'mw' and m.a[0].op == 'zero':
        return mkmw(m.a[0], [(w[0], w[1], w[2], w[3], cwise_sqrt(w[4]) if ismat(w[4]) else fn('sqrt', w[4]), w[5]) for w in m.a[1]])
    return mk('cwise', 'sqrt', m, kind='m', dim=m.dim)


def cwise_prod(a, b):
    if isscalar(a) and isscalar(b):
        return mul(a, b)
    if a is b:
        if a.op == 'ite':
            return ite(a.a[0], cwise_prod(a.a[1], a.a[1]), cwise_prod(a.a[2], a.a[2]))
        return mk('cwise', 'sq', a, kind='m', dim=a.dim)
    if a.op == 'mat' or b.op == 'mat':
        return cwise('prod', a, b)
    x, y = sorted((a, b), key=digest)
    return mk('cwise', 'prod', x, y, kind='m', dim=a.dim)


# ---------------------------------------------------------------- booleans
def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.a[0]
    if t.op == 'and':
        return or_(*[not_(x) for x in t.a])
    if t.op == 'or':
        return and_(*[not_(x) for x in t.a])
    if t.op == 'ite':
        return ite(t.a[0], not_(t.a[1]), not_(t.a[2]))
    return mk('not', t, kind='b')


def and_(*ts):
    out = []
    for t in ts:
        t = tobool(t)
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for x in (t.a if t.op == 'and' else (t,)):
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
        if x.op == 'lt' and any(y.op == 'lt' and y is not x and contradict(x, y) for y in out):
            return FALSE
    # enum exclusivity / absorption
    eqs = {}
    for x in out:
        k = eq_enum(x)
        if k:
            if k[0] in eqs and eqs[k[0]] is not k[1]:
                return FALSE
            eqs[k[0]] = k[1]
    if eqs:
        out = [x for x in out if not (x.op == 'not' and eq_enum(x.a[0]) and eq_enum(x.a[0])[0] in eqs and
                                      eqs[eq_enum(x.a[0])[0]] is not eq_enum(x.a[0])[1])]
    res = []
    for x in out:
        if x.op == 'or':
            if any(y in out for y in x.a):
                continue
            kept = [y for y in x.a if not_(y) not in out]
            if len(kept) != len(x.a):
                return and_(*[z for z in out if z is not x], or_(*kept))
        res.append(x)
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return mk('and', *sorted(res, key=digest), kind='b')


def contradict(x, y):
    """lt(x) and lt(y) cannot both hold: x + y >= 0 provably (x<0 and y<0 imply x+y<0)"""
    s = add(x.a[0], y.a[0])
    return isnum(s) and s.a[0] >= 0


def eq_enum(x):
    if x.op == 'eq' and x.a[1].op in ('enum', 'num', 'str'):
        return (x.a[0], x.a[1])
    return None


def or_(*ts):
    out = []
    for t in ts:
        t = tobool(t)
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for x in (t.a if t.op == 'or' else (t,)):
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return TRUE
    res = []
    for x in out:
        if x.op == 'and':
            if any(y in out for y in x.a):
                continue
            kept = [y for y in x.a if not_(y) not in out]
            if len(kept) != len(x.a):
                return or_(*[z for z in out if z is not x], and_(*kept))
        res.append(x)
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    return mk('or', *sorted(res, key=digest), kind='b')


def tobool(t):
    if t.kind == 'b' or t.op in ('bool', 'not', 'and', 'or', 'lt', 'eq'):
        return t
    if t.op == 'num':
        return boolean(t.a[0] != 0)
    if t.op == 'ite':
        return ite(t.a[0], tobool(t.a[1]), tobool(t.a[2]))
    if t.op == 'str':
        return TRUE
    if t.kind in ('i', 's'):
        return not_(eq(t, ZERO))
    if t.op == 'null':
        return FALSE
    return mk('truthy', t, kind='b')


def lt(a, b):
    if a.op == 'uninit' or b.op == 'uninit':
        return mk('lt', UNINIT, kind='b')
    d = sub(a, b)
    if isnum(d):
        return boolean(d.a[0] < 0)
    if d.op == 'ite':
        return ite(d.a[0], lt(d.a[1], ZERO), lt(d.a[2], ZERO))
    p = to_poly(d)
    integer = poly_kind(p) == 'i'
    lead = sorted(((m, c) for m, c in p.items() if m != UNIT), key=lambda kv: mono_key(kv[0]))[0][1]
    if integer:
        if nonneg(d):
            return FALSE
        if nonneg(sub(neg(d), ONE)):
            return TRUE
        if lead > 0:
            return mk('lt', d, kind='b')
        # d<0  <=>  not(d>=0) <=> not(-d-1 < 0)
        return not_(mk('lt', sub(neg(d), ONE), kind='b'))
    if nonneg(d):
        return FALSE
    d = scale(d, 1 / abs(lead))
    return mk('lt', d, kind='b')


def eq(a, b):
    if a is b:
        return TRUE
    if a.kind == 'b' and b.kind == 'b':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
    for x, y in ((a, b), (b, a)):
        if x.op == 'iterend' and y.op == 'iterfind' and x.a[0] == y.a[0]:
            return not_(y.a[2])
    if a.op == 'enum' and b.op == 'enum':
        return boolean(a.a[1] == b.a[1] and a.a[0].rsplit('::', 1)[0] == b.a[0].rsplit('::', 1)[0])
    if a.op == 'str' and b.op == 'str':
        return boolean(a.a[0] == b.a[0])
    if a.op == 'ite' and (b.op in ('enum', 'num', 'str', 'null')):
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == 'ite' and (a.op in ('enum', 'num', 'str', 'null')):
        return ite(b.a[0], eq(b.a[1], a), eq(b.a[2], a))
    if a.op in ('enum', 'str', 'null') or b.op in ('enum', 'str', 'null'):
        if a.op in ('enum', 'str', 'null'):
            a, b = b, a
        if b.op == 'null' and a.op in ('new', 'rec', 'makeptr', 'addr', 'ptrto'):
            return FALSE
        return mk('eq', a, b, kind='b')
    if (isscalar(a) or a.op == 'poly') and (isscalar(b) or b.op == 'poly') and a.kind != 'm':
        d = sub(a, b)
        if isnum(d):
            return boolean(d.a[0] == 0)
        if d.op == 'ite':
            return ite(d.a[0], eq(d.a[1], ZERO), eq(d.a[2], ZERO))
        p = to_poly(d)
        items = sorted(((m, c) for m, c in p.items() if m != UNIT), key=lambda kv: mono_key(kv[0]))
        lead = items[0][1]
        const = p.get(UNIT, Fraction(0))
        lhs = from_poly({m: c / lead for m, c in p.items() if m != UNIT})
        rhs = num(-const / lead)
        if lhs.op == 'kidx' or (nonneg(lhs) and poly_kind(p) == 'i'):
            if rhs.a[0] < 0:
                return FALSE
            if rhs.a[0] == 0 and nonneg(lhs):
                return lt(lhs, ONE)
        return mk('eq', lhs, rhs, kind='b')
    x, y = sorted((a, b), key=digest)
    return mk('eq', x, y, kind='b')


# ---------------------------------------------------------------- conditionals
def conds(t):
    """frozenset of atomic conditions guarding ite/mw in t (incl. boolean structure)"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            r = frozenset()
            for x in t:
                r |= conds(x)
            return r
        return frozenset()
    if t._c is None:
        if t.op in ('sym', 'num', 'str', 'enum'):
            t._c = frozenset()
        else:
            r = frozenset()
            if t.op == 'ite':
                r |= atoms(t.a[0])
            elif t.op == 'mw':
                for w in t.a[1]:
                    r |= atoms(w[5])
            elif t.kind == 'b':
                r |= atoms(t)
            if t.op in BINDERS:
                vi, sc = BINDERS[t.op]
                for i, x in enumerate(t.a):
                    cx = conds(x)
                    if i in sc:
                        cx = frozenset(c for c in cx if not occurs(t.a[vi], c))
                    r |= cx
            else:
                for x in t.a:
                    r |= conds(x)
            t._c = r
    return t._c


def atoms(c):
    if c.op in ('and', 'or', 'not'):
        r = frozenset()
        for x in c.a:
            r |= atoms(x)
        return r
    if c.op == 'bool':
        return frozenset()
    if c.op == 'ite':
        return atoms(c.a[0]) | atoms(c.a[1]) | atoms(c.a[2])
    return frozenset([c])


def ite(c, a, b):
    c = tobool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if c.op == 'ite':
        return ite(c.a[0], ite(c.a[1], a, b), ite(c.a[2], a, b))
    # simplify branches under the condition
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if (a.kind == 'b' or a.op == 'bool') and (b.kind == 'b' or b.op == 'bool'):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        if not_(a) is b:
            pass
        if a.op != 'uninit' and b.op != 'uninit':
            return or_(and_(c, a), and_(not_(c), b))
    # matrix writes with a common base become guarded writes
    if (a.op == 'mw' or b.op == 'mw'):
        ba, wa = (a.a if a.op == 'mw' else (a, ()))
        bb, wb = (b.a if b.op == 'mw' else (b, ()))
        if ba is bb:
            i = 0
            while i < len(wa) and i < len(wb) and wa[i] == wb[i]:
                i += 1
            ws = list(wa[:i])
            ra = [x for x in wa[i:]]
            rb = [x for x in wb[i:]]
            ws += [(x[0], x[1], x[2], x[3], x[4], and_(x[5], c)) for x in ra]
            ws += [(x[0], x[1], x[2], x[3], x[4], and_(x[5], not_(c))) for x in rb]
            return mkmw(ba, merge_writes(ws))
    if a.op == 'rec' and b.op == 'rec' and a.a[0] is b.a[0]:
        da, db = dict(a.a[1]), dict(b.a[1])
        if set(da) == set(db):
            return rec(a.a[0], {k: ite(c, da[k], db[k]) for k in da})
    # numeric: pull common monomials out
    ka, kb = a.kind, b.kind
    if (a.op in ('poly', 'num') or b.op in ('poly', 'num')) and ka in ('i', 's', 'm') and kb in ('i', 's', 'm') and \
            (ka == 'm') == (kb == 'm'):
        pa, pb = to_poly(a), to_poly(b)
        common = {m: x for m, x in pa.items() if pb.get(m) == x}
        if common:
            ra = from_poly({m: x for m, x in pa.items() if m not in common}, a)
            rb = from_poly({m: x for m, x in pb.items() if m not in common}, b)
            base = from_poly(common)
            it = ite_raw(c, ra, rb)
            return add(base, it)
    elif ka == 'm' and kb == 'm' or (ka in ('i', 's') and kb in ('i', 's')):
        pass
    return ite_raw(c, a, b)


def ite_raw(c, a, b):
    if a is b:
        return a
    k = a.kind if a.kind == b.kind else ('s' if {a.kind, b.kind} <= {'i', 's', 'b'} else (a.kind or b.kind))
    # scalars: factor sign so that ite(c,-x,0) and -ite(c,x,0) agree
    if b.op in ('num', 'zero') and to_poly(b) == {} and a.kind in ('i', 's', 'm'):
        pa = to_poly(a)
        if len(pa) == 1:
            (m, cf), = pa.items()
            if cf != 1 and m != UNIT:
                return scale(mk('ite', c, from_poly({m: Fraction(1)}, a), b, kind=k), cf)
    if a.op in ('num', 'zero') and to_poly(a) == {} and b.kind in ('i', 's', 'm'):
        return ite_raw_swap(c, a, b, k)
    # canonical orientation for disjunctions/conjunctions is left to case splitting
    return mk('ite', c, a, b, kind=k)


def ite_raw_swap(c, a, b, k):
    pb = to_poly(b)
    if len(pb) == 1:
        (m, cf), = pb.items()
        if cf != 1 and m != UNIT:
            return scale(mk('ite', c, a, from_poly({m: Fraction(1)}, b), kind=k), cf)
    return mk('ite', c, a, b, kind=k)


def merge_writes(ws):
    """writes to the same region and value under complementary guards become one"""
    out = list(ws)
    i = 0
    while i < len(out):
        j = i + 1
        while j < len(out):
            a, b = out[i], out[j]
            if a[:5] == b[:5] and all(blk_disjoint(a, x) or excl(a[5], x[5]) for x in out[i + 1:j]):
                out[i] = a[:5] + (or_(a[5], b[5]),)
                del out[j]
                continue
            j += 1
        i += 1
    return out


_assume_memo = {}


def assume(t, c, val):
    """simplify t knowing condition c has truth value val"""
    facts = facts_of(c, val)
    if not facts:
        return t
    if not any(f in conds(t) or not isinstance(t, T) for f in facts):
        # enum facts may decide other equalities on the same subject
        subj = {f.a[0] for f, v in facts.items() if v and f.op == 'eq'}
        if not subj or not any(x.op == 'eq' and x.a[0] in subj for x in conds(t)):
            return t
    return apply_facts(t, facts)


def facts_of(c, val):
    out = {}

    def go(x, v):
        if x.op == 'not':
            go(x.a[0], not v)
        elif x.op == 'and':
            if v:
                for y in x.a:
                    go(y, True)
            else:
                out[x] = False
        elif x.op == 'or':
            if not v:
                for y in x.a:
                    go(y, False)
            else:
                out[x] = True
        elif x.op == 'bool':
            pass
        else:
            out[x] = v
    go(c, val)
    return out


def apply_facts(t, facts):
    fk = tuple(sorted(((digest(k), v) for k, v in facts.items())))
    memo = _assume_memo.setdefault(fk, {})
    eqfacts = {f.a[0]: f.a[1] for f, v in facts.items() if v and f.op == 'eq' and f.a[1].op in ('enum', 'num', 'str')}

    def leaf(x):
        if x in facts:
            return boolean(facts[x])
        if x.op == 'eq' and x.a[0] in eqfacts and x.a[1].op in ('enum', 'num', 'str'):
            return boolean(x.a[1] is eqfacts[x.a[0]])
        if x.op == 'lt' and x.a[0].op != 'uninit':
            for f, v in facts.items():
                if f.op == 'lt' and f.a[0].op != 'uninit':
                    if v and contradict(f, x):
                        return FALSE
                    if v:
                        d = sub(f.a[0], x.a[0])   # f<0 and x <= f
                        if isnum(d) and d.a[0] >= 0:
                            return TRUE
                    else:
                        d = sub(x.a[0], f.a[0])   # f>=0 and x >= f
                        if isnum(d) and d.a[0] >= 0:
                            return FALSE
        return None
    return rebuild(t, leaf, memo)


# ---------------------------------------------------------------- structures and containers
def rec(base, d):
    d = {k: v for k, v in d.items()}
    if base.op == 'rec':
        dd = dict(base.a[1])
        dd.update(d)
        d = dd
        base = base.a[0]
    d = {k: v for k, v in d.items() if not (v.op == 'fld' and v.a[0] is base and v.a[1] == k)}
    if not d:
        return base
    return mk('rec', base, tuple(sorted(d.items())), kind='o')


def fld(t, name):
    if t.op == 'rec':
        for k, v in t.a[1]:
            if k == name:
                return v
        return fld(t.a[0], name)
    if t.op == 'ite':
        return ite(t.a[0], fld(t.a[1], name), fld(t.a[2], name))
    if t.op == 'uninit':
        return t
    k, d = KINDS.get(name, (None, None))
    if isinstance(k, dict):
        k, d = None, None
    return mk('fld', t, name, kind=k, dim=d)


def distinct(k1, k2):
    e = eq(k1, k2)
    return e is FALSE


def sel(t, k, kind=None, dim=None):
    """element k of a sequence / map"""
    if t.op == 'upd':
        e = eq(t.a[1], k)
        return ite(e, t.a[2], sel(t.a[0], k, kind, dim)) if e is not TRUE else t.a[2]
    if t.op == 'append':
        n = size(t.a[0])
        d = sub(k, n)
        if isnum(d) and d.a[0] == 0:
            return t.a[1]
        if isnum(d) and d.a[0] < 0:
            return sel(t.a[0], k, kind, dim)
        if as_int(k) is not None and nonneg(sub(sub(n, k), ONE)):
            return sel(t.a[0], k, kind, dim)
        return mk('sel', t, k, kind=kind, dim=dim)
    if t.op == 'seq':
        i = as_int(k)
        if i is not None and 0 <= i < len(t.a):
            return t.a[i]
    if t.op == 'mapd':
        # (dom, base, val, bound variable): every element updated
        dom, base, val, ks = t.a
        return instantiate(val, ks, k)
    if t.op == 'erase':
        s, i = t.a
        ki, ii = as_int(k), as_int(i)
        if ii == 0:
            return sel(s, add(k, ONE), kind, dim)
        c = lt(k, i)
        return ite(c, sel(s, k, kind, dim), sel(s, add(k, ONE), kind, dim))
    if t.op == 'maps':
        # every element produced exactly once: value with key substituted
        dom, ks, lst = t.a
        if lst.op == 'seq' and len(lst.a) == 1 and dom.a[0] == 'range':
            return instantiate(lst.a[0], ks, add(k, dom.a[1]))
    if t.op == 'ite':
        return ite(t.a[0], sel(t.a[1], k, kind, dim), sel(t.a[2], k, kind, dim))
    return mk('sel', t, k, kind=kind, dim=dim)


def instantiate(body, bv, k):
    z = mk('opened', 'inst', kind=bv.kind)
    return subst(rename_bnd(body, bv, z), {z: k})


def vsize(t):
    """size of a vector: element writes do not change it"""
    while t.op == 'upd':
        t = t.a[0]
    if t.op == 'ite':
        return ite(t.a[0], vsize(t.a[1]), vsize(t.a[2]))
    if t.op == 'mapr':
        return vsize(t.a[1])
    if t.op == 'append':
        return add(vsize(t.a[0]), ONE)
    if t.op == 'erase':
        return sub(vsize(t.a[0]), ONE)
    if t.op == 'sorted':
        return vsize(t.a[0])
    return size(t)


def upd(t, k, v):
    if t.op == 'upd' and t.a[1] is k:
        return upd(t.a[0], k, v)
    if v.op == 'sel' and v.a[0] is t and v.a[1] is k:
        return t
    return mk('upd', t, k, v, kind='o')


EMPTY = mk('seq', kind='o')


def append(t, v):
    if t.op == 'seq':
        return mk('seq', *(t.a + (v,)), kind='o')
    return mk('append', t, v, kind='o')


def size(t):
    if t.op == 'append':
        return add(size(t.a[0]), ONE)
    if t.op == 'seq':
        return num(len(t.a))
    if t.op in ('upd',):
        return mk('size', t, kind='i') if t.a[0].op != 'seqinit' else size(t.a[0])
    if t.op == 'erase':
        return sub(size(t.a[0]), ONE)
    if t.op == 'mapd':
        return size(t.a[1])
    if t.op == 'concat':
        return add(*[size(x) for x in t.a])
    if t.op == 'maps':
        if t.a[2].op == 'seq' and len(t.a[2].a) == 1:
            return mk('count', t.a[0], kind='i') if t.a[0].op != 'dom' else dom_count(t.a[0])
    if t.op == 'ite':
        return ite(t.a[0], size(t.a[1]), size(t.a[2]))
    if t.op == 'emptymap':
        return ZERO
    if t.op == 'str':
        return num(len(t.a[0]))
    if t.op == 'resized':
        return t.a[1]
    return mk('size', t, kind='i')


def dom_count(dom):
    if dom.a[0] == 'range':
        return sub(dom.a[2], dom.a[1])
    if dom.a[0] == 'coll':
        return size(dom.a[1])
    return mk('count', dom, kind='i')


def cat(*parts):
    """string concatenation"""
    out = []
    for p in parts:
        for x in (p.a if p.op == 'cat' else (p,)):
            if x.op == 'str' and x.a[0] == '':
                continue
            if x.op == 'str' and out and out[-1].op == 'str':
                out[-1] = string(out[-1].a[0] + x.a[0])
            else:
                out.append(x)
    if not out:
        return string('')
    if len(out) == 1:
        return out[0]
    return mk('cat', *out, kind='str')


def concat(*parts):
    out = []
    for p in parts:
        for x in (p.a if p.op == 'concat' else (p,)):
            if x.op == 'seq' and not x.a:
                continue
            if x.op == 'seq' and out and out[-1].op == 'seq':
                out[-1] = mk('seq', *(out[-1].a + x.a), kind='o')
            else:
                out.append(x)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk('concat', *out, kind='o')


SCALAR_FNS = {'sqrt', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'atan2', 'abs', 'norm', 'log', 'exp', 'floor', 'ceil', 'round', 'trunc',
              'max', 'min', 'pow', 'hypot', 'sum', 'trace', 'det', 'fmod', 'idiv', 'mod'}


def fn(name, *args, kind=None, dim=None):
    """uninterpreted function application with a few algebraic laws"""
    if name == 'sqrt' and isnum(args[0]):
        f = args[0].a[0]
        if f >= 0:
            import math
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return num(Fraction(n, d))
    if name == 'pow' and isnum(args[1]) and args[1].a[0].denominator == 1 and abs(args[1].a[0]) <= 8:
        return power(args[0], int(args[1].a[0]))
    if name == 'pow' and isnum(args[1]) and args[1].a[0] == Fraction(1, 2):
        return fn('sqrt', args[0])
    if name in ('sin', 'tan', 'asin', 'atan') and odd_neg(args[0]):
        return neg(fn(name, neg(args[0])))
    if name in ('sin', 'tan', 'asin', 'atan') and isnum(args[0]) and args[0].a[0] == 0:
        return ZERO
    if name in ('cos', 'abs', 'norm') and odd_neg(args[0]):
        return fn(name, neg(args[0]))
    if name == 'cos' and isnum(args[0]) and args[0].a[0] == 0:
        return ONE
    if name == 'norm':
        a = args[0]
        if a.op == 'zero':
            return ZERO
        if a.op == 'tr':
            return fn('norm', a.a[0])
    if name in ('max', 'min'):
        a, b = args
        if isnum(a) and isnum(b):
            return num(max(a.a[0], b.a[0]) if name == 'max' else min(a.a[0], b.a[0]))
        args = tuple(sorted(args, key=digest))
    if name in SCALAR_FNS and kind is None:
        kind = 's'
        if name in ('max', 'min') and all(x.kind == 'i' for x in args) or name in ('idiv', 'mod', 'trunc'):
            kind = 'i'
    return mk('fn', name, *args, kind=kind, dim=dim)


def odd_neg(t):
    """true when -t is the canonical representative"""
    p = to_poly(t) if t.op in ('poly', 'num') else None
    if not p:
        return False
    items = sorted(p.items(), key=lambda kv: mono_key(kv[0]))
    return items[-1][1] < 0


# ---------------------------------------------------------------- rebuild / substitution / equality
def rebuild(t, leaf, memo):
    """bottom-up reconstruction through the smart constructors; leaf(x) may return a replacement"""
    if isinstance(t, tuple):
        return tuple(rebuild(x, leaf, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = leaf(t)
    if r is None:
        r = rebuild1(t, leaf, memo, memo.get('force', False))
    memo[t] = r
    return r


def rebuild1(t, leaf, memo, force=False):
    op = t.op
    if op in ('sym', 'num', 'str', 'enum', 'bool', 'uninit', 'null', 'qident', 'emptymap'):
        return t
    if op == 'kidx' and not force:
        return t      # one loop, one index: a rewriting of part of the state must not split it in two
    if op == 'poly':
        acc = []
        same = True
        for (s, nc), c in t.a[0]:
            r = num(c)
            for x, e in s:
                y = rebuild(x, leaf, memo)
                same = same and y is x
                r = mul(r, power(y, e)) if y is not x else mul(r, from_poly({(((x, e),), ()): Fraction(1)}))
            for x in nc:
                y = rebuild(x, leaf, memo)
                same = same and y is x
                r = mul(r, y)
            acc.append(r)
        if same and not force:
            return t
        return add(*acc)
    a = tuple(rebuild(x, leaf, memo) for x in t.a)
    if not force and all(x is y or x == y for x, y in zip(a, t.a)):
        return t
    if op == 'ite':
        return ite(*a)
    if op == 'and':
        return and_(*a)
    if op == 'or':
        return or_(*a)
    if op == 'not':
        return not_(a[0])
    if op == 'lt':
        return lt(a[0], ZERO)
    if op == 'eq':
        return eq(a[0], a[1])
    if op == 'truthy':
        return tobool(a[0])
    if op == 'mw':
        r = a[0]
        for w in a[1]:
            r = setblk(r, *w)
        return r
    if op == 'blk':
        return blk(*a)
    if op == 'elem':
        return elem(*a)
    if op == 'tr':
        return transpose(a[0])
    if op == 'R':
        return rot(a[0])
    if op == 'qmul':
        return qmul(*a)
    if op == 'qinv':
        return qinv(a[0])
    if op == 'minv':
        return minv(a[0])
    if op == 'skew':
        return skew(a[0])
    if op == 'mat':
        return mat(*a)
    if op == 'zero':
        return zero(*a)
    if op == 'ident':
        return ident(*a)
    if op == 'diagv':
        return diagv(a[0])
    if op == 'cwise':
        if a[0] == 'sqrt':
            return cwise_sqrt(a[1])
        if a[0] == 'sq':
            return cwise_prod(a[1], a[1])
        if a[0] == 'prod':
            return cwise_prod(a[1], a[2])
        return cwise(*a)
    if op == 'fld':
        r = fld(*a)
        if r.kind is None:
            r.kind = t.kind
        return r
    if op == 'rec':
        return rec(a[0], dict(a[1]))
    if op == 'sel':
        return sel(a[0], a[1], t.kind, t.dim)
    if op == 'upd':
        return upd(*a)
    if op == 'append':
        return append(*a)
    if op == 'concat':
        return concat(*a)
    if op == 'cat':
        return cat(*a)
    if op == 'size':
        return size(a[0])
    if op == 'rows':
        return rows(a[0])
    if op == 'cols':
        return cols(a[0])
    if op == 'fn':
        return fn(*a, kind=t.kind, dim=t.dim)
    if op == 'rv2q':
        return rv2q(a[0])
    if op == 'q2rv':
        return q2rv(a[0])
    if op in BINDERS:
        return rebind(op, a, t.kind, t.dim)
    if op == 'has' and HAS[0]:
        return HAS[0](*a)
    return mk(op, *a, kind=t.kind, dim=t.dim)


# binders: op -> (index of the bound variable, indices of the sub-terms in its scope)
BINDERS = {'sum': (1, (2,)), 'psum': (2, (3,)), 'maps': (1, (2,)), 'catmap': (1, (2,)), 'mapd': (3, (2,)), 'mapr': (4, (2, 3, 5)),
           'lw': (2, (3,)), 'wl': (1, (2,)), 'exists': (1, (2,)), 'firstval': (1, (2, 3)), 'recur': (1, (2,)),
           'precur': (2, (3,))}
_height = {}


def height(t):
    """largest binder level used inside t"""
    if isinstance(t, tuple):
        return max([height(x) for x in t], default=0)
    if not isinstance(t, T):
        return 0
    r = _height.get(t)
    if r is None:
        r = max([height(x) for x in t.a], default=0)
        if t.op == 'bnd':
            r = max(r, t.a[0])
        _height[t] = r
    return r


def binder(op, args, ks, kind=None, dim=None):
    """close args over the loop variable ks (alpha-canonical: the bound variable is named by binder height)"""
    vi, sc = BINDERS[op]
    args = list(args)
    h = 1 + max(height(args[i]) for i in sc)
    bv = mk('bnd', h, kind=ks.kind)
    for i in sc:
        args[i] = subst(args[i], {ks: bv})
    args[vi] = bv
    return mk(op, *args, kind=kind, dim=dim)


def rename_bnd(t, old, new, memo=None):
    """rename free occurrences of a bound variable"""
    if memo is None:
        memo = {}

    def leaf(x):
        if x is old:
            return new
        if x.op in BINDERS and x.a[BINDERS[x.op][0]] is old:
            vi, sc = BINDERS[x.op]
            a = tuple(y if i in sc or i == vi else rename_bnd(y, old, new) for i, y in enumerate(x.a))
            return mk(x.op, *a, kind=x.kind, dim=x.dim)
        return None
    return rebuild(t, leaf, memo)


def rebind(op, a, kind, dim):
    """restore the canonical bound-variable name after a substitution changed the body"""
    vi, sc = BINDERS[op]
    a = list(a)
    bv = a[vi]
    h = 0
    for i in sc:
        h = max(h, height_without(a[i], bv))
    if bv.a[0] != h + 1:
        nb = mk('bnd', h + 1, kind=bv.kind)
        for i in sc:
            # the new name must not clash with the old free one: h+1 is above every other level in the body
            a[i] = rename_bnd(a[i], bv, nb)
        a[vi] = nb
    if op in ('sum', 'psum'):
        return mk_sum_bound(op, a, kind)
    if op == 'lw' and all(len(w) == 6 for w in a[3]):
        a[3] = tuple(sort_writes(a[3]))
    return mk(op, *a, kind=kind, dim=dim)


_hwo = {}


def height_without(t, bv):
    if isinstance(t, tuple):
        return max([height_without(x, bv) for x in t], default=0)
    if not isinstance(t, T) or t is bv:
        return 0
    k = (bv, t)
    r = _hwo.get(k)
    if r is None:
        if not occurs(bv, t):
            r = height(t)
        elif t.op == 'bnd':
            r = t.a[0]
        else:
            r = max([height_without(x, bv) for x in t.a], default=0)
        _hwo[k] = r
    return r


def mk_sum(op, dom, ks, body, kind=None):
    """sum of body over the domain ('sum') or over the elements before the current one ('psum'); ks is the loop variable"""
    p = to_poly(body)
    if not p:
        return ZERO if body.kind != 'm' else body
    # linearity: split monomials so that sums are canonical
    if len(p) > 1:
        return add(*[mk_sum(op, dom, ks, from_poly({m: c}), kind) for m, c in p.items()])
    (m, c), = p.items()
    if c != 1:
        return scale(mk_sum(op, dom, ks, from_poly({m: Fraction(1)}, body), kind), c)
    # loop-invariant scalar factors move out
    out = tuple(x for x in m[0] if not occurs(ks, x[0]))
    if out and (len(out) < len(m[0]) or m[1]):
        rest = from_poly({(tuple(x for x in m[0] if occurs(ks, x[0])), m[1]): Fraction(1)})
        return mul(from_poly({(out, ()): Fraction(1)}), mk_sum(op, dom, ks, rest, kind))
    if not occurs(ks, body):
        cnt = dom_count(dom) if op == 'sum' else mk('kpos', dom, ks, kind='i')
        if op == 'psum' and dom.a[0] == 'range':
            cnt = sub(ks, dom.a[1])
        return mul(body, cnt)
    if op == 'psum':
        return binder('psum', (dom, ks, None, body), ks, kind=kind or body.kind or 'i')
    return binder('sum', (dom, None, body), ks, kind=kind or body.kind or 'i')


def mk_sum_bound(op, a, kind):
    if op == 'sum':
        dom, bv, body = a
    else:
        dom, cur, bv, body = a
    p = to_poly(body)
    if len(p) == 1 and occurs(bv, body):
        (m, c), = p.items()
        if c == 1 and (not [x for x in m[0] if not occurs(bv, x[0])] or (len(m[0]) == 1 and not m[1])):
            return mk(op, *a, kind=kind)
    z = mk('opened', op, dom, kind=bv.kind)
    r = mk_sum(op, dom, z, rename_bnd(body, bv, z), kind)
    return subst(r, {z: cur}) if op == 'psum' else r


def rv2q(v):
    if v.op == 'zero':
        return QID
    if v.op == 'q2rv':
        return v.a[0]
    if v.op == 'ite':
        return ite(v.a[0], rv2q(v.a[1]), rv2q(v.a[2]))
    return mk('rv2q', v, kind='q')


def q2rv(q):
    if q.op == 'rv2q':
        return q.a[0]
    if q.op == 'qident':
        return zero(3, 1)
    if q.op == 'ite':
        return ite(q.a[0], q2rv(q.a[1]), q2rv(q.a[2]))
    return mk('q2rv', q, kind='m', dim=(3, 1))


def subst(t, m):
    memo = {}

    def leaf(x):
        return m.get(x)
    return rebuild(t, leaf, memo)


_occ = {}


def occurs(s, t):
    if isinstance(t, tuple):
        return any(occurs(s, x) for x in t)
    if not isinstance(t, T):
        return False
    if t is s:
        return True
    k = (s, t)
    r = _occ.get(k)
    if r is None:
        r = any(occurs(s, x) for x in t.a)
        _occ[k] = r
    return r


def walk(t, f, seen=None):
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        for x in t:
            walk(x, f, seen)
        return
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    f(t)
    for x in t.a:
        walk(x, f, seen)


def find(t, pred):
    out = []
    walk(t, lambda x: out.append(x) if pred(x) else None)
    return out


def canon(t):
    """rebuild every node bottom-up, so that bound-variable names and the order of commuting parts do not depend on history"""
    for _ in range(3):
        n = rebuild(t, lambda x: None, {'force': True})
        if n is t:
            break
        t = n
    return t


ENUMS = {}   # enumeration -> {value: enumerator}, filled by the program loader


def enum_type(e):
    return e.a[0].rsplit('::', 1)[0]


def implied(atom, facts):
    if atom.op == 'eq' and atom.a[1].op == 'enum':
        vals = ENUMS.get(enum_type(atom.a[1]))
        if vals:
            no = {f.a[1].a[1] for f, v in facts.items() if not v and f.op == 'eq' and f.a[0] is atom.a[0] and f.a[1].op == 'enum'}
            if set(vals) - no == {atom.a[1].a[1]}:
                return True
    for f, v in facts.items():
        if f.op == 'lt' and atom.op == 'lt':
            if v and contradict(f, atom):
                return False
        if v and f.op == 'eq' and atom.op == 'eq' and f.a[0] is atom.a[0] and f.a[1] is not atom.a[1] and \
                f.a[1].op in ('enum', 'num', 'str') and atom.a[1].op in ('enum', 'num', 'str'):
            return False
    return None


class Undecided(Exception):
    pass


def equal(a, b, facts=None, limit=4000, ctx=None, oracle=None):
    """Equality of two value graphs: normal forms, then case split over guard atoms, then the oracle (identity test) on leaves.
    Returns (True, None) or (False, facts-under-which-they-differ, leafA, leafB)."""
    if ctx is None:
        ctx = {'n': 0}
    facts = facts or {}
    if a is b:
        return (True,)
    ctx['n'] += 1
    if ctx['n'] > limit:
        raise Undecided('too many guard combinations')
    cs = sorted(conds(a) | conds(b), key=lambda x: (len(conds(x)), digest(x)))
    cs = [c for c in cs if c not in facts]
    inner = [c for c in cs if has_bv(c)]
    cs = [c for c in cs if not has_bv(c)]
    # split on the simplest atoms first
    for c in cs:
        forced = implied(c, facts)
        for v in (True, False):
            if forced is not None and v != forced:
                continue
            nf = dict(facts)
            nf[c] = v
            a2 = apply_facts(a, {c: v})
            b2 = apply_facts(b, {c: v})
            r = equal(a2, b2, nf, limit, ctx, oracle)
            if not r[0]:
                return r
        return (True,)
    if inner and same_inside(a, b, inner, ctx, limit):
        return (True,)
    if oracle is not None and oracle(a, b, facts):
        return (True,)
    return (False, facts, a, b)


_freebv = {}


def free_bv(t):
    """levels of the recurrence state variables free in t"""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t:
            r |= free_bv(x)
        return r
    if not isinstance(t, T):
        return frozenset()
    r = _freebv.get(t)
    if r is None:
        if t.op == 'bv':
            r = frozenset([t.a[0]])
        else:
            r = free_bv(t.a)
            if t.op == 'sys':
                r -= frozenset([t.a[-1]])
        _freebv[t] = r
    return r


def has_bv(t):
    return bool(free_bv(t))


def same_inside(a, b, cs, ctx, limit):
    """equal for every outcome of the conditions on the state of a recurrence (congruence: the step functions agree)"""
    if a is b:
        return True
    ctx['n'] += 1
    if ctx['n'] > limit or not cs:
        return False
    c = cs[0]
    return all(same_inside(apply_facts(a, {c: v}), apply_facts(b, {c: v}), cs[1:], ctx, limit) for v in (True, False))


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if t._s is not None:
        return t._s
    s = show1(t, depth)
    if len(s) > 20000:
        s = s[:20000] + '...'
    t._s = s
    return s


def show1(t, depth):
    op, a = t.op, t.a
    if op == 'num':
        f = a[0]
        return str(f) if f.denominator < 1000 else repr(float(f))
    if op in ('str',):
        return repr(a[0])
    if op == 'bool':
        return 'true' if a[0] else 'false'
    if op == 'sym':
        return a[0]
    if op == 'enum':
        return a[0].split('::')[-1]
    if op == 'fld':
        return '%s.%s' % (show(a[0]), a[1])
    if op == 'sel':
        return '%s[%s]' % (show(a[0]), show(a[1]))
    if op == 'poly':
        out = []
        for (s, nc), c in a[0]:
            fs = [show(x) if e == 1 else '%s^%d' % (show(x), e) for x, e in s] + [show(x) for x in nc]
            m = '*'.join(fs)
            if c == 1 and m:
                out.append(m)
            elif c == -1 and m:
                out.append('-' + m)
            else:
                cs = str(c) if c.denominator < 1000 else repr(float(c))
                out.append(cs + ('*' + m if m else ''))
        return '(' + ' + '.join(out) + ')'
    if op == 'ite':
        return '(%s ? %s : %s)' % tuple(show(x) for x in a)
    if op == 'not':
        return '!' + show(a[0])
    if op in ('and', 'or'):
        return '(' + (' && ' if op == 'and' else ' || ').join(show(x) for x in a) + ')'
    if op == 'lt':
        return '[%s < 0]' % show(a[0])
    if op == 'eq':
        return '[%s == %s]' % (show(a[0]), show(a[1]))
    if op == 'tr':
        return show(a[0]) + "'"
    if op == 'mw':
        return 'mw{%s; %s}' % (show(a[0]), '; '.join('(%s,%s,%s,%s)%s=%s' % (
            show(w[0]), show(w[1]), show(w[2]), show(w[3]), '' if w[5] is TRUE else ' if ' + show(w[5]), show(w[4])) for w in a[1]))
    if op == 'rec':
        return '%s{%s}' % (show(a[0]), ', '.join('%s=%s' % (k, show(v)) for k, v in a[1]))
    if op == 'kidx':
        return '$k%d' % a[1]
    if op == 'bnd':
        return '$%d' % a[0]
    if op == 'dom':
        return 'each(%s)' % show(a[1]) if a[0] == 'coll' else '%s(%s)' % (a[0], ', '.join(show(x) for x in a[1:]))
    if op == 'fn':
        return '%s(%s)' % (a[0], ', '.join(show(x) for x in a[1:]))
    return '%s(%s)' % (op, ', '.join(show(x) for x in a))
