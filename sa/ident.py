"""Random interpretation of value graphs (Gulwani & Necula): identity test for two terms whose normal forms differ.

Nothing of the analysed program is run: the two *terms* are evaluated in the same randomly drawn algebra (leaves by hash of
their access path, arithmetic exact up to rounding, library functions without a law as uninterpreted functions).  Terms that agree
in every drawn algebra are taken as equal, terms that differ under the facts of the case are reported."""
import hashlib
import math
import random
import numpy as np
import terms as t
from terms import T, TRUE, FALSE


class Reject(Exception):
    """this algebra is not usable"""


class Undef(Reject):
    """an access outside of its object"""


class Restart(Exception):
    """a free dimension has been fixed; evaluate again"""


class NoEval(Exception):
    """term outside the evaluable fragment"""


class Obj:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Rec:
    __slots__ = ('b', 'f')

    def __init__(self, b, f):
        self.b, self.f = b, f


class MapV:
    """map / vector with element updates"""
    __slots__ = ('b', 'u', 'd')

    def __init__(self, b, u, d=()):
        self.b, self.u, self.d = b, u, d


class Q:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = np.asarray(v, dtype=float)


class M:
    __slots__ = ('a', 'rt', 'ct')

    def __init__(self, a, rt=None, ct=None):
        self.a = np.asarray(a, dtype=float)
        if self.a.ndim != 2:
            raise Reject()
        self.rt, self.ct = rt, ct


class Un:
    pass


UN = Un()
SIZES = {'imu_states': (('is_extrinsic', 6), ('is_intrinsic', 6)), 'cam_states': (('is_extrinsic', 6),), 'gps_states': (('is_extrinsic', 3),),
         'fid_states': (('is_extrinsic', 6),)}
HINTS = [('m_state_size', 36), ('refresh', 6)]


def fmtnum(x):
    x = float(x)
    if x != x:
        return 'nan'
    if abs(x) < 1e-9:
        return '0'
    return '%.5g' % x


def hsh(*xs):
    return hashlib.md5('|'.join(str(x) for x in xs).encode()).hexdigest()[:16]


class EmptyMap(list):
    """a map that has no entries"""


def key(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float):
        return int(round(v)) if abs(v - round(v)) < 1e-9 else round(v, 6)
    if isinstance(v, (int, str)):
        return v
    if isinstance(v, Obj):
        return v.p
    return dg(v)


def dg(v):
    """digest of a value"""
    if isinstance(v, bool):
        return fmtnum(int(v))
    if isinstance(v, (int, float)):
        return fmtnum(v)
    if isinstance(v, str):
        return 's:' + v
    if isinstance(v, Obj):
        return v.p
    if isinstance(v, M):
        if v.a.shape == (1, 1):
            return fmtnum(v.a[0, 0])
        return 'm%s:' % (v.a.shape,) + hsh(*[fmtnum(x) for x in v.a.flat])
    if isinstance(v, Q):
        w = v.v
        for c in w:
            if abs(c) > 1e-7:
                if c < 0:
                    w = -w
                break
        return 'q:' + ','.join(fmtnum(x) for x in w)
    if isinstance(v, Rec):
        return 'r:' + dg(v.b) + '{' + ','.join(k + '=' + dg(x) for k, x in sorted(v.f.items())) + '}'
    if isinstance(v, MapV):
        return 'u:' + dg(v.b) + '{' + ','.join('%s=%s' % (k, dg(x)) for k, x in sorted(v.u.items(), key=str)) + '}' + str(sorted(v.d, key=str))
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(dg(x) for x in v) + ']'
    if v is UN:
        return 'uninit'
    return str(v)


def rotm(q):
    w, x, y, z = q.v
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def qm(a, b):
    w1, x1, y1, z1 = a.v
    w2, x2, y2, z2 = b.v
    return Q([w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2, w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
              w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2])


def rotq(m):
    """quaternion of a rotation matrix (w >= 0)"""
    tr = m[0, 0] + m[1, 1] + m[2, 2]
    w = math.sqrt(max(0.0, 1 + tr)) / 2
    if w < 1e-6:
        raise Reject()
    return Q([w, (m[2, 1] - m[1, 2]) / (4 * w), (m[0, 2] - m[2, 0]) / (4 * w), (m[1, 0] - m[0, 1]) / (4 * w)])


class Model:
    def __init__(self, seed):
        self.seed = seed
        self.style = seed % 5
        self.scale = seed // 5 % 4    # small, medium, large and very small dimensions
        self.over = {}
        self.mag = 0.0
        self.dimov = {}
        self.cov = None
        self.near = None
        self.strs = ()
        self.names = {}
        self.reset()

    def reset(self):
        self.memo = {}
        self.touched = {}
        self.margin = {}
        self.unmet = {}
        self.shown = set()
        self.dirty = self.outside = False
        self.steps = 0

    # ------------------------------------------------------------ leaves
    def rnd(self, path):
        return random.Random('%d|%s' % (self.seed, path))

    def leaf(self, path, kind, dim, name=''):
        self.touched[path] = kind
        self.names[path] = name
        if kind == 'b':
            v = self.over.get(path)
            return self.rnd(path).random() < 0.5 if v is None else bool(v)
        if kind == 'i':
            v = self.over.get(path)
            if v is not None:
                return int(v)
            r = self.rnd(path)
            if name[-2:] in ('id', 'Id', 'ID'):
                return r.choice([0, 1, 1, 2, 2, 3])
            if name == 'm_state_size':
                return 36 + r.randint(0, 4)
            if 'start' in name or name == 'index':
                return 18 + r.choice([0, 1, 2, 3, 3, 6, 6, 9, 12])
            if name in ('size', 'rows', 'cols'):
                return r.choice([2, 3, 3, 4, 6])
            if self.scale:
                return r.choice([0, 1, 2, 3, 6, 9, 12] if self.scale == 1 else [0, 1, 1, 2, 2, 3] if self.scale == 3 else [1, 3, 6, 12, 18, 19, 21, 24])
            return r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
        if kind == 's':
            v = self.over.get(path)
            return self.rscalar(self.rnd(path)) if v is None else float(v)
        if kind == 'm':
            r0, c0 = (dim or (-1, -1))
            r, rt = self.ldim(r0, path + '#r', name)
            c, ct = self.ldim(c0, path + '#c', name)
            if r < 0 or c < 0 or r * c > 10000:
                raise Reject()
            rr = self.rnd(path)
            v = np.array([[rr.uniform(-1, 1) if self.style != 1 else rr.uniform(0.1, 1) for _ in range(c)] for _ in range(r)]).reshape(r, c)
            if path + '*' in self.over:
                v = v * self.over[path + '*']
            for (i, j), w in self.over.get(path + '@', {}).items():
                if i < r and j < c:
                    v[i, j] = w
            return M(v, rt, ct)
        if kind == 'q':
            rr = self.rnd(path)
            v = np.array([rr.uniform(0.3, 1)] + [rr.uniform(-0.6, 0.6) for _ in range(3)])
            return Q(v / np.linalg.norm(v))
        if kind == 'str':
            v = self.over.get(path)
            if v is not None:
                return v
            r = self.rnd(path)
            w = r.random()
            # strings meet one another and the literals of the code now and then
            if w < 0.25:
                return 'S%d' % r.randint(0, 1)
            if w < 0.5 and self.strs:
                return r.choice(self.strs)
            return 'S' + hsh(path, self.seed)[:6]
        return Obj(path)

    def rscalar(self, r):
        if self.style == 0:
            return r.uniform(0.1, 2)
        if self.style == 1:
            return r.uniform(0.1, 2)
        if self.style == 2:
            return r.uniform(-2, 2)
        if self.style == 3:
            return r.choice([r.uniform(0, 1), r.uniform(1, 5), r.uniform(-1, 0), r.uniform(5, 200)])
        return r.choice([0.0, 1.0, r.uniform(-1, 1), r.uniform(0, 3)])

    def ldim(self, d, tag, name):
        if isinstance(d, T):
            v = self.ev(d)
            return int(round(v)), None
        if isinstance(d, int) and d >= 0:
            return d, None
        self.touched[tag] = 'dim'
        if tag in self.dimov:
            return self.dimov[tag], tag
        base = 36 if 'cov' in name or 'process_noise' in name else \
            (3, 12, 30)[self.scale] if self.scale < 3 else self.rnd(tag).choice([1, 2, 3])
        return base, tag

    def fixdim(self, tag, n):
        if tag is None or tag in self.dimov and self.dimov[tag] == n:
            return False
        k = ('fixes', tag)
        c = self.over.get(k, 0)
        if c > 3 or n > 80 or n < 0:
            return False
        self.over[k] = c + 1
        self.dimov[tag] = n
        raise Restart()

    # ------------------------------------------------------------ collections
    def csize(self, v):
        if isinstance(v, (list, tuple)):
            return len(v)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, Obj):
            p = v.p + '.#size'
            self.touched[p] = 'i'
            o = self.over.get(p)
            return max(0, int(o)) if o is not None else self.rnd(p).choice([0, 1, 1, 2, 2, 3] if self.seed % 7 < 5 else [3, 4, 5, 6, 8])
        if isinstance(v, MapV):
            return len(self.ckeys(v))
        if isinstance(v, M):
            return v.a.size
        raise NoEval('size of %s' % type(v).__name__)

    def ckeys(self, v):
        if isinstance(v, (list, tuple)):
            return list(range(len(v)))
        if isinstance(v, Obj):
            n = self.csize(v)
            r = self.rnd(v.p + '.#keys')
            ks = r.sample(range(0, 6), 6)
            pin = [k[1] for k in self.over if isinstance(k, tuple) and k[0] == 'has' and k[1][0] == v.p]
            ks = ks[:min(n, 6)]
            for (_, k) in pin:
                want = self.over[('has', (v.p, k))]
                if want and k not in ks:
                    ks.append(k)
                if not want and k in ks:
                    ks.remove(k)
            return sorted(ks, key=lambda z: (isinstance(z, str), z))
        if isinstance(v, MapV):
            ks = set(self.ckeys(v.b)) | set(v.u)
            ks -= set(v.d)
            return sorted(ks, key=lambda z: (isinstance(z, str), z))
        raise NoEval('keys of %s' % type(v).__name__)

    def cget(self, v, k, kind, dim):
        k = key(k)
        if isinstance(v, EmptyMap):
            # operator[] makes the value
            return {'b': False, 'i': 0, 's': 0.0, 'str': ''}[kind] if kind in ('b', 'i', 's', 'str') else self.leaf('#made', kind, dim)
        if isinstance(v, (list, tuple)):
            if isinstance(k, int) and 0 <= k < len(v):
                return v[k]
            return UN
        if isinstance(v, MapV):
            if k in v.u:
                return v.u[k]
            return self.cget(v.b, k, kind, dim)
        if isinstance(v, Obj):
            return self.leaf(hsh(v.p, 'sel', k), kind, dim)
        if isinstance(v, M):
            n = v.a.size
            if isinstance(k, int) and k < n:
                return float(v.a.reshape(-1)[k])
            return UN
        if isinstance(v, Rec):
            return self.leaf(hsh(dg(v), 'sel', k), kind, dim)
        if v is UN:
            return UN
        raise NoEval('element of %s' % type(v).__name__)

    def field(self, v, name, kind, dim):
        if isinstance(v, Rec):
            if name in v.f:
                return v.f[name]
            return self.field(v.b, name, kind, dim)
        if isinstance(v, Obj):
            if name == 'm_cov' and kind == 'm':
                # invariant of the filter (decided under P01 and P02): the covariance covers the state
                n = self.field(v, 'm_state_size', 'i', None)
                if isinstance(n, int) and 0 <= n <= 80:
                    dim = (n, n)
            return self.leaf(hsh(v.p, '.', name), kind, dim, name)
        if v is UN:
            return UN
        if isinstance(v, (MapV, list, tuple, M, Q, str, float, int)):
            return self.leaf(hsh(dg(v), '.', name), kind, dim, name)
        raise NoEval('field of %s' % type(v).__name__)

    def statesize(self, coll, b):
        """invariant of the state classes (decided under P01): size counts what the calibration switches select"""
        while coll.op in ('upd', 'mapd', 'mapr', 'mapdel'):
            coll = coll.a[1] if coll.op in ('mapd', 'mapr') else coll.a[0]
        w = SIZES.get(coll.a[1]) if coll.op == 'fld' else None
        if w is None:
            return None
        return sum(n for f, n in w if self.truth(self.field(b, f, 'b', None)))

    def taken(self, c, v):
        """note which outcomes of a condition the algebras have shown"""
        if self.cov is not None:
            e = self.cov.setdefault(c, {})
            if v not in e:
                e[v] = (self.seed, dict(self.over), dict(self.dimov), self.touched, self.names)
            if (c, v) not in self.shown:
                self.shown.add((c, v))
                e['n', v] = e.get(('n', v), 0) + 1

    def missed(self, c, p, q):
        """note the values an equality or a membership would have needed"""
        p, q = ([self.leaf(v.p + '.#num', 'i', None) if isinstance(v, Obj) else v for v in w] for w in (p, q))
        p, q = ([v for v in w if isinstance(v, (int, float, str))] for w in (p, q))
        l = self.unmet.setdefault(c, [])
        if p and q and len(l) < 6:
            l.append((p, q))

    # ------------------------------------------------------------ evaluation
    def ev(self, x):
        return self.eval(x, (), self.memo)

    def eval(self, x, env, memo):
        if isinstance(x, tuple):
            return tuple(self.eval(y, env, memo) for y in x)
        if not isinstance(x, T):
            return x
        if not isopen(x):
            memo = self.memo
            env = ()
        r = memo.get(x)
        if r is None:
            self.steps += 1
            if self.steps > 400000:
                raise Reject()
            r = self.eval1(x, env, memo)
            memo[x] = r
        return r

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, M):
            if v.a.shape == (1, 1):
                return float(v.a[0, 0])
            if v.rt or v.ct:
                self.fixdim(v.rt, 1)
                self.fixdim(v.ct, 1)
            raise Reject()
        if v is UN:
            return self.leaf('#indeterminate', 's', None)
        if isinstance(v, Obj):
            return self.leaf(v.p + '.#num', 's', None)
        raise NoEval('number from %s' % type(v).__name__)

    def matv(self, v):
        if isinstance(v, M):
            return v
        if isinstance(v, (bool, int, float)):
            return M([[float(v)]])
        if isinstance(v, Q):
            return M(v.v.reshape(4, 1))
        if v is UN:
            raise Reject()
        if isinstance(v, Obj):
            return self.leaf(v.p + '.#mat', 'm', None)
        raise NoEval('matrix from %s' % type(v).__name__)

    def madd(self, a, b):
        if a.a.shape != b.a.shape:
            if a.a.shape[0] != b.a.shape[0]:
                self.fixdim(a.rt, b.a.shape[0])
                self.fixdim(b.rt, a.a.shape[0])
            if a.a.shape[1] != b.a.shape[1]:
                self.fixdim(a.ct, b.a.shape[1])
                self.fixdim(b.ct, a.a.shape[1])
            self.dirty = True
            n = np.zeros((max(a.a.shape[0], b.a.shape[0]), max(a.a.shape[1], b.a.shape[1])))
            n[:a.a.shape[0], :a.a.shape[1]] += a.a
            n[:b.a.shape[0], :b.a.shape[1]] += b.a
            return M(n)
        return M(a.a + b.a, a.rt if a.rt and b.rt else None, a.ct if a.ct and b.ct else None)

    def mmul(self, a, b):
        if a.a.shape == (1, 1) and a.rt is None and a.ct is None and b.a.shape[0] != 1:
            return M(a.a[0, 0] * b.a, b.rt, b.ct)
        if b.a.shape == (1, 1) and b.rt is None and b.ct is None and a.a.shape[1] != 1:
            return M(b.a[0, 0] * a.a, a.rt, a.ct)
        if a.a.shape[1] != b.a.shape[0]:
            self.fixdim(a.ct, b.a.shape[0])
            self.fixdim(b.rt, a.a.shape[1])
            self.dirty = True
            n = min(a.a.shape[1], b.a.shape[0])
            return M(a.a[:, :n] @ b.a[:n, :], a.rt, b.ct)
        return M(a.a @ b.a, a.rt, b.ct)

    def eval1(self, x, env, memo):
        op, a = x.op, x.a
        E = lambda y: self.eval(y, env, memo)
        N = lambda y: self.num(self.eval(y, env, memo))
        if op == 'num':
            return int(a[0]) if a[0].denominator == 1 else float(a[0])
        if op == 'bool':
            return a[0]
        if op == 'str':
            return a[0]
        if op == 'enum':
            return a[1]
        if op == 'uninit':
            return UN
        if op == 'poly':
            return self.poly(x, env, memo)
        if op == 'sym':
            return self.leaf('sym:' + str(a[0]), x.kind, x.dim, str(a[0]))
        if op in ('glob',):
            return self.leaf('glob:' + str(a[0]), x.kind, x.dim, str(a[0]))
        if op in ('bnd', 'bv'):
            for k, v in reversed(env):
                if k is x:
                    return v
            return self.leaf('free:' + t.digest(x), x.kind, x.dim)
        if op == 'fld':
            b = E(a[0])
            if a[1] == 'size' and isinstance(b, Obj) and isinstance(a[0], T) and a[0].op == 'sel':
                n = self.statesize(a[0].a[0], b)
                if n is not None:
                    return n
            return self.field(b, a[1], x.kind, x.dim)
        if op == 'rec':
            b = E(a[0])
            f = {}
            if isinstance(b, Rec):
                f.update(b.f)
                b = b.b
            for k, v in a[1]:
                f[k] = E(v)
            return Rec(b, f)
        if op == 'ite':
            c = self.truth(E(a[0]))
            self.taken(a[0], c)
            return E(a[1]) if c else E(a[2])
        if op == 'not':
            return not self.truth(E(a[0]))
        if op == 'and':
            return all(self.truth(E(y)) for y in a)
        if op == 'or':
            return any(self.truth(E(y)) for y in a)
        if op == 'lt':
            self.mag = 0.0
            v = N(a[0])
            # rounding: a difference that is small for its operands is none; one that is neither small nor large decides nothing
            if abs(v) <= 1e-9 * self.mag:
                v = 0.0
            elif abs(v) < 1e-6 * self.mag:
                raise Reject()
            r = v < -1e-12
            self.taken(x, r)
            if self.near is not None:
                w = self.margin.get(x)
                if w is None or 1e-9 < abs(v) < abs(w) or abs(w) <= 1e-9 < abs(v):
                    self.margin[x] = v
            return r
        if op == 'eq':
            if a[1].op == 'enum' and a[0].op != 'enum':
                # an object of an enumeration holds one of its enumerators
                vals = sorted(t.ENUMS.get(t.enum_type(a[1])) or ())
                v = E(a[0])
                if isinstance(v, Obj):
                    v = self.leaf(v.p + '.#num', 'i', None)
                if vals and isinstance(v, int) and v not in vals:
                    v = vals[v % len(vals)]
                z = E(a[1])
            else:
                v, z = E(a[0]), E(a[1])
            r = self.same(v, z)
            self.taken(x, r)
            if not r and self.near is not None:
                self.missed(x, [v], [z])
            return r
        if op == 'truthy':
            return self.truth(E(a[0]))
        if op == 'sel':
            b, k = E(a[0]), E(a[1])
            if isinstance(b, MapV) and self.near is not None and isinstance(b.b, EmptyMap) and b.u:
                k = key(k)
                ks = self.ckeys(b)
                self.taken(x, k in ks)
                if k not in ks:
                    self.missed(x, [k], ks)
            return self.cget(b, k, x.kind, x.dim)
        if op == 'upd':
            b = E(a[0])
            u, d = {}, ()
            if isinstance(b, MapV):
                u.update(b.u)
                d = b.d
                b = b.b
            k = key(E(a[1]))
            u[k] = E(a[2])
            if isinstance(b, list) and isinstance(k, int) and 0 <= k < len(b) and not d and len(u) == 1:
                b = list(b)
                b[k] = u[k]
                return b
            return MapV(b, u, tuple(z for z in d if z != k))
        if op == 'mapdel':
            b = E(a[0])
            k = key(E(a[1]))
            if isinstance(b, MapV):
                return MapV(b.b, {z: v for z, v in b.u.items() if z != k}, tuple(b.d) + (k,))
            return MapV(b, {}, (k,))
        if op == 'has':
            m = E(a[0])
            k = key(E(a[1]))
            if isinstance(m, Obj):
                self.touched[('has', (m.p, k))] = 'has'
            ks = self.ckeys(m)
            r = k in ks
            self.taken(x, r)
            if not r and self.near is not None:
                self.missed(x, [k], ks)
            return r
        if op == 'emptymap':
            return EmptyMap()
        if op == 'size':
            return self.csize(E(a[0]))
        if op == 'seq':
            return [E(y) for y in a]
        if op == 'append':
            b = E(a[0])
            return self.aslist(b, a[1]) + [E(a[1])]
        if op == 'concat':
            out = []
            for y in a:
                out = out + self.aslist(E(y), y)
            return out
        if op == 'erase':
            b = self.aslist(E(a[0]), a[0])
            i = int(N(a[1]))
            if 0 <= i < len(b):
                return b[:i] + b[i + 1:]
            raise Reject()
        if op == 'eraserange':
            b = self.aslist(E(a[0]), a[0])
            i, j = int(N(a[1])), int(N(a[2]))
            return b[:max(i, 0)] + b[max(j, 0):]
        if op == 'slice':
            b = self.aslist(E(a[0]), a[0])
            return b[max(0, int(N(a[1]))):max(0, int(N(a[2])))]
        if op == 'insertat':
            b = self.aslist(E(a[0]), a[0])
            i = int(N(a[1]))
            return b[:i] + self.aslist(E(a[2]), a[2]) + b[i:]
        if op == 'cat':
            return ''.join(self.strv(E(y)) for y in a)
        if op in ('fmt', 'tostr') and len(a) == 1:
            v = E(a[0])
            return v if isinstance(v, str) else op + '<' + dg(v) + '>'
        if op == 'ev':
            return Rec(Obj('ev:' + a[0]), {'a%d' % i: E(y) for i, y in enumerate(a[1:])})
        if op == 'dom':
            raise NoEval('dom')
        if op in t.BINDERS:
            return self.bind(x, env, memo)
        if op == 'count':
            return len(self.keys(a[0], env, memo))
        if op == 'kpos':
            ks = self.keys(a[0], env, memo)
            k = key(E(a[1]))
            return ks.index(k) if k in ks else 0
        if op == 'downend':
            lo, n = N(a[0]), N(a[1])
            return n - 1 if lo >= n else lo
        if op == 'fn':
            return self.func(x, [E(y) for y in a[1:]])
        return self.lin(x, env, memo, E, N)

    def lin(self, x, env, memo, E, N):
        op, a = x.op, x.a
        Mx = lambda y: self.matv(E(y))
        if op == 'zero':
            r, c = int(N(a[0])), int(N(a[1]))
            if r < 0 or c < 0 or r * c > 20000:
                raise Reject()
            return M(np.zeros((r, c)))
        if op == 'ident':
            r, c = int(N(a[0])), int(N(a[1]))
            if r < 0 or c < 0 or r * c > 20000:
                raise Reject()
            return M(np.eye(r, c))
        if op == 'uninitm':
            r, c = int(N(a[0])), int(N(a[1]))
            if r < 0 or c < 0 or r * c > 20000:
                raise Reject()
            return self.leaf('uninitm', 'm', (r, c))
        if op == 'fillm':
            r, c = int(N(a[1])), int(N(a[2]))
            return M(np.full((r, c), float(N(a[0]))))
        if op == 'mat':
            return M(np.array([float(N(y)) for y in a[2]]).reshape(a[0], a[1]))
        if op == 'tr':
            m = Mx(a[0])
            return M(m.a.T, m.ct, m.rt)
        if op in ('rows', 'cols'):
            v = E(a[0])
            m = self.matv(v)
            return m.a.shape[0 if op == 'rows' else 1]
        if op == 'blk':
            m = Mx(a[0])
            r, c, h, w = (int(round(N(y))) for y in a[1:5])
            return self.block(m, r, c, h, w)
        if op == 'elem':
            m = Mx(a[0])
            r, c = int(round(N(a[1]))), int(round(N(a[2])))
            return float(self.block(m, r, c, 1, 1).a[0, 0])
        if op == 'mw':
            m = Mx(a[0])
            return self.writes(m, a[1], env, memo)
        if op == 'R':
            return M(rotm(self.quat(E(a[0]))))
        if op == 'skew':
            v = Mx(a[0]).a.reshape(-1)
            if v.size != 3:
                raise Reject()
            return M([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
        if op == 'qmul':
            r = self.quat(E(a[0]))
            for y in a[1:]:
                r = qm(r, self.quat(E(y)))
            return r
        if op == 'qinv':
            q = self.quat(E(a[0])).v
            return Q([q[0], -q[1], -q[2], -q[3]])
        if op == 'qident':
            return Q([1, 0, 0, 0])
        if op == 'quat':
            return Q([float(N(y)) for y in a])
        if op == 'qset':
            q = self.quat(E(a[0])).v.copy()
            q['wxyz'.index(a[1])] = N(a[2])
            return Q(q)
        if op == 'qc':
            return float(self.quat(E(a[0])).v['wxyz'.index(a[1])])
        if op == 'qvec':
            return M(self.quat(E(a[0])).v[1:].reshape(3, 1))
        if op == 'qcoeffs':
            q = self.quat(E(a[0])).v
            return M(np.array([q[1], q[2], q[3], q[0]]).reshape(4, 1))
        if op == 'qnormalize':
            q = self.quat(E(a[0])).v
            n = np.linalg.norm(q)
            if n < 1e-9:
                raise Reject()
            return Q(q / n)
        if op == 'rv2q':
            v = Mx(a[0]).a.reshape(-1)
            if v.size != 3:
                raise Reject()
            n = np.linalg.norm(v)
            if n < 1e-12:
                return Q([1, 0, 0, 0])
            return Q(np.concatenate([[math.cos(n / 2)], math.sin(n / 2) * v / n]))
        if op == 'q2rv':
            q = self.quat(E(a[0])).v
            n = np.linalg.norm(q)
            if n < 1e-9:
                raise Reject()
            q = q / n
            if q[0] < 0:
                q = -q
            s = np.linalg.norm(q[1:])
            if s < 1e-12:
                return M(np.zeros((3, 1)))
            return M((2 * math.atan2(s, q[0]) * q[1:] / s).reshape(3, 1))
        if op == 'quatof':
            y = a[0]
            if y.op == 'aa':
                ang, ax = N(y.a[0]), self.matv(E(y.a[1])).a.reshape(-1)
                return Q(np.concatenate([[math.cos(ang / 2)], math.sin(ang / 2) * ax]))
            v = E(y)
            if isinstance(v, Q):
                return v
            if isinstance(v, M) and v.a.shape == (3, 3):
                return rotq(v.a)
            return self.leaf(hsh('quatof', dg(v)), 'q', None)
        if op == 'minv':
            m = Mx(a[0])
            if m.a.shape[0] != m.a.shape[1]:
                self.fixdim(m.rt, m.a.shape[1])
                self.fixdim(m.ct, m.a.shape[0])
                raise Reject()
            try:
                if m.a.size and abs(np.linalg.det(m.a)) < 1e-12:
                    raise Reject()
                return M(np.linalg.inv(m.a), m.ct, m.rt)
            except np.linalg.LinAlgError:
                raise Reject()
        if op == 'diagv':
            m = Mx(a[0])
            n = min(m.a.shape)
            return M(np.array([m.a[i, i] for i in range(n)]).reshape(n, 1))
        if op == 'asdiag':
            m = Mx(a[0])
            return M(np.diag(m.a.reshape(-1)) if m.a.size else np.zeros((0, 0)), m.rt, m.rt)
        if op == 'cwise':
            m = Mx(a[1])
            if a[0] == 'sqrt':
                if (m.a < 0).any():
                    return M(np.sqrt(np.abs(m.a)) + 7.0 * (m.a < 0), m.rt, m.ct)
                return M(np.sqrt(m.a), m.rt, m.ct)
            if a[0] == 'sq':
                return M(m.a * m.a, m.rt, m.ct)
            if a[0] == 'abs':
                return M(np.abs(m.a), m.rt, m.ct)
            if a[0] in ('prod', 'quot'):
                n = Mx(a[2])
                if n.a.shape != m.a.shape:
                    raise Reject()
                if a[0] == 'quot' and (np.abs(n.a) < 1e-9).any():
                    raise Reject()
                return M(m.a * n.a if a[0] == 'prod' else m.a / n.a, m.rt, m.ct)
            ops = [E(y) for y in a[1:]]
            ops = [self.matv(v).a if isinstance(v, M) else np.full(m.a.shape, self.num(v)) for v in ops]
            if any(o.shape != m.a.shape for o in ops):
                raise Reject()
            f = {'max': np.maximum, 'min': np.minimum, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'exp': np.exp, 'atan': np.arctan,
                 'floor': np.floor, 'ceil': np.ceil, 'cube': lambda z: z * z * z}.get(a[0])
            if a[0] == 'inv':
                if (np.abs(ops[0]) < 1e-9).any():
                    raise Reject()
                return M(1.0 / ops[0], m.rt, m.ct)
            if f:
                return M(f(*ops), m.rt, m.ct)
            vals = [dg(M(o)) for o in ops]
            return self.leaf(hsh('cwise', a[0], *vals), 'm', m.a.shape)
        if op == 'mconv':
            m = Mx(a[0])
            return M(m.a, m.rt, m.ct)
        if op == 'resize':
            m = Mx(a[0])
            r, c = int(N(a[1])), int(N(a[2]))
            if r < 0 or c < 0 or r * c > 20000:
                raise Reject()
            n = self.leaf('resized', 'm', (r, c)).a.copy()
            h, w = min(r, m.a.shape[0]), min(c, m.a.shape[1])
            n[:h, :w] = m.a[:h, :w]
            return M(n)
        if op == 'resized':
            n = int(N(a[1]))
            if a[0].op == 'fill':
                v = E(a[0].a[0])
                return [v] * max(0, n)
            b = self.aslist(E(a[0]), a[0])
            return b[:n] + [UN] * (n - len(b))
        if op == 'mulop':
            u, v = E(a[0]), E(a[1])
            return self.leaf(hsh('mulop', dg(u), dg(v)), x.kind, x.dim)
        if op == 'insertmat' or op == 'removemat':
            raise NoEval(op)
        # uninterpreted
        vals = [self.eval(y, env, memo) for y in a]
        return self.leaf(hsh(op, *[dg(v) for v in vals]), x.kind, x.dim)

    def quat(self, v):
        if isinstance(v, Q):
            return v
        if isinstance(v, Obj):
            return self.leaf(v.p + '.#q', 'q', None)
        if isinstance(v, M) and v.a.shape == (3, 3):
            return rotq(v.a)
        if v is UN:
            raise Reject()
        raise NoEval('quaternion from %s' % type(v).__name__)

    def strv(self, v):
        if isinstance(v, str):
            return v
        return '<' + dg(v) + '>'

    def aslist(self, v, like=None):
        if isinstance(v, list):
            return v
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, (Obj, MapV)):
            if isinstance(v, MapV):
                n = self.csize(v.b)
            else:
                n = self.csize(v)
            k, d = (like.kind, like.dim) if isinstance(like, T) and like.op not in ('seq', 'concat', 'append', 'sel', 'fld', 'maps', 'upd') else (None, None)
            return [self.cget(v, i, None, None) for i in range(n)]
        raise NoEval('list of %s' % type(v).__name__)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, M) and v.a.shape == (1, 1):
            return v.a[0, 0] != 0
        if v is UN:
            raise Reject()
        if isinstance(v, Obj):
            return self.leaf(v.p + '.#bool', 'b', None)
        raise NoEval('truth of %s' % type(v).__name__)

    def block(self, m, r, c, h, w):
        if r < 0 or c < 0:
            raise Undef()
        if h < 0 or w < 0 or h > 90 or w > 90:
            raise Reject()
        if r + h > m.a.shape[0]:
            self.fixdim(m.rt, r + h)
        if c + w > m.a.shape[1]:
            self.fixdim(m.ct, c + w)
        if r + h > m.a.shape[0] or c + w > m.a.shape[1]:
            self.dirty = True
            if r + h > m.a.shape[0] and m.rt is None or c + w > m.a.shape[1] and m.ct is None:
                self.outside = True
            n = np.full((h, w), 0.377)
            s = m.a[r:r + h, c:c + w]
            n[:s.shape[0], :s.shape[1]] = s
            return M(n)
        return M(m.a[r:r + h, c:c + w])

    def writes(self, m, ws, env, memo):
        out = m.a.copy()
        for w in ws:
            if len(w) == 2:
                # nested loop of writes
                (wl, g) = w
                if g is not TRUE and not self.truth(self.eval(g, env, memo)):
                    continue
                inner = M(out, m.rt, m.ct)
                for k in self.keys(wl.a[0], env, memo):
                    inner = self.writes(inner, wl.a[2], env + ((wl.a[1], k),), {})
                out = inner.a.copy()
                continue
            r, c, h, w_, v, g = w
            if g is not TRUE and not self.truth(self.eval(g, env, memo)):
                continue
            r, c, h, w_ = (int(round(self.num(self.eval(y, env, memo)))) for y in (r, c, h, w_))
            v = self.matv(self.eval(v, env, memo))
            if r < 0 or c < 0:
                raise Undef()
            if h < 0 or w_ < 0:
                raise Reject()
            if v.a.shape[0] != h:
                self.fixdim(v.rt, h)
            if v.a.shape[1] != w_:
                self.fixdim(v.ct, w_)
            if r + h > out.shape[0]:
                self.fixdim(m.rt, r + h)
            if c + w_ > out.shape[1]:
                self.fixdim(m.ct, c + w_)
            if v.a.shape != (h, w_) or r + h > out.shape[0] or c + w_ > out.shape[1]:
                self.dirty = True
                if r + h > out.shape[0] and m.rt is None or c + w_ > out.shape[1] and m.ct is None:
                    self.outside = True
                if r > 200 or c > 200:
                    raise Reject()
                n = np.zeros((max(out.shape[0], r + h), max(out.shape[1], c + w_)))
                n[:out.shape[0], :out.shape[1]] = out
                out = n
                blkv = np.zeros((h, w_))
                s = v.a[:h, :w_]
                blkv[:s.shape[0], :s.shape[1]] = s
                out[r:r + h, c:c + w_] = blkv
                continue
            out[r:r + h, c:c + w_] = v.a
        return M(out, m.rt, m.ct)

    def poly(self, x, env, memo):
        acc = None
        mag = 0.0
        for (s, nc), c in x.a[0]:
            co = float(c) if c.denominator != 1 else int(c)
            for y, e in s:
                v = self.num(self.eval(y, env, memo))
                if e < 0 and abs(v) < 1e-12:
                    raise Reject()
                co = co * v ** e
            if not nc:
                r = co
            else:
                vs = [self.eval(y, env, memo) for y in nc]
                if all(isinstance(v, Q) for v in vs) and len(vs) == 1:
                    r = M((co * vs[0].v).reshape(4, 1))
                elif len(vs) == 1 and isinstance(vs[0], Obj) and nc[0].kind != 'm' and x.kind != 'm':
                    r = co * self.num(vs[0])
                else:
                    m = self.matv(vs[0])
                    for v in vs[1:]:
                        m = self.mmul(m, self.matv(v))
                    r = M(co * m.a, m.rt, m.ct)
            if not isinstance(r, M):
                mag = max(mag, abs(r))
            if acc is None:
                acc = r
            elif isinstance(acc, M) or isinstance(r, M):
                acc = self.madd(self.matv(acc), self.matv(r))
            else:
                acc = acc + r
        self.mag = mag
        if isinstance(acc, float) and (acc != acc or abs(acc) > 1e30):
            raise Reject()
        return acc

    def keys(self, dom, env, memo):
        kind = dom.a[0]
        if kind == 'range':
            lo, hi = (self.num(self.eval(y, env, memo)) for y in dom.a[1:3])
            lo, hi = int(math.ceil(lo - 1e-9)), int(math.ceil(hi - 1e-9))
            if hi - lo > 60:
                raise Reject()
            return list(range(lo, hi))
        if kind == 'down':
            lo, hi = (int(round(self.num(self.eval(y, env, memo)))) for y in dom.a[1:3])
            if lo - hi > 60:
                raise Reject()
            return list(range(lo, hi - 1, -1))
        if kind == 'coll':
            return self.ckeys(self.eval(dom.a[1], env, memo))
        if kind == 'while':
            sysc = dom.a[1]
            # number of iterations: iterate the condition's own system
            n = 0
            st = self.sysinit(sysc, env, memo)
            while True:
                e2 = env + tuple(st)
                if not self.truth(self.eval(sysc.a[0], e2, {})):
                    break
                n += 1
                if n > 40:
                    raise Reject()
                st = self.sysstep(sysc, st, env)
            return list(range(n))
        raise NoEval('domain ' + str(kind))

    def sysinit(self, sysc, env, memo):
        out = []
        lvl = sysc.a[3]
        for i, (init, new) in enumerate(sysc.a[1]):
            out.append((self.bvof(sysc, i), self.eval(init, env, memo)))
        return out

    def bvof(self, sysc, i):
        return t._table.get(('bv', (sysc.a[3], i)))

    def sysstep(self, sysc, st, env):
        e2 = env + tuple(st)
        mm = {}
        return [(k, self.eval(new, e2, mm)) for (k, _), (init, new) in zip(st, sysc.a[1])]

    def bind(self, x, env, memo):
        op, a = x.op, x.a
        vi, sc = t.BINDERS[op]
        bv = a[vi]
        dom = a[0]
        ks = self.keys(dom, env, memo)
        if op in ('sum', 'psum'):
            body = a[2] if op == 'sum' else a[3]
            if op == 'psum':
                cur = key(self.eval(a[1], env, memo))
                if dom.a[0] == 'down':
                    ks = [k for k in ks if k > cur]
                else:
                    ks = [k for k in ks if k < cur]
            acc = None
            for k in ks:
                v = self.eval(body, env + ((bv, k),), {})
                if isinstance(v, M):
                    acc = v if acc is None else self.madd(self.matv(acc), v)
                else:
                    acc = self.num(v) if acc is None else acc + self.num(v)
            if acc is None:
                if x.kind == 'm':
                    d = t.dims(body)
                    if d:
                        try:
                            return M(np.zeros((int(self.num(self.eval(d[0], env, memo))), int(self.num(self.eval(d[1], env, memo))))))
                        except Restart:
                            raise
                        except Exception:
                            raise Reject()
                return 0
            return acc
        if op == 'maps':
            out = []
            for k in ks:
                out = out + self.aslist(self.eval(a[2], env + ((bv, k),), {}), a[2])
            return out
        if op == 'catmap':
            return ''.join(self.strv(self.eval(a[2], env + ((bv, k),), {})) for k in ks)
        if op == 'exists':
            return any(self.truth(self.eval(a[2], env + ((bv, k),), {})) for k in ks)
        if op == 'firstval':
            for k in ks:
                e2 = env + ((bv, k),)
                mm = {}
                if self.truth(self.eval(a[2], e2, mm)):
                    return self.eval(a[3], e2, mm)
            return UN
        if op == 'mapd':
            base = self.eval(a[1], env, memo)
            u = {}
            for k in ks:
                u[k] = self.eval(a[2], env + ((bv, k),), {})
            if isinstance(base, (list, tuple)) and all(isinstance(i, int) and 0 <= i < len(base) for i in u):
                return [u.get(i, base[i]) for i in range(len(base))]
            if isinstance(base, MapV):
                uu = dict(base.u)
                uu.update(u)
                return MapV(base.b, uu, base.d)
            return MapV(base, u)
        if op == 'mapr':
            base = self.eval(a[1], env, memo)
            u = {}
            for k in ks:
                e2 = env + ((bv, k),)
                mm = {}
                kk = key(self.eval(a[2], e2, mm))
                u[kk] = self.eval(a[3], e2, mm)
                if a[5] is not FALSE and self.truth(self.eval(a[5], e2, mm)):
                    break
            if isinstance(base, (list, tuple)) and all(isinstance(i, int) and 0 <= i < len(base) for i in u):
                return [u.get(i, base[i]) for i in range(len(base))]
            if isinstance(base, MapV):
                uu = dict(base.u)
                uu.update(u)
                return MapV(base.b, uu, base.d)
            return MapV(base, u)
        if op == 'lw':
            m = self.matv(self.eval(a[1], env, memo))
            for k in ks:
                m = self.writes(m, a[3], env + ((bv, k),), {})
            return m
        if op in ('recur', 'precur'):
            sysc = a[-1]
            if op == 'precur':
                cur = key(self.eval(a[1], env, memo))
                if cur in ks:
                    ks = ks[:ks.index(cur)]
            st = self.sysinit(sysc, env, memo)
            for k in ks:
                e1 = env + ((bv, k),)
                if sysc.a[2] is not FALSE:
                    ex = self.truth(self.eval(sysc.a[2], e1 + tuple(st), {}))
                else:
                    ex = False
                st = self.sysstep(sysc, st, e1)
                if ex:
                    break
            return self.eval(sysc.a[0], env + tuple(st), {})
        raise NoEval(op)

    def func(self, x, v):
        name = x.a[0]
        try:
            if name == 'sqrt':
                z = self.num(v[0])
                if z >= 0:
                    return math.sqrt(z)
            elif name in ('sin', 'cos', 'tan', 'atan', 'exp', 'floor', 'ceil'):
                return float(getattr(math, name)(self.num(v[0])))
            elif name in ('acos', 'asin', 'log'):
                z = self.num(v[0])
                if abs(z) <= 1 and name != 'log' or z > 0 and name == 'log':
                    return getattr(math, name)(z)
            elif name in ('atan2', 'hypot', 'fmod'):
                return getattr(math, name)(self.num(v[0]), self.num(v[1]))
            elif name == 'pow':
                z, e = self.num(v[0]), self.num(v[1])
                if z > 0:
                    return z ** e
            elif name == 'abs' and not isinstance(v[0], M):
                return abs(self.num(v[0]))
            elif name == 'norm':
                if isinstance(v[0], Q):
                    return float(np.linalg.norm(v[0].v))
                return float(np.linalg.norm(self.matv(v[0]).a))
            elif name == 'dot':
                a, b = self.matv(v[0]), self.matv(v[1])
                if a.a.size == b.a.size:
                    return float(np.dot(a.a.reshape(-1), b.a.reshape(-1)))
                raise Reject()
            elif name == 'cross':
                a, b = self.matv(v[0]), self.matv(v[1])
                if a.a.size == 3 and b.a.size == 3:
                    return M(np.cross(a.a.reshape(-1), b.a.reshape(-1)).reshape(3, 1))
            elif name == 'trunc':
                return int(math.trunc(self.num(v[0])))
            elif name == 'round':
                z = self.num(v[0])
                return float(math.floor(abs(z) + 0.5)) * (1 if z >= 0 else -1)
            elif name in ('max', 'min') and len(v) == 2:
                return (max if name == 'max' else min)(self.num(v[0]), self.num(v[1]))
            elif name == 'trace':
                return float(np.trace(self.matv(v[0]).a))
            elif name == 'sum':
                return float(self.matv(v[0]).a.sum())
            elif name == 'det':
                m = self.matv(v[0])
                if m.a.shape[0] == m.a.shape[1]:
                    return float(np.linalg.det(m.a))
            elif name in ('idiv', 'mod'):
                p, q = int(self.num(v[0])), int(self.num(v[1]))
                if q == 0:
                    raise Reject()
                d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
                return d if name == 'idiv' else p - d * q
        except (OverflowError, ValueError):
            raise Reject()
        return self.leaf(hsh('fn', name, *[dg(y) for y in v]), x.kind, x.dim, name)

    # ------------------------------------------------------------ comparison
    def same(self, a, b, tol=1e-6):
        if a is b:
            return True
        if isinstance(a, (bool, int, float)) and isinstance(b, M) and b.a.shape == (1, 1):
            b = float(b.a[0, 0])
        if isinstance(b, (bool, int, float)) and isinstance(a, M) and a.a.shape == (1, 1):
            a = float(a.a[0, 0])
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            a, b = float(a), float(b)
            return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
        if isinstance(a, M) and isinstance(b, M):
            if a.a.shape != b.a.shape:
                return False
            if not a.a.size:
                return True
            s = max(1.0, float(np.max(np.abs(a.a))), float(np.max(np.abs(b.a))))
            return bool(np.max(np.abs(a.a - b.a)) <= tol * s)
        if isinstance(a, Q) and isinstance(b, Q):
            return bool(min(np.max(np.abs(a.v - b.v)), np.max(np.abs(a.v + b.v))) <= tol)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.p == b.p
        if isinstance(a, Obj) and isinstance(b, (bool, int, float)):
            return self.same(self.leaf(a.p + '.#num', 'i', None), b)
        if isinstance(b, Obj) and isinstance(a, (bool, int, float)):
            return self.same(self.leaf(b.p + '.#num', 'i', None), a)
        if isinstance(a, Obj) and isinstance(b, str):
            return self.leaf(a.p + '.#str', 'str', None) == b
        if isinstance(b, Obj) and isinstance(a, str):
            return self.leaf(b.p + '.#str', 'str', None) == a
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.same(p, q) for p, q in zip(a, b))
        if isinstance(a, Rec) or isinstance(b, Rec):
            fa = a.f if isinstance(a, Rec) else {}
            fb = b.f if isinstance(b, Rec) else {}
            ba = a.b if isinstance(a, Rec) else a
            bb = b.b if isinstance(b, Rec) else b
            for k in set(fa) | set(fb):
                va = fa.get(k)
                vb = fb.get(k)
                if va is None:
                    va = self.likeleaf(ba, k, vb)
                if vb is None:
                    vb = self.likeleaf(bb, k, va)
                if not self.same(va, vb):
                    return False
            return self.same(ba, bb)
        if isinstance(a, MapV) or isinstance(b, MapV):
            if isinstance(a, MapV) and isinstance(b, MapV) and self.same(a.b, b.b) and set(a.u) == set(b.u) and set(a.d) == set(b.d):
                return all(self.same(a.u[k], b.u[k]) for k in a.u)
            try:
                ka, kb = self.ckeys(a), self.ckeys(b)
            except NoEval:
                return False
            if ka != kb:
                return False
            for k in ka:
                va, vb = self.cget(a, k, None, None), self.cget(b, k, None, None)
                if isinstance(va, Obj) and not isinstance(vb, Obj) and not isinstance(vb, Rec):
                    va = self.relike(a, k, vb)
                if isinstance(vb, Obj) and not isinstance(va, Obj) and not isinstance(va, Rec):
                    vb = self.relike(b, k, va)
                if not self.same(va, vb):
                    return False
            return True
        if isinstance(a, Obj) and isinstance(b, (list, tuple)):
            return self.csize(a) == len(b) and all(self.same(self.relike(a, i, y), y) for i, y in enumerate(b))
        if isinstance(b, Obj) and isinstance(a, (list, tuple)):
            return self.same(b, a)
        return False

    def kindof(self, v):
        if isinstance(v, bool):
            return 'b', None
        if isinstance(v, int):
            return 'i', None
        if isinstance(v, float):
            return 's', None
        if isinstance(v, M):
            return 'm', v.a.shape
        if isinstance(v, Q):
            return 'q', None
        if isinstance(v, str):
            return 'str', None
        return None, None

    def likeleaf(self, base, name, other):
        k, d = self.kindof(other)
        return self.field(base, name, k, d)

    def relike(self, base, i, other):
        k, d = self.kindof(other)
        return self.cget(base, i, k, d)


_open = {}


def isopen(x):
    r = _open.get(x)
    if r is None:
        r = bool(x.op in ('bnd', 'bv', 'kidx', 'phi')) or any(_io(y) for y in x.a)
        _open[x] = r
    return r


def _io(y):
    if isinstance(y, tuple):
        return any(_io(z) for z in y)
    return isopen(y) if isinstance(y, T) else False


# ---------------------------------------------------------------- models of a set of facts
def constants(terms):
    out = set()
    for x in terms:
        for n in t.find(x, lambda y: y.op in ('num', 'poly', 'enum')):
            if n.op == 'num':
                out.add(float(n.a[0]))
            elif n.op == 'enum':
                out.add(float(n.a[1]))
            else:
                for _, c in n.a[0]:
                    out.add(float(c))
    return sorted(out)[:40]


def literals(terms):
    """the string literals values are compared with"""
    out = set()
    for x in terms:
        for n in t.find(x, lambda y: y.op == 'eq' and (y.a[0].op == 'str' or y.a[1].op == 'str')):
            out.update(y.a[0] for y in n.a if y.op == 'str')
    return sorted(out)[:12]


def run(model, f):
    for _ in range(300):
        model.reset()
        try:
            return f()
        except Restart:
            continue
    raise Reject()


def satisfy(model, facts, rng, consts):
    """adjust the algebra until every fact holds; False when that fails"""
    items = list(facts.items())
    for step in range(60):
        bad = []

        def test():
            del bad[:]
            for f, v in items:
                model.touched = {}
                try:
                    r = model.truth(model.ev(f))
                except Reject:
                    r = None
                if r is not v:
                    # leaves are only recorded on first evaluation: evaluate again without the memo
                    model.memo = {}
                    model.touched = {}
                    try:
                        model.truth(model.ev(f))
                    except Reject:
                        pass
                    bad.append((f, v, dict(model.touched)))
        run(model, test)
        if not bad:
            return True
        f, v, touched = rng.choice(bad)
        x, want = f, v
        while x.op == 'not':
            x, want = x.a[0], not want
        cand = [(p, k) for p, k in touched.items() if k in ('b', 'i', 's', 'str', 'has', 'dim')]
        flat = [p for p, k in touched.items() if k == 'm'] if x.op == 'lt' else []
        if flat and (not cand or rng.random() < 0.5):
            # one element of a matrix
            if element(model, x, want, rng.choice(flat), rng) or not cand:
                continue
        if not cand:
            return False
        p, k = rng.choice(cand)
        if x.op == 'eq' and want and rng.random() < 0.7:
            try:
                y, z = model.ev(x.a[0]), model.ev(x.a[1])
                for s, o in ((x.a[0], z), (x.a[1], y)):
                    lp = leafpath(model, s)
                    if lp is not None and isinstance(o, (int, float, str)):
                        model.over[lp] = o
                        break
                continue
            except (Reject, Restart, NoEval):
                pass
        if x.op == 'lt' and k == 's' and rng.random() < 0.5 and boundary(model, x, p):
            continue
        perturb(model, p, k, rng, consts)
    return False


def boundary(model, x, p):
    """moves the scalar leaf p so that the two sides of a comparison become equal"""
    def value(v):
        if v is not None:
            model.over[p] = v
        model.memo = {}
        return model.num(model.ev(x.a[0]))
    old = model.over.get(p)
    try:
        v0 = old if old is not None else model.leaf(p, 's', None)
        f0, f1 = value(float(v0)), value(float(v0) + 1.0)
        if abs(f1 - f0) > 1e-9:
            v = v0 - f0 / (f1 - f0)
            if abs(value(v)) < 1e-9:
                return True
    except (Reject, Restart, NoEval, TypeError):
        pass
    if old is None:
        model.over.pop(p, None)
    else:
        model.over[p] = old
    model.memo = {}
    return False


def element(model, x, want, p, rng):
    """moves one element of the matrix leaf p to the boundary of a comparison, or past it"""
    old = model.over.get(p + '@', {})

    def value(ij, w):
        if w is not None:
            model.over[p + '@'] = {**old, ij: w}
        model.memo = {}
        return model.num(model.ev(x.a[0]))
    try:
        model.over.pop(p + '@', None)
        model.over[p + '@'] = old
        f0 = value(None, None)
        ijs = [(i, j) for i in range(4) for j in range(4)]
        rng.shuffle(ijs)
        for ij in ijs:
            a, b = value(ij, 0.0), value(ij, 1.0)
            if a == b:
                continue
            v = round(-a / (b - a), 9)
            if abs(value(ij, v)) < 1e-9 * max(1, abs(a)):
                if not want and rng.random() < 0.5:
                    return True
                d = rng.choice([0.5, 2.0, 20.0]) * (-1 if (b > a) == want else 1)
                if (value(ij, v + d) < 0) == want:
                    return True
    except (Reject, Restart, NoEval, TypeError):
        pass
    model.over[p + '@'] = old
    model.memo = {}
    return False


def leafpath(model, s):
    """path of a term that is a leaf in this algebra"""
    before = set(model.touched)
    model.touched = {}
    model.memo = {}
    try:
        v = model.ev(s)
    except Exception:
        return None
    ks = [(p, k) for p, k in model.touched.items() if k in ('i', 's', 'str')]
    for p, k in ks:
        w = model.over.get(p)
        if w is None:
            w = model.leaf(p, k, None)
        if isinstance(w, (int, float, str)) and isinstance(v, (int, float, str)) and w == v and s.op in ('sym', 'fld', 'sel', 'size', 'fn', 'out', 'glob', 'yas'):
            return p
    return None


def perturb(model, p, k, rng, consts):
    """give a leaf of the algebra another value"""
    if k == 'm':
        model.over[p + '*'] = rng.choice([0.0, 1e-12, 1e-4, 0.01, 0.1, 0.5, 2, 5, 10, 100])
    elif k == 'b':
        model.over[p] = not (model.over[p] if p in model.over else model.rnd(p).random() < 0.5)
    elif k == 'dim':
        model.dimov[p] = rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 12])
    elif k == 'has':
        model.over[p] = rng.random() < 0.5
    elif k == 'i':
        model.over[p] = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 18, 24, 30] + [int(c) for c in consts if c == int(c) and abs(c) < 1000])
    elif k == 'str':
        model.over[p] = rng.choice(list(model.strs) + ['S0', 'S1', 'S2']) if model.strs else 'S' + str(rng.randint(0, 3))
    else:
        c = rng.choice(consts) if consts else 1.0
        model.over[p] = rng.choice([0.0, 1.0, c, c + rng.uniform(-1, 1), c * rng.uniform(0.5, 2), rng.uniform(-3, 3), rng.uniform(0, 1),
                                    rng.uniform(-100, 100), rng.uniform(0, 1e4), c + rng.uniform(-0.01, 0.01)])


_names = {}


def leafnames(c):
    """names of the fields and symbols a condition reads"""
    r = _names.get(c)
    if r is None:
        r = set()
        for n in t.find(c, lambda y: y.op in ('fld', 'sym', 'size', 'rows', 'cols')):
            r.add(str(n.a[1]) if n.op == 'fld' else str(n.a[0]) if n.op == 'sym' else '#' + n.op)
        _names[c] = r
    return r


class Tally:
    def __init__(self):
        self.good = self.clean = self.diff = self.cdiff = self.odiff = self.sat = 0
        self.sample = None
        self.why = 'no usable algebra'


def trial(m, a, b, facts, T_):
    """evaluate both sides in one algebra: True equal, False different, None not usable"""
    fits = [False]

    def both():
        y = m.ev(b)
        fits[0] = not m.dirty
        try:
            x = m.ev(a)
        except Undef:
            # the code reads or writes outside of an object where the specification does not
            return UN, y, False
        return x, y, m.same(x, y)
    try:
        x, y, s = run(m, both)
        if facts:
            # dimensions may have been adjusted: the facts must still hold
            ok = run(m, lambda: all(m.truth(m.ev(f)) is v for f, v in facts.items()))
            if not ok:
                return None
            x, y, s = run(m, both)
    except Reject:
        T_.why = 'no usable algebra'
        return None
    T_.good += 1
    if not m.dirty:
        T_.clean += 1
    if not s:
        T_.diff += 1
        if fits[0] and m.outside:
            # the specification stays inside of its matrices where the code does not
            T_.odiff += 1
        if not m.dirty:
            T_.cdiff += 1
            T_.sample = T_.sample or (dg(x)[:300], dg(y)[:300])
    return s


KINDS = ('b', 'i', 's', 'str', 'has', 'dim', 'm')


def trace(m):
    return (m.seed, {p: w for p, w in m.over.items()}, dict(m.dimov), m.touched, m.names)


def restore(st, strs=()):
    m = Model(st[0])
    m.strs = strs
    m.over.update(st[1])
    m.dimov.update(st[2])
    return m


def pool(near, m):
    """keep, for every comparison, algebras that evaluate it: the closest to its boundary and a few others"""
    for c, v in m.margin.items():
        l = near.setdefault(c, [])
        if len(l) < 8:
            l.append((v, trace(m)))
        elif 1e-9 < abs(v) < abs(l[0][0]) or abs(l[0][0]) <= 1e-9 < abs(v):
            l[0] = (v, trace(m))
        elif m.seed % 3 == 0:
            l[1 + m.seed // 3 % 7] = (v, trace(m))
    for c, v in m.unmet.items():
        l = near.setdefault(('unmet', c), [])
        if v and len(l) < 12:
            l.append((v, trace(m)))


def meet(m, st, pairs, rng):
    """give a leaf the value that makes an equality or a membership true"""
    p, q = rng.choice(pairs)
    for _ in range(8):
        x, y = rng.choice(p), rng.choice(q)
        if rng.random() < 0.3:
            x, y = y, x
        z = []
        for l, k in st[3].items():
            if k in ('i', 's', 'str') and isinstance(x, str) == (k == 'str') and m.leaf(l, k, None, st[4].get(l, '')) == x:
                z.append((l, k))
        if z and isinstance(x, str) == isinstance(y, str):
            l, k = rng.choice(z)
            m.over[l] = y
            return True
    return False


def guided(a, b, T_, cov, near, need, until, consts, strs):
    """algebras that take the outcomes of conditions the plain ones did not take, and lie on the boundaries of the conditions only one side has"""
    import time
    rng = random.Random(7)
    tried = {}
    one = lambda c: c not in both
    ca, cb = (set(t.find(x, lambda y: y.op in ('lt', 'eq', 'has', 'sel'))) for x in (a, b))
    both = ca & cb

    def go(m):
        m.cov, m.near = cov, near
        s = trial(m, a, b, {}, T_)
        pool(near, m)
        if s is False:
            for d in range(1, 9):
                if T_.cdiff >= need or time.time() > until:
                    break
                n = Model(m.seed + 5 * 4 * d)
                n.strs = strs
                n.over.update({p: w for p, w in m.over.items() if isinstance(p, str)})
                trial(n, a, b, {}, T_)
                if T_.cdiff < need:
                    # the same algebra with one leaf less or more
                    n = Model(m.seed)
                    n.strs = strs
                    n.over.update(m.over)
                    n.dimov.update(m.dimov)
                    cd = [(p, k) for p, k in m.touched.items() if k in ('s', 'm')]
                    if cd:
                        p, k = rng.choice(cd)
                        perturb(n, p, k, rng, consts)
                    trial(n, a, b, {}, T_)
        return s

    def done():
        return time.time() > until or T_.cdiff >= need
    while not done():
        todo = [(c, v) for c, e in cov.items() for v in (True, False)
                if e.get(('n', v), 0) < (6 if one(c) else 3 if len(cov) < 40 else 1) and tried.get((c, v), 0) < (40 if one(c) else 12)]
        if not todo:
            break
        todo.sort(key=lambda z: (tried.get(z, 0) - (28 if one(z[0]) else 0) + (20 if z[1] in cov[z[0]] else 0), t.digest(z[0]), z[1]))
        c, v = todo[0]
        tried[(c, v)] = tried.get((c, v), 0) + 1
        st = cov[c][(not v) if not v in cov[c] or (not v) in cov[c] and rng.random() < 0.5 else v]
        if c in near and rng.random() < 0.6:
            st = rng.choice(near[c])[1]
        touched, names = st[3], st[4]
        want = leafnames(c)
        cand = [(p, k) for p, k in touched.items() if k in KINDS and (names.get(p) in want or k in ('dim', 'has') or p.endswith('#size'))]
        cand = cand or [(p, k) for p, k in touched.items() if k in KINDS]
        if not cand:
            tried[(c, v)] = 99
            continue
        m = restore(st, strs)
        if v and near.get(('unmet', c)) and rng.random() < 0.6:
            w, st = rng.choice(near['unmet', c])
            m = restore(st, strs)
            if meet(m, st, w, rng):
                go(m)
                continue
        close = [(p, k) for p, k in cand if names.get(p) in want and k in ('b', 'i', 's', 'str', 'm')]
        for _ in range(rng.choice([1, 1, 2, 3])):
            p, k = rng.choice(close if close and rng.random() < 0.7 else cand)
            perturb(m, p, k, rng, consts)
        go(m)
    # boundaries of the comparisons only one side makes
    for c in sorted((c for c in near if not isinstance(c, tuple) and one(c)), key=t.digest):
        if done():
            break
        for _ in range(25):
            if done():
                break
            v0, st = rng.choice(near[c])
            want = leafnames(c)
            cand = [(p, k) for p, k in st[3].items() if k in ('i', 's', 'm') and (st[4].get(p) in want or p.endswith('#size'))]
            cand = cand or [(p, k) for p, k in st[3].items() if k in ('i', 's', 'm')]
            if not cand:
                break
            p, k = rng.choice(cand)
            q = p + '*' if k == 'm' else p

            def at(w):
                m = restore(st, strs)
                m.over[q] = int(round(w)) if k == 'i' else w
                go(m)
                return m.margin.get(c)
            base = st[1].get(q)
            if base is None:
                base = 1.0 if k == 'm' else restore(st, strs).leaf(p, k, None, st[4].get(p, ''))
            lo, flo = float(base), v0
            for w in ([lo + 1, lo - 1, lo + 2, 2 * lo, 4, 8, 0] if k == 'i' else [2 * lo, 0.5 * lo, 10 * lo, -lo, 0.1 * lo, 100 * lo, lo + 1, 0.0]):
                if done() or w < 0 and k == 'i':
                    continue
                fw = at(w)
                if fw is not None and (fw < 0) != (flo < 0):
                    hi, fhi = w, fw
                    for _ in range(12):
                        if done() or k == 'i' and abs(hi - lo) < 1.5:
                            break
                        mid = (lo + hi) / 2
                        fm = at(mid)
                        if fm is None:
                            break
                        if (fm < 0) == (flo < 0):
                            lo, flo = mid, fm
                        else:
                            hi, fhi = mid, fm
                    break


def compare(a, b, facts, tries=40, need=3, seconds=25, more=5, guide=0):
    """('equal', n) / ('differ', n, sample) / ('unknown', why)"""
    import time
    t0 = time.time()
    T_ = Tally()
    cov, near = {}, {}
    consts = constants(list(facts) + [a, b])
    strs = literals([a, b])
    try:
        for seed in range(1, more * tries + 1):
            if time.time() - t0 > seconds:
                break
            if seed > tries and not (0 < T_.diff and T_.cdiff < 2):
                break
            m = Model(seed)
            m.strs = strs
            rng = random.Random(seed)
            try:
                if facts and not satisfy(m, facts, rng, consts):
                    T_.why = 'no algebra satisfies the facts of the case'
                    continue
            except Reject:
                continue
            T_.sat += 1
            if guide:
                m.cov, m.near = cov, near
            trial(m, a, b, facts, T_)
            pool(near, m)
            if T_.cdiff >= need:
                return ('differ', T_.cdiff, T_.sample)
        if guide and not T_.cdiff:
            guided(a, b, T_, cov, near, need, time.time() + guide, consts, strs)
    except NoEval as ex:
        return ('unknown', 'not evaluable: %s' % ex)
    except RecursionError:
        return ('unknown', 'term too deep')
    good, clean, diff, cdiff = T_.good, T_.clean, T_.diff, T_.cdiff
    if cdiff >= 2:
        return ('differ', cdiff, T_.sample)
    if T_.odiff >= 5:
        return ('differ', T_.odiff, ('outside of a matrix', 'inside'))
    if good >= 3 and not diff:
        return ('equal', good)
    if clean >= 20 and not cdiff:
        return ('equal', clean)
    if good >= 3 and not clean:
        return ('differ', diff, T_.sample) if diff >= 2 else ('unknown', 'few algebras can be used')
    if good >= 3:
        return ('unknown', 'differs only where dimensions do not fit')
    if facts and not T_.sat:
        r = compare(a, b, {}, tries, need, seconds)
        if r[0] == 'equal':
            return r
    return ('unknown', T_.why)
