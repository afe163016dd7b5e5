"""Obligations: a repository function and its specification are summarised by the same analysis and their observables compared."""
import terms as t
import interp as ip
from terms import mk, TRUE, FALSE, UNINIT
from prog import Broken, kind_of_type


class Undecidable(Exception):
    pass


# ------------------------------------------------------------------ models of calls that are not looked into
def silent(I, e, this, args):
    """a call without observable effect (diagnostic messages)"""
    return UNINIT


def row_of(qn):
    """a call that writes a row about the object it is made on: the state of the object counts, not the measured duration"""
    def h(I, e, this, args):
        I.emit(qn, [I.read_any(this)], e)
        return UNINIT
    return h


def opaque_call(qn, mutates=True, event=True, const=False, receiver=False):
    """call kept symbolic: the object and every writable reference argument become functions of the pre-state"""
    def h(I, e, this, args):
        from libmodel import snapshot
        argnodes = e['args'][1:] if e.get('memop') else e['args']
        vals = [snapshot(I, v) for v in args]
        obj = I.read_any(this) if this is not None else None
        base = ((obj,) if obj is not None else ()) + tuple(vals)
        k = kind_of_type(e.get('t'))
        r = mk('fn', 'ret:' + qn, *base, kind=k, dim=tuple(e['dim']) if 'dim' in e else None)
        if event:
            I.emit(qn, ([obj] if receiver and obj is not None else []) + vals, e)
        if this is not None and mutates and not e.get('const'):
            I.write_any(this, mk('after', qn, *base, kind='o'), e)
        pm = e.get('pm', [])
        for i, a in enumerate(argnodes):
            if i < len(pm) and pm[i] == 'r' and not const:
                l = I.lv(a)
                if l is not None:
                    old = I.read_any(l)
                    I.write_any(l, mk('out', mk('fn', 'eff:' + qn, *base, kind='o'), i, kind=old.kind or kind_of_type(a.get('t')), dim=old.dim), e)
        return r
    return h


def base_part(cls):
    """construction of a base class part, whose members stay symbolic"""
    def h(I, e, this, args):
        from libmodel import snapshot
        I.emit('base:' + cls, [snapshot(I, v) for v in args], e)
        return UNINIT
    return h


def base_parts(*cs):
    d = {}
    for c in cs:
        d[c + '::' + c] = d['spec::base_' + c] = base_part(c)
    return d


def made(cls):
    """construction of an object that stays symbolic"""
    def h(I, e, loc, args):
        from libmodel import snapshot
        vals = [snapshot(I, v) for v in args]
        I.emit('new:' + cls, vals, e)
        I.write_any(loc, mk('made', cls, *vals, kind='o'), e)
    return h


RNG = ('g', 'SimRNG', 'o', None)


def rng_draw(qn):
    """a draw advances the one generator state; the value is a function of that state and the arguments"""
    def h(I, e, this, args):
        st = I.read_any(RNG)
        k = kind_of_type(e.get('t'))
        r = mk('fn', 'draw:' + qn, st, *args, kind=k, dim=tuple(e['dim']) if 'dim' in e else None)
        I.write_any(RNG, mk('after', qn, st, *args, kind='o'), e)
        return r
    return h


BASE_OPAQUE = {'DebugLogger::Log': silent}


# ------------------------------------------------------------------ summaries
class Summary:
    def __init__(self, func, st, ret, I):
        self.func, self.st, self.ret, self.I = func, st, ret, I

    def roots(self):
        out = {}
        for l in list(self.st.vals):
            r = ip.root_of(l)
            if r[0] in ('o', 'sym', 'd', 'g'):
                out.setdefault(r, set())
                x = l
                while x[0] in ('f', 'at') and x[1] != r:
                    x = x[1]
                if x != r:
                    out[r].add(x)
        return out


def summarise(prog, func, opaque=None, this=None, args=None, cfg=None, fresh=None):
    op = dict(BASE_OPAQUE)
    op.update(opaque or {})
    op = {k: v for k, v in op.items() if v is not False and k != func['qn']}
    I = ip.Interp(prog, opaque=op)
    if cfg:
        cfg(I)
    if fresh:
        I.st.write(('o', 'this'), mk('new', fresh, kind='o'))
    st, rv = I.run(func, this=this, args=args)
    return Summary(func, st, rv, I)


def trace(evs, keep):
    """event list -> sequence term"""
    parts = []
    for e in evs:
        if e.sub is not None:
            inner = trace(e.sub, keep)
            if inner is t.EMPTY:
                continue
            ks = e.args[0]
            x = t.binder('maps', (e.dom, None, inner), ks, kind='o')
        elif keep(e.name):
            x = mk('seq', mk('ev', e.name, *e.args, kind='o'), kind='o')
        else:
            continue
        parts.append(t.ite(e.guard, x, t.EMPTY) if e.guard is not TRUE else x)
    return t.concat(*parts)


def loc_name(l):
    if l[0] == 'f':
        b = loc_name(l[1])
        return (b + '.' if b else '') + l[2]
    if l[0] == 'at':
        return '%s[%s]' % (loc_name(l[1]), t.show(l[2])[:40])
    if l[0] == 'o':
        return l[1]
    if l[0] == 'sym':
        return t.show(l[1])[:60]
    if l[0] == 'd':
        return '*' + t.show(l[1])[:60]
    return str(l[1])


def keep_event(n):
    return not n.startswith('lib:')


def observables(a, b, spec):
    """pairs (name, termA, termB) to be compared; members a constructor's specification leaves open are not compared"""
    out = observables_(a, b, spec)
    if a.func.get('ctor'):
        out = [o2 for o in out for o2 in expand(o)]
        out = [o for o in out if o[0] == 'sequence of calls' or not is_open(o[2])]
    return out


def rec_fields(y):
    if y.op == 'ite':
        a, b = rec_fields(y.a[1]), rec_fields(y.a[2])
        return None if a is None or b is None else a | b
    if y.op == 'rec' and is_open(y.a[0]):
        return set(k for k, _ in y.a[1])
    return set() if is_open(y) else None


def expand(o):
    n = rec_fields(o[2])
    if not n:
        return [o]
    return [x for k in sorted(n) for x in expand((o[0] + '.' + k, t.fld(o[1], k), t.fld(o[2], k)))]


def is_open(y):
    return y is UNINIT or y.op in ('new', 'uninit') or (y.op == 'fld' and is_open(y.a[0]))


def observables_(a, b, spec):
    out = []
    want = spec.get('obs')
    skip = set(spec.get('skip', ()))
    ra, rb = a.roots(), b.roots()
    fields = spec.get('fields')

    def field_ok(name):
        return (fields is None or name in fields) and name not in a.I.p.extra_fields
    if want is None or 'ret' in want:
        if not a.func.get('ctor') and (a.ret is not UNINIT or b.ret is not UNINIT) and not spec.get('noret'):
            out.append(('return value', a.ret, b.ret))
    if want is None or 'events' in want:
        k = spec.get('events', keep_event)
        if not callable(k):
            names = set(k)
            k = lambda n: n in names
        out.append(('sequence of calls', trace(a.st.ev, k), trace(b.st.ev, k)))
    paths = [w for w in want if w not in ('ret', 'events')] if want is not None else None
    if paths is None:
        for r in sorted(set(ra) | set(rb), key=lambda r: loc_name(r)):
            if r[0] == 'g' and r[1] in ('std::cout', 'std::cerr'):
                continue
            if loc_name(r) in skip:
                continue
            fa, fb = ra.get(r, set()), rb.get(r, set())
            whole = r in a.st.vals or r in b.st.vals
            if whole:
                va, vb = a.st.read(r), b.st.read(r)
                if va is not vb and (va.op in ('rec', 'new') or vb.op in ('rec', 'new')) and not spec.get('whole'):
                    names = set()
                    for v in (va, vb):
                        if v.op == 'rec':
                            names |= set(k for k, _ in v.a[1])
                    for n in sorted(names):
                        if n in skip or not field_ok(n):
                            continue
                        out.append((loc_name(r) + '.' + n, t.fld(va, n), t.fld(vb, n)))
                    continue
                out.append((loc_name(r), va, vb))
                continue
            for f in sorted(fa | fb, key=loc_name):
                if f[0] == 'f' and (f[2] in skip or not field_ok(f[2])):
                    continue
                out.append((loc_name(f), a.st.read(f), b.st.read(f)))
    else:
        for p in paths:
            l = parse_path(p, list(ra) + list(rb))
            out.append((p, a.st.read(l), b.st.read(l)))
    return out


def parse_path(p, roots):
    """'this.m_state.body_state' / '*m_ekf.m_state' / 'a0'"""
    parts = p.split('.')
    h = parts[0]
    if h == 'this':
        l = ('o', 'this')
    elif h.startswith('*'):
        # dereferenced member pointer of this
        l = None
        for r in roots:
            if r[0] == 'd' and r[1].op == 'fld' and r[1].a[1] == h[1:]:
                l = r
        if l is None:
            l = ('d', t.fld(t.sym('this', kind='o'), h[1:]))
    elif h.startswith('a') and h[1:].isdigit():
        l = None
        for r in roots:
            if r[0] == 'sym' and r[1].op == 'sym' and r[1].a[0] == h:
                l = r
        if l is None:
            l = ('sym', t.sym(h))
    else:
        l = ('g', h, None, None)
    for f in parts[1:]:
        l = ('f', l, f)
    return l


def has_unknown(x):
    return bool(t.find(x, lambda y: y.op in ('unk', 'recursive', 'icall')))
