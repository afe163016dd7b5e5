"""Abstract interpreter over the exported AST (join-based forward dataflow; no code is executed, paths are
merged at every control-flow confluence, loops are summarised, repository helpers are inlined)."""
import re
from fractions import Fraction

import terms as t
from terms import T, mk, num, ite, TRUE, FALSE, ZERO, ONE, UNINIT, fld, sel, add, sub, mul
from prog import kind_of_type, Broken

RET = ('#ret',)
RETV = ('#retv',)
BRK = ('#brk',)
CONT = ('#cont',)
FLAGS = (RET, BRK, CONT)


class Event:
    """an observable action of the analysed code: opaque call, output, loop of events"""
    __slots__ = ('name', 'args', 'guard', 'where', 'sub', 'dom')

    def __init__(self, name, args, guard, where, sub=None, dom=None):
        self.name, self.args, self.guard, self.where, self.sub, self.dom = name, args, guard, where, sub, dom

    def guarded(self, g):
        return Event(self.name, self.args, t.and_(g, self.guard), self.where, self.sub, self.dom)

    def same(self, o):
        return self is o

    def __repr__(self):
        g = '' if self.guard is TRUE else ' if ' + t.show(self.guard)
        if self.sub is not None:
            return 'for %s: [%s]%s' % (t.show(self.dom), '; '.join(map(repr, self.sub)), g)
        return '%s(%s)%s @%s' % (self.name, ', '.join(t.show(a) for a in self.args), g, self.where)


def parent(loc):
    return loc[1] if loc[0] in ('f', 'at') else None


def contains_term(loc, s):
    """does location mention term s"""
    if isinstance(loc, tuple):
        return any(contains_term(x, s) for x in loc)
    if isinstance(loc, T):
        return t.occurs(s, loc)
    return False


def root_of(loc):
    while loc[0] in ('f', 'at'):
        loc = loc[1]
    return loc


class State:
    __slots__ = ('vals', 'kids', 'ev')

    def __init__(self):
        self.vals = {}
        self.kids = {}
        self.ev = ()

    def copy(self):
        s = State()
        s.vals = dict(self.vals)
        s.kids = dict(self.kids)
        s.ev = self.ev
        return s

    # ---- reading
    def init_term(self, loc):
        k = loc[0]
        if k == 'o':
            return t.sym(loc[1], kind='o')
        if k == 'd':
            p = loc[1]
            if p.op == 'ptrto':
                return p.a[0]
            return mk('deref', p, kind='o')
        if k == 'g':
            return mk('glob', loc[1], kind=loc[2] if len(loc) > 2 else None, dim=loc[3] if len(loc) > 3 else None)
        if k == 'sym':
            return loc[1]
        return UNINIT

    def access(self, base, loc):
        if loc[0] == 'f':
            return fld(base, loc[2])
        return sel(base, loc[2])

    def raw(self, loc):
        v = self.vals.get(loc)
        if v is not None:
            return v
        if loc[0] == 'f':
            return fld(self.raw(loc[1]), loc[2])
        if loc[0] == 'at':
            b = self.raw(loc[1])
            for sib in self.kids.get(loc[1], ()):
                if sib[0] == 'at' and sib != loc and not t.distinct(sib[2], loc[2]):
                    b = t.upd(b, sib[2], self.read(sib))
            return sel(b, loc[2])
        return self.init_term(loc)

    def read(self, loc):
        v = self.raw(loc)
        ks = self.kids.get(loc)
        if ks:
            fs = {}
            for c in ks:
                if c[0] == 'f':
                    fs[c[2]] = self.read(c)
            if fs:
                v = t.rec(v, fs)
            for c in ks:
                if c[0] == 'at':
                    v = t.upd(v, c[2], self.read(c))
        return v

    # ---- writing
    def drop_desc(self, loc):
        ks = self.kids.pop(loc, None)
        if ks:
            for c in ks:
                self.vals.pop(c, None)
                self.drop_desc(c)

    def write(self, loc, v):
        # fold possibly aliasing siblings first
        p = loc
        while p[0] in ('f', 'at'):
            if p[0] == 'at':
                b = p[1]
                for sib in self.kids.get(b, ()):
                    if sib[0] == 'at' and sib != p and not t.distinct(sib[2], p[2]):
                        full = self.read(b)
                        self.drop_desc(b)
                        self.vals[b] = full
                        self.link(b)
                        break
            p = p[1]
        self.drop_desc(loc)
        self.vals[loc] = v
        self.link(loc)

    def link(self, loc):
        while loc[0] in ('f', 'at'):
            p = loc[1]
            ks = self.kids.get(p, ())
            if loc in ks:
                return
            self.kids[p] = ks + (loc,)
            loc = p

    def forget(self, loc):
        """remove a dead root location"""
        self.drop_desc(loc)
        self.vals.pop(loc, None)

    def flag(self, f):
        return self.vals.get(f, FALSE)


def join(c, a, b):
    """state after 'if (c) a else b'"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    r = State()
    locs = list(a.vals)
    seen = set(locs)
    for l in b.vals:
        if l not in seen:
            locs.append(l)
    locs.sort(key=depth)
    for l in locs:
        if l[0] == 'v' or l[0] == 'tmp':
            if l not in a.vals or l not in b.vals:
                ra = a.vals.get(l)
                rb = b.vals.get(l)
                if not (l in a.vals or l in a.kids) or not (l in b.vals or l in b.kids):
                    r.vals[l] = ra if ra is not None else rb
                    r.link(l)
                    continue
        va = a.vals[l] if l in a.vals else (a.raw(l) if l[0][0] != '#' else FALSE)
        vb = b.vals[l] if l in b.vals else (b.raw(l) if l[0][0] != '#' else FALSE)
        if l == RETV:
            va = a.vals.get(l, UNINIT)
            vb = b.vals.get(l, UNINIT)
            if va is UNINIT:
                va = vb
            if vb is UNINIT:
                vb = va
        r.vals[l] = va if va is vb else ite(c, va, vb)
        r.link(l)
    ea, eb = a.ev, b.ev
    i = 0
    n = min(len(ea), len(eb))
    while i < n and ea[i] is eb[i]:
        i += 1
    r.ev = ea[:i] + tuple(e.guarded(c) for e in ea[i:]) + tuple(e.guarded(t.not_(c)) for e in eb[i:])
    return r


def depth(l):
    n = 0
    while l[0] in ('f', 'at'):
        l = l[1]
        n += 1
    return n


class Frame:
    __slots__ = ('fid', 'func', 'alias', 'this', 'up', 'rlocs', 'locals')

    def __init__(self, fid, func, this=None, up=None):
        self.fid, self.func, self.this, self.up = fid, func, this, up
        self.alias = {}
        self.rlocs = []
        self.locals = []


class Interp:
    MAX_UNROLL = 80

    def __init__(self, prog, opaque=None, intrinsics=None, event_calls=None, field_hint=None):
        self.p = prog
        self.opaque = dict(opaque or {})       # qn -> handler(interp, node, objloc, args) or None (no effect)
        self.intr = dict(DEFAULT_INTR)
        if intrinsics:
            self.intr.update(intrinsics)
        self.event_calls = set(event_calls or ())
        self.st = State()
        self.frames = []
        self.nfid = 0
        self.ntmp = 0
        self.facts = {}
        self.depth = 0
        self.loopdepth = 0
        self.visited = {}
        self.unknown = []
        self.statics = {}
        self.lambdas = {}
        self.gcache = {}
        self.skip_consts = set()
        self.comma = {}
        self.track_lib = False

    # ------------------------------------------------------------------ helpers
    @property
    def fr(self):
        return self.frames[-1]

    def where(self, n):
        f = self.fr.func if self.frames else None
        if f:
            return '%s:%s (%s)' % (f['file'].split('/src/')[-1], n.get('ln', '?') if n else '?', f['qn'])
        return '?'

    def tmp(self):
        self.ntmp += 1
        return ('tmp', self.ntmp)

    def simp(self, c):
        if c is TRUE or c is FALSE or not self.facts:
            return c
        return t.apply_facts(c, self.facts)

    def emit(self, name, args, n):
        self.st.ev = self.st.ev + (Event(name, tuple(args), TRUE, self.where(n)),)

    def note(self, what, n):
        self.unknown.append((what, self.where(n) if self.frames else '?'))

    # ------------------------------------------------------------------ entry points
    def run(self, func, this=None, args=None):
        """Analyse func with symbolic inputs. args: dict name -> term or loc tuple. Returns (state, return term)."""
        fr = self.push(func, this if this is not None else (('o', 'this') if func.get('cls') and not func.get('static') else None))
        for i, p in enumerate(func['params']):
            name = 'a%d' % i
            v = None
            if args is not None:
                v = args.get(i, args.get(p['name']))
            if isinstance(v, tuple):
                fr.alias[p['id']] = v
                continue
            k = kind_of_type(p['t'])
            if v is None:
                v = t.sym(name, kind=k, dim=tuple(p['dim']) if 'dim' in p else None)
            loc = ('sym', v) if k == 'o' or p['m'] in ('r', 'c') else None
            if loc is not None and p['m'] in ('r', 'c'):
                fr.alias[p['id']] = loc
            else:
                self.st.write(('v', fr.fid, p['id']), v)
        if func.get('ctor'):
            self.ctor_inits(func, fr)
        self.exec(func['body'])
        rv = self.st.vals.get(RETV, UNINIT)
        self.last_rlocs = fr.rlocs
        if func.get('retref') and len(set(fr.rlocs)) == 1:
            rv = self.st.read(fr.rlocs[0])
        self.frames.pop()
        self.st.vals.pop(RET, None)
        self.st.vals.pop(RETV, None)
        m = self.box_fresh(None)
        if m:
            rv = t.subst(rv, m)
        return self.st, rv

    def push(self, func, this=None, up=None):
        self.nfid += 1
        fr = Frame(self.nfid, func, this, up)
        self.frames.append(fr)
        self.visited[func['key']] = self.visited.get(func['key'], 0) + 1
        return fr

    # ------------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return
        getattr(self, 'x_' + s['k'], self.x_unknown)(s)

    def x_unknown(self, s):
        self.note('stmt ' + str(s.get('c', s['k'])), s)

    def x_Null(self, s):
        pass

    def x_Expr(self, s):
        self.ev(s['e'], discard=True)

    def x_Block(self, s):
        self.run_list(s['s'])

    def stopped(self):
        st = self.st
        return t.or_(st.flag(RET), st.flag(BRK), st.flag(CONT))

    def run_list(self, lst):
        for i, s in enumerate(lst):
            stop = self.simp(self.stopped())
            if stop is TRUE:
                return
            if stop is not FALSE:
                # remaining statements run only when not stopped
                rest = lst[i:]
                pre = self.st
                a = pre.copy()
                b = pre.copy()
                self.st = b
                saved = self.facts
                self.facts = self.add_facts(stop, False)
                for f in FLAGS:
                    if f in b.vals:
                        b.vals[f] = FALSE
                # a place that was changed only where execution stopped still holds what it held
                for l, v in list(b.vals.items()):
                    w = v
                    while w.op == 'ite':
                        c = self.simp(w.a[0])
                        if c is not TRUE and c is not FALSE:
                            break
                        w = w.a[1] if c is TRUE else w.a[2]
                    if w is not v:
                        b.vals[l] = w
                self.run_list(rest)
                self.facts = saved
                self.st = join(stop, a, self.st)
                return
            self.exec(s)

    def add_facts(self, c, v):
        f = dict(self.facts)
        f.update(t.facts_of(c, v))
        return f

    def x_Decl(self, s):
        for v in s['v']:
            self.declare(v)

    def declare(self, v):
        fr = self.fr
        loc = ('v', fr.fid, v['id'])
        if v.get('static') and not v.get('cst'):
            sk = (fr.func['qn'], v['name'])
            no = self.statics.setdefault(sk, len(self.statics))
            loc = ('g', 'static#%d' % no, kind_of_type(v['t']), tuple(v['dim']) if 'dim' in v else None)
            fr.alias[v['id']] = loc
            return
        init = v['init']
        if v.get('bindings'):
            src = self.lv(init) if init else None
            if src is None:
                src = loc
                self.st.write(loc, self.ev(init))
            elif not v['ref']:
                self.st.write(loc, self.st.read(src) if src[0] != 'pair' else self.read_pair(src))
                src = loc
            self.bind_decomp(v['bindings'], src)
            return
        if v['ref']:
            l = self.lv(init) if init is not None else None
            if l is None:
                val = self.ev(init)
                self.st.write(loc, val)
            else:
                fr.alias[v['id']] = l
            return
        self.init_loc(loc, init, v['t'], v.get('dim'), v.get('cls'))

    def bind_decomp(self, bs, src):
        names = ('first', 'second')
        for i, b in enumerate(bs):
            if src[0] == 'pair':
                if i == 1:
                    self.fr.alias[b['id']] = ('at', src[1], src[2])
                else:
                    l = self.tmp()
                    self.st.write(l, src[2])
                    self.fr.alias[b['id']] = l
            else:
                self.fr.alias[b['id']] = ('f', src, names[i] if i < 2 else 'm%d' % i)

    def init_loc(self, loc, init, ty, dim=None, cls=None):
        """initialise a fresh location of the given type from an init expression (or default)"""
        if init is None:
            self.st.write(loc, self.default_value(ty, dim))
            return
        if init['k'] == 'Ctor' and (init['cls'] in self.p.records or init['key'] in self.p.funcs):
            self.construct(loc, init)
            return
        if init['k'] == 'List' and init.get('cls') in self.p.records and init.get('fields') is not None:
            self.st.write(loc, mk('new', init['cls'], kind='o'))
            for i, f in enumerate(init['fields']):
                if i < len(init['args']):
                    self.st.write(('f', loc, f), self.ev(init['args'][i]))
            return
        val = self.ev(init)
        if kind_of_type(ty) == 'm':
            val = self.coerce_dim(val, dim)
        if kind_of_type(ty) == 's' and val.kind in ('i', 'b') and val.op == 'num':
            val = num(val.a[0])
        self.st.write(loc, val)

    def coerce_dim(self, val, dim):
        return val

    def default_value(self, ty, dim=None):
        k = kind_of_type(ty)
        if k == 'm':
            if dim:
                return mk('uninitm', self.dimterm(dim[0]), self.dimterm(dim[1]), kind='m')
            return UNINIT
        if k == 'str':
            return t.string('')
        if ty.startswith('std::vector') or ty.startswith('const std::vector'):
            return t.EMPTY
        if ty.startswith('std::map') or ty.startswith('std::set') or ty.startswith('std::unordered'):
            return mk('emptymap', kind='o')
        if ty.startswith('std::shared_ptr') or ty.startswith('std::unique_ptr'):
            return mk('null', kind='o')
        return UNINIT

    def dimterm(self, d):
        return num(d) if d >= 0 else ZERO

    def x_If(self, s):
        if s.get('init'):
            self.exec(s['init'])
        if s.get('cv'):
            self.declare(s['cv'])
        c = self.simp(t.tobool(self.ev(s['c'])))
        self.branch(c, lambda: self.exec(s['a']), lambda: self.exec(s['b']))

    def branch(self, c, fa, fb):
        if c is TRUE:
            fa()
            return
        if c is FALSE:
            fb()
            return
        pre = self.st
        saved = self.facts
        self.st = pre.copy()
        self.facts = self.add_facts(c, True)
        fa()
        a = self.st
        self.st = pre.copy()
        self.facts = dict(saved)
        self.facts.update(t.facts_of(c, False))
        fb()
        b = self.st
        self.facts = saved
        self.st = join(c, a, b)

    def x_Ret(self, s):
        fr = self.fr
        if s['e'] is not None:
            if fr.func.get('retref'):
                l = self.lv(s['e'])
                if l is not None:
                    fr.rlocs.append(l)
                    self.st.vals[RETV] = self.read_any(l)
                else:
                    fr.rlocs.append(None)
                    self.st.vals[RETV] = self.ev(s['e'])
            else:
                v = self.ev(s['e'])
                self.st.vals[RETV] = v
        self.st.vals[RET] = TRUE

    def x_Break(self, s):
        self.st.vals[BRK] = TRUE

    def x_Continue(self, s):
        self.st.vals[CONT] = TRUE

    def x_Try(self, s):
        self.exec(s['b'])

    def x_Case(self, s):
        self.exec(s['s'])

    def x_Default(self, s):
        self.exec(s['s'])

    def x_Switch(self, s):
        c = self.ev(s['c'])
        body = s['b']
        items = body['s'] if body and body['k'] == 'Block' else [body]
        # flatten into (labels, stmts)
        groups = []
        for it in items:
            labels = []
            x = it
            while x is not None and x['k'] in ('Case', 'Default'):
                labels.append(None if x['k'] == 'Default' else x['c'])
                x = x['s']
            if labels:
                groups.append((labels, [x] if x is not None else []))
            elif groups:
                groups[-1][1].append(x)
        lab = []
        allcase = []
        for labels, _ in groups:
            conds = []
            for l in labels:
                if l is None:
                    conds.append(None)
                else:
                    e = t.eq(c, self.ev(l))
                    conds.append(e)
                    allcase.append(e)
            lab.append(conds)
        dflt = t.not_(t.or_(*allcase)) if allcase else TRUE
        outer_brk = self.st.vals.pop(BRK, FALSE)
        entered = FALSE
        for (labels, stmts), conds in zip(groups, lab):
            g = t.or_(*[dflt if x is None else x for x in conds])
            entered = self.simp(t.and_(t.or_(entered, g), t.not_(self.stopped())))
            self.branch(entered, lambda st=stmts: self.run_list(st), lambda: None)
        self.st.vals[BRK] = outer_brk

    # ------------------------------------------------------------------ loops
    def x_RFor(self, s):
        rng = s['range']
        loc = self.lv(rng)
        if loc is None:
            v = self.ev(rng)
            if v.op == 'initlist':
                v = mk('seq', *v.a, kind='o')
            loc = self.tmp()
            self.st.write(loc, v)
        coll = self.st.read(loc)
        is_map = 'std::map' in s['rt'][:60] or 'unordered_map' in s['rt'][:60] or 'multimap' in s['rt'][:60]
        var = s['var']
        fr = self.fr
        vloc = ('v', fr.fid, var['id'])

        def bind(key, st=None):
            el = ('pair', loc, key) if is_map else ('at', loc, key)
            if var.get('bindings'):
                if var['ref']:
                    self.bind_decomp(var['bindings'], el)
                else:
                    self.st.write(vloc, self.read_pair(el) if is_map else self.st.read(el))
                    self.bind_decomp(var['bindings'], vloc)
                return
            if var['ref']:
                fr.alias[var['id']] = el
            else:
                fr.alias.pop(var['id'], None)
                v = self.read_pair(el) if is_map else self.st.read(el)
                k = kind_of_type(var['t'])
                if v.kind is None and k != 'o':
                    v.kind = k
                    if 'dim' in var:
                        v.dim = tuple(var['dim'])
                self.st.write(vloc, v)
        self.range_loop(coll, is_map, bind, lambda: self.exec(s['b']), s)

    def range_loop(self, coll, is_map, bind, body, s):
        if not is_map and coll.op == 'seq' and len(coll.a) <= self.MAX_UNROLL:
            # element values are known: unroll
            pre_brk = self.st.vals.pop(BRK, FALSE)
            self.unroll([num(i) for i in range(len(coll.a))], bind, body)
            self.st.vals[BRK] = pre_brk
            return
        if is_map:
            if coll.op == 'emptymap':
                return
            dom = mk('dom', 'coll', self.shape(coll))
        else:
            dom = mk('dom', 'range', ZERO, t.vsize(coll))
            if dom.a[2] is ZERO:
                return
        ks = mk('kidx', dom, self.loopdepth, kind='i')
        self.sym_loop(dom, ks, lambda: bind(ks), body, None, None, s)

    def shape(self, coll):
        """the key-set of a map, ignoring element updates (mapd / upd of elements keep the domain)"""
        while coll.op == 'mapd':
            coll = coll.a[1]
        return coll

    def unroll(self, keys, bind, body):
        def go(i):
            if i >= len(keys):
                return
            bind(keys[i])
            body()
            self.st.vals.pop(CONT, None) if self.st.flag(CONT) is not FALSE else None
            stop = self.simp(t.or_(self.st.flag(RET), self.st.flag(BRK)))
            if stop is TRUE:
                return
            if stop is FALSE:
                go(i + 1)
                return
            pre = self.st
            a = pre.copy()
            self.st = pre.copy()
            saved = self.facts
            self.facts = self.add_facts(stop, False)
            for f in (RET, BRK):
                if f in self.st.vals:
                    self.st.vals[f] = FALSE
            go(i + 1)
            self.facts = saved
            self.st = join(stop, a, self.st)
        go(0)

    def x_For(self, s):
        if s['init'] is not None:
            self.exec(s['init'])
        self.cond_loop(s['c'], s['b'], s['inc'], s)

    def x_While(self, s):
        self.cond_loop(s['c'], s['b'], None, s)

    def x_Do(self, s):
        pre_brk = self.st.vals.pop(BRK, FALSE)
        self.exec(s['b'])
        self.st.vals.pop(CONT, None)
        stop = self.simp(t.or_(self.st.flag(RET), self.st.flag(BRK)))
        if stop is TRUE:
            self.st.vals[BRK] = pre_brk
            return
        if stop is FALSE:
            self.cond_loop(s['c'], s['b'], None, s)
        else:
            a = self.st.copy()
            saved = self.facts
            self.facts = self.add_facts(stop, False)
            self.st.vals[RET] = FALSE
            self.st.vals[BRK] = FALSE
            self.cond_loop(s['c'], s['b'], None, s)
            self.facts = saved
            self.st = join(stop, a, self.st)
        self.st.vals[BRK] = pre_brk

    def cond_loop(self, cond, body, inc, s):
        pre_brk = self.st.vals.pop(BRK, FALSE)
        snapshot = self.st.copy()
        facts0 = self.facts

        def test():
            return TRUE if cond is None else self.simp(t.tobool(self.ev(cond)))

        def step():
            self.exec(body)
            if CONT in self.st.vals:
                self.st.vals[CONT] = FALSE
            if inc is not None:
                stop = self.simp(t.or_(self.st.flag(RET), self.st.flag(BRK)))
                if stop is FALSE:
                    self.ev(inc, discard=True)
                elif stop is not TRUE:
                    self.branch(stop, lambda: None, lambda: self.ev(inc, discard=True))
        # 1. constant trip count: unroll
        ok = True
        n = 0

        def go(n):
            nonlocal ok
            c = test()
            if c is FALSE:
                return
            if c is not TRUE or n > self.MAX_UNROLL or not ok:
                ok = False
                return
            step()
            stop = self.simp(t.or_(self.st.flag(RET), self.st.flag(BRK)))
            if stop is TRUE:
                return
            if stop is FALSE:
                go(n + 1)
                return
            pre = self.st
            a = pre.copy()
            self.st = pre.copy()
            saved = self.facts
            self.facts = self.add_facts(stop, False)
            for f in (RET, BRK):
                if f in self.st.vals:
                    self.st.vals[f] = FALSE
            go(n + 1)
            self.facts = saved
            if ok:
                self.st = join(stop, a, self.st)
        unk = len(self.unknown)
        c0 = test()
        if c0 is TRUE or c0 is FALSE:
            self.st = snapshot.copy()
            go(0)
            if ok:
                self.st.vals[BRK] = pre_brk
                return
        self.st = snapshot
        self.facts = facts0
        del self.unknown[unk:]
        # 2. symbolic
        self.sym_loop(None, None, None, step, test, snapshot.copy(), s)
        self.st.vals[BRK] = pre_brk

    def box_fresh(self, start):
        """pointers to objects allocated since start become values holding the object's final contents"""
        st = self.st
        hs = []
        for l in st.vals:
            r = root_of(l)
            if r[0] == 'h' and r not in hs and (start is None or (r not in start.vals and r not in start.kids)):
                hs.append(r)
        if not hs:
            return {}
        m = {mk('addr', h, kind='o'): mk('ptrto', st.read(h), kind='o') for h in hs}
        for _ in range(3):
            m2 = {k: t.subst(v, {a: b for a, b in m.items() if a is not k}) for k, v in m.items()}
            if m2 == m:
                break
            m = m2
        for l in list(st.vals):
            if root_of(l)[0] == 'h' and root_of(l) in hs:
                continue
            v = st.vals[l]
            if isinstance(v, t.T):
                v2 = t.subst(v, m)
                if v2 is not v:
                    st.vals[l] = v2
        return m

    def changed(self, pre, post, ks):
        out = []
        for l, v in post.vals.items():
            if l[0][0] == '#':
                continue
            r = root_of(l)
            if r[0] == 'h' and r not in pre.vals and r not in pre.kids:
                continue
            if r[0] in ('v', 'tmp') and r not in pre.vals and r not in pre.kids:
                continue
            if ks is not None and contains_term(l, ks):
                continue
            pv = pre.vals[l] if l in pre.vals else pre.raw(l)
            if pv is not v:
                out.append(l)
        # overwritten parents: locations in pre that vanished are covered by their (written) ancestors
        return out

    def sym_loop(self, dom, ks, bind, body, test, snap, s):
        """summarise a loop; dom/ks given for range loops, else found from the induction variable"""
        pre = self.st
        self.loopdepth += 1
        saved_facts = self.facts
        ev0 = pre.ev
        nunk = len(self.unknown)
        tag = ks if ks is not None else mk('kw', self.loopdepth, kind='i')
        W = []
        phis = {}
        for attempt in range(8):
            del self.unknown[nunk:]
            self.st = pre.copy()
            self.facts = dict(saved_facts)
            for w in W:
                self.st.write(w, self.mkphi(tag, w, pre, phis))
            for f in FLAGS:
                self.st.vals[f] = FALSE
            if bind:
                bind()
            start = self.st.copy()
            c = TRUE
            if test:
                c = test()
                self.facts = self.add_facts(c, True)
            body()
            self.st.vals[CONT] = FALSE
            self.box_fresh(start)
            post = self.st
            ch = [l for l in self.changed(start, post, ks) if l not in W]
            if ks is None:
                pset = [q.a[1] if q.op in ('viter', 'miter') else q for q in phis.values()]
                ch = [l for l in ch if not any(contains_term(l, q) for q in pset)]
                if attempt == 0:
                    loc_ = [l for l in ch if l[0] == 'v' and start.read(l).op in ('num', 'viter', 'miter', 'iterbegin', 'poly', 'sym', 'size')]
                    if loc_:
                        ch = loc_
            # keep only outermost newly changed locations
            ch = [l for l in ch if not any(a in ch for a in ancestors(l))]
            if not ch:
                break
            W = [w for w in W if not any(a in ch for a in ancestors(w))] + ch
        self.loopdepth -= 1
        self.facts = saved_facts
        exitc = t.or_(post.flag(RET), post.flag(BRK))
        has_exit = exitc is not FALSE
        news = {w: post.read(w) for w in W}
        inits = {w: pre.read(w) for w in W}
        ph = {w: phis[w] for w in W}
        sub_map = {}
        # --- induction variable for condition loops
        if dom is None:
            iv = None
            for w in W:
                p = self.phi_num(ph[w])
                if p is None:
                    continue
                nv = self.phi_num(news[w]) if ph[w].op == 'viter' else news[w]
                if nv is None:
                    continue
                d = sub(nv, p)
                if not (t.isnum(d) and abs(d.a[0]) == 1):
                    continue
                # condition p < n (or p != n) with n invariant
                bound = self.bound_of(c, p, d.a[0], list(ph.values()))
                if bound is not None:
                    iv = (w, p, d.a[0], bound)
                    break
            if iv:
                w, p, st_, bound = iv
                i0 = inits[w] if ph[w].op != 'viter' else inits[w].a[1]
                if st_ == 1:
                    dom = mk('dom', 'range', i0, bound)
                else:
                    dom = mk('dom', 'down', i0, bound)
                ks = mk('kidx', dom, self.loopdepth, kind='i')
                sub_map[p] = ks
                fin = bound
                if st_ == 1:
                    pass
            else:
                dom = mk('dom', 'while', self.canon_cond(c, ph, inits, news))
                ks = mk('kidx', dom, self.loopdepth, kind='i')
                iv = None
                has_exit = has_exit
            # map-iterator loops: phi of kind miter
            for w in W:
                if ph[w].op == 'miter':
                    if news[w].op == 'miter' and news[w].a[1].op == 'nextkey' and news[w].a[1].a[0] is ph[w].a[1]:
                        cm = self.st  # container location
                        loc = ph[w].a[0]
                        dom = mk('dom', 'coll', self.shape(pre.read(loc)))
                        ks = mk('kidx', dom, self.loopdepth, kind='i')
                        sub_map[ph[w].a[1]] = ks
                        iv = (w, ph[w].a[1], 1, None)
                        if inits[w].op != 'iterbegin' or c is not t.not_(mk('atend', ph[w].a[1], kind='b')):
                            self.note('loop over part of a map', s)
                            news = {k: mk('unk', 'loop over part of a map', t.digest(v)) for k, v in news.items()}
                            ph[w] = mk('phi', 'part', kind='o')
                            iv = None
                            break
            ivloc = iv[0] if iv else None
        else:
            ivloc = None
            iv = None

        def S(x):
            return t.subst(x, sub_map) if sub_map else x
        news = {w: S(v) for w, v in news.items()}
        exitc = S(exitc)
        final = {}
        pending = [w for w in W if w != ivloc]
        if ivloc is not None:
            if ph[ivloc].op == 'miter':
                final[ivloc] = mk('iterend', ph[ivloc].a[0], kind='o')
            elif ph[ivloc].op == 'viter':
                final[ivloc] = mk('viter', ph[ivloc].a[0], iv[3], kind='o')
            else:
                lo = inits[ivloc]
                n = iv[3]
                if iv[2] == 1:
                    final[ivloc] = n if t.le(lo, n) else t.fn('max', lo, n)
                else:
                    final[ivloc] = mk('downend', lo, n, kind='i')
        # --- closed forms, iterated
        progress = True
        acc = {}
        while progress:
            progress = False
            for w in list(pending):
                p = ph[w]
                nv = news[w]
                if p.op in ('viter', 'miter'):
                    continue
                if nv is p:
                    pending.remove(w)
                    final[w] = inits[w]
                    sm = {p: inits[w]}
                    news = {k: t.subst(v, sm) for k, v in news.items()}
                    exitc = t.subst(exitc, sm)
                    sub_map[p] = inits[w]
                    progress = True
                    continue
                if p.kind in ('i', 's', 'm') and inits[w].op != 'uninit':
                    dl = self.delta(nv, p)
                    if dl is not None and not any(t.occurs(q, dl) for q in ph.values()):
                        inl = add(inits[w], t.mk_sum('psum', dom, ks, dl))
                        sm = {p: inl}
                        pending.remove(w)
                        if has_exit:
                            acc[w] = dl
                            final[w] = None
                        else:
                            final[w] = add(inits[w], t.mk_sum('sum', dom, ks, dl))
                        news = {k: t.subst(v, sm) for k, v in news.items()}
                        exitc = t.subst(exitc, sm)
                        sub_map[p] = inl
                        progress = True
                        continue
        if not has_exit:
            for w in list(pending):
                p, nv = ph[w], news[w]
                others = [q for x, q in ph.items() if x in pending and x != w]
                # matrix block writes
                if nv.op == 'mw' and nv.a[0] is p and not t.occurs(p, nv.a[1]) and not any(t.occurs(q, nv.a[1]) for q in others):
                    pending.remove(w)
                    final[w] = self.loop_writes(dom, ks, inits[w], nv.a[1])
                    continue
                items = split_writes(nv, p)
                if items and not t.occurs(p, items) and not any(t.occurs(q, items) for q in others):
                    pending.remove(w)
                    final[w] = self.loop_writes(dom, ks, inits[w], items)
                    continue
                sp = split_append(nv, p)
                if sp is not None and not t.occurs(p, sp) and not any(t.occurs(q, sp) for q in others):
                    pending.remove(w)
                    final[w] = t.concat(inits[w], t.binder('maps', (dom, None, sp), ks, kind='o'))
                    continue
                sp = split_cat(nv, p)
                if sp is not None and not t.occurs(p, sp) and not any(t.occurs(q, sp) for q in others):
                    pending.remove(w)
                    final[w] = t.cat(inits[w], t.binder('catmap', (dom, None, sp), ks, kind='str'))
                    continue
                # last-write: new does not depend on any phi and guarded: keep generic
        for w in list(pending) + [x for x in final if final[x] is None]:
            final[w] = self.recurrence(w, dom, ks, ph, inits, news, exitc if has_exit else FALSE, acc)
        # --- what an iteration reads of the iterations before it
        left = {}
        for w in ph:
            q = ph[w] if ph[w].op == 'phi' else ph[w].a[1]
            if q not in sub_map and q.op == 'phi' and q.a[0] is tag:
                left[q] = w

        def B(x):
            x = S(x)
            fs = [f for f in t.find(x, lambda y: y.op == 'phi' and y in left)] if left else []
            return t.subst(x, {f: t.binder('precur', (dom, ks, None, self.recur_term(f, ph, inits, news, FALSE, ks, acc)), ks, kind=f.kind, dim=f.dim)
                               for f in fs}) if fs else x
        # --- new state
        st = pre.copy()
        # element writes
        elemlocs = []
        for l, v in post.vals.items():
            if l[0][0] == '#':
                continue
            r = root_of(l)
            if r[0] in ('v', 'tmp') and r not in pre.vals and r not in pre.kids:
                continue
            l2 = subst_loc(l, sub_map)
            if contains_term(l2, ks):
                elemlocs.append((l, l2))
        groups = {}
        for l, l2 in elemlocs:
            # outermost 'at' whose key is exactly ks-dependent
            chain = []
            x, y = l2, l
            while x[0] in ('f', 'at'):
                chain.append((x, y))
                x, y = x[1], y[1]
            chain.reverse()
            for (a, b) in chain:
                if a[0] == 'at' and t.occurs(ks, a[2]):
                    groups.setdefault(a, b)
                    break
        for a, b in groups.items():
            cont = a[1]
            val = S(post.read(b))
            val = B(t.subst(val, {ph[w]: sub_map[ph[w]] for w in ph if ph[w] in sub_map}))
            base = pre.read(cont)
            if a[2] is ks and not has_exit and self.covers(dom, base):
                st.write(cont, t.binder('mapd', (dom, self.shape(base), val, None), ks, kind='o'))
            else:
                st.write(cont, t.binder('mapr', (dom, base, a[2], val, None, exitc if has_exit else FALSE), ks, kind='o'))
        for w in W:
            st.write(w, final[w])
        # events
        i = 0
        while i < len(ev0) and i < len(post.ev) and ev0[i] is post.ev[i]:
            i += 1
        new_ev = post.ev[i:]
        st.ev = ev0
        if new_ev:
            def se(e):
                return Event(e.name, tuple(B(x) for x in e.args), B(e.guard), e.where,
                             tuple(se(y) for y in e.sub) if e.sub is not None else None,
                             B(e.dom) if e.dom is not None else None)
            st.ev = ev0 + (Event('loop', (ks,), TRUE, self.where(s), tuple(se(e) for e in new_ev), dom),)
        if has_exit:
            rexit = B(post.flag(RET))
            if rexit is not FALSE:
                st.vals[RET] = t.or_(st.flag(RET), exists(dom, ks, rexit))
                if RETV in post.vals:
                    rv = B(post.vals[RETV])
                    st.vals[RETV] = t.binder('firstval', (dom, None, rexit, rv), ks, kind=rv.kind, dim=rv.dim)
        self.st = st

    def covers(self, dom, base):
        if dom.a[0] == 'coll':
            return dom.a[1] is self.shape(base)
        if dom.a[0] == 'range':
            return t.isnum(dom.a[1]) and dom.a[1].a[0] == 0 and dom.a[2] is t.vsize(base)
        return False

    def loop_writes(self, dom, ks, init, ws):
        # const-free summary of block writes performed by the loop
        return t.binder('lw', (dom, init, None, ws), ks, kind='m', dim=init.dim)

    def phi_num(self, p):
        if p.op == 'viter':
            return p.a[1]
        if p.kind in ('i',):
            return p
        return None

    def mkphi(self, tag, w, pre, phis):
        v = pre.read(w)
        if w in phis:
            return phis[w]
        dg = t.digest(tuple(w)) + (v.kind or '?') + (t.digest(tuple(v.dim)) if v.dim else '') + ('u' if v.op == 'uninit' else '')
        base = mk('phi', tag, dg, kind=v.kind, dim=v.dim)
        if v.op == 'viter':
            base = mk('viter', v.a[0], mk('phi', tag, dg + 'i', kind='i'), kind='o')
        elif v.op == 'miter' or v.op == 'iterbegin':
            base = mk('miter', v.a[0], mk('phi', tag, dg + 'i', kind='o'), kind='o')
        elif v.op in ('poly', 'num', 'uninit') and base.kind is None:
            base.kind = v.kind
        phis[w] = base
        return base

    def bound_of(self, c, p, step, allphi):
        """c is (p < n) [step 1] / (p >= m) [step -1] / p != n, with n loop-invariant -> bound"""
        def inv_(x):
            nums = [self.phi_num(q) if q.op == 'viter' else q for q in allphi]
            return not any(q is not None and t.occurs(q, x) for q in nums)
        neg_ = False
        x = c
        if x.op == 'not':
            neg_ = True
            x = x.a[0]
        if x.op == 'lt':
            d = x.a[0]
            p1 = sub(d, p)
            if step == 1 and not neg_ and inv_(p1):
                return t.neg(p1)           # p - n < 0
            p2 = add(d, p)
            if step == 1 and neg_ and inv_(p2):
                return add(p2, ONE)          # not(m - p < 0) <=> p <= m  -> bound m+1
            if step == -1 and neg_ and inv_(p1):
                return t.neg(p1)           # not(p - m < 0): p >= m
            if step == -1 and not neg_ and inv_(p2):
                return add(p2, ONE)         # m - p < 0 : p > m -> p >= m+1
        if x.op == 'eq' and neg_ and step == 1:
            d = sub(x.a[0], x.a[1])
            p1 = sub(d, p)
            if inv_(p1):
                return t.neg(p1)
            p2 = add(d, p)
            if inv_(p2):
                return p2
        return None

    def delta(self, nv, p):
        """nv - p with conditionals lifted; None when nv is not p + something"""
        d = sub(nv, p)
        if not t.occurs(p, d):
            return d
        if nv.op == 'ite':
            a = self.delta(nv.a[1], p)
            b = self.delta(nv.a[2], p)
            if a is None or b is None or t.occurs(p, nv.a[0]):
                return None
            if t.isnum(a) and a.a[0] == 0 and p.kind == 'm':
                a = t.scale(b, 0)
            if t.isnum(b) and b.a[0] == 0 and p.kind == 'm':
                b = t.scale(a, 0)
            return ite(nv.a[0], a, b)
        if d.op == 'poly':
            # linear ite atoms containing p
            acc = []
            rest = {}
            for m, c in t.to_poly(nv).items():
                at = t.lin_atom(m)
                if at is not None and at.op == 'ite' and t.occurs(p, at):
                    acc.append((at, c))
                else:
                    rest[m] = c
            if len(acc) == 1 and acc[0][1] == 1:
                a = self.delta(acc[0][0], p)
                r = t.from_poly(rest)
                if a is not None and not t.occurs(p, r):
                    return add(a, r)
        return None

    def canon_cond(self, c, ph, inits, news):
        return self.recur_term(c, ph, inits, news, FALSE, None, {})

    def recurrence(self, w, dom, ks, ph, inits, news, exitc, acc):
        r = self.recur_term(ph[w] if ph[w].op == 'phi' else ph[w].a[1], ph, inits, news, exitc, ks, acc)
        v = inits[w]
        nv = news[w]
        return t.binder('recur', (dom, None, r), ks, kind=v.kind if v.kind is not None else nv.kind, dim=v.dim or nv.dim)

    def recur_term(self, target, ph, inits, news, exitc, ks, acc):
        """alpha-canonical system of recurrences reachable from target"""
        rev = {}
        for w, p in ph.items():
            rev[p if p.op == 'phi' else p.a[1]] = w
        order = []

        def collect(x):
            fs = t.find(x, lambda y: y.op == 'phi' and y in rev)
            masked = sorted(fs, key=lambda f: t.digest(mk('pair', self.mask(inits[rev[f]], rev), self.mask(news[rev[f]], rev))))
            for f in masked:
                if f not in order:
                    order.append(f)
                    collect(news[rev[f]])
        collect(target)
        if exitc is not FALSE:
            collect(exitc)
        inner = t.find(tuple(news[rev[f]] for f in order) + (target, exitc), lambda y: y.op == 'bv')
        lvl = 1 + max([x.a[0] for x in inner], default=0)
        m = {f: mk('bv', lvl, i, kind=f.kind, dim=f.dim) for i, f in enumerate(order)}
        body = tuple((inits[rev[f]], t.subst(news[rev[f]], m)) for f in order)
        return mk('sys', t.subst(target, m), body, t.subst(exitc, m), lvl)

    def mask(self, x, rev):
        hole = mk('hole')
        return t.subst(x, {f: mk('hole', f.kind or '?', kind=f.kind, dim=f.dim) for f in rev})

    # ------------------------------------------------------------------ lvalues
    def lv(self, e):
        """location denoted by e, or None when e is not an lvalue the analyser tracks"""
        k = e['k']
        if k == '#loc':
            return e['loc']
        if k == 'Ref':
            if 'bind' in e and e['id'] in self.find_alias_ids():
                return self.lookup_alias(e['id'])
            a = self.lookup_alias(e['id'])
            if a is not None:
                return a
            if e.get('g'):
                return ('g', e['qn'], kind_of_type(e['t']), tuple(e['dim']) if 'dim' in e else None)
            return self.local_loc(e['id'])
        if k == 'This':
            return None
        if k == 'Mem':
            b = e['b']
            if e['arrow']:
                bl = self.deref(self.ev(b))
            else:
                bl = self.lv(b)
                if bl is None:
                    return None
            return self.member(bl, e['n'], e)
        if k == 'Un' and e['op'] == '*':
            return self.deref(self.ev(e['e']))
        if k == 'Un' and e['op'] in ('++', '--') and not e['post']:
            self.ev(e)
            return self.lv(e['e'])
        if k == 'Asg':
            self.ev(e, discard=True)
            return self.lv(e['l'])
        if k == 'Index':
            bl = self.lv(e['b'])
            i = self.ev(e['i'])
            if bl is not None:
                return ('at', bl, i)
            return None
        if k == 'Cast':
            return self.lv(e['e'])
        if k == 'Call':
            return self.lv_call(e)
        if k == 'Cond':
            c = self.simp(t.tobool(self.ev(e['c'])))
            if c is TRUE:
                return self.lv(e['a'])
            if c is FALSE:
                return self.lv(e['b'])
            return None
        return None

    def find_alias_ids(self):
        f = self.fr
        ids = set()
        while f:
            ids |= set(f.alias)
            f = f.up
        return ids

    def lookup_alias(self, i):
        f = self.fr
        while f:
            if i in f.alias:
                return f.alias[i]
            if ('v', f.fid, i) in self.st.vals or ('v', f.fid, i) in self.st.kids:
                return None
            f = f.up
        return None

    def local_loc(self, i):
        f = self.fr
        while f:
            l = ('v', f.fid, i)
            if l in self.st.vals or l in self.st.kids or f.up is None:
                return l
            f = f.up
        return ('v', self.fr.fid, i)

    def member(self, bl, name, e=None):
        if bl[0] == 'pair':
            if name == 'second':
                return ('at', bl[1], bl[2])
            l = self.tmp()
            self.st.write(l, bl[2])
            return l
        if bl[0] == 'sym':
            pass
        return ('f', bl, name)

    def deref(self, p):
        if p.op == 'addr':
            return p.a[0]
        if p.op in ('miter',):
            return ('pair', p.a[0], p.a[1])
        if p.op == 'iterfind':
            return ('pair', p.a[0], p.a[1])
        if p.op == 'iterbegin':
            return ('pair', p.a[0], mk('firstkey', kind='i'))
        if p.op == 'viter':
            return ('at', p.a[0], p.a[1])
        return ('d', p)

    def read_pair(self, l):
        return t.rec(mk('new', 'pair', kind='o'), {'first': l[2], 'second': self.st.read(('at', l[1], l[2]))})

    def read_any(self, l):
        if l[0] == 'pair':
            return self.read_pair(l)
        if l[0] == 'view':
            return self.read_view(l)
        if l[0] == 'qc':
            return qcomp(self.read_any(l[1]), l[2])
        if l[0] == 'f' and l[1][0] in ('view', 'qc', 'pair'):
            return fld(self.read_any(l[1]), l[2])
        return self.st.read(l)

    # matrix views as lvalues: ('view', baseloc, kind, args)
    def read_view(self, l):
        m = self.read_any(l[1])
        return apply_view(m, l[2], l[3])

    def write_any(self, l, v, n=None):
        if l[0] == 'view':
            m = self.read_any(l[1])
            self.write_any(l[1], set_view(m, l[2], l[3], v), n)
            return
        if l[0] == 'pair':
            self.note('write to pair', n)
            return
        if l[0] == 'vsel':
            # conditional location
            c, a, b = l[1:]
            self.write_any(a, ite(c, v, self.read_any(a)), n)
            self.write_any(b, ite(c, self.read_any(b), v), n)
            return
        if l[0] == 'qc':
            q = self.read_any(l[1])
            self.write_any(l[1], mk('qset', q, l[2], v, kind='q'), n)
            return
        self.st.write(l, v)

    # ------------------------------------------------------------------ rvalues
    def ev(self, e, discard=False):
        if e is None:
            return UNINIT
        if e['k'] == '#loc':
            return self.read_any(e['loc'])
        if e['k'] == '#val':
            return e['v']
        r = getattr(self, 'e_' + e['k'], self.e_unknown)(e)
        if r is None:
            r = UNINIT
        return r

    def e_unknown(self, e):
        self.note('expr ' + str(e.get('c', e['k'])), e)
        return mk('unk', e.get('c', e['k']), *[self.ev(a) for a in e.get('args', [])])

    def e_Other(self, e):
        return self.e_unknown(e)

    def e_Int(self, e):
        return num(int(e['v']), kind='i')

    def e_Float(self, e):
        s = e['s']
        try:
            return num(Fraction(s))
        except (ValueError, ZeroDivisionError):
            return num(Fraction(e['v']))

    def e_Bool(self, e):
        return t.boolean(e['v'])

    def e_Str(self, e):
        return t.string(e['v'])

    def e_Null(self, e):
        return mk('null', kind='o')

    def e_Zero(self, e):
        k = kind_of_type(e['t'])
        if k == 'b':
            return FALSE
        if k in ('i', 's'):
            return ZERO
        return mk('zeroinit', e['t'])

    def e_Enum(self, e):
        return mk('enum', e['qn'], e['v'], kind='e' if e.get('scoped') else 'i')

    def e_This(self, e):
        this = None
        f = self.fr
        while f and this is None:
            this = f.this
            f = f.up
        return mk('addr', this, kind='o')

    def e_FRef(self, e):
        return mk('func', e['f'], e['key'])

    def e_Lambda(self, e):
        caps = {}
        for c in e['caps']:
            if 'id' in c and not c['byref']:
                l = self.lookup_alias(c['id']) or self.local_loc(c['id'])
                caps[c['id']] = self.read_any(l)
        i = len(self.lambdas) + 1
        self.lambdas[i] = (e, self.fr, caps)
        return mk('lambda', i)

    def e_New(self, e):
        l = ('h', self.tmp()[1])
        if e['e'] is not None:
            self.init_loc(l, e['e'], e['t'])
        return mk('addr', l, kind='o')

    def e_Delete(self, e):
        self.ev(e['e'])
        return UNINIT

    def e_Throw(self, e):
        self.emit('throw', (), e)
        return UNINIT

    def e_Ref(self, e):
        l = self.lookup_alias(e['id'])
        if l is not None:
            v = self.read_any(l)
            self.hint(v, e)
            return v
        if e.get('g'):
            return self.global_value(e)
        v = self.st.read(self.local_loc(e['id']))
        self.hint(v, e)
        return v

    def hint(self, v, e):
        if v.kind is None and v.op != 'uninit':
            v.kind = kind_of_type(e.get('t'))
        if v.dim is None and 'dim' in e and v.kind == 'm':
            v.dim = tuple(e['dim'])

    def global_value(self, e):
        qn = e['qn']
        l = ('g', qn, kind_of_type(e['t']), tuple(e['dim']) if 'dim' in e else None)
        if l in self.st.vals or l in self.st.kids:
            return self.st.read(l)
        g = self.p.globals.get(qn)
        if g is not None and g['cst'] and g['init'] is not None:
            if qn not in self.gcache:
                saved, sf, sfacts = self.st, self.frames, self.facts
                self.st, self.facts = State(), {}
                fake = {'key': '<global>', 'qn': qn, 'file': g['file'], 'ln': g['ln'], 'params': []}
                self.frames = []
                self.push(fake)
                loc = ('g', qn)
                self.init_loc(loc, g['init'], g['t'], g.get('dim'))
                v = self.st.read(loc)
                self.st, self.frames, self.facts = saved, sf, sfacts
                self.visited.pop('<global>', None)
                self.gcache[qn] = v
            return self.gcache[qn]
        if e.get('init'):
            if qn.split('::')[-1] not in ('cout', 'cerr'):
                return self.ev(e['init'])
        if qn == 'M_PI':
            pass
        return self.st.read(l)

    def e_Mem(self, e):
        l = self.lv(e)
        if l is not None:
            v = self.read_any(l)
        else:
            v = fld(self.ev(e['b']), e['n'])
        self.hint(v, e)
        return v

    def e_Cast(self, e):
        v = self.ev(e['e'])
        ck = e['ck']
        if ck == 'FloatingToIntegral':
            if t.isnum(v):
                return num(int(v.a[0]), kind='i')
            if v.kind == 'i':
                return v
            return t.fn('trunc', v)
        if ck == 'IntegralToFloating':
            return v
        if ck in ('FloatingToBoolean', 'IntegralToBoolean', 'PointerToBoolean'):
            return t.tobool(v)
        if ck == 'IntegralCast':
            if v.kind == 'b':
                return ite(v, ONE, ZERO)
            if v.op == 'enum':
                return v
            return v
        return v

    def e_Un(self, e):
        op = e['op']
        if op in ('++', '--'):
            l = self.lv(e['e'])
            old = self.read_any(l) if l else self.ev(e['e'])
            new = self.incr(old, 1 if op == '++' else -1)
            if l:
                self.write_any(l, new, e)
            return old if e['post'] else new
        if op == '&':
            l = self.lv(e['e'])
            return mk('addr', l, kind='o') if l is not None else mk('addrof', self.ev(e['e']), kind='o')
        if op == '*':
            l = self.deref(self.ev(e['e']))
            return self.read_any(l)
        v = self.ev(e['e'])
        if op == '-':
            return t.neg(v)
        if op == '+':
            return v
        if op == '!':
            return t.not_(t.tobool(v))
        return t.fn('un' + op, v, kind=v.kind)

    def incr(self, v, d):
        if v.op == 'viter':
            return mk('viter', v.a[0], add(v.a[1], num(d)), kind='o')
        if v.op in ('miter', 'iterbegin'):
            if v.op == 'iterbegin':
                v = mk('miter', v.a[0], mk('firstkey', kind='o'), kind='o')
            return mk('miter', v.a[0], mk('nextkey', v.a[1], kind='o'), kind='o')
        return add(v, num(d))

    def e_Bin(self, e):
        op = e['op']
        if op == '&&' or op == '||':
            a = self.simp(t.tobool(self.ev(e['l'])))
            if op == '&&' and a is FALSE or op == '||' and a is TRUE:
                return a
            # the right operand is evaluated under the left one
            box = []
            if op == '&&':
                self.branch(a, lambda: box.append(t.tobool(self.ev(e['r']))), lambda: None)
                return t.and_(a, box[0])
            self.branch(a, lambda: None, lambda: box.append(t.tobool(self.ev(e['r']))))
            return t.or_(a, box[0])
        if op == ',':
            self.ev(e['l'])
            return self.ev(e['r'])
        a, b = self.ev(e['l']), self.ev(e['r'])
        return self.binop(op, a, b, e)

    def binop(self, op, a, b, e=None):
        fl = e.get('fl') if e else True
        if op in ('==', '!=') or op in ('<', '>', '<=', '>='):
            return self.compare(op, a, b)
        if a.op == 'viter' and op in ('+', '-'):
            if b.op == 'viter':
                return sub(a.a[1], b.a[1])
            return mk('viter', a.a[0], add(a.a[1], b) if op == '+' else sub(a.a[1], b), kind='o')
        if a.kind == 'str' or b.kind == 'str':
            if op == '+':
                return t.cat(strpart(a), strpart(b))
        a, b = num_of_bool(a), num_of_bool(b)
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if not fl and a.kind == 'i' and b.kind == 'i':
                if t.isnum(a) and t.isnum(b) and b.a[0] != 0:
                    q = abs(a.a[0]) // abs(b.a[0])
                    return num(q if (a.a[0] >= 0) == (b.a[0] >= 0) else -q, kind='i')
                return t.fn('idiv', a, b)
            return t.div(a, b)
        if op == '%':
            if t.isnum(a) and t.isnum(b) and b.a[0] > 0:
                return num(a.a[0] % b.a[0], kind='i')
            return t.fn('mod', a, b)
        return t.fn('bin' + op, a, b, kind='i')

    def compare(self, op, a, b):
        a2, b2 = a, b
        if a.op == 'viter' and b.op == 'viter':
            a2, b2 = a.a[1], b.a[1]
        if op == '==':
            return t.eq(a2, b2)
        if op == '!=':
            return t.not_(t.eq(a2, b2))
        a2, b2 = num_of_bool(a2), num_of_bool(b2)
        if a2.op == 'enum':
            a2 = num(a2.a[1])
        if b2.op == 'enum':
            b2 = num(b2.a[1])
        for x in (a2, b2):
            if x.kind == 'e':
                pass
        if op == '<':
            return t.lt(a2, b2)
        if op == '>':
            return t.lt(b2, a2)
        if op == '<=':
            return t.not_(t.lt(b2, a2))
        return t.not_(t.lt(a2, b2))

    def e_Asg(self, e):
        op = e['op']
        if op == '=':
            v = self.ev(e['r'])
            l = self.lv(e['l'])
            if l is None:
                self.note('assign to untracked', e)
                return v
            self.write_any(l, v, e)
            return v
        l = self.lv(e['l'])
        old = self.read_any(l) if l is not None else self.ev(e['l'])
        r = self.ev(e['r'])
        v = self.binop(op[:-1], old, r, e)
        if l is not None:
            self.write_any(l, v, e)
        else:
            self.note('assign to untracked', e)
        return v

    def e_Cond(self, e):
        c = self.simp(t.tobool(self.ev(e['c'])))
        box = {}
        self.branch(c, lambda: box.__setitem__('a', self.ev(e['a'])), lambda: box.__setitem__('b', self.ev(e['b'])))
        if c is TRUE:
            return box['a']
        if c is FALSE:
            return box['b']
        return ite(c, box['a'], box['b'])

    def e_Index(self, e):
        l = self.lv(e)
        if l is not None:
            return self.st.read(l)
        return sel(self.ev(e['b']), self.ev(e['i']))

    def e_List(self, e):
        if e.get('cls') in self.p.records and e.get('fields') is not None:
            l = self.tmp()
            self.init_loc(l, e, e['t'])
            v = self.st.read(l)
            self.st.forget(l)
            return v
        a = [self.ev(x) for x in e['args']]
        k = kind_of_type(e['t'])
        if len(a) == 1 and (k in ('i', 's', 'b', 'str') or e['t'].replace('const ', '').strip() in self.p.enums or e['t'].rstrip().endswith('*')):
            return a[0]
        if k in ('i', 's') and not a:
            return ZERO
        if k == 'b' and not a:
            return FALSE
        return mk('initlist', *a, kind='o')

    # ------------------------------------------------------------------ construction
    def e_Ctor(self, e):
        cls = e['cls']
        if cls in self.p.records or e['key'] in self.p.funcs:
            if e['copy'] and len(e['args']) == 1 and (e.get('impl') or e['key'] not in self.p.funcs):
                return self.ev(e['args'][0])
            l = self.tmp()
            self.construct(l, e)
            v = self.st.read(l)
            self.st.forget(l)
            return v
        return self.lib_ctor(e)

    def construct(self, loc, e):
        key = e['key']
        f = self.p.funcs.get(key)
        if f is None:
            if e['copy'] and len(e['args']) == 1:
                self.st.write(loc, self.ev(e['args'][0]))
                return
            self.default_construct(loc, e['cls'])
            return
        qn = f['qn']
        if qn in self.opaque:
            h = self.opaque[qn]
            args = [self.ev(a) for a in e['args']]
            if h is not None:
                h(self, e, loc, args)
            return
        self.st.write(loc, mk('new', e['cls'], kind='o'))
        self.inline(f, loc, e['args'], e)

    def default_construct(self, loc, cls, write_base=True):
        r = self.p.records.get(cls)
        if write_base:
            self.st.write(loc, mk('new', cls, kind='o'))
        if not r:
            return
        for b in r['bases']:
            self.default_construct(loc, b, False)
        for f in r['fields']:
            fl = ('f', loc, f['name'])
            if f['init'] is not None:
                self.init_loc(fl, f['init'], f['t'], f.get('dim'))
            elif f['t'] in self.p.records:
                ck = [g for g in self.p.by_qn.get(f['t'] + '::' + f['t'].split('::')[-1], []) if not g['params']]
                if ck:
                    self.st.write(fl, mk('new', f['t'], kind='o'))
                    self.inline(ck[0], fl, [], None)
                else:
                    self.default_construct(fl, f['t'])
            else:
                self.st.write(fl, self.default_value(f['t'], f.get('dim')))

    def ctor_inits(self, f, fr):
        done = set()
        for i in f.get('inits', []):
            if 'field' in i:
                fl = ('f', fr.this, i['field'])
                done.add(i['field'])
                if i['e'] is None:
                    continue
                r = None
                self.init_loc(fl, i['e'], i['t'], i['e'].get('dim'))
            elif 'base' in i:
                e = i['e']
                if e is not None and e['k'] == 'Ctor':
                    bf = self.p.funcs.get(e['key'])
                    if bf is None:
                        if e['copy'] and e['args']:
                            src = self.ev(e['args'][0])
                            rb = self.p.records.get(e['cls'])
                            for g in (rb['fields'] if rb else []):
                                self.st.write(('f', fr.this, g['name']), fld(src, g['name']))
                        else:
                            self.default_construct(fr.this, e['cls'], False)
                    elif bf['qn'] in self.opaque:
                        self.opaque[bf['qn']](self, e, None, [self.ev(a) for a in e['args']])
                    else:
                        self.inline(bf, fr.this, e['args'], e)
            elif i.get('deleg'):
                e = i['e']
                bf = self.p.funcs.get(e['key']) if e else None
                if bf:
                    self.inline(bf, fr.this, e['args'], e)
        rec_ = self.p.records.get(f.get('cls'))
        if rec_ and self.st.vals.get(fr.this, UNINIT).op in ('new', 'uninit'):
            for g in rec_['fields']:
                if g['name'] not in done and ('f', fr.this, g['name']) not in self.st.vals and \
                        ('f', fr.this, g['name']) not in self.st.kids:
                    self.st.write(('f', fr.this, g['name']), UNINIT)

    def lib_ctor(self, e):
        cls = e['cls']
        if e['copy'] and len(e['args']) == 1:
            return self.ev(e['args'][0])
        if cls == 'Eigen::Matrix' or cls == 'Eigen::Array':
            args = [self.ev(a) for a in e['args']]
            return self.eig_ctor(e, args)
        if cls == 'Eigen::Quaternion':
            args = [self.ev(a) for a in e['args']]
            if not args:
                return UNINIT
            if len(args) == 4:
                return quat4(args)
            a = args[0]
            if a.kind == 'q':
                return a
            return quatof(a)
        if cls == 'Eigen::AngleAxis':
            args = [self.ev(a) for a in e['args']]
            if len(args) == 2:
                return mk('aa', *args, kind='aa')
            if len(args) == 1:
                return mk('aaof', args[0], kind='aa')
            return UNINIT
        if cls == 'Eigen::Rotation2D' and len(e['args']) == 1:
            a = self.ev(e['args'][0])
            if a.kind == 'm':
                return a
            c, s = t.fn('cos', a), t.fn('sin', a)
            return t.mat(2, 2, [c, t.neg(s), s, c])
        if cls == 'Eigen::Map' and 'dim' in e and 'const' in (e.get('t') or '')[:20]:
            r = self.eig_map(e)
            if r is not None:
                return r
        if cls in ('Eigen::Transform',):
            args = [self.ev(a) for a in e['args']]
            return args[0] if args else mk('new', 'Transform', kind='o')
        if cls in ('std::basic_string', 'std::basic_stringstream', 'std::basic_ostringstream'):
            if not e['args']:
                return t.string('')
            a0 = self.ev(e['args'][0])
            if cls != 'std::basic_string' and a0.kind != 'str':
                return t.string('')
            if a0.kind == 'str' or a0.op in ('str', 'cat'):
                return a0
            return mk('strof', *[self.ev(a) for a in e['args']], kind='str')
        if cls in ('std::vector', 'std::deque', 'std::list', 'std::array'):
            return self.vec_ctor(e)
        if cls in ('std::map', 'std::set', 'std::unordered_map', 'std::unordered_set', 'std::multimap'):
            if not e['args']:
                return mk('emptymap', kind='o')
            a = [self.ev(x) for x in e['args']]
            if a[0].op == 'initlist' and not a[0].a:
                return mk('emptymap', kind='o')
            return mk('ctor', cls, *a, kind='o')
        if cls in ('std::shared_ptr', 'std::unique_ptr', 'cv::Ptr'):
            if not e['args']:
                return mk('null', kind='o')
            return self.ev(e['args'][0])
        if 'iterator' in cls:
            return self.ev(e['args'][0]) if e['args'] else UNINIT
        if cls == 'std::allocator':
            return UNINIT
        if cls in ('YAML::Node', 'cv::_InputArray', 'cv::_InputOutputArray', 'cv::_OutputArray'):
            return self.ev(e['args'][0]) if e['args'] else mk('ctor', cls, kind='o')
        if cls == 'std::pair':
            a = [self.ev(x) for x in e['args']]
            if len(a) == 2:
                return t.rec(mk('new', 'pair', kind='o'), {'first': a[0], 'second': a[1]})
        if cls == 'cv::Mat' and len(e['args']) >= 3:
            a = [self.ev(x) for x in e['args']]
            return cvmat(a[0], a[1], a[2], a[3] if len(a) > 3 else UNINIT)
        if cls == 'std::function' and e['args']:
            return self.ev(e['args'][0])
        a = [self.ev(x) for x in e['args']]
        if cls in ('cv::Point_', 'cv::Point3_', 'cv::Size_') and len(a) in (2, 3):
            names = ('x', 'y', 'z') if cls != 'cv::Size_' else ('width', 'height')
            return t.rec(mk('new', cls, kind='o'), dict(zip(names, a)))
        if cls == 'cv::Vec' and len(a) == 3:
            return mk('ctor', cls, *a, kind='o')
        return mk('ctor', cls, *a, kind='o')

    def vec_ctor(self, e):
        a = [self.ev(x) for x in e['args']]
        if not a:
            return t.EMPTY
        if a[0].op == 'initlist':
            return mk('seq', *a[0].a, kind='o')
        if len(a) >= 2 and a[0].op == 'viter' and a[1].op == 'viter':
            src = self.read_any(a[0].a[0])
            if t.isnum(a[0].a[1]) and a[0].a[1].a[0] == 0 and a[1].a[1] is t.vsize(src):
                return src
            return mk('slice', src, a[0].a[1], a[1].a[1], kind='o')
        if a[0].kind == 'i' or t.isnum(a[0]):
            n = t.as_int(a[0])
            fill = a[1] if len(a) >= 2 and a[1].op != 'uninit' else mk('zeroinit', 'elem')
            if n is not None and n <= self.MAX_UNROLL:
                return mk('seq', *([fill] * n), kind='o')
            return mk('resized', mk('fill', fill), a[0], kind='o')
        return a[0]

    def eig_map(self, e):
        """read-only view of the elements of a container as a vector or a small matrix"""
        p, *size = [self.ev(a) for a in e['args'] if not (a.get('k') == 'DefArg' or 'Stride' in (a.get('t') or ''))]
        if p.op == 'addr':
            p = mk('viter', p.a[0], ZERO, kind='o') if p.a[0][0] != 'at' else mk('viter', p.a[0][1], p.a[0][2], kind='o')
        if p.op != 'viter' or any(x.kind not in ('i', 's') for x in size):
            return None
        loc, i0 = p.a
        r, c = e['dim']
        at = lambda k: self.read_any(('at', loc, t.add(i0, t.num(k) if isinstance(k, int) else k)))
        if r >= 0 and c >= 0 and r * c <= 36:
            rowmajor = r > 1 and c > 1 and 'Matrix<double, %d, %d, 1' % (r, c) in e['t']
            return t.mat(r, c, [at(i * c + j if rowmajor else i + j * r) for i in range(r) for j in range(c)])
        if len(size) == 1 and (c == 1 and r == -1 or r == 1 and c == -1):
            dom = mk('dom', 'range', ZERO, size[0])
            ks = mk('kidx', dom, self.loopdepth, kind='i')
            if c == 1:
                return self.loop_writes(dom, ks, mk('uninitm', size[0], ONE, kind='m'), ((ks, ZERO, ONE, ONE, at(ks), TRUE),))
        return None

    def eig_ctor(self, e, args):
        dim = e.get('dim', [-1, -1])
        if not args:
            return mk('uninitm', self.dimterm(dim[0]), self.dimterm(dim[1]), kind='m')
        if len(args) == 1:
            a = args[0]
            if a.op == 'initlist':
                inner = a.a
                if inner and inner[0].op == 'initlist':
                    rws = [x.a for x in inner]
                    if len(rws) == 1 and dim[1] == 1:
                        return t.mat(len(rws[0]), 1, rws[0])
                    return t.mat(len(rws), len(rws[0]), [y for x in rws for y in x])
                return t.mat(len(inner), 1, inner)
            if a.kind == 'm':
                if a.dim is None and dim[0] >= 0:
                    pass
                return a
            if a.kind == 'i' and (dim[0] == -1 or dim[1] == -1):
                if dim[1] == 1:
                    return mk('uninitm', a, ONE, kind='m')
                return mk('uninitm', a, a, kind='m')
            if a.kind == 'q':
                return t.rot(a)
            if a.kind in ('s', 'i') and dim == [1, 1]:
                return t.mat(1, 1, [a])
            if a.kind == 'aa':
                return t.rot(quatof(a))
            a2 = mk('mconv', a, kind='m', dim=tuple(dim))
            return a if a.kind == 'm' else a2
        if len(args) == 2 and -1 in dim and dim != [2, 1]:
            return mk('uninitm', args[0], args[1], kind='m')
        r = len(args)
        if dim[0] == 1 and dim[1] == r:
            return t.mat(1, r, args)
        return t.mat(r, 1, args)

    # ------------------------------------------------------------------ calls
    def inline(self, f, this, argnodes, n, argvals=None, closure=None):
        """analyse the callee body in place. Returns (value, loc)"""
        if len(self.frames) > 40 or sum(1 for x in self.frames if x.func is f) > 2:
            self.note('recursion ' + f['qn'], n)
            return mk('recursive', f['qn']), None
        binds = []
        vals = argvals
        for i, p in enumerate(f['params']):
            if vals is not None:
                binds.append((p, 'v', vals[i] if i < len(vals) else UNINIT))
                continue
            a = argnodes[i] if i < len(argnodes) else None
            if a is None:
                binds.append((p, 'v', UNINIT))
            elif p['m'] == 'r':
                l = self.lv(a)
                if l is not None:
                    binds.append((p, 'l', l))
                else:
                    binds.append((p, 'v', self.ev(a)))
            elif p['m'] == 'c':
                l = self.lv(a)
                if l is not None and l[0] not in ('view',):
                    binds.append((p, 'l', l))
                elif l is not None:
                    binds.append((p, 'v', self.read_any(l)))
                else:
                    binds.append((p, 'v', self.ev(a)))
            else:
                binds.append((p, 'v', self.ev(a)))
        saved = {k: self.st.vals.pop(k, None) for k in (RET, RETV, BRK, CONT)}
        fr = self.push(f, this, up=closure)
        for p, m, x in binds:
            if m == 'l':
                fr.alias[p['id']] = x
            else:
                self.hint(x, p)
                self.st.write(('v', fr.fid, p['id']), x)
        if f.get('ctor'):
            self.ctor_inits(f, fr)
        self.exec(f['body'])
        rv = self.st.vals.get(RETV, UNINIT)
        rl = None
        if f.get('retref') and fr.rlocs and None not in fr.rlocs and len(set(fr.rlocs)) == 1:
            rl = fr.rlocs[0]
        self.frames.pop()
        for k in (RET, RETV, BRK, CONT):
            self.st.vals.pop(k, None)
            if saved[k] is not None:
                self.st.vals[k] = saved[k]
        for l in [l for l in list(self.st.vals) + list(self.st.kids) if l[0] == 'v' and l[1] == fr.fid]:
            if rl is not None and root_of(rl) == l:
                continue
            if not any(x is not None and self.loc_in(x, l) for x in [rl]):
                self.st.forget(l)
        return rv, rl

    def loc_in(self, x, root):
        return root_of(x) == root

    def call_lambda(self, lam, argnodes=None, argvals=None, n=None):
        e, fr, caps = self.lambdas[lam.a[0]]
        f = {'key': e['key'], 'qn': fr.func['qn'] + '::lambda', 'file': fr.func['file'], 'ln': e.get('ln'), 'params': e['params'],
             'body': e['body'], 'name': 'lambda'}
        if caps:
            up = Frame(fr.fid, fr.func, fr.this, fr.up)
            up.alias = dict(fr.alias)
            for i, v in caps.items():
                l = self.tmp()
                self.st.write(l, v)
                up.alias[i] = l
        else:
            up = fr
        rv, rl = self.inline(f, None, argnodes or [], n, argvals, closure=up)
        return rv

    def e_Call(self, e):
        v, l = self.call(e)
        if v is None and l is not None:
            v = self.read_any(l)
        if v is None:
            v = UNINIT
        self.hint(v, e)
        return v

    def lv_call(self, e):
        v, l = self.call(e, want_lv=True)
        if l is None and v is not None:
            if e.get('lvr') and not e.get('const') and e.get('f') and e.get('obj') and v.op == 'fn' and e['key'] not in self.p.funcs:
                # reference into an unmodelled library object: writes are recorded in the object
                return ('view', self.objloc(e), 'lib', (v,))
            # keep the value in a temporary so that it is evaluated once
            k = kind_of_type(e.get('t'))
            self.hint(v, e)
            l = self.tmp()
            self.st.write(l, v)
        return l

    def call(self, e, want_lv=False):
        """returns (value or None, loc or None)"""
        qn = e.get('f')
        if qn is None:
            fe = e.get('fe')
            v = self.ev(fe) if fe else UNINIT
            if v.op == 'lambda':
                return self.call_lambda(v, e['args'], n=e), None
            args = [self.ev(a) for a in e['args']]
            self.note('indirect call', e)
            return mk('icall', v, *args), None
        name = qn.split('::')[-1]
        if qn in self.intr:
            return self.intr[qn](self, e)
        f = self.p.funcs.get(e['key'])
        if f is not None or qn in self.opaque or qn in self.event_calls:
            return self.repo_call(e, f, qn)
        if e.get('virt') and qn in self.p.by_qn or (e.get('virt') and self.is_repo_method(qn)):
            return self.virtual_call(e, qn)
        from libmodel import lib_call
        return lib_call(self, e, qn, name)

    def is_repo_method(self, qn):
        cls = qn.rsplit('::', 1)[0]
        return cls in self.p.records

    def objloc(self, e):
        o = e.get('obj')
        if o is None:
            return None
        if e.get('arrow'):
            return self.deref(self.ev(o))
        l = self.lv(o)
        if l is None:
            l = self.tmp()
            self.st.write(l, self.ev(o))
        return l

    def repo_call(self, e, f, qn):
        this = None
        argnodes = e['args']
        if 'obj' in e:
            this = self.objloc(e)
        elif e.get('memop'):
            this = self.lv(argnodes[0])
            if this is None:
                this = self.tmp()
                self.st.write(this, self.ev(argnodes[0]))
            argnodes = argnodes[1:]
        if qn in self.opaque:
            h = self.opaque[qn]
            args = [self.ev(a) for a in argnodes]
            if h is None:
                return UNINIT, None
            r = h(self, e, this, args)
            return (r if r is not None else UNINIT), None
        if qn in self.event_calls:
            args = [self.ev(a) for a in argnodes]
            self.emit(qn, ((self.read_any(this),) if this is not None and this[0] in ('d', 'sym', 'o') else ()) + tuple(args), e)
            k = kind_of_type(e.get('t'))
            return mk('fn', qn, *args, kind=k, dim=tuple(e['dim']) if 'dim' in e else None), None
        if e.get('virt') and not e.get('nonvirt'):
            g = self.resolve_virtual(e, f, this)
            if g is not None:
                f = g
        return self.inline(f, this, argnodes, e)

    def resolve_virtual(self, e, f, this):
        return f

    def virtual_call(self, e, qn):
        this = self.objloc(e) if 'obj' in e else None
        args = [self.ev(a) for a in e['args']]
        k = kind_of_type(e.get('t'))
        obj = self.read_obj(this)
        if e.get('const') or True:
            self.st.ev = self.st.ev + (Event('virt:' + qn, (obj,) + tuple(args), TRUE, self.where(e)),)
        return mk('fn', qn, obj, *args, kind=k, dim=tuple(e['dim']) if 'dim' in e else None), None

    def read_obj(self, this):
        if this is None:
            return UNINIT
        if this[0] == 'd':
            return mk('deref', this[1], kind='o')
        if this[0] in ('o', 'sym'):
            return self.st.init_term(this)
        return self.read_any(this)


def ancestors(l):
    out = []
    while l[0] in ('f', 'at'):
        l = l[1]
        out.append(l)
    return out


def subst_loc(l, m):
    if not m:
        return l
    if isinstance(l, tuple):
        return tuple(subst_loc(x, m) for x in l)
    if isinstance(l, T):
        return t.subst(l, m)
    return l


def split_writes(nv, p):
    """nv = p with block writes (possibly made by inner loops) -> tuple of write items, else None"""
    if nv is p:
        return ()
    if nv.op == 'mw':
        x = split_writes(nv.a[0], p)
        return None if x is None else x + nv.a[1]
    if nv.op == 'lw':
        x = split_writes(nv.a[1], p)
        return None if x is None else x + ((mk('wl', nv.a[0], nv.a[2], nv.a[3]), TRUE),)
    if nv.op == 'ite' and nv.kind == 'm' and not t.occurs(p, nv.a[0]):
        a, b = split_writes(nv.a[1], p), split_writes(nv.a[2], p)
        if a is None or b is None:
            return None
        c = nv.a[0]
        return tuple(x[:-1] + (t.and_(x[-1], c),) for x in a) + tuple(x[:-1] + (t.and_(x[-1], t.not_(c)),) for x in b)
    return None


def split_append(nv, p):
    """nv = p ++ X  -> X (a seq term), else None"""
    if nv is p:
        return t.EMPTY
    if nv.op == 'append':
        x = split_append(nv.a[0], p)
        if x is None:
            return None
        return t.concat(x, mk('seq', nv.a[1], kind='o'))
    if nv.op == 'concat' and nv.a[0] is p:
        return t.concat(*nv.a[1:])
    if nv.op == 'ite':
        a, b = split_append(nv.a[1], p), split_append(nv.a[2], p)
        if a is None or b is None or t.occurs(p, nv.a[0]):
            return None
        return ite(nv.a[0], a, b)
    return None


def split_cat(nv, p):
    if p.kind != 'str' and nv.kind != 'str':
        return None
    if nv is p:
        return t.string('')
    if nv.op == 'cat' and nv.a[0] is p:
        return t.cat(*nv.a[1:])
    if nv.op == 'ite':
        a, b = split_cat(nv.a[1], p), split_cat(nv.a[2], p)
        if a is None or b is None or t.occurs(p, nv.a[0]):
            return None
        return ite(nv.a[0], a, b)
    return None


def num_of_bool(x):
    if x.kind == 'b':
        if x is TRUE:
            return ONE
        if x is FALSE:
            return ZERO
        return ite_num(x)
    return x


def ite_num(x):
    return t.mk('ite', x, ONE, ZERO, kind='i') if x.op != 'not' else t.mk('ite', x.a[0], ZERO, ONE, kind='i')


def strpart(v):
    if v.kind == 'str' or v.op in ('str', 'cat'):
        return v
    if v.op == 'ite' and v.kind == 'str':
        return v
    return mk('fmt', v, kind='str')


def quat4(a):
    w = [t.as_int(x) for x in a]
    if w == [1, 0, 0, 0]:
        return t.QID
    # quaternion rebuilt from its own components
    if all(x.op == 'qc' for x in a) and len({x.a[0] for x in a}) == 1 and [x.a[1] for x in a] == ['w', 'x', 'y', 'z']:
        return a[0].a[0]
    return mk('quat', *a, kind='q')


def exists(dom, ks, c):
    if c is FALSE:
        return FALSE
    return t.binder('exists', (dom, None, c), ks, kind='b')


def qcomp(q, c):
    if q.op == 'quat':
        return q.a['wxyz'.index(c)]
    if q.op == 'qident':
        return ONE if c == 'w' else ZERO
    if q.op == 'ite':
        return ite(q.a[0], qcomp(q.a[1], c), qcomp(q.a[2], c))
    if q.op == 'qset':
        return q.a[2] if q.a[1] == c else qcomp(q.a[0], c)
    if q.op == 'qinv':
        v = qcomp(q.a[0], c)
        return v if c == 'w' else t.neg(v)
    return mk('qc', q, c, kind='s')


def quatof(a):
    if a.kind == 'q':
        return a
    if a.op == 'R':
        return a.a[0]
    if a.op == 'aaof':
        return quatof(a.a[0]) if a.a[0].kind != 'q' else a.a[0]
    if a.op == 'aa':
        # angle-axis of a rotation vector: |v|, v/|v|
        ang, ax = a.a
        n = t.find(ang, lambda x: x.op == 'fn' and x.a[0] == 'norm')
        if ang.op == 'fn' and ang.a[0] == 'norm' and t.mul(ax, ang) is ang.a[1]:
            return t.rv2q(ang.a[1])
        return mk('quatof', a, kind='q')
    if a.op == 'ite':
        return ite(a.a[0], quatof(a.a[1]), quatof(a.a[2]))
    return mk('quatof', a, kind='q')


def cvmat(r, c, ty, fill):
    if fill.op == 'ctor' and fill.a[0] == 'cv::Scalar_' and len(fill.a) == 2:
        fill = fill.a[1]
    return mk('fn', 'cv::Mat', r, c, ty, fill, kind='m', dim=(r, c))


def apply_view(m, kind, a):
    if kind == 'blk':
        return t.blk(m, *a)
    if kind == 'elem':
        return t.elem(m, *a)
    if kind == 'diag':
        return t.diagv(m)
    if kind == 'tr':
        return t.transpose(m)
    if kind == 'fld':
        return fld(m, a[0])
    if kind == 'lib':
        return a[0]
    raise Broken('view ' + kind)


def set_view(m, kind, a, v):
    if kind == 'blk':
        if not fits(a[2], a[3], v):
            return mk('fn', 'assigned a block of another size', m, *a, v, kind='m', dim=m.dim)
        return t.setblk(m, a[0], a[1], a[2], a[3], v)
    if kind == 'elem':
        return t.setblk(m, a[0], a[1], ONE, ONE, v)
    if kind == 'diag':
        old = t.diagv(m)
        # m with its diagonal replaced: m + diag(v - old)
        return add(m, mk_asdiag(sub(v, old)))
    if kind == 'tr':
        return t.transpose(v)
    if kind == 'fld':
        return t.rec(m, {a[0]: v})
    if kind == 'lib':
        return mk('fn', 'libset', m, a[0], v, kind=m.kind, dim=m.dim)
    raise Broken('view ' + kind)


def fits(h, w, v):
    """False when the value certainly does not have the size of the block it is assigned to"""
    d = t.dims(v) if v.kind == 'm' else None
    if d is None or not all(isinstance(x, T) for x in (h, w) + tuple(d)):
        return True

    def ok(x, y):
        if x is y:
            return True
        ax, ay = (set(t.find(z, lambda q: q.op not in ('poly', 'num'))) for z in (x, y))
        return ax != ay
    if ok(h, d[0]) and ok(w, d[1]):
        return True
    return (h is ONE or w is ONE) and (d[0] is ONE or d[1] is ONE) and ok(h, d[1]) and ok(w, d[0])


def mk_asdiag(v):
    if v.op == 'zero':
        return t.zero(v.a[0], v.a[0])
    p = t.to_poly(v)
    acc = []
    for (s, nc), c in p.items():
        co = t.from_poly({(s, ()): c})
        base = t.from_poly({((), nc): Fraction(1)})
        acc.append(mul(co, mk('asdiag', base, kind='m')))
    return add(*acc) if acc else t.zero(t.rows(v), t.rows(v))


DEFAULT_INTR = {}


def _intr1(f):
    def g(I, e):
        return f(*[I.ev(a) for a in e['args']]), None
    return g


DEFAULT_INTR['SkewSymmetric'] = _intr1(t.skew)
DEFAULT_INTR['RotVecToQuat'] = _intr1(t.rv2q)
DEFAULT_INTR['QuatToRotVec'] = _intr1(t.q2rv)
