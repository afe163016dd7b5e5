"""Models of the library operations the repository uses (Eigen, the standard library, YAML); everything else is an
uninterpreted function of its arguments whose non-const reference arguments receive fresh uninterpreted results."""
import terms as t
from terms import T, mk, num, ite, TRUE, FALSE, ZERO, ONE, UNINIT, fld, sel, add, sub, mul
from prog import kind_of_type
import interp as ip

SCALAR = {'sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'acos': 'acos', 'asin': 'asin', 'atan': 'atan', 'atan2': 'atan2',
          'fabs': 'abs', 'abs': 'abs', 'log': 'log', 'exp': 'exp', 'floor': 'floor', 'ceil': 'ceil', 'round': 'round', 'pow': 'pow',
          'hypot': 'hypot', 'fmod': 'fmod', 'sinh': 'sinh', 'cosh': 'cosh', 'cbrt': 'cbrt', 'isnan': 'isnan', 'isinf': 'isinf',
          'isfinite': 'isfinite', 'lround': 'round', 'trunc': 'trunc', 'fmax': 'max', 'fmin': 'min'}


def base_cls(qn):
    c = qn.rsplit('::', 1)[0] if '::' in qn else ''
    i = c.find('<')
    return c[:i] if i >= 0 else c


def lib_call(I, e, qn, name):
    cls = qn[:qn.find('<')] if '<' in qn else qn.rsplit('::', 1)[0] if '::' in qn else ''
    if 'operator' in qn:
        i = qn.rfind('::operator')
        if i >= 0:
            c = qn[:i]
            cls = c[:c.find('<')] if '<' in c else c
            name = qn[i + 2:]
    else:
        c = qn.rsplit('::', 1)[0] if '::' in qn else ''
        cls = c[:c.find('<')] if '<' in c else c
    args = e['args']
    if e.get('op') == '()' and args and 'anonymous class' in qn:
        v = I.ev(args[0])
        if v.op == 'lambda':
            return I.call_lambda(v, args[1:], n=e), None
        I.note('call of a lambda kept in a variable', e)
        return mk('icall', v, *[I.ev(a) for a in args[1:]]), None
    if qn.startswith('Eigen::'):
        return eigen(I, e, cls, name, args)
    h = CLS.get(cls)
    if h is not None:
        r = h(I, e, cls, name, args)
        if r is not None:
            return r
    if qn.startswith('std::') or qn.startswith('__gnu_cxx::'):
        r = stdlib(I, e, cls, name, args)
        if r is not None:
            return r
    if name in SCALAR and cls in ('', 'std'):
        a = [ip.num_of_bool(I.ev(x)) for x in args]
        if name in ('isnan', 'isinf', 'isfinite'):
            return mk('fn', name, *a, kind='b'), None
        return liftn(lambda *b: t.fn(SCALAR[name], *b), a), None
    if name == 'modf' and len(args) == 2:
        x, p = I.ev(args[0]), I.ev(args[1])
        w = t.fn('trunc', x)
        if p.op == 'addr':
            I.write_any(p.a[0], w, e)
            return t.sub(x, w), None
        I.note('modf', e)
    if name == '__assert_fail':
        return UNINIT, None
    if name.startswith('operator') and 'op' in e and e.get('memop') and e['op'] == '=':
        return assign(I, e)
    return generic(I, e, qn, name, args)


def liftn(f, a):
    for i, x in enumerate(a):
        if x.op == 'ite':
            return ite(x.a[0], liftn(f, a[:i] + [x.a[1]] + a[i + 1:]), liftn(f, a[:i] + [x.a[2]] + a[i + 1:]))
    return f(*a)


def assign(I, e):
    """implicit copy/move assignment"""
    args = e['args']
    v = I.ev(args[1])
    l = I.lv(args[0])
    if l is None:
        I.note('assign to untracked', e)
        return v, None
    k = kind_of_type(args[0].get('t'))
    if k == 'q' and v.kind != 'q':
        v = ip.quatof(v)
    if k == 'm' and v.kind == 'q':
        v = t.rot(v)
    if k == 'm' and args[0].get('dim'):
        v = coerce(v, args[0])
    if v.op == 'initlist':
        v = list_value(args[0].get('t', ''), v)
    I.write_any(l, v, e)
    return None, l


def coerce(v, node):
    if v.kind is None:
        v.kind = 'm'
    if v.kind == 'm' and v.dim is None and 'dim' in node and v.op in ('fld', 'sel', 'sym', 'fn', 'out'):
        v.dim = tuple(node['dim'])
    return v


def list_value(ty, v):
    if ty.startswith('std::vector'):
        return mk('seq', *v.a, kind='o')
    if ty.startswith('std::map') and not v.a:
        return mk('emptymap', kind='o')
    return v


def generic(I, e, qn, name, args):
    """unmodelled library call: uninterpreted function; writable reference arguments become outputs"""
    pm = e.get('pm', [])
    vals = []
    locs = []
    off = 1 if e.get('memop') else 0
    obj = None
    if 'obj' in e:
        obj = I.objloc(e)
        vals.append(I.read_any(obj) if obj[0] != 'd' else I.read_any(obj))
    for i, a in enumerate(args):
        j = i - off
        m = pm[j] if 0 <= j < len(pm) else ('r' if j < 0 and not e.get('const') else 'c')
        inner = a
        while inner['k'] in ('Ctor', 'Cast') and (inner.get('args') or inner.get('e')) and inner.get('cls', '').startswith('cv::_'):
            m = 'r' if 'Output' in inner['cls'] else 'c'
            inner = inner['args'][0] if inner['k'] == 'Ctor' else inner['e']
        if m == 'r' and writable(inner):
            l = I.lv(inner)
            if l is not None:
                locs.append((i, l))
                vals.append(I.read_any(l))
                continue
        v = I.ev(a)
        if m in 'pP' and v.op == 'addr' and v.a[0][0] != 'h':
            # pointer to a local object or member: passed by its contents
            if m == 'P':
                locs.append((i, v.a[0]))
            v = I.read_any(v.a[0])
        vals.append(v)
    vals = [snapshot(I, v) for v in vals]
    k = kind_of_type(e.get('t'))
    r = mk('fn', qn_short(qn), *vals, kind=k if k != 'o' or e.get('t') not in (None, 'void') else k,
           dim=tuple(e['dim']) if 'dim' in e else None)
    for i, l in locs:
        old = I.read_any(l)
        I.write_any(l, mk('out', r, i, kind=old.kind, dim=old.dim), e)
    if obj is not None and not e.get('const') and not e.get('static') and obj[0] != 'd':
        if name not in PURE:
            old = I.read_any(obj)
            I.write_any(obj, mk('out', r, 'this', kind=old.kind, dim=old.dim), e)
    if e.get('t') == 'void' or I.track_lib:
        I.st.ev = I.st.ev + (ip.Event('lib:' + qn_short(qn), tuple(vals), TRUE, I.where(e)),)
    return r, None


PURE = {'begin', 'end', 'size', 'empty', 'rows', 'cols', 'data'}


def writable(n):
    return n['k'] in ('Ref', 'Mem', 'Index', 'Call', 'Un', 'Cast')


def qn_short(qn):
    out, d = [], 0
    for i, ch in enumerate(qn):
        if ch == '<' and not qn[:i].endswith('operator') and not qn[:i].endswith('operator<'):
            d += 1
        elif ch == '>' and d > 0:
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out)


def snapshot(I, v, depth=4):
    """pointers to freshly built heap objects -> values of the objects"""
    if v.kind == 'o' and depth and v.op not in ('addr', 'ite', 'sym'):
        hs = t.find(v, lambda y: y.op == 'addr' and y.a[0][0] == 'h')
        if hs:
            return t.subst(v, {h: snapshot(I, h, depth - 1) for h in set(hs)})
        return v
    if v.op == 'addr' and v.a[0][0] == 'h':
        return mk('ptrto', snapshot(I, I.read_any(v.a[0]), depth - 1) if depth else I.read_any(v.a[0]), kind='o')
    if v.op == 'ite' and v.kind == 'o':
        return ite(v.a[0], snapshot(I, v.a[1]), snapshot(I, v.a[2]))
    return v


# ------------------------------------------------------------------ Eigen
def cn(I, e, i, args, fallback=None):
    """i-th template size or call argument"""
    return None


def eigen(I, e, cls, name, args):
    op = e.get('op')
    if op and 'opcall' in e or (op and name.startswith('operator')):
        r = eigen_op(I, e, cls, op, args)
        if r is not None:
            return r
    if e.get('static'):
        r = eigen_static(I, e, name, args)
        if r is not None:
            return r
    if 'obj' in e:
        r = eigen_method(I, e, cls, name, args)
        if r is not None:
            return r
    return generic(I, e, e['f'], name, args)


def is_array(n):
    while n.get('k') == 'Cast' and 'arr' not in n:
        n = n['e']
    if n.get('arr'):
        return True
    ty = n.get('t') or ''
    return ty.startswith('Eigen::Array') or ty.startswith('const Eigen::Array') or 'ArrayWrapper' in ty[:60] or 'Array<' in ty[:120] and \
        ty.startswith(('Eigen::CwiseBinaryOp', 'const Eigen::CwiseBinaryOp', 'Eigen::Block<Eigen::Array'))


def eigen_op(I, e, cls, op, args):
    if op in ('()', '[]'):
        if cls == 'Eigen::Spline':
            return generic(I, e, e['f'], 'operator()', args)
        l = I.lv(args[0])
        idx = [I.ev(a) for a in args[1:]]
        if l is None:
            l = I.tmp()
            I.st.write(l, I.ev(args[0]))
        if len(idx) == 1:
            d = args[0].get('dim')
            m = I.read_any(l)
            if d is None:
                cd = t.const_dims(m)
                d = list(cd) if cd else None
            if d and d[0] == 1 and d[1] != 1:
                return None, ('view', l, 'elem', (ZERO, idx[0]))
            return None, ('view', l, 'elem', (idx[0], ZERO))
        return None, ('view', l, 'elem', tuple(idx))
    if op == '=':
        return assign(I, e)
    if op in ('+=', '-=', '*=', '/='):
        l = I.lv(args[0])
        old = I.read_any(l)
        r = I.ev(args[1])
        v = arith(op[0], old, r, is_array(args[0]))
        I.write_any(l, v, e)
        return None, l
    if op in ('+', '-', '*', '/'):
        if len(args) == 1:
            return t.neg(I.ev(args[0])) if op == '-' else I.ev(args[0]), None
        a, b = I.ev(args[0]), I.ev(args[1])
        fixk(a, args[0])
        fixk(b, args[1])
        arr = is_array(args[0]) and is_array(args[1])
        return arith(op, a, b, arr), None
    if op == '<<':
        t0 = args[0].get('t', '')
        if kind_of_type(t0) == 'm' or 'Eigen' in t0:
            l = I.lv(args[0])
            if l is None:
                return None
            c = I.tmp()
            I.comma[c] = [l, []]
            comma_add(I, c, I.ev(args[1]), args[1], args[0])
            return None, c
        return stream_out(I, e, args)
    if op == ',':
        l = I.lv(args[0])
        if l in I.comma:
            comma_add(I, l, I.ev(args[1]), args[1], None)
            return None, l
        return None
    if op in ('==', '!='):
        a, b = I.ev(args[0]), I.ev(args[1])
        r = t.eq(a, b)
        return (r if op == '==' else t.not_(r)), None
    return None


def fixk(v, n):
    if v.kind is None and v.op != 'uninit':
        v.kind = kind_of_type(n.get('t'))
    if v.kind == 'm' and v.dim is None and 'dim' in n and v.op in ('sym', 'fld', 'sel', 'fn'):
        v.dim = tuple(n['dim'])


def arith(op, a, b, arr=False):
    a, b = ip.num_of_bool(a), ip.num_of_bool(b)
    for x in (a, b):
        if x.kind == 'aa':
            if a.kind == 'aa':
                a = ip.quatof(a)
            if b.kind == 'aa':
                b = ip.quatof(b)
    if arr and op in '*/' and (a.kind == 'm') != (b.kind == 'm') and not (op == '*' or a.kind == 'm'):
        return t.cwise('quot', a, b)
    if op == '+':
        return bcast(add, a, b) if arr else add(a, b)
    if op == '-':
        return bcast(sub, a, b) if arr else sub(a, b)
    if op == '/':
        if arr and b.kind == 'm':
            return t.cwise('quot', a, b)
        return t.div(a, b)
    if a.kind == 'o' and (a.op == 'tf' or b.kind == 'o'):
        return mk('tfmul', a, b, kind=b.kind, dim=b.dim)
    if arr and a.kind == 'm' and b.kind == 'm':
        return t.cwise_prod(a, b)
    # outer/inner products with vectors: (n x 1)*(1 x n) are ordinary matrix products
    return mul(a, b)


def bcast(f, a, b):
    if a.kind == 'm' and b.kind in ('i', 's'):
        b = mk('fillm', b, t.rows(a), t.cols(a), kind='m')
    elif b.kind == 'm' and a.kind in ('i', 's'):
        a = mk('fillm', a, t.rows(b), t.cols(b), kind='m')
    return f(a, b)


def comma_add(I, c, v, node, target):
    """comma initialiser: elements / blocks placed row-major"""
    st = I.comma[c]
    l, items = st
    items.append(v)
    m = I.read_any(l)
    d = t.dims(m)
    # position
    R, C = d if d else (None, None)
    # replay placement
    r, col, rowh = ZERO, ZERO, None
    for i, x in enumerate(items):
        if t.isscalar(x) or x.kind != 'm':
            h, w = ONE, ONE
        else:
            h, w = t.dims(x)
        if i > 0 and C is not None and t.sub(col, C) is ZERO:
            r = add(r, rowh)
            col = ZERO
        if i == len(items) - 1:
            if h is ONE and w is ONE and (t.isscalar(x) or x.kind != 'm'):
                I.write_any(('view', l, 'elem', (r, col)), x)
            else:
                I.write_any(('view', l, 'blk', (r, col, h, w)), x)
        col = add(col, w)
        rowh = h


def dimargs(I, e, args):
    """(rows, cols) requested by a nullary factory"""
    dim = e.get('dim') or [-1, -1]
    if not args:
        return num(dim[0]), num(dim[1])
    a = [I.ev(x) for x in args]
    if len(a) == 1:
        if dim[0] == 1:
            return ONE, a[0]
        return a[0], (num(dim[1]) if dim[1] >= 0 else ONE)
    return a[0], a[1]


def eigen_static(I, e, name, args):
    if name in ('Zero', 'Identity', 'Ones', 'Random'):
        ty = e.get('t', '')
        if name == 'Identity' and kind_of_type(ty) == 'q':
            return t.QID, None
        if name == 'Identity' and 'Transform' in ty[:40]:
            return t.rec(mk('tf', kind='o'), {'linear': t.ident(3), 'translation': t.zero(3, 1)}), None
        r, c = dimargs(I, e, args)
        if name == 'Zero':
            return t.zero(r, c), None
        if name == 'Identity':
            return t.ident(r, c), None
        if name == 'Ones':
            return fill(ONE, r, c), None
        return mk('random', I.tmp()[1], kind='m'), None
    if name == 'Constant':
        v = I.ev(args[-1])
        r, c = dimargs(I, e, args[:-1])
        return fill(v, r, c), None
    if name in ('UnitX', 'UnitY', 'UnitZ', 'UnitW'):
        n = (e.get('dim') or [3, 1])[0]
        i = 'XYZW'.index(name[-1])
        return t.mat(n, 1, [ONE if j == i else ZERO for j in range(n)]), None
    if name == 'LinSpaced':
        a = [I.ev(x) for x in args]
        return mk('fn', 'LinSpaced', *a, kind='m'), None
    return None


def fill(v, r, c):
    R, C = t.as_int(r), t.as_int(c)
    if t.isnum(v) and v.a[0] == 0:
        return t.zero(r, c)
    if R is not None and C is not None and R * C <= 36:
        return mk('mat', R, C, (v,) * (R * C), kind='m')
    return mk('fillm', v, r, c, kind='m')


def eigen_method(I, e, cls, name, args):
    o = I.objloc(e)
    ta = [x for x in e.get('targs', []) if isinstance(x, int)]
    if cls == 'Eigen::Rotation2D' and o is not None and name in ('toRotationMatrix', 'matrix', 'inverse'):
        v = I.read_any(o)
        if v.kind == 'm':
            return (t.transpose(v) if name == 'inverse' else v), None

    def A():
        return [I.ev(x) for x in args]

    def O():
        v = I.read_any(o)
        if v.kind is None and v.op != 'uninit':
            v.kind = kind_of_type(e.get('objt'))
            if v.kind == 'o':
                v.kind = 'm' if 'Base<' in (e.get('objt') or '') and 'Quaternion' not in e.get('objt') and 'Rotation' not in e.get('objt') else 'o'
        return v

    def view(r, c, h, w):
        return None, ('view', o, 'blk', (t.tonum(r), t.tonum(c), t.tonum(h), t.tonum(w)))
    ot = e.get('objt') or ''
    isq = 'Quaternion' in ot[:60] or 'Quaternion' in cls
    if 'Transform' in cls:
        if name in ('linear', 'rotation'):
            return None, ('f', o, 'linear')
        if name == 'translation':
            return None, ('f', o, 'translation')
        if name in ('inverse', 'matrix'):
            return mk('fn', 'tf.' + name, O(), kind='o'), None
    if name == 'block':
        a = A()
        if ta:
            if len(a) == 2:
                return view(a[0], a[1], ta[0], ta[1])
            return view(a[0], a[1], a[2], a[3])
        return view(*a)
    m = None
    if name in ('segment', 'head', 'tail', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols', 'row', 'col',
                'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
        m = O()
        R, C = t.rows(m), t.cols(m)
        a = A()
        rowvec = t.as_int(R) == 1 and t.as_int(C) != 1
        if name == 'segment':
            n = num(ta[0]) if ta else a[1]
            return view(0, a[0], 1, n) if rowvec else view(a[0], 0, n, 1)
        if name == 'head':
            n = num(ta[0]) if ta else a[0]
            return view(0, 0, 1, n) if rowvec else view(0, 0, n, 1)
        if name == 'tail':
            n = num(ta[0]) if ta else a[0]
            return view(0, sub(C, n), 1, n) if rowvec else view(sub(R, n), 0, n, 1)
        n = num(ta[0]) if ta else (a[0] if a else None)
        if name == 'topRows':
            return view(0, 0, n, C)
        if name == 'bottomRows':
            return view(sub(R, n), 0, n, C)
        if name == 'leftCols':
            return view(0, 0, R, n)
        if name == 'rightCols':
            return view(0, sub(C, n), R, n)
        if name == 'middleRows':
            return view(a[0], 0, num(ta[0]) if ta else a[1], C)
        if name == 'middleCols':
            return view(0, a[0], R, num(ta[0]) if ta else a[1])
        if name == 'row':
            return view(a[0], 0, 1, C)
        if name == 'col':
            return view(0, a[0], R, 1)
        h, w = (num(ta[0]), num(ta[1])) if len(ta) >= 2 else (a[0], a[1])
        r0 = 0 if name.startswith('top') else sub(R, h)
        c0 = 0 if name.endswith('LeftCorner') else sub(C, w)
        return view(r0, c0, h, w)
    if name == 'diagonal' and not args:
        return None, ('view', o, 'diag', ())
    if name in ('x', 'y', 'z', 'w') and not args:
        if isq:
            return None, ('qc', o, name)
        return None, ('view', o, 'elem', (num('xyzw'.index(name)), ZERO))
    if name in ('noalias', 'array', 'matrix', 'derived', 'eval', 'cast', 'const_cast_derived', 'template', 'nestedExpression', 'real', 'self'):
        if name == 'matrix' and isq:
            return t.rot(O()), None
        return None, o
    if name in ('coeff', 'coeffRef'):
        a = A()
        return None, ('view', o, 'elem', (a[0], a[1] if len(a) > 1 else ZERO))
    if name in ('transpose', 'adjoint'):
        if isq:
            return t.qinv(O()), None
        if 'JacobiRotation' in cls:
            return mk('fn', 'givens.adjoint', O(), kind='o'), None
        return None, ('view', o, 'tr', ())
    if name == 'makeGivens' and 'JacobiRotation' in cls:
        a = A()
        I.write_any(o, mk('fn', 'givens', *a, kind='o'), e)
        return UNINIT, None
    v = O()
    if name == 'inverse':
        if v.kind == 'q' or isq:
            v.kind = v.kind or 'q'
            return t.qinv(v), None
        if v.kind == 'aa':
            return t.qinv(ip.quatof(v)), None
        return t.minv(v), None
    if name == 'conjugate':
        return t.qinv(v), None
    if name in ('toRotationMatrix', 'rotation') and (isq or v.kind == 'q'):
        v.kind = 'q'
        return t.rot(v), None
    if name == 'toRotationMatrix':
        return t.rot(ip.quatof(v)), None
    if name == 'norm':
        if v.kind == 'q':
            return mk('fn', 'qnorm', v, kind='s'), None
        return t.fn('norm', v), None
    if name == 'stableNorm':
        return t.fn('norm', v), None
    if name == 'squaredNorm':
        n = t.fn('norm', v)
        return mul(n, n), None
    if name == 'normalized':
        if v.kind == 'q':
            return qnormalize(v), None
        return t.div(v, t.fn('norm', v)), None
    if name == 'normalize':
        I.write_any(o, qnormalize(v) if v.kind == 'q' else t.div(v, t.fn('norm', v)), e)
        return UNINIT, None
    if name == 'dot':
        b = I.ev(args[0])
        return dot(v, b), None
    if name == 'cross':
        b = I.ev(args[0])
        return mul(t.skew(v), b), None
    if name in ('sum', 'trace', 'determinant', 'maxCoeff', 'minCoeff', 'mean', 'prod', 'lpNorm', 'rank', 'allFinite', 'hasNaN'):
        if name == 'sum' and not args:
            cd = t.const_dims(v)
            if cd and cd[0] * cd[1] <= 16:
                return add(*[t.elem(v, num(i), num(j)) for i in range(cd[0]) for j in range(cd[1])]), None
        if name == 'trace':
            cd = t.const_dims(v)
            if cd and cd[0] <= 4:
                return add(*[t.elem(v, num(i), num(i)) for i in range(cd[0])]), None
        return mk('fn', name, v, kind='b' if name in ('allFinite', 'hasNaN') else 's'), None
    if name in ('rows', 'cols', 'size'):
        if name == 'rows':
            return t.rows(v), None
        if name == 'cols':
            return t.cols(v), None
        r, c = t.rows(v), t.cols(v)
        return mul(r, c), None
    if name == 'cwiseProduct':
        return t.cwise_prod(v, I.ev(args[0])), None
    if name == 'cwiseSqrt' or name == 'sqrt':
        return t.cwise_sqrt(v), None
    if name == 'cwiseAbs' or (name == 'abs' and v.kind == 'm'):
        return t.cwise('abs', v), None
    if name in ('cwiseAbs2', 'square', 'abs2'):
        return t.cwise_prod(v, v), None
    arr = is_array(e['obj']) if 'obj' in e else False
    if name in ('cwiseQuotient', 'cwiseMax', 'cwiseMin', 'cwiseInverse') or arr and v.kind == 'm' and name in (
            'inverse', 'exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'max', 'min', 'cube', 'pow', 'floor', 'ceil', 'round'):
        n = {'cwiseQuotient': 'quot', 'cwiseMax': 'max', 'cwiseMin': 'min', 'cwiseInverse': 'inv', 'inverse': 'inv'}.get(name, name)
        return t.cwise(n, v, *[x for x in A() if x.op != 'enum']), None
    if name == 'asDiagonal':
        return t.asdiag(v), None
    if name in ('setZero', 'setIdentity', 'setOnes', 'setConstant', 'fill'):
        if isq:
            I.write_any(o, t.QID, e)
            return None, o
        if 'Transform' in cls:
            return None
        a = A()
        r, c = t.rows(v), t.cols(v)
        if name in ('setZero', 'setIdentity', 'setOnes') and a:
            r, c = (a[0], a[1]) if len(a) == 2 else (a[0], ONE)
        if name == 'setZero':
            n = t.zero(r, c)
        elif name == 'setIdentity':
            n = t.ident(r, c)
        elif name == 'setOnes':
            n = fill(ONE, r, c)
        else:
            n = fill(a[-1], r, c)
        I.write_any(o, n, e)
        return None, o
    if name == 'resize':
        a = A()
        r, c = (a[0], a[1]) if len(a) == 2 else (a[0], ONE)
        if not (t.rows(v) is r and t.cols(v) is c):
            I.write_any(o, mk('uninitm', r, c, kind='m'), e)
        return UNINIT, None
    if name == 'conservativeResize':
        a = A()
        r, c = (a[0], a[1]) if len(a) == 2 else (a[0], t.cols(v))
        I.write_any(o, mk('resize', v, r, c, kind='m'), e)
        return UNINIT, None
    if name == 'swap':
        l2 = I.lv(args[0])
        b = I.read_any(l2)
        I.write_any(o, b, e)
        I.write_any(l2, v, e)
        return UNINIT, None
    if name == 'isApprox' or name == 'isZero':
        return mk('fn', name, v, *A(), kind='b'), None
    if name == 'angle' and v.kind == 'aa':
        q = ip.quatof(v)
        return t.fn('norm', t.q2rv(q)) if v.op == 'aaof' else v.a[0], None
    if name == 'axis' and v.kind == 'aa':
        if v.op == 'aa':
            return v.a[1], None
        q = ip.quatof(v)
        return t.div(t.q2rv(q), t.fn('norm', t.q2rv(q))), None
    if name == 'vec' and isq:
        return mk('qvec', v, kind='m', dim=(3, 1)), None
    if name == 'coeffs':
        return mk('qcoeffs', v, kind='m', dim=(4, 1)), None
    if name == 'slerp':
        return mk('fn', 'slerp', v, *A(), kind='q'), None
    if name == 'angularDistance':
        return mk('fn', 'angularDistance', v, *A(), kind='s'), None
    if name in ('householderQr', 'colPivHouseholderQr', 'llt', 'ldlt', 'lu', 'fullPivLu', 'partialPivLu', 'jacobiSvd'):
        return mk('fn', name, v, *A(), kind='o'), None
    if name == 'solve':
        b = I.ev(args[0])
        if v.op == 'fn':
            return mul(t.minv(v.a[1]), b), None
        if v.op == 'ctor':
            return mul(t.minv(v.a[1]), b), None
        return mk('fn', 'solve', v, b, kind='m', dim=tuple(e['dim']) if 'dim' in e else None), None
    if name in ('householderQ', 'matrixQR', 'matrixU', 'matrixV', 'singularValues', 'matrixL'):
        return mk('fn', name, v, kind='m', dim=tuple(e['dim']) if 'dim' in e and -1 not in e['dim'] else None), None
    if name == 'triangularView':
        return mk('fn', 'triangularView', v, *[num(x) for x in ta], kind='m', dim=v.dim), None
    if name in ('replicate', 'colwise', 'rowwise', 'reverse', 'homogeneous', 'data', 'derivatives', 'ctrls', 'knots'):
        return mk('fn', name, v, *A(), kind=kind_of_type(e.get('t')), dim=tuple(e['dim']) if 'dim' in e else None), None
    return None


def qnormalize(v):
    """unit quaternions are closed under the filter's products; normalisation is kept as an explicit operation except on
    terms that are unit by construction"""
    if v.op in ('rv2q', 'qident', 'qmul', 'qinv'):
        return v
    return mk('qnormalize', v, kind='q')


def dot(a, b):
    if a.op == 'mat' and b.op == 'mat':
        return add(*[mul(x, y) for x, y in zip(a.a[2], b.a[2])])
    if a is b:
        n = t.fn('norm', a)
        return mul(n, n)
    acc = ZERO
    for (s1, n1), c1 in t.to_poly(a).items():
        for (s2, n2), c2 in t.to_poly(b).items():
            x = t.from_poly({((), n1): 1})
            y = t.from_poly({((), n2): 1})
            if x is y:
                n = t.fn('norm', x)
                d = mul(n, n)
            else:
                p, q = sorted((x, y), key=t.digest)
                d = mk('fn', 'dot', p, q, kind='s')
            acc = add(acc, mul(mul(t.from_poly({(s1, ()): c1}), t.from_poly({(s2, ()): c2})), d))
    return acc


# ------------------------------------------------------------------ containers
def obj_of(I, e, args):
    """(object location, remaining args)"""
    if 'obj' in e:
        return I.objloc(e), args
    l = I.lv(args[0])
    if l is None:
        l = I.tmp()
        I.st.write(l, I.ev(args[0]))
    return l, args[1:]


def vec_call(I, e, cls, name, args):
    o, a = obj_of(I, e, args)
    if name in ('operator[]', 'at'):
        return None, ('at', o, I.ev(a[0]))
    if name == 'size':
        return t.vsize(I.read_any(o)), None
    if name == 'empty':
        return t.eq(t.vsize(I.read_any(o)), ZERO), None
    if name == 'back':
        return None, ('at', o, sub(t.vsize(I.read_any(o)), ONE))
    if name == 'front':
        return None, ('at', o, ZERO)
    if name in ('push_back', 'emplace_back'):
        if name == 'emplace_back' and len(a) != 1:
            v = mk('emplaced', *[I.ev(x) for x in a], kind='o')
        else:
            v = snapshot(I, I.ev(a[0]))
        I.write_any(o, t.append(I.read_any(o), v), e)
        return UNINIT, None
    if name == 'pop_back':
        v = I.read_any(o)
        I.write_any(o, v.a[0] if v.op == 'append' else mk('erase', v, sub(t.vsize(v), ONE), kind='o'), e)
        return UNINIT, None
    if name in ('begin', 'cbegin'):
        return mk('viter', o, ZERO, kind='o'), None
    if name in ('end', 'cend'):
        return mk('viter', o, t.vsize(I.read_any(o)), kind='o'), None
    if name in ('rbegin', 'rend', 'crbegin', 'crend'):
        return mk('fn', name, I.read_any(o), kind='o'), None
    if name == 'clear':
        I.write_any(o, t.EMPTY, e)
        return UNINIT, None
    if name in ('reserve', 'shrink_to_fit'):
        for x in a:
            I.ev(x)
        return UNINIT, None
    if name == 'resize':
        v = I.read_any(o)
        I.write_any(o, mk('resized', v, I.ev(a[0]), kind='o'), e)
        return UNINIT, None
    if name == 'erase':
        its = [I.ev(x) for x in a]
        v = I.read_any(o)
        if len(its) == 2 and its[0].op == 'removeit' and its[0].a[0] == o and its[1].op == 'viter' and its[1].a[1] is t.size(v):
            I.write_any(o, its[0].a[1], e)
            return its[1], None
        if len(its) == 1 and its[0].op == 'viter':
            I.write_any(o, mk('erase', v, its[0].a[1], kind='o'), e)
            return its[0], None
        I.write_any(o, mk('eraserange', v, *[i.a[1] if i.op == 'viter' else i for i in its], kind='o'), e)
        return its[0], None
    if name == 'insert':
        its = [I.ev(x) for x in a]
        v = I.read_any(o)
        pos = its[0].a[1] if its[0].op == 'viter' else its[0]
        if len(its) == 3 and its[1].op == 'viter' and its[2].op == 'viter':
            src = I.read_any(its[1].a[0])
            whole = its[1].a[1] is ZERO and its[2].a[1] is t.vsize(src)
            part = src if whole else mk('slice', src, its[1].a[1], its[2].a[1], kind='o')
        elif len(its) == 2:
            part = mk('seq', snapshot(I, its[1]), kind='o')
        else:
            part = mk('fn', 'insertarg', *its[1:], kind='o')
        if pos is t.vsize(v):
            I.write_any(o, t.concat(v, part), e)
        elif pos is ZERO:
            I.write_any(o, t.concat(part, v), e)
        else:
            I.write_any(o, mk('insertat', v, pos, part, kind='o'), e)
        return its[0], None
    if name == 'assign':
        return None
    if name == 'operator=':
        return assign(I, e)
    if name == 'data':
        return mk('viter', o, ZERO, kind='o'), None
    return None


def map_call(I, e, cls, name, args):
    o, a = obj_of(I, e, args)
    if name in ('operator[]', 'at'):
        k = I.ev(a[0])
        return None, ('at', o, k)
    if name == 'size':
        return t.size(I.read_any(o)), None
    if name == 'empty':
        return t.eq(t.size(I.read_any(o)), ZERO), None
    if name in ('find', 'count', 'contains'):
        k = I.ev(a[0])
        h = has(I.read_any(o), k)
        if name == 'find':
            return mk('iterfind', o, k, h, kind='o'), None
        if name == 'count':
            return ip.num_of_bool(h), None
        return h, None
    if name in ('begin', 'cbegin'):
        return mk('iterbegin', o, kind='o'), None
    if name in ('end', 'cend'):
        return mk('iterend', o, kind='o'), None
    if name == 'clear':
        I.write_any(o, mk('emptymap', kind='o'), e)
        return UNINIT, None
    if name == 'erase':
        v = I.ev(a[0])
        m = I.read_any(o)
        if v.op in ('iterfind', 'miter'):
            I.write_any(o, mk('mapdel', m, v.a[1], kind='o'), e)
            if v.op == 'miter':
                return mk('miter', v.a[0], mk('nextkey', v.a[1], kind='o'), kind='o'), None
            return v, None
        I.write_any(o, mk('mapdel', m, v, kind='o'), e)
        return UNINIT, None
    if name in ('insert', 'emplace', 'insert_or_assign'):
        its = [I.ev(x) for x in a]
        m = I.read_any(o)
        if len(its) == 1 and cls in ('std::set', 'std::unordered_set'):
            I.write_any(o, t.upd(m, its[0], TRUE), e)
            return UNINIT, None
        if len(its) == 1:
            k, v = fld(its[0], 'first'), fld(its[0], 'second')
        else:
            k, v = its[0], its[1]
        h = has(m, k)
        n = t.upd(m, k, snapshot(I, v))
        I.write_any(o, n if name == 'insert_or_assign' else ite(h, m, n), e)
        return t.rec(mk('new', 'pair', kind='o'), {'first': mk('iterfind', o, k, TRUE, kind='o'), 'second': t.not_(h)}), None
    if name == 'operator=':
        return assign(I, e)
    return None


def has(m, k):
    if m.op == 'emptymap':
        return FALSE
    if m.op == 'upd':
        return t.or_(t.eq(m.a[1], k), has(m.a[0], k))
    if m.op == 'mapdel':
        return t.and_(t.not_(t.eq(m.a[1], k)), has(m.a[0], k))
    if m.op == 'mapd':
        return has(m.a[1], k)
    if m.op == 'ite':
        return ite(m.a[0], has(m.a[1], k), has(m.a[2], k))
    if k.op == 'kidx' and k.a[0].a[0] == 'coll' and k.a[0].a[1] is m:
        return TRUE
    return mk('has', m, k, kind='b')


t.HAS[0] = has


def iter_call(I, e, cls, name, args):
    op = e.get('op')
    if op == '*' and len(args) == 1:
        return None, I.deref(I.ev(args[0]))
    if op == '->':
        v = I.ev(args[0])
        return v, None
    if op in ('++', '--'):
        l = I.lv(args[0])
        old = I.read_any(l) if l else I.ev(args[0])
        new = I.incr(old, 1 if op == '++' else -1)
        if l:
            I.write_any(l, new, e)
        if len(args) == 2:
            return old, None
        return None, l
    if op in ('+', '-'):
        a, b = I.ev(args[0]), I.ev(args[1])
        return I.binop(op, a, b, e), None
    if op in ('+=', '-='):
        l = I.lv(args[0])
        v = I.binop(op[0], I.read_any(l), I.ev(args[1]), e)
        I.write_any(l, v, e)
        return None, l
    if op in ('==', '!='):
        r = itereq(I.ev(args[0]), I.ev(args[1]))
        return (r if op == '==' else t.not_(r)), None
    if op == '[]':
        b = I.ev(args[0])
        return None, I.deref(I.binop('+', b, I.ev(args[1]), e))
    if op == '=':
        return assign(I, e)
    return None


def itereq(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'iterend' and y.op == 'iterfind' and x.a[0] == y.a[0]:
            return t.not_(y.a[2])
        if x.op == 'iterend' and y.op == 'miter':
            return mk('atend', y.a[1], kind='b')
        if x.op == 'iterend' and y.op == 'iterbegin':
            return mk('atend', mk('firstkey', kind='o'), kind='b')
    if a.op == 'viter' and b.op == 'viter':
        return t.eq(a.a[1], b.a[1])
    return t.eq(a, b)


def ptr_call(I, e, cls, name, args):
    op = e.get('op')
    if op == '->':
        return I.ev(args[0]), None
    if op == '*':
        return None, I.deref(I.ev(args[0]))
    if op == '=':
        return assign(I, e)
    if op in ('==', '!='):
        r = t.eq(I.ev(args[0]), I.ev(args[1]))
        return (r if op == '==' else t.not_(r)), None
    if name == 'get':
        return I.read_any(I.objloc(e)), None
    if name == 'operator bool':
        v = I.read_any(I.objloc(e))
        return t.not_(t.eq(v, mk('null', kind='o'))), None
    if name == 'reset':
        I.write_any(I.objloc(e), I.ev(args[0]) if args else mk('null', kind='o'), e)
        return UNINIT, None
    return None


def str_call(I, e, cls, name, args):
    op = e.get('op')
    if op == '=':
        return assign(I, e)
    if op == '+=' or name in ('append', 'push_back'):
        o, a = obj_of(I, e, args)
        I.write_any(o, t.cat(I.read_any(o), ip.strpart(I.ev(a[0]))), e)
        return None, o
    if op == '<<':
        return stream_out(I, e, args)
    if 'obj' in e:
        o = I.objloc(e)
        v = I.read_any(o)
        if name in ('str',):
            if args:
                I.write_any(o, I.ev(args[0]), e)
                return UNINIT, None
            v.kind = v.kind or 'str'
            return v, None
        if name in ('c_str', 'data'):
            return v, None
        if name == 'empty':
            return t.eq(v, t.string('')), None
        if name in ('size', 'length'):
            return t.size(v), None
        if name == 'open':
            a = [I.ev(x) for x in args]
            I.write_any(o, mk('file', *a[:1], kind='o'), e)
            return UNINIT, None
        if name in ('close', 'flush', 'clear'):
            return UNINIT, None
        if name in ('precision', 'width'):
            a = [I.ev(x) for x in args]
            I.write_any(o, t.cat(v, mk('manip', 'setprecision' if name == 'precision' else name, *a, kind='str')), e)
            return UNINIT, None
        if name in ('is_open', 'good', 'operator bool', 'operator!'):
            return mk('fn', name, v, kind='b'), None
    return None


INTEGRAL = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'long long', 'unsigned long long', 'bool'}


def integral(node):
    return (node.get('t') or '').replace('const ', '').strip(' &') in INTEGRAL


def int_text(v):
    """the decimal text of an integer: the same from a stream and from to_string"""
    if t.isnum(v) and v.a[0] == int(v.a[0]):
        return t.string(str(int(v.a[0])))
    return ip.strpart(v)


def stream_out(I, e, args):
    l = I.lv(args[0])
    v = I.ev(args[1])
    if v.op == 'func':
        nm = v.a[0].split('::')[-1]
        part = t.string('\n') if nm == 'endl' else mk('manip', nm, kind='str')
        if nm == 'flush':
            return None, l
    elif v.op == 'manip':
        part = v
    elif v.kind == 'b':
        part = mk('fmt', ip.num_of_bool(v), kind='str')
    else:
        v = ip.num_of_bool(v)
        part = ip.strpart(v)
        if args[1].get('t') == 'char' and t.isnum(v):
            part = t.string(chr(int(v.a[0])))
        elif integral(args[1]):
            part = int_text(v)
    if l is None:
        return v, None
    I.write_any(l, t.cat(I.read_any(l), part), e)
    return None, l


def yaml_call(I, e, cls, name, args):
    op = e.get('op')
    if op == '[]':
        return mk('ykey', I.ev(args[0]), I.ev(args[1]), kind='o'), None
    if name == 'as':
        o = I.read_any(I.objloc(e))
        a = [I.ev(x) for x in args]
        ty = e.get('targs', ['?'])[0]
        return mk('yas', o, str(ty), *a, kind=kind_of_type(e.get('t'))), None
    if op == '=':
        return assign(I, e)
    if op in ('==', '!=', '!'):
        return None
    if name in ('IsDefined', 'operator!', 'operator bool', 'IsSequence', 'IsMap', 'IsNull'):
        return mk('fn', 'yaml.' + name, I.read_any(I.objloc(e)) if 'obj' in e else I.ev(args[0]), kind='b'), None
    return None


CLS = {}
for c in ('std::vector', 'std::deque', 'std::list', 'std::array', 'std::initializer_list'):
    CLS[c] = vec_call
for c in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::multimap'):
    CLS[c] = map_call
for c in ('__gnu_cxx::__normal_iterator', '__gnu_cxx', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::reverse_iterator',
          'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator'):
    CLS[c] = iter_call
for c in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr', 'std::weak_ptr', 'cv::Ptr'):
    CLS[c] = ptr_call
for c in ('std::basic_string', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_ostream', 'std::basic_ofstream',
          'std::basic_ios', 'std::ios_base', 'std::basic_istringstream', 'std::__cxx11::basic_string'):
    CLS[c] = str_call
CLS['YAML::Node'] = yaml_call


def cvmat_call(I, e, cls, name, args):
    if name == 'at' and 'obj' in e and 1 <= len(args) <= 2:
        ix = [I.ev(a) for a in args]
        if any(kind_of_type(a.get('t')) == 'o' and v.kind == 'o' for a, v in zip(args, ix)):
            return None
        return None, ('view', I.objloc(e), 'elem', (ix[0], ix[1] if len(ix) > 1 else ZERO))
    if name == 'zeros' and len(args) == 3:
        a = [I.ev(x) for x in args]
        return ip.cvmat(a[0], a[1], a[2], ZERO), None
    return None


CLS['cv::Mat'] = cvmat_call
POINT = {'cv::Point_': 'xy', 'cv::Point3_': 'xyz', 'cv::Point': 'xy', 'cv::Point2f': 'xy', 'cv::Point2d': 'xy', 'cv::Point3f': 'xyz',
         'cv::Point3d': 'xyz', 'cv::Point2i': 'xy', 'cv::Point3i': 'xyz'}


def point_type(a):
    return POINT.get(strip(a.get('t')).split('<')[0])


def cv_call(I, e, cls, name, args):
    """points are their coordinates"""
    op = e.get('op')
    c = point_type(args[0]) if args else None
    if not c:
        return None
    if op in ('-', '+') and len(args) == 2 and point_type(args[1]) == c:
        a, b = I.ev(args[0]), I.ev(args[1])
        f = sub if op == '-' else add
        return t.rec(mk('ctor', 'cv::Point_' if c == 'xy' else 'cv::Point3_', kind='o'), {k: f(fld(a, k), fld(b, k)) for k in c}), None
    if name == 'norm' and len(args) == 1:
        a = I.ev(args[0])
        return t.fn('sqrt', add(*[mul(fld(a, k), fld(a, k)) for k in c])), None
    return None


CLS['cv'] = cv_call


def is_iter_type(ty):
    return 'iterator' in (ty or '')[:60]


def stdlib(I, e, cls, name, args):
    op = e.get('op')
    if op and name.startswith('operator'):
        t0 = args[0].get('t') or ''
        if op == '<<':
            return stream_out(I, e, args)
        if op == '+':
            a, b = I.ev(args[0]), I.ev(args[1])
            if is_iter_type(t0):
                return I.binop('+', a, b, e), None
            pa, pb = ip.strpart(a), ip.strpart(b)
            if args[1].get('t') == 'char' and t.isnum(b):
                pb = t.string(chr(int(b.a[0])))
            return t.cat(pa, pb), None
        if op == '-' and is_iter_type(t0):
            return I.binop('-', I.ev(args[0]), I.ev(args[1]), e), None
        if op in ('==', '!='):
            a, b = I.ev(args[0]), I.ev(args[1])
            r = itereq(a, b)
            return (r if op == '==' else t.not_(r)), None
        if op in ('<', '>', '<=', '>='):
            a, b = I.ev(args[0]), I.ev(args[1])
            return I.compare(op, a, b), None
        if op == '|':
            return mk('fn', 'bitor', *[I.ev(a) for a in args], kind='i'), None
        if op == '()':
            v = I.ev(args[0])
            if v.op == 'lambda':
                return I.call_lambda(v, args[1:], n=e), None
        if op == '=':
            return assign(I, e)
        if op in ('*', '->', '++', '--', '[]', '+=', '-='):
            return iter_call(I, e, cls, name, args)
    if name in ('max', 'min') and len(args) == 2:
        a, b = (ip.num_of_bool(I.ev(x)) for x in args)
        return t.fn(name, a, b), None
    if name in ('max', 'min') and len(args) == 1:
        v = I.ev(args[0])
        if v.op == 'initlist':
            r = v.a[0]
            for x in v.a[1:]:
                r = t.fn(name, r, x)
            return r, None
    if name == 'clamp':
        a = [I.ev(x) for x in args]
        return t.fn('min', t.fn('max', a[0], a[1]), a[2]), None
    if name in ('move', 'forward', 'as_const', 'ref', 'cref'):
        l = I.lv(args[0])
        return (None, l) if l is not None else (I.ev(args[0]), None)
    if name == 'swap' and len(args) == 2:
        la, lb = I.lv(args[0]), I.lv(args[1])
        va, vb = I.read_any(la), I.read_any(lb)
        I.write_any(la, vb, e)
        I.write_any(lb, va, e)
        return UNINIT, None
    if name == 'to_string':
        v = ip.num_of_bool(I.ev(args[0]))
        return int_text(v) if integral(args[0]) else mk('tostr', v, kind='str'), None
    if name in ('setprecision', 'setw', 'setfill'):
        return mk('manip', name, *[I.ev(a) for a in args], kind='str'), None
    if name == 'make_shared' or name == 'make_unique':
        return make_shared(I, e, args), None
    if name in ('static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast'):
        return I.ev(args[0]), None
    if name == 'make_pair':
        a = [I.ev(x) for x in args]
        return t.rec(mk('new', 'pair', kind='o'), {'first': a[0], 'second': a[1]}), None
    if name in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty') and len(args) == 1 and cls == 'std':
        l = I.lv(args[0])
        if l is None:
            l = I.tmp()
            I.st.write(l, I.ev(args[0]))
        m = 'map' in (args[0].get('t') or '')[:30] or 'set' in (args[0].get('t') or '')[:30]
        e2 = dict(e)
        if name in ('begin', 'cbegin'):
            return mk('iterbegin', l, kind='o') if m else mk('viter', l, ZERO, kind='o'), None
        if name in ('end', 'cend'):
            return mk('iterend', l, kind='o') if m else mk('viter', l, t.size(I.read_any(l)), kind='o'), None
        v = t.size(I.read_any(l))
        return (v if name == 'size' else t.eq(v, ZERO)), None
    if name in ('next', 'prev') and args:
        b = I.ev(args[0])
        n = I.ev(args[1]) if len(args) > 1 else ONE
        if n.op == 'uninit':
            n = ONE
        if b.op == 'viter':
            return I.binop('+' if name == 'next' else '-', b, n, e), None
        if n is ONE:
            return I.incr(b, 1 if name == 'next' else -1), None
    if name == 'advance' and len(args) == 2:
        l = I.lv(args[0])
        I.write_any(l, I.binop('+', I.read_any(l), I.ev(args[1]), e), e)
        return UNINIT, None
    if name == 'distance' and len(args) == 2:
        a, b = I.ev(args[0]), I.ev(args[1])
        if a.op == 'viter' and b.op == 'viter':
            return sub(b.a[1], a.a[1]), None
    if name == 'now':
        return mk('now', kind='o'), None
    if name == 'get' and len(args) == 1 and e.get('targs'):
        l = I.lv(args[0])
        idx = e['targs'][0]
        if isinstance(idx, int) and l is not None:
            return None, (I.member(l, ('first', 'second')[idx]) if idx < 2 else ('f', l, 'm%d' % idx))
    if name in ALGO:
        r = ALGO[name](I, e, args)
        if r is not None:
            return r
    if name in ('quiet_NaN', 'infinity', 'max', 'lowest', 'epsilon', 'min') and not args:
        return mk('fn', 'limits.' + name + (e.get('t') or ''), kind=kind_of_type(e.get('t'))), None
    return None


def make_shared(I, e, args):
    cls = e['targs'][0]
    l = ('h', I.tmp()[1])
    cands = [f for f in I.p.funcs.values() if f.get('ctor') and f['cls'] == cls and len(f['params']) == len(args)]
    if cls in I.p.records and (cands or not args):
        qn = cls + '::' + cls.split('::')[-1]
        if qn in I.opaque:
            vals = [I.ev(a) for a in args]
            h = I.opaque[qn]
            if h is not None:
                h(I, e, l, vals)
            else:
                I.st.write(l, mk('new', cls, *vals, kind='o'))
            return mk('addr', l, kind='o')
        if len(cands) > 1:
            cands = [f for f in cands if all(kind_of_type(p['t']) == kind_of_type(a.get('t')) or True for p, a in zip(f['params'], args))]
            best = [f for f in cands if all(strip(p['t']) == strip(a.get('t')) for p, a in zip(f['params'], args))]
            cands = best or cands
        if cands:
            I.st.write(l, mk('new', cls, kind='o'))
            I.inline(cands[0], l, args, e)
        else:
            I.default_construct(l, cls)
        return mk('addr', l, kind='o')
    vals = [I.ev(a) for a in args]
    if len(args) == 1 and strip(args[0].get('t')) == cls:
        I.st.write(l, vals[0])
    else:
        I.st.write(l, mk('ctor', cls, *vals, kind='o'))
    return mk('addr', l, kind='o')


def strip(s):
    s = s or ''
    return s.replace('const ', '').replace('&', '').strip()


# ------------------------------------------------------------------ <algorithm>
def loop_over(I, a, b, fn_, e):
    """run fn_(element location) for every element of the range [a,b)"""
    if a.op == 'viter' and b.op == 'viter':
        loc = a.a[0]
        coll = I.st.read(loc)
        if coll.op == 'seq' and t.as_int(a.a[1]) is not None and t.as_int(b.a[1]) is not None:
            for i in range(t.as_int(a.a[1]), t.as_int(b.a[1])):
                fn_(('at', loc, num(i)))
            return True
        dom = mk('dom', 'range', a.a[1], b.a[1])
        ks = mk('kidx', dom, I.loopdepth, kind='i')
        I.sym_loop(dom, ks, lambda: None, lambda: fn_(('at', loc, ks)), None, None, e)
        return True
    if a.op == 'iterbegin' and b.op == 'iterend' and a.a[0] == b.a[0]:
        loc = a.a[0]
        coll = I.st.read(loc)
        if coll.op == 'emptymap':
            return True
        dom = mk('dom', 'coll', I.shape(coll))
        ks = mk('kidx', dom, I.loopdepth, kind='i')
        I.sym_loop(dom, ks, lambda: None, lambda: fn_(('pair', loc, ks)), None, None, e)
        return True
    return False


def call_elem(I, f, locs, n):
    """apply a lambda to element locations"""
    e, fr, caps = I.lambdas[f.a[0]]
    vals = []
    nodes = []
    for i, l in enumerate(locs):
        nodes.append({'k': '#loc', 'loc': l})
    return I.call_lambda(f, nodes, n=n)


def a_for_each(I, e, args):
    a, b, f = (I.ev(x) for x in args)
    if f.op != 'lambda':
        return None
    if loop_over(I, a, b, lambda l: call_elem(I, f, [l], e), e):
        return f, None


def a_accumulate(I, e, args):
    a, b, init = (I.ev(x) for x in args[:3])
    f = I.ev(args[3]) if len(args) > 3 else None
    acc = I.tmp()
    I.st.write(acc, init)

    def step(l):
        x = I.read_any(l)
        if f is None:
            I.st.write(acc, I.binop('+', I.st.read(acc), x, e))
        else:
            cell = I.tmp()
            I.st.write(cell, I.st.read(acc))
            I.st.write(acc, call_elem(I, f, [cell, l], e))
    if f is not None and f.op != 'lambda':
        return None
    if loop_over(I, a, b, step, e):
        return I.st.read(acc), None


def a_quant(which):
    def g(I, e, args):
        a, b, f = (I.ev(x) for x in args)
        if f.op != 'lambda':
            return None
        box = []
        pre = I.st
        if a.op == 'viter' and b.op == 'viter':
            dom = mk('dom', 'range', a.a[1], b.a[1])
            ks = mk('kidx', dom, I.loopdepth, kind='i')
            l = ('at', a.a[0], ks)
        elif a.op == 'iterbegin' and b.op == 'iterend':
            dom = mk('dom', 'coll', I.shape(I.st.read(a.a[0])))
            ks = mk('kidx', dom, I.loopdepth, kind='i')
            l = ('pair', a.a[0], ks)
        else:
            return None
        I.st = pre.copy()
        c = t.tobool(call_elem(I, f, [l], e))
        I.st = pre
        if which == 'all':
            return t.not_(ip.exists(dom, ks, t.not_(c))), None
        r = ip.exists(dom, ks, c)
        return (r if which == 'any' else t.not_(r)), None
    return g


def a_transform(I, e, args):
    if len(args) != 4:
        return None
    a, b, out, f = (I.ev(x) for x in args)
    if f.op != 'lambda':
        return None
    if out.op == 'viter':
        def step(l):
            idx = l[2]
            v = call_elem(I, f, [l], e)
            I.write_any(('at', out.a[0], add(out.a[1], sub(idx, a.a[1]))), v)
        if a.op == 'viter' and loop_over(I, a, b, step, e):
            return out, None
    if out.op == 'backins':
        def step2(l):
            v = snapshot(I, call_elem(I, f, [l], e))
            I.write_any(out.a[0], t.append(I.read_any(out.a[0]), v))
        if loop_over(I, a, b, step2, e):
            return out, None
    return None


def a_copy_if(I, e, args):
    if len(args) != 4:
        return None
    a, b, out, f = (I.ev(x) for x in args)
    if out.op == 'backins' and f.op == 'lambda':
        def step(l):
            c = t.tobool(call_elem(I, f, [l], e))
            v = I.read_any(out.a[0])
            I.write_any(out.a[0], ite(c, t.append(v, snapshot(I, I.read_any(l))), v))
        if loop_over(I, a, b, step, e):
            return out, None
    return None


def a_remove_if(I, e, args):
    if len(args) != 3:
        return None
    a, b, f = (I.ev(x) for x in args)
    if a.op == 'viter' and b.op == 'viter' and f.op == 'lambda' and a.a[1] is ZERO and b.a[1] is t.size(I.read_any(a.a[0])):
        out = I.tmp()
        I.st.write(out, mk('seq', kind='o'))

        def step(l):
            c = t.tobool(call_elem(I, f, [l], e))
            v = I.read_any(out)
            I.write_any(out, ite(c, v, t.append(v, snapshot(I, I.read_any(l)))))
        if loop_over(I, a, b, step, e):
            return mk('removeit', a.a[0], I.read_any(out), kind='o'), None
    return None


def a_count(I, e, args):
    if len(args) != 3:
        return None
    a, b, f = (I.ev(x) for x in args)
    acc = I.tmp()
    I.st.write(acc, ZERO)
    by = e['f'].split('::')[-1] == 'count'
    if not by and f.op != 'lambda':
        return None

    def step(l):
        c = t.eq(I.read_any(l), f) if by else t.tobool(call_elem(I, f, [l], e))
        n = I.st.read(acc)
        I.st.write(acc, ite(c, add(n, ONE), n))
    if loop_over(I, a, b, step, e):
        return I.st.read(acc), None
    return None


def a_iota(I, e, args):
    if len(args) != 3:
        return None
    a, b, v = (I.ev(x) for x in args)
    if a.op == 'viter' and loop_over(I, a, b, lambda l: I.write_any(l, add(v, sub(l[2], a.a[1]))), e):
        return UNINIT, None


def a_inner_product(I, e, args):
    if len(args) != 4:
        return None
    a, b, c, init = (I.ev(x) for x in args)
    acc = I.tmp()
    I.st.write(acc, init)
    if a.op != 'viter' or c.op != 'viter':
        return None

    def step(l):
        y = I.read_any(('at', c.a[0], add(c.a[1], sub(l[2], a.a[1]))))
        I.st.write(acc, I.binop('+', I.st.read(acc), I.binop('*', I.read_any(l), y, e), e))
    if loop_over(I, a, b, step, e):
        return I.st.read(acc), None


def a_copy(I, e, args):
    a, b, out = (I.ev(x) for x in args)
    if out.op == 'backins' and a.op == 'viter' and b.op == 'viter':
        src = I.read_any(a.a[0])
        if a.a[1] is ZERO and b.a[1] is t.size(src):
            I.write_any(out.a[0], t.concat(I.read_any(out.a[0]), src))
            return out, None
    return None


def a_back_inserter(I, e, args):
    return mk('backins', I.lv(args[0]), kind='o'), None


def a_sort(I, e, args):
    a = [I.ev(x) for x in args]
    if a[0].op == 'viter' and a[1].op == 'viter':
        loc = a[0].a[0]
        v = I.read_any(loc)
        cmp_ = None
        if len(a) > 2:
            x, y = mk('cmpx', kind='o'), mk('cmpy', kind='o')
            f = a[2]
            if f.op == 'lambda':
                nodes = [{'k': '#val', 'v': x}, {'k': '#val', 'v': y}]
                pre = I.st
                I.st = pre.copy()
                cmp_ = I.call_lambda(f, nodes, n=e)
                I.st = pre
            elif f.op == 'func' and f.a[1] in I.p.funcs:
                pre = I.st
                I.st = pre.copy()
                cmp_, _ = I.inline(I.p.funcs[f.a[1]], None, None, e, argvals=[x, y])
                I.st = pre
            else:
                cmp_ = f
        nm = e['f'].split('::')[-1]
        I.write_any(loc, mk('sorted', v, a[0].a[1], a[1].a[1], cmp_ if cmp_ is not None else t.string('<'), nm, kind='o'), e)
        return UNINIT, None
    return None


def a_fill(I, e, args):
    a, b, v = (I.ev(x) for x in args)
    if loop_over(I, a, b, lambda l: I.write_any(l, v), e):
        return UNINIT, None


def a_find_if(I, e, args):
    a, b, f = (I.ev(x) for x in args)
    if a.op == 'viter' and b.op == 'viter':
        loc = a.a[0]
        dom = mk('dom', 'range', a.a[1], b.a[1])
        ks = mk('kidx', dom, I.loopdepth, kind='i')
        pre = I.st
        I.st = pre.copy()
        if e['f'].split('::')[-1] == 'find':
            c = t.eq(I.read_any(('at', loc, ks)), f)
        elif f.op == 'lambda':
            c = t.tobool(call_elem(I, f, [('at', loc, ks)], e))
        else:
            I.st = pre
            return None
        I.st = pre
        ex = ip.exists(dom, ks, c)
        idx = ite(ex, t.binder('firstval', (dom, None, c, ks), ks, kind='i'), b.a[1])
        return mk('viter', loc, idx, kind='o'), None
    return None


ALGO = {'for_each': a_for_each, 'accumulate': a_accumulate, 'any_of': a_quant('any'), 'all_of': a_quant('all'), 'none_of': a_quant('none'),
        'transform': a_transform, 'sort': a_sort, 'stable_sort': a_sort, 'copy': a_copy, 'back_inserter': a_back_inserter, 'fill': a_fill,
        'find_if': a_find_if, 'find': a_find_if, 'copy_if': a_copy_if, 'remove_if': a_remove_if, 'count_if': a_count, 'count': a_count,
        'iota': a_iota, 'inner_product': a_inner_product}
