"""Loads the type-checked program: builds the clang front end if needed, parses /repo's current sources."""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

import terms

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EKF_REPO', '/repo')
SRC = REPO + '/src'
LLVM = '/usr/lib/llvm-18'


class Broken(Exception):
    """the analysis cannot run (not a statement about the property)"""


def cache_dir():
    d = os.path.join(VERIF, '.cache')
    try:
        os.makedirs(d, exist_ok=True)
        probe = os.path.join(d, '.w%d' % os.getpid())
        open(probe, 'w').close()
        os.unlink(probe)
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), 'ekfcal_sa_%d' % os.getuid())
        os.makedirs(d, exist_ok=True)
        return d


def build_tool():
    src = os.path.join(VERIF, 'tool', 'astdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(cache_dir(), 'astdump-' + h)
    if os.path.exists(out):
        return out
    tmp = out + '.%d' % os.getpid()
    cmd = ['clang++', '-O0', '-std=c++17', '-fno-rtti', '-I' + LLVM + '/include', src, '-o', tmp,
           LLVM + '/lib/libclang-cpp.so.18.1', '-L' + LLVM + '/lib', '-lLLVM-18', '-Wl,-rpath,' + LLVM + '/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot build front end: ' + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def sources():
    out = []
    for f in sorted(glob.glob(SRC + '/**/*.cpp', recursive=True)):
        rel = f[len(SRC) + 1:]
        parts = rel.split('/')
        if 'test' in parts or 'ros' in parts or 'ros' in os.path.basename(f).split('_')[0:1]:
            continue
        out.append(f)
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(SRC + '/**/*', recursive=True)):
        if os.path.isfile(f) and (f.endswith('.cpp') or f.endswith('.hpp') or f.endswith('.in') or f.endswith('.h')):
            h.update(f.encode())
            h.update(open(f, 'rb').read())
    for f in (os.path.join(VERIF, 'tool', 'astdump.cpp'), BASELINE, os.path.abspath(__file__)):
        h.update(open(f, 'rb').read() if os.path.exists(f) else b'')
    for f in sorted(glob.glob(os.path.join(VERIF, 'spec', '*'))):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]


def spec_files():
    return sorted(glob.glob(os.path.join(VERIF, 'spec', '*.cpp')))


def flags(gen):
    return ['-std=c++14', '-I' + SRC, '-I/usr/include/opencv4', '-I' + gen, '-resource-dir', LLVM + '/lib/clang/18', '-w']


def run_tool(tool, gen, files, work, name, root=None, extra=()):
    tu = os.path.join(work, name + '.cpp')
    with open(tu, 'w') as f:
        for s in files:
            f.write('#include "%s"\n' % s)
    out = os.path.join(work, name + '.json')
    r = subprocess.run([tool, root or SRC, out, tu, '--'] + flags(gen) + list(extra), capture_output=True, text=True, cwd=work)
    if r.returncode == 0:
        return json.load(open(out)), ''
    d = without_errors(out, r.stderr, root) if root else None
    return d, r.stderr


def without_errors(out, err, root):
    """specifications that still fit the tree: functions in which the front end reported an error are left out"""
    try:
        d = json.load(open(out))
    except (OSError, ValueError):
        return None
    bad = []
    for l in err.splitlines():
        m = re.match(r'(.*?):(\d+):\d+: (fatal )?error: ', l)
        if m:
            if m.group(3):
                return None
            bad.append((m.group(1), int(m.group(2)), l))
    drop = {}
    for f, n, l in bad:
        hit = [x for x in d['funcs'] if os.path.realpath(x['file']) == os.path.realpath(f) and x['ln'] <= n <= x['end']]
        if not hit or not os.path.realpath(f).startswith(os.path.realpath(root)):
            return None
        for x in hit:
            drop[x['key']] = l
    if not bad:
        return None
    # ... and so are those that call one of them
    text = {x['key']: json.dumps(x) for x in d['funcs']}
    while True:
        more = [k for k, s in text.items() if k not in drop and any('"%s"' % j in s for j in drop)]
        if not more:
            break
        for k in more:
            drop[k] = 'calls a specification that does not fit the tree'
    d['funcs'] = [x for x in d['funcs'] if x['key'] not in drop]
    d['dropped'] = {k: v[:300] for k, v in drop.items()}
    return d


BASELINE = os.path.join(VERIF, 'sa', 'baseline.json')


def signatures(funcs, records):
    return {'fields': {q: [[f['name'], f['t']] for f in r['fields']] for q, r in sorted(records.items()) if not r.get('spec')},
            'funcs': sorted([f['qn'], '' if f.get('cls') else os.path.basename(f['file']), [x['t'] for x in f['params']], f['ret']]
                            for f in funcs.values() if not f.get('spec') and '(' not in f['qn'])}


def renames(funcs, records):
    """private names the specifications mention that the tree has under another name: {new: old} for members and functions"""
    try:
        base = json.load(open(BASELINE))
    except (OSError, ValueError):
        return {}, {}, set(), {}
    now = signatures(funcs, records)
    known = {n for v in base['fields'].values() for n, _ in v}
    new = {n for v in now['fields'].values() for n, _ in v} - known
    fmap, gmap, spell = {}, {}, {}
    for q, old in base['fields'].items():
        cur = now['fields'].get(q)
        if cur is None:
            continue
        have = {n for n, _ in cur}
        was = {n for n, _ in old}
        for ty in {t for _, t in old}:
            gone = [n for n, t in old if t == ty and n not in have]
            came = [n for n, t in cur if t == ty and n not in was]
            if gone and len(gone) == len(came):
                for a, b in zip(gone, came):
                    if b in new and fmap.get(b, a) == a:
                        fmap[b] = a
                    spell.setdefault(a, b)
    was = {json.dumps(x) for x in base['funcs']}
    cur = {json.dumps(x) for x in now['funcs']}
    gone, came = {}, {}
    for d, xs in ((gone, was - cur), (came, cur - was)):
        for x in xs:
            qn, file, params, ret = json.loads(x)
            d.setdefault(json.dumps([qn.rpartition('::')[0], file, params, ret]), []).append(qn)
    names = {json.loads(x)[0] for x in was}
    for k, xs in gone.items():
        if len(xs) == 1 and len(came.get(k, ())) == 1 and came[k][0] not in names:
            gmap[came[k][0]] = xs[0]
    return fmap, gmap, new - set(fmap), spell


def rename_all(d, m):
    if isinstance(d, dict):
        for k, v in d.items():
            if isinstance(v, str):
                if v in m:
                    d[k] = m[v]
            elif isinstance(v, (dict, list)):
                rename_all(v, m)
    elif isinstance(d, list):
        for i, v in enumerate(d):
            if isinstance(v, str):
                if v in m:
                    d[i] = m[v]
            elif isinstance(v, (dict, list)):
                rename_all(v, m)


def respell(err, root, m):
    """specification texts with the names the front end did not find replaced by the tree's"""
    todo = {}
    for l in err.splitlines():
        x = re.match(r"(.*?):(\d+):(\d+): error: (?:no member named|use of undeclared identifier|no type named) '(\w+)'", l)
        if x and x.group(4) in m:
            todo.setdefault(os.path.realpath(x.group(1)), set()).add((int(x.group(2)), int(x.group(3)), x.group(4)))
    n = 0
    for f, xs in todo.items():
        if not f.startswith(os.path.realpath(root)):
            continue
        lines = open(f).read().split('\n')
        for ln, col, a in sorted(xs, reverse=True):
            l = lines[ln - 1]
            if l[col - 1:col - 1 + len(a)] == a:
                lines[ln - 1] = l[:col - 1] + m[a] + l[col - 1 + len(a):]
                n += 1
        open(f, 'w').write('\n'.join(lines))
    return n


def load_raw():
    cd = cache_dir()
    th = tree_hash()
    cf = os.path.join(cd, 'ast-%s.json' % th)
    if os.path.exists(cf):
        try:
            return json.load(open(cf))
        except ValueError:
            pass
    tool = build_tool()
    work = tempfile.mkdtemp(prefix='ekfsa')
    try:
        gen = os.path.join(work, 'gen')
        os.makedirs(gen + '/infrastructure')
        vin = SRC + '/infrastructure/ekf_cal_version.hpp.in'
        if os.path.exists(vin):
            s = open(vin).read()
            s = re.sub(r'@\w+@', '0', s)
            s = re.sub(r'\$\{\w+\}', '0', s)
            open(gen + '/infrastructure/ekf_cal_version.hpp', 'w').write(s)
        srcs = sources()
        n = 6
        chunks = [srcs[i::n] for i in range(n)]
        dumps = []
        specs = []
        spec_err = {}
        sflags = lambda sp: ['-fno-access-control', '-ferror-limit=0', '-fno-color-diagnostics', '-I' + sp]
        sp = os.path.join(VERIF, 'spec')
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda ic: (ic[1],) + run_tool(tool, gen, ic[1], work, 'u%d' % ic[0]),
                              [(i, c) for i, c in enumerate(chunks) if c]))
            sres = list(ex.map(lambda ic: (ic[1],) + run_tool(tool, gen, [ic[1]], work, 'p%d' % ic[0], sp, sflags(sp)),
                               list(enumerate(spec_files()))))
            redo = []
            for c, d, err in res:
                if d is None:
                    redo += c
                else:
                    dumps.append(d)
            res = list(ex.map(lambda ic: (ic[1],) + run_tool(tool, gen, [ic[1]], work, 's%d' % ic[0]), list(enumerate(redo))))
            for c, d, err in res:
                if d is None:
                    raise Broken('does not compile: %s\n%s' % (c, err[-1500:]))
                dumps.append(d)
        funcs, records, globs, enums = {}, {}, {}, {}
        for ci, d in enumerate(dumps):
            for f in d['funcs']:
                f['chunk'] = ci
                funcs.setdefault(f['key'], f)
            for r in d['records']:
                records.setdefault(r['qn'], r)
            for g in d['globals']:
                if g['qn'] not in globs or (g['def'] and not globs[g['qn']]['def']) or (g['init'] and not globs[g['qn']]['init']):
                    globs[g['qn']] = g
            for e in d['enums']:
                enums.setdefault(e['qn'], e)
        fmap, gmap, extra, old2new = renames(funcs, records)
        old2new.update({o.split('::')[-1]: n.split('::')[-1] for n, o in gmap.items()})
        if old2new and any(err for _, _, err in sres):
            sp2 = os.path.join(work, 'spec')
            shutil.copytree(sp, sp2)
            for i, (c, d, err) in enumerate(sres):
                c2 = os.path.join(sp2, os.path.basename(c))
                for _ in range(4):
                    if not err or not respell(err.replace(sp + '/', sp2 + '/'), sp2, old2new):
                        break
                    d, err = run_tool(tool, gen, [c2], work, 'q%d' % i, sp2, sflags(sp2))
                if d is not None:
                    d = json.loads(json.dumps(d).replace(sp2 + '/', sp + '/'))
                sres[i] = (c, d, err)
        for c, d, err in sres:
            if d is None:
                spec_err[os.path.basename(c)] = err[-1500:]
            else:
                specs.append(d)
        if fmap or gmap:
            m = dict(fmap)
            m.update(gmap)
            rename_all([funcs, records, specs], m)
            short = {n: (n.split('::')[-1], o.split('::')[-1]) for n, o in gmap.items()}
            for f in funcs.values():
                for n, (a, b) in short.items():
                    if f['qn'] == gmap[n] and f['name'] == a:
                        f['name'] = b
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for d in specs:
        for f in d['funcs']:
            f['spec'] = True
            funcs.setdefault(f['key'], f)
        for g in d['globals']:
            globs.setdefault(g['qn'], g)
        for r in d['records']:
            if r['qn'] not in records:
                r['spec'] = True
                records[r['qn']] = r
    out = {'renamed': dict(fmap, **gmap), 'extra_fields': sorted(extra), 'spec_errors': spec_err, 'funcs': funcs, 'records': records, 'globals': globs, 'enums': enums, 'sources': srcs}
    for old in glob.glob(os.path.join(cd, 'ast-*.json')):
        try:
            os.unlink(old)
        except OSError:
            pass
    tmp = cf + '.%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(out, f)
    os.replace(tmp, cf)
    return out


def kind_of_type(t):
    """abstract kind of a canonical C++ type string"""
    if t is None:
        return None
    t = t.strip()
    while t.endswith('&') or t.endswith(' const'):
        t = t[:-1].strip() if t.endswith('&') else t[:-6].strip()
    if t.startswith('const '):
        t = t[6:]
    if t in ('double', 'float', 'long double'):
        return 's'
    if t == 'bool':
        return 'b'
    if t in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'unsigned char', 'signed char', 'long long',
             'unsigned long long'):
        return 'i'
    if t.startswith('Eigen::Quaternion'):
        return 'q'
    if t.startswith('Eigen::AngleAxis'):
        return 'aa'
    if t.startswith('Eigen::Transform') or t.startswith('Eigen::CommaInit') or 'QR<' in t[:60] or 'SVD<' in t[:60] or 'JacobiRotation' in t[:60]:
        return 'o'
    if t.startswith('Eigen::'):
        return 'm'
    if t.startswith('std::basic_string') or t.startswith('std::__cxx11::basic_string') or 'basic_stringstream' in t[:60] or \
            'basic_ostream' in t[:60]:
        return 'str'
    return 'o'


class Program:
    def __init__(self):
        raw = load_raw()
        self.funcs = raw['funcs']
        self.records = raw['records']
        self.globals = raw['globals']
        self.enums = raw['enums']
        import terms
        for q, e in self.enums.items():
            terms.ENUMS[q] = {v: n for n, v in e['v']}
        self.sources = raw['sources']
        self.extra_fields = set(raw.get('extra_fields', ()))
        self.renamed = raw.get('renamed', {})
        self.spec_errors = raw.get('spec_errors', {})
        self.by_qn = {}
        for k, f in self.funcs.items():
            self.by_qn.setdefault(f['qn'], []).append(f)
        self.field_kinds()
        self.subclasses = {}
        for r in self.records.values():
            for b in r['bases']:
                self.subclasses.setdefault(b, []).append(r['qn'])

    def field_kinds(self):
        m = {}
        for r in self.records.values():
            for f in r['fields']:
                k = kind_of_type(f['t'])
                d = tuple(f['dim']) if 'dim' in f else None
                if f['name'] in m and m[f['name']] != (k, d):
                    m[f['name']] = (None, None) if m[f['name']][0] != k else (k, None)
                else:
                    m[f['name']] = (k, d)
        terms.KINDS.update(m)

    def fn(self, qn, params=None, nparams=None):
        """the unique function with this qualified name (optionally selected by parameter-type substring list)"""
        c = self.by_qn.get(qn, [])
        if params is not None:
            c = [f for f in c if len(f['params']) == len(params) and all((p[1:] == q['t']) if p.startswith('=') else (p in q['t']) for p, q in zip(params, f['params']))]
        if nparams is not None:
            c = [f for f in c if len(f['params']) == nparams]
        if len(c) != 1:
            raise Broken('anchor %s: %d candidates' % (qn, len(c)))
        return c[0]

    def has(self, qn):
        return qn in self.by_qn

    def record(self, qn):
        if qn not in self.records:
            raise Broken('anchor class %s not found' % qn)
        return self.records[qn]

    def derives(self, cls, base):
        if cls == base:
            return True
        r = self.records.get(cls)
        return bool(r) and any(self.derives(b, base) for b in r['bases'])

    def find_method(self, cls, name, nparams=None):
        """method lookup through bases"""
        r = self.records.get(cls)
        if not r:
            return None
        c = [f for f in self.by_qn.get(cls + '::' + name, []) if nparams is None or len(f['params']) == nparams]
        if c:
            return c[0]
        for b in r['bases']:
            f = self.find_method(b, name, nparams)
            if f:
                return f
        return None


if __name__ == '__main__':
    p = Program()
    if '--baseline' in sys.argv:
        json.dump(signatures(p.funcs, p.records), open(BASELINE, 'w'), indent=0, sort_keys=True)
    print(len(p.funcs), 'functions', len(p.records), 'records', len(p.sources), 'sources')
    print([k for k, v in terms.KINDS.items() if v[0] is None])
