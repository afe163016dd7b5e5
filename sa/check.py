#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decide one property from /repo's source; writes evidence/<PROPERTY>.json"""
import json
import multiprocessing
import os
import sys
import time
import traceback
import signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import prog as pg
import terms as t
import oblig as ob
import obligations as tab
import ident


class Timeout(BaseException):
    pass


def on_alarm(*_):
    raise Timeout()


def known_findings(pid):
    """lines 'known: property=<id> obligation=<name> observable=<name> behaviour=<specification of the wrong behaviour> :: text'"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                head, _, text = l[7:].partition(' :: ')
                kv = dict(x.split('=', 1) for x in head.split())
                if kv.get('property') == pid:
                    kv['text'] = text
                    out.append(kv)
    return out


def loc(f):
    return '%s:%d %s' % (f.get('file', '?').replace('/repo/', ''), f.get('ln', 0), f['qn'])


def spec_args(P, f, g):
    meth = bool(f.get('cls')) and not f.get('static')
    args = {}
    off = 0
    if meth:
        args[0] = ('o', 'this')
        off = 1
    names = len(g['params']) - off
    if names != len(f['params']):
        raise pg.Broken('%s takes %d parameters, its specification %d' % (f['qn'], len(f['params']), names))
    for i, p in enumerate(g['params'][off:]):
        k = pg.kind_of_type(p['t'])
        v = t.sym('a%d' % i, kind=k, dim=tuple(p['dim']) if 'dim' in p else None)
        args[i + off] = ('sym', v) if p['m'] in 'rc' else v
    return args


def first(x, y, unknown):
    """(verdict or None, terms, identity test): what normal forms and an identity test without a case split show"""
    if x is y:
        return ('holds', 'normal form'), x, y, None
    if ob.has_unknown(x) or ob.has_unknown(y):
        return ('undecided', 'uses a construct outside the model: %s' % '; '.join(str(u) for u in unknown[:3])), x, y, None
    x, y = t.canon(x), t.canon(y)
    if x is y:
        return ('holds', 'normal form'), x, y, None
    r = ident.compare(x, y, {}, tries=100, seconds=15, more=2, guide=20)
    if r[0] == 'differ':
        return ('differs', {}, x, y), x, y, r
    return None, x, y, r


def second(x, y, r, until):
    """the same with a case split, every case with an identity test of its own"""
    whole = ('holds', 'identity test over %d algebras' % r[1]) if r[0] == 'equal' else ('undecided', r[1])
    tests = [0]
    spent = [0]
    open_ = []

    def oracle(a, b, facts):
        tests[0] += 1
        if tests[0] > 24 or time.time() > until:
            raise t.Undecided('too many cases need an identity test')
        t0 = time.time()
        r = ident.compare(a, b, facts, seconds=max(4, min(25, 60 - spent[0])))
        spent[0] += time.time() - t0
        if os.environ.get('SA_DEBUG'):
            print('  identity test', r, '\n   A', t.show(a)[:1500], '\n   B', t.show(b)[:1500], '\n   facts', [(t.show(k)[:200], v) for k, v in facts.items()])
        if r[0] == 'unknown':
            open_.append(r[1])
        return r[0] != 'differ'
    try:
        e = t.equal(x, y, oracle=oracle)
    except t.Undecided as ex:
        if whole[0] == 'holds':
            return whole
        r = ident.compare(x, y, {}, tries=150, seconds=60)
        if r[0] == 'differ':
            return ('differs', {}, x, y)
        if r[0] == 'equal':
            return ('holds', 'identity test over %d algebras' % r[1])
        return ('undecided', '%s; %s' % (ex, r[1]))
    if not e[0]:
        return ('differs', e[1], e[2], e[3])
    if open_ and whole[0] != 'holds':
        return ('undecided', open_[0])
    return ('holds', 'identity test' if tests[0] else 'normal form')


def decide(x, y, unknown, until=1e18):
    """('holds', how) / ('differs', facts, code, spec) / ('undecided', why)"""
    d, x, y, r = first(x, y, unknown)
    return d or second(x, y, r, until)


def library(x):
    """library constructs a term keeps as uninterpreted functions"""
    pre = ('std::', 'Eigen::', 'cv::', '__gnu_cxx::', 'boost::', 'YAML::')
    return {str(y.a[0]) for y in t.find(x, lambda y: y.op in ('fn', 'ctor') and y.a and str(y.a[0]).startswith(pre))}


def trusted(d, known):
    """a difference that involves a library construct the specification does not use may be one of notation only: no verdict"""
    if d[0] == 'differs':
        new = library(d[2]) - known
        if new:
            return ('undecided', 'uses library constructs outside the model: %s' % ', '.join(sorted(new)[:4]))
    return d


def note(r, d):
    r['verdict'] = d[0]
    if d[0] == 'holds':
        r['how'] = d[1]
    elif d[0] == 'undecided':
        r['why'] = d[1]
    else:
        r['facts'] = [(t.show(k)[:200], v) for k, v in d[1].items()]
        r['code'] = t.show(d[2])[:4000]
        r['spec'] = t.show(d[3])[:4000]


def compare(P, o, res, known, until=1e18):
    """one obligation: the summary of a repository function against the summary of its specification"""
    f = P.fn(o['fn'], params=o.get('params'), nparams=o.get('n'))
    g = P.fn('spec::' + o['spec'])
    res['where'] = loc(f)
    if o.get('record'):
        rec = P.record(o['record'])
        res['where'] = '%s:%d %s' % (rec['file'].replace('/repo/', ''), rec['ln'], rec['qn'])
    fresh = f['cls'] if f.get('ctor') else None
    a = ob.summarise(P, f, o.get('opaque'), cfg=o.get('cfg'), fresh=fresh)
    b = ob.summarise(P, g, o.get('opaque'), args=spec_args(P, f, g), cfg=o.get('cfg'), fresh=fresh)
    alt = {}
    res['functions'] = sorted(set(a.I.visited))
    res['observables'] = []
    if b.I.unknown:
        raise ob.Undecidable('specification not modelled: %s' % (b.I.unknown,))
    todo = []
    names = set()
    obs = list(ob.observables(a, b, o))
    for nm, x, y in obs:
        names |= library(y)
    for nm, x, y in obs:
        r = {'name': nm}
        res['observables'].append(r)
        d, x, y, i = first(x, y, a.I.unknown)
        if d:
            d = trusted(d, names)
            note(r, d)
        todo.append((nm, r, d, x, y, i))
    # what needs more time comes after what shows at once
    for nm, r, d, x, y, i in todo:
        if not d:
            if i[0] == 'equal':
                note(r, ('holds', 'identity test over %d algebras' % i[1]))
            d = trusted(second(x, y, i, until), names)
            note(r, d)
        if d[0] != 'differs':
            continue
        for k in known:
            if k['obligation'] == o['name'] and k['observable'].replace('~', ' ') == nm:
                q = k['behaviour']
                if q not in alt:
                    h = P.fn('spec::' + q)
                    alt[q] = ob.summarise(P, h, o.get('opaque'), args=spec_args(P, f, h), cfg=o.get('cfg'), fresh=fresh)
                for n2, x2, y2 in ob.observables(a, alt[q], o):
                    if n2 == nm and decide(x2, y2, a.I.unknown)[0] == 'holds':
                        r['verdict'] = 'known'
                        r['known'] = k['text']


def run_one(P, o, limit, known):
    res = {'obligation': o['name']}
    t0 = time.time()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        if 'rule' in o:
            o['rule'](P, res)
        else:
            sf = o['file']
            if sf in P.spec_errors:
                raise ob.Undecidable('specification file %s does not fit the tree: %s' % (sf, P.spec_errors[sf][:300]))
            compare(P, o, res, known, t0 + 0.5 * limit)
    except Timeout:
        # observables that passed a whole identity test keep that verdict
        if not res.get('observables') or any('verdict' not in x for x in res['observables']):
            res['undecided'] = 'time limit of %d s' % limit
    except (pg.Broken, ob.Undecidable, t.Undecided) as ex:
        res['undecided'] = str(ex)
    except RecursionError:
        res['undecided'] = 'recursion limit'
    except Exception as ex:
        res['undecided'] = 'internal: %s' % (traceback.format_exc(limit=-3),)
    finally:
        signal.alarm(0)
    res['wall_s'] = round(time.time() - t0, 2)
    return res


_JOB = None


def _work(i):
    # the whole check answers within its time
    left = int(_JOB[4] - time.time())
    return run_one(_JOB[0], _JOB[1][i], max(5, min(_JOB[2], left)), _JOB[3])


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    P = pg.Program()
    obs = tab.for_property(pid, tier)
    if not obs:
        print('ERROR: no obligations for', pid)
        return 2
    known = known_findings(pid)
    limit = 300 if tier == 'quick' else 600
    jobs = min(8, os.cpu_count() or 1, len(obs))
    global _JOB
    _JOB = (P, obs, limit, known, t0 + (600 if tier == 'quick' else 3000))
    if len(obs) > 1:
        # every obligation in a process of its own: terms are interned, with what is known of their kind and dimensions
        with multiprocessing.get_context('fork').Pool(1 if os.environ.get('SA_DEBUG') else jobs, maxtasksperchild=1) as pool:
            results = pool.map(_work, range(len(obs)), chunksize=1)
    else:
        results = [run_one(P, o, limit, known) for o in obs]
    viol, finding, und, held, byid = [], [], [], 0, 0
    functions = set()
    for r in results:
        functions |= set(r.get('functions', ()))
        if 'undecided' in r:
            und.append((r['obligation'], '', r['undecided']))
        for x in r.get('observables', []):
            if 'verdict' not in x:
                continue
            if x['verdict'] == 'holds':
                held += 1
                byid += x['how'] != 'normal form'
            elif x['verdict'] == 'undecided':
                und.append((r['obligation'], x['name'], x['why']))
            elif x['verdict'] == 'known':
                finding.append((r, x))
            else:
                viol.append((r, x))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    replay = os.path.join(VERIF, 'evidence', '%s.violations.txt' % pid)
    if os.path.exists(replay):
        os.unlink(replay)
    for n, x, w in und:
        print('UNDECIDED: property=%s %s%s: %s' % (pid, n, ' / ' + x if x else '', ' '.join(w.split())[:300]))
    for r, x in finding:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, r['where'], x['known']))
    if viol:
        with open(replay, 'w') as f:
            for r, x in viol:
                f.write('property %s\nconstruct %s\nobligation %s\nobservable %s\n' % (pid, r.get('where'), r['obligation'], x['name']))
                for k, v in x.get('facts', []):
                    f.write('  when %s is %s\n' % (k, v))
                f.write('  code:     %s\n  required: %s\n\n' % (x.get('code'), x.get('spec')))
        for r, x in viol:
            print('%s: %s does not meet %s' % (r.get('where'), x['name'], r['obligation']))
            for k, v in x.get('facts', [])[:6]:
                print('    when %s is %s' % (k[:140], v))
            print('    code:     %s' % x.get('code', '')[:300])
            print('    required: %s' % x.get('spec', '')[:300])
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Gated value-graph summaries (join-based abstract interpretation of the type-checked syntax tree, loops summarised as '
                           'collection operators, no path enumeration, nothing executed) of the listed functions are compared, observable by observable, with '
                           'the summaries of the reference definitions in /verif/spec; equal normal forms mean the observable is right for every input.',
            'obligations': len(obs),
            'observables_equal_in_normal_form': held - byid,
            'observables_equal_by_identity_test': byid,
            'observables_violating': len(viol),
            'observables_known_finding': len(finding),
            'undecided': ['%s %s: %s' % (n, x, w[:300]) for n, x, w in und],
            'functions_analysed': len(functions),
            'sources_parsed': len(P.sources),
            'details': [{'obligation': r['obligation'], 'where': r.get('where'), 'functions': r.get('functions', []), 'wall_s': r['wall_s'],
                         'observables': {x['name']: x.get('verdict', 'undecided') for x in r.get('observables', [])},
                         **({'checked': r['checked']} if 'checked' in r else {})} for r in results],
        },
        'assumptions': tab.ASSUMPTIONS + tab.extra_assumptions(pid),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations over %d functions, %d observables hold (%d by identity test), %d known findings, %d undecided, %d violations, %.1f s' % (
        pid, len(obs), len(functions), held, byid, len(finding), len(und), len(viol), time.time() - t0))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if held == 0 and not finding:
        print('ERROR: nothing could be decided')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
