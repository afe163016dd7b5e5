"""Rules over the whole program: constructs that must not occur."""
import re

ENTROPY = re.compile(
    r'^(std::)?(rand|srand|random|srandom|drand48|lrand48|rand_r|arc4random|getrandom|time|clock|gettimeofday|clock_gettime|getpid|getenv)$'
    r'|^std::random_device\b|^std::this_thread::get_id$|^cv::(theRNG|randu|randn|randShuffle|setRNGSeed|getTickCount)$|^Eigen::.*::(Random|setRandom|random)$|^Eigen::internal::random'
    r'|^std::(shuffle|random_shuffle|sample)$')
CLOCK = re.compile(r'^std::chrono::.*::now$')
ENGINE = re.compile(r'^(const )?(std::)?(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|shuffle_order_engine|'
                    r'independent_bits_engine|random_device)\b|^cv::RNG\b')
HOME = '/utility/sim/sim_rng.'


def nodes(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def one_generator(P, res):
    """every random number of the simulation comes from the one seeded generator"""
    bad = []
    funcs = sites = 0
    for f in P.funcs.values():
        if f.get('spec') or '/src/' not in f['file']:
            continue
        funcs += 1
        home = HOME in f['file']
        sim = '/sim/' in f['file']
        for n in nodes(f):
            k = n.get('k')
            if k is None and 'init' not in n:
                continue
            at = '%s:%s %s' % (f['file'].split('/repo/')[-1], n.get('ln', f['ln']), f['qn'])
            if k == 'Call':
                sites += 1
                c = re.sub(r'<[^()]*>', '', n.get('f') or '')
                if ENTROPY.search(c):
                    bad.append((at, 'calls %s' % n['f']))
                elif sim and CLOCK.search(c):
                    bad.append((at, 'reads the clock with %s' % n['f']))
            elif k == 'Ctor' and not home and not n.get('copy') and ENGINE.search(n.get('cls') or ''):
                bad.append((at, 'makes a generator of its own, %s' % n['cls']))
            elif k == 'Ref' and not home and ENGINE.search(n.get('t') or '') and n.get('g'):
                bad.append((at, 'uses the generator %s directly' % n.get('qn')))
            elif k == 'Ctor' and 'random_device' in (n.get('cls') or ''):
                bad.append((at, 'uses %s' % n['cls']))
    res['where'] = 'whole program'
    res['checked'] = '%d functions, %d call sites' % (funcs, sites)
    res['observables'] = [{'name': 'sources of randomness', 'verdict': 'holds', 'how': 'normal form'}] if not bad else [
        {'name': 'source of randomness at ' + at, 'verdict': 'differs', 'code': what, 'spec': 'random numbers come from SimRNG only, nothing else differs between two runs'}
        for at, what in bad]
