"""Runs the BPE learner on enumerated and random base vocabularies, in one go and resumed (C14)."""
import itertools, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep_common as P

spec = json.loads(sys.argv[1])      # scratch, out, shard, nshards, seed, tier
P.setup_env(spec['scratch'])
import codeprep.bpepkg.bpe_learn as L
from codeprep.bpepkg.bpe_encode import encode_word, escape
L.tqdm = lambda it, **kw: it        # no progress bars
thorough = spec['tier'] == 'thorough'
shard, nsh = spec['shard'], spec['nshards']
R = random.Random('%s/%s/learn' % (spec['seed'], shard))
out = P.Out(spec['out'])
src = open(spec['out'] + '.src', 'w')
counts = {}


def syms(s):
    return [P.cps(x) for x in s.split(' ')]


def learn(base, ns, kind):
    """base: {word: freq}; ns: numbers of merges of consecutive parts."""
    ev = {'id': '%d:%d' % (shard, out.n), 'ok': True, 'base': [{'w': P.cps(w), 'f': f} for w, f in base.items()], 'parts': []}
    note = ''
    try:
        voc = {escape(' '.join(w)): f for w, f in base.items()}
        total = None
        for n in ns:
            given = dict(voc)
            voc, ms = L.do_merges(voc, n)
            total = ms if total is None else total + ms
            ev['parts'].append({'n': n, 'merges': [{'p': [P.cps(m.pair[0]), P.cps(m.pair[1])], 'f': m.freq} for m in ms],
                                'voc': [{'s': syms(k), 'f': v} for k, v in voc.items()],
                                'enc': [[P.cps(x) for x in encode_word(escape(w, merged=True), total)] for w in base],
                                'counts': [{'y': P.cps(k), 'n': v} for k, v in L.create_resulting_vocab(voc).items()],
                                'cache': [{'k': P.cps(k), 'v': [P.cps(x) for x in v]} for k, v in L.create_bpe_cache(voc).items()]})
    except Exception as e:
        ev['ok'] = False
        note = repr(e)
    out.put(ev)
    src.write(json.dumps({'id': ev['id'], 'base': base, 'n_merges': ns, 'note': note}) + '\n')
    counts[kind] = counts.get(kind, 0) + 1


# every vocabulary of one word up to length 7 (8) and of two words up to length 3 (4) over {a, b}
k = 0
one = [''.join(p) for n in range(1, 9 if thorough else 8) for p in itertools.product('ab', repeat=n)]
two = [''.join(p) for n in range(1, 5 if thorough else 4) for p in itertools.product('ab', repeat=n)]
bases = [{w: f} for w in one for f in (1, 3)]
bases += [{u: f, v: g} for u, v in itertools.combinations(two, 2) for f, g in ((1, 1), (1, 2), (2, 1))]
for b in bases:
    k += 1
    if k % nsh == shard:
        learn(b, R.choice([[20], [20], [2, 20], [1, 1, 1, 20], [0], [3], [1, 0, 2]]), 'enumerated')

ODD = ['.', '*', '+', '^', '$', '|', '(', ')', '[', ']', '{', '\\', '?', '@', '\n', '\t', '\r', '\x0b', '\x1c', '\x85', '\xa0', '\u2028', 'é', '\U0001f600', '#', '"', '-', '0']
for i in range(900 if thorough else 130):
    m = R.random()
    if m < .3:
        al = R.sample('abcd', R.randint(1, 3))
    elif m < .75:
        al = R.sample(ODD, R.randint(1, 4)) + R.sample('ab', R.randint(0, 2))
    else:
        al = list('etaoinshrdlu_')
    mx = R.choice([3, 5, 9, 14])
    b = {}
    for _ in range(R.randint(1, R.choice([2, 5, 9]))):
        w = ''.join(R.choice(al) for _ in range(R.randint(1, mx)))
        if m > .75 and b and R.random() < .5:      # shared stems
            w = R.choice(list(b))[:4] + w[:5]
        b[w] = R.choice([1, 1, 2, 3, 7, 100])
    ns = R.choice([[40], [R.randint(0, 12)], [R.randint(0, 5), R.randint(0, 9)], [1, 2, 3, 40]])
    learn(b, ns, 'random')
out.close()
src.close()
print(json.dumps({'counts': counts}))
