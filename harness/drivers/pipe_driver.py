"""Replays histories of corpus runs and dataset edits (C10, C19); the histories come from PipelineHist.tla or are random."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep_common as P
from pipelib import spec, R, Dataset, History, CONFS, REQS, REF, T0, stats, src


def pick_confs():
    while True:
        a, b = R.sample(CONFS, 2)
        if (a[1] is None) == (b[1] is None) or R.random() < .3:
            return a, b


out = P.Out(spec['out'])
stats.update({'histories': 0, 'runs': 0, 'random': 0})

for i, h in enumerate(spec['hists']):
    tid = '%d:%d' % (spec['shard'], i)
    H = History(out, tid, {'history': h})
    ds = Dataset(os.path.join(H.base, R.choice(['proj', 'a b', 'p_java'])), T0)
    confs, reqs = pick_confs(), R.choice(REQS)
    for o in h:
        if o > 16:
            H.edit(ds, o - 16)
        else:
            o -= 1
            c, codes = confs[o % 2]
            H.run(ds, reqs[o // 2 % 2], o // 4 % 2, c, codes, bool(o // 8), R.random() < spec['size_p'])
            stats['runs'] += 1
    H.end()
    stats['histories'] += 1

for i in range(spec['n_random']):
    tid = '%d:r%d' % (spec['shard'], i)
    H = History(out, tid, {'history': 'random'})
    ds = Dataset(os.path.join(H.base, 'proj'), T0)
    others = [Dataset(os.path.join(H.base, 'other', 'proj'), T0 + 77777), Dataset(os.path.join(H.base, 'proj2'), T0), ]
    confs = R.sample(CONFS, 3)
    reqs = R.choice(REQS)
    for _ in range(R.randint(4, 9)):
        d = ds if R.random() < .75 else R.choice(others)
        if R.random() < .4:
            H.edit(d, R.randint(1, 12))
            while d.clock in [x.clock for x in [ds] + others if x is not d]:
                H.edit(d, 1)
        c, codes = R.choice(confs)
        H.run(d, R.choice(reqs), R.randint(0, 1), c, codes, R.random() < .5, R.random() < spec['size_p'], R.choice([1, 1, 1, 2, 4]), R.random() < .15)
        stats['runs'] += 1
    H.end()
    stats['random'] += 1

for sc in spec['scenarios']:
    tid = '%d:%s' % (spec['shard'], sc)
    H = History(out, tid, {'scenario': sc})
    c = P.cfg('no')
    if sc == 'same-name-same-second':
        a = Dataset(os.path.join(H.base, 'p', 'proj'), T0)
        b = Dataset(os.path.join(H.base, 'q', 'proj'), T0)
        H.run(a, 'java', 0, c, None, True, True)
        H.run(b, 'java', 1, c, None, True, True)
    elif sc == 'more-than-1000-files':
        a = Dataset(os.path.join(H.base, 'proj'), T0)
        os.makedirs(os.path.join(a.root, 'many'))
        for k in range(1100):
            n = 'many/f%d.txt' % k
            with open(os.path.join(a.root, n), 'w') as f:
                f.write('x')
            a.t[n] = T0
        a.t['many'] = T0
        os.makedirs(os.path.join(a.root, 'many', 'zz'))
        a.t['many/zz'] = T0
        a.t['many/zz/last.java'] = T0
        a.write('many/zz/last.java')
        a.stamp()
        H.run(a, 'java', 0, c, None, False, False)
        a.clock += 100
        a.write('many/zz/last.java')
        a.t['many/zz/last.java'] = a.clock
        a.stamp()
        H.run(a, 'java', 0, c, None, False, False)
    H.end()
out.close()
with open(spec['out'] + '.src', 'w') as f:
    for s in src:
        f.write(json.dumps(s) + '\n')
print(json.dumps({'stats': dict(stats, references=len(REF)), 'samples': src[:2]}))
