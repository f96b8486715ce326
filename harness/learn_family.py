"""C14: the BPE learner (spec/BpeLearn*.tla)."""
import json, os
import common as C


def run(ck):
    ck.model('BpeLearnMC', 'BpeLearnMC' if C.THOROUGH else 'BpeLearnMC1')

    def one(i):
        sc = os.path.join(ck.scratch, 's%d' % i)
        os.makedirs(sc)
        o = os.path.join(sc, 'trace.ndjson')
        return o, ck.driver('learn_driver.py', dict(scratch=sc, out=o, shard=i, nshards=C.NPROC, seed=C.SEED, tier=C.TIER))

    res = ck.parallel(one, range(C.NPROC))
    files = [r[0] for r in res]
    ck.trace('BpeLearnTrace', files)
    c = {}
    for _, r in res:
        for k, v in r['counts'].items():
            c[k] = c.get(k, 0) + v
    ck.cov.update({'vocabularies': c})
    ck.samples.append({'base': {'aab': 1, 'ab': 2}, 'parts': [2, 20]})

    def describe(b):
        for f in files:
            for line in open(f + '.src'):
                s = json.loads(line)
                if s['id'] == b[2]:
                    return dict(s, clause=b[1])
        return {'clause': b[1]}
    return describe
