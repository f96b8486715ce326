"""C18: token iterators and the metadata check (spec/Iter*.tla)."""
import json, os
import common as C


def run(ck):
    ck.model('IterMC')

    def one(i):
        sc = os.path.join(ck.scratch, 's%d' % i)
        os.makedirs(sc)
        o = os.path.join(sc, 'trace.ndjson')
        return o, ck.driver('iter_driver.py', dict(scratch=sc, out=o, shard=i, nshards=C.NPROC, seed=C.SEED, tier=C.TIER))

    res = ck.parallel(one, range(C.NPROC))
    files = [r[0] for r in res]
    ck.trace('IterTrace', files)
    c = {}
    for _, r in res:
        for k, v in r['counts'].items():
            c[k] = c.get(k, 0) + v
    ck.cov.update({'events': c, 'exhaustive': 'all boundaries of lists up to 8 subtokens (10 thorough), all integer sequences up to length 3 as wrong boundaries'})
    ck.samples.append('FullTokenIterator over 8 subtokens with boundaries [0,3,8], formats list/sum/default, with and without index')

    def describe(b):
        for f in files:
            for line in open(f + '.src'):
                s = json.loads(line)
                if s['id'] == b[2]:
                    return {'clause': b[1], 'case': s}
        return {'clause': b[1]}
    return describe
