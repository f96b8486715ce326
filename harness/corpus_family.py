"""C08: corpus preprocessing against text preprocessing (spec/CorpusTrace.tla)."""
import json, os
import common as C


def run(ck):
    n = 400 if C.THOROUGH else 45

    def one(i):
        sc = os.path.join(ck.scratch, 's%d' % i)
        os.makedirs(sc)
        out, uni = os.path.join(sc, 'trace.ndjson'), os.path.join(sc, 'uni.ndjson')
        rep = ck.driver('corpus_driver.py', dict(scratch=sc, out=out, uni=uni, shard=i, seed=C.SEED, tier=C.TIER, n=n))
        return out, rep

    res = ck.parallel(one, range(C.NPROC))
    files = [r[0] for r in res]
    ck.trace('CorpusTrace', files, env=lambda f: {'UNI': os.path.join(os.path.dirname(f), 'uni.ndjson')})
    tot = {}
    for _, r in res:
        ck.samples += r['samples']
        for k, v in r['stats'].items():
            if isinstance(v, dict):
                for a, b in v.items():
                    tot.setdefault(k, {})[a] = tot.get(k, {}).get(a, 0) + b
            else:
                tot[k] = tot.get(k, 0) + v
    ck.cov.update(tot)
    ck.assumptions += ['what text preprocessing gives for a content is the subject of C01-C06',
                       'no file name equals another one plus a suffix that codeprep uses for intermediate files']
    return C.describe_src(files)
