"""C07: histories of text-API calls in one process (spec/Session*.tla)."""
import json, os, re
import common as C


def run(ck):
    ck.model('SessionMC', 'SessionMC5')
    cfg = 'SessionMC4' if C.THOROUGH else 'SessionMC'
    rc, out = ck.tlc('SessionMC', cfg)
    if rc != 0:
        raise C.MachineryError(out[-2000:])
    hists = [[int(x) for x in m.split(',')] for m in re.findall(r'"HIST", <<([\d, ]+)>>', out)]
    gen, dist = ck.counts(out)
    assert len(hists) > 1000, len(hists)

    def one(i):
        sc = os.path.join(ck.scratch, 's%d' % i)
        os.makedirs(sc)
        o = os.path.join(sc, 'trace.ndjson')
        rep = ck.driver('session_driver.py', dict(scratch=sc, out=o, shard=i, seed=C.SEED, tier=C.TIER, hists=hists[i::C.NPROC],
                                                  n_random=600 if C.THOROUGH else 60))
        return o, rep

    res = ck.parallel(one, range(C.NPROC))
    files = [r[0] for r in res]
    ck.trace('SessionTrace', files)
    ck.cov.update({'histories_from_the_model': len(hists), 'histories': sum(r['histories'] for _, r in res),
                   'calls': sum(r['calls'] for _, r in res), 'fresh_process_references': sum(r['refs'] for _, r in res)})
    for _, r in res:
        ck.samples += r['samples']
    ck.assumptions += ['a process forked before any call stands for a fresh process (the modules are imported, nothing has been called)',
                       'files of BPE codes are not changed while a process uses them, except where a load is made to fail']

    def describe(b):
        for f in files:
            for line in open(f + '.src'):
                s = json.loads(line)
                if s['id'] == b[2]:
                    return {'clause': b[1], 'history': s['calls'], 'call': int(b[3])}
        return {'clause': b[1]}
    return describe
