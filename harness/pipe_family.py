"""C10, C19: histories of corpus runs and dataset edits (spec/Pipeline*.tla)."""
import json, os, random, re
import common as C


def histories(ck, cfg, module='PipelineHist'):
    rc, out = ck.tlc(module, cfg)
    if rc != 0:
        raise C.MachineryError(out[-2000:])
    hs = [[int(x) for x in m.split(',')] for m in re.findall(r'"HIST", <<([\d, ]+)>>', out)]
    assert len(hs) > 1000, len(hs)
    return hs


def run(ck):
    ck.model('PipelineMC', 'PipelineMCdeep' if C.THOROUGH else 'PipelineMC')
    hists = histories(ck, 'PipelineHist')
    total = len(hists)
    rnd = random.Random(C.SEED)
    rnd.shuffle(hists)
    n = 208 if not C.THOROUGH else total
    hists = hists[:n]

    def one(i):
        sc = os.path.join(ck.scratch, 's%d' % i)
        os.makedirs(sc)
        o = os.path.join(sc, 'trace.ndjson')
        rep = ck.driver('pipe_driver.py', dict(scratch=sc, out=o, shard=i, seed=C.SEED, tier=C.TIER, hists=hists[i::C.NPROC], size_p=.9 if ck.prop == 'C19' else .3,
                                               n_random=150 if C.THOROUGH else 8,
                                               scenarios={0: ['same-name-same-second'], 1: ['more-than-1000-files']}.get(i, [])))
        return o, rep

    res = ck.parallel(one, range(C.NPROC))
    files = [r[0] for r in res]
    runs = sum(r['stats']['runs'] for _, r in res)
    ck.trace('PipelineTrace', files)
    ck.cov.update({'histories_in_the_model': total, 'histories_replayed': len(hists), 'random_histories': sum(r['stats']['random'] for _, r in res),
                   'runs': runs, 'references': sum(r['stats']['references'] for _, r in res)})
    for _, r in res:
        ck.samples += r['samples'][:1]
    ck.assumptions += ['the reference of a run is the same run with an empty home directory (C08 judges what that gives)',
                       'every edit gives the entities it touches a modification time later than any time in the dataset',
                       'the processes of a run are forked from one that has only imported codeprep']
    return C.describe_src(files)
