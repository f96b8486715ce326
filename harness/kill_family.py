"""C11, C13: runs killed at the k-th change of a file, then run again (spec/Pipeline*.tla)."""
import os
import common as C


def run(ck):
    ck.model('PipelineMC', 'PipelineMCdeep' if C.THOROUGH else 'PipelineMC')

    def one(i):
        sc = os.path.join(ck.scratch, 's%d' % i)
        os.makedirs(sc)
        o = os.path.join(sc, 'trace.ndjson')
        rep = ck.driver('kill_driver.py', dict(scratch=sc, out=o, shard=i, seed=C.SEED, tier=C.TIER, mode='vocab' if ck.prop == 'C13' else 'prep',
                                               budget=2400 if C.THOROUGH else 110), env=ck.shim_env(sc), timeout=3600 if C.THOROUGH else 700)
        return o, rep

    ck.shim_env(ck.scratch)
    res = ck.parallel(one, range(C.NPROC))
    files = [r[0] for r in res]
    ck.trace('PipelineTrace', files)
    for k in ('scenarios', 'kill_points', 'kills', 'torn_writes', 'reruns'):
        ck.cov[k] = sum(r['stats'][k] for _, r in res)
    ck.cov['file_operations_per_run'] = sorted(n for _, r in res for n in r['stats']['operations'])
    for _, r in res:
        ck.samples += r['samples'][:1]
    ck.assumptions += ['a kill takes effect between two file operations or in the middle of a write (a prefix is written); data written before the kill are on disk',
                       'all processes of the run are killed together']
    return C.describe_src(files)
