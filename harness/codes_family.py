"""C15, C16, C20: histories of learn-bpe runs, kills included, and look-ups of ids (spec/Registry*.tla, CodesTrace.tla)."""
import os, random
import common as C
from pipe_family import histories


def run(ck):
    ck.model('RegistryMC')
    if C.THOROUGH:
        ck.model('RegistryMC', 'RegistryMCdeep')
        ck.model('RegistryMC', 'RegistryMCkeys')
        ck.model('BpeLearnMC')
    hists = histories(ck, 'RegistryHist', module='RegistryHist')
    total = len(hists)
    rnd = random.Random('%s/%s' % (C.SEED, ck.prop))
    rnd.shuffle(hists)
    hists = hists[:100000 if C.THOROUGH else 320]
    ck.shim_env(ck.scratch)

    def one(i):
        sc = os.path.join(ck.scratch, 's%d' % i)
        os.makedirs(sc)
        o = os.path.join(sc, 'trace.ndjson')
        rep = ck.driver('codes_driver.py', dict(scratch=sc, out=o, shard=i, seed=C.SEED, tier=C.TIER, prop=ck.prop, hists=hists[i::C.NPROC],
                                                budget=2400 if C.THOROUGH else 110), env=ck.shim_env(sc), timeout=3600 if C.THOROUGH else 700)
        return o, rep

    res = ck.parallel(one, range(C.NPROC))
    files = [r[0] for r in res]
    ck.trace('CodesTrace', files)
    ck.cov['histories_in_the_model'] = total
    for k in ('histories', 'replayed', 'learning_runs', 'kills', 'torn_writes', 'look_ups', 'loads', 'lists', 'merges', 'hangs', 'failed'):
        ck.cov[k] = sum(r['stats'][k] for _, r in res)
    for _, r in res:
        ck.samples += r['samples'][:1]
    ck.assumptions += ['the true vocabulary of a dataset is counted from the text functions file by file (a final newline being kept, C08)',
                       'the temporary results of killed runs may stay on disk; a kill takes effect between two file operations or in the middle of a write',
                       'datasets of the same name have different modification seconds (known finding of C10 otherwise)']
    return C.describe_src(files)
