"""C12: vocabularies under schedules of the merging processes (spec/VocabMerge*.tla) and with real processes (spec/VocabTrace.tla)."""
import os, re
import common as C


def schedules(ck, n):
    """Complete runs of the model."""
    res = []
    for m in (2, 3):
        rc, out = ck.tlc('VocabSched', 'VocabSched%d' % m, args=['-simulate', 'num=%d' % n, '-depth', '120', '-seed', str(C.SEED)])
        for x in re.findall(r'<<\s*"SCHED",\s*(\d+),\s*<<([\d,\s]*)>>,\s*<<([\d,\s]*)>>', out):
            res.append([int(x[0]), [int(y) for y in x[1].split(',')], [int(y) for y in x[2].split(',')]])
    if len(res) < n:
        raise C.MachineryError('only %d schedules generated\n%s' % (len(res), out[-2000:]))
    return res


def run(ck):
    ck.model('VocabMergeMC')
    ck.model('VocabMergeMC', 'VocabMergeMC3')
    if C.THOROUGH:
        ck.model('VocabMergeMC', 'VocabMergeMCdeep')
    scheds = schedules(ck, 4000 if C.THOROUGH else 500)
    secs = (600, 900) if C.THOROUGH else (40, 35)

    def one(i):
        res = []
        for k, name in ((0, 'vocabsim_driver.py'), (1, 'vocab_driver.py')):
            sc = os.path.join(ck.scratch, 's%d_%d' % (i, k))
            os.makedirs(sc)
            o = os.path.join(sc, 'trace.ndjson')
            res.append((o, ck.driver(name, dict(scratch=sc, out=o, shard=i, nshards=C.NPROC, seed=C.SEED, tier=C.TIER, scheds=scheds[i::C.NPROC],
                                                seconds=secs[k]), timeout=secs[k] * 3 + 600)))
        return res

    res = ck.parallel(one, range(C.NPROC))
    files = [r[k][0] for r in res for k in (0, 1)]
    ck.trace('VocabTrace', files)
    for k in (0, 1):
        for s in res[0][k][1]['stats']:
            ck.cov[('simulated_' if k == 0 else 'real_') + s] = sum(r[k][1]['stats'][s] for r in res)
    for r in res[:2]:
        ck.samples += r[0][1]['samples'][:1] + r[1][1]['samples'][:1]
    if not ck.cov['simulated_usable']:
        ck.log_lines.append('schedules not simulated')
    ck.assumptions += ['simulated processes share nothing but queues and locks; what is put into a queue arrives some time later; waits with a timeout '
                       'end only when nobody else can move', 'a corpus has at least one output file']
    return C.describe_src(files)
