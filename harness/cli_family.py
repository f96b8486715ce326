"""C17: command line against functions, encoded configurations, rejected option sets (spec/Options*.tla, CliTrace.tla)."""
import json, os
import common as C


def run(ck):
    opts = os.path.join(ck.scratch, 'opts.ndjson')
    rc, o = ck.tlc('OptionsMC', env={'DUMP': opts})
    if rc != 0 or not os.path.exists(opts):
        raise C.MachineryError(o[-2000:])
    ck.model('OptionsMC', 'OptionsMCdeep')
    total = sum(1 for _ in open(opts))
    k = 12 if C.THOROUGH else 1

    def one(i):
        sc = os.path.join(ck.scratch, 's%d' % i)
        os.makedirs(sc)
        out = os.path.join(sc, 'trace.ndjson')
        return out, ck.driver('cli_driver.py', dict(scratch=sc, out=out, shard=i, nshards=C.NPROC, seed=C.SEED, tier=C.TIER, opts=opts, n_text=130 * k,
                                                    n_real=5 * k, n_corpus=24 * k), timeout=3000)

    res = ck.parallel(one, range(C.NPROC))
    files = [r[0] for r in res]
    rows = [json.loads(x) for f in files for x in open(f + '.rows')]
    # judged together: the options, codes and results of all of them
    allrows = os.path.join(ck.scratch, 'rows.ndjson')
    with open(allrows, 'w') as f:
        f.write(json.dumps({'id': 'rows', 'kind': 'rows', 'rows': rows}) + '\n')
    with open(allrows + '.src', 'w') as f:
        f.write(json.dumps({'id': 'rows', 'kind': 'rows', 'n': len(rows)}) + '\n')
    ck.trace('CliTrace', files + [allrows])
    counts = {}
    for _, r in res:
        ck.samples += r['samples']
        for a, v in r['counts'].items():
            if not a.startswith('t_'):
                counts[a] = counts.get(a, 0) + v
    ck.cov.update({'option_sets_in_the_model_replayable': total, 'events': counts, 'options_with_code_and_results': len(rows),
                   'configuration_strings': 'all 11904 over the documented values, and random near misses'})
    ck.assumptions += ['the identifier splitter of package spiral (not installed) is replaced by a stand-in, harness/stubs/spiral',
                       'texts starting with a dash are options to the command line and not used']
    return C.describe_src(files + [allrows])
