"""C01-C06: single calls of the text API against the functional specification (spec/TextTrace.tla)."""
import json, os
import common as C

FOCUS = {'C01': 'plain', 'C02': 'plain', 'C03': 'plain', 'C04': 'filters', 'C05': 'bpe', 'C06': 'plain'}


def run(ck):
    focus = FOCUS[ck.prop]
    n = {'plain': 60, 'filters': 45, 'bpe': 45}[focus] * (10 if C.THOROUGH else 1)

    def one(i):
        sc = os.path.join(ck.scratch, 's%d' % i)
        os.makedirs(sc)
        out, uni = os.path.join(sc, 'trace.ndjson'), os.path.join(sc, 'uni.ndjson')
        rep = ck.driver('text_driver.py', dict(scratch=sc, out=out, uni=uni, shard=i, nshards=C.NPROC, seed=C.SEED, tier=C.TIER, focus=focus, n=n))
        return out, rep

    res = ck.parallel(one, range(C.NPROC))
    files = [r[0] for r in res]
    ck.trace('TextTrace', files, env=lambda f: {'UNI': os.path.join(os.path.dirname(f), 'uni.ndjson')})
    calls = 0
    for f in files:
        for line in open(f):
            calls += line.count('"cfg":')
    kinds = {}
    for _, r in res:
        ck.samples += r['samples']
        for k, v in r['stats']['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
    ck.cov.update({'texts': kinds, 'api_calls': calls, 'texts_rejected_by_lexer': sum(r['stats']['rejected'] for _, r in res)})
    ck.assumptions += ['pygments (the lexer) and the regex/Unicode tables are environment: lexemes and character facts are taken from them',
                       'the splitter of package spiral (not installed) and the stemmer of nltk are replaced by stand-ins (harness/drivers/standins.py)']
    return describe_with(files)


def describe_with(files):
    def describe(b):
        for f in files:
            src = f + '.src'
            for line in open(src):
                s = json.loads(line)
                if s['id'] == b[2]:
                    d = {'clause': b[1], 'text': s['text'], 'ext': s['ext']}
                    for ev in open(f):
                        e = json.loads(ev)
                        if e['id'] == b[2]:
                            call = e['calls'][int(b[3]) - 1]
                            d.update(cfg=call['cfg'], eof=call['eof'], err=call['out'].get('err'),
                                     tokens=[''.join(map(chr, t)) for t in call['out']['toks']],
                                     wb=call['out']['wb'], types=call['out']['ty'])
                    return d
        return {'clause': b[1], 'event': b[2]}
    return describe
