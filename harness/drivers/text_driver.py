"""Runs the text API on generated texts and records lexemes, calls and results (text family: C01-C06)."""
import itertools, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep_common as P, standins

spec = json.loads(sys.argv[1])      # scratch, out, shard, nshards, seed, tier
P.setup_env(spec['scratch'])
import codeprep.api.text as T
from codeprep import config

FOCUS, THOROUGH = spec['focus'], spec['tier'] == 'thorough'
import textgen
from textgen import X, EXTS, enumerated, program, random_merges, soup, tree_merges
R = textgen.init('%s/%s/%s' % (spec['seed'], spec['shard'], spec['focus']), THOROUGH)

CUSTOM = {}
for k in range(3):
    full = random_merges(40 + 30 * k, ['a', 'b', 'A', '1', '_', '@', '.', 'm', 'y', 'x', '0', '"', X[0], '\xa0', 'o', 's', 't', '\xf7'])
    sizes = sorted(set([1, 2, 3, 7, len(full) // 2, len(full)]))
    P.write_codes({len(full): full, len(full) // 2: full[:len(full) // 2]}, nonbpe=textgen.NONBPE, words=textgen.LEXICON, id='fix%d' % k)
    for n in sizes:
        CUSTOM['fix%d-%d' % (k, n)] = full[:n]
# lists in which a merge may come before those that make its parts (possible once a later merge has been applied), the last
# two spread over thousands of merges that no text here can use
for k in range(3, 6):
    full = tree_merges(textgen.LEXICON)
    if k > 3:
        pad = [(chr(0x4e00 + i // 97), chr(0x5e00 + i % 97)) for i in range(900 * (k - 1))]
        at = sorted(R.sample(range(len(pad)), len(full)))
        for i, m in reversed(list(zip(at, full))):
            pad.insert(i, m)
        full = pad
    P.write_codes({len(full): full}, nonbpe=textgen.NONBPE, words=textgen.LEXICON, id='mix%d' % k)
    for n in (len(full), len(full) // 2):
        CUSTOM['mix%d-%d' % (k, n)] = full[:n]
PRE = {}
for name in ('1k', '5k', '10k'):
    PRE[name] = P.read_merge_file(os.path.join(config.DEFAULT_BPE_DIR, 'case', name, 'merges.txt'))


def record(out, tid, text, ext):
    try:
        lex = P.lexemes(text, ext)
    except Exception:
        return False            # not a text this lexer accepts
    hay = P.haystack(''.join(chr(c) for x in lex for c in x['v'] + [0]))
    e = {'id': tid, 'lex': lex, 'merges': [], 'calls': []}
    calls = e['calls']

    def add(c, base, codes=None, eof=None, max_arg=None):
        m = 0
        eof = R.random() < .3 if eof is None else eof
        if c['mode'] == 'bpe':
            ms = PRE.get(codes) or CUSTOM[codes]
            ms = P.relevant_merges(ms, hay)
            e['merges'].append([[P.cps(a), P.cps(b)] for a, b in ms])
            m = len(e['merges'])
        out_ = P.result_json(lambda: P.call_text(T, text, ext, c, eof, codes, max_arg=max_arg))
        cc = dict(c)
        if cc['mode'] == 'chars':
            cc['mode'] = 'bpe'
        calls.append({'cfg': cc, 'eof': eof, 'm': m, 'base': base, 'out': out_})
        return len(calls)

    no = add(P.cfg('no'), 0)
    full = add(P.cfg('full'), 0)
    custom = R.choice(sorted(CUSTOM))
    pre = R.choice(['1k', '5k', '10k']) if FOCUS == 'bpe' or R.random() < .15 else None
    base = {('no', True): no, ('full', True): full}
    base['basic', True] = add(P.cfg('basic'), no)
    base['basic', False] = add(P.cfg('basic', case=False), no)
    cs = R.random() < .5
    base['num', cs] = add(P.cfg('num', case=cs), no)
    if FOCUS == 'plain' and R.random() < .4 or FOCUS == 'filters' and R.random() < .2:
        m = R.choice(['ronin', 'stem'])
        if m == 'ronin' or text.isascii():
            cs = R.random() < .6
            base[m, cs] = add(P.cfg(m, case=cs), no)
    base['chars', True] = add(P.cfg('chars'), full)
    codes = pre or custom
    base['bpe', True] = add(P.cfg('bpe'), full, codes)
    if FOCUS == 'bpe':
        for c2 in R.sample(sorted(CUSTOM), 3) + R.sample([x for x in sorted(CUSTOM) if x[:3] == 'mix'], 2):
            add(P.cfg('bpe'), full, c2)
    lens = sorted({len(x['v']) for x in lex if x['p'][:2] == ['Literal', 'String'] and 2 <= len(x['v']) <= 61})
    for _ in range(14 if FOCUS == 'filters' else 5):
        mode, case = R.choice(sorted(base))
        mx = R.choice([0, 0, 2, 3, 10, 30, 61] + [v for n in lens for v in (max(2, n - 1), n, min(61, n + 1))])
        p = R.choice([.5, .8])
        c = P.cfg(mode, R.random() < p, R.random() < p, mx, R.random() < p, R.random() < p, case)
        if c['com'] and c['str'] and c['spaces'] and c['unicode'] and not c['max']:
            c[R.choice(['com', 'str', 'spaces', 'unicode'])] = False
        add(c, base[mode, case], codes)
    out.put(e)
    return True


out = P.Out(spec['out'])
stats = {'texts': 0, 'rejected': 0, 'kinds': {}}
samples = []
enum = enumerated()
mine = [enum[i] for i in range(spec['shard'], len(enum), spec['nshards'])]
if not THOROUGH and FOCUS in ('bpe', 'filters'):
    mine = mine[::3]
todo = [('enum', t, x) for t, x in mine]
for i in range(spec['n']):
    ext = R.choice(EXTS)
    todo.append(('program', program(ext), ext) if i % 7 else ('soup', soup(R.randint(0, 40)), ext))
if spec['shard'] == 0:
    todo += [('edge', t, x) for x in ('java', 'py', 'html', None, 'zzz') for t in
             ['', '\n', '\n\n', ' ', '    ', '\t', '        \n', '"', '""', '" "', '"    "', '//', '// a', '/**/', '/* */', '#', 'a', '\na', 'a\n', 'a\n\n', '\xa0', '\x85',
              '@', '"@"', '"@@"', 'a@', '<EOF>', '</t>', '0', '1', '0x', '0X1F', 'ſ', 'ǅ', 'aǅ', 'İ', 'Kk', 'ŉ', 'ß', 'AßB', 'ﬁx', '"ﬁ É"', '\ud800', 'ª', 'aªB',
              '// é É\n', '"' + 'é' * 30 + '"', '"' + ' ' * 59 + '"', '"' + ' ' * 60 + '"', '"' + ' ' * 61 + '"', 'a' * 300, 'aB' * 100]]
with open(spec['uni'], 'w') as f:
    for r in P.uni_table({ord(c) for _, t, _ in todo for c in t})[0]:
        f.write(json.dumps(r) + '\n')
for i, (kind, text, ext) in enumerate(todo):
    tid = '%d:%d' % (spec['shard'], i)
    if record(out, tid, text, ext):
        stats['texts'] += 1
        stats['kinds'][kind] = stats['kinds'].get(kind, 0) + 1
        if len(samples) < 3 and kind != 'enum':
            samples.append({'ext': ext, 'text': text[:200].encode('unicode-escape').decode()})
    else:
        stats['rejected'] += 1
out.close()
with open(spec['out'] + '.src', 'w') as f:
    for i, (kind, text, ext) in enumerate(todo):
        f.write(json.dumps({'id': '%d:%d' % (spec['shard'], i), 'kind': kind, 'text': text, 'ext': ext}) + '\n')
print(json.dumps({'stats': stats, 'samples': samples}))
