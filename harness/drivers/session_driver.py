"""Replays histories of text-API calls, each in a process forked from one that has made no call (C07)."""
import hashlib, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep_common as P

spec = json.loads(sys.argv[1])      # scratch, out, shard, seed, tier, hists, n_random
P.setup_env(spec['scratch'])
import codeprep.api.text as T
from codeprep import config
import pygments.lexers, regex       # what a fresh process loads lazily
import textgen
for e in ('java', 'py', 'js', 'c', None):       # warm up the lexers (environment)
    P.lexemes('class A { int a = "s"; } // x\n', e)
R = textgen.init('%s/%s/session' % (spec['seed'], spec['shard']))

# ------------------------------------------------------------------ fixtures
LISTS = {}
for k in range(3):
    full = textgen.random_merges(40 + 20 * k, ['a', 'b', 'A', '1', '_', '@', '.', 'm', 'y', 'x', '0', '"', 's', 't', '$', 'r', 'i', 'n'])
    LISTS['fx%d' % k] = full
    P.write_codes({len(full): full, len(full) // 2: full[:len(full) // 2]}, nonbpe=textgen.NONBPE, words=textgen.LEXICON, id='fx%d' % k)
# encoded words of the predefined codes, as the loader accepts them
cdir = os.path.join(config.DEFAULT_BPE_CACHE_DIR, 'case', '1k')
os.makedirs(cdir)
with open(os.path.join(cdir, 'merges_cache.txt'), 'w') as f:
    for w in ('string', 'my', 'a', '$', 'i'):
        f.write('%s\t%s\n' % (w + '@', ' '.join(w) + '@'))
PREIDS = ['1k', '1k', '5k']
WORDS = ['$', 'my', 'string', 'a', 'myClass', 'x1', '"$ my@ string"', '// my string 42\n', '0x1F', 'B_b', 'i', '$a', 'été', 'strix', 'maxi', 'rinsty', '"é a"']


def ids_for_history():
    a = R.choice(sorted(LISTS))
    b = R.choice(sorted(LISTS))
    la, lb = len(LISTS[a]), len(LISTS[b])
    A = '%s-%d' % (a, R.choice([1, 3, la // 2, la]))
    B = R.choice(['%s-%d' % (b, R.choice([2, 5, lb // 2 + 1, lb])), R.choice(PREIDS)])
    if R.random() < .4:         # as many merges of another list
        b = R.choice([x for x in sorted(LISTS) if x != a])
        n = R.randint(3, min(la, len(LISTS[b])))
        A, B = '%s-%d' % (a, n), '%s-%d' % (b, n)
    if A == B:
        B = '%s-%d' % (b, 4)
    if R.random() < .3:
        A, B = (B, A) if B not in PREIDS else (A, B)
    return {'A': A, 'B': B, '0': '0'}


def text():
    if R.random() < .6:
        return ' '.join(R.choice(WORDS) for _ in range(R.randint(1, 7)))
    return textgen.program('java')


def call_key(op, ids, texts, meta):
    """A concrete call for an abstract operation."""
    t, ext = R.choice(texts)
    mode = {'bpe': 'bpe'}.get(op['m']) or R.choice(['no', 'full', 'basic', 'num', 'basic', 'chars' if op['id'] == '0' else 'no'])
    if op['id'] == '0':
        mode = 'chars'
    p = R.choice([1, .8, .5])
    c = P.cfg(mode, R.random() < p, R.random() < p, R.choice([0, 0, 0, 2, 5, 20]), R.random() < p, R.random() < p,
              True if mode not in ('basic', 'num') else R.random() < .6)
    codes = ids.get(op['id']) if mode == 'bpe' else None
    return dict(text=t, ext=ext, c=c, eof=R.random() < .3, codes=codes, meta=R.random() < .7)


def shape(res, meta):
    """Canonical text of a result."""
    if meta:
        toks, md = res
        return json.dumps([list(toks), list(md.word_boundaries), [t.__name__ for t in md.token_types], sorted(md.nonprocessable_tokens)])
    return json.dumps([list(res)])


def call(k, force):
    return P.call_text(T, k['text'], k['ext'], k['c'], k['eof'], k['codes'], force=force, meta=k['meta'])


def forked(fn):
    """Run fn in a child of this (pristine) process; its JSON result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'w') as f:
                json.dump(fn(), f)
        except BaseException as e:
            sys.stderr.write(repr(e))
            os._exit(1)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def outcome(fn, meta, keep=None):
    try:
        res = fn()
        s = shape(res, meta)
    except Exception as e:
        return 'raises ' + type(e).__name__, repr(e)[:200]
    if keep is not None:
        keep.append(res)
    return s, None


REF = {}


def ref(k):
    key = json.dumps(dict(k, meta=True))
    if key not in REF:
        REF[key] = forked(lambda: outcome(lambda: call(dict(k, meta=True), True), True))[0]
    s = REF[key]
    return s if k['meta'] or s.startswith('raises') else json.dumps(json.loads(s)[:1])


def slurp(p):
    with open(p) as f:
        return f.read()


def spit(p, s):
    with open(p, 'w') as f:
        f.write(s)


def break_codes(bid):
    """Make the codes unreadable for a moment; returns the undo."""
    name = bid.rsplit('-', 1)[0]
    d = os.path.join(config.USER_BPE_DIR, name)
    gone = R.random() < .5
    undo = []
    for n in os.listdir(d):
        if os.path.isdir(os.path.join(d, n)):
            p = os.path.join(d, n, 'merges.txt')
            undo.append((p, slurp(p)))
            if gone:
                os.remove(p)
            else:
                spit(p, 'garbage\n')

    def fn():
        for p, old in undo:
            spit(p, old)
    return fn


def run_history(ops, ids, keys):
    kept, metas, rows = [], [], []

    def fp():
        return hashlib.sha1('\n'.join(shape(r, m) for r, m in zip(kept, metas)).encode('utf-8', 'surrogatepass')).hexdigest()
    for op, k in zip(ops, keys):
        before = fp()
        n = len(kept)
        row = {'out': '', 'err': None, 'repeat': True}
        if op['m'] == 'mutate':
            if kept:
                r = kept[-1]
                toks = r[0] if metas[-1] else r
                toks.append('garbage')
                toks[0] = 'more'
                if metas[-1]:
                    r[1].word_boundaries.append(77)
                    r[1].nonprocessable_tokens.add('garbage')
                    r[1].token_types.append(int)
                kept.pop()
                metas.pop()
                before = fp()
        elif op['fail'] == 'early':
            def failing():
                if op['m'] == 'bpe':
                    return T.bpe('a b', R.choice(['nosuch-3', 'fx0-99999', 'bad', 'fx0-0', '']), force_reinit_bpe_data=op['force'])
                return R.choice([lambda: T.basic('a myB', 'java', ronin=True), lambda: T.nosplit(None, 'java'),
                                 lambda: T.basic('aB', 'java', stem=True), lambda: T.bpe(None, ids['A'])])()
            row['out'], row['err'] = outcome(failing, False)
        elif op['fail'] == 'load':
            undo = break_codes(ids[op['id']])
            try:
                row['out'], row['err'] = outcome(lambda: call(k, op['force']), k['meta'])
            finally:
                undo()
        else:
            keep = []
            row['out'], row['err'] = outcome(lambda: call(k, op['force']), k['meta'], keep)
            if keep:
                kept += keep
                metas.append(k['meta'])
            after = hashlib.sha1('\n'.join(shape(r, m) for r, m in zip(kept[:n], metas)).encode('utf-8', 'surrogatepass')).hexdigest()
            row.update(before=before, after=after)
            if keep and (op['m'] != 'bpe' or op['force']) and R.random() < .3:
                again = call(k, op['force'])
                row['repeat'] = bool(again == keep[0]) and not (again != keep[0] and type(again) is list)
        row.setdefault('before', before)
        row.setdefault('after', fp())
        rows.append(row)
    return rows


MODEL_OPS = [('plain', '-', True, 'no'), ('plain', '-', True, 'early'), ('bpe', 'A', True, 'no'), ('bpe', 'A', False, 'no'),
             ('bpe', 'B', True, 'no'), ('bpe', 'B', False, 'no'), ('bpe', '0', True, 'no'), ('bpe', '-', False, 'early'),
             ('bpe', 'A', True, 'load'), ('bpe', 'A', False, 'load'), ('mutate', '-', True, 'no')]
OPS = [dict(zip(('m', 'id', 'force', 'fail'), o)) for o in MODEL_OPS]

hists = [h for h in spec['hists']]
for _ in range(spec['n_random']):
    hists.append([R.choice([1, 1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 7, 8, 9, 10, 11]) for _ in range(R.randint(6, 14))])
out = P.Out(spec['out'])
src = open(spec['out'] + '.src', 'w')
calls = 0
samples = []
POOL = []
for _ in range(10 if spec['tier'] == 'thorough' else 5):
    ids = ids_for_history()
    if ids['A'] in PREIDS:
        ids['A'], ids['B'] = ids['B'], ids['A']
    texts = [(text(), R.choice(['java', 'java', 'py', 'js', None])) for _ in range(3)]
    texts.append((texts[0][0], R.choice(['py', 'c', 'java'])))
    POOL.append((ids, {(o['m'], o['id']): [call_key(o, ids, texts, True) for _ in range(5)] for o in OPS if o['m'] != 'mutate'}))
for i, h in enumerate(hists):
    ops = [OPS[x - 1] for x in h]
    ids, pool = R.choice(POOL)
    keys = [R.choice(pool[op['m'], op['id']]) if op['m'] != 'mutate' else None for op in ops]
    rows = forked(lambda: run_history(ops, ids, keys))
    ev = []
    for op, k, row in zip(ops, keys, rows):
        rf = ref(k) if op['fail'] == 'no' and op['m'] != 'mutate' else ''
        calls += 1
        h1 = lambda s: s if s.startswith('raises') else hashlib.sha1(s.encode('utf-8', 'surrogatepass')).hexdigest()
        ev.append(dict(op, id=ids.get(op['id'], '-'), out=h1(row['out']), ref=h1(rf), before=row['before'], after=row['after'], repeat=row['repeat']))
    tid = '%d:%d' % (spec['shard'], i)
    out.put({'id': tid, 'calls': ev})
    src.write(json.dumps({'id': tid, 'calls': [dict(op=op, call=k, out=row['out'][:2000], err=row['err'], ref=(ref(k)[:2000] if op['fail'] == 'no' and k else None))
                                               for op, k, row in zip(ops, keys, rows)]}) + '\n')
    if i % 97 == 5 and len(samples) < 2:
        samples.append([{'m': o['m'], 'id': o['id'], 'force': o['force'], 'fail': o['fail']} for o in ev])
out.close()
src.close()
print(json.dumps({'calls': calls, 'histories': len(hists), 'refs': len(REF), 'samples': samples}))
