"""Writes data with the code under test and reads it back with its readers (C09)."""
import itertools, json, os, random, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep_common as P

spec = json.loads(sys.argv[1])      # scratch, out, shard, nshards, seed, tier
P.setup_env(spec['scratch'])
from codeprep.util import to_literal_str, to_non_literal_str
from codeprep.pipeline import vocab as V
from codeprep.pipeline.dataset import Dataset
from codeprep.pipeline.bpelearner import load_nonbpe_vocab
from codeprep.pipeline.to_repr import to_token_str
from codeprep.preprocess.metadata import PreprocessingMetadata, save_metadata
from codeprep.bpepkg.cache import dump_bpe_cache, read_bpe_cache
from codeprep.bpepkg.merge import Merge, MergeList, dump_merges, read_merges
from codeprep.api.text import create_prep_config
import textgen
thorough = spec['tier'] == 'thorough'
shard, nsh = spec['shard'], spec['nshards']
R = textgen.init('%s/%s/store' % (spec['seed'], shard))
out = P.Out(spec['out'])
src = open(spec['out'] + '.src', 'w')
counts = {}
TMP = os.path.join(spec['scratch'], 'f')
DELIMS = ['\t', '\n', '\r', '\\', 'n', 'x', 'u', 'N', '0', '\x0b', '\x0c', '\x00', '\x1c', '\x1e', '\x7f', '\x85', '\xa0', '\u2028', '\u2029',
          '\U0001f600', '\ud800', 'é', '"', "'", '#', ':', '|', '{', '\ufeff', '\u200b']


def rawfile(p):
    with open(p, 'rb') as f:
        return P.cps(f.read().decode('utf-8', 'surrogateescape'))


def put(kind, fn, data, delim=0, delim2=0):
    """fn() -> (written, back, raw, nrec, fields, fields2)"""
    counts[kind] = counts.get(kind, 0) + 1
    ev = {'id': '%d:%d' % (shard, out.n), 'kind': kind, 'raised': False, 'delim': delim, 'delim2': delim2, 'written': [], 'back': [], 'raw': [], 'nrec': 0, 'fields': [], 'fields2': []}
    note = ''
    try:
        w, b, raw, nrec, f, f2 = fn()
        ev.update(written=w, back=b, raw=raw, nrec=nrec, fields=f, fields2=f2)
    except Exception as e:
        ev['raised'] = True
        note = repr(e)
    out.put(ev)
    src.write(json.dumps({'id': ev['id'], 'kind': kind, 'data': repr(data), 'note': note}) + '\n')


def fresh():
    if os.path.exists(TMP):
        os.remove(TMP)


def vocab(d):
    def fn():
        fresh()
        V._dump_vocab_dict(list(d.items()), TMP)
        back = V._load_vocab_dict(TMP)
        return ([[P.cps(k), v] for k, v in d.items()], [[P.cps(k), v] for k, v in back.items()], rawfile(TMP), len(d), [2] * len(d), [])
    put('vocabulary', fn, d, delim=9)


def literal_vocab(d):       # what the merger writes: tokens already escaped
    def fn():
        fresh()
        V.PartialVocab(V.Counter({to_literal_str(k): v for k, v in d.items()}), 0).write_vocab(TMP)
        back = V._load_vocab_dict(TMP)
        return (sorted([P.cps(k), v] for k, v in d.items()), sorted([P.cps(k), v] for k, v in back.items()), rawfile(TMP), len(d), [2] * len(d), [])
    put('vocabulary of a corpus', fn, d, delim=9)


def token_set(toks):
    s = set(toks)

    def fn():
        fresh()
        save_metadata(PreprocessingMetadata(nonprocessable_tokens=set(s)), TMP.encode())
        back = V._load_vocab_set(TMP)
        return (sorted(P.cps(k) for k in s), sorted(P.cps(k) for k in back), rawfile(TMP), len(s), [1] * len(s), [])
    put('set of tokens', fn, toks, delim=9)

    def fn2():
        fresh()
        save_metadata(PreprocessingMetadata(nonprocessable_tokens=set(s)), TMP.encode())

        class D:
            path_to_nonbpe_vocab_file = TMP
        back = load_nonbpe_vocab(D())
        return (sorted(P.cps(k) for k in s), sorted(P.cps(k) for k in back), rawfile(TMP), len(s), [1] * len(s), [])
    put('set of tokens', fn2, toks, delim=9)


def merges(pairs):
    def fn():
        fresh()
        ml = MergeList()
        for i, (a, b, n) in enumerate(pairs):
            ml.append(Merge((a, b), freq=n, priority=i))
        dump_merges(ml, TMP)
        back = read_merges(TMP)
        as_list = lambda l: [[P.cps(m.pair[0]), P.cps(m.pair[1]), 0 if m.freq is None else 1, m.freq or 0, m.priority] for m in l]
        return as_list(ml), as_list(back), rawfile(TMP), len(pairs), [2 if n is None else 3 for _, _, n in pairs], []
    put('merge list', fn, pairs, delim=32)


def prefix(pairs, n):
    def fn():
        fresh()
        ml = MergeList()
        for i, (a, b, f) in enumerate(pairs):
            ml.append(Merge((a, b), freq=f, priority=i))
        dump_merges(ml, TMP)
        back = read_merges(TMP, n)
        as_list = lambda l: [[P.cps(m.pair[0]), P.cps(m.pair[1]), m.freq, m.priority] for m in l]
        return as_list(ml)[:n], as_list(back), rawfile(TMP), len(pairs), [3] * len(pairs), []
    put('first merges of a list', fn, [pairs, n], delim=32)


def cache(d):
    def fn():
        fresh()
        dump_bpe_cache(d, TMP)
        back = read_bpe_cache(TMP)
        as_list = lambda x: [[P.cps(k), [P.cps(p) for p in v]] for k, v in x.items()]
        return as_list(d), as_list(back), rawfile(TMP), len(d), [2] * len(d), [len(v) for v in d.values()]
    put('cache of encoded words', fn, d, delim=9, delim2=32)


def token_line(lists):
    def fn():
        fresh()
        with open(TMP, 'w') as o:
            for toks in lists:
                o.write(to_literal_str(to_token_str(toks)) + '\n')
        with open(TMP) as f:
            back = [[to_non_literal_str(t) for t in line.rstrip('\n').split(' ')] for line in f]
        as_list = lambda x: [[P.cps(t) for t in ts] for ts in x]
        return as_list(lists), as_list(back), rawfile(TMP), len(lists), [len(x) for x in lists], []
    put('token list', fn, lists, delim=32)


def file_list(names, dirs, exts):
    def fn():
        root = os.path.join(spec['scratch'], 'd%d' % out.n)
        cached = os.path.join(os.environ['HOME'], '.cache')
        os.makedirs(root)
        for d in dirs:
            os.makedirs(os.path.join(root.encode(), d), exist_ok=True)
        for n in names:
            p = os.path.join(root.encode(), n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write('x')
        try:
            mk = lambda: Dataset.create(root, create_prep_config('nosplit'), exts, None, None, overriden_path_to_prep_dataset=spec['scratch'] + '/o')
            a, b = mk(), mk()
            dirs_too = R.random() < .5
            first = list(a.get_all_files())
            again = list(a.get_all_files())
            third = list(b.get_all_files(return_dirs_instead_of_regular_files=dirs_too))
            if dirs_too:
                ds = sorted(os.path.relpath(os.path.join(r, x), root.encode()) for r, dd, _ in os.walk(root.encode()) for x in dd)
                w = [[list(x) for x in first], [list(x) for x in ds]]
                bk = [[list(x) for x in again], [list(os.path.normpath(x)) for x in sorted(map(os.path.normpath, third))]]
            else:
                w = [[list(x) for x in first]] * 2
                bk = [[list(x) for x in again], [list(x) for x in third]]
            raw = rawfile(os.path.join(a.path_to_file_list_folder, 'filelist'))
            return w, bk, raw, len(first), [], []
        finally:
            shutil.rmtree(root, ignore_errors=True)
            shutil.rmtree(cached, ignore_errors=True)
            shutil.rmtree(spec['scratch'] + '/o', ignore_errors=True)
    put('file list', fn, [names, dirs, exts])


def token():
    m = R.random()
    if m < .5:
        return ''.join(R.choice(DELIMS + ['a', 'b', '</t>']) for _ in range(R.randint(1, 6)))
    if m < .7:
        return textgen.ident()
    if m < .85:
        return R.choice(['<EOF>', '\n', '\t', '\\', '\\n', '\\\\', '\\x', '\\u0041', "'", '"', '\\"', '\\N{DASH}', '\\101', '\\\n', 'None', '1', '#'])
    return textgen.soup(R.randint(1, 8)).replace(' ', '_') or 'x'


# every token of up to three delimiter characters, 40 at a time
toks = [''.join(p) for n in (1, 2) for p in itertools.product(DELIMS, repeat=n)]
trip = [''.join(p) for p in itertools.product(DELIMS[:10] + DELIMS[15:18] + ['\U0001f600', '\ud800'], repeat=3)]
toks += trip if thorough else R.sample(trip, 500)
B = [toks[i:i + 40] for i in range(0, len(toks), 40)]
if not thorough:
    B = B[shard::nsh]
elif shard:
    B = B[shard::nsh]
else:
    B = B[0::nsh]
for b in B:
    b = list(dict.fromkeys(b))
    d = {t: R.randint(1, 10 ** R.randint(0, 7)) for t in b}
    vocab(d)
    literal_vocab(d)
    token_set(b)
    merges([(t, R.choice(b), R.choice([R.randint(1, 999), None, 0])) for t in b])
    cache({t: [R.choice(b) for _ in range(R.randint(1, 4))] for t in b})
    token_line([b, b[::-1]])
for _ in range(60 if thorough else 12):
    b = list(dict.fromkeys(token() for _ in range(R.randint(0, 30))))
    d = {t: R.randint(1, 10 ** R.randint(0, 12) % 2 ** 30 + 1) for t in b}
    vocab(d)
    literal_vocab(d)
    token_set(b)
    if b:
        ps = list(dict.fromkeys((t, R.choice(b)) for t in b))
        merges([(x, y, R.randint(1, 9999)) for x, y in ps])
        prefix([(x, y, R.randint(1, 9999)) for x, y in ps], R.randint(1, len(ps) + 2))
        cache({t: [R.choice(b) for _ in range(R.randint(1, 9))] for t in b})
        token_line([[R.choice(b) for _ in range(R.randint(1, 12))] for _ in range(R.randint(1, 4))])
BYTES = [bytes([c]) for c in list(range(1, 47)) + list(range(48, 256))]


def fname():
    m = R.random()
    if m < .4:
        n = b''.join(R.choice(BYTES) for _ in range(R.randint(1, 6)))
    elif m < .7:
        n = b''.join(R.choice([b'\n', b'\r', b'\\', b"'", b'"', b' ', b'\xff', b'\x85', b'.', b'\xe2\x80\xa8', b'a', b'b', b'\\n', b'#', b'%']) for _ in range(R.randint(1, 5)))
    else:
        n = R.choice(['é', 'файл', 'a b', 'x']).encode(R.choice(['utf-8', 'utf-8', 'utf-16-le'])).replace(b'\0', b'') or b'x'
    return (n if n not in (b'.', b'..') else b'x') + R.choice([b'', b'.java', b'.py', b'.\xff', b'.java.x', b'java'])


every = [bytes([c]) + b'.java' for c in range(1, 256) if c != 47]
file_list(every[shard::nsh], [], R.choice([None, 'java']))
for _ in range(40 if thorough else 8):
    dirs = list(dict.fromkeys(b'D' + fname() for _ in range(R.randint(0, 4))))
    names = []
    for _ in range(R.randint(0 if dirs else 1, 12)):
        n = fname()
        if dirs and R.random() < .5:
            n = R.choice(dirs) + b'/' + n
        names.append(n)
    file_list(list(dict.fromkeys(names)), dirs, R.choice([None, None, 'java', 'py|java']))
out.close()
src.close()
print(json.dumps({'counts': counts}))
