"""Calculates vocabularies with real processes (C12): of hand-made output files, of preprocessed corpora, and from the command line."""
import json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep_common as P, corpuslib as L, vocablib as VL

spec = json.loads(sys.argv[1])      # scratch, out, shard, nshards, seed, tier, seconds
L.subreaper()
lab = L.Lab(spec['scratch'])
import textgen
R = textgen.init('%s/%s/vocab' % (spec['seed'], spec['shard']))
CODES = textgen.random_merges(60, list('abA1_@.myx0"stringe') + [textgen.X[0]])
import codeprep.pipeline.vocab as V     # noqa
out = P.Out(spec['out'])
stats = dict(calculations=0, files=0, corpora=0, command_line=0, many_files=0, skipped=0)
src = []
t_end = time.time() + spec['seconds']
n = 0


def put(tid, status, files, o, loaded, how):
    out.put(VL.event(tid, status, files, o, loaded))
    src.append(dict(how, id=tid, status=status, n_files=len(files)))
    stats['calculations'] += 1
    stats['files'] += len(files)


def direct(n_files, toks, workers, chunks, groups, nested=False):
    """calc_vocab on files made here"""
    global n
    n += 1
    base = os.path.join(spec['scratch'], 'v%d' % n)
    files = [['f%d' % i] + VL.random_tokens(R, R.randint(0, toks)) for i in range(n_files)]
    paths = VL.write_files(os.path.join(base, 'prep'), files, R, nested)
    R.shuffle(paths)
    o = os.path.join(base, 'out')
    os.makedirs(o)
    home = lab.new_home()

    def fn():
        if chunks and hasattr(V, 'N_CHUNKS'):
            V.N_CHUNKS = chunks
        if groups and hasattr(V, 'MAX_INIT_PARTIAL_VOCABS'):
            V.MAX_INIT_PARTIAL_VOCABS = groups
        V.calc_vocab(os.path.join(base, 'prep'), iter(paths), o)
        return sorted(V._load_vocab_dict(os.path.join(o, 'vocab')).items()) if hasattr(V, '_load_vocab_dict') else None
    r = lab.run(fn, home, workers, timeout=120)
    status = 'ended' if r['ok'] else ('hangs' if r['status'] == 'hangs' else 'fails')
    put('%d:%d' % (spec['shard'], n), status, files, o, r.get('val'),
        dict(kind='files', workers=workers, chunks=chunks, groups=groups, err=r.get('err')))
    lab.drop(home)
    shutil.rmtree(base)


def corpus(n_files, workers):
    """the corpus functions; the counts are those of the output files"""
    global n
    n += 1
    base = os.path.join(spec['scratch'], 'v%d' % n)
    root = os.path.join(base, 'proj')
    dest = os.path.join(base, 'dest')
    os.makedirs(dest)
    for i in range(n_files):
        d = os.path.join(root, *['d%d' % R.randint(0, 2)] * R.randint(0, 2))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'f%d.%s' % (i, R.choice(['java', 'py', 'c']))), 'w', errors='replace') as f:
            f.write(textgen.program(R.choice(['java', 'py', 'c'])) if hasattr(textgen, 'program') else ' '.join(textgen.ident() for _ in range(9)))
    home = lab.new_home()
    lab.use(home)
    P.write_codes({60: CODES}, nonbpe=['<EOF>', '(', 'if'], id='own')
    mode = R.choice(['no', 'full', 'basic', 'num', 'chars', 'bpe', 'bpe'])
    c = P.cfg(mode, spaces=R.random() < .7, unicode=R.random() < .7, com=R.random() < .7)
    codes = R.choice(['own-60', '1k']) if mode == 'bpe' else None

    def fn():
        pc = L.corpus_call(c, root, None, dest, codes, vocab=True)
        return {'path': pc.path_to_prep_dataset, 'voc': pc.path_to_vocab, 'loaded': sorted(pc.load_vocab().items())}
    r = lab.run(fn, home, workers, timeout=120)
    lab.use(home)
    status = 'ended' if r['ok'] else ('hangs' if r['status'] == 'hangs' else 'fails')
    if status != 'ended':           # does it go on without a vocabulary?
        d2 = os.path.join(base, 'dest2')
        os.makedirs(d2)
        h2 = lab.new_home()
        lab.use(h2)
        P.write_codes({60: CODES}, nonbpe=['<EOF>', '(', 'if'], id='own')
        r2 = lab.run(lambda: L.corpus_call(c, root, None, d2, codes).path_to_prep_dataset, h2, workers, timeout=120)
        if not r2['ok']:
            stats['skipped'] += 1       # the preprocessing fails: C08's matter
        else:
            put('%d:%d' % (spec['shard'], n), status, [], base, None, dict(kind='corpus', cfg=c, workers=workers, err=r.get('err')))
    else:
        v = r['val']
        files = []
        for name, b in L.outputs(v['path']).items():
            if name.endswith(b'.prep'):
                files.append([t.encode().decode('unicode_escape') for ln in b.decode().split('\n') if ln for t in ln.split(' ')])
        put('%d:%d' % (spec['shard'], n), status, files, os.path.dirname(v['voc']), [tuple(x) for x in v['loaded']], dict(kind='corpus', cfg=c, workers=workers))
    stats['corpora'] += 1
    lab.drop(home)
    shutil.rmtree(base)


def command_line(n_files):
    global n
    n += 1
    base = os.path.join(spec['scratch'], 'v%d' % n)
    files = [['f%d' % i] + VL.random_tokens(R, R.randint(0, 20)) for i in range(n_files)]
    VL.write_files(os.path.join(base, 'prep'), files, R, True)
    VL.write_files(os.path.join(base, 'prep', 'other'), [['not', 'counted']], R)
    os.rename(os.path.join(base, 'prep', 'other', 'f0.prep'), os.path.join(base, 'prep', 'other', 'f0.prepx'))
    o = os.path.join(base, 'out')
    os.makedirs(o)
    home = lab.new_home()
    lab.use(home)
    err = ''
    try:
        p = subprocess.run([sys.executable, '-m', 'codeprep.cli.vocab', os.path.join(base, 'prep'), o, '.prep'], cwd=base, timeout=120,
                           env=dict(os.environ, HOME=home, PYTHONPATH=P.REPO, PYTHONDONTWRITEBYTECODE='1'), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        status, err = ('ended', '') if p.returncode == 0 else ('fails', p.stderr.decode('utf-8', 'replace')[-500:])
    except subprocess.TimeoutExpired:
        status = 'hangs'
    put('%d:%d' % (spec['shard'], n), status, files, o, None, dict(kind='command line', err=err))
    stats['command_line'] += 1
    lab.drop(home)
    shutil.rmtree(base)


if spec['shard'] % 2 == 0:
    command_line(R.randint(1, 30))
direct([21, 40, 1, 20, 19, 41, 60, 2][spec['shard'] % 8], 12, [1, 2, 8, 3, 8, 4, 16, 8][spec['shard'] % 8], None, None)
corpus(R.randint(2, 45), R.choice([1, 2, 8]))
if spec['shard'] % 4 == 1:          # more files than initial partial vocabularies
    k = 700 if spec['tier'] == 'quick' else 5400
    direct(k, 3, 8, None, 64 if spec['tier'] == 'quick' else None, True)
    stats['many_files'] += 1
while time.time() < t_end:
    if R.random() < .7:
        direct(R.choice([1, 2, 3, 5, 8, 13, 30, R.randint(1, 60)]), R.choice([0, 3, 30]), R.choice([1, 2, 3, 8, 16]), R.choice([None, None, 1, 2, 3, 7]),
               R.choice([None, None, 1, 2, 5, 10]), R.random() < .5)
    else:
        corpus(R.randint(1, 30), R.choice([1, 2, 4, 8]))
out.close()
with open(spec['out'] + '.src', 'w') as f:
    for s in src:
        f.write(json.dumps(s) + '\n')
print(json.dumps({'stats': stats, 'samples': src[:2]}))
