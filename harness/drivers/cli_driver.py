"""Command lines against functions, encoded configurations, rejected option sets (C17)."""
import ast, contextlib, hashlib, io, json, os, random, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import prep_common as P, corpuslib as L, standins
from standins import STUBS

spec = json.loads(sys.argv[1])      # scratch, out, shard, nshards, seed, tier, opts, n_text, n_real, n_corpus, n_learn
L.subreaper()
lab = L.Lab(spec['scratch'])
import codeprep.api.text as T
import codeprep.api.corpus as CO
from codeprep.api.common import create_prep_config
from codeprep.cli.spec import parse_and_run
from codeprep.prepconfig import PrepConfig
import textgen
THOROUGH = spec['tier'] == 'thorough'
R = random.Random('%s/%s/cli' % (spec['seed'], spec['shard']))
textgen.init('%s/cli' % spec['seed'], THOROUGH)         # the same codes in every shard

CODES = textgen.random_merges(60, list('abA1_@.myx0"stringe'))
P.write_codes({60: CODES, 30: CODES[:30]}, nonbpe=['(', 'if'], id='my codes')
P.write_codes({60: CODES}, nonbpe=['(', 'if'], id='5k-like')
textgen.init('%s/%s/cli' % (spec['seed'], spec['shard']), THOROUGH)
CUSTOM = ['my codes-60', 'my codes-7', '5k-like-60']

STRINGS = lambda ns: ''.join('s = "%s";\n' % ('abcdefgh' * 9)[:n - 2] for n in ns)
PROBE = '''/* Überraschung block */ class MyClass_x { // one lineComment é
\tint runningJumps = 1042 + 0x1F * maxVALUE; if (é_Test == "a bB  CC ñandú 77") return playingFOO2bar;
'''
PROBES = [(PROBE + STRINGS([2, 3, 4, 10, 29, 30, 31, 61, 62, 63, 99, 101]) + '}\n', 'java'), ('def runningFoo_Bar(x):\n    # noteThis ö\n    return "strÜng  12" + x * 3.14e10\n', 'py')]
LONG = (PROBE + STRINGS(range(2, 66)), 'java')


def digest(x):
    return hashlib.sha1(repr(x).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


FLAGS = {'spaces': ('--no-spaces', '-0'), 'unicode': ('--no-unicode', '-U'), 'com': ('--no-com', '-C'), 'str': ('--no-str', '-S'), 'case': ('--no-case', '-l'),
         'full': ('--full-strings', '-f'), 'nums': ('--split-numbers', '-n'), 'ronin': ('--ronin', '-r'), 'stem': ('--stem', '-s')}
# -f is not announced by the usage line of the command with this name, only by its description: both have to work
KW = {'spaces': 'no_spaces', 'unicode': 'no_unicode', 'com': 'no_com', 'str': 'no_str', 'case': 'no_case', 'full': 'full_strings',
      'nums': 'split_numbers', 'ronin': 'ronin', 'stem': 'stem'}
TAKES = {'nosplit': ['spaces', 'unicode', 'com', 'str', 'full'], 'chars': ['spaces', 'unicode', 'com', 'str'], 'bpe': ['spaces', 'unicode', 'com', 'str'],
         'basic': ['spaces', 'unicode', 'com', 'str', 'case', 'nums', 'ronin', 'stem']}


def codes_of(o):
    return None if o['cmd'] != 'bpe' else R.choice(CUSTOM) if o['codes'] == 'custom' else o['codes']


def argv_of(o, codes, subject, ext, extra=()):
    """A command line that says o: long and short names, any order."""
    opts, shorts = [], ''
    for k, names in FLAGS.items():
        if o[k]:
            n = R.choice(names)
            if len(n) == 2 and R.random() < .3:
                shorts += n[1]
            else:
                opts.append([n])
    if shorts:
        opts.append(['-' + shorts])
    if o['max'] != -1:
        m = str(o['max'])
        opts.append(R.choice([['--max-str-length=' + m], ['--max-str-length', m], ['-L', m], ['-L' + m]]))
    if ext:
        opts.append(R.choice([['--ext', ext], ['--ext=' + ext], ['-e', ext], ['-e' + ext]]))
    opts += [list(x) for x in extra]
    R.shuffle(opts)
    k = R.choice([0, len(opts), R.randint(0, len(opts))])
    flat = lambda xs: [y for x in xs for y in x]
    pos = ([codes] if codes else []) + list(subject)
    return [o['cmd']] + flat(opts[:k]) + pos + flat(opts[k:])


def kwargs_of(o):
    kw = {KW[k]: True for k in FLAGS if o[k]}
    if o['max'] != -1:
        kw['max_str_length'] = o['max']
    return kw


def call_api(mod, o, codes, subject, **kw):
    f = getattr(mod, o['cmd'])
    kw.update(kwargs_of(o))
    return f(subject, codes, **kw) if o['cmd'] == 'bpe' else f(subject, **kw)


def printed(out):
    """The list of tokens a command printed last, if any."""
    for line in reversed(out.strip('\n').split('\n')):
        try:
            v = ast.literal_eval(line)
        except (ValueError, SyntaxError, MemoryError):
            continue
        if isinstance(v, list):
            return v
    return None


def cli(argv):
    buf, err = io.StringIO(), io.StringIO()
    why = ''
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(err):
        try:
            parse_and_run(argv)
        except SystemExit as e:
            why = 'exit: ' + str(e.code)[:60]
        except Exception as e:          # noqa: the verdict is the specification's
            why = repr(e)[:100]
    v = printed(buf.getvalue())
    return {'tokens': v is not None, 'd': digest(v) if v is not None else '', 'why': why, 'v': v}


def api_text(o, codes, text, ext):
    try:
        v = call_api(T, o, codes, text, extension=ext)
        return {'tokens': True, 'd': digest(v), 'why': '', 'v': v}
    except Exception as e:              # noqa
        return {'tokens': False, 'd': '', 'why': repr(e)[:100], 'v': None}


def real(argv):
    """The command as a process of its own."""
    e = dict(os.environ, PYTHONPATH=P.REPO + ':' + STUBS)
    p = subprocess.run([sys.executable, '-m', 'codeprep'] + argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=120)
    v = printed(p.stdout.decode('utf-8', 'surrogateescape'))
    return {'tokens': v is not None, 'd': digest(v) if v is not None else '', 'why': p.stderr.decode('utf-8', 'replace')[-100:], 'v': v}


out = P.Out(spec['out'])
src = open(spec['out'] + '.src', 'w')
counts = {}


def put(kind, ev, **info):
    ev['id'] = '%d:%d' % (spec['shard'], out.n)
    ev['kind'] = kind
    out.put(ev)
    src.write(json.dumps(dict(info, id=ev['id'], kind=kind), default=str) + '\n')
    counts[kind] = counts.get(kind, 0) + 1


def short(r):
    return {k: r[k] for k in ('tokens', 'd')}


ALL = [json.loads(x) for x in open(spec['opts'])]
mine = ALL[spec['shard']::spec['nshards']]
ok = [o for o in mine if all(not o[k] or k in TAKES[o['cmd']] for k in FLAGS)]


def cli_no(o):
    return any(o[k] and k not in TAKES[o['cmd']] for k in FLAGS) or o['str'] and (o['max'] != -1 or o['full'])


TEXTS = ['', ' ', '\n', 'nosplit', 'basic', '1k', '10k', '0', 'learn-bpe', "it's", '"q"', 'a\nb\n', 'fooBar_baz', '\t', 'é', 'x=[1, 2]', "['a']", '<EOF>', 'a\\nb', '%s', '$HOME', '*', 'a\u2028b', '.', 'FOO10',
         'if (x) { return "a  b"; } // done\n'] + [p[0] for p in PROBES] * 8


def text_event(o, how):
    codes = codes_of(o)
    text = R.choice(TEXTS) if R.random() < .6 else textgen.program(R.choice(['java', 'py', 'js']))
    if text.startswith('-') or '\0' in text or any(0xd800 <= ord(c) < 0xe000 for c in text):
        text = 'x'
    ext = R.choice([None, None, 'java', 'py', 'js', 'zzz']) if text not in (PROBES[1][0],) else 'py'
    extra = R.choice([[], [], [], [['--verbose']], [['-v']], [['--calc-vocab']], [['-V']]])
    argv = argv_of(o, codes, [text], ext, extra)
    a = api_text(o, codes, text, ext)
    c = how(argv)
    put('text', {'o': o, 'cli': short(c), 'api': short(a)}, argv=argv, cli=c, api=a)


def rnd_sample(xs, n):
    return R.sample(xs, min(n, len(xs)))


t0 = time.time()
# ------------------------------------------------------------- text commands
yes = [o for o in mine if not cli_no(o)]
no = [o for o in mine if cli_no(o)]
for o in rnd_sample(yes, spec['n_text']) + rnd_sample(no, spec['n_text'] // 3):
    text_event(o, cli)
for o in rnd_sample([o for o in yes if not o['stem']], spec['n_real']) + rnd_sample(no, spec['n_real'] // 3):
    text_event(o, real)
counts['t_text'] = round(time.time() - t0, 1)

# malformed command lines and values
GOOD = lambda: R.choice(yes)
for _ in range(spec['n_text'] // 4):
    o = GOOD()
    codes = codes_of(o)
    k = R.choice(['no subject', 'two texts', 'unknown option', 'length', 'text and path', 'unknown command', 'codes', 'no codes', 'output of text'])
    if k == 'no subject':
        argv = argv_of(o, codes, [], None)
    elif k == 'two texts':
        argv = argv_of(o, codes, ['a', 'b'], None)
    elif k == 'unknown option':
        argv = argv_of(o, codes, ['a'], None, [[R.choice(['--foo', '-q', '--no-strings', '--append-eof', '--merges', '-1'])]])
    elif k == 'length':
        argv = argv_of(dict(o, max=-1, str=False), codes, ['a'], None, [[R.choice(['-L', '--max-str-length']), R.choice(['abc', '', '1.5', '1e3', '0x10', 'None'])]])
    elif k == 'text and path':
        argv = argv_of(o, codes, ['a'], None, [['-p', spec['scratch']]])
    elif k == 'unknown command':
        argv = [R.choice(['no-split', 'Basic', 'ronin', 'char', ''])] + argv_of(o, None, ['a'], None)[1:]
    elif k == 'codes':
        argv = argv_of(dict(o, **{f: False for f in FLAGS}, cmd='bpe', max=-1), R.choice(['2k', 'nothing-3', 'my codes', 'my codes-61', 'my codes-', 'my codes-x', '100k', '1K']), ['a'], None)
    elif k == 'no codes':
        argv = argv_of(dict(o, **{f: False for f in FLAGS}, cmd='bpe', max=-1), None, ['abc'], None)
    else:
        argv = argv_of(o, codes, ['a'], None, [['-o', spec['scratch'] + '/x']])
    c = cli(argv)
    put('malformed', {'cli': short(c)}, argv=argv, cli=c, what=k)

# ------------------------------------------- codes of option sets, their results
rows = []


def row(o, long=False):
    codes = codes_of(o) if o['codes'] != 'custom' else CUSTOM[0]
    try:
        pc = create_prep_config(o['cmd'], bpe_codes_id=codes, **kwargs_of(o))
        code = str(pc)
    except Exception as e:              # noqa
        rows.append({'o': o, 'ok': False, 'code': [], 'd': '', 'dec': False, 'back': [], 'dd': '', 'eq': False})
        return
    r = {'o': o, 'ok': True, 'code': P.cps(code), 'd': '', 'dec': False, 'back': [], 'dd': '', 'eq': False}
    cid = codes or ('0' if o['cmd'] == 'chars' else None)
    probes = [LONG] if long else PROBES
    res = [api_text(o, codes, t, x) for t, x in probes]
    if not all(x['tokens'] for x in res):
        rows.append(r)                  # not a combination the function takes
        return
    r['d'] = ('L' if long else 'P') + digest([x['v'] for x in res])
    try:
        dec = PrepConfig.from_encoded_string(code)
        r.update(dec=True, back=P.cps(str(dec)), eq=(dec == pc),
                 dd=('L' if long else 'P') + digest([T.preprocess(t, dec, cid, extension=x) for t, x in probes]))
    except Exception:                   # noqa
        pass
    rows.append(r)


t0 = time.time()
for o in mine if THOROUGH else ok[::2] + rnd_sample([o for o in mine if o not in ok], 60):
    row(o)
base = {k: False for k in FLAGS}
lens = [-1] + list(range(0, 66)) + [100, sys.maxsize]
for cmd, codes in [('nosplit', ''), ('chars', ''), ('basic', ''), ('bpe', '1k')]:
    for full in ([False, True] if cmd == 'nosplit' else [False]):
        for m in lens[spec['shard']::spec['nshards']]:
            row(dict(base, cmd=cmd, codes=codes, full=full, max=min(m, 1000)), True)
with open(spec['out'] + '.rows', 'w') as f:
    for r in rows:
        f.write(json.dumps(r) + '\n')
counts['t_rows'] = round(time.time() - t0, 1)

# ------------------------------------------------------- configuration strings
t0 = time.time()
VALUES = ['uU', '0c', ''.join(chr(c) for r in ((48, 58), (65, 91), (97, 123)) for c in range(*r)), '0F123s456789'[:12], 's0', 'ul']
strings = []
import itertools
valid = [''.join(x) for x in itertools.product(*VALUES)]
strings += valid[spec['shard']::spec['nshards']]
for _ in range(1500):
    s = list(R.choice(valid))
    for _ in range(R.choice([1, 1, 2])):
        k = R.choice(['change', 'change', 'drop', 'add', 'swap'])
        i = R.randrange(len(s)) if s else 0
        c = R.choice('uUcC0123456789FsSlLabzE_- é\0\n٣')
        if k == 'change' and s:
            s[i] = c
        elif k == 'drop' and s:
            del s[i]
        elif k == 'add':
            s.insert(i, c)
        elif s:
            j = R.randrange(len(s))
            s[i], s[j] = s[j], s[i]
    strings.append(''.join(s))
strings += ['', 'u', 'uc']
dec = []
for s in strings:
    try:
        c = PrepConfig.from_encoded_string(s)
        t = R.choice(strings)
        try:
            other = PrepConfig.from_encoded_string(t)
            eq = (c == other)
        except Exception:               # noqa
            t, eq = s, True
        dec.append({'s': P.cps(s), 'ok': True, 'back': P.cps(str(c)), 't': P.cps(t), 'eq': eq})
    except Exception:                   # noqa
        dec.append({'s': P.cps(s), 'ok': False, 'back': [], 't': [], 'eq': False})
for i in range(0, len(dec), 200):
    put('decode', {'rows': dec[i:i + 200]}, first=dec[i]['s'])
counts['t_dec'] = round(time.time() - t0, 1)

# ---------------------------------------------------------------- corpus commands
t0 = time.time()
import corpuslib
ds = os.path.join(spec['scratch'], 'data', 'proj')
for name, text in [('A.java', PROBES[0][0]), ('sub/B.java', 'class B { String s = "x  y"; }\n'), ('c.py', PROBES[1][0]), ('sub/d.js', 'var aB = /re/; // x\n'), ('README', 'plain textHere 12\n'),
                   ('e.c', ''), ('latin.java', None), ('F.JAVA', 'class F { int xY = 2; }\n'), ('g.R', 'x_y <- f(1) # c\n'), ('h.Tar.Gz', 'a bC'), ('i.c++', 'int i;')]:
    p = os.path.join(ds, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(b'int caf\xe9 = 1;\n' if text is None else text.encode())


def tree(d):
    res = []
    for root, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(root, f), 'rb') as g:
                b = g.read()
            res.append([os.path.relpath(os.path.join(root, f), d), hashlib.sha1(b).hexdigest()[:16]])
    return sorted(x for x in res if not os.path.basename(x[0]).startswith('.'))        # bookkeeping aside


def vocab_of(home):
    """The vocabulary files a run left in its home (partial ones aside)."""
    res = []
    for root, _, fs in os.walk(home):
        if 'vocab' in fs and '_-_u0EFsu' not in root:         # not those of the codes laid out above
            with open(os.path.join(root, 'vocab'), 'rb') as g:
                res.append(hashlib.sha1(b'\n'.join(sorted(g.read().split(b'\n')))).hexdigest()[:16])
    return sorted(res)


def corpus_event(o):
    codes = codes_of(o)
    ext = R.choice([None, 'java', 'py|java', 'js', 'py', 'R', 'JAVA', 'R|java', 'Tar.Gz', 'c++', 'JAVA|c', 'java|'])
    where = R.choice(['cwd', 'given', 'given', 'relative'])
    vocab = R.random() < .4
    rel_in = R.random() < .3
    sides = {}
    for side in ('cli', 'api'):
        home = lab.copy_home(lab.first)
        cwd = os.path.join(spec['scratch'], 'cwd-' + side)
        shutil.rmtree(cwd, ignore_errors=True)
        os.makedirs(cwd)
        o_dir = {'cwd': None, 'given': os.path.join(cwd, 'out dir'), 'relative': 'out'}[where]
        path = os.path.relpath(ds, cwd) if rel_in else ds
        if side == 'cli':
            extra = [[R.choice(['-p', '--path']), path]]
            if o_dir:
                extra.append([R.choice(['-o', '--output-path']), o_dir])
            if vocab:
                extra.append([R.choice(['-V', '--calc-vocab'])])
            argv = argv_of(o, codes, [], ext, extra)
            r = lab.run(lambda: parse_and_run(argv) and None, home, workers=2, cwd=cwd)
        else:
            def go():
                call_api(CO, o, codes, path, extensions=ext, calc_vocab=vocab, **({'output_path': o_dir} if o_dir else {}))
            r = lab.run(go, home, workers=2, cwd=cwd)
        sides[side] = {'ok': r['ok'], 'files': tree(cwd), 'vocab': vocab_of(home) if vocab else [], 'err': r.get('err', '')}
        lab.drop(home)
    put('corpus', {'o': o, 'cli': {k: sides['cli'][k] for k in ('ok', 'files', 'vocab')}, 'api': {k: sides['api'][k] for k in ('ok', 'files', 'vocab')}, 'wants': vocab},
        argv=argv, sides=sides)


for o in rnd_sample(yes, spec['n_corpus']) + rnd_sample(no, spec['n_corpus'] // 4):
    corpus_event(o)
counts['t_corpus'] = round(time.time() - t0, 1)

# --------------------------------------------------------------------- learning
t0 = time.time()
LFLAGS = {'unicode': ['--no-unicode', '-U'], 'bytes': ['--bytes', '-b'], 'wordend': ['--word-end', '-z'], 'legacy': ['--legacy']}


def learn_event(flags, n, ext):
    home = lab.copy_home(lab.first)
    opts = [[R.choice(LFLAGS[f])] for f in flags] + [[R.choice(['-p', '--path']), ds]]
    if ext:
        opts.append(['-e', ext])
    if R.random() < .5:
        opts.append(['--id', 'fresh'])
    R.shuffle(opts)
    argv = ['learn-bpe', n] + [y for x in opts for y in x]
    r = lab.run(lambda: parse_and_run(argv) and None, home, workers=2)
    made = sum('merges.txt' in fs for _, _, fs in os.walk(home)) - sum('merges.txt' in fs for _, _, fs in os.walk(lab.first))
    put('learn', {'flags': {f: f in flags for f in LFLAGS}, 'number': n.isdigit() and int(n) > 0, 'javaOnly': ext in (None, 'java'), 'made': made}, argv=argv, res=r)
    lab.drop(home)


subsets = [[f for k, f in enumerate(LFLAGS) if m >> k & 1] for m in range(16)]
for fl in subsets[spec['shard']::spec['nshards']] * (3 if THOROUGH else 1):
    learn_event(fl, R.choice(['5', '3', '1', 'abc', '2.5', '4']), R.choice([None, 'java', 'py']))
counts['t_learn'] = round(time.time() - t0, 1)
out.close()
src.close()
print(json.dumps({'counts': counts, 'samples': [argv_of(GOOD(), None, ['text'], 'java')]}))
