"""Histories of learn-bpe runs (also killed ones), dataset edits, corpus runs and look-ups of code ids (C15, C16, C20; spec/Registry.tla, CodesTrace.tla).

Datasets have controlled modification times.  What is on disk after each step is read here, without the code under test."""
import collections, json, os, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep_common as P, corpuslib as L

spec = json.loads(sys.argv[1])      # scratch, out, shard, seed, tier, prop, hists, budget
L.subreaper()
lab = L.Lab(spec['scratch'])
import textgen
from codeprep import config
from codeprep.preprocess.placeholders import placeholders
PROP, THOROUGH = spec['prop'], spec['tier'] == 'thorough'
R = textgen.init('%s/%s/codes%s' % (spec['seed'], spec['shard'], PROP), THOROUGH)
out = P.Out(spec['out'])
src = []
stats = {k: 0 for k in ('histories', 'learning_runs', 'kills', 'torn_writes', 'rejected', 'look_ups', 'loads', 'lists', 'merges', 'hangs', 'failed')}
stats['operations'] = []
t_end = time.time() + spec['budget']
T0 = 1500000000
BPE_DIR = lambda: config.USER_BPE_DIR       # below the link that is pointed at the home in use
VOC_DIR = lambda: config.USER_VOCAB_DIR
BASE = P.cfg('full', com=False, max=14)


def lit(s):
    return s.encode().decode('unicode-escape')


# ----------------------------------------------------------------- datasets
STEMS = ['ab', 'aab', 'user', 'get', 'abab', 'x', 'Name', 'aaaa', 'my', 'name', 'é', 'bb']
SPECIAL = ['@Override ', '$x ', "'@' ", '"a@b" ', '"@" ', '"\\\\n" ', '"two words" ', '"exactly 14 ch" ', '"more than 14 chars long" ', '"é ü" ', 'café ', '// comment é\n', '/* c */ ',
           '0x1F ', '12 ', '1 ', '0 ', '... ', '->', '::', ' #x\n', '"\\t" ', "'''a\nb'''", '\\ ', '"<EOF>" ', '"</t>" ', '"\xa0" ', '`', '?.', '"', '\x0c', '\t', '中文 ', 'if ', 'return ', 'null ', 'x@y ', '@@ ']


def code(ext):
    words = [''.join(R.choice(STEMS) for _ in range(R.choice([1, 1, 2, 3]))) for _ in range(4)]
    parts = []
    for _ in range(R.choice([2, 4, 8])):
        k = R.random()
        if k < .5:
            parts.append(R.choice(words) + R.choice([' ', ' ', '_', ';', '(', '\n', ' = ', '.']))
        elif k < .85:
            parts.append(R.choice(SPECIAL))
        else:
            parts.append(R.choice(['\n', '    ', 'class A {\n', '}\n', 'int i = 0;\n', 'def f(x):\n']))
    return ''.join(parts)


class Dataset:
    """A directory (or one file) with modification times under control."""
    clock = T0

    def __init__(self, parent, name):
        self.root = os.path.join(parent, name)
        self.single = False
        os.makedirs(self.root)
        self.files, self.true_cache = {}, {}
        names = ['a.java', 'b.py', 'sub/a.java', 'sub/b.py', 'other/a.java', 'c.js', 'noext', 'other/d.c']
        n = R.choice([1, 2, 3, 4, 6]) if R.random() < .9 else 30
        for i in range(n):
            self.put(names[i] if i < len(names) else 'd%d/a.java' % i)
        if not any(f.endswith('.java') for f in self.files):
            self.put('z.java')
        self.touch()

    def put(self, n):
        p = os.path.join(self.root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        ext = os.path.splitext(n)[1][1:]
        for _ in range(50):
            t = code(ext) if R.random() < .94 else R.choice(['', '\n', '// only é\n', ' '])
            try:
                P.lexemes(t, ext)
                break
            except Exception:
                t = 'x'
        with open(p, 'w', newline='') as f:
            f.write(t)
        self.files[n] = t

    def touch(self):
        Dataset.clock += R.choice([1, 1, 7, 3600])
        for d, ds, fs in os.walk(self.root):
            for x in ds + fs:
                os.utime(os.path.join(d, x), (T0 - 100, T0 - 100))
        os.utime(self.root, (Dataset.clock, Dataset.clock))

    def edit(self):
        k = R.random()
        if k < .5 or len(self.files) < 2:
            self.put(R.choice(sorted(self.files)))
        elif k < .8:
            self.put('n%d%s' % (Dataset.clock % 10 ** 6, R.choice(['.java', '.py'])))
        else:
            n = R.choice(sorted(f for f in self.files if f != 'a.java' and f != 'z.java') or [''])
            if n:
                os.unlink(os.path.join(self.root, n))
                del self.files[n]
        self.touch()
        self.true_cache = {}

    def selected(self, ext):
        return sorted(f for f in self.files if not ext or any(f.endswith('.' + e) for e in ext.split('|')))

    def truth(self, ext, nouni):
        """(vocabulary, non-BPE tokens) of the dataset, from the text functions; None if a file cannot be tokenized."""
        key = (ext, nouni)
        if key not in self.true_cache:
            c = dict(BASE, unicode=not nouni)
            files = self.selected(ext)

            def fn():
                import codeprep.api.text as T
                voc, non, lastnl = collections.Counter(), set(), []
                for f in files:
                    t = self.files[f].replace('\r\n', '\n').replace('\r', '\n')
                    e = os.path.splitext(f)[1][1:]
                    toks, md = P.call_text(T, t[:-1] if t.endswith('\n') else t, e, c, True)
                    voc.update(toks)
                    non |= set(md.nonprocessable_tokens)
                    lastnl.append([f, toks])
                return {'voc': sorted(voc.items()), 'non': sorted(non), 'toks': lastnl}
            h = lab.new_home()
            r = lab.run(fn, h)
            res = None
            if r['ok']:
                v = r['val']
                voc = collections.Counter(dict(v['voc']))
                non = set(v['non'])
                # a file keeps its final newline (C08), which the text functions drop: seen in a corpus run elsewhere
                q = lab.run(lambda: L.corpus_call(c, self.root, ext, os.path.join(h, 'o'), None).path_to_prep_dataset, h)
                if q['ok']:
                    res = True
                    for f, toks in v['toks']:
                        with open(os.path.join(q['val'], f + '.prep'), newline='\n') as g:
                            got = [lit(x) for x in g.read()[:-1].split(' ')]
                        if got == toks:
                            continue
                        if got == toks[:-1] + ['\n', '<EOF>']:
                            voc['\n'] += 1
                            non.add('\n')
                        else:
                            res = None          # C08 is violated, not judged here
                    if res:
                        res = (voc, non | set(placeholders.values()))
            lab.drop(h)
            self.true_cache[key] = res
        return self.true_cache[key]


# ------------------------------------------------------------- what is on disk
def rows(path):
    with open(path, newline='\n') as f:
        t = f.read()
    assert t == '' or t.endswith('\n'), 'no final newline'
    return t[:-1].split('\n') if t else []


def read_list(d):
    """One learned list."""
    r = {'n': int(os.path.basename(d)), 'ok': True, 'merges': [], 'voc': [], 'counts': [], 'cache': []}
    try:
        for line in rows(os.path.join(d, 'merges.txt')):
            head, f = line.rsplit(' ', 1)
            a, b = lit(head).split(' ')
            r['merges'].append({'p': [P.cps(a), P.cps(b)], 'f': int(f)})
        for line in rows(os.path.join(d, 'bpe_vocab_reassembled.txt')):
            w, f = line.split('\t')
            r['voc'].append({'s': [P.cps(x) for x in lit(w).split(' ')], 'f': int(f)})
        for line in rows(os.path.join(d, 'vocab_res.txt')):
            w, f = line.split('\t')
            r['counts'].append({'y': P.cps(lit(w)), 'n': int(f)})
        for line in rows(os.path.join(d, 'merges_cache.txt')):
            k, v = line.split('\t')
            r['cache'].append({'k': P.cps(lit(k)), 'v': [P.cps(x) for x in lit(v).split(' ')]})
    except Exception as e:
        r['ok'] = False
        r['why'] = repr(e)[:200]
    return r


def read_registry():
    """[{key, id, lists}] of the current home."""
    res = []
    root = BPE_DIR()
    if os.path.isdir(root):
        for d in sorted(os.listdir(root)):
            p = os.path.join(root, d)
            if not os.path.isdir(p):
                continue
            e = {'key': d, 'id': [], 'lists': []}
            n = os.path.join(p, '.name')
            if os.path.exists(n):
                with open(n, newline='') as f:
                    e['id'] = P.cps(f.read().strip())
            for x in sorted(os.listdir(p)):
                if x.isdigit() and x.isascii() and os.path.isdir(os.path.join(p, x)):
                    e['lists'].append(read_list(os.path.join(p, x)))
            res.append(e)
    return res


def read_vocabs(key, nouni, datadir):
    d = os.path.join(VOC_DIR(), datadir + '_-_' + ('U' if nouni else 'u') + '0EFsu')
    res = {'vocab': None, 'non': None}
    try:
        res['vocab'] = sorted((lit(x.rsplit('\t', 1)[0]), int(x.rsplit('\t', 1)[1])) for x in rows(os.path.join(d, 'vocab')))
    except Exception:
        pass
    try:
        res['non'] = sorted(lit(x) for x in rows(os.path.join(d, 'nonbpe_vocab')))
    except Exception:
        pass
    return res


def wf(pairs):
    return [{'w': P.cps(w), 'f': f} for w, f in pairs]


NAMES = ['proj', 'proj', 'proj', 'x', 'my-proj', 'proj_1', 'proj-5', 'p.q', 'a b', 'é', 'x_-_we', 'c++', '[a]', 'proj_nounicode', 'a\nb', '1k', '(.*)', '%s', 'PROJ', ' sp ', 'a\rb', 'proj_007', "q'q", '1']
IDS = ['x', ' ', '\t', 'proj', 'proj_1', 'proj_2', 'x-5', ' x ', 'y', 'proj_nounicode', '1k', 'a b', 'é', 'x\n', '-', 'proj-3', '0', '*', 'a/b', 'proj_10', 'x\t']


class History:
    def __init__(self, tid, names):
        self.tid, self.n = tid, 0
        self.base = os.path.join(spec['scratch'], 'c' + tid.replace(':', '_'))
        self.home = lab.new_home()
        lab.use(self.home)
        self.ds = []
        for i, nm in enumerate(names):
            self.ds.append(Dataset(os.path.join(self.base, 'p%d' % i), nm))
        self.steps, self.keys, self.n_ops = [], {}, 60
        out.put({'id': tid, 'n': 0, 'op': 'start'})
        stats['histories'] += 1
        self.dead = False
        self.seen = {}

    def observe(self):
        """The registry; a list seen before in the same state is abbreviated to its merges."""
        res = read_registry()
        for e in res:
            for q in e['lists']:
                d = L.digest(q)
                k = (e['key'], q['n'])
                q['same'] = self.seen.get(k) == d
                if q['same']:
                    q['voc'] = q['counts'] = q['cache'] = []
                self.seen[k] = d
        return res

    def learn(self, ds, n, ext=None, nouni=False, want=None, workers=1, kill=None):
        """kill: None, or 'some': at a random change of a file."""
        if self.dead:
            return
        truth = ds.truth(ext, nouni)
        if truth is None or not ds.selected(ext):
            stats['failed'] += 1
            return
        args = ['learn-bpe', str(n), '-p', ds.root] + (['-e', ext] if ext else []) + (['--id', want] if want is not None else []) + (['--no-unicode'] if nouni else [])
        def fn(args=args):
            import codeprep.cli.spec as S
            S.parse_and_run(args)
        # the directory of these codes: the one that appears in an empty home
        ck = (ds.root, Dataset.mtime(ds), ext, nouni)
        if ck not in self.keys:
            h = lab.new_home()
            lab.run(lambda: fn([args[0], '0'] + args[2:]), h, 1)
            lab.use(h)
            ks = [e['key'] for e in read_registry()]
            lab.drop(h)
            lab.use(self.home)
            if len(ks) != 1:
                stats['failed'] += 1
                return
            self.keys[ck] = ks[0]
        key = self.keys[ck]
        k, torn = 0, False
        if kill:
            h = lab.copy_home(self.home)
            r = lab.run(fn, h, workers)
            lab.drop(h)
            lab.use(self.home)
            total = r.get('n', 0) or 60
            stats['operations'].append(total)
            k = R.choice([R.randint(1, total), R.randint(max(1, total - 25), total), R.randint(max(1, total - 8), total)])
            torn = R.random() < .5
        r = lab.run(fn, self.home, workers, kill_at=k, torn=torn)
        lab.use(self.home)
        killed = r['status'] == 'killed'
        self.n += 1
        stats['learning_runs'] += 1
        stats['kills'] += killed
        stats['torn_writes'] += bool(killed and torn and lab.was_write)
        stats['hangs'] += r['status'] == 'hangs'
        obs = self.observe()
        datadir = key[:-len('_-_nounicode')] if nouni else key
        v = read_vocabs(key, nouni, datadir)
        voc, non = truth
        if v['vocab'] is not None and v['non'] is not None:
            disk = [(w, f) for w, f in v['vocab'] if w not in set(v['non'])]
            diskother = [(w, f) for w, f in v['vocab'] if w in set(v['non'])]
        else:
            disk, diskother = [], []
        name = os.path.basename(ds.root).strip() + ('_nounicode' if nouni else '')
        done = r['ok'] and not killed
        out.put({'id': self.tid, 'n': self.n, 'op': 'learn', 'key': key, 'base': P.cps(name), 'wanted': want is not None and want != '', 'want': P.cps((want or '').strip()),
                 'ask': n, 'killed': killed, 'ok': bool(r['ok']), 'err': str(r.get('err'))[:200], 'obs': obs,
                 'disk': wf(disk), 'other': wf(diskother), 'hasvoc': v['vocab'] is not None and v['non'] is not None,
                 'voc': wf(v['vocab'] or []), 'non': [P.cps(w) for w in v['non'] or []],
                 'truevoc': wf(sorted(voc.items())), 'truenon': [P.cps(w) for w in sorted(non)], 'judgevoc': done})
        self.steps.append({'learn': n, 'path': os.path.relpath(ds.root, self.base), 'ext': ext, 'nouni': nouni, 'id': want, 'workers': workers,
                           'kill': [k, torn] if kill else None, 'killed': killed, 'err': r.get('err'), 'key': key})
        return r

    def edit(self, ds):
        ds.edit()
        self.steps.append({'edit': os.path.relpath(ds.root, self.base)})

    def corpus(self, ds, ext, nouni, voc, c=None):
        c = c or dict(BASE, unicode=not nouni)
        lab.run(lambda: L.corpus_call(c, ds.root, ext, os.path.join(self.base, 'o'), None, vocab=voc).path_to_prep_dataset, self.home, R.choice([1, 3]))
        lab.use(self.home)
        self.steps.append({'corpus': os.path.relpath(ds.root, self.base), 'cfg': c, 'ext': ext, 'vocab': voc})

    def words(self, ds, ext, nouni):
        t = ds.truth(ext, nouni)
        if not t:
            return []
        ws = sorted(w for w in t[0] if w not in t[1] and w.replace('_', 'a').isalnum() and not w[0].isdigit() and w.isascii())
        R.shuffle(ws)
        ws = ws[:12]
        try:
            return [w for w in ws if all(''.join(map(str, x['p'])).startswith('Name') for x in P.lexemes(w, 'java') if ''.join(map(chr, x['v'])).strip())]
        except Exception:
            return []

    def look_up(self, strings, words):
        words = words or ['abab']

        def fn():
            import codeprep.api.text as T
            res = []
            for s in strings:
                r = {'s': P.cps(s), 'ok': True, 'err': '', 'ans': []}
                try:
                    toks = T.bpe('\n'.join(words), s, extension='java')
                    cur = []
                    for t in toks + ['\n</t>']:
                        if t == '\n</t>':
                            r['ans'].append(cur)
                            cur = []
                        else:
                            cur.append(P.cps(t))
                except Exception as e:
                    r['ok'], r['err'] = False, type(e).__name__
                res.append(r)
            return res
        r = lab.run(fn, self.home)
        lab.use(self.home)
        self.n += 1
        stats['look_ups'] += len(strings)
        out.put({'id': self.tid, 'n': self.n, 'op': 'look', 'words': [P.cps(w) for w in words], 'res': r['val'] if r['ok'] else [], 'ran': bool(r['ok'])})
        self.steps.append({'look up': strings, 'words': words})

    def look_all(self):
        """Every id with interesting numbers, and strings that are no ids."""
        reg = read_registry()
        ids = [''.join(map(chr, e['id'])) for e in reg if e['id']]
        strings = []
        for e in reg:
            i = ''.join(map(chr, e['id']))
            if not i:
                continue
            ns = sorted(q['n'] for q in e['lists'])
            for n in {1, 2, R.randint(1, 12)} | {x + d for x in ns for d in (-1, 0, 1)}:
                strings.append('%s-%d' % (i, n))
            strings += R.sample(['%s-0' % i, '%s-01' % i, i, '%s-' % i, '%s_1' % i, '%s-1 ' % i, ' %s-1' % i, '%s--1' % i, '%s-1\n' % i, '%s-٣' % i, '%s-1x' % i, '%s-+1' % i, '%s-99999999999' % i,
                                 '%s-1-1' % i, i.upper() + '-1', i[:-1] + '-1', i + 'x-1', '-1', '1', 'none-1', '%s_1-1' % i, '*-1', '.*-1'], 5)
            for n in R.sample(ns, min(2, len(ns))) + [1]:       # near misses of an id with a number
                s = '%s-%d' % (i, max(1, n))
                for _ in range(3):
                    c = R.choice(list('--_1 0x.\n') + [s[0], s[-1]]) * R.choice([1, 1, 2, 3, 4])
                    at = R.choice([0, len(s), len(s), len(i), len(i) + 1, R.randint(0, len(s))])
                    strings.append(s[:at] + c + s[at:] if R.random() < .85 else s[:at] + s[at + len(c):])
        strings = [s for s in dict.fromkeys(strings) if s not in ('', '1k', '5k', '10k', '0')]       # '': no id given
        R.shuffle(strings)
        if not strings:
            strings = ['x-1', 'x']
        some = R.choice(self.ds)
        ws = []
        for (root, mt, ext, nouni), key in self.keys.items():
            for d in self.ds:
                if d.root == root and Dataset.mtime(d) == mt:
                    ws += self.words(d, ext, nouni)
        self.look_up(strings[:60], sorted(set(ws))[:25])

    def load(self):
        """vocabloader for every id."""
        ids = [(e['key'], ''.join(map(chr, e['id'])), [q['n'] for q in e['lists']]) for e in read_registry() if e['id'] and e['lists']]
        todo = []
        for (root, mt, ext, nouni), key in self.keys.items():
            for k, i, ns in ids:
                if k == key:
                    d = next((d for d in self.ds if d.root == root and Dataset.mtime(d) == mt), None)
                    if d is not None and d.truth(ext, nouni):
                        todo.append((key, i, ns, d.truth(ext, nouni)))
        if not todo:
            return

        def fn():
            import codeprep.pipeline.vocabloader as V
            res = []
            for key, i, ns, _ in todo:
                try:
                    res.append({'ok': True, 'all': sorted(V.all(i).items()), 'non': sorted(V.nonbpe(i)), 'base': sorted(V.base(i).items()),
                                'bpe': [[n, sorted(V.bpe(i, n).items())] for n in ns]})
                except Exception as e:
                    res.append({'ok': False, 'err': repr(e)[:200]})
            return res
        r = lab.run(fn, self.home)
        lab.use(self.home)
        for (key, i, ns, (voc, non)), v in zip(todo, r['val'] if r['ok'] else [{'ok': False, 'err': r['err']}] * len(todo)):
            self.n += 1
            stats['loads'] += 1
            files = []
            if v['ok']:
                for n, b in v['bpe']:
                    try:
                        f = sorted((lit(x.rsplit('\t', 1)[0]), int(x.rsplit('\t', 1)[1])) for x in rows(os.path.join(BPE_DIR(), key, str(n), 'vocab_res.txt')))
                    except Exception:
                        f = None
                    files.append([list(x) for x in b] == [list(x) for x in f] if f is not None else False)
            out.put({'id': self.tid, 'n': self.n, 'op': 'load', 'ok': v['ok'], 'key': key, 'all': wf(v.get('all', [])), 'base': wf(v.get('base', [])),
                     'non': [P.cps(x) for x in v.get('non', [])], 'bpesame': all(files),
                     'truevoc': wf(sorted(voc.items())), 'truenon': [P.cps(w) for w in sorted(non)]})
            self.steps.append({'load': i, 'err': v.get('err')})

    def end(self):
        for e in read_registry():
            stats['lists'] += len(e['lists'])
            stats['merges'] += sum(len(q['merges']) for q in e['lists'])
        lab.drop(self.home)
        shutil.rmtree(self.base)
        src.append({'id': self.tid, 'steps': self.steps})


Dataset.mtime = staticmethod(lambda ds: int(os.stat(ds.root).st_mtime))
NS = [0, 1, 2, 3, 5, 8, 12, 20, 40]


def model_history(tid, ops):
    """ops: codes from RegistryHist.tla: see there."""
    names = ['proj', 'proj'] if R.random() < .6 else [R.choice(NAMES)] * 2
    H = History(tid, names)
    base_n = R.choice([2, 3, 4])
    for o in ops:
        if o == 0:
            H.edit(H.ds[0])
        elif o == 1:
            H.corpus(H.ds[0], R.choice([None, 'java']), R.random() < .4, R.random() < .5)
        else:
            o -= 2
            d, o = o % 2, o // 2
            n, o = o % 3, o // 3
            opt, o = o % 3, o // 3
            want, kill = o % 2, o // 2
            H.learn(H.ds[d], base_n * [1, 2, 4][n], 'java' if opt == 2 else None, opt == 1, 'x' if want else None, R.choice([1, 2, 3]), 'some' if kill else None)
    finish(H)


def ladder(tid):
    """Ever more merges for the same codes, now and then fewer."""
    H = History(tid, [R.choice(['proj', 'x', 'a b'])])
    ns = sorted(R.sample([1, 2, 3, 5, 7, 8, 9, 11, 12, 15, 20, 30, 40, 60], R.choice([3, 4, 5])))
    if R.random() < .7:                # a smaller list learned later, then the most merges: which list is gone on from shows in the ties
        last = ns.pop()
        R.shuffle(ns)
        ns.append(last)
    ext, nouni = R.choice([None, None, 'java']), R.random() < .2
    for n in ns:
        H.learn(H.ds[0], n, ext, nouni, None, R.choice([1, 2]), 'some' if R.random() < .15 else None)
    finish(H)


def random_history(tid):
    if R.random() < {'C15': .35, 'C16': .1, 'C20': .1}[PROP]:
        return ladder(tid)
    H = History(tid, [R.choice(NAMES) for _ in range(R.choice([1, 1, 2, 3]))] if PROP == 'C16' or R.random() < .3 else ['proj'] * R.choice([1, 2]))
    k = R.choice([2, 4, 6])
    last = None
    for _ in range(k):
        u = R.random()
        ds = R.choice(H.ds)
        ext = R.choice([None, None, None, 'java', 'java|py', 'py|java', 'nounicode|java', 'bytes|java', 'java|a_b']) if PROP != 'C15' else R.choice([None, None, 'java'])
        nouni = R.random() < .25
        if u < .12:
            H.edit(ds)
            last = None
        elif u < .2:
            H.corpus(ds, ext, nouni, R.random() < .6, R.choice([None, None, P.cfg('basic')]))
        elif u < .25 and PROP == 'C16':
            H.look_all()
        else:
            if last and R.random() < (.6 if PROP == 'C15' else .3):
                ds, ext, nouni = last
            want = R.choice([None, None, None, R.choice(IDS)] if PROP != 'C16' else [None, None, R.choice(IDS), R.choice(IDS[:6])])
            H.learn(ds, R.choice(NS), ext, nouni, want, R.choice([1, 1, 2, 4]), 'some' if R.random() < {'C15': .45, 'C16': .12, 'C20': .15}[PROP] else None)
            last = (ds, ext, nouni)
    finish(H)


def finish(H):
    # whatever was interrupted is done again
    again = H.steps[-1] if H.steps else None
    if again and again.get('killed'):
        ds = next(d for d in H.ds if os.path.relpath(d.root, H.base) == again['path'])
        H.learn(ds, again['learn'], again['ext'], again['nouni'], again['id'], again['workers'])
    if PROP == 'C16' or R.random() < .3:
        H.look_all()
    if PROP == 'C20' or R.random() < .3:
        H.load()
    H.end()


i = 0
for h in spec['hists']:
    if time.time() > t_end:
        break
    model_history('%d:m%d' % (spec['shard'], i), h)
    i += 1
    random_history('%d:r%d' % (spec['shard'], i))
while time.time() < t_end:
    i += 1
    random_history('%d:r%d' % (spec['shard'], i))
stats['replayed'] = min(i, len(spec['hists']))
out.close()
with open(spec['out'] + '.src', 'w') as f:
    for s in src:
        f.write(json.dumps(s) + '\n')
print(json.dumps({'stats': stats, 'samples': src[:2]}))
