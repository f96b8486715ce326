"""Datasets under edits, runs, references with empty caches, and the events of spec/PipelineTrace.tla."""
import json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep_common as P, corpuslib as L

spec = json.loads(sys.argv[1])      # scratch, out, shard, seed, tier, hists, n_random, scenarios
L.subreaper()
lab = L.Lab(spec['scratch'])
import textgen
R = textgen.init('%s/%s/pipe' % (spec['seed'], spec['shard']))
CODES = textgen.random_merges(60, list('abA1_@.myx0"stringe') + [textgen.X[0]])
T0 = 1500000000


class Dataset:
    """A small dataset whose modification times are under control."""
    def __init__(self, root, start):
        self.root, self.clock, self.serial = root, start, 0
        self.t = {'': start}
        for d in ('sub', 'sub/deep', '.hid', '__pycache__', 'sub/.git')[:R.choice([2, 5, 5])]:
            os.makedirs(os.path.join(root, d))
            self.t[d] = start
        for n in ('a.java', 'z.java', 'b.py', 'sub/c.java', 'sub/d.txt', 'sub/deep/e.java', 'sub/x.py', 'y.c', '.hid/h.java', '.w.java',
                  '__pycache__/i.py', 'sub/.git/j.java'):
            if os.path.dirname(n) not in self.t:
                continue
            self.write(n)
            self.t[n] = start
        self.stamp()

    def write(self, n):
        self.serial += 1
        with open(os.path.join(self.root, n), 'w', errors='replace') as f:
            f.write('int v%d_%s = "s%d";' % (self.serial, R.choice(['x', 'aB', 'my']), self.serial) + textgen.ident() +
                    R.choice(['', '\n', ' // c\n', ' 42\n', '/* K */', ' "lit x"', ' caf\xe9;', ' return 0;']))

    def stamp(self):
        for n in sorted(self.t, key=lambda x: -len(x)):
            os.utime(os.path.join(self.root, n), (self.t[n], self.t[n]))

    def files(self, ext=None, sub=None):
        res = [n for n in self.t if os.path.isfile(os.path.join(self.root, n))]
        if ext:
            res = [n for n in res if n.endswith(ext)]
        if sub is not None:
            res = [n for n in res if ('/' in n) == sub]
        return sorted(res)

    def dirs(self):
        return sorted(n for n in self.t if n not in self.files())

    def fresh(self, d, ext):
        self.serial += 1
        return os.path.join(d, '%s%d%s' % (R.choice(['n', 'n', 'n', '.n', '_', '~n', '#n']), self.serial, ext))

    def edit(self, kind):
        self.clock += R.choice([1, 1, 2, 60, 100000])
        now = self.clock
        p = lambda n: os.path.join(self.root, n)
        up = os.path.dirname
        keep = lambda fs: fs[:-1] if len(fs) > 1 else []
        # a request must always have files left
        spare = [f for f in self.files() if len(self.files(os.path.splitext(f)[1])) > 1]
        root_spare, sub_spare = [f for f in spare if '/' not in f], [f for f in spare if '/' in f]
        if kind == 1:
            n = R.choice(self.files(sub=False))
            self.write(n)
            self.t[n] = now
        elif kind == 2:
            n = R.choice(self.files(sub=True) or self.files())
            self.write(n)
            self.t[n] = now
        elif kind in (3, 4, 5):
            d = '' if kind != 4 else R.choice([x for x in self.dirs() if x] or [''])
            n = self.fresh(d, R.choice(['.java', '.py', '.java']))
            self.write(n)
            self.t[n] = now if kind != 5 else T0 - 5000
            self.t[d] = now
        elif kind in (6, 7):
            pick = (root_spare if kind == 6 else sub_spare) or spare
            if not pick:
                return self.edit(3)
            n = R.choice(pick)
            os.unlink(p(n))
            del self.t[n]
            self.t[up(n)] = now
        elif kind in (8, 9):
            pick = self.files(sub=(kind == 9)) or self.files()
            n = R.choice(pick)
            m = self.fresh(up(n) if kind == 8 else '', os.path.splitext(n)[1])
            os.rename(p(n), p(m))
            self.t[m] = self.t.pop(n)
            self.t[up(n)] = self.t[up(m)] = now
        elif kind == 10:
            d = self.fresh(R.choice(self.dirs()), '')
            os.mkdir(p(d))
            self.t[d] = self.t[up(d)] = now
            n = self.fresh(d, '.java')
            self.write(n)
            self.t[n] = now
        elif kind == 11:            # the way an editor saves: a new file takes the place of the old one
            n = R.choice(self.files())
            self.write(n)
            self.t[n] = now
            self.t[up(n)] = now
        elif kind == 12:            # two files change places: no file time changes
            a, b = R.sample(self.files(), 2)
            os.rename(p(a), p('tmp'))
            os.rename(p(b), p(a))
            os.rename(p('tmp'), p(b))
            self.t[a], self.t[b] = self.t[b], self.t[a]
            self.t[up(a)] = self.t[up(b)] = self.t[''] = now
        self.stamp()

    def digest(self):
        return L.digest(L.tree(self.root))


CONFS = [(P.cfg('basic'), None), (P.cfg('no'), None), (P.cfg('no', com=False), None), (P.cfg('basic', case=False), None), (P.cfg('num'), None),
         (P.cfg('basic', spaces=False), None), (P.cfg('basic', unicode=False), None), (P.cfg('full'), None), (P.cfg('no', str=False), None),
         (P.cfg('no', max=2), None), (P.cfg('no', max=14), None), (P.cfg('full', com=False, max=14), None), (P.cfg('full', com=False, max=14, unicode=False), None),
         (P.cfg('chars'), None), (P.cfg('bpe'), 'own-60'), (P.cfg('bpe'), 'own-6'), (P.cfg('bpe'), 'two-60'), (P.cfg('bpe'), '1k'), (P.cfg('bpe'), '5k')]
REQS = [(None, 'java'), ('java|py', 'java'), ('java', 'py'), (None, 'java|py'), ('py', None), ('java|c', 'c|java|py')]


def codes_home():
    h = lab.new_home()
    lab.use(h)
    P.write_codes({60: CODES, 20: CODES[:20]}, nonbpe=['<EOF>', '(', 'if'], id='own')
    P.write_codes({60: CODES[::-1]}, nonbpe=['<EOF>'], id='two', dirname='two_x')
    return h


def read_vocab(path):
    with open(path, 'rb') as f:
        rows = f.read().decode().split('\n')
    return sorted([r.rsplit('\t', 1) for r in rows if r])


def do_run(root, req, dest, c, codes, voc, size, home, workers, cwd=None, suppress=False, kill_at=0, torn=False, chunks=None, size_of_chunks=None):
    def fn():
        if chunks:                      # few chunks, so that partial vocabularies are merged although there are few files
            import codeprep.pipeline.vocab as V
            if hasattr(V, 'N_CHUNKS'):
                V.N_CHUNKS = chunks
        if size_of_chunks:              # files are handed to the workers in small portions
            import codeprep.pipeline.parse_projects as PP, codeprep.pipeline.to_repr as TR, codeprep.api.corpus as AC
            for mod in (PP, TR, AC):
                if hasattr(mod, 'CHUNKSIZE'):
                    mod.CHUNKSIZE = size_of_chunks
        pc = L.corpus_call(c, root, req, None if cwd else dest, codes, vocab=voc, suppress=suppress)
        return {'path': pc.path_to_prep_dataset, 'voc': pc.path_to_vocab, 'size': pc.get_corpus_size() if size else -1}
    r = lab.run(fn, home, workers, cwd=cwd, kill_at=kill_at, torn=torn)
    lab.use(home)
    if r['ok']:
        v = r['val']
        v['out'] = L.outputs(v['path'])
        v['vocab'] = []
        if voc:
            try:
                v['vocab'] = read_vocab(v['voc'])
            except Exception as e:
                v['vocab'] = [['unreadable', repr(e)]]
    return r


REF = {}
stats = {}
src = []        # what the histories were, for reports


def ref(ds, req, c, codes, voc, key=None):
    k = json.dumps([key or ds.digest(), req, c, codes, voc])
    if k not in REF:
        h = codes_home()
        dest = os.path.join(h, 'out')
        os.makedirs(dest)
        r = do_run(ds.root, req, dest, c, codes, voc, False, h, 1)
        if not r['ok']:
            stats['failed_references'] = stats.get('failed_references', 0) + 1
            lab.drop(h)
            REF[k] = None
            return None
        REF[k] = {'out': {n.decode('latin-1'): L.hashlib.sha1(b).hexdigest()[:12] for n, b in r['val']['out'].items() if n.endswith(b'.prep')},
                  'voc': L.digest(r['val']['vocab'])}
        lab.drop(h)
    return REF[k]


def short(out):
    return [[n.decode('latin-1'), L.hashlib.sha1(b).hexdigest()[:12]] for n, b in sorted(out.items()) if n.endswith(b'.prep')]


def snapshot(dests):
    res = []
    for d in dests:
        if os.path.isdir(d):
            for e in sorted(os.listdir(d)):
                if os.path.isdir(os.path.join(d, e)):
                    res.append([os.path.relpath(os.path.join(d, e), spec['scratch']), L.digest(dict(short(L.outputs(os.path.join(d, e)))))])
    return res


class History:
    def __init__(self, out, tid, info):
        self.out, self.tid, self.n, self.info = out, tid, 0, info
        self.base = os.path.join(spec['scratch'], 'x' + tid.replace(':', '_'))
        self.home = codes_home()
        self.dests = [os.path.join(self.base, 'o1'), os.path.join(self.base, 'o2')]
        for d in self.dests:
            os.makedirs(d)
        self.steps = []
        out.put({'id': tid, 'n': 0, 'op': 'reset'})

    def run(self, ds, req, loc, c, codes, voc, size, workers=1, suppress=False, key=None):
        self.n += 1
        dest = self.dests[loc]
        cwd = dest if R.random() < .1 else None
        exp = ref(ds, req, c, codes, voc, key)
        if exp is None:         # such a run does not even work with empty caches: not a matter of caching
            return
        r = do_run(ds.root, req, dest, c, codes, voc, size, self.home, workers, cwd, suppress, size_of_chunks=R.choice([None, 1, 3]))
        v = r['val'] if r['ok'] else {'out': {}, 'path': dest, 'vocab': [], 'size': -1}
        step = {'run': req, 'loc': loc, 'cfg': c, 'codes': codes, 'vocab': voc, 'size': v['size'], 'workers': workers, 'err': r.get('err'), 'suppress': suppress}
        self.steps.append(step)
        self.out.put({'id': self.tid, 'n': self.n, 'op': 'run', 'ok': r['ok'], 'loc': os.path.relpath(v['path'], spec['scratch']), 'out': short(v['out']),
                      'ref': sorted(map(list, exp['out'].items())), 'asked': voc, 'voc': L.digest(v['vocab']), 'refvoc': exp['voc'],
                      'sized': bool(size and r['ok']), 'size': v['size'], 'after': '', 'killvoc': False,
                      'ntok': [len([t for ln in b.split(b'\n') if ln for t in ln.split(b' ')]) for b in v['out'].values()] if size else [],
                      'voctotal': sum(int(n) for _, n in v['vocab']) if voc and size and r['ok'] and all(x[1].isdigit() for x in v['vocab']) else -2,
                      'snap': snapshot(self.dests)})

    def edit(self, ds, kind):
        self.n += 1
        ds.edit(kind)
        self.steps.append({'edit': kind})
        self.out.put({'id': self.tid, 'n': self.n, 'op': 'edit'})

    def end(self):
        lab.drop(self.home)
        shutil.rmtree(self.base)
        src.append(dict(self.info, id=self.tid, steps=self.steps))


