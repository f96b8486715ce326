"""Calculates vocabularies of small corpora under many schedules of the merging processes (C12), see simmp.py."""
import itertools, json, os, random, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep_common as P, simmp, vocablib as VL

spec = json.loads(sys.argv[1])      # scratch, out, shard, nshards, seed, tier, scheds, seconds
P.setup_env(spec['scratch'])
WORKERS = [2]
simmp.install(lambda: WORKERS[0])
import codeprep.pipeline.vocab as V     # noqa
R = random.Random('%s/%s/vocabsim' % (spec['seed'], spec['shard']))
null = open(os.devnull, 'w')
sys.stderr, err = null, sys.stderr
out = P.Out(spec['out'])
stats = dict(schedules=0, steps=0, replayed=0, schedule_steps_followed=0, schedule_steps_left=0, timeouts=0, bounded=0, random=0, distinct=0)
src, seen = [], set()


class Corpus:
    def __init__(self, n_files, n_chunks, n_groups, workers):
        self.dir = os.path.join(spec['scratch'], 'c%d' % R.randrange(10 ** 12))
        self.files = [['f%d' % i, 'all'] + VL.random_tokens(R, R.randint(0, 6)) for i in range(n_files)]
        self.paths = VL.write_files(os.path.join(self.dir, 'prep'), self.files, R)
        self.par = dict(files=n_files, chunks=n_chunks, groups=n_groups, workers=workers)
        self.n = 0

    def calc(self, strategy, delays):
        self.n += 1
        o = os.path.join(self.dir, 'o%d' % self.n)
        os.makedirs(o)
        WORKERS[0] = self.par['workers']
        if hasattr(V, 'N_CHUNKS'):
            V.N_CHUNKS = self.par['chunks']
        if hasattr(V, 'MAX_INIT_PARTIAL_VOCABS'):
            V.MAX_INIT_PARTIAL_VOCABS = self.par['groups']
        sim, status = None, 'ended'
        try:
            sim = simmp.simulate(lambda: V.calc_vocab(os.path.join(self.dir, 'prep'), iter(self.paths), o), strategy, delays)
        except (simmp.Deadlock, simmp.TooLong) as e:
            status = 'hangs'
        except BaseException as e:      # noqa
            status = 'fails'
            self.err = repr(e)
        sim = sim or simmp.SIM
        stats['schedules'] += 1
        stats['steps'] += sim.steps
        stats['timeouts'] += sim.timeouts
        return o, status, sim

    def drop(self):
        shutil.rmtree(self.dir)


def judge(c, tid, o, status, how):
    loaded = None
    if status == 'ended':
        try:
            loaded = sorted(V._load_vocab_dict(os.path.join(o, 'vocab')).items())
        except AttributeError:
            loaded = None
        except Exception:
            status = 'fails'
    e = VL.event(tid, status, c.files, o, loaded)
    shutil.rmtree(o)
    runs = []                   # rows, up to the order of those next to each other with the same count
    for r in e['rows']:
        if runs and runs[-1][0] == r[1]:
            runs[-1][1].append(r[0])
        else:
            runs.append((r[1], [r[0]]))
    key = json.dumps([[e[k] for k in ('status', 'occ', 'size')], [(k, sorted(v)) for k, v in runs], sorted(e['loaded'])])
    if key in seen:             # judged already: schedules often give the same answer
        return
    seen.add(key)
    stats['distinct'] += 1
    out.put(e)
    src.append({'id': tid, 'how': how, 'corpus': c.par, 'status': status})


n = 0
# is the stand-in a fair one for this code?  If the plainest schedule does not work here, the real processes decide (vocab_driver.py)
c = Corpus(5, 2, 100, 2)
o, status, sim = c.calc(simmp.Bounded(R, []), False)
e = VL.event('probe', status, c.files, o)
want = {t for f in c.files for t in f}
usable = status == 'ended' and len(e['rows']) == len(want) and len(sim.procs) > 1
c.drop()

if usable:
    first = 1       # the mergers are the processes after the one that calls
    for mergers, sizes, sched in spec['scheds']:
        c = Corpus(sum(sizes), len(sizes), 1000, mergers)
        s = simmp.Replay(R, sched, first)
        o, status, sim = c.calc(s, True)
        stats['replayed'] += 1
        stats['schedule_steps_followed'] += s.followed
        stats['schedule_steps_left'] += s.left
        n += 1
        judge(c, '%d:s%d' % (spec['shard'], n), o, status, {'schedule': sched})
        c.drop()
    t_end = time.time() + spec['seconds']
    # all schedules with at most one (two) switches away from a process that could go on
    for (nf, nc, w) in [(3, 1, 2), (4, 2, 2), (4, 1, 3)]:
        c = Corpus(nf, nc, 1000, w)
        todo, k = [[]], 0
        while todo and time.time() < t_end - spec['seconds'] * .5:
            sw = todo.pop()
            k += 1
            mine = k % spec['nshards'] == spec['shard'] or not sw
            s = simmp.Bounded(random.Random(1), sw)
            o, status, sim = c.calc(s, bool(nf % 2))
            stats['bounded'] += 1
            n += 1
            judge(c, '%d:b%d' % (spec['shard'], n), o, status, {'switches': sw})
            if len(sw) < 2 and mine:
                last = sw[-1][0] if sw else -1
                more = [sw + [(st, i)] for st, m in s.points if st > last for i in range(1, m)]
                R.shuffle(more)
                todo.extend(more)
                if not sw:
                    todo.sort(key=lambda x: R.random())
        c.drop()
    while time.time() < t_end:
        c = Corpus(R.randint(1, 9), R.randint(1, 4), R.choice([1000, 1000, R.randint(1, 5)]), R.choice([1, 2, 2, 3, 4]))
        for _ in range(6):
            s = simmp.Random(R) if R.random() < .5 else simmp.Priorities(R, R.randint(0, 4), 400)
            o, status, sim = c.calc(s, R.random() < .8)
            stats['random'] += 1
            n += 1
            judge(c, '%d:r%d' % (spec['shard'], n), o, status, {'strategy': type(s).__name__})
        c.drop()
out.close()
with open(spec['out'] + '.src', 'w') as f:
    for s in src:
        f.write(json.dumps(s) + '\n')
sys.stderr = err
print(json.dumps({'stats': dict(stats, usable=usable), 'samples': src[:2]}))
