"""Kills corpus runs just before (or in the middle of) their k-th change of a file and runs them again (C11, C13).

Every scenario has a starting point (home directory, output directories, dataset).  The reference is what the run gives
when it is not interrupted; its vocabulary is counted here, from its output."""
import collections, json, os, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep_common as P, corpuslib as L
import pipelib as Q
from pipelib import spec, R, Dataset, CONFS, REQS, T0, stats, src, lab      # spec: scratch, out, shard, nshards, seed, tier, mode, budget

out = P.Out(spec['out'])
VOC = spec['mode'] == 'vocab'
stats.update({'scenarios': 0, 'kill_points': 0, 'kills': 0, 'torn_writes': 0, 'operations': [], 'reruns': 0, 'hangs': 0})
BASE = [c for c in CONFS if c[0]['mode'] == 'full' and not c[0]['com']]
t_end = time.time() + spec['budget']


def count(outs):
    v = collections.Counter()
    for b in outs.values():
        for line in b.decode().split('\n'):
            if line:
                v.update(line.split(' '))
    return sorted([t, str(n)] for t, n in v.items())


class Scenario:
    def __init__(self, tid, kind):
        self.tid, self.kind, self.n = tid, kind, 0
        self.base = os.path.join(spec['scratch'], 'k' + tid.replace(':', '_'))
        self.dests = [os.path.join(self.base, 'o1'), os.path.join(self.base, 'o2')]
        for d in self.dests:
            os.makedirs(d)
        self.home = Q.codes_home()
        self.c, self.codes = R.choice(CONFS)
        self.req = R.choice(R.choice(REQS))
        self.voc, self.size, self.suppress, self.loc = VOC, False, False, 0
        self.chunks = R.choice([1, 2, 3]) if VOC else R.choice([None, 2])
        self.workers = R.choice([1, 1, 2, 4])
        self.portion = R.choice([None, 1, 1, 3])
        if kind == 'single':
            self.ds = Dataset(os.path.join(self.base, 'proj'), T0)
            self.root = os.path.join(self.ds.root, 'a.java')
            self.req = None
        else:
            self.ds = Dataset(os.path.join(self.base, 'proj'), T0)
            self.root = self.ds.root
        if kind == 'base':
            self.c, self.codes = R.choice(BASE)
        if kind == 'whole':
            self.voc = True
        if kind == 'sized':
            self.size = True
        if kind == 'suppress':
            self.suppress = True
        if kind == 'parsed':
            self.go(self.dests[1], R.choice(CONFS))
        if kind == 'elsewhere':
            self.go(self.dests[1])
        if kind == 'edited':
            self.go(self.dests[0])
            self.ds.edit(R.randint(1, 12))
        if VOC and kind != 'fresh':
            v, self.voc = self.voc, False
            self.go(self.dests[0])
            self.voc = v
        self.saved = os.path.join(self.base, 'saved')
        self.save()
        r = self.go(self.dests[0])
        self.ref = r if r['ok'] else None
        self.n_ops = r.get('n', 0)

    def go(self, dest, conf=None, **kw):
        c, codes = conf or (self.c, self.codes)
        return Q.do_run(self.root, self.req, dest, c, codes, self.voc, self.size, self.home, self.workers, suppress=self.suppress,
                        chunks=self.chunks, size_of_chunks=self.portion, **kw)

    def save(self):
        for i, d in enumerate(self.dests):
            L.copytree(d, os.path.join(self.saved, 'd%d' % i))
        L.copytree(self.home, os.path.join(self.saved, 'h'))

    def restore(self):
        for i, d in enumerate(self.dests):
            shutil.rmtree(d)
            L.copytree(os.path.join(self.saved, 'd%d' % i), d)
        shutil.rmtree(self.home)
        L.copytree(os.path.join(self.saved, 'h'), self.home)

    def event(self, op, tid, r, after):
        self.n += 1
        v = r['val'] if r['ok'] else {'out': {}, 'vocab': [], 'size': -1, 'path': self.ref['val']['path']}
        path = v['path']
        outs = Q.short(v['out']) if op == 'run' else (Q.short(L.outputs(path)) if os.path.isdir(path) else [])
        ref = self.ref['val']
        sized = bool(self.size and op == 'run' and r['ok'])
        out.put({'id': tid, 'n': self.n, 'op': op, 'ok': r['ok'], 'loc': os.path.relpath(path, spec['scratch']), 'out': outs,
                 'ref': Q.short(ref['out']), 'asked': self.voc, 'voc': L.digest(v['vocab']),
                 'refvoc': L.digest(count(ref['out'])) if self.voc else '', 'sized': sized, 'size': v['size'], 'after': after, 'killvoc': VOC,
                 'ntok': [len([t for ln in b.split(b'\n') if ln for t in ln.split(b' ')]) for b in v['out'].values()] if sized else [],
                 'voctotal': -2 if not (sized and self.voc) else sum(int(n) for _, n in v['vocab']),
                 'snap': Q.snapshot(self.dests)})

    def attempt(self, tid, kills):
        """kills: a list of (k, torn); then the run is left alone."""
        self.restore()
        out.put({'id': tid, 'n': 0, 'op': 'restore', 'snap': Q.snapshot(self.dests)})
        log = []
        done = False
        for k, torn in kills:
            r = self.go(self.dests[0], kill_at=k, torn=torn)
            stats['kill_points'] += 1
            if r['status'] == 'killed':
                stats['kills'] += 1
                stats['torn_writes'] += bool(torn and lab.was_write)
                log.append(['killed at', k, 'in a write' if torn and lab.was_write else ''])
                self.event('kill', tid, r, 'kill')
            else:               # it got through
                log.append(['not killed at', k, r.get('err')])
                self.event('run', tid, r, 'kill')
        r = self.go(self.dests[0])
        log.append(['run', r.get('err')])
        stats['reruns'] += 1
        stats['hangs'] += r['status'] == 'hangs'
        self.event('run', tid, r, 'kill')
        src.append({'id': tid, 'scenario': self.kind, 'request': self.req, 'cfg': self.c, 'codes': self.codes, 'vocab': self.voc, 'size': self.size,
                    'workers': self.workers, 'chunks': self.chunks, 'operations': self.n_ops, 'steps': log})

    def end(self):
        lab.drop(self.home)
        shutil.rmtree(self.base)


KINDS = ['whole', 'after', 'after', 'fresh', 'after'] if VOC else ['plain', 'parsed', 'base', 'edited', 'whole', 'single', 'elsewhere', 'sized', 'suppress', 'plain']
i = 0
while True:
    kind = KINDS[(spec['shard'] + i * 3) % len(KINDS)]
    if VOC and kind == 'whole':
        kind = 'after'
    S = Scenario('%d:%d' % (spec['shard'], i), kind)
    i += 1
    if S.ref is None:
        src.append({'id': 'ref', 'scenario': kind, 'cfg': S.c})
        stats['failed_references'] = stats.get('failed_references', 0) + 1
        S.end()
        continue
    stats['scenarios'] += 1
    stats['operations'].append(S.n_ops)
    ks = list(range(1, S.n_ops + 1))
    if spec['tier'] != 'thorough' and len(ks) > 60:
        ks = sorted(R.sample(ks, 60))
    R.shuffle(ks)
    for j, k in enumerate(ks):
        if time.time() > t_end and j > 5:
            break
        kills = [(k, R.random() < .5)]
        while R.random() < .25:
            kills.append((R.randint(1, S.n_ops), R.random() < .5))
        S.attempt('%s:%d' % (S.tid, j), kills)
    S.end()
    if time.time() > t_end:
        break
out.close()
with open(spec['out'] + '.src', 'w') as f:
    for s in src:
        f.write(json.dumps(s) + '\n')
print(json.dumps({'stats': stats, 'samples': [s for s in src if s['id'] != 'ref'][:2]}))
