"""Records iterations over subtokens and metadata checks (C18)."""
import itertools, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep_common as P
spec = json.loads(sys.argv[1])
P.setup_env(spec['scratch'])
from codeprep.subtokens import FullTokenIterator, SubtokenIterator, is_terminal_subtoken
from codeprep.preprocess.metadata import PreprocessingMetadata, check_metadata_validity
import codeprep.api.text as T
import textgen
R = textgen.init('%s/%s/iter' % (spec['seed'], spec['shard']))
thorough = spec['tier'] == 'thorough'
MAXN = 10 if thorough else 8
out = P.Out(spec['out'])
src = open(spec['out'] + '.src', 'w')
n_ev = 0
shard, nshards = spec['shard'], spec['nshards']
counts = {}


def put(ev, note):
    global n_ev
    n_ev += 1
    counts[ev['kind']] = counts.get(ev['kind'], 0) + 1
    ev['id'] = '%d:%d' % (shard, n_ev)
    out.put(ev)
    src.write(json.dumps({'id': ev['id'], 'note': note, 'ev': ev}) + '\n')


def boundaries(n):
    for k in range(0, max(n, 1)):
        for c in itertools.combinations(range(1, n), k):
            yield ([0] + list(c) + [n]) if n else [0]


def code(x):
    """Items as the specification sees them: subtokens are numbers 1..n."""
    return x


FORMATS = ['list', 'default', 'sum']


def iterate(kind, n, wb, with_index, fmt, interleave=False):
    cls = FullTokenIterator if kind == 'full' else SubtokenIterator
    # default formats join strings, so subtokens are the characters with codes 1..n
    subs = [chr(0x100 + i) for i in range(1, n + 1)] if fmt == 'default' else [i for i in range(1, n + 1)]
    keep, keepwb = list(subs), list(wb)
    kw = {}
    if fmt == 'list':
        kw['format'] = lambda x: list(x)
    elif fmt == 'sum':
        kw['format'] = lambda x: [sum(2 ** e for e in x)]
    if with_index:
        kw['return_full_token_index'] = True

    def decode(item):
        if fmt == 'list':
            return list(item)
        if fmt == 'default':
            return [ord(c) - 0x100 for c in item]
        v, = item
        return [i for i in range(1, n + 1) if v & 2 ** i]

    items, rejected, exhausted = [], False, True
    try:
        it = cls(subs, wb, **kw)
        other = cls(subs, wb, **kw) if interleave else None
        for j, x in enumerate(it):
            items.append([x[0], decode(x[1])] if with_index else [decode(x)])
            if other is not None and j % 2:
                next(other)
            if len(items) > n + 3:
                exhausted = False
                break
        for _ in range(2):
            try:
                next(it)
                exhausted = False
            except StopIteration:
                pass
    except Exception as e:
        rejected = True
        note = repr(e)
    else:
        note = ''
    ev = {'kind': kind, 'subs': list(range(1, n + 1)), 'wb': keepwb, 'withIndex': with_index, 'items': items, 'rejected': rejected,
          'exhausted': exhausted, 'inputsKept': subs == keep and wb == keepwb}
    put(ev, fmt + ' ' + note)


class T0: pass


def check(tokens, wb, use_marks=None, note=''):
    try:
        md = PreprocessingMetadata(set(), list(wb) or [0], [T0] * (max(len(wb), 1) - 1))
        md.word_boundaries = list(wb)
        if use_marks is None:
            check_metadata_validity(list(tokens), md)
        else:
            check_metadata_validity(list(tokens), md, use_only_token_end_chars=use_marks)
        rej = False
    except (ValueError, AssertionError):
        rej = True
    put({'kind': 'check', 'subs': list(range(1, len(tokens) + 1)), 'wb': list(wb), 'marksUsed': use_marks is not False,
         'marks': [t[-4:] == '</t>' for t in tokens], 'rejected': rej}, json.dumps([tokens, note]))


todo = []
for n in range(0, MAXN + 1):
    for wb in boundaries(n):
        for kind in ('full', 'sub'):
            for wi in (False, True):
                todo.append(('it', kind, n, wb, wi, FORMATS[len(todo) % 3], len(todo) % 5 == 0))
for n in range(0, 4):
    for k in range(0, 4):
        for wb in itertools.product(range(-1 if k < 3 else 0, n + 2), repeat=k):
            for kind in ('full', 'sub'):
                todo.append(('it', kind, n, list(wb), bool(len(todo) & 1), FORMATS[len(todo) % 3], False))
VOC = ['a', 'b</t>', '</t>', '</t>c', '']
for n in range(0, 5 if thorough else 4):
    for toks in itertools.product(VOC, repeat=n):
        for wb in boundaries(n):
            todo.append(('ck', list(toks), wb, [None, True, None, False][len(todo) % 4]))
for n in range(0, 3):
    for k in range(0, 4):
        for wb in itertools.product(range(0, n + 2), repeat=k):
            todo.append(('ck', ['a</t>'] * n, list(wb), None))
# long lists: the error context is cut out of the list
for n in (21, 40, 45, 80):
    for bad in (0, 1, 19, 20, n - 2, n - 1):
        wb = [0] + sorted(R.sample(range(1, n), R.randint(1, n // 2))) + [n]
        toks = ['x</t>' if i + 1 in wb else 'x' for i in range(n)]
        todo.append(('ck', list(toks), wb, None))
        toks[bad] = 'x' if toks[bad] == 'x</t>' else 'x</t>'
        todo.append(('ck', toks, wb, None))
        todo.append(('it', 'full', n, wb, True, 'list', True))
        todo.append(('it', 'sub', n, wb, True, 'list', True))
for t in todo[shard::nshards]:
    if t[0] == 'it':
        iterate(*t[1:])
    else:
        check(*t[1:])
# results of real preprocessing
for _ in range(60 if thorough else 12):
    text = textgen.program('java').replace('</t>', '')
    for fn, mark in ((lambda: T.bpe(text, '1k', 'java', return_metadata=True), True), (lambda: T.chars(text, 'java', return_metadata=True), True),
                     (lambda: T.basic(text, 'java', return_metadata=True), False)):
        try:
            toks, md = fn()
        except Exception:
            continue
        wb = md.word_boundaries
        iterate('full', len(toks), wb, True, 'list')
        iterate('sub', len(toks), wb, True, 'list')
        if mark:
            check(toks, wb, None, 'real')
out.close()
src.close()
print(json.dumps({'counts': counts}))
