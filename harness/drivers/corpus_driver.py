"""Preprocesses random datasets as corpora and, file by file, as texts (C08)."""
import json, os, socket, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep_common as P, corpuslib as L

spec = json.loads(sys.argv[1])      # scratch, out, uni, shard, seed, tier, n
L.subreaper()
lab = L.Lab(spec['scratch'])
import textgen
import codeprep.api.text as T
THOROUGH = spec['tier'] == 'thorough'
R = textgen.init('%s/%s/corpus' % (spec['seed'], spec['shard']), THOROUGH)
CODES = textgen.random_merges(60, list('abA1_@.myx0"stringe') + [textgen.X[0]])

NAMES = [b'A', b'Foo', b'a b', b'.hidden', b'x.y', b'-rf', b'\xff\xfe', 'é'.encode(), '中'.encode(), b"q'q", b'q"q', b'new\nline', b'tab\t', b'back\\slash',
         b'a' * 120, b'%s', b'*', b'$HOME', b'..a', b'{x}', b'b_-_c', b'#', b'~', b'x.prep', b'x.parsed', b'x.part', b'\x1b[0m', b'\xc3', b"b'x'", b' lead',
         b'trail ', 'é'.encode('latin-1'), b'archived', b'\xf0\x9f\x98\x80', '\u2028'.encode(), b'\r', '\x85'.encode(), b'M', b'UPPER', b'1']
EXTENSIONS = [b'.java', b'.java', b'.py', b'.js', b'.c', b'.java.bak', b'.JAVA', b'', b'.', b'.xjava', b'java', b'.tar.gz', b'.\xff', b'.md', b'.h\xc3\xa9',
              b'.java~', b'.cc', b'.zzz', b'.py.java', b'.prep', b'.parsed', b'.part', b'.java.part', b'.j\n']
REQUESTS = [None, None, None, 'java', 'java', 'py', 'java|py', 'py|c|java', 'java|java', 'c', 'bak', 'java.bak', 'tar.gz', 'gz', 'JAVA', 'prep', 'a', 'py|zzz|md', 'part']


def content(name):
    ext = os.path.splitext(name)[1][1:]
    k = R.random()
    if k < .06:
        return b''
    if k < .1:
        return R.choice([b'\n', b' ', b'\n\n', b'\r\n', b'\t', b'    ', b'\xef\xbb\xbfint x;', b'\xef\xbb\xbf', b'\r', b'a\r', b'a\rb\r\nc\n\r'])
    text = ''
    for _ in range(R.choice([1, 1, 2, 3])):
        text += textgen.program(ext.decode('utf-8', 'replace') or None)
    if R.random() < .15:
        text = text.replace('\n', R.choice(['\r\n', '\r', '\n\n']))
    if R.random() < .1:
        text = text.rstrip() + R.choice(['', '\n', '\n\n\n', '\r\n', ' \n ', '\t'])
    if R.random() < .2:
        b = text.encode('latin-1', 'replace')
        if R.random() < .5:
            b = bytearray(b)
            for _ in range(R.randint(1, 5)):
                b.insert(R.randint(0, len(b)), R.choice([0xe9, 0xff, 0x80, 0x85, 0xa0, 0xc3, 0xdc, 0xb5, 0xaa]))
            b = bytes(b)
        return b
    b = text.encode('utf-8', 'replace')
    if R.random() < .12:                # mostly UTF-8, but not entirely
        if R.random() < .15:
            b = (b + 'x = "é ü Ж";\n'.encode()) * (1 + 9000 // (len(b) + 1))
        b = b + R.choice(['été = "é";\n// ñ\n'.encode(), b'']) + b'\n' + R.choice([b'caf\xe9 x\n', b'\xff', b'// \x80 y\n', b'"\xc3"']) + R.choice([b'', 'é "ü Ü"'.encode(), b'a b\n'])
    return b


def make_tree(root, n_files, single=False):
    """A dataset; returns its entries [(name, kind)]."""
    if single:
        return []
    os.makedirs(root)
    dirs = [b'']
    used = {b''}
    for _ in range(R.choice([0, 0, 1, 2, 4, 6]) if n_files < 20 else R.choice([0, 3, 8])):
        d = os.path.join(R.choice(dirs), R.choice([b'src', b'main', b'd.java', b'sub dir', b'\xff', b'.git', b'a', b'x_-_y', 'é'.encode(), b'new\nline', b'deep']))
        if d not in used and d.count(b'/') < 7:
            used.add(d)
            dirs.append(d)
            os.makedirs(os.path.join(os.fsencode(root), d))
    for i in range(n_files):
        for _ in range(10):
            base = R.choice(NAMES) if R.random() < .6 else b'f%d' % i
            name = os.path.join(R.choice(dirs), base + R.choice(EXTENSIONS))
            if name in used or os.path.basename(name) in (b'.', b'..') or not os.path.basename(name):
                continue
            # the names of intermediate files must not clash with others
            stem = lambda x: x
            if any(name + s in used or (name.endswith(s) and name[:-len(s)] in used) for s in (b'.parsed', b'.prep', b'.part', b'.parsed.part', b'.prep.part')):
                continue
            used.add(name)
            with open(os.path.join(os.fsencode(root), name), 'wb') as f:
                f.write(content(name))
            break
    rb = os.fsencode(root)
    if R.random() < .5:
        for _ in range(R.randint(1, 3)):
            d = os.path.join(rb, R.choice(dirs), R.choice([b'link', b'l.java', b'm.py']))
            if not os.path.lexists(d):
                k = R.choice(['file', 'broken', 'dir', 'fifo', 'sock', 'outside', 'emptydir'])
                if k == 'file':
                    fs = sorted(u for u in used if os.path.isfile(os.path.join(rb, u)))
                    if fs:
                        os.symlink(os.path.join(rb, R.choice(fs)), d)
                elif k == 'broken':
                    os.symlink(b'/nonexistent/x.java', d)
                elif k in ('dir', 'outside'):
                    out = rb + b'.outside'
                    if not os.path.isdir(out):
                        os.makedirs(out + b'/in')
                        for n in (b'o.java', b'in/p.py', b'q'):
                            with open(os.path.join(out, n), 'wb') as f:
                                f.write(content(n))
                    os.symlink(out, d)
                elif k == 'fifo':
                    os.mkfifo(d)
                elif k == 'sock':
                    if len(d) < 100:
                        s = socket.socket(socket.AF_UNIX)
                        s.bind(d)
                        s.close()
                else:
                    os.makedirs(d)


def entries(root):
    rb = os.fsencode(root)
    if os.path.isfile(rb):
        return [(os.path.basename(rb), 'file', rb)]
    res = []

    def go(d, rel):
        for e in sorted(os.scandir(d), key=lambda x: x.name):
            r = os.path.join(rel, e.name)
            if e.is_dir():                       # a link to a directory is followed
                go(e.path, r)
            elif e.is_symlink():
                res.append((r, 'link', e.path))
            elif e.is_file():
                res.append((r, 'file', e.path))
            else:
                res.append((r, 'other', e.path))
    go(rb, b'')
    return res


def text_of(path):
    with open(path, 'rb') as f:
        b = f.read()
    try:
        s = b.decode('utf-8')
    except UnicodeDecodeError:
        s = b.decode('latin-1')
    s = s.replace('\r\n', '\n').replace('\r', '\n')
    return s[:-1] if s.endswith('\n') else s


def tail(lex):
    """The last lexemes, back to one that certainly yields a token."""
    for i in range(len(lex) - 1, -1, -1):
        if any(not chr(c).isspace() or c in (10,) for c in lex[i]['v']):
            return lex[max(0, i - 1):]
    return lex


def rnd_cfg():
    mode = R.choice(['no', 'full', 'basic', 'num', 'chars', 'bpe', 'bpe'])
    p = R.choice([1, 1, .7])
    return P.cfg(mode, R.random() < p, R.random() < p, R.choice([0, 0, 0, 2, 14, 30, 61]), R.random() < p, R.random() < p,
                 True if mode not in ('basic', 'num') else R.random() < .6)


def new_home(codes):
    h = lab.new_home()
    lab.use(h)
    if codes and codes.startswith('own'):
        P.write_codes({60: CODES, 20: CODES[:20]}, nonbpe=['<EOF>', '(', 'if'], id='own')
    return h


def texts(root, c, codes, home):
    def fn():
        res = []
        for n, k, p in entries(root):
            r = {'n': list(n), 'k': k, 'toks': [], 'tail': []}
            if k == 'file':
                s = text_of(p)
                ext = os.path.splitext(n)[1].decode('utf-8', 'replace')[1:]
                try:
                    lex = P.lexemes(s, ext)
                except Exception:
                    r['k'] = 'rejected'
                    res.append(r)
                    continue
                r['tail'] = tail(lex)
                r['toks'] = [P.cps(t) for t in P.call_text(T, s, ext, c, False, codes, meta=False)]
            res.append(r)
        return res
    return lab.run(fn, home)


out = P.Out(spec['out'])
chars = set()
stats = {'runs': 0, 'files': 0, 'outputs': 0, 'workers': {}, 'modes': {}}
samples, src = [], []
for i in range(spec['n']):
    tid = '%d:%d' % (spec['shard'], i)
    base = os.path.join(spec['scratch'], 'd%d' % i)
    os.makedirs(base)
    single = R.random() < .08
    n_files = R.choice([0, 1, 1, 2, 3, 4, 6]) if i % 12 else R.choice([26, 50, 60])
    name = R.choice(['proj', 'my-proj', 'p.q', 'a b', 'é', 'x_-_y', 'c++', 'P', 'test.java'])
    req = R.choice(REQUESTS)
    if single:
        name = R.choice(['One.java', 'a b.py', 'noext', 'x.y.java', '.hidden.java'])
        req = R.choice([None, os.path.splitext(name)[1][1:] or None])
        root = os.path.join(base, name)
        with open(root, 'wb') as f:
            f.write(content(os.fsencode(name)))
    else:
        root = os.path.join(base, name)
        make_tree(root, n_files)
        if n_files == 0 and not entries(root):
            with open(os.path.join(root, 'z'), 'w') as f:
                f.write('x')
    c = rnd_cfg()
    codes = None
    if c['mode'] == 'bpe':
        codes = R.choice(['1k', 'own-60', 'own-7', 'own-20'])
    workers = R.choice([1, 1, 2, 8]) if n_files < 20 else R.choice([1, 3, 8])
    home = new_home(codes)
    tx = texts(root, c, codes, home)
    if not tx['ok'] or any(f['k'] == 'rejected' for f in tx['val']):
        lab.drop(home)
        continue
    before = L.times(root)
    arg = root + ('/' if R.random() < .1 and not single else '')
    dest = os.path.join(base, 'out')
    r = lab.run(lambda: L.corpus_call(c, arg, req, dest, codes).path_to_prep_dataset, home, workers)
    outs = L.outputs(r['val']) if r['ok'] else {}
    allout = L.outputs(dest) if os.path.isdir(dest) else {}
    ev = {'id': tid, 'ok': r['ok'], 'all': req is None, 'exts': [list(x.encode()) for x in (req or '').split('|')] if req else [],
          'bpe': c['mode'] in ('bpe', 'chars'), 'spaces': c['spaces'], 'files': tx['val'],
          'out': [], 'intact': L.times(root) == before}
    for n, raw in sorted(outs.items()):
        dec = []
        try:
            dec = [P.cps(t.encode().decode('unicode-escape')) for t in raw.decode()[:-1].split(' ')]
        except Exception:
            pass
        ev['out'].append({'n': list(n), 'raw': list(raw), 'dec': dec})
    for f in tx['val']:
        chars.update(x for lx in f['tail'] for x in lx['v'])
    out.put(ev)
    stats['runs'] += 1
    stats['files'] += len(tx['val'])
    stats['outputs'] += len(outs)
    stats['workers'][workers] = stats['workers'].get(workers, 0) + 1
    stats['modes'][c['mode']] = stats['modes'].get(c['mode'], 0) + 1
    d = {'id': tid, 'status': r['status'], 'err': r.get('err'), 'ext': req, 'cfg': c, 'codes': codes, 'workers': workers,
         'files': [[repr(bytes(f['n'])), f['k']] for f in tx['val']][:8], 'out': [repr(n) for n in sorted(outs)][:8]}
    src.append(d)
    if len(samples) < 2:
        samples.append(d)
    lab.drop(home)
    import shutil
    shutil.rmtree(os.fsencode(base))
out.close()
with open(spec['uni'], 'w') as f:
    for r in P.uni_table(chars)[0]:
        f.write(json.dumps(r) + '\n')
with open(spec['out'] + '.src', 'w') as f:
    for s in src:
        f.write(json.dumps(s) + '\n')
print(json.dumps({'stats': stats, 'samples': samples}))
