"""Corpora of output files with known tokens, and what a calculation of their vocabulary left, as events of spec/VocabTrace.tla."""
import collections, os

POOL = ['<EOF>', '(', ')', 'a', 'A', 'b</t>', '</t>', '<non-en>', '"', '\\', '\\n', '\n', '\t', '\xa0', '\xe9', '\u4e2d\u6587', '\U0001f600', '\u2028', '\x85',
        "'", '#', '#hash', 'x1', '_', '<w>', 'int', 'return', '0', '12', '\x00', '\x1f', '%', '\\x41', '\\\\', 'K\u212a', '-', '.', '\xd0', '\xff', '1', 'word 1'.replace(' ', '\xa0')]


def escape(t):
    """The documented form of a token on disk: Python escapes."""
    res = ''
    for c in t:
        o = ord(c)
        if c == '\\':
            res += '\\\\'
        elif c == '\n':
            res += '\\n'
        elif c == '\t':
            res += '\\t'
        elif c == '\r':
            res += '\\r'
        elif 32 <= o < 127:
            res += c
        elif o < 256:
            res += '\\x%02x' % o
        elif o < 65536:
            res += '\\u%04x' % o
        else:
            res += '\\U%08x' % o
    return res


def random_tokens(R, n, rare=.2):
    res = []
    for _ in range(n):
        res.append(R.choice(POOL) if R.random() > rare else 'w%d' % R.randint(0, 3000))
    return res


def write_files(root, files, R, nested=False):
    """-> paths (bytes)"""
    res = []
    os.makedirs(root, exist_ok=True)
    for i, toks in enumerate(files):
        d = os.path.join(root, 'd%d' % (i % 3)) if nested else root
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, 'f%d%s.prep' % (i, '.java' if nested else ''))
        with open(p, 'w') as f:
            f.write(' '.join(map(escape, toks)) + '\n')
        res.append(os.fsencode(p))
    return res


def event(tid, status, files, outdir, loaded=None):
    """files: lists of tokens, or counters.  Unknown tokens get numbers of their own."""
    num, esc = {}, {}

    def n(t):
        if t not in num:
            num[t] = len(num) + 1
            esc[escape(t)] = num[t]
        return num[t]
    occ = []
    for f in files:
        for t, k in collections.Counter(f).items():
            if n(t) > len(occ):
                occ.append([])
            occ[n(t) - 1].append(k)
    rows, size, load = [], -1, []
    if status == 'ended':
        strange = {}

        def tok(s):
            return esc[s] if s in esc else strange.setdefault(s, 1000000 + len(strange))
        try:
            with open(os.path.join(outdir, 'vocab'), 'rb') as f:
                for line in f.read().decode().split('\n')[:-1]:
                    t, k = line.rsplit('\t', 1)
                    rows.append([tok(t), int(k)])
            with open(os.path.join(outdir, 'vocabsize')) as f:
                size = int(f.readline())
        except Exception:
            status = 'fails'
        for t, k in loaded or []:
            load.append([num.get(t) or strange.setdefault(('l', t), 1000000 + len(strange)), k])
        if loaded is None:
            load = rows
    return {'id': tid, 'status': status, 'occ': occ, 'rows': rows, 'size': size, 'loaded': load}
