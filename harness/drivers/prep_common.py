"""Helpers shared by the drivers, which run the code under test under PyPy (see harness/common.py)."""
import json, logging, os, random, sys

REPO = os.environ.get('VERIF_REPO', '/repo')

NONASCII = [0xe9, 0xc9, 0xdc, 0xdf, 0xf1, 0xf8, 0x44f, 0x416, 0x3bb, 0x394, 0x4e2d, 0x6587, 0x3042, 0x627,
            0x1f600, 0x301, 0xa0, 0x2028, 0x85, 0xb7, 0xf7, 0xb2, 0x1c5, 0x130, 0x4b, 0x212a, 0x149, 0xfb01, 0xaa,
            0x200b, 0xd800, 0x663, 0xff21, 0xe4, 0x131, 0x2f800]


def setup_env(scratch):
    """Give the code under test its own home directory; must be called before codeprep is imported."""
    home = os.path.join(scratch, 'home')
    os.makedirs(home, exist_ok=True)
    os.environ['HOME'] = home
    for v in ('XDG_CONFIG_HOME', 'XDG_CACHE_HOME', 'XDG_DATA_HOME'):
        os.environ.pop(v, None)
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)


def cps(s):
    return [ord(c) for c in s]


def uni_table(extra=()):
    """Unicode facts about the non-ASCII characters in use.  Characters on which the environment itself is not of one
    mind (regex classes against str methods) are left out; returns (rows, usable characters)."""
    import regex
    todo = list(dict.fromkeys([c for c in NONASCII if c > 127] + [0xa0, 0xf7] + list(extra)))
    rows, seen, bad = [], set(), set()
    while todo:
        c = todo.pop()
        if c in seen or c < 128:
            continue
        seen.add(c)
        ch = chr(c)
        u = bool(regex.fullmatch('[[:upper:]]', ch))
        l = bool(regex.fullmatch('[[:lower:]]', ch))
        w = bool(regex.fullmatch('\\w', ch))
        t = ch.istitle() and not ch.isupper()
        if u != ch.isupper() or l != ch.islower():
            bad.add(c)
        lo, up = cps(ch.lower()), cps(ch.upper())
        todo.extend(x for x in lo + up if x > 127)
        for x in list(lo) + list(up):
            if x > 127:
                todo.append(x)
        rows.append({'c': c, 'w': w, 'u': u, 'l': l, 't': t, 's': ch.isspace(), 'lo': lo, 'up': up})
    return rows, [c for c in NONASCII if c > 127 and c not in bad]


def lexemes(text, ext):
    """What the lexer reports: environment, computed without the code under test."""
    from pygments import lex
    from pygments.lexers import get_lexer_by_name, guess_lexer
    from pygments.util import ClassNotFound
    try:
        lexer = get_lexer_by_name(ext or 'java')
    except ClassNotFound:
        lexer = guess_lexer(text)
    return [{'p': [str(x) for x in ty], 'v': cps(v)} for ty, v in lex(text, lexer)]


def metadata_json(md):
    return {'wb': list(md.word_boundaries), 'ty': [t.__name__ for t in md.token_types],
            'np': sorted(cps(t) for t in md.nonprocessable_tokens)}


class Out:
    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0

    def put(self, o):
        self.f.write(json.dumps(o, separators=(',', ':')) + '\n')
        self.n += 1

    def close(self):
        self.f.close()


# ------------------------------------------------------------------ text calls
MODES = ['no', 'full', 'basic', 'num', 'chars', 'bpe']


def cfg(mode, com=True, str=True, max=0, spaces=True, unicode=True, case=True):
    return {'mode': mode, 'com': com, 'str': str, 'max': max, 'spaces': spaces, 'unicode': unicode, 'case': case}


def call_text(T, text, ext, c, eof, codes=None, force=True, meta=True, max_arg=None):
    """Call the text API as configuration c says; returns whatever it returns."""
    kw = dict(extension=ext, no_spaces=not c['spaces'], no_unicode=not c['unicode'], no_com=not c['com'],
              no_str=not c['str'], return_metadata=meta, append_eof=eof)
    if c['max']:
        kw['max_str_length'] = c['max'] if max_arg is None else max_arg
    m = c['mode']
    if m == 'no':
        return T.nosplit(text, **kw)
    if m == 'full':
        return T.nosplit(text, full_strings=True, **kw)
    if m == 'basic':
        return T.basic(text, no_case=not c['case'], **kw)
    if m == 'num':
        return T.basic(text, no_case=not c['case'], split_numbers=True, **kw)
    if m in ('ronin', 'stem'):          # either implies what it needs
        return T.basic(text, no_case=not c['case'], **{m: True}, **kw)
    if m == 'chars':
        return T.chars(text, **kw)
    if m == 'bpe':
        return T.bpe(text, codes, force_reinit_bpe_data=force, **kw)
    raise AssertionError(m)


def result_json(fn):
    try:
        toks, md = fn()
    except Exception as e:       # noqa: the verdict is the specification's
        return {'ok': False, 'toks': [], 'wb': [], 'ty': [], 'np': [], 'err': repr(e)[:300]}
    try:
        r = {'ok': True, 'toks': [cps(t) for t in toks]}
        r.update(metadata_json(md))
        return r
    except Exception as e:       # a result of the wrong shape
        return {'ok': False, 'toks': [], 'wb': [], 'ty': [], 'np': [], 'err': 'malformed result: ' + repr(e)[:300]}


def lit(s):
    return s.encode('unicode-escape').decode()


def segmentation(word, ranks):
    """What the learner leaves in its cache for a word."""
    syms = [c if c != '@' else '@@' for c in word] + ['@']
    while True:
        at = [p for p in zip(syms, syms[1:]) if p in ranks]
        if not at:
            return syms
        best, new, i = min(at, key=ranks.get), [], 0
        while i < len(syms):
            k = 2 if tuple(syms[i:i + 2]) == best else 1
            new.append(''.join(syms[i:i + k]))
            i += k
        syms = new


def write_codes(merge_lists, nonbpe=(), id='fix', dirname=None, vocab=None, words=()):
    """Lay out custom BPE codes the way learn-bpe leaves them: {n: [(a, b), ...]}."""
    from codeprep import config
    d = os.path.join(config.USER_BPE_DIR, dirname or id)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '.name'), 'w') as f:
        f.write(id)
    for n, merges in merge_lists.items():
        os.makedirs(os.path.join(d, str(n)), exist_ok=True)
        with open(os.path.join(d, str(n), 'merges.txt'), 'w') as f:
            for i, (a, b) in enumerate(merges):
                f.write('%s %d\n' % (lit(a + ' ' + b), 1000 - i))
        ranks = {}
        for m in merges:
            ranks.setdefault(tuple(m), len(ranks))
        with open(os.path.join(d, str(n), 'merges_cache.txt'), 'w') as f:
            for w in words:
                f.write('%s\t%s\n' % (lit(w.replace('@', '@@') + '@'), lit(' '.join(segmentation(w, ranks)))))
            for w in nonbpe:
                f.write('%s\t%s\n' % ((lit(w.replace('@', '@@') + '@'),) * 2))
    vd = os.path.join(config.USER_VOCAB_DIR, (dirname or id) + '_-_u0EFsu')
    os.makedirs(vd, exist_ok=True)
    with open(os.path.join(vd, 'nonbpe_vocab'), 'w') as f:
        for t in nonbpe:
            f.write(lit(t) + '\n')
    with open(os.path.join(vd, 'vocab'), 'w') as f:
        for t, n in (vocab or {}).items():
            f.write('%s\t%d\n' % (lit(t), n))


def read_merge_file(path):
    """Independent reader of a merges file."""
    res = []
    with open(path, 'r', newline='\n') as f:
        for line in f.read().split('\n'):
            if line:
                a, b = line.encode().decode('unicode-escape').split(' ')[:2]
                res.append((a, b))
    return res


def esc(w):
    return w.replace('@', '@@') + '@'


def haystack(text):
    """All forms in which pieces of a text are BPE-encoded, escaped."""
    import re
    forms = []
    for t in {text, text.lower()}:
        for u in {t, t.replace(' ', '\xa0')}:
            forms.append(u)
            forms.append(re.sub('\xf7+', '\xf7', ''.join(c if ord(c) < 128 else '\xf7' for c in u)))
            forms.append(re.sub('\xf7+', '\xf7', ''.join(c if ord(c) < 128 or c == '\xa0' else '\xf7' for c in u)))
    return '\x00'.join(forms).replace('@', '@@')


def relevant_merges(merges, hay):
    """The merges that can apply in a piece of the text (one whose result occurs in no form of it never does)."""
    res = []
    for a, b in merges:
        s = a + b
        if (len(s) - len(s.rstrip('@'))) & 1:
            s = s[:-1]
        if s in hay:
            res.append((a, b))
    return res
