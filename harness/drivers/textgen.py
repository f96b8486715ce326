"""Random and enumerated source texts, merge lists (shared by the drivers).  Call init() first."""
import itertools, random
import prep_common as P

R = None
THOROUGH = False
ROWS, EXTRA = P.uni_table()
X = [chr(c) for c in EXTRA]
# the runtime itself is not of one mind on whether U+001C..U+001F are blanks (str.strip against str.isspace)
ASCII = [chr(c) for c in range(128) if not 28 <= c <= 31]


def init(seed, thorough=False):
    global R, THOROUGH
    R, THOROUGH = random.Random(seed), thorough
    return R


# ------------------------------------------------------------------ generators
EXTS = ['java', 'py', 'js', 'c', 'cpp', 'go', 'rb', 'html', 'sql', 'sh', None, 'zzz', 'scala', 'kt', 'clj', 'cobol',
        'md', 'xml', 'json', 'yaml', 'hs', 'rs', 'php', 'ts', 'css', 'tex', 'pl', 'lua', 'java', 'java', 'py', 'vbnet',
        'pascal', 'fortran', 'matlab', 'swift', 'erlang', 'make', 'diff', 'ini', 'text']
ID_ALPHA = ['a', 'b', 'A', 'B', '1', '_', X[0], X[1]]
NUM_ALPHA = ['0', '1', 'x', 'b', 'e', 'f', 'L', '_', 'd']


def ident():
    if R.random() < .25:
        return ''.join(R.choice(ID_ALPHA) for _ in range(R.randint(1, 8)))
    parts = []
    for _ in range(R.randint(1, 5)):
        w = R.choice(['my', 'class', 'x', 'http', 'ab', 'to', 'str', 'UTF', 'zz', 'i', X[0] + 'a', R.choice(X), 'nd'])
        w = R.choice([str.lower, str.upper, str.capitalize, lambda s: s, lambda s: s])(w)
        parts.append(w)
        if R.random() < .3:
            parts.append(R.choice(['_', '__', '1', '42', '_2', '0x1F']))
    return ''.join(parts)


def number():
    if R.random() < .4:
        return ''.join(R.choice(NUM_ALPHA + ['.', '+']) for _ in range(R.randint(1, 6)))
    return R.choice(['0', '1', '42', '0x1F', '0XAB', '0b101', '1e5', '1.5E-3f', '10L', '.5', '5.', '1_000', '0.345e+4',
                     '0777', '1i', '0x1p3', '9D'])


def strlit():
    n = R.choice([0, 0, 1, 2, 3, 5, 8, 20, 58, 59, 60, 61, 62, 80]) if R.random() < .7 else R.randint(0, 66)
    q = R.choice(['"', '"', "'", '"""', '`'])
    body = ''
    while len(body) < n:
        body += R.choice(['a', 'Foo', ' ', '  ', '   ', '    ', '     ', '\t', '.', '@', '@@', R.choice(X), ident(), '<', '/', '\\n', '12',
                          '\n' if q == '"""' else ' ', '\xa0', '</t>', '<w>', '<EOL>', '(', ';'])
    return q + body[:n] + (q if R.random() < .93 else '')


def comment(ext):
    words = ' '.join(R.choice([ident(), number(), '  ', '\t', 'TODO', '@author', '<b>', '"q"', '// x', '=', R.choice(X), '    ', '{}',
                               'if', ';', 'class'])
                     for _ in range(R.randint(0, 7)))
    st = R.choice(['//', '//', '#', '--', '%', ';', '/*', '/*', '/**', '<!--', '{-', '"""', '(*', "'"])
    end = {'/*': '*/', '/**': '*/', '<!--': '-->', '{-': '-}', '"""': '"""', '(*': '*)'}.get(st)
    if end:
        if R.random() < .5:
            words = words.replace('  ', '\n * ')
        return st + words + (end if R.random() < .95 else '')
    return st + words + '\n'


FRAGS = ['import static foo.bar;', 'import   java.util .*;\n', 'not in', 'is  not', 'else if', 'end if',
         'class Foo extends Bar {', '} else {', 'if (a >= b) {', 'return x;', 'for (;;) {', '<a href="b c">t</a>',
         '<% x %>', '${a b}', '#include <a b.h>\n', '@Anno (x)', 'a := b', 'a =  b', ' ; ', '( ', '  )',
         'unsigned long long', 'create  table', 'ORDER BY x', '::  a', '-> ', 'select *', 'def foo ( x ) :',
         'fn main( ) {', '$x  = 1', '[ a  b ]', '{ }', 'r"x y"', 'f"{a b}"', 'public static final', '#!/bin/sh\n',
         'key:  value\n', '- item  x\n', '<EOF>', '<comment>', '</t>', '<w>a</w>', 'a<b>c', 'x@y', '@', '@@', 'int',
         '\n', '\n\n', '\t', '\t\t', ' ', '  ', '   ', '    ', '     ', '        ', '\r\n', '\r', '\x0b', '\x0c',
         '\x00', '\x85', '\u2028', '\xa0', '\\', '\\u0041', '\\n', "'a'", "'\\''", '0', '1', ';', '{', '}', '(', ')', '!=', '...', '?.', '\x7f',
         'private int x1 = 0;', 'this', 'null', 'None', 'True', 'assert', 'var', 'λ = 1', 'a"b', "it's", '+=', '&&', '|']


def soup(n):
    return ''.join(R.choice(['a', 'B', '1', '_', ' ', '\n', '\t', '"', "'", '/', '*', '#', '.', '(', ')', '{', '@', '\\', '<', '>', '=',
                             R.choice(X), R.choice(ASCII)]) for _ in range(n))


def program(ext):
    out = []
    for _ in range(R.randint(1, 14)):
        k = R.random()
        out.append(ident() if k < .25 else number() if k < .33 else strlit() if k < .48 else comment(ext) if k < .6
                   else soup(R.randint(1, 8)) if k < .68 else R.choice(FRAGS))
        out.append(R.choice(['', '', ' ', ' ', '\n', '    ', ';\n']))
    if R.random() < .3:
        out.append(R.choice(['\n', '\n\n', ' \n', '    \n', '\n    ']))
    return ''.join(out)


def enumerated():
    """Small-scope enumerations, packed into comments, strings and code: (text, ext)."""
    def pack(words, per, wrap):
        for i in range(0, len(words), per):
            yield wrap(words[i:i + per])
    deep = 5 if THOROUGH else 4
    ids = [''.join(p) for n in range(1, deep + 1) for p in itertools.product(['a', 'B', '1', '_', X[0]], repeat=n)]
    ids += [''.join(p) for n in range(1, 4) for p in itertools.product(['a', 'A', X[1], chr(0xdf), chr(0x416), '1'], repeat=n)]
    nums = [''.join(p) for n in range(1, deep + 1) for p in itertools.product(NUM_ALPHA, repeat=n)
            if p[0] in '01x_b' or n < 3]
    blanks = [''.join(p) for n in range(1, 6) for p in itertools.product(['a', ' ', '\n', '\t'], repeat=n)]
    strs = ['"' + ''.join(p) + '"' for n in range(0, deep + 1) for p in itertools.product(['a', ' ', X[0], '@', '.'], repeat=n)]
    return list(itertools.chain(
        pack(ids, 80, lambda ws: ('// ' + ' '.join(ws) + '\nint x;', 'java')),
        pack(ids, 80, lambda ws: ('\n'.join('v' + w + ';' for w in ws), 'java')),
        pack(nums, 80, lambda ws: ('/* ' + ' '.join(ws) + ' */', 'c')),
        pack([n for n in nums if n[0] in '01'], 60, lambda ws: (' '.join(w + ';' for w in ws), 'java')),
        pack(blanks, 24, lambda ws: (';'.join(ws), 'java')),
        pack(blanks, 24, lambda ws: ('#' + '\n#'.join(w.replace('\n', '\t') for w in ws), 'py')),
        pack(strs, 40, lambda ws: (';'.join(ws), 'java'))))


# --------------------------------------------------------------- merge fixtures
def random_merges(n, alphabet):
    syms = [c if c != '@' else '@@' for c in alphabet]
    res, seen = [], set()
    pool = list(syms) + ['@']
    for _ in range(n * 5):
        if len(res) == n:
            break
        a, b = R.choice(pool[-8:] if R.random() < .5 else pool), R.choice(pool)
        if a.endswith('@') and len(a) - len(a.rstrip('@')) & 1:
            continue                        # the word-end mark is always last
        if len(a + b) > 6 or (a, b) in seen:
            continue
        seen.add((a, b))
        res.append((a, b))
        pool.append(a + b)
    return res


LEXICON = ['my', 'class', 'http', 'ab', 'to', 'str', 'utf', 'zz', 'nd', 'myclass', 'strict', 'tostr', 'httpclass', 'Foo', 'my_', 'x1', 'ab42',
           'classmy', 'abto', 'strmy', 'int', 'string', 'value', 'mystring', 'TODO', 'author', 'UTF', 'CLASS', 'MY', 'Class', 'myClass', 'aB', 'B_b', 'toMy']


def tree_merges(words):
    """Merges that build the words, each along several binary trees, in an order that has nothing to do with the trees."""
    res = []

    def go(syms):
        if len(syms) == 1:
            return syms[0]
        k = R.randint(1, len(syms) - 1)
        a, b = go(syms[:k]), go(syms[k:])
        if (a, b) not in seen:
            seen.add((a, b))
            res.append((a, b))
        return a + b
    seen = set()
    for w in words:
        for _ in range(3):
            go([c if c != '@' else '@@' for c in w] + (['@'] if R.random() < .5 else []) or ['a', 'b'])
    R.shuffle(res)
    return res


# non-BPE tokens of fixtures; each word of the lexicon and '@' looks like that word encoded
NONBPE = ['<EOF>', '(', 'if', 'class', '$@', '@', 'a@', 'b@', 'aB@'] + [w + '@' for w in LEXICON]
