"""Stand-ins for the identifier splitter (package spiral, not installed) and the stemming algorithm (of nltk): what they answer is
environment, spec/Repr.tla says what the code under test has to make of it.  To be imported before codeprep."""
import os, sys
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs')
sys.path.insert(0, STUBS)


def _stem(self, word, *a, **k):
    w = word.lower()
    return w[:-1] if len(w) > 1 and w[-1] in 's3' else w


try:
    from nltk.stem.porter import PorterStemmer
    PorterStemmer.stem = _stem
except ImportError:
    pass
