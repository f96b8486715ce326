"""Stand-in for the splitter of the package spiral, which is not installed here: the algorithm is environment, what the code
under test does with its answers is what is checked.  Cuts every three characters (spec/Repr.tla: RoninParts)."""


def split(s):
    return [s[i:i + 3] for i in range(0, len(s), 3)]
