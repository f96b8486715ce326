---------------------------- MODULE VocabMergeMC ----------------------------
EXTENDS VocabMerge
SizesUpTo(n) == {s \in UNION {[1..k -> 1..n] : k \in 1..n} : SumTo(s, Len(s)) <= n}
Sizes4 == SizesUpTo(4)
Sizes5 == SizesUpTo(5)
Sizes6 == {s \in SizesUpTo(6) : Len(s) <= 3}
\* what distributing files evenly gives
Balanced == {s \in SizesUpTo(6) : Len(s) <= 3 /\ \A i \in 1..(Len(s) - 1) : s[i] \in s[i + 1]..(s[Len(s)] + 1)}
M2 == 1..2
M3 == 1..3
=============================================================================
