------------------------------ MODULE StoreMC ------------------------------
(* Round trips and layout for every string over the delimiter alphabet, and every list of two short tokens. *)
EXTENDS Store, TLC
CONSTANTS Alpha, MaxLen
VARIABLES a, b
Strs(n) == UNION {[1..k -> Alpha] : k \in 0..n}
Init == a \in Strs(MaxLen) /\ b \in Strs(1)
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

RoundTrip == Unesc(Escape(a)) = a
Printable == \A i \in DOMAIN Escape(a) : Escape(a)[i] \in 32..126
NoSpace(s) == \A i \in DOMAIN s : s[i] # SP
Injective == (Len(a) <= 1) => (Escape(a) = Escape(b) => a = b)
TokenLine == (NoSpace(a) /\ NoSpace(b)) =>
   LET line == Escape(Join(<<a, b, a>>, SP)) IN
     /\ Records(FileOf(<<line, line>>)) = <<line, line>>
     /\ [i \in 1..3 |-> Unesc(Cut(line, SP)[i])] = <<a, b, a>> /\ Len(Cut(line, SP)) = 3
VocabRecord == LET rec == Escape(a) \o <<TAB, 49, 50>> IN Len(Cut(rec, TAB)) = 2 /\ Unesc(Cut(rec, TAB)[1]) = a
CacheRecord == (NoSpace(a) /\ NoSpace(b)) =>
   LET rec == Escape(b) \o <<TAB>> \o Escape(Join(<<b, a>>, SP))
   IN  Len(Cut(rec, TAB)) = 2 /\ Cut(Unesc(Cut(rec, TAB)[2]), SP) = <<b, a>>
=============================================================================
