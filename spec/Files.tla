------------------------------- MODULE Files -------------------------------
(* Files found by folder and suffix, and names matched with one another. Names
   are sequences of character codes. A tree is a sequence of the records
     [p |-> path, dir |-> 1 for a folder]
   and the suffixes asked for are [any |-> 1 for no restriction, of |-> a
   sequence of suffixes, one of which is enough].                             *)
EXTENDS Base

Slash == 47
Dot == 46
Ends(x, s) == Len(s) <= Len(x) /\ SubSeq(x, Len(x) - Len(s) + 1, Len(x)) = s
Suits(x, want) == want.any = 1 \/ \E s \in RangeOf(want.of) : Ends(x, s)
SplitAt(x) == MaxOr({i \in DOMAIN x : x[i] = Slash}, 0)
BaseName(x) == SubSeq(x, SplitAt(x) + 1, Len(x))
Folder(x) == SubSeq(x, 1, Max2(0, SplitAt(x) - 1))
IsHidden(x) == x # <<>> /\ x[1] = Dot
Less(a, b) ==
  LET d == {i \in 1 .. Min2(Len(a), Len(b)) : a[i] # b[i]} IN
  IF d = {} THEN Len(a) < Len(b) ELSE a[Min(d)] < b[Min(d)]
Sorted(seq) == \A i \in 1 .. Len(seq) - 1 : Less(seq[i], seq[i + 1])

(* ---------------------------------------------------------------- searching *)
Paths(tree) == {tree[i].p : i \in DOMAIN tree}
IsDir(tree, q) == \E i \in DOMAIN tree : tree[i].p = q /\ tree[i].dir = 1
IsMissing(tree, qs) == \E q \in RangeOf(qs) : q \notin Paths(tree)
FoundBy(tree, q, want) ==
  IF IsDir(tree, q)
  THEN {p \in Paths(tree) : Folder(p) = q /\ ~IsHidden(BaseName(p)) /\ Suits(BaseName(p), want)}
  ELSE IF q \in Paths(tree) /\ Suits(q, want) THEN {q} ELSE {}
Found(tree, qs, want) == UNION {FoundBy(tree, q, want) : q \in RangeOf(qs)}

(* folders inside of the folders searched may be listed or not *)
VFound(a, got) ==
  LET all == Found(a.tree, a.qs, a.want) IN
  Clause("found", got \subseteq all /\ \A p \in all \ got : IsDir(a.tree, p))
(* a: tree, qs (what is searched), want; rv: err, got *)
VSearch(a, rv) ==
  IF IsMissing(a.tree, a.qs) THEN Clause("missingIsAnError", rv.err = 1)
  ELSE Clause("noError", rv.err = 0) \cup VFound(a, RangeOf(rv.got)) \cup
       Clause("once", Distinct(rv.got)) \cup Clause("sorted", Sorted(rv.got)) \cup Clause("asked", rv.same = 1)

(* ----------------------------------------------------------------- matching *)
StripName(x, want) == IF want.any = 0 /\ Ends(x, want.of[1]) THEN SubSeq(x, 1, Len(x) - Len(want.of[1])) ELSE x
Same(x, y, sx, sy) == BaseName(StripName(x, sx)) = BaseName(StripName(y, sy)) /\ Suits(y, sy)
Matched(x, ys, sx, sy) == SelectSeq(ys, LAMBDA y : Same(x, y, sx, sy))

VMatch(a, rv) ==
  Clause("matches", rv.got = Matched(a.x, a.ys, a.sx, a.sy)) \cup
  Clause("stripped", rv.strip = StripName(a.x, a.sx)) \cup Clause("asked", rv.same = 1)

FileOpNames == {"search", "matchNames"}
VFiles(L) == IF L.op = "search" THEN VSearch(L.a, L.rv) ELSE VMatch(L.a, L.rv)
=============================================================================
