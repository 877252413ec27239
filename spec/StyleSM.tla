------------------------------- MODULE StyleSM -------------------------------
(* The state machine of a Markov style: patterns of a loop of N steps are given to
   it one after another, then it learns, then it generates a pattern step by step.
   TLC checks that what it learns is a probability (rows add up to one and every
   pattern counts once at each step), does not depend on the order of the patterns
   nor on giving them all twice, that generation never gets stuck, that each
   pattern given can be generated again, and that whatever was generated is made of
   learnt continuations. What was given is printed as a test.                  *)
EXTENDS Styles, Json
CONSTANTS TagSet, N, Orders, MaxGiven, Emit
VARIABLES given, order, table, walk
vars == <<given, order, table, walk>>
Rests == {{Silence}}
StatesOfStep == (SUBSET TagSet \ {{}}) \cup Rests
TagOrder == SetToSeq(TagSet)
Given == [0 .. N - 1 -> StatesOfStep]
(* a pattern in which these states start *)
PatternOf(g) ==
  LET all == FoldLeft(LAMBDA s, k : s \o SelectSeq(TagOrder, LAMBDA t : t \in g[k - 1]), <<>>, Upto(1, N))
      at == FoldLeft(LAMBDA s, k : s \o [i \in 1 .. Cardinality(g[k - 1] \cap TagSet) |-> k - 1], <<>>, Upto(1, N)) IN
  [nil |-> 0, ev |-> [i \in DOMAIN all |-> [s |-> at[i], d |-> 1, p |-> 60, v |-> 80, t |-> all[i], tc |-> <<>>]],
   ids |-> [i \in DOMAIN all |-> i], dur |-> N, st |-> 0, m |-> "", x |-> "", nm |-> "", vp |-> <<>>]
Patterns == [i \in DOMAIN given |-> PatternOf(given[i])]
Args(o) == [loop |-> N, n |-> N, order |-> o]
None == <<>>
Init == given = <<>> /\ order \in Orders /\ table = None /\ walk = <<>>
Give == /\ table = None /\ Len(given) < MaxGiven
        /\ \E g \in Given : given' = Append(given, g)
        /\ UNCHANGED <<order, table, walk>>
Learn == /\ table = None /\ given # <<>>
         /\ table' = Learnt(Patterns, Args(order))
         /\ UNCHANGED <<given, order, walk>>
(* a pattern starts with a past seen before the first step that has one in the loop *)
Start == /\ table # None /\ walk = <<>> /\ order > 0
         /\ \E p \in DOMAIN table[order] : walk' = p
         /\ UNCHANGED <<given, order, table>>
Now == SubSeq(walk, Len(walk) - order + 1, Len(walk))
Go == /\ table # None /\ Len(walk) < N /\ (walk # <<>> \/ order = 0)
      /\ Assert(Now \in DOMAIN table[Len(walk)], <<"stuck", given, order, walk>>)
      /\ \E x \in DOMAIN table[Len(walk)][Now] : walk' = Append(walk, x)
      /\ UNCHANGED <<given, order, table>>
Next == Give \/ Learn \/ Start \/ Go
Spec == Init /\ [][Next]_vars

SumOver(f) == FoldFunction(LAMBDA x, y : x + y, 0, f)
Knows == table # None /\ walk = <<>>
RowsAddUp == Knows => \A k \in 0 .. N - 1 : \A p \in DOMAIN table[k] :
  LET row == table[k][p] IN \A x \in DOMAIN row : row[x].n > 0 /\ row[x].d = SumOver([y \in DOMAIN row |-> row[y].n])
EveryPatternCounts == Knows => \A k \in 0 .. N - 1 :
  SumOver([p \in DOMAIN table[k] |-> LET x == CHOOSE x \in DOMAIN table[k][p] : TRUE IN table[k][p][x].d]) = Len(given)
OrderOfPatterns == Knows => Learnt(Reverse(Patterns), Args(order)) = table
Twice == Knows => SameTable(Learnt(Patterns \o Patterns, Args(order)), table)
(* what the events say is what was given *)
StatesAreThoseGiven == Knows => \A i \in DOMAIN given : \A k \in 0 .. N - 1 : StepStates(PatternOf(given[i]), Args(order))[k] = given[i][k]
GivenCanComeBack == Knows => \A i \in DOMAIN given : \A k \in order .. N - 1 :
  LET g == given[i] IN PastAt(g, Args(order), k) \in DOMAIN table[k] /\ g[k] \in DOMAIN table[k][PastAt(g, Args(order), k)]
(* each step generated was seen there after what precedes it *)
WalkIsLearnt == \A k \in 0 .. Len(walk) - 1 : k >= order =>
  \E i \in DOMAIN given : given[i][k] = walk[k + 1] /\ \A j \in 1 .. order : given[i][k - j] = walk[k + 1 - j]
EmitTest == ~Emit \/ table # None \/ table' = None \/
  PrintT("TEST" \o ToJson([given |-> [i \in DOMAIN given |-> [k \in 1 .. N |-> SetToSeq(given[i][k - 1])]], order |-> order]))
=============================================================================
