------------------------------ MODULE RhythmSM ------------------------------
(* Rhythms over the steps of a loop, step by step sounding or not, one after
   another, for one syncopation descriptor. TLC checks that the metrical weights,
   given as the levels a step lies on, are those that halving the loop again and
   again gives; that syncopation is zero when everything or nothing sounds, depends
   only on the steps that sound, is bounded, and adds up over the places where
   sound stops. Each sequence of rhythms is printed as a test.                 *)
EXTENDS Descriptors, Json
CONSTANTS Sizes, FirstSizes, MaxUses, Emit
VARIABLES n, on, uses      \* on: for the steps so far, whether they sound
vars == <<n, on, uses>>
Init == n \in FirstSizes /\ on = <<>> /\ uses = <<>>
Beat == /\ Len(uses) < MaxUses /\ Len(on) < n
        /\ \E x \in {0, 1} : on' = Append(on, x)
        /\ UNCHANGED <<n, uses>>
Use == /\ Len(uses) < MaxUses /\ Len(on) = n
       /\ uses' = Append(uses, on) /\ on' = <<>> /\ n' \in Sizes
Next == Beat \/ Use
Spec == Init /\ [][Next]_vars

Pat(q, d, parts) ==
  LET steps == SelectSeq(Upto(1, Len(q)), LAMBDA i : q[i] = 1)
      ev == FoldLeft(LAMBDA s, i : s \o [j \in 1 .. parts |-> [s |-> i - 1, d |-> 1, p |-> 59 + j, v |-> 80, t |-> "s:a", tc |-> <<>>]], <<>>, steps) IN
  [nil |-> 0, ev |-> ev, ids |-> [i \in DOMAIN ev |-> i], dur |-> d, st |-> 0, m |-> "", x |-> "", nm |-> "", vp |-> <<>>]
Sync(q, parts) == SyncopationOf(Pat(q, Len(q), parts), 1)
(* halving: 1 part of n steps, 2 of n/2, 4 of n/4, while they have a step *)
RECURSIVE Halve(_, _)
Halve(w, depth) == LET width == Len(w) \div depth IN
  IF width = 0 THEN w
  ELSE Halve([i \in DOMAIN w |-> IF (i - 1) % width = 0 /\ (i - 1) \div width < depth THEN w[i] + 1 ELSE w[i]], 2 * depth)
Weights == \A s \in 0 .. n - 1 : Weight(n, s) = Halve([i \in 1 .. n |-> 0], 1)[s + 1]
Whole == Len(on) = n
ZeroIfUniform == Whole /\ Cardinality(RangeOf(on)) = 1 => Sync(on, 1) = 0
OnlyWhatSounds == Whole => Sync(on, 2) = Sync(on, 1)
Bounded == Whole => Sync(on, 1) >= 0 /\ Sync(on, 1) <= (n \div 2) * Cardinality(Levels(n))
(* a longer note that fills the next step is the same as two notes *)
LongNote == Whole => LET p == Pat(on, n, 1)
                         starts == SelectSeq(Upto(1, n), LAMBDA i : on[i] = 1 /\ (i = 1 \/ on[i - 1] = 0))
                         endOf(i) == CHOOSE j \in i .. n : (j = n \/ on[j + 1] = 0) /\ \A k \in i .. j : on[k] = 1
                         ev == [k \in DOMAIN starts |-> [p.ev[1] EXCEPT !.s = starts[k] - 1, !.d = endOf(starts[k]) - starts[k] + 1]] IN
                     SyncopationOf([p EXCEPT !.ev = ev, !.ids = [i \in DOMAIN ev |-> i]], 1) = Sync(on, 1)
EmitTest == ~Emit \/ Len(uses') = Len(uses) \/ PrintT("TEST" \o ToJson([uses |-> uses']))
=============================================================================
