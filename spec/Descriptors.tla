---------------------------- MODULE Descriptors ----------------------------
(* Descriptors of patterns, viewpoints made of them, and vertical slices.     *)
EXTENDS PatternOps

(* ------------------------------------------------- density and number of tags *)
CondMatches(e, q) == IF q.kind = "none" THEN FALSE ELSE TagMatches(e, q)
Counted(e, d) == ~CondMatches(e, d.ign) /\ (d.inc.kind = "none" \/ d.inc.q = <<>> \/ CondMatches(e, d.inc))
CountedEv(P, d) == SelectSeq(P.ev, LAMBDA e : Counted(e, d))
DensityOf(P, d) == SumSeq([i \in DOMAIN CountedEv(P, d) |-> CountedEv(P, d)[i].d])
TagCount(P, d) == Cardinality(Tags(CountedEv(P, d)))
ByDefault == [k |-> "", ign |-> [kind |-> "list", q |-> <<"s:silence">>], inc |-> [kind |-> "none", q |-> <<>>], force |-> 0, dup |-> 0]

(* ------------------------------------------------------------- syncopation *)
(* a loop of n steps is divided in 2^k parts of as many whole steps as they have;
   a step weighs as much as the levels k at which it starts one of the parts   *)
Levels(n) == {k \in 0 .. 15 : n \div (2^k) > 0}
Weight(n, s) == Cardinality({k \in Levels(n) : LET w == n \div (2^k) IN s % w = 0 /\ s \div w < 2^k})
Sounds(P, t) == \E i \in DOMAIN P.ev : Active(P.ev[i], t)
SyncSteps(P, u) == Ceil(P.dur, u)
SyncopationOf(P, u) ==
  LET n == SyncSteps(P, u)
      next(t) == (t + 1) % n
      w == [t \in 0 .. n - 1 |-> Weight(n, t)]
      on == [t \in 0 .. n - 1 |-> Sounds(P, t * u)]
  IN SumSeq([i \in 1 .. n |-> IF on[i - 1] /\ ~on[next(i - 1)] THEN AbsI(w[next(i - 1)] - w[i - 1]) ELSE 0])

(* ------------------------------------------------------------------ chords *)
ChordTable == <<
  <<"0", {0}>>, <<"5", {0, 7}>>, <<"maj(omit5)", {0, 4}>>, <<"min(omit5)", {0, 3}>>, <<"d5", {0, 6}>>,
  <<"maj", {0, 4, 7}>>, <<"min", {0, 3, 7}>>, <<"aug", {0, 4, 8}>>, <<"dim", {0, 3, 6}>>,
  <<"sus4", {0, 5, 7}>>, <<"sus2", {0, 2, 7}>>,
  <<"7", {0, 4, 7, 10}>>, <<"maj7", {0, 4, 7, 11}>>, <<"min7", {0, 3, 7, 10}>>, <<"min(maj7)", {0, 3, 7, 11}>>,
  <<"min7(b5)", {0, 3, 6, 10}>>, <<"dim7", {0, 3, 6, 9}>>, <<"6", {0, 4, 7, 9}>>, <<"min6", {0, 3, 7, 9}>>,
  <<"add9", {0, 2, 4, 7}>>, <<"min(add9)", {0, 2, 3, 7}>>, <<"7sus4", {0, 5, 7, 10}>>,
  <<"add11", {0, 4, 5, 7}>>, <<"min(add11)", {0, 3, 5, 7}>>,
  <<"9", {0, 2, 4, 7, 10}>>, <<"b9", {0, 1, 4, 7, 10}>>, <<"maj9", {0, 2, 4, 7, 11}>>, <<"min9", {0, 2, 3, 7, 10}>>,
  <<"11", {0, 2, 4, 5, 7, 10}>>, <<"maj11", {0, 2, 4, 5, 7, 11}>>, <<"min11", {0, 2, 3, 5, 7, 10}>>,
  <<"13", {0, 2, 4, 5, 7, 9, 10}>> >>
MajMin == <<<<"maj", {0, 4, 7}>>, <<"min", {0, 3, 7}>>>>
Types(force) == IF force = 1 THEN MajMin ELSE ChordTable

(* how long each pitch class sounds *)
Chroma(P) == LET ev == CountedEv(P, ByDefault) IN
  [c \in 0 .. 11 |-> SumSeq([i \in DOMAIN ev |-> IF ev[i].p % 12 = c THEN ev[i].d ELSE 0])]
PitchClasses(root, set) == {(root + x) % 12 : x \in set}
(* ten times the score *)
Score(chroma, total, dur, pcs) ==
  FoldSet(LAMBDA c, sum : sum + 18 * chroma[c] - (IF chroma[c] = 0 THEN 5 * dur ELSE 0), -10 * total, pcs)
(* every root with every type: <<root, name, pitch classes>> *)
Placed == [f \in 0 .. 1 |-> {<<r, Types(f)[i][1], PitchClasses(r, Types(f)[i][2])>> : r \in 0 .. 11, i \in DOMAIN Types(f)}]
MaxOf(f) == FoldFunction(Max2, -999999999, f)
BestChords(P, force) ==
  LET chroma == Chroma(P)
      total == SumSeq([i \in 1 .. 12 |-> chroma[i - 1]])
      all == Placed[force]
      score == [x \in all |-> Score(chroma, total, P.dur, x[3])]
      best == MaxOf(score)
  IN {x \in all : score[x] = best}
Silent(P) == \A c \in 0 .. 11 : Chroma(P)[c] = 0

(* the value rv given for the pattern P by the descriptor d *)
VValue(P, d, rv, u) ==
  CASE d.k = "density" -> Clause("density", rv.x = DensityOf(P, d))
    [] d.k = "tags" -> Clause("numberOfTags", rv.x = TagCount(P, d))
    \* silences are not steps where something sounds: patterns that have some are left out,
    \* and those whose times are not binary fractions, which rounding can put on either side of a step
    [] d.k = "sync" -> Clause("syncopation", ~IsPow2(u) \/ "s:silence" \in Tags(P.ev) \/ rv.x = SyncopationOf(P, u))
    [] d.k = "chord" ->
       IF Silent(P) THEN Clause("silence", rv.sil = 1)
       ELSE LET best == BestChords(P, d.force)
                named == {<<x[1], x[2]>> : x \in best}
                got == {<<rv.ch[i].r, rv.ch[i].t>> : i \in DOMAIN rv.ch}
                gotSets == {x[3] : x \in {y \in best : <<y[1], y[2]>> \in got}} IN
            Clause("notSilence", rv.sil = 0 /\ rv.ch # <<>>) \cup
            Clause("bestChord", got \subseteq named) \cup
            (IF d.dup = 0 THEN Clause("oneChord", Len(rv.ch) = 1)
             ELSE Clause("oneRootForEachType", Cardinality({x[2] : x \in got}) = Len(rv.ch)) \cup
                  \* types that have the very same pitch classes as one returned
                  Clause("allTheBest", \A x \in best : x[3] \in gotSets => \E y \in got : y[2] = x[2]))

VDescribe(L) == VValue(L.pre, L.a, L.rv, L.u) \cup Clause("pure", Unchanged(L.pre, L.post))

(* the drum space: four descriptors *)
Of4(q) == [ByDefault EXCEPT !.inc = [kind |-> "list", q |-> q]]
VDrumSpace(L) ==
  Clause("numberOfInstruments", L.rv.n = TagCount(L.pre, ByDefault)) \cup
  Clause("low", L.rv.lo = DensityOf(L.pre, Of4(<<"s:Kick", "s:low Congas">>))) \cup
  Clause("middle", L.rv.mid = DensityOf(L.pre, Of4(<<"s:snare", "s:rimshot", "s:hiconga">>))) \cup
  Clause("high", L.rv.hi = DensityOf(L.pre, Of4(<<"s:closed hihat", "s:shaker", "s:clave">>))) \cup
  Clause("four", L.rv.keys = 4) \cup
  Clause("pure", Unchanged(L.pre, L.post))

(* -------------------------------------------------------------- viewpoints *)
(* the slices [s, d, ev] that a viewpoint must describe, in time order *)
SlicesBy(P, a) ==
  CASE a.how = "step" ->
       LET w == [k \in 1 .. NumWindows(P, a.len) |-> [s |-> (k - 1) * a.len, d |-> a.len, ev |-> WindowPieces(P.ev, a.len, k - 1)]]
       IN SelectSeq(w, LAMBDA x : x.ev # <<>>)
    [] a.how = "perEvent" ->
       LET on == SortSeq(SetToSeq(Onsets(P.ev)), <)
       IN [i \in DOMAIN on |-> LET ev == SelectSeq(P.ev, LAMBDA e : Active(e, on[i])) IN
            [s |-> on[i], d |-> MaxEnd(ev) - on[i], ev |-> ev]]
    [] a.how = "all" -> IF P.ev = <<>> THEN <<>> ELSE <<[s |-> P.st, d |-> P.dur, ev |-> P.ev]>>
VViewpoint(L) ==
  LET exact == IsPow2(L.u)
      want == SlicesBy(L.pre, L.a)
      \* rounding decides what sounds at an onset where another event ends
      judged == exact \/ L.a.how # "perEvent"
      got == IF exact THEN L.rv.ev ELSE SelectSeq(L.rv.ev, LAMBDA e : NoSlivers(e.sub.ev, FALSE) # <<>>) IN
  Clause("oneEventPerSlice", Len(got) = Len(want)) \cup
  (IF Len(got) # Len(want) \/ ~judged THEN {}
   ELSE Clause("sliceTimes", \A i \in DOMAIN got : got[i].s = want[i].s /\ got[i].d = want[i].d) \cup
        Clause("refersToSlice", \A i \in DOMAIN got : BagEq(NoSlivers(got[i].sub.ev, exact), want[i].ev) /\ got[i].sub.dur = want[i].d
                                                      /\ got[i].sub.st = want[i].s) \cup
        Clause("wholeIsSource", L.a.how = "all" => \A i \in DOMAIN got : got[i].self = 1) \cup
        UNION {VValue([L.pre EXCEPT !.ev = want[i].ev, !.dur = want[i].d, !.st = want[i].s], L.a.d, got[i].val, L.u) : i \in DOMAIN got}) \cup
  Clause("storedUnderItsName", L.rv.stored = 1 /\ L.rv.nm = L.a.nm) \cup
  Clause("refersToSource", L.rv.par = 1) \cup
  Clause("lengthAndTempo", L.rv.dur = L.pre.dur /\ L.rv.m = L.pre.m) \cup
  Clause("otherViewpoints", L.rv.others = 1) \cup
  Clause("sourceUnchanged", Unchanged(L.pre, L.post))

(* ------------------------------------------------------------- pitch names *)
VPitchNames(L) == Clause("name", L.rv.n = PitchName(L.a.x))

(* one chord for each run of events of the same onset, holding all that sounds at it *)
VChordify(L) ==
  IF ~IsPow2(L.u) \/ \E i \in 2 .. Len(L.pre.ev) : L.pre.ev[i - 1].s > L.pre.ev[i].s THEN Clause("pure", Unchanged(L.pre, L.post)) ELSE
  LET heads == SelectSeq(Upto(1, Len(L.pre.ev)), LAMBDA i : i = 1 \/ L.pre.ev[i - 1].s # L.pre.ev[i].s)
      ok == Len(heads) = Len(L.rv.ev) IN
  Clause("oneChordPerOnset", ok /\ L.rv.n = Len(heads)) \cup
  (IF ~ok THEN {} ELSE
   Clause("chordTimes", \A i \in DOMAIN heads : L.rv.ev[i].s = L.pre.ev[heads[i]].s /\ L.rv.ev[i].d = L.pre.ev[heads[i]].d) \cup
   Clause("components", \A i \in DOMAIN heads :
      LET on == SelectSeq(L.pre.ev, LAMBDA e : Active(e, L.pre.ev[heads[i]].s)) IN
      /\ BagEq(L.rv.ev[i].cmp, [j \in DOMAIN on |-> <<on[j].p, on[j].v>>])
      /\ BagEq(L.rv.ev[i].tc, FoldLeft(LAMBDA s, e : s \o (IF e.tc = <<>> /\ e.t # "t:()" THEN <<e.t>> ELSE e.tc), <<>>, on)))) \cup
  Clause("duration", L.rv.dur = Max2(L.pre.dur, MaxOr({L.pre.ev[i].s + L.pre.ev[i].d : i \in RangeOf(heads)}, 0))) \cup
  Clause("pure", Unchanged(L.pre, L.post))

DescriptorOpNames == {"describe", "drumSpace", "viewpoint", "splitViewpoint", "chordify", "pitchNames"}
VDescriptor(L) ==
  CASE L.op = "describe" -> VDescribe(L)
    [] L.op = "drumSpace" -> VDrumSpace(L)
    [] L.op = "viewpoint" -> VViewpoint(L)
    [] L.op = "splitViewpoint" -> VSplit(L.pre, L.a, L.rv.post, L.rp, IsPow2(L.u))
    [] L.op = "chordify" -> VChordify(L)
    [] L.op = "pitchNames" -> VPitchNames(L)
=============================================================================
