---------------------------- MODULE PatternOps ----------------------------
(* Patterns and what each operation on them must do.

   An event is [s, d, p, v, t, tc]: start, duration, pitch, velocity, tag (as
   text) and the elements of the tag if it is a tuple. A pattern is
   [ev, ids, dur, st, m, x, nm, vp, nil]: its events, the identities of the event
   objects, duration, start time, tempo and time signature, other data, name and
   viewpoints.

   Each operation has two forms:
   - constructive, Do<Op>: the set of the patterns it may leave, used as the
     action of the state machine PatternSM;
   - a verdict, V<Op>(pre, a, post, ...): the clauses that a step recorded from
     the implementation breaks, used by Trace. PatternSM checks that the verdict
     accepts everything the constructive form does.                           *)
EXTENDS Base

End(e) == e.s + e.d
MaxEnd(ev) == MaxOr({End(ev[i]) : i \in DOMAIN ev}, 0)
Covered(P) == P.dur >= MaxEnd(P.ev)
Onsets(ev) == {ev[i].s : i \in DOMAIN ev}
Tags(ev) == {ev[i].t : i \in DOMAIN ev}
Pitches(ev) == {ev[i].p : i \in DOMAIN ev}

(* identities together with contents *)
Pairs(P) == [i \in DOMAIN P.ev |-> <<P.ids[i], P.ev[i]>>]

(* everything but the events and the duration *)
SameData(P, Q) == P.m = Q.m /\ P.x = Q.x /\ P.st = Q.st /\ P.nm = Q.nm

(* left as it was, up to the order of the events *)
Unchanged(P, Q) == P.nil = Q.nil /\ BagEq(Pairs(P), Pairs(Q)) /\ P.dur = Q.dur /\ SameData(P, Q)

(* the same, but a duration that does not cover the events may grow to do so *)
UnchangedGrow(P, Q) == /\ BagEq(Pairs(P), Pairs(Q)) /\ SameData(P, Q)
                       /\ Q.dur \in {P.dur, Max2(P.dur, MaxEnd(P.ev))}

Fresh(P, Q) == RangeOf(P.ids) \cap RangeOf(Q.ids) = {} /\ Distinct(Q.ids)

Identical(P, Q) == P.ev = Q.ev /\ P.dur = Q.dur /\ SameData(P, Q)

(* ------------------------------------------------------------------ C01 *)
NewId(P, k) == k + MaxOr(RangeOf(P.ids), 0)
DoAdd(P, e) == {[P EXCEPT !.ev = Append(P.ev, e), !.ids = Append(P.ids, NewId(P, 1)), !.dur = Max2(P.dur, MaxEnd(Append(P.ev, e)))]}
VAdd(pre, a, post) ==
  LET all == Append(pre.ev, a.e) IN
  Clause("keepsEvents", BagEq(post.ev, all)) \cup
  Clause("keepsObjects", BagLeq(Pairs(pre), Pairs(post))) \cup
  Clause("duration", post.dur = Max2(pre.dur, MaxEnd(all))) \cup
  Clause("otherData", SameData(pre, post))

VLastNoteOff(pre, rv, post) ==
  Clause("lastNoteOff", IF pre.ev = <<>> THEN rv.none = 1 ELSE rv.none = 0 /\ rv.x = MaxEnd(pre.ev)) \cup
  Clause("pure", Unchanged(pre, post))

DurToLast(P, only) == IF P.ev = <<>> THEN P.dur
                      ELSE IF only THEN Max2(P.dur, MaxEnd(P.ev)) ELSE MaxEnd(P.ev)
DoDurToLast(P, only) == {[P EXCEPT !.dur = DurToLast(P, only)]}
VDurToLast(pre, a, post) ==
  Clause("duration", post.dur = DurToLast(pre, a.only = 1)) \cup
  Clause("keepsEvents", BagEq(Pairs(pre), Pairs(post))) \cup
  Clause("otherData", SameData(pre, post))

DoDurToBar(P, bar) == {[P EXCEPT !.dur = Ceil(P.dur, bar) * bar]}
VDurToBar(pre, a, post) ==
  Clause("wholeBars", post.dur % a.bar = 0) \cup
  Clause("notShorter", post.dur >= pre.dur) \cup
  Clause("smallest", post.dur < pre.dur + a.bar) \cup
  Clause("keepsEvents", BagEq(Pairs(pre), Pairs(post))) \cup
  Clause("otherData", SameData(pre, post))

VNew(a, post) ==
  Clause("asGiven", post.ev = a.ev /\ post.dur = a.dur)

(* ------------------------------------------------------------------ C02 *)
(* Times are sums of floats: unless they are binary fractions, rounding can leave
   pieces of no length at a cut. They hold no time and are ignored then.       *)
IsPow2(u) == u \in {2^k : k \in 0 .. 20}
NoSlivers(ev, exact) == IF exact THEN ev ELSE SelectSeq(ev, LAMBDA e : e.d # 0)

(* what sounds in the window k of length len, timed from its start *)
WindowPieces(ev, len, k) ==
  LET hit == SelectSeq(ev, LAMBDA e : e.s < (k + 1) * len /\ End(e) > k * len) IN
  [i \in DOMAIN hit |->
     LET from == Max2(hit[i].s, k * len)
         to == Min2(End(hit[i]), (k + 1) * len)
     IN [hit[i] EXCEPT !.s = from - k * len, !.d = to - from]]

NumWindows(P, len) == Ceil(P.dur, len)
DoSplit(P, len) ==
  [k \in 1 .. NumWindows(P, len) |->
     [P EXCEPT !.ev = WindowPieces(P.ev, len, k - 1), !.dur = len, !.st = (k - 1) * len]]

VSplit(pre, a, post, rp, exact) ==
  LET all == [k \in 1 .. NumWindows(pre, a.len) |-> [k |-> k - 1, ev |-> WindowPieces(pre.ev, a.len, k - 1)]]
      want == IF a.sup = 1 THEN SelectSeq(all, LAMBDA w : w.ev # <<>>) ELSE all
      got0 == [i \in DOMAIN rp |-> [rp[i] EXCEPT !.ev = NoSlivers(rp[i].ev, exact)]]
      got1 == IF a.sup = 1 THEN SelectSeq(got0, LAMBDA s : s.ev # <<>>) ELSE got0
      \* one more empty window if rounding puts the end after the last cut
      got == IF ~exact /\ Len(got1) = Len(want) + 1 /\ got1[Len(got1)].ev = <<>> THEN SubSeq(got1, 1, Len(want)) ELSE got1
  IN
  Clause("oneSlicePerWindow", Len(got) = Len(want)) \cup
  (IF Len(got) # Len(want) THEN {} ELSE
   Clause("emptyEntries", \A i \in DOMAIN got : (want[i].ev = <<>>) = (got[i].ev = <<>>)) \cup
   Clause("length", \A i \in DOMAIN got : got[i].nil = 1 \/ got[i].ev = <<>> \/ got[i].dur = a.len) \cup
   Clause("startTime", \A i \in DOMAIN got : got[i].nil = 1 \/ got[i].ev = <<>> \/ got[i].st = want[i].k * a.len) \cup
   Clause("pieces", \A i \in DOMAIN got : BagEq(got[i].ev, want[i].ev))) \cup
  (IF a.copy = 1
   THEN Clause("sourceUnchanged", Unchanged(pre, post)) \cup
        Clause("copies", \A i \in DOMAIN rp : rp[i].nil = 1 \/ Fresh(pre, rp[i]))
   ELSE {})

(* ------------------------------------------------------------------ C03 *)
DoWindow(P, from, len, trim) ==
  LET hit == SelectSeq(P.ev, LAMBDA e : from <= e.s /\ e.s < from + len) IN
  [P EXCEPT !.st = from, !.dur = len,
            !.ev = [i \in DOMAIN hit |->
                      [hit[i] EXCEPT !.s = @ - from,
                                     !.d = IF trim THEN Min2(@, from + len - hit[i].s) ELSE @]]]
VWindow(pre, a, post, rp) ==
  LET want == DoWindow(pre, a.s, a.len, a.trim = 1) IN
  Clause("result", Len(rp) = 1 /\ rp[1].nil = 0) \cup
  (IF Len(rp) # 1 THEN {} ELSE
   Clause("events", BagEq(rp[1].ev, want.ev)) \cup
   Clause("length", rp[1].dur = a.len) \cup
   Clause("startTime", rp[1].st = a.s) \cup
   Clause("copies", Fresh(pre, rp[1]))) \cup
  Clause("sourceUnchanged", Unchanged(pre, post))

IdsWhere(P, in(_)) == {P.ids[i] : i \in {j \in DOMAIN P.ev : in(P.ev[j])}}
ExactlyIds(ids, want) == RangeOf(ids) = want /\ Distinct(ids)
Active(e, t) == e.s <= t /\ t < End(e)
VActiveAt(pre, a, rv, post) ==
  Clause("active", ExactlyIds(rv.ids, IdsWhere(pre, LAMBDA e : Active(e, a.t)))) \cup
  Clause("pure", Unchanged(pre, post))
VStartingAt(pre, a, rv, post) ==
  Clause("starting", ExactlyIds(rv.ids, IdsWhere(pre, LAMBDA e : e.s <= a.t /\ a.t - e.s <= a.tol))) \cup
  Clause("pure", Unchanged(pre, post))
VContains(pre, a, rv, post) ==
  Clause("containsTime", Len(rv.in) = Len(pre.ev) /\ \A i \in DOMAIN pre.ev : (rv.in[i] = 1) = Active(pre.ev[i], a.t)) \cup
  Clause("endTime", \A i \in DOMAIN pre.ev : rv.end[i] = End(pre.ev[i])) \cup
  Clause("pure", Unchanged(pre, post))

(* ------------------------------------------------------------------ C04 *)
Voice(e, byPitch) == IF byPitch THEN <<"p", e.p>> ELSE <<"t", e.t>>
SameVoice(e, f, byPitch) == IF byPitch THEN e.p = f.p ELSE e.t = f.t
(* the next onset of the voice of e, or none *)
NextOnset(ev, e, byPitch, none) ==
  MinOr({ev[i].s : i \in {j \in DOMAIN ev : SameVoice(ev[j], e, byPitch) /\ ev[j].s > e.s}}, none)
CutAtNext(ev, e, byPitch) ==
  [e EXCEPT !.d = Min2(@, NextOnset(ev, e, byPitch, End(e)) - e.s)]
(* events that have the voice and onset of e *)
Group(ev, e, byPitch) == {i \in DOMAIN ev : ev[i].s = e.s /\ SameVoice(ev[i], e, byPitch)}
NumGroups(ev, byPitch) == Cardinality({<<Voice(ev[i], byPitch), ev[i].s>> : i \in DOMAIN ev})

Monophonic(ev, byPitch) ==
  \A i, j \in DOMAIN ev : i # j /\ SameVoice(ev[i], ev[j], byPitch) => End(ev[i]) <= ev[j].s \/ End(ev[j]) <= ev[i].s

(* all the ways of keeping one event of each group *)
RECURSIVE Picks(_)
Picks(sets) == IF sets = {} THEN {<<>>}
                 ELSE LET S == CHOOSE S \in sets : TRUE
                      IN {Append(c, x) : c \in Picks(sets \ {S}), x \in S}
DoRemoveOverlapped(P, byPitch) ==
  LET groups == {Group(P.ev, P.ev[i], byPitch) : i \in DOMAIN P.ev} IN
  {[P EXCEPT !.ev = [k \in DOMAIN c |-> CutAtNext(P.ev, P.ev[c[k]], byPitch)],
               !.ids = [k \in DOMAIN c |-> P.ids[c[k]]]] : c \in Picks(groups)}

OverlapEvents(preEv, got, byPitch) ==
  Clause("monophonic", Monophonic(got, byPitch)) \cup
  Clause("everyOnsetKept", \A i \in DOMAIN preEv : \E j \in DOMAIN got : got[j].s = preEv[i].s /\ SameVoice(got[j], preEv[i], byPitch)) \cup
  Clause("onePerOnset", Len(got) = NumGroups(preEv, byPitch)) \cup
  Clause("survivors", \A j \in DOMAIN got : \E i \in DOMAIN preEv : got[j] = CutAtNext(preEv, preEv[i], byPitch))
VRemoveOverlapped(pre, a, post) ==
  OverlapEvents(pre.ev, post.ev, a.pitch = 1) \cup
  Clause("duration", pre.dur = post.dur) \cup
  Clause("otherData", SameData(pre, post))

(* ------------------------------------------------------------------ C05 *)
(* maximal intervals of [0, dur[ in which no event of ev sounds *)
GapStarts(ev, dur) ==
  {x \in {0} \cup {End(ev[i]) : i \in DOMAIN ev} :
     x < dur /\ \A i \in DOMAIN ev : ~(ev[i].s <= x /\ x < End(ev[i]))}
GapEnd(ev, dur, x) == MinOr({ev[i].s : i \in {j \in DOMAIN ev : ev[j].s > x}} \cup {dur}, dur)
Gaps(ev, dur) == {<<x, GapEnd(ev, dur, x)>> : x \in GapStarts(ev, dur)}
(* a gap cut in pieces of at most max (0: not cut) *)
GapPieces(g, max) ==
  IF max = 0 THEN {g}
  ELSE {<<g[1] + k * max, Min2(g[2], g[1] + (k + 1) * max)>> : k \in 0 .. Ceil(g[2] - g[1], max) - 1}
Silences(ev, dur, a) ==
  LET pieces == UNION {GapPieces(g, a.max) : g \in Gaps(ev, dur)}
      mk(x) == [s |-> x[1], d |-> x[2] - x[1], p |-> a.p, v |-> 0, t |-> a.t, tc |-> a.tc]
  IN SetToSeq({mk(x) : x \in pieces})
Filled(ev, dur, a) ==
  IF a.per = 0 THEN ev \o Silences(ev, dur, a)
  ELSE FoldLeft(LAMBDA acc, tag : acc \o Silences(SelectSeq(ev, LAMBDA e : e.t = tag), dur, a), ev, SetToSeq(Tags(ev)))
DoFill(P, a) == LET ev == Filled(P.ev, P.dur, a) IN
  {[P EXCEPT !.ev = ev, !.ids = P.ids \o [k \in 1 .. Len(ev) - Len(P.ev) |-> NewId(P, k)]]}
VFill(pre, a, post, exact) ==
  LET want == Filled(pre.ev, pre.dur, a) IN
  Clause("silences", BagEq(NoSlivers(post.ev, exact), want)) \cup
  Clause("keepsEvents", BagLeq(Pairs(pre), Pairs(post))) \cup
  Clause("duration", pre.dur = post.dur) \cup
  Clause("otherData", SameData(pre, post))
VGetFilled(pre, a, post, rp, exact) ==
  Clause("sourceUnchanged", Unchanged(pre, post)) \cup
  Clause("result", Len(rp) = 1 /\ rp[1].nil = 0) \cup
  (IF Len(rp) # 1 THEN {} ELSE
   Clause("silences", BagEq(NoSlivers(rp[1].ev, exact), Filled(pre.ev, pre.dur, a))) \cup
   Clause("copies", Fresh(pre, rp[1])) \cup
   Clause("duration", pre.dur = rp[1].dur) \cup
   Clause("otherData", SameData(pre, rp[1])))

(* sequences with one element of each set *)
OneOfEach(ways) == FoldLeft(LAMBDA all, w : {Append(f, x) : f \in all, x \in w}, {<<>>}, ways)

(* ------------------------------------------------------------------ C06 *)
LegatoTarget(P, e, byPitch) == NextOnset(P.ev, e, byPitch, P.dur)
Lengthened(P, e, byPitch) == [e EXCEPT !.d = Max2(@, LegatoTarget(P, e, byPitch) - e.s)]
(* of several events at one onset, those that end before the next one may stay
   as they are provided that one lasts until it                               *)
DoLegato(P, byPitch) ==
  LET ways == [i \in DOMAIN P.ev |-> {P.ev[i], Lengthened(P, P.ev[i], byPitch)}]
  IN {[P EXCEPT !.ev = f] : f \in {f \in OneOfEach(ways) :
        \A i \in DOMAIN P.ev : \E j \in Group(P.ev, P.ev[i], byPitch) : End(f[j]) >= LegatoTarget(P, P.ev[i], byPitch)}}
VLegato(pre, a, post) ==
  LET by == a.pitch = 1
      at(id) == CHOOSE i \in DOMAIN post.ids : post.ids[i] = id
      sameIds == RangeOf(pre.ids) = RangeOf(post.ids) /\ Len(pre.ids) = Len(post.ids)
  IN
  Clause("sameEvents", sameIds) \cup
  (IF ~sameIds THEN {} ELSE
   LET got == [i \in DOMAIN pre.ev |-> post.ev[at(pre.ids[i])]] IN
   Clause("onlyDurations", \A i \in DOMAIN got : [got[i] EXCEPT !.d = 0] = [pre.ev[i] EXCEPT !.d = 0]) \cup
   Clause("neverShorter", \A i \in DOMAIN got : got[i].d >= pre.ev[i].d) \cup
   Clause("noNewOverlap", \A i \in DOMAIN got : got[i].d \in {pre.ev[i].d, Lengthened(pre, pre.ev[i], by).d}) \cup
   Clause("closesGaps", \A i \in DOMAIN pre.ev :
             \E j \in Group(pre.ev, pre.ev[i], by) : End(got[j]) >= LegatoTarget(pre, pre.ev[i], by))) \cup
  Clause("duration", pre.dur = post.dur) \cup
  Clause("otherData", SameData(pre, post))

FillPrevEv(P) == [i \in DOMAIN P.ev |->
                    [P.ev[i] EXCEPT !.d = MinOr({s \in Onsets(P.ev) : s > P.ev[i].s}, P.dur) - P.ev[i].s]]
DoFillPrev(P) == {[P EXCEPT !.ev = FillPrevEv(P)]}
VFillPrev(pre, post) ==
  Clause("untilNextOnset", BagEq(post.ev, FillPrevEv(pre))) \cup
  Clause("sameEvents", RangeOf(pre.ids) = RangeOf(post.ids)) \cup
  Clause("duration", pre.dur = post.dur) \cup
  Clause("otherData", SameData(pre, post))

(* ------------------------------------------------------------------ C07 *)
QuantizedDur(d, step) == IF d < step THEN {step} ELSE NearestMultiples(d, step) \ {0}
DoQuantize(P, step, qs, qd) ==
  LET S(e) == IF qs THEN NearestMultiples(e.s, step) ELSE {e.s}
      D(e) == IF qd THEN QuantizedDur(e.d, step) ELSE {e.d}
      ways == [i \in DOMAIN P.ev |-> {[P.ev[i] EXCEPT !.s = x, !.d = y] : x \in S(P.ev[i]), y \in D(P.ev[i])}]
  IN {[P EXCEPT !.ev = f] : f \in OneOfEach(ways)}
VQuantize(pre, a, post) ==
  LET sameIds == BagEq(pre.ids, post.ids)
      at(id) == CHOOSE i \in DOMAIN post.ids : post.ids[i] = id
  IN
  Clause("sameEvents", sameIds) \cup
  (IF ~sameIds THEN {} ELSE
   LET got == [i \in DOMAIN pre.ev |-> post.ev[at(pre.ids[i])]] IN
   Clause("onlyTimes", \A i \in DOMAIN got : [got[i] EXCEPT !.s = 0, !.d = 0] = [pre.ev[i] EXCEPT !.s = 0, !.d = 0]) \cup
   Clause("onsets", \A i \in DOMAIN got :
            IF a.qs = 1 THEN got[i].s \in NearestMultiples(pre.ev[i].s, a.step) ELSE got[i].s = pre.ev[i].s) \cup
   Clause("durations", \A i \in DOMAIN got :
            IF a.qd = 1 THEN got[i].d \in QuantizedDur(pre.ev[i].d, a.step) ELSE got[i].d = pre.ev[i].d)) \cup
  Clause("duration", pre.dur = post.dur) \cup
  Clause("otherData", SameData(pre, post))

(* the events that alignment can put on the grid: e itself, or its repetitions *)
NumSteps(e, step) == Max2(1, e.d \div step)
CutPieces(e, step) == [k \in 1 .. NumSteps(e, step) |-> [e EXCEPT !.s = e.s + (k - 1) * step, !.d = step]]
Landings(ev, a) ==
  UNION {LET e == ev[i]
             on == IF e.t \in RangeOf(a.rep) THEN {e.s + k * a.step : k \in 0 .. NumSteps(e, a.step) - 1} ELSE {e.s}
         IN {[e EXCEPT !.s = g, !.d = a.step] : g \in UNION {NearestMultiples(x, a.step) : x \in on}} :
         i \in DOMAIN ev}
AlignTied(ev, a) == \E i \in DOMAIN ev : 2 * (ev[i].s % a.step) = a.step
DoAlign(P, a) ==
  LET land == {e \in Landings(P.ev, a) : e.s < P.dur}
      seq == SetToSeq(land)
      groups == {Group(seq, seq[i], FALSE) : i \in DOMAIN seq}
  IN {[P EXCEPT !.ev = [k \in DOMAIN c |-> seq[c[k]]], !.ids = [k \in DOMAIN c |-> k]] : c \in Picks(groups)}
(* for patterns without onsets halfway between two steps, where both are nearest *)
VAlign(pre, a, post) ==
  LET land == {e \in Landings(pre.ev, a) : e.s < pre.dur}
      keys == {<<e.t, e.s>> : e \in land}
  IN
  Clause("onGrid", \A i \in DOMAIN post.ev : post.ev[i].s % a.step = 0 /\ post.ev[i].d = a.step) \cup
  Clause("beforeEnd", \A i \in DOMAIN post.ev : post.ev[i].s < pre.dur) \cup
  Clause("nearest", \A i \in DOMAIN post.ev : post.ev[i] \in land) \cup
  Clause("everyStepReached", AlignTied(pre.ev, a) \/ keys = {<<post.ev[i].t, post.ev[i].s>> : i \in DOMAIN post.ev}) \cup
  Clause("onePerTagAndStep", \A i, j \in DOMAIN post.ev : i # j => <<post.ev[i].t, post.ev[i].s>> # <<post.ev[j].t, post.ev[j].s>>) \cup
  Clause("duration", pre.dur = post.dur) \cup
  Clause("otherData", SameData(pre, post))
VCutInSteps(pre, a, rv, post) ==
  Clause("pieces", rv.ev = CutPieces(pre.ev[a.i], a.step)) \cup
  Clause("copies", RangeOf(rv.ids) \cap RangeOf(pre.ids) = {} /\ Distinct(rv.ids)) \cup
  Clause("pure", Unchanged(pre, post))

(* ------------------------------------------------------------------ C08 *)
TagMatches(e, a) ==
  CASE a.kind = "exact" -> e.t = a.q[1]
    [] a.kind = "loose" -> e.t = a.q[1] \/ a.q[1] \in RangeOf(e.tc)
    [] OTHER -> e.t \in RangeOf(a.q)
Selection(P, in(_)) ==
  LET seq == SelectSeq([i \in DOMAIN P.ev |-> i], LAMBDA i : in(P.ev[i])) IN
  [P EXCEPT !.ev = [k \in DOMAIN seq |-> P.ev[seq[k]]], !.ids = [k \in DOMAIN seq |-> P.ids[seq[k]]], !.st = 0]
DoSelect(P, a) == Selection(P, LAMBDA e : IF a.out = 1 THEN ~TagMatches(e, a) ELSE TagMatches(e, a))
DerivedData(pre, r) == r.m = pre.m /\ r.x = pre.x /\ r.nm = pre.nm /\ r.dur = pre.dur
VSelection(pre, want, copy, post, rp) ==
  Clause("result", Len(rp) = 1 /\ rp[1].nil = 0) \cup
  (IF Len(rp) # 1 THEN {} ELSE
   Clause("exactlyInOrder", rp[1].ev = want.ev) \cup
   Clause("derivedData", DerivedData(pre, rp[1])) \cup
   (IF copy = 1 THEN Clause("copies", Fresh(pre, rp[1])) ELSE Clause("sameObjects", rp[1].ids = want.ids))) \cup
  Clause("sourceUnchanged", Unchanged(pre, post) /\ post.ev = pre.ev)
VWithTags(pre, a, post, rp) == VSelection(pre, DoSelect(pre, a), a.copy, post, rp)
VWithPitch(pre, a, post, rp) == VSelection(pre, Selection(pre, LAMBDA e : e.p = a.x), a.copy, post, rp)
VTagsPitches(pre, rv, post) ==
  Clause("allTags", RangeOf(rv.tags) = Tags(pre.ev) /\ Distinct(rv.tags)) \cup
  Clause("allPitches", RangeOf(rv.ps) = Pitches(pre.ev) /\ Distinct(rv.ps)) \cup
  Clause("pure", Unchanged(pre, post))
VCopyNoEv(pre, post, rp) ==
  Clause("noEvents", Len(rp) = 1 /\ rp[1].ev = <<>>) \cup
  Clause("derivedData", Len(rp) = 1 /\ DerivedData(pre, rp[1])) \cup
  Clause("sourceUnchanged", Unchanged(pre, post))
VCopy(pre, post, rp) ==
  Clause("result", Len(rp) = 1 /\ rp[1].nil = 0) \cup
  (IF Len(rp) # 1 THEN {} ELSE
   Clause("equal", Identical(pre, rp[1])) \cup Clause("copies", Fresh(pre, rp[1]))) \cup
  Clause("sourceUnchanged", Unchanged(pre, post))
VCopyEvent(pre, a, rv, post) ==
  Clause("equal", rv.ev = <<pre.ev[a.i]>>) \cup
  Clause("copies", rv.ids[1] \notin RangeOf(pre.ids)) \cup
  Clause("sourceUnchanged", Unchanged(pre, post))

(* ------------------------------------------------------------------ C09 *)
HasOneOf(e, q) == \E x \in q : x = e.t \/ x \in RangeOf(e.tc)
(* the tags of an event: the elements of a tuple, or the tag itself *)
TagElems(e) == IF e.tc = <<>> /\ e.t # "t:()" THEN {e.t} ELSE RangeOf(e.tc)
HasCommon(e, f) == HasOneOf(e, TagElems(f))
Without(P, out(_)) == Selection(P, LAMBDA e : ~out(e))
DoRemoveEvent(P, e) == {[Without(P, LAMBDA f : f = e) EXCEPT !.st = P.st]}
DoRemoveByTags(P, q) == {[Without(P, LAMBDA f : HasOneOf(f, q)) EXCEPT !.st = P.st]}
VRemoval(pre, want, post) ==
  Clause("exactlyTheOthers", post.ev = want.ev) \cup
  Clause("sameObjects", post.ids = want.ids) \cup
  Clause("duration", pre.dur = post.dur) \cup
  Clause("otherData", SameData(pre, post))
VRemoveEvent(pre, a, post) == VRemoval(pre, Without(pre, LAMBDA f : f = a.e), post)
VRemoveByTags(pre, a, post) == VRemoval(pre, Without(pre, LAMBDA f : HasOneOf(f, RangeOf(a.q))), post)
VIdentical(pre, a, rv, post) ==
  Clause("identical", ExactlyIds(rv.ids, IdsWhere(pre, LAMBDA e : IF a.all = 1 THEN e.t = a.e.t ELSE HasCommon(a.e, e)))) \cup
  Clause("pure", Unchanged(pre, post))
Bits(got, ev, is(_)) == Len(got) = Len(ev) /\ \A i \in DOMAIN ev : (got[i] = 1) = is(ev[i])
VCompare(pre, a, rv, post) ==
  Clause("eq", Bits(rv.eq, pre.ev, LAMBDA e : e = a.e)) \cup
  Clause("ne", Bits(rv.ne, pre.ev, LAMBDA e : e # a.e)) \cup
  Clause("hasCommonTagWith", Bits(rv.common, pre.ev, LAMBDA e : HasCommon(e, a.e)) /\ Bits(rv.common2, pre.ev, LAMBDA e : HasCommon(a.e, e))) \cup
  Clause("hasOneOfTags", Bits(rv.oneof, pre.ev, LAMBDA e : HasOneOf(e, RangeOf(a.q)))) \cup
  Clause("isTag", Bits(rv.istag, pre.ev, LAMBDA e : e.t = a.e.t)) \cup
  Clause("allTagsAreEqualWith", Bits(rv.alleq, pre.ev, LAMBDA e : e.t = a.e.t)) \cup
  Clause("truthValues", rv.types = 1) \cup
  Clause("pure", Unchanged(pre, post))
VPatEq(pre, a, rv, post, rp) ==
  LET eq == pre.ev = rp[1].ev /\ pre.dur = rp[1].dur /\ pre.st = rp[1].st /\ a.ts = 1 IN
  Clause("patternEq", (rv.eq = 1) = eq /\ (rv.eq2 = 1) = eq) \cup
  Clause("patternNe", (rv.ne = 1) = ~eq) \cup
  Clause("pure", Unchanged(pre, post))

(* equal patterns stay equal under the same edits *)
VTwins(a, P, Q) == Clause("twins", a.must = 0 \/ (BagEq(P.ev, Q.ev) /\ P.dur = Q.dur /\ SameData(P, Q)))

(* ------------------------------------------------------------------ C11 *)
StretchEv(ev, num, den) == [i \in DOMAIN ev |-> [ev[i] EXCEPT !.s = (@ * num) \div den, !.d = (@ * num) \div den]]
StretchExact(P, num, den) == (P.dur * num) % den = 0 /\ \A i \in DOMAIN P.ev : (P.ev[i].s * num) % den = 0 /\ (P.ev[i].d * num) % den = 0
DoStretch(P, num, den) == {[P EXCEPT !.ev = StretchEv(P.ev, num, den), !.dur = (@ * num) \div den]}
VStretch(pre, a, post) ==
  Clause("times", BagEq(post.ev, StretchEv(pre.ev, a.num, a.den))) \cup
  Clause("duration", post.dur = (pre.dur * a.num) \div a.den) \cup
  Clause("sameObjects", BagEq(pre.ids, post.ids)) \cup
  Clause("otherData", SameData(pre, post))

PitchNames == <<"C", "C#", "D", "Eb", "E", "F", "F#", "G", "Ab", "A", "Bb", "B">>
PitchName(p) == PitchNames[(p % 12) + 1] \o ToString((p \div 12) - 1)
TransposeEv(ev, n) == [i \in DOMAIN ev |-> [ev[i] EXCEPT !.p = @ + n, !.t = "s:" \o PitchName(ev[i].p + n), !.tc = <<>>]]
DoTranspose(P, n) == {[P EXCEPT !.ev = TransposeEv(P.ev, n)]}
(* there are no names below pitch 0 *)
Named(ev) == [i \in DOMAIN ev |-> IF ev[i].p >= 0 THEN ev[i] ELSE [ev[i] EXCEPT !.t = "", !.tc = <<>>]]
VTranspose(pre, a, post) ==
  LET want == TransposeEv(pre.ev, a.n) IN
  Clause("pitchesAndTags", BagEq(Named(post.ev), Named(want))) \cup
  Clause("sameObjects", BagEq(pre.ids, post.ids)) \cup
  Clause("duration", pre.dur = post.dur) \cup
  Clause("otherData", SameData(pre, post))

(* ------------------------------------------------------------------ C12 *)
(* the events of a and b at the same places in time, in the same order at equal
   onsets (loading sorts the events)                                          *)
SortedByStart(ev) == SortSeq([i \in DOMAIN ev |-> <<i, ev[i]>>], LAMBDA x, y : x[2].s < y[2].s \/ (x[2].s = y[2].s /\ x[1] < y[1]))
InTimeOrder(ev) == LET s == SortedByStart(ev) IN [i \in DOMAIN s |-> s[i][2]]

RECURSIVE VLoaded(_, _, _, _)
VLoaded(P, Q, all, how) ==
  Clause("loaded", Q.nil = 0) \cup
  Clause("name", P.nm = Q.nm) \cup
  Clause("duration", Q.dur = (IF all THEN P.dur ELSE Max2(P.dur, MaxEnd(P.ev)))) \cup
  Clause("data", P.m = Q.m /\ (how = "json" \/ (P.x = Q.x /\ P.st = Q.st))) \cup
  Clause("events", IF all THEN P.ev = Q.ev ELSE InTimeOrder(P.ev) = InTimeOrder(Q.ev)) \cup
  Clause("viewpointNames", Len(P.vp) = Len(Q.vp) /\ \A i \in DOMAIN P.vp : i \in DOMAIN Q.vp /\ P.vp[i].key = Q.vp[i].key) \cup
  (IF Len(P.vp) # Len(Q.vp) THEN {} ELSE
   Clause("viewpointParents", \A i \in DOMAIN P.vp : Q.vp[i].par = P.vp[i].par) \cup
   UNION {VLoaded(P.vp[i].pat, Q.vp[i].pat, all, how) : i \in DOMAIN P.vp})
SameViewpoints(v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN v : v[i].key = w[i].key /\ v[i].par = w[i].par /\ UnchangedGrow(v[i].pat, w[i].pat)
VJson(pre, a, post, rp, rv) ==
  Clause("exactTimes", rv.exact = a.exact) \cup
  Clause("result", Len(rp) = 1) \cup
  (IF Len(rp) # 1 THEN {} ELSE VLoaded(pre, rp[1], FALSE, "json") \cup Clause("copies", Fresh(pre, rp[1]))) \cup
  Clause("fileName", a.file = 1) \cup
  Clause("sourceUnchanged", UnchangedGrow(pre, post) /\ SameViewpoints(pre.vp, post.vp))
VPickle(pre, a, post, rp, rv) ==
  Clause("exactTimes", rv.exact = a.exact) \cup
  Clause("result", Len(rp) = 1) \cup
  (IF Len(rp) # 1 THEN {} ELSE VLoaded(pre, rp[1], TRUE, "pickle") \cup Clause("copies", Fresh(pre, rp[1]))) \cup
  Clause("fileName", a.file = 1) \cup
  Clause("sourceUnchanged", Unchanged(pre, post) /\ SameViewpoints(pre.vp, post.vp))
VLegacyJson(a, rv, rp) ==
  Clause("result", Len(rp) = 1 /\ rp[1].nil = 0) \cup
  (IF Len(rp) # 1 THEN {} ELSE
   Clause("events", InTimeOrder(rp[1].ev) = InTimeOrder(a.ev)) \cup
   Clause("duration", rp[1].dur = Max2(a.dur, MaxEnd(a.ev))) \cup
   Clause("data", rv.m = a.m /\ rp[1].nm = a.nm))

(* ------------------------------------------- what users do by themselves *)
VReorder(pre, post) ==
  Clause("sorted", \A i \in 1 .. Len(post.ev) - 1 : post.ev[i].s <= post.ev[i + 1].s) \cup
  Clause("pure", Unchanged(pre, post))
Edited(e, a) ==
  CASE a.f = "s" -> [e EXCEPT !.s = a.x]
    [] a.f = "d" -> [e EXCEPT !.d = a.x]
    [] a.f = "p" -> [e EXCEPT !.p = a.x]
    [] a.f = "v" -> [e EXCEPT !.v = a.x]
    [] OTHER -> [e EXCEPT !.t = a.t, !.tc = a.tc]
VEdit(pre, a, post) ==
  Clause("edit", /\ pre.ids = post.ids /\ pre.dur = post.dur /\ SameData(pre, post)
                 /\ \A i \in DOMAIN pre.ev : post.ev[i] = IF pre.ids[i] = a.id THEN Edited(pre.ev[i], a) ELSE pre.ev[i])
VDelEvent(pre, a, post) ==
  Clause("edit", post.ev = (IF a.i = 0 THEN pre.ev ELSE RemoveAt(pre.ev, a.i)) /\ pre.dur = post.dur /\ SameData(pre, post))
VSetDur(pre, a, post) == Clause("edit", Pairs(pre) = Pairs(post) /\ post.dur = a.x /\ SameData(pre, post))
VListing(pre, rv, post) ==
  Clause("patternToList", rv.rows = [i \in DOMAIN pre.ev |-> <<pre.ev[i].p, pre.ev[i].s, pre.ev[i].d>>]) \cup
  Clause("items", rv.len = Len(pre.ev) /\ rv.items = pre.ids) \cup
  Clause("text", rv.rep = 1) \cup
  Clause("pure", Unchanged(pre, post))

(* ------------------------------------------------------- printed forms *)
(* what the grid may show of the events of a tag at the step i, counted from zero *)
SilentTag(e) == e.t = "s:silence" \/ "s:silence" \in RangeOf(e.tc)
OneAtATime(ev) == \A i, j \in DOMAIN ev : i < j => End(ev[i]) <= ev[j].s \/ End(ev[j]) <= ev[i].s
GridSigns(ev, i, b) ==
  LET t == i * b
      now == SelectSeq(ev, LAMBDA e : Active(e, t) /\ ~SilentTag(e)) IN
  IF now = <<>> THEN {"-"}
  ELSE IF i = 0 THEN {"|"}
  ELSE IF ~OneAtATime(ev) THEN {"|", ">"}
  ELSE IF now[1].s > t - b THEN {"|"} ELSE {">"}
GridRowFits(row, ev, dur, b) ==
  /\ Len(row) = dur \div b
  /\ \A i \in DOMAIN row : row[i] \in GridSigns(ev, i - 1, b)
Printed(x, n, u) == AbsI(2 * (x * u - n * 10000)) <= u + 1     \* four decimals
VPrinted(u, pre, a, rv, post) ==
  Clause("gridTags", Len(rv.rows) = Cardinality(Tags(pre.ev)) /\ {rv.rows[i].t : i \in DOMAIN rv.rows} = Tags(pre.ev)) \cup
  Clause("gridSigns", \A i \in DOMAIN rv.rows : GridRowFits(rv.rows[i].c, SelectSeq(pre.ev, LAMBDA e : e.t = rv.rows[i].t), pre.dur, a.block)) \cup
  Clause("list", rv.list = [i \in DOMAIN pre.ev |-> <<pre.ev[i].p, pre.ev[i].s, pre.ev[i].d>>]) \cup
  Clause("items", rv.len = Len(pre.ev) /\ rv.items = pre.ids) \cup
  Clause("text", /\ Len(rv.lines) = Len(pre.ev) /\ rv.end = 1
                 /\ \A i \in DOMAIN pre.ev : LET l == rv.lines[i] e == pre.ev[i] IN
                      l.t = e.t /\ l.p = e.p /\ l.v = e.v /\ Printed(l.s, e.s, u) /\ Printed(l.d, e.d, u)) \cup
  Clause("heading", /\ rv.head = a.head /\ AbsI(2 * (rv.dur * u - pre.dur * 100)) <= u + 1 /\ AbsI(rv.bpm * 10000 - a.bpm) <= 5001) \cup
  Clause("pure", pre = post)
=============================================================================
