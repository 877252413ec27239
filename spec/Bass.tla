-------------------------------- MODULE Bass --------------------------------
(* Bass lines as sequences of beats, each a number from 0 to 15 whose bits tell at
   which quarters of the beat notes start; the model learnt from them; the models
   constrained by a kick pattern or by beats to keep.                           *)
EXTENDS Base

States == 0 .. 15
Wide == 0 .. 24        \* models may have more states: the intervals from the first note of a line, 12 for none
(* ------------------------------------------------------------------ learning *)
Times(seqs, P(_)) == SumSeq([i \in DOMAIN seqs |-> P(seqs[i])])
InitialCount(lines, x) == Times(lines, LAMBDA q : IF q # <<>> /\ q[1] = x THEN 1 ELSE 0)
(* pairs of successive beats, the last one being followed by the first *)
PairsOf(q) == IF Len(q) < 2 THEN <<>> ELSE [i \in DOMAIN q |-> <<q[i], q[(i % Len(q)) + 1]>>]
TemporalCount(lines, x, y) == Times(lines, LAMBDA q : Count(PairsOf(q), <<x, y>>))
TogetherOf(p) == [i \in 1 .. Min2(Len(p.kick), Len(p.bass)) |-> <<p.kick[i], p.bass[i]>>]
TogetherCount(pairs, x, y) == Times(pairs, LAMBDA p : Count(TogetherOf(p), <<x, y>>))
Row(count(_)) == {[x |-> y, n |-> count(y)] : y \in {z \in Wide : count(z) > 0}}
Total(row) == FoldSet(LAMBDA e, t : e.n + t, 0, row)

(* what was read from the code: entries [x, n, d] (n/d), or [r, x, n, d] for matrices *)
SameRow(got, row) ==
  /\ {got[i].x : i \in DOMAIN got} = {e.x : e \in row} /\ Len(got) = Cardinality(row)
  /\ \A i \in DOMAIN got : \E e \in row : e.x = got[i].x /\ got[i].n * Total(row) = e.n * got[i].d
RowOf(got, r) == SelectSeq(got, LAMBDA e : e.r = r)
InitialRow(lines) == Row(LAMBDA x : InitialCount(lines, x))
TemporalRow(lines, r) == Row(LAMBDA x : TemporalCount(lines, r, x))
TogetherRow(pairs, r) == Row(LAMBDA x : TogetherCount(pairs, r, x))

(* -------------------------------------------------------------- constraints *)
After(lines, x) == {e.x : e \in TemporalRow(lines, x)}
With(pairs, k) == {e.x : e \in TogetherRow(pairs, k)}
(* a kick beat that was never seen is taken as a kick on the beat *)
Allowed(pairs, k) == IF With(pairs, k) # {} THEN With(pairs, k) ELSE With(pairs, 8)
(* the states of each beat from which the others can be completed: the beats may
   take the states of allowed (a sequence of sets)                                *)
Completable(allowed, after) ==      \* after[x] follows x
  FoldLeft(LAMBDA later, S : <<(IF later = <<>> THEN S ELSE {x \in S : after[x] \cap later[1] # {}})>> \o later, <<>>, Reverse(allowed))
(* those that can be reached from the first ones *)
Reached(comp, after) ==
  FoldLeft(LAMBDA before, S : Append(before, IF before = <<>> THEN S ELSE S \cap UNION {after[x] : x \in before[Len(before)]}), <<>>, comp)
(* rows and continuations, once and for all *)
RowsAfter(lines) == TLCEval([x \in States |-> TemporalRow(lines, x)])
Follow(rows) == TLCEval([x \in States |-> {e.x : e \in rows[x]}])

(* ------------------------------------------------------ steps that were recorded *)
VBassModel(L) ==
  LET li == L.a.lines
      pa == L.a.pairs
      r == L.rv IN
  (IF li = <<>> THEN {} ELSE Clause("initial", SameRow(r.initial, InitialRow(li)))) \cup
  Clause("temporal", \A x \in Wide : SameRow(RowOf(r.temporal, x), TemporalRow(li, x))) \cup
  Clause("interlocking", \A x \in Wide : SameRow(RowOf(r.together, x), TogetherRow(pa, x))) \cup
  Clause("sparse", /\ r.sInitial = [i \in DOMAIN r.initial |-> r.initial[i].x]
                   /\ r.sTemporal = [i \in DOMAIN r.temporal |-> <<r.temporal[i].r, r.temporal[i].x>>]
                   /\ r.sTogether = [i \in DOMAIN r.together |-> <<r.together[i].r, r.together[i].x>>]) \cup
  Clause("shape", r.shape = 1) \cup
  Clause("rhythmModel", r.rhythm = 0 \/ (r.files = 1 /\ r.mInitial = r.initial /\ r.mTemporal = r.temporal)) \cup
  Clause("pitchModel", r.pitch = 0 \/ r.mPitch = r.temporal)

NearestQuarters(t, u) ==       \* of the beat where t is, in units: u of them in a beat
  LET o == t % u
      dist(q) == AbsI(4 * o - q * u)
      best == Min({dist(q) : q \in 0 .. 3}) IN {q \in 0 .. 3 : dist(q) = best}
Bit(x, q) == (x \div (2 ^ (3 - q))) % 2
VBeats(L) ==
  LET u == L.u
      n == Ceil(L.a.dur, u)
      ons == L.a.on
      in(b) == {i \in DOMAIN ons : ons[i] < L.a.dur /\ ons[i] \div u = b} IN
  Clause("beats", Len(L.rv.ids) = n /\ Len(L.rv.bits) = n) \cup
  (IF Len(L.rv.ids) # n \/ Len(L.rv.bits) # n THEN {} ELSE
   Clause("quarters", \A b \in 0 .. n - 1 :
     LET near == {NearestQuarters(ons[i], u) : i \in in(b)}
         got == {q \in 0 .. 3 : Bit(L.rv.ids[b + 1], q) = 1} IN
     /\ \A S \in near : S \cap got # {}
     /\ \A q \in got : \E S \in near : q \in S) \cup
   Clause("ids", \A b \in 1 .. n : L.rv.ids[b] \in States /\ L.rv.bits[b] = [q \in 1 .. 4 |-> Bit(L.rv.ids[b], q - 1)]))
VDictionary(L) ==
  Clause("dictionary", Len(L.rv.on) = 16 /\ L.rv.file = 1 /\
         \A x \in States : RangeOf(L.rv.on[x + 1]) = {q \in 0 .. 3 : Bit(x, q) = 1} /\ Distinct(L.rv.on[x + 1]))

Targets(L) == [i \in DOMAIN L.a.target |-> Allowed(L.a.pairs, L.a.target[i])]
OnlyTo(row, S) == {e \in row : e.x \in S}
VConstrained(L) ==
  LET li == L.a.lines
      rows == RowsAfter(li)
      comp == Completable(Targets(L), Follow(rows))
      first == OnlyTo(InitialRow(li), comp[1])
      n == Len(L.a.target)
      r == L.rv
      beat(i) == r.model[i]
      has(i) == {beat(i)[j].r : j \in DOMAIN beat(i)}
      starts == {e.x : e \in first} IN
  \* nothing satisfies the constraints: an exception, or a model that admits nothing
  IF starts = {} THEN Clause("impossible", r.raised # "" \/ r.initial = <<>>) ELSE
  IF r.raised # "" THEN {"raised " \o r.raised} ELSE
  Clause("beats", Len(r.model) = n - 1) \cup
  Clause("initial", SameRow(r.initial, first)) \cup
  (IF Len(r.model) # n - 1 THEN {} ELSE
   Clause("states", \A i \in 1 .. n - 1 : has(i) = (IF i = 1 THEN starts ELSE comp[i])) \cup
   Clause("continuations", \A i \in 1 .. n - 1 : \A x \in has(i) : SameRow(RowOf(beat(i), x), OnlyTo(rows[x], comp[i + 1])))) \cup
  Clause("files", r.files = 1) \cup
  Clause("modelUnchanged", r.same = 1)

(* beats to keep: L.a.mask, the states of the line, -1 where they vary *)
Kept(L) == [i \in DOMAIN L.a.mask |-> IF L.a.mask[i] >= 0 THEN {L.a.mask[i]} ELSE States]
VVariation(L) ==
  LET n == Len(L.a.mask)
      rows == RowsAfter(L.a.lines)
      after == Follow(rows)
      comp == Completable(Kept(L), after)
      reach == Reached(comp, after)
      r == L.rv
      beat(i) == r.model[i]
      has(i) == {beat(i)[j].r : j \in DOMAIN beat(i)} IN
  IF comp[1] = {} THEN Clause("impossible", r.raised # "" \/ r.model = <<>> \/ \A i \in DOMAIN r.model : has(i) \subseteq comp[i]) ELSE
  IF r.raised # "" THEN {"raised " \o r.raised} ELSE
  Clause("beats", Len(r.model) = n - 1) \cup
  Clause("initial", r.first = L.a.mask[1]) \cup
  (IF Len(r.model) # n - 1 THEN {} ELSE
   Clause("states", \A i \in 1 .. n - 1 : reach[i] \subseteq has(i) /\ has(i) \subseteq comp[i]) \cup
   Clause("continuations", \A i \in 1 .. n - 1 : \A x \in has(i) : SameRow(RowOf(beat(i), x), OnlyTo(rows[x], comp[i + 1])))) \cup
  Clause("files", r.files = 1) \cup
  Clause("modelUnchanged", r.same = 1)

(* generated lines. L.rv.hist: the lines, with how many times each came *)
Fair(f, total, c, t) == LET off == c * total - t * f IN off * off <= 36 * t * f * (total - f) + 36 * total * total
VBassGenerate(L) ==
  LET li == L.a.lines
      rows == RowsAfter(li)
      h == L.rv.hist
      kind == L.a.kind
      allowed == CASE kind = "kick" -> Targets(L) [] kind = "keep" -> Kept(L) [] OTHER -> [i \in 1 .. L.a.len |-> States]
      comp == Completable(allowed, Follow(rows))
      full == Len(allowed)
      n == IF kind = "kick" THEN Min2(L.a.len, full) ELSE full
      starts == IF kind = "keep" THEN {[x |-> L.a.mask[1], n |-> 1]} ELSE OnlyTo(InitialRow(li), comp[1])
      next(i, x) == OnlyTo(rows[x], comp[i + 1])
      shaped == \A i \in DOMAIN h : Len(h[i].h) = n
      lawful == \A i \in DOMAIN h : /\ h[i].h[1] \in {e.x : e \in starts}
                                    /\ \A k \in 1 .. n - 1 : h[i].h[k + 1] \in {e.x : e \in next(k, h[i].h[k])}
      Runs(P(_)) == SumSeq([i \in DOMAIN h |-> IF P(h[i].h) THEN h[i].c ELSE 0])
      all == Runs(LAMBDA q : TRUE)
      came(k) == {h[i].h[k] : i \in DOMAIN h}
      \* a choice among the entries of row, made t times, c(x) of them x
      right(row, t, c(_)) == LET sum == Total(row) IN \A e \in row : Fair(e.n, sum, c(e.x), t)
      complete(row, t, c(_)) == LET sum == Total(row) IN \A e \in row : t * e.n < 25 * sum \/ c(e.x) > 0
      both(row, t, c(_)) == Clause("frequencies", right(row, t, c)) \cup Clause("everyCompletion", complete(row, t, c)) IN
  IF starts = {} \/ comp[1] = {} THEN Clause("impossible", L.rv.raised # "" \/ h = <<>>) ELSE
  IF L.rv.raised # "" THEN {"raised " \o L.rv.raised} ELSE
  Clause("shape", L.rv.ok = 1) \cup
  Clause("length", shaped) \cup
  (IF ~shaped THEN {} ELSE
   Clause("learntAndConstrained", lawful) \cup
   (IF ~lawful THEN {} ELSE
    both(starts, all, LAMBDA x : Runs(LAMBDA q : q[1] = x)) \cup
    UNION {UNION {both(next(k, x), Runs(LAMBDA q : q[k] = x), LAMBDA y : Runs(LAMBDA q : q[k] = x /\ q[k + 1] = y)) : x \in came(k)} :
           k \in 1 .. n - 1})) \cup
  Clause("modelUnchanged", L.rv.same = 1)

VDraw(L) ==
  LET w == L.a.w
      sum == SumSeq(w) IN
  Clause("frequencies", \A i \in DOMAIN w : Fair(w[i], sum, L.rv.counts[i], L.a.runs)) \cup
  Clause("everyIndex", \A i \in DOMAIN w : L.a.runs * w[i] < 25 * sum \/ L.rv.counts[i] > 0) \cup
  Clause("onlyIfPossible", \A i \in DOMAIN w : w[i] > 0 \/ L.rv.counts[i] = 0)

BassOpNames == {"bassDraw", "bassModel", "bassBeats", "bassDictionary", "bassConstrain", "bassVary", "bassGenerate", "bassCorpus"}
VBass(L) ==
  CASE L.op = "bassModel" -> VBassModel(L)
    [] L.op = "bassCorpus" -> VBassModel(L) \cup Clause("kicks", L.rv.kicks = [i \in DOMAIN L.a.pairs |-> L.a.pairs[i].kick])
    [] L.op = "bassDraw" -> VDraw(L)
    [] L.op = "bassBeats" -> VBeats(L)
    [] L.op = "bassDictionary" -> VDictionary(L)
    [] L.op = "bassConstrain" -> VConstrained(L)
    [] L.op = "bassVary" -> VVariation(L)
    [] L.op = "bassGenerate" -> VBassGenerate(L)
=============================================================================
