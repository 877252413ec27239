----------------------------- MODULE PatternSM -----------------------------
(* The state machine of one pattern. Each action is an operation of the library,
   as PatternOps defines it.

   TLC checks on it that
   - the verdicts used on traces accept every step of the specification (so that
     they are satisfiable), and
   - the guarantees that follow: well-formed events, a duration that covers them,
     monophony and idempotence of overlap removal, silence filling that leaves no
     gap, inverses of stretching and transposing, slices that add up.

   With Emit = TRUE each transition is printed: it becomes a test of the
   implementation.                                                            *)
EXTENDS PatternOps, Json

CONSTANTS Ops,          \* names of the operations explored
          OnsetSet, DurSet, Voices, Vels,   \* of events; a voice is <<pitch, tag>>
          MaxEv, PatDurs, Steps, Times, Depth, Emit, Generate,
          Covering      \* initial durations cover the events

VARIABLES pat, n, act
vars == <<pat, n, act>>

Ev(s, d, v, w) == [s |-> s, d |-> d, p |-> v[1], v |-> w, t |-> v[2], tc |-> IF Len(v) > 2 THEN v[3] ELSE <<>>]
Evs == {Ev(s, d, v, w) : s \in OnsetSet, d \in DurSet, v \in Voices, w \in Vels}
EvSeqs == UNION {[1 .. k -> Evs] : k \in 0 .. MaxEv}
Mk(ev, dur) == [nil |-> 0, ev |-> ev, ids |-> [i \in DOMAIN ev |-> i], dur |-> dur, st |-> 0, m |-> "", x |-> "", nm |-> "", vp |-> <<>>]

Init == /\ n = 0 /\ act = [op |-> "init"]
        /\ \E ev \in (IF Generate THEN EvSeqs ELSE {<<>>}), dur \in PatDurs : (Covering => dur >= MaxEnd(ev)) /\ pat = Mk(ev, dur)

Do(op, a, posts, verdict(_)) ==
  /\ op \in Ops
  /\ act.op = "pick" => act.a = op     \* see HistorySM
  /\ act' = [op |-> op, a |-> a]
  /\ \E q \in posts : /\ Assert(verdict(q) = {}, <<op, a, pat, q, verdict(q)>>)
                      /\ pat' = q

Bool == {0, 1}
SilenceTag == [t |-> "s:silence", tc |-> <<>>]
Q(kind, q) == [kind |-> kind, q |-> q]
Tagsets == {<<v[2]>> : v \in Voices}
Elems == {<<v[2]>> : v \in Voices} \cup UNION {{<<x>> : x \in RangeOf(v[3])} : v \in {w \in Voices : Len(w) > 2}}

(* the slices, put back end to end, hold for each note (pitch, velocity, tag) each
   instant as many times as the pattern does                                      *)
SplitAddsUp(P, len, slices) ==
  LET Sounding(ev, nt, t) == Cardinality({i \in DOMAIN ev : <<ev[i].p, ev[i].v, ev[i].t>> = nt /\ Active(ev[i], t)})
      notes == {<<P.ev[i].p, P.ev[i].v, P.ev[i].t>> : i \in DOMAIN P.ev}
  IN Clause("addsUp", \A nt \in notes, t \in 0 .. P.dur - 1 :
       Sounding(P.ev, nt, t) = Sounding(slices[(t \div len) + 1].ev, nt, t % len))

Next ==
  /\ n < Depth /\ n' = n + 1
  /\ \/ \E e \in Evs : Do("addEvent", [e |-> e], DoAdd(pat, e), LAMBDA q : VAdd(pat, [e |-> e], q))
     \/ \E x \in Bool : Do("durToLast", [only |-> x], DoDurToLast(pat, x = 1), LAMBDA q : VDurToLast(pat, [only |-> x], q))
     \/ \E b \in Steps : Do("durToBar", [bar |-> b], DoDurToBar(pat, b), LAMBDA q : VDurToBar(pat, [bar |-> b], q))
     \/ Do("lastNoteOff", [z |-> 0], {pat}, LAMBDA q : VLastNoteOff(pat,
             IF pat.ev = <<>> THEN [none |-> 1, x |-> 0] ELSE [none |-> 0, x |-> MaxEnd(pat.ev)], q))
     \/ \E len \in Steps, cp \in Bool, sup \in Bool :
          LET a == [len |-> len, copy |-> cp, sup |-> sup]
              all == DoSplit(pat, len)
              fresh == [i \in DOMAIN all |-> [all[i] EXCEPT !.ids = [j \in DOMAIN all[i].ev |-> NewId(pat, j)]]]
              rp == IF sup = 1 THEN SelectSeq(fresh, LAMBDA s : s.ev # <<>>) ELSE fresh
          IN Do("split", a, {pat}, LAMBDA q : VSplit(pat, a, q, rp, TRUE) \cup SplitAddsUp(pat, len, fresh))
     \/ \E s \in Times, len \in Steps, trim \in Bool :
          LET a == [s |-> s, len |-> len, trim |-> trim]
              r == DoWindow(pat, s, len, trim = 1)
          IN Do("window", a, {pat}, LAMBDA q : VWindow(pat, a, q, <<[r EXCEPT !.ids = [j \in DOMAIN r.ev |-> NewId(pat, j)]]>>))
     \/ \E t \in Times : Do("activeAt", [t |-> t], {pat}, LAMBDA q : {})
     \/ \E t \in Times, tol \in {0} \cup Steps : Do("startingAt", [t |-> t, tol |-> tol], {pat}, LAMBDA q : {})
     \/ \E t \in Times : Do("contains", [t |-> t], {pat}, LAMBDA q : {})
     \/ \E b \in Bool : Do("removeOverlapped", [pitch |-> b], DoRemoveOverlapped(pat, b = 1),
             LAMBDA q : VRemoveOverlapped(pat, [pitch |-> b], q) \cup
                        Clause("idempotent", \A r \in DoRemoveOverlapped(q, b = 1) : BagEq(r.ev, q.ev)))
     \/ \E mx \in {0} \cup Steps, per \in Bool :
          LET a == [max |-> mx, per |-> per, p |-> 0, t |-> SilenceTag.t, tc |-> SilenceTag.tc]
          IN Do("fillSil", a, DoFill(pat, a),
                LAMBDA q : VFill(pat, a, q, TRUE) \cup Clause("noGapLeft", per = 1 \/ Gaps(q.ev, q.dur) = {}))
     \/ \E b \in Bool : Do("legato", [pitch |-> b], DoLegato(pat, b = 1), LAMBDA q : VLegato(pat, [pitch |-> b], q))
     \/ Do("fillPrev", [z |-> 0], DoFillPrev(pat), LAMBDA q : VFillPrev(pat, q))
     \/ \E st \in Steps, qs \in Bool, qd \in Bool :
          Do("quantize", [step |-> st, qs |-> qs, qd |-> qd], DoQuantize(pat, st, qs = 1, qd = 1),
             LAMBDA q : VQuantize(pat, [step |-> st, qs |-> qs, qd |-> qd], q))
     \/ \E st \in Steps, rep \in {<<>>} \cup Tagsets :
          Do("align", [step |-> st, rep |-> rep], DoAlign(pat, [step |-> st, rep |-> rep]),
             LAMBDA q : VAlign(pat, [step |-> st, rep |-> rep], q))
     \/ \E k \in {"exact", "loose", "list", "fn"}, tg \in Elems, out \in Bool, cp \in Bool :
          LET a == [kind |-> k, q |-> tg, out |-> out, copy |-> cp]
              r == DoSelect(pat, a)
          IN Do("withTags", a, {pat}, LAMBDA q : VWithTags(pat, a, q,
                 <<IF cp = 1 THEN [r EXCEPT !.ids = [i \in DOMAIN r.ids |-> NewId(pat, i)]] ELSE r>>))
     \/ \E v \in Voices, cp \in Bool : Do("withPitch", [x |-> v[1], copy |-> cp], {pat}, LAMBDA q : {})
     \/ Do("tagsPitches", [z |-> 0], {pat}, LAMBDA q : {})
     \/ \E e \in Evs : Do("removeEvent", [e |-> e], DoRemoveEvent(pat, e), LAMBDA q : VRemoveEvent(pat, [e |-> e], q))
     \/ \E tg \in Elems : Do("removeByTags", [q |-> tg], DoRemoveByTags(pat, RangeOf(tg)),
             LAMBDA q : VRemoveByTags(pat, [q |-> tg], q) \cup Clause("noneLeft", \A i \in DOMAIN q.ev : ~HasOneOf(q.ev[i], RangeOf(tg))))
     \/ \E v \in Voices, all \in Bool : Do("identical", [e |-> Ev(0, 1, v, 1), all |-> all], {pat}, LAMBDA q : {})
     \/ \E e \in Evs, tg \in Elems : Do("compare", [e |-> e, q |-> tg], {pat}, LAMBDA q : {})
     \/ \E r \in {<<1, 2>>, <<2, 1>>, <<3, 1>>} :
          /\ StretchExact(pat, r[1], r[2])
          /\ Do("stretch", [num |-> r[1], den |-> r[2]], DoStretch(pat, r[1], r[2]),
                LAMBDA q : VStretch(pat, [num |-> r[1], den |-> r[2]], q) \cup
                           Clause("invertible", DoStretch(q, r[2], r[1]) = {pat}))
     \/ \E x \in {-12, -1, 1, 7} : Do("transpose", [n |-> x], DoTranspose(pat, x),
             LAMBDA q : VTranspose(pat, [n |-> x], q) \cup
                        Clause("invertible", \A r \in DoTranspose(q, -x) : [i \in DOMAIN r.ev |-> r.ev[i].p] = [i \in DOMAIN pat.ev |-> pat.ev[i].p]))

Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------- what follows *)
WellFormed == /\ \A i \in DOMAIN pat.ev : pat.ev[i].s >= 0 /\ pat.ev[i].d > 0
              /\ Len(pat.ids) = Len(pat.ev) /\ Distinct(pat.ids)
Longer == {"addEvent", "fillSil", "stretch", "durToBar", "quantize", "align"}
(* edits that keep a duration that covers the events *)
NothingLengthens == [][act'.op \notin {"addEvent", "stretch", "durToBar", "durToLast"} => pat'.dur = pat.dur]_vars

EmitTest == ~Emit \/ PrintT("TEST" \o ToJson([ev |-> pat.ev, dur |-> pat.dur, act |-> act']))
=============================================================================
