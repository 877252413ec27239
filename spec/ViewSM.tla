------------------------------- MODULE ViewSM -------------------------------
(* The slices of a pattern that a viewpoint describes, as the pattern grows event
   by event. TLC checks that slices are in time order and never empty, that those
   of equal length hold the whole of the pattern and nothing else, that there is
   one for each onset when slicing by event, each with all that starts there, and
   that the one for the whole pattern is the pattern. Each pattern with a way of
   slicing is printed as a test.                                                *)
EXTENDS Descriptors, Json
CONSTANTS OnsetSet, DurSet, MaxEv, Lengths, Widths, Emit
VARIABLES ev, len, how
vars == <<ev, len, how>>
Hows == {[how |-> "step", len |-> w] : w \in Widths} \cup {[how |-> "perEvent", len |-> 0], [how |-> "all", len |-> 0]}
NotYet == [how |-> "", len |-> 0]
Evs == {[s |-> s, d |-> d, p |-> p, v |-> 80, t |-> "s:" \o ToString(p), tc |-> <<>>] : s \in OnsetSet, d \in DurSet, p \in {60, 64}}
Init == ev = <<>> /\ len \in Lengths /\ how = NotYet
Add == how = NotYet /\ Len(ev) < MaxEv /\ (\E e \in Evs : ev' = Append(ev, e)) /\ UNCHANGED <<len, how>>
Slice == how = NotYet /\ how' \in Hows /\ UNCHANGED <<ev, len>>
Next == Add \/ Slice
Spec == Init /\ [][Next]_vars
P == [nil |-> 0, ev |-> ev, ids |-> [i \in DOMAIN ev |-> i], dur |-> Max2(len, MaxEnd(ev)), st |-> 0, m |-> "", x |-> "", nm |-> "", vp |-> <<>>]
Slices == SlicesBy(P, how)
Sliced == how # NotYet
NeverEmpty == Sliced => \A i \in DOMAIN Slices : Slices[i].ev # <<>> /\ Slices[i].d > 0
InOrder == Sliced => \A i \in 2 .. Len(Slices) : Slices[i - 1].s < Slices[i].s
Sounding(e, p, t) == Cardinality({i \in DOMAIN e : e[i].p = p /\ Active(e[i], t)})
Whole == Sliced /\ how.how = "step" => \A p \in {60, 64}, t \in 0 .. P.dur - 1 :
  Sounding(ev, p, t) = SumSeq([i \in DOMAIN Slices |-> IF t >= Slices[i].s /\ t < Slices[i].s + Slices[i].d THEN Sounding(Slices[i].ev, p, t - Slices[i].s) ELSE 0])
PerOnset == Sliced /\ how.how = "perEvent" =>
  /\ {Slices[i].s : i \in DOMAIN Slices} = Onsets(ev) /\ Len(Slices) = Cardinality(Onsets(ev))
  /\ \A i \in DOMAIN ev : \E j \in DOMAIN Slices : ev[i].s = Slices[j].s /\ ev[i] \in RangeOf(Slices[j].ev)
All == Sliced /\ how.how = "all" /\ ev # <<>> => Len(Slices) = 1 /\ Slices[1].ev = ev /\ Slices[1].d = P.dur
EmitTest == ~Emit \/ how' = NotYet \/ PrintT("TEST" \o ToJson([ev |-> ev, len |-> P.dur, how |-> how']))
=============================================================================
