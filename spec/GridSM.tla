------------------------------- MODULE GridSM -------------------------------
(* The grid in which a pattern is printed, as the pattern grows event by event and
   for each size of the steps. TLC checks that a row has a sign for each whole
   step, that no step has two meanings for a voice of one note at a time, that
   such a voice can be read back from its row if it is on the grid, that no more
   notes start in a row than the voice has, and that silences are never shown.
   Each pattern with a size of steps is printed as a test.                      *)
EXTENDS PatternOps, Json
CONSTANTS OnsetSet, DurSet, MaxEv, Lengths, Blocks, TagSet, Emit
VARIABLES ev, len, block
vars == <<ev, len, block>>
Evs == {[s |-> s, d |-> d, p |-> 60, v |-> 80, t |-> t, tc |-> <<>>] : s \in OnsetSet, d \in DurSet, t \in TagSet}
Init == ev = <<>> /\ len \in Lengths /\ block = 0
Add == block = 0 /\ Len(ev) < MaxEv /\ (\E e \in Evs : ev' = Append(ev, e)) /\ UNCHANGED <<len, block>>
Show == block = 0 /\ block' \in Blocks /\ UNCHANGED <<ev, len>>
Next == Add \/ Show
Spec == Init /\ [][Next]_vars
Dur == Max2(len, MaxEnd(ev))
VoiceOf(t) == SelectSeq(ev, LAMBDA e : e.t = t)
Signs(t) == [i \in 1 .. Dur \div block |-> GridSigns(VoiceOf(t), i - 1, block)]
Shown == block > 0
Alone == {t \in Tags(ev) : OneAtATime(VoiceOf(t))}
NeverBlank == Shown => \A t \in Tags(ev) : \A i \in DOMAIN Signs(t) : Signs(t)[i] # {}
OneMeaning == Shown => \A t \in Alone : \A i \in DOMAIN Signs(t) : Cardinality(Signs(t)[i]) = 1
Starts(t) == {i \in DOMAIN Signs(t) : Signs(t)[i] = {"|"}}
NoMoreThanThere == Shown => \A t \in Alone : Cardinality(Starts(t)) <= Len(VoiceOf(t))
(* a note goes on from the sign of its start to that of what follows it *)
OnGrid(t) == \A i \in DOMAIN VoiceOf(t) : VoiceOf(t)[i].s % block = 0 /\ VoiceOf(t)[i].d % block = 0
Stops(t, i) == Min({j \in i + 1 .. Len(Signs(t)) : Signs(t)[j] # {">"}} \cup {Len(Signs(t)) + 1})
Read(t) == {<<(i - 1) * block, (Stops(t, i) - 1) * block>> : i \in Starts(t)}
ReadBack == Shown => \A t \in Alone \ {"s:silence"} : OnGrid(t) =>
  Read(t) = {<<VoiceOf(t)[i].s, End(VoiceOf(t)[i])>> : i \in DOMAIN VoiceOf(t)}
SilencesHidden == Shown => \A i \in DOMAIN Signs("s:silence") : Signs("s:silence")[i] = {"-"}
VoicesApart == [][block = 0 /\ block' = 0 /\ ev' # ev => \A t \in Tags(ev) \ {ev'[Len(ev')].t} : SelectSeq(ev', LAMBDA e : e.t = t) = VoiceOf(t)]_vars
EmitTest == ~Emit \/ block' = 0 \/ PrintT("TEST" \o ToJson([ev |-> ev, len |-> Dur, block |-> block']))
=============================================================================
