----------------------------- MODULE HistorySM -----------------------------
(* Long histories of one pattern: an operation is picked, then one of its steps.
   Explored by simulation: each history is as long as Depth, every step of it is
   one of PatternSM (whose verdicts are asserted on the way), and it is printed as
   a test of the code.                                                         *)
EXTENDS MC
CONSTANT MaxLength, MaxNotes
VARIABLES first, hist
hvars == <<pat, n, act, first, hist>>
HInit == Init /\ first = [ev |-> pat.ev, dur |-> pat.dur] /\ hist = <<>>
Pick == act.op # "pick" /\ n < Depth /\ \E o \in Ops : (o = "fillPrev" => pat.dur >= MaxEnd(pat.ev)) /\ act' = [op |-> "pick", a |-> o] /\ UNCHANGED <<pat, n, first, hist>>
Step == /\ act.op = "pick" /\ Next /\ hist' = Append(hist, act') /\ UNCHANGED first
        /\ pat'.dur <= MaxLength /\ Len(pat'.ev) <= MaxNotes
Finish == n = Depth /\ act.op # "end" /\ act' = [op |-> "end"] /\ UNCHANGED <<pat, n, first, hist>>
HNext == Pick \/ Step \/ Finish
HSpec == HInit /\ [][HNext]_hvars
HWellFormed == WellFormed
(* a note is one that was added, made of silence or transposed, or was there *)
NotesAreThere == [][act'.op \in {"pick", "end", "addEvent", "fillSil", "transpose"} \/
  \A i \in DOMAIN pat'.ev : \E j \in DOMAIN pat.ev : pat.ev[j].p = pat'.ev[i].p /\ pat.ev[j].t = pat'.ev[i].t /\ pat.ev[j].v = pat'.ev[i].v]_hvars
(* what is asked of a pattern leaves it as it is *)
QuestionsChangeNothing == [][act'.op \in {"split", "window", "withTags", "activeAt", "startingAt", "contains"} => pat' = pat]_hvars
EmitHistory == ~Emit \/ act'.op # "end" \/ PrintT("TEST" \o ToJson([first |-> first', hist |-> hist']))
=============================================================================
