------------------------------ MODULE ExportSM ------------------------------
(* Exporting a pattern and importing the file: notes are added one at a time; the
   file that this specification writes for them, ends before starts, gives them
   back when it is imported. Each pattern is printed, with its length.          *)
EXTENDS MidiTrace, Json

CONSTANTS OnsetSet, DurSet, Keys, Vels, MaxNotes, Lengths, Res, Emit
VARIABLES notes, dur
vars == <<notes, dur>>

Note(s, d, p, v) == [s |-> s, e |-> s + d, p |-> p, v |-> v]
Apart(x) == \A y \in notes : y.p # x.p \/ x.e <= y.s \/ y.e <= x.s
EndOfAll(ns) == MaxOr({x.e : x \in ns}, 0)
Init == notes = {} /\ dur \in Lengths
Next == \E s \in OnsetSet, d \in DurSet, p \in Keys, v \in Vels :
          /\ Cardinality(notes) < MaxNotes
          /\ Apart(Note(s, d, p, v))
          /\ \A y \in notes : <<y.s, y.p>> # <<s, p>> /\ (y.s < s \/ (y.s = s /\ y.p < p))      \* in order: each set once
          /\ notes' = notes \cup {Note(s, d, p, v)}
          /\ dur' = dur
Spec == Init /\ [][Next]_vars

(* the messages at absolute ticks, in an order that a reader understands *)
Abs == LET on == {<<x.s, 1, x.p, x.v>> : x \in notes}
           off == {<<x.e, 0, x.p, 0>> : x \in notes} IN
       SortSeq(SetToSeq(on \cup off), LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3]))))
Length == Max2(dur, EndOfAll(notes))
Track == LET m == [i \in DOMAIN Abs |-> Msg(Res * (Abs[i][1] - (IF i = 1 THEN 0 ELSE Abs[i - 1][1])),
                                             IF Abs[i][2] = 1 THEN NoteOn ELSE NoteOff, 0, <<Abs[i][3], Abs[i][4]>>)] IN
         Append(m, Msg(Res * (Length - (IF Abs = <<>> THEN 0 ELSE Last(Abs)[1])), Meta, EndOfTrack, <<>>))
File == [fmt |-> 1, res |-> Res, tracks |-> <<Track>>]
Back == Import(Decode(Encode(File, TRUE, 0)), PlainImport)
RoundTrip == SameMusic(SetToSeq(notes), Back.ev, Res, 1)
LengthKept == Back.dur = Res * Length
(* two patterns that differ are not the same music *)
Discerning == \A x \in notes : LET other == SetToSeq((notes \ {x}) \cup {[x EXCEPT !.v = @ + 1]}) IN ~SameMusic(other, Back.ev, Res, 1)

EmitTest == ~Emit \/ PrintT("TEST" \o ToJson([notes |-> SetToSeq(notes'), dur |-> dur']))
=============================================================================
