------------------------------- MODULE ChordSM -------------------------------
(* Chords built note by note. TLC checks that the best chords that the
   specification allows follow a transposition, and do not depend on octaves, on
   the order of the notes, on silences nor on the unit of time, and that a chord
   whose notes sound equally long is the best for itself. Each set of notes is
   printed as a test.                                                          *)
EXTENDS Descriptors, Json
CONSTANTS DurSet, Roots, MaxNotes, Lengths, Emit
VARIABLES notes, len      \* the pitch classes (ascending) and how long they sound
vars == <<notes, len>>
Init == notes = <<>> /\ len \in Lengths
Next == /\ Len(notes) < MaxNotes
        /\ \E c \in 0 .. 11, d \in DurSet :
             /\ (notes = <<>> => c \in Roots) /\ (notes # <<>> => c > notes[Len(notes)][1])
             /\ notes' = Append(notes, <<c, d>>)
        /\ UNCHANGED len
Spec == Init /\ [][Next]_vars

Pat(q, l) == [nil |-> 0, ev |-> [i \in DOMAIN q |-> [s |-> 0, d |-> q[i][2], p |-> q[i][1], v |-> 80, t |-> "s:a", tc |-> <<>>]],
              ids |-> [i \in DOMAIN q |-> i], dur |-> l, st |-> 0, m |-> "", x |-> "", nm |-> "", vp |-> <<>>]
Best(q, l, force) == {<<x[1], x[2]>> : x \in BestChords(Pat(q, l), force)}
Here(force) == Best(notes, len, force)
Some == notes # <<>>
Transposed == Some => \A k \in {1} : Best([i \in DOMAIN notes |-> <<notes[i][1] + k, notes[i][2]>>], len, 0) =
                                        {<<(x[1] + k) % 12, x[2]>> : x \in Here(0)}
Octaves == Some => Best([i \in DOMAIN notes |-> <<notes[i][1] + 12 * (i % 3), notes[i][2]>>], len, 0) = Here(0)
AnyOrder == Some => Best(Reverse(notes), len, 0) = Here(0)
Units == Some => Best([i \in DOMAIN notes |-> <<notes[i][1], 3 * notes[i][2]>>], 3 * len, 0) = Here(0)
(* a note cut into two of the same pitch class *)
Shared == Some => LET h == notes[1] IN h[2] < 2 \/ Best(Append(Tail(notes), <<h[1] + 24, h[2] - 1>>) \o <<<<h[1], 1>>>>, len, 0) = Here(0)
SilencesApart == Some => LET P == Pat(notes, len)
                        e == [s |-> 0, d |-> 50, p |-> 1, v |-> 0, t |-> "s:silence", tc |-> <<>>]
                        Q == [P EXCEPT !.ev = Append(@, e), !.ids = Append(@, 99)] IN
                    {<<x[1], x[2]>> : x \in BestChords(Q, 0)} = Here(0)
(* among all, or among major and minor only *)
Forced == Some => ((\E y \in Here(0) : y[2] \in {"maj", "min"}) => Here(1) \subseteq Here(0))
(* the notes of a chord type, all as long as the pattern *)
ItsOwnBest == \A i \in DOMAIN ChordTable : LET pcs == SetToSortSeq(ChordTable[i][2], <) IN
  (notes = <<>>) => <<0, ChordTable[i][1]>> \in Best([j \in DOMAIN pcs |-> <<pcs[j], len>>], len, 0)
EmitTest == ~Emit \/ PrintT("TEST" \o ToJson([notes |-> notes', len |-> len]))
=============================================================================
