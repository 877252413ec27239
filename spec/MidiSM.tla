------------------------------- MODULE MidiSM -------------------------------
(* A track is written message after message, with a status for each and with
   running status, while a reader follows the bytes that come out. TLC checks
   that the reader has always read what was written, that both ways of writing
   make well-formed files, and what pairing the notes means. Each finished track
   is printed: it becomes a file for the code to read, or messages to write.   *)
EXTENDS MidiTrace, Json

CONSTANTS Pool,       \* the messages: <<kind, channel or meta number, data>>
          Dts, MaxMsgs, Emit

VARIABLES track, full, run, st, rd, closed
vars == <<track, full, run, st, rd, closed>>

(* sets of messages, for the configurations *)
CodecPool == {<<144, 0, <<60, 64>>>>, <<144, 1, <<60, 64>>>>, <<128, 0, <<60, 0>>>>, <<192, 0, <<5>>>>, <<208, 1, <<127>>>>,
              <<224, 0, <<0, 64>>>>, <<176, 15, <<127, 0>>>>, <<255, 1, <<65>>>>, <<255, 3, <<>>>>, <<255, 81, <<7, 161, 32>>>>, <<240, 0, <<1>>>>}
NotePool == {<<144, 0, <<60, 64>>>>, <<144, 0, <<60, 0>>>>, <<128, 0, <<60, 0>>>>,
             <<144, 1, <<60, 100>>>>, <<128, 1, <<60, 64>>>>, <<144, 0, <<61, 1>>>>, <<128, 0, <<61, 9>>>>}
OneNotePool == {<<144, 0, <<60, 64>>>>, <<144, 0, <<60, 0>>>>, <<128, 0, <<60, 0>>>>, <<144, 1, <<60, 127>>>>}

Init == track = <<>> /\ full = <<>> /\ run = <<>> /\ st = 0 /\ rd = ReadState /\ closed = FALSE
Write(m) ==
  /\ track' = Append(track, m)
  /\ full' = full \o BytesOf(m, 0)
  /\ run' = run \o BytesOf(m, st)
  /\ st' = RunningAfter(m, st)
  /\ rd' = ReadOne(run', rd)
Next == /\ ~closed
        /\ \E dt \in Dts :
             \/ /\ Len(track) < MaxMsgs
                /\ \E x \in Pool : Write(Msg(dt, x[1], x[2], x[3]))
                /\ closed' = FALSE
             \/ Write(Msg(dt, Meta, EndOfTrack, <<>>)) /\ closed' = TRUE
Spec == Init /\ [][Next]_vars

File == [fmt |-> 1, res |-> 96, tracks |-> <<track>>]
Read(f) == [fmt |-> f.fmt, res |-> f.res, tracks |-> f.tracks, ok |-> TRUE]

(* the reader is where the writer is, and has read what was written *)
ReaderFollows == rd.ok /\ rd.msgs = track /\ rd.p = Len(run) + 1 /\ rd.r = st
Incremental == full = TrackBytes(track, FALSE) /\ run = TrackBytes(track, TRUE)
ReadBack == closed => \A running \in BOOLEAN, pad \in {0, 3} : Decode(Encode(File, running, pad)) = Read(File)
RunningIsShorter == Len(run) <= Len(full)
EndsOnce == closed => EndsWell(track)
(* nothing that is cut short is a file *)
NoPrefixIsAFile == closed => LET b == Encode(File, TRUE, 0) IN \A n \in 14 .. Len(b) - 1 : ~Decode(SubSeq(b, 1, n)).ok
(* the data of messages is made of their values *)
ValuesRoundTrip == \A m \in RangeOf(track) :
  DataOf(m.k, m.c, IF m.k = 240 \/ (m.k = 255 /\ ~HasText(m) /\ m.c \notin {81, 88, 89}) THEN m.d ELSE Values(m)) = m.d
(* absolute ticks are the sums of the relative ones *)
TicksGrow == LET t == Ticks(track) IN \A i \in 2 .. Len(t) : t[i] - t[i - 1] = track[i].dt

(* --------------------------------------------------------- notes and pairs *)
Imp == Import(File, PlainImport)
NoteOns == SelectSeq(track, LAMBDA m : m.k = NoteOn /\ m.d[2] > 0)
Endings == SelectSeq(track, LAMBDA m : m.k = NoteOff \/ (m.k = NoteOn /\ m.d[2] = 0))
P == Pairing(Notes(File, PlainImport))
OnePerNoteOn == /\ Len(P) = Len(NoteOns)
                /\ \A i \in DOMAIN P : P[i].p = NoteOns[i].d[1] /\ P[i].v = NoteOns[i].d[2]
EndsAfterStarts == \A i \in DOMAIN P : P[i].e = -1 \/ P[i].e >= P[i].s
(* no ending closes two notes, and they are all of the notes' pitches *)
Closed(p) == Cardinality({i \in DOMAIN P : P[i].p = p /\ P[i].e # -1})
NoEndingTwice == \A p \in {60, 61} : Closed(p) <= Len(SelectSeq(Endings, LAMBDA m : m.d[1] = p))
(* a note stays open only if fewer endings that could close it came after it than notes of its pitch *)
OpenIfUnended == \A i \in DOMAIN P : P[i].e = -1 =>
  LET later == {t \in RangeOf(Ticks(track)) : t > P[i].s} IN
  LET ends == SelectSeq(Upto(1, Len(track)), LAMBDA j : track[j] \in RangeOf(Endings) /\ track[j].d[1] = P[i].p /\ Ticks(track)[j] > P[i].s)
      notes == Cardinality({j \in DOMAIN P : P[j].p = P[i].p /\ P[j].s >= P[i].s /\ j > i}) IN
  Len(ends) <= notes
NotesWithinFile == closed => \A i \in DOMAIN Imp.ev : Imp.ev[i].s + Imp.ev[i].d <= Imp.dur
(* a track that does not tell its end ends with the bar of the last note that is ended *)
WholeBars == ~closed => LET x == MaxOr({P[i].e : i \in DOMAIN P}, 0) IN
  Imp.dur % 384 = 0 /\ Imp.dur >= x /\ Imp.dur < Max2(x, 0) + 384
(* other notes change nothing: the notes of a pitch pair among themselves *)
PitchesApart == \A p \in {60, 61} :
  LET own == FoldLeft(LAMBDA s, i : LET m == track[i] IN
                        IF m.k \in {NoteOn, NoteOff} /\ m.d[1] # p THEN [s EXCEPT !.gap = @ + m.dt]
                        ELSE [gap |-> 0, t |-> Append(s.t, [m EXCEPT !.dt = @ + s.gap])],
                      [gap |-> 0, t |-> <<>>], Upto(1, Len(track))).t IN
  Pairing(Notes([File EXCEPT !.tracks = <<own>>], PlainImport)) = SelectSeq(P, LAMBDA e : e.p = p)

EmitTest == ~Emit \/ ~closed' \/ PrintT("TEST" \o ToJson([t |-> [i \in DOMAIN track' |-> <<track'[i].dt, track'[i].k, track'[i].c, track'[i].d>>]]))
=============================================================================
