------------------------------- MODULE Midi -------------------------------
(* Standard MIDI files: what the bytes of a file mean (C16), what importing a
   file gives (C14, C15) and what exporting a pattern gives (C13).

   A file is [fmt, res, tracks], a track a sequence of messages
   [dt, k, c, d]: ticks since the previous message; kind (128 .. 224 for channel
   messages, 240 for system exclusive, 255 for meta events); channel or meta
   number; data bytes.                                                        *)
EXTENDS Base

(* ---------------------------------------------------------------- bytes *)
Byte(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
Cut(b, i, j) == SubSeq(b, i, Min2(j, Len(b)))
Be16(b, i) == Byte(b, i) * 256 + Byte(b, i + 1)
Be32(b, i) == IF Byte(b, i) # 0 THEN 2147483647 ELSE Byte(b, i + 1) * 65536 + Be16(b, i + 2)

(* a number of one to four bytes at i, and the place after it (0 if it is bad) *)
VarLen(b, i) ==
  LET b1 == Byte(b, i)  b2 == Byte(b, i + 1)  b3 == Byte(b, i + 2)  b4 == Byte(b, i + 3)  low(x) == x % 128 IN
  IF b1 < 128 THEN <<b1, i + 1>>
  ELSE IF b2 < 128 THEN <<low(b1) * 128 + b2, i + 2>>
  ELSE IF b3 < 128 THEN <<(low(b1) * 128 + low(b2)) * 128 + b3, i + 3>>
  ELSE IF b4 < 128 THEN <<((low(b1) * 128 + low(b2)) * 128 + low(b3)) * 128 + b4, i + 4>>
  ELSE <<0, 0>>
VarLenBytes(n) ==
  IF n < 128 THEN <<n>>
  ELSE IF n < 16384 THEN <<128 + (n \div 128), n % 128>>
  ELSE IF n < 2097152 THEN <<128 + (n \div 16384), 128 + ((n \div 128) % 128), n % 128>>
  ELSE <<128 + (n \div 2097152), 128 + ((n \div 16384) % 128), 128 + ((n \div 128) % 128), n % 128>>

DataBytes(k) == IF k \in {192, 208} THEN 1 ELSE 2
Sysex == 240
Meta == 255
EndOfTrack == 47
Msg(dt, k, c, d) == [dt |-> dt, k |-> k, c |-> c, d |-> d]

(* reading the message that starts at place p of the bytes b, when r is the
   running status (0 if there is none)                                        *)
ReadState == [p |-> 1, r |-> 0, msgs |-> <<>>, ok |-> TRUE]
ReadOne(b, s) ==
  LET v == VarLen(b, s.p)
      i == v[2]                                       \* the place of the status
      st == Byte(b, i)
      bad == [s EXCEPT !.ok = FALSE, !.p = Len(b) + 1]
      give(m, next, r) == IF next > Len(b) + 1 THEN bad ELSE [s EXCEPT !.p = next, !.r = r, !.msgs = Append(@, m)] IN
  IF i = 0 \/ i > Len(b) THEN bad
  ELSE IF st = Meta THEN
    LET n == VarLen(b, i + 2) IN
    IF n[2] = 0 THEN bad ELSE give(Msg(v[1], Meta, Byte(b, i + 1), Cut(b, n[2], n[2] + n[1] - 1)), n[2] + n[1], 0)
  ELSE IF st = Sysex THEN
    LET n == VarLen(b, i + 1) IN
    IF n[2] = 0 \/ n[1] = 0 THEN bad
    ELSE IF Byte(b, n[2] + n[1] - 1) # 247 THEN bad
    ELSE give(Msg(v[1], Sysex, 0, Cut(b, n[2], n[2] + n[1] - 2)), n[2] + n[1], 0)
  ELSE IF st >= 240 \/ (st < 128 /\ s.r = 0) THEN bad
  ELSE LET r == IF st < 128 THEN s.r ELSE st
           q == IF st < 128 THEN i ELSE i + 1
           k == (r \div 16) * 16
           d == Cut(b, q, q + DataBytes(k) - 1) IN
       IF \E j \in DOMAIN d : d[j] > 127 THEN bad ELSE give(Msg(v[1], k, r % 16, d), q + DataBytes(k), r)
ReadTrack(b) == FoldLeft(LAMBDA s, i : IF i < s.p THEN s ELSE ReadOne(b, s), ReadState, Upto(1, Len(b)))

(* reading a whole file: ok says whether it is well formed *)
Decode(b) ==
  LET h == Be32(b, 5)
      nt == Be16(b, 11)
      head == [fmt |-> Be16(b, 9), res |-> Be16(b, 13), tracks |-> <<>>, p |-> 9 + h,
               ok |-> Cut(b, 1, 4) = <<77, 84, 104, 100>> /\ h >= 6 /\ h < 100000 /\ Len(b) >= 14]
      track(f, i) ==
        IF ~f.ok THEN f
        ELSE LET n == Be32(b, f.p + 4)
                 p == f.p
                 good == Cut(b, p, p + 3) = <<77, 84, 114, 107>> /\ n < 10000000 /\ p + 8 + n <= Len(b) + 1
                 t == IF good THEN ReadTrack(SubSeq(b, p + 8, p + 7 + n)) ELSE [ReadState EXCEPT !.ok = FALSE] IN
             [f EXCEPT !.ok = good /\ t.ok, !.p = p + 8 + n, !.tracks = Append(@, t.msgs)]
      f == FoldLeft(track, head, Upto(1, nt)) IN
  [fmt |-> f.fmt, res |-> f.res, tracks |-> f.tracks, ok |-> f.ok /\ f.p = Len(b) + 1]

(* a track ends with its only end-of-track *)
IsEnd(m) == m.k = Meta /\ m.c = EndOfTrack
EndsWell(t) == t # <<>> /\ IsEnd(Last(t)) /\ \A i \in 1 .. Len(t) - 1 : ~IsEnd(t[i])

(* writing, with a status for each message or with running status *)
BytesOf(m, r) ==
  VarLenBytes(m.dt) \o
  (IF m.k = Meta THEN <<Meta, m.c>> \o VarLenBytes(Len(m.d)) \o m.d
   ELSE IF m.k = Sysex THEN <<Sysex>> \o VarLenBytes(Len(m.d) + 1) \o m.d \o <<247>>
   ELSE IF r = m.k + m.c THEN m.d ELSE <<m.k + m.c>> \o m.d)
RunningAfter(m, r) == IF m.k \in {Meta, Sysex} THEN 0 ELSE m.k + m.c
TrackBytes(t, running) ==
  FoldLeft(LAMBDA s, m : [b |-> s.b \o BytesOf(m, IF running THEN s.r ELSE 0), r |-> RunningAfter(m, s.r)], [b |-> <<>>, r |-> 0], t).b
Be(n, k) == [i \in 1 .. k |-> (n \div (256 ^ (k - i))) % 256]
Chunk(name, b) == name \o Be(Len(b), 4) \o b
Encode(f, running, pad) ==
  FoldLeft(LAMBDA s, t : s \o Chunk(<<77, 84, 114, 107>>, TrackBytes(t, running)),
           Chunk(<<77, 84, 104, 100>>, Be(f.fmt, 2) \o Be(Len(f.tracks), 2) \o Be(f.res, 2) \o [i \in 1 .. pad |-> 0]), f.tracks)

(* ------------------------------------------------ values of the messages *)
Pow2(n) == 2 ^ n
Signed(x) == IF x > 127 THEN x - 256 ELSE x
HasText(m) == m.k = Meta /\ m.c \in 1 .. 8
Values(m) ==
  CASE m.k \in {128, 144, 160, 176} -> m.d
    [] m.k \in {192, 208} -> m.d
    [] m.k = 224 -> <<m.d[2] * 128 + m.d[1] - 8192>>
    [] m.k = Meta /\ m.c = 81 -> <<m.d[1] * 65536 + m.d[2] * 256 + m.d[3]>>
    [] m.k = Meta /\ m.c = 88 -> <<m.d[1], Pow2(m.d[2]), m.d[3], m.d[4]>>
    [] m.k = Meta /\ m.c = 89 -> <<Signed(m.d[1]), m.d[2]>>
    [] HasText(m) -> m.d
    [] OTHER -> <<>>
(* the data bytes of a message that has been given some values; v[1] is -1 when
   it was given data                                                          *)
Log2(n) == CHOOSE k \in 0 .. 30 : Pow2(k) = n
DataOf(k, c, v) ==
  CASE k = 224 -> <<(v[1] + 8192) % 128, (v[1] + 8192) \div 128>>
    [] k = Meta /\ c = 81 -> <<v[1] \div 65536, (v[1] \div 256) % 256, v[1] % 256>>
    [] k = Meta /\ c = 88 -> <<v[1], Log2(v[2]), v[3], v[4]>>
    [] k = Meta /\ c = 89 -> <<IF v[1] < 0 THEN 256 + v[1] ELSE v[1], v[2]>>
    [] OTHER -> v

(* --------------------------------------------------------------- reading *)
Ticks(t) == FoldLeft(LAMBDA s, m : Append(s, m.dt + (IF s = <<>> THEN 0 ELSE Last(s))), <<>>, t)
SameMsg(m, x) == m.dt = x.dt /\ m.k = x.k /\ m.c = x.c /\ m.d = x.d
SameTracks(ts, xs) == Len(ts) = Len(xs) /\ \A i \in DOMAIN ts : Len(ts[i]) = Len(xs[i]) /\ \A j \in DOMAIN ts[i] : SameMsg(ts[i][j], xs[i][j])

(* rv: what was read; abs: its ticks made absolute; back: made relative again;
   again: the bytes of the file written from it                               *)
VMidiRead(a, rv) ==
  LET f == Decode(a.bytes)
      g == Decode(rv.again) IN
  Clause("generatorIsWrong", f.ok) \cup
  Clause("header", rv.fmt = f.fmt /\ rv.res = f.res) \cup
  Clause("messages", SameTracks(f.tracks, rv.tracks)) \cup
  Clause("values", Len(rv.tracks) = Len(f.tracks) /\
         \A i \in DOMAIN f.tracks : Len(f.tracks[i]) = Len(rv.tracks[i]) =>
             \A j \in DOMAIN f.tracks[i] : rv.tracks[i][j].v = Values(f.tracks[i][j])) \cup
  Clause("absolute", rv.abs = [i \in DOMAIN f.tracks |-> Ticks(f.tracks[i])]) \cup
  Clause("backToRelative", rv.back = [i \in DOMAIN f.tracks |-> [j \in DOMAIN f.tracks[i] |-> f.tracks[i][j].dt]]) \cup
  Clause("writtenAgain", g.ok /\ g.fmt = f.fmt /\ g.res = f.res /\ g.tracks = f.tracks) \cup
  Clause("sliceTicks", rv.begun = [i \in DOMAIN f.tracks |->
           [j \in 1 .. Min2(rv.cut, Len(f.tracks[i])) |-> f.tracks[i][j].dt]]) \cup
  Clause("slices", rv.slice = 1)

(* a.tracks: the messages given, as [dt, k, c, v] or, when given data, [.., d] *)
Given(x) == Msg(x.dt, x.k, x.c, IF x.raw = 1 THEN x.v ELSE DataOf(x.k, x.c, x.v))
VMidiWrite(a, rv) ==
  LET f == Decode(rv.bytes)
      want == [i \in DOMAIN a.tracks |-> [j \in DOMAIN a.tracks[i] |-> Given(a.tracks[i][j])]] IN
  Clause("wellFormed", f.ok) \cup
  Clause("header", f.fmt = a.fmt /\ f.res = a.res) \cup
  Clause("messages", f.tracks = want) \cup
  Clause("valuesSet", rv.vals = [i \in DOMAIN want |-> [j \in DOMAIN want[i] |-> Values(want[i][j])]]) \cup
  Clause("copies", rv.copies = 1)

(* ------------------------------------------------------------- importing *)
NoteOn == 144
NoteOff == 128
DefaultNames == <<"C", "C#", "D", "Eb", "E", "F", "F#", "G", "Ab", "A", "Bb", "B">>
NameOf(names, p) == "s:" \o names[(p % Len(names)) + 1] \o ToString((p \div Len(names)) - 1)

TrackName(t) == LET n == SelectSeq(t, LAMBDA m : m.k = Meta /\ m.c = 3) IN IF n = <<>> THEN <<>> ELSE <<n[1].d>>
HasPart(x, y) == \E i \in 0 .. Len(x) - Len(y) : \A j \in 1 .. Len(y) : x[i + j] = y[j]
(* a: [map: <<[l, b, conds: <<<<pitch, channel>>>>]>> (b: the bytes of the label, -1 for any),
       names: <<>> unless pitch names are asked for, wantI, wantN, tfn, filter]           *)
Wanted(a, t, i) == \/ a.wantI = <<>> /\ a.wantN = <<>>
                   \/ i - 1 \in RangeOf(a.wantI)
                   \/ TrackName(t) # <<>> /\ TrackName(t)[1] \in RangeOf(a.wantN)
Labels(a, p, c) == MapSeq(LAMBDA e : e.l, SelectSeq(a.map, LAMBDA e : \E i \in DOMAIN e.conds :
                     e.conds[i][1] \in {-1, p} /\ e.conds[i][2] \in {-1, c}))
NameLabels(a, t) == IF TrackName(t) = <<>> THEN <<>>
                    ELSE MapSeq(LAMBDA e : e.l, SelectSeq(a.map, LAMBDA e : HasPart(TrackName(t)[1], e.b)))
NoteTag(a, t, m) ==
  IF a.tfn = 1 THEN NameLabels(a, t)
  ELSE IF a.names # <<>> THEN <<NameOf(a.names, m.d[1])>>
  ELSE Labels(a, m.d[1], m.c)

(* the note messages that count, in the order in which they are read *)
IsNote(m) == m.k \in {NoteOn, NoteOff}
Notes(f, a) ==
  FoldLeft(LAMBDA s, i :
    LET t == f.tracks[i]  at == Ticks(t) IN
    IF ~Wanted(a, t, i) THEN s
    ELSE s \o MapSeq(LAMBDA j : [t |-> at[j], p |-> t[j].d[1], v |-> t[j].d[2], on |-> t[j].k = NoteOn /\ t[j].d[2] > 0,
                                 off |-> t[j].k = NoteOff, tag |-> NoteTag(a, t, t[j])],
                     SelectSeq(Upto(1, Len(t)), LAMBDA j : IsNote(t[j]) /\ (NoteTag(a, t, t[j]) # <<>> \/ (a.filter = 0 /\ a.tfn = 0)))),
    <<>>, Upto(1, Len(f.tracks)))

(* the events: each note-on opens one, an ending message closes the last open
   one of its pitch and tag that it can close                                 *)
CanEnd(m, e) == e.e = -1 /\ e.p = m.p /\ e.tag = m.tag /\ (IF m.off THEN m.t >= e.s ELSE m.t > e.s)
Pairing(ns) ==
  FoldLeft(LAMBDA ev, m :
    IF m.on THEN Append(ev, [s |-> m.t, e |-> -1, p |-> m.p, v |-> m.v, tag |-> m.tag])
    ELSE LET c == {i \in DOMAIN ev : CanEnd(m, ev[i])} IN
         IF c = {} THEN ev ELSE [ev EXCEPT ![Max(c)].e = m.t],
    <<>>, ns)
(* tempo, time signature and key: those of the file, which has at most one of each *)
All(f) == FoldLeft(LAMBDA s, t : s \o t, <<>>, f.tracks)
OnlyMeta(f, c, default) == LET m == SelectSeq(All(f), LAMBDA x : x.k = Meta /\ x.c = c) IN IF m = <<>> THEN default ELSE Values(Last(m))
KeyNames == <<"Cb", "Gb", "Db", "Ab", "Eb", "Bb", "F", "C", "G", "D", "A", "E", "B", "F#", "C#">>
KeyOf(v) == IF v = <<>> THEN "" ELSE KeyNames[v[1] + 8] \o (IF v[2] = 1 THEN "m" ELSE "")
Meter(f) == SubSeq(OnlyMeta(f, 88, <<4, 4>>), 1, 2)

(* the length: the latest end of the tracks read, or when none of them tells its end the last note that is ended, up to its bar *)
TellsEnd(t) == \E i \in DOMAIN t : IsEnd(t[i])
LastEnded(p) == MaxOr({p[i].e : i \in DOMAIN p}, 0)
BarTicks(f) == (4 * f.res * Meter(f)[1]) \div Meter(f)[2]
LengthOf(f, a) ==
  LET ends == {i \in DOMAIN f.tracks : Wanted(a, f.tracks[i], i) /\ TellsEnd(f.tracks[i])} IN
  IF ends # {} THEN Max({Last(Ticks(f.tracks[i])) : i \in ends})
  ELSE LET x == Max2(0, LastEnded(Pairing(Notes(f, a)))) IN Ceil(x, BarTicks(f)) * BarTicks(f)
Import(f, a) ==
  LET len == LengthOf(f, a)
      p == Pairing(Notes(f, a)) IN
  [ev |-> [i \in DOMAIN p |-> [s |-> p[i].s, d |-> Max2(0, (IF p[i].e = -1 THEN len ELSE p[i].e) - p[i].s), p |-> p[i].p, v |-> p[i].v, tag |-> p[i].tag]],
   dur |-> len]

TagIs(e, labels) == IF Len(labels) = 1 THEN e.t = labels[1]
                    ELSE IF labels = <<>> THEN e.t = "t:()"
                    ELSE BagEq(e.tc, labels)
SameEvent(x, e) == e.s = x.s /\ e.d = x.d /\ e.p = x.p /\ e.v = x.v /\ TagIs(e, x.tag)
(* ev: the events imported; they are in the order of their note-ons, or of their onsets *)
SameEvents(want, ev) ==
  /\ Len(want) = Len(ev)
  /\ \A i \in DOMAIN want : Cardinality({j \in DOMAIN ev : SameEvent(want[i], ev[j])}) = Cardinality({j \in DOMAIN want :
        want[j].s = want[i].s /\ want[j].d = want[i].d /\ want[j].p = want[i].p /\ want[j].v = want[i].v /\ RangeOf(want[j].tag) = RangeOf(want[i].tag)})

VMeta(f, x) ==
  Clause("tempo", x.mpqn = OnlyMeta(f, 81, <<500000>>)[1]) \cup
  Clause("timeSignature", x.ts = Meter(f)) \cup
  Clause("key", x.key = KeyOf(OnlyMeta(f, 89, <<>>))) \cup
  Clause("resolution", x.res = f.res)

(* what was imported from f: P the pattern, x its other data *)
VImported(f, a, P, x) ==
  LET want == Import(f, a) IN
  Clause("events", SameEvents(want.ev, P.ev)) \cup
  Clause("pitchesAndOnsets", BagEq(MapSeq(LAMBDA e : <<e.s, e.p, e.v>>, want.ev), MapSeq(LAMBDA e : <<e.s, e.p, e.v>>, P.ev))) \cup
  Clause("positive", x.positive = 1) \cup
  Clause("length", P.dur = want.dur) \cup
  VMeta(f, x)
=============================================================================
