----------------------------- MODULE MidiTrace -----------------------------
(* The verdict on a recorded step of an operation on MIDI files.            *)
EXTENDS Midi, PatternOps

MidiOpNames == {"midiRead", "midiWrite", "midiImport", "midiCollection", "dataset", "midiExport"}

(* an imported pattern as a pattern of the library *)
Join(q) == FoldLeft(LAMBDA s, x : s \o (IF s = "" THEN "" ELSE ",") \o x, "", q)
AsPattern(imp) ==
  [nil |-> 0, dur |-> imp.dur, st |-> 0, m |-> "", x |-> "", nm |-> "", vp |-> <<>>, ids |-> Upto(1, Len(imp.ev)),
   ev |-> [i \in DOMAIN imp.ev |-> LET e == imp.ev[i] IN
            [s |-> e.s, d |-> e.d, p |-> e.p, v |-> e.v, t |-> IF Len(e.tag) = 1 THEN e.tag[1] ELSE "t:(" \o Join(e.tag) \o ")",
             tc |-> <<>>]]]
Plain(P) == [P EXCEPT !.ev = [i \in DOMAIN P.ev |-> [P.ev[i] EXCEPT !.tc = <<>>]]]

(* overlaps between notes of one pitch are removed from what is imported *)
VImportedMono(f, a, P, x) ==
  LET pre == AsPattern(Import(f, a)) IN
  Clause("overlapsLeft", P.dur = pre.dur /\ OverlapEvents(pre.ev, Plain(P).ev, TRUE) = {}) \cup
  VMeta(f, x) \cup Clause("positive", x.positive = 1)
VImport(f, a, over, P, x) == IF over = 1 THEN VImportedMono(f, a, P, x) ELSE VImported(f, a, P, x)

VMidiImport(a, rp, rv) ==
  LET f == Decode(a.bytes) IN
  Clause("generatorIsWrong", f.ok) \cup
  VImport(f, a, a.over, rp[1], rv.x) \cup
  Clause("name", rv.x.nm = a.nm) \cup
  Clause("mappingChanged", rv.mapSame = 1)

Of(got, i) == SelectSeq(got, LAMBDA g : g.fi = i)
Renumber(ps) == FoldLeft(LAMBDA s, p : [n |-> s.n + Len(p.ev), r |-> Append(s.r, [p EXCEPT !.ids = Upto(s.n + 1, s.n + Len(p.ev))])],
                         [n |-> 100000, r |-> <<>>], ps).r
(* the slices of length len (in beats) of the pattern P imported from f *)
VSlices(f, P, len, sup, got) ==
  LET ps == [i \in DOMAIN got |-> [Plain(got[i].pat) EXCEPT !.m = P.m, !.x = P.x, !.nm = P.nm]]
      short(T) == {T.ev[i].p : i \in {j \in DOMAIN T.ev : T.ev[j].d = 0}} IN
  \* notes that end where they start last less than a tick: one of the slices has each of them
  IF short(P) # {} THEN Clause("shortNotes", short(P) \subseteq UNION {short(got[i].pat) : i \in DOMAIN got})
  ELSE VSplit(P, [len |-> len * f.res, copy |-> 1, sup |-> sup], P, Renumber(ps), IsPow2(f.res))

VCollection(a, rv) ==
  LET fs == [i \in DOMAIN a.files |-> Decode(a.files[i])] IN
  Clause("generatorIsWrong", \A i \in DOMAIN fs : fs[i].ok) \cup
  Clause("onlyMatchingFiles", \A i \in DOMAIN rv.got : rv.got[i].fi # 0) \cup
  Clause("mappingChanged", rv.mapSame = 1) \cup
  (IF a.len = 0
   THEN Clause("onePerFile", \A i \in DOMAIN fs : Len(Of(rv.got, i)) = 1) \cup
        UNION {UNION {VImported(fs[i], a, g.pat, g.x) : g \in RangeOf(Of(rv.got, i))} : i \in DOMAIN fs}
   ELSE UNION {LET P == AsPattern(Import(fs[i], a)) IN VSlices(fs[i], P, a.len, 1, Of(rv.got, i)) \cup
               UNION {VMeta(fs[i], [g.x EXCEPT !.positive = 1]) : g \in RangeOf(Of(rv.got, i))} : i \in DOMAIN fs})

VDataset(a, rv) ==
  LET fs == [i \in DOMAIN a.files |-> Decode(a.files[i])]
      one == \A i \in DOMAIN fs : Len(Of(rv.got, i)) = 1 IN
  Clause("generatorIsWrong", \A i \in DOMAIN fs : fs[i].ok) \cup
  Clause("onlyMatchingFiles", \A i \in DOMAIN rv.got : rv.got[i].fi # 0) \cup
  Clause("onePerFile", one) \cup
  Clause("mappingChanged", rv.mapSame = 1) \cup
  Clause("items", rv.items = 1) \cup
  Clause("slicesChangePatterns", one => \A i \in DOMAIN rv.got : rv.got[i].pat.ev = rv.after[i].pat.ev /\ rv.got[i].pat.dur = rv.after[i].pat.dur) \cup
  UNION {UNION {VImport(fs[i], a, a.over, g.pat, g.x) : g \in RangeOf(Of(rv.got, i))} : i \in DOMAIN fs} \cup
  (IF ~one THEN {}
   ELSE UNION {LET P == [Plain(Of(rv.got, i)[1].pat) EXCEPT !.ids = Upto(1, Len(Of(rv.got, i)[1].pat.ev))] IN
               VSlices(fs[i], P, a.len, 1, Of(rv.slices, i)) : i \in DOMAIN fs} \cup
        Clause("emptySlices", rv.empty = (IF a.sup = 1 THEN 0 ELSE
           SumSeq([i \in DOMAIN fs |-> LET P == Of(rv.got, i)[1].pat IN
              Ceil(P.dur, a.len * fs[i].res) - Len(Of(rv.slices, i))]))))

(* ------------------------------------------------------------- exporting *)
FirstTag(e) == IF e.tc # <<>> THEN e.tc[1] ELSE e.t
PitchFor(map, e) == LET m == {i \in DOMAIN map : map[i].l = FirstTag(e)} IN IF m = {} THEN e.p ELSE map[CHOOSE i \in m : TRUE].p
Before(x, y) == \/ x.p < y.p
                \/ x.p = y.p /\ x.s < y.s
                \/ x.p = y.p /\ x.s = y.s /\ x.e < y.e
                \/ x.p = y.p /\ x.s = y.s /\ x.e = y.e /\ x.v < y.v
ToExport(pre, map) == [i \in DOMAIN pre.ev |-> [s |-> pre.ev[i].s, e |-> pre.ev[i].s + pre.ev[i].d, p |-> PitchFor(map, pre.ev[i]), v |-> pre.ev[i].v]]
Exportable(ns) == /\ \A i \in DOMAIN ns : ns[i].p \in 0 .. 127 /\ ns[i].v \in 1 .. 127 /\ ns[i].s >= 0 /\ ns[i].e > ns[i].s
                  /\ \A i, j \in DOMAIN ns : i # j /\ ns[i].p = ns[j].p => ns[i].e <= ns[j].s \/ ns[j].e <= ns[i].s
(* a time in units of u per beat, and in ticks *)
Near(tick, units, res, u) == 2 * AbsI(tick * u - units * res) <= u
SameMusic(ns, imp, res, u) ==
  LET x == SortSeq(ns, Before)
      y == SortSeq([i \in DOMAIN imp |-> [s |-> imp[i].s, e |-> imp[i].s + imp[i].d, p |-> imp[i].p, v |-> imp[i].v]], Before) IN
  /\ Len(x) = Len(y)
  /\ \A i \in DOMAIN x : x[i].p = y[i].p /\ Near(y[i].s, x[i].s, res, u) /\ Near(y[i].e, x[i].e, res, u)
  \* notes shorter than a tick may be at the same ticks
  /\ BagEq([i \in DOMAIN x |-> [y[i] EXCEPT !.v = x[i].v]], y)

(* the file has the name given, or else that of the pattern *)
Mid == <<46, 109, 105, 100>>
FileName(nm) == IF HasPart(nm, Mid) THEN nm ELSE nm \o Mid

PlainImport == [map |-> <<>>, names |-> DefaultNames, wantI |-> <<>>, wantN |-> <<>>, tfn |-> 0, filter |-> 1]
VMidiExport(u, pre, a, post, rp, rv) ==
  LET f == Decode(rv.bytes)
      ns == ToExport(pre, a.map)
      one == f.ok /\ Len(f.tracks) = 1
      imp == Import(f, PlainImport)
      last == MaxOr({imp.ev[i].s + imp.ev[i].d : i \in DOMAIN imp.ev}, 0)
      tempo == OnlyMeta(f, 81, <<0>>)[1] IN
  Clause("fileName", rv.file = FileName(a.nm)) \cup
  (IF ~Exportable(ns) THEN {}
  ELSE
  Clause("wellFormed", one) \cup
  (IF ~one THEN {} ELSE
   Clause("endOfTrack", EndsWell(f.tracks[1])) \cup
   Clause("trackName", \E x \in RangeOf(a.tn) : TrackName(f.tracks[1]) = <<x>>) \cup
   Clause("music", SameMusic(ns, imp.ev, a.res, u)) \cup
   Clause("length", Near(imp.dur, pre.dur, a.res, u) \/ (imp.dur = last /\ last * u > pre.dur * a.res)) \cup
   Clause("tempo", AbsI(tempo * a.bpm[1] - 60000000 * a.bpm[2]) <= a.bpm[1]) \cup
   Clause("timeSignature", Meter(f) = a.ts) \cup
   Clause("key", KeyOf(OnlyMeta(f, 89, <<>>)) = a.key) \cup
   Clause("resolution", f.res = a.res) \cup
   UNION {{"importedAgain:" \o x} : x \in VImported(f, PlainImport, rp[1], rv.x)})) \cup
  Clause("sourceUnchanged", Unchanged(pre, post)) \cup
  Clause("mappingChanged", rv.same = 1)

VMidi(L) ==
  CASE L.op = "midiRead" -> VMidiRead(L.a, L.rv)
    [] L.op = "midiWrite" -> VMidiWrite(L.a, L.rv)
    [] L.op = "midiImport" -> VMidiImport(L.a, L.rp, L.rv)
    [] L.op = "midiCollection" -> VCollection(L.a, L.rv)
    [] L.op = "dataset" -> VDataset(L.a, L.rv)
    [] L.op = "midiExport" -> VMidiExport(L.u, L.pre, L.a, L.post, L.rp, L.rv)
=============================================================================
