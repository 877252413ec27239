----------------------------- MODULE MappingSM -----------------------------
(* Which notes of a file are imported, and with which tags: a mapping grows entry
   by entry. The file has a note of each pitch on each channel, in two tracks.  *)
EXTENDS MidiTrace, Json

CONSTANTS Emit, MaxEntries, MaxConds
VARIABLES map, opts
vars == <<map, opts>>

Conds == {<<36, -1>>, <<-1, 1>>, <<36, 1>>, <<38, 0>>, <<-1, -1>>}
Entries == {[l |-> l, conds |-> c] : l \in {"Kick", "Sna"}, c \in UNION {[1 .. k -> Conds] : k \in 1 .. MaxConds}}
Options == [wantI : {<<>>, <<0>>, <<1>>, <<0, 2>>}, wantN : {<<>>, <<"Kick">>, <<"Ki">>}, tfn : {0, 1}, filter : {0, 1}]
Init == map = <<>> /\ opts \in {o \in Options : (o.wantI = <<>> \/ o.wantN = <<>>) /\ (o.tfn = 0 \/ o.filter = 1)}
Next == /\ Len(map) < MaxEntries
        /\ \E e \in Entries : e.l \notin {map[i].l : i \in DOMAIN map} /\ map' = Append(map, e)
        /\ UNCHANGED opts
Spec == Init /\ [][Next]_vars

Bytes(s) == CASE s = "Kick" -> <<75, 105, 99, 107>> [] s = "Sna" -> <<83, 110, 97>> [] s = "Ki" -> <<75, 105>> [] s = "Snare" -> <<83, 110, 97, 114, 101>>
Keys == <<<<36, 0>>, <<36, 1>>, <<38, 0>>, <<38, 1>>>>
Track(name) == <<Msg(0, Meta, 3, Bytes(name))>> \o
               [i \in 1 .. 8 |-> LET k == Keys[(i + 1) \div 2] IN
                  Msg(1, IF i % 2 = 1 THEN NoteOn ELSE NoteOff, k[2], <<k[1], 64>>)] \o <<Msg(0, Meta, EndOfTrack, <<>>)>>
File == [fmt |-> 1, res |-> 4, tracks |-> <<Track("Kick"), Track("Snare")>>]
Args(m, o) == [map |-> [i \in DOMAIN m |-> [l |-> "s:" \o m[i].l, b |-> Bytes(m[i].l), conds |-> m[i].conds]], names |-> <<>>,
               wantI |-> o.wantI, wantN |-> [i \in DOMAIN o.wantN |-> Bytes(o.wantN[i])], tfn |-> o.tfn, filter |-> o.filter]
Imp(m, o) == Import(File, Args(m, o)).ev

Places(ev) == {<<ev[i].s, ev[i].p>> : i \in DOMAIN ev}
(* without filtering all the notes of the tracks asked for are imported *)
Unfiltered == opts.filter = 0 =>
  Len(Imp(map, opts)) = 4 * Cardinality({i \in 1 .. 2 : Wanted(Args(map, opts), File.tracks[i], i)})
OnlyTagged == opts.filter = 1 => \A e \in RangeOf(Imp(map, opts)) : e.tag # <<>>
(* tracks are imported apart *)
TracksApart == opts.wantI = <<>> /\ opts.wantN = <<>> =>
  Imp(map, opts) = Imp(map, [opts EXCEPT !.wantI = <<0>>]) \o Imp(map, [opts EXCEPT !.wantI = <<1>>])
(* an entry more removes no note and no tag *)
Grows == [][\A e \in RangeOf(Imp(map, opts)) : \E f \in RangeOf(Imp(map', opts)) :
              <<e.s, e.p>> = <<f.s, f.p>> /\ RangeOf(e.tag) \subseteq RangeOf(f.tag)]_vars
EmitTest == ~Emit \/ PrintT("TEST" \o ToJson([map |-> map', opts |-> opts']))
=============================================================================
