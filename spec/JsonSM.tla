------------------------------- MODULE JsonSM -------------------------------
(* Patterns and the JSON documents that hold them. A document has the events in
   the order of the pattern, with their tags written out, or as indexes in a list
   of all tags; in files of older tools an event has a list of indexes, and its
   tag is then the tuple of these tags. A pattern is edited, saved and loaded in
   turn. TLC checks that what is loaded is what was saved, in order of time and
   as long as its events, that saving it again loses nothing more, that indexes
   are within the list, and that the verdict used on traces accepts it. Histories
   and documents are printed as tests.                                         *)
EXTENDS PatternOps, Json
CONSTANTS OnsetSet, DurSet, MaxEv, Lengths, Depth, Emit
VARIABLES pat, doc, hist
vars == <<pat, doc, hist>>
TagPool == {<<"s:a", <<>>>>, <<"s:b", <<>>>>, <<"t:(s:a,s:b)", <<"s:a", "s:b">>>>, <<"t:()", <<>>>>}
Evs == {[s |-> s, d |-> d, p |-> 60, v |-> 80, t |-> t[1], tc |-> t[2]] : s \in OnsetSet, d \in DurSet, t \in TagPool}
Pat(e, l) == [nil |-> 0, ev |-> e, ids |-> [i \in DOMAIN e |-> i], dur |-> l, st |-> 0, m |-> "120|(4,4)", x |-> "", nm |-> "s:n", vp |-> <<>>]
NoDoc == [nil |-> 1, dur |-> 0, tags |-> <<>>, ev |-> <<>>]
(* a tag of an event in a document: written out, an index, or a list of indexes *)
Written(e) == [how |-> "tag", ix |-> <<>>, t |-> <<e.t, e.tc>>]
Indexed(e, tags) == [how |-> "index", ix |-> <<CHOOSE i \in DOMAIN tags : tags[i] = <<e.t, e.tc>>>>, t |-> <<>>]
Encode(P, idx) ==
  LET tags == SetToSeq({<<P.ev[i].t, P.ev[i].tc>> : i \in DOMAIN P.ev}) IN
  [nil |-> 0, dur |-> Max2(P.dur, MaxEnd(P.ev)), tags |-> IF idx = 1 THEN tags ELSE <<>>,
   ev |-> [i \in DOMAIN P.ev |-> [e |-> [P.ev[i] EXCEPT !.t = "", !.tc = <<>>], tag |-> IF idx = 1 THEN Indexed(P.ev[i], tags) ELSE Written(P.ev[i])]]]
Join(q) == IF q = <<>> THEN "" ELSE FoldLeft(LAMBDA s, x : s \o "," \o x, q[1], Tail(q))
TupleTag(q) == <<"t:(" \o Join(q) \o ")", q>>
TagIn(tag, tags) == CASE tag.how = "tag" -> tag.t
                      [] tag.how = "index" -> tags[tag.ix[1]]
                      [] OTHER -> TupleTag([i \in DOMAIN tag.ix |-> tags[tag.ix[i]][1]])
Decode(D) == LET ev == InTimeOrder([i \in DOMAIN D.ev |-> LET t == TagIn(D.ev[i].tag, D.tags) IN [D.ev[i].e EXCEPT !.t = t[1], !.tc = t[2]]])
             IN Pat(ev, Max2(D.dur, MaxEnd(ev)))
Init == pat \in {Pat(<<>>, l) : l \in Lengths} /\ doc = NoDoc /\ hist = <<>>
Add == /\ Len(pat.ev) < MaxEv /\ doc = NoDoc
       /\ \E e \in Evs : pat' = Pat(Append(pat.ev, e), pat.dur) /\ hist' = (IF hist = <<>> THEN hist ELSE Append(hist, [op |-> "addEvent", e |-> e, idx |-> 0]))
       /\ UNCHANGED doc
Save == /\ doc = NoDoc
        /\ \E idx \in {0, 1} : /\ doc' = Encode(pat, idx)
                               /\ hist' = Append(IF hist = <<>> THEN <<[op |-> "new", e |-> pat, idx |-> 0]>> ELSE hist, [op |-> "json", e |-> pat.dur, idx |-> idx])
        /\ UNCHANGED pat
Load == /\ doc.nil = 0 /\ pat' = Decode(doc) /\ doc' = NoDoc /\ UNCHANGED hist
(* a document of an older tool; a list of tags where each is alone *)
Older == /\ hist = <<>> /\ doc = NoDoc /\ pat.ev # <<>>
         /\ LET tags == <<<<"s:a", <<>>>>, <<"s:b", <<>>>>>> IN
            \E ix \in [DOMAIN pat.ev -> {<<1>>, <<2, 1>>, <<2>>}], lists \in {0, 1} :
              /\ doc' = [nil |-> 0, dur |-> pat.dur, tags |-> tags,
                         ev |-> [i \in DOMAIN pat.ev |-> [e |-> [pat.ev[i] EXCEPT !.t = "", !.tc = <<>>],
                                                          tag |-> [how |-> IF lists = 0 /\ Len(ix[i]) = 1 THEN "index" ELSE "indexes", ix |-> ix[i], t |-> <<>>]]]]
              /\ hist' = <<[op |-> "older", e |-> doc', idx |-> 0]>>
         /\ UNCHANGED pat
Next == (Len(hist) < Depth /\ (Add \/ Save \/ Older)) \/ Load
Spec == Init /\ [][Next]_vars

IndexesWithin == \A i \in DOMAIN doc.ev : \A j \in DOMAIN doc.ev[i].tag.ix : doc.ev[i].tag.ix[j] \in DOMAIN doc.tags
Loaded == doc.nil = 0 /\ hist[Len(hist)].op = "json" => LET Q == Decode(doc) IN
  /\ VLoaded(pat, Q, FALSE, "json") = {} /\ BagEq(pat.ev, Q.ev) /\ Q.dur >= pat.dur
  /\ \A idx \in {0, 1} : Decode(Encode(Q, idx)) = Q
(* what was written with and without indexes loads as the same *)
EitherWay == Decode(Encode(pat, 0)) = Decode(Encode(pat, 1))
Longest == MaxEnd(Decode(Encode(pat, 1)).ev) <= Decode(Encode(pat, 1)).dur
EmitTest == ~Emit \/ doc'.nil = 1 \/ (Len(hist') < Depth /\ hist'[1].op # "older") \/ PrintT("TEST" \o ToJson([hist |-> hist']))
=============================================================================
