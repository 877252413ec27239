---------------------------- MODULE DescriptorSM ----------------------------
(* One descriptor of density or of the number of tags, with tags to ignore and to
   include, used for one pattern after another. A pattern grows event by event,
   then it is described. TLC checks that the values grow with the events that
   count and only with them, that ignoring and including share a pattern out, and
   that the verdict used on traces accepts exactly the value of the specification.
   What was described is printed as a test.                                     *)
EXTENDS Descriptors, Json
CONSTANTS OnsetSet, DurSet, MaxEv, Lengths, MaxUses, Emit
VARIABLES desc, ev, len, uses
vars == <<desc, ev, len, uses>>
TagPool == {<<"s:a", <<>>>>, <<"s:silence", <<>>>>, <<"t:(s:a,s:b)", <<"s:a", "s:b">>>>}
Conds == {[kind |-> "list", q |-> <<"s:a">>], [kind |-> "list", q |-> <<"s:silence", "t:(s:a,s:b)">>],
          [kind |-> "loose", q |-> <<"s:a">>]}
NoCond == [kind |-> "none", q |-> <<>>]
Ignored == Conds \cup {ByDefault.ign}
Included == {NoCond} \cup (Conds \ {[kind |-> "loose", q |-> <<"s:a">>]}) \cup {[kind |-> "exact", q |-> <<"t:(s:a,s:b)">>]}
Descs == {[ByDefault EXCEPT !.k = k, !.ign = i, !.inc = c] : k \in {"density", "tags"}, i \in Ignored, c \in Included}
Evs == {[s |-> s, d |-> d, p |-> 60, v |-> 80, t |-> t[1], tc |-> t[2]] : s \in OnsetSet, d \in DurSet, t \in TagPool}
Pat(e, l) == [nil |-> 0, ev |-> e, ids |-> [i \in DOMAIN e |-> i], dur |-> l, st |-> 0, m |-> "", x |-> "", nm |-> "", vp |-> <<>>]
Now == Pat(ev, len)
ValueOf(P, d) == [x |-> IF d.k = "density" THEN DensityOf(P, d) ELSE TagCount(P, d), ch |-> <<>>, sil |-> 0]

Init == desc \in Descs /\ ev = <<>> /\ len \in Lengths /\ uses = <<>>
Add == /\ Len(ev) < MaxEv - Len(uses) /\ Len(uses) < MaxUses
       /\ \E e \in Evs : ev' = Append(ev, e)
       /\ UNCHANGED <<desc, len, uses>>
Use == /\ Len(uses) < MaxUses
       /\ uses' = Append(uses, [ev |-> ev, dur |-> Max2(len, MaxEnd(ev))])
       /\ ev' = <<>> /\ len' \in Lengths /\ UNCHANGED desc
Next == Add \/ Use
Spec == Init /\ [][Next]_vars

Accepted == VValue(Now, desc, ValueOf(Now, desc), 1) = {}
OthersRefused == \A delta \in {-1, 1} : VValue(Now, desc, [ValueOf(Now, desc) EXCEPT !.x = @ + delta], 1) # {}
Plain(k, i, c) == [ByDefault EXCEPT !.k = k, !.ign = i, !.inc = c]
(* what is included and what is ignored by the same list are the whole *)
SharedOut == \A q \in {c \in Conds : c.kind = "list"} :
  DensityOf(Now, Plain("density", NoCond, q)) + DensityOf(Now, Plain("density", q, NoCond)) = DensityOf(Now, Plain("density", NoCond, NoCond))
OrderIsFree == LET r == Pat(Reverse(ev), len) IN ValueOf(r, desc) = ValueOf(Now, desc)
TagsAtMostEvents == TagCount(Now, desc) <= Len(ev)
Grows == [][ev' # <<>> /\ uses' = uses =>
  LET e == ev'[Len(ev')]
      before == ValueOf(Now, desc).x
      after == ValueOf(Pat(ev', len), desc).x IN
  IF ~Counted(e, desc) THEN after = before
  ELSE IF desc.k = "density" THEN after = before + e.d
  ELSE after = before + (IF \E i \in DOMAIN ev : ev[i].t = e.t THEN 0 ELSE 1)]_vars
EmitTest == ~Emit \/ Len(uses') = Len(uses) \/ (Len(uses') < MaxUses /\ Len(ev) < MaxEv) \/
  PrintT("TEST" \o ToJson([desc |-> desc, uses |-> uses']))
=============================================================================
