------------------------------- MODULE HeapSM -------------------------------
(* Several patterns derived from one another, whose events are objects in a heap:
   copies make new objects, selections made without copies share theirs. A
   pattern is edited by the operations of PatternOps, which write the objects it
   refers to. TLC checks that no edit shows in another pattern but through the
   events that they share on purpose, that patterns share only then, and that
   the verdict used on the code's traces accepts all this. Histories are printed
   as tests.                                                                  *)
EXTENDS PatternTrace, Json

CONSTANTS Depth, Emit, MaxRegs
VARIABLES heap, regs, hist, kin      \* kin: pairs of patterns that may share events
vars == <<heap, regs, hist, kin>>

E(s, d, p, t) == [s |-> s, d |-> d, p |-> p, v |-> 80, t |-> t, tc |-> <<>>]
ViewOf(h, g, r) == [nil |-> 0, ev |-> [i \in DOMAIN g[r].ids |-> h[g[r].ids[i]]], ids |-> g[r].ids, dur |-> g[r].dur,
            st |-> g[r].st, m |-> g[r].m, x |-> "", nm |-> "", vp |-> <<>>]
View(r) == ViewOf(heap, regs, r)
After(r) == ViewOf(heap', regs', r)
NextId == Len(heap) + 1
Init == /\ heap = <<E(0, 2, 60, "s:a"), E(1, 2, 60, "s:b"), E(4, 1, 62, "s:a")>>
        /\ regs = <<[ids |-> <<1, 2, 3>>, dur |-> 6, st |-> 0, m |-> "m"]>>
        /\ hist = <<>> /\ kin = {}

Reg(P) == [ids |-> P.ids, dur |-> P.dur, st |-> P.st, m |-> P.m]
(* a new pattern made of new objects, or of those of r *)
NewObjects(P) == /\ heap' = heap \o P.ev
                 /\ regs' = Append(regs, [Reg(P) EXCEPT !.ids = [i \in DOMAIN P.ev |-> Len(heap) + i]])
Derive(r, op, a, P, shares) ==
  /\ Len(regs) < MaxRegs
  /\ hist' = Append(hist, [op |-> op, r |-> r, a |-> a, new |-> TRUE])
  /\ IF shares THEN /\ heap' = heap /\ regs' = Append(regs, Reg(P))
                    /\ kin' = kin \cup {<<r, Len(regs) + 1>>, <<Len(regs) + 1, r>>} \cup
                              UNION {{<<x[2], Len(regs) + 1>>, <<Len(regs) + 1, x[2]>>} : x \in {y \in kin : y[1] = r}}
     ELSE NewObjects(P) /\ kin' = kin
(* the pattern r becomes one of Ps: objects it had are written, others are new *)
Becomes(r, Q) ==
  LET old == RangeOf(regs[r].ids)
      new == SelectSeq(Upto(1, Len(Q.ev)), LAMBDA i : Q.ids[i] \notin old)
      idOf(i) == IF Q.ids[i] \in old THEN Q.ids[i] ELSE Len(heap) + (CHOOSE k \in DOMAIN new : new[k] = i) IN
  /\ heap' = [id \in 1 .. Len(heap) + Len(new) |->
                IF id > Len(heap) THEN Q.ev[new[id - Len(heap)]]
                ELSE IF id \in old /\ \E i \in DOMAIN Q.ids : Q.ids[i] = id THEN Q.ev[CHOOSE i \in DOMAIN Q.ids : Q.ids[i] = id] ELSE heap[id]]
  /\ regs' = [regs EXCEPT ![r] = [Reg(Q) EXCEPT !.ids = [i \in DOMAIN Q.ids |-> idOf(i)]]]
Edit(r, op, a, Qs) ==
  /\ hist' = Append(hist, [op |-> op, r |-> r, a |-> a, new |-> FALSE])
  /\ kin' = kin
  /\ \E Q \in Qs : Becomes(r, Q)

Sel(q, copy) == [kind |-> "exact", q |-> <<q>>, out |-> 0, copy |-> copy]
Fill == [max |-> 0, per |-> 0, p |-> 0, t |-> "s:silence", tc |-> <<>>]
Derivations(r) ==
  LET P == View(r) IN
  \/ Derive(r, "copy", [z |-> 0], P, FALSE)
  \/ Derive(r, "json", [idx |-> 1, tup |-> 0], P, FALSE)
  \/ Derive(r, "pickle", [z |-> 0], P, FALSE)
  \/ Derive(r, "copyNoEv", [z |-> 0], [P EXCEPT !.ev = <<>>, !.ids = <<>>], FALSE)
  \/ \E trim \in {0, 1} : Derive(r, "window", [s |-> 1, len |-> 3, trim |-> trim], DoWindow(P, 1, 3, trim = 1), FALSE)
  \/ \E c \in {0, 1} : Derive(r, "withTags", Sel("s:a", c), DoSelect(P, Sel("s:a", c)), c = 0)
  \/ \E c \in {0, 1} : Derive(r, "withPitch", [x |-> 60, copy |-> c], Selection(P, LAMBDA e : e.p = 60), c = 0)
  \/ \E Q \in DoFill(P, Fill) : Covered(P) /\ Derive(r, "fillSil", [max |-> 0, per |-> 0], Q, FALSE)
  \/ Covered(P) /\ P.dur > 0 /\ Derive(r, "split", [len |-> P.dur, copy |-> 1, sup |-> 0], DoSplit(P, P.dur)[1], FALSE)
EditEv(P, i, f) == [P EXCEPT !.ev[i] = CASE f = "s" -> [@ EXCEPT !.s = 2] [] f = "d" -> [@ EXCEPT !.d = 3] [] f = "p" -> [@ EXCEPT !.p = 1]
                                         [] f = "v" -> [@ EXCEPT !.v = 33] [] f = "t" -> [@ EXCEPT !.t = "s:b"]]
New == [s |-> 3, d |-> 2, p |-> 60, v |-> 80, t |-> "s:c", tc |-> <<>>]
Edits(r) ==
  LET P == View(r) IN
  \/ \E f \in {"s", "p", "t"}, i \in {1} : i \in DOMAIN P.ev /\ Edit(r, "edit", [i |-> i - 1, f |-> f], {EditEv(P, i, f)})
  \/ Edit(r, "editMeta", [f |-> "bpm", x |-> 99], {[P EXCEPT !.m = "new"]})
  \/ Edit(r, "editMeta", [f |-> "st", x |-> 1], {[P EXCEPT !.st = 1]})
  \/ Edit(r, "addEvent", [e |-> New], DoAdd(P, New))
  \/ P.ev # <<>> /\ Edit(r, "delEvent", [i |-> 0], {[P EXCEPT !.ev = Tail(@), !.ids = Tail(@)]})
  \/ Edit(r, "transpose", [n |-> 2], DoTranspose(P, 2))
  \/ Edit(r, "stretch", [num |-> 2, den |-> 1], DoStretch(P, 2, 1))
  \/ Edit(r, "quantize", [step |-> 2, qs |-> 1, qd |-> 0], DoQuantize(P, 2, TRUE, FALSE))
  \/ Edit(r, "removeOverlapped", [pitch |-> 0], DoRemoveOverlapped(P, FALSE))
  \/ Covered(P) /\ Edit(r, "legato", [pitch |-> 0], DoLegato(P, FALSE))
  \/ Covered(P) /\ Edit(r, "fillSil", [max |-> 0, per |-> 0], DoFill(P, Fill))
  \/ Edit(r, "removeByTags", [q |-> <<"s:a">>], DoRemoveByTags(P, {"s:a"}))
Next == /\ Len(hist) < Depth
        /\ \E r \in DOMAIN regs : Derivations(r) \/ (hist # <<>> /\ Edits(r))     \* something is derived first
Spec == Init /\ [][Next]_vars

Ids(r) == RangeOf(regs[r].ids)
NoDangling == \A r \in DOMAIN regs : Ids(r) \subseteq DOMAIN heap /\ Distinct(regs[r].ids)
(* patterns share events only when one is a selection of the other made without copies *)
ShareOnPurpose == \A q, r \in DOMAIN regs : q # r /\ Ids(q) \cap Ids(r) # {} => <<q, r>> \in kin
(* each step, seen by the other patterns *)
Seen(r) == [pre |-> View(r), post |-> After(r)]
Isolation == [][LET last == Last(hist') IN
  \A o \in DOMAIN regs : o # last.r =>
     VOther([op |-> last.op, pre |-> View(last.r), post |-> After(last.r)], Seen(o)) = {}]_vars
QueriesChangeNothing == [][Last(hist').op \in Queries => \A r \in DOMAIN regs : Unchanged(View(r), After(r))]_vars
CopiesAreEqual == [][Last(hist').op \in {"copy", "json", "pickle"} =>
  After(Last(hist').r).ev = After(Len(regs')).ev /\ After(Last(hist').r).dur = After(Len(regs')).dur]_vars
(* a history is worth testing if something was derived *)
EmitTest == ~Emit \/ Len(hist') < Depth \/ Len(regs') = 1 \/ PrintT("TEST" \o ToJson([hist |-> hist']))
=============================================================================
