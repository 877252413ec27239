---------------------------- MODULE Transformers ----------------------------
(* The density transformer: which steps of each tag are filled.              *)
EXTENDS PatternOps

(* numbers of steps nearest to num/den of all: two of them on a tie *)
Share(all, num, den) == {k \in 0 .. all : 2 * AbsI(k * den - all * num) <= den}
Clamp(num, den) == Max2(0, Min2(num, 2 * den))

(* One tag of a pattern of n steps (0 .. n-1). orig: the steps where it starts in
   the original; got: those where it starts once num/den was asked for.         *)
Reaches(orig, n, num, den, got) ==
  LET v == Clamp(num, den)
      kept == got \cap orig
      added == got \ orig IN
  IF v <= den THEN added = {} /\ Cardinality(kept) \in Share(Cardinality(orig), v, den)
  ELSE kept = orig /\ Cardinality(added) \in Share(n - Cardinality(orig), v - den, den)
(* notes are only added, or only removed *)
OneWay(before, got) == before \subseteq got \/ got \subseteq before
(* all that may come after `before' *)
DoAsk(orig, n, num, den, before) ==
  {got \in SUBSET (0 .. n - 1) : Reaches(orig, n, num, den, got) /\ OneWay(before, got)}

(* ------------------------------------------------------ steps that were recorded *)
DStep(a) == [step |-> a.step, rep |-> <<"s:silence">>]
VDensity(L) ==
  LET a == L.a
      O == L.pre
      R == L.rp[1]
      land == {e \in Landings(O.ev, DStep(a)) : e.s < O.dur}
      tags == {e.t : e \in land}
      Orig(t) == {e.s \div a.step : e \in {x \in land : x.t = t}}
      At(P, t) == {P.ev[i].s \div a.step : i \in {j \in DOMAIN P.ev : P.ev[j].t = t}}
      asked(t) == SelectSeq(a.dens, LAMBDA d : d.t = t)
      again == L.rv.prev # <<>>           \* there was a result for this original
      ok == \A i \in DOMAIN R.ev : R.ev[i].s % a.step = 0 IN
  Clause("stepsOfTheOriginalLength", R.dur = O.dur /\ ok /\ \A i \in DOMAIN R.ev : R.ev[i].s >= 0 /\ R.ev[i].s < O.dur /\ R.ev[i].d = a.step) \cup
  Clause("inOrder", \A i \in 1 .. Len(R.ev) - 1 : R.ev[i].s <= R.ev[i + 1].s) \cup
  (IF ~ok \/ AlignTied(O.ev, DStep(a)) THEN {} ELSE
   Clause("oneNotePerTagAndStep", \A i, j \in DOMAIN R.ev : i # j => <<R.ev[i].t, R.ev[i].s>> # <<R.ev[j].t, R.ev[j].s>>) \cup
   Clause("onlyTagsOfTheOriginal", \A i \in DOMAIN R.ev : R.ev[i].t \in tags) \cup
   Clause("notesOfTheOriginal", \A i \in DOMAIN R.ev : LET e == R.ev[i] IN
     IF e.s \div a.step \in Orig(e.t) THEN e \in land
     ELSE \E x \in land : x.t = e.t /\ x.p = e.p /\ x.v = e.v) \cup
   Clause("densityReached", \A t \in tags : asked(t) = <<>> \/ Reaches(Orig(t), a.n, asked(t)[1].num, asked(t)[1].den, At(R, t))) \cup
   Clause("othersKept", \A t \in tags : asked(t) # <<>> \/ (IF again THEN At(R, t) = At(L.rv.prev[1], t) \/ (a.given = 1 /\ At(R, t) = Orig(t))
                                                            ELSE At(R, t) = Orig(t))) \cup
   Clause("oneWay", ~again \/ a.given = 1 \/ \A t \in tags : OneWay(At(L.rv.prev[1], t), At(R, t)))) \cup
  Clause("originalUnchanged", L.rv.now = <<>> \/ Unchanged(L.rv.now[1], L.rv.now[2]))
VNoPattern(L) == Clause("nothing", L.rv.none = 1)

TransformerOpNames == {"density", "densityNone"}
VTransformer(L) == IF L.op = "density" THEN VDensity(L) ELSE VNoPattern(L)
=============================================================================
