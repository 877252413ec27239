------------------------------- MODULE Styles -------------------------------
(* Styles: Markov chains over the steps of a loop, and collections of patterns. *)
EXTENDS PatternOps

(* ------------------------------------------------------------ what is learnt *)
Silence == "s:silence"
StepLen(a) == a.loop \div a.n
OnGrid(a) == [step |-> StepLen(a), rep |-> <<Silence>>]
(* the tags that start at each step of the loop, silence if there is none *)
StepStates(P, a) ==
  LET land == {e \in Landings(P.ev, OnGrid(a)) : e.s < P.dur} IN
  [k \in 0 .. a.n - 1 |-> LET S == {e.t : e \in {x \in land : x.s = k * StepLen(a)}} IN IF S = {} THEN {Silence} ELSE S]
PastAt(states, a, k) == [i \in 1 .. a.order |-> states[(k - a.order - 1 + i) % a.n]]
(* the observations of all the patterns at step k: <<past, state>> *)
Observed(all, a, k) == [i \in DOMAIN all |-> <<PastAt(all[i], a, k), all[i][k]>>]
(* the table: for each step, each past, each continuation, how many times *)
Learnt(ps, a) ==
  LET all == [i \in DOMAIN ps |-> StepStates(ps[i], a)] IN
  [k \in 0 .. a.n - 1 |->
     LET obs == Observed(all, a, k) IN
     [past \in {obs[i][1] : i \in DOMAIN obs} |->
        LET here == SelectSeq(obs, LAMBDA o : o[1] = past) IN
        [nxt \in {here[i][2] : i \in DOMAIN here} |-> [n |-> Count(here, <<past, nxt>>), d |-> Len(here)]]]]

(* ------------------------------------------------------ a table that was read *)
St(q) == RangeOf(q)
Past(q) == [i \in DOMAIN q |-> St(q[i])]
(* it has each past, and each continuation, once *)
NoTwice(t) == \A k \in DOMAIN t :
  /\ Cardinality({Past(t[k][i].past) : i \in DOMAIN t[k]}) = Len(t[k])
  /\ \A i \in DOMAIN t[k] : Cardinality({St(t[k][i].nxt[j].st) : j \in DOMAIN t[k][i].nxt}) = Len(t[k][i].nxt)
Table(t) ==
  [k \in 0 .. Len(t) - 1 |->
     [past \in {Past(t[k + 1][i].past) : i \in DOMAIN t[k + 1]} |->
        LET x == CHOOSE x \in RangeOf(t[k + 1]) : Past(x.past) = past IN
        [nxt \in {St(x.nxt[j].st) : j \in DOMAIN x.nxt} |->
           LET y == CHOOSE y \in RangeOf(x.nxt) : St(y.st) = nxt IN [n |-> y.n, d |-> y.d]]]]
SameFraction(x, y) == x.n * y.d = y.n * x.d
SameTable(T, U) ==
  /\ DOMAIN T = DOMAIN U
  /\ \A k \in DOMAIN T : /\ DOMAIN T[k] = DOMAIN U[k]
                         /\ \A p \in DOMAIN T[k] : /\ DOMAIN T[k][p] = DOMAIN U[k][p]
                                                   /\ \A x \in DOMAIN T[k][p] : SameFraction(T[k][p][x], U[k][p][x])

(* onsets halfway between two steps may be on either of them *)
Judged(a) == /\ a.loop % a.n = 0
             /\ \A i \in DOMAIN a.ps : ~AlignTied(a.ps[i].ev, OnGrid(a)) /\ a.ps[i].dur = a.loop
VLearn(L) ==
  LET got == L.rv.table
      ok == Len(got) = L.a.n /\ NoTwice(got)
      want == Learnt(L.a.ps, L.a) IN
  (IF ~Judged(L.a) THEN {} ELSE
   Clause("oneTablePerStep", Len(got) = L.a.n) \cup
   Clause("noStateTwice", NoTwice(got)) \cup
   (IF ~ok THEN {} ELSE
    LET T == Table(got) IN
    Clause("pasts", \A k \in DOMAIN T : DOMAIN T[k] = DOMAIN want[k]) \cup
    Clause("continuations", \A k \in DOMAIN T : \A p \in DOMAIN T[k] \cap DOMAIN want[k] : DOMAIN T[k][p] = DOMAIN want[k][p]) \cup
    Clause("frequencies", \A k \in DOMAIN T : \A p \in DOMAIN T[k] \cap DOMAIN want[k] : \A x \in DOMAIN T[k][p] \cap DOMAIN want[k][p] :
                             SameFraction(T[k][p][x], want[k][p][x])))) \cup
  Clause("parameters", L.rv.order = L.a.order /\ L.rv.n = L.a.n /\ L.rv.loop = L.a.loop) \cup
  Clause("patternsUnchanged", \A i \in DOMAIN L.a.ps : Unchanged(L.a.ps[i], L.rv.ps[i])) \cup
  Clause("listUnchanged", L.rv.list = 1) \cup
  Clause("built", L.rv.before = 0 /\ L.rv.bool = 1 /\ (L.rv.built = 1) = (L.a.ps # <<>>))

(* a matrix shown, in millionths: the sum of the tables of the steps, with their pasts and their continuations *)
Micro == 1000000
Share(f) == IF f.n = f.d THEN Micro ELSE (Micro * f.n) \div f.d
ShownAs(T, steps, x) ==
  LET pasts == UNION {DOMAIN T[k] : k \in steps}
      outs == UNION {DOMAIN T[k][p] : <<k, p>> \in {<<k, p>> \in steps \X pasts : p \in DOMAIN T[k]}}
      ins == [i \in DOMAIN x.mi |-> Past(x.mi[i])]
      os == [i \in DOMAIN x.mo |-> St(x.mo[i])]
      has(k, p, o) == p \in DOMAIN T[k] /\ o \in DOMAIN T[k][p]
      total(p, o) == FoldSet(LAMBDA k, s : s + (IF has(k, p, o) THEN Share(T[k][p][o]) ELSE 0), 0, steps) IN
  /\ x.n >= 1
  /\ RangeOf(ins) = pasts /\ Distinct(ins) /\ RangeOf(os) = outs /\ Distinct(os)
  /\ Len(x.mat) = Len(ins) /\ \A i \in DOMAIN ins : Len(x.mat[i]) = Len(os)
  /\ \A i \in DOMAIN ins, j \in DOMAIN os : AbsI(x.mat[i][j] - total(ins[i], os[j])) <= 2 * Cardinality(steps)

VStyleQueries(L) ==
  LET T == Table(L.rv.table)
      outs(k) == UNION {DOMAIN T[k][p] : p \in DOMAIN T[k]}
      ok(k) == LET r == L.rv.rows[k + 1]
                   ins == [i \in DOMAIN r.mi |-> Past(r.mi[i])]
                   os == [i \in DOMAIN r.mo |-> St(r.mo[i])] IN
        /\ {Past(r.ins[i]) : i \in DOMAIN r.ins} = DOMAIN T[k] /\ Len(r.ins) = Cardinality(DOMAIN T[k])
        /\ {St(r.outs[i]) : i \in DOMAIN r.outs} = outs(k) /\ Len(r.outs) = Cardinality(outs(k))
        /\ RangeOf(ins) = DOMAIN T[k] /\ Distinct(ins) /\ RangeOf(os) = outs(k) /\ Distinct(os)
        /\ Len(r.mat) = Len(ins) /\ \A i \in DOMAIN ins : Len(r.mat[i]) = Len(os)
        /\ \A i \in DOMAIN ins, j \in DOMAIN os :
             LET p == T[k][ins[i]] IN
             IF os[j] \in DOMAIN p THEN SameFraction(r.mat[i][j], p[os[j]]) ELSE r.mat[i][j].n = 0
      \* a past of one state and that state are not the same thing
      everything == UNION {{<<1, p>> : p \in DOMAIN T[k]} \cup {<<2, x>> : x \in outs(k)} : k \in DOMAIN T}
      everyAt(k) == {<<1, p>> : p \in DOMAIN T[k]} \cup {<<2, x>> : x \in outs(k)} IN
  Clause("shown", L.a.show = 1 => Len(L.rv.plots) = L.a.n + 1 /\ ShownAs(T, DOMAIN T, L.rv.plots[L.a.n + 1]) /\
                                  \A k \in DOMAIN T : ShownAs(T, {k}, L.rv.plots[k + 1])) \cup
  Clause("statesAndMatrices", \A k \in DOMAIN T : ok(k)) \cup
  Clause("allStates", L.rv.all = Cardinality(everything) /\ \A k \in DOMAIN T : L.rv.rows[k + 1].both = Cardinality(everyAt(k))) \cup
  Clause("text", L.rv.text >= L.a.n) \cup
  Clause("styleUnchanged", L.rv.after = L.rv.table)

(* --------------------------------------------------------------- generation *)
(* only tables where silence is never together with a tag can be told from what
   was generated                                                              *)
Clear(T) == \A k \in DOMAIN T : \A p \in DOMAIN T[k] :
  /\ \A i \in DOMAIN p : Silence \notin p[i] \/ p[i] = {Silence}
  /\ \A x \in DOMAIN T[k][p] : Silence \notin x \/ x = {Silence}
Sub(h, k, order) == [i \in 1 .. order |-> St(h[k - order + i])]     \* the states of the steps before step k (from 0)
VGenerate(L) ==
  LET b == L.rv.before
      T == Table(b.table)
      hist == L.rv.hist
      order == b.order
      steps == {k \in 0 .. b.n - 1 : k >= order}
      legal(h) == \A k \in steps : Sub(h, k, order) \in DOMAIN T[k] /\ St(h[k + 1]) \in DOMAIN T[k][Sub(h, k, order)]
      Runs(k, p) == SelectSeq(hist, LAMBDA x : Sub(x.h, k, order) = p)
      total(q) == SumSeq([i \in DOMAIN q |-> q[i].c])
      judged == Clear(T)
      lawful == \A i \in DOMAIN hist : legal(hist[i].h)
      fair(k, p, x, all, with) ==
        LET f == T[k][p][x]
            t == total(all)
            c == total(with)
            off == c * f.d - t * f.n IN
        off * off <= 36 * t * f.n * (f.d - f.n) + 36 * f.d * f.d IN
  Clause("shape", L.rv.ok = 1) \cup
  Clause("sameSeedSamePattern", L.rv.same = 1) \cup
  Clause("styleUnchanged", L.rv.after = b) \cup
  (IF ~judged THEN {} ELSE
   Clause("onlyWhatWasLearnt", lawful) \cup
   (IF ~lawful THEN {} ELSE
    Clause("frequencies", \A k \in steps : \A p \in DOMAIN T[k] :
      LET all == Runs(k, p) IN
      all = <<>> \/ \A x \in DOMAIN T[k][p] : fair(k, p, x, all, SelectSeq(all, LAMBDA y : St(y.h[k + 1]) = x))) \cup
    Clause("anyOfWhatWasLearnt", \A k \in steps : \A p \in DOMAIN T[k] :
      LET all == Runs(k, p) IN
      \A x \in DOMAIN T[k][p] : total(all) * T[k][p][x].n >= 25 * T[k][p][x].d =>
                                \E i \in DOMAIN all : St(all[i].h[k + 1]) = x)))

(* -------------------------------------------------------------------- files *)
VSaveStyle(L) ==
  Clause("notBuiltBefore", L.a.known = 1 \/ L.rv.fresh = 0) \cup
  Clause("sameParameters", L.rv.loaded.order = L.rv.before.order /\ L.rv.loaded.n = L.rv.before.n /\ L.rv.loaded.loop = L.rv.before.loop) \cup
  Clause("sameKnowledge", Len(L.rv.loaded.table) = Len(L.rv.before.table) /\ NoTwice(L.rv.loaded.table) /\
                          SameTable(Table(L.rv.loaded.table), Table(L.rv.before.table))) \cup
  Clause("built", L.rv.loaded.built = L.rv.before.built) \cup
  Clause("apart", L.rv.apart = 1) \cup
  Clause("styleUnchanged", L.rv.after = L.rv.before)

VDbStyle(L) == Clause("built", L.rv.before = 0 /\ (L.rv.built = 1) = (L.a.ps # <<>>))
VDbGenerate(L) ==
  Clause("patterns", CASE L.a.how = "random" -> \A i \in DOMAIN L.rv.got : L.rv.got[i] \in 1 .. L.a.n
                       [] L.a.how = "increasing" -> \A i \in DOMAIN L.rv.got : L.rv.got[i] = L.rv.idx[1] + i
                       [] OTHER -> \A i \in DOMAIN L.rv.got : L.rv.got[i] = L.rv.idx[i] + 1) \cup
  Clause("sameSeedSamePattern", L.rv.same = 1) \cup
  Clause("anyAtRandom", L.a.how = "random" /\ Len(L.rv.got) >= 40 * L.a.n => RangeOf(L.rv.got) = 1 .. L.a.n) \cup
  Clause("patternsUnchanged", Len(L.rv.pre) = Len(L.rv.post) /\ \A i \in DOMAIN L.rv.pre : Unchanged(L.rv.pre[i], L.rv.post[i]))
VDbSave(L) ==
  LET n == Len(L.rv.pre) IN
  Clause("samePatterns", Len(L.rv.got) = n) \cup
  (IF Len(L.rv.got) # n THEN {} ELSE UNION {VLoaded(L.rv.pre[i], L.rv.got[i], L.a.how # "json", L.a.how) : i \in 1 .. n}) \cup
  Clause("sourceUnchanged", Len(L.rv.post) = n /\ \A i \in DOMAIN L.rv.post : UnchangedGrow(L.rv.pre[i], L.rv.post[i])) \cup
  Clause("built", (L.a.known = 1 \/ L.rv.fresh = 0) /\ (L.rv.built = 1) = (n > 0)) \cup
  Clause("sameParameters", L.a.how = "json" \/ (L.rv.sameHow = 1 /\ L.rv.sameIdx = 1))

StyleOpNames == {"learn", "styleQueries", "generate", "saveStyle", "unlearnt", "dbStyle", "dbGenerate", "dbSave"}
VStyle(L) ==
  CASE L.op = "learn" -> VLearn(L)
    [] L.op = "styleQueries" -> VStyleQueries(L)
    [] L.op = "generate" -> VGenerate(L)
    [] L.op = "saveStyle" -> VSaveStyle(L)
    [] L.op = "unlearnt" -> Clause("built", L.rv.built = 0)
    [] L.op = "dbStyle" -> VDbStyle(L)
    [] L.op = "dbGenerate" -> VDbGenerate(L)
    [] L.op = "dbSave" -> VDbSave(L)
=============================================================================
