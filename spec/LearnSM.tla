------------------------------ MODULE LearnSM ------------------------------
(* How a bass model learns: line after line, and kicks with the bass they go with,
   in any order, with normalizations between. The machine counts as it goes; TLC
   checks that what it has counted is what Bass.tla says of all that was learnt
   (whatever the order), that rows add up to one, that the verdict used on traces
   accepts the model read from it, and refuses it with one entry changed or
   missing. Histories are printed as tests.                                      *)
EXTENDS Bass, Json
CONSTANTS Pool, Kicks, Sizes, Depth, Emit
VARIABLES ini, tem, tog, lines, pairs, hist
vars == <<ini, tem, tog, lines, pairs, hist>>
SeqsOver(S) == UNION {[1 .. k -> S] : k \in Sizes}
Zero == [x \in States |-> 0]
ZeroM == [x \in States |-> Zero]
Init == ini = Zero /\ tem = ZeroM /\ tog = ZeroM /\ lines = <<>> /\ pairs = <<>> /\ hist = <<>>
Line(q) == /\ ini' = [ini EXCEPT ![q[1]] = @ + 1]
           /\ tem' = IF Len(q) < 2 THEN tem
                     ELSE FoldLeft(LAMBDA m, i : [m EXCEPT ![q[i]][q[IF i = Len(q) THEN 1 ELSE i + 1]] = @ + 1], tem, [i \in DOMAIN q |-> i])
           /\ lines' = Append(lines, q) /\ hist' = Append(hist, [op |-> "line", x |-> q, y |-> <<>>]) /\ UNCHANGED <<tog, pairs>>
Pair(k, b) == /\ tog' = FoldLeft(LAMBDA m, i : [m EXCEPT ![k[i]][b[i]] = @ + 1], tog, [i \in 1 .. Min2(Len(k), Len(b)) |-> i])
              /\ pairs' = Append(pairs, [kick |-> k, bass |-> b])
              /\ hist' = Append(hist, [op |-> "pair", x |-> k, y |-> b]) /\ UNCHANGED <<ini, tem, lines>>
(* reads nothing and forgets nothing *)
Norm == /\ hist # <<>> /\ hist[Len(hist)].op # "norm"
        /\ hist' = Append(hist, [op |-> "norm", x |-> <<>>, y |-> <<>>]) /\ UNCHANGED <<ini, tem, tog, lines, pairs>>
Next == Len(hist) < Depth /\ ((\E q \in SeqsOver(Pool) : Line(q)) \/ (\E k \in SeqsOver(Kicks), b \in SeqsOver(Pool) : Pair(k, b)) \/ Norm)
Spec == Init /\ [][Next]_vars

Counted == \A x \in Pool \cup Kicks :
  /\ ini[x] = InitialCount(lines, x)
  /\ \A y \in Pool : tem[x][y] = TemporalCount(lines, x, y) /\ tog[x][y] = TogetherCount(pairs, x, y)
SumOf(f) == FoldSet(LAMBDA x, t : f[x] + t, 0, States)
Entries(f) == LET xs == SetToSortSeq({x \in States : f[x] > 0}, <) IN [i \in DOMAIN xs |-> [x |-> xs[i], n |-> f[xs[i]], d |-> SumOf(f)]]
EntriesM(m) == FlattenSeq([r \in 1 .. 16 |-> LET e == Entries(m[r - 1]) IN [i \in DOMAIN e |-> [r |-> r - 1, x |-> e[i].x, n |-> e[i].n, d |-> e[i].d]]])
Read(i, t, g) == [initial |-> i, temporal |-> t, together |-> g, sInitial |-> [k \in DOMAIN i |-> i[k].x],
                  sTemporal |-> [k \in DOMAIN t |-> <<t[k].r, t[k].x>>], sTogether |-> [k \in DOMAIN g |-> <<g[k].r, g[k].x>>],
                  shape |-> 1, rhythm |-> 0, files |-> 1, mInitial |-> <<>>, mTemporal |-> <<>>, pitch |-> 1, mPitch |-> t]
Verdict(i, t, g) == VBassModel([a |-> [lines |-> lines, pairs |-> pairs], rv |-> Read(i, t, g)])
Accepted == Verdict(Entries(ini), EntriesM(tem), EntriesM(tog)) = {}
AllButLast(q) == SubSeq(q, 1, Len(q) - 1)
MoreOfFirst(q) == [q EXCEPT ![1].n = @ + 1]
OthersRefused == LET i == Entries(ini) t == EntriesM(tem) g == EntriesM(tog) IN
  /\ i # <<>> => Verdict(AllButLast(i), t, g) # {} /\ Verdict(MoreOfFirst(i), t, g) # {}
  /\ t # <<>> => Verdict(i, AllButLast(t), g) # {} /\ Verdict(i, MoreOfFirst(t), g) # {}
  /\ g # <<>> => Verdict(i, t, AllButLast(g)) # {} /\ Verdict(i, t, MoreOfFirst(g)) # {}
(* every beat of a line is followed by one: the model never ends *)
Circular == \A x \in Pool : SumOf(tem[x]) > 0 <=> \E y \in Pool : tem[y][x] > 0
Forgets == [][\A x \in States : ini'[x] >= ini[x] /\ \A y \in States : tem'[x][y] >= tem[x][y] /\ tog'[x][y] >= tog[x][y]]_vars
EmitTest == ~Emit \/ lines' = <<>> \/ PrintT("TEST" \o ToJson([hist |-> hist']))
=============================================================================
