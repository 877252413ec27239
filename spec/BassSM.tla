------------------------------- MODULE BassSM -------------------------------
(* Generation of a bass line under constraints, beat after beat, with the states
   and continuations that Bass.tla admits. TLC checks for every model learnt and
   all constraints that a line never gets stuck, satisfies the constraints, and
   that each line which satisfies them can be generated.                        *)
EXTENDS Bass, Json
CONSTANTS Pool, Lines, Lengths, Beats, Emit
VARIABLES lines, allowed, line
vars == <<lines, allowed, line>>

SeqsOf(S, ns) == UNION {[1 .. n -> S] : n \in ns}
NonEmpty == SUBSET Pool \ {{}}
Init == /\ lines \in UNION {[1 .. k -> SeqsOf(Pool, Lengths)] : k \in 1 .. Lines}
        /\ allowed \in SeqsOf(NonEmpty, Beats)
        /\ line = <<>>
Rows == RowsAfter(lines)
Comp == Completable(allowed, Follow(Rows))
Starts == {e.x : e \in InitialRow(lines)} \cap Comp[1]
Nexts(i, x) == {e.x : e \in OnlyTo(Rows[x], Comp[i + 1])}
Possible == IF line = <<>> THEN Starts ELSE IF Len(line) = Len(allowed) THEN {} ELSE Nexts(Len(line), line[Len(line)])
Next == /\ \E x \in Possible : line' = Append(line, x)
        /\ UNCHANGED <<lines, allowed>>
Spec == Init /\ [][Next]_vars

NeverStuck == line = <<>> \/ Len(line) = Len(allowed) \/ Possible # {}
Satisfies(q) == /\ InitialCount(lines, q[1]) > 0
                /\ \A i \in DOMAIN q : q[i] \in allowed[i]
                /\ \A i \in 1 .. Len(q) - 1 : TemporalCount(lines, q[i], q[i + 1]) > 0
Sound == line = <<>> \/ Satisfies(line)
Complete == line # <<>> \/ \A q \in [1 .. Len(allowed) -> Pool] : Satisfies(q) =>
  /\ q[1] \in Starts
  /\ \A i \in 1 .. Len(q) - 1 : q[i + 1] \in Nexts(i, q[i])
EmitTest == ~Emit \/ line # <<>> \/ PrintT("TEST" \o ToJson([lines |-> lines, allowed |-> [i \in DOMAIN allowed |-> SetToSortSeq(allowed[i], <)]]))
=============================================================================
