----------------------------- MODULE DensitySM -----------------------------
(* The state machine of the density transformer over the tags of a pattern: at
   each step some of the tags are asked to reach a density. TLC checks that every
   density can be reached from every state (Do is never empty), that states are
   those of the original with notes removed or added but never both, and that
   asking for 1 gives the original back.                                       *)
EXTENDS Transformers, Json
CONSTANTS TagSet, N, Den, Nums, Depth, Emit
VARIABLES orig, now, last, hist
vars == <<orig, now, last, hist>>
None == -1
Init == /\ orig \in [TagSet -> SUBSET (0 .. N - 1) \ {{}}]
        /\ now = orig /\ last = [t \in TagSet |-> Den] /\ hist = <<>>
Ask(f) ==
  LET nexts(t) == IF f[t] = None THEN {now[t]} ELSE DoAsk(orig[t], N, f[t], Den, now[t]) IN
  /\ Assert(\A t \in TagSet : nexts(t) # {}, <<"cannot be reached", orig, now, f>>)
  /\ now' \in [TagSet -> SUBSET (0 .. N - 1)]
  /\ \A t \in TagSet : now'[t] \in nexts(t)
  /\ last' = [t \in TagSet |-> IF f[t] = None THEN last[t] ELSE Clamp(f[t], Den)]
  /\ hist' = Append(hist, f)
  /\ UNCHANGED orig
Next == /\ Len(hist) < Depth
        /\ \E f \in [TagSet -> Nums \cup {None}] : Ask(f)
Spec == Init /\ [][Next]_vars

NeverBoth == \A t \in TagSet : now[t] \subseteq orig[t] \/ orig[t] \subseteq now[t]
OneIsTheOriginal == \A t \in TagSet : last[t] = Den => now[t] = orig[t]
ZeroIsEmpty == \A t \in TagSet : (last[t] = 0 => now[t] = {}) /\ (last[t] = 2 * Den => now[t] = 0 .. N - 1)
ReachedInv == \A t \in TagSet : Reaches(orig[t], N, last[t], Den, now[t])
(* more asked for, more notes *)
Monotone == [][\A t \in TagSet : (last'[t] >= last[t] => Cardinality(now'[t]) >= Cardinality(now[t]) \/ last'[t] = last[t])
                               /\ (last'[t] <= last[t] => Cardinality(now'[t]) <= Cardinality(now[t]) \/ last'[t] = last[t])]_vars
(* histories, not the states they may lead to: the code chooses *)
View == <<orig, now, last, hist>>
EmitTest == ~Emit \/ Len(hist') < Depth \/
  PrintT("TEST" \o ToJson([orig |-> [t \in TagSet |-> SetToSeq(orig[t])], hist |-> [i \in DOMAIN hist' |-> [t \in TagSet |-> hist'[i][t]]]]))
=============================================================================
