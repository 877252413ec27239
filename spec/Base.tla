------------------------------- MODULE Base -------------------------------
(* Helpers shared by all the modules of the specification.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

(* A clause is the name of something the specification requires. A verdict is
   the set of the clauses that do not hold.                                  *)
Clause(name, holds) == IF holds THEN {} ELSE {name}

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a
Ceil(a, b) == IF a <= 0 THEN 0 ELSE (a + b - 1) \div b

(* largest and smallest element of a set, or a default *)
MaxOr(S, d) == IF S = {} THEN d ELSE Max(S)
MinOr(S, d) == IF S = {} THEN d ELSE Min(S)

Count(seq, x) == Cardinality({i \in DOMAIN seq : seq[i] = x})

(* equal as bags: the same elements as many times, in any order *)
BagEq(a, b) == /\ Len(a) = Len(b)
               /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])

(* every element of a is in b at least as many times *)
BagLeq(a, b) == \A i \in DOMAIN a : Count(a, a[i]) <= Count(b, a[i])

MapSeq(f(_), seq) == [i \in DOMAIN seq |-> f(seq[i])]
SumSeq(seq) == FoldLeft(LAMBDA x, y : x + y, 0, seq)
RangeOf(seq) == {seq[i] : i \in DOMAIN seq}
Distinct(seq) == Cardinality(RangeOf(seq)) = Len(seq)

(* the nearest multiples of step to x: two of them on a tie *)
NearestMultiples(x, step) ==
  LET lo == (x \div step) * step IN
  {m \in {lo, lo + step} : 2 * AbsI(m - x) <= step}

(* sequence of the numbers a .. b *)
Upto(a, b) == [i \in 1 .. Max2(0, b - a + 1) |-> a + i - 1]
=============================================================================
