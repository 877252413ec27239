------------------------------ MODULE BeatsSM ------------------------------
(* The beats of a bass line: notes, one after another, are put at the nearest
   quarter of the beat they start in. TLC checks that the verdict used on traces
   accepts the line and refuses it with one bit changed (unless both are nearest),
   that the line only depends on which notes there are, that notes after the end
   do not count, and that a line read from notes at its quarters is the same.     *)
EXTENDS Bass, Json
CONSTANTS Units, Beats, Depth, Emit
VARIABLES u, dur, line, on
vars == <<u, dur, line, on>>
Len4 == Ceil(dur, u)
Init == /\ u \in Units /\ \E b \in Beats, less \in {0, 1} : dur = b * u - less
        /\ line = [b \in 1 .. Len4 |-> {}] /\ on = <<>>
Hit(x) == /\ on' = Append(on, x) /\ UNCHANGED <<u, dur>>
          /\ IF x >= dur THEN UNCHANGED line
             ELSE \E q \in NearestQuarters(x, u) : line' = [line EXCEPT ![(x \div u) + 1] = @ \cup {q}]
Next == Len(on) < Depth /\ \E x \in (0 .. dur - 1) \cup {Len4 * u} : Hit(x)
Spec == Init /\ [][Next]_vars

IdOf(S) == FoldSet(LAMBDA q, t : t + 2 ^ (3 - q), 0, S)
Bits(S) == [q \in 1 .. 4 |-> IF q - 1 \in S THEN 1 ELSE 0]
Ids(l) == [b \in DOMAIN l |-> IdOf(l[b])]
Verdict(l) == VBeats([u |-> u, a |-> [on |-> on, dur |-> dur], rv |-> [ids |-> Ids(l), bits |-> [b \in DOMAIN l |-> Bits(l[b])]]])
Accepted == Verdict(line) = {}
Untied == \A i \in DOMAIN on : on[i] < dur => Cardinality(NearestQuarters(on[i], u)) = 1
OthersRefused == Untied => \A b \in DOMAIN line, q \in 0 .. 3 :
  Verdict([line EXCEPT ![b] = IF q \in @ THEN @ \ {q} ELSE @ \cup {q}]) # {}
OneIdPerLine == \A b \in DOMAIN line : /\ Ids(line)[b] \in States
                                       /\ \A q \in 0 .. 3 : Bit(Ids(line)[b], q) = IF q \in line[b] THEN 1 ELSE 0
(* quarters are nearest to themselves *)
ReadAgain == u % 4 = 0 => \A b \in DOMAIN line : \A q \in line[b] : NearestQuarters((b - 1) * u + q * (u \div 4), u) = {q}
EmitTest == ~Emit \/ PrintT("TEST" \o ToJson([u |-> u, dur |-> dur, on |-> on']))
=============================================================================
