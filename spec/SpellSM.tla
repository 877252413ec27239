------------------------------ MODULE SpellSM -------------------------------
(* Chords built from a root, interval by interval, and all the named ones. TLC
   checks that no two places of the line have the same name, that an interval
   means the same number of letters and semitones from any root (as long as no
   more than double accidentals are needed), that inverting it completes the
   octave, that octaves change nothing, that each pitch class has one spelling
   with each accidental and that chord types are what their notes sound. Each
   chord, pitch class and pitch is printed as a test.                           *)
EXTENDS Spelling, Json
CONSTANTS Roots, Steps, MaxNotes, Emit
VARIABLES root, steps, ask
vars == <<root, steps, ask>>
Asks == {[k |-> "type", x |-> t, y |-> 0] : t \in DOMAIN Chords \ {"b9", "13"}} \cup
        {[k |-> "class", x |-> s, y |-> n] : s \in {"#", "b"}, n \in -13 .. 24} \cup {[k |-> "pitch", x |-> "", y |-> n] : n \in 0 .. 127} \cup
        {[k |-> "tables", x |-> "", y |-> 0]}
NotYet == [k |-> "", x |-> "", y |-> 0]
Init == root \in Roots /\ steps = <<>> /\ ask = NotYet
Climbs == ask = NotYet /\ Len(steps) < MaxNotes /\ (\E d \in Steps : steps' = Append(steps, d)) /\ UNCHANGED <<root, ask>>
Named == ask = NotYet /\ steps = <<>> /\ ask' \in {x \in Asks : x.k = "type" \/ root = 2} /\ UNCHANGED <<root, steps>>
Next == Climbs \/ Named
Spec == Init /\ [][Next]_vars
Notes == Climb(root, steps)
OneNameEach == \A n, m \in 0 .. 39 : Line[n] = Line[m] /\ Line[n] # "" => n = m
(* from the place n, a distance that is so many letters and semitones from C *)
SameMeaning == Near40(root) # {} => \A x \in UNION {RangeOf(Chords[t]) : t \in DOMAIN Chords} :
  LET k == ((LetterOf(root) - 1 + x[1]) % 7) + 1
      sign == ((SemiOf(root) + x[2] - Semitones[k] + 6) % 12) - 6
      n == Above(root, x) IN
  AbsI(sign) <= 2 => Near40(n) # {} /\ LetterOf(n) = k /\ SignOf(n) = sign /\ SemiOf(n) = (SemiOf(root) + x[2]) % 12
Inverts == \A x \in 0 .. 6, y \in 0 .. 11 : Distance(x, y) + Distance(7 - x, 12 - y) = 40
Octaves == Climb(root + 40, steps) = Notes
Spells == \A n \in 0 .. 11, s \in {"#", "b"} : SemiOfName(NameOf(ClassLine(n, s))) = n
TypesSound == \A t \in DOMAIN Chords : \A i \in DOMAIN Chords[t] : SemiOfName(Spelled(2, t)[i]) = Chords[t][i][2] % 12
Higher == [][steps' # steps => SubSeq(Climb(root', steps'), 1, Len(Notes)) = Notes]_vars
EmitTest == ~Emit \/ PrintT("TEST" \o ToJson([root |-> root', steps |-> steps', ask |-> ask']))
=============================================================================
