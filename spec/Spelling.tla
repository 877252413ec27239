------------------------------ MODULE Spelling ------------------------------
(* Names of notes on the base-40 number line (Hewlett), and the chords that are
   spelled with them. Each letter has five places, two on each side of its
   natural note; an interval is a distance on the line.                         *)
EXTENDS Base

Letters == <<"C", "D", "E", "F", "G", "A", "B">>
Natural == <<2, 8, 14, 19, 25, 31, 37>>
Semitones == <<0, 2, 4, 5, 7, 9, 11>>
Signs == <<"bb", "b", "", "#", "##">>
Near40(n) == {k \in 1 .. 7 : AbsI((n % 40) - Natural[k]) <= 2}
LetterOf(n) == CHOOSE k \in Near40(n) : TRUE
SignOf(n) == (n % 40) - Natural[LetterOf(n)]
NameOf(n) == IF Near40(n) = {} THEN "" ELSE Letters[LetterOf(n)] \o Signs[SignOf(n) + 3]
SemiOf(n) == (Semitones[LetterOf(n)] + SignOf(n)) % 12
Line == [n \in 0 .. 39 |-> NameOf(n)]
SemiOfName(x) == SemiOf(CHOOSE n \in 0 .. 39 : Line[n] = x)
IsName(x) == x # "" /\ \E n \in 0 .. 39 : Line[n] = x

(* an interval of so many letters and so many semitones, as a distance *)
Distance(letters, semis) ==
  LET k == (letters % 7) + 1 IN 40 * (letters \div 7) + Natural[k] - 2 + semis - 12 * (letters \div 7) - Semitones[k]

(* types of chords: the letters and semitones from the root to each note *)
U == <<0, 0>>
M2 == <<1, 2>>   m3 == <<2, 3>>  M3 == <<2, 4>>  P4 == <<3, 5>>  d5 == <<4, 6>>  P5 == <<4, 7>>  A5 == <<4, 8>>
M6 == <<5, 9>>   d7 == <<6, 9>>  m7 == <<6, 10>> M7 == <<6, 11>> m9 == <<8, 13>> M9 == <<8, 14>> P11 == <<10, 17>> A11 == <<10, 18>>
M13 == <<12, 21>>
Chords == [n \in {} |-> <<>>] @@
  "0" :> <<U>> @@ "5" :> <<U, P5>> @@ "maj(omit5)" :> <<U, M3>> @@ "min(omit5)" :> <<U, m3>> @@ "d5" :> <<U, d5>> @@
  "maj" :> <<U, M3, P5>> @@ "min" :> <<U, m3, P5>> @@ "aug" :> <<U, M3, A5>> @@ "dim" :> <<U, m3, d5>> @@
  "sus4" :> <<U, P4, P5>> @@ "sus2" :> <<U, M2, P5>> @@ "7" :> <<U, M3, P5, m7>> @@ "7sus4" :> <<U, P4, P5, m7>> @@
  "maj7" :> <<U, M3, P5, M7>> @@ "min7" :> <<U, m3, P5, m7>> @@ "min(maj7)" :> <<U, m3, P5, M7>> @@ "min7(b5)" :> <<U, m3, d5, m7>> @@
  "dim7" :> <<U, m3, d5, d7>> @@ "6" :> <<U, M3, P5, M6>> @@ "min6" :> <<U, m3, P5, M6>> @@
  "add9" :> <<U, M3, P5, M9>> @@ "min(add9)" :> <<U, m3, P5, M9>> @@ "add11" :> <<U, M3, P5, P11>> @@ "min(add11)" :> <<U, m3, P5, P11>> @@
  "add#11" :> <<U, M3, P5, A11>> @@ "min(add#11)" :> <<U, m3, P5, A11>> @@ "b9" :> <<U, M3, P5, m7, m9>> @@
  "9" :> <<U, M3, P5, m7, M9>> @@ "maj9" :> <<U, M3, P5, M7, M9>> @@ "min9" :> <<U, m3, P5, m7, M9>> @@
  "11" :> <<U, M3, P5, m7, M9, P11>> @@ "maj11" :> <<U, M3, P5, M7, M9, P11>> @@ "min11" :> <<U, m3, P5, m7, M9, P11>> @@
  "#11" :> <<U, M3, P5, m7, M9, A11>> @@ "maj#11" :> <<U, M3, P5, M7, M9, A11>> @@ "min#11" :> <<U, m3, P5, m7, M9, A11>> @@
  "13" :> <<U, M3, P5, m7, M9, P11, M13>>
Above(root, x) == root + Distance(x[1], x[2])
Spelled(root, type) == [i \in DOMAIN Chords[type] |-> NameOf(Above(root, Chords[type][i]))]
Climb(root, steps) == [i \in 1 .. Len(steps) + 1 |-> NameOf(root + SumSeq(SubSeq(steps, 1, i - 1)))]
(* the natural note of a pitch class, or else the one below it sharp or above it flat *)
ClassLine(pc, alt) ==
  CHOOSE n \in 0 .. 39 : /\ Near40(n) # {} /\ SemiOf(n) = pc % 12
                         /\ SignOf(n) = IF \E k \in 1 .. 7 : Semitones[k] = pc % 12 THEN 0 ELSE IF alt = "#" THEN 1 ELSE -1

(* ------------------------------------------------------ steps that were recorded *)
SpellingOpNames == {"spellClass", "spellChord", "spellPitch", "pitchTables"}
Table(rows, k) == IF \E r \in RangeOf(rows) : r.n = k THEN (CHOOSE r \in RangeOf(rows) : r.n = k).x ELSE <<-1>>
VTables(rv) ==
  Clause("chordTypes", /\ \A r \in RangeOf(rv.types) : r.n \in DOMAIN Chords /\ r.x = [i \in DOMAIN Chords[r.n] |-> Chords[r.n][i][2]]
                       /\ {"maj", "min", "7", "13"} \subseteq {r.n : r \in RangeOf(rv.types)}) \cup
  Clause("chordIntervals", \A r \in RangeOf(rv.steps) : r.n \in DOMAIN Chords /\ Climb(2, r.x) = Spelled(2, r.n)) \cup
  Clause("bothTables", \A r \in RangeOf(rv.types), q \in RangeOf(rv.steps) : r.n = q.n =>
     /\ Len(q.x) + 1 = Len(r.x) /\ \A i \in DOMAIN r.x : SemiOf(2 + SumSeq(SubSeq(q.x, 1, i - 1))) = r.x[i] % 12) \cup
  Clause("notes", /\ \A x \in RangeOf(rv.notes) : IsName(x[1]) /\ x[3] = 12 * (x[2] + 1) + SemiOfName(x[1])
                  /\ {x[3] : x \in RangeOf(rv.notes)} = 0 .. 127) \cup
  Clause("keys", {x[1] : x \in RangeOf(rv.keys)} = -7 .. 7 /\ \A x \in RangeOf(rv.keys) : x[2] = NameOf(2 + 23 * x[1])) \cup
  Clause("line", rv.line = [n \in 1 .. 40 |-> Line[n - 1]]) \cup
  Clause("default", Len(rv.default) = 12 /\ \A i \in 1 .. 12 : IsName(rv.default[i]) /\ SemiOfName(rv.default[i]) = i - 1)
VSpelling(L) ==
  LET a == L.a rv == L.rv IN
  CASE L.op = "spellClass" -> Clause("line", rv.line = ClassLine(a.pc, a.alt)) \cup Clause("name", rv.name = NameOf(ClassLine(a.pc, a.alt)))
    [] L.op = "spellChord" -> Clause("intervals", rv.names = Climb(a.root, a.steps)) \cup
                              Clause("type", a.type = "" \/ (a.type \in DOMAIN Chords /\ rv.names = Spelled(a.root, a.type))) \cup
                              Clause("pure", rv.same = 1)
    [] L.op = "spellPitch" -> Clause("name", rv.name = a.names[(a.pitch % Len(a.names)) + 1]) \cup
                              Clause("octave", rv.octave = a.pitch \div Len(a.names) - 1) \cup Clause("pure", rv.same = 1)
    [] L.op = "pitchTables" -> VTables(rv)
=============================================================================
