------------------------------ MODULE FilesSM ------------------------------
(* A folder tree in which files come and go, and is searched. TLC checks that a
   search is complete, that several suffixes or several places find what each of
   them finds, that searching what was found finds it again, that a new file
   changes nothing about the others, and that matching is symmetric. Each search
   and each match is printed as a test.                                        *)
EXTENDS Files, Json
CONSTANTS Stems, Endings, Places, MaxFiles, Emit
VARIABLES files, ask
vars == <<files, ask>>
(* a, b, .a, a[1]; (none), .m, .mm; a[1], .h *)
StemTable == <<<<97>>, <<98>>, <<46, 97>>, <<97, 91, 49, 93>>>>
EndingTable == <<<<>>, <<46, 109>>, <<46, 109, 109>>>>
PlaceTable == <<<<97, 91, 49, 93>>, <<46, 104>>>>
Root == <<114>>
Dirs == {[p |-> Root, dir |-> 1]} \cup {[p |-> Root \o <<Slash>> \o PlaceTable[d], dir |-> 1] : d \in Places}
Endeds == {EndingTable[e] : e \in Endings}
Names == {StemTable[s] \o e : s \in Stems, e \in Endeds} \ {<<>>}
AllFiles == {[p |-> d.p \o <<Slash>> \o n, dir |-> 0] : d \in Dirs, n \in Names} \ {[p |-> d.p, dir |-> 0] : d \in Dirs}
Tree(fs) == SetToSortSeq(Dirs \cup fs, LAMBDA x, y : Less(x.p, y.p))
Wants == {[any |-> 1, of |-> <<>>]} \cup {[any |-> 0, of |-> <<e>>] : e \in Endeds} \cup {[any |-> 0, of |-> <<e, f>>] : e, f \in Endeds}
Ones == {w \in Wants : Len(w.of) < 2}
Lone == <<110>>
NotYet == [k |-> "", qs |-> <<>>, want |-> [any |-> 1, of |-> <<>>], to |-> [any |-> 1, of |-> <<>>]]
Init == files = {} /\ ask = NotYet
Comes == ask = NotYet /\ Cardinality(files) < MaxFiles /\ (\E f \in AllFiles \ files : files' = files \cup {f}) /\ UNCHANGED ask
Goes == ask = NotYet /\ (\E f \in files : files' = files \ {f}) /\ UNCHANGED ask
SomePlaces == {d.p : d \in Dirs} \cup {f.p : f \in files} \cup {Lone}
Searches == ask = NotYet /\ (\E w \in Wants, q \in SomePlaces, r \in SomePlaces : \E qs \in {<<q>>, <<q, r>>} :
              ask' = [NotYet EXCEPT !.k = "search", !.qs = qs, !.want = w]) /\ UNCHANGED files
Compares == ask = NotYet /\ files # {} /\ (\E f \in files, w \in Ones, v \in Ones :
              ask' = [NotYet EXCEPT !.k = "match", !.qs = <<f.p>>, !.want = w, !.to = v]) /\ UNCHANGED files
Next == Comes \/ Goes \/ Searches \/ Compares
Spec == Init /\ [][Next]_vars
T == Tree(files)
AllPaths == SetToSortSeq({f.p : f \in files}, Less)
Got == Found(T, ask.qs, ask.want)
OnlyThere == ask.k = "search" => Got \subseteq Paths(T)
Whole == ask.k = "search" => \A f \in files : \A q \in RangeOf(ask.qs) :
           (f.p = q \/ (Folder(f.p) = q /\ ~IsHidden(BaseName(f.p)))) /\ (ask.want.any = 1 \/ \E s \in RangeOf(ask.want.of) : Ends(BaseName(f.p), s)) => f.p \in Got
EitherSuffix == ask.k = "search" /\ Len(ask.want.of) = 2 =>
           Got = UNION {Found(T, ask.qs, [any |-> 0, of |-> <<s>>]) : s \in RangeOf(ask.want.of)}
EitherPlace == ask.k = "search" => Got = UNION {Found(T, <<q>>, ask.want) : q \in RangeOf(ask.qs)}
FoundAgain == ask.k = "search" => LET fs == Got \cap {f.p : f \in files} IN
           Found(T, SetToSortSeq(fs, Less), ask.want) = fs
Ordered == LET s == SetToSortSeq(Got, Less) IN VSearch([tree |-> T, qs |-> ask.qs, want |-> ask.want],
           [err |-> IF IsMissing(T, ask.qs) THEN 1 ELSE 0, got |-> s, same |-> 1]) = {}
MatchesItself == ask.k = "match" => LET x == ask.qs[1] IN
           /\ (Suits(x, ask.want) => Same(x, x, ask.want, ask.want))
           /\ Matched(x, AllPaths, NotYet.want, NotYet.to) # <<>>
MatchesBothWays == ask.k = "match" => LET x == ask.qs[1] IN \A f \in files :
           Suits(x, ask.want) /\ Same(x, f.p, ask.want, ask.to) => Same(f.p, x, ask.to, ask.want)
NoOthers == [][files' # files /\ files \subseteq files' => \A d \in Dirs, w \in Wants :
           LET was == FoundBy(T, d.p, w)
               is == FoundBy(Tree(files'), d.p, w) IN was \subseteq is /\ is \ was \subseteq {f.p : f \in files' \ files}]_vars
EmitTest == ~Emit \/ ask' = NotYet \/ PrintT("TEST" \o ToJson([files |-> [i \in DOMAIN AllPaths |-> AllPaths[i]], ask |-> ask']))
=============================================================================
