------------------------------- MODULE MC -------------------------------
(* Constants that a configuration file cannot write: voices <<pitch, tag>> or
   <<pitch, tag, elements of the tuple>>.                                    *)
EXTENDS PatternSM
AB == <<"t:(s:a,s:b)", <<"s:a", "s:b">>>>
VoiceOne == {<<60, "s:a">>}
VoiceTwo == {<<60, "s:a">>, <<60, "s:ab">>}
VoiceThree == {<<60, "s:a">>, <<62, "s:a">>, <<62, "s:b">>}
VoiceTagTuple == {<<60, "s:a">>, <<60, AB[1], AB[2]>>}
VoiceTags == {<<60, "s:a">>, <<61, "s:ab">>, <<60, "s:b">>, <<60, AB[1], AB[2]>>, <<60, "t:(s:b,s:c)", <<"s:b", "s:c">>>>}
=============================================================================
