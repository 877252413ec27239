------------------------------- MODULE Trace -------------------------------
(* Checks steps recorded from the implementation against the specification.

   The lines of the trace are shared out between the behaviours that start in
   the initial states, so that TLC's workers check them in parallel. Each step
   consumes one line, evaluates the verdict that the specification gives for its
   operation, prints it unless it is empty and goes on: verdicts are total, and
   the state of each step is the one that was logged, so that a failure hides no
   other one.                                                                *)
EXTENDS PatternTrace, MidiTrace, Descriptors, Styles, Transformers, Bass, Spelling, Files, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Shards == 16

VARIABLES shard, l
vars == <<shard, l>>

Verdict(L) ==
  IF L.exc # "" THEN {"raised " \o L.exc}
  ELSE IF L.inx = 1 THEN {"inexact"}
  ELSE CASE L.op \in PatternOpNames -> VPattern(L) \cup VFresh(L) \cup UNION {VOther(L, O) : O \in RangeOf(L.oth)}
         [] L.op \in MidiOpNames -> VMidi(L)
         [] L.op \in DescriptorOpNames -> VDescriptor(L) \cup UNION {VOther(L, O) : O \in RangeOf(L.oth)}
         [] L.op \in StyleOpNames -> VStyle(L)
         [] L.op \in TransformerOpNames -> VTransformer(L)
         [] L.op \in BassOpNames -> VBass(L)
         [] L.op \in SpellingOpNames -> VSpelling(L)
         [] L.op \in FileOpNames -> VFiles(L)
         [] L.op = "unreadable" -> {"unreadable"}   \* of another shape than any result: found by the runner
         [] OTHER -> {"noSuchOperation"}

Init == shard \in 1 .. Shards /\ l = shard
Next == /\ l <= Len(Log)
        /\ LET bad == Verdict(Log[l]) IN
           IF bad = {} THEN TRUE ELSE PrintT("FAILED" \o ToJson([l |-> l, bad |-> SetToSeq(bad)]))
        /\ l' = l + Shards /\ UNCHANGED shard
Spec == Init /\ [][Next]_vars

(* all the lines were consumed: one state for each line, and the initial ones *)
Complete == TLCGet("stats").distinct = Len(Log) + Shards
=============================================================================
