--------------------------- MODULE PatternTrace ---------------------------
(* The verdict on a recorded step of an operation on patterns.               *)
EXTENDS PatternOps

PatternOpNames == {"new", "addEvent", "lastNoteOff", "durToLast", "durToBar", "split", "window", "activeAt", "startingAt",
  "contains", "cutInSteps", "removeOverlapped", "fillSil", "legato", "fillPrev", "quantize", "align", "withTags",
  "withPitch", "tagsPitches", "copyNoEv", "copy", "copyEvent", "removeEvent", "removeByTags", "identical", "compare",
  "patEq", "stretch", "transpose", "reorder", "edit", "delEvent", "setDur", "editMeta", "listing", "printed", "grid", "json",
  "pickle", "legacyJson", "setVp", "editSlice", "editVp"}

Queries == {"lastNoteOff", "activeAt", "startingAt", "contains", "cutInSteps", "tagsPitches", "identical", "compare",
            "patEq", "window", "withTags", "withPitch", "copyNoEv", "copy", "copyEvent", "listing", "printed", "grid", "json", "pickle",
            "viewpoint", "describe", "drumSpace", "chordify"}

(* what other patterns may show of a step on the pattern pre/post: nothing, but
   for the events that they share                                            *)
VOther(L, O) ==
  LET shared == RangeOf(L.pre.ids) \cup RangeOf(L.post.ids)
      sh == IF L.op \in Queries THEN {} ELSE shared
      now(id) == {L.post.ev[j] : j \in {j \in DOMAIN L.post.ids : L.post.ids[j] = id}} IN
  Clause("otherPatternChanged",
         /\ O.pre.ids = O.post.ids /\ O.pre.dur = O.post.dur /\ SameData(O.pre, O.post)
         /\ Len(O.pre.ev) = Len(O.post.ev)
         /\ \A i \in DOMAIN O.pre.ids : O.post.ev[i] = O.pre.ev[i] \/ O.pre.ids[i] \in sh) \cup
  Clause("otherViewpointChanged", O.pre.vp = O.post.vp) \cup
  Clause("sharedEventShown",
         \A i \in DOMAIN O.post.ids : O.post.ids[i] \in RangeOf(L.post.ids) => O.post.ev[i] \in now(O.post.ids[i]))

(* objects that a step claims to have made must be in no pattern at all *)
MakesCopies(L) ==
  \/ L.op \in {"copy", "window", "json", "pickle"}
  \/ L.op \in {"withTags", "withPitch", "split"} /\ L.a.copy = 1
VFresh(L) ==
  IF ~MakesCopies(L) THEN {}
  ELSE Clause("notACopy", \A r \in RangeOf(L.rp) : \A O \in RangeOf(L.oth) : RangeOf(r.ids) \cap RangeOf(O.pre.ids) = {})

VPattern(L) ==
  CASE L.op = "new" -> VNew(L.a, L.post)
    [] L.op = "addEvent" -> VAdd(L.pre, L.a, L.post)
    [] L.op = "lastNoteOff" -> VLastNoteOff(L.pre, L.rv, L.post)
    [] L.op = "durToLast" -> VDurToLast(L.pre, L.a, L.post)
    [] L.op = "durToBar" -> VDurToBar(L.pre, L.a, L.post)
    [] L.op = "split" -> IF Covered(L.pre) THEN VSplit(L.pre, L.a, L.post, L.rp, IsPow2(L.u)) ELSE {}
    [] L.op = "window" -> VWindow(L.pre, L.a, L.post, L.rp)
    [] L.op = "activeAt" -> VActiveAt(L.pre, L.a, L.rv, L.post)
    [] L.op = "startingAt" -> VStartingAt(L.pre, L.a, L.rv, L.post)
    [] L.op = "contains" -> VContains(L.pre, L.a, L.rv, L.post)
    [] L.op = "cutInSteps" -> VCutInSteps(L.pre, L.a, L.rv, L.post)
    [] L.op = "removeOverlapped" -> VRemoveOverlapped(L.pre, L.a, L.post)
    [] L.op = "fillSil" -> IF ~Covered(L.pre) \/ (~IsPow2(L.u) /\ \E i \in DOMAIN L.pre.ev : L.pre.ev[i].d = 0) THEN {}
                            ELSE IF L.rp = <<>> THEN VFill(L.pre, L.a, L.post, IsPow2(L.u))
                            ELSE VGetFilled(L.pre, L.a, L.post, L.rp, IsPow2(L.u))
    [] L.op = "legato" -> VLegato(L.pre, L.a, L.post)
    [] L.op = "fillPrev" -> VFillPrev(L.pre, L.post)
    [] L.op = "quantize" -> VQuantize(L.pre, L.a, L.post)
    [] L.op = "align" -> VAlign(L.pre, L.a, L.post)
    [] L.op = "withTags" -> VWithTags(L.pre, L.a, L.post, L.rp)
    [] L.op = "withPitch" -> VWithPitch(L.pre, L.a, L.post, L.rp)
    [] L.op = "tagsPitches" -> VTagsPitches(L.pre, L.rv, L.post)
    [] L.op = "copyNoEv" -> VCopyNoEv(L.pre, L.post, L.rp)
    [] L.op = "copy" -> VCopy(L.pre, L.post, L.rp)
    [] L.op = "copyEvent" -> VCopyEvent(L.pre, L.a, L.rv, L.post)
    [] L.op = "removeEvent" -> VRemoveEvent(L.pre, L.a, L.post)
    [] L.op = "removeByTags" -> VRemoveByTags(L.pre, L.a, L.post)
    [] L.op = "identical" -> VIdentical(L.pre, L.a, L.rv, L.post)
    [] L.op = "compare" -> VCompare(L.pre, L.a, L.rv, L.post)
    [] L.op = "patEq" -> VPatEq(L.pre, L.a, L.rv, L.post, L.rp) \cup VTwins(L.a, L.pre, L.rp[1])
    [] L.op = "stretch" -> VStretch(L.pre, L.a, L.post)
    [] L.op = "transpose" -> VTranspose(L.pre, L.a, L.post)
    [] L.op = "reorder" -> VReorder(L.pre, L.post)
    [] L.op = "edit" -> VEdit(L.pre, L.a, L.post)
    [] L.op = "delEvent" -> VDelEvent(L.pre, L.a, L.post)
    [] L.op = "setDur" -> VSetDur(L.pre, L.a, L.post)
    [] L.op = "setVp" -> {}
    [] L.op = "editSlice" -> Clause("edit", L.pre.ids = L.post.ids /\ SameData(L.pre, [L.post EXCEPT !.m = L.pre.m]))
    [] L.op = "editVp" -> Clause("edit", Pairs(L.pre) = Pairs(L.post) /\ SameData(L.pre, L.post))
    [] L.op = "editMeta" -> Clause("edit", Pairs(L.pre) = Pairs(L.post) /\ L.pre.dur = L.post.dur)
    [] L.op = "listing" -> VListing(L.pre, L.rv, L.post)
    [] L.op = "printed" -> VPrinted(L.u, L.pre, L.a, L.rv, L.post)
    [] L.op = "grid" -> Clause("pure", Unchanged(L.pre, L.post))
    [] L.op = "json" -> VJson(L.pre, L.a, L.post, L.rp, L.rv)
    [] L.op = "pickle" -> VPickle(L.pre, L.a, L.post, L.rp, L.rv)
    [] L.op = "legacyJson" -> VLegacyJson(L.a, L.rv, L.rp)
=============================================================================
