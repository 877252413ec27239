From c63166d8344a7593fb522f393ba85ec9d10e85f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 01/80] fix: find Hashable where current Python versions keep
 it

---
 gsapi/gspattern.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 92962a9..3d46de0 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -8,10 +8,13 @@ and Pattern, which are the main holders of musical symbolic information.
 
 from __future__ import absolute_import, division, print_function
 
-import collections
 import copy
 import logging
 import math
+try:
+    from collections.abc import Hashable
+except ImportError:  # Python 2
+    from collections import Hashable
 
 from . import gsdefs, gsutil
 
@@ -58,7 +61,7 @@ class Event(object):
         if isinstance(tag, list):
             gspatternLog.error("'tag' can't be a list, converting to tuple.")
             self.tag = tuple(tag)
-        elif not isinstance(tag, collections.Hashable):
+        elif not isinstance(tag, Hashable):
             gspatternLog.error("'tag' has to be hashable, trying conversion to tuple.")
             self.tag = (tag,)
         else:
-- 
2.43.0


From 7fc343a8eebf62157edaba763e3d29c40964f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 02/80] fix: return the result of tag equality and identical
 event queries

---
 gsapi/gspattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 3d46de0..ca1d525 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -147,7 +147,7 @@ class Event(object):
             bool: True if tags are equal.
 
         """
-        self.isTag(myEvent.tag)
+        return self.isTag(myEvent.tag)
 
     def endTime(self):
         """Get the time at which the Event ends.
@@ -662,6 +662,7 @@ class Pattern(object):
                     e) if allTagsMustBeEquals else event.hasCommonTagWith(e)
             if equals:
                 res += [e]
+        return res
 
     def getFilledWithSilences(self, maxSilenceTime=0, perTag=False, silenceTag='silence'):
         pattern = self.copy()
-- 
2.43.0


From 5663abee0eb747525dadd9f670fa6a3d40ecbd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 03/80] fix: compare whole tags, not the characters of string
 tags

---
 gsapi/gspattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index ca1d525..18a645e 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -98,7 +98,8 @@ class Event(object):
         """
         # if type(self.tag)!=type(event.tag):
         #     return False
-        return self.hasOneOfTags(event.tag)
+        tags = event.tag if isinstance(event.tag, tuple) else (event.tag,)
+        return self.hasOneOfTags(tags)
 
     def hasOneOfTags(self, tags):
         """
@@ -114,7 +115,7 @@ class Event(object):
             bool: True if at least one tag is equal.
         """
         for t in tags:
-            if (t == self.tag) or (t in self.tag):
+            if (t == self.tag) or (isinstance(self.tag, tuple) and t in self.tag):
                 return True
         return False
 
-- 
2.43.0


From bf1d409ca62532893a2cca437c28ba550f6a8673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 04/80] fix: remove every matching event when removing by event
 or by tags

---
 gsapi/gspattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 18a645e..a63f676 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -915,7 +915,7 @@ class Pattern(object):
         Args:
             tags: list of tag(s)
         """
-        for e in self.events:
+        for e in list(self.events):
             if e.hasOneOfTags(tuple(tags)):
                 self.removeEvent(e)
 
@@ -931,7 +931,7 @@ class Pattern(object):
                 idxToRemove += [idx]
             idx += 1
 
-        for i in idxToRemove:
+        for i in reversed(idxToRemove):
             del self.events[i]
 
     def removeOverlapped(self, usePitchValues=False):
-- 
2.43.0


From e3e1b7bb59acf986ad54fa693cb7bac3aec49833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 05/80] fix: keep a single event per onset when removing
 overlaps

---
 gsapi/gspattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index a63f676..d121632 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -965,7 +965,9 @@ class Pattern(object):
                             newList += [e]
                             overLappedEv += [ee]
                         else:
+                            # the later event replaces this one, whatever follows
                             gspatternLog.info("strict overlapping of start times %s with %s" % (e, ee))
+                            break
 
                 if ee.startTime > (e.startTime + e.duration):
                     break
-- 
2.43.0


From 8ccdcf9b883b18837ad035e199edb110e913d90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 06/80] fix: last note off is the latest event end, not the end
 of the last started event

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index d121632..d291213 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -683,7 +683,7 @@ class Pattern(object):
         """
         if len(self.events):
             self.reorderEvents()
-            return self.events[-1].duration + self.events[-1].startTime
+            return max(e.endTime() for e in self.events)
         else:
             return None
 
-- 
2.43.0


From 5d7d0a777660daa786cdbd15e5ce130981e07929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 07/80] fix: fill with previous event whatever the order of the
 events

---
 gsapi/gspattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index d291213..e7b6fc3 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -430,6 +430,7 @@ class Pattern(object):
         for e in self.events:
             if e.startTime not in onsets:
                 onsets.append(e.startTime)
+        onsets.sort()
         onsets.append(self.duration)
 
         for e in self.events:
-- 
2.43.0


From bc581e8136d664a517a1e8398dea01fe548e16fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 08/80] fix: fill silences per tag without mixing tags that
 contain one another

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index e7b6fc3..f33f59f 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -493,7 +493,7 @@ class Pattern(object):
             for t in self.getAllTags():
                 allEvents += _fillListWithSilence(
                     self.getPatternWithTags(tagToLookFor=t,
-                                            exactSearch=False,
+                                            exactSearch=True,
                                             makeCopy=False),
                     silenceTag, silencePitch)
             self.events = allEvents
-- 
2.43.0


From dc91acc0e294d865992823efb3a4cfd308c9dbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 09/80] fix: repeat the events with a repeatable tag on each
 step of the grid

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index f33f59f..eaa13a6 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -348,7 +348,7 @@ class Pattern(object):
         """
         newEvents = []
         for e in self.events:
-            if e.isTag(repeatibleTags):
+            if e.tag in repeatibleTags:
                 evToAdd = e.cutInSteps(stepSize)
             else:
                 evToAdd = [e]
-- 
2.43.0


From f6a01a646911c2cf35832ad1482fc9242c2887b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 10/80] fix: apply legato to the voices asked for (pitches or
 exact tags)

---
 gsapi/gspattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index eaa13a6..eaacf3f 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -389,10 +389,11 @@ class Pattern(object):
                 myPattern[-1].duration += diff
         if usePitchValues:
             for p in self.getAllPitches():
-                voice = self.getPatternWithPitch(p)
+                voice = self.getPatternWithPitch(p, makeCopy=False)
                 _perVoiceLegato(voice)
+            return
         for t in self.getAllTags():
-            voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=False, makeCopy=False)
+            voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=True, makeCopy=False)
             _perVoiceLegato(voice)
 
     def copy(self):
-- 
2.43.0


From 04184803641895ec76e4e4becf26bff6c110f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 11/80] fix: keep key and resolution in patterns derived from a
 pattern

---
 gsapi/gspattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index eaacf3f..d766722 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -419,6 +419,8 @@ class Pattern(object):
         p.timeSignature = self.timeSignature
         p.originFilePath = self.originFilePath
         p.name = self.name
+        p.key = self.key
+        p.resolution = self.resolution
         return p
 
     def fillWithPreviousEvent(self):
-- 
2.43.0


From 278c58fa78be0634a03b70edc93814c2d7efa601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 12/80] fix: transposed events get a hashable pitch name tag

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index d766722..4f86e59 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1186,7 +1186,7 @@ class Pattern(object):
         """
         for e in self.events:
             e.pitch += interval
-            e.tag = [gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)]
+            e.tag = gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)
 
 
 def patternToList(myPattern):
-- 
2.43.0


From a9da56c1c3f3cd9cdde0e8836ab9be64896eca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 13/80] fix: split patterns that have no name

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 4f86e59..3120dfa 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1086,7 +1086,7 @@ class Pattern(object):
                 patterns[numPattern].startTime = p * desiredLength
                 patterns[numPattern].duration = desiredLength
                 patterns[
-                    numPattern].name = patternToSlice.name + "_" + numPattern
+                    numPattern].name = (patternToSlice.name or "") + "_" + numPattern
             newEv = e if not makeCopy else e.copy()
 
             if newEv.startTime + newEv.duration > (p + 1) * desiredLength:
-- 
2.43.0


From 808c13cffa318e359e66034c4f2ac18319944b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 14/80] fix: an event cut at the next onset is not kept twice
 when rounding makes it overlap again

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 3120dfa..bf4ca45 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -971,7 +971,7 @@ class Pattern(object):
                         else:
                             # the later event replaces this one, whatever follows
                             gspatternLog.info("strict overlapping of start times %s with %s" % (e, ee))
-                            break
+                        break
 
                 if ee.startTime > (e.startTime + e.duration):
                     break
-- 
2.43.0


From 5753d7ad31df43631499a14997aae871c1960813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 15/80] fix: endless recursion when splitting at lengths that
 are not exact binary fractions

---
 gsapi/gspattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index bf4ca45..62c7a3b 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1080,6 +1080,9 @@ class Pattern(object):
 
         def _handleEvent(e, patterns, makeCopy):
             p = int(math.floor(e.startTime * 1.0 / desiredLength))
+            # rounding can leave an onset that is on a cut before that cut
+            if (p + 1) * desiredLength <= e.startTime:
+                p += 1
             numPattern = str(p)
             if numPattern not in patterns:
                 patterns[numPattern] = patternToSlice.copyWithoutEvents()
-- 
2.43.0


From 3b5c58daf2be6c51712ab8bd0c60c5f5e68bdfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 16/80] fix: write tag indexed JSON that can be read back

---
 gsapi/gspattern.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 62c7a3b..ef105a2 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -533,13 +533,19 @@ class Pattern(object):
         hasIndexedTags = 'eventTags' in json.keys()
         if hasIndexedTags:
             tags = json['eventTags']
+
+            def tagFromIdx(idx):
+                # a list of indexes is a tuple of tags, an index is a whole tag
+                if isinstance(idx, list):
+                    return tuple([tags[f] for f in idx])
+                return tuple(tags[idx]) if isinstance(tags[idx], list) else tags[idx]
+
             for e in json['eventList']:
                 self.events += [Event(startTime=e['on'],
                                       duration=e['duration'],
                                       pitch=e['pitch'],
                                       velocity=e['velocity'],
-                                      tag=tuple(
-                                              [tags[f] for f in e['tagsIdx']])
+                                      tag=tagFromIdx(e['tagsIdx'])
                                       )]
         else:
             for e in json['eventList']:
@@ -1012,19 +1018,15 @@ class Pattern(object):
         res['viewpoints'] = {k: v.toJSONDict(useTagIndexing) for k, v in
                              self.viewpoints.items()}
         if useTagIndexing:
-            allTags = self.getAllTags()
+            allTags = list(self.getAllTags())
             res['eventTags'] = allTags
 
-            def findIdxforTags(tags, allTags):
-                return [allTags.index(x) for x in tags]
-
             for e in self.events:
                 res['eventList'] += [{'on':       e.startTime,
                                       'duration': e.duration,
                                       'pitch':    e.pitch,
                                       'velocity': e.velocity,
-                                      'tagIdx':   findIdxforTags(e.tag,
-                                                                 allTags)
+                                      'tagsIdx':  allTags.index(e.tag)
                                       }]
         else:
             for e in self.events:
-- 
2.43.0


From dbca5a06a66ac56e5a608c0649b52203ca7076cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 17/80] fix: a chord whose scores are all negative still gets
 its best root and type

---
 gsapi/gsdescriptors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsdescriptors.py b/gsapi/gsdescriptors.py
index 02d28fc..c25fbf4 100644
--- a/gsapi/gsdescriptors.py
+++ b/gsapi/gsdescriptors.py
@@ -18,7 +18,7 @@ def intervalListToProfile(intervalList, length=12):
 
 
 def findBestScoreForProfiles(chromas, pitchProfileDict, penalityWeight, allowDuplicates=False):
-    maxScore = 0
+    maxScore = float('-inf')
     if allowDuplicates:
         bestProfile = []
         bestRoot = []
@@ -76,7 +76,7 @@ def convolveWithPitchProfile(chromas, pitchProfile, penalityWeight):
 
 
 def findMaxAndIdx(convolution):
-    M = 0
+    M = float('-inf')
     Mi = -1
     i = 0
     for chroma in convolution:
-- 
2.43.0


From 9d581b7eb5ec0d39365ce9ef8eccefe3746c034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 18/80] fix: close the MIDI files that are opened, so that what
 was written is complete

---
 gsapi/midiio.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index db00dad..61aa517 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -19,13 +19,15 @@ if sys.version_info < (3,):
 
     def write_midifile(midifile, pattern):
         if type(midifile) in (str, unicode):
-            midifile = open(midifile, 'wb')
+            with open(midifile, 'wb') as f:
+                return FileWriter().write(f, pattern)
         writer = FileWriter()
         return writer.write(midifile, pattern)
 
     def read_midifile(midifile):
         if type(midifile) in (str, unicode):
-            midifile = open(midifile, 'rb')
+            with open(midifile, 'rb') as f:
+                return FileReader().read(f)
         reader = FileReader()
         return reader.read(midifile)
 
@@ -37,13 +39,15 @@ else:
 
     def write_midifile(midifile, pattern):
         if type(midifile) is str:
-            midifile = open(midifile, 'wb')
+            with open(midifile, 'wb') as f:
+                return FileWriter().write(f, pattern)
         writer = FileWriter()
         return writer.write(midifile, pattern)
 
     def read_midifile(midifile):
         if type(midifile) is str:
-            midifile = open(midifile, 'rb')
+            with open(midifile, 'rb') as f:
+                return FileReader().read(f)
         reader = FileReader()
         return reader.read(midifile)
 
-- 
2.43.0


From 5e060e4fae8e4a0af2e45810d80b71bd472e3068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 19/80] fix: skip the padding of longer MIDI file headers

---
 gsapi/midiio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 61aa517..9b8a896 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -76,8 +76,9 @@ class FileReader(object):
         resolution = data[3]
         # XXX: the assumption is that any remaining bytes
         # in the header are padding
-        if hdrsz > DEFAULT_MIDI_HEADER_SIZE:
-            midifile.read(hdrsz - DEFAULT_MIDI_HEADER_SIZE)
+        if hdrsz > DEFAULT_MIDI_HEADER_SIZE - 8:
+            # the size does not count the 8 bytes of the chunk type and size
+            midifile.read(hdrsz - (DEFAULT_MIDI_HEADER_SIZE - 8))
         return Pattern(tracks=tracks, resolution=resolution, frmt=frmt)
 
     def parse_track_header(self, midifile):
-- 
2.43.0


From 20c85024380676e700dccdbbe42cf786aadefe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 20/80] fix: the value of a channel after touch event is its
 only data byte

---
 gsapi/midiio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 9b8a896..12c17e4 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -499,10 +499,10 @@ class ChannelAfterTouchEvent(Event):
     name = 'Channel After Touch'
 
     def set_value(self, val):
-        self.data[1] = val
+        self.data[0] = val
 
     def get_value(self):
-        return self.data[1]
+        return self.data[0]
 
     value = property(get_value, set_value)
 
-- 
2.43.0


From f74f0bc65499c68f55153c479a9b6f92f07f1f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 21/80] fix: write the closest tempo instead of drifting one
 microsecond below it

---
 gsapi/midiio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 12c17e4..a7ff139 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -642,7 +642,7 @@ class SetTempoEvent(MetaEvent):
     length = 3
 
     def set_bpm(self, bpm):
-        self.mpqn = int(float(6e7) / bpm)
+        self.mpqn = int(round(float(6e7) / bpm))
 
     def get_bpm(self):
         return float(6e7) / self.mpqn
-- 
2.43.0


From b6c1bbd53fad9d472c2ed689b018220a0c28579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 22/80] fix: encode the text given to a MIDI text event

---
 gsapi/midiio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index a7ff139..7c74348 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -546,6 +546,9 @@ class MetaEventWithText(MetaEvent):
         super(MetaEventWithText, self).__init__(**kw)
         if 'text' not in kw:
             self.text = ''.join(chr(datum) for datum in self.data)
+        elif 'data' not in kw and self.text:
+            text = self.text if isinstance(self.text, str) else self.text.encode('utf-8')
+            self.data = [ord(char) for char in text]
 
     def __repr__(self):
         return self.__baserepr__(['text'])
-- 
2.43.0


From a19d0f6dd3e46a51c4de8f4a42f5d92dc57dfc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 23/80] fix: write times at the closest MIDI tick

---
 gsapi/gsio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index c59698e..194ae83 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -341,8 +341,8 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     pattern.append(track)
     beatToTick = pattern.resolution
     for e in myPattern.events:
-        startTick = int(beatToTick * e.startTime)
-        endTick = int(beatToTick * e.endTime())
+        startTick = int(round(beatToTick * e.startTime))
+        endTick = int(round(beatToTick * e.endTime()))
         # pitch = e.pitch
         channel = 1
         if isinstance(midiMap, tuple):
@@ -355,7 +355,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
         track.append(midiio.NoteOffEvent(tick=endTick, velocity=e.velocity, pitch=pitch, channel=channel))
 
     # and the "End of Track" Event
-    track.append(midiio.EndOfTrackEvent(tick=int(myPattern.duration * beatToTick)))
+    track.append(midiio.EndOfTrackEvent(tick=int(round(myPattern.duration * beatToTick))))
 
     # make tick relatives
     track.sort(key=lambda e: e.tick)
-- 
2.43.0


From 1297eca57d3804c0a7c7de0954e6f286d6d0feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 24/80] fix: export a note starting where the previous one ends
 after the end of that one

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 194ae83..ab8823c 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -340,7 +340,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     # Append the track to the pattern
     pattern.append(track)
     beatToTick = pattern.resolution
-    for e in myPattern.events:
+    for e in sorted(myPattern.events, key=lambda x: x.startTime):
         startTick = int(round(beatToTick * e.startTime))
         endTick = int(round(beatToTick * e.endTime()))
         # pitch = e.pitch
-- 
2.43.0


From e129444e0718b83b62af3e87dd60d4288f5ea8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 25/80] fix: the end of a MIDI track comes after its notes

---
 gsapi/gsio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index ab8823c..c4500bf 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -355,7 +355,8 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
         track.append(midiio.NoteOffEvent(tick=endTick, velocity=e.velocity, pitch=pitch, channel=channel))
 
     # and the "End of Track" Event
-    track.append(midiio.EndOfTrackEvent(tick=int(round(myPattern.duration * beatToTick))))
+    endTick = max([int(round(myPattern.duration * beatToTick))] + [e.tick for e in track])
+    track.append(midiio.EndOfTrackEvent(tick=endTick))
 
     # make tick relatives
     track.sort(key=lambda e: e.tick)
-- 
2.43.0


From ea17b4784d7af7cb346ed1fc8c9f9b8dc6c7c963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 26/80] fix: use the tag to pitch mapping given when exporting
 MIDI

---
 gsapi/gsio.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index c4500bf..455502a 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -8,7 +8,6 @@ various standards formats (MIDI, JSON and Python's pickle).
 from __future__ import absolute_import, division, print_function
 
 import copy
-import collections
 import glob
 import json
 import logging
@@ -345,12 +344,9 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
         endTick = int(round(beatToTick * e.endTime()))
         # pitch = e.pitch
         channel = 1
-        if isinstance(midiMap, tuple):
-            pitch = midiMap[e.tag[0]]
-        elif isinstance(midiMap, collections.Hashable):
-            pitch = midiMap[e.tag]
-        else:
-            pitch = e.pitch
+        pitch = e.pitch
+        if isinstance(midiMap, dict):
+            pitch = midiMap.get(e.tag[0] if e.tag and isinstance(e.tag, tuple) else e.tag, pitch)
         track.append(midiio.NoteOnEvent(tick=startTick, velocity=e.velocity, pitch=pitch, channel=channel))
         track.append(midiio.NoteOffEvent(tick=endTick, velocity=e.velocity, pitch=pitch, channel=channel))
 
-- 
2.43.0


From dc038fc688e511f5d98aeb991dc1039809c2cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 27/80] fix: ignore a note off that comes before any note on

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 455502a..0e88fc6 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -208,7 +208,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                             break
                     if not foundNoteOn:
                         gsioLog.warning(myPattern.name + ": not found note on\n %s\n%s\n%s , %s " %
-                                        (e, myPattern.events[-1], noteTag, curBeat))
+                                        (e, myPattern.events[-1:], noteTag, curBeat))
         trackIdx += 1
     elementSize = 4.0 / myPattern.timeSignature[1]
     barSize = myPattern.timeSignature[0] * elementSize
-- 
2.43.0


From bd7c379a681f6fe3ba9801e8102e8ff9a402dd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 28/80] fix: notes left open in a MIDI file last until its end

---
 gsapi/gsio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 0e88fc6..033c70a 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -214,6 +214,10 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     barSize = myPattern.timeSignature[0] * elementSize
     lastBarPos = math.ceil(lastNoteOff * 1.0 / barSize) * barSize
     myPattern.duration = trackDuration or lastBarPos
+    for e in myPattern.events:
+        if e.duration < 0:
+            # no note off found: the note lasts until the end
+            e.duration = max(0.0001, myPattern.duration - e.startTime)
     if checkForOverlapped:
         myPattern.removeOverlapped(usePitchValues=True)
     return myPattern
-- 
2.43.0


From dcfd875a1122ce70947d1c41ae25f72b3a2b5086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 29/80] fix: leave the mapping given by the caller unchanged

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 033c70a..6f59e58 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -78,7 +78,7 @@ def __metaEventsFromMidiFile(myPattern, midiFile):
 
 
 def __tagFromMidiNote(_noteToTag):
-    noteToTag = copy.copy(_noteToTag)
+    noteToTag = copy.deepcopy(_noteToTag)
     if noteToTag == "pitchName":
         noteToTag = {"pitchName": ""}
     for n in noteToTag:
-- 
2.43.0


From 2fbd3a3541185fc846aa271e47adb067f5dbc2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 30/80] fix: give a tag once to a note that matches several of
 its conditions

---
 gsapi/gsio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 6f59e58..5eb5282 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -103,6 +103,7 @@ def __tagsFromMidiNoteAndChannel(pitch, channel, noteMapping):
         for le in noteMapping[l]:
             if (le[0] in {"*", pitch}) and (le[1] in {"*", channel}):
                 res += (l,)
+                break
     if len(res) == 1:
         return res[0]
     return res
-- 
2.43.0


From b955e64de69c2dd873f5551e858cd1849a25e052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 31/80] fix: tag the notes of a MIDI track from the name of the
 track

---
 gsapi/gsio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 5eb5282..d0f68c4 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -113,7 +113,9 @@ def __tagFromTrackName(name, noteMapping):
     res = tuple()
     for l in noteMapping:
         if l in name:
-            res += [l]
+            res += (l,)
+    if len(res) == 1:
+        return res[0]
     return res
 
 
@@ -144,6 +146,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     trackDuration = None
     for tracks in globalMidi:
         shouldSkipTrack = False
+        noteTag = ()
         for e in tracks:
             if shouldSkipTrack:
                 continue
@@ -226,7 +229,6 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
 
 def fromMidiFile(midiFile, noteToTagMap="pitchName", tracksToGet=None, tagFromTrackName=False,
                  filterOutNotMapped=True, checkForOverlapped=False):
-    # TODO: tagFromTrackName=True returns an eventless pattern!
     """
     Loads a MIDI file as a pattern.
 
-- 
2.43.0


From c9ae67cf9d9fbf574191c01bba138515c8cf7a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 32/80] fix: leave out the unnamed tracks that are not among
 the tracks to get

---
 gsapi/gsio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index d0f68c4..ff5e2a8 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -145,7 +145,11 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     trackIdx = 0
     trackDuration = None
     for tracks in globalMidi:
-        shouldSkipTrack = False
+        # a wanted track is given by its index or by its name, which it may lack
+        shouldSkipTrack = bool(tracksToGet) and trackIdx not in tracksToGet
+        if shouldSkipTrack:
+            shouldSkipTrack = not any(e.text in tracksToGet for e in tracks
+                                      if isinstance(e, midiio.TrackNameEvent))
         noteTag = ()
         for e in tracks:
             if shouldSkipTrack:
-- 
2.43.0


From 26dc87110acd7b24496b244c75d9ab6360fb2b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 33/80] fix: loading a MIDI collection works by default and
 reads only the tracks asked for

---
 gsapi/gsio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index ff5e2a8..e02245a 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -275,7 +275,7 @@ def fromMidiFile(midiFile, noteToTagMap="pitchName", tracksToGet=None, tagFromTr
                             checkForOverlapped=checkForOverlapped)
 
 
-def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, tracksToGet=None,
+def fromMidiCollection(midiGlobPath, noteToTagMap="pitchName", tracksToGet=None,
                        tagFromTrackName=False, filterOutNotMapped=True, desiredLength=0):
     """
     Loads a collection of MIDI Files
@@ -306,7 +306,8 @@ def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, trac
     for f in glob.glob(midiGlobPath):
         name = os.path.splitext(os.path.basename(f))[0]
         gsioLog.info("getting " + name)
-        p = fromMidiFile(f, _noteToTagMap, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
+        p = fromMidiFile(f, _noteToTagMap, tracksToGet=tracksToGet, tagFromTrackName=tagFromTrackName,
+                         filterOutNotMapped=filterOutNotMapped)
         if desiredLength > 0:
             res += p.splitInEqualLengthPatterns(desiredLength, makeCopy=False)
         else:
-- 
2.43.0


From 81c32d4d4128000c1da19c5868ed1bc69254bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 34/80] fix: logging error when a MIDI file has an unknown meta
 event

---
 gsapi/midiio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 7c74348..ed3df3c 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -110,7 +110,7 @@ class FileReader(object):
         if MetaEvent.is_event(stsmsg):
             cmd = ord(trackdata.next())
             if cmd not in EventRegistry.MetaEvents:
-                midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd), Warning)
+                midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd))
                 cls = UnknownMetaEvent
             else:
                 cls = EventRegistry.MetaEvents[cmd]
-- 
2.43.0


From 14b3e5f4370c75354d62b42408b469105da29b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 35/80] fix: NameError when generating a pattern from a Markov
 style

---
 gsapi/gsstyles.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index e9b32d2..211ba0d 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -4,8 +4,7 @@ import copy
 import logging
 import random
 
-from .gspattern import Pattern
-
+from .gspattern import Event, Pattern
 markovLog = logging.getLogger('gsapi.styles.markov_style')
 # todo change this to fit the new reorganisation!
 
@@ -460,7 +459,7 @@ class PatternMarkov(object):
                     markovLog.warning(
                             "not found combination %s " % (','.join(newPast)))
 
-        pattern = gspattern.Pattern()
+        pattern = Pattern()
         idx = 0
 
         stepSize = 1.0 * self.loopDuration / self.numSteps
@@ -469,8 +468,8 @@ class PatternMarkov(object):
             for tagElem in el:
                 if tagElem != 'silence':
                     pattern.events += [
-                        gspattern.Event(idx * stepSize, stepSize, 100, 127,
-                                        tag=tagElem)]
+                        Event(idx * stepSize, stepSize, 100, 127,
+                              tag=tagElem)]
 
             idx += 1
         pattern.duration = self.loopDuration
-- 
2.43.0


From bbc34103cdcb467b57961413a3ba81d8b3051713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 36/80] fix: Markov generation can choose every observed
 continuation, with its frequency

---
 gsapi/gsstyles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 211ba0d..9cdf023 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -420,9 +420,9 @@ class PatternMarkov(object):
                     bins += [tSum]
                 r = random.random()
                 for i in range(1, len(bins)):
-                    if bins[i - 1] <= r and bins[i] > r:
-                        chosenIdx = i - 1
-                        break
+                    # the last one takes what rounding leaves below 1
+                    if bins[i - 1] <= r:
+                        chosenIdx = i
 
             return list(d.keys())[chosenIdx]
 
-- 
2.43.0


From fb52c0ef425e5259f865130b2682ede596cb72d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 37/80] fix: Markov generation does not give up when valid
 starts are rare

---
 gsapi/gsstyles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 9cdf023..47cf201 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -435,7 +435,8 @@ class PatternMarkov(object):
                 startHypothesis += (random.choice(_getAvailableAtStep(n)),)
             maxNumtries -= 1
             if maxNumtries == 0:
-                raise Exception("Can't find start hypothesis in markov")
+                # what was observed before this step is a valid start
+                startHypothesis = random.choice(list(self.transitionTable[cIdx].keys()))
 
         events = list(startHypothesis)
         i = self.order
-- 
2.43.0


From 2372dabe174b88de41dc1ef5670ca4ee87140af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 38/80] fix: the same tags at a step are the same Markov state
 in whatever order they come

---
 gsapi/gsstyles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 47cf201..d9986f7 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -498,8 +498,8 @@ class PatternMarkov(object):
             for e in evAtStep:
                 curL += [e.tag]
 
-            # set allow for having consistent ordering, and remove step-wise overlapping events
-            res += (tuple(set(curL)),)
+            # sort to have consistent ordering, set to remove step-wise overlapping events
+            res += (tuple(sorted(set(curL), key=lambda t: "%s" % (t,))),)
         return res
 
     def formatPattern(self, p):
-- 
2.43.0


From 1a4bb7d7981545242a49858c689c60adb7069565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 39/80] fix: save styles to pickle files, load them back and
 tell whether they are built

---
 gsapi/gsstyles.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index d9986f7..9c5778a 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -104,7 +104,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        pickle.dump(self, filePath)
+        with open(filePath, 'wb') as f:
+            pickle.dump(self, f)
 
     def loadFromPickle(self, filePath):
         import sys
@@ -112,7 +113,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        self = pickle.load(filePath)
+        with open(filePath, 'rb') as f:
+            self.__dict__.update(pickle.load(f).__dict__)
 
 
 class DatabaseStyle(BaseStyle):
@@ -168,7 +170,7 @@ class DatabaseStyle(BaseStyle):
             self.patternList += [p]
 
     def isBuilt(self):
-        self.patternList != []
+        return self.patternList != []
 
 
 class MarkovStyle(BaseStyle):
-- 
2.43.0


From 1153353576da97d9a137164d51a4ff658db1c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 40/80] fix: save Markov styles to JSON

---
 gsapi/gsstyles.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 9c5778a..b64cf1b 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -525,7 +525,9 @@ class PatternMarkov(object):
     def getInternalState(self):
         """utility function to save current state
         """
-        res = {"transitionTable": self.transitionTable, "order": self.order,
+        # pairs, as JSON can not have tuples as keys
+        table = [[[past, list(d.items())] for past, d in t.items()] for t in self.transitionTable]
+        res = {"transitionTable": table, "order": self.order,
                "numSteps":        self.numSteps,
                "loopDuration":    self.loopDuration}
         return res
@@ -534,7 +536,11 @@ class PatternMarkov(object):
         """
         Utility function to load the current state.
         """
-        self.transitionTable = state["transitionTable"]
+        def _toTuples(x):
+            return tuple(_toTuples(e) for e in x) if isinstance(x, (list, tuple)) else x
+
+        self.transitionTable = [{_toTuples(past): {_toTuples(event): p for event, p in d} for past, d in t}
+                                for t in state["transitionTable"]] or {}
         self.order = state["order"]
         self.numSteps = state["numSteps"]
         self.loopDuration = state["loopDuration"]
-- 
2.43.0


From 38d1d4e271262036fcec29df52e2555af687d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 41/80] fix: agnostic density reaches the requested density
 from any previous one

---
 gsapi/gstransformers.py | 112 ++++++++++++----------------------------
 1 file changed, 33 insertions(+), 79 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 484e9df..eca4418 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -103,96 +103,50 @@ class AgnosticDensity(BaseTransformer):
     def updateNormalizedDensities(self, normalizedDict):
         for key, value in normalizedDict.items():
             if key in self.normalizedDensities:
-                originDensity = self.normalizedDensities[key]
-                # if we cross density one, reset to one then do the subsequent calculations
-                if (value < 1 < originDensity) or (value > 1 > originDensity):
-                    # print "reset densities"
-                    self.resetDensities()
-
-                diffNormalized = value - self.normalizedDensities[key]
-                if diffNormalized == 0:
-                    continue
-
-                # here we are sure to not need to crossdensity one (and have to do both increment styles)
-                if originDensity >= 1 and value >= 1:
-                    step = 1.0 / (self.numSteps - self.originDensities[key])
-                    number = originDensity
-                    value = max(1, min(value, 2)) - step
-                    if diffNormalized > step:
-
-                        while number < value:
-                            self.addEventForTag(key, number)
-                            number += step
-                    if diffNormalized < -step:
-                        while number > value:
-                            self.removeEventForTag(key, number)
-                            number -= step
-                    self.normalizedDensities[key] = 1.0 + int((value - 1.0) / step) * 1.0 * step
-
-                if originDensity <= 1 and value < 1:
-                    step = 1.0 / (self.originDensities[key])
-                    number = originDensity
-                    value = max(0, min(value, 1)) + step
-                    if diffNormalized > step:
-                        while number < value:
-                            self.addEventForTag(key, number)
-                            number += step
-                    if diffNormalized < -step:
-                        while number > value:
-                            self.removeEventForTag(key, number)
-                            number -= step
-                    self.normalizedDensities[key] = int(value / step) * 1.0 * step
+                value = max(0, min(value, 2))
+                state = self.currentState[key]
+                # below one, notes of the origin pattern are removed,
+                # above one, all are there and silences are filled
+                origin = len(state['notes']) + len(state['removedNotes'])
+                free = len(state['silences']) + len(state['addedNotes'])
+                removed = origin - int(round(min(value, 1) * origin))
+                added = int(round((max(value, 1) - 1) * free))
+                while len(state['addedNotes']) > added or len(state['removedNotes']) < removed:
+                    self.removeEventForTag(key)
+                while len(state['addedNotes']) < added or len(state['removedNotes']) > removed:
+                    self.addEventForTag(key)
+                self.normalizedDensities[key] = value
         self.currentPattern.reorderEvents()
 
-    def addEventForTag(self, tag, targetDensity):
-
-        availableIdx = self.currentState[tag]['silences']
-        # we need to go toward origin pattern if adding while having lower density
-        if targetDensity < 1:
-            availableIdx = self.currentState[tag]['removedNotes']
-
+    def _moveStep(self, tag, source, target):
+        availableIdx = self.currentState[tag][source]
         idx = 0
         if self.mode == 'hysteresis':
             idx = random.randint(0, len(availableIdx) - 1)
+        step = availableIdx.pop(idx)
+        self.currentState[tag][target] += [step]
+        return step
 
-        idxToAdd = availableIdx[idx]
-
-        orIdx = self.currentState[tag]['silences'].index(idxToAdd)
-        del self.currentState[tag]['silences'][orIdx]
-        if targetDensity < 1:
-            del self.currentState[tag]['removedNotes'][idx]
-
-        self.currentState[tag]['addedNotes'] += [idxToAdd]
-        tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
-        newEv = tPattern.events[0].copy()
+    def addEventForTag(self, tag):
+        # we need to go toward origin pattern if adding while having lower density
+        if self.currentState[tag]['removedNotes']:
+            idxToAdd = self._moveStep(tag, 'removedNotes', 'notes')
+        else:
+            idxToAdd = self._moveStep(tag, 'silences', 'addedNotes')
+        voice = self.originPattern.getPatternWithTags(tag, makeCopy=False)
+        newEv = (voice.getStartingEventsAtTime(idxToAdd) or voice.events)[0].copy()
         newEv.startTime = idxToAdd
         newEv.duration = 1
         self.currentPattern.events += [newEv]
 
-    def removeEventForTag(self, tag, targetDensity):
-
-        availableIdx = self.currentState[tag]['notes']
-
+    def removeEventForTag(self, tag):
         # we need to go toward origin pattern if removing while having higher density
-        if targetDensity > 1:
-            availableIdx = self.currentState[tag]['addedNotes']
-
-        idx = 0
-        if self.mode == 'hysteresis':
-            idx = random.randint(0, len(availableIdx) - 1)
-
-        idxToRemove = availableIdx[idx]
-
-        orIdx = self.currentState[tag]['notes'].index(idxToRemove)
-        del self.currentState[tag]['notes'][orIdx]
-        if targetDensity > 1:
-            del self.currentState[tag]['addedNotes'][idx]
-
-        self.currentState[tag]['removedNotes'] += [idxToRemove]
-        tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
-
-        eventToRemove = tPattern.getStartingEventsAtTime(idxToRemove)[0]
-        self.currentPattern.removeEvent(eventToRemove)
+        if self.currentState[tag]['addedNotes']:
+            idxToRemove = self._moveStep(tag, 'addedNotes', 'silences')
+        else:
+            idxToRemove = self._moveStep(tag, 'notes', 'removedNotes')
+        voice = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
+        self.currentPattern.removeEvent(voice.getStartingEventsAtTime(idxToRemove)[0])
 
     def createCurrentState(self):
         self.currentState = {}
-- 
2.43.0


From 390ce97d12e134c794e6fdef05c4f081e6333090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 42/80] fix: Chordify collects the tags of the events of each
 chord

---
 gsapi/gstransformers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index eca4418..8e0baa4 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -254,8 +254,7 @@ class Chordify(BaseTransformer):
                 new_chord = EventChord(startTime=e.startTime, duration=e.duration, components=[], tag=())
                 for ee in self.inputPattern.activeEventsAtTime(e.startTime):
                     new_chord.components.append([ee.pitch, ee.velocity])
-                    for tag in ee.tag:
-                        new_chord.tag.append(tag)
+                    new_chord.tag += ee.tag if isinstance(ee.tag, tuple) else (ee.tag,)
                 self.outputPattern.addEvent(new_chord)
             p = e.startTime
         return self.outputPattern
-- 
2.43.0


From 43c635d524418256a0dc7b5e0d0d48b814a881f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 43/80] fix: normalizing a bass model keeps its counts, so that
 more can be learnt

---
 gsapi/bassmine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index ccd7c0a..81c69b6 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -22,6 +22,7 @@ def normalize(a):
     Returns:
         a: normalized matrix
     """
+    a = np.array(a, dtype=float)
     c = 0
     for row in a:
         factor = sum(row)
-- 
2.43.0


From 11d30f8958a259cbeaf3679e1acc24633590f632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 44/80] fix: learn the transition to the last beat of a bass
 line

---
 gsapi/bassmine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 81c69b6..b8d4783 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -126,10 +126,10 @@ class MarkovModel:
         for p in pattern:
             if count == 0:
                 self.update_initial(p)
-            elif 0 < count < len(pattern) - 1:
+            else:
                 self.update_temporal(pattern[count - 1], p)
-            elif count == len(pattern) - 1:
-                self.update_temporal(pattern[count], pattern[0])
+                if count == len(pattern) - 1:
+                    self.update_temporal(p, pattern[0])
             count += 1
 
     def add_interlocking(self, patt_kick, patt_bass):
-- 
2.43.0


From 3e1227e1eeb509727f3d83b6af7de2eb72c92d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 45/80] fix: binarize patterns with a float duration

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index b8d4783..4ea6470 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -927,7 +927,7 @@ def binaryBeatPattern(aPattern, noBeats_bass, resolution=4):
     subdiv_aux = np.array([0., 0.25, 0.5, 0.75])
     # Matrix to store the binary representation of the midi files
     # Basslines -> 1 matrix
-    rhythm = np.zeros((noBeats_bass, resolution), dtype=int)
+    rhythm = np.zeros((int(np.ceil(noBeats_bass)), resolution), dtype=int)
 
     for o in aPattern:
         # quantize to the closest subdivision
-- 
2.43.0


From c16c9752ff073ce5a3ae8a1f9547a14af3b47c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 46/80] fix: constrained bass models keep only states that can
 be continued to the end

---
 gsapi/bassmine.py | 80 +++++++++++++----------------------------------
 1 file changed, 22 insertions(+), 58 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 4ea6470..87923c4 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -281,6 +281,22 @@ class MarkovModel:
         return pitch_dict
 
 
+def _keepArcConsistent(V):
+    """
+    Internal function removing, from the last step to the first, the states
+    without continuation and the continuations that lead to them.
+
+    Args:
+        V: list of dictionaries {state: set of continuations}, one for each step
+    """
+    allowed = None
+    for step in reversed(range(len(V))):
+        if allowed is not None:
+            V[step] = {key: value.intersection(allowed) for key, value in V[step].items()}
+        V[step] = {key: value for key, value in V[step].items() if len(value) > 0}
+        allowed = set([str(key) for key in V[step]])
+
+
 def constrainMM(markov_model, target, _path="output/"):
     """
 
@@ -363,32 +379,7 @@ def constrainMM(markov_model, target, _path="output/"):
                 # print( "check\n")
                 # print( "V", step, V[step].keys())
 
-    ## Delete values from each key in V[i] that are not in V[i+1]
-    val_del = dict()
-    ## Font-propagation
-    for step in range(1, len(target) - 1):
-        val_del_temp = []
-        next_key = set([str(x) for x in V[step].keys()])
-        # print( next_key)
-        for key, value in V[step - 1].items():
-            # print( key, value)
-            tmp_int = value.intersection(next_key)
-            # if len(tmp_int) > 0:
-            V[step - 1][key] = tmp_int
-            if len(tmp_int) == 0:
-                val_del_temp.append(key)
-        val_del[step] = val_del_temp
-    #  print( val_del)
-    #  Back-propagation
-    for step, value in val_del.items():
-        if len(value) > 0:
-            for v in value:
-                ## Delete key
-                V[step - 1].pop(v, None)
-            #  Delete in previous continuations
-            # print( V[step-2])
-            for idx in V[step - 2].keys():
-                V[step - 2][idx] = set([str(x) for x in V[step - 1].keys()]).intersection(V[step - 2][idx])
+    _keepArcConsistent(V)
     # BUILD FINAL DICTIONARY
     # print( "\nFinal Model:")
     out_Model = {}
@@ -504,41 +495,14 @@ def variationMM(markov_model, target, _path="output/"):
     # print( V)
 
 
-    ## Delete values from each key in V[i] that are not in V[i+1]
-    val_del = dict()
-    ## Font-propagation
-    for step in range(1, len(target) - 1):
-        val_del_temp = []
-        next_key = set([str(x) for x in V[step].keys()])
-        # print( next_key)
-        for key, value in V[step - 1].items():
-            # print( key, value)
-            tmp_int = value.intersection(next_key)
-            # if len(tmp_int) > 0:
-            V[step - 1][key] = tmp_int
-            if len(tmp_int) == 0:
-                val_del_temp.append(key)
-        val_del[step] = val_del_temp
-    # print( val_del)
-    ## Back-propagation
-    for step, value in val_del.items():
-        if len(value) > 0:
-            for v in value:
-                ## Delete key
-                V[step - 1].pop(v, None)
-            ## Delete in previous continuations
-            # print( V[step-2])
-            for idx in V[step - 2].keys():
-                V[step - 2][idx] = set([str(x) for x in V[step - 1].keys()]).intersection(V[step - 2][idx])
+    if target[-1] >= 0:  # Last beat don't vary
+        for key, val in V[-1].items():
+            V[-1][key] = val.intersection({str(target[-1])})
+
+    _keepArcConsistent(V)
     # BUILD FINAL DICTIONARY
     # print( "\nFinal Model:")
 
-    for key, val in V[len(V) - 1].items():
-        tmp_val = val.intersection({str(target[len(target) - 1])})
-        # print( tmp_val)
-        if len(tmp_val) > 0:
-            V[len(V) - 1][key] = tmp_val
-
     # for value in V:
     #	print( value)
     #	print( "\n")
-- 
2.43.0


From 835294d2640cb09d14351353447a749066ae3173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 47/80] fix: constrained bass models leave out transitions that
 were never learnt

---
 gsapi/bassmine.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 87923c4..37d39c0 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -356,7 +356,7 @@ def constrainMM(markov_model, target, _path="output/"):
         #	print( "Kick constrain", target_setlist[1])
         #	print( "Intersection", Dom_B[int(f)].intersection(target_setlist[1]))
 
-        if len(Dom_B[int(f)].intersection(target_setlist[1])) > 0:
+        if len(Dom_B.get(int(f), set()).intersection(target_setlist[1])) > 0:
             V[0][int(f)] = Dom_B[int(f)].intersection(target_setlist[1])
             tmp.append(f)
     # print( "\n\n")
@@ -374,7 +374,7 @@ def constrainMM(markov_model, target, _path="output/"):
         # print( "Kick constr", list(target_setlist[step]))
         # for each value in V[step] keep continuations that match interlocking with step+1
         for t in target_setlist[step]:
-            if len(Dom_B[int(t)].intersection(target_setlist[step + 1])):
+            if len(Dom_B.get(int(t), set()).intersection(target_setlist[step + 1])):
                 V[step][int(t)] = Dom_B[int(t)].intersection(target_setlist[step + 1])
                 # print( "check\n")
                 # print( "V", step, V[step].keys())
@@ -460,9 +460,9 @@ def variationMM(markov_model, target, _path="output/"):
     V.append(dict())
 
     if target[1] >= 0:
-        V[0][target[0]] = {str(target[1])}
+        V[0][target[0]] = Dom_B.get(target[0], set()).intersection({str(target[1])})
     else:
-        V[0][target[0]] = Dom_B[target[0]]
+        V[0][target[0]] = Dom_B.get(target[0], set())
 
     for i in range(1, len(target) - 1):
 
@@ -475,7 +475,7 @@ def variationMM(markov_model, target, _path="output/"):
                 # store keys that match target[i]
                 tmp_key = value.intersection({str(target[i])})
                 if len(tmp_key) > 0:
-                    V[i][int(list(tmp_key)[0])] = Dom_B[int(list(tmp_key)[0])]
+                    V[i][int(list(tmp_key)[0])] = Dom_B.get(int(list(tmp_key)[0]), set())
                     # V[i][target[i-1]] = set([str(target[i])])
 
         else:  # Current beat varies
@@ -484,7 +484,7 @@ def variationMM(markov_model, target, _path="output/"):
             for key, value in V[i - 1].items():
 
                 for v in value:
-                    V[i][int(v)] = Dom_B[int(v)]
+                    V[i][int(v)] = Dom_B.get(int(v), set())
 
                     # print( "h")
 
-- 
2.43.0


From eb2cd662f90c57bc75c64a5dd96f4e522d8dda13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 48/80] fix: write the initial states of a constrained bass
 model as a list

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 37d39c0..4a50387 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -389,7 +389,7 @@ def constrainMM(markov_model, target, _path="output/"):
         init.append(b0[key])
     init_dict['initial'] = dict()
     init_dict['initial']['prob'] = list(init / sum(init))
-    init_dict['initial']['pattern'] = V[0].keys()
+    init_dict['initial']['pattern'] = list(V[0].keys())
     # print( init_dict)
     for i in range(len(V)):
         out_Model[i] = {}
-- 
2.43.0


From 004fbe23f8e005b25641c10f904f6d85ffd92010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 49/80] fix: limit a constrained bass line to the beats of its
 target, not to its number of events

---
 gsapi/bassmine.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 4a50387..442978a 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -652,8 +652,7 @@ def generateBassRhythm(markov_model, beat_length=8, target=[]):
 
     else:  # use constrained model
 
-        if len(target) < beat_length:
-            beat_length = len(target)
+        beat_length = min(beat_length, int(np.ceil(target.duration)))
 
         NHMM = constrainMM(markov_model, target)
         pattern_idx.append(np.random.choice(NHMM[0]['initial']['pattern'], p=NHMM[0]['initial']['prob']))
-- 
2.43.0


From 7a6a883e95e1cd772890f637eda62d0a050b83a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 50/80] fix: bass line variations keep their last beat and can
 vary empty beats

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 442978a..e4dfc58 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -740,7 +740,7 @@ def generateBassRhythmVariation(markov_model, target_pattern, variation_mask):
         target_rhythm = binaryBeatPattern(onset_target, target_pattern.duration)
         target_id = translate_rhythm(target_rhythm)
         # Mask formatted pattern
-        masked_target = [target_id[i] * variation_mask[i] for i in range(len(variation_mask) - 1)]
+        masked_target = [target_id[i] if variation_mask[i] > 0 else -1 for i in range(len(target_id))]
 
         # Build variation model
         NHMM = variationMM(markov_model, masked_target)
-- 
2.43.0


From b68d892b531ff04c8f0af51c8b2caaff326cc898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:39 +0000
Subject: [PATCH 51/80] fix: beat pattern ids are plain integers, as JSON keys
 need

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index e4dfc58..5f5392f 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -864,7 +864,7 @@ def translate_rhythm(rhythm):
     iddic = []
 
     for beat in rhythm:
-        iddic.append((beat[0] * 8) + (beat[1] * 4) + (beat[2] * 2) + beat[3])
+        iddic.append(int((beat[0] * 8) + (beat[1] * 4) + (beat[2] * 2) + beat[3]))
     return iddic
 
 
-- 
2.43.0


From bf22960f576ff42b3528220e57afafbf97f14459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 52/80] fix: read and write MIDI files under Python 3

---
 gsapi/gsio.py   |  2 +-
 gsapi/midiio.py | 82 ++++++++++++++++++++++++++-----------------------
 2 files changed, 44 insertions(+), 40 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index e02245a..80b4133 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -32,7 +32,7 @@ def __keyToMidiFormat(keyString):
     if 'm' in keyString:
         keyString = keyString[:-1]
         mode = 1
-    tonic = gsdefs.midiKey.keys()[gsdefs.midiKey.values().index(keyString)]
+    tonic = list(gsdefs.midiKey.keys())[list(gsdefs.midiKey.values()).index(keyString)]
     return tonic, mode
 
 
diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index ed3df3c..65aaec2 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -62,8 +62,8 @@ class FileReader(object):
     def parse_file_header(self, midifile):
         # First four bytes are MIDI header
         magic = midifile.read(4)
-        if magic != 'MThd':
-            raise(TypeError, "Bad header in MIDI file.")
+        if magic != b'MThd':
+            raise TypeError("Bad header in MIDI file.")
         # next four bytes are header size
         # next two bytes specify the format version
         # next two bytes specify the number of tracks
@@ -84,8 +84,8 @@ class FileReader(object):
     def parse_track_header(self, midifile):
         # First four bytes are Track header
         magic = midifile.read(4)
-        if magic != 'MTrk':
-            raise(TypeError, "Bad track header in MIDI file: " + magic)
+        if magic != b'MTrk':
+            raise TypeError("Bad track header in MIDI file: %r" % magic)
         # next four bytes are track size
         trksz = unpack(">L", midifile.read(4))[0]
         return trksz
@@ -93,7 +93,7 @@ class FileReader(object):
     def parse_track(self, midifile, track):
         self.RunningStatus = None
         trksz = self.parse_track_header(midifile)
-        trackdata = iter(midifile.read(trksz))
+        trackdata = iter(bytearray(midifile.read(trksz)))
         while True:
             try:
                 event = self.parse_midi_event(trackdata)
@@ -105,23 +105,23 @@ class FileReader(object):
         # first datum is varlen representing delta-time
         tick = read_varlen(trackdata)
         # next byte is status message
-        stsmsg = ord(trackdata.next())
+        stsmsg = next(trackdata)
         # is the event a MetaEvent?
         if MetaEvent.is_event(stsmsg):
-            cmd = ord(trackdata.next())
+            cmd = next(trackdata)
             if cmd not in EventRegistry.MetaEvents:
                 midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd))
                 cls = UnknownMetaEvent
             else:
                 cls = EventRegistry.MetaEvents[cmd]
             datalen = read_varlen(trackdata)
-            data = [ord(trackdata.next()) for x in range(datalen)]
+            data = [next(trackdata) for x in range(datalen)]
             return cls(tick=tick, data=data, metacommand=cmd)
         # is this event a Sysex Event?
         elif SysexEvent.is_event(stsmsg):
             data = []
             while True:
-                datum = ord(trackdata.next())
+                datum = next(trackdata)
                 if datum == 0xF7:
                     break
                 data.append(datum)
@@ -136,13 +136,13 @@ class FileReader(object):
                 cls = EventRegistry.Events[key]
                 channel = self.RunningStatus & 0x0F
                 data.append(stsmsg)
-                data += [ord(trackdata.next()) for x in range(cls.length - 1)]
+                data += [next(trackdata) for x in range(cls.length - 1)]
                 return cls(tick=tick, channel=channel, data=data)
             else:
                 self.RunningStatus = stsmsg
                 cls = EventRegistry.Events[key]
                 channel = self.RunningStatus & 0x0F
-                data = [ord(trackdata.next()) for x in range(cls.length)]
+                data = [next(trackdata) for x in range(cls.length)]
                 return cls(tick=tick, channel=channel, data=data)
         # raise(Warning, "Unknown MIDI Event: " + repr(stsmsg))
 
@@ -159,42 +159,41 @@ class FileWriter(object):
                         pattern.frmt,
                         len(pattern),
                         pattern.resolution)
-        midifile.write('MThd%s' % packdata)
+        midifile.write(b'MThd' + packdata)
 
     def write_track(self, midifile, track):
-        buf = ''
+        buf = bytearray()
         self.RunningStatus = None
         for event in track:
             buf += self.encode_midi_event(event)
-        buf = self.encode_track_header(len(buf)) + buf
-        midifile.write(buf)
+        midifile.write(self.encode_track_header(len(buf)) + bytes(buf))
 
     def encode_track_header(self, trklen):
-        return 'MTrk%s' % pack(">L", trklen)
+        return b'MTrk' + pack(">L", trklen)
 
     def encode_midi_event(self, event):
-        ret = ''
+        ret = bytearray()
         ret += write_varlen(event.tick)
         # is the event a MetaEvent?
         if isinstance(event, MetaEvent):
-            ret += chr(event.statusmsg) + chr(event.metacommand)
+            ret += bytearray([event.statusmsg, event.metacommand])
             ret += write_varlen(len(event.data))
-            ret += str.join('', map(chr, event.data))
+            ret += bytearray(event.data)
         # is this event a Sysex Event?
         elif isinstance(event, SysexEvent):
-            ret += chr(0xF0)
-            ret += str.join('', map(chr, event.data))
-            ret += chr(0xF7)
+            ret.append(0xF0)
+            ret += bytearray(event.data)
+            ret.append(0xF7)
         # not a Meta MIDI event or a Sysex event, must be a general message
         elif isinstance(event, Event):
             if not self.RunningStatus or \
                             self.RunningStatus.statusmsg != event.statusmsg or \
                             self.RunningStatus.channel != event.channel:
                 self.RunningStatus = event
-                ret += chr(event.statusmsg | event.channel)
-            ret += str.join('', map(chr, event.data))
+                ret.append(event.statusmsg | event.channel)
+            ret += bytearray(event.data)
         else:
-            raise(ValueError, "Unknown MIDI Event: " + str(event))
+            raise ValueError("Unknown MIDI Event: " + str(event))
         return ret
 
 
@@ -229,7 +228,7 @@ class Pattern(list):
             indices = item.indices(len(self))
             return Pattern(resolution=self.resolution, frmt=self.frmt,
                            tracks=(super(Pattern, self).__getitem__(i) for i in
-                                   xrange(*indices)))
+                                   range(*indices)))
         else:
             return super(Pattern, self).__getitem__(item)
 
@@ -264,7 +263,7 @@ class Track(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Track((super(Track, self).__getitem__(i) for i in
-                          xrange(*indices)))
+                          range(*indices)))
         else:
             return super(Track, self).__getitem__(item)
 
@@ -302,18 +301,23 @@ class EventRegistry(object):
     register_event = classmethod(register_event)
 
 
-class AbstractEvent(object):
+class EventRegistration(type):
+    def __init__(cls, name, bases, dict):
+        if name not in ['EventBase', 'AbstractEvent', 'Event', 'MetaEvent', 'NoteEvent',
+                        'MetaEventWithText']:
+            EventRegistry.register_event(cls, bases)
+
+
+# called, as Python 2 and Python 3 do not declare metaclasses in the same way
+EventBase = EventRegistration('EventBase', (object,), {})
+
+
+class AbstractEvent(EventBase):
     # __slots__ = ['tick', 'data']
     name = "Generic MIDI Event"
     length = 0
     statusmsg = 0x0
 
-    class __metaclass__(type):
-        def __init__(cls, name, bases, dict):
-            if name not in ['AbstractEvent', 'Event', 'MetaEvent', 'NoteEvent',
-                            'MetaEventWithText']:
-                EventRegistry.register_event(cls, bases)
-
     def __init__(self, **kw):
         if type(self.length) == int:
             defdata = [0] * self.length
@@ -742,7 +746,7 @@ def read_varlen(data):
     NEXTBYTE = 1
     value = 0
     while NEXTBYTE:
-        char = ord(data.next())
+        char = next(data)
         # is the hi-bit set?
         if not (char & 0x80):
             # no next BYTE
@@ -757,16 +761,16 @@ def read_varlen(data):
 
 
 def write_varlen(value):
-    chr1 = chr(value & 0x7F)
+    chr1 = bytearray([value & 0x7F])
     value >>= 7
     if value:
-        chr2 = chr((value & 0x7F) | 0x80)
+        chr2 = bytearray([(value & 0x7F) | 0x80])
         value >>= 7
         if value:
-            chr3 = chr((value & 0x7F) | 0x80)
+            chr3 = bytearray([(value & 0x7F) | 0x80])
             value >>= 7
             if value:
-                chr4 = chr((value & 0x7F) | 0x80)
+                chr4 = bytearray([(value & 0x7F) | 0x80])
                 res = chr4 + chr3 + chr2 + chr1
             else:
                 res = chr3 + chr2 + chr1
-- 
2.43.0


From f116109e3a79da64aacb2e98d28f1454ff84877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 53/80] fix: a note that was ended is not ended again by a
 stray note off, however short it is

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 80b4133..e41bd65 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -208,7 +208,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                     isTrueNoteOff = midiio.NoteOffEvent.is_event(e.statusmsg)
                     for i in reversed(myPattern.events):
                         if (i.pitch == pitch) and (i.tag == noteTag) and ((isTrueNoteOff and (curBeat >= i.startTime))
-                                                                    or curBeat > i.startTime) and i.duration <= 0.0001:
+                                                                    or curBeat > i.startTime) and i.duration < 0:
                             foundNoteOn = True
                             i.duration = max(0.0001, curBeat - i.startTime)
                             lastNoteOff = max(curBeat, lastNoteOff)
-- 
2.43.0


From 3016e62849b2ee8aad1620b56365e510b309af0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 54/80] fix: repeat the status of MIDI channel messages after
 meta and system exclusive messages

---
 gsapi/midiio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 65aaec2..ff2cd7d 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -176,11 +176,14 @@ class FileWriter(object):
         ret += write_varlen(event.tick)
         # is the event a MetaEvent?
         if isinstance(event, MetaEvent):
+            # meta and system exclusive messages end the running status
+            self.RunningStatus = None
             ret += bytearray([event.statusmsg, event.metacommand])
             ret += write_varlen(len(event.data))
             ret += bytearray(event.data)
         # is this event a Sysex Event?
         elif isinstance(event, SysexEvent):
+            self.RunningStatus = None
             ret.append(0xF0)
             ret += bytearray(event.data)
             ret.append(0xF7)
-- 
2.43.0


From cc96834110fd58eb32146bc1366c9364fe633526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 55/80] fix: write and read the length of MIDI system exclusive
 messages

---
 gsapi/midiio.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index ff2cd7d..4e904ee 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -119,12 +119,11 @@ class FileReader(object):
             return cls(tick=tick, data=data, metacommand=cmd)
         # is this event a Sysex Event?
         elif SysexEvent.is_event(stsmsg):
-            data = []
-            while True:
-                datum = next(trackdata)
-                if datum == 0xF7:
-                    break
-                data.append(datum)
+            datalen = read_varlen(trackdata)
+            data = [next(trackdata) for x in range(datalen)]
+            # the length counts the end mark
+            if data and data[-1] == 0xF7:
+                data.pop()
             return SysexEvent(tick=tick, data=data)
         # not a Meta MIDI event or a Sysex event, must be a general message
         else:
@@ -185,6 +184,7 @@ class FileWriter(object):
         elif isinstance(event, SysexEvent):
             self.RunningStatus = None
             ret.append(0xF0)
+            ret += write_varlen(len(event.data) + 1)
             ret += bytearray(event.data)
             ret.append(0xF7)
         # not a Meta MIDI event or a Sysex event, must be a general message
-- 
2.43.0


From 66b80e7b1755e58f7b7fb36150cd04aac4fb7e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 56/80] fix: patterns derived from a pattern do not share a
 list time signature with it

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index ef105a2..7479c19 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -416,7 +416,7 @@ class Pattern(object):
         p = Pattern()
         p.duration = self.duration
         p.bpm = self.bpm
-        p.timeSignature = self.timeSignature
+        p.timeSignature = copy.copy(self.timeSignature)
         p.originFilePath = self.originFilePath
         p.name = self.name
         p.key = self.key
-- 
2.43.0


From 7227c8ba8604f29649317903801452ba15deb3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 57/80] fix: tag selections match whole tags, of any type

---
 gsapi/gspattern.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 7479c19..ec53564 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -785,8 +785,7 @@ class Pattern(object):
             if exactSearch:
                 gspatternLog.error(
                     "cannot search exactly with a list of elements")
-            boolFunction = lambda inTags: len(
-                inTags) > 0 and inTags in tagToLookFor
+            boolFunction = lambda inTags: inTags in tagToLookFor
         elif callable(tagToLookFor):
             boolFunction = tagToLookFor
         else:
@@ -795,7 +794,7 @@ class Pattern(object):
                 boolFunction = lambda inTags: inTags == tagToLookFor
             else:
                 boolFunction = lambda inTags: (inTags == tagToLookFor) or (
-                len(inTags) > 0 and tagToLookFor in inTags)
+                isinstance(inTags, tuple) and tagToLookFor in inTags)
 
         res = self.copyWithoutEvents()
         for e in self.events:
@@ -847,8 +846,7 @@ class Pattern(object):
             if exactSearch:
                 gspatternLog.error(
                     "cannot search exactly with a list of elements")
-            boolFunction = lambda inTags: len(
-                inTags) > 0 and inTags in tagToLookFor
+            boolFunction = lambda inTags: inTags in tagToLookFor
         elif callable(tagToLookFor):
             boolFunction = tagToLookFor
         else:
@@ -857,7 +855,7 @@ class Pattern(object):
                 boolFunction = lambda inTags: inTags == tagToLookFor
             else:
                 boolFunction = lambda inTags: (inTags == tagToLookFor) or (
-                len(inTags) > 0 and tagToLookFor in inTags)
+                isinstance(inTags, tuple) and tagToLookFor in inTags)
 
         res = self.copyWithoutEvents()
         for e in self.events:
-- 
2.43.0


From d3c6e224fca22ea4206d4d8108b9b98433516949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 58/80] fix: grid alignment does not depend on the rounding of
 steps

---
 gsapi/gspattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index ec53564..428c580 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -186,7 +186,8 @@ class Event(object):
             list: a list of Events of length `stepSize`
         """
         res = []
-        num = max(1, int(self.duration / stepSize))  # if smaller still take it
+        # if smaller still take it, a rounding error below a whole step is one
+        num = max(1, int(self.duration / stepSize + 1e-9))
         for i in range(num):
             newE = self.copy()
             newE.startTime = self.startTime + i * stepSize
@@ -355,7 +356,7 @@ class Pattern(object):
             for ea in evToAdd:
                 ea.startTime = int(ea.startTime / stepSize + 0.5) * stepSize
                 # avoid adding last event out of duration range
-                if ea.startTime < self.duration:
+                if self.duration - ea.startTime > 1e-9:
                     ea.duration = stepSize
                     newEvents += [ea]
 
-- 
2.43.0


From a31e774c6c4080ec92a0024c5a9591ed4aa600d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 59/80] fix: viewpoints of patterns without events keep their
 origin in JSON

---
 gsapi/gspattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 428c580..7a538d4 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -521,7 +521,7 @@ class Pattern(object):
                 if not name:
                     return None
                 checkedPattern = parentPattern
-                while checkedPattern:
+                while checkedPattern is not None:
                     if checkedPattern.name == name:
                         return checkedPattern
                     checkedPattern = checkedPattern.originPattern
@@ -1010,7 +1010,7 @@ class Pattern(object):
         res = {}
         self.durationToLastEvent()
         res['name'] = self.name
-        if self.originPattern: res['originPattern'] = self.originPattern.name
+        if self.originPattern is not None: res['originPattern'] = self.originPattern.name
         res['timeInfo'] = {'duration':      self.duration, 'bpm': self.bpm,
                            'timeSignature': self.timeSignature}
         res['eventList'] = []
-- 
2.43.0


From ed48a1fb8f4852991b71ce8969c968d64e8a256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:56 +0000
Subject: [PATCH 60/80] fix: events spanning hundreds of slices can be split

---
 gsapi/gspattern.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 7a538d4..1ef61d9 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1092,24 +1092,26 @@ class Pattern(object):
                 patterns[
                     numPattern].name = (patternToSlice.name or "") + "_" + numPattern
             newEv = e if not makeCopy else e.copy()
+            remainingEvent = None
 
             if newEv.startTime + newEv.duration > (p + 1) * desiredLength:
                 remainingEvent = e.copy()
                 newOnset = (p + 1) * desiredLength
                 remainingEvent.duration = remainingEvent.endTime() - newOnset
                 remainingEvent.startTime = newOnset
-                _handleEvent(remainingEvent, patterns, makeCopy)
                 newEv.duration = (p + 1) * desiredLength - e.startTime
 
             newEv.startTime -= p * desiredLength
             patterns[numPattern].events += [newEv]
+            return remainingEvent
 
         patterns = {}
 
         patternToSlice = self.viewpoints[
             viewpointName] if viewpointName else self
         for e in patternToSlice.events:
-            _handleEvent(e, patterns, makeCopy)
+            while e is not None:
+                e = _handleEvent(e, patterns, makeCopy)
         res = []
         maxListLen = int(
             math.ceil(patternToSlice.duration * 1.0 / desiredLength))
-- 
2.43.0


From c07511549fc01c41b7606bda1922c9cc5887050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:51 +0000
Subject: [PATCH 61/80] fix: the eleventh of a min(add11) chord is a perfect
 eleventh

---
 gsapi/gsdefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index 3c626bd..1a603b6 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -73,7 +73,7 @@ chordTypes = {"0":          [0],
               "min(add9)":  [0, 3, 7, 14],
               "7sus4":      [0, 5, 7, 10],
               "add11":      [0, 4, 7, 17],
-              "min(add11)": [0, 3, 7, 16],
+              "min(add11)": [0, 3, 7, 17],
               "9":          [0, 4, 7, 10, 14],
               "b9":         [0, 4, 7, 10, 13],
               "maj9":       [0, 4, 7, 11, 14],
-- 
2.43.0


From 58f9696c625c4d6637df44e1de59c7a6e3dd5fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:20 +0000
Subject: [PATCH 62/80] fix: Markov tables can be printed under Python 3

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index b64cf1b..4fdc7d8 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -344,7 +344,7 @@ class PatternMarkov(object):
 
         def _tupleToString(d):
             if isinstance(d, dict):
-                for k, v in d.items():
+                for k, v in list(d.items()):
                     if isinstance(k, tuple):
                         d[str(_tupleToString(k))] = d.pop(k)
                     _tupleToString(v)
-- 
2.43.0


From c6f83c6fe62ddaead8c4490f4db41babd89f011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:20 +0000
Subject: [PATCH 63/80] fix: a Markov style given no pattern is not built

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 4fdc7d8..68a6858 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -546,7 +546,7 @@ class PatternMarkov(object):
         self.loopDuration = state["loopDuration"]
 
     def isBuilt(self):
-        return self.transitionTable != {}
+        return any(self.transitionTable)
 
     def getAllPossibleStates(self):
         possibleStates = []
-- 
2.43.0


From b50061d779c1ba800dafa168d96b6f977088e038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:16 +0000
Subject: [PATCH 64/80] fix: tags that read the same but differ are always in
 the same order in a Markov state

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 68a6858..5d4129a 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -501,7 +501,7 @@ class PatternMarkov(object):
                 curL += [e.tag]
 
             # sort to have consistent ordering, set to remove step-wise overlapping events
-            res += (tuple(sorted(set(curL), key=lambda t: "%s" % (t,))),)
+            res += (tuple(sorted(set(curL), key=lambda t: ("%s" % (t,), type(t).__name__))),)
         return res
 
     def formatPattern(self, p):
-- 
2.43.0


From bbacd532ceb5a72b45b745f22eb1c5670e307f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:16 +0000
Subject: [PATCH 65/80] fix: a pattern given twice to a Markov style is learnt
 twice

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 5d4129a..4be21e0 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -301,7 +301,7 @@ class PatternMarkov(object):
         """
         self.transitionTable = [{} for f in range(int(self.numSteps))]
 
-        self.binarizedPatterns = copy.deepcopy(self.originPatterns)
+        self.binarizedPatterns = [copy.deepcopy(p) for p in self.originPatterns]
         for p in self.binarizedPatterns:
             self.formatPattern(p)
             self.checkSilences(p)
-- 
2.43.0


From a56a175d84f382acccec6730b0c5527c799f8fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:29 +0000
Subject: [PATCH 66/80] fix: a pattern that looks like the steps of the
 previous one keeps its own length when its density is changed

---
 gsapi/gstransformers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 8e0baa4..cce77f8 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -90,7 +90,7 @@ class AgnosticDensity(BaseTransformer):
             self.buildDensityMap(paramDict['inputPattern'])  # TODO: Faltaba el self.
 
     def transformPattern(self, pattern, paramDict):
-        if pattern is not None and pattern != self.originPattern:
+        if pattern is not None and (pattern != self.originPattern or pattern.duration != self.originDuration):
             self.buildDensityMap(pattern)
         if self.originPattern is None:
             return
-- 
2.43.0


From fc14d0e8b0fcbac652d48c7dfa820d0b283f44eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 67/80] fix: a kick pattern without kicks constrains a bass
 line too

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 5f5392f..be7a3d2 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -640,7 +640,7 @@ def generateBassRhythm(markov_model, beat_length=8, target=[]):
     bassline = gspattern.Pattern()
     pattern_idx = []
 
-    if len(target) == 0:  # no constraints
+    if getattr(target, 'duration', 0) == 0:  # no constraints
 
         HMM = markov_model.rhythm_model()
 
-- 
2.43.0


From 6aad90acdce403f96c24097f8fb38cf3f0839856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 68/80] fix: DatabaseStyle takes the seed asked for into
 account when choosing at random

---
 gsapi/gsstyles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 4be21e0..0b7a64e 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -143,6 +143,8 @@ class DatabaseStyle(BaseStyle):
             print("reading", self.currentIdx)
             return p
         elif self.generatePatternOrdering == 'random':
+            if seed is not None:
+                random.seed(seed)
             return self.patternList[int(random.random() * len(self.patternList))]
         elif self.generatePatternOrdering == 'indexed':
             return self.patternList[self.currentIdx]
-- 
2.43.0


From 02f563011115456e0363ea1442820114a274d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 69/80] fix: a text with characters beyond latin-1 is written
 to a midi file as utf-8

---
 gsapi/midiio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 4e904ee..cc34b88 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -554,7 +554,9 @@ class MetaEventWithText(MetaEvent):
         if 'text' not in kw:
             self.text = ''.join(chr(datum) for datum in self.data)
         elif 'data' not in kw and self.text:
-            text = self.text if isinstance(self.text, str) else self.text.encode('utf-8')
+            text = self.text
+            if not isinstance(text, str) or any(ord(char) > 255 for char in text):
+                text = text.encode('utf-8').decode('latin-1')
             self.data = [ord(char) for char in text]
 
     def __repr__(self):
-- 
2.43.0


From 7e826f94f7741c59e6d029d70de99058836a1bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 70/80] fix: reading a track whose name is not plain ascii does
 not fail for the log

---
 gsapi/gsio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index e41bd65..bb3bc8e 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -165,7 +165,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                         shouldSkipTrack = True
                         continue
                     else:
-                        gsioLog.info(myPattern.name + ": getting track: %i %s" % (trackIdx, e.text))
+                        gsioLog.info(myPattern.name + ": getting track: %i %r" % (trackIdx, e.text))
 
                     if tagFromTrackName:
                         noteTag = __tagFromTrackName(e.text, noteToTagMap)
@@ -215,7 +215,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                             gsioLog.info("set duration %f at start %f " % (i.duration, i.startTime))
                             break
                     if not foundNoteOn:
-                        gsioLog.warning(myPattern.name + ": not found note on\n %s\n%s\n%s , %s " %
+                        gsioLog.warning(myPattern.name + ": not found note on\n %s\n%s\n%r , %s " %
                                         (e, myPattern.events[-1:], noteTag, curBeat))
         trackIdx += 1
     elementSize = 4.0 / myPattern.timeSignature[1]
-- 
2.43.0


From a1edac53c9111a3225b8d72c27c2645d3893a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 71/80] fix: the printed grid shows where a note at the very
 start begins, whatever the tags are

---
 gsapi/gspattern.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 1ef61d9..6db315e 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1131,7 +1131,7 @@ class Pattern(object):
         def __areSilenceEvts(l):
             if len(l) > 0:
                 for e in l:
-                    if 'silence' not in e.tag:
+                    if 'silence' not in (e.tag if isinstance(e.tag, tuple) else (e.tag,)):
                         return False
             return True
 
@@ -1141,7 +1141,7 @@ class Pattern(object):
             silenceASCII = '-'
             out = "["
             p = self.getPatternWithTags(t, makeCopy=True)
-            isSilence = __areSilenceEvts(p.activeEventsAtTime(0))
+            isSilence = True
             # inited = False
             lastActiveEvent = p.events[0]
             numSteps = int(self.duration * 1.0 / blockSize)
@@ -1166,7 +1166,7 @@ class Pattern(object):
 
                 isSilence = newSilenceState
                 # inited = True
-            out += "]: " + t
+            out += "]: %s" % (t,)
             print(out)
 
     def timeStretch(self, ratio):
-- 
2.43.0


From 24fcb2c61fb4da1dfa1cc7cbdb98712be864e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 72/80] fix: the accidentals asked for are compared by value

---
 gsapi/gsutil.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index 25990e3..fa171d0 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -228,9 +228,9 @@ def makeChord(root, chord_structure):
 
 
 def pc2note(pitch_class, alt="#"):
-    if alt is "#":
+    if alt == "#":
         base40 = [2, 3, 8, 9, 14, 19, 20, 25, 26, 31, 32, 37]
-    elif alt is "b":
+    elif alt == "b":
         base40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]
     else:
         raise Exception("alt should be either '#' or 'b'")
@@ -238,9 +238,9 @@ def pc2note(pitch_class, alt="#"):
 
 
 def pc2base40(pitch_class, alt="#"):
-    if alt is "#":
+    if alt == "#":
         base40 = [2, 3, 8, 9, 14, 19, 20, 25, 26, 31, 32, 37]
-    elif alt is "b":
+    elif alt == "b":
         base40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]
     else:
         raise Exception("alt should be either '#' or 'b'")
-- 
2.43.0


From 329fa087495cdb5c3360fdd476de9d8ee88af7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 73/80] fix: the intervals of min9 and maj#11 chords make those
 chords

---
 gsapi/gsdefs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index 1a603b6..e07f142 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -42,12 +42,12 @@ chordIntervals = {"0":           [],
                   "min(add#11)": [11, 12, 35],
                   "9":           [12, 11, 11, 12],
                   "maj9":        [12, 11, 12, 11],
-                  "min9":        [11, 12, 11, 11],
+                  "min9":        [11, 12, 11, 12],
                   "11":          [12, 11, 11, 12, 11],
                   "maj11":       [12, 11, 12, 11, 11],
                   "min11":       [11, 12, 11, 12, 11],
                   "#11":         [12, 11, 11, 12, 12],
-                  "maj#11":      [12, 11, 11, 12, 12],
+                  "maj#11":      [12, 11, 12, 11, 12],
                   "min#11":      [11, 12, 11, 12, 12]}
 
 chordTypes = {"0":          [0],
-- 
2.43.0


From a9faf1a03a0e6861a7b41a23ebcb89c579ee64b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 74/80] fix: stripping an empty suffix leaves the name as it is

---
 gsapi/gsutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index fa171d0..408ccb2 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -52,7 +52,7 @@ def strip_suffix(filename, suffix=None):
         Filename or string without suffix.
 
     """
-    if suffix is not None and filename.endswith(suffix):
+    if suffix and filename.endswith(suffix):
         return filename[:-len(suffix)]
     return filename
 
-- 
2.43.0


From 5fdefc2d2d6e437eb858a976df26f6ee6965313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 75/80] fix: file names are matched literally

---
 gsapi/gsutil.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index 408ccb2..b6d0d87 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -79,18 +79,15 @@ def match_files(filename, match_list, suffix=None, match_suffix=None):
 
     """
     import os
-    import fnmatch
 
     # get the base name without the path
     basename = os.path.basename(strip_suffix(filename, suffix))
     # init return list
     matches = []
     # look for files with the same base name in the files_list
-    if match_suffix is not None:
-        pattern = "*%s*%s" % (basename, match_suffix)
-    else:
-        pattern = "*%s" % basename
-    for match in fnmatch.filter(match_list, pattern):
+    for match in match_list:
+        if match_suffix is not None and not match.endswith(match_suffix):
+            continue
         # base names must match exactly
         if basename == os.path.basename(strip_suffix(match, match_suffix)):
             matches.append(match)
-- 
2.43.0


From dce309cdb5802185376a5dfa3ba59e317821e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 76/80] fix: folders and suffixes are searched literally

---
 gsapi/gsutil.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index b6d0d87..e9b2fcd 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -114,7 +114,6 @@ def search_files(path, suffix=None):
 
     """
     import os
-    import glob
 
     # determine the files
     if isinstance(path, list):
@@ -124,15 +123,11 @@ def search_files(path, suffix=None):
         for f in path:
             file_list.extend(search_files(f, suffix))
     elif os.path.isdir(path):
-        # use all files in the given path
-        if suffix is None:
-            file_list = glob.glob("%s/*" % path)
-        elif isinstance(suffix, list):
-            file_list = []
-            for s in suffix:
-                file_list.extend(glob.glob("%s/*%s" % (path, s)))
-        else:
-            file_list = glob.glob("%s/*%s" % (path, suffix))
+        # use all the visible files in the given path
+        file_list = ["%s/%s" % (path, f) for f in os.listdir(path) if not f.startswith(".")]
+        if suffix is not None:
+            suffixes = tuple(suffix) if isinstance(suffix, list) else suffix
+            file_list = [f for f in file_list if f.endswith(suffixes)]
     elif os.path.isfile(path):
         file_list = []
         # no matching needed
-- 
2.43.0


From 0cdd16a2f85f9a347fa13da16e621179e51be4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 77/80] fix: copies of midi messages are whole and independent

---
 gsapi/midiio.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index cc34b88..55ae73a 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -363,7 +363,7 @@ class Event(AbstractEvent):
         super(Event, self).__init__(**kw)
 
     def copy(self, **kw):
-        _kw = {'channel': self.channel, 'tick': self.tick, 'data': self.data}
+        _kw = {'channel': self.channel, 'tick': self.tick, 'data': list(self.data)}
         _kw.update(kw)
         return self.__class__(**_kw)
 
@@ -622,8 +622,9 @@ class UnknownMetaEvent(MetaEvent):
         self.metacommand = kw['metacommand']
 
     def copy(self, **kw):
-        kw['metacommand'] = self.metacommand
-        return super(UnknownMetaEvent, self).copy(kw)
+        _kw = {'metacommand': self.metacommand, 'tick': self.tick, 'data': list(self.data)}
+        _kw.update(kw)
+        return self.__class__(**_kw)
 
 
 class ChannelPrefixEvent(MetaEvent):
-- 
2.43.0


From 5a50c99f523e7a8fc84bc6f0998603116b1b5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 78/80] fix: slices of midi patterns and tracks keep how their
 ticks count

---
 gsapi/midiio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 55ae73a..9740c8d 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -230,6 +230,7 @@ class Pattern(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Pattern(resolution=self.resolution, frmt=self.frmt,
+                           tick_relative=self.tick_relative,
                            tracks=(super(Pattern, self).__getitem__(i) for i in
                                    range(*indices)))
         else:
@@ -266,7 +267,7 @@ class Track(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Track((super(Track, self).__getitem__(i) for i in
-                          range(*indices)))
+                          range(*indices)), tick_relative=self.tick_relative)
         else:
             return super(Track, self).__getitem__(item)
 
-- 
2.43.0


From 56dcc94faa7aaa1f90feae173d95a45033bfe6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 79/80] fix: the last element of a distribution can be drawn

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index be7a3d2..3a19a3a 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -52,7 +52,7 @@ def pdf_sampling(n):  # variable argument list
 
     x = random.random()
     f = 0
-    for i in range(1, len(n)):
+    for i in range(1, len(n) + 1):
         if x < sum(n[0:i]):
             f = i - 1
             break
-- 
2.43.0


From ab7fefdf90ff88d7526124b89cd91120c44cd0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:53 +0000
Subject: [PATCH 80/80] fix: only an end-of-track event ends a track

EndOfTrackEvent.is_event() compares the status of the event, which every
meta event shares, so the bars of a track without an end-of-track event
were taken to be told by its first meta event.
---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index bb3bc8e..8e2c6b6 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -170,7 +170,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                     if tagFromTrackName:
                         noteTag = __tagFromTrackName(e.text, noteToTagMap)
 
-            if midiio.EndOfTrackEvent.is_event(e.statusmsg):
+            if isinstance(e, midiio.EndOfTrackEvent):
                 thisDuration = e.tick * tick_to_quarter_note
                 trackDuration = max(trackDuration, thisDuration) if trackDuration else thisDuration
                 continue
-- 
2.43.0

