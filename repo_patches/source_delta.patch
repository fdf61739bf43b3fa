From 20851a0c3f1a40ff3ae172cfbc39285fd681055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 001/108] fix: replacing a node does not touch parents when it
 fails, or with itself

---
 quickly/node.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index f7bfa95..9d23c6b 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -338,9 +338,8 @@ class Node(Common, list):
         Fails if called on the root node.
 
         """
-        node._parent = weakref.ref(self)
-        index = self.parent.index(self)
-        self.parent[index] = node
+        parent = self.parent
+        parent[parent.index(self)] = node
 
     def take(self, start=0, end=None):
         """Like :meth:`list.pop`, but takes out and returns a slice(start, end)."""
-- 
2.43.0


From 4a4f3aebfef57a8e11f0b02cddeb9e48bc34d00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 002/108] fix: a failing item assignment leaves the parent of
 the node alone

---
 quickly/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 9d23c6b..ddbfae9 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -352,11 +352,12 @@ class Node(Common, list):
         """Set self[k] to the node(s) in ``new``; the parent is set to this Node."""
         if isinstance(k, slice):
             new = tuple(new)
+            list.__setitem__(self, k, new)
             for node in new:
                 node._parent = weakref.ref(self)
         else:
+            list.__setitem__(self, k, new)
             new._parent = weakref.ref(self)
-        list.__setitem__(self, k, new)
 
     def equals(self, other):
         """Return True if we and other are equivalent.
-- 
2.43.0


From 23c47955b28aa66a5231088c9a6b0b4bd22c0ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 003/108] fix: a range whose end is before its start is empty
 at any depth

---
 quickly/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/node.py b/quickly/node.py
index ddbfae9..fb6e14e 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -785,6 +785,8 @@ class Range(Common):
 
     def __bool__(self):
         """False if the range is empty."""
+        if self.start_trail and self.end_trail and self.start_trail > self.end_trail:
+            return False    # end node is before the start node
         level = self._stack[0]
         return level.start <= level.end
 
-- 
2.43.0


From 399f090ef60c0e1006154be36d3f02a7cf7fb073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 004/108] fix: nodes do not intersect with a range that ends at
 its ancestor

---
 quickly/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index fb6e14e..767686a 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -841,7 +841,7 @@ class Range(Common):
 
         """
         return (not self.start_trail or trail >= self.start_trail[:len(trail)]) \
-           and (not self.end_trail or trail <= self.end_trail[:len(trail)])
+           and (self.end_trail is None or trail <= self.end_trail[:len(trail)])
 
     def intersects(self, node):
         """Return True if the node is partially or completely in our range.
-- 
2.43.0


From 8ff01b42bfe53085d9728784444c96cbf5b26f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 005/108] fix: editing via a Range keeps its boundaries on the
 remaining nodes

Item and slice assignment and deletion moved start and end of the range
to wrong nodes in many cases: inserting or deleting before or at a boundary
trail, emptying a level, negative indices, replacing a parent of a boundary
node; the iteration in progress then skipped or repeated nodes.
---
 quickly/node.py | 133 +++++++++++++++++++++++++++---------------------
 1 file changed, 75 insertions(+), 58 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index 767686a..4efde29 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -751,10 +751,12 @@ class Range(Common):
         return cls(ancestor, start_trail, end_trail)
 
     def start_node(self):
-        """The start node, if specified."""
+        """The start node, if specified (None if there are no nodes left)."""
         if self.start_trail is not None:
             n = self.ancestor()
             for i in self.start_trail:
+                if i == len(n):
+                    return None
                 n = n[i]
             return n
 
@@ -883,78 +885,93 @@ class Range(Common):
     def __setitem__(self, i, value):
         """Set Node(s) at index or slice. Slice step must be None or 1."""
         level = self._stack[-1]
-        adjust_start = level.start_trail and len(level.start_trail) > level.depth
-        adjust_end = level.end_trail and len(level.end_trail) > level.depth
+        depth = level.depth
+        length = len(level.node)
+        # does the boundary lie below this iteration level?
+        adjust_start = level.start_trail and len(level.start_trail) > depth
+        adjust_end = level.end_trail and len(level.end_trail) > depth
 
         if isinstance(i, slice):
             if i.step not in (1, None):
                 raise ValueError("can't use step other than 1 in slice")
             value = tuple(value)
-            index, end, _ = i.indices(len(level.node))
-            removed = end - index
+            index, end, _ = i.indices(length)
+            end = max(index, end)
             added = len(value)
-            length = len(level.node) + added - removed
-
-            if length == 0:
-                # node has become empty
-                level.start = 0
-                level.index = -1
-                level.end = -1
-                if level.start_trail:
-                    level.start_trail[level.depth:] = [0]
-                if level.end_trail:
-                    del level.end_trail[level.depth:]
-            else:
-                # adjust start boundary if needed
-                if index <= level.start:
-                    if index + removed > level.start:
-                        level.start = index + added
-                        if adjust_start:
-                            # deleted node was on the start trail, truncate
-                            del level.start_trail[level.depth:]
-                            if 0 < level.start < length:
-                                level.start_trail.append(level.start)
-                    else:
-                        level.start += added - removed
-                        if adjust_start:
-                            level.start_trail[level.depth] = level.start
-
-                # adjust end boundary
-                if index <= level.end:
-                    if index + removed > level.end:
-                        level.end = index + added
-                        if adjust_end:
-                            # deleted node was on the end trail, truncate
-                            del level.end_trail[level.depth:]
-                            if level.end < length:
-                                level.end_trail.append(level.end)
-                    else:
-                        level.end += added - removed
-                        if adjust_end:
-                            level.end_trail[level.depth] = level.end
-                elif length and level.end == -1 and level.end_trail is None:
-                    # end can be -1 if node was empty or because of empty end trail,
-                    # in this case it was because the node was empty, just move the end
-                    level.end = length - 1
-
-                # adjust level index
-                if index <= level.index:
-                    if index + removed > level.index:
-                        level.index = index + added
-                    else:
-                        level.index += added - removed
+            shift = added - (end - index)
+            level.node[index:end] = value
+            length += shift
+
+            # adjust start boundary if needed
+            if adjust_start:
+                if end <= level.start:
+                    level.start += shift
+                    level.start_trail[depth] = level.start
+                elif index <= level.start:
+                    # start node was removed, start at the node that follows
+                    level.start = index + added
+                    level.start_trail[depth:] = [level.start]
+                    self._normalize_start()
+
+            # adjust end boundary if needed
+            if adjust_end:
+                if end <= level.end:
+                    level.end += shift
+                    level.end_trail[depth] = level.end
+                elif index <= level.end:
+                    # end node was removed, end at the node that precedes
+                    level.end = index + added - 1
+                    del level.end_trail[depth:]
+                    if level.end >= 0:
+                        level.end_trail.append(level.end)
+                        if not added:
+                            n = level.node[level.end]
+                            while len(n):
+                                level.end_trail.append(len(n) - 1)
+                                n = n[-1]
+            elif level.end_trail is None:
+                level.end = length - 1
+
+            # adjust level index, so that iteration continues after the change
+            if end <= level.index:
+                level.index += shift
+            elif index <= level.index:
+                level.index = index + added - 1
+                if level.index < level.start:
+                    level.index = -1
         else:
             # just replace node at i
+            level.node[i] = value
+            if i < 0:
+                i += length
             if adjust_start and i == level.start:
-                del level.start_trail[level.depth+1:]
+                del level.start_trail[depth+1:]
             if adjust_end and i == level.end:
-                del level.end_trail[level.depth+1:]
+                del level.end_trail[depth+1:]
+
+    def _normalize_start(self):
+        """(Internal) Let the start trail point to an existing node.
+
+        Called when there is no node anymore at the end of the start trail; the
+        start becomes the next node in document order. If there is no such node,
+        the start trail points beyond the last child of the ancestor (and the
+        range is empty).
 
-        level.node[i] = value
+        """
+        for level in reversed(self._stack):
+            trail = level.start_trail
+            if level.start < len(level.node):
+                break
+            if level.depth == 0:
+                break
+            del trail[level.depth:]
+            trail[-1] += 1
+            self._stack[level.depth-1].start = trail[-1]
 
     def __delitem__(self, i):
         """Delete Node(s) at index or slice. Slice step must be None or 1."""
         if not isinstance(i, slice):
+            i = range(len(self._stack[-1].node))[i]
             i = slice(i, i+1)
         self[i] = ()
 
-- 
2.43.0


From c1bba9613cf4d761bf66c530ac14f13bec023d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 006/108] fix: durations longer than a maxima can be computed

duration() and shift_duration() raised ValueError (negative shift count) for
log values of -4 and lower, unless there were enough dots.
---
 quickly/duration.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quickly/duration.py b/quickly/duration.py
index 02b1f66..d6e4e10 100644
--- a/quickly/duration.py
+++ b/quickly/duration.py
@@ -126,9 +126,11 @@ def duration(log, dotcount=0):
     :func:`log_dotcount`.
 
     """
-    numer = ((2 << dotcount) - 1) << 3
-    denom = 1 << (dotcount + log + 3)
-    return fractions.Fraction(numer, denom)
+    numer = (2 << dotcount) - 1
+    shift = dotcount + log
+    if shift < 0:
+        return fractions.Fraction(numer << -shift)
+    return fractions.Fraction(numer, 1 << shift)
 
 
 def shift_duration(value, log, dotcount=0):
-- 
2.43.0


From adb01c74f8a40336f7c80ccdf6f49ddf957316e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:08 +0000
Subject: [PATCH 007/108] fix: from_string raises ValueError for numbers that
 are no duration

Numbers like 3, 0 or -4 silently gave another duration; the documentation
promises a ValueError for an invalid duration.
---
 quickly/duration.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quickly/duration.py b/quickly/duration.py
index d6e4e10..11751e1 100644
--- a/quickly/duration.py
+++ b/quickly/duration.py
@@ -225,9 +225,13 @@ def from_string(text, dotcount=None):
         dotcount = text.count('.')
     text = text.strip(' \t.')
     try:
-        log = int(text).bit_length() - 1
+        value = int(text)
     except ValueError:
         log = -1 - NAMED_DURATIONS.index(text.lstrip('\\'))
+    else:
+        log = value.bit_length() - 1
+        if value != 1 << max(0, log):
+            raise ValueError("invalid duration: {}".format(text))
     return duration(log, dotcount)
 
 
-- 
2.43.0


From 5dcf2832949e30bf638ccad92c7562a81c7bc735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 008/108] fix: KeySignature can be displayed

repr() raised a TypeError because the Pitch got no octave.
---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index 0017ce5..3ee014c 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -226,7 +226,7 @@ class KeySignature:
         self.flats = pitch.MAJOR_FLATS
 
     def __repr__(self):
-        p = pitch.Pitch(self.note, self.alter)
+        p = pitch.Pitch(-1, self.note, self.alter)
         return "<{} note,alter={},{} ({}) mode={}>".format(type(self).__name__,
             self.note, self.alter, p, self.mode)
 
-- 
2.43.0


From ff5b532d5116b9c8492d2b185cda10ef79c33f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 009/108] fix: KeySignature.pitch accepts a list of flats

The documented list raised a TypeError, because the cached reader needs a
hashable argument.
---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index 3ee014c..f23e87d 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -323,7 +323,7 @@ class KeySignature:
         """
         if flats is None:
             flats = self.flats
-        return self._midi_reader(flats)(key)
+        return self._midi_reader(tuple(flats))(key)
 
     @cached_method
     def _midi_reader(self, flats):
-- 
2.43.0


From ae91a544606e83de871ca4b78711b6d8cd1f1d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 010/108] fix: chromatic_scale in B-double-sharp starts at C

When the tonic is more than an octave above C, the scale was not rotated, so
KeySignature.pitch returned pitches with another MIDI key number.
---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index f23e87d..ea44cd8 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -166,7 +166,7 @@ def chromatic_scale(note=0, alter=0, scale=None, flats=None):
 
     alter += scale[note] - scale[0]
     notes = list(transpose(chrom_scale()))
-    semitones = int(alter * 2)
+    semitones = int(alter * 2) % 12
     return notes[-semitones:] + notes[:-semitones]  # rotate so C-based pitch is at start
 
 
-- 
2.43.0


From 935406414d9b83a848b366de537761ae64c7d3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 011/108] =?UTF-8?q?fix:=20"catal=C3=A0"=20honours=20prefer?=
 =?UTF-8?q?=5Fdeprecated=20like=20"catalan"?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 quickly/pitch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index fd63359..59ba953 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -565,6 +565,7 @@ class PitchProcessor:
                 return name
 
     @_suitable("catalan")
+    @_suitable("català")
     def _catalan(self, names):
         for name in names:
             if self.prefer_deprecated == name.endswith('s'):
-- 
2.43.0


From 149084bb326ddcf59c056aabeedf111d9d4f8539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 012/108] fix: prefer_classic is not inverted in norsk

---
 quickly/pitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 59ba953..52039d9 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -613,7 +613,7 @@ class PitchProcessor:
                 return subset[0]
             names = subset
         for name in names:
-            if self.prefer_classic == ('ee' in name or 'ae' in name):
+            if self.prefer_classic != ('ee' in name or 'ae' in name):
                 return name
 
     @_suitable("suomi")
-- 
2.43.0


From 7f549b10706e8abe95e8880b64310178e2fd1f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 013/108] fix: distill_preferences looks at the alteration of
 english names

---
 quickly/pitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 52039d9..9d35262 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -516,7 +516,7 @@ class PitchProcessor:
                 elif language == "english":
                     if '-' in name:
                         prefer_long = True
-                    elif not prefer_long and pnames[name][1] in {-1, -0.5, 0.5, 1}:
+                    elif not prefer_long and pnames[name][2] in {-1, -0.5, 0.5, 1}:
                         prefer_long = False
                 elif language == "français":
                     if 'é' in name:
-- 
2.43.0


From 94b57d6c3730d8c22bd3a4c50986598729001ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 014/108] fix: write_node can translate a node that has a name
 from another language

---
 quickly/pitch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 9d35262..355a14a 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -380,8 +380,11 @@ class PitchProcessor:
              ╰╴<lily.Octave 3>
 
         """
-        p = self.pitch(node.head)
-        if (p.note, p.alter) == (pitch.note, pitch.alter):
+        try:
+            p = self.pitch(node.head)
+        except KeyError:
+            p = None    # the old name is from another language
+        if p and (p.note, p.alter) == (pitch.note, pitch.alter):
             # keep the head value, even if there are multiple pitch names
             # in the current language (that can differ in octave)
             node.octave = pitch.octave - p.octave
-- 
2.43.0


From 7bc54a98330fa84ef4e51265189ed9a17e3fd754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 015/108] fix: unknown language names in a document are ignored

---
 quickly/pitch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 355a14a..7179393 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -457,7 +457,7 @@ class PitchProcessor:
         from .dom import lily
         for n in node < (lily.Language, lily.Include):
             lang = n.language
-            if lang:
+            if lang in pitch_names:
                 self.language = lang
                 break
 
@@ -475,7 +475,7 @@ class PitchProcessor:
         for n in nodes:
             if isinstance(n, (lily.Language, lily.Include)):
                 lang = n.language
-                if lang:
+                if lang in pitch_names:
                     self.language = lang
                     continue
             yield n
-- 
2.43.0


From 14588539d9b5f907bb5c248fa30f6f1feb65a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 016/108] fix: Include.language is None if there is no filename

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 3d0a71f..edfdb7f 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2829,7 +2829,7 @@ class Include(element.HeadElement):
         """
         from .. import pitch
         filename = self.filename
-        if filename.endswith(".ly"):
+        if filename and filename.endswith(".ly"):
             language = filename[:-3]
             if language in pitch.pitch_names:
                 return language
-- 
2.43.0


From d169976c84acc22f3c21f05d37030d09cd1667da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 017/108] fix: english flats do not get long names with
 prefer_x

---
 quickly/pitch.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 7179393..cfba7e1 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -582,12 +582,13 @@ class PitchProcessor:
 
     @_suitable("english")
     def _english(self, names):
-        if self.prefer_long:
-            for name in names:
-                if "-" in name:
-                    return name
+        subset = [name for name in names if self.prefer_long == ('-' in name)]
+        if subset:
+            if len(subset) == 1:
+                return subset[0]
+            names = subset
         for name in names:
-            if "-" not in name and self.prefer_x == name.endswith('x'):
+            if self.prefer_x == name.endswith('x'):
                 return name
 
     @_suitable("espanol")
-- 
2.43.0


From 453e41189eb961e1e9494c9be3714c9a19b1b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 018/108] fix: a comment after a name, number, string or value
 does not become part of it

---
 quickly/lang/lilypond.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 23b6996..89bcf77 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -267,9 +267,18 @@ class LilyPondTransform(base.Transform):
                 yield i.obj # can be a Scheme or String
 
     def list(self, items):
-        """A List, String, Int, Symbol, or Scheme element."""
+        """A List, String, Int, Symbol, or Scheme element.
+
+        If comments follow, they are not part of it; then a Python list with
+        the element and the comments is returned.
+
+        """
         nodes = list(self._list_nodes(items))
-        return nodes[0] if len(nodes) == 1 else lily.List(*nodes)
+        comments = []
+        while len(nodes) > 1 and isinstance(nodes[-1], base.Comment):
+            comments.insert(0, nodes.pop())
+        node = nodes[0] if len(nodes) == 1 else lily.List(*nodes)
+        return [node, *comments] if comments else node
 
     start_list = None   # lexicon never creates tokens
 
@@ -388,6 +397,8 @@ class LilyPondTransform(base.Transform):
                     yield result
             elif isinstance(i.obj, element.Element):
                 yield i.obj
+            elif i.name == "list":
+                yield from i.obj
             elif i.name == "markup":
                 yield from self.create_markup(i.obj, items)
 
@@ -1164,6 +1175,7 @@ class MusicBuilder:
     @_context("string", "scheme", "list")
     def string_scheme(self, obj):
         """Called for ``string``, ``scheme`` or ``list`` context."""
+        obj, *comments = (obj,) if isinstance(obj, element.Element) else obj
         if self._events:
             # after a direction: an articulation
             if not self.add_event_argument(obj):
@@ -1172,6 +1184,8 @@ class MusicBuilder:
             # toplevel expression
             yield from self.pending_music()
             yield obj
+        for comment in comments:
+            yield from self.comment(comment)
 
     @_context("markup")
     def markup(self, obj):
-- 
2.43.0


From 48f5ffde5c00a7800cf7b86545b425090444bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 019/108] fix: a comment after a rest or other music without
 duration is not lost

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 89bcf77..e9db029 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -757,7 +757,7 @@ class MusicBuilder:
                 music = lily.Unpitched(dur)
         elif music:
             # move comment after pitch back to toplevel
-            self._comments[0:] = util.pop_comments(music)
+            self._comments[0:0] = util.pop_comments(music)
         if music:
             if self._modifier:
                 music.extend(self._comments)
-- 
2.43.0


From 3ea5ca3e303ba3dc6857251253772b80be99f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:58 +0000
Subject: [PATCH 020/108] fix: setting the octave to 0 removes the Octave
 child, as documented

---
 quickly/dom/lily.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index edfdb7f..dae034e 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -242,7 +242,10 @@ class Pitchable(element.TextElement, Music):
     @octave.setter
     def octave(self, num):
         for n in self / Octave:
-            n.head = num
+            if num == 0:
+                self.remove(n)
+            else:
+                n.head = num
             return
         if num != 0:
             self.add(Octave(num))
-- 
2.43.0


From bb8cfd48b53a91c8b542e8aa73ee5ad22fcb4032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 021/108] fix: Element.add respects the child order if there
 are comments between the children

---
 quickly/dom/element.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index aac57fa..087ca63 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -731,11 +731,15 @@ class Element(Node, metaclass=ElementType):
         for order in self.child_order():
             for index, cls in enumerate(order):
                 if isinstance(node, cls):
+                    # insert after the last child that should come earlier
                     skip = order[:index]
-                    for n in self ^ skip:
-                        i = self.index(n)
-                        self.insert(i, node)
-                        return
+                    for i in range(len(self), 0, -1):
+                        if isinstance(self[i-1], skip):
+                            break
+                    else:
+                        i = 0
+                    self.insert(i, node)
+                    return
         self.append(node)
 
     def indent_children(self):
-- 
2.43.0


From fc2b9d330c7bbbdbc1bdffa0d8d65df77d1114fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 022/108] fix: setting or deleting the scaling removes all
 additional DurationScaling children

---
 quickly/dom/lily.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index dae034e..aa42f66 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -148,7 +148,7 @@ class HandleDuration(element.Element):
     @scaling.setter
     def scaling(self, value):
         for d in self / Duration:
-            scaling = d / DurationScaling
+            scaling = list(d / DurationScaling)
             for s in scaling:
                 if value in (1, None):
                     d.remove(s)
@@ -156,7 +156,7 @@ class HandleDuration(element.Element):
                     s.head = fractions.Fraction(value).limit_denominator()
                 else:
                     s.head = value
-                for s in scaling:
+                for s in scaling[1:]:
                     d.remove(s)
                 return
             if value not in (1, None):
-- 
2.43.0


From 9d8439af6648106c41437c9b5d3abc3c9dadfdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 023/108] fix: copying an element keeps its own whitespace
 settings

---
 quickly/dom/element.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 087ca63..3a9dd52 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -183,7 +183,11 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return type(self)(*children, **getattr(self, '_spacing', {}))
+        return type(self)(*children, **self._space_attrs())
+
+    def _space_attrs(self):
+        """Return a dictionary with the whitespace attributes that differ from the default."""
+        return {'space_' + name: value for name, value in getattr(self, '_space', {}).items()}
 
     def copy_with_origin(self, with_children=True):
         """Copy the node, with origin if available.
@@ -193,7 +197,7 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = type(self)(*children, **getattr(self, '_spacing', {}))
+        copy = type(self)(*children, **self._space_attrs())
         copy.copy_origin_from(self)
         return copy
 
@@ -924,11 +928,11 @@ class TextElement(HeadElement):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        return self._factory(self.head, *children, **self._space_attrs())
 
     def copy_with_origin(self, with_children=True):
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        copy = self._factory(self.head, *children, **self._space_attrs())
         copy.copy_origin_from(self)
         return copy
 
-- 
2.43.0


From caf0debc715cf8de3e30c8a2329edba4bd3d836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 024/108] fix: whitespace wishes of elements without own text
 (Newline, Assignment, ...) are honoured

---
 quickly/dom/element.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 3a9dd52..d3a7838 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -566,12 +566,18 @@ class Element(Node, metaclass=ElementType):
         """Yield Points for this element and all its descendants.
 
         Each point is a :class:`Point` describing a text piece and the desired
-        whitespace before and after it.
+        whitespace before and after it. The text of a point can be empty, in
+        that case only its whitespace wishes are relevant.
 
         """
         head_point = self.head_point()
         tail_point = self.tail_point()
 
+        def blank(space):
+            """Yield an empty point if there is a space wish."""
+            if space:
+                yield Point(None, None, str, False, space, '')
+
         def collapse_last(points, last):
             """Yield all points, but with the last one, add last spacing wish"""
             for p in points:
@@ -581,9 +587,16 @@ class Element(Node, metaclass=ElementType):
                 # last point, add last space to space wishes
                 space_after = collapse_whitespace((p.space_after, last))
                 yield p._replace(space_after=space_after)
+                break
+            else:
+                yield from blank(last)
 
         if head_point:
             yield head_point
+        else:
+            yield from blank(self.space_before)
+            if not len(self) and not tail_point:
+                yield from blank(self.space_after)
         children = iter(self)
         for n in children:
             # collapse the whitespace after each child (except the last) with
@@ -631,6 +644,7 @@ class Element(Node, metaclass=ElementType):
         end = context.end if end is None else end
         tokens = context.tokens()
         insert_after = ''
+        inserted = False
         for point in self.points():
             space = collapse_whitespace((insert_after, point.space_before))
             if point.pos is None:
@@ -639,6 +653,9 @@ class Element(Node, metaclass=ElementType):
                 if text:
                     yield pos, pos, space + text
                     insert_after = point.space_after
+                    inserted = True
+                else:
+                    insert_after = collapse_whitespace((space, point.space_after))
             else:
                 # existing element
                 if point.pos > pos:
@@ -653,13 +670,15 @@ class Element(Node, metaclass=ElementType):
                         if space and del_end < pos:
                             del_end = pos   # unparsed space can be ditched
                         yield del_pos, del_end, space
-                elif space:
+                elif space and inserted:
+                    # only needed after a new element
                     yield point.pos, point.pos, space
                 # modified?
                 if point.modified:
                     yield point.pos, point.end, point.text()
                 pos = point.end
                 insert_after = point.space_after
+                inserted = False
         if pos < end:
             yield pos, end, ''
 
-- 
2.43.0


From 47bae82641ded18f01ad11ca00075173c626bd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 025/108] fix: new lines align with a child of the block, not
 with a descendant of it

---
 quickly/dom/indent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index b8a59cf..0613fe0 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -161,10 +161,11 @@ class Indenter:
 
         if has_children:
             n = node[0]
-            self.output_node(n, 0)
+            # the index is only relevant for the children of the indenting node
+            self.output_node(n, 0 if indent else -1 if head else index)
             for i, m in enumerate(node[1:], 1):
                 self.add_whitespace(node.concat_space(n, m))
-                self.output_node(m, i)
+                self.output_node(m, i if indent else -1)
                 n = m
 
         if indent:
-- 
2.43.0


From 4fbe2b97aebf5ebdeee2b040bfd3bbfd6adf5044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 026/108] fix: alignment takes the indent of the previous line
 into account

---
 quickly/dom/indent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index 0613fe0..e8c9447 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -208,14 +208,14 @@ class Indenter:
 
         if self._indenters:
             # add new indent levels
-            new_indent = current_indent = self.current_indent()
+            new_indent = self.current_indent()
             for i in self._indenters:
                 new_indent += self.indent_width
                 pos = i.get_align_pos()
                 if pos is not None:
                     align_indent = self._output[-1].offset(pos)
                     if align_indent <= self.max_align_indent:
-                        new_indent = current_indent + align_indent
+                        new_indent = self._output[-1].indent + align_indent
                 self._indent_stack.append(new_indent)
             self._indenters.clear()
 
-- 
2.43.0


From 02ed67d1c7d30bac45a023c27206eb15c42a3efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 027/108] fix: add_newlines does not fail if the end of a block
 is missing

---
 quickly/dom/util.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index cf2c53b..1901046 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -108,11 +108,8 @@ def add_newlines(node, text, block_separator='\n', max_blank_lines=10):
         return '\n' * count
 
     def handle_node(node):
-        try:
-            head_origin = node.head_origin
-        except AttributeError:
-            pass
-        else:
+        head_origin = getattr(node, 'head_origin', None)
+        if head_origin:
             s = get_newlines(head_origin[0].pos)
             if s and whitespace_key(s) > whitespace_key(node.space_before):
                 node.space_before = s
@@ -120,11 +117,8 @@ def add_newlines(node, text, block_separator='\n', max_blank_lines=10):
         for n in node:
             handle_node(n)
 
-        try:
-            tail_origin = node.tail_origin
-        except AttributeError:
-            pass
-        else:
+        tail_origin = getattr(node, 'tail_origin', None)
+        if tail_origin:     # can be empty when the tail was missing
             s = get_newlines(tail_origin[0].pos)
             if s and whitespace_key(s) > whitespace_key(node.space_before_tail):
                 node.space_before_tail = s
-- 
2.43.0


From b5a8ce19ddb69e5cb662515f35baee7bc0a6691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 028/108] fix: add_newlines does not count the newlines inside
 a text as newlines after it

---
 quickly/dom/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index 1901046..e85366f 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -113,6 +113,7 @@ def add_newlines(node, text, block_separator='\n', max_blank_lines=10):
             s = get_newlines(head_origin[0].pos)
             if s and whitespace_key(s) > whitespace_key(node.space_before):
                 node.space_before = s
+            get_newlines(head_origin[-1].end)   # skip newlines inside the text
 
         for n in node:
             handle_node(n)
-- 
2.43.0


From 71de2b70d9e97191f010fb2fedf8b29cbcfa5850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 029/108] fix: whitespace before the first text does not
 influence the alignment

---
 quickly/dom/indent.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index e8c9447..aeb6ffd 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -226,6 +226,10 @@ class Indenter:
 
     def output_space(self):
         """*(Internal.)* Output whitespace. Newlines start a new output line."""
+        if len(self._output) == 1 and not self._output[0].line:
+            # no whitespace before the first text
+            self._whitespace.clear()
+            return
         for c in util.collapse_whitespace(self._whitespace):
             if c == '\n':
                 self.create_new_block()
-- 
2.43.0


From 18a78f7f33ac3fd4f06426194766dc899fdc6a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 030/108] fix: the origin of the closing brace of a score is
 kept

---
 quickly/lang/lilypond.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index e9db029..b9e702e 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -103,8 +103,6 @@ class LilyPondTransform(base.Transform):
 
     def score(self, items):
         """A Score element."""
-        tail = (items.pop(),) if items[-1] == '}' else ()
-        head = items[:2]
         return self.create_block(lily.Score, items, music=True)
 
     def header(self, items):
-- 
2.43.0


From e2fcad6a38e268a12415773eff5e1f667dd06e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 031/108] fix: edits() writes back elements that moved, and
 deletes no text outside the given range

---
 quickly/dom/element.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index d3a7838..c78d36b 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -640,15 +640,32 @@ class Element(Node, metaclass=ElementType):
         text outside the specified range will be deleted.
 
         """
-        pos = context.pos if start is None else start
+        start = context.pos if start is None else start
         end = context.end if end is None else end
         tokens = context.tokens()
+        points = list(self.points())
+        # the current position in the text
+        pos = min((p.pos for p in points if p.pos is not None), default=start)
+        pos = min(pos, start)
+
+        def old_content(until):
+            """Return the range of tokens between pos and until; not outside start and end."""
+            del_pos = del_end = max(pos, start)
+            for t in tokens:
+                if t.pos >= until:
+                    break
+                elif t.pos < del_pos:
+                    del_pos = del_end = max(del_pos, t.end)
+                elif t.end <= end:
+                    del_end = t.end
+            return del_pos, del_end
+
         insert_after = ''
         inserted = False
-        for point in self.points():
+        for point in points:
             space = collapse_whitespace((insert_after, point.space_before))
-            if point.pos is None:
-                # new element
+            if point.pos is None or point.pos < pos:
+                # new element, or an element from another place in the text
                 text = point.text()
                 if text:
                     yield pos, pos, space + text
@@ -660,15 +677,10 @@ class Element(Node, metaclass=ElementType):
                 # existing element
                 if point.pos > pos:
                     # see if old content needs to be deleted between pos and point.pos
-                    del_pos = del_end = pos
-                    for t in tokens:
-                        if t.pos >= point.pos:
-                            pos = t.pos
-                            break
-                        del_end = t.end
+                    del_pos, del_end = old_content(point.pos)
                     if del_end > del_pos:
-                        if space and del_end < pos:
-                            del_end = pos   # unparsed space can be ditched
+                        if space and del_end < point.pos <= end:
+                            del_end = point.pos     # unparsed space can be ditched
                         yield del_pos, del_end, space
                 elif space and inserted:
                     # only needed after a new element
@@ -680,7 +692,9 @@ class Element(Node, metaclass=ElementType):
                 insert_after = point.space_after
                 inserted = False
         if pos < end:
-            yield pos, end, ''
+            del_pos, del_end = old_content(end)
+            if del_end > del_pos:
+                yield del_pos, del_end, ''
 
     def edit(self, document, context=None, start=None, end=None,):
         """Write back the modifications to the original parce document.
-- 
2.43.0


From 8489c7d39739ee71365b9bcf1d3261e50ea2e87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 032/108] fix: comments, cdata and processing instructions are
 not dropped from html

---
 quickly/lang/html.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/lang/html.py b/quickly/lang/html.py
index de80309..b3de8de 100644
--- a/quickly/lang/html.py
+++ b/quickly/lang/html.py
@@ -237,6 +237,8 @@ class HtmlTransform(base.Transform):
                 nodes[-1].extend(items[i].obj) # add contents and CloseTag
             elif items[i].name == "html_lilypond_tag":
                 nodes[-1].extend(items[i].obj[0]) # add contents and CloseTag
+            elif isinstance(items[i].obj, element.Element):
+                nodes.append(items[i].obj)  # comment, cdata, etc
             i += 1
         return nodes
 
-- 
2.43.0


From 12b0558fe79d27226a504911d9bcdf744ae46896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 033/108] fix: a lilypond tag without closing tag can be read

---
 quickly/lang/lilypond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index b9e702e..788e6bf 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -339,12 +339,12 @@ class LilyPondTransform(base.Transform):
         Returns a two-tuple: ``([list of elements], tail_origin)``.
 
         """
+        tail_origin = ()
+        close_tag = None
         if items:
             if items[-1] == '/>':
                 tail_origin = (items.pop(),)
-                close_tag = None
             elif items.peek(-3, a.Delimiter, a.Name.Tag, a.Delimiter):
-                tail_origin = ()
                 close_tag = self.factory(htm.CloseTag, items[-3:-2], items[-1:], self.factory(htm.TagName, items[-2:-1]))
                 del items[-3:]
         nodes = [lily.Document(*self.handle_assignments(self.create_music(items)))]
-- 
2.43.0


From e633b00f4ed4374fa565b5b608f142fef62bfd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 034/108] fix: negative numbers are not dropped

---
 quickly/dom/lily.py      |  2 +-
 quickly/lang/lilypond.py | 30 ++++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index aa42f66..250e8f5 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -612,7 +612,7 @@ class Int(Number):
 
     @classmethod
     def read_head(cls, origin):
-        return int(origin[0].text)
+        return int(''.join(t.text for t in origin))
 
     def signatures(self):
         yield Unit,
diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 788e6bf..ca323d3 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -59,6 +59,19 @@ class LilyPond(parce.lang.lilypond.LilyPond):
         from .scheme import Scheme
         return Scheme.scheme
 
+    @classmethod
+    def music(cls):
+        """Musical items, including negative numbers."""
+        yield r'-\d+\.\d+', a.Number.Float
+        yield from super().music()
+
+    @lexicon(consume=True)
+    def header(cls):
+        """A header (or paper) block, including negative numbers."""
+        yield r'-\d+\.\d+', a.Number.Float
+        yield r'-\d+(?![\d/])', a.Number
+        yield from super().header
+
     @lexicon
     def html_lilypond_tag(cls):
         """LilyPond from inside Html, contents of a <lilypond> </lilypond> tag."""
@@ -1167,8 +1180,21 @@ class MusicBuilder:
 
     @_context("script")
     def script(self, obj):
-        """Called for ``script`` context: an articulation."""
-        self.add_articulation(obj)
+        """Called for ``script`` context: an articulation (or a negative number)."""
+        e = self._events
+        if isinstance(obj, lily.Fingering) and not self._music and not self._duration \
+                and e and isinstance(e[-1], lily.Direction) and e[-1].head == 0 and not len(e[-1]):
+            # no music to attach a fingering to: a negative number
+            minus = e.pop()
+            try:
+                number = self.factory(lily.Int, minus.head_origin + obj.head_origin)
+            except AttributeError:
+                number = lily.Int(-int(obj.head))
+            if not self.add_tweak(number):
+                yield from self.pending_music()
+                yield number
+        else:
+            self.add_articulation(obj)
 
     @_context("string", "scheme", "list")
     def string_scheme(self, obj):
-- 
2.43.0


From 0ca2e6af0e4ee53ee99489839a5f6d0ac72189bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 035/108] fix: post events that do not follow a note are not
 dropped

---
 quickly/lang/lilypond.py | 41 +++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index ca323d3..e55e25d 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -783,31 +783,34 @@ class MusicBuilder:
 
             yield music
             yield from self._comments
+        elif self._articulations:
+            # post events without music they could be added to
+            comments = util.pop_comments(self._articulations)
+            yield self._articulations
+            yield from comments
 
         # if there are tweaks, tags or shapes but no articulations, the
         # tweak, tag or shape is meant for the next note. Output it now.
-        for e in self._events:
-            if isinstance(e, (lily.Tweak, lily.Tag, lily.Shape)):
-                yield e
+        yield from self._events
         self.reset()
 
     def add_articulation(self, art):
-        """Add an articulation or script."""
-        if self._music or self._duration:
-            if self._events:
-                self._events[-1].append(art)
-                art = e = self._events[0]
-                for f in self._events[1:]:
-                    e.append(f)
-                    e = f
-                self._events.clear()
-            if not self._articulations:
-                self._articulations = lily.Articulations()
-            self._articulations.append(art)
-            return True
-        else:
-            print("Unbound event:", art) # TEMP
-            return False
+        """Add an articulation or script.
+
+        If there is no music it can be added to (e.g. after an identifier or a
+        ``}``), the articulations are later output on their own.
+
+        """
+        if self._events:
+            self._events[-1].append(art)
+            art = e = self._events[0]
+            for f in self._events[1:]:
+                e.append(f)
+                e = f
+            self._events.clear()
+        if not self._articulations:
+            self._articulations = lily.Articulations()
+        self._articulations.append(art)
 
     def add_spanner_id(self, node):
         """Return True if the node could be added to a spanner id that's being built."""
-- 
2.43.0


From e931078876b8391879968fc5a6ae50d8e2932695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 036/108] fix: unknown tokens in music are not dropped

---
 quickly/lang/lilypond.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index e55e25d..836b0f6 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -733,8 +733,9 @@ class MusicBuilder:
                         if meth:
                             break
                     else:
-                        # TEMP
-                        print("Unknown token:", i)
+                        # keep the text of an unknown token
+                        yield from self.pending_music()
+                        yield self.factory(base.Text, (i,))
                         continue
                 result = meth(i)
             else:
-- 
2.43.0


From 2d8dd45eeec6d4358ee2c9f36bc62f169331d951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 037/108] fix: an identifier after a tag or tweak is not
 dropped

---
 quickly/lang/lilypond.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 836b0f6..3dd408e 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1230,11 +1230,12 @@ class MusicBuilder:
     @_context("identifier_ref")
     def identifier_ref(self, obj):
         """Called for ``identifier_ref`` context: maybe articulation."""
-        if self._events:
+        e = self._events
+        if e and (self._music or self._duration or isinstance(e[-1], (lily.Direction, lily.SpannerId))):
             # after a direction: add as articulation
             self.add_articulation(obj)
         else:
-            # toplevel expression
+            # toplevel expression, maybe after a tweak or tag without music
             yield from self.pending_music()
             yield obj
 
-- 
2.43.0


From 0b4bd504158bdc1ec5f99c9fb9522d6c71caa7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 038/108] fix: post events after a duration used as argument
 are not dropped

---
 quickly/dom/lily.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 250e8f5..ef9cedf 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -491,10 +491,10 @@ class _ConvertUnpitchedToDuration(element.Element):
     def add_argument(self, node):
         """Reimplemented to pick the Duration of an Unpitched node."""
         if isinstance(node, Unpitched):
-            for node in node:
-                node = node.copy_with_origin()
-                break
-        super().add_argument(node)
+            for n in node:
+                super().add_argument(n.copy_with_origin())
+        else:
+            super().add_argument(node)
 
 
 class _ConvertUnpitchedToInt(element.Element):
@@ -503,7 +503,13 @@ class _ConvertUnpitchedToInt(element.Element):
         """Reimplemented to read the Duration of an Unpitched node as a Int."""
         if isinstance(node, Unpitched):
             for dur in node / Duration:
-                node = convert_duration_to_int(dur) or node
+                number = convert_duration_to_int(dur)
+                if number:
+                    super().add_argument(number)
+                    for n in node:
+                        if n is not dur:
+                            super().add_argument(n.copy_with_origin())
+                    return
                 break
         super().add_argument(node)
 
-- 
2.43.0


From b92796520172a5c21736a9db1981e99a2b317730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 039/108] fix: edits() ends a new singleline comment with a
 newline

---
 quickly/dom/element.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index c78d36b..552a4a7 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -640,6 +640,7 @@ class Element(Node, metaclass=ElementType):
         text outside the specified range will be deleted.
 
         """
+        from .base import SinglelineComment
         start = context.pos if start is None else start
         end = context.end if end is None else end
         tokens = context.tokens()
@@ -671,6 +672,7 @@ class Element(Node, metaclass=ElementType):
                     yield pos, pos, space + text
                     insert_after = point.space_after
                     inserted = True
+                    comment = isinstance(getattr(point.text, '__self__', None), SinglelineComment)
                 else:
                     insert_after = collapse_whitespace((space, point.space_after))
             else:
@@ -678,6 +680,9 @@ class Element(Node, metaclass=ElementType):
                 if point.pos > pos:
                     # see if old content needs to be deleted between pos and point.pos
                     del_pos, del_end = old_content(point.pos)
+                    if inserted and comment and not pos == del_pos < del_end:
+                        # the old text may be on the same line
+                        yield pos, pos, '\n'
                     if del_end > del_pos:
                         if space and del_end < point.pos <= end:
                             del_end = point.pos     # unparsed space can be ditched
-- 
2.43.0


From aa839c98bbf2c5b5c8652b3f94d188b5674d1d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 040/108] fix: string numbers are not read as durations

---
 quickly/lang/lilypond.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 3dd408e..4cb62a1 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -61,8 +61,9 @@ class LilyPond(parce.lang.lilypond.LilyPond):
 
     @classmethod
     def music(cls):
-        """Musical items, including negative numbers."""
+        """Musical items, including negative numbers and string numbers."""
         yield r'-\d+\.\d+', a.Number.Float
+        yield r'\\\d+', a.Name.Script.Articulation
         yield from super().music()
 
     @lexicon(consume=True)
-- 
2.43.0


From 370a4e26e7e24be2c3b84203a7a8042b112893d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 041/108] fix: nodes in a modified document do not get the same
 children twice

---
 quickly/lang/lilypond.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 4cb62a1..5161182 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -395,6 +395,23 @@ class LilyPondTransform(base.Transform):
         return opts, nodes, tail_origin
 
     ## helper methods
+    def fresh(self, node):
+        """Return a copy of the node (with the same child nodes).
+
+        As the results of the transform methods are cached and re-used when the
+        document is modified, child nodes may never be appended to them. Use
+        this method to get a node that child nodes may be appended to.
+
+        """
+        children = list(node)
+        node = node.copy_with_origin(False)
+        node.extend(children)
+        return node
+
+    def argument_taker(self, node):
+        """Return a :meth:`fresh` copy if the node can have arguments, otherwise the node itself."""
+        return self.fresh(node) if node.signatures() else node
+
     def common(self, items):
         """Find comment, string, scheme, markup and common tokens.
 
@@ -408,9 +425,9 @@ class LilyPondTransform(base.Transform):
                 if result:
                     yield result
             elif isinstance(i.obj, element.Element):
-                yield i.obj
+                yield self.argument_taker(i.obj)
             elif i.name == "list":
-                yield from i.obj
+                yield from map(self.argument_taker, i.obj)
             elif i.name == "markup":
                 yield from self.create_markup(i.obj, items)
 
@@ -543,7 +560,7 @@ class LilyPondTransform(base.Transform):
             elif isinstance(i.obj, element.Element):
                 if step:
                     yield step
-                step = i.obj
+                step = self.fresh(i.obj)
         if step:
             yield step
 
@@ -745,7 +762,7 @@ class MusicBuilder:
                 if not meth:
                     if isinstance(i.obj, element.Element):
                         yield from self.pending_music()
-                        yield i.obj
+                        yield self.transform.argument_taker(i.obj)
                     else:
                         # TEMP
                         print("Unknown item:", i)
@@ -1159,7 +1176,7 @@ class MusicBuilder:
               "chordmode", "figuremode")
     def flatten_elements(self, obj):
         """Called for context that yield lists of Elements; flatten them."""
-        yield from obj
+        yield from map(self.transform.argument_taker, obj)
 
     @_context("pitch")
     def pitch(self, obj):
@@ -1181,7 +1198,7 @@ class MusicBuilder:
     def music_element(self, obj):
         """An element node that is a music item (chord, figure)."""
         yield from self.pending_music()
-        self._music = obj
+        self._music = self.transform.fresh(obj)
 
     @_context("script")
     def script(self, obj):
@@ -1205,6 +1222,7 @@ class MusicBuilder:
     def string_scheme(self, obj):
         """Called for ``string``, ``scheme`` or ``list`` context."""
         obj, *comments = (obj,) if isinstance(obj, element.Element) else obj
+        obj = self.transform.fresh(obj)
         if self._events:
             # after a direction: an articulation
             if not self.add_event_argument(obj):
@@ -1231,6 +1249,7 @@ class MusicBuilder:
     @_context("identifier_ref")
     def identifier_ref(self, obj):
         """Called for ``identifier_ref`` context: maybe articulation."""
+        obj = self.transform.fresh(obj)
         e = self._events
         if e and (self._music or self._duration or isinstance(e[-1], (lily.Direction, lily.SpannerId))):
             # after a direction: add as articulation
-- 
2.43.0


From 62ffa1218538ab4abae682f66856a48699d6b4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 042/108] fix: comments at the end of a chord, markup or scheme
 list are not moved out of it

---
 quickly/dom/util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index e85366f..105b57f 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -152,10 +152,15 @@ def skip_comments(node):
 
 
 def pop_comments(node):
-    """Pop and return comments off the end of node (and/or its children)."""
+    """Pop and return comments off the end of node (and/or its children).
+
+    Comments inside a child that has a tail (e.g. a chord or a Scheme list) are
+    left alone.
+
+    """
     from .base import Comment
     comments = []
-    while len(node):
+    while len(node) and not node.write_tail():
         if isinstance(node[-1], Comment):
             comments.append(node.pop())
         else:
-- 
2.43.0


From d091baebc235c771a6692b163533be2788014bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 043/108] fix: a comment after the articulations of a pitched
 rest or chordmode note is not moved before them

---
 quickly/lang/lilypond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 5161182..ec5d812 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1266,12 +1266,12 @@ class MusicBuilder:
         Comments are preserved as good as possible.
 
         """
-        if self._modifier:
-            self._modifier.append(obj)
-        elif self._events:
+        if self._events:
             self._events[-1].append(obj)
         elif self._articulations:
             self._articulations.append(obj)
+        elif self._modifier:
+            self._modifier.append(obj)
         elif not self._music and not self._duration:
             # no pending music
             yield obj
-- 
2.43.0


From 0e13edf5d40a729a5328e095b272518d97c0fbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 044/108] fix: chord modifiers that do not follow a note do not
 raise an exception

---
 quickly/lang/lilypond.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index ec5d812..193db12 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1032,6 +1032,10 @@ class MusicBuilder:
             if not self._modifier:
                 self._modifier = lily.ChordModifiers()
             self._modifier.append(elem)
+        else:
+            # only happens in erroneous LilyPond input, but at least we keep the object
+            yield from self.pending_music()
+            yield elem
 
     @_action(a.Number)
     def number_action(self, token):
@@ -1170,7 +1174,11 @@ class MusicBuilder:
     @_context("chord_modifier")
     def chord_modifier(self, obj):
         """Called with the result of the ``chord_modifier`` context."""
-        self._modifier[-1].extend(obj)
+        if self._modifier:
+            self._modifier[-1].extend(obj)
+        else:
+            # only happens in erroneous LilyPond input, but at least we keep the object
+            yield from obj
 
     @_context("repeat", "lyricsto", "lyricmode", "drummode", "notemode",
               "chordmode", "figuremode")
-- 
2.43.0


From ef77214ec39b03b0ed5155544e4786586f97a4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 045/108] fix: rhythm edits do not give the notes inside a
 chord a duration

---
 quickly/rhythm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 9df764c..daf52cb 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -47,6 +47,9 @@ class EditRhythm(edit.Edit):
                 # as of LilyPond 2.23.6)
                 if isinstance(n, lily.Skip) and not any(n / lily.Duration):
                     continue
+                # the notes inside a chord have no duration of their own
+                if isinstance(n.parent, lily.ChordBody):
+                    continue
                 yield n
 
     @staticmethod
-- 
2.43.0


From 24dd05243ca3d785c120fcbc391e93fd5c01b5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 046/108] fix: a duration is not removed when an unpitched note
 follows after a comment or further up

---
 quickly/rhythm.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index daf52cb..5c657b1 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -32,7 +32,7 @@ or any :class:`~.dom.element.Element` node (DOM tree).
 import itertools
 
 
-from .dom import edit, lily, util
+from .dom import base, edit, lily, util
 from .duration import duration
 
 
@@ -69,12 +69,18 @@ class EditRhythm(edit.Edit):
             return False
         elif any(node / lily.Articulations):
             return True
-        n = node.right_sibling()
-        if n:
-            if isinstance(n, lily.Unpitched):
-                return False
-            elif isinstance(n, lily.LyricItem) and n.duration_required:
-                return False
+        while node:
+            # find the node that is written directly after this one
+            for n in node.right_siblings():
+                if isinstance(n, lily.Unpitched):
+                    return False
+                elif isinstance(n, lily.LyricItem) and n.duration_required:
+                    return False
+                elif not isinstance(n, base.Comment):
+                    return True
+            node = node.parent
+            if node and node.tail is not None:
+                break
         return True
 
     def edit_range(self, r):
-- 
2.43.0


From 720e81424a53ebd3f9983aa6a594e378a7150150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 047/108] fix: copying explicit rhythm does not repeat the
 duration of a \skip

---
 quickly/rhythm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 5c657b1..4dab029 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -270,11 +270,13 @@ class CopyRhythm(EditRhythm):
                 prev = None
                 for n in self.durables(r):
                     dur = n.duration_scaling
-                    if dur:
+                    if not dur:
+                        if not prev:
+                            prev = lily.previous_duration(n)
+                        dur = prev
+                    elif n.duration_sets_previous:
                         prev = dur
-                    elif not prev:
-                        prev = lily.previous_duration(n)
-                    yield prev
+                    yield dur
             return list(durations())
         return [n.duration_scaling for n in self.durables(r)]
 
-- 
2.43.0


From 16026275a2f87d4a3a3cf68c67e496b8a9ba17ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 048/108] fix: pasting rhythm does not repeat the duration of a
 \skip

---
 quickly/rhythm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 4dab029..5fbbbcc 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -309,7 +309,8 @@ class PasteRhythm(EditRhythm):
         for node, duration in zip(self.durables(r), durs):
             if duration:
                 node.duration_scaling = duration
-                prev = duration
+                if node.duration_sets_previous:
+                    prev = duration
             elif self.may_remove(node):
                 del node.duration
             elif prev:
-- 
2.43.0


From 3b5d99256277096d17698ce48bc82aec2ada8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 049/108] fix: a comment between a rest or chord and its
 duration keeps its place

---
 quickly/lang/lilypond.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 193db12..a5fb91b 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1280,9 +1280,11 @@ class MusicBuilder:
             self._articulations.append(obj)
         elif self._modifier:
             self._modifier.append(obj)
-        elif not self._music and not self._duration:
+        elif self._duration:
+            self._comments.append(obj)  # will be added after the duration
+        elif self._music:
+            self._music.append(obj)     # a duration could follow
+        else:
             # no pending music
             yield obj
-        else:
-            self._comments.append(obj)  # will be added after the duration
 
-- 
2.43.0


From f13ec9982d86b98355d6a82f5f1dfa1986357380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 050/108] fix: a duration after \rest or a chord modifier is a
 note of its own

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index a5fb91b..23c15f8 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -946,7 +946,7 @@ class MusicBuilder:
     @_action(a.Number.Duration)
     def duration_action(self, token):
         r"""Called for ``Number.Duration``."""
-        if self._duration or self._articulations:
+        if self._duration or self._modifier or self._articulations:
             yield from self.pending_music()
         self._duration = [token]
 
-- 
2.43.0


From 80cdf5868988d90cbf1746b209e5931d26009974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 051/108] fix: a comment between a lyric string and its
 duration does not separate them

---
 quickly/lang/lilypond.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 23c15f8..96a7131 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -578,21 +578,30 @@ class LilyPondTransform(base.Transform):
 
         """
         p = None
+        comments = []   # between syllable and duration
         for n in nodes:
+            if p and isinstance(n, base.Comment):
+                comments.append(n)
+                continue
             if isinstance(n, lily.Unpitched):
                 p = p or lily.LyricItem()
+                p.extend(comments)
                 p.extend(n)
                 yield p
             else:
                 if p:
                     yield p
+                    yield from comments
+                comments.clear()
                 if isinstance(n, (lily.String, lily.Symbol, lily.Scheme, lily.Markup)):
                     p = lily.LyricItem(n)
                     continue
                 yield n
             p = None
+            comments.clear()
         if p:
             yield p
+            yield from comments
 
     # dispatchers for common types
     _pitch = Dispatcher()
-- 
2.43.0


From 585c28b49e8c8597d17e38d5b25dddda15ca999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 052/108] fix: editing a selection of a single element includes
 that element

---
 quickly/dom/edit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 406392f..3e52504 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -112,6 +112,10 @@ class Edit:
             end_node = d.find_descendant_left(cursor.end)
             if end_node or start_node:
                 r = Range.from_nodes(start_node, end_node, self.range_from_root)
+                if start_node and r.ancestor() is start_node and not start_node.is_root():
+                    # one node with its children: it belongs to the range itself
+                    index = start_node.parent.index(start_node)
+                    r = Range(start_node.parent, [index], [index] + r.end_trail)
                 if start_node:
                     start = start_node.pos
                 if end_node:
-- 
2.43.0


From b0e6021e72ddbbb2839141e1e2d8e0865bcaa1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 053/108] fix: editing a selection includes everything inside
 the last selected element

---
 quickly/dom/edit.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 3e52504..428527c 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -111,15 +111,18 @@ class Edit:
             start_node = d.find_descendant_right(cursor.pos)
             end_node = d.find_descendant_left(cursor.end)
             if end_node or start_node:
+                if start_node:
+                    start = start_node.pos
+                if end_node:
+                    end = end_node.end
+                    # all descendants of the end node are in the selection
+                    while len(end_node):
+                        end_node = end_node[-1]
                 r = Range.from_nodes(start_node, end_node, self.range_from_root)
                 if start_node and r.ancestor() is start_node and not start_node.is_root():
                     # one node with its children: it belongs to the range itself
                     index = start_node.parent.index(start_node)
                     r = Range(start_node.parent, [index], [index] + r.end_trail)
-                if start_node:
-                    start = start_node.pos
-                if end_node:
-                    end = end_node.end
         elif self.range_from_cursor:
             start_node = d.find_descendant_right(cursor.pos)
             if start_node:
-- 
2.43.0


From 575e63e25681d40cfd690b0566f3ac18f10cd037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 054/108] fix: a range does not fail when children of the
 current node on the end boundary are removed

---
 quickly/node.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 4efde29..b529ea3 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -1322,7 +1322,10 @@ class Range(Common):
             self.end_trail = end_trail
             # for convenience, store start and end indices for the range
             self.start = start_trail[depth] if start_trail else 0
-            self.end = len(node) - 1 if end_trail is None else end_trail[depth] if len(end_trail) > depth else -1
+            self.end = len(node) - 1 if end_trail is None else -1
+            if end_trail is not None and len(end_trail) > depth:
+                # nodes can have been removed since the trail was made
+                self.end = min(end_trail[depth], len(node) - 1)
             self.index = -1 # so that iteration will start correctly
 
         def __iter__(self):
-- 
2.43.0


From 6106b8d933099a413f86cb1442c9da1ba0bf8dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 055/108] fix: an assignment does not take away the nodes of a
 list that is used again after an edit

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 96a7131..9a5c931 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -453,7 +453,7 @@ class LilyPondTransform(base.Transform):
                             # gotcha!!
                             first, *rest = variable
                             if isinstance(first, lily.List):
-                                identifier = lily.Identifier(*first)
+                                identifier = lily.Identifier(*(n.copy_with_origin() for n in first))
                             else:
                                 identifier = lily.Identifier(first)
                             yield lily.Assignment(identifier, *rest)
-- 
2.43.0


From a904ad4707025796d07423ae9d0e61eb708be311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 056/108] fix: a LaTeX environment without a name can be read
 and written

---
 quickly/dom/tex.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/tex.py b/quickly/dom/tex.py
index d3f34ff..ec5f13c 100644
--- a/quickly/dom/tex.py
+++ b/quickly/dom/tex.py
@@ -127,9 +127,8 @@ class EnvironmentName(element.TextElement):
     """
     @classmethod
     def read_head(cls, origin):
-        for t in origin:
-            if t.text not in "{}":
-                return t.text
+        text = ''.join(t.text for t in origin)
+        return text[text.startswith('{'):len(text) - text.endswith('}')]
 
     def write_head(self):
         return '{' + self.head + '}'
-- 
2.43.0


From 06485075407fccb6d2287af0cedd99ee70e98fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:57 +0000
Subject: [PATCH 057/108] fix: a LaTeX environment with an empty name keeps its
 contents

---
 quickly/lang/latex.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index f33f8ba..64221f2 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -160,6 +160,11 @@ class LatexTransform(base.Transform):
             end = self.factory(tex.Command, items[-4:-3])
             end.append(self.factory(tex.EnvironmentName, items[-3:]))
             items = items[:-4]
+        elif items.peek(-3, a.Name.Builtin, a.Delimiter, a.Delimiter):
+            # the name is empty
+            end = self.factory(tex.Command, items[-3:-2])
+            end.append(self.factory(tex.EnvironmentName, items[-2:]))
+            items = items[:-3]
         nodes = self.common(items)
         if end:
             nodes.append(end)
@@ -239,6 +244,10 @@ class LatexTransform(base.Transform):
                 # no options, add the name
                 env[-1].append(self.factory(tex.EnvironmentName, items[i:i+3]))
                 i += 3
+            elif items.peek(i, a.Delimiter, a.Delimiter):
+                # the name is empty
+                env[-1].append(self.factory(tex.EnvironmentName, items[i:i+2]))
+                i += 2
             elif items.peek(i, a.Delimiter.Bracket, "environment_option"):
                 # environment options
                 options, env_name = items[i+1].obj
-- 
2.43.0


From dd75eda44f775898f5dc2a17dafb9b099d901983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:08 +0000
Subject: [PATCH 058/108] fix: a comment between \markup and its argument is
 not taken for the argument

---
 quickly/lang/lilypond.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 9a5c931..e1ea92d 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -499,9 +499,12 @@ class LilyPondTransform(base.Transform):
 
         """
         origin = markup[:1]     # the \markup or \markuplist command
+        args = []
         for mkup in self.read_markup_arguments(itertools.chain(markup[1:], items)):
-            yield self.factory(lily.Markup, origin, (), mkup)
-            break
+            args.append(mkup)
+            if not isinstance(mkup, base.Comment):
+                yield self.factory(lily.Markup, origin, (), *args)
+                break
 
     def read_markup_arguments(self, items):
         """Read from items and yield nodes that can occur in markup."""
-- 
2.43.0


From 1aff833ae1465afb645439b023a7cf06be0e39fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 059/108] fix: a variable that is not defined takes no time
 instead of failing

---
 quickly/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/time.py b/quickly/time.py
index 05b9a0b..35c19d7 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -352,9 +352,9 @@ class TimeContext:
         Returns 0 if the node can't be found or is no music.
 
         """
-        node, scope = node.get_value_with_scope(self.time.scope, self.time.wait)
+        scope = self.time.scope
         while isinstance(node, lily.Reference):
-            node, scope = node.get_value_with_scope(scope, self.time.wait)
+            node, scope = node.get_value_with_scope(scope, self.time.wait) or (None, None)
         if isinstance(node, lily.Music):
             time = type(self.time)(scope, self.time.wait)
             return node.time_length(self.enter(node, time), None)
-- 
2.43.0


From 124ecbaee58ffc938db019928fc4166579208c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 060/108] fix: no musical position after the last node instead
 of an error

---
 quickly/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/time.py b/quickly/time.py
index 35c19d7..0ccd093 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -145,6 +145,8 @@ class Time:
     @staticmethod
     def _music_child(node):
         """Return the topmost Music child or None."""
+        if node is None:
+            return
         # avoid picking one note of a chord
         if isinstance(node, lily.Chord):
             return node
-- 
2.43.0


From afc567972e42aeeeed528911a9e13e69eb47367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 061/108] fix: alternatives of a repeat come after its music

---
 quickly/dom/lily.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index ef9cedf..3e598e6 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1306,6 +1306,10 @@ class Repeat(element.HeadElement, Music):
         yield Symbol, INT, MUSIC
         yield Symbol, INT, MUSIC, Alternative
 
+    def is_sequential(self):
+        r"""Return True; the ``\alternative`` comes after the music."""
+        return True
+
 
 class Alternative(element.HeadElement, Music):
     """Alternative music for repeats."""
-- 
2.43.0


From 61d6957e8980fd05f992ec7e9ec786cf8a98b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 062/108] fix: \afterGrace with a variable takes the time of
 the variable's music

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 3e598e6..7aa3496 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2382,7 +2382,7 @@ class AfterGrace(element.HeadElement, Music):
 
         """
         for n in self[:end]:
-            if isinstance(n, Music):
+            if isinstance(n, (Music, Reference)):
                 return context.length(n)
         return 0
 
-- 
2.43.0


From b83d47ac508b3c00cca68952c6dc4bcdcafdddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 063/108] fix: Reference.get_value() obeys its wait argument

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 7aa3496..6484460 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -423,7 +423,7 @@ class Reference(element.Element):
         :meth:`get_value_with_scope`.
 
         """
-        result = self.get_value_with_scope(scope)
+        result = self.get_value_with_scope(scope, wait)
         if result:
             return result[0]
 
-- 
2.43.0


From 641ef310b56d8e2af65c1943c8aaae0e603f8041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 064/108] fix: the duration of a selection up to the end of an
 assignment

---
 quickly/time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/time.py b/quickly/time.py
index 0ccd093..8f7b2cb 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -274,6 +274,10 @@ class Time:
                         n = dom.find_descendant_left(end)
                         if n:
                             end_node = self._music_child(n)
+                            # music at the end of e.g. an assignment
+                            while not end_node and len(n) and n[-1].end == n.end:
+                                n = n[-1]
+                                end_node = self._music_child(n)
                             if end_node:
                                 result = self.duration(start_node, end_node)
                                 if result and result.time >= 0:
-- 
2.43.0


From b4d9792964b7cb1201f4472d3a2a64b74a6fd3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 065/108] fix: the number of \mark is not a note that takes
 time

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 6484460..ff4eb5b 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2078,7 +2078,7 @@ class Label(element.HeadElement, Music):
         yield Scheme,
 
 
-class Mark(element.HeadElement, Music):
+class Mark(_ConvertUnpitchedToInt, element.HeadElement, Music):
     r"""A ``\mark`` command. Has one child."""
     head = r'\mark'
 
-- 
2.43.0


From 6e18d71da34f502f8801c2b5c1ccd5cb3c45b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 066/108] fix: a comment after the equal sign is not the value
 of an assignment

---
 quickly/dom/lily.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index ff4eb5b..e69b7cf 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1022,7 +1022,9 @@ class Assignment(element.Element):
     def get_value(self):
         """Return the value after the equalsign."""
         for child in self / EqualSign:
-            return child.right_sibling()
+            for node in child.right_siblings():
+                if not isinstance(node, base.Comment):
+                    return node
 
 
 class Identifier(List):
-- 
2.43.0


From 882e2287051143d92f2f9b8c0b1c23a9d63191f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 067/108] fix: setting a variable replaces its value, also when
 it is followed by a comment

---
 quickly/dom/lily.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index e69b7cf..29df8d0 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -559,7 +559,11 @@ class HandleAssignments(element.Element):
         node = create_element_from_value(value)
         assignment = self.find_assignment(name)
         if assignment:
-            assignment[-1] = node
+            old = assignment.get_value()
+            if old is None:
+                assignment.append(node)
+            else:
+                old.replace_with(node)
         else:
             self.append(Assignment.with_name(name, node))
 
-- 
2.43.0


From e37d2b0ead498a5ab7b5a46f12df858a94314622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 068/108] fix: \tag, \keepWithTag and \removeWithTag are music

---
 quickly/dom/lily.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 29df8d0..0f0ef25 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2549,7 +2549,7 @@ class FigureAlteration(element.MappingElement):
     }
 
 
-class Tag(element.HeadElement):
+class Tag(element.HeadElement, Music):
     r"""A ``\tag`` command."""
     head = r'\tag'
 
@@ -2557,7 +2557,7 @@ class Tag(element.HeadElement):
         yield (Symbol, String, Scheme), MUSIC
 
 
-class KeepWithTag(element.HeadElement):
+class KeepWithTag(element.HeadElement, Music):
     r"""A ``\keepWithTag`` command."""
     head = r'\keepWithTag'
 
@@ -2565,7 +2565,7 @@ class KeepWithTag(element.HeadElement):
         yield (Symbol, String, Scheme), MUSIC
 
 
-class RemoveWithTag(element.HeadElement):
+class RemoveWithTag(element.HeadElement, Music):
     r"""A ``\removeWithTag`` command."""
     head = r'\removeWithTag'
 
-- 
2.43.0


From 5b455fb6ee2be27f7649935ea8c21abba5ffa5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 069/108] fix: the duration between two children of a tuplet
 was scaled twice

---
 quickly/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/time.py b/quickly/time.py
index 8f7b2cb..8ea5a75 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -223,9 +223,9 @@ class Time:
         # common part, just follow transform
         index = -1
         for index, (pos, end) in enumerate(zip(start_trail, end_trail)):
-            context = context.enter(node)
             if pos != end:
                 break
+            context = context.enter(node)
             node = node[pos]
         else:
             index += 1
-- 
2.43.0


From 9844a9b4afb93fa839e1355da20abd9f4620b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 070/108] fix: reading the value of a Scheme number, boolean or
 string failed

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 0f0ef25..665f43b 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3468,7 +3468,7 @@ def create_value_from_element(node):
         if len(node) == 1:
             node = node[0]
             if isinstance(node, (scm.Bool, scm.Number, scm.String)):
-                return node.value
+                return node.head
 
 
 def get_num_value(node):
-- 
2.43.0


From fa13d90201a181296955fabaec22ee3922bb3015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 071/108] fix: of a setting given twice the last one is in
 force

---
 quickly/dom/lily.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 665f43b..517fb48 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -29,7 +29,7 @@ import itertools
 import re
 
 from .. import duration, pitch
-from . import base, element, scm
+from . import base, element, scm, util
 
 
 class Music(element.Element):
@@ -517,8 +517,12 @@ class _ConvertUnpitchedToInt(element.Element):
 class HandleAssignments(element.Element):
     """Mixin class to handle Assignment children in a convenient way."""
     def find_assignment(self, name):
-        """Find the Assignment with the specified name."""
-        for n in self/Assignment:
+        """Find the Assignment with the specified name.
+
+        If there are more, the last one is returned, as that value is in force.
+
+        """
+        for n in reversed(list(self/Assignment)):
             for v in n/Identifier:
                 if v.get_name() == name:
                     return n
@@ -571,12 +575,15 @@ class HandleAssignments(element.Element):
         """Convenience method to delete a variable assignment.
 
         If an Assignment exists with the named variable, it is removed from its
-        parent.
+        parent. If there are more, they are all removed.
 
         """
         assignment = self.find_assignment(name)
-        if assignment:
-            self.remove(assignment)
+        while assignment:
+            # keep comments after the value
+            i = self.index(assignment)
+            self[i:i+1] = util.pop_comments(assignment)
+            assignment = self.find_assignment(name)
 
     def variables(self):
         """Convenience method to return a list of the available variable names."""
-- 
2.43.0


From 8c5dd8ca416b8623b4445f62eca4ef3cc0024aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 072/108] fix: setting a variable lost the comments after the
 old value

---
 quickly/dom/lily.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 517fb48..91061a6 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -567,7 +567,9 @@ class HandleAssignments(element.Element):
             if old is None:
                 assignment.append(node)
             else:
+                comments = util.pop_comments(assignment)
                 old.replace_with(node)
+                assignment.extend(comments)
         else:
             self.append(Assignment.with_name(name, node))
 
-- 
2.43.0


From 0f912b9e8f328cf4e318866fa1835aa1d42abd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 073/108] fix: floats were written with an exponent

---
 quickly/dom/lily.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 91061a6..0662352 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -24,6 +24,7 @@ Elements needed for LilyPond expressions.
 
 
 import collections
+import decimal
 import fractions
 import itertools
 import re
@@ -673,6 +674,10 @@ class Float(Number):
     def check_head(cls, head):
         return isinstance(head, (int, float))
 
+    def write_head(self):
+        """Write without exponent, which LilyPond does not read."""
+        return format(decimal.Decimal(repr(self.head)), 'f')
+
     def signatures(self):
         yield Unit,
 
-- 
2.43.0


From f4322a53b15345123e34cbc9665fd230292014c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 074/108] fix: text in header and paper blocks was dropped

---
 quickly/lang/lilypond.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index e1ea92d..7157766 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -421,9 +421,8 @@ class LilyPondTransform(base.Transform):
         items = iter(items)
         for i in items:
             if i.is_token:
-                result = self._action(i.action, i)
-                if result:
-                    yield result
+                # keep the text of an unknown token
+                yield self._action(i.action, i) or self.factory(base.Text, (i,))
             elif isinstance(i.obj, element.Element):
                 yield self.argument_taker(i.obj)
             elif i.name == "list":
@@ -645,7 +644,10 @@ class LilyPondTransform(base.Transform):
     @_action(a.Keyword)
     def keyword_action(self, token):
         r"""Called for ``Keyword``."""
-        return self._keyword(token.text, token)
+        node = self._keyword(token.text, token)
+        if node is None and token.text in MusicBuilder._keyword_mapping:
+            node = self.factory(MusicBuilder._keyword_mapping[token.text], (token,))
+        return node
 
     @_action(a.Name.Builtin.Unit)
     def name_builtin_unit_action(self, token):
-- 
2.43.0


From 2d707c4d2b4a9459e76e56c063473ec86fdf632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 075/108] fix: editing a selection could delete the end of a
 block

---
 quickly/dom/edit.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 428527c..3f08503 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -123,6 +123,14 @@ class Edit:
                     # one node with its children: it belongs to the range itself
                     index = start_node.parent.index(start_node)
                     r = Range(start_node.parent, [index], [index] + r.end_trail)
+                if start_node:
+                    # a node is in the range when all its children are
+                    while start_node.parent and start_node.parent[0] is start_node and start_node.parent is not r.ancestor():
+                        start_node = start_node.parent
+                        start = start_node.pos
+                if end_node and r.ancestor().end is not None:
+                    # the text at the end of a parent can't be edited
+                    end = min(end, r.ancestor().end)
         elif self.range_from_cursor:
             start_node = d.find_descendant_right(cursor.pos)
             if start_node:
-- 
2.43.0


From 99381396944afee72941793b19d772cc6f4dcd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:00 +0000
Subject: [PATCH 076/108] fix: relative music in other music, chords, markup
 and checked notes became wrong in absolute music

---
 quickly/relative.py | 53 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index e969e84..a007c99 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -26,6 +26,16 @@ from .dom import edit, lily, util
 from .pitch import Pitch, PitchProcessor
 
 
+def _is_relative(node):
+    """True if the notes in the node would be relative because of a parent of the node."""
+    for n in node.ancestors():
+        if isinstance(n, lily.Relative):
+            return True
+        elif isinstance(n, (lily.Absolute, lily.Fixed, lily.Transpose, lily.Markup)):
+            return False
+    return False
+
+
 class Rel2abs(edit.Edit):
     r"""Convert ``\relative`` music to absolute.
 
@@ -66,39 +76,47 @@ class Rel2abs(edit.Edit):
 
         def notes(nodes):
             """Yield note/rest, chord and octavecheck; follow pitch language."""
-            for n in processor.follow_language(nodes):
-                if isinstance(n, lily.Pitchable):
+            for n in processor.follow_language(list(nodes)):
+                if isinstance(n, (lily.Pitchable, lily.Chord, lily.OctaveCheck)):
                     yield n
                     # music in markup expressions?
-                    for n in node.instances_of(lily.Relative):
-                        make_absolute(n)
-                elif isinstance(n, (lily.Chord, lily.OctaveCheck)):
-                    yield n
+                    if not isinstance(n, lily.Chord):
+                        convert_nested(n)
                 elif isinstance(n, lily.Relative):
                     make_absolute(n)
                 elif isinstance(n, (
                         lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
                         lily.Transpose, lily.Transposition, lily.StringTuning,
+                        lily.Markup,
                     )):
-                    pass
+                    convert_nested(n)
                 else:
                     yield from notes(n)
 
+        def convert_nested(nodes):
+            r"""Only convert ``\relative`` music inside the nodes."""
+            for n in processor.follow_language(list(nodes)):
+                if isinstance(n, lily.Relative):
+                    make_absolute(n)
+                else:
+                    convert_nested(n)
+
         def make_absolute(node):
             """Convert this relative music to absolute music."""
             parent = node.parent
             index = parent.index(node)
 
             nodes = list(util.skip_comments(node))
-            if len(nodes) > 1 and isinstance(nodes[0], lily.Pitch):
+            if len(nodes) > 1 and isinstance(nodes[0], lily.Pitchable):
                 start_note, *nodes = nodes
                 last_pitch = processor.read_node(start_note)
+                node.remove(start_note)
             elif first_pitch_absolute:
                 last_pitch = Pitch(-1, 3, 0)
             else:
                 last_pitch = Pitch(0, 0, 0)
 
-            parent[index:index+1] = nodes   # remove \relative node but keep its child(ren)
+            parent[index:index+1] = list(node)  # remove \relative node but keep its child(ren)
 
             for n in notes(nodes):
                 if isinstance(n, lily.Pitchable):
@@ -106,26 +124,31 @@ class Rel2abs(edit.Edit):
                     with processor.process(n) as p:
                         default_octave = p.octave - n.octave # the octave of the pitch name itself
                         p.make_absolute(last_pitch, default_octave)
+                        if n.oct_check is not None:
+                            p.octave = n.oct_check + default_octave
                         last_pitch = p
                 elif isinstance(n, lily.Chord):
                     # chord
                     stack = [last_pitch]
-                    for note in notes(n):
+                    for note in (note for body in n / lily.ChordBody for note in notes(body)):
                         with processor.process(note) as p:
                             default_octave = p.octave - note.octave # the octave of the pitch name itself
                             p.make_absolute(stack[-1], default_octave)
+                            if note.oct_check is not None:
+                                p.octave = note.oct_check + default_octave
                             stack.append(p)
                     last_pitch = stack[:2][-1]  # first note of chord, or the old if chord was empty
+                    convert_nested(n ^ lily.ChordBody)
                 elif isinstance(n, lily.OctaveCheck):
                     # OctaveCheck, read last_pitch but remove
-                    for note in notes(n):
+                    for note in n / lily.Pitchable:
                         last_pitch = processor.read_node(note)
                     n.parent.remove(n)
         # Do it!
-        nodes = r.instances_of((lily.Language, lily.Include, lily.Relative))
-        for n in processor.follow_language(nodes):
-            if isinstance(n, lily.Relative) and r.in_range():
-                make_absolute(n)
+        nodes = list(r.filter(lambda n: isinstance(n, lily.Relative) and r.in_range() and not _is_relative(n)))
+        for n in nodes:
+            processor.find_language(n)
+            make_absolute(n)
 
 
 def rel2abs(music):
-- 
2.43.0


From 5019116e2e1926655b70cefa467b0a83a3afcfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:01 +0000
Subject: [PATCH 077/108] fix: chords, checked notes, nested relative music and
 selections became wrong in relative music

---
 quickly/relative.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index a007c99..af30522 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -217,12 +217,18 @@ class Abs2rel(edit.Edit):
             """Find MusicList nodes, and if they contain notes, make relative."""
             for n in r.instances_of((lily.MusicList, lily.Relative, lily.ChordMode)):
                 if isinstance(n, lily.MusicList):
-                    if any(n / lily.Pitchable) and r.in_range():
+                    if _is_relative(n):
+                        pass
+                    elif any(n / (lily.Pitchable, lily.Chord)) and r.in_range():
+                        processor.find_language(n)
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
                     else:
                         abs2rel()
                 elif isinstance(n, lily.ChordMode):
-                    r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
+                    notes = (c for m in n / lily.MusicList for c in m / (lily.Pitchable, lily.Chord))
+                    if any(notes) and r.in_range() and not _is_relative(n):
+                        processor.find_language(n)
+                        r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
 
         # Do it!
         abs2rel()
@@ -256,12 +262,19 @@ class Abs2rel(edit.Edit):
                 last_pitch = Pitch(0, 0, 0)
             return last_pitch
 
+        def follow_language(node):
+            """Only follow the language in the node, pitches in it are not relative."""
+            for _ in processor.follow_language(node.descendants()):
+                pass
+
         def relative_note(node, last_pitch):
             with processor.process(node) as p:
                 default_octave = p.octave - node.octave
                 if last_pitch is None:
                     last_pitch = get_first_pitch(p)
                 lp = p.copy()
+                if node.oct_check is not None:
+                    node.oct_check = p.octave - default_octave
                 p.make_relative(last_pitch, default_octave)
             return lp
 
@@ -269,16 +282,26 @@ class Abs2rel(edit.Edit):
             for n in processor.follow_language(node):
                 if isinstance(n, lily.Pitchable):
                     last_pitch = relative_note(n, last_pitch)
+                    follow_language(n)
                 elif isinstance(n, lily.Chord):
                     stack = [last_pitch]
-                    for note in n / lily.Pitchable:
-                        stack.append(relative_note(note, last_pitch))
+                    for body in n / lily.ChordBody:
+                        for note in body / lily.Pitchable:
+                            stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
+                    follow_language(n)
+                elif isinstance(n, lily.OctaveCheck):
+                    for note in n / lily.Pitchable:
+                        p = processor.read_node(note)
+                        if last_pitch is None:
+                            get_first_pitch(p)
+                        last_pitch = p
                 elif isinstance(n, (
                     lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
                     lily.Transpose, lily.Transposition, lily.StringTuning,
+                    lily.Relative, lily.Markup,
                 )):
-                    pass
+                    follow_language(n)
                 else:
                     last_pitch = relative_notes(n, last_pitch)
             return last_pitch
-- 
2.43.0


From d7803ef746e8c6ea53b6322c7b0254cbbbe9892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 078/108] fix: the sum and the difference of transposers could
 not be used or were wrong

---
 quickly/transpose.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index f83112f..433447e 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -89,6 +89,7 @@ class Transposer(AbstractTransposer):
 
     def __add__(self, other):
         t = type(self).__new__(type(self))
+        t.scale = self.scale
         doct, t.steps = divmod(self.steps + other.steps, 7)
         t.octave = self.octave + other.octave + doct
         t.alter = self.alter + other.alter - doct * 6
@@ -96,9 +97,10 @@ class Transposer(AbstractTransposer):
 
     def __sub__(self, other):
         t = type(self).__new__(type(self))
+        t.scale = self.scale
         doct, t.steps = divmod(self.steps - other.steps, 7)
         t.octave = self.octave - other.octave + doct
-        t.alter = self.alter - other.alter + doct * 6
+        t.alter = self.alter - other.alter - doct * 6
         return t
 
 
-- 
2.43.0


From 09ace8dad3df725e7e9f97b45da367ff467cb857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:12 +0000
Subject: [PATCH 079/108] fix: an added bass note was not transposed

---
 quickly/transpose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 433447e..e54ac2b 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -156,7 +156,7 @@ class Transpose(edit.Edit):
                 if isinstance(n, lily.Pitchable):
                     yield n
                     transpose_absolute(n)   # e.g. notes in markup scores
-                elif isinstance(n, (lily.Key, lily.Inversion)):
+                elif isinstance(n, (lily.Key, lily.Inversion, lily.AddInversion)):
                     transpose_no_octave(n)
                 elif isinstance(n, lily.Absolute):
                     transpose_absolute(n)
-- 
2.43.0


From 34b81ff9287ff76216512cc9bad37951185f2b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 080/108] fix: music in \transpose in relative music was
 transposed as relative

---
 quickly/transpose.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index e54ac2b..5856555 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -165,10 +165,10 @@ class Transpose(edit.Edit):
                 elif isinstance(n, lily.Fixed):
                     transpose_fixed(n)
                 elif isinstance(n, lily.Transpose):
-                    pitches, rest = n[:2], n[2:]
-                    for p in transpose_pitches(pitches):
+                    nodes = list(util.skip_comments(n))
+                    for p in transpose_pitches(nodes[:2]):
                         p.octave -= self.transposer.octave
-                    yield from notes(rest)
+                    transpose_absolute(nodes[2:])   # also in relative mode
                 elif isinstance(n, (lily.Transposition, lily.StringTuning)):
                     pass    # don't change child nodes
                 elif relative_mode and isinstance(n, (lily.Chord, lily.OctaveCheck)):
-- 
2.43.0


From 4a02c162361382424534781e03831bc086b88b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:16 +0000
Subject: [PATCH 081/108] fix: octave checks in relative music were transposed
 wrongly

---
 quickly/transpose.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 5856555..d9715c5 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -219,6 +219,8 @@ class Transpose(edit.Edit):
                 default_octave = p.octave - note.octave # the octave of the pitch name itself
                 # absolute pitch determined from untransposed pitch of last_pitch
                 p.make_absolute(last_pitch, default_octave)
+                if note.oct_check is not None:
+                    p.octave = note.oct_check + default_octave
                 if not writable(note):
                     return p
                 # we may change this pitch. Make it relative against the
@@ -248,8 +250,6 @@ class Transpose(edit.Edit):
                     with processor.process(start_note) as p:
                         self.transposer.transpose(p)
                     last_pitch.transposed = p
-                    last_pitch.octave -= self.transposer.octave
-                    last_pitch.transposed.octave -= self.transposer.octave
             else:
                 last_pitch = Pitch(-1, 3, 0) if relative_first_pitch_absolute else Pitch(0, 0, 0)
 
-- 
2.43.0


From cdb98138b3ec74cf47fe6efb55e0206db31765fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:16 +0000
Subject: [PATCH 082/108] fix: fixed music, chord mode, markup and selections
 were transposed wrongly

---
 quickly/transpose.py | 55 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index d9715c5..0710dba 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -123,6 +123,8 @@ class Transpose(edit.Edit):
     You may change these attributes after instantiation.
 
     """
+    range_from_root = True  # notes in a selection can be in relative music
+
     def __init__(self, transposer, processor=None, relative_first_pitch_absolute=None):
         #: The :class:`Transposer` that can transpose pitches.
         self.transposer = transposer
@@ -144,7 +146,20 @@ class Transpose(edit.Edit):
         if relative_first_pitch_absolute is None:
             relative_first_pitch_absolute = util.lilypond_version(node) >= (2, 18)
 
-        writable = (lambda n: True) if r.is_full() else (lambda n: n in r)
+        if r.is_full():
+            writable = lambda n: True
+        else:
+            # determine this now, because adding an octave moves other nodes
+            pitches = set(id(n) for n in node // lily.Pitchable if n in r)
+            writable = lambda n: id(n) in pitches
+
+        # the number of octaves \fixed music is already transposed by its pitch
+        offset = 0
+
+        def transpose_pitch(pitch):
+            """Transpose one pitch."""
+            self.transposer.transpose(pitch)
+            pitch.octave -= offset
 
         def notes(nodes, relative_mode=False):
             """Yield notes (lily.Pitchable) to be transposed.
@@ -160,6 +175,8 @@ class Transpose(edit.Edit):
                     transpose_no_octave(n)
                 elif isinstance(n, lily.Absolute):
                     transpose_absolute(n)
+                elif isinstance(n, lily.Markup):
+                    transpose_markup(n)
                 elif isinstance(n, lily.Relative):
                     transpose_relative(n)
                 elif isinstance(n, lily.Fixed):
@@ -180,7 +197,7 @@ class Transpose(edit.Edit):
             """Transpose the notes, and yield their pitches for extra changes."""
             for n in notes(nodes):
                 with processor.process(n, writable(n)) as p:
-                    self.transposer.transpose(p)
+                    transpose_pitch(p)
                     yield p
 
         def transpose_no_octave(nodes):
@@ -188,7 +205,7 @@ class Transpose(edit.Edit):
             for n in notes(nodes):
                 with processor.process(n, writable(n)) as p:
                     octave = p.octave
-                    self.transposer.transpose(p)
+                    transpose_pitch(p)
                     p.octave = octave
 
         def transpose_absolute(nodes):
@@ -198,17 +215,25 @@ class Transpose(edit.Edit):
 
         def transpose_fixed(node):
             r"""Transpose \fixed pitches: handle octave nicely."""
+            nonlocal offset
             nodes = util.skip_comments(node)
+            old_offset = offset
             for note in nodes:
                 if isinstance(note, lily.Pitchable) and writable(note):
                     # we may change this note, modify the octave
-                    offset = self.transposer.octave
                     with processor.process(note) as p:
-                        self.transposer.transpose(p)
-                else:
-                    offset = 0
-                for p in transpose_pitches(nodes):
-                    p.octave -= offset
+                        octave = p.octave
+                        transpose_pitch(p)
+                        offset += p.octave - octave
+                transpose_absolute(nodes)
+            offset = old_offset
+
+        def transpose_markup(node):
+            """Transpose scores in markup, which are not affected by the music around it."""
+            nonlocal offset
+            old_offset, offset = offset, 0
+            transpose_absolute(node)
+            offset = old_offset
 
         def transpose_relative(node):
             r"""Transpose \relative music."""
@@ -233,7 +258,7 @@ class Transpose(edit.Edit):
                 # last_pitch. Next time that is used for making the next pitch
                 # relative correctly.
                 last_pitch = p.copy()
-                self.transposer.transpose(p)
+                transpose_pitch(p)
                 last_pitch.transposed = p.copy()
                 if note.oct_check is not None:
                     note.oct_check = p.octave - default_octave
@@ -248,7 +273,7 @@ class Transpose(edit.Edit):
                 last_pitch = processor.read_node(start_note)    # untransposed
                 if writable(start_note):
                     with processor.process(start_note) as p:
-                        self.transposer.transpose(p)
+                        transpose_pitch(p)
                     last_pitch.transposed = p
             else:
                 last_pitch = Pitch(-1, 3, 0) if relative_first_pitch_absolute else Pitch(0, 0, 0)
@@ -261,16 +286,18 @@ class Transpose(edit.Edit):
                 elif isinstance(n, lily.Chord):
                     # chord
                     stack = [last_pitch]
-                    for note in notes(n):
-                        stack.append(transpose(note, stack[-1]))
+                    for body in n / lily.ChordBody:
+                        for note in notes(body):
+                            stack.append(transpose(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first note of chord, or the old if chord was empty
+                    transpose_absolute(n ^ lily.ChordBody)
                 elif isinstance(n, lily.OctaveCheck):
                     # OctaveCheck, also transpose and keep as new last_pitch
                     for note in notes(n):
                         p = processor.read_node(note)
                         last_pitch = p.copy()
                         if writable(note):
-                            self.transposer.transpose(p)
+                            transpose_pitch(p)
                             last_pitch.transposed = p
                             processor.write_node(note, p)
         # Do it!
-- 
2.43.0


From e06eedb000a0a3d298749274e6be9f0a10d0731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:02 +0000
Subject: [PATCH 083/108] fix: a LaTeX lilypond environment with only
 unfinished options could not be read

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 7157766..0b14d75 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -386,7 +386,7 @@ class LilyPondTransform(base.Transform):
             end = self.factory(tex.Command, items[-4:-3])
             end.append(self.factory(tex.EnvironmentName, items[-3:]))
             items = items[:-4]
-        elif items[-1] == '}' and items[-1].action is a.Delimiter.Brace:
+        elif items and items[-1] == '}' and items[-1].action is a.Delimiter.Brace:
             # short form \lilypond { ... }
             tail_origin = (items.pop(),)
         nodes = [lily.Document(*self.handle_assignments(self.create_music(items)))]
-- 
2.43.0


From ee9d15a2717cde865f44a128fd2e7e39b04c77ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:49 +0000
Subject: [PATCH 084/108] fix: selecting everything failed and a selection
 without music edited the document

---
 quickly/dom/edit.py | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 3f08503..7db9fed 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -106,36 +106,35 @@ class Edit:
 
         """
         d = cursor.document().get_transform(True)
-        r = start = end = None
+        start = end = None
         if cursor.has_selection():
-            start_node = d.find_descendant_right(cursor.pos)
-            end_node = d.find_descendant_left(cursor.end)
-            if end_node or start_node:
-                if start_node:
-                    start = start_node.pos
-                if end_node:
-                    end = end_node.end
-                    # all descendants of the end node are in the selection
-                    while len(end_node):
-                        end_node = end_node[-1]
+            pos, end_pos = cursor.selection()
+            start_node = d.find_descendant_right(pos)
+            end_node = d.find_descendant_left(end_pos)
+            if start_node and end_node and start_node.pos < end_node.end:
+                start = start_node.pos
+                end = end_node.end
+                # all descendants of the end node are in the selection
+                while len(end_node):
+                    end_node = end_node[-1]
                 r = Range.from_nodes(start_node, end_node, self.range_from_root)
-                if start_node and r.ancestor() is start_node and not start_node.is_root():
+                if r.ancestor() is start_node and not start_node.is_root():
                     # one node with its children: it belongs to the range itself
                     index = start_node.parent.index(start_node)
                     r = Range(start_node.parent, [index], [index] + r.end_trail)
-                if start_node:
-                    # a node is in the range when all its children are
-                    while start_node.parent and start_node.parent[0] is start_node and start_node.parent is not r.ancestor():
-                        start_node = start_node.parent
-                        start = start_node.pos
-                if end_node and r.ancestor().end is not None:
+                # a node is in the range when all its children are
+                while start_node.parent and start_node.parent[0] is start_node and start_node.parent is not r.ancestor():
+                    start_node = start_node.parent
+                    start = start_node.pos
+                if r.ancestor().end is not None:
                     # the text at the end of a parent can't be edited
                     end = min(end, r.ancestor().end)
+            else:
+                r = Range(d, [1], [0])  # no nodes in the selection
         elif self.range_from_cursor:
             start_node = d.find_descendant_right(cursor.pos)
-            if start_node:
-                r = Range.from_nodes(start_node)
-        if r is None:
+            r = Range.from_nodes(start_node) if start_node else Range(d, [1], [0])
+        else:
             r = Range(d)
         self._document = cursor.document()
         self._changes = 0
-- 
2.43.0


From ee97f86ad6b9d17ec8fef32a0e8d35f0ffd96b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:50 +0000
Subject: [PATCH 085/108] fix: spanners with a direction, tweak or comment, or
 in another context were matched wrongly

---
 quickly/dom/lily.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 0662352..53960a6 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -764,18 +764,33 @@ class Spanner(element.MappingElement):
             <lily.Slur 'stop' [24:25]>
 
         """
-        upto = next(self << (Assignment, New, Document, Score), None)
+        def scope(node):
+            """The node the counterpart must be in."""
+            return next(node << (Assignment, New, Document, Score), None)
+
+        def spanner_id(node):
+            """The id of the spanner; the spanner may have a direction or tweaks."""
+            for n in node.ancestors():
+                if isinstance(n, SpannerId):
+                    for i in n:
+                        if not isinstance(i, base.Comment):
+                            return None if i is node else i
+                elif not isinstance(n, (Direction, Tweak)):
+                    break
+                node = n
+
+        upto = scope(self)
         nodes = self.forward(upto) if self.head == "start" else self.backward(upto)
         if limit:
             nodes = itertools.islice(nodes, limit)
         cls, head = type(self), self.head
-        parallel = lambda n: type(n) is cls and n.head != head
+        parallel = lambda n: type(n) is cls and n.head != head and scope(n) is upto
 
-        spanner_id = self.left_sibling() if isinstance(self.parent, SpannerId) else None
-        if spanner_id:
-            spanner_ok = lambda n: isinstance(n.parent, SpannerId) and spanner_id.equals(n.left_sibling())
+        own_id = spanner_id(self)
+        if own_id:
+            spanner_ok = lambda n: own_id.equals(spanner_id(n))
         else:
-            spanner_ok = lambda n: not isinstance(n.parent, SpannerId)
+            spanner_ok = lambda n: spanner_id(n) is None
 
         for n in filter(lambda n: parallel(n) and spanner_ok(n), nodes):
             return n
-- 
2.43.0


From aa0d2dd17d13a34cf01eb2d9b9dc6022605a9074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:52 +0000
Subject: [PATCH 086/108] fix: music in a list within a list in chord mode was
 not made relative

---
 quickly/relative.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index af30522..0d1fdfc 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -226,9 +226,13 @@ class Abs2rel(edit.Edit):
                         abs2rel()
                 elif isinstance(n, lily.ChordMode):
                     notes = (c for m in n / lily.MusicList for c in m / (lily.Pitchable, lily.Chord))
-                    if any(notes) and r.in_range() and not _is_relative(n):
+                    if _is_relative(n):
+                        pass
+                    elif any(notes) and r.in_range():
                         processor.find_language(n)
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
+                    else:
+                        abs2rel()
 
         # Do it!
         abs2rel()
-- 
2.43.0


From 2e508f49a070114dd38ec8377332e3f19f9e11d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:23 +0000
Subject: [PATCH 087/108] fix: a key with a mode that is a variable was not
 found, or raised TypeError

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 53960a6..2afde74 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2208,7 +2208,7 @@ class Key(element.HeadElement, Music):
                 elif isinstance(n, Mode):
                     mode = n.head
                 elif isinstance(n, IdentifierRef):
-                    scope, n = n.get_value_with_scope(scope, wait)
+                    n, scope = n.get_value_with_scope(scope, wait) or (None, None)
                     continue
                 elif isinstance(n, Scheme):
                     for n in n // scm.List:
-- 
2.43.0


From aa7a4f6e66cf8f7140dc3e8188eee726ade375c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:24 +0000
Subject: [PATCH 088/108] fix: an empty included file was not found

---
 quickly/dom/scope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index 1bdcda1..16e4dbd 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -91,7 +91,7 @@ class Scope:
         """
         for u in self.urls(url):
             doc = self.get_document(u)
-            if doc:
+            if doc is not None:
                 return type(self)(doc, self, self.factory, node)
 
     def ancestors(self):
-- 
2.43.0


From 55910b2fa98c87227f305fbd67631ba266e2af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:26 +0000
Subject: [PATCH 089/108] fix: included files with another name than *.ly or
 *.ily were not read as LilyPond

---
 quickly/dom/scope.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index 16e4dbd..cecd29b 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -23,9 +23,11 @@ The Scope class finds included documents.
 """
 
 
+import functools
 import reprlib
 from urllib.parse import urljoin, urlparse
 
+import parce
 import parce.util
 
 import quickly
@@ -43,8 +45,8 @@ class Scope:
 
     The ``factory`` keyword parameter and attribute is a callable that should
     return a :class:`parce.Document` for a filename. If you don't specify a
-    factory, a default one is used that loads a Document from the file system,
-    and if found, caches it using a cache based on the file's mtime.
+    factory, a default one is used that loads a Document from the file system
+    (as LilyPond, regardless of its name), and if found, caches it using a cache based on the file's mtime.
 
     Specify a factory to use other caching, deferred loading, or to look for a
     document in a list of open documents in a GUI editor etc.
@@ -55,7 +57,8 @@ class Scope:
     """
     def __init__(self, doc, parent=None, factory=None, node=None):
         if not factory:
-            factory = parce.util.file_cache(quickly.load).__getitem__
+            load = functools.partial(quickly.load, lexicon=parce.find("lilypond"))
+            factory = parce.util.file_cache(load).__getitem__
         self._document = doc
         self.parent = parent    #: The parent Scope (None for the root Scope)
         self.factory = factory  #: A callable returning a :class:`parce.Document` for a filename.
-- 
2.43.0


From 984533a083b0068dc5cb48b43697ec46eca13237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:27 +0000
Subject: [PATCH 090/108] fix: included files with ?, # or ; in the name were
 not found, and unreadable text in one raised an error

---
 quickly/dom/scope.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index cecd29b..c3a6f15 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -24,6 +24,7 @@ The Scope class finds included documents.
 
 
 import functools
+import os.path
 import reprlib
 from urllib.parse import urljoin, urlparse
 
@@ -128,7 +129,11 @@ class Scope:
         urls = []
         def add(base_url):
             if base_url:
-                u = urljoin(base_url, url)
+                if is_url(base_url) or is_url(url):
+                    u = urljoin(base_url, url)
+                else:
+                    # a filename may contain "?", "#" or ";"
+                    u = os.path.normpath(os.path.join(os.path.dirname(base_url), url or ""))
                 if u not in skip and u not in urls:
                     urls.append(u)
         if self.relative_include:
@@ -145,12 +150,18 @@ class Scope:
 
         Returns None if no document can be found. The default implementation
         calls :attr:`factory` with a filename pointing to the local file
-        system. OSErrors raised by the factory are suppressed.
+        system. Errors raised by the factory when a file can't be read are
+        suppressed.
 
         """
-        filename = urlparse(url).path
+        filename = urlparse(url).path if is_url(url) else url
         try:
             return self.factory(filename)
-        except OSError:
+        except (OSError, UnicodeError):
             pass
 
+
+def is_url(url):
+    """Return True if url is a full URL (with scheme), instead of a filename."""
+    return bool(url) and '://' in url
+
-- 
2.43.0


From e11938d7585517b7c346c535d4e6ed0f9c88bb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:43 +0000
Subject: [PATCH 091/108] fix: \n and \t in a LilyPond string were read as a
 backslash and a letter

---
 quickly/dom/lily.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 2afde74..991bf34 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -689,6 +689,14 @@ class Symbol(element.TextElement):
 class String(base.String):
     r"""A quoted string."""
 
+    _escapes = {'n': '\n', 't': '\t'}
+
+    @classmethod
+    def read_head(cls, origin):
+        r"""Reimplemented to understand ``\n`` and ``\t``."""
+        text = ''.join(t.text for t in origin[1:-1])
+        return re.sub(r'\\([\\"\'nt])', lambda m: cls._escapes.get(m[1], m[1]), text)
+
 
 class Scheme(element.TextElement):
     """A Scheme expression in LilyPond.
-- 
2.43.0


From 4448d995add39232e12b07daba153dc175ce47be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:44 +0000
Subject: [PATCH 092/108] fix: the space after a tag was not written, \tag foo
 c became \tagfooc

---
 quickly/dom/lily.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 991bf34..f20fcb1 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2588,6 +2588,7 @@ class FigureAlteration(element.MappingElement):
 
 class Tag(element.HeadElement, Music):
     r"""A ``\tag`` command."""
+    space_after_head = space_between = ' '
     head = r'\tag'
 
     def signatures(self):
@@ -2596,6 +2597,7 @@ class Tag(element.HeadElement, Music):
 
 class KeepWithTag(element.HeadElement, Music):
     r"""A ``\keepWithTag`` command."""
+    space_after_head = space_between = ' '
     head = r'\keepWithTag'
 
     def signatures(self):
@@ -2604,6 +2606,7 @@ class KeepWithTag(element.HeadElement, Music):
 
 class RemoveWithTag(element.HeadElement, Music):
     r"""A ``\removeWithTag`` command."""
+    space_after_head = space_between = ' '
     head = r'\removeWithTag'
 
     def signatures(self):
@@ -2612,6 +2615,7 @@ class RemoveWithTag(element.HeadElement, Music):
 
 class TagGroup(element.HeadElement):
     r"""A ``\tagGroup`` command."""
+    space_after_head = space_between = ' '
     head = r'\tagGroup'
 
     def signatures(self):
@@ -2620,6 +2624,7 @@ class TagGroup(element.HeadElement):
 
 class PushToTag(element.HeadElement):
     r"""A ``\pushToTag`` command."""
+    space_after_head = space_between = ' '
     head = r'\pushToTag'
 
     def signatures(self):
@@ -2628,6 +2633,7 @@ class PushToTag(element.HeadElement):
 
 class AppendToTag(element.HeadElement):
     r"""A ``\appendToTag`` command."""
+    space_after_head = space_between = ' '
     head = r'\appendToTag'
 
     def signatures(self):
-- 
2.43.0


From dff71c4832d6c37ebb22bff02e8d9d3b5364879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:46 +0000
Subject: [PATCH 093/108] fix: a multiline Scheme comment was written with a
 wrong end

---
 quickly/dom/scm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index cd887d5..55d6c2c 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -89,11 +89,11 @@ class MultilineComment(base.MultilineComment):
     """A multiline comment in Scheme after ``#!``."""
     @classmethod
     def read_head(cls, origin):
-        end = -1 if origin[-1] == "#!" else None
+        end = -1 if origin[-1] == "!#" else None
         return ''.join(t.text for t in origin[1:end])
 
     def write_head(self):
-        return '#!{}#!'.format(self.head)
+        return '#!{}!#'.format(self.head)
 
 
 class Char(element.TextElement):
-- 
2.43.0


From 6f464ac742815b8012846bec1ca857d073eec94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:48 +0000
Subject: [PATCH 094/108] fix: a CDATA section could not be written

---
 quickly/dom/htm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 1ce2463..179f739 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -235,12 +235,14 @@ class CData(element.TextElement):
     """
     @classmethod
     def read_head(cls, origin):
-        return origin[1]
+        text = ''.join(t.text for t in origin)
+        end = -3 if text.endswith(']]>') else None
+        return text[len('<![CDATA['):end]
 
     def write_head(self):
         # handle the unlikely case literal ']]>' is in text
-        text = self.head.replace(']]>', ']]>]]&gt;<[CDATA[')
-        return "<[CDATA[{}]]>".format(text)
+        text = self.head.replace(']]>', ']]>]]&gt;<![CDATA[')
+        return "<![CDATA[{}]]>".format(text)
 
 
 class String(element.BlockElement):
-- 
2.43.0


From d3796f33560ed57e7e2a62b3eb1dfb5a11039050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:50 +0000
Subject: [PATCH 095/108] fix: the backslash of a unit in a lilypond-book
 option was lost

---
 quickly/dom/htm.py   | 12 +++++++++++-
 quickly/lang/html.py |  1 +
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 179f739..97e6140 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -284,7 +284,17 @@ class Number(element.TextElement):
 
 
 class Unit(element.TextElement):
-    """A short unit string like ``"mm"``, used in lilypond book options."""
+    r"""A short unit string like ``"mm"``, used in lilypond book options.
+
+    The backslash (as in ``line-width=5\mm``) is not in the head value.
+
+    """
+    @classmethod
+    def read_head(cls, origin):
+        return origin[0].text.lstrip('\\')
+
+    def write_head(self):
+        return '\\' + self.head
 
 
 class ProcessingInstruction(element.BlockElement):
diff --git a/quickly/lang/html.py b/quickly/lang/html.py
index b3de8de..3ff5546 100644
--- a/quickly/lang/html.py
+++ b/quickly/lang/html.py
@@ -67,6 +67,7 @@ class Html(base.XmlLike, html.Html):
         yield r'>', a.Delimiter, -1, ifeq(ARG, "lilypond", lilypond.LilyPond.html_lilypond_tag, cls.tag)
         yield pattern(ifeq(ARG, "lilypond", ":", None)), a.Delimiter, -1, lilypond.LilyPond.html_lilypond_tag("short form")
         yield r'\d+(?:\.\d+)?', a.Number
+        yield r'\\(?:cm|mm|in|pt)\b', a.Name.Builtin.Unit
         yield r'[^\W\d]\w*(?:-\w+)*', findmember(TEXT, (
             (lilypond_words.lilypond_book_options, a.Name.Attribute),
             (lilypond_words.lilypond_book_units, a.Name.Builtin.Unit)), a.Name)
-- 
2.43.0


From 10a7b06a2a1203be13573d5b594174c9f8184827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:52 +0000
Subject: [PATCH 096/108] fix: quotes and other harmless characters in HTML
 text became entities when written

---
 quickly/dom/htm.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 97e6140..767c979 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -158,6 +158,7 @@ element::
 """
 
 import html.entities
+import re
 
 from . import base, element
 
@@ -206,7 +207,13 @@ class Document(base.Document, Element):
 class Text(element.TextElement):
     """Html/Xml text contents (Text or Whitespace)."""
     def write_head(self):
-        return html.escape(self.head)
+        """Escape the characters that would not be read back as text."""
+        text = re.sub(r'&(?!\s)', '&amp;', self.head).replace('<', '&lt;')
+        if isinstance(self.parent, DqString):
+            text = text.replace('"', '&quot;')
+        elif isinstance(self.parent, SqString):
+            text = text.replace("'", '&#x27;')
+        return text
 
 
 class Comment(base.MultilineComment):
-- 
2.43.0


From 4c2cf29926f8e1cb57aa6599f063408634b87a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:54 +0000
Subject: [PATCH 097/108] fix: every time a LaTeX document was read and written
 it got more blank lines

---
 quickly/dom/tex.py    | 12 ++++++++++++
 quickly/lang/latex.py |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/quickly/dom/tex.py b/quickly/dom/tex.py
index ec5f13c..6840913 100644
--- a/quickly/dom/tex.py
+++ b/quickly/dom/tex.py
@@ -40,6 +40,10 @@ class Document(base.Document):
     """A full LaTeX source document."""
     space_between = ''
 
+    def concat_space(self, n, m):
+        """Reimplemented to not add a newline, a Comment does that where needed."""
+        return self.space_between
+
 
 class Option(element.BlockElement):
     """An option block: ``[`` ... ``]``."""
@@ -138,6 +142,14 @@ class Comment(base.SinglelineComment):
     r"""A singleline comment after ``%``."""
     space_after = '\n'
 
+    def head_point(self):
+        """Reimplemented to not add a newline if the text that follows starts with one."""
+        point = super().head_point()
+        n = self.right_sibling()
+        if isinstance(n, Text) and n.head.startswith('\n'):
+            point = point._replace(space_after='')
+        return point
+
     @classmethod
     def read_head(cls, origin):
         return ''.join(t.text for t in origin[1:])
diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 64221f2..24f3a68 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -240,6 +240,8 @@ class LatexTransform(base.Transform):
             """Return an Environment node, possibly containing LilyPond music."""
             nonlocal i
             env = tex.Environment(self.factory(tex.Command, (t,)))
+            # the whitespace around it is in the surrounding text
+            env.space_before = env.space_after = ''
             if items.peek(i, a.Delimiter, a.Name.Tag, a.Delimiter):
                 # no options, add the name
                 env[-1].append(self.factory(tex.EnvironmentName, items[i:i+3]))
-- 
2.43.0


From f9e5c8c234c2252c5410a8712e7e8df67829f307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:55 +0000
Subject: [PATCH 098/108] fix: reading LaTeX math with braces raised KeyError

---
 quickly/lang/latex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 24f3a68..dc34093 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -177,7 +177,8 @@ class LatexTransform(base.Transform):
     def math(self, items):
         """Process the ``math`` context; return a Math node."""
         head = items[:1]
-        cls = self._math_mapping[head[0].text]
+        # braces within math are also in a math context
+        cls = self._math_mapping.get(head[0].text, tex.Brace)
         tail = (items.pop(),) if len(items) > 1 and items[-1] == cls.tail else ()
         return self.factory(cls, head, tail, *self.common(items[1:]))
 
-- 
2.43.0


From 3e9ad87ebc60c1a10e6bae3539d24a0784fe52a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:57 +0000
Subject: [PATCH 099/108] fix: \with before a variable was lost

---
 quickly/dom/lily.py      | 13 +++++++++++--
 quickly/lang/lilypond.py |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index f20fcb1..d826dd2 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -983,6 +983,15 @@ class With(Block):
     space_before = space_after = " "
 
 
+class WithIdentifier(element.HeadElement):
+    r"""A \with command that refers to a variable: ``\with \name``."""
+    head = r"\with"
+    space_before = space_after_head = " "
+
+    def signatures(self):
+        yield (IdentifierRef, Scheme),
+
+
 class LayoutContext(Block):
     r"""A \context { } block within \layout or \midi."""
     head = r"\context {"
@@ -1221,9 +1230,9 @@ class Context(element.HeadElement, Music):
 
     def signatures(self):
         yield Symbol, MUSIC
-        yield Symbol, With, MUSIC
+        yield Symbol, (With, WithIdentifier), MUSIC
         yield Symbol, EqualSign, (String, Symbol), MUSIC
-        yield Symbol, EqualSign, (String, Symbol), With, MUSIC
+        yield Symbol, EqualSign, (String, Symbol), (With, WithIdentifier), MUSIC
 
 
 class New(Context):
diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 0b14d75..b2b2788 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1146,7 +1146,7 @@ class MusicBuilder:
         lily.Language, lily.Name, lily.New, lily.NoteMode, lily.Omit,
         lily.Once, lily.Override, lily.Remove, lily.Revert, lily.Sequential,
         lily.Set, lily.Simultaneous, lily.Temporary, lily.Undo, lily.Unset,
-        lily.Version,
+        lily.Version, lily.WithIdentifier,
     )
 
     @_action(a.Keyword)
-- 
2.43.0


From c51db04781440d3d52a6ba12e67c009c7c0ad755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:58 +0000
Subject: [PATCH 100/108] fix: Scheme identifiers that start like a number
 became +nan.0

---
 quickly/lang/scheme.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/scheme.py b/quickly/lang/scheme.py
index fa17024..70347f5 100644
--- a/quickly/lang/scheme.py
+++ b/quickly/lang/scheme.py
@@ -94,12 +94,20 @@ class SchemeTransform(base.Transform):
         16: scm.Hex,
     }
     def number(self, items):
-        """Create a Number node."""
+        """Create a Number node.
+
+        Something that only starts like a number, such as ``1+`` or ``->x``,
+        is an Identifier.
+
+        """
         radix = items.arg or 10
         try:
             return self.factory(self._radix_mapping[radix], items)
-        except (ValueError, ZeroDivisionError):
+        except ZeroDivisionError:
             return self.factory(scm.NaN, items)
+        except ValueError:
+            cls = scm.NaN if items[0].text.startswith('#') else scm.Identifier
+            return self.factory(cls, items)
 
     def string(self, items):
         """Create a String node."""
-- 
2.43.0


From 9fa254e2d1d5854c458b9e8e195b5609151d464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:00 +0000
Subject: [PATCH 101/108] fix: the # of a Scheme keyword was lost

---
 quickly/lang/scheme.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/lang/scheme.py b/quickly/lang/scheme.py
index 70347f5..fa2e11b 100644
--- a/quickly/lang/scheme.py
+++ b/quickly/lang/scheme.py
@@ -36,6 +36,7 @@ class Scheme(parce.lang.scheme.SchemeLily):
     def common(cls, pop=0):
         from . import lilypond
         yield r"#{", a.Bracket.LilyPond.Start, pop, lilypond.LilyPond.schemelily
+        yield r"#:[^\s()\[\]\"';]+", a.Name, pop     # a keyword
         yield from super(parce.lang.scheme.SchemeLily, cls).common(pop)
 
 
-- 
2.43.0


From 3f455733295fadfd94829a82f9d73a96c34c83b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:02 +0000
Subject: [PATCH 102/108] fix: reading a natural sign in figure mode raised
 KeyError

---
 quickly/dom/lily.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index d826dd2..c227963 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2568,13 +2568,13 @@ class FigureAccidental(element.MappingElement):
     r"""An accidental in figure mode.
 
     One of: -1, -0.5, 0, 0.5, 1, corresponding to:
-     ``'--'``, ``'-'``, ``''``, ``'+'`` or ``'++'``.
+     ``'--'``, ``'-'``, ``'!'``, ``'+'`` or ``'++'``.
 
     """
     mapping = {
         '--':  -1,
         '-':   -0.5,
-        '':     0,
+        '!':    0,
         '+':    0.5,
         '++':   1,
     }
-- 
2.43.0


From bfef8bb8207dc0e8ddb1d30cdff7e712965e7c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 103/108] fix: the space after the beat structure of \time was
 not written

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index c227963..8042e40 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2264,7 +2264,7 @@ class Time(element.HeadElement, Music):
     Has an optional List child and a Fraction child.
 
     """
-    space_after_head = " "
+    space_after_head = space_between = " "
     head = r"\time"
 
     def signatures(self):
-- 
2.43.0


From f50fd9cae4f76917d4158c0e7183ab3ff582a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:35 +0000
Subject: [PATCH 104/108] fix: indenting added a blank line after a comment in
 LaTeX text

---
 quickly/dom/indent.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index aeb6ffd..0aae729 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -175,7 +175,11 @@ class Indenter:
             self.add_whitespace(node.space_before_tail)
             self.output_tail(tail)
 
-        self.add_whitespace(node.space_after)
+        if head and not tail and not has_children:
+            # the head point can have its own opinion on the space that follows
+            self.add_whitespace(node.head_point().space_after)
+        else:
+            self.add_whitespace(node.space_after)
 
     def add_whitespace(self, whitespace):
         """*(Internal.)* Add whitespace, which is combined as soon as text is printed out."""
-- 
2.43.0


From 3ef30de20a4a798290c3a4319e96f7b8f5da68b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:35 +0000
Subject: [PATCH 105/108] fix: complex, infinite and inexact Scheme numbers
 were not written properly

---
 quickly/dom/scm.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index 55d6c2c..1df4a2b 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -163,11 +163,21 @@ class Number(element.TextElement):
 
     def write_head(self):
         v = self.head
+        if isinstance(v, complex):
+            imag = self._write_real(v.imag)
+            return '{}{}{}{}i'.format(self._prefix[self.radix], self._write_real(v.real),
+                '' if imag[0] in '+-' else '+', imag)
+        return self._prefix[self.radix] + self._write_real(v)
+
+    def _write_real(self, v):
+        """Return the text for a real number, without the radix prefix."""
+        if isinstance(v, float) and self.radix != 10 and math.isfinite(v):
+            v = fractions.Fraction(v)   # there are only decimal floats
         if v == math.inf:
             s = '+inf.0'
         elif v == -math.inf:
             s = '-inf.0'
-        elif v is math.nan:
+        elif v != v:
             s = '+nan.0'
         elif isinstance(v, fractions.Fraction):
             fmt = self._fmt[self.radix]
@@ -177,11 +187,9 @@ class Number(element.TextElement):
                 s = '{}/{}'.format(s, f(v.denominator))
         elif isinstance(v, float) and self.radix == 10:
             s = str(v)
-        elif isinstance(v, complex):
-            s = '{}{:+}i'.format(v.real, v.imag)
         else:
             s = format(int(v), self._fmt[self.radix])
-        return self._prefix[self.radix] + s
+        return s
 
     def repr_head(self):
         """Dump Scheme numbers in Scheme syntax."""
-- 
2.43.0


From 62973ee8176c399e14887fce921f5efa64796cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:35 +0000
Subject: [PATCH 106/108] fix: bass figures took no time and rhythm edits
 skipped them

---
 quickly/dom/lily.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 8042e40..8ed77cb 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2528,13 +2528,15 @@ class MarkupScoreLines(MarkupScore):
     head = r"\score-lines {"
 
 
-class Figure(Music):
+class Figure(Durable):
     """A bass figure in figure mode.
 
     Always has one FigureBody child, which contains the numbers etc.
     Can also have a duration child.
 
     """
+    def child_order(self):
+        yield FigureBody, Duration, Articulations, base.Comment
 
 
 class FigureBody(element.BlockElement):
-- 
2.43.0


From 970355b6c4a1ecf8298c6309a1cd6ebfcccfd5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:35 +0000
Subject: [PATCH 107/108] fix: a chord in drum mode took no time

---
 quickly/dom/lily.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 8ed77cb..eb76de4 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1517,7 +1517,8 @@ class Chord(Durable):
 
         """
         for body in self:
-            if any(body / Note):
+            # (in drum mode, the names in a chord are symbols)
+            if any(body / (Note, Drum, Symbol)):
                 return super().time_length(context, end)
         return 0
 
-- 
2.43.0


From 9b3dc4455cf033e3ca1a04ef4950c2ca907cf5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:01 +0000
Subject: [PATCH 108/108] fix: a fraction in figure mode was read as a duration

---
 quickly/lang/lilypond.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index b2b2788..5a03c64 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -73,6 +73,12 @@ class LilyPond(parce.lang.lilypond.LilyPond):
         yield r'-\d+(?![\d/])', a.Number
         yield from super().header
 
+    @lexicon(consume=True)
+    def figurelist(cls):
+        """Figured bass music, where a fraction is not a duration."""
+        yield r'\d+/\d+', a.Number.Fraction
+        yield from super().figurelist
+
     @lexicon
     def html_lilypond_tag(cls):
         """LilyPond from inside Html, contents of a <lilypond> </lilypond> tag."""
-- 
2.43.0

