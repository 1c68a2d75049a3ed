From a8b463af2ecf0583bea7e93f4094634d8c738d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:14 +0000
Subject: [PATCH 01/68] fix: equal times hash equally whether or not their FPS
 is known

---
 sangfroid/t.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 68b7815..c40a249 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -282,11 +282,9 @@ class T:
     __repr__ = __str__
 
     def __hash__(self):
-        if self._frames == 0:
-            return 0
-
-        s = (self._frames, self._fps)
-        return hash(s)
+        # The FPS isn't included, because Ts can be equal
+        # even if only one of them has a known FPS.
+        return hash(self._frames)
 
 # It doesn't matter that you can produce invalid decimals with this regex:
 # that will be discovered when we do the float conversion.
-- 
2.43.0


From a7641f99967636ddbd638c89a01e30bc501168d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:18 +0000
Subject: [PATCH 02/68] fix: allow comparing times of different FPS when one of
 them is zero

---
 sangfroid/t.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index c40a249..7f8cea0 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -227,6 +227,8 @@ class T:
             if (
                     other.fps is not None and
                     self.fps is not None and
+                    other.frames!=0 and
+                    self.frames!=0 and
                     other.fps!=self.fps):
                 raise ValueError(
                         "Comparison between two Ts with different FPS: "
-- 
2.43.0


From 897cfe7fb829f5bee238379836dbd2452c2575fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:22 +0000
Subject: [PATCH 03/68] fix: refuse text which is not a time specification

---
 sangfroid/t.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 7f8cea0..1886e48 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -143,6 +143,10 @@ class T:
                 complain(
                         f"The '{spec[-1]}' part was specified "
                         "more than once.")
+            elif not TIMESPEC_RE.fullmatch(spec):
+                complain(
+                        f"'{spec}' is not a number of hours, minutes, "
+                        "seconds, or frames.")
 
             try:
                 parts[spec[-1]] = float(spec[:-1])
@@ -150,6 +154,9 @@ class T:
                 complain(
                         f"'{spec[:-1]}' is not a valid number.")
 
+        if not parts:
+            complain("This doesn't look like a time specification at all.")
+
         seconds = None
 
         for unit, size in [
@@ -162,7 +169,7 @@ class T:
 
         result = 0.0
 
-        if seconds is not None and seconds!=0.0:
+        if seconds is not None and any(parts.values()):
 
             if self._fps is None:
                 complain("Time specifications in seconds require "
@@ -170,7 +177,7 @@ class T:
             result += seconds * self._fps
 
         if 'f' in parts:
-            if seconds and parts['f']<0:
+            if seconds is not None and parts['f']<0:
                 complain("If you give a number of seconds, the number "
                          "of frames can't be negative.")
 
-- 
2.43.0


From 14646e94635dc4ff1d344ba3a95686bc06d634b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:39 +0000
Subject: [PATCH 04/68] fix: a leading minus sign applies to every part of a
 time specification

---
 sangfroid/t.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 1886e48..05244c7 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -158,6 +158,7 @@ class T:
             complain("This doesn't look like a time specification at all.")
 
         seconds = None
+        negative = s.startswith('-')
 
         for unit, size in [
                 ('h', 60*60),
@@ -165,7 +166,11 @@ class T:
                 ('s', 1),
                 ]:
             if unit in parts:
-                seconds = (seconds or 0.0) + parts[unit]*size
+                amount = parts[unit]*size
+                if negative and parts[unit]>0:
+                    # a leading minus sign applies to the whole thing
+                    amount = -amount
+                seconds = (seconds or 0.0) + amount
 
         result = 0.0
 
@@ -181,9 +186,7 @@ class T:
                 complain("If you give a number of seconds, the number "
                          "of frames can't be negative.")
 
-            seconds = seconds or 0
-
-            if seconds<0:
+            if seconds is not None and negative:
                 result -= parts['f']
             else:
                 result += parts['f']
-- 
2.43.0


From bd2bb4df024210166318291e6b1286c0090dae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:56 +0000
Subject: [PATCH 05/68] fix: the text of a time always denotes the same time

---
 sangfroid/t.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 05244c7..5c0ca90 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -260,11 +260,22 @@ class T:
         return self._compare(other, lambda a,b:a==b)
 
     def __str__(self):
+        # '%g' would lose precision on long times, and could
+        # give exponents, which time specifications can't contain.
+        def to_decimal(n):
+            return ('%.6f' % (n,)).rstrip('0').rstrip('.')
+
+        frames = round(abs(self._frames), 6)
+
         if self._fps is None:
-            return '%gf' % (self._frames, )
+            seconds = 0
+        else:
+            seconds, frames = divmod(frames, self._fps)
+            frames = round(frames, 6)
 
-        frames = self._frames
-        seconds = abs(self._frames/self._fps)
+            if frames>=self._fps:
+                seconds += 1
+                frames = 0
 
         result = []
 
@@ -278,11 +289,10 @@ class T:
                 result.append('%d%c' % (seconds//size, unit))
                 seconds = seconds % size
 
-        if seconds!=0 or result==[]:
-            frames = abs(frames) % self._fps
-            result.append('%gf' % (frames,))
+        if frames!=0 or result==[]:
+            result.append('%sf' % (to_decimal(frames),))
 
-        if self._frames<0:
+        if self._frames<0 and result!=['0f']:
             minus = '-'
         else:
             minus = ''
-- 
2.43.0


From 213ba5e8f3e6e6ff9e7cde872d89a86b0aaa5b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:22 +0000
Subject: [PATCH 06/68] fix: a time read back from a document equals the time
 stored there

---
 sangfroid/t.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 5c0ca90..bad9484 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -119,6 +119,10 @@ class T:
 
         assert isinstance(self._frames, float)
 
+        # the precision of __str__(), so that a time read back
+        # from a document is equal to the one that was stored
+        self._frames = round(self._frames, 6)
+
     def _parse_time_spec(self, s):
         assert isinstance(s, str)
 
-- 
2.43.0


From ba1532297de29c6db566bc6d4bf2d097be60ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:24 +0000
Subject: [PATCH 07/68] fix: times work in documents which leave out fps,
 begin-time, or end-time

---
 sangfroid/t.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index bad9484..361431d 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -86,7 +86,7 @@ class T:
         if root_tag is None:
             self._fps = None
         else:
-            self._fps = float(root_tag['fps'])
+            self._fps = float(root_tag.get('fps', DEFAULT_FPS))
         
             if self._fps<=0.0:
                 raise ValueError(f"FPS must be positive: {self._fps}")
@@ -104,11 +104,11 @@ class T:
 
                     animation_duration = 1+(
                             self._parse_time_spec(
-                                root_tag.attrs['end-time'],
+                                root_tag.get('end-time', DEFAULT_END_TIME),
                                 )
                             - 
                             self._parse_time_spec(
-                                root_tag.attrs['begin-time'],
+                                root_tag.get('begin-time', DEFAULT_BEGIN_TIME),
                                 )
                             )
 
@@ -312,6 +312,11 @@ class T:
         # even if only one of them has a known FPS.
         return hash(self._frames)
 
+# What Synfig uses if the document doesn't say.
+DEFAULT_FPS = 24.0
+DEFAULT_BEGIN_TIME = '0f'
+DEFAULT_END_TIME = '5s'
+
 # It doesn't matter that you can produce invalid decimals with this regex:
 # that will be discovered when we do the float conversion.
 TIMESPEC_RE = re.compile(
-- 
2.43.0


From c31ae0ac3819304c72ae6b321b98e925aeb2adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:41 +0000
Subject: [PATCH 08/68] fix: turning animation off works on values outside a
 document

---
 sangfroid/value/value.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 2f83224..c4626ff 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -69,23 +69,22 @@ class Value:
         else:
 
             if adjust_contents:
-                timeline = self.timeline
-                first_value = timeline.values()[0]
+                first_waypoint = next(iter(self.timeline), None)
             else:
-                first_value = None
+                first_waypoint = None
 
-            self._tag.clear()
-
-            new_tag = self._get_empty_tag()
-            self._tag.replace_with(new_tag)
-            self._tag = new_tag
-
-            if first_value is not None:
-                old_tag = self._tag
+            if first_waypoint is None:
+                new_tag = self._get_empty_tag()
+            else:
+                new_tag = copy.copy(first_waypoint.value._tag)
 
-                self._tag = copy.deepcopy(first_value.value._tag)
-                if old_tag.parent is not None:
-                    old_tag.replace_with(self._tag)
+            # Change the tag in place: it might not be in a document,
+            # and other objects may be referring to it.
+            self._tag.clear()
+            self._tag.name = new_tag.name
+            self._tag.attrs = new_tag.attrs
+            for child in list(new_tag.contents):
+                self._tag.append(child)
 
     @property
     def timeline(self):
-- 
2.43.0


From aa92c9687e92dbc164f7d8896c6f092124d0c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:46 +0000
Subject: [PATCH 09/68] fix: turning animation on keeps the full precision of
 the value

---
 sangfroid/value/value.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index c4626ff..6e5569a 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -56,7 +56,9 @@ class Value:
         elif whether:
 
             if adjust_contents:
-                former_value = self.value
+                # a copy, rather than self.value, which may be
+                # less precise than what's stored
+                former_value = self.__class__(copy.copy(self._tag))
 
             our_type = self._tag.name
             self._tag.attrs = {}
-- 
2.43.0


From aa5f0a65a884b45fa374899d09443144b9ce3a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:01 +0000
Subject: [PATCH 10/68] fix: value.timeline += waypoint works

---
 sangfroid/value/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 6e5569a..e32541b 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -323,7 +323,7 @@ class Timeline:
         return list(self.parent._waypoints().items())
 
     def __iadd__(self, waypoints):
-        self.add(waypoints,
+        return self.add(waypoints,
             overwrite = True,
                  )
 
-- 
2.43.0


From 0bc916ea03c18f0c0ff7b4926e37a928e24c29ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:03 +0000
Subject: [PATCH 11/68] fix: waypoints before the start of the animation keep
 their times

---
 sangfroid/value/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index e32541b..f79f8b1 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -541,7 +541,7 @@ class Waypoint:
     @property
     def tag(self):
         result = bs4.Tag(name="waypoint")
-        result['time'] = self.time
+        result['time'] = str(self.time)
         result['before'] = self._before
         result['after'] = self._after
         result.append(
-- 
2.43.0


From 7db2e24c2ce50c5a44771617b261ac1b936505ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:35 +0000
Subject: [PATCH 12/68] fix: look up waypoints by any kind of time, and in time
 order

---
 sangfroid/value/value.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index f79f8b1..7c4ca2f 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -150,7 +150,7 @@ class Value:
                                     )
                   for wt in waypoints]
 
-        result = dict([(v.time, v) for v in values])
+        result = dict([(v.time, v) for v in sorted(values)])
 
         return result
 
@@ -305,10 +305,14 @@ class Timeline:
         if isinstance(t, (int, float, str)):
             return T(t, ref = self.parent._tag)
         elif isinstance(t, T):
-            if t._fps is None:
-                return T(t._frames, self.parent._tag)
-            else:
-                return t
+            # In text, unlike in numbers, negative times don't
+            # count backwards from the end.
+            result = T(f'{t.frames:f}f', ref = self.parent._tag)
+
+            if result!=t: # which itself fails if the FPS is different
+                raise ValueError(t)
+
+            return result
         else:
             raise TypeError("I need T, or an int, float, str to create a T. "
                     f"You gave me {type(t)}.")
@@ -379,15 +383,7 @@ class Timeline:
         return self
 
     def __getitem__(self, time):
-        if 'x_y' in str(self.parent._tag):
-            raise ValueError()
-        for t, wt in self.parent._waypoints().items():
-            if t==time:
-                return wt
-            elif t>time:
-                raise KeyError(time)
-
-        raise KeyError(time)
+        return self.parent._waypoints()[self._ensure_fps(time)]
 
     def __setitem__(self, t, v):
 
@@ -424,10 +420,7 @@ class Timeline:
 
     def __delitem__(self, t):
 
-        if isinstance(t, (int, float, str)):
-            t = T(t, ref = self.parent._tag)
-        elif isinstance(t, T):
-            t = self._ensure_fps(t)
+        t = self._ensure_fps(t)
 
         waypoints = self.parent._waypoints()
 
-- 
2.43.0


From 36c66f80e2208655a09373febfe8f893370f616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:57 +0000
Subject: [PATCH 13/68] fix: storing a waypoint at another time leaves the
 original alone

---
 sangfroid/value/value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 7c4ca2f..2212d6c 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -390,7 +390,8 @@ class Timeline:
         t = self._ensure_fps(t)
 
         if isinstance(v, Waypoint):
-            new_waypoint = v
+            # a copy, so the caller's waypoint doesn't change
+            new_waypoint = copy.copy(v)
             new_waypoint.time = t
         elif isinstance(v, self.parent.__class__):
             new_waypoint = Waypoint(
-- 
2.43.0


From ee86d493f98c635e3e4c7d6c8b6cfd80b5504a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:00 +0000
Subject: [PATCH 14/68] fix: check waypoints before changing a timeline

---
 sangfroid/value/value.py | 51 ++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 2212d6c..735e46c 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -97,7 +97,7 @@ class Value:
     @timeline.setter
     def timeline(self, v):
 
-        if isinstance(v, list) and all([n for n in v if isinstance(n, Waypoint)]):
+        if isinstance(v, list) and all([isinstance(n, Waypoint) for n in v]):
             self._set_waypoints(v)
         elif isinstance(v, dict):
             self.timeline = list(v.values())
@@ -172,16 +172,30 @@ class Value:
                     )
             return
 
+        # Check everything before we change anything.
+        type_name = self._tag.get('type') if self.is_animated else self._tag.name
+        tags = {}
+
+        for w in v:
+            time = self.timeline._ensure_fps(w.time)
+            tag = w.tag
+            if w.value.tag.name!=type_name:
+                raise TypeError(
+                        f"Waypoints here must have values of type {type_name}, "
+                        f"but this has {w.value.tag.name}.")
+            tag['time'] = str(time)
+            tags[time] = tag
+
         self._set_animated(
                 whether = True,
                 adjust_contents = False,
                 )
         self._tag.clear()
 
-        for i, w in enumerate(sorted(v)):
+        for i, time in enumerate(sorted(tags)):
             if i!=0:
                 self._tag.append('\n')
-            self._tag.append(w.tag)
+            self._tag.append(tags[time])
 
     def __len__(self):
         return len(self._waypoints())
@@ -356,29 +370,17 @@ class Timeline:
                         f'{w} has a tag of type {type(w.tag)}')
 
         existing = self.parent._waypoints()
-        clashes = [
-            (old.time, new.time)
-                for old in existing.values()
-                for new in waypoints
-                if old.time==new.time
-                ]
-
-        if overwrite:
-            for old, _ in clashes:
-                del existing[old]
-        elif clashes:
+        new = dict([(self._ensure_fps(w.time), w) for w in waypoints])
+        clashes = [t for t in new if t in existing]
+
+        if clashes and not overwrite:
             raise ValueError("There are already Waypoints with those "
                              "times in this timeline:\n"
                              f"{clashes}")
 
-        self.parent.is_animated = True
+        existing |= new
 
-        existing |= dict([(w.time, w) for w in waypoints])
-
-        self.parent.tag.clear()
-
-        for w in sorted(existing.values()):
-            self.parent.tag.append(w.tag)
+        self.parent._set_waypoints(list(existing.values()))
 
         return self
 
@@ -406,13 +408,6 @@ class Timeline:
                     ref = self.parent.tag,
                     )
 
-        if not self.parent.is_animated:
-            self.parent._tag.clear()
-            self.parent._set_animated(
-                    whether = True,
-                    adjust_contents = False,
-                    )
-
         waypoints = self.parent._waypoints()
 
         waypoints[t] = new_waypoint
-- 
2.43.0


From 3ff1a6adf73f94887cc976c96349f0c398879d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:23 +0000
Subject: [PATCH 15/68] fix: simple values can be compared with anything, even
 if animated

---
 sangfroid/value/simple.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 9c1f0a2..67a51ec 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -59,12 +59,16 @@ class Simple(Value):
         return str(v)
 
     def __eq__(self, other):
+        if self.is_animated or getattr(other, 'is_animated', False):
+            # an animated value never equals a constant
+            return isinstance(other, Value) and self._tag==other._tag
+
         if isinstance(other, self.__class__):
             v = other.value
         else:
             try:
                 v = self.our_type(other)
-            except ValueError:
+            except (TypeError, ValueError):
                 v = other
 
         return self._compare_with(v)
-- 
2.43.0


From 0265a15c95d37f8f0fe59b4ef34dc835fbd8a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:25 +0000
Subject: [PATCH 16/68] fix: assign simple values from other values, and times
 from text

---
 sangfroid/layer/layer.py  |  3 +++
 sangfroid/value/simple.py | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index e3ecbd3..d1fc0a8 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -451,6 +451,9 @@ class _TimeButString(v.Time):
     """
     our_type = str
 
+    def _convert(self, v):
+        return str(v)
+
     @classmethod
     def get_name_for_tag(cls):
         return 'time'
diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 67a51ec..cc0aaac 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -33,12 +33,15 @@ class Simple(Value):
         if self.our_type is None:
             raise NotImplementedError()
 
+        if isinstance(v, Simple):
+            v = v.value
+
         if v==() or v is None:
             result = self.our_type()
 
         else:
             try:
-                result = self.our_type(v)
+                result = self._convert(v)
             except TypeError:
                 raise TypeError("I need a value of type "
                                 f"{self.our_type.__name__}, "
@@ -54,6 +57,9 @@ class Simple(Value):
                 }
         self._tag.clear()
 
+    def _convert(self, v):
+        return self.our_type(v)
+
     @classmethod
     def _value_to_str(cls, v):
         return str(v)
@@ -154,6 +160,14 @@ class Time(Simple):
                 ref = self._tag,
                 )
 
+    def _convert(self, v):
+        if isinstance(v, T):
+            return v
+        return self.our_type(
+                v,
+                ref = self._tag,
+                )
+
     def as_python_expression(self):
         v = self.value
 
-- 
2.43.0


From 0bc246f825f4dfa1891b2efe0ec2e7c3bd46f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:46 +0000
Subject: [PATCH 17/68] fix: new layers with time parameters have readable
 defaults

---
 sangfroid/layer/layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index d1fc0a8..af42c07 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -2,6 +2,7 @@ import copy
 import logging
 import bs4
 import sangfroid.value as v
+from sangfroid.t import T
 from sangfroid.registry import Registry
 from sangfroid.field import (
         Field,
@@ -452,7 +453,9 @@ class _TimeButString(v.Time):
     our_type = str
 
     def _convert(self, v):
-        return str(v)
+        if isinstance(v, str):
+            return v
+        return str(T(v))
 
     @classmethod
     def get_name_for_tag(cls):
-- 
2.43.0


From c69ad2aaa74f522c29e8e2e3e95f2307dd631a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:06 +0000
Subject: [PATCH 18/68] fix: blend methods can be read, and stay static when
 they are set

---
 sangfroid/field.py             | 4 ++++
 sangfroid/value/blendmethod.py | 8 ++++++--
 sangfroid/value/simple.py      | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index bb1b3e1..2603a80 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -228,6 +228,10 @@ class ParamTagField(Field):
                     f"contains {len(contents)}.")
 
         result = v.Value.from_tag(contents[0])
+        if issubclass(self.type_, result.__class__):
+            # some types, such as BlendMethod, look like
+            # their superclasses in the document
+            result = self.type_(contents[0])
         return result
 
     def __get__(self, obj, obj_type=None):
diff --git a/sangfroid/value/blendmethod.py b/sangfroid/value/blendmethod.py
index 23f360c..a245de1 100644
--- a/sangfroid/value/blendmethod.py
+++ b/sangfroid/value/blendmethod.py
@@ -33,8 +33,12 @@ class BlendMethod(Integer):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
-        self._tag['static'] = 'true'
-        self._tag.name = 'integer'
+        if not (len(args)==1 and args[0] is self._tag):
+            self._tag['static'] = 'true'
+
+    @classmethod
+    def get_name_for_tag(cls):
+        return 'integer'
 
     @classmethod
     def from_tag(cls, t):
diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index cc0aaac..e43b951 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -54,7 +54,11 @@ class Simple(Value):
         self._tag.name = self.get_name_for_tag()
         self._tag.attrs = {
                 'value': result,
-                }
+                } | {
+                        # whether it can be animated
+                        k:v for k,v in self._tag.attrs.items()
+                        if k=='static'
+                        }
         self._tag.clear()
 
     def _convert(self, v):
-- 
2.43.0


From 9b52dddd7c771cd08404c89cbe974ceb7674597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:09 +0000
Subject: [PATCH 19/68] fix: assigning a vector replaces its previous members

---
 sangfroid/value/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 6cb34ce..e270465 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -63,6 +63,7 @@ class Vector(Value):
 
         self._tag.name = self.TAG_NAME
         self._tag.attrs = {}
+        self._tag.clear()
 
         for k, v in members.items():
             addendum = bs4.element.Tag(name=k)
-- 
2.43.0


From b9bd53fafe9620d2516108d6fe6d4242a57d75fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:35 +0000
Subject: [PATCH 20/68] fix: refuse vectors whose members are not x and y

---
 sangfroid/value/vector.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index e270465..43168c7 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -57,10 +57,12 @@ class Vector(Value):
             else:
                 self._raise_type_error()
         elif hasattr(v, 'items'):
-            members = v
+            members = dict(v.items())
         else:
             self._raise_type_error()
 
+        self._check_members(members)
+
         self._tag.name = self.TAG_NAME
         self._tag.attrs = {}
         self._tag.clear()
@@ -73,6 +75,9 @@ class Vector(Value):
                 addendum.string = str(v)
             self._tag.append(addendum)
 
+    def _check_members(self, members):
+        pass
+
     def __getitem__(self, key):
         result = self.get(key, default=None)
 
@@ -182,4 +187,10 @@ class Vector(Value):
         return c(tag)
 
 class X_Y(Vector):
-    pass
+    def _check_members(self, members):
+        if sorted(members)!=sorted(self.FIELDS):
+            self._raise_type_error()
+
+        for m in members.values():
+            if not isinstance(m, (float, int)):
+                self._raise_type_error()
-- 
2.43.0


From e166a27a6ac7aeb9fd53e5b6f0660c17b4a3f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:40 +0000
Subject: [PATCH 21/68] fix: strings can be empty, and can be assigned when
 animated

---
 sangfroid/value/string.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sangfroid/value/string.py b/sangfroid/value/string.py
index 4e9a420..c968380 100644
--- a/sangfroid/value/string.py
+++ b/sangfroid/value/string.py
@@ -8,12 +8,22 @@ class String(Value):
 
     @property
     def value(self):
-        result = str(self._tag.string)
-        return result
+        return self._tag.text
 
     @value.setter
     def value(self, v):
-        self._tag.string = str(v)
+        if isinstance(v, Value):
+            if v.is_animated:
+                raise ValueError("I need a constant, not an animated value.")
+            v = v.value
+
+        v = str(v)
+
+        if self.is_animated:
+            self._tag.name = self.get_name_for_tag()
+            self._tag.attrs = {}
+
+        self._tag.string = v
 
     def as_python_expression(self):
         return repr(self.value)
-- 
2.43.0


From 4dec0b4ced292918848e1367e0acf4819dc91ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:44 +0000
Subject: [PATCH 22/68] fix: check all the colours of a gradient before
 changing it

---
 sangfroid/value/gradient.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/gradient.py b/sangfroid/value/gradient.py
index 308dd0f..9a30fbe 100644
--- a/sangfroid/value/gradient.py
+++ b/sangfroid/value/gradient.py
@@ -27,12 +27,21 @@ class Gradient(Value):
         if len(v)<2:
             self._raise_colour_count_error()
 
-        self._tag.clear()
+        colour_tags = []
 
-        for pos, colour in sorted(v.items()):
+        for pos, colour in sorted(v.items(), key=lambda item: item[0]):
 
             colour_tag = Color(colour).tag
             colour_tag['pos'] = '%.06g' % (pos,)
+            colour_tags.append(colour_tag)
+
+        if self.is_animated:
+            self._tag.name = self.get_name_for_tag()
+            self._tag.attrs = {}
+
+        self._tag.clear()
+
+        for colour_tag in colour_tags:
             self._tag.append(colour_tag)
 
     def _raise_colour_count_error(self):
-- 
2.43.0


From ca3354de3b800475f4f423319947798a4c006ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:47 +0000
Subject: [PATCH 23/68] fix: setting the colour of a gradient stop keeps its
 position

---
 sangfroid/value/color.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index 235d345..7ebe683 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -92,7 +92,11 @@ class Color(Value):
         assert [type(n) for n in result]==[float]*4, result
 
         self._tag.name = self.get_name_for_tag()
-        self._tag.attrs = {}
+        self._tag.attrs = {
+                # our place in a gradient, if we're in one
+                k:v for k,v in self._tag.attrs.items()
+                if k=='pos'
+                }
         self._tag.clear()
 
         for i, dimension in enumerate(RGBA):
-- 
2.43.0


From 2d4d18bc02d53bca896294f06556f1833515277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:51 +0000
Subject: [PATCH 24/68] fix: refuse malformed colours with ValueError

---
 sangfroid/value/color.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index 7ebe683..aa62519 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -1,3 +1,4 @@
+import string
 import bs4
 from sangfroid.value.value import Value
 
@@ -63,7 +64,10 @@ class Color(Value):
             else:
                 _raise_format_error()
 
-            result = tuple([float(d) for d in result])
+            try:
+                result = tuple([float(d) for d in result])
+            except (TypeError, ValueError):
+                _raise_format_error()
 
         elif isinstance(v, str):
 
@@ -77,6 +81,9 @@ class Color(Value):
             else:
                 _raise_format_error()
 
+            if not all(d in string.hexdigits for d in v):
+                _raise_format_error()
+
             result = tuple(
                 round(int(v[i*2:i*2+2], 16)/255, 6)
                 for i in range(4))
-- 
2.43.0


From 18e4e30635b662c2aaec651b2ce97f3d50a2dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:55 +0000
Subject: [PATCH 25/68] fix: comparing a colour with a tuple agrees with
 comparing colours

---
 sangfroid/value/color.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index aa62519..c76f7fc 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -38,9 +38,10 @@ class Color(Value):
                 other = other[:-2]
             return str(self) == other
         elif isinstance(other, tuple):
-            if len(other)==3:
-                other = other+(1.0,)
-            return self.as_tuple() == other
+            try:
+                return self.value == Color(other).value
+            except ValueError:
+                return False
         else:
             return False
 
-- 
2.43.0


From 68f57477b7bc49b9ff0d1d3fd2eec1c90724ab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:59 +0000
Subject: [PATCH 26/68] fix: canvases can be assigned

---
 sangfroid/value/canvas.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/canvas.py b/sangfroid/value/canvas.py
index 3d5856a..d3c7905 100644
--- a/sangfroid/value/canvas.py
+++ b/sangfroid/value/canvas.py
@@ -26,10 +26,16 @@ class Canvas(Value):
 
         from sangfroid.layer.layer import Layer
 
-        self._tag.clear()
+        v = list(v)
 
         for layer in v:
             if not isinstance(layer, Layer):
                 raise TypeError(type(layer))
-            self._tag.append(layer)
+            if any(parent is layer.tag for parent in self._tag.parents):
+                raise ValueError("A layer can't be inside itself.")
+
+        self._tag.clear()
+
+        for layer in v:
+            self._tag.append(layer.tag)
             self._tag.append("\n")
-- 
2.43.0


From 76aed70b511ca890f1ffa99732fe01cff8de0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:03 +0000
Subject: [PATCH 27/68] fix: setting one part of a transformation keeps the
 other parts

---
 sangfroid/value/transformation.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index 4d23e79..c487834 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -66,16 +66,31 @@ class Composite(Value):
                     f"We can accept: "
                     f"{' '.join(sorted(self.REQUIRED_KEYS.keys()))}")
 
-        self.tag.clear()
+        new_tags = {}
 
-        for remaining, v in new_value.items():
+        for k,v in new_value.items():
+
+            if not isinstance(v, self.REQUIRED_KEYS[k]):
+                v = self.REQUIRED_KEYS[k](v)
+
+            new_tags[k] = copy(v.tag)
 
-            v_as_value = self.REQUIRED_KEYS[remaining](v)
+        # Keys which weren't mentioned keep their former values.
+        for k in self.REQUIRED_KEYS:
+            if k not in new_tags and self.get(k) is None:
+                raise KeyError(f"{k} has no value.")
+
+        for remaining, new_tag in new_tags.items():
 
             new_subtag = bs4.Tag(name=remaining)
-            new_subtag.append(copy(v_as_value.tag))
+            new_subtag.append(new_tag)
             new_subtag.append("\n")
-            self.tag.append(new_subtag)
+
+            old_subtag = self.tag.find(remaining, recursive=False)
+            if old_subtag is None:
+                self.tag.append(new_subtag)
+            else:
+                old_subtag.replace_with(new_subtag)
 
     def __getattr__(self, key):
         result = self.get(key, default=None)
-- 
2.43.0


From 1444f53db6648ebab8dfb041636fe4a375b936d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:07 +0000
Subject: [PATCH 28/68] fix: refuse to animate a whole transformation rather
 than damage it

---
 sangfroid/value/transformation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index c487834..f412e81 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -92,6 +92,12 @@ class Composite(Value):
             else:
                 old_subtag.replace_with(new_subtag)
 
+    def _set_animated(self, whether, **kwargs):
+        if whether:
+            raise NotImplementedError(
+                    "Only the members of composite values can be animated.")
+        super()._set_animated(whether, **kwargs)
+
     def __getattr__(self, key):
         result = self.get(key, default=None)
 
-- 
2.43.0


From 0f60b87713741d5ff675083693fd4a8134b92c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:02 +0000
Subject: [PATCH 29/68] fix: a layer's own parameters come before those of
 layers inside it

---
 sangfroid/field.py       |  2 ++
 sangfroid/layer/layer.py | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index 2603a80..9efd875 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -213,6 +213,8 @@ class ParamTagField(Field):
                                attrs={
                                    'name': self.name,
                                    },
+                               # not the params of layers inside this one
+                               recursive=False,
                                )
 
         if holder is None:
diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index af42c07..a6241e9 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -59,6 +59,8 @@ class Layer:
     def __init__(self, tag=None):
         if tag is None:
             self._tag = self._construct_empty_tag()
+        elif isinstance(tag, bs4.BeautifulSoup):
+            self._tag = tag.find(recursive=False)
         elif isinstance(tag, bs4.Tag):
             self._tag = tag
         else:
@@ -89,14 +91,24 @@ class Layer:
         result += ']'
         return result
 
+    def _find_param(self, name):
+        # Our own params come first. Those of the layers inside us
+        # only count if we don't have a param of that name.
+        for recursive in [False, True]:
+            found = self._tag.find('param', attrs={'name': name},
+                                   recursive = recursive,
+                                   )
+            if found is not None:
+                return found
+
     def __getitem__(self, f):
-        found = self._tag.find('param', attrs={'name': f})
+        found = self._find_param(f)
         if found is None:
             raise KeyError(f)
         return _name_and_value_of(found)[1]
 
     def __setitem__(self, f, val):
-        found = self._tag.find('param', attrs={'name': f})
+        found = self._find_param(f)
         if found is None:
             raise KeyError(f)
         old_value = _name_and_value_of(found)[1]
-- 
2.43.0


From 4448a1330c23f56035064694c98117005095ce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:06 +0000
Subject: [PATCH 30/68] fix: assigning a value to a parameter doesn't take it
 from its owner

---
 sangfroid/layer/layer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index a6241e9..bcb398b 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -117,11 +117,10 @@ class Layer:
             if not isinstance(val, old_value.__class__):
                 raise TypeError(val.__class__)
 
-            new_value = val
+            # a copy, because the original may belong to another layer
+            old_value.tag.replace_with(copy.copy(val.tag))
         else:
-            new_value = old_value.__class__(val)
-
-        old_value.tag.replace_with(new_value.tag)
+            old_value.value = val
 
     def __contains__(self, f):
         found = self._tag.find(
-- 
2.43.0


From bd012fbbb29b42c8f6249357646830ff82387bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:36 +0000
Subject: [PATCH 31/68] fix: raise ValueError as intended, rather than failing
 to

---
 sangfroid/layer/layer.py | 16 ++++++++--------
 sangfroid/value/value.py |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index bcb398b..025da37 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -183,7 +183,7 @@ class Layer:
         matching_special = None
 
         if len(args)>1:
-            raise v.ValueError(
+            raise ValueError(
                     "You can only give one positional argument.")
         elif len(args)==1:
 
@@ -193,7 +193,7 @@ class Layer:
                      issubclass(args[0], Layer))
                     ):
                 if 'type' in kwargs:
-                    raise v.ValueError(
+                    raise ValueError(
                             "You can't give a type in both the positional "
                             "and keyword arguments.")
 
@@ -211,7 +211,7 @@ class Layer:
         if 'attrs' in kwargs:
             for k,v in kwargs['attrs'].items():
                 if k in kwargs:
-                    raise v.ValueError("{k} specified both as a kwarg and in attrs")
+                    raise ValueError("{k} specified both as a kwarg and in attrs")
                 kwargs[k] = v
 
             del kwargs['attrs']
@@ -279,7 +279,7 @@ class Layer:
                 logger.debug("  -- callback says: %s", result)
                 return result
 
-            raise v.ValueError(found_tag)
+            raise ValueError(found_tag)
 
         result = [
                 self.from_tag(x) for x in
@@ -341,7 +341,7 @@ class Layer:
         """
         tag_type = tag.get('type', None)
         if tag_type is None:
-            raise v.ValueError(
+            raise ValueError(
                     f"tag has no 'type' field: {tag}")
         return cls.handles_type.from_name(name=tag_type)(tag)
 
@@ -429,18 +429,18 @@ class Layer:
 
 def _name_and_value_of(tag):
     if tag.name!='param':
-        raise v.ValueError(f"param is not a <param>: {tag}")
+        raise ValueError(f"param is not a <param>: {tag}")
 
     name = tag.get('name', None)
     if name is None:
-        raise v.ValueError(f"param has no 'name' field: {tag}")
+        raise ValueError(f"param has no 'name' field: {tag}")
 
     value_tags = [tag for tag in tag.children
                   if isinstance(tag, bs4.element.Tag)
                   ]
 
     if len(value_tags)!=1:
-        raise v.ValueError(f"param should have one value: {tag}")
+        raise ValueError(f"param should have one value: {tag}")
 
     value_tag = value_tags[0]
 
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 735e46c..56eb349 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -560,10 +560,10 @@ class Waypoint:
         v = [t for t in tag.children if isinstance(t, bs4.element.Tag)]
 
         if len(v)==0:
-            raise ValueError(f"Waypoint without a value: {w}")
+            raise ValueError(f"Waypoint without a value: {tag}")
         elif len(v)!=1:
             raise ValueError(
-                    f"Waypoint with multiple values: {w}")
+                    f"Waypoint with multiple values: {tag}")
         elif v[0].name==Value.ANIMATED:
             raise ValueError("Values in waypoints cannot themselves "
                              "be animated")
-- 
2.43.0


From 1b1b909fcde40a2cd6e6117c1b6915bfa654ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:53 +0000
Subject: [PATCH 32/68] fix: find layers by type, however the type is spelled
 in the document

---
 sangfroid/layer/layer.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 025da37..09a18c2 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -218,10 +218,8 @@ class Layer:
 
         for k,v in kwargs.items():
             if k=='type':
-                if not isinstance(v, str):
-                    v = v.__name__
-
-                kwargs[k] = v.lower().replace('_', '')
+                if isinstance(v, str):
+                    kwargs[k] = normalise_synfig_layer_type_name(v)
 
         logger.debug("begin find_all")
 
@@ -236,21 +234,23 @@ class Layer:
 
             if matching_special is None:
 
-                def munge(k,v):
-                    if k=='type':
-                        k = 'type_'
-                        v = v.lower()
-
-                    return (k,v)
+                logger.debug("want: %s", kwargs)
 
-                targets = [
-                    munge(k,v)
-                    for k,v in kwargs.items()
-                    ]
+                for k, want_value in kwargs.items():
+                    if k=='type':
+                        # not the "type_" attribute, because some
+                        # layers have a param of that name
+                        if isinstance(want_value, type):
+                            found_it = isinstance(found_layer, want_value)
+                        else:
+                            found_it = want_value==(
+                                    normalise_synfig_layer_type_name(
+                                        found_tag['type']))
 
-                logger.debug("want: %s", targets)
+                        if found_it:
+                            return True
+                        continue
 
-                for k, want_value in targets:
                     try:
                         found_value = getattr(found_layer, k)
                         logger.debug("  -- %s field is %s; want %s", k,
-- 
2.43.0


From 46752ba2d790308f2c6561254eaeb16314b47b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:18 +0000
Subject: [PATCH 33/68] fix: a search finds only the layers which match all the
 criteria

---
 sangfroid/layer/layer.py | 89 ++++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 45 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 09a18c2..893d4b2 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -232,54 +232,53 @@ class Layer:
 
             found_layer = Layer.from_tag(found_tag)
 
-            if matching_special is None:
+            if isinstance(matching_special, bool):
+                if not matching_special:
+                    return False
 
-                logger.debug("want: %s", kwargs)
-
-                for k, want_value in kwargs.items():
-                    if k=='type':
-                        # not the "type_" attribute, because some
-                        # layers have a param of that name
-                        if isinstance(want_value, type):
-                            found_it = isinstance(found_layer, want_value)
-                        else:
-                            found_it = want_value==(
-                                    normalise_synfig_layer_type_name(
-                                        found_tag['type']))
-
-                        if found_it:
-                            return True
-                        continue
-
-                    try:
-                        found_value = getattr(found_layer, k)
-                        logger.debug("  -- %s field is %s; want %s", k,
-                                     repr(found_value),
-                                     repr(want_value),
-                                     )
-                    except AttributeError:
-                        logger.debug("  -- it does not have a %s", k)
-                        continue
-
-                    logger.debug("  want: %s  found: %s",
-                                 want_value, found_value)
-
-                    if found_value==want_value:
-                        logger.debug("    -- a match!")
-                        return True
-
-                logger.debug("  -- no matches.")
-                return False
-
-            elif isinstance(matching_special, bool):
-                return matching_special
-
-            else:
+            elif matching_special is not None:
                 result = matching_special(found_tag)
                 logger.debug("  -- callback says: %s", result)
-                return result
-
-            raise ValueError(found_tag)
+                if not result:
+                    return False
+
+            logger.debug("want: %s", kwargs)
+
+            # It must match all the criteria.
+            for k, want_value in kwargs.items():
+                if k=='type':
+                    # not the "type_" attribute, because some
+                    # layers have a param of that name
+                    if isinstance(want_value, type):
+                        found_it = isinstance(found_layer, want_value)
+                    else:
+                        found_it = want_value==(
+                                normalise_synfig_layer_type_name(
+                                    found_tag['type']))
+
+                    if not found_it:
+                        return False
+                    continue
+
+                try:
+                    found_value = getattr(found_layer, k)
+                    logger.debug("  -- %s field is %s; want %s", k,
+                                 repr(found_value),
+                                 repr(want_value),
+                                 )
+                except AttributeError:
+                    logger.debug("  -- it does not have a %s", k)
+                    return False
+
+                logger.debug("  want: %s  found: %s",
+                             want_value, found_value)
+
+                if not found_value==want_value:
+                    logger.debug("    -- not a match.")
+                    return False
+
+            logger.debug("    -- a match!")
+            return True
 
         result = [
                 self.from_tag(x) for x in
-- 
2.43.0


From 29747cb2b99dbe1daa0b48fa66c85d34b557afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:22 +0000
Subject: [PATCH 34/68] fix: non-recursive searches of groups consider their
 children

---
 sangfroid/layer/layer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 893d4b2..8371ae7 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -280,9 +280,14 @@ class Layer:
             logger.debug("    -- a match!")
             return True
 
+        if recursive:
+            searching = self._tag
+        else:
+            searching = getattr(self, 'canvas_tag', self._tag)
+
         result = [
                 self.from_tag(x) for x in
-                self._tag.find_all(matcher,
+                searching.find_all(matcher,
                                   recursive=recursive,
                                   )
                 ]
-- 
2.43.0


From 925742344b7f3bdc7d16cac171e6d17e1e220e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:25 +0000
Subject: [PATCH 35/68] fix: layers with a parameter called type store it under
 that name

---
 sangfroid/layer/blurs.py   | 2 +-
 sangfroid/layer/stylise.py | 4 ++--
 sangfroid/layer/tbd.py     | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sangfroid/layer/blurs.py b/sangfroid/layer/blurs.py
index db34a24..d035346 100644
--- a/sangfroid/layer/blurs.py
+++ b/sangfroid/layer/blurs.py
@@ -17,7 +17,7 @@ class Blur(Layer):
                         )
     size                 = f.ParamTagField(v.X_Y, (0.1000000015, 0.1000000015),
                         )
-    type_                = f.ParamTagField(v.Integer, 1,
+    type_                = f.ParamTagField(v.Integer, 1, name='type',
                         )
 
     ### }}}
diff --git a/sangfroid/layer/stylise.py b/sangfroid/layer/stylise.py
index d72ea10..aad7772 100644
--- a/sangfroid/layer/stylise.py
+++ b/sangfroid/layer/stylise.py
@@ -21,7 +21,7 @@ class Shade(Layer):
                         )
     size                 = f.ParamTagField(v.X_Y, (0.1000000015, 0.1000000015),
                         )
-    type_                = f.ParamTagField(v.Integer, 1,
+    type_                = f.ParamTagField(v.Integer, 1, name='type',
                         )
     invert               = f.ParamTagField(v.Bool, False,
                         )
@@ -41,7 +41,7 @@ class Bevel(Layer):
                         )
     blend_method         = f.ParamTagField(v.BlendMethod, v.BlendMethod.ONTO,
                         )
-    type_                = f.ParamTagField(v.Integer, 1,
+    type_                = f.ParamTagField(v.Integer, 1, name='type',
                         )
     color1               = f.ParamTagField(v.Color, (1.0, 1.0, 1.0, 1.0),
                         )
diff --git a/sangfroid/layer/tbd.py b/sangfroid/layer/tbd.py
index 938be98..8749973 100644
--- a/sangfroid/layer/tbd.py
+++ b/sangfroid/layer/tbd.py
@@ -497,7 +497,7 @@ class Halftone3(Layer):
                         )
     size                 = f.ParamTagField(v.X_Y, (0.25, 0.25),
                         )
-    type_                = f.ParamTagField(v.Integer, 0,
+    type_                = f.ParamTagField(v.Integer, 0, name='type',
                         )
     subtractive          = f.ParamTagField(v.Bool, True,
                         )
@@ -529,7 +529,7 @@ class Halftone2(Layer):
                         )
     color_dark           = f.ParamTagField(v.Color, (0.0, 0.0, 0.0, 1.0),
                         )
-    type_                = f.ParamTagField(v.Integer, 0,
+    type_                = f.ParamTagField(v.Integer, 0, name='type',
                         )
 
     ### }}}
@@ -716,7 +716,7 @@ class Spherize(Layer):
                         )
     clip                 = f.ParamTagField(v.Bool, False,
                         )
-    type_                = f.ParamTagField(v.Integer, 0,
+    type_                = f.ParamTagField(v.Integer, 0, name='type',
                         )
 
     ### }}}
-- 
2.43.0


From c9400e417f4efaf489a792246ada870aabb98bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:46 +0000
Subject: [PATCH 36/68] fix: layers can be moved within their group, but not
 into themselves

---
 sangfroid/layer/group.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index e29342b..06df8d8 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -101,10 +101,17 @@ class Group(Layer):
                 include_descendants = True,
                 )
 
-    def append(self, layer):
-        if not isinstance(layer, Layer):
+    def _check_can_contain(self, layer):
+        if not isinstance(layer, Layer) or layer._tag.name!='layer':
             raise TypeError(type(layer))
 
+        if layer._tag is self._tag or any(
+                parent is layer._tag for parent in self._tag.parents):
+            raise ValueError("A layer can't be inside itself.")
+
+    def append(self, layer):
+        self._check_can_contain(layer)
+
         after = None
         # "after" from our perspective; *before* in the XML
 
@@ -116,18 +123,25 @@ class Group(Layer):
                 after = child
                 break
 
-        if after is None:
+        if after is layer._tag:
+            pass # it's already the last one
+        elif after is None:
             canvas.append(layer._tag)
         else:
             after.insert_before(layer._tag)
 
     def insert(self, index, layer):
-        if not isinstance(layer, Layer):
-            raise TypeError(type(layer))
+        self._check_can_contain(layer)
+
+        if not isinstance(index, int):
+            raise TypeError(type(index))
 
         before = self[index]
         # "before" from our perspective; *after* in the XML
 
+        if before._tag is layer._tag:
+            return
+
         before._tag.insert_after("\n")
         before._tag.insert_after(layer._tag)
         before._tag.insert_after("\n")
-- 
2.43.0


From 9ce949516edadf0afbe28701143dbe80a25ccc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:50 +0000
Subject: [PATCH 37/68] fix: the length of a group is the number of its
 children

---
 sangfroid/layer/group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index 06df8d8..f66fcb0 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -146,6 +146,9 @@ class Group(Layer):
         before._tag.insert_after(layer._tag)
         before._tag.insert_after("\n")
 
+    def _sublayer_tags(self):
+        return self.canvas_tag.find_all('layer', recursive=False)
+
     def __getitem__(self, f):
         if isinstance(f, int):
             return list(self.children)[f]
-- 
2.43.0


From 585da63b5995cfbf116a3c1d3ac4d9fc49634f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:13 +0000
Subject: [PATCH 38/68] fix: header fields use the names which Synfig gives
 them

---
 sangfroid/animation.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 1a24900..92150e2 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -33,6 +33,13 @@ class TagTimeAttrField(TagAttrField):
                  ref = obj._tag,
                  )
 
+    def __set__(self, obj, value):
+        if not isinstance(value, T):
+            value = T(value,
+                      ref = obj._tag,
+                      )
+        super().__set__(obj, value)
+
 class Animation(Group):
     """
     A Synfig animation.
@@ -55,10 +62,10 @@ class Animation(Group):
     yres = TagAttrField(float,       2834.645669,
                         doc = "The vertical resolution.",
                         )
-    gamma_r = TagAttrField(float,       1.0)
-    gamma_g = TagAttrField(float,       1.0)
-    gamma_b = TagAttrField(float,       1.0)
-    view_box = TagAttrField(str, '-4.0 2.25 4.0 -2.25') # XXX wrong
+    gamma_r = TagAttrField(float,       1.0, name='gamma-r')
+    gamma_g = TagAttrField(float,       1.0, name='gamma-g')
+    gamma_b = TagAttrField(float,       1.0, name='gamma-b')
+    view_box = TagAttrField(str, '-4.0 2.25 4.0 -2.25', name='view-box') # XXX wrong
     antialias = TagAttrField(int,         1) # XXX enum?
     fps = TagAttrField(float,       24.0,
         doc = """
@@ -66,13 +73,13 @@ class Animation(Group):
 
             (Can this be non-integer?)""",
            )
-    begin_time = TagTimeAttrField(0,
+    begin_time = TagTimeAttrField(0, name='begin-time',
            doc = """
             The time at which this animation starts.
 
             Almost always zero.""",
            )
-    end_time = TagTimeAttrField('5s',
+    end_time = TagTimeAttrField('5s', name='end-time',
             doc = 'The time at which this animation ends.',
            )
     bgcolor = TagAttrField(str,         '0.5 0.5 0.5 1.0')
@@ -165,20 +172,6 @@ class Animation(Group):
             ])
 
 
-    @property
-    def begin_time(self):
-        """
-        The time at which this animation starts.
-
-        Almost always zero.
-
-        Type:
-            T
-        """
-        return T(self._tag.attrs['begin-time'],
-                 ref = self._tag,
-                 )
-
     @property
     def framecount(self):
         """
-- 
2.43.0


From ba3f85bf4bbd28aecea6718b9687ee338738c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:17 +0000
Subject: [PATCH 39/68] fix: the name and description of an animation can be
 set

---
 sangfroid/animation.py | 4 ----
 sangfroid/field.py     | 8 ++++++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 92150e2..139bcdb 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -138,10 +138,6 @@ class Animation(Group):
     def canvas_tag(self):
         return self._tag
 
-    @property
-    def name(self):
-        return self._tag.find('name').string
-
     @property
     def size(self):
         """
diff --git a/sangfroid/field.py b/sangfroid/field.py
index 9efd875..0c5b381 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -289,7 +289,7 @@ class NamedChildField(Field):
                 )
 
     def get_subtag_for_obj(self, obj):
-        return obj._tag.find(self.name)
+        return obj._tag.find(self.name, recursive=False)
  
     def __get__(self, obj, obj_type=None):
 
@@ -298,12 +298,16 @@ class NamedChildField(Field):
         if subtag is None:
             return ''
         else:
-            return subtag.string
+            return subtag.text
 
     def __set__(self, obj, value):
 
         subtag = self.get_subtag_for_obj(obj)
 
+        if subtag is None:
+            subtag = bs4.Tag(name=self.name)
+            obj._tag.insert(0, subtag)
+
         subtag.string = value
 
 """
-- 
2.43.0


From 4fdbda37f3f37542630233e592730d36723a4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:39 +0000
Subject: [PATCH 40/68] fix: size, viewbox and background use the defaults if a
 document leaves them out

---
 sangfroid/animation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 139bcdb..fe012c1 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -147,8 +147,8 @@ class Animation(Group):
             (int, int)
         """
         return (
-                int(self._tag.attrs['width']),
-                int(self._tag.attrs['height']),
+                self.width,
+                self.height,
                 )
 
     @property
@@ -164,7 +164,7 @@ class Animation(Group):
         """
         return tuple([
             float(n) for n in
-            self._tag.attrs['view-box'].split(' ')
+            self.view_box.split(' ')
             ])
 
 
@@ -193,7 +193,7 @@ class Animation(Group):
         """
         triplet = tuple([
             float(n) for n in
-            self._tag.attrs['bgcolor'].split(' ')
+            self.bgcolor.split(' ')
             ])
         result = Color(*triplet)
         return result
-- 
2.43.0


From 0fdad458063ec468b26b068ea134a4a319e10dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:43 +0000
Subject: [PATCH 41/68] fix: keyframes are active unless they say otherwise

---
 sangfroid/keyframe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/keyframe.py b/sangfroid/keyframe.py
index 626fb76..6290d23 100644
--- a/sangfroid/keyframe.py
+++ b/sangfroid/keyframe.py
@@ -16,7 +16,7 @@ class Keyframe:
 
     @property
     def active(self):
-        if self._tag['active']=='true':
+        if self._tag.get('active', 'true')=='true':
             return True
         else:
             return False
-- 
2.43.0


From 01faf7364f35aa66a90c4758174b2c4ac9a1cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:46 +0000
Subject: [PATCH 42/68] fix: a save which fails leaves the animation tied to
 its previous file

---
 sangfroid/animation.py | 11 ++++++++---
 sangfroid/format.py    | 12 ++++++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index fe012c1..a66f620 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -225,9 +225,14 @@ class Animation(Group):
             new_format = Format.from_filename(filename,
                                               load = False,
                                               )
-            if new_format!=self._format:
-                # XXX copy the images over
-                self._format = new_format
+            # XXX copy the images over
+            new_format.save(
+                    content = self._soup,
+                    filename = filename,
+                    )
+            # only if it worked
+            self._format = new_format
+            return
 
         self._format.save(
                 content = self._soup,
diff --git a/sangfroid/format.py b/sangfroid/format.py
index 9648c52..2863b03 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -135,8 +135,8 @@ class Format:
 
         return filename
 
-    def _write_to_file(self, f, content):
-        f.write(str(content).encode('UTF-8'))
+    def _content_to_bytes(self, content):
+        return str(content).encode('UTF-8')
 
     @classmethod
     def handlers(cls):
@@ -174,8 +174,10 @@ class Sif(Format):
     def save(self, content, filename=None):
         filename = self._filename_for_saving(filename)
 
+        content = self._content_to_bytes(content)
+
         with open(filename, 'wb') as f:
-            self._write_to_file(f, content)
+            f.write(content)
 
 class Sifz(Format):
 
@@ -188,8 +190,10 @@ class Sifz(Format):
     def save(self, content, filename=None):
         filename = self._filename_for_saving(filename)
 
+        content = self._content_to_bytes(content)
+
         with gzip.open(filename, 'wb') as f:
-            self._write_to_file(f, content)
+            f.write(content)
 
 class Sfg(Format):
     
-- 
2.43.0


From 50d344f994217f3600d141cfeaf6f8d2a038b10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:49 +0000
Subject: [PATCH 43/68] fix: read .sif files in the encoding they declare,
 whatever the locale

---
 sangfroid/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 2863b03..335c74d 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -169,7 +169,7 @@ class Sif(Format):
     extensions = ('sif',)
 
     def main_file(self):
-        return FileContextHandler(open(self.filename, 'r'))
+        return FileContextHandler(open(self.filename, 'rb'))
 
     def save(self, content, filename=None):
         filename = self._filename_for_saving(filename)
-- 
2.43.0


From 62fdc9c720782b7c777d8828a70cc72628ccd86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:53 +0000
Subject: [PATCH 44/68] fix: don't change text which consists only of
 whitespace

---
 sangfroid/format.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 335c74d..a316270 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -155,6 +155,8 @@ class FileContextHandler:
         self.soup = BeautifulSoup(
                 f,
                 features = 'xml',
+                # everything inside the root tag
+                preserve_whitespace_tags = {'canvas'},
                 )
 
     def __enter__(self):
-- 
2.43.0


From 8b9fc5a2399287d1b8884140b5c2dde7060480aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:21 +0000
Subject: [PATCH 45/68] fix: newlines and tabs in attributes survive being
 saved

---
 sangfroid/format.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index a316270..1634603 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -1,6 +1,8 @@
 import gzip
 import os
 from bs4 import BeautifulSoup
+from bs4.dammit import EntitySubstitution
+from bs4.formatter import XMLFormatter
 
 class Format:
     """
@@ -136,7 +138,7 @@ class Format:
         return filename
 
     def _content_to_bytes(self, content):
-        return str(content).encode('UTF-8')
+        return content.decode(formatter=SifFormatter()).encode('UTF-8')
 
     @classmethod
     def handlers(cls):
@@ -150,6 +152,23 @@ class Format:
                 and h!=Format
                 ]
 
+class SifFormatter(XMLFormatter):
+    """
+    Writes XML, escaping the whitespace characters which
+    XML parsers would otherwise turn into other ones.
+    """
+    def __init__(self):
+        super().__init__(
+                entity_substitution = EntitySubstitution.substitute_xml,
+                )
+
+    def substitute(self, ns):
+        return super().substitute(ns).replace('\r', '&#13;')
+
+    def attribute_value(self, value):
+        return super().attribute_value(value).replace(
+                '\n', '&#10;').replace('\t', '&#9;')
+
 class FileContextHandler:
     def __init__(self, f):
         self.soup = BeautifulSoup(
-- 
2.43.0


From f8aba12b8f267509d6aaddb654800c7b8d9cfee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:25 +0000
Subject: [PATCH 46/68] fix: open documents which have comments outside the
 root tag

---
 sangfroid/animation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index a66f620..cf2b966 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -128,8 +128,8 @@ class Animation(Group):
         with self._format.main_file() as soup:
             self._soup = soup
 
-        assert len(self._soup.contents)==1
-        tag = self._soup.contents[0]
+        tag = self._soup.find(recursive=False)
+        assert tag is not None
         super().__init__(
                 tag = tag,
                 )
-- 
2.43.0


From 84ae309f2cde9f410edd9387a66b83e6b9c994ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:49 +0000
Subject: [PATCH 47/68] fix: bywords pauses are weighted by the letters in each
 word

---
 bywords/bywords.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 28c1375..624e6be 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -23,9 +23,10 @@ bywords_groups = None
 
 @functools.total_ordering
 class WordTiming:
-    def __init__(self, text, item):
+    def __init__(self, text, item, letters):
         self.text = text
         self.item = item
+        self.letters = letters
         self.time = 0
 
     def __lt__(self, other):
@@ -91,6 +92,7 @@ class BywordsGroup:
                         WordTiming(
                             text = item.desc[:i],
                             item = item,
+                            letters = len(word),
                             ))
 
                 if words and words[0].strip()=='':
@@ -98,13 +100,13 @@ class BywordsGroup:
 
             s = s[len(item.desc):]
 
-        total_letters = sum([len(w.text) for w in word_timings])
+        total_letters = sum([w.letters for w in word_timings])
         ms_per_letter = duration/total_letters
 
         time = start
         for w in word_timings:
             w.time = time/1000
-            time += len(w.text)*ms_per_letter
+            time += w.letters*ms_per_letter
 
         return word_timings
 
-- 
2.43.0


From 9e70b5a3d8e1879a7af82844aa05032a2bed4eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:52 +0000
Subject: [PATCH 48/68] fix: bywords doesn't drop words which fall at the same
 time as others

---
 bywords/bywords.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 624e6be..4ba7eac 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -146,7 +146,7 @@ class Bywords:
             and group.desc.lower().startswith('bywords')
             ])
 
-        result = {}
+        result = []
         found = None
 
         for start, duration, text in self.lines:
@@ -159,12 +159,11 @@ class Bywords:
                 if found:
                     break
             if found:
-                for word in found:
-                    result[word.time] = word
+                result.extend(found)
             else:
                 self.no_matches.append(text)
 
-        self.words = sorted(list(result.values()))
+        self.words = sorted(result)
 
     def dump_findings_to_logger(self):
         logger.info("\n\n=== Source timings ===\n")
-- 
2.43.0


From d1759f140be298bc98cb4ad4802abb1b34d84c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:54 +0000
Subject: [PATCH 49/68] fix: bywords matches subtitles of more than one line

---
 bywords/bywords.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 4ba7eac..95094cd 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -15,7 +15,7 @@ LOGGING_FORMAT = '%(time)10s %(layer)10s %(str)s'
 WHITESPACE = re.compile('([ \t\n]+)')
 NOTHING = re.compile('()')
 
-NON_WORD_LETTERS = re.compile('[^a-z0-9 ]') # FIXME not very i18n-friendly
+NON_WORD_LETTERS = re.compile('[^a-z0-9 \t\n]') # FIXME not very i18n-friendly
 
 PREFIX = 'bywords-'
 
@@ -59,7 +59,8 @@ class BywordsGroup:
 
     @classmethod
     def tidy_string(self, n):
-        return NON_WORD_LETTERS.sub('', n.lower())
+        # splitting and joining normalises any whitespace
+        return ' '.join(NON_WORD_LETTERS.sub('', n.lower()).split())
 
     def matches(self, s, duration, start=0,
                 letter_at_a_time = False,
-- 
2.43.0


From 89ae9b5a46b20a96f0e8e96f264ca17ada3dbcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:57 +0000
Subject: [PATCH 50/68] fix: bywords ignores text layers without descriptions

---
 bywords/bywords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 95094cd..3cd5d14 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -52,6 +52,7 @@ class BywordsGroup:
                 (self.tidy_string(item.desc), item,)
                 for item in
                 list(reversed(group.find_all('text')))
+                if item.desc
                 ]
 
         self.full_text = ' '.join(
@@ -73,7 +74,7 @@ class BywordsGroup:
         else:
             splitting_re = WHITESPACE
 
-        if s!=self.full_text:
+        if s!=self.full_text or not self.texts:
             return None
 
         for _, item in self.texts:
-- 
2.43.0


From dbcb11e3c4074282d4eae4de4d58d0d56bb3779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:00 +0000
Subject: [PATCH 51/68] fix: bywords handles times shorter than a tenth of a
 millisecond

---
 bywords/adjust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bywords/adjust.py b/bywords/adjust.py
index ec8a432..f815c10 100644
--- a/bywords/adjust.py
+++ b/bywords/adjust.py
@@ -7,7 +7,7 @@ logger = logging.getLogger('bywords')
 def set_constant_waypoint(tl, time, value):
     s = sangfroid.value.String(value)
     t = sangfroid.T(
-            f"{time}s",
+            f"{time:.9f}s",
             ref = tl.parent.tag,
             )
     waypoint = sangfroid.value.Waypoint(
-- 
2.43.0


From 9b68e0ac87c098c02e3d80256ebd5bff36abc701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:19 +0000
Subject: [PATCH 52/68] fix: bywords doesn't treat spaces or punctuation as
 words to match

---
 bywords/bywords.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 3cd5d14..ed9baf2 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -52,11 +52,11 @@ class BywordsGroup:
                 (self.tidy_string(item.desc), item,)
                 for item in
                 list(reversed(group.find_all('text')))
-                if item.desc
+                if item.desc and not item.desc.isspace()
                 ]
 
         self.full_text = ' '.join(
-                [s[0] for s in self.texts])
+                [s[0] for s in self.texts if s[0]])
 
     @classmethod
     def tidy_string(self, n):
@@ -74,7 +74,7 @@ class BywordsGroup:
         else:
             splitting_re = WHITESPACE
 
-        if s!=self.full_text or not self.texts:
+        if s!=self.full_text or s=='':
             return None
 
         for _, item in self.texts:
@@ -85,6 +85,9 @@ class BywordsGroup:
                      ]
 
             i = 0
+            while words[0].isspace():
+                i += len(words.pop(0))
+
             while words:
                 word = words.pop(0)
 
@@ -97,7 +100,7 @@ class BywordsGroup:
                             letters = len(word),
                             ))
 
-                if words and words[0].strip()=='':
+                while words and words[0].strip()=='':
                     i += len(words.pop(0))
 
             s = s[len(item.desc):]
-- 
2.43.0


From f917fa3f4b18e4e7da1c61c5f56c5a2533de1142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:50 +0000
Subject: [PATCH 53/68] fix: the replacer refuses a block which begins inside
 another

---
 sangfroid/template/replacer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/template/replacer.py b/sangfroid/template/replacer.py
index 33ba3a2..c3b00fd 100644
--- a/sangfroid/template/replacer.py
+++ b/sangfroid/template/replacer.py
@@ -56,6 +56,9 @@ class Replacer:
 
                 m = START_BLOCK_RE.search(line)
                 if m:
+                    if current_block_name is not None:
+                        raise ValueError(f"{filename}:{i}: beginning block inside another")
+
                     current_indent = len(m.groups()[0])
                     current_block_name = m.groups()[1]
                     if current_block_name == '':
-- 
2.43.0


From 41922e9c0886b05f5443fd06eab0ec544c289486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:53 +0000
Subject: [PATCH 54/68] fix: the replacer leaves line endings and encodings
 alone

---
 sangfroid/template/replacer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sangfroid/template/replacer.py b/sangfroid/template/replacer.py
index c3b00fd..dc9fe51 100644
--- a/sangfroid/template/replacer.py
+++ b/sangfroid/template/replacer.py
@@ -41,7 +41,7 @@ class Replacer:
         changed = False
         ignore = False
 
-        with open(filename, 'r') as f:
+        with open(filename, 'r', encoding='UTF-8', newline='') as f:
 
             for i, line in enumerate(f):
                 if self.verbose:
@@ -117,7 +117,7 @@ class Replacer:
     def write_to(cls, filename, text):
         temp_filename = filename+'.1'
 
-        with open(temp_filename, 'w') as f:
+        with open(temp_filename, 'w', encoding='UTF-8', newline='') as f:
             f.write(text)
         os.rename(temp_filename, filename)
         print("Written:", filename)
-- 
2.43.0


From 96bfda647e068a652fb12fd228b3391d1c568844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:39 +0000
Subject: [PATCH 55/68] fix: switch layers don't have the parameters of the
 layers inside them

---
 sangfroid/layer/tbd.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/sangfroid/layer/tbd.py b/sangfroid/layer/tbd.py
index 8749973..172ed49 100644
--- a/sangfroid/layer/tbd.py
+++ b/sangfroid/layer/tbd.py
@@ -47,16 +47,6 @@ class Switch(Layer):
                                         },
                         )
     canvas               = f.SwitchCanvasField()
-    tl                   = f.ParamTagField(v.X_Y, (-0.5333333611, 0.5333333611),
-                        )
-    br                   = f.ParamTagField(v.X_Y, (0.5333333611, -0.5333333611),
-                        )
-    c                    = f.ParamTagField(v.Integer, 1,
-                        )
-    gamma_adjust         = f.ParamTagField(v.Real, 1.0,
-                        )
-    filename             = f.ParamTagField(v.String, 'drop.png',
-                        )
     time_offset          = f.ParamTagField(v.Time, 0,
                         )
     time_dilation        = f.ParamTagField(v.Real, 1.0,
-- 
2.43.0


From c2162899f15d0df2c7d403b527e3cdc3e51f2023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:31 +0000
Subject: [PATCH 56/68] fix: refuse names and descriptions which aren't text,
 without losing the old ones

---
 sangfroid/field.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index 0c5b381..15d9ee7 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -302,6 +302,11 @@ class NamedChildField(Field):
 
     def __set__(self, obj, value):
 
+        if not isinstance(value, self.type_):
+            raise TypeError(
+                    f"I need a value of type {self.type_.__name__}, "
+                    f"not {value.__class__.__name__}.")
+
         subtag = self.get_subtag_for_obj(obj)
 
         if subtag is None:
-- 
2.43.0


From eda9aba0465ca18a66e923a81031f16fb93a9f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:50 +0000
Subject: [PATCH 57/68] fix: the members of a vector are in the same order
 however it's written

---
 sangfroid/value/vector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 43168c7..e8c6c0e 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -111,10 +111,11 @@ class Vector(Value):
     def values(self):
         if self.is_animated:
             return None
-        return [self.our_type(v) for v in self.value.values()]
+        return [v for k,v in self.items()]
 
     def items(self):
-        return [(k, self.our_type(v)) for k,v in self.value.items()]
+        # in the same order as keys()
+        return [(k, self.our_type(v)) for k,v in sorted(self.value.items())]
 
     def __len__(self):
         return len(self.value)
-- 
2.43.0


From 4a853356101275047d086fb0fbf8f48b99b977b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:56 +0000
Subject: [PATCH 58/68] fix: a class line in a block being replaced no longer
 names later blocks

---
 sangfroid/template/replacer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/template/replacer.py b/sangfroid/template/replacer.py
index dc9fe51..fa45082 100644
--- a/sangfroid/template/replacer.py
+++ b/sangfroid/template/replacer.py
@@ -51,7 +51,7 @@ class Replacer:
                         line.rstrip(),
                         ))
                 m = CLASSNAME_RE.search(line)
-                if m:
+                if m and not ignore:
                     latest_class_name = m.groups()[0]
 
                 m = START_BLOCK_RE.search(line)
-- 
2.43.0


From 3f5db28dfc6f430105b41d4466a08f1e591560f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:00 +0000
Subject: [PATCH 59/68] fix: creating a layer no longer changes the default
 version of other layers

---
 sangfroid/layer/layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 8371ae7..176cb3c 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -377,6 +377,9 @@ class Layer:
         for c in cls.mro():
             for field in c.__dict__.values():
                 if isinstance(field, Field):
+                    # a copy, because the field may be shared
+                    # with other kinds of layer
+                    field = copy.copy(field)
                     field.__set_name__(cls, field.name)
                     if isinstance(field, TagAttrField):
                         value = field.default
-- 
2.43.0


From 1ab949b9fa352b8c007ef9296fbf51cda9ca77a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:10 +0000
Subject: [PATCH 60/68] fix: a whole animation can't be assigned to the canvas
 of a group

---
 sangfroid/value/canvas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/canvas.py b/sangfroid/value/canvas.py
index d3c7905..f063b74 100644
--- a/sangfroid/value/canvas.py
+++ b/sangfroid/value/canvas.py
@@ -29,7 +29,7 @@ class Canvas(Value):
         v = list(v)
 
         for layer in v:
-            if not isinstance(layer, Layer):
+            if not isinstance(layer, Layer) or layer.tag.name!='layer':
                 raise TypeError(type(layer))
             if any(parent is layer.tag for parent in self._tag.parents):
                 raise ValueError("A layer can't be inside itself.")
-- 
2.43.0


From 27ffa07a8fbbf41fef9b8eac463f62529001e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:52 +0000
Subject: [PATCH 61/68] fix: comparing animated values doesn't fail, and they
 never equal constants

---
 sangfroid/value/color.py  | 4 +++-
 sangfroid/value/value.py  | 7 +++++++
 sangfroid/value/vector.py | 3 +++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index c76f7fc..880747b 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -28,7 +28,9 @@ class Color(Value):
 
     def __eq__(self, other):
 
-        if isinstance(other, Color):
+        if self._either_is_animated(other):
+            return super().__eq__(other)
+        elif isinstance(other, Color):
             return self.value == other.value
         elif isinstance(other, str):
             other = other.lower()
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 56eb349..3c0fb12 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -246,11 +246,18 @@ class Value:
         raise NotImplementedError()
 
     def __eq__(self, other):
+        if self._either_is_animated(other):
+            # an animated value never equals a constant
+            return isinstance(other, Value) and self._tag==other._tag
+
         if isinstance(other, Value):
             return self.value == other.value
 
         return self.value == other
 
+    def _either_is_animated(self, other):
+        return self.is_animated or getattr(other, 'is_animated', False)
+
     def as_python_expression(self):
         """
         A Python expression which could be passed to the constructor
diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index e8c6c0e..58db241 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -133,6 +133,9 @@ class Vector(Value):
             return str(self.value)
 
     def __eq__(self, other):
+        if self._either_is_animated(other):
+            return super().__eq__(other)
+
         try:
             if len(other)!=len(self):
                 return False
-- 
2.43.0


From 40bc220d0ae0a1b02f2c6045649fb7ddc18dac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:18 +0000
Subject: [PATCH 62/68] fix: transformations can be compared with any dict

---
 sangfroid/value/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index f412e81..c47222b 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -166,7 +166,7 @@ class Composite(Value):
             return False
 
         for key, value in self.items():
-            if other[key]!=value:
+            if key not in other or other[key]!=value:
                 return False
 
         return True
-- 
2.43.0


From 90d9ebe7efd32d5a4f23969eb12aa176885ca743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:22 +0000
Subject: [PATCH 63/68] fix: integers don't equal numbers with fractions, nor
 booleans everything which is true

---
 sangfroid/value/simple.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index e43b951..4628bac 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -77,12 +77,15 @@ class Simple(Value):
             v = other.value
         else:
             try:
-                v = self.our_type(other)
+                v = self._convert_to_compare(other)
             except (TypeError, ValueError):
                 v = other
 
         return self._compare_with(v)
 
+    def _convert_to_compare(self, other):
+        return self.our_type(other)
+
     def _compare_with(self, v):
         return self.value==v
 
@@ -111,6 +114,11 @@ class Real(Numeric):
 class Integer(Numeric):
     our_type = int
 
+    def _convert_to_compare(self, other):
+        if isinstance(other, str):
+            return int(other)
+        return other # int() would drop the fraction
+
     def __int__(self):
         return self.value
 
@@ -121,6 +129,11 @@ class Bool(Simple):
     def __bool__(self):
         return self.value
 
+    def _convert_to_compare(self, other):
+        if isinstance(other, str):
+            return {'true': True, 'false': False}.get(other.lower())
+        return other # rather than whether it's true or false
+
     def _construct_value(self, v):
         assert isinstance(v, str)
         if v.lower()=='true':
-- 
2.43.0


From b6498effa100ad5bab3fd96dc10f4fc43ccf65b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:23 +0000
Subject: [PATCH 64/68] fix: transformations can be compared with each other

---
 sangfroid/value/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index c47222b..77d7944 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -166,7 +166,7 @@ class Composite(Value):
             return False
 
         for key, value in self.items():
-            if key not in other or other[key]!=value:
+            if key not in other.keys() or other[key]!=value:
                 return False
 
         return True
-- 
2.43.0


From e14ad41c7fbf5e3f26010b9dde763b93a49fb632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:36 +0000
Subject: [PATCH 65/68] fix: vectors don't equal gradients whose positions are
 their members

---
 sangfroid/value/vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 58db241..e49ceb7 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -136,6 +136,9 @@ class Vector(Value):
         if self._either_is_animated(other):
             return super().__eq__(other)
 
+        if isinstance(other, (Value, dict)) and not isinstance(other, Vector):
+            return False
+
         try:
             if len(other)!=len(self):
                 return False
-- 
2.43.0


From 3bbf040f02de21503c6315b512d73846b06621f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:39 +0000
Subject: [PATCH 66/68] fix: times can be compared with text giving seconds

---
 sangfroid/value/simple.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 4628bac..05b3036 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -185,6 +185,10 @@ class Time(Simple):
                 ref = self._tag,
                 )
 
+    def _convert_to_compare(self, other):
+        # so it can be in seconds
+        return self._convert(other)
+
     def as_python_expression(self):
         v = self.value
 
-- 
2.43.0


From ef1d7be30210ba0d4d117b49b2f532dbafe62071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:12 +0000
Subject: [PATCH 67/68] fix: a layer with a parameter without value could not
 list the names of its parameters

---
 sangfroid/layer/layer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 176cb3c..4147929 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -361,7 +361,13 @@ class Layer:
         return self._as_dict().items()
 
     def keys(self):
-        return self._as_dict().keys()
+        # not _as_dict(), because a param need not have a value
+        return dict([
+            (param.get('name'), None)
+            for param in self._tag.find_all('param',
+                                            recursive=False,
+                                            )
+            ]).keys()
 
     def values(self):
         return self._as_dict().values()
-- 
2.43.0


From 6b0d6a72124d39b6a7f596c9c7fa4925433391ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:16 +0000
Subject: [PATCH 68/68] fix: the Python expression of a blend method was not
 one

---
 sangfroid/value/blendmethod.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/blendmethod.py b/sangfroid/value/blendmethod.py
index a245de1..c66ce05 100644
--- a/sangfroid/value/blendmethod.py
+++ b/sangfroid/value/blendmethod.py
@@ -46,4 +46,8 @@ class BlendMethod(Integer):
         return cls(v.value)
 
     def as_python_expression(self):
-        return 'v.'+str(self)
+        for name, number in vars(BlendMethod).items():
+            if name.isupper() and number==self.value:
+                return f'v.BlendMethod.{name}'
+
+        return str(self)
-- 
2.43.0

