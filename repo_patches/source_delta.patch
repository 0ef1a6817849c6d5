From 57902fa13f6c86bb2a0e6788f02e5f17c3412dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 01/44] fix: convert every declared value of an attribute to
 its type

The set of values (or outcast values) was modified while being iterated on:
depending on the set's layout, some of the values were left unconverted or the
definition failed with a RuntimeError.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 1d71b10..f0e25c2 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -209,7 +209,7 @@ class Footprint:
             ktype = fp['attr'][a].get('type', str)
             kargs = fp['attr'][a].get('args', dict())
             for autoreclass in ('values', 'outcast'):
-                for v in fp['attr'][a][autoreclass]:
+                for v in list(fp['attr'][a][autoreclass]):
                     if not isinstance(v, ktype):
                         fp['attr'][a][autoreclass].remove(v)
                         try:
-- 
2.43.0


From be82990617eeeeaee57e4a2fbde8b01b83b4d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 02/44] fix: substitute values literally, whatever backslashes
 they contain

The substituted text was used as a regular expression template: a backslash in
it was either interpreted or lead to a re.error.
---
 src/footprints/__init__.py | 6 +++---
 src/footprints/util.py     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index f0e25c2..b94b613 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -421,7 +421,7 @@ class Footprint:
                 else:
                     starter = subattr
         if guessk is not None and starter != '__SKIP__':
-            guessk = replattr.sub(myautofmt(starter), guessk, 1)
+            guessk = replattr.sub(lambda u_m: myautofmt(starter), guessk, 1)
         return guessk, changed
 
     def _replacement(self, nbpass, k, kfast, guess, extras,
@@ -497,7 +497,7 @@ class Footprint:
                                 guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                       guess, extras, myautofmt, requeue=False)
                             else:
-                                guessk = replattr.sub(myautofmt(guess[replk]), guessk, 1)
+                                guessk = replattr.sub(lambda u_m: myautofmt(guess[replk]), guessk, 1)
                     elif replk in extras:
                         changed = 1
                         if replm:
@@ -505,7 +505,7 @@ class Footprint:
                             guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                   guess, extras, myautofmt, requeue=True)
                         else:
-                            guessk = replattr.sub(myautofmt(extras[replk]), guessk, 1)
+                            guessk = replattr.sub(lambda u_m: myautofmt(extras[replk]), guessk, 1)
 
         if (guessk is not None and
                 isinstance(guessk, str) and
diff --git a/src/footprints/util.py b/src/footprints/util.py
index 9e3d17f..9670d58 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -60,7 +60,7 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
             for g in globs.keys():
-                newd[k] = re.sub(r'\[glob:' + g + r'\]', globs[g], newd[k])
+                newd[k] = re.sub(r'\[glob:' + g + r'\]', lambda u_m: globs[g], newd[k])
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From 81959496c790ae878a6e5c019bf4a4d69616ecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 03/44] fix: resolve any acyclic set of references between
 attributes

A constant limit of 50 replacement passes was enforced: footprints with more
than 50 attributes, or with a long enough chain of references, could not be
resolved.
---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index b94b613..702a7d7 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -447,7 +447,8 @@ class Footprint:
             If the format string is incorrect, or if it can not be applied to key-name, a
             :exception:`ValueError` exception will be raised
         """
-        if nbpass > 50:
+        # Without any cycle, each turn over the pending attributes settles at least one of them
+        if nbpass > max(50, len(guess) * (len(guess) + 1) // 2):
             logger.error('Resolve probably cycling too much... %d tries ?', nbpass)
             raise FootprintMaxIter('Too many Footprint replacements')
 
-- 
2.43.0


From b38188225e6875246bcfe878fc2ce9023a6efc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 04/44] fix: detect replacement sequences that lead to
 themselves

A value referring to its own attribute, or extra values referring to each other,
made the resolution loop forever.
---
 src/footprints/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 702a7d7..e2a03e2 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -454,12 +454,20 @@ class Footprint:
 
         guessk = guess[k]
 
+        expanding = list()  # Sequences being expanded: (sequence, number of characters left after it)
         changed = 1
         while changed:
             changed = 0
             if isinstance(guessk, str):
                 mobj = replattr.search(guessk)
                 if mobj:
+                    tailsize = len(guessk) - mobj.end()
+                    while expanding and tailsize < expanding[-1][1]:
+                        expanding.pop()
+                    if any(mobj.group(0) == seq for seq, _ in expanding):
+                        logger.error('The %s sequence leads to itself', mobj.group(0))
+                        raise FootprintMaxIter('Endless Footprint replacement of ' + mobj.group(0))
+                    expanding.append((mobj.group(0), tailsize))
                     replk = mobj.group(1)
                     replm = mobj.group(2)
                     replx = mobj.group(3)
@@ -491,7 +499,7 @@ class Footprint:
                             logger.error('Actual defaults: %s', setup.defaults)
                             raise FootprintUnreachableAttr('Could not replace attribute ' + replk)
                     if replk in guess:
-                        if replk not in todok:
+                        if replk != k and replk not in todok:
                             changed = 1
                             if replm:
                                 replk_v = guess[replk]
-- 
2.43.0


From 57b974dfe3b5c1d0079c30c5d605ba5d514b3cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 05/44] fix: a string is a single value in an only clause

With Python 3, strings are iterable: the restriction was checked against each of
the characters instead of the string itself.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index e2a03e2..dc88624 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -650,7 +650,7 @@ class Footprint:
             resolvecache = collectors.ResolveCache()
         params = resolvecache.defaults
         for k, v in self.only.items():
-            if not hasattr(v, '__iter__'):
+            if isinstance(v, str) or not hasattr(v, '__iter__'):
                 v = (v,)
 
             actualattr = k
-- 
2.43.0


From 908ab76327cc90d220c2346bdd388a8a5d808f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 06/44] fix: reject a class when the value of an only clause is
 missing

No report is provided on the first attempt of a lookup (on error reporting, the
default): an AttributeError was raised instead of discarding the class.
---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index dc88624..3658ba8 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -665,7 +665,8 @@ class Footprint:
             actualvalue = rd.get(actualattr, params.get(actualattr, None))
             if actualvalue is None:
                 rd = False
-                report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
+                if report:
+                    report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
                 break
 
             checkflag = False
-- 
2.43.0


From 0fc764e32d72fd68c167deef8b9e6fbc3e41cd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 07/44] fix: look for default values in only clauses whatever
 the case

The `get` method of the defaults dictionary is case sensitive, contrary to its
other accessors.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 3658ba8..2912447 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -662,7 +662,7 @@ class Footprint:
             if after or before:
                 actualattr = k.partition('_')[-1]
 
-            actualvalue = rd.get(actualattr, params.get(actualattr, None))
+            actualvalue = rd[actualattr] if actualattr in rd else (params[actualattr] if actualattr in params else None)
             if actualvalue is None:
                 rd = False
                 if report:
-- 
2.43.0


From 8a43a0a392407e05258cc2bc3613508d7192e31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:58 +0000
Subject: [PATCH 08/44] fix: discard classes bounded on an optional attribute
 left unspecified

The after_/before_ clauses compared the placeholder of an unspecified optional
attribute with the bound, hence raising a TypeError for most of the types.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 2912447..0726238 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -663,7 +663,7 @@ class Footprint:
                 actualattr = k.partition('_')[-1]
 
             actualvalue = rd[actualattr] if actualattr in rd else (params[actualattr] if actualattr in params else None)
-            if actualvalue is None:
+            if actualvalue is None or ((after or before) and actualvalue is UNKNOWN):
                 rd = False
                 if report:
                     report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
-- 
2.43.0


From 90380539e62438b1d8c0c01ca470df3f7cd13660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 09/44] fix: accept attribute values that cannot be hashed

Containers holding unhashable items (for example a FPDict or a tuple of lists),
and weak proxies, do have a __hash__ method but still cannot be hashed: a
TypeError was raised when looking for them in the remap or values definition.
---
 src/footprints/__init__.py | 4 ++--
 src/footprints/util.py     | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 0726238..3c63268 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -531,7 +531,7 @@ class Footprint:
 
     def in_values(self, item, values):
         """Check that item is inside ``values`` or compares as equal to one of these values."""
-        if item in values:
+        if util.hashable(item) and item in values:
             return True
         else:
             return bool([x for x in values if x == item])
@@ -583,7 +583,7 @@ class Footprint:
 
             attr_seen.add(k)
 
-            while guess[k].__hash__ is not None and guess[k] in kdef['remap']:
+            while util.hashable(guess[k]) and guess[k] in kdef['remap']:
                 # logger.debug(' > Attr %s remap(%s) = %s', k, guess[k], kdef['remap'][guess[k]])
                 guess[k] = kdef['remap'][guess[k]]
 
diff --git a/src/footprints/util.py b/src/footprints/util.py
index 9670d58..243927b 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -40,6 +40,15 @@ def list2dict(a, klist):
     return a
 
 
+def hashable(obj):
+    """Tell whether *obj* can actually be hashed (a tuple of lists can not)."""
+    try:
+        hash(obj)
+    except TypeError:
+        return False
+    return True
+
+
 def inplace(desc, key, value, globs=None, globalindex=None):
     """
     Redefine the ``key`` value in a deep copy of the description ``desc``.
-- 
2.43.0


From 4e3344e4fdef4b4c9cd6aac476b0069cf4d660df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:21 +0000
Subject: [PATCH 10/44] fix: do not loop forever on values remapped to
 themselves

Such a mapping may be explicit or come from a duplicate in the list of values
when autoremap is used.
---
 src/footprints/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 3c63268..4815397 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -583,8 +583,10 @@ class Footprint:
 
             attr_seen.add(k)
 
-            while util.hashable(guess[k]) and guess[k] in kdef['remap']:
+            remapped = set()
+            while util.hashable(guess[k]) and guess[k] in kdef['remap'] and guess[k] not in remapped:
                 # logger.debug(' > Attr %s remap(%s) = %s', k, guess[k], kdef['remap'][guess[k]])
+                remapped.add(guess[k])
                 guess[k] = kdef['remap'][guess[k]]
 
             if guess[k] is not UNKNOWN:
-- 
2.43.0


From 257a680a28614027f6eedbaf2b6a0d55be2b9da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 11/44] fix: discard values that are not classes where a class
 is expected

A TypeError was raised by the lookup instead of rejecting the candidate.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 4815397..371ca44 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -592,7 +592,7 @@ class Footprint:
             if guess[k] is not UNKNOWN:
                 ktype = kdef.get('type', str)
                 if kdef.get('isclass', False):
-                    if not issubclass(guess[k], ktype):
+                    if not (isinstance(guess[k], type) and issubclass(guess[k], ktype)):
                         # logger.debug(' > Attr %s class %s not a subclass %s', k, guess[k], ktype)
                         report.add(attribute=k, why=reporting.REPORT_WHY_SUBCLASS, args=ktype.__name__)
                         diags[k] = True
-- 
2.43.0


From 21c47cc78eebe02b27144369fc382deb603f6f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 12/44] fix: resolve weak attributes left unspecified or given
 as weak proxies

A TypeError was raised for any optional weak attribute without value, and when
cloning an object with a weak attribute (its value is already a weak proxy).
---
 src/footprints/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 371ca44..3123934 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -641,8 +641,9 @@ class Footprint:
                 # else:
                 #     logger.debug(' > No valid attribute %s', k)
             else:
-                if 'weak' in attrs[k]['access']:
-                    guess[k] = weakref.proxy(guess[k])
+                if 'weak' in attrs[k]['access'] and guess[k] is not UNKNOWN:
+                    if type(guess[k]) not in weakref.ProxyTypes:
+                        guess[k] = weakref.proxy(guess[k])
 
         return (guess, attr_input, attr_seen)
 
-- 
2.43.0


From 2c9d67155074e49bbdeb3ae56fd80f3c5e078e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 13/44] fix: restore unspecified and private attributes of
 copied objects

An optional attribute left unspecified was read as '__unknown__' after a pickle
round trip. In addition, changing an attribute of a shallow copy changed the
original object.
---
 src/footprints/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 3123934..247b3bc 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -947,6 +947,9 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     def __setstate__(self, state):
         self._observer = observer.get(tag=self.__class__.fullname())
         self.__dict__.update(state)
+        # The UNKNOWN constant is checked by identity and attributes are not shared among (shallow) copies
+        self._attributes = {k: UNKNOWN if isinstance(v, str) and v == UNKNOWN else v
+                            for k, v in self._attributes.items()}
         self.footprint_riseup()
 
     def footprint_getattr(self, attr, auth=None):  # @UnusedVariable
-- 
2.43.0


From 37dcb3a43da7fb9064ac9f8e54187fafc481699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 14/44] fix: deleting an attribute only alters the object it is
 deleted from

The descriptor, which is shared by all the instances of the class, was broken by
the first deletion.
---
 src/footprints/__init__.py | 2 +-
 src/footprints/access.py   | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 247b3bc..7b32a5f 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -1098,7 +1098,7 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         rc = resolved and None not in resolved.values()
         if rc:
             for k in resolved.keys():
-                if self._attributes[k] != resolved[k]:
+                if self._attributes.get(k) != resolved[k]:
                     rc = False
                     break
         return rc
diff --git a/src/footprints/access.py b/src/footprints/access.py
index 47dd2da..e1bfd82 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -30,6 +30,11 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
     """Read-write-del accessor class to footprint attributes."""
     access_mode = 'rwd'
 
+    def __get__(self, instance, owner):
+        if instance is not None and not instance.footprint_has_attribute(self._attr):
+            raise AttributeError('Attribute [' + self._attr + '] was deleted')
+        return super().__get__(instance, owner)
+
     def __set__(self, instance, value, weak=False):
         fp = instance.footprint
         if self._attr is not None:
@@ -59,8 +64,9 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             instance.footprint_setattr(self._attr, value, auth=self._auth)
 
     def __delete__(self, instance):
+        if not instance.footprint_has_attribute(self._attr):
+            raise AttributeError('Attribute [' + self._attr + '] was deleted')
         instance.footprint_delattr(self._attr, auth=self._auth)
-        del self._attr
 
 
 class FootprintAttrDescriptorWeakRWD(FootprintAttrDescriptorRWD):
-- 
2.43.0


From baed47239c34ba9e05cace5246a7a19840528dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 15/44] fix: a priority level differs from anything which is
 not a level

An AttributeError was raised when comparing a level with an unknown level name.
---
 src/footprints/priorities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 1322b79..5429748 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -40,6 +40,8 @@ class PriorityLevel:
                 other = self.inset.level(str(other))
             except (ValueError, TypeError):
                 return False
+            if other is None:
+                return False
         return self.rank == other.rank
 
     def __gt__(self, other):
-- 
2.43.0


From 2df2b5deca6daab6b70ff031d4a6fb4dbb56a3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 16/44] fix: leave the priority set unchanged when an insertion
 is not possible

The inserted level vanished from the set (or got the top rank) when the reference
level was unknown or was the inserted level itself.
---
 src/footprints/priorities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 5429748..9180d19 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -202,6 +202,9 @@ class PrioritySet:
             return None
         else:
             tag = str(tag).upper()
+        refpriority = before if after is None else after
+        if refpriority is not None and (refpriority not in self or self.level(refpriority).tag == tag):
+            raise ValueError('Could not insert {!s} relatively to {!s}'.format(tag, refpriority))
         self.extend(tag)
         if after is not None:
             self._levels.remove(tag)
-- 
2.43.0


From dbc58e70961c6631bb83f2881f97e61bdb0c75cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 17/44] fix: copied footprints keep referring to the actual set
 of priorities

The priority level of a copied footprint (including those inherited from a
footprint without defaults) was attached to a private copy of the whole set:
its rank ignored any later change in priorities.
---
 src/footprints/priorities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 9180d19..f82a80f 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -21,6 +21,10 @@ class PriorityLevel:
     def __call__(self):
         return self.rank
 
+    def __deepcopy__(self, memo):
+        """A level always refers to its own set (unless the whole set is being copied)."""
+        return PriorityLevel(self._tag, memo.get(id(self._pset), self._pset))
+
     @property
     def tag(self):
         return self._tag
-- 
2.43.0


From cd1f25dab6317e25e497268d754389af5720de5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:21 +0000
Subject: [PATCH 18/44] fix: fasttrack does not discard classes that remap
 values

A class was ignored when one of the values it remaps was an allowed value of an
other class of the collector.
---
 src/footprints/collectors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index f3308b0..1a9b659 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -150,8 +150,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             myfp = cls.footprint_retrieve()
             if myattr in myfp.mandatory():
                 myvalues = myfp.get_values(myattr)
-                # Is there some restrictions on values ?
-                if myvalues:
+                # Is there some restrictions on values (that apply to the given values, i.e. before any remap) ?
+                if myvalues and not myfp.attr[myattr]['remap']:
                     # Ensure that the attribute types are consistent
                     if self._fasttrack_type[myattr] is None:
                         self._fasttrack_type[myattr] = myfp.attr[myattr].get('type', str)
@@ -170,7 +170,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
                     for myvalue in myvalues:
                         self._fasttrack_index[myattr][myvalue].add(cls)
 
-                # No restrictions on values so it's a potential candidate for everyone
+                # No such restrictions on values so it's a potential candidate for everyone
                 else:
                     self._fasttrack_trap[myattr].add(cls)
 
-- 
2.43.0


From cae10cbf501c74baa5a368aed96db2c408fa40cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 19/44] fix: fasttrack gives up on values that cannot be hashed
 or converted

Such values raised an exception whereas the very same lookup succeeds without
fasttrack.
---
 src/footprints/collectors.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 1a9b659..ff3ec47 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -12,7 +12,7 @@ from bronx.fancies import dump, loggers
 from bronx.stdtypes.catalog import Catalog
 from bronx.patterns import observer, getbytag
 
-from . import config, priorities, reporting
+from . import config, priorities, reporting, util
 
 #: No automatic export
 __all__ = []
@@ -224,15 +224,16 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             for k, v in desc.items():
                 if k in self._fasttrack_attr:
                     # Check if the key's value is in the index
-                    if v in self._fasttrack_index[k]:
+                    if util.hashable(v) and v in self._fasttrack_index[k]:
                         indexkey = v
                     else:
                         # A type conversion might be usefull
                         try:
                             v_conv = self._fasttrack_type[k](v, ** self._fasttrack_typeargs[k])
-                        except (ValueError, TypeError):
+                        except Exception:
                             v_conv = None
-                        if v_conv is not None and v_conv in self._fasttrack_index[k]:
+                        if (v_conv is not None and util.hashable(v_conv) and
+                                v_conv in self._fasttrack_index[k]):
                             indexkey = v_conv
                         else:
                             # Ok we give up...
-- 
2.43.0


From 0c7a1c91cff8d1d7f5958d24e6c0329d142ae3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 20/44] fix: classes removed from a collector are not found any
 more

When fasttrack was active, the classes removed with clear or pop were still
returned by the lookups.
---
 src/footprints/collectors.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index ff3ec47..8efa2a3 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -268,6 +268,17 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         super().discard(bye)
         self._upd_fasttrack_delete(bye)
 
+    def pop(self):
+        """Remove and return an arbitrary element from the catalog"""
+        bye = super().pop()
+        self._upd_fasttrack_delete(bye)
+        return bye
+
+    def clear(self):
+        """Completely clear the list of items previously recorded in this catalog."""
+        super().clear()
+        self._set_fasttrack(self._fasttrack_attr)
+
     def pickup_and_cache(self, desc, resolvecache=None):
         """Try to pickup inside the collector an item that could match the description."""
         logger.debug('Pick up a "{:s}" in description {!s} with collector {!r}'.format(self.tag, desc, self))
-- 
2.43.0


From 088e4be05fb8d67ee41464bd2e30ce5089b3f24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 21/44] fix: equal FPDict or FPSet objects have the same hash

The hash value depended on the insertion order whereas the comparison does not.
---
 src/footprints/stdtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/stdtypes.py b/src/footprints/stdtypes.py
index d89a30b..f91523c 100644
--- a/src/footprints/stdtypes.py
+++ b/src/footprints/stdtypes.py
@@ -15,7 +15,7 @@ __all__ = ['FPDict', 'FPList', 'FPSet', 'FPStr', 'FPTuple', 'FPRegex']
 class FPDict(dict):
     """A dict type for FootPrints arguments (without expansion)."""
     def __hash__(self):
-        return hash(tuple(self.items()))
+        return hash(frozenset(self.items()))
 
 
 class FPList(list):
@@ -33,7 +33,7 @@ class FPSet(set):
     """A set type for FootPrints arguments (without expansion)."""
 
     def __hash__(self):
-        return hash(tuple(self))
+        return hash(frozenset(self))
 
     def items(self):
         """Return a tuple copy of internal components of the FPSet."""
-- 
2.43.0


From 530a0822314ad60cbd0f6b15bfb61f0eb51bb18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:41 +0000
Subject: [PATCH 22/44] fix: a rejected class definition is not registered
 anywhere

When the name of one of its attributes was equal to the tag of its second
collector (or more), the class was nevertheless available in the first one. The
actual tag of the collectors (lower case, singular) is looked for as well.
---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 7b32a5f..b62af22 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -833,9 +833,10 @@ class FootprintBaseMeta(type):
                 raise FootprintInvalidDefinition('Explicit class without any mandatory footprint attribute.')
         # Add all classes in collectors but take into accout the abstract key
         for cname in realcls._collector:
-            if cname in thisfp.allkeys():
+            if cname in thisfp.allkeys() or collectors.Collector.tag_clean(cname) in thisfp.allkeys():
                 raise FootprintInvalidDefinition('A attribute or alias name is equal to collector tag: ' +
                                                  cname)
+        for cname in realcls._collector:
             thiscollector = collectors.get(tag=cname, report=setup.report, lreport_len=setup.lreport_len,
                                            report_style=setup.report_style)
             thiscollector.add(realcls, abstract=abstract)
-- 
2.43.0


From 07ba8866b3c3e23f838792fae2714eeeeb76b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 23/44] fix: list the allowed values of an attribute whatever
 their types

With Python 3, values of unrelated types cannot be sorted: a TypeError was
raised when the type of the attribute differed among the collected classes.
---
 src/footprints/collectors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 8efa2a3..c1ff600 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -485,7 +485,10 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             if attrname in fp.attr:
                 for v in fp.get_values(attrname):
                     allvalues.add(v)
-        return sorted(allvalues)
+        try:
+            return sorted(allvalues)
+        except TypeError:
+            return sorted(allvalues, key=lambda v: (type(v).__name__, str(v)))
 
     def report_dump(self, stamp=False):
         """Print a nicelly formatted dump report as a dict."""
-- 
2.43.0


From 0835addb840be085979a528bc02cfdfba575c2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 24/44] fix: expand no longer depends on the order of the
 description keys

A dictionary was matched against a key before this key was expanded (range, comma
separated string or glob), hence a KeyError, if it came first in the description.
---
 src/footprints/util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 243927b..f0518a3 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -163,6 +163,13 @@ def _parse_globs(todo):
     return glob_names, re.compile('^' + finalpattern + '$'), finalglob
 
 
+def _is_expandable_str(v):
+    """Tell whether the *v* string would be expanded by the :func:`expand` function."""
+    return (isinstance(v, str) and not v.__class__.__name__.startswith('FP') and
+            bool(re.match(r'range\(\d+(,\d+)?(,\d+)?\)$', v, re.IGNORECASE) or
+                 re.search(r',|{glob:\w+:', v)))
+
+
 def expand(desc):
     r"""
     Expand the given description according to iterable or expandable arguments.
@@ -294,7 +301,9 @@ def expand(desc):
                 if isinstance(v, dict):
                     for dk in [x for x in v.keys() if x in d]:
                         dv = d[dk]
-                        if not (isinstance(dv, list) or isinstance(dv, tuple) or isinstance(dv, set)):
+                        # Wait for the matching key to be expanded first
+                        if not (isinstance(dv, list) or isinstance(dv, tuple) or isinstance(dv, set) or
+                                _is_expandable_str(dv)):
                             newld.append(inplace(d, k, v[dk][str(dv)], globalindex=globalindex))
                             globalindex += 1
                             somechanges = True
-- 
2.43.0


From a514dc30e83606ab5135847730aa1008880ca20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 25/44] fix: expand a dictionary after the dictionary it
 depends on

A dictionary matched against a key, itself defined by a dictionary, lead to a
KeyError if it came first in the description.
---
 src/footprints/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index f0518a3..a468771 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -170,6 +170,12 @@ def _is_expandable_str(v):
                  re.search(r',|{glob:\w+:', v)))
 
 
+def _is_matching_dict(v, desc):
+    """Tell whether the *v* dictionary would be matched with *desc* by the :func:`expand` function."""
+    return (isinstance(v, dict) and not v.__class__.__name__.startswith('FP') and
+            any(k in desc for k in v))
+
+
 def expand(desc):
     r"""
     Expand the given description according to iterable or expandable arguments.
@@ -303,7 +309,7 @@ def expand(desc):
                         dv = d[dk]
                         # Wait for the matching key to be expanded first
                         if not (isinstance(dv, list) or isinstance(dv, tuple) or isinstance(dv, set) or
-                                _is_expandable_str(dv)):
+                                _is_expandable_str(dv) or _is_matching_dict(dv, d)):
                             newld.append(inplace(d, k, v[dk][str(dv)], globalindex=globalindex))
                             globalindex += 1
                             somechanges = True
-- 
2.43.0


From 1efbf3cbd4746e759bd78ef9c5b53799d4b7b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:02 +0000
Subject: [PATCH 26/44] fix: clear and reduce_to_last consistently alter the
 footprint logs

Once cleared, the log was not bounded any more and its previous content was still
displayed by the dictionary and XML views. The reduction to the last entry always
raised a TypeError.
---
 src/footprints/reporting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 8749838..7390ad2 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -234,11 +234,15 @@ class FootprintLog(getbytag.GetByTag):
 
     def clear(self):
         """Start a fresh new log history."""
-        self._log = list()
+        self._log.clear()
+        self._current = None
+        self._touch = True
 
     def reduce_to_last(self):
         """Remove from the current log history all but the last collector resolution attempt."""
-        self._log[0:-1] = []
+        while len(self._log) > 1:
+            self._log.popleft()
+        self._touch = True
 
     @property
     def last(self):
-- 
2.43.0


From 9b6a560da06891ed852773f1dddd978a4ba6ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 27/44] fix: never return an outdated view of a footprint log

The dictionary and XML views shared a single flag: updating one of them marked
the other one as up to date. A view with time stamps could also be returned in
place of a view without them (and vice versa).
---
 src/footprints/reporting.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 7390ad2..437e101 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -211,6 +211,7 @@ class FootprintLog(getbytag.GetByTag):
         self._current = None
         self._xml = None
         self._dict = dict()
+        self._dict_stamp = None
         self._touch = False
 
     def info(self):
@@ -315,6 +316,8 @@ class FootprintLog(getbytag.GetByTag):
     def as_xml(self, force=False):
         """Return a true class:`xml.dom.minidom.Document`."""
         if not self._xml or self._touch or force:
+            if self._touch:
+                self._dict = dict()
             self._xml = StandardReport(tag=self.tag)
             for item in self._log:
                 item.feed_xml(self._xml)
@@ -323,8 +326,11 @@ class FootprintLog(getbytag.GetByTag):
 
     def as_dict(self, force=False, stamp=True):
         """Convenient method for retrieving some handy dictionary."""
-        if not self._dict or self._touch or force:
+        if not self._dict or self._touch or force or stamp != self._dict_stamp:
+            if self._touch:
+                self._xml = None
             self._dict = dict()
+            self._dict_stamp = stamp
             for i, item in enumerate(self._log):
                 key = item.name
                 if stamp:
-- 
2.43.0


From 161a42f0d9d06c1dd85e022775f86eb9bf97dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 28/44] fix: an unspecified optional attribute never satisfies
 an only clause

The internal placeholder of unspecified attributes was compared with the items of
the clause: it could match regular expressions.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index b62af22..88c0907 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -666,7 +666,7 @@ class Footprint:
                 actualattr = k.partition('_')[-1]
 
             actualvalue = rd[actualattr] if actualattr in rd else (params[actualattr] if actualattr in params else None)
-            if actualvalue is None or ((after or before) and actualvalue is UNKNOWN):
+            if actualvalue is None or actualvalue is UNKNOWN:
                 rd = False
                 if report:
                     report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
-- 
2.43.0


From 990b9258b798c73e23841ea3ec42b0bd17610cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 29/44] fix: a footprint definition never alters the
 dictionaries and footprints it is built from

---
 src/footprints/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 88c0907..7dcc508 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -166,10 +166,10 @@ class Footprint:
             adict = None
             if isinstance(a, dict) and bool(a):
                 logger.debug('Init Footprint updated with dict %s', a)
-                adict = util.list2dict(a, ('attr', 'only'))
+                adict = util.list2dict(dict(a), ('attr', 'only'))
             if isinstance(a, Footprint) and (bool(a.attr) or bool(a.only)):
                 logger.debug('Init Footprint updated with object %s', a)
-                adict = a.as_dict()
+                adict = a.as_copy()
             if adict is not None:
                 util.dictmerge(fp, adict)
                 if 'attr' in adict:
-- 
2.43.0


From 1925532f44f752dbd6cb65f9b1dfd894f877cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 30/44] fix: a formatted reference to an invalid attribute
 makes the class not match

---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 7dcc508..966c94d 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -473,7 +473,8 @@ class Footprint:
                     replx = mobj.group(3)
 
                     def myautofmt(repl, myfmt=mobj.group(4)):
-                        if myfmt:
+                        # There is nothing to format in an attribute without any valid value
+                        if myfmt and repl is not None:
                             f_formatter = util.FoxyFormatter()
                             thefmt = ("{0" + myfmt + "}" if (':' in myfmt or '!' in myfmt)
                                       else "{0:" + myfmt + "}")
-- 
2.43.0


From 9d2a3ea3501abce91e8e6f40fedbcdde2266805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 31/44] fix: a failing set_before or set_after leaves the
 priorities unchanged

---
 src/footprints/priorities.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index f82a80f..aaf874e 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -200,6 +200,11 @@ class PrioritySet:
         self._levels.remove(tag)
         del self.__dict__[tag]
 
+    def check_insert(self, tag, refpriority):
+        """Ensure that the ``tag`` priority could be inserted next to the ``refpriority`` one."""
+        if refpriority not in self or self.level(refpriority).tag == str(tag).upper():
+            raise ValueError('Could not insert {!s} relatively to {!s}'.format(tag, refpriority))
+
     def insert(self, tag=None, after=None, before=None):
         """Insert a new priority after or before an other one (which the tag name is given)."""
         if tag is None:
@@ -207,8 +212,8 @@ class PrioritySet:
         else:
             tag = str(tag).upper()
         refpriority = before if after is None else after
-        if refpriority is not None and (refpriority not in self or self.level(refpriority).tag == tag):
-            raise ValueError('Could not insert {!s} relatively to {!s}'.format(tag, refpriority))
+        if refpriority is not None:
+            self.check_insert(tag, refpriority)
         self.extend(tag)
         if after is not None:
             self._levels.remove(tag)
@@ -229,11 +234,15 @@ top = PrioritySet(levels=['none', 'default', 'toolbox', 'debug'])
 
 def set_before(priorityref, *args):
     """Set ``args`` priority before specified ``priorityref``."""
+    for newpriority in args:
+        top.check_insert(newpriority, priorityref)
     for newpriority in args:
         top.insert(tag=newpriority, before=priorityref)
 
 
 def set_after(priorityref, *args):
     """Set ``args`` priority after specified ``priorityref``."""
+    for newpriority in args:
+        top.check_insert(newpriority, priorityref)
     for newpriority in reversed(args):
         top.insert(tag=newpriority, after=priorityref)
-- 
2.43.0


From 9b9a1fda616bc5aa019b07e8328340c31e225d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:53 +0000
Subject: [PATCH 32/44] fix: a mandatory attribute which refers to an
 unspecified one has no value

---
 src/footprints/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 966c94d..c3f8a07 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -582,6 +582,12 @@ class Footprint:
                     guess[k] is None):
                 continue
 
+            if isinstance(guess[k], str) and guess[k] == UNKNOWN:
+                # Possibly a reference to an attribute without any value
+                guess[k] = UNKNOWN if kdef['optional'] else None
+                if guess[k] is None:
+                    continue
+
             attr_seen.add(k)
 
             remapped = set()
-- 
2.43.0


From 63e5f3de6f9640d7207a41fc0ab71e25f1ff9d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 33/44] fix: a converted declared value may be equal to another
 one not yet converted

---
 src/footprints/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c3f8a07..2eebd50 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -209,16 +209,17 @@ class Footprint:
             ktype = fp['attr'][a].get('type', str)
             kargs = fp['attr'][a].get('args', dict())
             for autoreclass in ('values', 'outcast'):
-                for v in list(fp['attr'][a][autoreclass]):
+                reclassed = set()
+                for v in fp['attr'][a][autoreclass]:
                     if not isinstance(v, ktype):
-                        fp['attr'][a][autoreclass].remove(v)
                         try:
                             v = ktype(v, **kargs)
-                            fp['attr'][a][autoreclass].add(v)
                             logger.debug('Init Footprint [%s] %s reclassed = %s', autoreclass, a, v)
                         except Exception:
                             logger.error('Bad init footprint in [%s]', autoreclass)
                             raise
+                    reclassed.add(v)
+                fp['attr'][a][autoreclass] = reclassed
         self._fp = fp
         self._firstguess_keys_internal = None
         self._resolve_keys_internal = None
-- 
2.43.0


From 2ccd9bdc30919f7efe77d7970c7fa8c730e8d0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 34/44] fix: objects given as weak proxies are usable in
 descriptions

---
 src/footprints/collectors.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index c1ff600..b51f18f 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -531,6 +531,8 @@ class ResolveCache:
         self._shallow_cache = dict()
 
     def get_shallow_fp(self, obj):
-        if obj not in self._shallow_cache:
-            self._shallow_cache[obj] = obj.footprint_as_shallow_dict()
-        return self._shallow_cache[obj]
+        # Weak proxies are not hashable: rely on the identity (``obj`` is stored
+        # so that it can not be re-used during the life of this cache)
+        if id(obj) not in self._shallow_cache:
+            self._shallow_cache[id(obj)] = (obj, obj.footprint_as_shallow_dict())
+        return self._shallow_cache[id(obj)][1]
-- 
2.43.0


From 7f539354f5328e5487a91d838095959a95e2ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:15 +0000
Subject: [PATCH 35/44] fix: an unknown priority level is an error when
 filtering, discarding or resetting classes

---
 src/footprints/collectors.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index b51f18f..b5e8616 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -113,9 +113,17 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
                 print('Bye...', x)
             self.discard(x)
 
+    @staticmethod
+    def _known_level(tag):
+        """Return the priority level named ``tag`` (an unknown level is an error)."""
+        plevel = priorities.top.level(tag)
+        if plevel is None:
+            raise ValueError('No such level priority: {!s}'.format(tag))
+        return plevel
+
     def filter_higher_level(self, tag):
         """Find in current collector classes with priority level higher or equal to ``level``."""
-        plevel = priorities.top.level(tag)
+        plevel = self._known_level(tag)
         return [cl for cl in self.items() if cl.footprint_pl() >= plevel]
 
     def discard_higher_level(self, tag, verbose=True):
@@ -127,7 +135,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
 
     def filter_lower_level(self, tag):
         """Find in current collector classes with priority level lower than ``level``."""
-        plevel = priorities.top.level(tag)
+        plevel = self._known_level(tag)
         return [cl for cl in self.items() if cl.footprint_pl() < plevel]
 
     def discard_lower_level(self, tag, verbose=True):
@@ -139,7 +147,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
 
     def reset_package_level(self, packname, tag):
         """Reset priority level current collector classes with name starting with ``packname``."""
-        plevel = priorities.top.level(tag)
+        plevel = self._known_level(tag)
         for cl in self.filter_package(packname):
             fp = cl.footprint_retrieve()
             fp.priority['level'] = plevel
-- 
2.43.0


From 0d5d8898ed20ff7705169884d7f0ab5983e3d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:44 +0000
Subject: [PATCH 36/44] fix: report the actual reason of a rejected value

---
 src/footprints/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 2eebd50..c105a50 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -617,12 +617,13 @@ class Footprint:
                                    args=(ktype.__name__, str(guess[k])))
                         diags[k] = True
                         guess[k] = None
-                if kdef['values'] and not self.in_values(guess[k], kdef['values']):
+                # (a value already rejected is reported only once)
+                if k not in diags and kdef['values'] and not self.in_values(guess[k], kdef['values']):
                     # logger.debug(' > Attr %s value not in range = %s %s', k, guess[k], kdef['values'])
                     report.add(attribute=k, why=reporting.REPORT_WHY_OUTSIDE, args=guess[k])
                     diags[k] = True
                     guess[k] = None
-                if kdef['outcast'] and self.in_values(guess[k], kdef['outcast']):
+                if k not in diags and kdef['outcast'] and self.in_values(guess[k], kdef['outcast']):
                     # logger.debug(' > Attr %s value excluded from range = %s %s', k, guess[k], kdef['outcast'])
                     report.add(attribute=k, why=reporting.REPORT_WHY_OUTCAST, args=guess[k])
                     diags[k] = True
@@ -639,6 +640,7 @@ class Footprint:
                 logger.warning(' > Attr %s is a null string', k)
                 if k not in diags:
                     report.add(attribute=k, why=reporting.REPORT_WHY_INVALID)
+                    diags[k] = True
             if guess[k] is None:
                 attr_input.discard(k)
                 if k not in diags:
-- 
2.43.0


From fbebcba80df7d5353e80569b876457f6633a2cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 37/44] fix: iterate on distinct items of the last entry of a
 report

---
 src/footprints/reporting.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 437e101..4254349 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -399,11 +399,10 @@ class StandardReport:
     def iter_last(self):
         """Iterate on last node and return ( class, name, why ) information."""
         for kid in self.root.lastChild.childNodes:
-            dico = dict(classname=kid.getAttribute('name'))
             for subkid in kid.childNodes:
-                dico['name'] = subkid.getAttribute('name')
-                dico['why'] = subkid.getAttribute('why')
-                yield dico
+                yield dict(classname=kid.getAttribute('name'),
+                           name=subkid.getAttribute('name'),
+                           why=subkid.getAttribute('why'))
 
 
 class FlatReport:
-- 
2.43.0


From f50d23f4b479c1edcdbf683890781a40c35f7849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 38/44] fix: do not add to the last report entry when reporting
 is off

---
 src/footprints/collectors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index b5e8616..a736da4 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -338,7 +338,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         if resolvecache is None:
             resolvecache = ResolveCache()
         requeue = True
-        report_log = None if self.report == config.ONERROR_REPORTING else self.report_log
+        report_log = (None if self.report in (config.NO_REPORTING, config.ONERROR_REPORTING)
+                      else self.report_log)
         while requeue:
             requeue = False
             if self.report and report_log is not None:
@@ -364,7 +365,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         if resolvecache is None:
             resolvecache = ResolveCache()
         requeue = True
-        report_log = None if self.report == config.ONERROR_REPORTING else self.report_log
+        report_log = (None if self.report in (config.NO_REPORTING, config.ONERROR_REPORTING)
+                      else self.report_log)
         while requeue:
             requeue = False
             found = list()
-- 
2.43.0


From 3392fcf72665a0f98796dfa1e8631634411faa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 39/44] fix: glob references are replaced in one pass, and
 protected strings remain protected

---
 src/footprints/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index a468771..2ae6aaa 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -68,8 +68,10 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     newd[key] = value
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
-            for g in globs.keys():
-                newd[k] = re.sub(r'\[glob:' + g + r'\]', lambda u_m: globs[g], newd[k])
+            newv = re.sub(r'\[glob:(\w+)\]', lambda u_m: globs.get(u_m.group(1), u_m.group(0)), newd[k])
+            if newv != newd[k]:
+                # Values protected from expansion remain protected
+                newd[k] = newd[k].__class__(newv) if newd[k].__class__.__name__.startswith('FP') else newv
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From 19d030ee6dad19eca021d0aa30d290cbf6460085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 40/44] fix: a glob pattern must match the whole file name,
 trailing newline included

---
 src/footprints/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 2ae6aaa..83277ac 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -162,7 +162,7 @@ def _parse_globs(todo):
         finalpattern += glob2re(curbuffer)
         finalglob += curbuffer
 
-    return glob_names, re.compile('^' + finalpattern + '$'), finalglob
+    return glob_names, re.compile('^' + finalpattern + r'\Z'), finalglob
 
 
 def _is_expandable_str(v):
-- 
2.43.0


From 9e0c35524e363d12f76873746f57c7d29b0db80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:06 +0000
Subject: [PATCH 41/44] fix: an attribute map restricted to one name holds only
 this attribute

---
 src/footprints/collectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index a736da4..97d29fd 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -447,7 +447,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         """Build a reversed attr-class map."""
         if attrmap is None:
             attrmap = dict()
-        if only is not None and not hasattr(only, '__contains__'):
+        if only is not None and (isinstance(only, str) or not hasattr(only, '__contains__')):
             only = (only,)
         for c in self:
             fp = c.footprint_retrieve()
-- 
2.43.0


From c7562bb667020eb6ca0e7714da88d3a0b5f99e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 42/44] fix: in the documentation, attributes of different
 visibilities are never mixed

---
 src/footprints/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/doc.py b/src/footprints/doc.py
index 516c81b..11aae26 100644
--- a/src/footprints/doc.py
+++ b/src/footprints/doc.py
@@ -75,7 +75,7 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
     s_attrs = sorted(fpdict['attr'].items(), key=lambda item: item[0])
     # Then use visibility and zorder
     s_attrs = sorted(s_attrs,
-                     key=lambda item: item[1]['doc_visibility'].rank * 200 - item[1]['doc_zorder'])
+                     key=lambda item: (item[1]['doc_visibility'].rank, - item[1]['doc_zorder']))
     for attr, desc in s_attrs:
         # Find out the type name
         t = desc.get('type', str)
-- 
2.43.0


From ee1b06f4dfe2a36f86414cbe8416bbbdc50c5e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 43/44] fix: a footprint with a single decorator can be
 documented

---
 src/footprints/doc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/doc.py b/src/footprints/doc.py
index 11aae26..4926762 100644
--- a/src/footprints/doc.py
+++ b/src/footprints/doc.py
@@ -7,7 +7,7 @@ import re
 
 from bronx.fancies import dump
 
-from . import priorities
+from . import priorities, util
 
 __all__ = ['visibility', ]
 
@@ -115,7 +115,7 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
     # Decorators (for DecorativeFootprints)
     if 'decorator' in fpdict and fpdict['decorator']:
         out.append("   Decorators that will be applied on the target class:\n")
-        for deco in fpdict['decorator']:
+        for deco in util.mktuple(fpdict['decorator']):
             out.append('     * {}'.format(_sphinx_secured_dump(deco)))
         out.append('')
 
-- 
2.43.0


From 550aeca25ebc2f33391c9c95ca2c77a8e56937df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 44/44] fix: an object with a class as value of an attribute
 can be exported

---
 src/footprints/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c105a50..270d164 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -1038,7 +1038,9 @@ class FootprintBase(metaclass=FootprintBaseMeta):
                 exd[k] = getattr(self, exportmethod)()
             else:
                 thisattr = getattr(self, k)
-                if hasattr(thisattr, 'footprint_export'):
+                if isinstance(thisattr, type):
+                    exd[k] = thisattr
+                elif hasattr(thisattr, 'footprint_export'):
                     exd[k] = thisattr.footprint_export()
                 elif hasattr(thisattr, 'export_dict'):
                     exd[k] = thisattr.export_dict()
-- 
2.43.0

