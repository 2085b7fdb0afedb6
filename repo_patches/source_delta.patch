From 78312633c3929febda77dd95685798cbfc32b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 01/41] fix: do not change the set of values of an attribute
 while iterating over it

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 1d71b10..f0e25c2 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -209,7 +209,7 @@ class Footprint:
             ktype = fp['attr'][a].get('type', str)
             kargs = fp['attr'][a].get('args', dict())
             for autoreclass in ('values', 'outcast'):
-                for v in fp['attr'][a][autoreclass]:
+                for v in list(fp['attr'][a][autoreclass]):
                     if not isinstance(v, ktype):
                         fp['attr'][a][autoreclass].remove(v)
                         try:
-- 
2.43.0


From c8e957532176eecbc8a3b250ac9c7b0ef37cee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 02/41] fix: an only clause on an attribute without value
 excludes the class in any report mode

---
 src/footprints/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index f0e25c2..3fcad4c 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -654,9 +654,10 @@ class Footprint:
                 actualattr = k.partition('_')[-1]
 
             actualvalue = rd.get(actualattr, params.get(actualattr, None))
-            if actualvalue is None:
+            if actualvalue is None or actualvalue is UNKNOWN:
                 rd = False
-                report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
+                if report:
+                    report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
                 break
 
             checkflag = False
-- 
2.43.0


From 1b978699727cc7a9782a666728f1edd0ec4cbe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 03/41] fix: the text substituted for a bracketed reference is
 literal, not a regular expression template

---
 src/footprints/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 3fcad4c..11c9f96 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -421,7 +421,7 @@ class Footprint:
                 else:
                     starter = subattr
         if guessk is not None and starter != '__SKIP__':
-            guessk = replattr.sub(myautofmt(starter), guessk, 1)
+            guessk = replattr.sub(lambda m: myautofmt(starter), guessk, 1)
         return guessk, changed
 
     def _replacement(self, nbpass, k, kfast, guess, extras,
@@ -497,7 +497,7 @@ class Footprint:
                                 guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                       guess, extras, myautofmt, requeue=False)
                             else:
-                                guessk = replattr.sub(myautofmt(guess[replk]), guessk, 1)
+                                guessk = replattr.sub(lambda m: myautofmt(guess[replk]), guessk, 1)
                     elif replk in extras:
                         changed = 1
                         if replm:
@@ -505,7 +505,7 @@ class Footprint:
                             guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                   guess, extras, myautofmt, requeue=True)
                         else:
-                            guessk = replattr.sub(myautofmt(extras[replk]), guessk, 1)
+                            guessk = replattr.sub(lambda m: myautofmt(extras[replk]), guessk, 1)
 
         if (guessk is not None and
                 isinstance(guessk, str) and
-- 
2.43.0


From 287fd3aaa39d88adcc8985c24b6ccd73aeaf87b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 04/41] fix: captured glob texts are substituted literally and
 protected strings stay protected

---
 src/footprints/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 9e3d17f..7c1eea2 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -59,8 +59,9 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     newd[key] = value
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
-            for g in globs.keys():
-                newd[k] = re.sub(r'\[glob:' + g + r'\]', globs[g], newd[k])
+            newv = re.sub(r'\[glob:(\w+)\]', lambda m: globs.get(m.group(1), m.group(0)), newd[k])
+            if newv != newd[k]:
+                newd[k] = newd[k].__class__(newv)
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From 5be1bc969085411f2b65b91c6ed746bd883ba09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 05/41] fix: cyclic references are detected exactly, whatever
 their form and the number of attributes

---
 src/footprints/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 11c9f96..dd21a7b 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -447,11 +447,12 @@ class Footprint:
             If the format string is incorrect, or if it can not be applied to key-name, a
             :exception:`ValueError` exception will be raised
         """
-        if nbpass > 50:
+        if nbpass > 50 + len(guess) ** 2:
             logger.error('Resolve probably cycling too much... %d tries ?', nbpass)
             raise FootprintMaxIter('Too many Footprint replacements')
 
         guessk = guess[k]
+        nested = list()  # The (reference, remaining length) pairs being replaced
 
         changed = 1
         while changed:
@@ -463,6 +464,14 @@ class Footprint:
                     replm = mobj.group(2)
                     replx = mobj.group(3)
 
+                    # Detect the references that lead to themselves
+                    while nested and mobj.end() > len(guessk) - nested[-1][1]:
+                        nested.pop()
+                    if mobj.group(0) in [x[0] for x in nested]:
+                        logger.error('Cyclic replacement of %s in %s', mobj.group(0), k)
+                        raise FootprintMaxIter('Too many Footprint replacements')
+                    nested.append((mobj.group(0), len(guessk) - mobj.end()))
+
                     def myautofmt(repl, myfmt=mobj.group(4)):
                         if myfmt:
                             f_formatter = util.FoxyFormatter()
-- 
2.43.0


From 8d461beeb720c1cd86d3001cc41eca5b419d1dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 06/41] fix: unhashable values and cyclic remap tables no
 longer crash or hang the resolution

---
 src/footprints/__init__.py | 10 ++++++++--
 src/footprints/util.py     |  9 +++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index dd21a7b..d815e78 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -531,7 +531,7 @@ class Footprint:
 
     def in_values(self, item, values):
         """Check that item is inside ``values`` or compares as equal to one of these values."""
-        if item in values:
+        if util.hashable(item) and item in values:
             return True
         else:
             return bool([x for x in values if x == item])
@@ -583,8 +583,14 @@ class Footprint:
 
             attr_seen.add(k)
 
-            while guess[k].__hash__ is not None and guess[k] in kdef['remap']:
+            nbremap = 0
+            while util.hashable(guess[k]) and guess[k] in kdef['remap']:
                 # logger.debug(' > Attr %s remap(%s) = %s', k, guess[k], kdef['remap'][guess[k]])
+                if kdef['remap'][guess[k]] == guess[k]:
+                    break
+                nbremap += 1
+                if nbremap > len(kdef['remap']):
+                    raise FootprintMaxIter('Cyclic remap for attribute ' + k)
                 guess[k] = kdef['remap'][guess[k]]
 
             if guess[k] is not UNKNOWN:
diff --git a/src/footprints/util.py b/src/footprints/util.py
index 7c1eea2..518801f 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -26,6 +26,15 @@ mktuple = _b_mktuple
 rangex = timeintrangex
 
 
+def hashable(obj):
+    """Tell whether *obj* can actually be hashed (a tuple of lists can not)."""
+    try:
+        hash(obj)
+    except TypeError:
+        return False
+    return True
+
+
 def list2dict(a, klist):
     """
     Reshape any entry of *a* specified in *klist* as a dictionary of the
-- 
2.43.0


From 4316b7db54ffad2271231845164d9894648354cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 07/41] fix: a value which is not a class is a mere mismatch
 for a class-valued attribute

---
 src/footprints/__init__.py | 2 +-
 src/footprints/access.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index d815e78..c58ef53 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -596,7 +596,7 @@ class Footprint:
             if guess[k] is not UNKNOWN:
                 ktype = kdef.get('type', str)
                 if kdef.get('isclass', False):
-                    if not issubclass(guess[k], ktype):
+                    if not (isinstance(guess[k], type) and issubclass(guess[k], ktype)):
                         # logger.debug(' > Attr %s class %s not a subclass %s', k, guess[k], ktype)
                         report.add(attribute=k, why=reporting.REPORT_WHY_SUBCLASS, args=ktype.__name__)
                         diags[k] = True
diff --git a/src/footprints/access.py b/src/footprints/access.py
index 47dd2da..8eef96f 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -36,7 +36,7 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             fpdef = fp.attr[self._attr]
             atype = fpdef.get('type', str)
             if fpdef.get('isclass', False):
-                if not issubclass(value, atype):
+                if not (isinstance(value, type) and issubclass(value, atype)):
                     raise ValueError('Attempt to set {:s} as a non compatible subclass {!s}'
                                      .format(self._attr, value))
             elif not isinstance(value, atype) and value is not None:
-- 
2.43.0


From 9c8e34af243009691c216fe782cac533833ef5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 08/41] fix: weak attributes may be undefined, reset to None or
 given an already weak value

---
 src/footprints/__init__.py | 3 ++-
 src/footprints/access.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c58ef53..139b142 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -645,7 +645,8 @@ class Footprint:
                 # else:
                 #     logger.debug(' > No valid attribute %s', k)
             else:
-                if 'weak' in attrs[k]['access']:
+                if ('weak' in attrs[k]['access'] and guess[k] is not UNKNOWN and
+                        not isinstance(guess[k], weakref.ProxyTypes)):
                     guess[k] = weakref.proxy(guess[k])
 
         return (guess, attr_input, attr_seen)
diff --git a/src/footprints/access.py b/src/footprints/access.py
index 8eef96f..7b1de4e 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -54,7 +54,7 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             if fpdef['outcast'] and fp.in_values(value, fpdef['outcast']):
                 raise ValueError('Value {!s} excluded from range {!s}'
                                  .format(value, list(fpdef['outcast'])))
-            if weak:
+            if weak and value is not None and not isinstance(value, weakref.ProxyTypes):
                 value = weakref.proxy(value)
             instance.footprint_setattr(self._attr, value, auth=self._auth)
 
-- 
2.43.0


From 434a2a1b850c3022d5e5cd53967a6e3839293f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 09/41] fix: deleting an attribute of an object no longer
 breaks the other instances of its class

---
 src/footprints/__init__.py | 4 +++-
 src/footprints/access.py   | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 139b142..716cd6a 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -970,6 +970,8 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         """Delete actual attribute. Protected method."""
         if auth != self._fp_auth:
             raise AttributeError("Can't set attribute without valid authorization")
+        if attr not in self._attributes:
+            raise AttributeError('Deleted attribute [' + attr + ']')
         del self._attributes[attr]
 
     def footprint_undefs(self):
@@ -1099,7 +1101,7 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         rc = resolved and None not in resolved.values()
         if rc:
             for k in resolved.keys():
-                if self._attributes[k] != resolved[k]:
+                if k not in self._attributes or self._attributes[k] != resolved[k]:
                     rc = False
                     break
         return rc
diff --git a/src/footprints/access.py b/src/footprints/access.py
index 7b1de4e..bfdaef1 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -30,6 +30,11 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
     """Read-write-del accessor class to footprint attributes."""
     access_mode = 'rwd'
 
+    def __get__(self, instance, owner):
+        if not instance.footprint_has_attribute(self._attr):
+            raise AttributeError('Deleted attribute [' + self._attr + ']')
+        return super().__get__(instance, owner)
+
     def __set__(self, instance, value, weak=False):
         fp = instance.footprint
         if self._attr is not None:
@@ -60,7 +65,6 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
 
     def __delete__(self, instance):
         instance.footprint_delattr(self._attr, auth=self._auth)
-        del self._attr
 
 
 class FootprintAttrDescriptorWeakRWD(FootprintAttrDescriptorRWD):
-- 
2.43.0


From 7f931aafac7e3826ddfd6a8f4d224faeeb6157e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 10/41] fix: undefined optional attributes are still undefined
 after unpickling

---
 src/footprints/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 716cd6a..c93f6b1 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -951,6 +951,9 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     def __setstate__(self, state):
         self._observer = observer.get(tag=self.__class__.fullname())
         self.__dict__.update(state)
+        for k, v in self._attributes.items():
+            if isinstance(v, str) and v == UNKNOWN:
+                self._attributes[k] = UNKNOWN  # The very same object is expected
         self.footprint_riseup()
 
     def footprint_getattr(self, attr, auth=None):  # @UnusedVariable
-- 
2.43.0


From ce0de28142941b3882e600c3e58f9fad43163eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 11/41] fix: the fasttrack index never hides a suitable class
 nor shows a removed one

---
 src/footprints/collectors.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index f3308b0..187cdfd 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -12,7 +12,7 @@ from bronx.fancies import dump, loggers
 from bronx.stdtypes.catalog import Catalog
 from bronx.patterns import observer, getbytag
 
-from . import config, priorities, reporting
+from . import config, priorities, reporting, util
 
 #: No automatic export
 __all__ = []
@@ -151,7 +151,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             if myattr in myfp.mandatory():
                 myvalues = myfp.get_values(myattr)
                 # Is there some restrictions on values ?
-                if myvalues:
+                # (with a remap, the description's value may not be the final one)
+                if myvalues and not myfp.attr[myattr]['remap']:
                     # Ensure that the attribute types are consistent
                     if self._fasttrack_type[myattr] is None:
                         self._fasttrack_type[myattr] = myfp.attr[myattr].get('type', str)
@@ -222,7 +223,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         if self._fasttrack_attr:
             objgroup_list = list()
             for k, v in desc.items():
-                if k in self._fasttrack_attr:
+                # (the final value of an unhashable or templated one is not known yet)
+                if k in self._fasttrack_attr and util.hashable(v) and not (isinstance(v, str) and '[' in v):
                     # Check if the key's value is in the index
                     if v in self._fasttrack_index[k]:
                         indexkey = v
@@ -230,9 +232,9 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
                         # A type conversion might be usefull
                         try:
                             v_conv = self._fasttrack_type[k](v, ** self._fasttrack_typeargs[k])
-                        except (ValueError, TypeError):
+                        except Exception:
                             v_conv = None
-                        if v_conv is not None and v_conv in self._fasttrack_index[k]:
+                        if util.hashable(v_conv) and v_conv is not None and v_conv in self._fasttrack_index[k]:
                             indexkey = v_conv
                         else:
                             # Ok we give up...
@@ -267,6 +269,17 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         super().discard(bye)
         self._upd_fasttrack_delete(bye)
 
+    def pop(self):
+        """Remove and return an arbitrary entry from the current catalog."""
+        bye = super().pop()
+        self._upd_fasttrack_delete(bye)
+        return bye
+
+    def clear(self):
+        """Remove all the entries of the current catalog."""
+        super().clear()
+        self._set_fasttrack(self._fasttrack_attr)
+
     def pickup_and_cache(self, desc, resolvecache=None):
         """Try to pickup inside the collector an item that could match the description."""
         logger.debug('Pick up a "{:s}" in description {!s} with collector {!r}'.format(self.tag, desc, self))
-- 
2.43.0


From 49f3f809752ed04d24eec727db690b2d3c254892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 12/41] fix: equal FPDict or FPSet objects have the same hash

---
 src/footprints/stdtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/stdtypes.py b/src/footprints/stdtypes.py
index d89a30b..f91523c 100644
--- a/src/footprints/stdtypes.py
+++ b/src/footprints/stdtypes.py
@@ -15,7 +15,7 @@ __all__ = ['FPDict', 'FPList', 'FPSet', 'FPStr', 'FPTuple', 'FPRegex']
 class FPDict(dict):
     """A dict type for FootPrints arguments (without expansion)."""
     def __hash__(self):
-        return hash(tuple(self.items()))
+        return hash(frozenset(self.items()))
 
 
 class FPList(list):
@@ -33,7 +33,7 @@ class FPSet(set):
     """A set type for FootPrints arguments (without expansion)."""
 
     def __hash__(self):
-        return hash(tuple(self))
+        return hash(frozenset(self))
 
     def items(self):
         """Return a tuple copy of internal components of the FPSet."""
-- 
2.43.0


From 96eaaa3a54158e346ee85030e0d63d382702f689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 13/41] fix: report views are always up to date and cleared or
 reduced logs keep their length limit

---
 src/footprints/reporting.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 8749838..ffcddf1 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -213,6 +213,11 @@ class FootprintLog(getbytag.GetByTag):
         self._dict = dict()
         self._touch = False
 
+    def _touched(self):
+        """The log has changed: none of its views is up to date."""
+        self._touch = True
+        self._dict = dict()
+
     def info(self):
         """Return a simple description as a string."""
         return 'Report ' + self.tag.title() + ':'
@@ -234,11 +239,15 @@ class FootprintLog(getbytag.GetByTag):
 
     def clear(self):
         """Start a fresh new log history."""
-        self._log = list()
+        self._log.clear()
+        self._current = None
+        self._touched()
 
     def reduce_to_last(self):
         """Remove from the current log history all but the last collector resolution attempt."""
-        self._log[0:-1] = []
+        while len(self._log) > 1:
+            self._log.popleft()
+        self._touched()
 
     @property
     def last(self):
@@ -254,7 +263,7 @@ class FootprintLog(getbytag.GetByTag):
         """Insert a collector entry into the log."""
         self._current = FootprintLogCollector(node, **kw)
         self._log.append(self._current)
-        self._touch = True
+        self._touched()
 
     def add_candidate(self, node, **kw):
         """Insert a class entry into the log."""
@@ -263,7 +272,7 @@ class FootprintLog(getbytag.GetByTag):
         if self._current is None or not isinstance(self._current, FootprintLogCollector):
             raise FootprintBadLogEntry('Current log context is either empty or not a collector')
         self._current = FootprintLogClass(node, parent=self._current, **kw)
-        self._touch = True
+        self._touched()
 
     def add_attribute(self, name, **kw):
         """Insert an attribute resolution information entry into the log."""
@@ -271,7 +280,7 @@ class FootprintLog(getbytag.GetByTag):
             raise FootprintBadLogEntry('Current log context is either empty or not a class candidate')
         kw['name'] = name
         self._current.add(kw)
-        self._touch = True
+        self._touched()
 
     def add(self, **kw):
         """
@@ -319,17 +328,16 @@ class FootprintLog(getbytag.GetByTag):
 
     def as_dict(self, force=False, stamp=True):
         """Convenient method for retrieving some handy dictionary."""
-        if not self._dict or self._touch or force:
-            self._dict = dict()
+        if stamp not in self._dict or force:
+            self._dict[stamp] = dict()
             for i, item in enumerate(self._log):
                 key = item.name
                 if stamp:
                     key += ' ' + item.stamp.isoformat()
                 else:
                     key += '_{:04d}'.format(i + 1)
-                self._dict[key] = item.as_dict()
-            self._touch = False
-        return self._dict
+                self._dict[stamp][key] = item.as_dict()
+        return self._dict[stamp]
 
     def fulldump(self, stamp=False):
         """Shortcut to :mod:``dump`` facilities."""
-- 
2.43.0


From 035cb74a7198d9c06a1ac1657aed10490cf9fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 14/41] fix: comparing a priority level with an unknown name is
 false instead of an error

---
 src/footprints/priorities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 1322b79..5429748 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -40,6 +40,8 @@ class PriorityLevel:
                 other = self.inset.level(str(other))
             except (ValueError, TypeError):
                 return False
+            if other is None:
+                return False
         return self.rank == other.rank
 
     def __gt__(self, other):
-- 
2.43.0


From 5a7c6a6662b333e8f41ea8c85bd8b8cd641eec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:50 +0000
Subject: [PATCH 15/41] fix: inserting a priority level next to an unsuitable
 reference leaves the set unchanged

---
 src/footprints/priorities.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 5429748..9d6481b 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -202,6 +202,12 @@ class PrioritySet:
             return None
         else:
             tag = str(tag).upper()
+        reference = after if after is not None else before
+        if reference is not None:
+            if isinstance(reference, PriorityLevel):
+                reference = reference.tag
+            if reference.upper() == tag or reference.upper() not in self._levels:
+                raise ValueError('Not a suitable reference level: {!s}'.format(reference))
         self.extend(tag)
         if after is not None:
             self._levels.remove(tag)
-- 
2.43.0


From 4a4218081a1f00ec53dafabd5f00d4177e8c60f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 16/41] fix: the actual tag of a collector (lower case,
 singular) cannot be an attribute name either

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c93f6b1..c552df8 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -837,7 +837,7 @@ class FootprintBaseMeta(type):
                 raise FootprintInvalidDefinition('Explicit class without any mandatory footprint attribute.')
         # Add all classes in collectors but take into accout the abstract key
         for cname in realcls._collector:
-            if cname in thisfp.allkeys():
+            if cname in thisfp.allkeys() or collectors.Collector.tag_clean(cname) in thisfp.allkeys():
                 raise FootprintInvalidDefinition('A attribute or alias name is equal to collector tag: ' +
                                                  cname)
             thiscollector = collectors.get(tag=cname, report=setup.report, lreport_len=setup.lreport_len,
-- 
2.43.0


From f4d8419e0ac2874b3242c57bde5dec0d8439aac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 17/41] fix: a class whose definition is refused is not left in
 some of its collectors

---
 src/footprints/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c552df8..b78b843 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -840,6 +840,7 @@ class FootprintBaseMeta(type):
             if cname in thisfp.allkeys() or collectors.Collector.tag_clean(cname) in thisfp.allkeys():
                 raise FootprintInvalidDefinition('A attribute or alias name is equal to collector tag: ' +
                                                  cname)
+        for cname in realcls._collector:
             thiscollector = collectors.get(tag=cname, report=setup.report, lreport_len=setup.lreport_len,
                                            report_style=setup.report_style)
             thiscollector.add(realcls, abstract=abstract)
-- 
2.43.0


From 63b0b183d1a50486e180093798fd0319055449fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 18/41] fix: a value that could not be converted is not also
 reported as out of range

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index b78b843..d208b26 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -613,7 +613,7 @@ class Footprint:
                                    args=(ktype.__name__, str(guess[k])))
                         diags[k] = True
                         guess[k] = None
-                if kdef['values'] and not self.in_values(guess[k], kdef['values']):
+                if guess[k] is not None and kdef['values'] and not self.in_values(guess[k], kdef['values']):
                     # logger.debug(' > Attr %s value not in range = %s %s', k, guess[k], kdef['values'])
                     report.add(attribute=k, why=reporting.REPORT_WHY_OUTSIDE, args=guess[k])
                     diags[k] = True
-- 
2.43.0


From 9e9bd9f7348631b03633cea956d314644e63e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 19/41] fix: an only clause finds a global default whatever the
 letter case of its name

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index d208b26..5a5dfdf 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -669,7 +669,7 @@ class Footprint:
             if after or before:
                 actualattr = k.partition('_')[-1]
 
-            actualvalue = rd.get(actualattr, params.get(actualattr, None))
+            actualvalue = rd.get(actualattr, params[actualattr] if actualattr in params else None)
             if actualvalue is None or actualvalue is UNKNOWN:
                 rd = False
                 if report:
-- 
2.43.0


From de3208194eda9cfa356a826f1b7a817eda764a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:04 +0000
Subject: [PATCH 20/41] fix: a fasttrack key equal to an indexed value but of
 another type is converted first

---
 src/footprints/collectors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 187cdfd..7893c75 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -226,7 +226,9 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
                 # (the final value of an unhashable or templated one is not known yet)
                 if k in self._fasttrack_attr and util.hashable(v) and not (isinstance(v, str) and '[' in v):
                     # Check if the key's value is in the index
-                    if v in self._fasttrack_index[k]:
+                    # (an equal value of another type may be converted to something else)
+                    if (v in self._fasttrack_index[k] and
+                            isinstance(v, self._fasttrack_type[k] or object)):
                         indexkey = v
                     else:
                         # A type conversion might be usefull
-- 
2.43.0


From c10d3b8d28ac8d8cf5594c11a80335222488e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:37 +0000
Subject: [PATCH 21/41] fix: the values carried by a clone are not remapped nor
 defaulted once more

---
 src/footprints/__init__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 5a5dfdf..590b6e2 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -547,7 +547,10 @@ class Footprint:
         if resolvecache is None:
             resolvecache = collectors.ResolveCache()
 
+        final = opts.pop('final', dict())  # The values that should not be processed once more
+
         guess, attr_input = self._firstguess(desc, resolvecache=resolvecache)
+        guess.update((k, UNKNOWN if v is None else v) for k, v in final.items())
         extras = self._findextras(desc, resolvecache=resolvecache)
         attr_seen = set()
 
@@ -575,6 +578,8 @@ class Footprint:
             k = todok.popleft()
             kfast = todokfast.popleft()
             todokset.discard(k)
+            if k in final:
+                continue
             kdef = attrs[k]
             nbpass += 1
             if (not self._replacement(nbpass, k, kfast, guess, extras, todok, todokfast, todokset) or
@@ -630,6 +635,9 @@ class Footprint:
                 break
 
         for k in attrs.keys():
+            if k in final:
+                guess[k] = final[k]
+                continue
             if guess[k] == 'None':
                 guess[k] = None
                 logger.warning(' > Attr %s is a null string', k)
@@ -991,7 +999,10 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         attrs = self._attributes.copy()
         if extra is not None:
             attrs.update(extra)
-        objcp = self.__class__(**attrs)
+        # The values which are not replaced are already the final ones
+        final = {k: v for k, v in self._attributes.items() if extra is None or k not in extra}
+        attrs, u_attr_input, u_attr_seen = self._footprint.resolve(attrs, fatal=True, final=final)  # @UnusedVariable
+        objcp = self.__class__(attrs, checked=True)
         if full:
             for a in [x for x in self.__dict__.keys() if not x.startswith('_')]:
                 setattr(objcp, a, getattr(self, a))
-- 
2.43.0


From 5906c70c70d2976b90e576222f8e5335955eb22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:38 +0000
Subject: [PATCH 22/41] fix: a weak attribute whose object has disappeared does
 not crash the searches

---
 src/footprints/__init__.py   | 12 ++++++++----
 src/footprints/collectors.py |  6 +++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 590b6e2..1b9b33c 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -563,7 +563,7 @@ class Footprint:
 
         attrs = self.attr
 
-        if None in guess.values():
+        if any(v is None for v in guess.values()):
             todok = []
             todokfast = []
             todokset = set()
@@ -1098,7 +1098,7 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         fp = cls._footprint
         resolved, attr_input, u_attr_seen = fp.resolve(rd, fatal=False, report=report,  # @UnusedVariable
                                                        resolvecache=resolvecache)
-        if resolved and None not in resolved.values():
+        if resolved and not any(v is None for v in resolved.values()):
             return (fp.checkonly(resolved, report, resolvecache=resolvecache),
                     attr_input)
         else:
@@ -1113,10 +1113,14 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         """
         fp = self.footprint
         resolved, u_inputattr, u_attr_seen = fp.resolve(rd, fatal=False, report=None)  # @UnusedVariable
-        rc = resolved and None not in resolved.values()
+        rc = resolved and not any(v is None for v in resolved.values())
         if rc:
             for k in resolved.keys():
-                if k not in self._attributes or self._attributes[k] != resolved[k]:
+                try:
+                    if k not in self._attributes or self._attributes[k] != resolved[k]:
+                        rc = False
+                        break
+                except ReferenceError:  # The object behind a weak attribute has disappeared
                     rc = False
                     break
         return rc
diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 7893c75..70a87bb 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -429,7 +429,11 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         for item in self.instances:
             ok = True
             for k, v in kw.items():
-                if not hasattr(item, k) or getattr(item, k) != v:
+                try:
+                    if not hasattr(item, k) or getattr(item, k) != v:
+                        ok = False
+                        break
+                except ReferenceError:  # The object behind a weak attribute has disappeared
                     ok = False
                     break
             if ok:
-- 
2.43.0


From fbc8e3018963d434aa725367b5c7ddd4dad28096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:26 +0000
Subject: [PATCH 23/41] fix: the documentation order never takes precedence
 over the visibility level

---
 src/footprints/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/doc.py b/src/footprints/doc.py
index 516c81b..23b678f 100644
--- a/src/footprints/doc.py
+++ b/src/footprints/doc.py
@@ -75,7 +75,7 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
     s_attrs = sorted(fpdict['attr'].items(), key=lambda item: item[0])
     # Then use visibility and zorder
     s_attrs = sorted(s_attrs,
-                     key=lambda item: item[1]['doc_visibility'].rank * 200 - item[1]['doc_zorder'])
+                     key=lambda item: (item[1]['doc_visibility'].rank, -item[1]['doc_zorder']))
     for attr, desc in s_attrs:
         # Find out the type name
         t = desc.get('type', str)
-- 
2.43.0


From 12702c9619e83dc7195d25d73ca34a67661ee1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:27 +0000
Subject: [PATCH 24/41] fix: a visibility level is not separated from its set
 when an attribute is inherited

---
 src/footprints/priorities.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 9d6481b..54e4aa5 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -21,6 +21,12 @@ class PriorityLevel:
     def __call__(self):
         return self.rank
 
+    def __deepcopy__(self, memo):
+        # A level only makes sense in its own set (unless the whole set is being copied)
+        if id(self._pset) in memo:
+            return self.__class__(self._tag, memo[id(self._pset)])
+        return self
+
     @property
     def tag(self):
         return self._tag
-- 
2.43.0


From 2bf75970611513e3c582947046bfa0affe40f737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:40 +0000
Subject: [PATCH 25/41] fix: a reference formed with a substituted text is not
 mistaken for a cycle

---
 src/footprints/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 1b9b33c..61651a8 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -452,7 +452,7 @@ class Footprint:
             raise FootprintMaxIter('Too many Footprint replacements')
 
         guessk = guess[k]
-        nested = list()  # The (reference, remaining length) pairs being replaced
+        nested = list()  # The (reference, start, remaining length) tuples being replaced
 
         changed = 1
         while changed:
@@ -465,12 +465,13 @@ class Footprint:
                     replx = mobj.group(3)
 
                     # Detect the references that lead to themselves
-                    while nested and mobj.end() > len(guessk) - nested[-1][1]:
+                    while nested and (mobj.start() < nested[-1][1] or
+                                      mobj.end() > len(guessk) - nested[-1][2]):
                         nested.pop()
                     if mobj.group(0) in [x[0] for x in nested]:
                         logger.error('Cyclic replacement of %s in %s', mobj.group(0), k)
                         raise FootprintMaxIter('Too many Footprint replacements')
-                    nested.append((mobj.group(0), len(guessk) - mobj.end()))
+                    nested.append((mobj.group(0), mobj.start(), len(guessk) - mobj.end()))
 
                     def myautofmt(repl, myfmt=mobj.group(4)):
                         if myfmt:
-- 
2.43.0


From de077116ac7437708ea797ed7ff91ccaa8ae842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:29 +0000
Subject: [PATCH 26/41] fix: a format that can not be applied in a reference
 always raises a ValueError

---
 src/footprints/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 61651a8..a7d51bb 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -484,6 +484,10 @@ class Footprint:
                                 logger.error('Formating failed for %s. Please check the format string.',
                                              mobj.group(0))
                                 raise
+                            except (LookupError, TypeError) as trouble:
+                                logger.error('Formating failed for %s. Please check the format string.',
+                                             mobj.group(0))
+                                raise ValueError('Bad format in {:s}: {!s}'.format(mobj.group(0), trouble))
                         else:
                             return str(repl)
 
-- 
2.43.0


From aa9c215d4baa7707f1aa6c08faed4a522563645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 27/41] fix: references formed with substituted texts never
 loop for ever

---
 src/footprints/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index a7d51bb..1aa65b0 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -453,6 +453,7 @@ class Footprint:
 
         guessk = guess[k]
         nested = list()  # The (reference, start, remaining length) tuples being replaced
+        nbformed = 0  # The number of references that overlap a replaced text
 
         changed = 1
         while changed:
@@ -467,8 +468,11 @@ class Footprint:
                     # Detect the references that lead to themselves
                     while nested and (mobj.start() < nested[-1][1] or
                                       mobj.end() > len(guessk) - nested[-1][2]):
+                        if mobj.start() < len(guessk) - nested[-1][2]:
+                            nbformed += 1  # A part of this reference comes from a replacement
                         nested.pop()
-                    if mobj.group(0) in [x[0] for x in nested]:
+                    if (mobj.group(0) in [x[0] for x in nested] or
+                            nbformed > 50 + len(guess[k])):
                         logger.error('Cyclic replacement of %s in %s', mobj.group(0), k)
                         raise FootprintMaxIter('Too many Footprint replacements')
                     nested.append((mobj.group(0), mobj.start(), len(guessk) - mobj.end()))
-- 
2.43.0


From b20a463f808828ada2022d6d6f71445dde1994d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 28/41] fix: an entry is used to select in a dictionary only
 once it is fully expanded

---
 src/footprints/util.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 518801f..61b93fb 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -164,6 +164,19 @@ def _parse_globs(todo):
     return glob_names, re.compile('^' + finalpattern + '$'), finalglob
 
 
+def _is_expandable(desc, key):
+    """Tell whether the **key** entry of **desc** is still to be expanded or replaced."""
+    v = desc[key]
+    if isinstance(v, (list, tuple, set)):
+        return True
+    if v.__class__.__name__.startswith('FP'):
+        return False
+    if isinstance(v, str):
+        return bool(re.match(r'range\(\d+(,\d+)?(,\d+)?\)$', v, re.IGNORECASE) or
+                    ',' in v or re.search(r'{glob:\w+:', v))
+    return isinstance(v, dict) and any(k in desc for k in v)
+
+
 def expand(desc):
     r"""
     Expand the given description according to iterable or expandable arguments.
@@ -294,9 +307,8 @@ def expand(desc):
                     break
                 if isinstance(v, dict):
                     for dk in [x for x in v.keys() if x in d]:
-                        dv = d[dk]
-                        if not (isinstance(dv, list) or isinstance(dv, tuple) or isinstance(dv, set)):
-                            newld.append(inplace(d, k, v[dk][str(dv)], globalindex=globalindex))
+                        if not _is_expandable(d, dk):
+                            newld.append(inplace(d, k, v[dk][str(d[dk])], globalindex=globalindex))
                             globalindex += 1
                             somechanges = True
                             break
-- 
2.43.0


From 6405be6ed01c8707a4b275a855fed444de6f2561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 29/41] fix: glob patterns select exactly the files they
 describe or raise a ValueError

---
 src/footprints/util.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 61b93fb..348c827 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -102,9 +102,9 @@ def _parse_globs(todo):
         fpattern = ''
         for c in cbuffer:
             if c == '*':
-                fpattern += '.*'
+                fpattern += '(?s:.*)'
             elif c == '?':
-                fpattern += '.'
+                fpattern += '(?s:.)'
             else:
                 fpattern += re.escape(c)
         return fpattern
@@ -161,7 +161,12 @@ def _parse_globs(todo):
         finalpattern += glob2re(curbuffer)
         finalglob += curbuffer
 
-    return glob_names, re.compile('^' + finalpattern + '$'), finalglob
+    try:
+        finalre = re.compile('^' + finalpattern + r'\Z')
+    except re.error as e:
+        raise ValueError("Unable to compile << {:s} >>: {!s}".format(finalpattern, e))
+
+    return glob_names, finalre, finalglob.replace('[', '[[]')
 
 
 def _is_expandable(desc, key):
-- 
2.43.0


From d98ffe6f8bd0d1bc75435b04e451ddc254f6fdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 30/41] fix: a bare text in an only clause is a single value

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 1aa65b0..7814220 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -674,7 +674,7 @@ class Footprint:
             resolvecache = collectors.ResolveCache()
         params = resolvecache.defaults
         for k, v in self.only.items():
-            if not hasattr(v, '__iter__'):
+            if isinstance(v, str) or not hasattr(v, '__iter__'):
                 v = (v,)
 
             actualattr = k
-- 
2.43.0


From ece2b135af64e327bfa3e5e08921307e3d028772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 31/41] fix: a shallow copy of an object does not share its
 attributes with the original

---
 src/footprints/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 7814220..4ca27ee 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -964,6 +964,8 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     def __getstate__(self):
         d = self.__dict__.copy()
         del d['_observer']
+        # A shallow copy of the object should not share its attributes storage
+        d['_attributes'] = self._attributes.copy()
         return d
 
     def __setstate__(self, state):
-- 
2.43.0


From cca936ec5de8f12e889a516037174d14ae4aa821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 32/41] fix: build_attrmap with a bare attribute name lists
 that attribute only

A plain text is a container, hence it was used as such: the attributes whose
name is any piece of the given text were listed as well.
---
 src/footprints/collectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 70a87bb..0aabf2d 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -444,7 +444,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         """Build a reversed attr-class map."""
         if attrmap is None:
             attrmap = dict()
-        if only is not None and not hasattr(only, '__contains__'):
+        if only is not None and (isinstance(only, str) or not hasattr(only, '__contains__')):
             only = (only,)
         for c in self:
             fp = c.footprint_retrieve()
-- 
2.43.0


From 13583073b60130097a98f05cbd67d06940a9b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 33/41] fix: filtering or setting an unknown priority level is
 an error

The missing level was silently taken as the level named NONE: discarding the
classes above a misspelled level emptied the collector, and resetting a package
to such a level left classes without any level.
---
 src/footprints/collectors.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 0aabf2d..12ac45f 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -42,6 +42,14 @@ def items():
     return Collector.tag_items()
 
 
+def _known_level(tag):
+    """Return the priority level associated to ``tag``, that must be a known one."""
+    plevel = priorities.top.level(tag)
+    if plevel is None:
+        raise ValueError('No such level priority: {!s}'.format(tag))
+    return plevel
+
+
 # Base class
 
 class Collector(getbytag.GetByTag, Catalog, observer.Observer):
@@ -115,7 +123,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
 
     def filter_higher_level(self, tag):
         """Find in current collector classes with priority level higher or equal to ``level``."""
-        plevel = priorities.top.level(tag)
+        plevel = _known_level(tag)
         return [cl for cl in self.items() if cl.footprint_pl() >= plevel]
 
     def discard_higher_level(self, tag, verbose=True):
@@ -127,7 +135,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
 
     def filter_lower_level(self, tag):
         """Find in current collector classes with priority level lower than ``level``."""
-        plevel = priorities.top.level(tag)
+        plevel = _known_level(tag)
         return [cl for cl in self.items() if cl.footprint_pl() < plevel]
 
     def discard_lower_level(self, tag, verbose=True):
@@ -139,7 +147,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
 
     def reset_package_level(self, packname, tag):
         """Reset priority level current collector classes with name starting with ``packname``."""
-        plevel = priorities.top.level(tag)
+        plevel = _known_level(tag)
         for cl in self.filter_package(packname):
             fp = cl.footprint_retrieve()
             fp.priority['level'] = plevel
-- 
2.43.0


From 01bc0558c5b4362b94ef46c53b299d969375052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:24 +0000
Subject: [PATCH 34/41] fix: a footprint with a single decorator can be
 documented

The decorator of a DecorativeFootprint may be given without any list: with
Sphinx-like docstrings, such a footprint could not be defined at all.
---
 src/footprints/doc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/doc.py b/src/footprints/doc.py
index 23b678f..9f14481 100644
--- a/src/footprints/doc.py
+++ b/src/footprints/doc.py
@@ -115,7 +115,8 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
     # Decorators (for DecorativeFootprints)
     if 'decorator' in fpdict and fpdict['decorator']:
         out.append("   Decorators that will be applied on the target class:\n")
-        for deco in fpdict['decorator']:
+        decorators = fpdict['decorator']
+        for deco in decorators if isinstance(decorators, list) else [decorators, ]:
             out.append('     * {}'.format(_sphinx_secured_dump(deco)))
         out.append('')
 
-- 
2.43.0


From 8a607a95a4c59a8d2532206301adc5fcb16442c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 35/41] fix: a footprint without default entries may be empty

Merging a footprint defined with nodefault and without any attribute raised
KeyError: 'only'.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 4ca27ee..2e2f983 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -738,7 +738,7 @@ class Footprint:
     @property
     def only(self):
         """Read-only property. Direct access to internal footprint restriction rules."""
-        return self._fp['only']
+        return self._fp.get('only', dict())
 
     @property
     def priority(self):
-- 
2.43.0


From 0cee3841caf3b6c6a7f2d5b8aaf32dc8b5c1f6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 36/41] fix: the values of the attributes are listed whatever
 their types

Any object having attributes of several types (e.g. int and str) raised
TypeError.
---
 src/footprints/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 2e2f983..c192806 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -1031,7 +1031,10 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     @property
     def footprint_attributes_values(self):
         """Returns the list of current attributes values."""
-        return sorted(self._attributes.values())
+        try:
+            return sorted(self._attributes.values())
+        except TypeError:  # Some of the values can not be compared
+            return [self._attributes[a] for a in self.footprint_attributes]
 
     def footprint_as_shallow_dict(self):
         """Returns a dictionary that contains the current attributes (shallow copy)."""
-- 
2.43.0


From 809ff50967bc7410eac2f08d3d9ec1abfe912e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:25 +0000
Subject: [PATCH 37/41] fix: iter_last gives a dictionary of its own for each
 rejected attribute

The very same dictionary was given again for all the attributes of a class:
once the iteration was over, only the last reason was left.
---
 src/footprints/reporting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index ffcddf1..1c65c51 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -401,7 +401,7 @@ class StandardReport:
             for subkid in kid.childNodes:
                 dico['name'] = subkid.getAttribute('name')
                 dico['why'] = subkid.getAttribute('why')
-                yield dico
+                yield dico.copy()
 
 
 class FlatReport:
-- 
2.43.0


From 182f9c972a1b64dd0aa38df1d8f7745372387e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 38/41] fix: none of the selected values is forgotten when
 ordering a report

The list was modified while being iterated over: a value that follows another
one of the same kind was sent back with the unselected ones.
---
 src/footprints/reporting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 1c65c51..0cf45ba 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -496,7 +496,7 @@ class FactorizedReport:
         order = list()
         other = list(dic.keys())
         for val in self.interestingValues(list(self.keys())[depth]):
-            for v in other:
+            for v in other[:]:
                 if v[1].startswith(val):
                     order.append(v)
                     other.remove(v)
-- 
2.43.0


From 45e3359827e3994a62f23dc0d2fbb72d6c99d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:28 +0000
Subject: [PATCH 39/41] fix: a missing ordering key of a sorted report is
 reported as such

Formatting the message itself raised TypeError.
---
 src/footprints/reporting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 0cf45ba..33272cc 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -525,7 +525,7 @@ class FactorizedReport:
                     dic = dic[(kj, v)]
                     break
             if v is None:
-                raise KeyError("Ordering key not found: {:s}".format(k))
+                raise KeyError("Ordering key not found: {!s}".format(k))
         info = kw.get('args', '')
         dic[tagvalue] = str(info)
 
-- 
2.43.0


From dfc19c97c4fca7d6f8ad4bda26d965ecaa5fac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:02 +0000
Subject: [PATCH 40/41] fix: the collected values of an attribute are given
 even if they can not be compared

---
 src/footprints/collectors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 12ac45f..93cc880 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -500,7 +500,10 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             if attrname in fp.attr:
                 for v in fp.get_values(attrname):
                     allvalues.add(v)
-        return sorted(allvalues)
+        try:
+            return sorted(allvalues)
+        except TypeError:  # Some of the values can not be compared
+            return sorted(allvalues, key=lambda v: (v.__class__.__name__, str(v)))
 
     def report_dump(self, stamp=False):
         """Print a nicelly formatted dump report as a dict."""
-- 
2.43.0


From 39e65cc586647993c30847cb0d66bdf511927283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:03 +0000
Subject: [PATCH 41/41] fix: the classes listed by a class-valued attribute are
 kept instead of being instantiated

---
 src/footprints/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c192806..649369f 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -208,9 +208,14 @@ class Footprint:
             fp['attr'][a]['outcast'] = set(fp['attr'][a].get('outcast', set()))
             ktype = fp['attr'][a].get('type', str)
             kargs = fp['attr'][a].get('args', dict())
+            kisclass = fp['attr'][a].get('isclass', False)
             for autoreclass in ('values', 'outcast'):
                 for v in list(fp['attr'][a][autoreclass]):
-                    if not isinstance(v, ktype):
+                    if kisclass:
+                        if not (isinstance(v, type) and issubclass(v, ktype)):
+                            logger.error('Bad init footprint in [%s]', autoreclass)
+                            raise FootprintInvalidDefinition('Not a subclass of {!s}: {!s}'.format(ktype, v))
+                    elif not isinstance(v, ktype):
                         fp['attr'][a][autoreclass].remove(v)
                         try:
                             v = ktype(v, **kargs)
-- 
2.43.0

