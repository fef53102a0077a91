From 80f0001c3495c582196f924ee13dd74f146cd490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:52 +0000
Subject: [PATCH 01/56] fix: don't choke on a history roster full of population
 members

With every record protected, the closest-pair search raised an exception
with the history lock held, so all later history operations hung. It now
fires with None as documented and the new record is left out.
---
 ade/history.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index e5255e3..1653a7d 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -792,6 +792,8 @@ class ClosestPairFinder(object):
         """
         # The number of active rows
         Nr = len(self.K)
+        if Nr == 0:
+            return defer.succeed(None)
         if Nr == 1:
             return defer.succeed(list(self.K)[0])
         if Np is None: Np = self.Np_max
@@ -1061,8 +1063,13 @@ class History(object):
                 # in the current population are protected and exempt)
                 # before adding
                 kr = yield self.cpf()
-                if kr is not None: self.purge(kr)
-                k, kr = self.kkr(SSE, N)
+                if kr is None:
+                    # Everybody is in the current population, so
+                    # there's no room for a new record
+                    self.dLock.release()
+                    defer.returnValue(None)
+                self.purge(kr)
+                k, kr = self.kkr(SSE, N) if self.K else (0, 0)
             writeRecord(k, kr)
             self.dLock.release()
         else: kr = None
-- 
2.43.0


From fc40b8823e33da0052c48c3da94234413b272b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:52 +0000
Subject: [PATCH 02/56] fix: never give a new history record a row that is
 taken or doesn't exist

With two records left in rows 0 and 2, the row chosen for a new record was
either the occupied one or one beyond the end of a three-row roster.
---
 ade/history.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index 1653a7d..f86cd78 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1002,7 +1002,10 @@ class History(object):
                 return k, kr+1
         if K[0] > 0:
             return k, K[0]-1
-        return k, min([N, K[-1]+1])
+        # The first row that isn't allocated
+        for kr, krAllocated in enumerate(K):
+            if kr != krAllocated: return k, kr
+        return k, len(K)
 
     @defer.inlineCallbacks
     def add(self, i, neverInPop=False):
-- 
2.43.0


From fdebc0ce26cfa82bea075e6e0c5347f77c8b99bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:52 +0000
Subject: [PATCH 03/56] fix: record an individual in history as it was when
 added

An individual blacklisted while its addition waited for the history lock
was recorded with an infinite SSE, and SSEs or values too big for single
precision raised an exception with the lock held. The record is now made
up front and ignored if it isn't finite.
---
 ade/history.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index f86cd78..a5c9df0 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1031,7 +1031,6 @@ class History(object):
             array, and inserts the row index I{kr} into my I{K} list
             at position I{k}.
             """
-            SV = np.array([i.SSE] + list(i.values))
             self.X[kr,:] = SV
             self.K.insert(k, kr)
             self.N_total += 1           # Add to the lifetime total count
@@ -1051,7 +1050,11 @@ class History(object):
                 self.kr[hash(i)] = kr
 
         SSE = i.SSE
-        if np.isfinite(SSE):
+        # What gets recorded is what I was called with, no matter what
+        # happens to the individual while waiting for the lock
+        with np.errstate(over='ignore'):
+            SV = np.array([SSE] + list(i.values)).astype(self.X.dtype)
+        if np.all(np.isfinite(SV)):
             yield self.dLock.acquire()
             N = len(self.K)
             if N == 0:
-- 
2.43.0


From cf54f78f5365723b3d9e838930baf502b1b58d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:18 +0000
Subject: [PATCH 04/56] fix: make hashes of individuals the same in every
 process

The hash of a bytes object is salted per process, so the history of a
population loaded from a file could not find the records of its members.
It also raised OverflowError for a large SSE and differed between equal
individuals with zero and negative zero or integer and float values.
---
 ade/individual.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index 7ffe76d..b2966bb 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -31,7 +31,7 @@ L{Population} set up a population full of them, and have
 L{DifferentialEvolution} create challengers as it does its thing.
 """
 
-import random, pickle, time, struct
+import random, pickle, time, hashlib
 
 import numpy as np
 from twisted.internet import defer, task
@@ -187,8 +187,9 @@ class Individual(object):
         return SSE >= 0
 
     def __hash__(self):
-        return hash(
-            struct.pack('<f', self.SSE) + np.array(self.values).tobytes())
+        # Adding zero so that negative zero doesn't make a difference
+        X = np.array([float(self.SSE)] + [float(x) for x in self.values]) + 0.0
+        return int.from_bytes(hashlib.md5(X.tobytes()).digest()[:7], 'big')
     
     def __eq__(self, other):
         """
-- 
2.43.0


From 3ba1ae84affaa3d6f84482ae10f3eac91948b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:52 +0000
Subject: [PATCH 05/56] fix: keep track of every history record of equal
 individuals

Two members with the same SSE and values, common with parameters settling
on their bounds, shared one entry in the individual-row map, so one of the
records stayed marked as in the population forever. The map is now looked
up with the hash an individual had when the operation was requested.
---
 ade/history.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index a5c9df0..ec3759b 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1007,6 +1007,22 @@ class History(object):
             if kr != krAllocated: return k, kr
         return k, len(K)
 
+    def krKeys(self, key):
+        """
+        Returns (1) the key of my I{kr} dict for the most recent record of
+        an individual with hash I{key}, and (2) the key for another
+        record of an equal one.
+
+        The first record is keyed by just the hash, any further ones
+        by tuples of the hash and a count.
+        """
+        n = 0
+        thisKey, nextKey = None, key
+        while nextKey in self.kr:
+            n += 1
+            thisKey, nextKey = nextKey, (key, n)
+        return thisKey, nextKey
+
     @defer.inlineCallbacks
     def add(self, i, neverInPop=False):
         """
@@ -1047,7 +1063,7 @@ class History(object):
                 self.cpf.clearRow(kr)
                 # Add to the individual-row map so it can be removed
                 # from the population later
-                self.kr[hash(i)] = kr
+                self.kr[self.krKeys(key)[1]] = kr
 
         SSE = i.SSE
         # What gets recorded is what I was called with, no matter what
@@ -1055,6 +1071,7 @@ class History(object):
         with np.errstate(over='ignore'):
             SV = np.array([SSE] + list(i.values)).astype(self.X.dtype)
         if np.all(np.isfinite(SV)):
+            key = hash(i)
             yield self.dLock.acquire()
             N = len(self.K)
             if N == 0:
@@ -1114,13 +1131,14 @@ class History(object):
                 kr = x
             else:
                 # Must be an Individual
-                key = hash(x)
-                if key not in self.kr: return
-                kr = self.kr.pop(key)
+                thisKey = self.krKeys(key)[0]
+                if thisKey is None: return
+                kr = self.kr.pop(thisKey)
             self.Kp.discard(kr)
             # This row is no longer a population member and is thus
             # expendable, so have cpf start considering it
             self.cpf.setRow(kr, self.X[kr,:])
+        key = hash(x)
         return self.dLock.run(gotLock)
 
     def purgePop(self):
-- 
2.43.0


From 051367a5ce5a27144db35b0d51e6e11657628ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:52 +0000
Subject: [PATCH 06/56] fix: accept any integer type as row index in
 History.notInPop

Row indices are np.uint16 after unpickling and were silently ignored.
---
 ade/history.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index ec3759b..798ecab 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1124,10 +1124,10 @@ class History(object):
         from being considered part of the current population.
         """
         def gotLock():
-            if isinstance(x, (int, np.int64)):
+            if isinstance(x, (int, np.integer)):
                 # This was tricky to find; sometimes shows up as int,
-                # sometimes as np.int64, and Py3 distinguishes between
-                # them
+                # sometimes as np.int64 (or np.uint16 after
+                # unpickling), and Py3 distinguishes between them
                 kr = x
             else:
                 # Must be an Individual
-- 
2.43.0


From a2ebdc464fc7975b4937b4a3d4c40a9a4d0b8394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:31 +0000
Subject: [PATCH 07/56] fix: take a blacklisted individual out of the
 population in history

Its record stayed marked as a population member for good, because the
infinite SSE changed the hash it would have been looked up with when the
individual got replaced.
---
 ade/individual.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ade/individual.py b/ade/individual.py
index b2966bb..1b40d40 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -247,6 +247,10 @@ class Individual(object):
         Sets my SSE to the worst possible value and forces my population
         to update its sorting to account for my degraded status.
         """
+        if any([i is self for i in self.p]):
+            # With this SSE, I no longer count as a population member
+            # in history
+            self.p.history.notInPop(self)
         self.SSE = float('+inf')
         del self.p.KS
     
-- 
2.43.0


From 5616ea235d73d59c56e5b73de3ea6a437fc80c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:29 +0000
Subject: [PATCH 08/56] fix: make history of a loaded population match its
 members

Additions and removals that were still waiting for the history lock when
a population was saved were lost, and limiting a loaded population to new
bounds changed members without their history records.
---
 ade/history.py    | 26 ++++++++++++++++++++++++++
 ade/population.py |  1 +
 2 files changed, 27 insertions(+)

diff --git a/ade/history.py b/ade/history.py
index 798ecab..3a2f23d 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -882,6 +882,32 @@ class History(object):
             self.cpf.setRow(kr, self.X[kr,:], neverInPop=(kr in self.Kn))
         self.dLock = defer.DeferredLock()
 
+    def resume(self, individuals):
+        """
+        Call this after unpickling with the I{individuals} of the current
+        population, to make my records of population members match
+        them again.
+
+        They may not match because additions or removals were still
+        waiting for my lock when I was pickled, or because the values
+        of individuals have been limited to new bounds.
+        """
+        counts = {}
+        for i in individuals:
+            counts[hash(i)] = counts.get(hash(i), 0) + 1
+        for key in list(self.kr):
+            iHash, n = key if isinstance(key, tuple) else (key, 0)
+            if n >= counts.get(iHash, 0):
+                kr = self.kr.pop(key)
+                self.Kp.discard(kr)
+                self.cpf.setRow(kr, self.X[kr,:])
+        missing = []
+        for i in individuals:
+            n = counts[hash(i)] = counts[hash(i)] - 1
+            key = (hash(i), n) if n else hash(i)
+            if key not in self.kr: missing.append(i)
+        for i in missing: self.add(i)
+    
     def shutdown(self):
         return self.dLock.acquire().addCallback(lambda _: self.dLock.release())
 
diff --git a/ade/population.py b/ade/population.py
index 75a3a24..9783632 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -470,6 +470,7 @@ class Population(object):
             p.pm.setup(bounds)
             for i in p:
                 p.limit(i)
+        p.history.resume(p)
         p.reporter = Reporter(p, kw.get('complaintCallback', None))
         return p
         
-- 
2.43.0


From 0278aceb46674985a4adab117907137dd73ce3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:44 +0000
Subject: [PATCH 09/56] fix: compare the SSE of the best individual with
 goalSSE

Setting goalSSE made the run fail with a TypeError after the first
generation.
---
 ade/de.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/de.py b/ade/de.py
index ed8b67e..748fec5 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -608,7 +608,7 @@ class DifferentialEvolution(object):
                 if result is None:
                     self.shutdown()
             if not self.running: break
-            if self.goalSSE and self.p.best < self.goalSSE:
+            if self.goalSSE and self.p.best() < self.goalSSE:
                 msg(-1,
                     "Goal SSE of {:.5g} has been met, stopped.", self.goalSSE)
                 break
-- 
2.43.0


From 6d5143c9297f96bdd37a8141e8806260ea051101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:44 +0000
Subject: [PATCH 10/56] fix: call the generation function after the last
 generation, too

It was not called after a generation at whose end the run was stopped
because the goal was met or challengers were failing too much.
---
 ade/de.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ade/de.py b/ade/de.py
index 748fec5..4350a54 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -608,10 +608,11 @@ class DifferentialEvolution(object):
                 if result is None:
                     self.shutdown()
             if not self.running: break
+            stopped = False
             if self.goalSSE and self.p.best() < self.goalSSE:
                 msg(-1,
                     "Goal SSE of {:.5g} has been met, stopped.", self.goalSSE)
-                break
+                stopped = True
             elif self.p.replacement():
                 # There was enough overall improvement to warrant
                 # scaling F back up a bit
@@ -625,8 +626,9 @@ class DifferentialEvolution(object):
                     self.dwellCount += 1
                     if self.dwellCount > self.dwellByGrave:
                         msg(-1, "Challengers failing too much, stopped.")
-                        break
+                        stopped = True
             if func: func(kg)
+            if stopped: break
         else: msg(-1, "Maximum number of iterations reached.")
         if self.running:
             # File report for best individual and shutdown
-- 
2.43.0


From 29100580dac58afdac3e45fe78be25adb2d48f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:56 +0000
Subject: [PATCH 11/56] fix: don't use a nonconforming individual when aborting
 setup

When no initial individual could be found that passes the constraints,
setup still made one of the last values that were rejected.
---
 ade/population.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ade/population.py b/ade/population.py
index 9783632..bced9e6 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -790,6 +790,7 @@ class Population(object):
             else:
                 msg(0, "Couldn't generate a conforming Individual, aborting!")
                 self.abort()
+                return
             return Individual(self, self.pm.limit(values))
 
         def addIndividual(i):
@@ -818,6 +819,7 @@ class Population(object):
             k = 0
             while running() and needMore():
                 i = getIndividual()
+                if i is None: break
                 if blank:
                     i.SSE = np.inf
                     addIndividual(i)
-- 
2.43.0


From 312e3404e6a3b7a76675c1d0f34a485dfd2bbecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:56 +0000
Subject: [PATCH 12/56] fix: give each constraint its own parameters

Wrappers collected from a Constraints object all called the last function
with parameters of the first vector, and a parameter that was linear for
one function and log-space for another got to both in the same form.
---
 ade/constraints.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/ade/constraints.py b/ade/constraints.py
index 10e3203..e5cb511 100644
--- a/ade/constraints.py
+++ b/ade/constraints.py
@@ -134,27 +134,28 @@ class Constraints(object):
         iteration and appending. But you can't get or set individual
         items by index.
         """
-        def wrapper(params):
-            if linearParams:
-                if not linearParams.issubset(params):
-                    return True
-                for name in linearParams:
-                    if name not in newParams:
+        def wrap(func, linearParams, logParams):
+            def wrapper(params):
+                newParams = {}
+                if linearParams:
+                    if not linearParams.issubset(params):
+                        return True
+                    for name in linearParams:
                         newParams[name] = params[name]
-            if logParams:
-                if not logParams.issubset(params):
-                    return True
-                for name in logParams:
-                    if name not in newParams:
-                        newParams[name] = np.power(10.0, params[name])
-            result = func(newParams)
-            if self.debug:
-                print(sub("BOGUS: {}, {}", func.__name__, newParams))
-            return result
+                if logParams:
+                    if not logParams.issubset(params):
+                        return True
+                    for name in logParams:
+                        if name not in newParams:
+                            newParams[name] = np.power(10.0, params[name])
+                result = func(newParams)
+                if self.debug:
+                    print(sub("BOGUS: {}, {}", func.__name__, newParams))
+                return result
+            return wrapper
         
-        newParams = {}
         for func, linearParams, logParams in self.cList:
-            yield wrapper
+            yield wrap(func, linearParams, logParams)
         for func in self.fList:
             yield func
 
-- 
2.43.0


From efe4f4d64fbd568a09fa255fb41f84e864d2dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:51 +0000
Subject: [PATCH 13/56] fix: don't evaluate more initial individuals than
 needed

While initial evaluations were still pending, setup evaluated extra
individuals that took the place of some of those, or were reported but
didn't become population members.
---
 ade/population.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ade/population.py b/ade/population.py
index bced9e6..2f02d93 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -831,6 +831,11 @@ class Population(object):
                 if k < self.Np:
                     dt.put(d)
                     yield dt.deferUntilFewer(self.N_maxParallel)
+                elif k == self.Np:
+                    # Don't evaluate any more until it's known that
+                    # they are needed
+                    dt.put(d)
+                    yield dt.deferToAll()
                 else: yield d
             yield dt.deferToAll()
 
-- 
2.43.0


From 893e4b33e5f823f78aaa8399ceb76d5fd99a2042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:51 +0000
Subject: [PATCH 14/56] fix: use all rows of the initial values matrix

The last row was never used, so the initial population wasn't quite a
Latin hypercube.
---
 ade/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/population.py b/ade/population.py
index 2f02d93..9f41306 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -775,7 +775,7 @@ class Population(object):
 
         def getNextIV():
             k, IV = kIV
-            if k+1 == IV.shape[0]:
+            if k == IV.shape[0]:
                 refreshIV()
                 k, IV = kIV
             kIV[0] += 1
-- 
2.43.0


From a7992addfb19c83c3b6f5281a1dae363e249aba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:51 +0000
Subject: [PATCH 15/56] fix: treat an SSE of NaN as the worst possible

An initial individual with that SSE became a population member, and no
challenger could replace it.
---
 ade/individual.py | 6 ++++--
 ade/population.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index 1b40d40..cc3ab1a 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -146,9 +146,11 @@ class Individual(object):
     def __float__(self):
         """
         I can be evaluated as a float using my SSE. A negative SSE
-        translates to C{inf} because it indicates a fatal error.
+        translates to C{inf} because it indicates a fatal error, and
+        so does C{NaN}.
         """
-        return float('+inf' if self.SSE < 0 else self.SSE)
+        SSE = float('+inf' if self.SSE < 0 else self.SSE)
+        return float('+inf') if np.isnan(SSE) else SSE
     
     def __getitem__(self, k):
         """
diff --git a/ade/population.py b/ade/population.py
index 9f41306..6026dce 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -811,7 +811,7 @@ class Population(object):
                 self.abort()
                 return
             self.reporter(i)
-            isFinite = not np.isinf(float(i.SSE))
+            isFinite = np.isfinite(float(i))
             if isFinite and needMore(): addIndividual(i)
 
         @defer.inlineCallbacks
-- 
2.43.0


From 394fdfc60d28eb0ade229e0d45537356bffa3dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:53 +0000
Subject: [PATCH 16/56] fix: don't acquire any lock when refusing a request for
 duplicates

---
 ade/population.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ade/population.py b/ade/population.py
index 6026dce..ef0150c 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -1145,11 +1145,11 @@ class Population(object):
         """
         if self.running is False:
             return defer.succeed(None)
+        if len(set(indices)) < len(indices):
+            raise ValueError(
+                "Requesting the same lock twice will result in deadlock!")
         dList = []
         for k in indices:
-            if indices.count(k) > 1:
-                raise ValueError(
-                    "Requesting the same lock twice will result in deadlock!")
             if k >= len(self.dLocks):
                 # Invalid index, we must be shutting down
                 self.release()
-- 
2.43.0


From 67dfebd0dd1d7566961ecb55ac64c3d342e6e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:04 +0000
Subject: [PATCH 17/56] fix: refuse a request for more biased samples than
 there can be

It resulted in an endless loop.
---
 ade/population.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ade/population.py b/ade/population.py
index ef0150c..a955a8e 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -1113,6 +1113,11 @@ class Population(object):
             raise ValueError(
                 "randomBase must be False, True, or between 0.0 and 1.0")
         else:
+            # Only this many indices can be obtained
+            N_max = np.ceil(min([2*rb, 1.0])*len(K) - 1E-9)
+            if N > N_max:
+                raise ValueError(sub(
+                    "Can't have {:d} unique samples with randomBase={}", N, rb))
             result = []
             while len(result) < N:
                 k = self.ps(K, rb)
-- 
2.43.0


From 2a0197081f53130e9cdc590ac370e420d8fe3cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:41 +0000
Subject: [PATCH 18/56] fix: stop a run when its population has been aborted

Until the maximum number of iterations, the evaluation function was called
with None over and over again, and what it returned then, as well as
evaluations finishing after the abort, could replace population members.
---
 ade/de.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ade/de.py b/ade/de.py
index 4350a54..b0b9586 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -539,7 +539,8 @@ class DifferentialEvolution(object):
                     if self.xSSE:
                         yield iChallenger.evaluate(iTarget.SSE)
                     else: yield iChallenger.evaluate()
-                    if iChallenger and self.running:
+                    if iChallenger and self.running \
+                       and self.p.running is not False:
                         if iChallenger < iTarget:
                             # The challenger won the tournament, replace
                             # the target
@@ -552,7 +553,7 @@ class DifferentialEvolution(object):
                                 iChallenger, neverInPop=True)
                         self.p.report(iChallenger, iTarget)
                     else:
-                        # Oops! Fatal error occurred!
+                        # Oops! Fatal error or abort occurred!
                         self.shutdown()
                 else:
                     # Failed constraints
@@ -605,7 +606,7 @@ class DifferentialEvolution(object):
                     dList, fireOnOneErrback=True).addErrback(failed)
                 result = yield self.dChallenges
                 self.dChallenges = None
-                if result is None:
+                if result is None or self.p.running is False:
                     self.shutdown()
             if not self.running: break
             stopped = False
-- 
2.43.0


From 6aedb6966f57a6515e236179f22f856c4bf2f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:41 +0000
Subject: [PATCH 19/56] fix: don't start an evaluation after shutdown

A challenge waiting for locks could shut things down as soon as another
one released them, which then still went ahead with its evaluation.
---
 ade/de.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ade/de.py b/ade/de.py
index b0b9586..f19e5d3 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -533,7 +533,11 @@ class DifferentialEvolution(object):
                 self.crossover(iTarget, iChallenger)
                 # Continue with Pr(values) / Pr(midpoints)
                 self.p.limit(iChallenger)
-                if self.p.pm.passesConstraints(iChallenger.values):
+                passes = self.p.pm.passesConstraints(iChallenger.values)
+                if not self.running:
+                    # Shut down by somebody who got a lock released above
+                    pass
+                elif passes:
                     # Passes constraints!
                     # Now the hard part: Evaluate fitness of the challenger
                     if self.xSSE:
-- 
2.43.0


From 9f9ea454ac3bdc3b2c11edeecf45869575821fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:36 +0000
Subject: [PATCH 20/56] fix: forget about reported individuals when setting up
 a new population

The best individual of a population that had been set up before kept
improvements in the new one from being reported.
---
 ade/population.py |  1 +
 ade/report.py     | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ade/population.py b/ade/population.py
index a955a8e..24ecb4f 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -679,6 +679,7 @@ class Population(object):
         self.iList = []
         self.dLocks = []
         if hasattr(self, 'history'): self.history.clear()
+        if hasattr(self, 'reporter'): self.reporter.clear()
         self.running = None
         self.replacementScore = None
         del self.KS
diff --git a/ade/report.py b/ade/report.py
index b9c0e34..07842c9 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -66,14 +66,20 @@ class Reporter(object):
         self.p = population
         self.complaintCallback = complaintCallback
         self.pm = self.p.pm
-        self.iBest = None
-        self.iLastReported = None
+        self.clear()
         self.callbacks = []
         self.cbrInProgress = False
         self.cbrScheduled = Bag()
         self.dt = DeferredTracker()
         self._syms_on_line = 0
 
+    def clear(self):
+        """
+        Forgets about all the individuals reported thus far.
+        """
+        self.iBest = None
+        self.iLastReported = None
+
     def abort(self):
         """
         Tells me not to wait for any pending or future callbacks to run.
-- 
2.43.0


From b18a8f50873ec26350057feff19148d7e99667f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:36 +0000
Subject: [PATCH 21/56] fix: restore the best remaining individual after a
 complaint

The individual complained about was itself kept as its predecessor, so that
anything with a finite SSE was reported as the new best one afterwards.
---
 ade/report.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/ade/report.py b/ade/report.py
index 07842c9..f5871db 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -78,6 +78,7 @@ class Reporter(object):
         Forgets about all the individuals reported thus far.
         """
         self.iBest = None
+        self.iPrevBests = []
         self.iLastReported = None
 
     def abort(self):
@@ -120,7 +121,7 @@ class Reporter(object):
         ratio = float(betterSSE) / float(worseSSE)
         return abs(ratio - 1.0) < self.minDiff 
 
-    def runCallbacks(self, i, iPrevBest=None):
+    def runCallbacks(self, i):
         """
         Queues up a report for the supplied L{Individual} I{i}, calling
         each of my registered callbacks in turn.
@@ -128,7 +129,8 @@ class Reporter(object):
         If any callback complains about the report by returning a
         result (deferred or immediate) that is not C{None}, processes
         the complaint and then gives the individual a worst-possible
-        SSE.
+        SSE. The best of the remaining ones is then restored to its
+        rightful place.
 
         Default processing is to enter the debugger so the user can
         figure out what the callback was complaining about. But if my
@@ -138,10 +140,6 @@ class Reporter(object):
 
         If the callback had an error, it is logged, processing of any
         further callbacks is halted, and I get aborted.
-
-        @keyword iPrevBest: Set to the previous best individual to
-            allow for it to be restored to its rightful place if a
-            callback complains about I{i}.
         """
         def failed(failureObj, func):
             # TODO: Provide a complete func(*args, **kw).
@@ -153,6 +151,17 @@ class Reporter(object):
 
         def aborted():
             return self.p.running is False
+
+        def restoreBest():
+            # The best individual that nobody complained about, either
+            # a previous best one or a population member
+            if self.iBest is None: return
+            while self.iPrevBests and not np.isfinite(float(self.iBest)):
+                self.iBest = self.iPrevBests.pop()
+            iBest = self.p.best()
+            if iBest is not None and iBest < self.iBest:
+                self.iPrevBests.append(self.iBest)
+                self.iBest = iBest
         
         @defer.inlineCallbacks
         def runUntilFree():
@@ -187,8 +196,7 @@ class Reporter(object):
                         # Modify the individual in-place to never again be
                         # winner of a challenge or basis for new individuals
                         i.blacklist()
-                        if iPrevBest and iPrevBest < self.iBest:
-                            self.iBest = iPrevBest
+                        restoreBest()
             if msg.lineWritten(): self.progressChar()
             self.cbrInProgress = False
 
@@ -249,6 +257,7 @@ class Reporter(object):
         
         if self.iBest is None or i < self.iBest:
             # Register new best, regardless of whether it gets reported
+            if self.iBest is not None: self.iPrevBests.append(self.iBest)
             self.iBest = i
             isBest = True
         else: isBest = False
@@ -256,8 +265,7 @@ class Reporter(object):
             if self.p.debug:
                 msg(0, "{}\n\t--->\n{}\n", self.iBest, i)
             self.iLastReported = i
-            iBackupBest = self.iBest
-            self.runCallbacks(i, iBackupBest)
+            self.runCallbacks(i)
         
     def msgRatio(self, iNum, iDenom, bogus_char="!", noProgress=False):
         """
-- 
2.43.0


From b0b159979eb49f988cfbe58b651f4102ea786449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:45 +0000
Subject: [PATCH 22/56] fix: abort if the complaint callback fails, as with
 report callbacks

Otherwise the failure went unnoticed and nothing was reported any more.
---
 ade/report.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ade/report.py b/ade/report.py
index f5871db..f0d865d 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -185,8 +185,13 @@ class Reporter(object):
                         break
                     if result is not None and i and not aborted():
                         if self.complaintCallback:
-                            yield defer.maybeDeferred(
+                            d = defer.maybeDeferred(
                                 self.complaintCallback, i, result)
+                            d.addErrback(failed, self.complaintCallback)
+                            result = yield d
+                            if isinstance(result, CallbackFailureToken):
+                                self.abort()
+                                break
                         else:
                             text = sub(
                                 "\n\n" +\
-- 
2.43.0


From 79b96887709a4b63b064365d5d96b48315ef3812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:58:07 +0000
Subject: [PATCH 23/56] fix: give no ratio for a tie between two individuals
 with an SSE of zero

---
 ade/report.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/report.py b/ade/report.py
index f0d865d..411b366 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -116,8 +116,9 @@ class Reporter(object):
             return False
         betterSSE = iBetter.SSE
         worseSSE = iWorse.SSE
-        if betterSSE is None or worseSSE == 0 or worseSSE is None:
+        if betterSSE is None or worseSSE is None:
             return False
+        if worseSSE == 0: return betterSSE == 0
         ratio = float(betterSSE) / float(worseSSE)
         return abs(ratio - 1.0) < self.minDiff 
 
-- 
2.43.0


From 265286e4d62a6a7fa5f2dba0ecdf2e646680d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:55 +0000
Subject: [PATCH 24/56] fix: value_vs_SSE with a best SSE of zero or an empty
 history

The ratio of a zero SSE to the best SSE of zero is not a number, so even
the best record was left out. With no records yet there is no best SSE
to look up.
---
 ade/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 3a2f23d..edcb457 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -224,7 +224,7 @@ class Analysis(object):
         
         names = self.args2names(names)
         maxRatio = kw.get('maxRatio', 1000)
-        SSE_best = self.X[self.K[0],0]
+        SSE_best = self.X[self.K[0],0] if len(self.K) else 0
         if kw.get('inPop', False):
             K = [k for k in self.K if k in self.Kp]
         elif kw.get('notInPop', False):
@@ -232,7 +232,7 @@ class Analysis(object):
         elif kw.get('neverInPop', False):
             K = [k for k in self.K if k in self.Kn]
         else: K = self.K
-        KK = np.flatnonzero(self.X[K,0]/SSE_best <= maxRatio)
+        KK = np.flatnonzero(self.X[K,0] <= maxRatio*SSE_best)
         K = np.array(K)[KK]
         result = [subset(0)]
         for name in names:
-- 
2.43.0


From 25a934abf55540c3b7ddf60c703572bb2b73f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:55 +0000
Subject: [PATCH 25/56] fix: Keep correlations sorted when some of them are
 undefined

A parameter with the same value in all records has NaN as its
correlation coefficients, and sorting with NaN keys leaves the other
pairs in no particular order.
---
 ade/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index edcb457..4013d8c 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -136,7 +136,8 @@ class Analysis(object):
             for k2 in range(1, Nc):
                 if k2 > k1: 
                     kkR.append([k1, k2, self.corr(k1, k2)])
-        kkR.sort(key=lambda row: abs(row[2]), reverse=True)
+        # Undefined (NaN) coefficients compare with nothing and go last
+        kkR.sort(key=lambda row: np.nan_to_num(abs(row[2])), reverse=True)
         for k1, k2, R in kkR:
             yield k1, k2, R
 
-- 
2.43.0


From b53acee7dc0e39080a3d5b171fb769a6e5ab33be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:55 +0000
Subject: [PATCH 26/56] fix: Line fit when the lowest SSE is zero

The weight of the best record was 0/0, which made the fit raise an
exception.
---
 ade/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index 4013d8c..cca0162 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -252,7 +252,8 @@ class Analysis(object):
         """
         SSE = self.X[K,0]
         SSE_min = SSE.min()
-        W = 2*SSE_min / (SSE + SSE_min)
+        if SSE_min: W = 2*SSE_min / (SSE + SSE_min)
+        else: W = np.where(SSE, 0.0, 1.0)
         b, m = poly.polyfit(self.X[K,k1], self.X[K,k2], 1, w=W)
         return m, b
 
-- 
2.43.0


From cffd7054c623a97b345f4cc1bc29ac66ed5964db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:19 +0000
Subject: [PATCH 27/56] fix: Save the replacement score of a population

A loaded population started without one, so the first generation run
with it always counted as a success and F was adapted otherwise than
with the original population.
---
 ade/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ade/population.py b/ade/population.py
index 24ecb4f..3132ae4 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -485,6 +485,7 @@ class Population(object):
             'debug', 'running',
             # Scalars
             'Nd', 'Np', 'popsize', 'targetFraction', 'statusQuoScore',
+            'replacementScore',
             # Other
             'iList', 'kr', 'pm', 'history',
         }
-- 
2.43.0


From 17d88c5e2c8617ef1ace4927d2c7b0d15f176b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:42 +0000
Subject: [PATCH 28/56] fix: Ignore trailing comments wherever they are in a
 specs file

A comment after the name of a dict made the name an empty entry and the
rule below it an error, and a comment following a value without a space
became part of the value.
---
 ade/specs.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ade/specs.py b/ade/specs.py
index 3e56f5d..d97dd77 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -218,9 +218,9 @@ class SpecsLoader(object):
         dictDef = False
         dictName = None
         for k, line in enumerate(fh):
-            line = line.strip()
-            if not line or line.startswith('#'):
-                continue
+            # Whatever follows a '#' is a comment
+            line = line.split('#')[0].strip()
+            if not line: continue
             if line.startswith('--'):
                 # Start or end of a dict definition
                 if dictDef:
@@ -248,14 +248,11 @@ class SpecsLoader(object):
                     # A standalone name is the start of a dict definition
                     dictName = nameParts[0]
                     continue
-            if tokens[0] == "=":
+            if tokens and tokens[0] == "=":
                 # An equals sign is semantic fluff
                 tokens.pop(0)
             seq = []
             for token in tokens:
-                if token.startswith('#'):
-                    # Trailing comment
-                    break
                 seq.append(self.parseValue(token.rstrip(',')))
             if len(seq) == 1:
                 # A single value token is its own attribute, not part
-- 
2.43.0


From 1ba319ce16b7eaa3f992360fd23745169c5ceab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:42 +0000
Subject: [PATCH 29/56] fix: Reading an empty specs file

The count of lines read was undefined without any line.
---
 ade/specs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ade/specs.py b/ade/specs.py
index d97dd77..e65e2e0 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -215,6 +215,7 @@ class SpecsLoader(object):
 
         Modifies I{s} in place. Returns the number of lines read.
         """
+        k = -1
         dictDef = False
         dictName = None
         for k, line in enumerate(fh):
-- 
2.43.0


From 4ab8746ab57a0c19dfcabee9d70f50506add1fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:42 +0000
Subject: [PATCH 30/56] fix: Numbers in a specs file with no digits before or
 after the point

Values such as .5 and 5. were read as text.
---
 ade/specs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/specs.py b/ade/specs.py
index e65e2e0..8f308a9 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -169,7 +169,8 @@ class SpecsLoader(object):
     Comments (lines beginning with '#', and trailing parts of a line
     after a '#') and blank lines are ignored.
     """
-    reNum = re.compile(r'[\+\-]?[0-9]+(\.[0-9]+)?([e][\+\-]?[0-9]+)?$')
+    reNum = re.compile(
+        r'[\+\-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([e][\+\-]?[0-9]+)?$')
     
     def __init__(self, filePath):
         self.filePath = filePath
-- 
2.43.0


From 1a19ba2f9bb0126da4006d64c73e12249dd4bd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:42 +0000
Subject: [PATCH 31/56] fix: Specs.get of an entry below something that isn't a
 dict

The value of the thing itself was returned instead of an empty dict.
---
 ade/specs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ade/specs.py b/ade/specs.py
index 8f308a9..bd26b3b 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -144,13 +144,15 @@ class Specs(object):
             dct = kw['dct']
             if first in dct:
                 obj = dct[first]
-                if names and isinstance(obj, dict):
+                if names:
+                    if not isinstance(obj, dict): return {}
                     kw['dct'] = obj
                     return self.get(*names, **kw)
                 return obj
             return {}
         obj = getattr(self, first, {})
-        if names and isinstance(obj, dict):
+        if names:
+            if not isinstance(obj, dict): return {}
             kw['dct'] = obj
             return self.get(*names, **kw)
         return obj
-- 
2.43.0


From c881730e3b62dda09b76bf93788b01252095f5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:57 +0000
Subject: [PATCH 32/56] fix: Call the remaining abort callbacks after one of
 them fails

An exception raised by one callback kept those registered after it from
being called, so whatever they belong to went on running.
---
 ade/abort.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ade/abort.py b/ade/abort.py
index 17bb377..0f499f1 100644
--- a/ade/abort.py
+++ b/ade/abort.py
@@ -37,6 +37,7 @@ ignored.
 import signal
 
 from twisted.internet import reactor, stdio, protocol
+from twisted.python import log
 
 
 class AbortError(Exception):
@@ -92,7 +93,10 @@ class Keyboard(protocol.Protocol):
         if self.ignoreAll: return
         while self.callbacks:
             func = self.callbacks.pop(0)
-            func()
+            try: func()
+            except Exception:
+                # The others still have to be called
+                log.err()
         self.shutdown()
 
 
-- 
2.43.0


From 10abd66594d198db58b17b30853bc516f0aa3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:56 +0000
Subject: [PATCH 33/56] fix: Have Messenger.lineWritten tell if a line was
 written

The flag was set under another name than the one it is read from.
---
 ade/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/util.py b/ade/util.py
index 97c8586..7544d4d 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -231,7 +231,7 @@ class Messenger(object):
         """
         if not self.fh:
             return
-        self._lineWritten = True
+        self._lineWasWritten = True
         try:
             if self.newlineNeeded:
                 self.fh.write("\n")
-- 
2.43.0


From 29539fbd2256cdd253c20a1e36c708e8a2825fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:56 +0000
Subject: [PATCH 34/56] fix: Drop a log that cannot be closed

Closing a log on a full disk fails just like writing to it did. The
exception went to whoever was logging something, and the log stayed in
use.
---
 ade/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ade/util.py b/ade/util.py
index 7544d4d..3618310 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -264,9 +264,10 @@ class Messenger(object):
             if fh is self.fh:
                 return fh
             fhPrev = self.fh
-            if self.fh and self.fh is not sys.stdout:
-                self.fh.close()
             self.fh = fh
+            if fhPrev and fhPrev is not sys.stdout:
+                try: fhPrev.close()
+                except Exception: pass
             return fhPrev 
         
         if hasattr(arg, 'write'):
-- 
2.43.0


From a8c2ad8a9534296da9605a3869591c10d0822ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:56 +0000
Subject: [PATCH 35/56] fix: Finish a line of progress characters before
 switching logs

The newline still due went to the new log instead, and the next line
written to the old one (if that was STDOUT) followed the characters on
the same line.
---
 ade/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ade/util.py b/ade/util.py
index 3618310..96b9f4c 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -263,6 +263,11 @@ class Messenger(object):
         def fhSet(fh):
             if fh is self.fh:
                 return fh
+            if self.newlineNeeded:
+                # Don't leave an unfinished line of characters behind
+                self.newlineNeeded = False
+                try: self.fh.write("\n")
+                except Exception: pass
             fhPrev = self.fh
             self.fh = fh
             if fhPrev and fhPrev is not sys.stdout:
-- 
2.43.0


From b7154fc8131d0a8adee8c2d346fc08c966bf1f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:33 +0000
Subject: [PATCH 36/56] fix: Have EvalTimer average elapsed times

It added up the times of day when the calls finished, so that the IDs
were iterated over in the order of their first calls.
---
 ade/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/util.py b/ade/util.py
index 96b9f4c..e7c4b39 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -163,7 +163,7 @@ class EvalTimer(Picklable):
         """
         def done(result):
             ID = args[self.k]
-            self.times[ID] = self.times.get(ID, 0) + time.time()
+            self.times[ID] = self.times.get(ID, 0) + time.time() - t0
             self.Ns[ID] = self.Ns.get(ID, 0) + 1
             return result
         
-- 
2.43.0


From 5294c84a9635e636893421499829a4bcfa91caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:54 +0000
Subject: [PATCH 37/56] fix: Accept numpy integers as positions of an
 Individual's values

---
 ade/individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/individual.py b/ade/individual.py
index cc3ab1a..9036e6a 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -157,7 +157,7 @@ class Individual(object):
         Sequence-like read access to values when I{k} is an integer,
         dict-like access otherwise.
         """
-        if not isinstance(k, int):
+        if not isinstance(k, (int, np.integer)):
             k = self.p.pm.names.index(k)
         return self.values[k]
 
-- 
2.43.0


From 00fef2f107160183c30fb2c41003222bfbf7e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:54 +0000
Subject: [PATCH 38/56] fix: Have a copy of a fatally evaluated Individual be
 one, too

---
 ade/individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/individual.py b/ade/individual.py
index 9036e6a..d9df8e5 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -140,7 +140,7 @@ class Individual(object):
         the same population, values, and SSE.
         """
         i = Individual(self.p, list(self.values))
-        i.SSE = self.SSE
+        i.SSE = self._SSE
         return i
 
     def __float__(self):
-- 
2.43.0


From efeddf7c9fa8b4e2c2e3cd4867d6030622770693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:54 +0000
Subject: [PATCH 39/56] fix: Have an Individual with NaN as its SSE equal
 itself and its copies

---
 ade/individual.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index d9df8e5..644b622 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -190,7 +190,7 @@ class Individual(object):
 
     def __hash__(self):
         # Adding zero so that negative zero doesn't make a difference
-        X = np.array([float(self.SSE)] + [float(x) for x in self.values]) + 0.0
+        X = np.array([float(self)] + [float(x) for x in self.values]) + 0.0
         return int.from_bytes(hashlib.md5(X.tobytes()).digest()[:7], 'big')
     
     def __eq__(self, other):
@@ -198,7 +198,7 @@ class Individual(object):
         I am equal to another C{Individual} if we have the same SSE and
         values.
         """
-        return (self.SSE == other.SSE) and self.equals(other)
+        return (float(self) == float(other)) and self.equals(other)
 
     def equals(self, other):
         """
-- 
2.43.0


From 89ed6a62c272f21a58280b9b32b79f1e8456a908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:54 +0000
Subject: [PATCH 40/56] fix: Do not write an example through a dangling symlink

---
 ade/__init__.py         | 2 +-
 ade/scripts/examples.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/__init__.py b/ade/__init__.py
index 0dcb50e..ef5d4ce 100644
--- a/ade/__init__.py
+++ b/ade/__init__.py
@@ -58,7 +58,7 @@ def extract_examples():
         if not reFile.match(fileName):
             continue
         ePath = os.path.join(eDir, fileName)
-        if os.path.exists(ePath):
+        if os.path.lexists(ePath):
             msg("{} already exists", ePath)
         else:
             sPath = os.path.join(sDir, fileName)
diff --git a/ade/scripts/examples.py b/ade/scripts/examples.py
index 379f66b..fc4411b 100644
--- a/ade/scripts/examples.py
+++ b/ade/scripts/examples.py
@@ -59,7 +59,7 @@ def extract():
         if not reFile.match(fileName):
             continue
         ePath = os.path.join(eDir, fileName)
-        if os.path.exists(ePath):
+        if os.path.lexists(ePath):
             msg("{} already exists", ePath)
         else:
             sPath = os.path.join(sDir, fileName)
-- 
2.43.0


From 7f93bafa7944c21a302045ddee6912c5605f6996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:46 +0000
Subject: [PATCH 41/56] fix: Let Args without positional arguments be iterated
 and counted

Without any declared positional arguments, len(args), iterating over args
and args[0] raised a TypeError. They now act as for an empty sequence.
---
 ade/args.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ade/args.py b/ade/args.py
index 0550b85..ce5926c 100644
--- a/ade/args.py
+++ b/ade/args.py
@@ -91,14 +91,14 @@ class Args(object):
         return text
 
     def __iter__(self):
-        for x in getattr(self, '_args_', []):
+        for x in self._args_ or []:
             yield x
 
     def __len__(self):
-        return len(getattr(self, '_args_', []))
+        return len(self._args_ or [])
 
     def __getitem__(self, k):
-        return getattr(self, '_args_', [])[k]
+        return (self._args_ or [])[k]
     
     def __getattr__(self, name):
         if self.args is None:
-- 
2.43.0


From c7fbdbeadb58806417f7ace8e4cb2bb62f23acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:46 +0000
Subject: [PATCH 42/56] fix: Leave the history alone when setting a population
 item out of range

Setting an item beyond the end of the population raises an IndexError, but
the individual had been added to the history by then.
---
 ade/population.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ade/population.py b/ade/population.py
index 3132ae4..2222220 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -539,9 +539,8 @@ class Population(object):
         # updates its internals properly, so no need to keep track of
         # the deferreds that get returned from the notInPop and add
         # method calls.
-        if len(self.iList) > k:
-            iPrev = self.iList[k]
-            self.history.notInPop(iPrev)
+        iPrev = self.iList[k]
+        self.history.notInPop(iPrev)
         self.history.add(i)
         # Here is the only place iList should ever be set directly
         self.iList[k] = i
-- 
2.43.0


From bb88f453526a510afb0de62a12d0a123a8d39434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:46 +0000
Subject: [PATCH 43/56] fix: Keep the plot of pv when there is nothing to
 correlate

With a single parameter and correlation plots requested, the value plot was
forgotten and the script failed with 'No analysis done!'.
---
 ade/scripts/pv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/scripts/pv.py b/ade/scripts/pv.py
index e5d121c..1c773fe 100644
--- a/ade/scripts/pv.py
+++ b/ade/scripts/pv.py
@@ -108,10 +108,10 @@ def main():
             for name in names:
                 pt = analyzer.plotCorrelated(
                     name=name, N=args.N,
-                    noShow=True, verbose=args.v, dims=args.d)
+                    noShow=True, verbose=args.v, dims=args.d) or pt
         else:
             pt = analyzer.plotCorrelated(
-                N=args.N, noShow=True, verbose=args.v, dims=args.d)
+                N=args.N, noShow=True, verbose=args.v, dims=args.d) or pt
     if pt is None: raise RuntimeError("No analysis done!")
     pt.showAll()
 
-- 
2.43.0


From a3d287e6104902a36783489e96ded7e7f3357767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:46 +0000
Subject: [PATCH 44/56] fix: Start the image viewer with a text path

Notifications of a written file come with a bytes path, which could not be
combined with the text arguments, so that no viewer was ever started.
---
 ade/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/image.py b/ade/image.py
index f21d0cd..6d950fd 100644
--- a/ade/image.py
+++ b/ade/image.py
@@ -91,7 +91,7 @@ class ImageViewer(object):
             if self.transport is None:
                 if fp.isfile():
                     if not self.processRunning():
-                        self.spawnViewer(fp)
+                        self.spawnViewer(fp.asTextMode())
                         self._stopNotifier()
             elif not fp.isfile():
                 self.termViewer()
-- 
2.43.0


From 6ab2147d3eb47aa4fb72b2930cc3e3a3c579895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:46 +0000
Subject: [PATCH 45/56] fix: Pass viewer options that have no placeholder

Options of an image viewer were dropped unless they had '{}' in them.
---
 ade/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/image.py b/ade/image.py
index 6d950fd..91fb47d 100644
--- a/ade/image.py
+++ b/ade/image.py
@@ -150,7 +150,7 @@ class ImageViewer(object):
                 for arg in ex[1:]:
                     if "{}" in arg:
                         arg = arg.replace("{}", os.path.basename(fp.path))
-                        args.append(arg)
+                    args.append(arg)
                 args.append(fp.path)
                 self.transport = reactor.spawnProcess(
                     self.ivp, exPath, args, env=None)
-- 
2.43.0


From 5b66260e3cc9beaf08af32e8503d2c50ecc13ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:46 +0000
Subject: [PATCH 46/56] fix: Do not append a dot to plot file names without an
 extension

---
 ade/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index cca0162..d2c1676 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -321,8 +321,8 @@ class Analysis(object):
             count += 1
             self.fileSpec[3] = count
             fileName = sub(
-                "{}-{:d}.{}", baseName, count, ext) if count > 1 else sub(
-                    "{}.{}", baseName, ext)
+                "{}-{:d}", baseName, count) if count > 1 else baseName
+            if ext: fileName = sub("{}.{}", fileName, ext)
             return os.path.join(directory, fileName), width, height
         directory, fileName = os.path.split(baseFilePath)
         baseName, ext = os.path.splitext(fileName)
-- 
2.43.0


From dad36704a11cfd8d2c03c6d871e1f3ea9c614ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:46 +0000
Subject: [PATCH 47/56] fix: Keep figures that have not been shown yet

There are only weak references to the figures being plotted, so of several
figures all but the last could vanish before being shown.
---
 ade/history.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ade/history.py b/ade/history.py
index d2c1676..642d4e7 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -98,6 +98,7 @@ class Analysis(object):
         (1.01, '.', 0.0),
     )
     fileSpec = None
+    plotters = []
     defaultWidth = 12.0 # 1200 pixels default, for PNG plots
     
     def __init__(self, names, X, K, Kp=set(), Kn=set(), baseFilePath=None):
@@ -358,6 +359,10 @@ class Analysis(object):
         if height: kw['height'] = height
         pt = Plotter(*args, **kw)
         pt.use_grid()
+        # Plotter only has weak references to its instances, so keep
+        # those around that haven't been shown yet
+        self.plotters = [
+            x for x in self.plotters if x.ID in x.ph.pDict] + [pt]
         return pt
     
     def plot(self, names, **kw):
-- 
2.43.0


From c9ed7fe9b9718d046836464af54ac08a62d7d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:46 +0000
Subject: [PATCH 48/56] fix: Accept the sp keyword of Analysis.plot

The subplotter was looked for under the name 'kw', and only the first of its
subplots was set up.
---
 ade/history.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 642d4e7..20934ae 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -418,7 +418,7 @@ class Analysis(object):
         noShow = kw.pop('noShow', False)
         semilog = kw.pop('semilog', False)
         dims = kw.pop('dims', None)
-        sp = kw.pop('kw', None)
+        sp = kw.pop('sp', None)
         names = self.args2names(names)
         inPop = kw.get('inPop', False)
         kw['inPop'] = True
@@ -435,8 +435,9 @@ class Analysis(object):
         N = len(XYp) - 1
         kList = list(range(N))
         if sp is not None:
-            setup(sp)
-            doSubplots(sp, kList)
+            for k in kList:
+                setup(sp)
+                doSubplots(sp, [k])
             return
         while kList:
             N = self.pick_N(kList)
-- 
2.43.0


From 3d24d756be691a0c7d2087929d7f4fd370afc85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:46 +0000
Subject: [PATCH 49/56] fix: Plot all pairs when more are requested than there
 are

Correlation plots failed when the number requested exceeded the number of
pairs, as that was a float.
---
 ade/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index 20934ae..25391fa 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -523,7 +523,7 @@ class Analysis(object):
             your convenience.
         """
         Np = self.X.shape[1] - 1
-        Ncombos = Np*(Np-1)/2
+        Ncombos = Np-1 if name else Np*(Np-1)//2
         if Ncombos == 0: return
         if Ncombos < N: N = Ncombos
         pt = self.makePlotter(N, dims=dims)
-- 
2.43.0


From 6e19aea3bce2de5249c1fe5fc0cbce7f1c401bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:46 +0000
Subject: [PATCH 50/56] fix: Correlate the named parameter with every other one

A pair was only considered if the named parameter came first in it.
---
 ade/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index 25391fa..2b24c51 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -531,7 +531,8 @@ class Analysis(object):
             count = 0
             for stuff in self.correlator():
                 k1, k2, R = stuff
-                if name and name != self.k2name(k1): continue
+                if name and name not in (self.k2name(k1), self.k2name(k2)):
+                    continue
                 corr = sub("R={:+.3f}", R)
                 sp.add_textBox("SE" if R > 0 else "NE", corr)
                 xName, yName, m, b = self.plotXY(k1, k2, sp)
-- 
2.43.0


From 55a08a5882660c6dfb957e5b3578c12b619beaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:22 +0000
Subject: [PATCH 51/56] fix: Release locks after a challenge failed

A constraint that raised an exception ended the run with the lock of its
target still held. Another run of the same population then never ended.
---
 ade/de.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ade/de.py b/ade/de.py
index f19e5d3..d8aa796 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -612,6 +612,8 @@ class DifferentialEvolution(object):
                 self.dChallenges = None
                 if result is None or self.p.running is False:
                     self.shutdown()
+                    # A challenge that failed still has its target locked
+                    self.p.release()
             if not self.running: break
             stopped = False
             if self.goalSSE and self.p.best() < self.goalSSE:
-- 
2.43.0


From 73e8b450f10f8ae64d60f74bd3357012a3d06bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:15 +0000
Subject: [PATCH 52/56] fix: pickle every public attribute of Picklable objects

An attribute of an instance that has the same name as one of its class
was left out of the pickled state, as were slots of base classes and,
for objects with slots, everything set besides them.
---
 ade/util.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ade/util.py b/ade/util.py
index e7c4b39..bf542b8 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -81,14 +81,12 @@ class Picklable(object):
     """
     def __getstate__(self):
         state = {}
-        dirClass = dir(self.__class__)
-        if '__slots__' in dirClass:
-            for name in self.__slots__:
+        for cls in self.__class__.__mro__:
+            for name in getattr(cls, '__slots__', ()):
                 if hasattr(self, name):
                     state[name] = getattr(self, name)
-            return state
-        for name in dir(self):
-            if name.startswith('_') or name in dirClass:
+        for name in vars(self):
+            if name.startswith('_'):
                 continue
             state[name] = getattr(self, name)
         return state
-- 
2.43.0


From b961b013b5cd5d18832c6066d751763d32b8a09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:04 +0000
Subject: [PATCH 53/56] fix: Make lgg importable

Its patterns had an escape that Python 3.7 and later reject.
---
 ade/scripts/lgg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index 5d6b1d6..a7c0c8a 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -100,7 +100,7 @@ class RowManager(object):
         for k, name in enumerate(self.names):
             self.indices[name] = k
             self.rp[name] = re.compile(sub(
-                r'(^|\s){}\=([\+\-]?[0-9][0-9\.e\E\-\+]*)(\**)(\s|\>|$)', name))
+                r'(^|\s){}\=([\+\-]?[0-9][0-9\.eE\-\+]*)(\**)(\s|\>|$)', name))
         self.SSE = []
         self.values = []
         self.stars = []
@@ -207,7 +207,7 @@ class Grepper(object):
     reSSE = re.compile(r'SSE\=([\d\.eE\-\+]+)')
     reParam = re.compile(
         r'(^|\s)([a-zA-Z]+[_a-zA-Z0-9]*)\='+\
-        r'([\+\-]?[0-9][0-9\.e\E\-\+]*)(\**)(\s|\>|$)')
+        r'([\+\-]?[0-9][0-9\.eE\-\+]*)(\**)(\s|\>|$)')
 
     def __init__(self, filePath, args):
         self.filePath = filePath
-- 
2.43.0


From aa25da737b42208734b0cf07483b1a9700f93149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:04 +0000
Subject: [PATCH 54/56] fix: Consider differences of negative values in lgg

The relative difference from a negative value was negative, thus never enough.
---
 ade/scripts/lgg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index a7c0c8a..b00b927 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -177,7 +177,7 @@ class RowManager(object):
         def diffEnough(a, b):
             if b == 0:
                 return abs(a) > maxDiff
-            return abs(a-b)/b > maxDiff
+            return abs(a-b)/abs(b) > maxDiff
         
         K = np.argsort(self.SSE)
         bestSSE = np.min(self.SSE)
-- 
2.43.0


From a0e22c82b0647c9745bbed237b9fd66d5c860d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:04 +0000
Subject: [PATCH 55/56] fix: Show the best entries in lgg when there are too
 many

The rows left out were the best ones.
---
 ade/scripts/lgg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index b00b927..db88dff 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -191,7 +191,7 @@ class RowManager(object):
                         break
                 else: continue
             KS.append(k)
-        KS = list(reversed(KS[-maxRows:]))
+        KS = list(reversed(KS[:maxRows]))
         self.SSE = self.SSE[KS]
         self.values = self.values[KS]
         self.stars = self.stars[KS]
-- 
2.43.0


From 637b25c018b8e616facce9956f3e2cbabc136136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:04 +0000
Subject: [PATCH 56/56] fix: Have lgg understand ranges of parameters

A documented range such as x1-3 matched no name and showed nothing.
---
 ade/scripts/lgg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index db88dff..be8940d 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -317,10 +317,13 @@ class Grepper(object):
     def globNames(self, pattern):
         """
         Looks at the first SSE entry of the log file and identifies all
-        names that match the glob I{pattern}.
+        names that match the glob I{pattern} or are in the range it
+        specifies.
         """
         for SSE, pd in self.filerator():
-            return fnmatch.filter(sorted(pd.keys()), pattern)
+            names = fnmatch.filter(sorted(pd.keys()), pattern)
+            if names: return names
+            return [x for x in RowManager([pattern]).names if x in pd]
     
     def load(self):
         """
-- 
2.43.0

