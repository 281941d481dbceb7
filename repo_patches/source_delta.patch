From 909f335d4190f9a3e83b8c05832c2c990bf6ca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:59 +0000
Subject: [PATCH 001/144] fix: keep the main file as original_filename after
 reading INCLUDE/DEFAULT files

---
 python/getdist/inifile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 7d38a7e..28dfe5d 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -117,6 +117,8 @@ class IniFile:
                         self.readFile(ffile, if_not_defined=True)
                     else:
                         self.readFile(os.path.join(os.path.dirname(filename), ffile), if_not_defined=True)
+                # reading the inherited files must not change which file these settings belong to
+                self.original_filename = filename
 
             return self.params
         except:
-- 
2.43.0


From 359b5e3ac625ea2d08ae6cf1ae17a669ea153a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:59 +0000
Subject: [PATCH 002/144] fix: IniFile.bool_list parses T/F entries rather than
 treating any text as True

---
 python/getdist/inifile.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 28dfe5d..ec163df 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -233,6 +233,16 @@ class IniFile:
         if comment:
             self.comments[name] = comment
 
+    @staticmethod
+    def _as_bool(s, name):
+        if isinstance(s, bool):
+            return s
+        if s[0] == 'T':
+            return True
+        elif s[0] == 'F':
+            return False
+        raise IniError('parameter does not have valid T(rue) or F(alse) boolean value: ' + name)
+
     def bool(self, name, default=False):
         """
         Get boolean value
@@ -241,14 +251,7 @@ class IniFile:
         :param default: default value if not set
         """
         if self.isSet(name):
-            s = self.params[name]
-            if isinstance(s, bool):
-                return s
-            if s[0] == 'T':
-                return True
-            elif s[0] == 'F':
-                return False
-            raise IniError('parameter does not have valid T(rue) or F(alse) boolean value: ' + name)
+            return self._as_bool(self.params[name], name)
         elif default is not None:
             return default
         else:
@@ -264,7 +267,7 @@ class IniFile:
 
         if not default:
             default = []
-        return self.split(name, default, tp=bool)
+        return self.split(name, default, tp=lambda x: self._as_bool(x, name))
 
     def string(self, name, default=None, allowEmpty=True):
         """
-- 
2.43.0


From 05facb3665c0b75a3dab184133f06639c931b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:59 +0000
Subject: [PATCH 003/144] fix: save list-valued ini settings as space-separated
 values so that they can be read back

---
 python/getdist/inifile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index ec163df..e4b68b7 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -149,6 +149,8 @@ class IniFile:
                 return value
             if type(value) == bool:
                 return str(value)[0]
+            if isinstance(value, (list, tuple, np.ndarray)):
+                return " ".join(asIniText(x) for x in value)
             return str(value)
 
         parameterLines = []
-- 
2.43.0


From e2d21b50bb2a7041e599cc3fec70b8573cb260e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:25 +0000
Subject: [PATCH 004/144] fix: decode the output of the queue commands (job ids
 and queue listings were "b'...'" text on Python 3)

---
 python/paramgrid/jobqueue.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 6d316be..1328d66 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -72,7 +72,7 @@ class jobSettings(object):
             grid_engine = 'MOAB'
         else:
             try:
-                help_info = str(subprocess.check_output('qstat -help', shell=True)).strip()
+                help_info = subprocess.check_output('qstat -help', shell=True, universal_newlines=True).strip()
                 if 'OGS/GE' in help_info: grid_engine = 'OGS'  # Open Grid Scheduler, as on StarCluster
             except:
                 pass
@@ -307,7 +307,8 @@ def submitJob(jobName, paramFiles, sequential=False, msg=False, **kwargs):
         if len(paramFiles) > 1:
             open(scriptRoot + '.batch', 'w').write("\n".join(paramFiles))
         if not kwargs.get('no_sub', False):
-            res = str(subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True)).strip()
+            res = subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True,
+                                          universal_newlines=True).strip()
             if not res:
                 print('No qsub output')
             else:
@@ -330,11 +331,11 @@ def queue_job_details(batchPath=None, running=True, queued=True, warnNotBatch=Tr
         print('No existing job index found')
         return []
     if spawn.find_executable("showq") is not None:
-        res = str(subprocess.check_output('showq -U $USER', shell=True)).strip()
+        res = subprocess.check_output('showq -U $USER', shell=True, universal_newlines=True).strip()
         runningTxt = ' Running '
     else:
         # e.g. Sun Grid Engine/OGS
-        res = str(subprocess.check_output('qstat -u $USER', shell=True)).strip()
+        res = subprocess.check_output('qstat -u $USER', shell=True, universal_newlines=True).strip()
         runningTxt = ' r '
     res = res.split("\n")
     names = []
-- 
2.43.0


From 3db0da4b38ceede8101366d0ad45e90894583ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:25 +0000
Subject: [PATCH 005/144] fix: deleting a job from the index must not affect a
 later job with the same job or chain name

---
 python/paramgrid/jobqueue.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 1328d66..f60c726 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -150,11 +150,16 @@ class jobIndex(object):
         if jobId is not None:
             j = self.jobSettings.get(jobId)
             if j is not None:
-                for rootname in j.names:
-                    del (self.rootNames[rootname])
                 del (self.jobSettings[jobId])
-                del (self.jobNames[j.jobName])
                 self.jobSequence = [s for s in self.jobSequence if s != jobId]
+                # names may also have been (re)submitted in other jobs, so map to the latest remaining one
+                self.jobNames = dict()
+                self.rootNames = dict()
+                for otherId in self.jobSequence:
+                    other = self.jobSettings[otherId]
+                    self.jobNames[other.jobName] = otherId
+                    for rootname in other.names:
+                        self.rootNames[rootname] = otherId
 
 
 def loadJobIndex(batchPath, must_exist=False):
-- 
2.43.0


From d9709b60b0ae3236a75a418d05b62ce4d500a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:25 +0000
Subject: [PATCH 006/144] fix: replace the saved job index atomically, so a
 crash while saving cannot lose it

---
 python/paramgrid/jobqueue.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index f60c726..bc1eb88 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -179,8 +179,11 @@ def saveJobIndex(obj, batchPath=None):
     with open(fname + '_tmp', 'wb') as output:
         pickle.dump(obj, output, pickle.HIGHEST_PROTOCOL)
     # try to prevent corruption from error mid-write
-    if os.path.exists(fname): os.remove(fname)
-    shutil.move(fname + '_tmp', fname)
+    if hasattr(os, 'replace'):
+        os.replace(fname + '_tmp', fname)
+    else:
+        if os.path.exists(fname): os.remove(fname)
+        shutil.move(fname + '_tmp', fname)
 
 
 def addJobIndex(batchPath, j):
-- 
2.43.0


From 7cc9fe366ff0d34aba678155f3d22703def21c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:32 +0000
Subject: [PATCH 007/144] fix: cached samples must not keep settings of an
 earlier load, or hide removed, added or restored files

---
 python/getdist/mcsamples.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 78da13a..7587784 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -74,25 +74,33 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
         os.mkdir(path)
     cachefile = os.path.join(path, cache_name) + '.py_mcsamples'
     samples = MCSamples(file_root, jobItem=jobItem, ini=ini, settings=settings)
-    if os.path.isfile(file_root + '.paramnames'):
-        allfiles = files + [file_root + '.ranges', file_root + '.paramnames', file_root + '.properties.ini']
-    else:  # Cobaya
-        folder = os.path.dirname(file_root)
+    allfiles = files + [file_root + '.ranges', file_root + '.paramnames', file_root + '.properties.ini']
+    if not os.path.isfile(file_root + '.paramnames'):  # Cobaya
+        folder = os.path.dirname(file_root) or '.'
         prefix = os.path.basename(file_root)
-        allfiles = files + [
+        allfiles += [
             os.path.join(folder, f) for f in os.listdir(folder) if (
                     f.startswith(prefix) and
                     any(f.lower().endswith(end) for end in ['updated.yaml', 'full.yaml']))]
-    if not no_cache and os.path.exists(cachefile) and last_modified(allfiles) < os.path.getmtime(cachefile):
+    # the cache is only valid for exactly these files (e.g. not if one was removed, or replaced by an older one)
+    file_stamps = {os.path.basename(f): (os.path.getmtime(f), os.path.getsize(f)) for f in allfiles if
+                   os.path.exists(f)}
+    if not no_cache and files and os.path.exists(cachefile) and last_modified(allfiles) < os.path.getmtime(cachefile):
         try:
             with open(cachefile, 'rb') as inp:
                 cache = pickle.load(inp)
             if cache.version == pickle_version and samples.ignore_rows == cache.ignore_rows \
-                    and samples.min_weight_ratio == cache.min_weight_ratio:
-                changed = len(samples.contours) != len(cache.contours) or \
-                          np.any(np.array(samples.contours) != np.array(cache.contours))
-                cache.updateSettings(ini=ini, settings=settings, doUpdate=changed)
-                return cache
+                    and samples.min_weight_ratio == cache.min_weight_ratio \
+                    and getattr(cache, 'file_stamps', None) == file_stamps:
+                # only the samples are taken from the cache: ranges and settings must be those of this call
+                for par, value in cache.ranges.fixedValueDict().items():
+                    if not cache.paramNames.parWithName(par):
+                        samples.ranges.setFixed(par, value)
+                samples.paramNames = cache.paramNames
+                samples.name_tag = cache.name_tag
+                samples.setSamples(cache.samples, cache.weights, cache.loglikes, min_weight_ratio=-1)
+                samples.chain_offsets = cache.chain_offsets
+                return samples.updateBaseStatistics()
         except Exception:
             pass
     if not len(files):
@@ -102,6 +110,7 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
         if os.path.exists(cachefile):
             os.remove(cachefile)
     else:
+        samples.file_stamps = file_stamps
         samples.savePickle(cachefile)
     return samples
 
-- 
2.43.0


From 1775bdee5495b2dc515f7c40dffa67de0cc1f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:32 +0000
Subject: [PATCH 008/144] fix: chain files can be found with a root name that
 has no directory

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 1a8507c..66a439c 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -98,7 +98,7 @@ def chainFiles(root, chain_indices=None, ext='.txt', separator="_",
         basename = os.path.basename(root)
         reg_exp = re.compile(re.escape(basename) + '(' + re.escape(separator) + '(?P<num>[0-9]+))?' + re.escape(ext))
     files = []
-    for f in os.listdir(folder):
+    for f in os.listdir(folder or '.'):
         match = reg_exp.fullmatch(f)
         if match:
             index = int(match.group("num") or 0)
-- 
2.43.0


From b34b545bc4d03e47898a4dbd70b2f5a29ae1a37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:44 +0000
Subject: [PATCH 009/144] fix: chain files are used in order of chain number,
 whatever the directory listing order

---
 python/getdist/chains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 66a439c..4077532 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -105,8 +105,9 @@ def chainFiles(root, chain_indices=None, ext='.txt', separator="_",
             if (chain_indices is None or index in chain_indices) \
                     and (chain_exclude is None or index not in chain_exclude) \
                     and index >= first_chain and (last_chain < 0 or index <= last_chain):
-                files.append(os.path.join(folder, f))
-    return files
+                files.append((index, os.path.join(folder, f)))
+    # in order of chain number, not of (arbitrary) directory listing
+    return [f for _, f in sorted(files)]
 
 
 def hasChainFiles(file_root, ext='.txt'):
-- 
2.43.0


From bff0f5607fc9576255f7c90974e24c75e2e415fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:30 +0000
Subject: [PATCH 010/144] fix: variance of a list of parameters must use the
 where filter

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 4077532..06dd9c6 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -678,7 +678,7 @@ class WeightedSamples:
         :return: parameter variance
         """
         if isinstance(paramVec, (list, tuple)):
-            return np.array([self.var(p) for p in paramVec])
+            return np.array([self.var(p, where) for p in paramVec])
         if where is not None:
             return np.dot(self.mean_diff(paramVec, where) ** 2, self.weights[where]) / self.get_norm(where)
         else:
-- 
2.43.0


From b613390f33ad70d9a0ed5e1ba767eb3005b041a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:30 +0000
Subject: [PATCH 011/144] fix: separate chains can be recovered when there are
 no likelihoods

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 06dd9c6..41e6c83 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1469,7 +1469,7 @@ class Chains(WeightedSamples):
         else:
             for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
                 chainlist.append(WeightedSamples(samples=self.samples[off1:off2], weights=self.weights[off1:off2],
-                                                 loglikes=self.loglikes[off1:off2]))
+                                                 loglikes=slice_or_none(self.loglikes, off1, off2)))
         return chainlist
 
     def removeBurnFraction(self, ignore_frac):
-- 
2.43.0


From e0db3ddb4c82b61c867602800f174c896fd36f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:30 +0000
Subject: [PATCH 012/144] fix: chain offsets of combined samples follow
 filtering by index, thinning, burn removal and reloading

---
 python/getdist/chains.py | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 41e6c83..7f2492c 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1141,14 +1141,40 @@ class Chains(WeightedSamples):
         if self.chains is None:
             if self.chain_offsets is not None:
                 # must update chain_offsets to be able to correctly split back into separate filtered chains if needed
-                lens = [0]
-                for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
-                    lens.append(np.count_nonzero(where[off1:off2]))
-                self.chain_offsets = np.cumsum(np.array(lens))
+                self._updateChainOffsets(np.arange(self.samples.shape[0])[where])
             super().filter(where)
         else:
             raise ValueError('chains are separated, makeSingle first or call filter on individual chains')
 
+    def _updateChainOffsets(self, keep):
+        # keep is the array of (old) row numbers of the combined samples that are kept
+        if self.chain_offsets is not None:
+            if np.all(keep[1:] >= keep[:-1]):
+                self.chain_offsets = np.searchsorted(keep, self.chain_offsets)
+            else:
+                # rows of different chains may be mixed, so can no longer separate
+                self.chain_offsets = None
+
+    def thin(self, factor: int):
+        """
+        Thin the samples by the given factor, giving set of samples with unit weight
+
+        :param factor: The factor to thin by
+        """
+        self._updateChainOffsets(self.thin_indices(factor))
+        super().thin(factor)
+
+    def removeBurn(self, remove=0.3):
+        """
+        removes burn in from the start of the samples
+
+        :param remove: fraction of samples to remove, or if int >1, the number of sample rows to remove
+        """
+        if self.chain_offsets is not None:
+            ix = int(remove) if remove >= 1 else int(round(self.numrows * remove))
+            self.chain_offsets = np.maximum(self.chain_offsets - ix, 0)
+        super().removeBurn(remove)
+
     def weighted_thin(self, factor: int):
         """
         Thin the samples by the given factor, giving (in general) non-unit integer weights.
@@ -1335,6 +1361,7 @@ class Chains(WeightedSamples):
         :return: True if loaded successfully, False if none loaded
         """
         self.chains = []
+        self.chain_offsets = None
         self.samples = None
         self.weights = None
         self.loglikes = None
-- 
2.43.0


From 9ccc346d694592afa15ce894cb18fcbafe907691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:30 +0000
Subject: [PATCH 013/144] fix: reweighting must not change arrays shared with
 the caller or with other samples

---
 python/getdist/chains.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 7f2492c..352be10 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -962,9 +962,8 @@ class WeightedSamples:
         """
         scale = np.min(logLikes)
         if self.loglikes is not None:
-            self.loglikes += logLikes
-        self.weights = np.asarray(self.weights, dtype=np.float64)
-        self.weights *= np.exp(-(logLikes - scale))
+            self.loglikes = self.loglikes + logLikes
+        self.weights = np.asarray(self.weights, dtype=np.float64) * np.exp(-(logLikes - scale))
         self._weightsChanged()
 
     def cool(self, cool):
@@ -975,8 +974,8 @@ class WeightedSamples:
         """
         MaxL = np.max(self.loglikes)
         newL = self.loglikes * cool
-        self.weights = np.asarray(self.weights, dtype=np.float64)
-        self.weights *= np.exp(-(newL - self.loglikes) - (MaxL * (1 - cool)))
+        self.weights = np.asarray(self.weights, dtype=np.float64) \
+                       * np.exp(-(newL - self.loglikes) - (MaxL * (1 - cool)))
         self.loglikes = newL
         self._weightsChanged()
 
-- 
2.43.0


From b624df52a8cdc899153e8604678f256fcd54d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:30 +0000
Subject: [PATCH 014/144] fix: statistics, covariance and correlated pairs are
 not stale or missing after samples change

---
 python/getdist/mcsamples.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 7587784..d9fb396 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -588,7 +588,7 @@ class MCSamples(Chains):
         :return: A :class:`~.covmat.CovMat` object holding the covariance
         """
         nparamNonDerived = self.paramNames.numNonDerived()
-        return covmat.CovMat(matrix=self.fullcov[:nparamNonDerived, :nparamNonDerived],
+        return covmat.CovMat(matrix=self.getCov(nparamNonDerived),
                              paramNames=self.paramNames.list()[:nparamNonDerived])
 
     def writeCovMatrix(self, filename=None):
@@ -2140,6 +2140,8 @@ class MCSamples(Chains):
                  result.names[i].ND_limit_top, result.names[i].ND_limit_bot, and best-fit sample value
                  in result.names[i].bestfit_sample
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         return self.likeStats or self._setLikeStats()
 
     def getTable(self, columns=1, include_bestfit=False, **kwargs):
@@ -2212,6 +2214,8 @@ class MCSamples(Chains):
         :param max_frac_twotail: optional override for self.max_frac_twotail
         :param meanlikes: include mean likelihoods
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         if self.done_1Dbins:
             return
 
@@ -2302,7 +2306,7 @@ class MCSamples(Chains):
         try_t = 1e5
         x, y = 0, 0
         cust2DPlots = []
-        correlationMatrix = self.correlationMatrix
+        correlationMatrix = self.getCorrelationMatrix()
         for _ in range(num_plots):
             try_b = -1e5
             for ix1 in range(nparam):
-- 
2.43.0


From 6499cfc13731d6f5f75061f887e21f53dda476f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:30 +0000
Subject: [PATCH 015/144] fix: a parameter that varies in any chain is not
 fixed

---
 python/getdist/chains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 352be10..2def798 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1521,8 +1521,10 @@ class Chains(WeightedSamples):
             fixed, values = super().deleteFixedParams()
             self.chains = None
         else:
-            fixed, values = self.chains[0].deleteFixedParams()
-            for chain in self.chains[1:]:
+            # parameters are only fixed if they are the same in all the chains
+            fixed, values = WeightedSamples(samples=np.vstack([chain.samples for chain in self.chains])) \
+                .deleteFixedParams()
+            for chain in self.chains:
                 chain.changeSamples(np.delete(chain.samples, fixed, 1))
         if hasattr(self, 'ranges'):
             for ix, value in zip(fixed, values):
-- 
2.43.0


From 7ddfa51bd9b5507046994b537b93e2f523aaea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:30 +0000
Subject: [PATCH 016/144] fix: N-D confidence region contains at least the
 best-fit sample

---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index d9fb396..11a61d8 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2034,7 +2034,8 @@ class MCSamples(Chains):
         # get N-dimensional confidence region
         indexes = self.loglikes.argsort()
         cumsum = np.cumsum(self.weights[indexes])
-        m.ND_cont1, m.ND_cont2 = np.searchsorted(cumsum, self.norm * self.contours[0:2])
+        # regions contain at least the best-fit sample
+        m.ND_cont1, m.ND_cont2 = np.maximum(1, np.searchsorted(cumsum, self.norm * self.contours[0:2]))
         for j, par in enumerate(self.paramNames.names):
             region1 = self.samples[indexes[:m.ND_cont1], j]
             region2 = self.samples[indexes[:m.ND_cont2], j]
-- 
2.43.0


From a7d24cf4d82d1029c90f7153afd9581288de9450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:30 +0000
Subject: [PATCH 017/144] fix: saveAsText with a name ending in .txt writes
 that file

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 2def798..8bb36cd 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1047,7 +1047,7 @@ class WeightedSamples:
         if make_dirs and not os.path.exists(os.path.dirname(root)):
             os.makedirs(os.path.dirname(root))
         if root.endswith('.txt'):
-            root = root[:-3]
+            root = root[:-4]
         # noinspection PyTypeChecker
         np.savetxt(root + ('' if chain_index is None else '_' + str(chain_index + 1)) + '.txt',
                    np.hstack((self.weights.reshape(-1, 1), loglikes.reshape(-1, 1), self.samples)),
-- 
2.43.0


From 0f77308cac03232abb8fb47aa1c2dbeb3c46227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:30 +0000
Subject: [PATCH 018/144] fix: writeThinData writes the selected samples, one
 per line

---
 python/getdist/mcsamples.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 11a61d8..983a425 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -563,21 +563,18 @@ class MCSamples(Chains):
             logging.info('Cooled thinned output with temp: %s', cool)
         MaxL = np.max(self.loglikes)
         with open(fname, 'w', encoding='utf-8') as f:
-            i = 0
             for thin in thin_ix:
                 if cool != 1:
                     newL = self.loglikes[thin] * cool
                     f.write("%16.7E" % (
                         np.exp(-(newL - self.loglikes[thin]) - MaxL * (1 - cool))))
                     f.write("%16.7E" % newL)
-                    for j in range(nparams):
-                        f.write("%16.7E" % (self.samples[i][j]))
                 else:
-                    f.write("%f" % 1.)
-                    f.write("%f" % (self.loglikes[thin]))
-                    for j in range(nparams):
-                        f.write("%16.7E" % (self.samples[i][j]))
-                i += 1
+                    f.write("%16.7E" % 1.)
+                    f.write("%16.7E" % (self.loglikes[thin]))
+                for j in range(nparams):
+                    f.write("%16.7E" % (self.samples[thin][j]))
+                f.write("\n")
         print('Wrote ', len(thin_ix), ' thinned samples')
 
     def getCovMat(self):
-- 
2.43.0


From bdb4dcf9416198278f2a3ab332093f78aa855807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:04 +0000
Subject: [PATCH 019/144] fix: thinning never selects a sample with zero weight

---
 python/getdist/chains.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 8bb36cd..7054650 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -873,9 +873,11 @@ class WeightedSamples:
             raise WeightedSampleError('Thin factor must be integer')
         factor = int(factor)
         if factor >= np.max(weights):
-            cumsum = np.cumsum(weights) // factor
+            nonzero = np.flatnonzero(weights)
+            cumsum = np.cumsum(weights[nonzero]) // factor
             # noinspection PyTupleAssignmentBalance
             _, thin_ix = np.unique(cumsum, return_index=True)
+            thin_ix = nonzero[thin_ix]
         else:
             tot = 0
             i = 0
-- 
2.43.0


From e0d706dc5e3bb6c3c96f3db903b6eba7ec9bc92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:32 +0000
Subject: [PATCH 020/144] fix: convergence tests, PCA, sample summary and
 single samples use the current samples after a change

---
 python/getdist/mcsamples.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 983a425..4f1348b 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -533,6 +533,8 @@ class MCSamples(Chains):
         :param random_state: random seed or Generator
         :return: numpy array of selected weight-1 samples if no filename
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         if single_thin is None:
             single_thin = max(1, self.norm / self.max_mult / self.max_scatter_points)
         random_state = np.random.default_rng(random_state)
@@ -639,6 +641,8 @@ class MCSamples(Chains):
         :param n_best_only: return just the short summary constraint for the tightest n_best_only constraints
         :return: a string description of the output of the PCA
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         logging.info('Doing PCA for %s parameters', len(params))
         if len(conditional_params):
             logging.info('conditional %u fixed parameters', len(conditional_params))
@@ -822,6 +826,8 @@ class MCSamples(Chains):
 
         :return: The summary text as a string.
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         lines = 'using %s rows, %s parameters; mean weight %s, tot weight %s\n' % (
             self.numrows, self.paramNames.numParams(), self.mean_mult, self.norm)
         if self.indep_thin != 0:
@@ -851,6 +857,8 @@ class MCSamples(Chains):
         :param feedback: If set to True, Prints the output as well as returning it.
         :return: text giving the output of the tests
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         lines = ''
         nparam = self.n
 
-- 
2.43.0


From 125a8c4f5eeea4a0b2a0534be33c18c63c3e1eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:32 +0000
Subject: [PATCH 021/144] fix: samples with no rows (e.g. a chain that is
 entirely filtered out) can be separated

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 7054650..ba62bd6 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -994,7 +994,7 @@ class WeightedSamples:
 
         :param min_weight_ratio: minimum ratio to max to exclude
         """
-        if self.weights is not None and min_weight_ratio >= 0:
+        if self.weights is not None and len(self.weights) and min_weight_ratio >= 0:
             max_weight = np.max(self.weights)
             min_weight = np.min(self.weights)
             if min_weight < max_weight * min_weight_ratio:
-- 
2.43.0


From 1b38551550fedbcf1a6df0ea8026c5d87f768685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:58 +0000
Subject: [PATCH 022/144] fix: thinning combined chains works when one of the
 chains has no rows left

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index ba62bd6..d38585d 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -872,7 +872,7 @@ class WeightedSamples:
         if factor != int(factor):
             raise WeightedSampleError('Thin factor must be integer')
         factor = int(factor)
-        if factor >= np.max(weights):
+        if factor >= np.max(weights, initial=0):
             nonzero = np.flatnonzero(weights)
             cumsum = np.cumsum(weights[nonzero]) // factor
             # noinspection PyTupleAssignmentBalance
-- 
2.43.0


From e3408802490a63939868a5e3c8a51799aea64cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:06 +0000
Subject: [PATCH 023/144] fix: chain files with no samples (after ignored rows)
 are skipped also when reading with pandas

---
 python/getdist/chains.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index d38585d..096db6c 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -128,8 +128,11 @@ def loadNumpyTxt(fname, skiprows=None):
     """
     try:
         if pandas:
-            return pandas.read_csv(fname, delim_whitespace=True, header=None, dtype=np.float64,
-                                   skiprows=skiprows, comment='#').values
+            try:
+                return pandas.read_csv(fname, delim_whitespace=True, header=None, dtype=np.float64,
+                                       skiprows=skiprows, comment='#').values
+            except pandas.errors.EmptyDataError:
+                return np.empty((0, 0))
         else:
             global _pandas_suggestion
             if _pandas_suggestion:
-- 
2.43.0


From 40ba50899e53b0640b22ad4c92564b99e63e232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:06 +0000
Subject: [PATCH 024/144] fix: ignore_rows can be a fraction when samples are
 loaded without analysis settings, as documented

---
 python/getdist/chains.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 096db6c..a02fa15 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -232,6 +232,8 @@ class WeightedSamples:
 
         self.precision = '%.8e'
         self.min_weight_ratio = min_weight_ratio
+        ignore_frac = ignore_rows if 0 < ignore_rows < 1 else 0
+        ignore_rows = int(ignore_rows)
         if filename:
             cols = loadNumpyTxt(filename, skiprows=ignore_rows)
             if not len(cols):
@@ -246,6 +248,8 @@ class WeightedSamples:
             if samples is not None and int(ignore_rows):
                 if print_load_details:
                     print('Removed %s lines as burn in' % ignore_rows)
+        if ignore_frac and self.samples is not None:
+            self.removeBurn(ignore_frac)
         self.label = label
         self.needs_update = True
 
@@ -1406,9 +1410,11 @@ class Chains(WeightedSamples):
             dim = array_dimension(files_or_samples)
             if dim in [1, 2]:
                 self.chains = None
-                self.setSamples(slice_or_none(files_or_samples, ignore_lines),
-                                slice_or_none(weights, ignore_lines),
-                                slice_or_none(loglikes, ignore_lines), self.min_weight_ratio)
+                self.setSamples(slice_or_none(files_or_samples, int(ignore_lines)),
+                                slice_or_none(weights, int(ignore_lines)),
+                                slice_or_none(loglikes, int(ignore_lines)), self.min_weight_ratio)
+                if 0 < ignore_lines < 1:
+                    self.removeBurn(ignore_lines)
                 if self.paramNames is None:
                     self.paramNames = ParamNames(default=self.n)
                 nchains = 1
-- 
2.43.0


From 18f4bdfd093375fa2fe76c2be9bd750ebdf98fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:06 +0000
Subject: [PATCH 025/144] fix: ParamInfo.nameEquals compares with its own name

---
 python/getdist/paramnames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index b25ba5e..7d19f25 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -90,9 +90,9 @@ class ParamInfo:
 
     def nameEquals(self, name):
         if isinstance(name, ParamInfo):
-            return name.name == name
+            return self.name == name.name
         else:
-            return name == name
+            return self.name == name
 
     def setFromString(self, line):
         items = line.split(None, 1)
-- 
2.43.0


From 2a4c5fe1c4a24afa9991c7e3b41cfb33976d42ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:06 +0000
Subject: [PATCH 026/144] fix: parameter renames: a name always finds its own
 parameter first, merging is deterministic and allows tuples

---
 python/getdist/paramnames.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index 7d19f25..2e367c4 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -38,7 +38,7 @@ def mergeRenames(*dicts, **kwargs):
     keep_names_1st = kwargs.pop("keep_names_1st", False)
     if kwargs:
         raise ValueError("kwargs not recognized: %r" % kwargs)
-    sets = list(chain(*[[set([k] + (makeList(v or [])))
+    sets = list(chain(*[[set([k] + list(makeList(v or [])))
                          for k, v in dic.items()] for dic in dicts]))
     # If two sets have elements in common, join them.
     something_changed = True
@@ -59,9 +59,9 @@ def mergeRenames(*dicts, **kwargs):
         for dic in dicts:
             p = set(dic).intersection(params)
             if p and (params != p or keep_names_1st):
-                key = p.pop()
+                key = next(k for k in dic if k in p)
                 params.remove(key)
-                merged[key] = list(params)
+                merged[key] = sorted(params)
                 break
     return merged
 
@@ -232,12 +232,15 @@ class ParamList:
                         to the stored names
         """
         self._check_name_str(name)
+        for par in self.names:
+            if par.name == name:
+                return par
         given_names = {name}
         if renames:
             given_names.update(makeList(renames.get(name, [])))
         for par in self.names:
-            known_names = set([par.name] + makeList(getattr(par, 'renames', [])) +
-                              (makeList(renames.get(par.name, [])) if renames else []))
+            known_names = set([par.name] + list(makeList(getattr(par, 'renames', []))) +
+                              (list(makeList(renames.get(par.name, []))) if renames else []))
             if known_names.intersection(given_names):
                 return par
         if error:
-- 
2.43.0


From b4b6e2d4deeccdb7a32eb2e70d7aa14005729dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:00 +0000
Subject: [PATCH 027/144] fix: get_chain_root_files works for relative
 directories and lists each root once

---
 python/getdist/chain_grid.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/getdist/chain_grid.py b/python/getdist/chain_grid.py
index cba5cd1..3c3867c 100644
--- a/python/getdist/chain_grid.py
+++ b/python/getdist/chain_grid.py
@@ -21,9 +21,7 @@ def get_chain_root_files(rootdir):
     ending = 'updated.yaml'
     pattern = os.path.join(rootdir, "*" + ending)
     files += [f[:-len(ending)].rstrip("_.") for f in glob.glob(pattern)]
-    files = [f for f in files if hasChainFiles(os.path.join(rootdir, f))]
-    files.sort()
-    return files
+    return sorted(f for f in set(files) if hasChainFiles(f))
 
 
 def is_grid_object(obj):
-- 
2.43.0


From 26c284df6291fe1884fd3ac4302bf8254bc923da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:00 +0000
Subject: [PATCH 028/144] fix: ChainDirGrid has the correct path for roots that
 are directories

---
 python/getdist/chain_grid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/getdist/chain_grid.py b/python/getdist/chain_grid.py
index 3c3867c..46488c3 100644
--- a/python/getdist/chain_grid.py
+++ b/python/getdist/chain_grid.py
@@ -72,24 +72,24 @@ class ChainDirGrid:
             for _dir in dirs:
                 files = get_chain_root_files(os.path.join(base, _dir))
                 if files:
-                    self._add(_dir, os.path.join(base, _dir), files)
+                    self._add(_dir, files)
                 for base_rel, dirs_rel, files_rel in os.walk(os.path.join(base, _dir)):
                     for _subdir in dirs_rel:
                         files = get_chain_root_files(os.path.join(base_rel, _subdir))
                         if files:
-                            self._add(_dir, os.path.join(base_rel, _subdir), files)
+                            self._add(_dir, files)
             break
         self._make_unique()
 
     def normed_name(self, root):
         return '_'.join(sorted(root.replace('__', '_').replace('_post', '').split('_')))
 
-    def _add(self, dir_tag, dirname, roots):
+    def _add(self, dir_tag, roots):
         self.base_dir_names.add(dir_tag)
-        for root in roots:
-            root = file_root_to_root(root)
+        for file_root in roots:
+            root = file_root_to_root(file_root)
             self.roots[root] = self.roots.get(root, []) + [
-                ChainItem(self.batchPath, os.path.join(dirname, root), dir_tag, root)]
+                ChainItem(self.batchPath, file_root, dir_tag, root)]
 
     def _make_unique(self):
         for root in list(self.roots):
-- 
2.43.0


From 7957a6475b010244099b2c8eceb68ab96a4f50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:00 +0000
Subject: [PATCH 029/144] fix: ChainDirGrid did not give distinct names to all
 of three or more chains with the same root name

---
 python/getdist/chain_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chain_grid.py b/python/getdist/chain_grid.py
index 46488c3..4cb7eee 100644
--- a/python/getdist/chain_grid.py
+++ b/python/getdist/chain_grid.py
@@ -98,7 +98,7 @@ class ChainDirGrid:
             if len(self.roots[root]) > 1:
                 paths = [item.chainRoot.split(os.sep) for item in self.roots[root]]
                 i = -2
-                while all(s[i] == paths[0][i] for s in paths[1:]):
+                while len(set(tuple(s[i:]) for s in paths)) < len(paths):
                     i -= 1
                 for parts, item in zip(paths, self.roots[root]):
                     item.name = '/'.join(parts[i:])
-- 
2.43.0


From 4ab2cfde4ccc90cc4d1bef965e5168f09844cef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:00 +0000
Subject: [PATCH 030/144] fix: finding chain roots fails for names in missing
 subdirectories, and depends on the directory listing order

---
 python/getdist/chain_grid.py | 3 ++-
 python/getdist/chains.py     | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chain_grid.py b/python/getdist/chain_grid.py
index 4cb7eee..43bdcd6 100644
--- a/python/getdist/chain_grid.py
+++ b/python/getdist/chain_grid.py
@@ -69,11 +69,12 @@ class ChainDirGrid:
         else:
             self.getdist_options = {}
         for base, dirs, files in os.walk(base):
-            for _dir in dirs:
+            for _dir in sorted(dirs):
                 files = get_chain_root_files(os.path.join(base, _dir))
                 if files:
                     self._add(_dir, files)
                 for base_rel, dirs_rel, files_rel in os.walk(os.path.join(base, _dir)):
+                    dirs_rel.sort()
                     for _subdir in dirs_rel:
                         files = get_chain_root_files(os.path.join(base_rel, _subdir))
                         if files:
diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index a02fa15..8f0cab7 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -69,6 +69,7 @@ def findChainFileRoot(chain_dir, root, search_subdirectories=True):
         return file_root
     if search_subdirectories:
         for base, dirs, files in os.walk(chain_dir):
+            dirs.sort()
             for _dir in dirs:
                 file_root = os.path.join(base, _dir, root)
                 if hasChainFiles(file_root):
@@ -111,6 +112,8 @@ def chainFiles(root, chain_indices=None, ext='.txt', separator="_",
 
 
 def hasChainFiles(file_root, ext='.txt'):
+    if not os.path.isdir(os.path.dirname(file_root) or '.'):
+        return False
     return any(chainFiles(file_root, ext=ext, separator=sep, last_chain=1) for sep in ['_', '.'])
 
 
-- 
2.43.0


From b0e20d5caa94ea32326ec4869ad9f2d9a027e61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:48 +0000
Subject: [PATCH 031/144] fix: settings in getdist.ini of a searched directory
 were applied to chains found in another directory

---
 python/getdist/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 60b0ec0..1cc5386 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -512,10 +512,10 @@ class MCSampleAnalysis(_BaseObject):
                         break
                 else:
                     file_root = findChainFileRoot(chain_dir, root)
-                    dir_ini = os.path.join(chain_dir, 'getdist.ini')
-                    if os.path.exists(dir_ini):
-                        dist_settings.update(IniFile(dir_ini).params)
                     if file_root:
+                        dir_ini = os.path.join(chain_dir, 'getdist.ini')
+                        if os.path.exists(dir_ini):
+                            dist_settings.update(IniFile(dir_ini).params)
                         break
 
         if not file_root:
-- 
2.43.0


From d2659e1d46c62ad9930d5188ec6a5003a1ae8a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:52 +0000
Subject: [PATCH 032/144] fix: plotting lists of parameter names including
 globs dropped the last parameters

---
 python/getdist/plots.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 1cc5386..ab1729f 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1795,10 +1795,12 @@ class GetDistPlotter(_BaseObject):
                 renames = mergeRenames(renames, renames_from_param_info)
             else:
                 renames = renames_from_param_info
-            params_names = [getattr(param, "name", param) for param in params]
-            old = [(old if isinstance(old, ParamInfo) else ParamInfo(old)) for old in params]
-            return [new or old for new, old in zip(names.parsWithNames(params_names,
-                                                                       error=error, renames=renames), old)]
+            res = []
+            for param, err in zip(params, error):
+                # can be more than one if the name is a glob
+                res += [new or param for new in names.parsWithNames([getattr(param, "name", param)],
+                                                                    error=err, renames=renames)]
+            return res
 
     def _check_param(self, root, param, renames=None):
         """
-- 
2.43.0


From 83dd2ccd1f0b02a1b7eec1470957f25e08076e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:52 +0000
Subject: [PATCH 033/144] fix: covariance matrix of a single parameter could
 not be used after loading from file

---
 python/getdist/covmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index d4a4e99..926a3cd 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -36,7 +36,7 @@ class CovMat:
             else:
                 raise Exception('.covmat must now have parameter names header')
             # noinspection PyTypeChecker
-            self.matrix = np.loadtxt(f)
+            self.matrix = np.loadtxt(f, ndmin=2)
 
     def saveToFile(self, filename):
         """
-- 
2.43.0


From bf5cb2fa4398e4c43fde1cf50375c37976a5a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:52 +0000
Subject: [PATCH 034/144] fix: merged covariance matrices had size zero, so
 correlation() returned the covariance

---
 python/getdist/covmat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index 926a3cd..ca263c8 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -75,6 +75,7 @@ class CovMat:
         l1 = len(params1)
         l2 = len(params2)
         length = len(C.paramNames)
+        C.size = length
 
         map1 = dict(list(zip(params1, list(range(0, l1)))))
         map2 = dict(list(zip(params2, list(range(0, l2)))))
-- 
2.43.0


From 79e464f3661ae6de61aad9b97204f9b832b24d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:32 +0000
Subject: [PATCH 035/144] fix: getParamSampleDict failed for samples without
 likelihoods

---
 python/getdist/chains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 8f0cab7..83d70f0 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1305,7 +1305,8 @@ class Chains(WeightedSamples):
         """
         res = dict()
         res['weight'] = self.weights[ix]
-        res['loglike'] = self.loglikes[ix]
+        if self.loglikes is not None:
+            res['loglike'] = self.loglikes[ix]
         for i, name in enumerate(self.paramNames.names):
             if want_derived or not name.isDerived:
                 res[name.name] = self.samples[ix, i]
-- 
2.43.0


From c67931c6e2889567af73f966dfb7d9849c6857df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:49 +0000
Subject: [PATCH 036/144] fix: getCovMat used the wrong parameters if any
 derived parameter is before a non-derived one

---
 python/getdist/mcsamples.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 4f1348b..3f75213 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -586,9 +586,8 @@ class MCSamples(Chains):
 
         :return: A :class:`~.covmat.CovMat` object holding the covariance
         """
-        nparamNonDerived = self.paramNames.numNonDerived()
-        return covmat.CovMat(matrix=self.getCov(nparamNonDerived),
-                             paramNames=self.paramNames.list()[:nparamNonDerived])
+        indices = [i for i, par in enumerate(self.paramNames.names) if not par.isDerived]
+        return covmat.CovMat(matrix=self.getCov(pars=indices), paramNames=self.paramNames.getRunningNames())
 
     def writeCovMatrix(self, filename=None):
         """
-- 
2.43.0


From b4295372a0ab0583bcc7efb021b54130819aaf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:56 +0000
Subject: [PATCH 037/144] fix: value printed with more decimals than its errors
 if it rounds up to a power of ten

---
 python/getdist/types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index c777e18..cb4d497 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -129,6 +129,9 @@ class NumberFormatter:
         while self.decimal_places(plus_str) > self.decimal_places(res):
             sf += 1
             res = self.formatNumber(value, sf)
+        if self.decimal_places(res) > maxdp:
+            # required number of decimals skipped when rounding up to a power of ten
+            res = ('%.' + str(maxdp) + 'f') % value
         if sci:
             return res, plus_str, minus_str, exponent
         else:
-- 
2.43.0


From 5a7906b76fa86daf402683990d33ae7d15d15fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:56 +0000
Subject: [PATCH 038/144] fix: ResultTable ignored numFormatter

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index cb4d497..2dea013 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -299,7 +299,7 @@ class ResultTable:
         if paramList is not None:
             self.tableParamNames = self.tableParamNames.filteredCopy(paramList)
         if numFormatter is not None:
-            self.format.numFormatter = numFormatter
+            self.format.numberFormatter = numFormatter
 
         self.results = results
         self.boldBaseParameters = True
-- 
2.43.0


From 38f395e5ab07cf36ba521f020565a4aad50571c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:56 +0000
Subject: [PATCH 039/144] fix: ResultTable failed for BestFit results

---
 python/getdist/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 2dea013..2cce9c5 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -500,7 +500,7 @@ class BestFit(ParamResults):
         if setParamNameFile is not None:
             self.setLabelsFromParamNames(setParamNameFile)
 
-    def getColumnLabels(self, **kwargs):
+    def getColumnLabels(self, limit=None):
         return ['Best fit']
 
     def loadFromFile(self, filename, want_fixed=False):
@@ -568,7 +568,7 @@ class BestFit(ParamResults):
                 return val.chisq
         return None
 
-    def texValues(self, formatter, p, **kwargs):
+    def texValues(self, formatter, p, limit=None, refResults=None, **kwargs):
         param = self.parWithName(p.name)
         if param is not None:
             return [formatter.numberFormatter.formatNumber(param.best_fit)]
-- 
2.43.0


From 5b1847b7b9fe2145a64d1087775caeef8e6cbb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:56 +0000
Subject: [PATCH 040/144] fix: extra backslash before sigma in tables with
 parameter shifts

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 2cce9c5..c32ab2a 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -818,7 +818,7 @@ class MargeStats(ParamResults):
                             res += ', %+.1f \\sigma_i' % (delta / indep_sigma)
                         res += ')'
                     else:
-                        res += r'\quad(%+.1f \\sigma)' % (delta / refVal.err)
+                        res += r'\quad(%+.1f \sigma)' % (delta / refVal.err)
             if self.hasBestFit:  # add best fit too
                 rangew = (lim.upper - lim.lower) / 10
                 bestfit, _, _, exponent = formatter.numberFormatter.namesigFigs(param.best_fit, rangew, -rangew,
-- 
2.43.0


From 44c5b52bef0e9558bee2f6e76076dec1e4d050a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:56 +0000
Subject: [PATCH 041/144] fix: MargeStats loaded from file used the limit type
 as the label of parameters without label

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index c32ab2a..b41cabd 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -693,7 +693,7 @@ class MargeStats(ParamResults):
                 param.name = param.name[:-1]
             param.mean = float(items[1])
             param.err = float(items[2])
-            param.label = items[-1]
+            param.label = items[-1] if len(items) > len(self.limits) * 3 + 3 else ''
             param.limits = []
             for i in range(len(self.limits)):
                 param.limits.append(ParamLimit([float(s) for s in items[3 + i * 3:5 + i * 3]], items[5 + i * 3]))
-- 
2.43.0


From 00ace3a7abcaa196e69dc538d81d7279642b1d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:06 +0000
Subject: [PATCH 042/144] fix: last auto-correlation of parameters without
 label was lost reading convergence files

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index b41cabd..15259bb 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -904,7 +904,7 @@ class ConvergeStats(ParamResults):
                             break
                         items = line.split(None, len(self.auto_correlation_steps) + 1)
                         self.auto_correlation_pars.append(items[0])
-                        self.auto_correlations.append([float(s) for s in items[1:-1]])
+                        self.auto_correlations.append([float(s) for s in items[1:len(self.auto_correlation_steps) + 1]])
         except:
             print('Error reading: ' + filename)
             raise
-- 
2.43.0


From b8978e0de0b62ae9bf72c80b9649aaf20b113af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:10 +0000
Subject: [PATCH 043/144] fix: likelihoods without a kind in best-fit files
 were read with a list as the name

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 15259bb..74b503b 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -535,7 +535,7 @@ class BestFit(ParamResults):
                             if len(name) > 1:
                                 (kind, name) = name
                             else:
-                                kind = ''
+                                (kind, name) = ('', name[0])
                             chi2 = LikelihoodChi2()
                             if '=' in name:
                                 chi2.tag, chi2.name = [s.strip() for s in name.split('=')]
-- 
2.43.0


From 01986c45d1858c73f470dfee91bd80000e395440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 044/144] fix: deleting only running or only queued jobs
 removed the other jobs from the index without cancelling them

---
 python/paramgrid/jobqueue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index bc1eb88..b65e821 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -241,7 +241,7 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
     validIds = queue_job_details(batchPath, running=not queued, queued=not running)[0]
     for jobId in jobIds:
         j = index.jobSettings.get(jobId)
-        if j is not None:
+        if j is not None and (jobId in validIds or not (running or queued)):
             if confirm:
                 if jobId in validIds:
                     print('Cancelling: ', j.jobName, jobId)
-- 
2.43.0


From 32190c5701ce2432d84eed8080c287f181224979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 045/144] fix: deleteJobs.py --delete_id_range also deleted all
 other jobs of the grid

---
 python/deleteJobs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/deleteJobs.py b/python/deleteJobs.py
index 4629ade..e83d3fd 100644
--- a/python/deleteJobs.py
+++ b/python/deleteJobs.py
@@ -20,7 +20,7 @@ Opts.parser.add_argument('--confirm', action='store_true')
 if batch:
     if args.delete_id_range is not None:
         jobqueue.deleteJobs(args.batchPath, jobId_minmax=args.delete_id_range, confirm=args.confirm)
-    if args.delete_id_min is not None:
+    elif args.delete_id_min is not None:
         jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, confirm=args.confirm)
     elif args.delete_ids is not None:
         jobqueue.deleteJobs(args.batchPath, args.delete_ids, confirm=args.confirm)
-- 
2.43.0


From 10ce0d531281f2853772352644546d9b62da217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 046/144] fix: deleteJobs.py --delete_ids did not match any job

---
 python/deleteJobs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/deleteJobs.py b/python/deleteJobs.py
index e83d3fd..6a6f7b9 100644
--- a/python/deleteJobs.py
+++ b/python/deleteJobs.py
@@ -23,7 +23,8 @@ if batch:
     elif args.delete_id_min is not None:
         jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, confirm=args.confirm)
     elif args.delete_ids is not None:
-        jobqueue.deleteJobs(args.batchPath, args.delete_ids, confirm=args.confirm)
+        for jobId in args.delete_ids:
+            jobqueue.deleteJobs(args.batchPath, jobId_minmax=[jobId, jobId], confirm=args.confirm)
     else:
         items = [jobItem for jobItem in Opts.filteredBatchItems()]
         batchNames = set([jobItem.name for jobItem in items] + [jobItem.name + '_minimize' for jobItem in items])
-- 
2.43.0


From 00dcc1d25d089653a9da14ed60d2e1d658694e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 047/144] fix: deleteJobs.py ignored --queued and --running

---
 python/deleteJobs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/deleteJobs.py b/python/deleteJobs.py
index 6a6f7b9..c6b99bf 100644
--- a/python/deleteJobs.py
+++ b/python/deleteJobs.py
@@ -18,17 +18,18 @@ Opts.parser.add_argument('--confirm', action='store_true')
 
 
 if batch:
+    states = dict(running=args.running, queued=args.queued)
     if args.delete_id_range is not None:
-        jobqueue.deleteJobs(args.batchPath, jobId_minmax=args.delete_id_range, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, jobId_minmax=args.delete_id_range, confirm=args.confirm, **states)
     elif args.delete_id_min is not None:
-        jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, confirm=args.confirm, **states)
     elif args.delete_ids is not None:
         for jobId in args.delete_ids:
-            jobqueue.deleteJobs(args.batchPath, jobId_minmax=[jobId, jobId], confirm=args.confirm)
+            jobqueue.deleteJobs(args.batchPath, jobId_minmax=[jobId, jobId], confirm=args.confirm, **states)
     else:
         items = [jobItem for jobItem in Opts.filteredBatchItems()]
         batchNames = set([jobItem.name for jobItem in items] + [jobItem.name + '_minimize' for jobItem in items])
-        jobqueue.deleteJobs(args.batchPath, rootNames=batchNames, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, rootNames=batchNames, confirm=args.confirm, **states)
 
     if not args.confirm: print('jobs not actually deleted: add --confirm to really cancel them')
 
-- 
2.43.0


From 93121417ac8856e9ceda66f56073e324ce366440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 048/144] fix: jobGroup was not initialized if datasets
 argument given

---
 python/paramgrid/batchjob.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index d36129f..b312af7 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -181,10 +181,10 @@ class jobGroup(object):
             params = [[]]
         if datasets is None:
             datasets = []
-            self.params = params
-            self.groupName = name
-            self.importanceRuns = importanceRuns
-            self.datasets = datasets
+        self.params = params
+        self.groupName = name
+        self.importanceRuns = importanceRuns
+        self.datasets = datasets
         self.extra_options = {}
 
 
-- 
2.43.0


From 2d618f90a26d5ad9277f77745a773d05c9a502a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 049/144] fix: importance sampled jobs lost non-default base of
 parent job

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index b312af7..ec9a329 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -258,7 +258,7 @@ class jobItem(propertiesItem):
                 print('importance job duplicating parent data set: %s with %s' % (self.name, impRun.names))
                 continue
             data = self.data_set.extendForImportance(impRun.names, impRun.inis)
-            job = jobItem(self.batchPath, self.param_set, data, minimize=impRun.want_minimize)
+            job = jobItem(self.batchPath, self.param_set, data, base=self.base, minimize=impRun.want_minimize)
             job.importanceTag = "_".join(impRun.names)
             job.importanceSettings = impRun.inis
             if not '_post_' in self.name:
-- 
2.43.0


From 71e5eeb73176ee6e85195ca7f0172e16de4617c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 050/144] fix: importance sampling settings given as a single
 name or dictionary were not used correctly

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index ec9a329..4fa19cf 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -260,7 +260,7 @@ class jobItem(propertiesItem):
             data = self.data_set.extendForImportance(impRun.names, impRun.inis)
             job = jobItem(self.batchPath, self.param_set, data, base=self.base, minimize=impRun.want_minimize)
             job.importanceTag = "_".join(impRun.names)
-            job.importanceSettings = impRun.inis
+            job.importanceSettings = data.importanceParams
             if not '_post_' in self.name:
                 tag = '_post_' + job.importanceTag
             else:
-- 
2.43.0


From d2da198d790687f3e24c832685a1eaa66c6714a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 051/144] fix: adding to a data set changed lists of the caller
 and other data sets made from them

---
 python/paramgrid/batchjob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 4fa19cf..9400819 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -87,7 +87,7 @@ class dataSet(object):
     def __init__(self, names, params=None, covmat=None, dist_settings=None):
         if not dist_settings:
             dist_settings = {}
-        if isinstance(names, six.string_types): names = [names]
+        names = [names] if isinstance(names, six.string_types) else list(names)
         if params is None:
             params = [(name + '.ini') for name in names]
         else:
@@ -96,7 +96,7 @@ class dataSet(object):
         self.names = names
         self.params = params  # can be an array of items, either ini file name or dictionaries of parameters
         self.tag = "_".join(self.names)
-        self.dist_settings = dist_settings
+        self.dist_settings = dict(dist_settings)
 
     def add(self, name, params=None, overrideExisting=True, dist_settings=None):
         if params is None: params = [name]
@@ -133,6 +133,7 @@ class dataSet(object):
 
     def standardizeParams(self, params):
         if isinstance(params, dict) or isinstance(params, six.string_types): params = [params]
+        params = list(params)
         for i in range(len(params)):
             if isinstance(params[i], six.string_types) and not '.ini' in params[i]: params[i] += '.ini'
         return params
-- 
2.43.0


From b804521b356701c2b386ab23d6b77f2af37e9cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 052/144] fix: chainNames(num_chains) started from chain zero

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 9400819..1864c80 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -337,7 +337,7 @@ class jobItem(propertiesItem):
 
     def chainNames(self, num_chains=None):
         if num_chains:
-            return [self.chainName(i) for i in range(num_chains)]
+            return [self.chainName(i + 1) for i in range(num_chains)]
         else:
             i = 1
             chains = []
-- 
2.43.0


From 2a450fea996834fdcc7d3ae5a82921111d5250ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 053/144] fix: submitting combined jobs with long names failed
 in python 3

---
 python/runbatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/runbatch.py b/python/runbatch.py
index 6b2213d..effe07f 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -74,7 +74,7 @@ def jobName():
     if len(iniFiles) < 2 or len(s) < 70: return s
     base = os.path.basename(iniFiles[0])
     if len(base) > 70: base = base[:70]
-    return base + '__' + hashlib.md5(s).hexdigest()[:16]
+    return base + '__' + hashlib.md5(s.encode('utf-8')).hexdigest()[:16]
 
 
 def submitJob(ini):
-- 
2.43.0


From 3c39fc1cea3bf68921ec7c7ccb7a5af4a83f5be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 054/144] fix: runbatch --not_queued did not find queued
 --importance_minimize jobs

---
 python/runbatch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/runbatch.py b/python/runbatch.py
index effe07f..429bd7e 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -37,8 +37,7 @@ if args.not_queued:
 
 
 def notQueued(name):
-    if args.minimize: name += '_minimize'
-    return not name in queued
+    return not name + variant in queued
 
 
 variant = ''
-- 
2.43.0


From 3b6783fcfc1a0f792ae96b0c192c94473d22edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 055/144] fix: renameParam failed to write best-fit files

---
 python/renameParam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/renameParam.py b/python/renameParam.py
index 6214da6..d5162c3 100644
--- a/python/renameParam.py
+++ b/python/renameParam.py
@@ -87,7 +87,7 @@ for jobItem in Opts.filteredBatchItems():
                 lines[i] = "".join(items) + "\n"
             if has:
                 print(bestfit)
-                if args.confirm: open(bestfit).write("".join(lines))
+                if args.confirm: open(bestfit, 'w').write("".join(lines))
 
 if args.confirm:
     print('Done. Re-run getdist to update getdist outputs.')
-- 
2.43.0


From c7dbb0c3fa1aecad3053c8be32ab78eaba48b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 056/144] fix: renameParam labels of renamed parameters in
 best-fit files are those of the new name

---
 python/renameParam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/renameParam.py b/python/renameParam.py
index d5162c3..4fc96ab 100644
--- a/python/renameParam.py
+++ b/python/renameParam.py
@@ -71,8 +71,9 @@ for jobItem in Opts.filteredBatchItems():
                 if new:
                     newname, lab = new
                     items[5] = newname
-                    items[6] = ' ' * (len(items[6]) + len(name) - len(newname))
+                    items[6] = ' ' * max(1, len(items[6]) + len(name) - len(newname))
                     has = has or newname != name
+                    name = newname
                 if labels:
                     plab = labels.parWithName(name)
                     if plab: lab = plab.label
-- 
2.43.0


From b508121b15be03d81db308980671b3250311b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 057/144] fix: copyGridFiles copied whole chain if all rows are
 removed as burn in

---
 python/copyGridFiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 909466d..13b82d7 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -72,13 +72,13 @@ def doCopy(source, dest, f, hasBurn=False):
             lines = None
         destf = dest + f
         if args.zip:
-            if lines:
+            if lines is not None:
                 zipper.writestr(destf, "".join(lines))
 
             else:
                 zipper.write(source + f, destf)
         else:
-            if lines:
+            if lines is not None:
                 open(target_dir + destf, 'w').writelines(lines)
             else:
                 if args.sym_link:
-- 
2.43.0


From 264e2e350a899abab2b0b60fffafc90b56410698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 058/144] fix: copyGridFiles --dryrun overwrote existing zip
 file and made directories

---
 python/copyGridFiles.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 13b82d7..b2f045f 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -39,13 +39,13 @@ if args.max_age_days:
 
 sizeMB = 0
 
+zipper = None
 if args.zip:
-    zipper = zipfile.ZipFile(args.target_dir, 'w', compression=zipfile.ZIP_DEFLATED, allowZip64=True)
+    if not args.dryrun: zipper = zipfile.ZipFile(args.target_dir, 'w', compression=zipfile.ZIP_DEFLATED, allowZip64=True)
     target_dir = None
 else:
-    zipper = None
     target_dir = os.path.abspath(args.target_dir) + os.sep
-    batchjob.makePath(target_dir)
+    if not args.dryrun: batchjob.makePath(target_dir)
 
 if args.sym_link and (args.remove_burn_fraction or args.zip): raise Exception('option not compatible with --sym_link')
 
@@ -113,7 +113,7 @@ for jobItem in Opts.filteredBatchItems():
         distfiles = 0
         doneProperties = False
         outdir = jobItem.relativePath
-        if not args.zip: batchjob.makePath(target_dir + outdir)
+        if not args.zip and not args.dryrun: batchjob.makePath(target_dir + outdir)
         if args.chains and jobItem.chainExists() and (not args.max_age_days or datetime.fromtimestamp(jobItem.chainFileDate()) > max_age):
             i = 1
             while os.path.exists(jobItem.chainRoot + '_%d.txt' % i):
@@ -136,7 +136,7 @@ for jobItem in Opts.filteredBatchItems():
                     doCopy(jobItem.chainPath, outdir, f)
         if args.dist and os.path.exists(jobItem.distPath):
             outdir += 'dist' + os.sep
-            if not args.zip: batchjob.makePath(target_dir + outdir)
+            if not args.zip and not args.dryrun: batchjob.makePath(target_dir + outdir)
             for f in os.listdir(jobItem.distPath):
                 if fileMatches(f, jobItem.name) and (not args.max_age_days or
                                                      datetime.fromtimestamp(
-- 
2.43.0


From 868aef1b94af8423ab9940c643b631a1fd37d518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 059/144] fix: copyGridFiles overwrote original files if target
 directory has links from previous --sym_link

---
 python/copyGridFiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index b2f045f..17b17ff 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -78,11 +78,11 @@ def doCopy(source, dest, f, hasBurn=False):
             else:
                 zipper.write(source + f, destf)
         else:
+            if os.path.islink(target_dir + destf): os.unlink(target_dir + destf)
             if lines is not None:
                 open(target_dir + destf, 'w').writelines(lines)
             else:
                 if args.sym_link:
-                    if os.path.islink(target_dir + destf): os.unlink(target_dir + destf)
                     os.symlink(os.path.realpath(source + f), target_dir + destf)
                 else:
                     shutil.copyfile(source + f, target_dir + destf)
@@ -96,6 +96,7 @@ def writeIni(iniName, props):
     if args.zip:
         zipper.writestr(outdir + iniName, "\n".join(props.fileLines()))
     else:
+        if os.path.islink(target_dir + outdir + iniName): os.unlink(target_dir + outdir + iniName)
         props.saveFile(target_dir + outdir + iniName)
 
 
-- 
2.43.0


From e88f8e1221764fc41258c9a1ddbfb7d580c2e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 060/144] fix: cleanup also deleted files of importance sampled
 items that were not selected

---
 python/cleanup.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/cleanup.py b/python/cleanup.py
index d5af6a4..80d73f8 100644
--- a/python/cleanup.py
+++ b/python/cleanup.py
@@ -31,6 +31,11 @@ else: args.ext = ['.' + ext for ext in args.ext] + ['_*.' + ext for ext in args.
 
 for jobItem in Opts.filteredBatchItems():
     if (args.converge == 0 or not jobItem.hasConvergeBetterThan(args.converge, returnNotExist=True)) and os.path.exists(jobItem.chainPath):
+        # files of other (importance sampled) items in the same directory, and not of this item
+        others = [jobItem.name + '_post_'] * (not jobItem.isImportanceJob)
+        for other in batch.items(wantImportance=True):
+            if other.chainPath == jobItem.chainPath and other.name.startswith(jobItem.name + '_'):
+                others += [other.name + '.', other.name + '_']
         dirs = [jobItem.chainPath]
         if args.dist: dirs = []
         if os.path.exists(jobItem.distPath): dirs += [jobItem.distPath]
@@ -38,7 +43,7 @@ for jobItem in Opts.filteredBatchItems():
             files = sorted(os.listdir(adir))
             for f in files:
                 for ext in args.ext:
-                    if fnmatch.fnmatch(f, jobItem.name + ext):
+                    if fnmatch.fnmatch(f, jobItem.name + ext) and not f.startswith(tuple(others)):
                         fname = adir + f
                         if os.path.exists(fname):
                             if not args.empty or os.path.getsize(fname) == 0:
-- 
2.43.0


From 1335e5e1c6fe64a0453ab0a395e7840894c0f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 061/144] fix: opening a grid used the settings of a previously
 opened grid with the same setting file name

---
 python/paramgrid/gridconfig.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/paramgrid/gridconfig.py b/python/paramgrid/gridconfig.py
index a76490b..252109c 100644
--- a/python/paramgrid/gridconfig.py
+++ b/python/paramgrid/gridconfig.py
@@ -84,7 +84,11 @@ def makeGrid(batchPath, settingName=None, settings=None, readOnly=False, interac
             readOnly = True
             sys.path.insert(0, batchPath + 'config')
             sys.modules['batchJob'] = batchjob  # old name
-            settings = __import__(IniFile(batchPath + 'config/config.ini').params['setting_file'].replace('.py', ''))
+            module = IniFile(batchPath + 'config/config.ini').params['setting_file'].replace('.py', '')
+            loaded = sys.modules.get(module)
+            if loaded is not None and os.path.dirname(os.path.abspath(loaded.__file__)) + os.sep != batchPath + 'config' + os.sep:
+                del sys.modules[module]  # settings with the same file name in another grid
+            settings = __import__(module)
         else:
             settings = __import__(settingName, fromlist=['dummy'])
 
-- 
2.43.0


From 76f30d9b96d93d80397f3454df6a83c5b2992abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:37 +0000
Subject: [PATCH 062/144] fix: making or opening a grid failed if the cache
 directory did not exist yet

---
 python/paramgrid/batchjob.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 1864c80..532bc1b 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -546,6 +546,7 @@ class batchJob(propertiesItem):
         return self.normed_name_item(root, True, True)
 
     def save(self, filename=''):
+        getdist.make_cache_dir()
         saveobject(self, (grid_cache_file(self.batchPath), filename)[filename != ''])
 
     def makeDirectories(self, setting_file=None):
-- 
2.43.0


From 01524d202c383aff4c25017955e54341a84aaa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:43 +0000
Subject: [PATCH 063/144] fix: Density1D.getLimits with a list of limits
 returned only the first

---
 python/getdist/densities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 3dd213a..b9863f6 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -241,7 +241,7 @@ class Density1D(GridDensity):
                 i = g.bign - np.argmax(g.grid[::-1] > trial) - 1
                 d = (g.grid[i] - trial) / (g.grid[i] - g.grid[i + 1])
                 mx = self.x[0] + (i + d) * finespace
-            if parr is not p:
+            if np.isscalar(p):
                 return mn, mx, lim_bot, lim_top
             results.append((mn, mx, lim_bot, lim_top))
         return results
-- 
2.43.0


From 824bad658d1d79ec078ec421034df934b2429e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:43 +0000
Subject: [PATCH 064/144] fix: Density1D.getLimits raised IndexError for small
 probabilities

---
 python/getdist/densities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index b9863f6..7ba4afa 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -223,14 +223,15 @@ class Density1D(GridDensity):
             if ix > 0:
                 d = g.cumsum[ix] - g.cumsum[ix - 1]
                 frac = (g.cumsum[ix] - target) / d
-                trial = (1 - frac) * trial + frac * g.sortgrid[ix + 1]
+                trial = (1 - frac) * trial + frac * g.sortgrid[min(ix + 1, g.bign - 1)]
+                trial = min(trial, g.sortgrid[-1])
 
             finespace = self.spacing / g.factor
             lim_bot = (g.grid[0] >= trial)
             if lim_bot:
                 mn = self.x[0]
             else:
-                i = np.argmax(g.grid > trial)
+                i = np.argmax(g.grid >= trial)
                 d = (g.grid[i] - trial) / (g.grid[i] - g.grid[i - 1])
                 mn = self.x[0] + (i - d) * finespace
 
@@ -238,7 +239,7 @@ class Density1D(GridDensity):
             if lim_top:
                 mx = self.x[-1]
             else:
-                i = g.bign - np.argmax(g.grid[::-1] > trial) - 1
+                i = g.bign - np.argmax(g.grid[::-1] >= trial) - 1
                 d = (g.grid[i] - trial) / (g.grid[i] - g.grid[i + 1])
                 mx = self.x[0] + (i + d) * finespace
             if np.isscalar(p):
-- 
2.43.0


From f1dc8e5429e6052023c10691af32c48491820257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:43 +0000
Subject: [PATCH 065/144] fix: Density2D.Prob returned None

---
 python/getdist/densities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 7ba4afa..d1acd22 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -288,7 +288,7 @@ class Density2D(GridDensity):
         :param y: y value or array
         :param grid: whether to make a grid, see :class:`~scipy:scipy.interpolate.RectBivariateSpline`. Default False.
         """
-        self.__call__(x, y, grid=grid)
+        return self.__call__(x, y, grid=grid)
 
     def __call__(self, *args, **kwargs):
         if self.spl is None:
-- 
2.43.0


From 5e1c2efd8d21feb3d0581d0dbd01ee25d4aa9f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:43 +0000
Subject: [PATCH 066/144] fix: contour levels were wrong by up to a factor 2
 when determined by a bin on the edge of the grid

---
 python/getdist/densities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index d1acd22..b8b79ad 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -43,8 +43,8 @@ def getContourLevels(inbins, contours=defaultContours, missing_norm=0, half_edge
     targets = (1 - np.array(contours)) * norm - missing_norm
     bins = abins.reshape(-1)
     indexes = inbins.reshape(-1).argsort()
-    sortgrid = bins[indexes]
-    cumsum = np.cumsum(sortgrid)
+    sortgrid = inbins.reshape(-1)[indexes]
+    cumsum = np.cumsum(bins[indexes])
     ixs = np.searchsorted(cumsum, targets)
     for i, ix in enumerate(ixs):
         if ix == 0:
-- 
2.43.0


From e3f03a8a9662a4e4112681e6f8cc52401dbc364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:26 +0000
Subject: [PATCH 067/144] fix: convolveGaussianDCT failed without a cache

---
 python/getdist/convolve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/convolve.py b/python/getdist/convolve.py
index 78c9a0d..6c8475e 100644
--- a/python/getdist/convolve.py
+++ b/python/getdist/convolve.py
@@ -165,7 +165,8 @@ def convolveGaussianDCT(x, sigma, pad_sigma=4, mode='same', cache=None):
     gauss = cache.get((s, hnorm)) if cache is not None else None
     if gauss is None:
         gauss = np.exp(-(np.arange(0, s) * (np.pi * hnorm)) ** 2 / 2.)
-        cache[(s, hnorm)] = gauss
+        if cache is not None:
+            cache[(s, hnorm)] = gauss
     res = fftpack.idct(fftpack.dct(padded_x, overwrite_x=fill > 0) * gauss, overwrite_x=fill > 0) / (2 * s)
     if fill == 0:
         return res
-- 
2.43.0


From ac1805e78377211f78a33690fe9c8dbf56df77a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:26 +0000
Subject: [PATCH 068/144] fix: convolveGaussianTrunc returned nothing when the
 Gaussian is narrower than the pixels

---
 python/getdist/convolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/convolve.py b/python/getdist/convolve.py
index 6c8475e..47bf2ef 100644
--- a/python/getdist/convolve.py
+++ b/python/getdist/convolve.py
@@ -221,11 +221,11 @@ def convolveGaussianTrunc(x, sigma, sigma_range=4, mode='same', cache=None):
             cache[(fill, actual_size, sigma)] = gauss
     res = np.fft.irfft(np.fft.rfft(x, s) * gauss, s)[:actual_size]
     if mode == 'same':
-        return res[fill:-fill]
+        return res[fill:fill + x.size]
     elif mode == 'full':
         return res
     elif mode == 'valid':
-        return res[2 * fill:-2 * fill]
+        return res[2 * fill:x.size]
 
 
 def dct2d(a):
-- 
2.43.0


From b68829c40d93d418077768bd3175f972d927ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:26 +0000
Subject: [PATCH 069/144] fix: total covariance of a Gaussian mixture was wrong
 with more than one component

---
 python/getdist/gaussian_mixtures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 1c642f7..a51e870 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -43,8 +43,8 @@ class MixtureND:
         self.label = label
         self.total_mean = np.atleast_1d(np.dot(self.weights, self.means))
         self.total_cov = np.zeros((self.dim, self.dim))
-        for mean, cov, weight, totmean in zip(self.means, self.covs, self.weights, self.total_mean):
-            self.total_cov += weight * (cov + np.outer(mean - totmean, mean - totmean))
+        for mean, cov, weight in zip(self.means, self.covs, self.weights):
+            self.total_cov += weight * (cov + np.outer(mean - self.total_mean, mean - self.total_mean))
 
     def sim(self, size, random_state=None):
         """
-- 
2.43.0


From f7615255ca009118cb03b720a7683f68c20ff85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:26 +0000
Subject: [PATCH 070/144] fix: weights of the components of a conditional
 mixture ignored the original weights and the correlation with other
 parameters

---
 python/getdist/gaussian_mixtures.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index a51e870..2b9d666 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -282,19 +282,14 @@ class MixtureND:
             deltas = np.asarray(fixed_param_values) - mean[fixed_params]
             new_cov = np.linalg.inv(invcov[np.ix_(keep_params, keep_params)])
             new_mean = mean[keep_params] - new_cov.dot(invcov[np.ix_(keep_params, fixed_params)].dot(deltas))
-            if len(self.weights) == 1 and False:
-                logw = 0
-            else:
-                logw = invcov[np.ix_(fixed_params, fixed_params)].dot(deltas).dot(deltas) \
-                       + np.log(np.linalg.det(cov[np.ix_(fixed_params, fixed_params)]
-                                              - cov[np.ix_(fixed_params, keep_params)]
-                                              .dot(np.linalg.inv(cov[np.ix_(keep_params, keep_params)])
-                                                   .dot(cov[np.ix_(keep_params, fixed_params)]))))
+            # weight is proportional to the marginalized probability of the fixed parameters
+            fixed_cov = cov[np.ix_(fixed_params, fixed_params)]
+            logw = np.linalg.solve(fixed_cov, deltas).dot(deltas) + np.log(np.linalg.det(fixed_cov))
             new_weights.append(logw)
             new_means.append(new_mean)
             new_covs.append(new_cov)
 
-        new_weights = np.exp(-(np.asarray(new_weights) - min(new_weights)) / 2)
+        new_weights = self.weights * np.exp(-(np.asarray(new_weights) - min(new_weights)) / 2)
         if self.names is not None:
             names = [self.names[i] for i in keep_params]
         else:
-- 
2.43.0


From 4db4cf41f88ee19799fa621fcf2b686527143180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:26 +0000
Subject: [PATCH 071/144] fix: MixtureND.getLower returned the upper limit

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 2b9d666..93dfd00 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -314,7 +314,7 @@ class MixtureND:
     def getLower(self, name):
         if self.lims is None:
             return None
-        return self.lims[self.names.index(name)][1]
+        return self.lims[self.names.index(name)][0]
 
 
 class Mixture2D(MixtureND):
-- 
2.43.0


From 64c5376f4d147a3bb3a325708028d33f0da9e5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:26 +0000
Subject: [PATCH 072/144] fix: MixtureND.density1D ignored no_limit_marge

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 93dfd00..59d6597 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -184,7 +184,7 @@ class MixtureND:
             self.checkNoLimits([index])
         mn, mx = self.autoRanges(sigma_max)[index]
         x = np.linspace(mn, mx, num_points)
-        like = self.pdf_marged(index, x)
+        like = self.pdf_marged(index, x, no_limit_marge=no_limit_marge)
         return Density1D(x, like)
 
     def density2D(self, params=None, num_points=1024, xmin=None, xmax=None, ymin=None, ymax=None, sigma_max=5):
-- 
2.43.0


From aacd9f7dd262850913ab082404a9ef89631fb00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:28 +0000
Subject: [PATCH 073/144] fix: log likelihoods of samples from a 1D mixture had
 the wrong shape

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 59d6597..5c461c9 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -94,7 +94,7 @@ class MixtureND:
         """
         samples = self.sim(size, random_state=random_state)
         if logLikes:
-            loglikes = -np.log(self.pdf(samples))
+            loglikes = -np.log(self.pdf(samples)).reshape(-1)
         else:
             loglikes = None
         return MCSamples(samples=samples, loglikes=loglikes, paramNamesFile=copy.deepcopy(self.paramNames),
-- 
2.43.0


From 3a5b6857560239459492caccd487b1f82cc68ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:28 +0000
Subject: [PATCH 074/144] fix: names given to MixtureND.MCSamples did not
 override the existing names

---
 python/getdist/gaussian_mixtures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 5c461c9..795c261 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -97,7 +97,8 @@ class MixtureND:
             loglikes = -np.log(self.pdf(samples)).reshape(-1)
         else:
             loglikes = None
-        return MCSamples(samples=samples, loglikes=loglikes, paramNamesFile=copy.deepcopy(self.paramNames),
+        return MCSamples(samples=samples, loglikes=loglikes,
+                         paramNamesFile=copy.deepcopy(self.paramNames) if names is None else None,
                          names=names, ranges=self.lims, **kwargs)
 
     def autoRanges(self, sigma_max=4, lims=None):
-- 
2.43.0


From 26b7289f5925f82bc7d13243a9ecf093e974c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:16 +0000
Subject: [PATCH 075/144] fix: reading Cobaya parameter info changed the info
 given, and failed for parameters without info or given as a string

---
 python/getdist/cobaya_interface.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 7cb5f02..4ff1750 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -118,6 +118,15 @@ def str_to_list(x):
     return [x] if isinstance(x, str) else x
 
 
+def _info_param_dict(info_param):
+    """
+    Gets the info of a parameter as a new dictionary (so changing it does not change the input)
+    """
+    if info_param is None:
+        return {}
+    return dict(deepcopy(info_param)) if isinstance(info_param, Mapping) else {_p_value: info_param}
+
+
 def get_info_params(info):
     """
     Extracts parameter info from the new yaml format.
@@ -127,26 +136,25 @@ def get_info_params(info):
     info_params = info.get(_params)
     info_params_full = dict()
     for p, pinfo in info_params.items():
-        info_params_full[p] = info_params[p]
+        info_params_full[p] = _info_param_dict(pinfo)
     # Add prior and likelihoods
     priors = [_prior_1d_name] + list(info.get(_prior) or [])
     likes = list(info.get(_likelihood))
     # Account for post
-    remove = info.get(_post, {}).get("remove", {})
-    for param in remove.get(_params, []) or []:
+    post = info.get(_post) or {}
+    remove = post.get("remove") or {}
+    for param in str_to_list(remove.get(_params) or []):
         info_params_full.pop(param, None)
     for like in str_to_list(remove.get(_likelihood) or []):
         likes.remove(like)
     for prior in str_to_list(remove.get(_prior)) or []:
         priors.remove(prior)
-    add = info.get(_post, {}).get("add", {})
+    add = post.get("add") or {}
     # Adding derived params and updating 1d priors
-    for param, pinfo in add.get(_params, {}).items():
-        pinfo_old = info_params_full.get(param, {})
-        pinfo_old.update(pinfo)
-        info_params_full[param] = pinfo_old
-    likes += list(add.get(_likelihood, []))
-    priors += list(add.get(_prior, []))
+    for param, pinfo in (add.get(_params) or {}).items():
+        info_params_full.setdefault(param, {}).update(_info_param_dict(pinfo))
+    likes += list(add.get(_likelihood) or [])
+    priors += list(add.get(_prior) or [])
     # Add the prior and the likelihood as derived parameters
     info_params_full[_minuslogprior] = {_p_label: r"-\log\pi"}
     for prior in priors:
-- 
2.43.0


From 5b859173de447873c7590a073647b938184cc314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:16 +0000
Subject: [PATCH 076/144] fix: getting the range of a Cobaya parameter changed
 its prior, so the range was different when read again

---
 python/getdist/cobaya_interface.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 4ff1750..a195f76 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -171,21 +171,21 @@ def get_info_params(info):
 def get_range(param_info):
     # Sampled
     if is_sampled_param(param_info):
-        if isinstance(param_info[_prior], Sequence) and len(param_info[_prior]) == 2:
-            param_info[_prior] = \
-                {lim: n for lim, n in zip(["min", "max"], param_info[_prior])}
-        elif not isinstance(param_info[_prior], Mapping):
+        prior = param_info[_prior]
+        if isinstance(prior, Sequence) and len(prior) == 2:
+            prior = {lim: n for lim, n in zip(["min", "max"], prior)}
+        elif isinstance(prior, Mapping):
+            prior = dict(prior)
+        else:
             raise ValueError(
-                "Format of prior not recognised: %r. " % param_info[_prior] +
+                "Format of prior not recognised: %r. " % prior +
                 "Use '[min, max]' or a dictionary following Cobaya's documentation.")
-        info_lims = dict((tag, param_info[_prior].get(tag))
-                         for tag in ["min", "max", "loc", "scale"])
-        if info_lims["min"] is not None or info_lims["max"] is not None:
-            lims = [param_info[_prior].get("min"), param_info[_prior].get("max")]
-        elif info_lims["loc"] is not None or info_lims["scale"] is not None:
-            dist = param_info[_prior].pop(_p_dist, "uniform")
+        if prior.get("min") is not None or prior.get("max") is not None:
+            lims = [prior.get("min"), prior.get("max")]
+        else:
+            dist = prior.pop(_p_dist, "uniform")
             pdf_dist = getattr(import_module("scipy.stats", dist), dist)
-            lims = pdf_dist.interval(1, **param_info[_prior])
+            lims = pdf_dist.interval(1, **prior)
     # Derived
     elif is_derived_param(param_info):
         lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(param_info or {})
-- 
2.43.0


From 46711d2efbfc65b7de6fb520d921d7479bf0d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:16 +0000
Subject: [PATCH 077/144] fix: getting the range of a Cobaya parameter failed
 for dynamical values given as functions

---
 python/getdist/cobaya_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index a195f76..13b21a7 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -194,7 +194,7 @@ def get_range(param_info):
         value = fixed_value(param_info)
         try:
             value = float(value)
-        except ValueError:
+        except (ValueError, TypeError):
             # e.g. lambda function values
             lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(
                 param_info or {})
-- 
2.43.0


From 2e2d58d9846f7004720c675608fc05deb0264a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:16 +0000
Subject: [PATCH 078/144] fix: burn in was removed again from Cobaya chains
 where it has already been skipped

---
 python/getdist/cobaya_interface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 13b21a7..62637e1 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -83,7 +83,7 @@ def MCSamplesFromCobaya(info, collections, name_tag=None,
     # Check consistency with info
     info_params = get_info_params(info)
     # if skip burn in *has already been done*
-    skip = info.get(_post, {}).get("skip", 0)
+    skip = get_burn_removed(info)
     if ignore_rows != 0 and skip != 0:
         logging.warning("You are asking for rows to be ignored (%r), but some (%r) were "
                         "already ignored in the original chain.", ignore_rows, skip)
@@ -268,6 +268,6 @@ def get_sample_label(filename_or_info):
 
 
 def get_burn_removed(filename_or_info):
-    info = get_info_params(filename_or_info)
+    info = yaml_file_or_dict(filename_or_info)
     # if skip burn in *has already been done*
-    return info.get(_post, {}).get("skip", 0)
+    return (info.get(_post) or {}).get("skip", 0)
-- 
2.43.0


From 00cb36580b5b0f7f855fc6610bc691df3a8b26ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:31 +0000
Subject: [PATCH 079/144] fix: getting the range of a Cobaya parameter failed
 for dynamical parameters given as a string

---
 python/getdist/cobaya_interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 62637e1..0ad21bf 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -169,6 +169,7 @@ def get_info_params(info):
 
 # noinspection PyUnboundLocalVariable
 def get_range(param_info):
+    param_info = _info_param_dict(param_info)
     # Sampled
     if is_sampled_param(param_info):
         prior = param_info[_prior]
-- 
2.43.0


From 0754005e0c096299e894930bcb8a3d122731f777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:53 +0000
Subject: [PATCH 080/144] fix: upper end of the range of densities was extended
 more than the lower end when likelihoods are available

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 3f75213..eefac12 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -1355,7 +1355,7 @@ class MCSamples(Chains):
             if self.range_ND_contour >= par.ND_limit_bot.size:
                 raise SettingError("range_ND_contour should be -1 (off), or 0, 1 for first or second contour level")
             par.range_min = min(max(par.range_min - par.err, par.ND_limit_bot[self.range_ND_contour]), par.range_min)
-            par.range_max = max(max(par.range_max + par.err, par.ND_limit_top[self.range_ND_contour]), par.range_max)
+            par.range_max = max(min(par.range_max + par.err, par.ND_limit_top[self.range_ND_contour]), par.range_max)
 
         smooth_1D = par.sigma_range * 0.4
 
-- 
2.43.0


From a163cc4e3c08494d54e0455b689fe1c16bc8eca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:53 +0000
Subject: [PATCH 081/144] fix: automatic 2D bandwidth of bounded parameters
 depended on the sign of their correlation

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index eefac12..76b7040 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -1293,7 +1293,7 @@ class MCSamples(Chains):
                     # print 'derotated pars', hx, hy, c
             except ValueError as e:
                 hx, hy, c = fallback_widths(e)
-        elif abs(corr) > self.max_corr_2D or not do_correlated and corr > 0.8:
+        elif abs(corr) > self.max_corr_2D or not do_correlated and abs(corr) > 0.8:
             c = max(min(corr, self.max_corr_2D), -self.max_corr_2D)
             hx = parx.sigma_range / N_eff ** (1. / 6)
             hy = pary.sigma_range / N_eff ** (1. / 6)
-- 
2.43.0


From b96fde6b57689d0d47fdaac5f3b60217396b60c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:17 +0000
Subject: [PATCH 082/144] fix: plotting a normalized 1D density does not change
 the cached density used by later plots

---
 python/getdist/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index ab1729f..c9c008c 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -973,7 +973,8 @@ class GetDistPlotter(_BaseObject):
 
         title_limit = title_limit if title_limit is not None else self.settings.title_limit
         if normalized:
-            density.normalize()
+            # copy, as density may be cached and used again unnormalized
+            density = copy.copy(density).normalize()
 
         kwargs = self._get_line_styles(plotno, **kwargs)
         self.lines_added[plotno] = kwargs
-- 
2.43.0


From 4341ba308e8cdb05b61a7c4da9e8d7b8b64b6cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:17 +0000
Subject: [PATCH 083/144] fix: do not change settings.plot_args when making a
 plot

---
 python/getdist/plots.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index c9c008c..a15f1e5 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -770,12 +770,10 @@ class GetDistPlotter(_BaseObject):
         :return: The updated dict of arguments.
         """
         if isinstance(self.settings.plot_args, Mapping):
-            args = self.settings.plot_args
+            args = dict(self.settings.plot_args)
         elif isinstance(self.settings.plot_args, (list, tuple)):
             if len(self.settings.plot_args) > plotno:
-                args = self.settings.plot_args[plotno]
-                if args is None:
-                    args = {}
+                args = dict(self.settings.plot_args[plotno] or {})
             else:
                 args = {}
         elif not self.settings.plot_args:
-- 
2.43.0


From e642c1e72a3b3cc5172ae1f90810ebecc6a281c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:17 +0000
Subject: [PATCH 084/144] fix: do not change the line_args or contour_args
 lists given for a plot

---
 python/getdist/plots.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index a15f1e5..7e8d0de 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1364,6 +1364,7 @@ class GetDistPlotter(_BaseObject):
             line_args = [{}] * nroots
         elif isinstance(line_args, Mapping):
             line_args = [line_args] * nroots
+        line_args = list(line_args)  # do not modify list that was passed in
         if len(line_args) < nroots:
             line_args += [{}] * (nroots - len(line_args))
         colors = self._get_color_at_index(kwargs.get('colors'))
-- 
2.43.0


From 13460183694f79b3a4cdcfcb43720b6067053f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:17 +0000
Subject: [PATCH 085/144] fix: reloading samples discards the cached densities
 of the samples that are replaced

---
 python/getdist/plots.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 7e8d0de..4b1fff4 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -524,6 +524,7 @@ class MCSampleAnalysis(_BaseObject):
             dist_settings.update(self.ini.params)
             if settings:
                 dist_settings.update(settings)
+        self.remove_root(root)  # clear any cached densities from previously loaded samples
         self.mcsamples[root] = loadMCSamples(file_root, self.ini, job_item, settings=dist_settings)
         return self.mcsamples[root]
 
-- 
2.43.0


From e4f1caa2d94d45a6279b533b293188059e9defe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:17 +0000
Subject: [PATCH 086/144] fix: labels from label_params do not change the
 labels of the samples

---
 python/getdist/plots.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 4b1fff4..92e5bcc 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -643,6 +643,7 @@ class MCSampleAnalysis(_BaseObject):
             samples = self.samples_for_root(root)
             names = samples.getParamNames()
         if label_params is not None:
+            names = copy.deepcopy(names)  # labels for this use only, do not change those of the samples
             names.setLabelsAndDerivedFromParamNames(label_params)
         return names
 
-- 
2.43.0


From 974effc700e5d2dc6a5603e351b9a385e6c796b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:30 +0000
Subject: [PATCH 087/144] fix: plot_meanlikes uses the existing
 linewidth_meanlikes setting, and does not change the legend line

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 92e5bcc..698986a 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -982,7 +982,7 @@ class GetDistPlotter(_BaseObject):
         if kwargs.get('dashes'):
             l.set_dashes(kwargs['dashes'])
         if self.settings.plot_meanlikes:
-            kwargs['lw'] = self._scaled_linewidth(self.settings.linewidth_likes)
+            kwargs = dict(kwargs, lw=self._scaled_linewidth(self.settings.linewidth_meanlikes))
             ax.plot(density.x, density.likes, **kwargs)
         if title_limit:
             if isinstance(root, MixtureND):
-- 
2.43.0


From e1bdd146046c6f5b5f4091df0a02fde9cd7c914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:09 +0000
Subject: [PATCH 088/144] fix: command line removes burn in once, when given as
 a number of rows, and honours burn_removed and command line override

---
 python/getdist/command_line.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/getdist/command_line.py b/python/getdist/command_line.py
index df61b80..81e2780 100644
--- a/python/getdist/command_line.py
+++ b/python/getdist/command_line.py
@@ -70,6 +70,7 @@ def getdist_script(args, exit_on_error=True):
         ignorerows = args.ignore_rows
     else:
         ignorerows = ini.float('ignore_rows', 0.0)
+    ini.params['ignore_rows'] = ignorerows
 
     samples_are_chains = ini.bool('samples_are_chains', True)
 
@@ -145,10 +146,12 @@ def getdist_script(args, exit_on_error=True):
 
     mc.loadChains(in_root, chain_files)
 
-    mc.removeBurnFraction(ignorerows)
+    # any number of rows has already been removed by loadChains
+    if mc.ignore_frac:
+        mc.removeBurnFraction(mc.ignore_frac)
     if chains.print_load_details:
-        if ignorerows:
-            doprint('Removed %s as burn in' % ignorerows)
+        if mc.ignore_frac or mc.ignore_lines:
+            doprint('Removed %s as burn in' % (mc.ignore_frac or mc.ignore_lines))
         else:
             doprint('Removed no burn in')
 
-- 
2.43.0


From 3a68ad7de8f641c11b90d29fba5327b4aa48689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:09 +0000
Subject: [PATCH 089/144] fix: command line with default settings makes no
 plots also if the chain root is a pattern

---
 python/getdist/command_line.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/getdist/command_line.py b/python/getdist/command_line.py
index 81e2780..a6f917f 100644
--- a/python/getdist/command_line.py
+++ b/python/getdist/command_line.py
@@ -11,7 +11,7 @@ def runScript(fname):
 
 
 # noinspection PyUnboundLocalVariable,PyProtectedMember
-def getdist_script(args, exit_on_error=True):
+def getdist_script(args, exit_on_error=True, no_plots=False):
     def do_error(msg):
         if exit_on_error:
             print(msg)
@@ -24,7 +24,6 @@ def getdist_script(args, exit_on_error=True):
         result.append(" ".join([str(x) for x in s]))
         print(*s)
 
-    no_plots = False
     chain_root = args.chain_root
     if args.ini_file is None and chain_root is None:
         do_error('Must give either a .ini file of parameters or a chain file root name. Run "getdist -h" for help.')
@@ -45,7 +44,7 @@ def getdist_script(args, exit_on_error=True):
             for f in glob.glob(chain_root + ending):
                 fileargs = copy.copy(args)
                 fileargs.chain_root = f.replace(ending, '')
-                getdist_script(fileargs)
+                getdist_script(fileargs, exit_on_error, no_plots)
         return
 
     # Input parameters
-- 
2.43.0


From e7d7f37aaf1fc46dd90397b46f071f8aaee501d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:55 +0000
Subject: [PATCH 090/144] fix: plot scripts refer to the chains, not to the
 root name of the output files

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 76b7040..da921da 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2543,7 +2543,7 @@ class MCSamples(Chains):
             f.write("g=plots.GetDistPlotter(chain_dir=r'%s')\n" % (self.batch_path or os.path.dirname(self.root)))
 
             f.write("g.settings.set_with_subplot_size(%s)\n" % subplot_size)
-            f.write("roots = ['%s']\n" % self.rootname)
+            f.write("roots = ['%s']\n" % os.path.basename(self.root))
             f.write(text + '\n')
             ext = ext or self.plot_output
             fname = self.rootname + tag + '.' + ext
-- 
2.43.0


From 6e3a78062060cd5d30b3a3900ab0e9dfc997c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:39 +0000
Subject: [PATCH 091/144] fix: correlation length of chains with long
 correlations sums the correlations instead of ignoring all of them

---
 python/getdist/chains.py    | 3 ++-
 python/getdist/mcsamples.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 83d70f0..9fe050b 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -472,7 +472,8 @@ class WeightedSamples:
         """
         if corr is None:
             corr = self.getAutocorrelation(j, self.numrows // 10, weight_units=weight_units)
-        ix = np.argmin(corr > min_corr * corr[0])
+        # sum up to where the correlation falls below min_corr, or all values if it does not
+        ix = np.argmin(np.append(corr > min_corr * corr[0], False))
         N = corr[0] + 2 * np.sum(corr[1:ix])
         return N
 
diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index da921da..a0fba3c 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -883,7 +883,7 @@ class MCSamples(Chains):
                 for chain in chainlist:
                     corr += chain.getAutocorrelation(j, maxoff, normalized=False) * chain.norm
                 corr /= self.norm * self.vars[j]
-                ix = np.argmin(corr > 0.05 * corr[0])
+                ix = np.argmin(np.append(corr > 0.05 * corr[0], False))
                 N = corr[0] + 2 * np.sum(corr[1:ix])
                 maxN = max(N, maxN)
                 form = '%15.2E'
-- 
2.43.0


From ffa2ddfea3ee1718f146e90b27fcf83d09c4d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:14 +0000
Subject: [PATCH 092/144] fix: plot_2d_scatter with alpha_samples does not need
 a third parameter

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 698986a..0417bcf 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2811,7 +2811,7 @@ class GetDistPlotter(_BaseObject):
             filt = weights > max_weight / (100 * dup_fac)
             x = samples[0][filt]
             y = samples[1][filt]
-            z = samples[2][filt]
+            z = samples[-1][filt]  # third parameter, if any; not used if fixed color
             # split up high-weighted samples into multiple copies
             weights = weights[filt] / max_weight * dup_fac
             intweights = np.ceil(weights)
-- 
2.43.0


From aebbd7967b37b6178056aa7293876abc545da59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:45 +0000
Subject: [PATCH 093/144] fix: axes are found by the parameters plotted also if
 another root uses a different name for one of them

---
 python/getdist/plots.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 0417bcf..198e83c 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -960,7 +960,9 @@ class GetDistPlotter(_BaseObject):
         :return: min, max for the plotted density
         """
         param = self._check_param(root, param)
-        ax = self.get_axes(ax, pars=(param,))
+        ax = self.get_axes(ax)
+        if getattr(ax, 'getdist_params', None) is None:
+            ax.getdist_params = (param,)
         normalized = normalized if normalized is not None else self.settings.norm_1d_density
         if isinstance(root, MixtureND):
             density = root.density1D(param.name)
@@ -1049,7 +1051,8 @@ class GetDistPlotter(_BaseObject):
         ax = self.get_axes(ax)
         if density is None:
             param1, param2 = self.get_param_array(root, param_pair or [param1, param2])
-            ax.getdist_params = (param1, param2)
+            if getattr(ax, 'getdist_params', None) is None:
+                ax.getdist_params = (param1, param2)
             if isinstance(root, MixtureND):
                 density = root.marginalizedMixture(params=[param1, param2]).density2D()
             else:
@@ -2224,7 +2227,7 @@ class GetDistPlotter(_BaseObject):
                 else:
                     ax = self._subplot_number(0)
         if pars is not None and ax is not None:
-            ax.getdist_pars = pars
+            ax.getdist_params = pars
         return ax
 
     def _subplot(self, x, y, pars=None, **kwargs):
-- 
2.43.0


From 07263d8e56ef417300a5a61963591fb062264cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:45 +0000
Subject: [PATCH 094/144] fix: rectangle_plot with yroots or plot_roots needs
 no legend labels

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 198e83c..fb4a3d3 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2665,7 +2665,7 @@ class GetDistPlotter(_BaseObject):
         if roots:
             legend_labels = self._default_legend_labels(legend_labels, roots)
         self.finish_plot(legend_labels=legend_labels, label_order=label_order,
-                         legend_ncol=legend_ncol or self.settings.figure_legend_ncol or len(legend_labels))
+                         legend_ncol=legend_ncol or self.settings.figure_legend_ncol or len(legend_labels or []))
         return ax_arr
 
     def rotate_xticklabels(self, ax=None, rotation=90, labelsize=None):
-- 
2.43.0


From 40bf5088d8a9de0b01f5b5ba0561dfa5b8154073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:07 +0000
Subject: [PATCH 095/144] fix: only remove the .ini extension from parameter
 file names when submitting, not .ini elsewhere in their path

---
 python/paramgrid/jobqueue.py | 2 +-
 python/runMPI.py             | 2 +-
 python/runbatch.py           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index b65e821..b170e38 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -263,7 +263,7 @@ def submitJob(jobName, paramFiles, sequential=False, msg=False, **kwargs):
     if kwargs.get('dryrun', False) or paramFiles is None: return
 
     if isinstance(paramFiles, six.string_types): paramFiles = [paramFiles]
-    paramFiles = [ini.replace('.ini', '') for ini in paramFiles]
+    paramFiles = [ini[:-4] if ini.endswith('.ini') else ini for ini in paramFiles]
 
     j.runsPerJob = (len(paramFiles), 1)[sequential]
     # adjust omp for the actual number (may not be equal to input runsPerJob because of non-integer multiple)
diff --git a/python/runMPI.py b/python/runMPI.py
index 51ea967..7de32f8 100644
--- a/python/runMPI.py
+++ b/python/runMPI.py
@@ -12,6 +12,6 @@ jobqueue.addArguments(parser)
 
 args = parser.parse_args()
 
-ini = [ini.replace('.ini', '') for ini in args.iniFile]
+ini = [ini[:-4] if ini.endswith('.ini') else ini for ini in args.iniFile]
 
 jobqueue.submitJob(os.path.basename(ini[0]), ini, msg=True, **args.__dict__)
diff --git a/python/runbatch.py b/python/runbatch.py
index 429bd7e..7340863 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -78,7 +78,7 @@ def jobName():
 
 def submitJob(ini):
     global iniFiles
-    ini = ini.replace('.ini', '')
+    if ini.endswith('.ini'): ini = ini[:-4]
     if not args.dryrun:
         print('Submitting...' + ini)
     else:
-- 
2.43.0


From d79796f46494703e9b07ab3328f01b5f9da92cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:39 +0000
Subject: [PATCH 096/144] fix: CMBlikes does not use numpy type names that
 numpy has removed

---
 python/CMBlikes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index defb1dd..8d27eca 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -52,7 +52,7 @@ class ClsArray(object):
     def __init__(self, filename=None, camb_results=None, cols=None, field_names=['T', 'E', 'B', 'P'], rescale=None,
                  lmax=None):
         self.field_names = field_names
-        self.cls_array = np.zeros((len(field_names), len(field_names)), dtype=np.object)
+        self.cls_array = np.zeros((len(field_names), len(field_names)), dtype=object)
         self.cls_array[:, :] = None
         self.lmax = 0
         self.lmin = 0
@@ -83,7 +83,7 @@ class ClsArray(object):
             dat = np.loadtxt(filename)
             if isinstance(cols, six.string_types): cols = cols.split()
         Lix = cols.index('L')
-        L = dat[:, Lix].astype(np.int)
+        L = dat[:, Lix].astype(int)
         lmin = L[0]
         lmax = L[-1]
         if not add_only:
-- 
2.43.0


From 17d66cad1371216b75066663f19fc790ac0923a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:01 +0000
Subject: [PATCH 097/144] fix: CMBlikes maps_required does not add maps to the
 ones used in the likelihood

---
 python/CMBlikes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 8d27eca..50d3540 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -358,7 +358,7 @@ class DatasetLikelihood(object):
 
         # Bandpowers can depend on more fields than are actually used in likelihood
         # e.g. for correcting leakage or other linear corrections
-        self.require_map = self.use_map[:]
+        self.require_map = list(self.use_map)
         if self.has_map_names:
             if ini.hasKey('fields_required'):
                 raise Exception('CMBLikes: use maps_required not fields_required')
-- 
2.43.0


From adbdf276f82a2be01efcbf4f8204f0fdc0c26948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:01 +0000
Subject: [PATCH 098/144] fix: CMBlikes gaussian likelihood does not add the
 noise to the theory after having removed it from the band powers

---
 python/CMBlikes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 50d3540..1c9acc5 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -440,6 +440,7 @@ class DatasetLikelihood(object):
                 self.bandpowers += self.cl_noise
             elif self.like_approx == 'gaussian':
                 self.bandpowers -= self.cl_noise
+                self.cl_noise = None  # already removed, so not part of the theory
 
         self.cl_lmax = np.zeros((self.tot_theory_fields, self.tot_theory_fields))
         for i in range(self.tot_theory_fields):
-- 
2.43.0


From b00a9d0e72d6f32b4818befcedc229c4f31468a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:01 +0000
Subject: [PATCH 099/144] fix: forecast datasets can be made with an array of
 lensing noise, and from lensing only

---
 python/makePerfectForecastDataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/makePerfectForecastDataset.py b/python/makePerfectForecastDataset.py
index bbf283f..a94bd74 100644
--- a/python/makePerfectForecastDataset.py
+++ b/python/makePerfectForecastDataset.py
@@ -35,7 +35,7 @@ def make_forecast_cmb_dataset(input_cl_file, output_root, output_dir=None, noise
     :return:
     """
 
-    use_lensing = lens_recon_noise
+    use_lensing = lens_recon_noise is not None and len(lens_recon_noise) > 0
     use_CMB = noise_muK_arcmin_T or NoiseVar is not None
 
     ini = IniFile()
@@ -85,9 +85,10 @@ def make_forecast_cmb_dataset(input_cl_file, output_root, output_dir=None, noise
         f.write('#L %s\n' % noise_cols)
 
         for l in range(lmin, lmax + 1):
-            NoiseCl = l * (l + 1.) / 2 / np.pi * NoiseVar * np.exp(l * (l + 1) * sigma2)
             noises = []
-            if use_CMB: noises += [NoiseCl, ENoiseFac * NoiseCl, ENoiseFac * NoiseCl]
+            if use_CMB:
+                NoiseCl = l * (l + 1.) / 2 / np.pi * NoiseVar * np.exp(l * (l + 1) * sigma2)
+                noises += [NoiseCl, ENoiseFac * NoiseCl, ENoiseFac * NoiseCl]
             if use_lensing: noises += [lens_recon_noise[l]]
             f.write("%d " % l + " ".join("%E" % elem for elem in noises) + "\n")
 
-- 
2.43.0


From d09a0f840e3c628de724e96190e052ed7af88f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:01 +0000
Subject: [PATCH 100/144] fix: forecast datasets only use E polarization if its
 spectra are given

---
 python/makePerfectForecastDataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/makePerfectForecastDataset.py b/python/makePerfectForecastDataset.py
index a94bd74..b8b6513 100644
--- a/python/makePerfectForecastDataset.py
+++ b/python/makePerfectForecastDataset.py
@@ -59,8 +59,8 @@ def make_forecast_cmb_dataset(input_cl_file, output_root, output_dir=None, noise
             raise ValueError('Specific either noise_muK_arcmin or NoiseVar')
         if not fields_use:
             fields_use = ''
-            if 'TT' or 'TE' in cl_data_cols: fields_use = 'T'
-            if 'EE' or 'TE' in cl_data_cols: fields_use += ' E'
+            if 'TT' in cl_data_cols or 'TE' in cl_data_cols: fields_use = 'T'
+            if 'EE' in cl_data_cols or 'TE' in cl_data_cols: fields_use += ' E'
             if 'BB' in cl_data_cols: fields_use += ' B'
             if 'PP' in cl_data_cols and use_lensing: fields_use += ' P'
     else:
-- 
2.43.0


From c0a8c8a9f05e53bfbe664ec7c5b8fef341fd652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:50 +0000
Subject: [PATCH 101/144] fix: SN likelihood does not use numpy type names that
 numpy has removed

---
 python/planck/SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/SN.py b/python/planck/SN.py
index 006ee81..ae4c593 100644
--- a/python/planck/SN.py
+++ b/python/planck/SN.py
@@ -175,7 +175,7 @@ class SN_likelihood(object):
             self.int_points = _int_points
             self.alpha_grid = self.alpha_grid[:_int_points]
             self.beta_grid = self.beta_grid[:_int_points]
-            self.invcovs = np.empty(_int_points, dtype=np.object)
+            self.invcovs = np.empty(_int_points, dtype=object)
             if precompute_covmats:
                 for i, (alpha, beta) in enumerate(zip(self.alpha_grid, self.beta_grid)):
                     self.invcovs[i] = self.inverse_covariance_matrix(alpha, beta)
-- 
2.43.0


From 3481c8ee4bf7f96722b09f12a8cb0d233d3bf349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:27 +0000
Subject: [PATCH 102/144] fix: SN likelihood data files may have blank lines

---
 python/planck/SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/SN.py b/python/planck/SN.py
index ae4c593..8a5351a 100644
--- a/python/planck/SN.py
+++ b/python/planck/SN.py
@@ -88,7 +88,7 @@ class SN_likelihood(object):
                         if rename in cols:
                             cols[cols.index(rename)] = new
                     self.has_third_var = 'third_var' in cols
-                    zeros = np.zeros(len(lines) - 1)
+                    zeros = np.zeros(len([x for x in lines if x.strip() and '#' not in x]))
                     self.third_var = zeros.copy()
                     self.dthird_var = zeros.copy()
                     self.set = zeros.copy()
-- 
2.43.0


From d9d2c93755a6cce8d364fd289be324bf2d61299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:27 +0000
Subject: [PATCH 103/144] fix: SN likelihood can be marginalized without
 precomputed matrices if only magnitudes have a covariance

---
 python/planck/SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/SN.py b/python/planck/SN.py
index 8a5351a..bacdc26 100644
--- a/python/planck/SN.py
+++ b/python/planck/SN.py
@@ -180,7 +180,7 @@ class SN_likelihood(object):
                 for i, (alpha, beta) in enumerate(zip(self.alpha_grid, self.beta_grid)):
                     self.invcovs[i] = self.inverse_covariance_matrix(alpha, beta)
 
-        elif not self.alphabeta_covmat:
+        if not self.alphabeta_covmat:
             self.inverse_covariance_matrix()
 
     def _read_covmat(self, filename):
-- 
2.43.0


From 5e17e9716d14041e3ca88942fe5fd5df88e94791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:47 +0000
Subject: [PATCH 104/144] fix: makeTables --columns gives the number of columns

---
 python/makeTables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/makeTables.py b/python/makeTables.py
index 8ca38e1..4f6050d 100644
--- a/python/makeTables.py
+++ b/python/makeTables.py
@@ -45,7 +45,7 @@ Opts.parser.add_argument('--paramNameFile', default='clik_latex.paramnames',
 Opts.parser.add_argument('--paramList', default=None,
                          help=".paramnames file listing specific parameters to include (only)")
 Opts.parser.add_argument('--blockEndParams', default=None)
-Opts.parser.add_argument('--columns', type=int, nargs=1, default=3)
+Opts.parser.add_argument('--columns', type=int, default=3)
 Opts.parser.add_argument('--compare', nargs='+', default=None)
 
 Opts.parser.add_argument('--titles', default=None)  # for compare plots
-- 
2.43.0


From e0e8e3118469b23c19fa89c58ee2dbcd043f1b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:47 +0000
Subject: [PATCH 105/144] fix: makeTables --all_limits with an output directory
 finds files and writes all tables

---
 python/makeTables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/makeTables.py b/python/makeTables.py
index 4f6050d..5a159ce 100644
--- a/python/makeTables.py
+++ b/python/makeTables.py
@@ -327,6 +327,7 @@ for limit in limits:
     if not args.forpaper:
         print('Now converting to PDF...')
         delext = ['aux', 'log', 'out', 'toc']
+        workdir = os.getcwd()
         if len(outdir) > 0:
             os.chdir(outdir)
         for _ in range(3):
@@ -335,3 +336,4 @@ for limit in limits:
         for ext in delext:
             if os.path.exists(root + '.' + ext):
                 os.remove(root + '.' + ext)
+        os.chdir(workdir)
-- 
2.43.0


From 30e1dadcdfd6170abc16fcc68ff9c1c00c66d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:50 +0000
Subject: [PATCH 106/144] fix: runningJobs without a grid lists the jobs of the
 default job index

---
 python/runningJobs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/runningJobs.py b/python/runningJobs.py
index d7d6709..de15488 100644
--- a/python/runningJobs.py
+++ b/python/runningJobs.py
@@ -21,7 +21,7 @@ else:
 ids, jobNames, nameslist, infos = jobqueue.queue_job_details(args.batchPath, running=not args.queued,
                                                              queued=not args.running)
 for jobId, jobName, names, info in zip(ids, jobNames, nameslist, infos):
-    if batchNames.intersection(set(names)):
+    if not batch or batchNames.intersection(set(names)):
         stats = dict()
         if batch:
             for name in names:
-- 
2.43.0


From 649e11d354c36892460c1aebe5ec0e322e3fc414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:50 +0000
Subject: [PATCH 107/144] fix: chainPeek shows the chain with the given index

---
 python/chainPeek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/chainPeek.py b/python/chainPeek.py
index 86641f8..b96ece2 100644
--- a/python/chainPeek.py
+++ b/python/chainPeek.py
@@ -15,7 +15,7 @@ if len(sys.argv) < 3:
 chain = os.path.abspath(sys.argv[1])
 param = sys.argv[2]
 index = 1
-if len(sys.argv) > 4: index = int(sys.argv[3])
+if len(sys.argv) > 3: index = int(sys.argv[3])
 
 d = np.loadtxt(chain + '_' + str(index) + '.txt')
 names = paramnames.ParamNames(chain + '.paramnames')
-- 
2.43.0


From f22a2e1cca0f7de7326cb718201c19049f1122c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:50 +0000
Subject: [PATCH 108/144] fix: makeParamCompare writes its table to the current
 or a new directory

---
 python/makeParamCompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/makeParamCompare.py b/python/makeParamCompare.py
index b33e8c1..db463b3 100644
--- a/python/makeParamCompare.py
+++ b/python/makeParamCompare.py
@@ -93,5 +93,5 @@ for i, par in enumerate(args.params):
 if args.latex_filename is not None:
     if args.latex_filename.find('.') < 0: args.latex_filename += '.tex'
     (outdir, outname) = os.path.split(args.latex_filename)
-    if not os.path.exists(outdir): os.makedirs(os.path.dirname(outdir))
+    if outdir and not os.path.exists(outdir): os.makedirs(outdir)
     types.TextFile(lines).write(args.latex_filename)
-- 
2.43.0


From 9ca4d05de1c02ff10b382e8842a16954884cd1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:12 +0000
Subject: [PATCH 109/144] fix: ignore_rows with samples given as a list of
 parameter vectors removes rows rather than parameters

---
 python/getdist/chains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 9fe050b..cc2e12d 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -244,6 +244,8 @@ class WeightedSamples:
             self.setColData(cols, are_chains=files_are_chains)
             self.name_tag = name_tag or os.path.basename(filename)
         else:
+            if isinstance(samples, (list, tuple)):
+                samples = np.hstack([x.reshape(-1, 1) for x in samples])
             self.setSamples(slice_or_none(samples, ignore_rows),
                             slice_or_none(weights, ignore_rows),
                             slice_or_none(loglikes, ignore_rows))
-- 
2.43.0


From 6d61223231e910197fbf42b49e942e76cae3b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:48 +0000
Subject: [PATCH 110/144] fix: cooling samples with a large range of
 likelihoods gave infinite weights

---
 python/getdist/chains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index cc2e12d..0f35802 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -987,7 +987,8 @@ class WeightedSamples:
 
         :param cool: cool factor
         """
-        MaxL = np.max(self.loglikes)
+        # largest factor is one, so that weights cannot overflow
+        MaxL = np.max(self.loglikes) if cool < 1 else np.min(self.loglikes)
         newL = self.loglikes * cool
         self.weights = np.asarray(self.weights, dtype=np.float64) \
                        * np.exp(-(newL - self.loglikes) - (MaxL * (1 - cool)))
-- 
2.43.0


From 7d840606cc4ec4d01fd390a79bd64db248dc4b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:03 +0000
Subject: [PATCH 111/144] fix: getBounds depended on which densities had been
 calculated before

---
 python/getdist/mcsamples.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index a0fba3c..1c4443a 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2072,9 +2072,12 @@ class MCSamples(Chains):
 
         :return: a :class:`~.parampriors.ParamBounds` instance
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         bounds = ParamBounds()
         bounds.names = self.paramNames.list()
         for par in self.paramNames.names:
+            self._initParamRanges(par.name)
             if par.has_limits_bot:
                 bounds.lower[par.name] = par.limmin
             if par.has_limits_top:
-- 
2.43.0


From d507452bdbbb2fa3db18171b74ae7178e271f943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:03 +0000
Subject: [PATCH 112/144] fix: getUpper and getLower gave the old limits after
 setRanges

---
 python/getdist/mcsamples.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 1c4443a..18bf39e 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2091,6 +2091,8 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The upper limit if name exists, None otherwise.
         """
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmax', None)
@@ -2103,6 +2105,8 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The lower limit if name exists, None otherwise.
         """
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmin', None)
-- 
2.43.0


From 308b68e8b94e5db8e13635077c279f685a523ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:03 +0000
Subject: [PATCH 113/144] fix: getParamBestFitDict ignored want_derived and
 want_fixed for the best sample

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 18bf39e..a5a65d2 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2370,7 +2370,7 @@ class MCSamples(Chains):
         if best_sample:
             if not max_posterior:
                 raise ValueError('best_fit_sample is only maximum posterior')
-            return self.getParamSampleDict(np.argmin(self.loglikes))
+            return self.getParamSampleDict(np.argmin(self.loglikes), want_derived=want_derived, want_fixed=want_fixed)
         else:
             res = self.getBestFit(max_posterior=max_posterior).getParamDict(include_derived=want_derived)
         if want_fixed:
-- 
2.43.0


From 15a66167557147ab6098bdfe08a606845b3fd12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:03 +0000
Subject: [PATCH 114/144] fix: MCSamples with ignore_rows changed the settings
 dictionary of the caller

---
 python/getdist/mcsamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index a5a65d2..7c088c4 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -220,9 +220,7 @@ class MCSamples(Chains):
         self.rootdirname = ""
         self.indep_thin = 0
         if 'ignore_rows' in kwargs:
-            if settings is None:
-                settings = {}
-            settings['ignore_rows'] = kwargs['ignore_rows']
+            settings = dict(settings or {}, ignore_rows=kwargs['ignore_rows'])
         self.ignore_rows = float(kwargs.get('ignore_rows', 0))
         # Do not remove burn-in for nested sampler samples
         if self.sampler == "nested" and not np.isclose(self.ignore_rows, 0):
-- 
2.43.0


From a8e479735ee21e8d77f94269f7f2da1768075367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:03 +0000
Subject: [PATCH 115/144] fix: cooled thinned output with a large range of
 likelihoods had infinite weights

---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 7c088c4..30956df 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -561,7 +561,8 @@ class MCSamples(Chains):
         nparams = self.samples.shape[1]
         if cool != 1:
             logging.info('Cooled thinned output with temp: %s', cool)
-        MaxL = np.max(self.loglikes)
+        # largest weight is one, so that weights cannot overflow
+        MaxL = np.max(self.loglikes) if cool < 1 else np.min(self.loglikes)
         with open(fname, 'w', encoding='utf-8') as f:
             for thin in thin_ix:
                 if cool != 1:
-- 
2.43.0


From 1fb5df1357caba3e33da4f234e10d3b10473844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:36 +0000
Subject: [PATCH 116/144] fix: table columns of results with best fits were
 shifted if a parameter was missing from an earlier one

---
 python/getdist/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 74b503b..bf1585b 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -380,7 +380,8 @@ class ResultTable:
             txt += self.format.textAsColumn(values[0], values[0] != self.format.noConstraint)
             return txt
         else:
-            return self.format.textAsColumn('') * len(result.getColumnLabels(self.limit))
+            return self.format.colSeparator.join(
+                [self.format.textAsColumn('')] * len(result.getColumnLabels(self.limit)))
 
     def paramLabelColumn(self, param):
         return self.format.textAsColumn(param.getLabel(), True, separator=True, bold=not param.isDerived)
-- 
2.43.0


From 38235d6bf292eba42442c401889348c2de08ce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:36 +0000
Subject: [PATCH 117/144] fix: parameter shifts for independent data alone were
 written with a leading comma

---
 python/getdist/types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index bf1585b..2e7e272 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -808,16 +808,16 @@ class MargeStats(ParamResults):
                 if refVal is not None:
                     delta = param.mean - refVal.mean
                     if shiftSigma_indep or shiftSigma_subset:
-                        res += r'\quad('
+                        shifts = []
                         if shiftSigma_subset:
                             # give mean shift in sigma units for subset data (regularized to max sigma/20)
                             subset_sigma = np.sqrt(abs(param.err ** 2 - refVal.err ** 2))
-                            res += '%+.1f \\sigma_s' % (delta / max(subset_sigma, refVal.err / 20))
+                            shifts.append('%+.1f \\sigma_s' % (delta / max(subset_sigma, refVal.err / 20)))
                         if shiftSigma_indep:
                             # give mean shift in sigma units for independent data
                             indep_sigma = np.sqrt(param.err ** 2 + refVal.err ** 2)
-                            res += ', %+.1f \\sigma_i' % (delta / indep_sigma)
-                        res += ')'
+                            shifts.append('%+.1f \\sigma_i' % (delta / indep_sigma))
+                        res += r'\quad(%s)' % ', '.join(shifts)
                     else:
                         res += r'\quad(%+.1f \sigma)' % (delta / refVal.err)
             if self.hasBestFit:  # add best fit too
-- 
2.43.0


From 7b6c0328317a67ceae8f1c65b11133abec1982b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:20 +0000
Subject: [PATCH 118/144] fix: samples_are_chains = F had no effect, so chain
 columns were taken as weights and likelihoods

---
 python/getdist/chains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 0f35802..6799b42 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1103,6 +1103,7 @@ class Chains(WeightedSamples):
         super().__init__(**kwargs)
         self.jobItem = jobItem
         self.ignore_lines = float(kwargs.get('ignore_rows', 0))
+        self.files_are_chains = kwargs.get('files_are_chains', True)
         self.root = root
         if not paramNamesFile and root:
             if os.path.exists(root + '.paramnames'):
@@ -1383,7 +1384,7 @@ class Chains(WeightedSamples):
         self.loglikes = None
         if ignore_lines is None:
             ignore_lines = self.ignore_lines
-        WSkwargs = {"ignore_rows": ignore_lines,
+        WSkwargs = {"ignore_rows": ignore_lines, "files_are_chains": self.files_are_chains,
                     "min_weight_ratio": self.min_weight_ratio}
         if hasattr(files_or_samples, '__len__') and not len(files_or_samples) or files_or_samples is None:
             raise ValueError('files_or_samples empty in loadChains')
-- 
2.43.0


From 52a9a2ba3d916b47e6321b9ee01aa8e57c6b4fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:20 +0000
Subject: [PATCH 119/144] fix: command-line patterns matching Cobaya
 descriptions gave chain roots with a trailing dot

---
 python/getdist/command_line.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/getdist/command_line.py b/python/getdist/command_line.py
index a6f917f..ad0b171 100644
--- a/python/getdist/command_line.py
+++ b/python/getdist/command_line.py
@@ -43,7 +43,10 @@ def getdist_script(args, exit_on_error=True, no_plots=False):
         for ending in ['.paramnames', 'updated.yaml']:
             for f in glob.glob(chain_root + ending):
                 fileargs = copy.copy(args)
-                fileargs.chain_root = f.replace(ending, '')
+                # e.g. x.paramnames, x.updated.yaml or x/updated.yaml
+                fileargs.chain_root = f[:-len(ending)]
+                if ending == 'updated.yaml' and fileargs.chain_root.endswith('.'):
+                    fileargs.chain_root = fileargs.chain_root[:-1]
                 getdist_script(fileargs, exit_on_error, no_plots)
         return
 
-- 
2.43.0


From fedd32e0a42ac86594d19ac4af4ab9c21ecf1f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 120/144] fix: makePlots.py failed for every grid (option
 renamed), and for any number of plots per row

---
 python/makePlots.py               | 2 +-
 python/paramgrid/batchjob_args.py | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/makePlots.py b/python/makePlots.py
index ca5688b..ad8ee9c 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -44,7 +44,7 @@ def doplot(roots):
     elif args.tri_params is not None:
         g.triangle_plot(roots, args.tri_params, legend_labels=args.legend_labels, filled_compare=args.filled)
     else:
-        g.plots_1d(roots, paramList=args.paramList, nx=args.nx, legend_labels=args.legend_labels, legend_ncol=ncol)
+        g.plots_1d(roots, param_list=args.param_list, nx=args.nx, legend_labels=args.legend_labels, legend_ncol=ncol)
 
 
 def comparePlot(jobItems):
diff --git a/python/paramgrid/batchjob_args.py b/python/paramgrid/batchjob_args.py
index 6e15be5..08f1eba 100644
--- a/python/paramgrid/batchjob_args.py
+++ b/python/paramgrid/batchjob_args.py
@@ -72,7 +72,7 @@ class batchArgs(object):
             self.parser.add_argument('--param_list', default=None,
                                      help=".paramnames file listing specific parameters to include (only)")
             self.parser.add_argument('--size_inch', type=float, default=None, help='output subplot size in inches')
-            self.parser.add_argument('--nx', default=None, help='number of plots per row')
+            self.parser.add_argument('--nx', type=int, default=None, help='number of plots per row')
             self.parser.add_argument('--outputs', nargs='+', default=['pdf'], help='output file type (default: pdf)')
 
         args = self.parser.parse_args(vals)
@@ -83,9 +83,7 @@ class batchArgs(object):
                 raise Exception('batchPath %s does not exist or is not initialized with makeGrid.py' % args.batchPath)
             if self.doplots:
                 import getdist.plots as plots
-                from getdist import paramnames
 
-                if args.paramList is not None: args.paramList = paramnames.ParamNames(args.paramList)
                 g = plots.GetDistPlotter(chain_dir=self.batch.batchPath)
                 if args.size_inch is not None: g.settings.setWithSubplotSize(args.size_inch)
                 return self.batch, self.args, g
-- 
2.43.0


From 278ec9b0f33aa1c4632ad0e4d4263806a9b51b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:13 +0000
Subject: [PATCH 121/144] fix: makePlots.py lost the output tag of 2D and
 triangle plots

---
 python/makePlots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/makePlots.py b/python/makePlots.py
index ad8ee9c..9412cf7 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -54,8 +54,8 @@ def comparePlot(jobItems):
 tp = ''
 if args.data is not None and len(args.data) == 1 and args.compare_alldata is not None: tp = '_' + args.data[0] + tp
 if args.outtag is not None: tp = '_' + args.outtag + tp
-if args.D2_param is not None: tp = '_' + args.D2_param + '_2D'
-if args.tri_params is not None: tp = '_tri'
+if args.D2_param is not None: tp = '_' + args.D2_param + '_2D' + tp
+if args.tri_params is not None: tp = '_tri' + tp
 
 if args.compare_replacing is not None:
     if args.data is None:
-- 
2.43.0


From 878c811c717aaa322fa332af7a88b57db8c6e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:25 +0000
Subject: [PATCH 122/144] fix: makePlots.py stopped with an error if a chain to
 compare with does not exist

---
 python/makePlots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/makePlots.py b/python/makePlots.py
index 9412cf7..9c939e8 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -106,8 +106,8 @@ for paramtag, parambatch in items:
                 print('plotting: ' + jobItem.name)
                 roots = [jobItem.name]
                 for imp in jobItem.importanceItems:
-                    if len(args.compare_importance) == 0 or imp.importanceTag in args.compare_importance: roots.append(
-                        imp.name)
+                    if imp.chainExists() and (len(args.compare_importance) == 0 or
+                                              imp.importanceTag in args.compare_importance): roots.append(imp.name)
                 doplot(roots)
                 for ext in args.outputs: g.export(outdir + jobItem.name + tp + '.' + ext)
     elif args.compare_paramtag is not None:
@@ -117,7 +117,7 @@ for paramtag, parambatch in items:
                 print('plotting: ' + output)
                 roots = [batch.normed_name_item(tag + '_' + jobItem.normed_data, wantImportance=True) for tag in
                          args.compare_paramtag]
-                roots = [jobItem.name] + [root.name for root in roots if root is not None]
+                roots = [jobItem.name] + [root.name for root in roots if root is not None and root.chainExists()]
                 if len(roots) > 1:
                     doplot(roots)
                     for ext in args.outputs: g.export(outdir + output + tp + '.' + ext)
-- 
2.43.0


From 9adc89d14071adc954507d422d140cd9f8368027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:52 +0000
Subject: [PATCH 123/144] fix: the CamSpec likelihood could not be loaded (file
 name not stored, removed numpy types)

---
 python/planck/CMB_CamSpec.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index df333b0..c590b16 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -42,6 +42,7 @@ class CamSpec_likelihood(object):
 
     def __init__(self, dataset, dataset_params={}, silent=False):
         if not silent: print('loading: %s' % dataset)
+        self.dataset_file = dataset
         ini = IniFile(dataset)
         ini.params.update(dataset_params)
         spectra = np.loadtxt(ini.relativeFileName('cl_hat_file'))
@@ -61,15 +62,15 @@ class CamSpec_likelihood(object):
         data_vector = []
         nX = 0
         used_indices = []
-        with open(ini.relativeFileName('data_ranges', "r")) as f:
+        with open(ini.relativeFileName('data_ranges')) as f:
             lines = f.readlines()
             while not lines[-1].strip(): lines = lines[:-1]
             self.Nspec = len(lines)
-            lmin = np.zeros(self.Nspec, dtype=np.int)
-            lmax = np.zeros(self.Nspec, dtype=np.int)
+            lmin = np.zeros(self.Nspec, dtype=int)
+            lmax = np.zeros(self.Nspec, dtype=int)
             self.cl_names = []
-            self.ell_ranges = np.empty(self.Nspec, dtype=np.object)
-            self.used_sizes = np.zeros(self.Nspec, dtype=np.int)
+            self.ell_ranges = np.empty(self.Nspec, dtype=object)
+            self.used_sizes = np.zeros(self.Nspec, dtype=int)
             for i, line in enumerate(lines):
                 items = line.split()
                 tp = items[0]
@@ -85,7 +86,7 @@ class CamSpec_likelihood(object):
                             else:
                                 ells = used_ell
                             self.ell_ranges[i] = np.array([L for L in range(lmin[i], lmax[i] + 1) if L in ells],
-                                                          dtype=np.int)
+                                                          dtype=int)
                             used_indices.append(self.ell_ranges[i] + (nX - lmin[i]))
                         else:
                             used_indices.append(range(nX, nX + n))
@@ -248,7 +249,7 @@ class CamSpec_likelihood(object):
         lmin = np.min([min(r) for r in self.ell_ranges[:4]])
         lmax = np.max([max(r) for r in self.ell_ranges[:4]])
         n_p = lmax - lmin + 1
-        LS = np.zeros(delta_vector.shape, dtype=np.int)
+        LS = np.zeros(delta_vector.shape, dtype=int)
         ix = 0
         for i, (cal, n) in enumerate(zip(cals[:4], self.used_sizes[:4])):
             if n > 0:
@@ -262,7 +263,7 @@ class CamSpec_likelihood(object):
         ix1 = 0
         Loffsets = [LS - lmin for LS in self.ell_ranges[:4]]
         contiguous = not np.any(
-            [np.count_nonzero(LS - np.arange(LS[0], LS[-1] + 1, dtype=np.int)) for LS in self.ell_ranges[:4]])
+            [np.count_nonzero(LS - np.arange(LS[0], LS[-1] + 1, dtype=int)) for LS in self.ell_ranges[:4]])
         for i, (cal, LS, n) in enumerate(zip(cals[:4], Loffsets, self.used_sizes[:4])):
             dL[LS] += d[ix1:ix1 + n] / cal
             ix = 0
-- 
2.43.0


From 1bc468a75a416f1eb375c6e42970858af9c8ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:52 +0000
Subject: [PATCH 124/144] fix: single multipoles in the range used by the
 CamSpec likelihood gave an error

---
 python/planck/CMB_CamSpec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index c590b16..b125421 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -21,7 +21,7 @@ def range_to_ells(use_range):
                 mn, mx = [int(x) for x in ell_range.split('-')]
                 ranges.append(range(mn, mx + 1))
             else:
-                ranges.append(int(ell_range))
+                ranges.append([int(ell_range)])
         return np.concatenate(ranges)
     else:
         return use_range
-- 
2.43.0


From 4b2cc6660911630a0780ea640083eeec5cd716a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:52 +0000
Subject: [PATCH 125/144] fix: loading the CamSpec likelihood changed the
 dictionary of settings passed to it

---
 python/planck/CMB_CamSpec.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index b125421..2fce8e2 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -52,8 +52,7 @@ class CamSpec_likelihood(object):
             used_ell = ini.params['use_range']
             if isinstance(used_ell, dict):
                 print('Using range %s' % used_ell)
-                for key, value in used_ell.items():
-                    used_ell[key] = range_to_ells(value)
+                used_ell = {key: range_to_ells(value) for key, value in used_ell.items()}
             else:
                 if not silent: print('Using range: %s' % used_ell)
                 used_ell = range_to_ells(used_ell)
-- 
2.43.0


From 99c752b6880fa734887fb4ded9c980edc37075eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:52 +0000
Subject: [PATCH 126/144] fix: the CamSpec CIB foreground used logarithms
 rounded to integers

---
 python/planck/CMB_CamSpec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index 2fce8e2..436ff40 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -126,7 +126,7 @@ class CamSpec_likelihood(object):
                                    self.read_normalized(ini.relativeFileName('dust143file'))[:max_l + 1],
                                    self.read_normalized(ini.relativeFileName('dust217file'))[:max_l + 1],
                                    self.read_normalized(ini.relativeFileName('dust143x217file'))[:max_l + 1]))
-            self.lnrat = self.ls * 0
+            self.lnrat = np.zeros(self.ls.shape)
             l_min = np.min(lmin[self.cl_used])
             self.lnrat[l_min:] = np.log(self.ls[l_min:] / np.float64(pivot))
 
-- 
2.43.0


From d4a2c4f851120b19a178b19e3a18a01945e22ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:52 +0000
Subject: [PATCH 127/144] fix: the CamSpec likelihood depended on whether its
 inverse covariance was cached, and on out-of-date cache files

---
 python/planck/CMB_CamSpec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index 436ff40..a77b3b0 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -132,12 +132,12 @@ class CamSpec_likelihood(object):
 
         import hashlib
         cache_file = self.dataset_file.replace('.dataset', '_covinv_%s.npy' % hashlib.md5(
-            str(ini.params).encode('utf8')).hexdigest())
+            self.cov.tobytes()).hexdigest())
         if use_cache and os.path.exists(cache_file):
             self.covinv = np.load(cache_file).astype(np.float64)
         else:
             self.covinv = np.linalg.inv(self.cov)
-            if use_cache: np.save(cache_file, self.covinv.astype(np.float32))
+            if use_cache: np.save(cache_file, self.covinv)
 
     def get_foregrounds(self, data_params):
 
-- 
2.43.0


From ef32f472a6dbb5fa4904f3336aa620fec9a8c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:21 +0000
Subject: [PATCH 128/144] fix: co-adding CamSpec spectra failed if some spectra
 were not used, or for ranges with gaps

---
 python/planck/CMB_CamSpec.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index a77b3b0..057c9bc 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -69,6 +69,8 @@ class CamSpec_likelihood(object):
             lmax = np.zeros(self.Nspec, dtype=int)
             self.cl_names = []
             self.ell_ranges = np.empty(self.Nspec, dtype=object)
+            for i in range(self.Nspec):
+                self.ell_ranges[i] = np.array([], dtype=int)
             self.used_sizes = np.zeros(self.Nspec, dtype=int)
             for i, line in enumerate(lines):
                 items = line.split()
@@ -245,8 +247,8 @@ class CamSpec_likelihood(object):
             data_vector = self.data_vector
         delta_vector = data_vector[:nTT].copy()
         cal_vector = np.zeros(delta_vector.shape)
-        lmin = np.min([min(r) for r in self.ell_ranges[:4]])
-        lmax = np.max([max(r) for r in self.ell_ranges[:4]])
+        lmin = np.min([min(r) for r in self.ell_ranges[:4] if len(r)])
+        lmax = np.max([max(r) for r in self.ell_ranges[:4] if len(r)])
         n_p = lmax - lmin + 1
         LS = np.zeros(delta_vector.shape, dtype=int)
         ix = 0
@@ -261,12 +263,13 @@ class CamSpec_likelihood(object):
         dL = np.zeros(n_p)
         ix1 = 0
         Loffsets = [LS - lmin for LS in self.ell_ranges[:4]]
-        contiguous = not np.any(
-            [np.count_nonzero(LS - np.arange(LS[0], LS[-1] + 1, dtype=int)) for LS in self.ell_ranges[:4]])
+        contiguous = all(len(LS) == 0 or LS[-1] - LS[0] + 1 == len(LS) for LS in self.ell_ranges[:4])
         for i, (cal, LS, n) in enumerate(zip(cals[:4], Loffsets, self.used_sizes[:4])):
+            if not n: continue
             dL[LS] += d[ix1:ix1 + n] / cal
             ix = 0
             for cal2, r in zip(cals[:4], Loffsets):
+                if not len(r): continue
                 if contiguous:
                     pcov[LS[0]:LS[0] + n, r[0]:r[0] + len(r)] += self.covinv[ix1:ix1 + n, ix:ix + len(r)] / (
                             cal2 * cal)
-- 
2.43.0


From 95e26673281ec72ec812b0e5bd0c35bf9c74bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:21 +0000
Subject: [PATCH 129/144] fix: the weights of CamSpec spectra used a variable
 that is only defined in the script

---
 python/planck/CMB_CamSpec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index 057c9bc..dccb068 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -296,8 +296,8 @@ class CamSpec_likelihood(object):
         f = self.get_foregrounds(data_params) * 0
         weights = []
         for i in range(4):
-            ells = camspec.ell_ranges[i]
-            vec = np.zeros(camspec.data_vector.shape)
+            ells = self.ell_ranges[i]
+            vec = np.zeros(self.data_vector.shape)
             vec[ix:ix + len(ells)] = 1
             Ti = self.coadded_TT(data_params, data_vector=vec, want_cov=False, foregrounds=f)
             weights.append((ells, Ti[ells]))
-- 
2.43.0


From db0ba6a462b91d70870a56a0007a7cac8ec753f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:43 +0000
Subject: [PATCH 130/144] fix: the DES likelihood used numpy type names that no
 longer exist

---
 python/planck/DES.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/python/planck/DES.py b/python/planck/DES.py
index 034fc71..45b4796 100644
--- a/python/planck/DES.py
+++ b/python/planck/DES.py
@@ -147,10 +147,10 @@ class DES_like(object):
         self.thetas = []
         for i, tp in enumerate(self.data_types):
             xi = np.loadtxt(ini.relativeFileName('measurements[%s]' % tp))
-            bin1 = xi[:, 0].astype(np.int) - 1
-            bin2 = xi[:, 1].astype(np.int) - 1
-            tbin = xi[:, 2].astype(np.int) - 1
-            corr = np.empty((maxbin, maxbin), dtype=np.object)
+            bin1 = xi[:, 0].astype(int) - 1
+            bin2 = xi[:, 1].astype(int) - 1
+            tbin = xi[:, 2].astype(int) - 1
+            corr = np.empty((maxbin, maxbin), dtype=object)
             corr[:, :] = None
             self.data_arrays.append(corr)
             self.bin_pairs.append([])
@@ -214,9 +214,9 @@ class DES_like(object):
                 cov_ix += 1
 
         self.nzbins = 4  # for lensing sources
-        corrs_p = np.empty((self.nzbins, self.nzbins), dtype=np.object)
+        corrs_p = np.empty((self.nzbins, self.nzbins), dtype=object)
         corrs_p[:, :] = None
-        corrs_m = np.empty((self.nzbins, self.nzbins), dtype=np.object)
+        corrs_m = np.empty((self.nzbins, self.nzbins), dtype=object)
         corrs_m[:, :] = None
         ntheta = 20
         self.theta_bins = np.empty(ntheta)
@@ -229,7 +229,7 @@ class DES_like(object):
                 corrs[f1, f2][ix] = dat
 
         self.nwbins = 5  # for galaxies
-        corrs_w = np.empty((self.nwbins, self.nwbins), dtype=np.object)
+        corrs_w = np.empty((self.nwbins, self.nwbins), dtype=object)
         for f1 in range(self.nwbins):
             corrs_w[f1, f1] = np.empty(ntheta)
         wdata = hdulist['wtheta'].data
@@ -239,7 +239,7 @@ class DES_like(object):
             assert (np.abs(self.theta_bins[ix] / theta - 1) < 2e-3)
             corrs_w[f1, f2][ix] = dat
 
-        corrs_t = np.empty((self.nwbins, self.nwbins), dtype=np.object)
+        corrs_t = np.empty((self.nwbins, self.nwbins), dtype=object)
         corrs_t[:, :] = None
         tdata = hdulist['gammat'].data
         for f1, f2, ix, dat, theta in zip(tdata.field(0) - 1, tdata.field(1) - 1, tdata.field(2), tdata.field(3),
@@ -416,7 +416,7 @@ class DES_like(object):
             # Approximate bessel integral as binned smooth C_L against integrals of bessel in each bin.
             # Here we crudely precompute an approximation to the bessel integral by brute force
             dls = np.diff(np.unique((np.exp(np.linspace(np.log(1.), np.log(self.lmax), int(500 * acc)))).astype(
-                np.int)))
+                int)))
             groups = []
             ell = 2  # ell_min
             self.ls_bessel = np.zeros(dls.size)
@@ -552,10 +552,10 @@ class DES_like(object):
         else:
             tmplens = tmp
 
-        corrs_th_p = np.empty((self.nzbins, self.nzbins), dtype=np.object)
-        corrs_th_m = np.empty((self.nzbins, self.nzbins), dtype=np.object)
-        corrs_th_w = np.empty((self.nwbins, self.nwbins), dtype=np.object)
-        corrs_th_t = np.empty((self.nwbins, self.nzbins), dtype=np.object)
+        corrs_th_p = np.empty((self.nzbins, self.nzbins), dtype=object)
+        corrs_th_m = np.empty((self.nzbins, self.nzbins), dtype=object)
+        corrs_th_w = np.empty((self.nwbins, self.nwbins), dtype=object)
+        corrs_th_t = np.empty((self.nwbins, self.nzbins), dtype=object)
         if self.use_hankel:
             # Note that the absolute value of the correlation depends on what you do about L_min (e.g. 1 vs 2 vs 0 makes a difference).
             if 'xip' in self.used_types or 'xim' in self.used_types:
-- 
2.43.0


From a34b933d79eeb66cd03a004accbd457c9f1f22d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:44 +0000
Subject: [PATCH 131/144] fix: wrong name of the intrinsic alignment model of
 the DES likelihood

---
 python/planck/DES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/DES.py b/python/planck/DES.py
index 45b4796..ae63f7b 100644
--- a/python/planck/DES.py
+++ b/python/planck/DES.py
@@ -118,7 +118,7 @@ class DES_like(object):
         self.fullcov = np.loadtxt(ini.relativeFileName('cov_file'))
         ntheta = ini.int('num_theta_bins')
         self.theta_bins = np.loadtxt(ini.relativeFileName('theta_bins_file'))
-        self.iintrinsic_alignment_model = ini.string('intrinsic_alignment_model')
+        self.intrinsic_alignment_model = ini.string('intrinsic_alignment_model')
 
         self.data_types = ini.string('data_types').split()
         self.used_types = ini.list('used_data_types', self.data_types)
-- 
2.43.0


From 278bc67d597bf39ee0db80fcaa12e601f9ebf004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:44 +0000
Subject: [PATCH 132/144] fix: DES theory was compared to the wrong data if
 data_types is not in the default order

---
 python/planck/DES.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/planck/DES.py b/python/planck/DES.py
index ae63f7b..cb6d74d 100644
--- a/python/planck/DES.py
+++ b/python/planck/DES.py
@@ -592,7 +592,8 @@ class DES_like(object):
                     cl = UnivariateSpline(ls_cl, np.dot(tmp, qgal[f1] * qgal[f2]), s=0)(ls_bessel)
                     corrs_th_w[f1, f2] = np.dot(cl, j0s)
 
-        return [corrs_th_p, corrs_th_m, corrs_th_t, corrs_th_w]
+        corrs = {'xip': corrs_th_p, 'xim': corrs_th_m, 'gammat': corrs_th_t, 'wtheta': corrs_th_w}
+        return [corrs[tp] for tp in self.data_types]
 
     def make_vector(self, arrays):
         nused = len(self.used_items)
-- 
2.43.0


From 80a8dad0aef845f12c83b6c5df955c7011bf1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:44 +0000
Subject: [PATCH 133/144] fix: DES theory for xim was only calculated for the
 bins of xip

---
 python/planck/DES.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/planck/DES.py b/python/planck/DES.py
index cb6d74d..03e990e 100644
--- a/python/planck/DES.py
+++ b/python/planck/DES.py
@@ -556,10 +556,14 @@ class DES_like(object):
         corrs_th_m = np.empty((self.nzbins, self.nzbins), dtype=object)
         corrs_th_w = np.empty((self.nwbins, self.nwbins), dtype=object)
         corrs_th_t = np.empty((self.nwbins, self.nzbins), dtype=object)
+        shear_pairs = []
+        for tp in ['xip', 'xim']:
+            if tp in self.data_types:
+                shear_pairs += [pair for pair in self.bin_pairs[self.data_types.index(tp)] if pair not in shear_pairs]
         if self.use_hankel:
             # Note that the absolute value of the correlation depends on what you do about L_min (e.g. 1 vs 2 vs 0 makes a difference).
             if 'xip' in self.used_types or 'xim' in self.used_types:
-                for (f1, f2) in self.bin_pairs[self.data_types.index('xip')]:
+                for (f1, f2) in shear_pairs:
                     cl = UnivariateSpline(ls_cl, np.dot(tmplens, qs[f1] * qs[f2]), s=0)
                     fac = (1 + shear_calibration_parameters[f1]) * (1 + shear_calibration_parameters[f2]) / 2 / np.pi
                     corrs_th_p[f1, f2] = self.hankel0.transform(cl, self.theta_bins_radians, ret_err=False) * fac
@@ -578,7 +582,7 @@ class DES_like(object):
             ls_bessel = self.ls_bessel
 
             if 'xip' in self.used_types or 'xim' in self.used_types:
-                for (f1, f2) in self.bin_pairs[self.data_types.index('xip')]:
+                for (f1, f2) in shear_pairs:
                     cl = UnivariateSpline(ls_cl, np.dot(tmplens, qs[f1] * qs[f2]), s=0)(ls_bessel)
                     fac = (1 + shear_calibration_parameters[f1]) * (1 + shear_calibration_parameters[f2])
                     corrs_th_p[f1, f2] = np.dot(cl, j0s) * fac
-- 
2.43.0


From 1d5c13c708359ae7875493b01d116ccb7ee21428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:44 +0000
Subject: [PATCH 134/144] fix: intrinsic_alignment_model = none was ignored by
 the Python DES likelihood

---
 python/planck/DES.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/planck/DES.py b/python/planck/DES.py
index 03e990e..6ea214b 100644
--- a/python/planck/DES.py
+++ b/python/planck/DES.py
@@ -504,7 +504,9 @@ class DES_like(object):
                 for i, chi in enumerate(chis):
                     w[b].append(np.dot(fac[i:], (1 - chi / chis[i:])))
                 w_align = Alignment_z * n_chi / (chis * (1 + zs) * 3 * h2 * (1e5 / c) ** 2 / 2)
-                w[b] = np.asarray(w[b]) - w_align
+                w[b] = np.asarray(w[b])
+                if self.intrinsic_alignment_model != 'none':
+                    w[b] = w[b] - w_align
             return w
 
         def get_qgal():
-- 
2.43.0


From 9e7d51458eaffd5594e74a383c8752ed6218a63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:31 +0000
Subject: [PATCH 135/144] fix: adding plik foregrounds destroyed chains of a
 single sample

---
 python/planck/plik_postprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/plik_postprocess.py b/python/planck/plik_postprocess.py
index a77673a..0ef332b 100644
--- a/python/planck/plik_postprocess.py
+++ b/python/planck/plik_postprocess.py
@@ -184,7 +184,7 @@ def main_fg2000(argv, tag=''):
         f.close()
 
     for chain in chains:
-        ch = nm.loadtxt(chain)
+        ch = nm.loadtxt(chain, ndmin=2)
         nmm = chain.split("_")
         if tag:
             nchain = "_".join(nmm[:-1] + [tag.replace('_', ''), nmm[-1]])
-- 
2.43.0


From 212eb07fc0c7ddc3d64e5a8d3eb296c3a46e7aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:31 +0000
Subject: [PATCH 136/144] fix: plik foregrounds were added in the wrong columns
 of chains without chi2 parameters

---
 python/planck/plik_postprocess.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/planck/plik_postprocess.py b/python/planck/plik_postprocess.py
index 0ef332b..fb87ab0 100644
--- a/python/planck/plik_postprocess.py
+++ b/python/planck/plik_postprocess.py
@@ -117,14 +117,15 @@ def main_fg2000(argv, tag=''):
     ldc = dict(ldc)
 
     nchainparfile = chainparfile[:-len(".paramnames")] + tag + ".paramnames"
-    ls = open(chainparfile, "r").readlines()
+    ls = [l for l in open(chainparfile, "r") if l.strip()]
     print("save paranames file to :", nchainparfile)
     f = open(nchainparfile, "w")
+    ib = len(ls)
     for i, l in enumerate(ls):
         if re.search("^chi2_", l):
+            ib = i
             break
         print(l.rstrip(), file=f)
-    ib = i
     print("f2000_143*\tf_{2000}^{143}", file=f)
     print("f2000_x*\tf_{2000}^{143\\times217}", file=f)
     print("f2000_217*\tf_{2000}^{217}", file=f)
-- 
2.43.0


From eef04a53bbfee0da8e7d1f1b72c0635fa1752071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:32 +0000
Subject: [PATCH 137/144] fix: adding plik foregrounds failed with unbounded
 parameters

---
 python/planck/plik_postprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/plik_postprocess.py b/python/planck/plik_postprocess.py
index fb87ab0..775e5f3 100644
--- a/python/planck/plik_postprocess.py
+++ b/python/planck/plik_postprocess.py
@@ -138,7 +138,7 @@ def main_fg2000(argv, tag=''):
         dc = {}
         for l in open(minfile):
             a, b, c = l.split()
-            if b == c:
+            if b == c and b != 'N':
                 dc[a] = float(b)
         rdc = dict([(keys[i], dc.get(ppf[i], None)) for i in range(len(ppf))])
         print(rdc)
-- 
2.43.0


From 206e14eb9d0aee3d5b084acd78f9abe0f83daa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:32 +0000
Subject: [PATCH 138/144] fix: plik foreground spectra failed if a
 temperature-only component follows one with polarization

---
 python/planck/plik_postprocess.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/planck/plik_postprocess.py b/python/planck/plik_postprocess.py
index 775e5f3..f7bfa7a 100644
--- a/python/planck/plik_postprocess.py
+++ b/python/planck/plik_postprocess.py
@@ -61,10 +61,8 @@ def main_fgfile(argv):
         ppars = [rdc[k] for k in p.varpar]
         pes = p(ppars)
         if pes.shape[1] > res.shape[1]:
-            pes[:, :res.shape[1], :res.shape[1]] += res
-            res = pes
-        else:
-            res = res + pes
+            res, pes = pes.copy(), res
+        res[:, :pes.shape[1], :pes.shape[1]] += pes
 
     if res.shape[1] != 6:
 
-- 
2.43.0


From bf306b5605b250485e752812e569427146395bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:19 +0000
Subject: [PATCH 139/144] fix: interrupting the addition of plik foregrounds
 lost samples, and running it again added them twice

---
 python/planck/plik_postprocess.py | 122 +++++++++++++++---------------
 1 file changed, 63 insertions(+), 59 deletions(-)

diff --git a/python/planck/plik_postprocess.py b/python/planck/plik_postprocess.py
index f7bfa7a..6c39f59 100644
--- a/python/planck/plik_postprocess.py
+++ b/python/planck/plik_postprocess.py
@@ -5,6 +5,7 @@ from __future__ import print_function
 import numpy as nm
 import clik
 import clik.smicahlp as smh
+import os
 import re
 import sys
 
@@ -27,6 +28,14 @@ def parse_paraname(parfile):
     return [l.strip().split()[0] for l in f if l.strip()]
 
 
+def replace_file(filename, lines):
+    # only replace original when the new version is complete, so that nothing is lost if interrupted
+    with open(filename + '.tmp', 'w') as f:
+        for line in lines:
+            print(line, file=f)
+    os.replace(filename + '.tmp', filename)
+
+
 cache = dict()
 
 
@@ -107,6 +116,9 @@ def main_fg2000(argv, tag=''):
     prms = smh.parametric_from_smica(plikfile, lmin=2000, lmax=2000)
     ppf = parse_paraname(parfile)
     cpf = parse_paraname(chainparfile)
+    if 'f2000_143*' in cpf:
+        print("already has foregrounds :", chainparfile)
+        return
     ldc = []
     for i in range(len(ppf)):
         if ppf[i] in cpf:
@@ -115,22 +127,12 @@ def main_fg2000(argv, tag=''):
     ldc = dict(ldc)
 
     nchainparfile = chainparfile[:-len(".paramnames")] + tag + ".paramnames"
-    ls = [l for l in open(chainparfile, "r") if l.strip()]
-    print("save paranames file to :", nchainparfile)
-    f = open(nchainparfile, "w")
-    ib = len(ls)
-    for i, l in enumerate(ls):
+    parlines = [l.rstrip() for l in open(chainparfile, "r") if l.strip()]
+    ib = len(parlines)
+    for i, l in enumerate(parlines):
         if re.search("^chi2_", l):
             ib = i
             break
-        print(l.rstrip(), file=f)
-    print("f2000_143*\tf_{2000}^{143}", file=f)
-    print("f2000_x*\tf_{2000}^{143\\times217}", file=f)
-    print("f2000_217*\tf_{2000}^{217}", file=f)
-    for i, l in enumerate(ls[ib:]):
-        print(l.rstrip(), file=f)
-
-    f.close()
 
     if minfile.endswith("ranges"):
         dc = {}
@@ -144,52 +146,54 @@ def main_fg2000(argv, tag=''):
         dc = parse_minimumfile(minfile)
         rdc = dict([(keys[i], dc[ppf[i]]) for i in range(len(ppf))])
         nminimumfile = minfile[:-len(".minimum")] + tag + ".minimum"
-        print("save minimum file to :", nminimumfile)
-        fo = open(minfile, "r")
-        ls = fo.readlines()
-        fo.close()
-        f = open(nminimumfile, "w")
-        fnd = False
-        for i, l in enumerate(ls):
-            if re.search(r"\s+\d+\s+.+?\s+(chi2_.+?)\s+", l):
-                fnd = True
-                break
-        assert fnd, "bad format for %s" % minfile
-        ibreak = i
-        for l in ls[:ibreak]:
-            print(l.rstrip(), file=f)
-
-        vl = int(ls[ibreak].strip().split()[0])
-
-        res = 0
-        for p in prms:
-            ppars = [rdc[k] for k in p.varpar]
-            res = res + p(ppars)[:, :3, :3]
-
-        print("%5d %#14E   %-21s %s" % (vl, res[0, 1, 1] * llp1, "f2000_143", "f_{2000}^{143}"), file=f)
-        print("%5d %#14E   %-21s %s" % (vl + 1, res[0, 1, 2] * llp1, "f2000_x", "f_{2000}^{143\\times217}"), file=f)
-        print("%5d %#14E   %-21s %s" % (vl + 2, res[0, 2, 2] * llp1, "f2000_217", "f_{2000}^{217}"), file=f)
-
-        cnt = vl + 3
-        keep = True
-        for l in ls[ibreak:]:
-            rr = re.search("\s+(\d+)\s+(.+?)\s+(.+?)\s+", l)
-            if rr and keep:
-                print("%5d%s" % (cnt, l[5:].rstrip()), file=f)
-                cnt += 1
-            else:
-                keep = False
-                print(l.rstrip(), file=f)
-        f.close()
+        if 'f2000_143' not in dc:
+            print("save minimum file to :", nminimumfile)
+            fo = open(minfile, "r")
+            ls = [l.rstrip() for l in fo.readlines()]
+            fo.close()
+            fnd = False
+            for i, l in enumerate(ls):
+                if re.search(r"\s+\d+\s+.+?\s+(chi2_.+?)\s+", l):
+                    fnd = True
+                    break
+            assert fnd, "bad format for %s" % minfile
+            ibreak = i
+
+            vl = int(ls[ibreak].strip().split()[0])
+
+            res = 0
+            for p in prms:
+                ppars = [rdc[k] for k in p.varpar]
+                res = res + p(ppars)[:, :3, :3]
+
+            lines = ls[:ibreak]
+            lines.append("%5d %#14E   %-21s %s" % (vl, res[0, 1, 1] * llp1, "f2000_143", "f_{2000}^{143}"))
+            lines.append("%5d %#14E   %-21s %s" % (vl + 1, res[0, 1, 2] * llp1, "f2000_x", "f_{2000}^{143\\times217}"))
+            lines.append("%5d %#14E   %-21s %s" % (vl + 2, res[0, 2, 2] * llp1, "f2000_217", "f_{2000}^{217}"))
+
+            cnt = vl + 3
+            keep = True
+            for l in ls[ibreak:]:
+                rr = re.search(r"\s+(\d+)\s+(.+?)\s+(.+?)\s+", l)
+                if rr and keep:
+                    lines.append("%5d%s" % (cnt, l[5:]))
+                    cnt += 1
+                else:
+                    keep = False
+                    lines.append(l)
+            replace_file(nminimumfile, lines)
 
     for chain in chains:
         ch = nm.loadtxt(chain, ndmin=2)
+        if ch.shape[1] == len(parlines) + 5:
+            # already done in an interrupted run
+            continue
         nmm = chain.split("_")
         if tag:
             nchain = "_".join(nmm[:-1] + [tag.replace('_', ''), nmm[-1]])
         else:
             nchain = chain
-        f = open(nchain, "w")
+        lines = []
         print(nchain, ":", end=' ')
         for i in range((ch.shape[0])):
             if i % 1000 == 0:
@@ -204,16 +208,16 @@ def main_fg2000(argv, tag=''):
                     else:
                         ppars += [rdc[k]]
                 res = res + p(ppars)[:, :3, :3]
-            print("", end=' ', file=f)
-            for v in ch[i][:ib + 2]:
-                print(" %14E" % v, end=' ', file=f)
-            print(" %14E  %14E  %14E" % (res[0, 1, 1] * llp1, res[0, 1, 2] * llp1, res[0, 2, 2] * llp1), end=' ', file=f)
-            for v in ch[i][ib + 2:]:
-                print(" %14E" % v, end=' ', file=f)
-            print("", file=f)
-        f.close()
+            row = list(ch[i][:ib + 2]) + [res[0, 1, 1] * llp1, res[0, 1, 2] * llp1, res[0, 2, 2] * llp1] + list(ch[i][ib + 2:])
+            lines.append(" " + "".join("  %14E" % v for v in row))
+        replace_file(nchain, lines)
         print("")
 
+    # only change the parameter names when all the chains have the new columns
+    print("save paranames file to :", nchainparfile)
+    replace_file(nchainparfile, parlines[:ib] + ["f2000_143*\tf_{2000}^{143}", "f2000_x*\tf_{2000}^{143\\times217}",
+                                                 "f2000_217*\tf_{2000}^{217}"] + parlines[ib:])
+
 
 def main(argv):
     if sys.argv[1] == "fgfile":
-- 
2.43.0


From a8456a4e03a629ff01312a70e82b273e1044869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:10 +0000
Subject: [PATCH 140/144] fix: axis ticks could be moved outside the axis,
 leaving a single tick

---
 python/getdist/matplotlib_ext.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/matplotlib_ext.py b/python/getdist/matplotlib_ext.py
index 61e81ff..17c7e3d 100644
--- a/python/getdist/matplotlib_ext.py
+++ b/python/getdist/matplotlib_ext.py
@@ -210,6 +210,7 @@ class BoundedMaxNLocator(ticker.MaxNLocator):
     def _valid(self, locs):
         label_len = self._get_label_len(locs)
         return (len(locs) < 2 or locs[1] - locs[0] > label_len * 1.1) and \
+               locs[0] >= self._range[0] and locs[-1] <= self._range[1] and \
                (not self.bounded_prune or (locs[0] - self._range[0] > label_len / 2)
                 and (self._range[1] - locs[-1] > label_len / 2))
 
-- 
2.43.0


From fe41f3a13d0343b249a3f3473c3330aeda4633f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:39 +0000
Subject: [PATCH 141/144] fix: normalized 1D densities were cut off in plots
 with share_y

---
 python/getdist/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index fb4a3d3..0e188d8 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2101,7 +2101,8 @@ class GetDistPlotter(_BaseObject):
         plot_roots = roots
         for i, param in enumerate(params):
             ax = self._subplot_number(i, pars=(param,),
-                                      sharey=None if (i == 0 or not share_y or self.settings.norm_1d_density) else
+                                      sharey=None if (i == 0 or not share_y or self.settings.norm_1d_density
+                                                      or kwargs.get('normalized')) else
                                       self.subplots[0, 0])
             if roots_per_param:
                 plot_roots = roots[i]
-- 
2.43.0


From 5d537cb0b3a01902f33ded4478455cbcf84ed3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 142/144] fix: the Python plik likelihood failed to load in
 Python 3 (non-integer number of bins)

---
 python/planck/CMB_plik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/CMB_plik.py b/python/planck/CMB_plik.py
index 0aeca61..43e5cab 100644
--- a/python/planck/CMB_plik.py
+++ b/python/planck/CMB_plik.py
@@ -46,7 +46,7 @@ class plik_likelihood(object):
         self.mb = self.fi["clik/lkl_0/m_channel_P"] * self.hascl[2]
         self.m = self.mt + self.me + self.mb
 
-        self.nb = self.fi["clik/lkl_0/nbins"] / self.hascl.sum()
+        self.nb = self.fi["clik/lkl_0/nbins"] // self.hascl.sum()
         self.rq_shape = (self.nb, self.m, self.m)
 
         # binning details
-- 
2.43.0


From d3d383fc729196d98a4bb7ee7f212d75e226977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:30 +0000
Subject: [PATCH 143/144] fix: co-added TT spectrum of the plik likelihood used
 non-integer multipoles as indices

---
 python/planck/CMB_plik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/CMB_plik.py b/python/planck/CMB_plik.py
index 43e5cab..5b019ba 100644
--- a/python/planck/CMB_plik.py
+++ b/python/planck/CMB_plik.py
@@ -277,7 +277,7 @@ class plik_likelihood(object):
 
     def coadded_TT(self, dict, want_cov=True):
         ls, coadded, covinv = self.coadd_spectra(dict)
-        ls = ls[0, :]
+        ls = np.round(ls[0, :]).astype(int)
         TT = np.zeros(ls[-1] + 1)
         fac = ls * (ls + 1) / (2 * np.pi)
         TT[ls[0]:] = coadded[0, :] * fac
-- 
2.43.0


From 82b937e139935e32ffa823d20478c058c505f841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 144/144] fix: each Planck-style subplot plotter had larger
 fonts than the last, or the width of an earlier plotter

---
 python/planckStyle.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/python/planckStyle.py b/python/planckStyle.py
index ca6e3ef..18b5d96 100644
--- a/python/planckStyle.py
+++ b/python/planckStyle.py
@@ -262,10 +262,12 @@ def getPlotter(plot_data=None, chain_dir=None, **kwargs):
 
 
 def getSubplotPlotter(plot_data=None, chain_dir=None, subplot_size=2, **kwargs):
-    s.setWithSubplotSize(subplot_size)
-    s.axes_fontsize += 2
-    s.colorbar_axes_fontsize += 2
-    s.legend_fontsize = s.lab_fontsize + 1
+    settings = copy.deepcopy(s)
+    settings.setWithSubplotSize(subplot_size)
+    settings.axes_fontsize += 2
+    settings.colorbar_axes_fontsize += 2
+    settings.legend_fontsize = settings.lab_fontsize + 1
+    kwargs['settings'] = kwargs.get('settings') or settings
     return getPlotter(plot_data, chain_dir, **kwargs)
 
 
@@ -279,16 +281,19 @@ def getPlotterWidth(size=1, **kwargs):  # size in mm
         width = 180 * inch_mm
     else:
         width = size * inch_mm
-    s.fig_width_inch = width
-    s.setWithSubplotSize(kwargs.get('subplot_size', 2))
-    s.rcSizes(**kwargs)
-    return getPlotter()
+    settings = copy.deepcopy(s)
+    settings.fig_width_inch = width
+    settings.setWithSubplotSize(kwargs.pop('subplot_size', 2))
+    settings.rcSizes(**kwargs)
+    return getPlotter(settings=settings)
 
 
 def getSinglePlotter(ratio=3 / 4., plot_data=None, chain_dir=None, width_inch=3.464, **kwargs):
-    s.setWithSubplotSize(width_inch)
-    s.fig_width_inch = width_inch
-    s.rcSizes()
+    settings = copy.deepcopy(s)
+    settings.setWithSubplotSize(width_inch)
+    settings.fig_width_inch = width_inch
+    settings.rcSizes()
+    kwargs['settings'] = kwargs.get('settings') or settings
     plotter = getPlotter(plot_data, chain_dir, **kwargs)
     plotter.make_figure(1, xstretch=1 / ratio)
     return plotter
-- 
2.43.0

