From d3d8f2bd7530a5156aa939bd49356a053df32648 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:28 +0000
Subject: [PATCH 01/31] fix: better_repr, repr of single-item tuple must be
 evaluable

---
 returnn/util/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/util/basic.py b/returnn/util/basic.py
index a5a862d..6018ea7 100644
--- a/returnn/util/basic.py
+++ b/returnn/util/basic.py
@@ -1157,7 +1157,7 @@ def better_repr(o):
         return "deque([\n%s])" % "".join(map(lambda v: better_repr(v) + ",\n", o))
     if isinstance(o, tuple):
         if len(o) == 1:
-            return "(%s,)" % o[0]
+            return "(%s,)" % better_repr(o[0])
         return "(%s)" % ", ".join(map(better_repr, o))
     if isinstance(o, dict):
         ls = [better_repr(k) + ": " + better_repr(v) for (k, v) in sorted(o.items())]
-- 
2.43.0


From 1207f5d5d5e4b8afaeb9241b52a902437698e850 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:28 +0000
Subject: [PATCH 02/31] fix: FileCache.get_file, do not raise the error of an
 earlier try after a successful retry

---
 returnn/util/file_cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 1002912..e3f0e57 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -118,6 +118,7 @@ class FileCache:
                 time.sleep(1)
             try:
                 self._copy_file_if_needed(src_filename, dst_filename)
+                last_error = None  # success, ignore errors of earlier tries
                 break
             except OSError as e:
                 if e.errno == errno.ENOSPC:
-- 
2.43.0


From 7292e4105e92ebd1f07c39e1dc043313f75665ba Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:28 +0000
Subject: [PATCH 03/31] fix: NativeCodeCompiler, re-check under the lock
 whether compilation is still needed

---
 returnn/util/native_code_compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 114bea3..5abd923 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -244,6 +244,8 @@ class NativeCodeCompiler:
             if os.path.exists(self._mod_path):
                 self._cleanup_old_path(self._mod_path, reason="need recompile")
         with lock:
+            if not self._need_recompile():  # check again, now that we hold the lock
+                return
             self._maybe_compile_inner()
 
     def _get_compiler_bin(self):
-- 
2.43.0


From e9fcd841a695056c655a36b4089f244187764fb4 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:28 +0000
Subject: [PATCH 04/31] fix: NativeCodeCompiler, an interrupted compilation
 must not count as valid

---
 returnn/util/native_code_compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 5abd923..435e165 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -288,6 +288,9 @@ class NativeCodeCompiler:
     def _maybe_compile_inner(self):
         # Directory should be created by the locking mechanism.
         assert os.path.exists(self._mod_path)
+        # Invalidate the entry, such that an interrupted compilation is never considered as valid.
+        if os.path.exists(self._info_filename):
+            os.remove(self._info_filename)
         with open(self._c_filename, "w") as f:
             f.write(self.code)
         common_opts = ["-shared", "-O2"]
-- 
2.43.0


From 9fcbea928cd3c2778c1912c5c1d095c764b2b63a Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:28 +0000
Subject: [PATCH 05/31] fix: NativeCodeCompiler, write info file atomically

---
 returnn/util/native_code_compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 435e165..5b6f23b 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -195,8 +195,10 @@ class NativeCodeCompiler:
 
     def _save_info(self):
         filename = self._info_filename
-        with open(filename, "w") as f:
+        # Publish atomically. Other processes might read this at any time, also without lock.
+        with open(filename + ".tmp", "w") as f:
             f.write("%s\n" % util.better_repr(self._info_dict))
+        os.rename(filename + ".tmp", filename)
 
     def _need_recompile(self):
         """
-- 
2.43.0


From 56bf5e9206c8f7eb83e548a6cc487ec4eb9abc14 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:28 +0000
Subject: [PATCH 06/31] fix: NativeCodeCompiler, the C++ ABI flag is part of
 the build key

---
 returnn/util/native_code_compiler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 5b6f23b..3ff9da4 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -69,6 +69,7 @@ class NativeCodeCompiler:
         self.ld_flags = ld_flags or []
         self.include_deps = include_deps
         self.static_version_name = static_version_name
+        self.use_cxx11_abi = use_cxx11_abi
         self._code_hash = self._make_code_hash()
         self._info_dict = self._make_info_dict()
         self._hash = self._make_hash()
@@ -76,7 +77,6 @@ class NativeCodeCompiler:
         if should_cleanup_old_all:
             self._cleanup_old()
         self._should_cleanup_old_mydir = should_cleanup_old_mydir
-        self.use_cxx11_abi = use_cxx11_abi
         self._log_stream = log_stream
         if self.verbose:
             print("%s: %r" % (self.__class__.__name__, self), file=log_stream)
@@ -157,7 +157,15 @@ class NativeCodeCompiler:
         assert isinstance(res, dict)
         return res
 
-    _relevant_info_keys = ("code_version", "code_hash", "c_macro_defines", "ld_flags", "compiler_bin", "platform")
+    _relevant_info_keys = (
+        "code_version",
+        "code_hash",
+        "c_macro_defines",
+        "ld_flags",
+        "compiler_bin",
+        "platform",
+        "use_cxx11_abi",
+    )
 
     def _make_info_dict(self):
         """
@@ -174,6 +182,7 @@ class NativeCodeCompiler:
             "ld_flags": self.ld_flags,
             "compiler_bin": self._get_compiler_bin(),
             "platform": platform.platform(),
+            "use_cxx11_abi": bool(self.use_cxx11_abi),
         }
 
     def _make_code_hash(self):
-- 
2.43.0


From 9e1967dc16b99b8143c7403de647921d94627a27 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:13 +0000
Subject: [PATCH 07/31] fix: raw_dict_split_batch handle entries without batch
 dim

collate_batch adds num_seqs, epoch, complete_frac as scalars,
so splitting any real batch (forward_auto_split_batch_on_oom) failed with an IndexError.
---
 returnn/torch/data/extern_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/torch/data/extern_data.py b/returnn/torch/data/extern_data.py
index dc7d222..ddedefd 100644
--- a/returnn/torch/data/extern_data.py
+++ b/returnn/torch/data/extern_data.py
@@ -130,6 +130,10 @@ def raw_dict_split_batch(
     for k, v in extern_data_raw.items():
         if not isinstance(v, (torch.Tensor, numpy.ndarray)):
             raise TypeError(f"got invalid value of type ({type(v).__name__}) for key {k!r}")
+        if v.ndim == 0:  # no batch dim, e.g. num_seqs, epoch, complete_frac, see collate_batch
+            for res_ in res:
+                res_[k] = v
+            continue
         offset = 0
         for i, split_size in enumerate(splits):
             res[i][k] = v[offset : offset + split_size]
-- 
2.43.0


From f2cb7fd5e5cace967ad54a800e354b6330e256df Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:59 +0000
Subject: [PATCH 08/31] fix: SiameseHDFDataset: sample triplets from
 epoch-seeded random generator

---
 returnn/datasets/hdf.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index ad13b49..da9e82b 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -942,8 +942,8 @@ class SiameseHDFDataset(CachedDataset2):
             epoch = epoch or 1
             self.seq_order = self.get_seq_order_for_epoch(epoch, len(self.all_seq_names), self._get_seq_length)
 
-        # init random seed for siamese triplet sampling
-        numpy.random.seed()
+        # init random generator for siamese triplet sampling
+        self._random = numpy.random.RandomState(self._get_random_seed_for_epoch(epoch=epoch))
         self._init_triplets()
 
     def _init_triplets(self):
@@ -958,10 +958,10 @@ class SiameseHDFDataset(CachedDataset2):
             # randomly sample same pair
             same_words = self.target_to_seqs[seq_target]
             if len(same_words) > 1:
-                pair_word_idx = numpy.random.randint(0, len(same_words))
+                pair_word_idx = self._random.randint(0, len(same_words))
                 # sample again if pair sequence is the same sequence
                 while same_words[pair_word_idx] == seq_name:
-                    pair_word_idx = numpy.random.randint(0, len(same_words))
+                    pair_word_idx = self._random.randint(0, len(same_words))
                 pair_seq_name = same_words[pair_word_idx]
                 real_pair_idx = self.seq_name_to_idx[pair_seq_name]
             else:
@@ -972,7 +972,7 @@ class SiameseHDFDataset(CachedDataset2):
             while rand_target_val == seq_target:
                 rand_target_val = self._sample_diff_class(seq_target)
             # sample an example from random_target
-            rand_seq_id = numpy.random.randint(0, len(self.target_to_seqs[rand_target_val]))
+            rand_seq_id = self._random.randint(0, len(self.target_to_seqs[rand_target_val]))
             rand_seq_name = self.target_to_seqs[rand_target_val][rand_seq_id]
             real_third_idx = self.seq_name_to_idx[rand_seq_name]
             self.curr_epoch_triplets.append(tuple((real_seq_idx, real_pair_idx, real_third_idx)))
@@ -988,9 +988,9 @@ class SiameseHDFDataset(CachedDataset2):
             classes = list(map(int, list(self.target_to_seqs.keys())))
             probs = numpy.array(distrib[classes])
             probs /= numpy.sum(probs)
-            rand_target_val = numpy.random.choice(classes, size=1, p=probs)[0]
+            rand_target_val = self._random.choice(classes, size=1, p=probs)[0]
         else:
-            random_target = numpy.random.randint(0, len(list(self.target_to_seqs.keys())))
+            random_target = self._random.randint(0, len(list(self.target_to_seqs.keys())))
             rand_target_val = list(self.target_to_seqs.keys())[random_target]
 
         return rand_target_val
-- 
2.43.0


From f78656c59eb78c4866e668a05f2cacbd70676950 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:59 +0000
Subject: [PATCH 09/31] fix: LmDataset: re-seed orth_vocab at the start of each
 epoch

---
 returnn/datasets/lm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 74f8d1c..92f5b9b 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -507,6 +507,8 @@ class LmDataset(CachedDataset2):
         self.num_unknown = 0
         if self.seq_gen:
             self.seq_gen.random_seed(self._get_random_seed_for_epoch(epoch))
+        if self.orth_vocab is not None:
+            self.orth_vocab.set_random_seed(self._get_random_seed_for_epoch(epoch))
         return True
 
     def get_current_seq_order(self) -> List[int]:
-- 
2.43.0


From b418fe9c64ef98a21a8cf0d300cd26d3228c8653 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:59 +0000
Subject: [PATCH 10/31] fix: CombinedDataset: sample datasets from epoch-seeded
 random generator

---
 returnn/datasets/meta.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 0fe2190..a529aa2 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -1023,6 +1023,7 @@ class CombinedDataset(CachedDataset2):
         self.dataset_seq_idx_boundaries = None  # type: typing.Optional[typing.List[int]]
         self.dataset_sorted_seq_idx_list = None  # type: typing.Optional[typing.List[typing.Tuple[int,int]]]
         self.used_num_seqs_per_subset = None  # type: typing.Optional[typing.List[int]]
+        self._rng = None  # type: typing.Optional[numpy.random.RandomState]
 
     def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
         """
@@ -1043,6 +1044,11 @@ class CombinedDataset(CachedDataset2):
             self._num_seqs = num_seqs_saved
             return False
 
+        # For the sampling of the datasets in _expand_dataset_sec_idxs.
+        # Reset such that the order only depends on the epoch, and not on any previous epochs.
+        self._rng = numpy.random.RandomState(self._get_random_seed_for_epoch(epoch=epoch))
+        self.estimated_num_seq_per_subset = [self.datasets[k].estimated_num_seqs for k in sorted(self.datasets.keys())]
+
         # First init sequence order for sub-datasets as usual to get a list of available sequences.
         # This way, sorting and partition epoch of the individual sub-datasets is still supported.
         # Later we will call init_seq_order again with a sequence list
@@ -1284,13 +1290,13 @@ class CombinedDataset(CachedDataset2):
                                 nonempty_datasets.append(j)
                         if not nonempty_datasets:
                             return False  # No more data to add
-                        dataset_idx = numpy.random.choice(nonempty_datasets)
+                        dataset_idx = self._rng.choice(nonempty_datasets)
                         self.estimated_num_seq_per_subset[dataset_idx] += 1
                         break
 
                     else:  # We sample from all sets which should contain more data
                         prob_table = [remaining / total_remaining for remaining in expected_remaining_seqs]
-                        dataset_idx = numpy.random.choice(len(self.datasets), p=prob_table)
+                        dataset_idx = self._rng.choice(len(self.datasets), p=prob_table)
                         if self.datasets[self.dataset_idx2key_map[dataset_idx]].is_less_than_num_seqs(
                             self.used_num_seqs_per_subset[dataset_idx]
                         ):
-- 
2.43.0


From 4aff44aa73602c6530a1b4d379b9298fed8ff2f9 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:50 +0000
Subject: [PATCH 11/31] fix: BlissDataset: reject explicit seq_list/seq_order
 instead of ignoring it

---
 returnn/datasets/generating.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/generating.py b/returnn/datasets/generating.py
index 3d08804..9dce56f 100644
--- a/returnn/datasets/generating.py
+++ b/returnn/datasets/generating.py
@@ -1986,11 +1986,13 @@ class BlissDataset(CachedDataset2):
     def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
         """
         :param int|None epoch:
-        :param list[str]|None seq_list: Predefined order via list of tags, not used here.
-        :param list[int]|None seq_order: Predefined order via list of indices, not used here.
+        :param list[str]|None seq_list: Predefined order via list of tags, not supported here.
+        :param list[int]|None seq_order: Predefined order via list of indices, not supported here.
         :rtype: bool
         :returns whether the order changed (True is always safe to return)
         """
+        if seq_list is not None or seq_order is not None:
+            raise NotImplementedError("%s: predefined seq_list or seq_order not supported" % self)
         super(BlissDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         self._num_seqs = len(self._seqs)
         return True
-- 
2.43.0


From 2cee8d7a2364ee60cf1f2d040892475f5bae49c7 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:50 +0000
Subject: [PATCH 12/31] fix: Enwik8Corpus: reject explicit seq_list/seq_order
 instead of ignoring it

---
 returnn/datasets/generating.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/generating.py b/returnn/datasets/generating.py
index 9dce56f..92dce47 100644
--- a/returnn/datasets/generating.py
+++ b/returnn/datasets/generating.py
@@ -2464,6 +2464,8 @@ class Enwik8Corpus(CachedDataset2):
         :param list[int]|None seq_order:
         :rtype: bool
         """
+        if seq_list is not None or seq_order is not None:
+            raise NotImplementedError("%s: predefined seq_list or seq_order not supported" % self)
         super(Enwik8Corpus, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         epoch_part = None
         if self.partition_epoch and epoch is not None:
-- 
2.43.0


From 816f8c331efe44805143894623bfd14eb630ff47 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:50 +0000
Subject: [PATCH 13/31] fix: LibriSpeechCorpus: do not apply epoch_wise_filter
 on explicit seq_list/seq_order

---
 returnn/datasets/generating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/generating.py b/returnn/datasets/generating.py
index 92dce47..1955b17 100644
--- a/returnn/datasets/generating.py
+++ b/returnn/datasets/generating.py
@@ -2212,7 +2212,7 @@ class LibriSpeechCorpus(CachedDataset2):
             num_seqs = len(self._reference_seq_order)
             self._seq_order = self.get_seq_order_for_epoch(epoch=epoch, num_seqs=num_seqs, get_seq_len=get_seq_len)
         self._num_seqs = len(self._seq_order)
-        if self.epoch_wise_filter and epoch is not None:
+        if self.epoch_wise_filter and epoch is not None and seq_list is None and seq_order is None:
             # Note: A more generic variant of this code is :class:`MetaDataset.EpochWiseFilter`.
             from .meta import EpochWiseFilter
 
-- 
2.43.0


From 89da4a95bcc9ba170d6bd3adc8b64b31d9252b0c Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:50 +0000
Subject: [PATCH 14/31] fix: ConcatDataset: honour explicit seq_list also for
 the same epoch, and split it into one list per dataset

---
 returnn/datasets/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index a529aa2..a93c1d2 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -782,7 +782,7 @@ class ConcatDataset(CachedDataset2):
         :param list[str]|None seq_list: List of sequence tags, to set a predefined order.
         :param list[int]|None seq_order: List of corpus sequence indices, to set a predefined order.
         """
-        need_reinit = self.epoch is None or self.epoch != epoch
+        need_reinit = self.epoch is None or self.epoch != epoch or seq_list is not None or seq_order is not None
         super(ConcatDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         self.dataset_seq_idx_offsets = [0]
         if not need_reinit:
@@ -794,7 +794,7 @@ class ConcatDataset(CachedDataset2):
             seq_lists = []
             for dataset in self.datasets:
                 # This depends on the num_seqs of our childs.
-                seq_lists += seq_list[: dataset.num_seqs]
+                seq_lists.append(seq_list[: dataset.num_seqs])
                 seq_list = seq_list[dataset.num_seqs :]
             assert len(seq_list) == 0  # we have consumed all
         else:
-- 
2.43.0


From 8d360d776c64a6da6e469acf371ad5fe3c431117 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:50 +0000
Subject: [PATCH 15/31] fix: ChunkShuffleDataset: reject explicit
 seq_list/seq_order also for the same epoch

---
 returnn/datasets/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index a93c1d2..7b455a7 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -1714,6 +1714,8 @@ class ChunkShuffleDataset(CachedDataset2):
         :param list[str]|None seq_list:
         :param list[int]|None seq_order:
         """
+        if seq_list is not None or seq_order is not None:
+            raise NotImplementedError("predefined order seq_list")
         need_reinit = self.epoch is None or self.epoch != epoch
         super(ChunkShuffleDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         self.load_seqs_end = 0
@@ -1722,8 +1724,6 @@ class ChunkShuffleDataset(CachedDataset2):
         if not need_reinit:
             return False
 
-        if seq_list is not None or seq_order is not None:
-            raise NotImplementedError("predefined order seq_list")
         if self.seq_ordering != "default":
             raise NotImplementedError("seq_ordering %s" % self.seq_ordering)
 
-- 
2.43.0


From b62a47d80083639372049ef0c026e542dee6ab24 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:50 +0000
Subject: [PATCH 16/31] fix: MultiEpochDataset: an empty explicit
 seq_list/seq_order is still an explicit one

---
 returnn/datasets/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 7b455a7..b6880f1 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -2023,7 +2023,7 @@ class MultiEpochDataset(CachedDataset2):
     def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
         """init seq order"""
         super().init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
-        self._epoch_have_predefined_seq_order = bool(seq_list or seq_order)
+        self._epoch_have_predefined_seq_order = seq_list is not None or seq_order is not None
         # epoch is 1-based
         self._cur_inner_start_epoch = ((epoch - 1) * self._multi_epoch + 1) if epoch is not None else None
         self._cur_inner_epoch_offset = 0
-- 
2.43.0


From 5addd3fe10434fd920fae3b9ffafe2de532c2520 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:50 +0000
Subject: [PATCH 17/31] fix: SingleStreamPipeDataset: reject also an empty
 explicit seq_list/seq_order

---
 returnn/datasets/cached2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/cached2.py b/returnn/datasets/cached2.py
index ec2a40d..4adf77d 100644
--- a/returnn/datasets/cached2.py
+++ b/returnn/datasets/cached2.py
@@ -317,7 +317,7 @@ class SingleStreamPipeDataset(CachedDataset2):
         :param list[int]|None seq_order:
         :rtype: bool
         """
-        assert not seq_list and not seq_order
+        assert seq_list is None and seq_order is None
         super(SingleStreamPipeDataset, self).init_seq_order(epoch=epoch)
         with self.condition:
             self.producer_seq_idx = 0
-- 
2.43.0


From 5d0e863b5537366c57fd213b1b5429d769287940 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:06 +0000
Subject: [PATCH 18/31] fix: Updater: pass the full param name to
 weight_decay_custom_include_check

---
 returnn/torch/updater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/torch/updater.py b/returnn/torch/updater.py
index 791d158..8e8f67a 100644
--- a/returnn/torch/updater.py
+++ b/returnn/torch/updater.py
@@ -537,7 +537,7 @@ class Updater:
                 custom_include = None
                 if custom_include_check:
                     custom_include = custom_include_check(
-                        module=module, rf_module=rf_module, full_param_name=param_name, param=param
+                        module=module, rf_module=rf_module, full_param_name=full_param_name, param=param
                     )
                 if custom_include is not None:
                     assert isinstance(custom_include, bool), "weight_decay_custom_include_check did not return bool"
-- 
2.43.0


From 30fb39517d30b846fbed80d3251776f875d4f481 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:51 +0000
Subject: [PATCH 19/31] fix: tf distributed: uninit in
 _temporary_init_distributed_tf also after an exception

---
 returnn/tf/distributed.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/returnn/tf/distributed.py b/returnn/tf/distributed.py
index 9d37df2..14a4ff7 100644
--- a/returnn/tf/distributed.py
+++ b/returnn/tf/distributed.py
@@ -363,9 +363,11 @@ def _temporary_init_distributed_tf(config):
     """
     global _controller
     init_distributed_tf(config=config)
-    yield
-    # Now uninit again.
-    # Note that there is no real way to stop the server.
-    # If we use this often in tests, it might actually be better to cache the server as a singleton...
-    assert _controller
-    _controller = None  # type: typing.Optional[_Controller]
+    try:
+        yield
+    finally:
+        # Now uninit again.
+        # Note that there is no real way to stop the server.
+        # If we use this often in tests, it might actually be better to cache the server as a singleton...
+        assert _controller
+        _controller = None  # type: typing.Optional[_Controller]
-- 
2.43.0


From cc6b39f6ab70f4a045181ff58f65ffe97e808e4d Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:51 +0000
Subject: [PATCH 20/31] fix: RF layers backend: random_journal_replay restores
 the previous journal

---
 returnn/tf/frontend_layers/_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/tf/frontend_layers/_backend.py b/returnn/tf/frontend_layers/_backend.py
index a9974e5..6a41add 100644
--- a/returnn/tf/frontend_layers/_backend.py
+++ b/returnn/tf/frontend_layers/_backend.py
@@ -842,11 +842,12 @@ class ReturnnLayersBackend(Backend[Layer]):
         Replays the journal.
         At exit, the journal is cleared, and we check that we replayed everything.
         """
+        prev_journal = ReturnnLayersBackend._random_journal
         try:
             ReturnnLayersBackend._random_journal = journal
             yield
         finally:
-            ReturnnLayersBackend._random_journal = None
+            ReturnnLayersBackend._random_journal = prev_journal
 
     _random_journal = None  # type: Optional[_random_journal.RandomJournal]
 
-- 
2.43.0


From 15951f5bd6d70012e82ab867b2a3099af355fde1 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:51 +0000
Subject: [PATCH 21/31] fix: better_exchook: restore sys.stdout and the
 collected lines also after an exception

---
 returnn/util/better_exchook.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/returnn/util/better_exchook.py b/returnn/util/better_exchook.py
index 7d8d742..c5d6772 100644
--- a/returnn/util/better_exchook.py
+++ b/returnn/util/better_exchook.py
@@ -829,8 +829,10 @@ class DomTerm:
     def _temp_replace_attrib(self, obj, attr, new_value):
         old_value = getattr(obj, attr)
         setattr(obj, attr, new_value)
-        yield old_value
-        setattr(obj, attr, old_value)
+        try:
+            yield old_value
+        finally:
+            setattr(obj, attr, old_value)
 
     @contextlib.contextmanager
     def fold_text_stream(self, prefix, postfix="", hidden_stream=None, **kwargs):
@@ -963,8 +965,10 @@ class _OutputLinesCollector:
             yield
             return
         self.lines, old_lines = [], self.lines  # overwrite self.lines
-        yield  # collect output (in new self.lines)
-        self.lines, new_lines = old_lines, self.lines  # recover self.lines
+        try:
+            yield  # collect output (in new self.lines)
+        finally:
+            self.lines, new_lines = old_lines, self.lines  # recover self.lines
         hidden_text = "".join(new_lines)
         import io
 
-- 
2.43.0


From 5f0c66bd53aee81b2390a3af89e8a1c006ae6acd Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:55 +0000
Subject: [PATCH 22/31] fix: MultiProcDataset: start the workers before
 get_total_num_seqs/get_all_tags

An instance restored via _meta_info_cache has no workers yet after initialize().
---
 returnn/datasets/multi_proc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index 9aeddf8..64d1437 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -456,6 +456,7 @@ class MultiProcDataset(CachedDataset2):
     def get_total_num_seqs(self, *, fast: bool = False) -> int:
         """total num seqs"""
         if self._total_num_seqs is None:
+            self._lazy_init()
             worker = self._seq_order_proc_parent_conn
             worker.send(("get_total_num_seqs", {}))
             msg, self._total_num_seqs = worker.recv()
@@ -470,6 +471,7 @@ class MultiProcDataset(CachedDataset2):
     def get_all_tags(self):
         """all tags"""
         if self._all_tags is None:
+            self._lazy_init()
             worker = self._seq_order_proc_parent_conn
             worker.send(("get_all_tags", {}))
             msg, self._all_tags = worker.recv()
-- 
2.43.0


From 9f5b770e85b30f6231d2c7419568c2f801aec0c3 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:55 +0000
Subject: [PATCH 23/31] fix: MultiProcDataset: finish_epoch when the workers
 are not started yet

---
 returnn/datasets/multi_proc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index 64d1437..ac7d3e7 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -486,6 +486,8 @@ class MultiProcDataset(CachedDataset2):
     def finish_epoch(self, *, free_resources: bool = False):
         """finish epoch"""
         super().finish_epoch(free_resources=free_resources)
+        if not self._worker_parent_conns:
+            return  # workers not started yet
         for worker_parent_conn in self._worker_parent_conns:
             worker_parent_conn.send(("finish_epoch", {"free_resources": free_resources}))
 
-- 
2.43.0


From 29e99f9ea4c2c6006a1e04a15fdb8fa3140734da Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:55 +0000
Subject: [PATCH 24/31] fix: MultiProcDataset: restore all_tags from the meta
 info cache

---
 returnn/datasets/multi_proc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index ac7d3e7..fcb06b9 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -84,6 +84,7 @@ class MultiProcDataset(CachedDataset2):
             self.num_inputs = _meta_info_cache["num_inputs"]
             self.num_outputs = _meta_info_cache["num_outputs"]
             self._total_num_seqs = _meta_info_cache["total_num_seqs"]
+            self._all_tags = _meta_info_cache["all_tags"]
             self.labels = _meta_info_cache["labels"]
             self._data_keys = _meta_info_cache["data_keys"]
             self._data_dtypes = _meta_info_cache["data_dtypes"]
-- 
2.43.0


From 2e4c6d329248bedcbf0759765df648be61a32ae8 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:55 +0000
Subject: [PATCH 25/31] fix: MultiProcDataset: worker answers meta info
 requests also after finish_epoch(free_resources=True)

The worker had freed the dataset and died with an assertion error.
---
 returnn/datasets/multi_proc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index fcb06b9..0fd449e 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -311,7 +311,8 @@ class MultiProcDataset(CachedDataset2):
                     parent_conn.send(("num_outputs", dataset.num_outputs))
                     parent_conn.send(("labels", dataset.labels))
                 elif msg == "get_total_num_seqs":
-                    assert dataset
+                    if dataset is None:
+                        dataset = init_dataset(dataset_dict)
                     try:
                         total_num_seqs = dataset.get_total_num_seqs()
                         assert isinstance(total_num_seqs, int)
@@ -319,7 +320,8 @@ class MultiProcDataset(CachedDataset2):
                         total_num_seqs = NotImplementedError(f"{exc} in {dataset}")
                     parent_conn.send(("total_num_seqs", total_num_seqs))
                 elif msg == "get_all_tags":
-                    assert dataset
+                    if dataset is None:
+                        dataset = init_dataset(dataset_dict)
                     try:
                         all_tags = dataset.get_all_tags()
                         assert isinstance(all_tags, list)
@@ -327,11 +329,13 @@ class MultiProcDataset(CachedDataset2):
                         all_tags = NotImplementedError(f"{exc} in {dataset}")
                     parent_conn.send(("all_tags", all_tags))
                 elif msg == "get_data_keys":
-                    assert dataset
+                    if dataset is None:
+                        dataset = init_dataset(dataset_dict)
                     data_keys = dataset.get_data_keys()
                     parent_conn.send(("data_keys", data_keys))
                 elif msg == "get_data_dtypes":
-                    assert dataset
+                    if dataset is None:
+                        dataset = init_dataset(dataset_dict)
                     data_keys = dataset.get_data_keys()
                     parent_conn.send(("data_dtypes", {k: dataset.get_data_dtype(k) for k in data_keys}))
                 elif msg == "init_seq_order":
-- 
2.43.0


From eeb78c57d5f8bf717c0dfe4227cdde46338a7502 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:55 +0000
Subject: [PATCH 26/31] fix: MultiProcDataset: allow unknown complete_frac

---
 returnn/datasets/multi_proc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index 0fd449e..4776b06 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -452,9 +452,10 @@ class MultiProcDataset(CachedDataset2):
         # The complete_frac values from the subprocesses are not necessarily monotonic
         # due to rounding errors in the sharding and such.
         # We therefore fix them up here. This is valid due to monotonicity of `seq_idx`.
-        max_comp_frac = max(data.complete_frac, self._cur_max_complete_frac)
-        data.complete_frac = max_comp_frac
-        self._cur_max_complete_frac = max_comp_frac
+        if data.complete_frac is not None:
+            max_comp_frac = max(data.complete_frac, self._cur_max_complete_frac)
+            data.complete_frac = max_comp_frac
+            self._cur_max_complete_frac = max_comp_frac
         data.seq_idx = seq_idx
         return data
 
-- 
2.43.0


From 06fdfd8063bc02993ab252827ade79b9bdcb7621 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:53 +0000
Subject: [PATCH 27/31] fix: SimpleHDFWriter: extend_existing_file with
 multiple extra data keys

The extra keys of the existing file were not known to the writer,
so seqLengths got wrong columns, or the total length instead of the seq length.
---
 returnn/datasets/hdf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index da9e82b..4a4b4ed 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1158,6 +1158,12 @@ class SimpleHDFWriter:
 
         self._extra_num_time_steps = {}  # type: typing.Dict[str,int]  # key -> num-steps
         self._prepared_extra = set()
+        if extend_existing_file and "targets/data" in self._file:
+            # All existing entries count for the order of the data keys in seq_lengths.
+            for data_key, dataset in self._file["targets/data"].items():
+                self._datasets[data_key] = dataset
+                self._extra_num_time_steps[data_key] = dataset.shape[0]
+                self._prepared_extra.add(data_key)
         if extra_type:
             self._prepare_extra(extra_type, extra_labels if extra_labels else {})
 
@@ -1185,7 +1191,7 @@ class SimpleHDFWriter:
         for data_key, (dim, ndim, dtype) in extra_type.items():
             assert data_key != "inputs"
             if data_key in self._prepared_extra:
-                return
+                continue
             if not self._prepared_extra and not self.extend_existing_file:
                 # For the first time, need to create the groups.
                 self._file.create_group("targets/data")
-- 
2.43.0


From 2faa621f8c53e7b17b46dd5e693f64243a876b5f Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:53 +0000
Subject: [PATCH 28/31] fix: HDFDatasetWriter: order of seqLengths when the
 data key is renamed to classes

HDFDataset expects the columns sorted by the key in the HDF file.
---
 returnn/datasets/hdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index 4a4b4ed..28716c5 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1535,7 +1535,8 @@ class HDFDatasetWriter:
         hdf_dataset.create_dataset(attr_seqLengths, shape=(num_seqs, len(data_keys)), dtype="int32")
         for i, seq_len in enumerate(seq_lens):
             data_len = [seq_len[data_input_key]] if data_input_key else []
-            targets_lens = [seq_len[data_key] for data_key in sorted(data_target_keys)]
+            # HDFDataset expects this sorted by the key in the HDF.
+            targets_lens = [seq_len[data_key] for data_key in sorted(data_target_keys, key=hdf_data_key_map.get)]
             hdf_dataset[attr_seqLengths][i] = data_len + targets_lens
             if use_progress_bar:
                 progress_bar_with_time(float(i) / num_seqs)
-- 
2.43.0


From 0328abd930cb5f493a6f70e70913d7f6b5442b7b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:53 +0000
Subject: [PATCH 29/31] fix: HDFDataset: seq lengths for multiple files with
 different target keys and without inputs

---
 returnn/datasets/hdf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index 28716c5..5bd27d6 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -153,8 +153,11 @@ class HDFDataset(CachedDataset):
             # were a subset (so the order in which you load the files matters).
             assert all([key in self.target_keys for key in prev_target_keys])  # check if subset
             # Filter out the relevant seq lengths
-            seq_lengths = seq_lengths[:, [0] + [self.target_keys.index(key) + 1 for key in prev_target_keys]]
-            assert seq_lengths.shape[1] == len(prev_target_keys) + 1
+            seq_lengths = seq_lengths[
+                :,
+                list(range(num_input_keys)) + [self.target_keys.index(key) + num_input_keys for key in prev_target_keys],
+            ]
+            assert seq_lengths.shape[1] == len(prev_target_keys) + num_input_keys
             self.target_keys = prev_target_keys
 
         seq_start = numpy.zeros((seq_lengths.shape[0] + 1, seq_lengths.shape[1]), dtype="int64")
@@ -164,7 +167,7 @@ class HDFDataset(CachedDataset):
         if self._num_codesteps is None:
             self._num_codesteps = [0 for _ in range(num_input_keys, len(seq_lengths[0]))]
         for i in range(num_input_keys, len(seq_lengths[0])):
-            self._num_codesteps[i - 1] += numpy.sum(seq_lengths[:, i])
+            self._num_codesteps[i - num_input_keys] += numpy.sum(seq_lengths[:, i])
 
         if not self._seq_start:
             self._seq_start = [numpy.zeros((seq_lengths.shape[1],), "int64")]
-- 
2.43.0


From c2c4c4c6d47008e0287796fbb29ad0e7916f3720 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:11 +0000
Subject: [PATCH 30/31] fix: TorchBackend.slice: apply step

---
 returnn/torch/frontend/_backend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 82f2108..6774f31 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1168,14 +1168,20 @@ class TorchBackend(Backend[torch.Tensor]):
             size = size.raw_tensor
         if size is not None:
             assert end is None
-            out.raw_tensor = torch.narrow(source.raw_tensor, dim=axis_int, start=start, length=size)
+            raw = torch.narrow(source.raw_tensor, dim=axis_int, start=start, length=size)
         else:
             if isinstance(end, Tensor):
                 assert end.dims == ()
                 end = end.raw_tensor
             if end is None:
                 end = axis.get_dim_value()
-            out.raw_tensor = torch.narrow(source.raw_tensor, dim=axis_int, start=start, length=end - start)
+            raw = torch.narrow(source.raw_tensor, dim=axis_int, start=start, length=end - start)
+        if isinstance(step, Tensor):
+            assert step.dims == ()
+            step = int(step.raw_tensor)
+        if step is not None and step != 1:
+            raw = raw[(slice(None),) * axis_int + (slice(None, None, step),)]
+        out.raw_tensor = raw
         return out
 
     @staticmethod
-- 
2.43.0


From 78fdf13f10bcab6bc3d5eaa96e9d7d437a137540 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:11 +0000
Subject: [PATCH 31/31] fix: TorchBackend.random: uniform distribution with
 bound

---
 returnn/torch/frontend/_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 6774f31..ba72e14 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1651,6 +1651,9 @@ class TorchBackend(Backend[torch.Tensor]):
         else:
             assert seed is None
         assert auto_update_state is None  # not implemented otherwise
+        if bound is not None:
+            assert distribution == "uniform" and minval is None and maxval is None
+            minval, maxval = -bound, bound
         if distribution == "uniform":
             assert mean is None and stddev is None  # not implemented otherwise
             if dtype_.is_floating_point:
-- 
2.43.0

