From 36489ccf6495e21c2a68eb8824c7040e84eb84ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 01/24] fix: never emit a keyword, operator or number token
 that contains whitespace

---
 codeprep/parse/matchers.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/codeprep/parse/matchers.py b/codeprep/parse/matchers.py
index 5bc5062..10cfcb7 100644
--- a/codeprep/parse/matchers.py
+++ b/codeprep/parse/matchers.py
@@ -76,7 +76,8 @@ class KeywordMatcher(object):
         return token in Token.Keyword
 
     def transform(self, value: str) -> List[KeyWord]:
-        return [KeyWord(value)]
+        # some lexers report several keywords, or a keyword and the space after it, as one lexeme
+        return [KeyWord(v) for v in value.split()]
 
 
 class NewLineMatcher(object):
@@ -108,12 +109,15 @@ class NumberMatchers(object):
         return token in Token.Literal.Number
 
     def transform(self, value: str) -> List[Number]:
+        return [self._transform_one(v) for v in value.split()]
+
+    def _transform_one(self, value: str) -> Number:
         if value == '0':
-            return [Zero()]
+            return Zero()
         elif value == '1':
-            return [One()]
+            return One()
         else:
-            return [Number(value)]
+            return Number(value)
 
 
 class OperatorMatcher(object):
@@ -121,18 +125,21 @@ class OperatorMatcher(object):
         return token is Token.Operator or token in Token.Punctuation
 
     def transform(self, value: str) -> List[Operator]:
+        return [self._transform_one(v) for v in value.split()]
+
+    def _transform_one(self, value: str) -> Operator:
         if value == ';':
-            return [Semicolon()]
+            return Semicolon()
         elif value == '{':
-            return [OpeningCurlyBracket()]
+            return OpeningCurlyBracket()
         elif value == '}':
-            return [ClosingCurlyBracket()]
+            return ClosingCurlyBracket()
         elif value == '(':
-            return [OpeningBracket()]
+            return OpeningBracket()
         elif value == ')':
-            return [ClosingBracket()]
+            return ClosingBracket()
         else:
-            return [Operator(value)]
+            return Operator(value)
 
 
 class WordOperatorMatcher(object):
-- 
2.43.0


From 811c249393ddf057706c7bf2badb5c625c207a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 02/24] fix: restoring a capitalized word must not lowercase
 the rest of it

---
 codeprep/tokens/word.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/tokens/word.py b/codeprep/tokens/word.py
index 3319e61..f25a252 100644
--- a/codeprep/tokens/word.py
+++ b/codeprep/tokens/word.py
@@ -86,7 +86,7 @@ class Word(ParsedSubtoken):
         if self.capitalization == Word.Capitalization.UNDEFINED or self.capitalization == Word.Capitalization.NONE:
             return self.canonic_form
         elif self.capitalization == Word.Capitalization.FIRST_LETTER:
-            return self.canonic_form.capitalize()
+            return self.canonic_form[0].upper() + self.canonic_form[1:]
         elif self.capitalization == Word.Capitalization.ALL:
             return self.canonic_form.upper()
         else:
-- 
2.43.0


From 9c3ce703d6cca99f4635106e9882d61c93477d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 03/24] fix: keep characters that cannot be restored from their
 lowercase form

---
 codeprep/tokens/word.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/codeprep/tokens/word.py b/codeprep/tokens/word.py
index f25a252..7cb77c6 100644
--- a/codeprep/tokens/word.py
+++ b/codeprep/tokens/word.py
@@ -51,7 +51,8 @@ class Word(ParsedSubtoken):
 
     @staticmethod
     def _is_strictly_upper(s) -> bool:
-        return s.isupper() and not s.lower().isupper()
+        # characters that cannot be restored from their lowercase form (e.g. '\u0130', '\u212a') are left as they are
+        return s.isupper() and not s.lower().isupper() and s.lower().upper() == s
 
     @staticmethod
     def _check_canonic_form_is_valid(canonic_form) -> None:
@@ -109,9 +110,9 @@ class Word(ParsedSubtoken):
 
         if s.islower() or not s:
             return cls(s, Word.Capitalization.NONE)
-        elif s.isupper():
+        elif Word._is_strictly_upper(s):
             return cls(s.lower(), Word.Capitalization.ALL)
-        elif s[0].isupper():
+        elif Word._is_strictly_upper(s[0]):
             return cls(s[0].lower() + s[1:], Word.Capitalization.FIRST_LETTER)
         else:
             return cls(s, Word.Capitalization.UNDEFINED)
-- 
2.43.0


From a78dc008d3fb93d73f8782aaad55a3fab4d216b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 04/24] fix: unescape must not modify the cached subwords it is
 given

---
 codeprep/bpepkg/bpe_encode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/bpe_encode.py b/codeprep/bpepkg/bpe_encode.py
index b253605..658aee2 100644
--- a/codeprep/bpepkg/bpe_encode.py
+++ b/codeprep/bpepkg/bpe_encode.py
@@ -40,7 +40,7 @@ def unescape(parts: List[str]):
     if parts[-1][-1] != ESCAPE_CHAR:
         raise ValueError(f"There should be {ESCAPE_CHAR} at the end, however this is what was passed: {parts}")
 
-    parts[-1] = parts[-1][:-1]
+    parts = parts[:-1] + [parts[-1][:-1]]
     return list(map(lambda p: p.replace(ESCAPE_CHAR + '@', ESCAPE_CHAR), parts))
 
 
-- 
2.43.0


From e603af8ae312822b18c781338e7c9a741e9ca12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 05/24] fix: a failed load of BPE data must not replace the
 loaded data

---
 codeprep/pipeline/to_repr.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 24de466..1cc46a4 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -84,20 +84,19 @@ def preprocess_and_write(params: Tuple[bytes, bytes, PrepConfig, str], bpe_data:
 def init_bpe_data(prep_config: PrepConfig, custom_bpe_config: Optional[CustomBpeConfig], force_reinit: bool=True):
     if get_global_bpe_data_if_available() and not force_reinit:
         return # already initialized
-    global global_bpe_data
-    global_bpe_data = BpeData()
+    bpe_data = BpeData()
     if custom_bpe_config:
         logger.info(f'Using bpe merges file: {custom_bpe_config.codes_file}')
         if custom_bpe_config.can_use_cache_file():
-            global_bpe_data.merges_cache = read_bpe_cache(custom_bpe_config.cache_file)
+            bpe_data.merges_cache = read_bpe_cache(custom_bpe_config.cache_file)
         else:
-            global_bpe_data.merges_cache = {}
-        global_bpe_data.merges = read_merges(custom_bpe_config.codes_file, custom_bpe_config.n_merges)
+            bpe_data.merges_cache = {}
+        bpe_data.merges = read_merges(custom_bpe_config.codes_file, custom_bpe_config.n_merges)
 
         if custom_bpe_config.n_merges:
             logger.info(f'Using first {custom_bpe_config.n_merges} merges.')
         nonbpe_vocab = vocabloader.nonbpe(custom_bpe_config.merge_list_id)
-        global_bpe_data.merges_cache.update({s: [s] for s in nonbpe_vocab})
+        bpe_data.merges_cache.update({s: [s] for s in nonbpe_vocab})
     else:
         bpe_n_merges_dict = {'4': '5k', '5': '1k', '6': '10k', '7': '20k', '8': '0'}
         bpe_n_merges = bpe_n_merges_dict[prep_config.get_param_value(PrepParam.SPLIT)]
@@ -109,10 +108,14 @@ def init_bpe_data(prep_config: PrepConfig, custom_bpe_config: Optional[CustomBpe
                                              CASE_DIR if prep_config.get_param_value(PrepParam.CASE) == 'u' else NO_CASE_DIR,
                                              str(bpe_n_merges), 'merges_cache.txt')
         if os.path.exists(bpe_merges_cache_file):
-            global_bpe_data.merges_cache = read_bpe_cache(bpe_merges_cache_file)
+            bpe_data.merges_cache = read_bpe_cache(bpe_merges_cache_file)
         else:
-            global_bpe_data.merges_cache = {}
-        global_bpe_data.merges = read_merges(bpe_merges_file)
+            bpe_data.merges_cache = {}
+        bpe_data.merges = read_merges(bpe_merges_file)
+
+    # only now that everything has been loaded successfully
+    global global_bpe_data
+    global_bpe_data = bpe_data
 
 
 def params_generator(dataset: Dataset, path_to_part_metadata: Optional[str]):
-- 
2.43.0


From 2c260ab8348d94bbbdef6010351014e846c7b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:52 +0000
Subject: [PATCH 06/24] fix: merges without a known frequency must be readable
 after being dumped

---
 codeprep/bpepkg/merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/merge.py b/codeprep/bpepkg/merge.py
index 3a21c74..8574d93 100644
--- a/codeprep/bpepkg/merge.py
+++ b/codeprep/bpepkg/merge.py
@@ -170,4 +170,5 @@ def read_merges(file: str, n_merges: Optional[int] = None) -> MergeList:
 def dump_merges(merges: MergeList, file: str):
     with open(file, 'w') as f:
         for merge in merges:
-            f.write(f"{to_literal_str(' '.join(merge.pair))} {merge.freq}\n")
\ No newline at end of file
+            freq_part = '' if merge.freq is None else f' {merge.freq}'
+            f.write(f"{to_literal_str(' '.join(merge.pair))}{freq_part}\n")
\ No newline at end of file
-- 
2.43.0


From 022a564882a20f5af61b743d60b9adfd6aeaec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 07/24] fix: files whose extension is not valid UTF-8 must not
 break preprocessing

---
 codeprep/pipeline/parse_projects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/parse_projects.py b/codeprep/pipeline/parse_projects.py
index 344bba6..84398de 100644
--- a/codeprep/pipeline/parse_projects.py
+++ b/codeprep/pipeline/parse_projects.py
@@ -38,7 +38,7 @@ def preprocess_and_write(params: Tuple[bytes, bytes]) -> None:
             logger.error(f"File was found when scanning the directory, but cannot be read: {src_file_path}. "
                          f"Invalid symlink? Ignoring ...")
             return
-        extension_bin = os.path.splitext(src_file_path)[1].decode()[1:]
+        extension_bin = os.path.splitext(src_file_path)[1].decode(errors='replace')[1:]
         parsed = [p for p in convert_text("\n".join(lines_from_file), extension_bin)]
         pickle.dump(parsed, f, pickle.HIGHEST_PROTOCOL)
 
-- 
2.43.0


From a04e041e4d34fbd8dce115bda84b098efe8a92ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 08/24] fix: only regular files of a dataset are preprocessed
 (not sockets, pipes, devices)

---
 codeprep/dirutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index c4792e9..aebc987 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -46,7 +46,8 @@ def walk_and_save(path: str, dir_list_path: str, file_list_path: str, return_dir
                 for file in files:
                     bin_name = os.path.join(os.path.relpath(root, path_bin), file)
                     if not extensions or has_one_of_extensions(bin_name, extensions_bin):
-                        if not os.path.islink(os.path.join(root, file)):
+                        full_path = os.path.join(root, file)
+                        if os.path.isfile(full_path) and not os.path.islink(full_path):
                             f.write(f'{bin_name}\n')
                             if not return_dirs_instead_of_regular_files:
                                 yield bin_name
-- 
2.43.0


From 976f5472a23fd023d039689d980c0a3941cd00dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 09/24] fix: preprocess the dataset also when its vocabulary
 has already been calculated

---
 codeprep/pipeline/stages.py | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/codeprep/pipeline/stages.py b/codeprep/pipeline/stages.py
index eb13220..29d9717 100644
--- a/codeprep/pipeline/stages.py
+++ b/codeprep/pipeline/stages.py
@@ -5,7 +5,6 @@
 """This module runs different stages of preprocessing flow and makes sure not to rerun a stage if its results are already available.
 """
 import logging
-import os
 from typing import Optional
 
 from codeprep.pipeline import parse_projects, to_repr
@@ -52,19 +51,7 @@ def run_until_base_bpe_vocab(dataset: Dataset, custom_bpe_config: Optional[Custo
 
 
 def run_until_vocab(dataset: Dataset, custom_bpe_config: Optional[CustomBpeConfig]=None) -> None:
-    logger.info(f'Checking first if vocabulary file exists: {dataset.path_to_vocab_file}')
-    if os.path.exists(dataset.path_to_vocab_file):
-        logger.info("Vocabulary is already computed and up-to-date")
-        return
-
-    if not is_path_ready(dataset.path_to_vocab_file):
-        run_until_preprocessing(dataset, custom_bpe_config)
-        logger.info("Computing vocab...")
-        calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)
-    elif is_path_outdated(dataset.path_to_vocab_file):
-        run_until_preprocessing(dataset, custom_bpe_config)
-        logger.info("Computing vocab...")
-        archive_path(dataset.path_to_bpe_vocab_file)
-        calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)
-    else:
-        raise AssertionError()
\ No newline at end of file
+    # an existing vocabulary does not mean that the output exists, e.g. if another output path was used before
+    run_until_preprocessing(dataset, custom_bpe_config)
+    logger.info("Computing vocab...")
+    calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)
\ No newline at end of file
-- 
2.43.0


From d782284cac382c1b13fdd3b7270b844c3c83842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 10/24] fix: notice all changes of a dataset, also of its
 top-level directory and of linked directories

---
 codeprep/dirutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index aebc987..69d80b3 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -57,10 +57,10 @@ def get_dir_last_modification(path: str, limit: int = LIMIT_FILES_ON_LAST_MODIFI
 
     def walk_path(path):
         counter = 0
-        if os.path.isfile(path) or len(os.listdir(path)) == 0:
-            yield os.path.getmtime(path)
-        else:
-            for root, dirs, files in os.walk(path):
+        # adding, removing, and renaming entries of the directory only changes the modification time of the directory itself
+        yield os.path.getmtime(path)
+        if not os.path.isfile(path):
+            for root, dirs, files in os.walk(path, followlinks=True):
                 for dir in dirs:
                     if counter >= limit:
                         return
-- 
2.43.0


From c3123d3cec0eee6e234e1f8f089571b4e72dd5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 11/24] fix: partial and resulting vocabularies are written
 completely or not at all

---
 codeprep/fileutils.py      | 13 +++++++++++++
 codeprep/pipeline/vocab.py | 22 +++++++++-------------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/codeprep/fileutils.py b/codeprep/fileutils.py
index 0be3133..3d0106b 100644
--- a/codeprep/fileutils.py
+++ b/codeprep/fileutils.py
@@ -3,6 +3,8 @@
 # SPDX-License-Identifier: Apache-2.0
 
 import logging
+import os
+from contextlib import contextmanager
 
 from typing import List, Tuple
 
@@ -33,6 +35,17 @@ def has_one_of_extensions(name: bytes, extensions: List[bytes]) -> bool:
     return False
 
 
+@contextmanager
+def open_atomically(path, mode: str = 'w'):
+    """
+    Opens a file for writing, the file appears at `path` only when all its content has been written.
+    """
+    path_to_unfinished_file = path + (b'.part' if isinstance(path, bytes) else '.part')
+    with open(path_to_unfinished_file, mode) as f:
+        yield f
+    os.replace(path_to_unfinished_file, path)
+
+
 def read_file_contents(file_path: bytes) -> Tuple[List[str], bytes]:
     try:
         return read_file_with_encoding(file_path, 'utf-8')
diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 0cdfa3d..707fe7d 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -20,7 +20,7 @@ import dill as pickle
 import time
 from tqdm import tqdm
 
-from codeprep.fileutils import read_file_contents
+from codeprep.fileutils import open_atomically, read_file_contents
 from codeprep.preprocess.placeholders import placeholders
 from codeprep.util import to_literal_str, to_non_literal_str, AtomicInteger, NonAtomicCounter, \
     merge_dicts_, groupify, create_chunk_generator
@@ -78,7 +78,7 @@ class PartialVocab(object):
 
     def write_stats(self, path_to_stats_file: str) -> None:
         stats = self.__generate_stats()
-        with open(path_to_stats_file, 'w') as f:
+        with open_atomically(path_to_stats_file) as f:
             vocabsize = int(stats[-1][1][0])
             f.write(f'{vocabsize}\n')
             for percent, (v, n) in stats:
@@ -197,7 +197,8 @@ class VocabMerger(multiprocessing.Process):
 
         first.renew_id()
         path_to_new_file = os.path.join(self.path_to_dump, f'{first_id}_{second_id}_{first.id}.{PARTVOCAB_EXT}')
-        pickle.dump(first, open(path_to_new_file, 'wb'))
+        with open_atomically(path_to_new_file, 'wb') as f:
+            pickle.dump(first, f)
         finish_file_dumping(path_to_new_file)
 
         return first, new_words
@@ -219,18 +220,12 @@ def create_and_dump_partial_vocab(param: Tuple[List[str], str, int]) -> PartialV
     partial_vocab = PartialVocab(vocab, chunk)
     path = os.path.join(path_to_dump, f'{partial_vocab.id}.{PARTVOCAB_EXT}')
     logger.debug(f"Dumping part vocab to {path}")
-    pickle.dump(partial_vocab, open(path, 'wb'))
+    with open_atomically(path, 'wb') as f:
+        pickle.dump(partial_vocab, f)
     return partial_vocab
 
 
 def finish_file_dumping(path_to_new_file: str) -> None:
-    try:
-        pickle.load(open(path_to_new_file, 'rb'))
-    except EOFError:
-        # file has not been written properly
-        os.remove(path_to_new_file)
-        return
-
     dir, base = os.path.split(path_to_new_file)
     spl = base.split('.')[0].split('_')
     if len(spl) != 3:
@@ -292,7 +287,8 @@ def load_partial_vocabs(path: str) -> List[PartialVocab]:
     task_list = []
     for file in os.listdir(path):
         if file.endswith(PARTVOCAB_EXT):
-            part_vocab = pickle.load(open(os.path.join(path, file), 'rb'))
+            with open(os.path.join(path, file), 'rb') as f:
+                part_vocab = pickle.load(f)
             if not isinstance(part_vocab, PartialVocab):
                 raise TypeError(f"Object {str(part_vocab)} must be VocabMerger version {part_vocab.VERSION}")
             task_list.append(part_vocab)
@@ -320,7 +316,7 @@ def partial_vocabs_ready(path_to_dump: str) -> bool:
 
 
 def _dump_vocab_dict(lst: List[Tuple[str, int]], file: str, to_literal=True) -> None:
-    with open(file, 'w') as f:
+    with open_atomically(file) as f:
         for word, freq in lst:
             if to_literal:
                 word = to_literal_str(word)
-- 
2.43.0


From 6c1f6ebd86b1662b9eae104ef7d472194e814b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 12/24] fix: a run killed while saving a ready mark or the
 corpus size must not break later runs

---
 codeprep/api/corpus.py       | 3 ++-
 codeprep/pipeline/dataset.py | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/codeprep/api/corpus.py b/codeprep/api/corpus.py
index b583a36..b72097f 100644
--- a/codeprep/api/corpus.py
+++ b/codeprep/api/corpus.py
@@ -14,6 +14,7 @@ from tqdm import tqdm
 from codeprep.api.common import create_prep_config
 from codeprep.config import CHUNKSIZE
 from codeprep.config import test_data_dir
+from codeprep.fileutils import open_atomically
 from codeprep.pipeline import stages
 from codeprep.pipeline.bperegistry import CustomBpeConfig, is_predefined_id
 from codeprep.pipeline.dataset import Dataset, SubDataset
@@ -48,7 +49,7 @@ class PreprocessedCorpus(object):
     def get_corpus_size(self) -> int:
         if not os.path.exists(self._path_to_corpus_size_file):
             corpus_size = self._calc_corpus_size()
-            with open(self._path_to_corpus_size_file, 'w') as f:
+            with open_atomically(self._path_to_corpus_size_file) as f:
                 f.write(f'{corpus_size}')
         with open(self._path_to_corpus_size_file, 'r') as f:
             return int(f.read())
diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index 59f8c7e..bd24c9d 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -11,6 +11,7 @@ from codeprep.bpepkg.bpe_config import BpeConfig
 from codeprep.config import DEFAULT_PARSED_DATASETS_DIR, DEFAULT_PREP_DATASETS_DIR, USER_BPE_DIR, DEFAULT_FILE_LIST_DIR, \
     USER_VOCAB_DIR, DEFAULT_CORPUS_SIZES_DIR
 from codeprep.dirutils import walk_and_save, get_timestamp
+from codeprep.fileutils import open_atomically
 from codeprep.pipeline.bperegistry import get_codes_id_by_bpe_path, create_new_id_from, write_bpe_codes_id, \
     CustomBpeConfig
 from codeprep.pipeline.vocab import VOCAB_FILENAME
@@ -294,7 +295,7 @@ def _get_last_modif_file_path_for_dir(path: str) -> str:
 
 def set_path_ready(path: str) -> None:
     modif_file = _get_last_modif_file_path_for_dir(path)
-    with open(modif_file, 'w') as f:
+    with open_atomically(modif_file) as f:
         f.write(get_timestamp(path))
 
 
@@ -320,7 +321,10 @@ def archive_path(path: str) -> None:
     timestamp = get_timestamp(path)
     if not os.path.exists(DEFAULT_PREP_DATASETS_DIR):
         os.makedirs(DEFAULT_PREP_DATASETS_DIR)
-    os.rename(path, os.path.join(DEFAULT_PREP_DATASETS_DIR, f'{os.path.basename(path)}.{ARCHIVED_EXT}.{timestamp}'))
+    archived_path = os.path.join(DEFAULT_PREP_DATASETS_DIR, f'{os.path.basename(path)}.{ARCHIVED_EXT}.{timestamp}')
+    while os.path.exists(archived_path):
+        archived_path += '_'
+    os.rename(path, archived_path)
     os.rename(modif_file, os.path.join(DEFAULT_PREP_DATASETS_DIR, f'{os.path.basename(modif_file)}.{ARCHIVED_EXT}.{timestamp}'))
 
 
-- 
2.43.0


From b2ded78452de683c69f425efc0c325c79cfd1532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 13/24] fix: non-bpe tokens of files with long or equal names,
 or saved by a killed run, must not get lost or garbled

---
 codeprep/pipeline/to_repr.py     | 4 ++--
 codeprep/pipeline/vocabloader.py | 7 +++++--
 codeprep/preprocess/metadata.py  | 3 ++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 1cc46a4..0bc0418 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -10,8 +10,8 @@ import platform
 from multiprocessing.pool import Pool
 from typing import List, Tuple
 from typing import Optional
+from uuid import uuid4
 
-import time
 from tqdm import tqdm
 
 from codeprep.bpepkg.bpe_encode import read_merges, BpeData
@@ -76,7 +76,7 @@ def preprocess_and_write(params: Tuple[bytes, bytes, PrepConfig, str], bpe_data:
         o.write(to_literal_str(to_token_str(repr)) + '\n')
 
     if part_nonbpe_vocab_folder:
-        save_metadata(metadata, os.path.join(part_nonbpe_vocab_folder, f'{os.path.basename(dest_file_path)}_-_{time.time()}'))
+        save_metadata(metadata, os.path.join(part_nonbpe_vocab_folder, uuid4().hex))
 
     os.rename(not_finished_dest_file_path, dest_file_path)
 
diff --git a/codeprep/pipeline/vocabloader.py b/codeprep/pipeline/vocabloader.py
index ac8306b..1eeb696 100644
--- a/codeprep/pipeline/vocabloader.py
+++ b/codeprep/pipeline/vocabloader.py
@@ -7,8 +7,9 @@ import os
 import shutil
 from typing import Set, Dict
 
+from codeprep.fileutils import open_atomically
 from codeprep.pipeline.bperegistry import get_bpe_dir, get_base_vocab_dir, RESULTING_VOCAB_FILE_NAME
-from codeprep.pipeline.dataset import Dataset, NONBPE_VOCAB_FILENAME
+from codeprep.pipeline.dataset import Dataset, NONBPE_VOCAB_FILENAME, NOT_FINISHED_EXTENSION
 from codeprep.preprocess.placeholders import placeholders
 from codeprep.util import to_literal_str
 from codeprep.pipeline.vocab import _load_vocab_dict, _load_vocab_set, VOCAB_FILENAME
@@ -46,10 +47,12 @@ def gather_non_bpe_vocab(dataset: Dataset):
     for idx, file in enumerate(os.listdir(part_nonbpe_vocab_dir)):
         if idx % 569 == 0:
             print(f'Files processed: {idx}', end='\r')
+        if file.endswith(NOT_FINISHED_EXTENSION):
+            continue
         non_bpe_tokens.update(_load_vocab_set(os.path.join(part_nonbpe_vocab_dir, file)))
 
     non_bpe_tokens.update(list(placeholders.values()))
-    with open(dataset.path_to_nonbpe_vocab_file, 'w') as f:
+    with open_atomically(dataset.path_to_nonbpe_vocab_file) as f:
         for token in non_bpe_tokens:
             f.write(f'{to_literal_str(token)}\n')
     shutil.rmtree(part_nonbpe_vocab_dir)
\ No newline at end of file
diff --git a/codeprep/preprocess/metadata.py b/codeprep/preprocess/metadata.py
index 1bf8f9f..73cf320 100644
--- a/codeprep/preprocess/metadata.py
+++ b/codeprep/preprocess/metadata.py
@@ -5,6 +5,7 @@
 import logging
 from typing import Set, Optional, List, Type, Tuple
 
+from codeprep.fileutils import open_atomically
 from codeprep.subtokens import is_terminal_subtoken
 from codeprep.util import to_literal_str
 
@@ -66,7 +67,7 @@ class PreprocessingMetadata(object):
 
 
 def save_metadata(metadata: PreprocessingMetadata, save_to: bytes) -> None:
-    with open(save_to, 'w') as f:
+    with open_atomically(save_to) as f:
         for token in metadata.nonprocessable_tokens:
             f.write(f'{to_literal_str(token)}\n')
 
-- 
2.43.0


From 7c8cdf75b73df70f511adb9b618d8745306418fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 14/24] fix: results of learn-bpe appear completely or not at
 all

---
 codeprep/pipeline/bpelearner.py  | 19 ++++++++++++-------
 codeprep/pipeline/bperegistry.py |  3 ++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/codeprep/pipeline/bpelearner.py b/codeprep/pipeline/bpelearner.py
index b819945..305aab0 100644
--- a/codeprep/pipeline/bpelearner.py
+++ b/codeprep/pipeline/bpelearner.py
@@ -4,6 +4,7 @@
 
 import logging
 import os
+import shutil
 from typing import Tuple, Dict, Set, Optional
 
 from codeprep.bpepkg.bpe_config import BpeConfig, BpeParam, BpeConfigNotSupported
@@ -14,7 +15,7 @@ from codeprep.bpepkg.merge import MergeList, read_merges, dump_merges
 from codeprep.pipeline import stages
 from codeprep.pipeline.bperegistry import get_max_merges, MERGES_FILE_NAME, MERGES_CACHE_FILE_NAME, \
     RESULTING_VOCAB_FILE_NAME, BPE_REASSEMBLED_VOCAB_FILE_NAME
-from codeprep.pipeline.dataset import Dataset
+from codeprep.pipeline.dataset import Dataset, NOT_FINISHED_EXTENSION
 from codeprep.pipeline.vocab import _dump_vocab_dict, _load_vocab_dict
 from codeprep.util import to_non_literal_str
 
@@ -69,18 +70,22 @@ def get_dir_with_most_merges(dataset_bpe_path, n_merges) -> Optional[str]:
 
 
 def save_results(split_base_vocab, merges, new_bpe_dir):
-
-    os.makedirs(new_bpe_dir)
+    # the results are written to a temporary folder, so that the results of a killed run are never used
+    not_finished_bpe_dir = new_bpe_dir + NOT_FINISHED_EXTENSION
+    if os.path.exists(not_finished_bpe_dir):
+        shutil.rmtree(not_finished_bpe_dir)
+    os.makedirs(not_finished_bpe_dir)
 
     resulting_vocab = create_resulting_vocab(split_base_vocab)
     resulting_vocab_sorted = sorted(resulting_vocab.items(), key=lambda x: x[1], reverse=True)
-    _dump_vocab_dict(resulting_vocab_sorted, os.path.join(new_bpe_dir, RESULTING_VOCAB_FILE_NAME))
+    _dump_vocab_dict(resulting_vocab_sorted, os.path.join(not_finished_bpe_dir, RESULTING_VOCAB_FILE_NAME))
 
     bpe_cache = create_bpe_cache(split_base_vocab)
-    dump_bpe_cache(bpe_cache, os.path.join(new_bpe_dir, MERGES_CACHE_FILE_NAME))
+    dump_bpe_cache(bpe_cache, os.path.join(not_finished_bpe_dir, MERGES_CACHE_FILE_NAME))
 
-    dump_merges(merges, os.path.join(new_bpe_dir, MERGES_FILE_NAME))
-    _dump_vocab_dict(split_base_vocab.items(), os.path.join(new_bpe_dir, BPE_REASSEMBLED_VOCAB_FILE_NAME))
+    dump_merges(merges, os.path.join(not_finished_bpe_dir, MERGES_FILE_NAME))
+    _dump_vocab_dict(split_base_vocab.items(), os.path.join(not_finished_bpe_dir, BPE_REASSEMBLED_VOCAB_FILE_NAME))
+    os.rename(not_finished_bpe_dir, new_bpe_dir)
     logger.info(f'Bpe output files are saved into {new_bpe_dir} folder')
 
 
diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index a9503ad..ec71e27 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -14,6 +14,7 @@ from codeprep.bpepkg.bpe_config import BpeConfig
 from codeprep.bpepkg.bpe_encode import read_merges
 from codeprep.bpepkg.merge import MergeList
 from codeprep.config import USER_BPE_DIR, USER_VOCAB_DIR
+from codeprep.fileutils import open_atomically
 
 logger = logging.getLogger(__name__)
 
@@ -121,7 +122,7 @@ def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id
 
 def write_bpe_codes_id(dataset_bpe_dir: str, bpe_codes_id: str) -> None:
     file_with_id = os.path.join(dataset_bpe_dir, BPE_CODES_ID_FILENAME)
-    with open(file_with_id, 'w') as f:
+    with open_atomically(file_with_id) as f:
         f.write(bpe_codes_id)
 
 
-- 
2.43.0


From 8a17e03c4f60725dd4b237809bfe1a53b1f7f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 15/24] fix: never give the same id to the bpe codes of two
 datasets

---
 codeprep/cli/impl.py             |  6 +++++-
 codeprep/pipeline/bperegistry.py | 13 ++++++++++---
 codeprep/pipeline/dataset.py     |  4 +++-
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/codeprep/cli/impl.py b/codeprep/cli/impl.py
index 93b922d..bc9fd43 100644
--- a/codeprep/cli/impl.py
+++ b/codeprep/cli/impl.py
@@ -54,7 +54,11 @@ def handle_learnbpe(args):
     dataset = Dataset.create(path, bpe_config.to_prep_config(), extensions, None, bpe_config)
 
     if not dataset.bpe_codes_id:
-        dataset.assign_bpe_codes_id(bpe_config, predefined_bpe_codes_id=bpe_codes_id)
+        try:
+            dataset.assign_bpe_codes_id(bpe_config, predefined_bpe_codes_id=bpe_codes_id)
+        except InvalidBpeCodesIdError as err:
+            logger.error(err)
+            return
     elif bpe_codes_id:
         logger.warning(f"Ignoring passed bpe codes id: {bpe_codes_id}. "
               f"This dataset has already been assigned id: {dataset.bpe_codes_id}")
diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index ec71e27..84a7b02 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -102,17 +102,17 @@ def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id
     if predefined_bpe_codes_id:
         return predefined_bpe_codes_id
     else:
-        name_parts = [os.path.basename(path)]
+        name_parts = [os.path.basename(path).strip()]
         id_suffix = bpe_config.to_suffix()
         if id_suffix:
             name_parts.append(id_suffix)
         id_base = '_'.join(name_parts)
-        existing_ids = _get_all_custom_bpe_codes_and_max_merges().keys()
+        existing_ids = {*_get_all_custom_bpe_codes_and_max_merges(), *get_all_bpe_codes_ids()}
         if id_base not in existing_ids:
             return id_base
         else:
             def extract_number(full_id: str, id_base: str) -> int:
-                m = regex.fullmatch(f"{id_base}_([0-9]+)", full_id)
+                m = regex.fullmatch(f"{regex.escape(id_base)}_([0-9]+)", full_id)
                 return int(m[1]) if m else 0
 
             numbers = list(map(lambda d: extract_number(d, id_base), existing_ids))
@@ -120,6 +120,13 @@ def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id
             return f'{id_base}_{new_number}'
 
 
+def get_all_bpe_codes_ids() -> List[str]:
+    # including the ids of the codes which have not been learned (yet)
+    bpe_dirs = _get_all_bpe_merges_dirs(USER_BPE_DIR) if os.path.exists(USER_BPE_DIR) else []
+    ids = [get_codes_id_by_bpe_path(os.path.join(USER_BPE_DIR, bpe_dir)) for bpe_dir in bpe_dirs]
+    return [id for id in ids if id]
+
+
 def write_bpe_codes_id(dataset_bpe_dir: str, bpe_codes_id: str) -> None:
     file_with_id = os.path.join(dataset_bpe_dir, BPE_CODES_ID_FILENAME)
     with open_atomically(file_with_id) as f:
diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index bd24c9d..8244b00 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -13,7 +13,7 @@ from codeprep.config import DEFAULT_PARSED_DATASETS_DIR, DEFAULT_PREP_DATASETS_D
 from codeprep.dirutils import walk_and_save, get_timestamp
 from codeprep.fileutils import open_atomically
 from codeprep.pipeline.bperegistry import get_codes_id_by_bpe_path, create_new_id_from, write_bpe_codes_id, \
-    CustomBpeConfig
+    get_all_bpe_codes_ids, CustomBpeConfig, InvalidBpeCodesIdError
 from codeprep.pipeline.vocab import VOCAB_FILENAME
 from codeprep.prepconfig import PrepConfig
 
@@ -249,6 +249,8 @@ class Dataset(object):
 
     def assign_bpe_codes_id(self, bpe_config: BpeConfig, predefined_bpe_codes_id: str) -> None:
         id = create_new_id_from(self.path, bpe_config, predefined_bpe_codes_id)
+        if id.strip() in get_all_bpe_codes_ids():
+            raise InvalidBpeCodesIdError(f'Bpe codes id is already in use: {id}')
         write_bpe_codes_id(self.bpe_path, id)
 
     @property
-- 
2.43.0


From 22ac57b4a558168277a1ef8cf92b6a064112dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 16/24] fix: the whole string must be a bpe codes id, and ids
 may contain newlines

---
 codeprep/pipeline/bperegistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index 84a7b02..b24c49c 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -151,7 +151,7 @@ Format should be: "(.*)-([1-9][0-9]*)$"
 Format should be: "(.*)-([1-9][0-9]*)$"
     """
     REGEX = "(.*)-([1-9][0-9]*)$"
-    m = regex.match(REGEX, s)
+    m = regex.fullmatch(REGEX, s, regex.DOTALL)
     if m:
         return m[1], int(m[2])
     else:
-- 
2.43.0


From 2576e3ebc9d88b129c5a9ca86d20c497c39b8cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 17/24] fix: find the base vocabulary of bpe codes learned on a
 dataset with _-_ in its name

---
 codeprep/pipeline/bperegistry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index b24c49c..2a2df78 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -162,7 +162,9 @@ def get_base_vocab_dir(bpe_list_id: str) -> str:
     dataset_bpe_dir = get_dataset_bpe_dir(bpe_list_id)
     prep_config_str = os.path.basename(dataset_bpe_dir)
     #TODO do not hard code date and dir format in general
-    m = regex.fullmatch(r'(.*?)((?:_-_.*)?)', prep_config_str)
+    # the name of the dataset itself may contain '_-_'
+    suffix = f'(?:{BpeConfig.WORD_END}_)?(?:{BpeConfig.WORD_END}|{BpeConfig.UNICODE_NO}|{BpeConfig.UNICODE_BYTES})'
+    m = regex.fullmatch(f'(.*?)((?:_-_{suffix})?)', prep_config_str, regex.DOTALL)
     if not m:
         raise ValueError(f'Invalid dir format: {prep_config_str}')
     bpe_config = BpeConfig.from_suffix(m[2])
-- 
2.43.0


From fe9df250f41281c08e9056d5dbee9b1fffeff19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 18/24] fix: do not mix up caches of different lists of
 extensions

---
 codeprep/pipeline/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index 8244b00..61ec1f0 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -175,7 +175,8 @@ class Dataset(object):
     def get_dataset_dir_name(self) -> str:
         name = f'{self.name}_{self.dataset_last_modified}'
         if self._normalized_extension_list:
-            name += ('_' + "_".join(self._normalized_extension_list))
+            # extensions are escaped, otherwise the names would be the same for e.g. 'a_b' and 'a|b'
+            name += ('_' + "_".join(e.replace('%', '%25').replace('_', '%5F') for e in self._normalized_extension_list))
         return name
 
     @property
-- 
2.43.0


From 0b1e3b3dd032dafb013e9c33a9d4072fb36fc9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 19/24] fix: preprocess also an empty text passed to the
 command line

---
 codeprep/cli/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/cli/impl.py b/codeprep/cli/impl.py
index bc9fd43..acb0bd1 100644
--- a/codeprep/cli/impl.py
+++ b/codeprep/cli/impl.py
@@ -71,7 +71,7 @@ def handle_splitting(args: Dict) -> None:
     try:
         prep_config = create_prep_config_from_args(args)
         bpe_codes_id = get_option(args, '<bpe-codes-id>') or get_predefined_bpe_codes_id(args)
-        if args['<text>']:
+        if args['<text>'] is not None:
             prep_text = codeprep.api.text.preprocess(args['<text>'], prep_config, bpe_codes_id,
                                                      extension=args['--ext'])
             print(prep_text)
-- 
2.43.0


From 6e1af713d0a2fb5cb00c274c9751950d600bfb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 20/24] fix: mergers of vocabularies must not be forked while
 threads feed their queues (they could wait for an import lock forever)

---
 codeprep/pipeline/vocab.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 707fe7d..4e7b4ea 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -123,7 +123,7 @@ class VocabMerger(multiprocessing.Process):
 
     def run(self) -> None:
         while True:
-            chunk_assigned = self.chunk_queue.get(block=True, timeout=BLOCKING_TIMEOUT_SECONDS_SHORT)
+            chunk_assigned = self.chunk_queue.get(block=True, timeout=BLOCKING_TIMEOUT_SECONDS_LONG)
             if chunk_assigned == -1:
                 if not self.process_counter.compare_and_dec(1):
                     logger.debug(
@@ -244,11 +244,9 @@ def finish_file_dumping(path_to_new_file: str) -> None:
     os.rename(path_to_new_file, new_file)
 
 
-def list_to_queue(lst: List) -> Queue:
-    queue = Queue()
+def fill_queue(queue: Queue, lst: List) -> None:
     for elm in lst:
         queue.put_nowait(elm)
-    return queue
 
 
 def create_initial_partial_vocabs(all_files: List[bytes], path_to_dump: str) -> List[PartialVocab]:
@@ -264,17 +262,16 @@ def create_initial_partial_vocabs(all_files: List[bytes], path_to_dump: str) ->
     return partial_vocabs_queue
 
 
-def create_chunk_queue(chunk_sizes: Dict[int, int], num_mergers: int) -> Tuple[Queue, int]:
-    chunk_queue_list = [chunk for chunk, chunk_size in chunk_sizes.items() for _ in range(chunk_size - 1)]
-    return list_to_queue(chunk_queue_list + [-1 for _ in range(num_mergers)]), len(chunk_queue_list)
+def create_chunk_list(chunk_sizes: Dict[int, int], num_mergers: int) -> Tuple[List[int], int]:
+    chunk_list = [chunk for chunk, chunk_size in chunk_sizes.items() for _ in range(chunk_size - 1)]
+    return chunk_list + [-1 for _ in range(num_mergers)], len(chunk_list)
 
 
-def mapify_tasks(tasks: List[PartialVocab]) -> Tuple[Dict[int, Queue], Dict[int, int]]:
+def mapify_tasks(tasks: List[PartialVocab]) -> Tuple[Dict[int, List[PartialVocab]], Dict[int, int]]:
     task_lists_in_chunks = defaultdict(list)
     for task in tasks:
         task_lists_in_chunks[task.chunk].append(task)
-    return {chunk: list_to_queue(task_list_in_chunk) for chunk, task_list_in_chunk in
-            task_lists_in_chunks.items()}, {k: len(v) for k, v in task_lists_in_chunks.items()}
+    return task_lists_in_chunks, {k: len(v) for k, v in task_lists_in_chunks.items()}
 
 
 def load_partial_vocabs(path: str) -> List[PartialVocab]:
@@ -367,8 +364,10 @@ def calc_vocab(path: str, file_iterator: Iterator[bytes], output_dir: str):
         task_list = create_partial_vocabs(file_iterator, path_to_dump)
 
     logger.debug(f"Using {n_processes} mergers, number of partial vocabs: {len(task_list)}")
-    tasks_queues, chunk_sizes = mapify_tasks(task_list)
-    chunk_queue, merges_to_be_done = create_chunk_queue(chunk_sizes, n_processes)
+    task_lists, chunk_sizes = mapify_tasks(task_list)
+    tasks_queues = {chunk: Queue() for chunk in task_lists}
+    chunk_list, merges_to_be_done = create_chunk_list(chunk_sizes, n_processes)
+    chunk_queue = Queue()
     logger.debug(f'==================    Starting merging    =================')
     logger.debug(f'Merges need to be done: {merges_to_be_done}')
     process_counter = counter_class(n_processes)
@@ -381,6 +380,12 @@ def calc_vocab(path: str, file_iterator: Iterator[bytes], output_dir: str):
     for merger in mergers:
         merger.start()
 
+    # the queues are filled only after the mergers have been forked: a process forked while threads feeding the queues are
+    # pickling vocabs may inherit locks nobody is going to release
+    for chunk, task_list_in_chunk in task_lists.items():
+        fill_queue(tasks_queues[chunk], task_list_in_chunk)
+    fill_queue(chunk_queue, chunk_list)
+
     for merger in mergers:
         merger.join()
 
-- 
2.43.0


From 30c6615198d9d93e620ea284d2492688450cc13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 21/24] fix: wait longer than 5 seconds for the last
 vocabularies to be merged (preparing a huge one for a queue takes long)

---
 codeprep/pipeline/vocab.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 4e7b4ea..397e2b3 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -36,7 +36,6 @@ VOCABSIZE_FILENAME = 'vocabsize'
 VOCAB_FILENAME = 'vocab'
 
 N_CHUNKS = 20
-BLOCKING_TIMEOUT_SECONDS_SHORT = 5
 BLOCKING_TIMEOUT_SECONDS_LONG = 300
 MAX_INIT_PARTIAL_VOCABS = 256 * 20
 
@@ -164,7 +163,7 @@ class VocabMerger(multiprocessing.Process):
 
     def _finish_merges(self) -> None:
         logger.info("===============     Finishing merges    ===============")
-        list_from_chunks = [queue.get(block=True, timeout=BLOCKING_TIMEOUT_SECONDS_SHORT) for queue in
+        list_from_chunks = [queue.get(block=True, timeout=BLOCKING_TIMEOUT_SECONDS_LONG) for queue in
                             self.tasks.values()]
 
         percents_in_one_chunk = 100 // len(list_from_chunks)
-- 
2.43.0


From 9939ae7e500f2bcb30954713012fde28a1db44da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 22/24] fix: read an id of bpe codes as it was written (a
 carriage return was changed, so that the id was given out twice)

---
 codeprep/pipeline/bperegistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index 2a2df78..5a18a96 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -94,7 +94,7 @@ def get_codes_id_by_bpe_path(dataset_bpe_dir: str) -> Optional[str]:
     if not os.path.exists(file_with_id):
         return None
     else:
-        with open(file_with_id, 'r') as f:
+        with open(file_with_id, 'r', newline='') as f:
             return f.read().strip()
 
 
-- 
2.43.0


From 671fc8b9d2c737c941e78700f44acf40929c4ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 23/24] fix: reject a blank id for bpe codes (the codes could
 not be referred to)

---
 codeprep/pipeline/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index 61ec1f0..6ecbafb 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -250,6 +250,8 @@ class Dataset(object):
 
     def assign_bpe_codes_id(self, bpe_config: BpeConfig, predefined_bpe_codes_id: str) -> None:
         id = create_new_id_from(self.path, bpe_config, predefined_bpe_codes_id)
+        if not id.strip():
+            raise InvalidBpeCodesIdError('Bpe codes id cannot be blank')
         if id.strip() in get_all_bpe_codes_ids():
             raise InvalidBpeCodesIdError(f'Bpe codes id is already in use: {id}')
         write_bpe_codes_id(self.bpe_path, id)
-- 
2.43.0


From eaa46d0a7eb9652f88f3a946ed0a2b391db31510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 24/24] fix: a non-BPE token ending with the escape character
 must not make another word unsplittable

---
 codeprep/pipeline/to_repr.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 0bc0418..6d7c993 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -95,8 +95,6 @@ def init_bpe_data(prep_config: PrepConfig, custom_bpe_config: Optional[CustomBpe
 
         if custom_bpe_config.n_merges:
             logger.info(f'Using first {custom_bpe_config.n_merges} merges.')
-        nonbpe_vocab = vocabloader.nonbpe(custom_bpe_config.merge_list_id)
-        bpe_data.merges_cache.update({s: [s] for s in nonbpe_vocab})
     else:
         bpe_n_merges_dict = {'4': '5k', '5': '1k', '6': '10k', '7': '20k', '8': '0'}
         bpe_n_merges = bpe_n_merges_dict[prep_config.get_param_value(PrepParam.SPLIT)]
-- 
2.43.0

