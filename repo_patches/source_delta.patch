From 65207b01d94ba77a16487d5f5683e02e987e7e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 01/39] fix: replace pickle files atomically

The temporary file was made in the system's temporary directory. If that is
on another file system, shutil.move() copies it over the existing file, so a
crash or a full disk in the middle destroyed the database; and without an
fsync a power failure could leave an empty file in either case. A failed dump
also left its temporary file behind.
---
 sbclassifier/safepickle.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/safepickle.py b/sbclassifier/safepickle.py
index 943bc76..2852839 100644
--- a/sbclassifier/safepickle.py
+++ b/sbclassifier/safepickle.py
@@ -5,8 +5,8 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+import os
 import pickle
-import shutil
 
 from lockfile import FileLock
 from tempfile import NamedTemporaryFile
@@ -29,6 +29,18 @@ def pickle_write(filename, value, protocol=pickle.HIGHEST_PROTOCOL):
     with FileLock(filename, timeout=DEFAULT_TIMEOUT):
         # Be as defensive as possible: dump the pickle data to a temporary file
         # first, then move the data to the requested filename second.
-        with NamedTemporaryFile(delete=False) as fp:
-            pickle.dump(value, fp, protocol)
-        shutil.move(fp.name, filename)
+        #
+        # The temporary file is in the directory of the requested file, so that
+        # moving it is a rename, which replaces the old file in one step; from
+        # another file system it would be copied over the old file instead.
+        directory = os.path.dirname(os.path.abspath(filename))
+        fp = NamedTemporaryFile(dir=directory, delete=False)
+        try:
+            with fp:
+                pickle.dump(value, fp, protocol)
+                fp.flush()
+                os.fsync(fp.fileno())
+            os.replace(fp.name, filename)
+        except BaseException:
+            os.remove(fp.name)
+            raise
-- 
2.43.0


From 669a57aa4c6749540c15988c40ab54c49d173dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 02/39] fix: only a missing pickle is a new database

Any error while reading an existing pickle (an I/O error, a lock timeout, a
damaged file) was taken to mean that there is none, and the next store()
replaced the user's training with an empty classifier.
---
 sbclassifier/classifiers/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 2477e6b..8d2a86a 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -156,7 +156,7 @@ class PickleClassifier(StoredClassifierBase):
 
         try:
             tempbayes = pickle_read(self.filename)
-        except:
+        except FileNotFoundError:
             # new pickle
             logging.debug('%s is a new pickle', self.filename)
             self.wordinfo = {}
-- 
2.43.0


From de3ccdac580cf846d6e52ad08e47a2c3a48714be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 03/39] fix: keep the bigram setting in the state of a
 classifier

A classifier restored from its pickled state had no _use_bigrams attribute and
could neither be trained nor score a message.
---
 sbclassifier/classifiers/basic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 573988b..d6beadf 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -188,12 +188,16 @@ class Classifier:
         self.nham = 0
 
     def __getstate__(self):
-        return (PICKLE_VERSION, self.wordinfo, self.nspam, self.nham)
+        state = (PICKLE_VERSION, self.wordinfo, self.nspam, self.nham)
+        # Only mention bigrams if they are used, so that the state of all other
+        # classifiers remains what it has always been.
+        return state + (True, ) if self._use_bigrams else state
 
     def __setstate__(self, t):
         if t[0] != PICKLE_VERSION:
             raise ValueError("Can't unpickle; version %s unknown".format(t[0]))
-        self.wordinfo, self.nspam, self.nham = t[1:]
+        self.wordinfo, self.nspam, self.nham = t[1:4]
+        self._use_bigrams = len(t) > 4 and t[4]
         self._probcache = {}
 
     # Implementation note: Across vectors of length n, containing random
-- 
2.43.0


From d97e5c484812c2977a18023144eff009f6496cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 04/39] fix: a failing token source must not change the totals

learn() and unlearn() changed the number of trained messages before they
consumed the words, so that an exception from the tokenizer left a message
counted whose words were not.
---
 sbclassifier/classifiers/basic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index d6beadf..114ae66 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -442,13 +442,15 @@ class Classifier:
     # in a msg, but distorting spamprob doesn't appear a correct way to exploit
     # it.
     def _add_msg(self, wordstream, is_spam):
+        # Consume the words first: if that fails, nothing has changed.
+        words = set(wordstream)
         self._probcache = {}    # nuke the prob cache
         if is_spam:
             self.nspam += 1
         else:
             self.nham += 1
 
-        for word in set(wordstream):
+        for word in words:
             record = self._wordinfoget(word)
             if record is None:
                 record = self.WordInfoClass()
@@ -463,6 +465,8 @@ class Classifier:
         self._post_training()
 
     def _remove_msg(self, wordstream, is_spam):
+        # Consume the words first: if that fails, nothing has changed.
+        words = set(wordstream)
         self._probcache = {}    # nuke the prob cache
         if is_spam:
             if self.nspam <= 0:
@@ -473,7 +477,7 @@ class Classifier:
                 raise ValueError("non-spam count would go negative!")
             self.nham -= 1
 
-        for word in set(wordstream):
+        for word in words:
             record = self._wordinfoget(word)
             if record is not None:
                 if is_spam:
-- 
2.43.0


From 960f687ad37d3d1a399e265d5712d547f3534509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 05/39] fix: train every word and every bigram of the stream

The last word of each message was dropped, and if the words came from a
generator (as those of the tokenizer do), zip() and islice() took turns in
consuming it, so that other words were lost and pairs were formed of words
that are not adjacent.
---
 sbclassifier/classifiers/basic.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 114ae66..8bb76ca 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -41,7 +41,6 @@ of scores, and good cutoff values aren't touchy).
 This implementation is due to Tim Peters et alia.
 
 """
-import itertools
 import math
 
 #: The natural logarithm of two; this is used frequently by a function
@@ -343,15 +342,12 @@ class Classifier:
         removed, too.
 
         """
-        # For the sake of brevity, create an alias.
-        chain = itertools.chain.from_iterable
-        # Create an iterable of bigrams from `wordstream`.
-        bigrams = zip(wordstream, itertools.islice(wordstream, 1, None))
-        # This string interpolation must match the one in _getclues().
-        to_string = lambda x, y: BIGRAM_FORMAT.format(x, y)
-        # This interleaves the individual strings from `wordstream` with the
-        # string representation of the bigrams.
-        return chain(zip(wordstream, (to_string(x, y) for x, y in bigrams)))
+        for i, word in enumerate(wordstream):
+            yield word
+            if i:
+                # This string interpolation must match the one in _getclues().
+                yield BIGRAM_FORMAT.format(last_word, word)
+            last_word = word
 
     def probability(self, record):
         """Computes, stores, and returns the probability that a message is spam
-- 
2.43.0


From 17be1868878510e0b3f2c0f321c4095cc5918ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 06/39] fix: untraining that fails must not leave words above
 the totals

---
 sbclassifier/classifiers/basic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 8bb76ca..404188f 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -467,11 +467,9 @@ class Classifier:
         if is_spam:
             if self.nspam <= 0:
                 raise ValueError("spam count would go negative!")
-            self.nspam -= 1
         else:
             if self.nham <= 0:
                 raise ValueError("non-spam count would go negative!")
-            self.nham -= 1
 
         for word in words:
             record = self._wordinfoget(word)
@@ -487,6 +485,13 @@ class Classifier:
                 else:
                     self._wordinfoset(word, record)
 
+        # The totals go down last: if the above fails part-way, no word may
+        # have been seen in more messages than have been trained.
+        if is_spam:
+            self.nspam -= 1
+        else:
+            self.nham -= 1
+
         self._post_training()
 
     def _post_training(self):
-- 
2.43.0


From ad35fde8176441fbf559fca33ad5fb12dc5bf962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 07/39] fix: score messages with both text and byte tokens

---
 sbclassifier/classifiers/basic.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 404188f..aa72333 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -162,6 +162,16 @@ class WordInfo(object):
         self.spamcount, self.hamcount = t
 
 
+def _strength(clue):
+    """Sort key for (distance, prob, word, record) tuples.
+
+    Words may be strings or bytes, which cannot be compared with each other.
+
+    """
+    distance, prob, word, _record = clue
+    return distance, prob, isinstance(word, str), word
+
+
 class Classifier:
     # Defining __slots__ here made Jeremy's life needlessly difficult when
     # trying to hook this all up to ZODB as a persistent object.  There's no
@@ -549,7 +559,7 @@ class Classifier:
                             raw.append((tup, indices))
 
             # Sort raw, strongest to weakest spamprob.
-            raw.sort(reverse=True)
+            raw.sort(key=lambda x: (_strength(x[0]), x[1]), reverse=True)
             # raw.reverse()
             # Fill clues with the strongest non-overlapping clues.
             clues = []
@@ -573,10 +583,11 @@ class Classifier:
             #     if tup[0] >= MINIMUM_PROB_STRENGTH:
             #         clues.append(tup)
             # clues.sort()
-            clues = sorted(tup for tup in
-                           (self._worddistanceget(word)
-                            for word in set(wordstream))
-                           if tup[0] >= MINIMUM_PROB_STRENGTH)
+            clues = sorted((tup for tup in
+                            (self._worddistanceget(word)
+                             for word in set(wordstream))
+                            if tup[0] >= MINIMUM_PROB_STRENGTH),
+                           key=_strength)
 
         # If there are too many clues, remove the first few.
         if len(clues) > MAX_DISCRIMINATORS:
-- 
2.43.0


From d58c68567e6593a3a9ab764063ec80fa290089c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 08/39] fix: totals in a shelf are never below the counts of
 its words

---
 sbclassifier/classifiers/storage.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 8d2a86a..77302f6 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -220,6 +220,7 @@ class ShelveClassifier(StoredClassifierBase):
             logging.debug('%s is a new database', self.filename)
             self.nspam = 0
             self.nham = 0
+        self.saved_totals = self.nspam, self.nham
         self.wordinfo = {}
         self.deleted_words = set()
         self.changed_words = set()
@@ -232,6 +233,10 @@ class ShelveClassifier(StoredClassifierBase):
         # could mess us up a little.  Possibly a little lock while we copy and
         # reset self.changed_words would be appropriate.  For now, just do it
         # the naive way.
+        #
+        # The totals in the database must never be below the count of a word in
+        # the database, not even while this is going on.
+        self._post_training()
         for word in self.changed_words:
             val = self.wordinfo[word]
             self.db[word] = val.__getstate__()
@@ -246,21 +251,29 @@ class ShelveClassifier(StoredClassifierBase):
             except KeyError:
                 pass
 
-        # Reset the changed and deleted word lists.
-        self.deleted_words.clear()
-        self.changed_words.clear()
         # Update the global state, then do the actual save.
-        self._write_state_key()
+        self._write_state_key(self.nspam, self.nham)
         self.db.sync()
+        # Reset the changed and deleted word lists; if any of the above fails,
+        # the next store has to write them all again.
+        self.deleted_words.clear()
+        self.changed_words.clear()
 
-    def _write_state_key(self):
-        self.db[self.statekey] = (PICKLE_VERSION, self.nspam, self.nham)
+    def _write_state_key(self, nspam, nham):
+        self.db[self.statekey] = (PICKLE_VERSION, nspam, nham)
+        self.saved_totals = nspam, nham
 
     def _post_training(self):
         """This is called after training on a wordstream.  We ensure that the
         database is in a consistent state at this point by writing the state
-        key."""
-        self._write_state_key()
+        key.
+
+        After untraining, the database still has the old counts of most words,
+        which are only written in :meth:`store`, so until then the totals in
+        the database do not go down.
+        """
+        nspam, nham = self.saved_totals
+        self._write_state_key(max(self.nspam, nspam), max(self.nham, nham))
 
     def _wordinfoget(self, word):
         # if isinstance(word, unicode):
-- 
2.43.0


From bee2488e5d43e5effed91d4331802f02278f8815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 09/39] fix: a word whose write to the shelf failed is written
 by the next store

---
 sbclassifier/classifiers/storage.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 77302f6..863b6de 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -311,6 +311,11 @@ class ShelveClassifier(StoredClassifierBase):
 
         # if isinstance(word, unicode):
         #     word = word.encode("utf-8")
+        #
+        # If writing to the database fails, it is left to the next store.
+        self.wordinfo[word] = record
+        self.changed_words.add(word)
+        self.deleted_words.discard(word)
         if record.spamcount + record.hamcount <= 1:
             self.db[word] = record.__getstate__()
             for wordset in self.changed_words, self.deleted_words:
@@ -326,14 +331,11 @@ class ShelveClassifier(StoredClassifierBase):
             except KeyError:
                 pass
 
-        else:
-            self.wordinfo[word] = record
-            self.changed_words.add(word)
-
     def _wordinfodel(self, word):
         # if isinstance(word, unicode):
         #     word = word.encode("utf-8")
         del self.wordinfo[word]
+        self.changed_words.discard(word)
         self.deleted_words.add(word)
 
     def _wordinfokeys(self):
-- 
2.43.0


From 2e22bc7496fcd79f29072cb2ffbc818b6af22014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 10/39] fix: store() of a shelf must reach the disk with any
 dbm module

---
 sbclassifier/classifiers/storage.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 863b6de..1c2d1bd 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -192,10 +192,28 @@ class ShelveClassifier(StoredClassifierBase):
         self.statekey = STATE_KEY
         self.flag = flag
         self.filename = filename
+        self._db = None
         self.load()
 
+    @property
+    def db(self):
+        """The shelf, which is opened when it is needed."""
+        if self._db is None:
+            self._db = shelve.open(self.filename, self.flag)
+            if self.flag == 'n':
+                # A new database is only meant for the first time.
+                self.flag = 'c'
+        return self._db
+
+    def _release(self):
+        """Close the shelf; the next use opens it again."""
+        db, self._db = self._db, None
+        if db is not None:
+            db.close()
+
     def close(self):
-        self.db.close()
+        if self._db is not None:
+            self._db.close()
         logging.debug('Closed %s database', self.filename)
 
     def load(self):
@@ -206,7 +224,9 @@ class ShelveClassifier(StoredClassifierBase):
         #     self.db = shelve.Shelf(self.dbm)
         #
         # Does having a shelved DBM afford any benefit over just a shelf?
-        self.db = shelve.open(self.filename, self.flag)
+        #
+        # Two open handles of the same database may spoil each other's work.
+        self._release()
         if self.statekey in self.db:
             t = self.db[self.statekey]
             if t[0] != PICKLE_VERSION:
@@ -254,6 +274,10 @@ class ShelveClassifier(StoredClassifierBase):
         # Update the global state, then do the actual save.
         self._write_state_key(self.nspam, self.nham)
         self.db.sync()
+        if not hasattr(self.db.dict, 'sync'):
+            # Without this method (dbm.ndbm), only closing the database makes
+            # sure that everything is written.
+            self._release()
         # Reset the changed and deleted word lists; if any of the above fails,
         # the next store has to write them all again.
         self.deleted_words.clear()
-- 
2.43.0


From 8373278c23414220029cd90270ec721307b101a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 11/39] fix: keep bytes tokens and words like the state key in
 shelves

---
 sbclassifier/classifiers/storage.py | 40 ++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 1c2d1bd..1822510 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -105,6 +105,33 @@ WORD_CHANGED = "C"
 
 STATE_KEY = 'saved state'
 
+#: The keys of all words that are not themselves used as keys start with one of
+#: these.
+BYTES_PREFIX = '\0b'
+STRING_PREFIX = '\0s'
+
+
+def word_to_key(word):
+    """The key, a string, of `word`, a string or bytes, in a database.
+
+    Different words have different keys, none of which is the state key.
+
+    """
+    if isinstance(word, bytes):
+        return BYTES_PREFIX + word.decode('latin-1')
+    if word == STATE_KEY or word.startswith('\0'):
+        return STRING_PREFIX + word
+    return word
+
+
+def key_to_word(key):
+    """The inverse of :func:`word_to_key`."""
+    if key.startswith(BYTES_PREFIX):
+        return key[len(BYTES_PREFIX):].encode('latin-1')
+    if key.startswith(STRING_PREFIX):
+        return key[len(STRING_PREFIX):]
+    return key
+
 # # Make shelve use binary pickles by default.
 # oldShelvePickler = shelve.Pickler
 
@@ -259,7 +286,7 @@ class ShelveClassifier(StoredClassifierBase):
         self._post_training()
         for word in self.changed_words:
             val = self.wordinfo[word]
-            self.db[word] = val.__getstate__()
+            self.db[word_to_key(word)] = val.__getstate__()
         for word in self.deleted_words:
             if word in self.wordinfo:
                 msg = ('Should not have a wordinfo for "{}", flagged for'
@@ -267,7 +294,7 @@ class ShelveClassifier(StoredClassifierBase):
                 raise Exception(msg)
             # Word may be deleted before it was ever written.
             try:
-                del self.db[word]
+                del self.db[word_to_key(word)]
             except KeyError:
                 pass
 
@@ -310,7 +337,7 @@ class ShelveClassifier(StoredClassifierBase):
         except KeyError:
             ret = None
             if word not in self.deleted_words:
-                r = self.db.get(word)
+                r = self.db.get(word_to_key(word))
                 if r:
                     ret = self.WordInfoClass()
                     ret.__setstate__(r)
@@ -341,7 +368,7 @@ class ShelveClassifier(StoredClassifierBase):
         self.changed_words.add(word)
         self.deleted_words.discard(word)
         if record.spamcount + record.hamcount <= 1:
-            self.db[word] = record.__getstate__()
+            self.db[word_to_key(word)] = record.__getstate__()
             for wordset in self.changed_words, self.deleted_words:
                 try:
                     wordset.remove(word)
@@ -363,9 +390,8 @@ class ShelveClassifier(StoredClassifierBase):
         self.deleted_words.add(word)
 
     def _wordinfokeys(self):
-        wordinfokeys = list(self.db.keys())
-        del wordinfokeys[wordinfokeys.index(self.statekey)]
-        return wordinfokeys
+        return [key_to_word(key) for key in self.db.keys()
+                if key != self.statekey]
 
 
 # TODO this should be replaced with a SQLAlchemy-backed classifier.
-- 
2.43.0


From d98e0ffad98996ef03c3a259f230c3b70cc0d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 12/39] fix: make the CDB classifier work, and replace its file
 atomically

---
 sbclassifier/cdb.py                 | 15 +++++++++---
 sbclassifier/classifiers/storage.py | 36 +++++++++++++++------------
 sbclassifier/safepickle.py          | 38 +++++++++++++++++------------
 3 files changed, 55 insertions(+), 34 deletions(-)

diff --git a/sbclassifier/cdb.py b/sbclassifier/cdb.py
index 0f25cbd..4e85a7b 100644
--- a/sbclassifier/cdb.py
+++ b/sbclassifier/cdb.py
@@ -26,11 +26,15 @@ def uint32_pack(n):
 CDB_HASHSTART = 5381
 
 
+def to_bytes(s):
+    return s.encode('utf-8') if isinstance(s, str) else s
+
+
 def cdb_hash(buf):
     h = CDB_HASHSTART
-    for c in buf:
+    for c in to_bytes(buf):
         h = (h + (h << 5)) & 0xffffffff
-        h ^= ord(c)
+        h ^= c
     return h
 
 
@@ -110,6 +114,7 @@ class Cdb(object):
             return 0
 
     def findnext(self, key):
+        key = to_bytes(key)
         if not self.loop:
             u = cdb_hash(key)
             buf = self.read(8, u << 3 & 2047)
@@ -170,10 +175,12 @@ def cdb_make(outfile, items):
     # write keys and data
     outfile.seek(pos)
     for key, value in items:
+        key = to_bytes(key)
+        value = to_bytes(value)
         outfile.write(uint32_pack(len(key)) + uint32_pack(len(value)))
         h = cdb_hash(key)
-        outfile.write(bytes(key, 'utf-8'))
-        outfile.write(bytes(value, 'utf-8'))
+        outfile.write(key)
+        outfile.write(value)
         tables.setdefault(h & 255, []).append((h, pos))
         pos += 8 + len(key) + len(value)
 
diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 1822510..0753da9 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -50,20 +50,16 @@ import os
 # import time
 # import tempfile
 # import errno
+from contextlib import closing
 import shelve
 from sbclassifier.classifiers.basic import Classifier
 from sbclassifier.classifiers.basic import PICKLE_VERSION
 from sbclassifier.classifiers.basic import WordInfo
-# from sbclassifier import cdb
+from sbclassifier.cdb import Cdb
+from sbclassifier.cdb import cdb_make
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
-
-try:
-    from cdb import cdb_read
-    from cdb import cdb_write
-    cdb_is_available = True
-except ImportError:
-    cdb_is_available = False
+from sbclassifier.safepickle import replace_file
 
 
 # A little magic.  We'd like to use ZODB as the default storage,
@@ -686,16 +682,24 @@ class CDBClassifier(StoredClassifierBase):
     #     return s
 
     def load(self):
-        if os.path.exists(self.filename):
-            data = cdb.read(self.filename)
+        try:
+            with open(self.filename, 'rb') as fp, closing(Cdb(fp)) as db:
+                data = {key.decode('utf-8'): value.decode('utf-8')
+                        for key, value in db.items()}
+        except FileNotFoundError:
+            data = None
+        if data is not None:
             self.nham, self.nspam = [int(i) for i in
                                      data[self.statekey].split(',')]
             # self.wordinfo = {self.uunquote(k): self._WordInfoFactory(v)
             #                  for k, v in data.items()
             #                  if k != self.statekey}
-            from_string = lambda s: WordInfo(*(int(n) for n in s.split(',')))
-            self.wordinfo = {k: from_string(v) for k, v in data.items()
-                             if k != self.statekey}
+            #
+            # The ham count comes first here, but second in a WordInfo.
+            from_string = lambda s: WordInfo(*(int(n) for n in
+                                               reversed(s.split(','))))
+            self.wordinfo = {key_to_word(k): from_string(v)
+                             for k, v in data.items() if k != self.statekey}
             logging.debug('%s is an existing CDB, with %d ham and %d spam',
                           self.filename, self.nham, self.nspam)
         else:
@@ -706,9 +710,11 @@ class CDBClassifier(StoredClassifierBase):
 
     def store(self):
         items = [(self.statekey, "{:d},{:d}".format(self.nham, self.nspam))]
-        items.extend((word, '{:d},{:d}'.format(info.hamcount, info.spamcount))
+        items.extend((word_to_key(word),
+                      '{:d},{:d}'.format(info.hamcount, info.spamcount))
                      for word, info in self.wordinfo.items())
-        cdb.write(self.filename, items)
+        with replace_file(self.filename) as fp:
+            cdb_make(fp, items)
 
 
 # # If ZODB isn't available, then this class won't be useable, but we
diff --git a/sbclassifier/safepickle.py b/sbclassifier/safepickle.py
index 2852839..d4ca344 100644
--- a/sbclassifier/safepickle.py
+++ b/sbclassifier/safepickle.py
@@ -7,6 +7,7 @@
 # Software Foundation License; for more information, see LICENSE.txt.
 import os
 import pickle
+from contextlib import contextmanager
 
 from lockfile import FileLock
 from tempfile import NamedTemporaryFile
@@ -24,23 +25,30 @@ def pickle_read(filename):
             return pickle.load(f)
 
 
+@contextmanager
+def replace_file(filename):
+    """A new binary file, which replaces `filename` as soon as all has been
+    written to it, or vanishes if that fails."""
+    # The temporary file is in the directory of the requested file, so that
+    # moving it is a rename, which replaces the old file in one step; from
+    # another file system it would be copied over the old file instead.
+    directory = os.path.dirname(os.path.abspath(filename))
+    fp = NamedTemporaryFile(dir=directory, delete=False)
+    try:
+        with fp:
+            yield fp
+            fp.flush()
+            os.fsync(fp.fileno())
+        os.replace(fp.name, filename)
+    except BaseException:
+        os.remove(fp.name)
+        raise
+
+
 def pickle_write(filename, value, protocol=pickle.HIGHEST_PROTOCOL):
     """Store value as a pickle without creating corruption."""
     with FileLock(filename, timeout=DEFAULT_TIMEOUT):
         # Be as defensive as possible: dump the pickle data to a temporary file
         # first, then move the data to the requested filename second.
-        #
-        # The temporary file is in the directory of the requested file, so that
-        # moving it is a rename, which replaces the old file in one step; from
-        # another file system it would be copied over the old file instead.
-        directory = os.path.dirname(os.path.abspath(filename))
-        fp = NamedTemporaryFile(dir=directory, delete=False)
-        try:
-            with fp:
-                pickle.dump(value, fp, protocol)
-                fp.flush()
-                os.fsync(fp.fileno())
-            os.replace(fp.name, filename)
-        except BaseException:
-            os.remove(fp.name)
-            raise
+        with replace_file(filename) as fp:
+            pickle.dump(value, fp, protocol)
-- 
2.43.0


From 932c5276402234b6677eb1d435255e62f3012419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 13/39] fix: totals in a shelf go up before the counts of its
 words

---
 sbclassifier/classifiers/storage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 0753da9..078835e 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -320,7 +320,9 @@ class ShelveClassifier(StoredClassifierBase):
         the database do not go down.
         """
         nspam, nham = self.saved_totals
-        self._write_state_key(max(self.nspam, nspam), max(self.nham, nham))
+        if self.nspam > nspam or self.nham > nham:
+            self._write_state_key(max(self.nspam, nspam),
+                                  max(self.nham, nham))
 
     def _wordinfoget(self, word):
         # if isinstance(word, unicode):
@@ -364,6 +366,7 @@ class ShelveClassifier(StoredClassifierBase):
         self.changed_words.add(word)
         self.deleted_words.discard(word)
         if record.spamcount + record.hamcount <= 1:
+            self._post_training()
             self.db[word_to_key(word)] = record.__getstate__()
             for wordset in self.changed_words, self.deleted_words:
                 try:
-- 
2.43.0


From c0769aebc8014df733fae673653890d0aa6d96a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 14/39] fix: limit the messages in memory without deleting
 their files

Flushing a message from the memory of a FileCache removed its file from the
directory as well, and adding a message again made the cache count it twice.
---
 sbclassifier/corpora/caches.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 7cf8953..31c7e3a 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -40,6 +40,9 @@ class Cache:
     def values(self):
         raise NotImplemented
 
+    def items(self):
+        raise NotImplemented
+
     def put(self, key, value):
         raise NotImplemented
 
@@ -85,21 +88,25 @@ class NaiveCache(Cache):
     def values(self):
         return self.data.values()
 
+    def items(self):
+        return self.data.items()
+
     def put(self, key, value):
         logging.debug('Caching %s', key)
         self.data[key] = value
         # Here is where we manage the in-memory cache size...
-        self._keys.append(key)
+        if key not in self._keys:
+            self._keys.append(key)
         # Optimization: only keep the `self.max_size` entries put into the
         # cache most recently.
         if len(self._keys) > self.max_size:
             key_to_flush = self._keys[0]
-            self.pop(key_to_flush)
+            self.flush(key_to_flush)
 
     def get(self, key, default=None):
         return self.data.get(key, default)
 
-    def pop(self, key):
+    def flush(self, key):
         logging.debug('Flushing %s from cache', key)
         try:
             ki = self._keys.index(key)
@@ -110,6 +117,9 @@ class NaiveCache(Cache):
         # TODO should this set the key to None, or remove it entirely?
         return self.data.pop(key, None)
 
+    def pop(self, key):
+        return self.flush(key)
+
 
 class FileCache(NaiveCache):
     # This is essentially a two-level cache: one level is the dictionary in
-- 
2.43.0


From d3e09f5c662ff955b2e684f3b9c5a0db1bb45dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 15/39] fix: a corpus of an empty directory keeps its file
 cache

A cache without messages is false, so that Corpus replaced it by one in
memory, and nothing was ever written to the directory.
---
 sbclassifier/corpora/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/base.py b/sbclassifier/corpora/base.py
index 1b9c2ab..0959cc5 100644
--- a/sbclassifier/corpora/base.py
+++ b/sbclassifier/corpora/base.py
@@ -137,7 +137,10 @@ class Corpus:
     """
 
     def __init__(self, cache=None):
-        self.message_cache = cache or NaiveCache(max_size=INFINITY)
+        # An empty cache is false.
+        if cache is None:
+            cache = NaiveCache(max_size=INFINITY)
+        self.message_cache = cache
         # dict of all messages in corpus; value is None if msg not currently
         # loaded
         #self.msgs = {}
-- 
2.43.0


From 8c68aa461f8f1effb8adda3821458349801388c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 16/39] fix: a file corpus shows what is in its directory

The length and the messages in memory were those of the last time the corpus
itself had changed something, messages read from files had no id, names with a
slash reached files outside the directory, removing a message which the filter
excludes removed its file, and there was no items().
---
 sbclassifier/corpora/caches.py | 59 +++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 31c7e3a..4e7df21 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -130,46 +130,79 @@ class FileCache(NaiveCache):
         self.directory = directory
         # Only allow messages whose IDs match the specified filter.
         self.namefilter = namefilter
-        # Maintain a counter of the number of messages currently stored in the
-        # directory. Scan the directory for existing message files.
-        self.num_files = len(list(iter(self)))
+        # What the file of each message in memory was when the message was put
+        # there. The message must be read again if another one has replaced it.
+        self._stamps = {}
+
+    def _matches(self, key):
+        # Only names of files in the directory itself match.
+        return (os.path.basename(key) == key
+                and fnmatch.fnmatch(key, self.namefilter))
 
     def _is_message(self, filename):
         return (os.path.isfile(os.path.join(self.directory, filename))
-                and fnmatch.fnmatch(filename, self.namefilter))
+                and self._matches(filename))
+
+    @staticmethod
+    def _stamp(status):
+        return status.st_ino, status.st_mtime_ns, status.st_size
 
     def _message_from_path(self, filename, *args, **kw):
         return from_path(os.path.join(self.directory, filename), *args, **kw)
 
     def __len__(self):
-        return self.num_files
+        return len(list(self.keys()))
 
     def __iter__(self):
         return self.keys()
 
     def __getitem__(self, key):
-        if key in self.data:
-            return self.data[key]
         if key in os.listdir(self.directory) and self._is_message(key):
-            return self._message_from_path(key)
+            return self._load(key)
         raise KeyError('{} not in cache or directory'.format(key))
 
+    def _load(self, key):
+        # The directory is right: other programs may have removed or replaced
+        # the file of a message in memory.
+        try:
+            stamp = self._stamp(os.stat(os.path.join(self.directory, key)))
+            if self._stamps.get(key) == stamp:
+                return self.data[key]
+            return self._message_from_path(key, message_id=key)
+        except FileNotFoundError:
+            raise KeyError('{} not in directory'.format(key))
+
     def keys(self):
         return (f for f in os.listdir(self.directory) if self._is_message(f))
 
     def values(self):
-        # Need to recreate each message object from the files.
-        return (self._message_from_path(f, message_id=f) for f in self.keys())
+        return (message for key, message in self.items())
+
+    def items(self):
+        for key in self.keys():
+            try:
+                message = self._load(key)
+            except KeyError:
+                # The file has just been removed.
+                continue
+            yield key, message
 
     def put(self, key, value):
-        if not fnmatch.fnmatch(key, self.namefilter):
+        if not self._matches(key):
             msg = 'Message {} does not match filter {}'.format(key,
                                                                self.namefilter)
             raise ValueError(msg)
-        super().put(key, value)
         logging.debug('Storing %s to file', key)
         with open(os.path.join(self.directory, key), 'wb') as f:
             f.write(value.as_bytes())
+            f.flush()
+            stamp = self._stamp(os.fstat(f.fileno()))
+        self._stamps[key] = stamp
+        super().put(key, value)
+
+    def flush(self, key):
+        self._stamps.pop(key, None)
+        return super().flush(key)
 
     def get(self, key, default=None):
         try:
@@ -179,6 +212,8 @@ class FileCache(NaiveCache):
 
     def pop(self, key):
         result = super().pop(key)
+        if not self._matches(key):
+            return result
         logging.debug('Removing file %s', key)
         path = os.path.join(self.directory, key)
         try:
-- 
2.43.0


From 4a80adf7e3d881f9ae6c674506f8a235b9383593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 17/39] fix: a message added under an explicit id knows that id

Otherwise remove_message() could not find it again. Also let the repr of a
FileCorpus work.
---
 sbclassifier/corpora/base.py       | 2 ++
 sbclassifier/corpora/filesystem.py | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/base.py b/sbclassifier/corpora/base.py
index 0959cc5..ddf4ead 100644
--- a/sbclassifier/corpora/base.py
+++ b/sbclassifier/corpora/base.py
@@ -160,6 +160,8 @@ class Corpus:
         key = message.id() if message_id is None else message_id
         logging.debug('adding message %s to corpus', key)
         self.message_cache.put(key, message)
+        if message_id is not None and message.id() is None:
+            message.set_id(message_id)
         if emit_signal:
             message_added.send(self, message=message)
 
diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 06104a3..1df901c 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -67,10 +67,11 @@ class FileCorpus(Corpus):
     def __repr__(self):
         nummsgs = len(self)
         s = 's' if nummsgs != 1 else ''
-        lst = ', {}'.format(self.keys()) if VERBOSE and nummsgs > 0 else ''
+        lst = ', {}'.format(list(self.keys())) if VERBOSE and nummsgs > 0 else ''
         return ('<{} object at {:8.8x}, directory: {},'
                 ' {} message{}{}>').format(self.__class__.__name__, id(self),
-                                           self.directory, nummsgs, s, lst)
+                                           self.message_cache.directory,
+                                           nummsgs, s, lst)
 
 
 class ExpiryFileCorpus(FileCorpus):
-- 
2.43.0


From a3afe6e9ad008d3cebb834c4ef672fc78ec296e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 18/39] fix: messages in a directory are complete or not there

A message was written over its own file, and was in memory even if that
failed.
---
 sbclassifier/corpora/caches.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 4e7df21..92fd6b3 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -9,12 +9,17 @@ import fnmatch
 import logging
 import os
 import os.path
+import uuid
 
 from sbclassifier.message import from_path
 
 #: Infinity; used to indicate no upper bound on the size of a cache.
 INFINITY = float('inf')
 
+#: The names of files which are not yet messages, because they are still being
+#: written, start with this prefix.
+TEMPORARY_PREFIX = '.sbclassifier-tmp-'
+
 
 class Cache:
     """Interface definition for a cache.
@@ -137,6 +142,7 @@ class FileCache(NaiveCache):
     def _matches(self, key):
         # Only names of files in the directory itself match.
         return (os.path.basename(key) == key
+                and not key.startswith(TEMPORARY_PREFIX)
                 and fnmatch.fnmatch(key, self.namefilter))
 
     def _is_message(self, filename):
@@ -193,10 +199,24 @@ class FileCache(NaiveCache):
                                                                self.namefilter)
             raise ValueError(msg)
         logging.debug('Storing %s to file', key)
-        with open(os.path.join(self.directory, key), 'wb') as f:
-            f.write(value.as_bytes())
-            f.flush()
-            stamp = self._stamp(os.fstat(f.fileno()))
+        content = value.as_bytes()
+        # Write a temporary file first, so that the message is never there in
+        # part only.
+        temporary = os.path.join(self.directory,
+                                 TEMPORARY_PREFIX + uuid.uuid4().hex)
+        try:
+            with open(temporary, 'wb') as f:
+                f.write(content)
+                f.flush()
+                os.fsync(f.fileno())
+                stamp = self._stamp(os.fstat(f.fileno()))
+            os.replace(temporary, os.path.join(self.directory, key))
+        except BaseException:
+            try:
+                os.remove(temporary)
+            except FileNotFoundError:
+                pass
+            raise
         self._stamps[key] = stamp
         super().put(key, value)
 
-- 
2.43.0


From 35e9712d0e2c02271cc180ac61c7c9342d2ae839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 19/39] fix: a message whose file cannot be removed is still
 there

remove_message() returned, and its observers untrained the message, although
it stayed in the directory.
---
 sbclassifier/corpora/caches.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 92fd6b3..9f8fffe 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -231,13 +231,12 @@ class FileCache(NaiveCache):
             return default
 
     def pop(self, key):
-        result = super().pop(key)
         if not self._matches(key):
-            return result
+            return None
         logging.debug('Removing file %s', key)
         path = os.path.join(self.directory, key)
         try:
             os.remove(path)
-        except OSError:
+        except FileNotFoundError:
             logging.error('file %s cannot be deleted', path)
-        return result
+        return super().pop(key)
-- 
2.43.0


From e7a0c8588ee07d31aff387f2705a49962aea789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 20/39] fix: writing a message does not fold its headers again

---
 sbclassifier/message.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 3e3c9d4..6e6ff49 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -283,6 +283,14 @@ class Message(_Message):
                 parts.append(part.as_string(unixfrom))
             return force_crlf("\n".join(parts))
 
+    def as_bytes(self, unixfrom=False, policy=None):
+        # Leave the lines of the headers as they are: folding them again
+        # changes their values, so that a message read from the bytes would
+        # have other tokens than this one.
+        if policy is None:
+            policy = self.policy.clone(max_line_length=None)
+        return super().as_bytes(unixfrom, policy)
+
     # def modified(self):
     #     if self.messageid:    # only persist if key is present
     #         self.message_info_db.store_msg(self)
-- 
2.43.0


From 0bb4bccd7602de688410fd3807b645581039cb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 21/39] fix: expire messages by the time of their files

Messages have no createTimestamp(), and remove_message() has no do_training.
---
 sbclassifier/corpora/caches.py     |  7 +++++++
 sbclassifier/corpora/filesystem.py | 18 ++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 9f8fffe..7d3659a 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -193,6 +193,13 @@ class FileCache(NaiveCache):
                 continue
             yield key, message
 
+    def timestamp(self, key):
+        """The time at which the file of the message was created."""
+        try:
+            return os.stat(os.path.join(self.directory, key)).st_ctime
+        except FileNotFoundError:
+            raise KeyError('{} not in directory'.format(key))
+
     def put(self, key, value):
         if not self._matches(key):
             msg = 'Message {} does not match filter {}'.format(key,
diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 1df901c..75b48f1 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -91,18 +91,24 @@ class ExpiryFileCorpus(FileCorpus):
         if time.time() < self.expiry_due:
             return
 
-        self.expiry_due = time.time() + self.expireBefore
+        expiry_due = time.time() + self.expireBefore
         # Iterate over a copy of the list because the keys will be modified
         # during the loop.
         for key in list(self.keys()):
-            msg = self[key]
-            timestamp = msg.createTimestamp()
+            try:
+                msg = self[key]
+                timestamp = self.message_cache.timestamp(key)
+            except KeyError:
+                # Another program has removed the file.
+                continue
             end_time = timestamp + self.expireBefore
             if end_time < time.time():
                 logging.debug('message %s has expired', msg.id())
-                self.remove_message(msg, do_training=False)
-            elif end_time < self.expiry_due:
-                self.expiry_due = end_time
+                self.remove_message(msg, emit_signal=False)
+            elif end_time < expiry_due:
+                expiry_due = end_time
+        # If anything above has failed, try again at the next call.
+        self.expiry_due = expiry_due
 
 
 # class FileMessage(object):
-- 
2.43.0


From 2d6a21e380be878f22403c34040d3b706536afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 22/39] fix: trainers train added and untrain removed messages

Messages have no key(), and removing a message trained it again.
---
 sbclassifier/trainers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/trainers.py b/sbclassifier/trainers.py
index 80c3871..26ce860 100644
--- a/sbclassifier/trainers.py
+++ b/sbclassifier/trainers.py
@@ -48,7 +48,7 @@ class Trainer(object):
         self.is_spam = is_spam
         for corpus in corpora:
             message_added.connect(self.train, sender=corpus)
-            message_removed.connect(self.train, sender=corpus)
+            message_removed.connect(self.untrain, sender=corpus)
 
     def train(self, sender, message):
         """Train the database with the specified message.
@@ -58,7 +58,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('training with %s', message.key())
+        logging.debug('training with %s', message.id())
         self.classifier.learn(tokenize(message), self.is_spam)
         message.remember_trained(self.is_spam)
 
@@ -71,7 +71,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('untraining with %s', message.key())
+        logging.debug('untraining with %s', message.id())
         self.classifier.unlearn(tokenize(message), self.is_spam)
         # can raise ValueError if database is fouled.  If this is the case,
         # then retraining is the only recovery option.
-- 
2.43.0


From 7ad35043c3548cbac97d05ae7ac5bc359cdaa6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 23/39] fix: lookups return nothing if there is no answer

They raised the errors of the resolver, and lookups in several threads left the
default time-out of all sockets changed.
---
 sbclassifier/dnsutils.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/sbclassifier/dnsutils.py b/sbclassifier/dnsutils.py
index 38b050e..eecf8b4 100644
--- a/sbclassifier/dnsutils.py
+++ b/sbclassifier/dnsutils.py
@@ -1,5 +1,6 @@
 import functools
 import socket
+import threading
 
 
 #: The maximum number of seconds to wait when making a forward or reverse DNS
@@ -7,17 +8,33 @@ import socket
 DEFAULT_TIMEOUT = 10
 
 
+# The default time-out belongs to the whole process, so that the first of
+# several lookups at the same time sets it, and the last one sets it back.
+_lock = threading.Lock()
+_lookups = 0
+_old_timeout = None
+
+
 def timed(f):
     @functools.wraps(f)
     def timed_f(*args, **kw):
+        global _lookups, _old_timeout
+        with _lock:
+            if _lookups == 0:
+                _old_timeout = socket.getdefaulttimeout()
+                socket.setdefaulttimeout(DEFAULT_TIMEOUT)
+            _lookups += 1
         try:
-            old_timeout = socket.getdefaulttimeout()
-            socket.setdefaulttimeout(DEFAULT_TIMEOUT)
             return f(*args, **kw)
-        except socket.timeout:
+        except (OSError, ValueError):
+            # There is no answer (or no answer in time), or the name or address
+            # is not a valid one.
             return ()
         finally:
-            socket.setdefaulttimeout(old_timeout)
+            with _lock:
+                _lookups -= 1
+                if _lookups == 0:
+                    socket.setdefaulttimeout(_old_timeout)
     return timed_f
 
 
@@ -40,10 +57,7 @@ class memoize(dict):
 #@memoize
 @timed
 def reverse_dns_lookup(address):
-    try:
-        return (socket.gethostbyaddr(address)[0], )
-    except socket.herror:
-        return ()
+    return (socket.gethostbyaddr(address)[0], )
 
 
 #@memoize
-- 
2.43.0


From f01fa8449136fffe2c6ee8f4dd9ec8c6fd063e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 24/39] fix: mining the posting hosts works

It failed for messages without such a header, for addresses, and for names with
an address.
---
 sbclassifier/tokenizer.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 3260f78..40dc1ee 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1573,14 +1573,16 @@ class Tokenizer:
 def mine_nntp(msg):
     nntp_headers = msg.get_all("nntp-posting-host", ())
     for address in nntp_headers:
+        address = str(address).strip()
         # Determine if the address is an IP address or a host name.
         try:
-            address = ipaddress.ip_address(address)
-            # If we have reached this point, then we have an IP address.
-            return clues_from_ipaddress(address)
+            ipaddress.ip_address(address)
         except ValueError:
             # If we have reached this point, then we have a domain name.
-            return clues_from_domainname(address)
+            yield from clues_from_domainname(address)
+        else:
+            # If we have reached this point, then we have an IP address.
+            yield from clues_from_ipaddress(address)
 
 
 def top_two(name):
@@ -1609,15 +1611,12 @@ def clues_from_ipaddress(address):
 def clues_from_domainname(name):
     host_clues = ['nntp-host-name:{}'.format(name),
                   'nntp-host-domain:{}'.format(top_two(name))]
-    addresses = dns_lookup(name)
+    addresses = sorted(dns_lookup(name))
     ip_clues = []
-    if addresses:
-        # For the sake of brevity, rename this function.
-        chain = itertools.chain.from_iterable
-        ip_clues = chain(gen_dotted_quad_clues('nntp-host-ip', address)
-                         for address in addresses)
-        if reverse_dns_lookup(addresses[0], qType='PTR') == name:
-            ip_clues.append('nntp-host-ip:has-reverse')
+    for address in addresses:
+        ip_clues.extend(gen_dotted_quad_clues('nntp-host-ip', address))
+    if any(name in reverse_dns_lookup(address) for address in addresses):
+        ip_clues.append('nntp-host-ip:has-reverse')
     return itertools.chain(host_clues, ip_clues)
 
 
-- 
2.43.0


From 4ec6a76e00b88b7662fe08cf6a06fd62d714d258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 25/39] fix: tokenize messages with long words, HTML, and 8-bit
 or encoded headers

Text and bytes were mixed, so that tokenizing most real messages failed. Also let
the options handed to the tokenizer have an effect.
---
 sbclassifier/strippers.py | 17 +++++++----
 sbclassifier/tokenizer.py | 59 ++++++++++++++++++++++++---------------
 2 files changed, 49 insertions(+), 27 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index c746c89..348867b 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -5,6 +5,7 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+import email.utils
 import math
 import re
 import urllib
@@ -51,7 +52,9 @@ html_style_start_re = re.compile(rb"""
 
 urlsep_re = re.compile(rb"[;?:@&=+,$.]")
 
-fname_sep_re = re.compile(rb'[/\\:]')
+fname_sep_re = re.compile(r'[/\\:]')
+
+fname_piece_sep_re = re.compile(r"[;?:@&=+,$.]")
 
 url_fancy_re = re.compile(rb"""
     \b                      # the preceeding character must not be alphanumeric
@@ -95,13 +98,16 @@ def log2(n, log=math.log, c=math.log(2)):
 
 
 def crack_filename(fname):
+    # The names in a body are bytes, those in a header are strings.
+    if isinstance(fname, bytes):
+        fname = str(fname, 'latin-1')
     yield "fname:" + fname
     components = fname_sep_re.split(fname)
     morethan1 = len(components) > 1
     for component in components:
         if morethan1:
             yield "fname comp:" + component
-        pieces = urlsep_re.split(component)
+        pieces = fname_piece_sep_re.split(component)
         if len(pieces) > 1:
             for piece in pieces:
                 yield "fname piece:" + piece
@@ -112,7 +118,8 @@ def crack_content_xyz(msg):
 
     x = msg.get_param('type')
     if x is not None:
-        yield 'content-type/type:' + x.lower()
+        yield ('content-type/type:' +
+               email.utils.collapse_rfc2231_value(x).lower())
 
     try:
         for x in msg.get_charsets(None):
@@ -126,7 +133,7 @@ def crack_content_xyz(msg):
 
     x = msg.get('content-disposition')
     if x is not None:
-        yield 'content-disposition:' + x.lower()
+        yield 'content-disposition:' + str(x).lower()
 
     try:
         fname = msg.get_filename()
@@ -215,7 +222,7 @@ class UUencodeStripper(Stripper):
 
     def tokenize(self, m):
         mode, fname = m.groups()
-        return (['uuencode mode:%s' % mode] +
+        return ([b'uuencode mode:' + mode] +
                 ['uuencode:%s' % x for x in crack_filename(fname)])
 
 
diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 40dc1ee..8cb8cfc 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -780,7 +780,8 @@ def convert_to_bytes(f):
     """
     def converted_f(*args, **kw):
         for x in f(*args, **kw):
-            yield x if isinstance(x, bytes) else bytes(x, 'utf-8')
+            yield x if isinstance(x, bytes) else bytes(x, 'utf-8',
+                                                       'surrogatepass')
     return converted_f
 
 
@@ -808,8 +809,6 @@ def imageparts(msg):
     return [part for part in msg.walk()
             if part.get_content_type().startswith('image/')]
 
-has_highbit_char = re.compile(rb"[\x80-\xff]").search
-
 # Cheap-ass gimmick to probabilistically find HTML/XML tags.
 # Note that <style and HTML comments are handled by crack_html_style()
 # and crack_html_comment() instead -- they can be very long, and long
@@ -872,10 +871,17 @@ def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
         # Don't want to skip embedded email addresses.
         # An earlier scheme also split up the y in x@y on '.'.  Not splitting
         # improved the f-n rate; the f-p rate didn't care either way.
-        if n < 40 and b'.' in word and word.count('@') == 1:
-            p1, p2 = word.split('@')
-            yield 'email name:' + p1
-            yield 'email addr:' + p2
+        # The words of a body are bytes, those of a header are strings.
+        if isinstance(word, bytes):
+            dot, at, name, addr = b'.', b'@', b'email name:', b'email addr:'
+            codes = word
+        else:
+            dot, at, name, addr = '.', '@', 'email name:', 'email addr:'
+            codes = [ord(c) for c in word]
+        if n < 40 and dot in word and word.count(at) == 1:
+            p1, p2 = word.split(at)
+            yield name + p1
+            yield addr + p2
 
         else:
             # There's value in generating a token indicating roughly how
@@ -885,9 +891,9 @@ def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
             # XXX this info has greater benefit.
             if GENERATE_LONG_SKIPS:
                 yield "skip:%c %d" % (word[0], n // 10 * 10)
-            if has_highbit_char(word):
+            if max(codes) >= 128:
                 hicount = 0
-                for i in map(ord, word):
+                for i in codes:
                     if i >= 128:
                         hicount += 1
                 yield "8bit%%:%d" % round(hicount * 100.0 / len(word))
@@ -989,7 +995,7 @@ for ch in ' \t\r\n':
     non_ascii_translate_tab[ord(ch)] = ch
 del i, ch
 
-non_ascii_translate_tab = ''.join(non_ascii_translate_tab)
+non_ascii_translate_tab = bytes(''.join(non_ascii_translate_tab), 'ascii')
 
 # The base64 decoder is actually very forgiving, but flubs one case:
 # if no padding is required (no trailing '='), it continues to read
@@ -1027,7 +1033,7 @@ def try_to_repair_damaged_base64(text):
     if i:
         base64 = text[:i]
         try:
-            base64text = binascii.a2b_base64(base64)
+            base64text = str(binascii.a2b_base64(base64), 'latin-1')
         except:
             # There's no point in tokenizing raw base64 gibberish.
             pass
@@ -1092,9 +1098,9 @@ numeric_entity_re = re.compile(rb'&#(\d+);')
 
 def numeric_entity_replacer(m):
     try:
-        return chr(int(m.group(1)))
+        return bytes(chr(int(m.group(1))), 'utf-8')
     except:
-        return '?'
+        return b'?'
 
 
 breaking_entity_re = re.compile(rb"""
@@ -1129,8 +1135,9 @@ class Tokenizer:
                  basic_header_tokenize_only=BASIC_HEADER_TOKENIZE_ONLY):
         if isinstance(message, str):
             message = email.message_from_string(message)
-        return itertools.chain(self.tokenize_headers(message),
-                               self.tokenize_body(message))
+        headers = self.tokenize_headers(message, basic_header_tokenize,
+                                        basic_header_tokenize_only)
+        return itertools.chain(headers, self.tokenize_body(message))
 
     def tokenize_headers(self, msg,
                          basic_header_tokenize=BASIC_HEADER_TOKENIZE,
@@ -1172,7 +1179,7 @@ class Tokenizer:
                         break   # do nothing -- we're supposed to skip this
                 else:
                     # Never found a match -- don't skip this.
-                    for w in subject_word_re.findall(v):
+                    for w in subject_word_re.findall(str(v)):
                         for t in tokenize_word(w):
                             yield "%s:%s" % (k, t)
             if basic_header_tokenize_only:
@@ -1227,6 +1234,13 @@ class Tokenizer:
         for x, subjcharset in subjcharsetlist:
             if subjcharset is not None:
                 yield 'subjectcharset:' + subjcharset
+            if isinstance(x, bytes):
+                try:
+                    x = str(x, subjcharset or 'ascii', 'replace')
+                except LookupError:
+                    # There is no such charset.
+                    x = str(x, 'latin-1')
+            x = str(x)
             # this is a workaround for a bug in the csv module in Python
             # <= 2.3.4 and 2.4.0 (fixed in 2.5)
             x = x.replace('\r', ' ')
@@ -1348,7 +1362,7 @@ class Tokenizer:
         for field in ('to', 'cc'):
             count = 0
             for addrs in msg.get_all(field, []):
-                count += len(addrs.split(','))
+                count += len(str(addrs).split(','))
             if count > 0:
                 yield '%s:2**%d' % (field, round(log2(count)))
 
@@ -1358,7 +1372,7 @@ class Tokenizer:
         #            rate isn't affected.
         for field in ('x-mailer',):
             prefix = field + ':'
-            x = msg.get(field, 'none').lower()
+            x = str(msg.get(field, 'none')).lower()
             yield prefix + ' '.join(x.split())
 
         # Received:
@@ -1368,7 +1382,7 @@ class Tokenizer:
                 # everything here should be case insensitive and not be
                 # split across continuation lines, so normalize whitespace
                 # and letter case just once per header
-                header = ' '.join(header.split()).lower()
+                header = ' '.join(str(header).split()).lower()
 
                 for clue in received_complaints_re.findall(header):
                     yield 'received:' + clue
@@ -1389,7 +1403,7 @@ class Tokenizer:
 
         # Message-Id:  This seems to be a small win and should not
         # adversely affect a mixed source corpus so it's always enabled.
-        msgid = msg.get("message-id", "")
+        msgid = str(msg.get("message-id", ""))
         m = message_id_re.match(msgid)
         if m:
             # looks okay, return the hostname
@@ -1513,6 +1527,7 @@ class Tokenizer:
                 text = part.get_payload(decode=False)
                 if text is not None:
                     text = try_to_repair_damaged_base64(text)
+                    text = bytes(text, 'utf-8', 'surrogatepass')
 
             if text is None:
                 yield 'control: payload is None'
@@ -1545,7 +1560,7 @@ class Tokenizer:
 
             # Remove HTML/XML tags.  Also &nbsp;.  <br> and <p> tags should
             # create a space too.
-            text = breaking_entity_re.sub(' ', text)
+            text = breaking_entity_re.sub(b' ', text)
             # It's important to eliminate HTML tags rather than, e.g.,
             # replace them with a blank (as this code used to do), else
             # simple tricks like
@@ -1553,7 +1568,7 @@ class Tokenizer:
             # can be used to disguise words.  <br> and <p> were special-
             # cased just above (because browsers break text on those,
             # they can't be used to hide words effectively).
-            text = html_re.sub('', text)
+            text = html_re.sub(b'', text)
 
             for t in self.tokenize_text(text):
                 yield t
-- 
2.43.0


From 6193d12f3526346cff96f10fdb764b5af4ac8abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 26/39] fix: follow the URL of the message that is scored or
 trained

The stripper only ever assigned a local variable, compared bytes with
strings, and training asked for the URL before the message had been
tokenized.
---
 sbclassifier/classifiers/slurping.py | 41 ++++++++++++++++------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 1b6f60e..4b12ef7 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -136,6 +136,7 @@ class SlurpingURLStripper(URLStripper):
         # If there are no URLS, then we need to clear the
         # wordstream, or whatever was there from the last message
         # will be used.
+        global slurp_wordstream
         slurp_wordstream = None
         # Continue as normal.
         return URLStripper.analyze(self, text)
@@ -148,14 +149,14 @@ class SlurpingURLStripper(URLStripper):
         #     return tokens
 
         proto, guts = m.groups()
-        if proto != "http":
+        if proto != b"http":
             return tokens
 
         assert guts
-        while guts and guts[-1] in '.:;?!/)':
-            guts = guts[:-1]
+        guts = guts.rstrip(b'.:;?!/)')
 
-        slurp_wordstream = (proto, guts)
+        global slurp_wordstream
+        slurp_wordstream = (str(proto, 'latin-1'), str(guts, 'latin-1'))
         return tokens
 
 
@@ -171,8 +172,8 @@ class SlurpingClassifier(Classifier):
 
         # If necessary, enhance it with the tokens from whatever is
         # at the URL's destination.
-        needs_to_slurp = all(len(clues) < MAX_DISCRIMINATORS, is_unsure(prob),
-                             slurp_wordstream)
+        needs_to_slurp = all((len(clues) < MAX_DISCRIMINATORS,
+                              is_unsure(prob), slurp_wordstream))
         if needs_to_slurp:
             slurp_tokens = list(self._generate_slurp())
             slurp_tokens.extend([w for (w, _p) in clues])
@@ -197,20 +198,23 @@ class SlurpingClassifier(Classifier):
         self._remove_msg(wordstream, is_spam)
 
     def _generate_slurp(self):
-        # We don't want to do this recursively and check URLs
-        # on webpages, so we have this little cheat.
+        # This is a generator, because the URL of the message is not known
+        # before all of the words that precede these have been consumed.
+        global slurp_wordstream
+        url = slurp_wordstream
+        if not url:
+            return
         if not hasattr(self, "setup_done"):
             self.setup()
             self.setup_done = True
-        if not hasattr(self, "do_slurp") or self.do_slurp:
-            if slurp_wordstream:
-                self.do_slurp = False
-
-                tokens = self.slurp(*slurp_wordstream)
-                self.do_slurp = True
-                self._save_caches()
-                return tokens
-        return []
+        try:
+            tokens = self.slurp(*url)
+        finally:
+            # We don't want to do this recursively and check URLs
+            # on webpages, so we forget those that we have just seen.
+            slurp_wordstream = url
+        self._save_caches()
+        yield from tokens
 
     def setup(self):
         # Setup the cache for retrieved urls
@@ -356,5 +360,6 @@ class SlurpingClassifier(Classifier):
 
         tokens = tokenize(msg, basic_header_tokenize=True,
                           basic_header_tokenize_only=True)
-        tokens = ['{}{}'.format(X_WEB_PREFIX, tok) for tok in tokens]
+        prefix = bytes(X_WEB_PREFIX, 'utf-8')
+        tokens = [prefix + tok for tok in tokens]
         return tokens
-- 
2.43.0


From 284c453f637e334f8f7e95db83c6d81f222ac2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 27/39] fix: a page that cannot be had contributes its failure
 token

Neither HTTP errors nor names that cannot be looked up raise what was
expected, an empty proxy setting made every request fail, and pages were
stored with methods that do not exist.
---
 sbclassifier/classifiers/slurping.py | 46 +++++++++++++++-------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 4b12ef7..e340f63 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -5,7 +5,6 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
-from email import message_from_string
 import itertools
 import logging
 import os
@@ -20,13 +19,13 @@ from sbclassifier.classifiers.constants import HAM_CUTOFF
 from sbclassifier.classifiers.constants import SPAM_CUTOFF
 from sbclassifier.corpora.filesystem import ExpiryFileCorpus
 #from sbclassifier.corpora.filesystem import FileMessageFactory
+from sbclassifier.message import from_bytes as message_from_bytes
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
 from sbclassifier.tokenizer import tokenize
 from sbclassifier.strippers import URLStripper
 
 DOMAIN_AND_PORT_RE = re.compile(r"([^:/\\]+)(:([\d]+))?")
-HTTP_ERROR_RE = re.compile(r"HTTP Error ([\d]+)")
 URL_KEY_RE = re.compile(r"[\W]")
 
 #: The username to give to the HTTP proxy when required.  If a username is
@@ -110,7 +109,7 @@ def is_unsure(probability):
     return HAM_CUTOFF < probability < SPAM_CUTOFF
 
 
-def base_url(self, url):
+def base_url(url):
     # To try and speed things up, and to avoid following
     # unique URLS, we convert the URL to as basic a form
     # as we can - so http://www.massey.ac.nz/~tameyer/index.html?you=me
@@ -298,6 +297,8 @@ class SlurpingClassifier(Classifier):
 
         # We check if the url will resolve first
         mo = DOMAIN_AND_PORT_RE.match(url)
+        if mo is None:
+            return ["url:non_resolving"]
         domain = mo.group(1)
         if mo.group(3) is None:
             port = 80
@@ -305,7 +306,7 @@ class SlurpingClassifier(Classifier):
             port = mo.group(3)
         try:
             socket.getaddrinfo(domain, port)
-        except OSError:
+        except (OSError, ValueError):
             self.bad_urls["url:non_resolving"] += (url,)
             return ["url:non_resolving"]
 
@@ -324,20 +325,22 @@ class SlurpingClassifier(Classifier):
                 return ["url:non_html"]
 
             url_with_proto = '{}://{}'.format(proto, url)
-            proxy_info = (PROXY_USERNAME, PROXY_PASSWORD, PROXY_SERVER,
-                          PROXY_PORT)
-            proxies = dict(http='http://{}:{}@{}:{}'.format(*proxy_info))
+            proxies = {}
+            if PROXY_SERVER:
+                proxy_info = (PROXY_USERNAME, PROXY_PASSWORD, PROXY_SERVER,
+                              PROXY_PORT)
+                proxies['http'] = 'http://{}:{}@{}:{}'.format(*proxy_info)
             logging.debug("Slurping %s", url)
             try:
                 f = requests.get(url_with_proto, proxies=proxies,
                                  timeout=REQUEST_TIMEOUTS)
-            except requests.exceptions.RequestException as exception:
-                mo = HTTP_ERROR_RE.match(str(exception))
-                if mo:
-                    self.http_error_urls[url] = "url:http_" + mo.group(1)
-                    return ["url:http_" + mo.group(1)]
+            except (OSError, ValueError):
+                # These are all exceptions of requests, and what it passes on.
                 self.bad_urls["url:unknown_error"] += (url,)
                 return ["url:unknown_error"]
+            if f.status_code >= 400:
+                self.http_error_urls[url] = ["url:http_%d" % f.status_code]
+                return self.http_error_urls[url]
 
             # Anything that isn't text/html is ignored
             content_type = f.headers.get('content-type')
@@ -346,19 +349,20 @@ class SlurpingClassifier(Classifier):
                 self.bad_urls["url:non_html"] += (url,)
                 return ["url:non_html"]
 
-            fake_message_string = str(f.headers) + "\r\n" + f.text
+            # The text is not encoded for the transfer any more.
+            headers = ''.join('{}: {}\r\n'.format(k, v)
+                              for k, v in f.headers.items()
+                              if k.lower() != 'content-transfer-encoding')
+            fake_message_string = headers + "\r\n" + f.text
 
             # Retrieving the same messages over and over again will tire
             # us out, so we store them in our own wee cache.
-            message = self.urlCorpus.makeMessage(url_key,
-                                                 fake_message_string)
-            self.urlCorpus.addMessage(message)
-        else:
-            fake_message_string = cached_message.as_string()
-
-        msg = message_from_string(fake_message_string)
+            cached_message = message_from_bytes(
+                bytes(fake_message_string, 'utf-8', 'surrogatepass'),
+                message_id=url_key)
+            self.urlCorpus.add_message(cached_message)
 
-        tokens = tokenize(msg, basic_header_tokenize=True,
+        tokens = tokenize(cached_message, basic_header_tokenize=True,
                           basic_header_tokenize_only=True)
         prefix = bytes(X_WEB_PREFIX, 'utf-8')
         tokens = [prefix + tok for tok in tokens]
-- 
2.43.0


From ef6bcf183f2a8d4aca4344dc317e4d7a4abdb637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 28/39] fix: trouble with the URL cache does not break scoring
 or training

Also, the pages are the only messages of the cache: the lists of failed
URLs do not expire like pages, and pages of different URLs have different
names.
---
 sbclassifier/classifiers/slurping.py | 80 +++++++++++++++++-----------
 1 file changed, 48 insertions(+), 32 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index e340f63..b1c69d0 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -5,12 +5,14 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+from hashlib import sha1
 import itertools
 import logging
 import os
 import re
 import socket
 
+from lockfile import Error as LockError
 import requests
 
 from sbclassifier.classifiers.basic import Classifier
@@ -222,40 +224,39 @@ class SlurpingClassifier(Classifier):
         if not os.path.exists(dir):
             # Create the directory.
             logging.debug("Creating URL cache directory")
-            os.makedirs(dir)
+            try:
+                os.makedirs(dir)
+            except OSError:
+                logging.warning("Cannot create URL cache directory")
 
-        self.urlCorpus = ExpiryFileCorpus(age, dir, cacheSize=20)
-        # Kill any old information in the cache
-        self.urlCorpus.removeExpiredMessages()
+        # The other files in this directory are not pages.
+        self.urlCorpus = ExpiryFileCorpus(age, dir, '*.page', cache_size=20)
 
         # Setup caches for unretrievable urls
         self.bad_url_cache_name = os.path.join(dir, "bad_urls.pck")
         self.http_error_cache_name = os.path.join(dir, "http_error_urls.pck")
-        if os.path.exists(self.bad_url_cache_name):
-            try:
-                self.bad_urls = pickle_read(self.bad_url_cache_name)
-            except (IOError, ValueError):
-                # Something went wrong loading it (bad pickle,
-                # probably).  Start afresh.
-                logging.warning("Bad URL pickle, using new.")
-                self.bad_urls = {"url:non_resolving": (),
-                                 "url:non_html": (),
-                                 "url:unknown_error": ()}
-        else:
+        self.bad_urls = self._load_cache(self.bad_url_cache_name,
+                                         {"url:non_resolving": (),
+                                          "url:non_html": (),
+                                          "url:unknown_error": ()})
+        self.http_error_urls = self._load_cache(self.http_error_cache_name,
+                                                {})
+
+    def _load_cache(self, name, default):
+        if not os.path.exists(name):
             logging.debug("URL caches don't exist: creating")
-            self.bad_urls = {"url:non_resolving": (),
-                             "url:non_html": (),
-                             "url:unknown_error": ()}
-        if os.path.exists(self.http_error_cache_name):
-            try:
-                self.http_error_urls = pickle_read(self.http_error_cache_name)
-            except (IOError, ValueError):
-                # Something went wrong loading it (bad pickle,
-                # probably).  Start afresh.
-                logging.debug("Bad HHTP error pickle, using new.")
-                self.http_error_urls = {}
-        else:
-            self.http_error_urls = {}
+            return default
+        try:
+            data = pickle_read(name)
+            if isinstance(data, dict) and data.keys() >= default.keys():
+                return data
+        except Exception:
+            # A bad pickle may raise anything.
+            pass
+        # Something went wrong loading it (bad pickle,
+        # probably).  Start afresh.
+        logging.warning("Bad URL pickle, using new.")
+        return default
 
     def _save_caches(self):
         # XXX Note that these caches are never refreshed, which might not
@@ -264,7 +265,11 @@ class SlurpingClassifier(Classifier):
         for name, data in [(self.bad_url_cache_name, self.bad_urls),
                            (self.http_error_cache_name, self.http_error_urls),
                            ]:
-            pickle_write(name, data)
+            try:
+                pickle_write(name, data)
+            except (OSError, LockError):
+                # The next time may be better.
+                logging.warning("Cannot save %s", name)
 
     def slurp(self, proto, url):
         # We generate these tokens:
@@ -312,8 +317,16 @@ class SlurpingClassifier(Classifier):
 
         # If the message is in our cache, then we can just skip over
         # retrieving it from the network, and get it from there, instead.
-        url_key = URL_KEY_RE.sub('_', url)
-        cached_message = self.urlCorpus.get(url_key)
+        # Every URL has a key of its own, which is not too long for a file.
+        url_key = '{}-{}.page'.format(URL_KEY_RE.sub('_', url)[:100],
+                                      sha1(url.encode()).hexdigest())
+        cached_message = None
+        try:
+            # Kill any old information in the cache
+            self.urlCorpus.remove_expired_messages()
+            cached_message = self.urlCorpus.get(url_key)
+        except OSError:
+            logging.warning("Cannot read URL cache")
 
         if cached_message is None:
             # We're going to ignore everything that isn't text/html,
@@ -360,7 +373,10 @@ class SlurpingClassifier(Classifier):
             cached_message = message_from_bytes(
                 bytes(fake_message_string, 'utf-8', 'surrogatepass'),
                 message_id=url_key)
-            self.urlCorpus.add_message(cached_message)
+            try:
+                self.urlCorpus.add_message(cached_message)
+            except OSError:
+                logging.warning("Cannot write URL cache")
 
         tokens = tokenize(cached_message, basic_header_tokenize=True,
                           basic_header_tokenize_only=True)
-- 
2.43.0


From 1890db16618b6a6301ad624feb9435868caeac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 29/39] fix: score although a page has changed since it was
 learned

---
 sbclassifier/classifiers/slurping.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index b1c69d0..4147481 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -17,6 +17,7 @@ import requests
 
 from sbclassifier.classifiers.basic import Classifier
 from sbclassifier.classifiers.basic import MAX_DISCRIMINATORS
+from sbclassifier.classifiers.basic import UNKNOWN_WORD_PROB
 from sbclassifier.classifiers.constants import HAM_CUTOFF
 from sbclassifier.classifiers.constants import SPAM_CUTOFF
 from sbclassifier.corpora.filesystem import ExpiryFileCorpus
@@ -198,6 +199,16 @@ class SlurpingClassifier(Classifier):
         wordstream = itertools.chain(wordstream, self._generate_slurp())
         self._remove_msg(wordstream, is_spam)
 
+    def probability(self, record):
+        # A page may change between learning and unlearning a message, so that
+        # the words of the old page remain.
+        if record.spamcount > self.nspam or record.hamcount > self.nham:
+            record = self.WordInfoClass(min(record.spamcount, self.nspam),
+                                        min(record.hamcount, self.nham))
+            if record.spamcount == 0 == record.hamcount:
+                return UNKNOWN_WORD_PROB
+        return super().probability(record)
+
     def _generate_slurp(self):
         # This is a generator, because the URL of the message is not known
         # before all of the words that precede these have been consumed.
-- 
2.43.0


From 8987e9e9aeab84b717cba43b95f3ea7e3cc414aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:54 +0000
Subject: [PATCH 30/39] fix: tokenize the parts of a message in their order

---
 sbclassifier/tokenizer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 8cb8cfc..4a8a278 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -785,21 +785,22 @@ def convert_to_bytes(f):
     return converted_f
 
 
-# textparts(msg) returns a set containing all the text components of msg.
+# textparts(msg) returns a list of all the text components of msg, in the
+# order in which they appear: the order of the tokens matters to bigrams.
 # There's no point decoding binary blobs (like images).  If a text/plain
 # and text/html part happen to have redundant content, it doesn't matter
 # to results, since training and scoring are done on the set of all
 # words in the msg, without regard to how many times a given word appears.
 def textparts(msg):
-    """Return a set of all msg parts with content maintype 'text'."""
-    return set([part for part in msg.walk()
-                if part.get_content_maintype() == 'text'])
+    """Return a list of all msg parts with content maintype 'text'."""
+    return [part for part in msg.walk()
+            if part.get_content_maintype() == 'text']
 
 
 def octetparts(msg):
-    """Return a set of all msg parts with type 'application/octet-stream'."""
-    return set([part for part in msg.walk()
-                if part.get_content_type() == 'application/octet-stream'])
+    """Return a list of all msg parts with type 'application/octet-stream'."""
+    return [part for part in msg.walk()
+            if part.get_content_type() == 'application/octet-stream']
 
 
 def imageparts(msg):
-- 
2.43.0


From 6ca2e06126fa67df016171d2635bf5c3dda21477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 31/39] fix: show a file corpus

The format of its address was not valid, so that repr() and str() raised
ValueError.
---
 sbclassifier/corpora/filesystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 75b48f1..7042443 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -68,7 +68,7 @@ class FileCorpus(Corpus):
         nummsgs = len(self)
         s = 's' if nummsgs != 1 else ''
         lst = ', {}'.format(list(self.keys())) if VERBOSE and nummsgs > 0 else ''
-        return ('<{} object at {:8.8x}, directory: {},'
+        return ('<{} object at {:08x}, directory: {},'
                 ' {} message{}{}>').format(self.__class__.__name__, id(self),
                                            self.message_cache.directory,
                                            nummsgs, s, lst)
-- 
2.43.0


From 2b0e96bef2c3668d126cc27e0ca37b9133747e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 32/39] fix: load() must drop the cached probabilities of the
 old state

---
 sbclassifier/classifiers/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 078835e..16a6d60 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -185,6 +185,7 @@ class PickleClassifier(StoredClassifierBase):
             self.wordinfo = {}
             self.nham = 0
             self.nspam = 0
+            self._probcache = {}
             return
 
         # Copy state from tempbayes.  The use of our base-class __setstate__ is
@@ -264,6 +265,7 @@ class ShelveClassifier(StoredClassifierBase):
             self.nspam = 0
             self.nham = 0
         self.saved_totals = self.nspam, self.nham
+        self._probcache = {}
         self.wordinfo = {}
         self.deleted_words = set()
         self.changed_words = set()
@@ -710,6 +712,7 @@ class CDBClassifier(StoredClassifierBase):
             self.wordinfo = {}
             self.nham = 0
             self.nspam = 0
+        self._probcache = {}
 
     def store(self):
         items = [(self.statekey, "{:d},{:d}".format(self.nham, self.nspam))]
-- 
2.43.0


From 7bee519309d37d526c33b03efc4c951a616c7745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 33/39] fix: classification notations can be removed again

Notating or removing a notation from a header with 8-bit characters lost
them or raised, a notation in a message without that header was not removed,
and remove_sb_headers() mixed up which notations to remove.
---
 sbclassifier/message.py | 74 +++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 6e6ff49..2ed5d18 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -486,20 +486,44 @@ class Message(_Message):
             # comma that we added, treating it as a separator, so it
             # wasn't much use anyway.  So we now convert the classification
             # to an invalid address, and add that.
-            address = "{}@spambayes.invalid".format(self.c.name)
-            try:
-                self.replace_header("To", "{},{}".format(address, self["To"]))
-            except KeyError:
-                self["To"] = address
+            self._notate("To", "{}@spambayes.invalid".format(self.c.name))
 
         # if isinstance(notate_subject, str):
         #     notate_subject = (notate_subject,)
         if self.c in notate_subject:
-            try:
-                self.replace_header("Subject", "%s,%s" % (self.c.name,
-                                                          self["Subject"]))
-            except KeyError:
-                self["Subject"] = self.c.name
+            self._notate("Subject", self.c.name)
+
+    def _raw_header(self, name):
+        """The value of a header as it is in the message, or ``None``.
+
+        (Looking it up replaces the 8-bit characters in it.)
+
+        """
+        for key, value in self.raw_items():
+            if key.lower() == name.lower():
+                return value if isinstance(value, str) else value.encode()
+        return None
+
+    def _notate(self, name, notation):
+        value = self._raw_header(name)
+        if value is None:
+            self[name] = notation
+        else:
+            self.replace_header(name, "{},{}".format(notation, value))
+
+    def _remove_notation(self, name, notations):
+        value = self._raw_header(name)
+        if value is None:
+            return
+        for notation in notations:
+            # Only remove one, maximum.
+            if value.startswith(notation + ","):
+                self.replace_header(name, value[len(notation) + 1:])
+                return
+            if value == notation:
+                # There was no such header when we added it.
+                del self[name]
+                return
 
     def remove_notations(self, remove_subject_notations=False,
                          remove_to_notations=False):
@@ -515,28 +539,12 @@ class Message(_Message):
         See also [ 848365 ] Remove subject annotations from message review
                             page
         """
-        subject = self["Subject"]
-        if subject:
-            ham = Classification.ham.name + ','
-            spam = Classification.spam.name + ','
-            unsure = Classification.unsure.name + ','
-            if remove_subject_notations:
-                for disp in (ham, spam, unsure):
-                    if subject.startswith(disp):
-                        self.replace_header("Subject", subject[len(disp):])
-                        # Only remove one, maximum.
-                        break
-        to = self["To"]
-        if to:
-            ham = "%s@spambayes.invalid," % (Classification.ham.name,)
-            spam = "%s@spambayes.invalid," % (Classification.spam.name,)
-            unsure = "%s@spambayes.invalid," % (Classification.unsure.name,)
-            if remove_to_notations:
-                for disp in (ham, spam, unsure):
-                    if to.startswith(disp):
-                        self.replace_header("To", to[len(disp):])
-                        # Only remove one, maximum.
-                        break
+        names = [c.name for c in Classification]
+        if remove_subject_notations:
+            self._remove_notation("Subject", names)
+        if remove_to_notations:
+            self._remove_notation("To", ["{}@spambayes.invalid".format(name)
+                                         for name in names])
 
     def current_sb_headers(self):
         """Return a dictionary containing the current values of the SpamBayes
@@ -566,7 +574,7 @@ class Message(_Message):
             del self[name]
         # Also delete notations - typically this is called just before
         # training, and we don't want them there for that.
-        self.remove_notations(remove_to_notations, remove_subject_notations)
+        self.remove_notations(remove_subject_notations, remove_to_notations)
 
 
 # Utility function to insert an exception header into the given RFC822 text.
-- 
2.43.0


From 060d24c22410168ea1d4d051a8f96f7ecf79bafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 34/39] fix: a page whose charset cannot be decoded contributes
 its failure token

---
 sbclassifier/classifiers/slurping.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 4147481..54b5556 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -373,11 +373,18 @@ class SlurpingClassifier(Classifier):
                 self.bad_urls["url:non_html"] += (url,)
                 return ["url:non_html"]
 
+            try:
+                text = f.text
+            except ValueError:
+                # There are charsets which cannot be decoded at all.
+                self.bad_urls["url:unknown_error"] += (url,)
+                return ["url:unknown_error"]
+
             # The text is not encoded for the transfer any more.
             headers = ''.join('{}: {}\r\n'.format(k, v)
                               for k, v in f.headers.items()
                               if k.lower() != 'content-transfer-encoding')
-            fake_message_string = headers + "\r\n" + f.text
+            fake_message_string = headers + "\r\n" + text
 
             # Retrieving the same messages over and over again will tire
             # us out, so we store them in our own wee cache.
-- 
2.43.0


From 6fd3dabaf6bb073a994af3fd8b7c20a7ef56ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:06 +0000
Subject: [PATCH 35/39] fix: messages labelled multipart without parts can be
 written

---
 sbclassifier/message.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 2ed5d18..e5d876d 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -73,10 +73,12 @@ __author__ = "Tim Stone <tim@fourstonesExpressions.com>"
 __credits__ = "Mark Hammond, Tony Meyer, all the spambayes contributors."
 
 import email
+from email.generator import BytesGenerator
 from email.generator import Generator
 from email.header import Header
 from email.message import Message as _Message
 from enum import Enum
+from io import BytesIO
 from io import StringIO
 import math
 import re
@@ -169,6 +171,17 @@ def force_crlf(data):
     return CRLF_RE.sub('\r\n', data)
 
 
+class _BytesGenerator(BytesGenerator):
+
+    def _handle_multipart(self, msg):
+        # A message labelled multipart whose parts cannot be found has one
+        # text, which may contain bytes that are not ASCII.
+        if isinstance(msg.get_payload(), str):
+            self._handle_text(msg)
+        else:
+            super()._handle_multipart(msg)
+
+
 class Message(_Message):
     '''An email.Message.Message extended for SpamBayes'''
 
@@ -289,7 +302,10 @@ class Message(_Message):
         # have other tokens than this one.
         if policy is None:
             policy = self.policy.clone(max_line_length=None)
-        return super().as_bytes(unixfrom, policy)
+        fp = BytesIO()
+        g = _BytesGenerator(fp, mangle_from_=False, policy=policy)
+        g.flatten(self, unixfrom=unixfrom)
+        return fp.getvalue()
 
     # def modified(self):
     #     if self.messageid:    # only persist if key is present
-- 
2.43.0


From 1543e78f35c4627397b3ae6e82298d123d7d4791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:53 +0000
Subject: [PATCH 36/39] fix: tokens of a folded subject do not depend on the
 line endings

---
 sbclassifier/tokenizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 4a8a278..b781819 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1243,8 +1243,10 @@ class Tokenizer:
                     x = str(x, 'latin-1')
             x = str(x)
             # this is a workaround for a bug in the csv module in Python
-            # <= 2.3.4 and 2.4.0 (fixed in 2.5)
-            x = x.replace('\r', ' ')
+            # <= 2.3.4 and 2.4.0 (fixed in 2.5); what ends a line of a folded
+            # subject must make no difference, since it is not the same any
+            # more when the message has been written
+            x = x.replace('\r\n', '\n').replace('\r', '\n')
             for w in subject_word_re.findall(x):
                 for t in tokenize_word(w):
                     yield 'subject:' + t
-- 
2.43.0


From affb22f4b98367b39a7184c9267d0789cf7c32c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:17 +0000
Subject: [PATCH 37/39] fix: a truncated CDB is refused, and leaves the model
 as it was

---
 sbclassifier/cdb.py                 | 2 ++
 sbclassifier/classifiers/storage.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/cdb.py b/sbclassifier/cdb.py
index 4e85a7b..425a0c4 100644
--- a/sbclassifier/cdb.py
+++ b/sbclassifier/cdb.py
@@ -68,6 +68,8 @@ class Cdb(object):
             len += klen
             val = self.map[len:len+vlen]
             len += vlen
+            if len > self.size:
+                raise ValueError('truncated CDB')
             if fn:
                 yield fn(key, val)
             else:
diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 16a6d60..1e51072 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -694,8 +694,7 @@ class CDBClassifier(StoredClassifierBase):
         except FileNotFoundError:
             data = None
         if data is not None:
-            self.nham, self.nspam = [int(i) for i in
-                                     data[self.statekey].split(',')]
+            nham, nspam = [int(i) for i in data[self.statekey].split(',')]
             # self.wordinfo = {self.uunquote(k): self._WordInfoFactory(v)
             #                  for k, v in data.items()
             #                  if k != self.statekey}
@@ -705,6 +704,7 @@ class CDBClassifier(StoredClassifierBase):
                                                reversed(s.split(','))))
             self.wordinfo = {key_to_word(k): from_string(v)
                              for k, v in data.items() if k != self.statekey}
+            self.nham, self.nspam = nham, nspam
             logging.debug('%s is an existing CDB, with %d ham and %d spam',
                           self.filename, self.nham, self.nspam)
         else:
-- 
2.43.0


From 8d7e0f0347ac079b32ee241c0e8b2a02f0bd1669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:17 +0000
Subject: [PATCH 38/39] fix: words with surrogates can be stored in shelves and
 CDBs

---
 sbclassifier/classifiers/storage.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 1e51072..dea3187 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -105,6 +105,7 @@ STATE_KEY = 'saved state'
 #: these.
 BYTES_PREFIX = '\0b'
 STRING_PREFIX = '\0s'
+SURROGATES_PREFIX = '\0u'
 
 
 def word_to_key(word):
@@ -115,6 +116,10 @@ def word_to_key(word):
     """
     if isinstance(word, bytes):
         return BYTES_PREFIX + word.decode('latin-1')
+    if any('\ud800' <= c <= '\udfff' for c in word):
+        # Databases hold UTF-8, which has no surrogates.
+        return SURROGATES_PREFIX + word.encode('utf-8', 'surrogatepass'
+                                               ).decode('latin-1')
     if word == STATE_KEY or word.startswith('\0'):
         return STRING_PREFIX + word
     return word
@@ -124,6 +129,9 @@ def key_to_word(key):
     """The inverse of :func:`word_to_key`."""
     if key.startswith(BYTES_PREFIX):
         return key[len(BYTES_PREFIX):].encode('latin-1')
+    if key.startswith(SURROGATES_PREFIX):
+        return key[len(SURROGATES_PREFIX):].encode('latin-1').decode(
+            'utf-8', 'surrogatepass')
     if key.startswith(STRING_PREFIX):
         return key[len(STRING_PREFIX):]
     return key
-- 
2.43.0


From 49ffa8ad47fe1c9bc7e2baf1b590fc4577817af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:17 +0000
Subject: [PATCH 39/39] fix: a URL cache of other values is not used

---
 sbclassifier/classifiers/slurping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 54b5556..3308c94 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -259,7 +259,8 @@ class SlurpingClassifier(Classifier):
             return default
         try:
             data = pickle_read(name)
-            if isinstance(data, dict) and data.keys() >= default.keys():
+            if (isinstance(data, dict) and data.keys() >= default.keys() and
+                    all(isinstance(v, (tuple, list)) for v in data.values())):
                 return data
         except Exception:
             # A bad pickle may raise anything.
-- 
2.43.0

