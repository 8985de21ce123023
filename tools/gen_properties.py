"""Regenerates /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

S = 'sbclassifier/classifiers/storage.py'
B = 'sbclassifier/classifiers/basic.py'
SP = 'sbclassifier/safepickle.py'
CA = 'sbclassifier/corpora/caches.py'
CB = 'sbclassifier/corpora/base.py'
CF = 'sbclassifier/corpora/filesystem.py'

p('C01', 'A stored pickle database survives a crash at any instant',
  'Once store() on a pickle-backed classifier has returned, killing the process at any later instant, including in the middle of another store(), and opening the file again yields exactly one of the states handed to store(), no older than the last store() that returned; never an error, an empty classifier or a mixture. '
  'If the machine loses power instead, the reopened database is still one complete state that was handed to store() (or a new one if the database was only created since the machine last booted), never torn or empty because of a later store().',
  ['crash_points', 'histories'],
  'every sequence of learn/unlearn/store/load operations and every point of the file-system activity at which the process is killed or the machine loses power, including every choice of unsynced data the disk may have kept',
  'The storage tests store once and reopen once; nothing is ever interrupted, and a test on a real file system cannot lose unsynced data.',
  [SP, S], [('temporary file, then replace the target', SP + ':pickle_write'), ('state tuple', B + ':Classifier.__getstate__/__setstate__'), ('load on construction', S + ':PickleClassifier.load')],
  ['PickleClassifier(filename) after the crash', 'pickle_read(filename) after the crash'],
  [('database file', 'pickled classifier', S + ':PickleClassifier.filename')])

p('C02', 'Failed pickle I/O never loses, blanks or wedges the database',
  'A store() or load() of a pickle-backed classifier (or a pickle_write/pickle_read) that meets an I/O error, a full disk, a busy lock or a damaged file, or is interrupted, raises, and leaves the last stored database on disk and the model in memory as they were; an existing database that cannot be read is never presented as a new, empty one. '
  'After any such failure no lock and no temporary file of the failed call stays behind, so that the same call succeeds as soon as the fault is gone.',
  ['fault_sequences', 'histories'],
  'every history of training, store and load calls, with every single or repeated failure (ENOSPC with partial writes, EIO, EACCES, lock timeout, truncated or overwritten file, unpicklable value, KeyboardInterrupt, lack of memory) at every I/O call',
  'No test makes an I/O call fail or hands a damaged file to load().',
  [SP, S], [('lock released by context manager', SP + ':pickle_read/pickle_write'), ('what load() takes for a new database', S + ':PickleClassifier.load')],
  ['exception or return of store()/load()', 'directory listing and file content afterwards', 'nham/nspam/word counts in memory'])

p('C03', 'Concurrent pickle readers and writers see one atomic file',
  'When several processes and threads read and write the same pickle file at the same time, every read returns one complete written value and all completed reads and writes are linearizable as operations on a single register; an operation that fails (lock timeout, I/O error) has no effect or its complete effect. '
  'When all of them have finished normally, the file is unlocked and readable.',
  ['schedules', 'fault_sequences', 'crash_points'],
  'every interleaving of the file-system calls of up to four processes/threads, with slow I/O, I/O errors, and crashes of participants while others go on',
  'All tests are single-threaded; a torn read needs another process in the middle of its write.',
  [SP, S], [('FileLock with timeout', SP + ':DEFAULT_TIMEOUT'), ('replace by a complete file', SP + ':pickle_write')],
  ['return values of pickle_read / PickleClassifier(...) against the history of writes'])

p('C04', 'Stored word counts equal the training history in every backend',
  'For every history of training, untraining, storing, reloading, closing and reopening, a classifier backed by a pickle, a shelf (whatever dbm module is behind it) or a CDB file reports for every word, str or bytes, exactly the spam and ham counts, and exactly the message totals, that the trained-minus-untrained messages imply. '
  'A classifier reopened (or copied through its pickled state) after store() is indistinguishable from the one that stored, in its counts, its scores and how it trains from then on.',
  ['histories', 'inputs', 'configurations'],
  'every history of learn/unlearn/store/load/close/reopen over every vocabulary (empty, non-ASCII, bytes, words equal to the storage\'s own keys), every backend and every dbm behaviour (write-through, write-back, without sync)',
  'The storage tests run three fixed histories over a handful of ASCII words; the shelf caching and singleton rules only go wrong for particular orders of train, untrain, store and reopen.',
  [S, B, 'sbclassifier/cdb.py', SP],
  [('changed/deleted word sets and the singleton shortcut', S + ':ShelveClassifier._wordinfoset/_wordinfodel/_wordinfoget'), ('flush', S + ':ShelveClassifier.store'), ('counting', B + ':Classifier._add_msg/_remove_msg'), ('cdb encoding', 'sbclassifier/cdb.py:cdb_make')],
  ['nham, nspam, word counts and spamprob() of the live and the reopened classifier'],
  [('wordinfo / changed_words / deleted_words', 'words cached, to be written, to be deleted at store()', S)])

p('C05', 'A crash between shelf operations leaves a usable, sound database',
  'If a process using a shelf-backed classifier is killed, or closes it without store(), at any point, the shelf opens again, every word can be looked up and scored without an error (no word is recorded in more messages than were trained), and the totals and each word\'s counts are values they had at or after the last completed store(), the same for load() as for opening it again. '
  'If nothing was trained since that store(), the reopened database is exactly the stored one, whatever dbm module is behind it.',
  ['crash_points', 'histories', 'configurations'],
  'every history of learn/unlearn/store, every database or file call at which the process dies, every dbm behaviour (write-through; write-back with and without sync, of which any prefix of the unsynced updates may have reached the disk)',
  'The tests always store() and close() before they reopen, and never kill the process; bug #797890 was of this kind.',
  [S, B], [('totals written after each training', S + ':ShelveClassifier._post_training'), ('order of writes in a store', S + ':ShelveClassifier.store'), ('counts checked against totals', B + ':Classifier.probability')],
  ['ShelveClassifier(filename) after the crash: nham, nspam, word counts, spamprob()'],
  [('state key', 'persisted totals', S + ':STATE_KEY')])

p('C06', 'A shelf store() that fails can be retried without loss',
  'If store() on a shelf-backed classifier raises because the database fails or the disk is full, the model in memory is unchanged, and the next store() that returns makes the database on disk equal to it: no change is dropped, applied twice or left half-written. '
  'Training that hits a database error never makes the classifier unusable: every word can still be scored, with the score its counts imply, and totals and counts differ from the intended ones only for the message whose training failed.',
  ['fault_sequences', 'histories'],
  'every history of learn/unlearn/store and every (single or repeated) failure of a database read, write, delete or sync within it',
  'No test makes a database operation fail.',
  [S], [('sets cleared only after all writes', S + ':ShelveClassifier.store'), ('singleton writes during training', S + ':ShelveClassifier._wordinfoset')],
  ['live counts after the failure, and the reopened database after the successful retry'])

p('C07', 'Training that fails in its token source changes nothing',
  'If the iterable of tokens handed to learn() or unlearn() raises part-way (the message stream breaks, is cancelled or cannot be tokenized), the exception reaches the caller and the classifier, in memory and on disk, is exactly as it was before: totals, word counts and scores. '
  'An unlearn() that is refused because nothing of that kind was trained also changes nothing, and the same call can then be repeated with a working source with its normal effect.',
  ['fault_sequences', 'histories'],
  'every history of trainings on every backend, with the token stream failing after any number of tokens with any exception',
  'Every test trains from a complete list.',
  [B, S], [('training entry points', B + ':Classifier._add_msg/_remove_msg'), ('bigram expansion of the stream', B + ':Classifier._enhance_wordstream')],
  ['nham, nspam, word counts, spamprob() before and after the failed call; reopened database'])

p('C08', 'Scores depend only on the net training, not on its history',
  'spamprob(), with or without its evidence, depends only on the multiset of messages trained and not untrained again: the order of training, scoring in between, untrained mistakes, stores, reloads, restarts, crashes followed by retraining, the backend and whether tokens come as a list or a one-shot stream (and, without bigrams, in which order and how often) make no difference, to the last bit. '
  'Untraining everything gives back a classifier that scores every message like a new one, and no history, however long, makes scoring fail.',
  ['histories', 'configurations', 'crash_points'],
  'every history of learn/unlearn/spamprob/store/reopen/crash-and-retrain interleaved over one classifier per backend (in memory, with and without bigrams, pickle, shelf, CDB), compared with a fresh classifier trained with the surviving messages only',
  'The classifier tests train two messages once and score them; stale caches only show after particular train-score-untrain orders.',
  [B, S], [('probability cache, dropped on training', B + ':Classifier.probability/_add_msg/_remove_msg'), ('clue selection', B + ':Classifier._getclues')],
  ['spamprob(tokens) and spamprob(tokens, evidence=True)'],
  [('_probcache', 'probability per (spamcount, hamcount)', B)])

p('C09', 'A message directory and its corpus always agree',
  'After every history of adding, removing and looking up messages, reopening the corpus, and files appearing or disappearing in the directory, a file corpus contains exactly the messages whose files are in its directory and match its filter: keys, length, membership, lookup, values and iteration agree, and every lookup returns the message with its id and the content that was added. '
  'A message leaves the directory only when it is removed; the limit on messages held in memory is respected and never deletes or hides a message (a corpus that is only in memory forgets those first added). '
  'An id that is a path or does not match the filter is refused, and nothing outside the directory, and no file that does not match, is ever changed.',
  ['histories', 'inputs', 'configurations'],
  'every history of add/re-add/remove/get/iterate/reopen and of foreign file changes, every cache size and filter, starting from an empty or a filled directory, every directory listing order',
  'The tests put three messages into a directory with a cache of 100, so the cache never evicts anything, and never reopen it.',
  [CA, CF, CB], [('two-level cache', CA + ':FileCache'), ('eviction', CA + ':NaiveCache.put'), ('cache chosen by the corpus', CB + ':Corpus.__init__')],
  ['corpus.keys(), len(), in, [], get(), values(), and the directory itself'],
  [('message_cache', 'messages in memory + directory', CB + ':Corpus')])

p('C10', 'Corpus messages survive crashes and disk errors whole',
  'Once add_message() on a file corpus has returned, the message is in the reopened corpus with exactly its content, whatever crash or disk error hits any later operation on other messages; once remove_message() has returned it is gone. '
  'An add that fails, is interrupted or is killed leaves either the complete new message or what there was under that id before (the previous message, or none): never a truncated message, never extra entries nor, if it fails, a temporary file; a failed add or remove can be repeated; after a power loss, too, every message that is there is complete. A lookup that cannot open or read the file of a message fails, and does not report the message missing.',
  ['crash_points', 'fault_sequences', 'histories'],
  'every history of add/re-add/remove, with the process killed or interrupted, or the disk failing (ENOSPC with partial writes, EIO, EACCES), at any file-system call',
  'No test interrupts or fails a write of a message file.',
  [CA, CF, CB], [('message written to its file', CA + ':FileCache.put'), ('file removed', CA + ':FileCache.pop')],
  ['FileCorpus(directory) after the crash or error: keys and contents'])

p('C11', 'Expiry removes exactly the expired messages, under any clock',
  'remove_expired_messages() never removes a message whose file is younger, by the current clock, than the configured age, never touches files outside the corpus, and does not trigger untraining. '
  'While the clock runs forward, at speed or in jumps, every message older than that age is gone after the next call made when it is due, including messages added since the last call and those whose removal failed before; a clock set back may delay removals until the clock is past its highest time by the age, no longer, and restarting the program does not change any of this.',
  ['histories', 'schedules', 'fault_sequences'],
  'every history of add/remove/expire/restart at every spacing of simulated time, with forward and backward clock jumps and files vanishing in between',
  'The only expiry test is skipped because it depends on the real clock and timing.',
  [CF, CB, CA], [('next time something is due', CF + ':ExpiryFileCorpus.remove_expired_messages'), ('age of a message', CF + ':ExpiryFileCorpus')],
  ['directory and corpus content after each call against file times and the simulated clock'],
  [('expiry_due', 'do nothing before this time', CF)])

p('C12', 'Trainers keep the classifier equal to the corpora they watch',
  'With trainers attached to corpora, adding a message that is not in it yet to a watched corpus trains it exactly once, as the kind of that corpus, removing it untrains it exactly once, and nothing else trains (adding silently, other corpora, and ids the corpus refuses do not); so at all times the classifier equals one freshly trained with the messages now in the watched corpora, and each message says how it was trained. '
  'When training fails part-way because the message or a database write fails, the failure reaches the caller, the message does not claim to be trained and the other messages\' training is intact.',
  ['histories', 'fault_sequences', 'inputs'],
  'every history of adding, moving between, and removing from several spam and ham corpora (in memory and on disk, with small caches), silent adds and removes, unwatched corpora, messages that cannot be read, and database errors during training',
  'There are no tests of trainers (tests/test_trainers.py is empty).',
  ['sbclassifier/trainers.py', CB, B, 'sbclassifier/tokenizer.py'], [('signal subscriptions', 'sbclassifier/trainers.py:Trainer.__init__'), ('signals', CB + ':Corpus.add_message/remove_message')],
  ['nham, nspam, word counts, scores after every corpus operation; message.is_trained()'])

p('C13', 'A CDB database is replaced whole or not at all',
  'Storing a CDB-backed classifier and reopening it gives back every word and every count, for any number of words and hash collisions; the file is well-formed CDB, in which every word can be found by key lookup and by iteration. '
  'Whatever kills or interrupts the process or fails the disk during store(), the file afterwards opens as the complete previous or the complete new database, as it does for a process opening it at that time; a failed store() leaves no temporary file and the model in memory as it was, and can be repeated. A file that cannot be read, is truncated or is not such a database is an error, never a new database, and leaves the model in memory as it was.',
  ['crash_points', 'fault_sequences', 'histories', 'inputs'],
  'every history of train/untrain/store/reopen over every vocabulary, with a crash, power loss, interruption or disk error at any file-system call',
  'The CDB tests are skipped (they want a module that does not exist).',
  ['sbclassifier/cdb.py', S], [('hash tables', 'sbclassifier/cdb.py:cdb_make'), ('lookup', 'sbclassifier/cdb.py:Cdb.findnext'), ('load/store', S + ':CDBClassifier')],
  ['CDBClassifier(filename) and Cdb(file) after store, crash or error'])

p('C14', 'DNS trouble never breaks or outlives header mining',
  'Whatever DNS does (answers, not found, temporary failure, time-out, several addresses, no reverse name), a forward or reverse lookup returns a possibly empty collection instead of raising, and tokenizing a message with posting-host mining enabled completes, with the clues that need no DNS present and the DNS clues being exactly those of the answers received; a name that had no answer is asked for again the next time. '
  'After any set of lookups, in any number of threads and with any outcome, the process-wide default socket timeout is what it was before.',
  ['fault_sequences', 'schedules', 'inputs'],
  'every sequence of DNS outcomes and latencies, every interleaving (down to single source lines) of lookups running in several threads',
  'The DNS tests need the real network and only look up one healthy name; the mining code is not tested at all.',
  ['sbclassifier/dnsutils.py', 'sbclassifier/tokenizer.py', 'sbclassifier/iputils.py'],
  [('default time-out set and restored', 'sbclassifier/dnsutils.py:timed'), ('mining', 'sbclassifier/tokenizer.py:mine_nntp, clues_from_ipaddress, clues_from_domainname')],
  ['return value of dns_lookup/reverse_dns_lookup/tokenize', 'socket.getdefaulttimeout()'])

p('C15', 'Following URLs while scoring degrades, never fails',
  'Scoring, training and untraining with a URL-following classifier succeed, in bounded time, whatever DNS, the network, the web server and the local URL cache do; a page that cannot be had contributes at most its failure token, the page of a reachable URL contributes its tokens, and each URL whose outcome is cached is not requested again until it expires (pages after the configured days, failures never), also after a restart; processes that share the cache do not make each other fail. '
  'URLs are followed only for messages whose own score is unsure, and only through the proxy if one is configured, and when no URL is known it scores and trains exactly like the plain classifier.',
  ['fault_sequences', 'histories', 'schedules'],
  'every sequence of score/train/untrain/restart over several URLs and messages, every outcome of name resolution, connection, HTTP status, content type and cache file I/O, and every passage of time relative to the cache expiry',
  'The URL-following classifier has no tests and needs a network.',
  ['sbclassifier/classifiers/slurping.py', CF, SP], [('failure caches', 'sbclassifier/classifiers/slurping.py:SlurpingClassifier.slurp/_save_caches'), ('page cache', 'sbclassifier/classifiers/slurping.py:SlurpingClassifier.setup'), ('unsure range', 'sbclassifier/classifiers/slurping.py:is_unsure')],
  ['return values and exceptions of spamprob/learn/unlearn', 'requests seen by the simulated network'])

p('C16', 'A corpus directory can be shared while others change it',
  'When other processes add, rewrite, remove or expire messages in the directory of a file corpus at the same time, looking up a message returns it whole or reports it missing (KeyError, or the default of get()), listing or iterating over keys or messages completes, gives everything that stays and skips what has gone, and removing or expiring what another process already removed is harmless. '
  'When all have finished, every corpus sees exactly the files that are there.',
  ['schedules', 'histories'],
  'every interleaving of the file-system calls of two or three processes adding, replacing, removing, expiring, looking up and iterating in one directory',
  'All tests use one corpus object in one thread.',
  [CA, CF], [('directory check before read', CA + ':FileCache.__getitem__/values'), ('removal of a missing file', CA + ':FileCache.pop')],
  ['results and exceptions of corpus operations against the history of file changes'])

p('C17', 'A filter of several processes scores and trains what was delivered',
  'When deliveries (score a message, add the verdict headers, file it), a trainer (take filed messages, remove those headers, add them to the watched spam or ham corpus, move or remove them later, store the classifier) and an expiry share message directories and one database as separate processes, every score and its evidence is exactly that of a stored training no older than the last completed store; '
  'every filed message carries the verdict of its score and, without the headers and notations of the filter, is what arrived: same headers, body and tokens; the classifier always equals one trained with the arrived messages that are in the watched corpora. '
  'No delivered message is lost or duplicated by this, whichever process is killed, slow or meets I/O errors and wherever it stands: it is in one of the directories until it is removed or older than the configured age, and a killed or failed step can be repeated.',
  ['schedules', 'crash_points', 'fault_sequences', 'histories'],
  'every interleaving of two to four such processes at their file-system calls, with kills and restarts, slow calls, I/O errors and clock jumps, for every message (8-bit, folded, missing or repeated headers, headers of other filters) and every choice of verdict headers and notations',
  'The tests exercise each class alone in one process; none lets a message pass from its arrival through headers, directories, trainers and database to the next score.',
  ['sbclassifier/message.py', CF, CA, 'sbclassifier/trainers.py', S, SP],
  [('verdict headers and notations', 'sbclassifier/message.py:Message.add_sb_headers/remove_sb_headers'), ('verdict of a score', 'sbclassifier/message.py:Message.set_classification'), ('training by signals', 'sbclassifier/trainers.py:Trainer'), ('files in directories', CA + ':FileCache'), ('database replaced whole', SP + ':pickle_write')],
  ['spamprob() of the delivering process against the stored states', 'the files in the three directories', 'nham, nspam and word counts of the trainer'])

p('C18', 'Threads that score at the same time get what one alone gets',
  'When several threads of one process tokenize messages (each its own) and score them with one classifier that nobody trains, stores or reloads meanwhile, whatever the backend and wherever the threads are interrupted, no call raises and every thread gets exactly the tokens, the score and the evidence that a single thread gets. '
  'Afterwards the totals, the counts of every word and all scores, also after later training, storing and reopening, are as if nobody had scored.',
  ['schedules', 'histories', 'configurations'],
  'every interleaving of two to four threads, switched at any source line of tokenizer, classifier and storage, after every history of training and reopening, for every backend and every tokenizer option',
  'The tests score in one thread; a score that goes wrong needs a context switch inside a cache update or a lookup.',
  [B, S, 'sbclassifier/tokenizer.py', 'sbclassifier/strippers.py'],
  [('probability cache shared by all threads', B + ':Classifier.probability'), ('words read on demand', S + ':ShelveClassifier._wordinfoget'), ('tokenizer object shared by all callers', 'sbclassifier/tokenizer.py:Tokenizer/tokenize')],
  ['tokenize(message)', 'spamprob(tokens, evidence)', 'nham, nspam and word counts afterwards'])

# Not simulation targets: pure functions of their input (see DESIGN.md).
p('N01', 'Scores are probabilities and evidence is well-formed',
  'For every trained classifier and every token sequence, spamprob() returns a number in [0, 1], 0.5 when no token is significant, and its evidence lists at most 150 words, each farther than 0.1 from 0.5, sorted by probability.',
  ['inputs'], 'every training set and token sequence', 'Two scores of three words each are tested.',
  [B], [('chi-squared combining', B + ':Classifier.spamprob/chi2Q')], ['spamprob()'])
p('N02', 'Tokenizing is total and repeatable',
  'Every message, however malformed, yields a finite sequence of byte-string tokens, and tokenizing an equal message again yields the same tokens.',
  ['inputs'], 'every message text', 'tests/test_tokenizer.py is empty.',
  ['sbclassifier/tokenizer.py', 'sbclassifier/strippers.py'], [('tokenizer', 'sbclassifier/tokenizer.py:Tokenizer')], ['tokenize(message)'])
p('N03', 'Classification headers can be removed without trace',
  'Adding the classification headers and notations to any message that has none and removing them again gives back the original headers, and the classification recorded in the header is the one the score and cut-offs imply.',
  ['inputs', 'configurations'], 'every message, score and option', 'The message tests use three fixed messages.',
  ['sbclassifier/message.py'], [('headers', 'sbclassifier/message.py:Message.add_sb_headers/remove_sb_headers')], ['message headers'])
p('N04', 'Host and IP clues name exactly the enclosing networks',
  'For every IPv4 address the generated clues are exactly its /8, /16, /24 and /32 networks with the given prefix.',
  ['inputs'], 'every address and prefix', 'One address is tested.',
  ['sbclassifier/iputils.py'], [('subnets', 'sbclassifier/iputils.py:subnets')], ['gen_dotted_quad_clues()'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
