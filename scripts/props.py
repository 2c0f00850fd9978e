#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 scripts/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    P.append(d)

# ------------------------------------------------------------------ locking
prop("L01", "Writers hold the index's exclusive lock from open to the end of Close",
 "Creating an index, or opening an existing one to add documents, succeeds only while holding an exclusive inter-process lock for that index root: the lock is granted before any data file of the index (document records, path names, posting files) is created, read or changed, and it is not given up before Close has finished writing all of them. If the lock cannot be obtained the call fails with that error and touches no data file. Close gives the lock up on every path, also when writing fails.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of processes creating, appending to and reading the same root, and every path (success or failing system call) through create, append-open, Add and Close",
 "The tests open one index in one process; no test has two holders, a failing lock or a failing Close.",
 ["indexer.go", "lock/file.go", "lock/unix.go", "lock/windows.go"],
 [("lock taken before data files, in both writer constructors", "indexer.go IndexerFromConfig, openFromConfig"),
  ("deferred release at the end of Close", "indexer.go Indexer.Close")],
 [("Indexer.lock", "the advisory lock held by the writer", "indexer.go")])
prop("L02", "Readers hold the shared lock for as long as the index is open",
 "Opening an index for queries takes a lock on the index root (shared, or stronger) before any of its files is read, and fails with the lock's error, reading nothing, if it cannot be had. The lock stays held until the index is closed; closing closes every data file, gives the lock up on every path, and returns a non-nil error if any of those steps failed.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving with a writer and every path, including failing ones, through open and close",
 "Tests never run a reader against a writer and never make a close or lock call fail.",
 ["index.go", "lock/file.go"],
 [("LockShared before reading the configuration", "index.go OpenIndex"), ("release in Close", "index.go Index.Close")])
prop("L03", "The lock primitive really locks, waits, and releases",
 "On every supported platform an exclusive lock excludes every other holder and a shared lock excludes exclusive holders; acquiring waits until the lock is granted or returns the operating system's error, and never reports success without holding it. Unlocking gives the lock up entirely; closing unlocks and always also closes the underlying handle, and returns a non-nil error if either step failed.",
 ["schedules", "configurations", "fault_sequences"],
 "all processes, platforms (linux, darwin, windows) and system-call failures",
 "TestLock only opens and closes a lock file: it never calls Lock, LockShared, contends, or fails a call, and runs on one platform.",
 ["lock/file.go", "lock/unix.go", "lock/windows.go"],
 [("flock modes", "lock/unix.go"), ("LockFileEx flags", "lock/windows.go"), ("unlock-then-close", "lock/file.go File.Close")])
prop("L04", "All users of one index root contend on one lock and one set of files",
 "Whoever creates, appends to or reads the index at a given root contends on one and the same lock file, whatever spelling (relative, trailing slash) of the root they were given, and every index file they touch lies under that same root, not under a root remembered from elsewhere. The lock file lies outside the index directory and the library never removes or replaces it.",
 ["configurations", "histories", "inputs"],
 "every spelling of a root path, every working directory, every index that was copied or moved",
 "Tests open every index with the same spelling of the path, and never move one.",
 ["config.go", "index.go", "indexer.go"],
 [("lock path derived from the absolute root", "config.go Config.LockPath, DefaultConfig"), ("data paths derived from IndexRoot", "config.go")])
prop("L05", "A failed create or open leaves no lock or file handle behind",
 "When creating an index, opening one for adding, or opening one for queries returns an error, every lock and every file handle taken by that call has been released before it returns. When it succeeds, every handle it took is either already closed or owned by the returned object and closed by its Close.",
 ["fault_sequences", "inputs"],
 "every failing step (missing, unreadable or malformed file, existing root, failing system call) in each of the opening calls, and every path through the matching Close",
 "No test makes an open fail.",
 ["index.go", "indexer.go", "config.go", "dmd/t.go", "internal/shard/index.go", "internal/shard/indexer.go", "lock/file.go"],
 [("cleanup on error paths", "index.go OpenIndex; indexer.go IndexerFromConfig, openFromConfig")])
# ------------------------------------------------------------- preservation
prop("W01", "Creating an index never damages what already exists at its root",
 "Creating an index fails with an error when its root already exists, and then leaves every file under that root exactly as it was. No file under the root is created, truncated or written before the same call has itself newly created the root directory.",
 ["histories", "inputs", "fault_sequences"],
 "every prior content of the root and every path through creation",
 "Tests only create indexes in fresh directories.",
 ["indexer.go", "internal/shard/indexer.go", "dmd/adder.go"],
 [("exclusive mkdir before any create/truncate", "indexer.go IndexerFromConfig")])
prop("W02", "Appending preserves every record and posting already in the index",
 "Opening an existing index to add documents, adding, and closing never truncates, removes or overwrites stored document records or postings: records and posting data are only ever written at the end of their files, and the only in-place change is filling in the still empty next-link of the last node of a posting list. In particular doc ids and posting counts resume where the previous session stopped.",
 ["histories", "inputs"],
 "every sequence of sessions (create, append, append, ...) and every document set",
 "The only multi-session test appends one record to the document table; no test reopens an index to append.",
 ["dmd/adder.go", "internal/shard/indexer.go", "internal/shard/poster.go"],
 [("append-mode opens", "dmd/adder.go flush"), ("write at end of file, patch the last link", "internal/shard/poster.go flushTo")])
prop("W03", "Querying an index never modifies it",
 "No operation of an index opened for queries (statistics, blotting, queries, lookups, closing) and none of the reading command verbs creates, writes, truncates, renames or removes any file; the only file they may create is the lock file.",
 ["inputs", "histories"],
 "every call sequence on the read API and every invocation of the reading verbs",
 "Tests do not look at the files of an index after querying it.",
 ["index.go", "query.go", "stats.go", "dmd/t.go", "internal/shard/index.go", "cmd/dupi/extract.go", "cmd/dupi/like.go", "cmd/dupi/unblot.go", "cmd/dupi/blot.go", "cmd/dupi/inspect.go"],
 [("read-only opens", "index.go, dmd/t.go, internal/shard/index.go")])
prop("W04", "Removing an index removes exactly its own root, after closing it",
 "Removing an index closes it first and then deletes exactly that index's root directory, nothing else, and returns a non-nil error if closing or deleting failed. No other operation of the library removes files or directories.",
 ["inputs", "histories", "fault_sequences"],
 "every index root and every failing step",
 "No test removes an index through the API.",
 ["remove.go"],
 [("close then RemoveAll(Root)", "remove.go")])
# ------------------------------------------------------------------- errors
prop("E01", "No storage failure is lost while indexing",
 "If any file operation on the index fails while an indexer is created or opened, while documents are added (including in its background workers) or while it is closed, some call on that indexer returns a non-nil error: the constructor, Add, or the final Close. A nil result from Close therefore means that all postings, document records, path names and settings were handed to the operating system without an error.",
 ["fault_sequences", "schedules"],
 "every single failing open/read/write/seek/stat at any point of an indexing session, in any goroutine",
 "No test injects an I/O failure.",
 ["indexer.go", "config.go", "fnames.go", "dmd/adder.go", "internal/shard/indexer.go", "internal/shard/poster.go"],
 [("error returns up to Add and Close", "indexer.go"), ("workers' write errors", "internal/shard/indexer.go Serve")])
prop("E02", "Read failures never pass for empty, short or finished results",
 "If reading any index file fails or finds it truncated or malformed while an index is opened or queried, the call returns a non-nil error that is not the end-of-results marker. End of results is reported only when the posting list really has no further node.",
 ["fault_sequences", "inputs"],
 "every failing or short read at any point of OpenIndex, Query.Get, Query.Next and document loading",
 "Tests only read intact files.",
 ["index.go", "query.go", "fnames.go", "doc.go", "dmd/t.go", "internal/shard/index.go", "internal/shard/posts.go", "internal/shard/read_state.go"],
 [("io.EOF only at the end-of-list link", "internal/shard/posts.go next"), ("wrapping of read errors", "internal/shard/posts.go, index.go docid2Doc")])
prop("E03", "The index verb fails when some given file was not indexed",
 "When a file or directory given to the index command cannot be read, or a document cannot be added, or the index cannot be closed cleanly, the command reports it and ends with a failing status. It never ends successfully after leaving out a (non-hidden) file because of an error.",
 ["fault_sequences", "inputs"],
 "every failing open, read, directory walk step, Add or Close in an invocation of the index verb",
 "The command has no tests.",
 ["cmd/dupi/index.go", "cmd/dupi/dupi.go"],
 [("walk errors collected and returned", "cmd/dupi/index.go doPath, mkWalkFn, Run"), ("log.Fatal on a verb's error", "cmd/dupi/dupi.go main")])
# ------------------------------------------------------------------ formats
prop("F01", "The table of path names is read back exactly as written",
 "The path-name table written when an indexer closes is decoded on the next open, for reading or appending, to the same table: same number of nodes, and for every node the same id, name and parent, and lookups by name continue to find it. The reader consumes exactly the bytes the writer produced, item for item in the same encoding.",
 ["inputs", "histories"],
 "every set of paths (names of any bytes, depth, number) and any number of reopenings",
 "TestFnames round-trips four paths in memory.",
 ["fnames.go", "indexer.go"],
 [("writer", "fnames.go write"), ("reader", "fnames.go breadFnames")])
prop("F02", "Document records are looked up exactly as recorded, under stable ids",
 "For every document added, looking up the id returned when it was recorded yields exactly its path id, start and end offsets, before and after any number of later sessions. Ids are handed out consecutively from 1, are never reused, and the id equals the record's position in the document table; the number of documents reported is the number recorded.",
 ["inputs", "histories", "configurations"],
 "every sequence of adds, flushes (any flush rate) and sessions",
 "TestAdder records five documents with a flush rate larger than that.",
 ["dmd/adder.go", "dmd/t.go", "index.go", "stats.go"],
 [("record writer", "dmd/adder.go Add, flush"), ("record reader", "dmd/t.go Lookup"), ("placeholder record 0", "dmd/adder.go NewAdder")])
prop("F03", "The posting directory is read back with the meaning it was written",
 "For every fingerprint slot, the position of its posting list, its number of postings and its last document id, as saved when the indexer closes, are read back with the same meaning both by queries and by a later append session. All three use the same number of slots, the same order and the same encodings.",
 ["inputs", "histories"],
 "every index content and any number of sessions",
 "TestPosts checks one list in memory and does not use the directory file; no test reopens postings to append.",
 ["internal/shard/indexer.go", "internal/shard/poster.go", "internal/shard/index.go"],
 [("writer", "internal/shard/indexer.go flushIix"), ("append reader", "internal/shard/poster.go initAppend"), ("query reader", "internal/shard/index.go readIix")])
prop("F04", "Posting list nodes: writer, query reader and append reader agree",
 "Every node of a posting list holds a length, delta-encoded ascending document ids and the position of the next node, and the query reader and the append reader find each of these exactly where the writer put them; decoding returns exactly the ids that were appended. A node is never larger than what the readers accept, and a list node is completely written at the end of the file before any link or directory entry refers to it.",
 ["inputs", "histories", "fault_sequences"],
 "every sequence of document ids, every list length and number of sessions, every failing write",
 "TestPosts writes one list of 1311 small deltas through one poster and never reopens it for appending.",
 ["internal/shard/poster.go", "internal/shard/posts.go"],
 [("node writer", "internal/shard/poster.go flushTo, AddPost"), ("query reader", "internal/shard/posts.go readNext"), ("append reader", "internal/shard/poster.go readToLink")])
prop("F05", "An index is always used with the settings it was created with",
 "All settings that determine how documents are split, fingerprinted and sharded are stored with the index when it is closed, completely replacing the stored settings, and opening the index for reading or appending uses exactly the stored values and no defaults. Settings supplied by the caller at creation are the ones used for indexing and stored.",
 ["configurations", "histories"],
 "every configuration, command-line flags or file, and every later session",
 "The tests use one configuration and never read an index back under another default.",
 ["config.go", "index.go", "indexer.go", "token/config.go", "blotter/config.go", "cmd/dupi/index.go"],
 [("Config.Write on Close", "config.go, indexer.go"), ("ReadConfigFromRoot on open", "config.go, index.go, indexer.go")])
# -------------------------------------------------------------- concurrency
prop("C01", "Queries on one open index can run concurrently",
 "Statistics, blotting, queries and document lookups on one open index may run in any number of goroutines without affecting each other: apart from opening and closing, no operation changes any state reachable from the open index or global state, and none depends on or moves a shared file position. Only a query's own cursor and the caller's buffers change.",
 ["schedules"],
 "every interleaving of any number of concurrent queries on one open index",
 "No test runs two queries at once.",
 ["index.go", "query.go", "dmd/t.go", "internal/shard/index.go", "internal/shard/posts.go", "internal/shard/read_state.go"],
 [("positioned reads", "dmd/t.go Lookup, internal/shard/posts.go"), ("per-query read states", "internal/shard/index.go ReadStateForBlotAt")])
prop("C02", "Posting lists receive document ids in ascending order, each id once",
 "For every schedule of the indexing workers, the postings of a document reach the shards only after those of all documents with smaller ids have been stored, and before those of any document with a larger id, so every posting list is strictly ascending. Every document accepted by Add is passed on exactly once under the id recorded for it, so no later document waits for a missing one.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of workers and shards, any number of each, documents with any number of postings including none",
 "The tests index two documents and look at no postings.",
 ["shatter.go", "indexer.go", "internal/shard/indexer.go", "internal/shard/poster.go"],
 [("turn-taking on the last stored id", "shatter.go send"), ("acknowledged hand-over to shards", "shatter.go send, internal/shard/indexer.go Serve"), ("duplicate suppression", "internal/shard/poster.go AddPost")],
 [("mono.docid", "id of the last document whose postings were stored", "shatter.go")])
prop("C03", "Close waits for all accepted documents before it flushes",
 "When Close starts to flush posting lists, every document accepted by Add has been completely tokenized, fingerprinted and stored by the workers, and no worker or shard goroutine touches posting data any more. Close then flushes the postings of every shard and every slot, the document records, the path names and the settings before it returns success.",
 ["schedules", "configurations"],
 "every interleaving of Add, workers, shards and Close; any number of workers and shards",
 "The tests add two small documents; the race detector only sees the schedules that happen.",
 ["indexer.go", "shatter.go", "internal/shard/indexer.go"],
 [("one shutdown request per worker over an unbuffered channel", "indexer.go Close, shatter.go startShatter"), ("acknowledgement after a batch is stored", "internal/shard/indexer.go Serve")])
# ------------------------------------------------------------------- blots
prop("B01", "Index and queries agree on where a fingerprint's postings live",
 "The (shard, slot) a fingerprint is filed under when a document is indexed is the one consulted when that fingerprint is queried, for every fingerprint and every number of shards; a fingerprint reported by extraction, when queried, leads back to the same shard and slot. Splitting and joining fingerprints are inverse to each other on reported fingerprints, and reduction modulo the number of fingerprints never changes shard or slot.",
 ["inputs", "configurations"],
 "all 2^32 fingerprints and all shard counts",
 "No test queries an index.",
 ["shatter.go", "query.go", "index.go", "internal/shard/indexer.go", "post/t.go", "cmd/dupi/like.go", "cmd/dupi/blot.go"],
 [("filing", "shatter.go blot, internal/shard/indexer.go Serve"), ("lookup", "query.go Get"), ("reporting", "query.go fillBlot"), ("API", "index.go SplitBlot, JoinBlot")])
prop("B02", "Queries fingerprint text exactly as indexing did",
 "A document is fingerprinted identically when it is indexed and when it is blotted or searched: the same tokenizer and fingerprint settings (those of the index), each word of the text exactly once and in order, non-words ignored, and one fingerprint for every window of the configured number of consecutive words, beginning with the first full window. No window is skipped and none is produced before it is full.",
 ["inputs", "configurations"],
 "every document and every index configuration",
 "No test compares the fingerprints of indexing and querying.",
 ["shatter.go", "index.go", "indexer.go", "cmd/dupi/like.go", "cmd/dupi/blot.go"],
 [("indexing", "shatter.go do"), ("querying", "index.go BlotDoc, FindBlots, FindBlot")])
prop("B03", "Text reported for a fingerprint is that document's text at that place",
 "When text is located or reported for a fingerprint (by search, unblot, or the offsets of blot) the positions are those of the words of that window in the document, and text is cut out of the loaded data in the coordinates of that data, also for documents that are a part of a larger file. No document, wherever it starts in its file, makes the lookup fail or return text from another place.",
 ["inputs"],
 "every document, start offset and window",
 "No test looks up text, and the tests' documents all start at offset 0.",
 ["index.go", "cmd/dupi/unblot.go", "cmd/dupi/like.go", "cmd/dupi/blot.go"],
 [("window start and end", "index.go FindBlots, FindBlot"), ("cutting text", "index.go FindBlots, cmd/dupi/unblot.go, cmd/dupi/like.go")])
prop("B04", "A fingerprint depends only on the last k words, ignoring case",
 "Once at least k words have been fed (k being the configured window size, times the interleaving), the fingerprint returned for a word depends only on the last k words, compared case-insensitively, and on nothing seen before them, such as earlier documents. With interleaving m it depends only on every m-th of the last words.",
 ["inputs", "histories"],
 "every history of words fed to a fingerprinter before the window",
 "TestCirc feeds seven words to one fingerprinter of size 3.",
 ["blotter/circ.go", "blotter/interleaved.go", "blotter/config.go"],
 [("circular xor", "blotter/circ.go Blot"), ("round robin", "blotter/interleaved.go Blot")])
prop("B05", "Tokens tile the document, words being its maximal letter/digit runs",
 "For every valid UTF-8 document the tokens returned are consecutive, non-overlapping pieces that together cover the whole text, each with its literal bytes and its position counted from the given offset; a token is a word exactly if it is a maximal run of letters and digits. Text that is not valid UTF-8 yields no tokens, and tokens already in the destination are kept.",
 ["inputs"],
 "every byte string and offset",
 "TestToken prints the tokens of one string and checks nothing.",
 ["token/t.go"],
 [("run splitting", "token/t.go Tokenize")])
prop("B06", "A posting keeps the document id and fingerprint it was made from",
 "Packing a document id and a fingerprint slot into a posting and unpacking it returns both unchanged, for all 32-bit values, through every accessor, and postings of different pairs differ.",
 ["inputs"],
 "all pairs of 32-bit values",
 "The packing has no test.",
 ["post/t.go"],
 [("bit packing", "post/t.go Make, Docid, Blot, Split")])
# --------------------------------------------------------------- validation
prop("V01", "Malformed index files give errors, not crashes",
 "Opening or querying an index whose files contain arbitrary bytes never panics, allocates without bound or loops forever because of a length, count, position or id read from a file: every such value is checked against what it indexes, slices or allocates before it is used, and a bad one is reported as an error.",
 ["inputs", "fault_sequences"],
 "every content of every index file",
 "Tests read only files that the same build wrote.",
 ["fnames.go", "internal/shard/posts.go", "internal/shard/poster.go", "internal/shard/index.go", "index.go", "dmd/t.go"],
 [("length and parent checks", "fnames.go breadFnames, internal/shard/posts.go readNext, internal/shard/poster.go readToLink"), ("path id check", "index.go docid2Doc")])
prop("V02", "Unusable settings are rejected before anything is created",
 "Creating an index, or opening one, with settings that cannot work (no or too many shards, no workers, a non-positive flush rate, window length or interleaving, or a window length that does not match the fingerprinter's) returns an error before any index file is created and before any worker is started; it never panics later or hangs. Every consistent setting accepted by the command line is usable, in particular any positive window length.",
 ["configurations"],
 "every combination of settings from flags, configuration files and the API",
 "The tests use one valid configuration.",
 ["config.go", "indexer.go", "index.go", "cmd/dupi/index.go"],
 [("Config.check", "config.go")])
# -------------------------------------------------------------------- query
prop("Q01", "Query results respect the caller's buffers and lose no documents",
 "If the caller supplies a document buffer for a blot, a query fills at most its capacity, in place, never growing or replacing it and never panicking; without one it returns all documents of the blot. Every document returned is the one the posting list names, once, in list order.",
 ["inputs", "histories"],
 "every buffer shape (nil, empty, partly filled, full) and every sequence of query calls",
 "The query test is empty.",
 ["query.go", "blot.go"],
 [("capacity guard", "query.go Get, fillBlot"), ("slot extension", "blot.go Blot.Next")])
prop("Q02", "Extraction visits every shard's blots once, most frequent first",
 "Extraction visits the blots of each shard one after the other in order of decreasing number of documents, starting with the most frequent and advancing a shard by exactly one blot, only when the current one is finished and only that shard; among shards it continues with one that has a most frequent current blot. The end is reported only once no shard has a blot left with more than one document, and again on every later call.",
 ["inputs", "histories", "configurations"],
 "every index content, number of shards, and sequence of calls with any buffers",
 "The query test is empty.",
 ["query.go", "internal/shard/index.go"],
 [("frequency order", "internal/shard/index.go readIix"), ("cursor advance", "query.go advance, Next"), ("choice of shard", "query.go setMax")])
# -------------------------------------------------------------------- attic
prop("A01", "The Bloom filter never denies an element that was added",
 "After adding a value to a filter's set, asking for that value answers yes, whatever was added before or since, for every filter size and number of hashes; every bit position used lies inside the set.",
 ["inputs", "configurations", "histories"],
 "all 32-bit values, sizes, hash counts and histories of adds",
 "TestEstimate and TestTridat sample about 100 random values for one size.",
 ["attic/ibloom/fnv32.go", "attic/bposts.go"],
 [("shared position enumeration", "attic/ibloom/fnv32.go Ones, Add, Has")])
prop("A02", "Trigram codes stay inside the trigram alphabet",
 "Every letter maps to one of the 37 letter classes, and shifting any letter class into any trigram code yields a code below the number of trigrams, forgetting exactly the oldest letter; letters of a code printed and mapped back are unchanged.",
 ["inputs"],
 "all runes, all letter classes and all 16-bit codes",
 "TestTrigram prints the trigrams of one string.",
 ["attic/trigram/t.go"],
 [("Letter, Shift", "attic/trigram/t.go")])
# ---------------------------------------------- stated, not decided statically
prop("N01", "A crash during Close or append leaves the previous index readable",
 "If the process or machine stops at any point while an index is created, appended to or closed, the index can afterwards be opened and contains at least what the last successful Close had stored.",
 ["crash_points"],
 "every crash point of every session",
 "No test crashes.",
 ["indexer.go", "internal/shard/indexer.go", "config.go", "dmd/adder.go"],
 [("none today: files are rewritten in place and not synced", "internal/shard/indexer.go flushIix, config.go Write")])
prop("N02", "Documents sharing a window of words are found as duplicates end to end",
 "Any two added documents that have a run of k consecutive words in common are both returned by a query for the other's text and by extraction at a low enough threshold.",
 ["inputs", "schedules", "histories"],
 "every set of documents and every schedule",
 "No test queries an index with duplicates.",
 ["indexer.go", "shatter.go", "query.go", "index.go"],
 [("whole pipeline", "indexer.go, shatter.go, internal/shard, query.go")])
prop("N03", "Reported statistics equal the true counts, mean and deviation",
 "The statistics reported for an index are those of its posting counts, whatever these are: the number of postings is the sum of the counts of all slots of all shards, the number of blots is 65536 per shard, the mean is their quotient, and the deviation is the square root of the mean squared difference of the counts from that mean (all as real numbers, up to rounding).",
 ["inputs"],
 "every number of shards and every combination of posting counts",
 "No test reads statistics.",
 ["index.go", "stats.go", "internal/shard/index.go"],
 [("Stats", "index.go Stats"), ("sums", "internal/shard/index.go NumPosts, SosDiffs, NumBlots")])
prop("N04", "Query iteration always terminates",
 "Repeatedly asking a query for more results reaches the end after finitely many calls, and every call returns: no turn of a loop of Next or Get leaves everything as it was; a call of Next with room for documents reads on in some posting list or reports the end; and a posting list that a query has read to its end is not read from its start again by that query.",
 ["inputs", "histories"], "every index content and buffer shape", "The query test is empty.",
 ["query.go"], [("cursor advance", "query.go Next, fillBlot, advance"), ("one fingerprint", "query.go Get")])
prop("N05", "Fingerprints are roughly evenly distributed",
 "Over natural text the fingerprints are close to uniformly distributed over the (shard, slot) space.",
 ["inputs"], "natural text corpora", "No test measures a distribution.",
 ["blotter/circ.go"], [("FNV hash", "blotter/circ.go")])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    print(len(P), "properties")
