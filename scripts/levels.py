BASE = ("Sound for the modelled library calls over all paths of the analysed functions "
        "(loops by fixpoint or by the stated number of iterations); trusts the models in "
        "tool/models.go and no aliasing between distinct parameters. What the analysis "
        "cannot resolve is reported as UNDECIDED, not as a violation. ")
CLAIMS = {
"L01": ("lock typestate over all abstract paths of the SSA form", BASE + "Two shards and two workers."),
"L02": ("lock typestate and call-graph reachability", BASE + "Two shards."),
"L03": ("lock typestate for each platform's build of the lock package", BASE + "Linux, darwin and windows sources."),
"F02": ("value numbering of written and read file layouts over unrolled histories", BASE + "Histories of two sessions with up to 5 (thorough: 11) records and six flush rates, plus one symbolic step of Add and any existing file size."),
"B01": ("value numbering of shard and slot per residue class", BASE + "1 to 3 shards (thorough: 1,2,3,4,5,7,8,11), every fingerprint and slot."),
"B04": ("value numbering of the fingerprint over unrolled word sequences", BASE + "Ten combinations of window length and interleaving (1 to 10 words; more in thorough), symbolic words and symbolic earlier state."),
"B06": ("value numbering with range analysis of the packed posting", BASE),
"A01": ("value numbering of set bits and tested bits, loops by fixpoint", BASE + "Every filter size, value and number of hashes."),
"A02": ("interval and value analysis of the letter and trigram codes", BASE),
"L04": ("value numbering of path terms", BASE),
"L05": ("resource typestate on error paths", BASE + "Two shards; every operation in turn is the one that fails."),
"W03": ("effect analysis over all paths of OpenIndex, Close and Stats, and over the call graph of the other operations and verbs", BASE + "Two shards on the path analysis."),
"W04": ("resource typestate at the removal and call-graph reachability of removals", BASE + "Two shards; every operation in turn is the one that fails."),
"W02": ("effect and value analysis of every write of an append session, with the state restored at opening", BASE + "Any existing file contents; two shards, one Add before Close and after."),
"F04": ("value numbering of posting nodes against three readers", BASE + "Lists of up to 4 postings in 3 nodes through the writer (with one failing operation anywhere and a second attempt), 3 steps of the query reader, 3 nodes for the append reader; path conditions of the readers are compared with an enumerated set of well-formed node layouts; node lengths are bounded for every history."),
"F03": ("value numbering of the directory layout round trip", BASE + "The 65536 slots are scaled to 2; the slot count itself is compared as a constant."),
"F01": ("value numbering of path-name tables written and read back", BASE + "Ten tables of up to 9 symbolic names, each written, read, extended, written and read again; integer widths for every value; file and table identity over whole create, append and query sessions."),
"C01": ("effect and ownership analysis of query operations", BASE + "Every exported Index operation but Close, and every operation of what they return, first and second call; each effect is attributed to the allocation it reaches. Effects under a mutex or by sync/atomic are left undecided."),
"V02": ("interval and relational abstract interpretation of settings", BASE + "Fourteen classes of unusable and three of usable settings (intervals and linear relations over all values), through the API, stored settings and the flags of the index verb. Settings outside the classes named usable (more than 256 shards or workers, windows above 65536) may be rejected or accepted."),
"F05": ("dataflow of settings from caller, flags or stored file to their uses and to the stored file", BASE + "Every setting is a symbol over its whole range (interleaving 1 and 2); the stored file must have a key per setting, be replaced as a whole, and hold the settings in use; numbers of shards and workers, the fingerprinter and the tokenizer must be those set. encoding/json is trusted to read back what it wrote for the field types used."),
"B02": ("abstract interpretation of indexing and queries on symbolic token streams", BASE + "Token streams are patterns of words and other tokens (up to 2k+4 tokens), with symbolic words and fingerprints, for windows of 1 to 3 words and interleaving 1 and 2 (thorough: up to 6 words, interleaving 3); two texts in a row for each worker. The words fed, the fingerprints filed, returned and compared, and what the tokenizer is given are compared as values."),
"B03": ("value numbering of text coordinates", BASE + "The positions of words in their document, their lengths and the document's place in its file are symbols; every cut of the text, every position returned or printed, and what Load reads must be that of the window. Windows of 1 to 3 words (thorough: 5)."),
"C02": ("interleaving-aware typestate analysis", BASE + "The worker goroutine is analysed on a document, and at each of its points where another worker can run the next document's worker is analysed from there up to where it blocks or hands postings over; batches, acknowledgements and joined goroutines are counted on every path. 1 and 2 shards (thorough: 3), 4 shapes of text, create and reopen. Two workers at a time; condition variables and mutexes only (other turn-taking is reported as undecided)."),
"C03": ("typestate analysis of Close and its goroutines", BASE + "Close is analysed with the goroutines it starts inlined and their ends followed (send on a channel or WaitGroup.Done, learned by receive or Wait); a worker on the stop request it sends; a shard's goroutine after its acknowledgement. 1 to 3 shards, 1 to 3 workers (thorough: 4), create and reopen; the slots of a shard scaled to 2. A Close that waits in other ways is reported as undecided."),
"E01": ("error-propagation dataflow over the writing side", BASE + "one file operation at a time fails, at every operation reachable from the writing constructors, Add, the shard goroutine storing a batch, and Close; every such path must return an error or leave a state from which every path of Close returns one. 2 shards, flush rate 1 while indexing, buffers of arbitrary length. Exempt: closing handles opened read-only, and stat or open of a file found not to exist. Two failures on one path and short writes without an error are not modelled."),
"E02": ("error-propagation dataflow over the reading side", BASE + "one failing file operation per path of OpenIndex, of the first two documents of an arbitrary posting list, of Doc.Load, Stats, FindBlot and FindBlots; Get and Next are analysed against lists that answer with up to two documents, a failure or their end, with buffers of room -1 (none), 0, 1, 2 and one or two blots. Every failing path must return an error that is not io.EOF itself; the end of a list is reported only where a position is known to be -1; text read up to a limit has its length compared; counts of reads that may be short are used. Wrapped errors count as not io.EOF."),
"E03": ("error-propagation dataflow over the index verb and main", BASE + "the index verb is analysed with its walk callback over two given paths and up to two walk steps each; library calls are summarised by success or failure; one failure per path, of a walk step, a file operation or a library call. A path with a failure must return an error or exit with a failing status; a successful path must have closed its indexer; main must exit with a failing status whenever a verb returns an error. Exempt: the home directory lookup, closing the file that was read, output of messages."),
"Q01": ("dataflow of documents from posting lists to buffers", BASE + "Get and Next (two calls in a row) with buffers of room none, 0 to 3 holding 0 to room documents, one or two blots, 1 and 2 shards; posting lists answer with any of 0 to 3 documents before their end, two ends per path. The buffer keeps its base, is never longer than its room, keeps what it held, and receives exactly the documents read, in order; without a buffer the list is read to its end; slice bounds hold."),
"Q02": ("typestate of a query over per-shard cursors; analysis of the slot ordering", BASE + "1 and 2 shards (thorough: 3), three calls of Next in a row, posting lists with up to 2 documents and 3 ends per path, starting at the first and at the last of the 65536 positions. Every read of a list is that of the current slot of its shard, whose count is shown to be the largest of the current ones; the end is reported only where every current count is known to be at most one (a single document is no duplicate), and again afterwards. The comparison given to package sort is analysed with two slots in both orders. That package sort itself sorts is trusted."),
"B05": ("value numbering of the tokenizer over texts of symbolic runes", BASE + "texts of 0 to 4 runes (thorough: 6), each symbolic and with a symbolic length so that it also stands for a stretch of runes treated alike; destinations that are nil, full, or have room; the tokenizer is the one FromConfig gives for the default configuration. For each path the facts about every rune are decided over all of Unicode, and the tokens must be the maximal runs of letters and digits and of other runes, with their bytes, tags and positions modulo 2^32, after those that were there; texts of up to three runes with one that is no UTF-8 give none. That unicode.IsLetter and IsDigit, and utf8's functions, are what they say is trusted."),
"V01": ("range analysis of values read from files", BASE + "one posting list of any index file (12 turns of every loop one by one, then joined), the first entries of any names file, and the functions that look up a document, load its text, reopen a posting list for appending and open a shard, for any arguments. Every index, slice bound and allocation that depends on a value read from a file must be bounded on its path (allocations by 2^20 or by the size of a file); entries of the names must refer to earlier ones; a loop or a link that continues at a value read must go forward. A bound that is neither shown nor refuted after the first turns of a loop is not judged again. Panics other than these are V02's and E02's."),
"N03": ("value numbering of the statistics as polynomials in the posting counts", BASE + "1 and 2 shards (thorough: 3, 4), symbolic counts; the 65536 slots of a shard, in loops and as factors, are scaled to 2. Each result is compared as a polynomial with rational coefficients (the deviation by its square); a result that differs is shown with counts for which it does. Floating point is taken to be exact."),
"N04": ("progress analysis of the query operations", BASE + "1 and 2 shards (thorough: 3), one buffer without a limit or with room for 0, 1 or 2 documents, up to 3 calls, up to 3 documents and 2 list ends in the whole history, started from the first, the last but one and the last position. That a list itself ends (its links lead forward) is V01; a turn over a loop counter or range that advances is taken to end."),
"W01": ("typestate: mkdir before create", BASE),
}
NA = {
"N01": "crash consistency of the on-disk format is not offered by the code (no sync, no journal); the statement quantifies over crash points of the operating system's cache, which no static argument over this source can establish; it is listed as a wish, not a guarantee",
"N02": "end-to-end recall depends on hash values, thresholds and file contents at run time; the static parts it decomposes into are claimed as B01, B02, B04, B05, F01-F04, C02, C03",
"N05": "a statistical statement about a hash over natural text",
}
