#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "A search returns exactly the documents that match",
 "After any history of indexing, configuration changes and earlier (also failed) searches on one matcher, a search returns each document exactly once if and only if one of its searched fields holds a word whose cheapest edit cost to one of the query words is within the allowed error (one default error for one-letter query words and two for longer ones; always two when dynamic errors are off). "
 "Nothing is missed, duplicated or invented however often the index's backing storage has grown and moved, whatever the clock says, and whichever recoverable resource failures the search itself met.",
 ["histories", "inputs", "fault_sequences", "configurations"],
 "every sequence of index/configure/search calls by interleaved clients, every storage relocation, every failed search that is repeated, both letter widths and both hash table back ends",
 "The tests index two to four documents with ASCII words and run one query each; no test grows the storage past its first size after documents were found, mixes histories, or repeats a query after a failure.",
 ["src/Matcher.cc", "src/LevenshteinIndex.cc", "src/Trie.cc", "src/WordStore.cc", "src/SearchParameters.cc"],
 [("per-field fuzzy index plus reverse index from (field, word) to documents", "src/Matcher.cc: buildIndexes, matchIndexes, gatherMatchedDocuments"),
  ("offset-based trie that survives remapping", "src/Trie.cc: append, expand, addNewSibling"),
  ("error budget per query word", "src/SearchParameters.cc: getDynamicError")],
 [("reverse index", "(field, word) -> set of documents", "src/Matcher.cc ReverseIndex")],
 ["Matcher::match", "Matcher::index"])

prop("C02", "Relevancy follows the stated rule and orders the results",
 "For every history of indexing and configuration, the relevancy of a returned document is the sum, over each distinct (searched field, indexed word) pair that matches the query and occurs in the document, of 100/(100+cheapest error) times (1 - occurrences of the word in that field / (occurrences of the field's most common word + 1)) times the field's current weight (1 unless set). "
 "Results are reported in non-increasing relevancy, so a lower error, a rarer word or a heavier field never lowers a document.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "every history of index batches, weight changes, cost changes and searches, under every storage layout and masked resource failure",
 "Tests compare at most the order of two to four documents for one fixed weight; occurrence counts that accumulate over several index calls, weight changes between searches and ties are not reached.",
 ["src/Matcher.cc", "src/LevenshteinIndex.cc", "src/IndexWeights.cc", "src/MatchResults.cc"],
 [("relevancy formula", "src/Matcher.cc: calculateRelevancy"), ("best error per matched word", "src/Matcher.cc: addMatches"), ("counts per field", "src/LevenshteinIndex.cc: insertWord"), ("lazy stable sort", "src/MatchResults.cc: sortIfRequired")],
 [("occurrence counts", "times each word was added to a field, and the largest such count", "src/LevenshteinIndex.cc wordCounts, maxCount")],
 ["MatchResults::getRelevancy", "MatchResults::getDocumentID"])

prop("C03", "Fuzzy word lookup is exact, complete and minimal-cost",
 "For any set of words added in any order with any repetitions, and any configured insertion, deletion, end-deletion, start-insertion, transposition and letter-pair costs (non-negative), a fuzzy lookup with a maximum error reports every indexed word whose cheapest alignment (optimal string alignment with adjacent transposition) costs at most that maximum, reports it once, with exactly that cost, in non-decreasing cost order, and reports nothing else. "
 "The occurrence count of each word, the largest count and the number of distinct words always equal what was successfully added, also across storage growth and additions that failed.",
 ["histories", "inputs", "fault_sequences"],
 "every order and multiplicity of additions, every cost table, every query and maximum, every storage growth point and failed addition",
 "The tests use fewer than five words per index and default costs; pruning, growth, long words and cheap transpositions are not combined.",
 ["src/LevenshteinIndex.cc", "src/ErrorMatrix.cc", "src/Trie.cc", "src/IndexMatches.cc"],
 [("depth-first dynamic programming over the trie with row-minimum pruning", "src/LevenshteinIndex.cc: findWords, searchRecursive, findOptimalError"), ("matrix sized by longest word", "src/LevenshteinIndex.cc: longestWordLength"), ("sorting", "src/IndexMatches.cc: sort")],
 [("longest word", "bounds the rows of the cost matrix", "src/LevenshteinIndex.cc")],
 ["LevenshteinIndex::findWords", "LevenshteinIndex::wordCount", "LevenshteinIndex::maxCount", "LevenshteinIndex::numWords", "IndexMatches"])

prop("C04", "Word identities are unique, stable and reversible",
 "Over any history of lookups and registrations, including registrations that failed because memory or backing storage ran out at any point, each distinct word has exactly one identity, no two words ever share one, and an identity once handed out never changes and always maps back to precisely the word it was handed out for. "
 "Asking whether a word or identity is known answers yes exactly for those successfully registered (a failed registration may or may not count for that one word), and a failed registration succeeds when repeated after the fault is gone.",
 ["histories", "fault_sequences", "inputs"],
 "every registration history and every failing allocation or storage call inside a registration",
 "The test registers three words without any failure and without one storage growth.",
 ["src/WordStore.cc", "src/Trie.cc"],
 [("trie holds word -> id, vector holds id -> trie node", "src/WordStore.cc: getID"), ("getWord walks parents back to the root", "src/Trie.cc: getWord")],
 [("wordIndex", "id -> trie node; its size is the next id", "src/WordStore.cc")],
 ["WordStore::getID", "WordStore::getWord", "WordStore::hasWord"])

prop("C05", "Backing-store failures are reported and lose nothing already stored",
 "If creating, growing or remapping the temporary backing storage fails at any point (no descriptors, disk full, I/O error, no address space), the operation in progress ends with an error report and the process keeps running: everything acknowledged earlier remains stored and is found with the same identity and the same cost as before. "
 "Once the failure condition is gone (for instance because another index was destroyed and its storage given back), repeating the failed operation succeeds.",
 ["fault_sequences", "histories", "crash_points"],
 "every storage call (create, truncate, map, unmap, advise) in every operation, transient or persistent failure, every simulated disk quota",
 "No test makes a storage call fail; the growth path is not even reached by most tests.",
 ["src/Trie.cc", "src/WordStore.cc", "src/LevenshteinIndex.cc", "src/Matcher.cc"],
 [("growth by truncate and remap", "src/Trie.cc: expand"), ("link a new node only after all appends succeeded", "src/Trie.cc: addNewSibling")],
 [("map/header pointers", "current mapping of the storage file", "src/Trie.cc TriePrivate")],
 ["WordStore", "LevenshteinIndex", "Matcher", "tmpfile/ftruncate/mmap/munmap seam"])

prop("C06", "Running out of memory never crashes or corrupts",
 "If any memory allocation made by the library fails, at any point of any operation, the operation reports the failure by an exception derived from std::exception (or masks it and returns its correct result), and the process does not crash, abort or touch released memory. "
 "Every object involved stays usable and destructible: other objects and previously acknowledged content are unchanged, and repeating the operation after memory is available again gives the same result as if the failure had never happened (for an interrupted indexing or accent loading: as stated by C14 and C12).",
 ["fault_sequences", "histories", "crash_points"],
 "every allocation inside every public operation, single and persistent failures, every history before and after",
 "No test makes an allocation fail.",
 ["src/Word.cc", "src/WordList.cc", "src/Document.cc", "src/Corpus.cc", "src/MatchResults.cc", "src/Matcher.cc", "src/WordStore.cc", "src/LevenshteinIndex.cc", "src/ErrorMatrix.cc", "src/ErrorValues.cc", "src/ColumbusHelpers.cc", "src/ResultFilter.cc", "src/SearchParameters.cc", "src/IndexWeights.cc"],
 [("allocate before releasing or changing", "src/Word.cc: duplicateFrom; src/WordStore.cc: getID; src/WordList.cc, src/Document.cc assignment")],
 [], ["all public classes", "operator new / strdup seam"])

prop("C07", "Everything acquired is released",
 "When all objects a program created are destroyed, the library has released all the memory, file descriptors, storage mappings and character-conversion handles it acquired, whatever operations were performed and whichever of them failed, including object constructions that failed. "
 "Nothing is released twice.",
 ["histories", "fault_sequences", "crash_points"],
 "every history of creations, operations, failures (invalid text, memory, storage, conversion) and destructions",
 "The tests are not run under a leak checker and contain no failing storage, memory or conversion call; mapped pages and descriptors are invisible to them.",
 ["src/Trie.cc", "src/ColumbusHelpers.cc", "src/Word.cc", "src/ErrorMatrix.cc", "src/Matcher.cc", "src/WordList.cc", "src/Document.cc", "src/MatchResults.cc", "src/ColumbusCAPI.cc"],
 [("destructors", "src/Trie.cc: ~Trie; src/Matcher.cc: ~Matcher"), ("cleanup on conversion failure", "src/ColumbusHelpers.cc: utf8ToInternal, split")],
 [], ["operator new/delete, malloc/free, tmpfile/fclose, mmap/munmap, iconv_open/iconv_close seams"])

prop("C08", "Searching is observably read-only",
 "Searches never change what any later search on the same matcher returns: in any interleaving of searches by several clients, with any filters (also naming unknown fields or words), parameters, online searches and failed or rejected searches, each search returns the same documents with the same relevancies in the same order, or the same kind of error, as if the other searches had not been made. "
 "Searches do not modify the query, the parameters or the configuration they are given.",
 ["histories", "schedules", "fault_sequences"],
 "every interleaving of search calls of several clients and indexers on one matcher, including searches that fail half way",
 "The tests run at most a handful of searches on a matcher and never compare one with and without others before it.",
 ["src/Matcher.cc", "src/WordStore.cc", "src/MatchResults.cc"],
 [("results are built in local objects", "src/Matcher.cc: match, relevancyMatch, onlineMatch"), ("filter evaluation only looks words up", "src/Matcher.cc: subtermsMatch")],
 [("word store", "must not learn words from queries", "src/Matcher.cc MatcherPrivate::store")],
 ["Matcher::match", "Matcher::onlineMatch"])

prop("C09", "Incremental indexing equals indexing everything at once",
 "Indexing documents in any number of batches, with searches in between and with every corpus, document, word list and word destroyed or changed after its batch was indexed, leaves the matcher answering every search and online search exactly as if all documents had been indexed in one corpus in the same order. "
 "For documents with distinct identities the order of documents does not matter either, apart from the order of equally relevant results and rounding.",
 ["histories", "schedules"],
 "every split of a document sequence into batches, every placement of searches and destructions between them, every reordering",
 "Each test indexes one corpus once.",
 ["src/Matcher.cc", "src/LevenshteinIndex.cc", "src/Corpus.cc", "src/Document.cc"],
 [("index only adds to existing per-field structures", "src/Matcher.cc: buildIndexes, addToIndex"), ("corpus and documents are deep copies", "src/Corpus.cc, src/Document.cc")],
 [], ["Matcher::index", "Matcher::match", "Matcher::onlineMatch"])

prop("C10", "Objects used by different threads do not interfere",
 "Threads that each use their own matchers, indexes and values, possibly reading the same unchanging words, word lists, documents and corpora, obtain under every interleaving of their steps precisely the results each would obtain alone. "
 "No call on one object reads or writes, without synchronisation, mutable state that a call on an unrelated object (or a read-only call on a shared value) also uses.",
 ["schedules", "fault_sequences"],
 "every interleaving, down to single memory accesses, of library calls of several threads on disjoint objects and shared immutable inputs",
 "All tests are single-threaded.",
 ["src/ColumbusHelpers.cc", "src/Word.cc", "src/Matcher.cc", "src/LevenshteinIndex.cc", "src/Trie.cc", "src/ErrorValues.cc", "src/MatchResults.cc"],
 [("no mutable static or shared state; values are deep copies", "all of src/")],
 [], ["memory-access, allocation and system-call yield points of the simulator"])

prop("C11", "Results depend only on the call history, not on the environment",
 "Two executions of the same sequence of library calls return identical results, relevancies, orders and errors even if they differ in the wall clock (including backward jumps and long pauses inside a call), in the contents of fresh memory, in where memory and storage mappings are placed, and in whether advisory memory hints are honoured. "
 "The hash table back end and, for text in the Basic Multilingual Plane, the letter width chosen at build time do not change results either.",
 ["schedules", "configurations", "histories", "inputs"],
 "every clock behaviour, allocator and mapping layout, memory garbage and build variant, for every call history",
 "Tests run once in one environment and mostly compare sets or the first result.",
 ["src/Matcher.cc", "src/Trie.cc", "src/ColumbusHelpers.cc", "src/ErrorMatrix.cc", "src/MatchResults.cc"],
 [("timestamps only feed debug output", "src/Matcher.cc: index, relevancyMatch"), ("ordered maps for accumulation", "src/Matcher.cc: BestIndexMatches, docs")],
 [], ["gettimeofday/clock seam, allocator seam, mmap placement seam"])

prop("C12", "Accent tables are loaded completely or the failure is reported",
 "Loading the accented-letter groups either puts every group of the data file into effect (each pair of letters on one line gets the group error, letters on no common line keep their cost) or reports an error by exception: a missing, unreadable or malformed file, or a read error at any position, is never taken for success, while short reads and interrupted system calls are harmless. "
 "After a failed load the cost table is still coherent, holds no cost the file does not define, and after clearing it a repeated load succeeds once the fault is gone.",
 ["fault_sequences", "inputs", "crash_points"],
 "every read position and kind of failure (open, stat, read error, short read, EINTR, truncation at every byte, memory), every data directory setting",
 "One test loads the intact file once; no test makes a read fail or truncates the file.",
 ["src/ErrorValues.cc", "src/ColumbusSlow.cc", "share/latinAccentedLetterGroups.txt", "share/greekAccentedLetterGroups.txt"],
 [("file lookup by environment variable", "src/ColumbusSlow.cc: findDataFile"), ("line loop", "src/ErrorValues.cc: addAccents")],
 [("group tables", "letter -> group, group -> error, fast table", "src/ErrorValues.cc ErrorValuesPrivate")],
 ["ErrorValues::addAccents", "ErrorValues::getSubstituteError", "ErrorValues::isInGroup"])

prop("C13", "The C interface contains every failure and mirrors the C++ interface",
 "No C function ever lets an exception escape or ends the process: under any memory, storage, conversion or data-file failure, and for out-of-range positions or malformed text, constructors return NULL, searches return NULL, and accessors return their documented neutral value (0, the invalid document id, -1.0, 1.0). "
 "When nothing fails, every C call has the same effect and returns the same value as its C++ counterpart, and conversion to UTF-8 never writes outside the caller's buffer.",
 ["fault_sequences", "histories", "inputs"],
 "every C call sequence with every failing allocation, storage or conversion call, every index and buffer size",
 "The C test makes one successful pass and never looks at relevancies, error values, weights or failures.",
 ["src/ColumbusCAPI.cc", "include/columbus.h", "src/ColumbusHelpers.cc"],
 [("try/catch around every call", "src/ColumbusCAPI.cc")], [], ["col_* functions"])

prop("C14", "Interrupted indexing is repairable and never misleading",
 "If indexing a corpus fails part-way (memory or storage), every document acknowledged earlier is still found by every search that found it before, and searches find a document of the failed corpus only through words it really contains in that field. "
 "Searches keep working in that state without crash or spurious error, and indexing the same corpus again after the fault is gone makes searches find exactly the documents they would have found had the first attempt succeeded.",
 ["crash_points", "fault_sequences", "histories"],
 "every interruption point inside indexing, repeated interruptions, every history before and every retry after",
 "No test interrupts indexing.",
 ["src/Matcher.cc", "src/LevenshteinIndex.cc", "src/WordStore.cc", "src/Trie.cc"],
 [("reverse index is updated last", "src/Matcher.cc: buildIndexes"), ("counts and matrix bounds consistent with trie", "src/LevenshteinIndex.cc: insertWord")],
 [], ["Matcher::index", "Matcher::match"])

prop("C15", "Result filters and excluded fields select exactly as specified",
 "In every history, a filtered search returns precisely those documents of the unfiltered search that satisfy at least one alternative of the filter, where an alternative is satisfied if for each of its (field, word) conditions the document holds that exact word in that field, and an empty alternative is satisfied by every document; their relevancies and order are those of the unfiltered search. "
 "Fields declared non-searching contribute neither documents nor relevancy to that search but still count for filter conditions, and filters and exclusions of one search never affect another.",
 ["histories", "inputs", "schedules", "fault_sequences"],
 "every filter, exclusion set and document history, with indexing and other clients' searches interleaved, and failed searches repeated",
 "The filter test has two documents and conditions that are all on known words; batches, unknown words, multi-condition alternatives over re-indexed documents are not reached.",
 ["src/Matcher.cc", "src/ResultFilter.cc", "src/SearchParameters.cc"],
 [("alternatives of conditions", "src/Matcher.cc: match, subtermsMatch"), ("exclusion", "src/Matcher.cc: matchIndexes")],
 [], ["Matcher::match with SearchParameters"])

prop("C16", "Online search adds exact-match bonuses to the fuzzy relevancy",
 "An online search returns exactly the documents an ordinary search for the same words returns plus those holding a query word verbatim in the primary field, each with its ordinary relevancy plus 2 for each query word found verbatim in the document's primary field plus 100 when all query words are found there and the field's text, as last indexed, has exactly as many words as the query. "
 "Results are in non-increasing relevancy; a primary field name the matcher has never seen is rejected with an invalid-argument error and nothing else is.",
 ["histories", "inputs", "fault_sequences"],
 "every history of batches, re-indexed documents, searches and failures, every query and primary field",
 "Tests check the first result of five small one-batch corpora; re-indexing, repeated query words, other fields, growth and failures are not reached.",
 ["src/Matcher.cc"],
 [("exact counting", "src/Matcher.cc: countExacts, onlineMatch"), ("recorded field lengths", "src/Matcher.cc: buildIndexes originalSizes")],
 [("field lengths", "(document, field) -> number of words", "src/Matcher.cc originalSizes")],
 ["Matcher::onlineMatch"])

prop("C17", "Result collections keep every entry and stay ranked",
 "Over any interleaving of adding single results, merging and copying collections, copying one entry by its reported position, assigning, moving and reading, a result collection holds exactly the entries added, reads them in non-increasing relevancy with equally relevant entries in the order they were added, and reading never changes its content. "
 "Copies are independent, an out-of-range position is reported as an out-of-range error, and a failed or memory-starved operation leaves the collections involved as they were.",
 ["histories", "fault_sequences"],
 "every operation history on several collections, every failing allocation, including the temporary buffers used when sorting",
 "The test adds three results and reads the first; merging, copying by position, interleaved reads and additions, and ties are not tested.",
 ["src/MatchResults.cc"],
 [("lazy stable sort on first read", "src/MatchResults.cc: sortIfRequired"), ("dirty flag on every modification", "src/MatchResults.cc: addResult, addResults, copyResult")],
 [("sorted flag", "false iff an entry was added since the last sort", "src/MatchResults.cc")],
 ["MatchResults"])

prop("C18", "Values own their content and failed changes leave them intact",
 "Words, word lists, documents and corpora own their content: in any history of copying, moving, assigning, modifying and destroying such values, changing or destroying one never changes another, and each reads back precisely what was last successfully put into it. "
 "If an assignment or addition fails (text with whitespace, text that is not UTF-8, memory, conversion resources), the target holds its previous content or, for a word assigned from text, is empty, and is fully usable; every other value is unchanged.",
 ["histories", "fault_sequences"],
 "every history of value operations over pools of aliased and copied values with failing allocations, conversions and rejected text",
 "The tests copy and assign single values successfully; the one failing assignment is not followed by any use of the target.",
 ["src/Word.cc", "src/WordList.cc", "src/Document.cc", "src/Corpus.cc", "src/ColumbusHelpers.cc"],
 [("deep copies", "src/Word.cc: duplicateFrom; src/WordList.cc; src/Document.cc"), ("allocate before release", "assignment operators")],
 [], ["Word", "WordList", "Document", "Corpus"])

prop("C19", "Text input is tokenised exactly or rejected without trace",
 "Any byte string offered as text (torn, corrupted or intact) is either tokenised into precisely its maximal runs of bytes without space, tab, newline or carriage return, each decoded from UTF-8 and lower-cased letter by letter, or, if any run is not valid UTF-8 or the conversion resource cannot be obtained, rejected with an exception. "
 "A rejected text leaves the document, list, matcher or process it was offered to exactly as it was, and a search for a rejected query text changes nothing.",
 ["inputs", "fault_sequences", "histories"],
 "every byte string reached by truncating, flipping or splicing bytes of valid text at any position, every failure of the converter, at any point of a history",
 "The tests tokenise a dozen well-formed strings; no malformed byte sequence and no converter failure is tested.",
 ["src/ColumbusHelpers.cc", "src/Word.cc", "src/Document.cc"],
 [("split on ASCII whitespace bytes then convert", "src/ColumbusHelpers.cc: split, utf8ToInternal"), ("validation", "src/Word.cc: convertString")],
 [], ["splitToWords", "Word", "Document::addText", "Matcher::match(text)"])

prop("C20", "Substitution costs stay coherent through any configuration history",
 "After any history of setting letter-pair costs and letter groups, loading built-in tables and clearing, the substitution cost is the same in both directions, zero for a letter with itself, the value last set for a pair set explicitly, the group error for two letters of one group without an explicit cost, and otherwise the default, whatever the letters' code points. "
 "A group definition that is rejected (a letter already belongs to another group) or that runs out of memory changes no cost and no group membership, and clearing restores the initial table.",
 ["histories", "fault_sequences", "inputs"],
 "every history of table operations over letters on both sides of the fast-table boundary, with rejected definitions and failing allocations",
 "Tests set one pair per table and never define conflicting groups or fail an allocation.",
 ["src/ErrorValues.cc"],
 [("fast table for small code points, maps for the rest", "src/ErrorValues.cc: getSubstituteError, substituteErrorSlow, addToLUT"), ("conflict check", "src/ErrorValues.cc: setGroupError")],
 [("lut / singleErrors / groupMap", "three representations of one cost function", "src/ErrorValues.cc ErrorValuesPrivate")],
 ["ErrorValues::getSubstituteError", "ErrorValues::isInGroup"])

# Not simulation targets -------------------------------------------------------
prop("C21", "Words round-trip through UTF-8 and fold case consistently",
 "Converting a valid whitespace-free UTF-8 string to a word and back yields its letter-wise lower-cased form, and doing it again changes nothing.",
 ["inputs"], "every Unicode string", "Three strings are tested.",
 ["src/Word.cc", "src/ColumbusHelpers.cc"], [("iconv and ICU", "src/ColumbusHelpers.cc")], [], ["Word::asUtf8"])
prop("C22", "Word ordering, equality and hashing are mutually consistent",
 "Word order is a strict total order consistent with equality, and equal words have equal hashes.",
 ["inputs"], "every pair and triple of words", "A dozen pairs are tested and hashing is not.",
 ["src/Word.cc"], [("operator<, operator==, hash", "src/Word.cc")], [], ["Word"])
prop("C23", "Built-in keyboard and number-pad tables are geometrically faithful",
 "Adjacent keys of the built-in keyboard and number-pad layouts get the typo cost and all other pairs keep the default.",
 ["inputs"], "every pair of keys", "Five pairs are tested.",
 ["src/ErrorValues.cc"], [("addKeyboardErrors, addNumberpadErrors", "src/ErrorValues.cc")], [], ["ErrorValues::getSubstituteError"])
prop("C24", "Python bindings mirror the C++ interface and keep owners alive",
 "Each Python method behaves as its C++ counterpart, errors become Python exceptions, and objects returned by reference keep their owner alive.",
 ["programs"], "every Python program using the module", "Twenty small Python tests.",
 ["python/columbus.cc"], [("Boost.Python policies", "python/columbus.cc")], [], ["columbus module"])
prop("C25", "Search cost grows moderately with the index",
 "A search examines only index branches that can still be within the error limit, so that cost grows sub-linearly with the number of indexed words.",
 ["inputs"], "every index and query", "The scalability test is disabled and checks nothing.",
 ["src/LevenshteinIndex.cc", "src/Trie.cc"], [("row-minimum pruning", "src/LevenshteinIndex.cc: searchRecursive")], [], ["LevenshteinIndex::findWords"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
