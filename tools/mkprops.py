#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=hook)))

prop("C01", "Error-tolerant word search is exact",
 "For every set of indexed words, query word, cost configuration and error limit, a search returns every indexed word whose weighted optimal-string-alignment (Damerau-Levenshtein) distance from the query is at most the limit, each exactly once and with exactly that distance, and nothing else. "
 "The distance is the cheapest alignment built from per-letter-pair substitution costs (0 for equal letters), the insertion cost for a surplus query letter, the deletion cost for a missing query letter (the end-deletion cost once the query is used up; for missing letters before the first query letter the start-insertion cost if the query is at least the substring start limit long, otherwise the insertion cost) and the transposition cost for two adjacent swapped letters. "
 "Results come in non-decreasing order of distance, and successive searches into one result object accumulate until it is cleared.",
 ["inputs", "configurations", "histories"],
 "all dictionaries (incl. duplicates, prefixes, letters inside and outside the fast letter table, surrogate pairs), all queries incl. empty, all non-negative cost settings, all limits, searches interleaved with insertions",
 "The tests search ten hand-picked words with one or two queries each, mostly with all costs equal; pruning, substring mode and custom costs interact over the whole input space.",
 ["src/LevenshteinIndex.cc", "src/ErrorMatrix.cc", "src/ErrorValues.cc", "src/Trie.cc", "src/IndexMatches.cc"],
 [("row-by-row edit matrix shared along a depth-first trie walk", "LevenshteinIndex::searchRecursive, findOptimalError"),
  ("subtree pruning on the row minimum", "LevenshteinIndex::searchRecursive"),
  ("matrix border initialisation", "LevenshteinIndex::findWords, ErrorMatrix::ErrorMatrix")],
 [dict(name="edit matrix", meaning="distance of every query prefix from the current trie path", where="ErrorMatrix::m")],
 ["LevenshteinIndex::findWords", "IndexMatches::getMatch/getMatchError"])

prop("C02", "Document match returns exactly the right documents and relevancies",
 "A match returns exactly the documents that contain, in some indexed field, a word within the error limit of some query word (limit 100 for query words shorter than two letters in dynamic mode, otherwise 200), each document once. "
 "Its relevancy is the sum over the distinct matched (field, word) pairs it contains of 100/(100+smallest distance to any query word) x (1 - occurrences of the word in the field/(occurrences of the field's most frequent word + 1)) x the weight of the field (1 unless set), where occurrences count every time the word was indexed in that field. "
 "Documents come in non-increasing order of relevancy, and the C-string, string and word-list forms of the query give the same result; an empty query matches nothing.",
 ["inputs", "configurations", "histories"],
 "all corpora (repeated words, repeated document ids, several index calls), weights, cost settings, queries with duplicates or empty words",
 "MatcherTest checks a few tiny corpora and mostly only which document comes first; relevancy values are never compared with anything.",
 ["src/Matcher.cc", "src/MatchResults.cc", "src/IndexWeights.cc", "src/LevenshteinIndex.cc", "src/SearchParameters.cc"],
 [("best error per (field, word)", "addMatches in Matcher.cc"), ("relevancy sum", "calculateRelevancy, gatherMatchedDocuments"), ("reverse index", "ReverseIndex")],
 [dict(name="reverse index", meaning="documents containing a word in a field", where="MatcherPrivate::reverseIndex")],
 ["Matcher::match", "MatchResults"])

prop("C03", "Filters and non-searching fields restrict matches exactly",
 "A match with a result filter returns exactly those documents of the unfiltered match that satisfy the filter - a disjunction of terms, each a conjunction of (field, word) pairs that the document must literally contain in that field; a term without pairs is satisfied by every document - with unchanged relevancies and non-increasing relevancy order. "
 "Fields marked non-searching contribute no matched words and no relevancy, but can still be used in filters.",
 ["inputs", "configurations"],
 "all corpora, queries, filters (empty terms, unknown or empty fields and words, repeated pairs) and sets of non-searching fields",
 "ResultFilterTest uses two documents and five filters; SearchParametersTest one non-searching field.",
 ["src/Matcher.cc", "src/ResultFilter.cc", "src/SearchParameters.cc"],
 [("disjunctive filter loop", "Matcher::match"), ("conjunction", "subtermsMatch"), ("non-searching test", "matchIndexes")],
 None, ["Matcher::match(query, SearchParameters)"])

prop("C04", "Online match scores literal hits in the primary field on top of fuzzy ones",
 "For a known primary field, an online match returns exactly the documents of the plain default match plus those containing at least one non-empty query word literally in the primary field. "
 "A document's relevancy is its plain relevancy (0 if absent there) plus 2 for each query word position whose word it contains literally in the primary field, plus 100 if all query positions were found and their number equals the length of the document's primary field text as last indexed, and documents are ordered by non-increasing relevancy. "
 "A primary name that was never indexed as a field or as text is rejected with an invalid-argument exception, and an empty query matches nothing.",
 ["inputs", "histories"],
 "all corpora, queries (duplicates, unknown and empty words), primary fields, re-indexed documents",
 "MatcherTest runs seven online matches and checks only the first document or the result count.",
 ["src/Matcher.cc"],
 [("exact count accumulation", "countExacts"), ("perfect match bonus", "Matcher::onlineMatch"), ("original field sizes", "MatcherPrivate::originalSizes")],
 [dict(name="originalSizes", meaning="length of each indexed field text", where="MatcherPrivate::originalSizes")],
 ["Matcher::onlineMatch"])

prop("C05", "Queries have no side effects and indexing order does not matter",
 "Running any sequence of plain, filtered and online queries (including failing ones) never changes the outcome of any later query on that matcher. "
 "Indexing the same documents in one call or several, and in any order (except that texts for one document id keep theirs), gives the same result for every query, and changing the corpus or its documents after indexing has no effect on the matcher.",
 ["histories", "inputs"],
 "all interleavings of queries with index calls, all partitions and permutations of a document set",
 "No test queries a matcher twice with different queries, indexes twice, or permutes documents.",
 ["src/Matcher.cc", "src/WordStore.cc", "src/Corpus.cc", "src/Document.cc"],
 [("lookup-only use of the word store while querying", "subtermsMatch, countExacts, Matcher::onlineMatch"), ("incremental index building", "Matcher::buildIndexes")],
 None, ["Matcher::match", "Matcher::onlineMatch", "Matcher::index"])

prop("C06", "Words accept exactly valid text and render it back, lower-cased, in bounds",
 "Creating a word from UTF-8 succeeds exactly when the bytes are valid UTF-8 without space, tab, newline or carriage return, fails with an exception otherwise, and yields the text with every letter, also outside the basic plane, replaced by its simple lower-case form. "
 "Rendering a word to UTF-8 returns that text, and re-creating a word from the rendering of a word without upper-case letters gives an equal word; a word made from letters is rejected unless they are free of whitespace, null letters and misplaced surrogates. "
 "Rendering into a caller's buffer writes only inside it, leaves it NUL-terminated (if it has any room), and fails with an exception when text plus terminator do not fit.",
 ["inputs"],
 "all byte strings without NUL, all code points, all letter arrays, all buffer sizes",
 "WordTest has a handful of strings, always with a large enough buffer, and three malformed letter arrays.",
 ["src/Word.cc", "src/ColumbusHelpers.cc"],
 [("iconv conversion both ways", "utf8ToInternal, internalToUtf8"), ("validation", "Word::hasWhitespace, Word::hasBrokenSurrogates"), ("lower-casing", "lowerLetter")],
 None, ["Word constructors", "Word::asUtf8", "Word::toUtf8", "Word::operator[]"])

prop("C07", "Words behave as independent immutable values",
 "Through any sequence of constructing, copying, moving, assigning (also from itself, from its own rendering, and failing), joining and destroying words, each word holds exactly the letters a list-of-letters model predicts; a failed assignment leaves the word unchanged or empty, and always usable. "
 "Equality, inequality and less-than form a total lexicographic order on the letters consistent with equality of renderings, equal words have equal hashes, joining concatenates, and reading outside the word throws an out-of-range exception.",
 ["histories", "inputs"],
 "all operation sequences over pools of words of any length including empty and moved-from ones",
 "WordTest performs a dozen assignments in one fixed order and never touches a word after a failed assignment.",
 ["src/Word.cc"],
 [("deep copies", "Word::duplicateFrom"), ("moves", "Word(Word&&), operator=(Word&&)"), ("ordering", "Word::operator<")],
 [dict(name="text/len", meaning="letters and length; must agree", where="Word")],
 ["Word API"])

prop("C08", "Text splits into exactly its whitespace-separated words",
 "Splitting any valid UTF-8 text returns, in order, the maximal runs of characters other than space, tab, newline and carriage return, lower-cased; no empty word, nothing lost, merged or invented. "
 "Invalid UTF-8 in any run makes the split fail with an exception. With a caller-given set of separators (space, tab, newline, carriage return and other ASCII characters) the same holds for that set.",
 ["inputs"],
 "all byte strings without NUL, of any length, with any mix of separators and multi-byte characters",
 "HelpersTest has fourteen texts of at most two short words.",
 ["src/ColumbusHelpers.cc", "src/WordList.cc"],
 [("byte scanner with a reused buffer", "split in ColumbusHelpers.cc")],
 None, ["splitToWords", "Document::addText", "Matcher::match(const char*)"])

prop("C09", "Word store is a stable bijection between words and ids",
 "A word store gives every distinct word, including the empty one, its own id - consecutive numbers from 0 in order of first appearance - and the same id every later time. "
 "At every point of any history every id handed out maps back to an equal word, membership by word and by id is exactly what was stored, lookups store nothing, and an unknown id throws an out-of-range exception, no matter how far the store has grown.",
 ["histories", "inputs"],
 "all insertion/lookup sequences, with prefix-related, very long, non-ASCII and surrogate-bearing words, across many storage growths",
 "WordStoreTest stores two words; the backing storage never grows beyond its first page.",
 ["src/WordStore.cc", "src/Trie.cc"],
 [("trie with parent links in a growable mapped file", "Trie::insertWord, Trie::getWord, Trie::expand"), ("id to node table", "WordStorePrivate::wordIndex")],
 [dict(name="trie", meaning="all stored words", where="TriePrivate::map")],
 ["WordStore::getID/getWord/hasWord"])

prop("C10", "Index membership and occurrence counts track every insertion",
 "After any sequence of insertions (interleaved with searches), an index contains exactly the non-empty words inserted - never a mere prefix or extension of one -, the count of a word id is the number of times it was inserted, the maximum count is the largest of these, and the number of words is the number of distinct ones. "
 "Inserting the empty word changes nothing.",
 ["histories", "inputs"],
 "all insertion sequences with repetition, shared prefixes, long words, many words, and sparse word ids",
 "LevTrieTest inserts at most three words.",
 ["src/LevenshteinIndex.cc", "src/Trie.cc"],
 [("count map and running maximum", "LevenshteinIndex::insertWord"), ("end-of-word marks in the trie", "Trie::insertWord, Trie::hasWord")],
 [dict(name="wordCounts/maxCount", meaning="occurrences", where="LevenshteinIndexPrivate")],
 ["LevenshteinIndex::hasWord/wordCount/maxCount/numWords"])

prop("C11", "Substitution costs follow the configured rules for every letter pair",
 "The substitution cost of two letters is symmetric, 0 for equal letters, otherwise the last error set for that pair (whenever groups were set), otherwise the error of the group containing both, otherwise the default 100 - the same rule for every letter value. "
 "Adding a group that has a letter of another group throws and changes no cost and no group membership; clearing returns every pair to 0 or the default; and no object's settings affect another's.",
 ["histories", "inputs"],
 "all sequences of pair errors, group errors, rejected groups and clears over letters below, at and above the fast-table limit, on several objects",
 "ErrorValuesTest sets one pair error per range and never combines pair and group errors.",
 ["src/ErrorValues.cc"],
 [("lookup table as cache of the rules", "addToLUT, clearLUT, getSubstituteError"), ("rule evaluation", "substituteErrorSlow")],
 [dict(name="lut", meaning="cached cost for letters below 512", where="ErrorValuesPrivate::lut"), dict(name="singleErrors/groupMap", meaning="the rules", where="ErrorValuesPrivate")],
 ["ErrorValues::getSubstituteError", "ErrorValues::isInGroup"])

prop("C12", "Built-in typo, number-pad and accent tables are complete and correct",
 "Keyboard errors set the typo cost 30 for exactly the pairs of keys adjacent on one row or touching on neighbouring rows of the four-row Finnish layout; number-pad errors set cost 0 between a digit and each letter on its key, 50 between a digit and each letter on the keys directly left, right, above and below of it, and nothing else. "
 "Accent loading makes each line of the selected data file one group of cost 30 - in the shipped files each line holds the base letter it belongs to, and the accented letters of Latin-1 and the Greek letters with tonos or dialytika are on the line of their base letter - taken from the directory in COLUMBUS_DATADIR when that is set and not empty (with or without trailing slash). A file that is missing, clashes with an existing group or can not be read completely is reported as an exception and adds no group; the standard set is both accent files plus the keyboard.",
 ["inputs", "configurations"],
 "all letter pairs, all combinations and orders of the table loaders, arbitrary data directories and group files",
 "ErrorValuesTest probes two keyboard pairs, three pad pairs and two accent groups out of some 200 x 200.",
 ["src/ErrorValues.cc", "src/ColumbusSlow.cc", "share/latinAccentedLetterGroups.txt", "share/greekAccentedLetterGroups.txt"],
 [("keyboard rows", "ErrorValues::addKeyboardErrors"), ("pad neighbours", "ErrorValues::addNumberpadErrors"), ("data file lookup", "findDataFile, ErrorValues::addAccents")],
 None, ["ErrorValues::getSubstituteError", "ErrorValues::isInGroup"])

prop("C13", "Match results keep every result, ranked and stable",
 "Through any sequence of adding, bulk-adding, copying single results, copying, moving and assigning result objects, interleaved with reads, each object holds exactly the multiset of (document, relevancy) results a list model predicts. "
 "Reading by position always sees them in non-increasing relevancy with equal relevancies in order of addition; copying the i-th result of another object copies the one that reading position i of it shows, and positions past the end throw an out-of-range exception.",
 ["histories"],
 "all operation sequences over several objects, with ties, infinities, repeated ids and reads at any point",
 "MatchResultsTest adds three results and reads position 0.",
 ["src/MatchResults.cc"],
 [("lazy stable sort on read", "MatchResults::sortIfRequired"), ("dirty flag", "MatchResultsPrivate::sorted")],
 [dict(name="sorted", meaning="whether the vector is in rank order", where="MatchResultsPrivate")],
 ["MatchResults::getDocumentID/getRelevancy/size"])

prop("C14", "Documents, corpora, lists, filters and weights hold exactly what was put in",
 "Through any sequence of building, overwriting, copying, moving and assigning documents, corpora, word lists, result filters, search parameters and index weights, each object reports exactly the content a plain map/list model predicts, and later changes to a source never show in its copies. "
 "Word counts of a document equal the occurrences in its fields, replaced field texts are gone, unset weights are 1, and access to a missing field, position, term or sub-term throws the documented exception and changes nothing.",
 ["histories", "inputs"],
 "all operation sequences over pools of such objects, including self-assignment and moved-from objects",
 "Each container has one short test with fixed content, mostly without copies or overwrites.",
 ["src/Document.cc", "src/Corpus.cc", "src/WordList.cc", "src/ResultFilter.cc", "src/SearchParameters.cc", "src/IndexWeights.cc"],
 [("deep copy of private state", "Document, WordList copy operations"), ("bounds checks", "operator[], getDocument, getField, getWord, numSubTerms")],
 None, ["Document, Corpus, WordList, ResultFilter, SearchParameters, IndexWeights APIs"])

prop("C15", "The C API is equivalent to the C++ API and never lets an error escape",
 "For every document set, field weight, cost mode and query, the C functions give the same word lengths and renderings, weights, documents, order and relevancies as the corresponding C++ calls. "
 "No C++ exception leaves a C function: bad text gives a null handle (or leaves the document, weight or buffer valid, the buffer NUL-terminated within its size), an out-of-range result position gives the invalid document id and relevancy -1, a failed query gives null, and objects passed earlier stay usable.",
 ["inputs", "histories"],
 "all well-formed call sequences with valid and invalid text, buffer sizes and positions",
 "CAPITest builds one corpus and never reads a relevancy, sets a weight or provokes an error.",
 ["src/ColumbusCAPI.cc", "include/columbus.h"],
 [("catch-all wrappers", "every function in ColumbusCAPI.cc")],
 None, ["col_* functions"])

prop("C16", "The Python bindings are equivalent to the C++ API and memory-safe",
 "For every document set, field weight, cost mode and query, the Python classes give the same words, splits, field texts, weights, substitution costs, documents and relevancies as the C++ library, for any Unicode text. "
 "C++ errors arrive as Python exceptions with the interpreter intact, and a word obtained from a list, or a list obtained from a document, keeps its value or tracks its owner safely whatever is done to that owner afterwards.",
 ["inputs", "histories"],
 "all sequences of binding calls, with values held across later mutations and deletion of their owners",
 "pythontest.py makes one call per method on fixed ASCII data; its substitution-cost case fails at the pinned commit.",
 ["python/columbus.cc"],
 [("Boost.Python call policies", "BOOST_PYTHON_MODULE in python/columbus.cc")],
 None, ["import columbus"])

prop("C17", "No API sequence has memory errors, undefined behaviour or assertion failures",
 "Any sequence of public API calls with valid handles and arbitrary text, letters, numbers and positions, and costs from 0 to a million - including calls that fail with an exception - executes without out-of-bounds or use-after-free access, use of uninitialised data, undefined behaviour, failed assertion or abnormal termination.",
 ["inputs", "histories", "configurations"],
 "all call sequences over all classes, in debug and release builds and both letter widths",
 "The tests take mainly success paths and run without any sanitizer.",
 ["src/Word.cc", "src/ColumbusHelpers.cc", "src/Trie.cc", "src/LevenshteinIndex.cc", "src/ErrorMatrix.cc", "src/Matcher.cc", "src/ErrorValues.cc", "src/MatchResults.cc"],
 [("manual buffer handling", "Word, ColumbusHelpers, ErrorMatrix"), ("offset arithmetic in a remapped file", "Trie")],
 None, ["sanitizer and valgrind reports", "process exit status"])

prop("C18", "Everything acquired is released and nothing is left behind",
 "After any sequence of calls, successful or failing (also because memory or a system call failed), destroying the objects returns heap memory, open files and address-space mappings to what they were before. "
 "No file remains on disk, even if the process is killed at any moment.",
 ["histories", "crash_points"],
 "all create/use/destroy cycles with succeeding and failing calls, and all kill points during indexing and searching",
 "The tests never look at descriptors, mappings or leftovers, exit right after use, and never fail a conversion while watching memory.",
 ["src/Trie.cc", "src/ColumbusHelpers.cc", "src/Word.cc", "src/Matcher.cc", "src/LevenshteinIndex.cc"],
 [("destructors", "~Trie, ~LevenshteinIndex, ~Matcher, ..."), ("anonymous temporary file", "Trie::Trie")],
 [dict(name="backing file and mapping", meaning="one per trie", where="TriePrivate::f, map")],
 ["/proc/self/fd", "/proc/self/maps", "allocated bytes and blocks as counted by the sanitizer", "temporary directory"])

prop("C19", "Operating-system failures surface as exceptions and lose nothing",
 "If creating, growing or mapping backing storage, opening a text converter, or allocating memory fails during any call, that call throws (a C function returns its error value) instead of crashing or corrupting anything. "
 "All objects can still be destroyed, words and ids stored before the failure still read back and are still found, and once the fault is gone the same calls succeed again.",
 ["fault_sequences"],
 "every single failure point (each system call and each allocation of a scenario in turn), and random multi-fault sequences",
 "No test injects a failure; the error branches are never executed.",
 ["src/Trie.cc", "src/ColumbusHelpers.cc", "src/Word.cc", "src/Matcher.cc", "src/WordStore.cc", "src/ColumbusCAPI.cc"],
 [("checked system calls", "Trie::Trie, Trie::expand"), ("checked iconv_open", "utf8ToInternal, internalToUtf8")],
 [dict(name="map/h/firstFree", meaning="current mapping", where="TriePrivate")],
 ["exceptions", "later lookups", "sanitizer reports"])

prop("C20", "Threads do not disturb each other through separate or unchanging objects",
 "Threads that each use their own words, documents, corpora, matchers, indexes, stores and error values never race with each other, and each gets exactly the results it would get alone. An object that nobody changes any more (a word, list, document, corpus, index, store, set of costs, weights, parameters, filter, or a ranking that has been read once) can also be read by several threads at once through its const functions: no races, and the same answers as one thread alone gets.",
 ["schedules", "histories"],
 "all interleavings of independent per-thread workloads and of const calls on shared objects",
 "Every test is single-threaded.",
 ["src/Matcher.cc", "src/ErrorValues.cc", "src/Word.cc", "src/ColumbusHelpers.cc", "src/Trie.cc", "src/LevenshteinIndex.cc"],
 [("no mutable shared state; constant tables only", "file-level statics in src/")],
 None, ["ThreadSanitizer", "per-thread results compared with a sequential run"])

prop("C21", "Results do not depend on how the library was built or on its surroundings",
 "For text in the basic multilingual plane, every query, rendering, count, id and error gives identical results in debug and release builds, with 16- and 32-bit letters, and with either hash map implementation. The locale of the C library and of C++, the working directory, the umask, the directory for temporary files and what fresh memory happens to contain do not change them either.",
 ["configurations", "inputs"],
 "all build option combinations (build type, full_unicode, sparse hash) and locales on all inputs",
 "The suite runs in one configuration and one locale only, a debug build with 16-bit letters in the C locale.",
 ["src/Trie.cc", "src/Word.cc", "src/Matcher.cc", "src/LevenshteinIndex.cc", "src/ErrorValues.cc", "include/ColumbusCore.hh.in", "CMakeLists.txt"],
 [("letter type abstraction", "LetterT in ColumbusCore.hh.in"), ("assertions without side effects", "throughout src/"), ("hashmap macro", "Matcher.cc, LevenshteinIndex.cc, MatcherStatistics.cc")],
 None, ["recorded result logs of one workload, compared across builds"])

prop("C22", "The trie stays structurally sound through any history",
 "After any sequence of insertions a walk from the trie's root reaches exactly one node for the root and for each distinct prefix of the inserted words, no more and none twice: the children of a node have different letters, every child's parent is that node, looking a child up among its siblings finds it, and the letters along the path are the prefix. "
 "A node is marked with a word id exactly if a word ends there, reading a node gives the word of its path, finding a prefix gives its node and anything else gives none, the node and word counters equal what the walk meets, and a node keeps its position however far the trie grows.",
 ["histories", "inputs"],
 "all insertion sequences (prefixes, extensions, repeats, long words, many siblings, sparse ids), on several tries at once",
 "TrieTest and LevTrieTest insert a few words and follow one path; no test walks the structure or lets it grow over several pages.",
 ["src/Trie.cc", "include/Trie.hh"],
 [("nodes and sibling lists in a growable mapping", "Trie::append, addNewNode, addNewSibling, expand"), ("upward and downward navigation", "Trie::getParent, getSiblingTo, getWord, findWord")],
 [dict(name="nodes", meaning="word id and parent per prefix", where="TrieNode, TriePtrs"), dict(name="header", meaning="used size, word and node counts", where="TrieHeader")],
 ["Trie navigation functions"])

prop("C23", "Work and memory stay in proportion to the input",
 "Making, rendering, splitting, hashing, storing, indexing, searching, matching, filtering, ranking and reading results take work and memory at most proportional (up to a logarithmic factor) to the size of what they are given or return: letters of text, words, documents, fields, filter terms, query words, results. "
 "Lookups of stored words, ids, counts, costs and ranked results do not slow down as the collection grows, and neither does a search or match whose limit rules out everything beyond the first letters: branches out of reach are not visited.",
 ["inputs", "histories"],
 "all sizes, over an alphabet of bounded size",
 "Functional tests pass however slow the code is, and the scalability test only prints times.",
 ["src/LevenshteinIndex.cc", "src/Matcher.cc", "src/Word.cc", "src/ColumbusHelpers.cc", "src/Trie.cc", "src/WordStore.cc", "src/MatchResults.cc", "src/ErrorValues.cc"],
 [("subtree pruning", "LevenshteinIndex::searchRecursive"), ("hash and tree maps", "ReverseIndex, WordStore, IndexWeights, Word::hash"), ("lazy sorting", "MatchResults::sortIfRequired")],
 None, ["instructions executed", "peak heap and mapped bytes"])
prop("C24", "The command line search tool answers exactly",
 "For every word file (one word per line, of any length, with or without a line break after the last), query and limit, queryindex prints each different word within the limit once, with its error, cheapest first, or that there are no matches. "
 "A malformed word or query, or a file that is missing, makes it end with an exit status other than zero and a message, and nothing makes it crash.",
 ["inputs"],
 "all word files, queries and limits",
 "No test runs the tool.",
 ["tools/queryindex.cc", "src/LevenshteinIndex.cc", "src/WordStore.cc"],
 [("reading, searching and printing", "load_data and queryAndPrint in tools/queryindex.cc")],
 None, ["output lines", "exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
