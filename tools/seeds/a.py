S("c01-sort-flag", "C01",
  [("src/IndexMatches.cc", "    vector<MatchData> matches;\n", "    vector<MatchData> matches;\n    bool sorted = true;\n"),
   ("src/IndexMatches.cc", "    m.error = error;\n    p->matches.push_back(m);\n",
    "    m.error = error;\n    // Matches are often found in order already.\n    p->sorted = p->matches.empty() || error >= p->matches.back().error;\n    p->matches.push_back(m);\n"),
   ("src/IndexMatches.cc", "    std::sort(p->matches.begin(), p->matches.end());\n", "    if(!p->sorted)\n        std::sort(p->matches.begin(), p->matches.end());\n    p->sorted = true;\n")],
  "matches found in an order where the last one added is not smaller than its predecessor but an earlier one is",
  "the flag that says the matches are in order is overwritten by every match instead of being kept false, so results come unordered",
  r'''
int main() {
    LevenshteinIndex ind; ErrorValues e; IndexMatches m;
    ind.insertWord(Word("abcd"), 1); ind.insertWord(Word("bbd"), 2); ind.insertWord(Word("cbd"), 3);
    ind.insertWord(Word("abd"), 4); ind.insertWord(Word("abde"), 5); ind.insertWord(Word("bbde"), 6);
    ind.findWords(Word("abd"), e, 200, m);
    for(size_t i=1; i<m.size(); i++) CHECK(m.getMatchError(i-1) <= m.getMatchError(i));
    IndexMatches n;
    ind.findWords(Word("bbde"), e, 200, n);
    for(size_t i=1; i<n.size(); i++) CHECK(n.getMatchError(i-1) <= n.getMatchError(i));
    IndexMatches o;
    for(const char *q : {"cbd", "abd", "bbd"}) { ind.findWords(Word(q), e, 200, o);
        for(size_t i=1; i<o.size(); i++) CHECK(o.getMatchError(i-1) <= o.getMatchError(i)); }
    return 0;
}''')

S("c01-transpose-default", "C01",
  [("src/LevenshteinIndex.cc", "        transposeError = insertError + 10000; // Ensures this will not be chosen.\n    }\n",
    "        transposeError = insertError + 10000; // Ensures this will not be chosen.\n    }\n    if(query.text[i-1] == letter)\n        return min(substituteError, insertError); // Equal letters, nothing else can be cheaper.\n")
   , ("src/LevenshteinIndex.cc", "int transposeError;\n", "int transposeError = 0;\n")],
  "costs where deleting (or ending) is cheaper than matching equal letters, e.g. a query that repeats a letter with a cheap deletion cost",
  "for equal letters the deletion and transposition alternatives are ignored, so distances come out too large with cheap deletions",
  r'''
int main() {
    LevenshteinIndex ind; ErrorValues e; IndexMatches m;
    e.setDeletionError(5); e.setEndDeletionError(100); e.setInsertionError(100);
    // query "ab" against "aXb.." variants; brute force below
    const char *words[] = {"aab", "abab", "bab", "aabb", "baab", "bba", "abba", "bbab"};
    WordID id = 0;
    for(auto w : words) ind.insertWord(Word(w), id++);
    for(string q : {"ab", "ba", "aba", "bab", "b"}) {
        IndexMatches r;
        e.setStartInsertionError(100);
        ind.findWords(Word(q), e, 1000, r);
        std::map<WordID, int> got;
        for(size_t i=0; i<r.size(); i++) got[r.getMatch(i)] = r.getMatchError(i);
        for(id = 0; id < 8; id++) {
            string w = words[id];
            size_t Q = q.size(), L = w.size();
            vector<vector<int>> d(L+1, vector<int>(Q+1));
            for(size_t i=0; i<=Q; i++) d[0][i] = 100*i;
            for(size_t j=1; j<=L; j++) {
                d[j][0] = 100*j;
                for(size_t i=1; i<=Q; i++) {
                    int b = d[j][i-1] + 100;
                    b = std::min(b, d[j-1][i] + (i >= Q ? 100 : 5));
                    b = std::min(b, d[j-1][i-1] + (q[i-1] == w[j-1] ? 0 : 100));
                    if(i > 1 && j > 1 && q[i-1] == w[j-2] && q[i-2] == w[j-1]) b = std::min(b, d[j-2][i-2] + 100);
                    d[j][i] = b;
                }
            }
            CHECK(got.count(id) && got[id] == d[L][Q]);
        }
    }
    return 0;
}''')

S("c01-long-rows", "C01",
  [("src/LevenshteinIndex.cc", "    size_t longestWordLength; // Longest word", "    uint8_t longestWordLength; // Longest word"),
   ("src/LevenshteinIndex.cc", "        p->longestWordLength = word.length();", "        p->longestWordLength = word.length() < 255 ? word.length() : 254;")],
  "an indexed word of more than 254 letters and a search that follows it that deep",
  "the depth of the trie is kept in one byte, so the edit matrix has too few rows for very long words",
  r'''
int main() {
    string s(700, 'a');
    LevenshteinIndex ind; ErrorValues e; IndexMatches m;
    ind.insertWord(Word(s), 1); ind.insertWord(Word("ab"), 2);
    ind.findWords(Word(s + "b"), e, 200, m);
    CHECK(m.size() == 1 && m.getMatch(0) == 1 && m.getMatchError(0) == 100);
    return 0;
}''', kind="asan")

S("c02-first-wins", "C02",
  [("src/Matcher.cc", """        if(mIt == indexMatches->end()) {
            (*indexMatches)[matchWordID] = matchError;
        } else {
            if(mIt->second > matchError)
                (*indexMatches)[matchWordID] = matchError;
        }
""", """        if(mIt == indexMatches->end()) {
            (*indexMatches)[matchWordID] = matchError; // Matches come in growing error order, first is best.
        }
""")],
  "two query words that match the same indexed word, the worse match first",
  "the error of the first query word is kept instead of the smallest one",
  r'''
int main() {
    Matcher a, b; Corpus c; Document d(1);
    d.addText(Word("f"), "house boat house"); c.addDocument(d);
    a.index(c);
    MatchResults r1 = a.match("houze house"), r2 = a.match("house houze"), r3 = a.match("house");
    CHECK(r1.size() == 1 && r2.size() == 1);
    CHECK(fabs(r1.getRelevancy(0) - r2.getRelevancy(0)) < 1e-9);
    CHECK(fabs(r1.getRelevancy(0) - r3.getRelevancy(0)) < 1e-9);
    return 0;
}''')

S("c02-weight-cache", "C02",
  [("include/Matcher.hh", "    void relevancyMatch(const WordList", "    double weightOf(const WordID indexID);\n    void relevancyMatch(const WordList"),
   ("src/Matcher.cc", "    WordStore store;\n", "    WordStore store;\n    map<WordID, double> weightCache; // Looking up weights by word is slow.\n"),
   ("src/Matcher.cc", "    double indexWeightMultiplier = p->weights.getWeight(p->store.getWord(indexID));\n",
    """    auto cached = p->weightCache.find(indexID);
    if(cached == p->weightCache.end())
        cached = p->weightCache.insert(make_pair(indexID, p->weights.getWeight(p->store.getWord(indexID)))).first;
    double indexWeightMultiplier = cached->second;
"""), ("src/Matcher.cc", "void Matcher::index(const Corpus &c) {\n", "void Matcher::index(const Corpus &c) {\n    p->weightCache.clear();\n")],
  "changing a field's weight after a query, without indexing in between",
  "field weights are cached at the first query and a later setWeight is ignored",
  r'''
int main() {
    Matcher m; Corpus c; Document d(1);
    d.addText(Word("f"), "house"); c.addDocument(d); m.index(c);
    double r = m.match("house").getRelevancy(0);
    m.getIndexWeights().setWeight(Word("f"), 4);
    CHECK(fabs(m.match("house").getRelevancy(0) - 4*r) < 1e-9);
    return 0;
}''')

S("c02-docid-32", "C02",
  [("src/Matcher.cc", "    void add(const WordID wordID, const WordID indexID, const DocumentID id);", "    void add(const WordID wordID, const WordID indexID, const WordID id);"),
   ("src/Matcher.cc", "void ReverseIndex::add(const WordID wordID, const WordID indexID, const DocumentID id) {", "void ReverseIndex::add(const WordID wordID, const WordID indexID, const WordID id) {")],
  "document ids above 2^32 (e.g. pointers used as ids)",
  "the reverse index stores document ids in 32 bits, so large ids are truncated or merged",
  r'''
int main() {
    Matcher m; Corpus c;
    DocumentID big = ((DocumentID)5 << 32) | 9;
    Document d(big), e(9); d.addText(Word("f"), "house"); e.addText(Word("f"), "house");
    c.addDocument(d); c.addDocument(e); m.index(c);
    MatchResults r = m.match("house");
    CHECK(r.size() == 2);
    std::set<DocumentID> s{r.getDocumentID(0), r.getDocumentID(1)};
    CHECK(s.count(big) && s.count(9));
    return 0;
}''')

S("c02-many-words-index", "C02",
  [("src/Matcher.cc", "    } else {\n        target = it->second;\n    }\n    target->insertWord(word, wordID);",
    "    } else {\n        target = it->second;\n    }\n    // Common words are already there, only their first occurrences matter.\n    if(target->wordCount(wordID) < 16 || target->wordCount(wordID) < target->maxCount())\n        target->insertWord(word, wordID);")],
  "one word occurring more than 16 times in a field, more often than any other",
  "occurrences of the most frequent word are no longer counted after the sixteenth, so relevancies of its field are wrong",
  r'''
int main() {
    Matcher m; Corpus c; Document d(1), e(2);
    string t; for(int i=0; i<40; i++) t += "alpha ";
    d.addText(Word("f"), t + "omega"); c.addDocument(d); m.index(c);
    MatchResults r = m.match("omega");
    CHECK(r.size() == 1 && fabs(r.getRelevancy(0) - (1 - 1.0/41)) < 1e-9);
    return 0;
}''')

S("c03-filter-all-terms", "C03",
  [("src/Matcher.cc", """                matchedDocuments.copyResult(allMatches, i);
                break;
""", """                matchedDocuments.copyResult(allMatches, i);
                if(filter.numSubTerms(term) == 0)
                    break; // Everything matches, no need to look further.
""")],
  "a document that satisfies two terms of the filter",
  "a document is returned once for each filter term that it satisfies",
  r'''
#include <SearchParameters.hh>
#include <ResultFilter.hh>
int main() {
    Matcher m; Corpus c; Document d(1);
    d.addText(Word("f"), "house red"); d.addText(Word("k"), "x y"); c.addDocument(d); m.index(c);
    SearchParameters p;
    p.getResultFilter().addNewSubTerm(Word("k"), Word("x"));
    p.getResultFilter().addNewTerm();
    p.getResultFilter().addNewSubTerm(Word("k"), Word("y"));
    CHECK(m.match("house", p).size() == 1);
    return 0;
}''')

S("c03-nosearch-first-word", "C03",
  [("src/Matcher.cc", """            if(params.isNonsearchingField(p->store.getWord(it->first))) {
                continue;
            }
""", """            if(i == 0 && params.isNonsearchingField(p->store.getWord(it->first))) {
                skipped.insert(it->first);
            }
            if(skipped.count(it->first) > 0) {
                skipped.erase(it->first);
                continue;
            }
"""), ("src/Matcher.cc", "    for(size_t i=0; i<query.size(); i++) {\n        const Word &w = query[i];\n        int maxError;\n",
       "    set<WordID> skipped; // Fields not to be searched.\n    for(size_t i=0; i<query.size(); i++) {\n        const Word &w = query[i];\n        int maxError;\n")],
  "a query of at least two words and a non-searching field that matches a word other than the first",
  "non-searching fields are skipped for the first query word only",
  r'''
#include <SearchParameters.hh>
#include <ResultFilter.hh>
int main() {
    Matcher m; Corpus c; Document d(1), e(2);
    d.addText(Word("f"), "house"); e.addText(Word("g"), "mountain"); c.addDocument(d); c.addDocument(e); m.index(c);
    SearchParameters p; p.addNonsearchingField(Word("g"));
    MatchResults r = m.match("house mountain", p);
    CHECK(r.size() == 1 && r.getDocumentID(0) == 1);
    return 0;
}''')

S("c03-filter-field-word", "C03",
  [("src/Matcher.cc", """        bool termFound = p->store.hasWord(value) && p->store.hasWord(filterName) &&
                p->reverseIndex""", """        if(subTerm > 0 && filterName == filter.getField(term, subTerm-1) && value < filter.getWord(term, subTerm-1))
            continue; // Pairs of one field are sorted, seen already.
        bool termFound = p->store.hasWord(value) && p->store.hasWord(filterName) &&
                p->reverseIndex"""), ("src/Matcher.cc", "        if(!termFound) {\n            return false;\n        }\n", "        if(!termFound)\n            return false;\n")],
  "a filter term with two pairs for one field, the second word sorting before the first, and a document that lacks the second",
  "pairs of a term whose word sorts before that of the previous pair of the same field are taken as satisfied",
  r'''
#include <SearchParameters.hh>
#include <ResultFilter.hh>
int main() {
    Matcher m; Corpus c; Document d(1), e(2);
    d.addText(Word("f"), "house"); d.addText(Word("k"), "red"); e.addText(Word("f"), "house"); e.addText(Word("k"), "red blue");
    c.addDocument(d); c.addDocument(e); m.index(c);
    SearchParameters p;
    p.getResultFilter().addNewSubTerm(Word("k"), Word("red"));
    p.getResultFilter().addNewSubTerm(Word("k"), Word("blue"));
    MatchResults r = m.match("house", p);
    CHECK(r.size() == 1 && r.getDocumentID(0) == 2);
    return 0;
}''')

S("c04-size-kept", "C04",
  [("src/Matcher.cc", "            p->originalSizes[lengths] = text.size();\n", "            p->originalSizes.insert(make_pair(lengths, text.size()));\n")],
  "a document indexed again with a primary field text of another length",
  "the length of the first text is kept, so the bonus for a perfect match is decided by an outdated length",
  r'''
int main() {
    Matcher m; Word f("f");
    { Corpus c; Document d(1); d.addText(f, "save file"); c.addDocument(d); m.index(c); }
    { Corpus c; Document d(1); d.addText(f, "save"); c.addDocument(d); m.index(c); }
    CHECK(m.onlineMatch(splitToWords("save"), f).getRelevancy(0) > 100);
    CHECK(m.onlineMatch(splitToWords("save file"), f).getRelevancy(0) < 100);
    return 0;
}''')

S("c04-dedup-query", "C04",
  [("src/Matcher.cc", "        if(w.length() == 0 || !p->store.hasWord(w)) {\n            continue;\n        }\n        WordID curWord = p->store.getID(w);\n",
    "        if(w.length() == 0 || !p->store.hasWord(w)) {\n            continue;\n        }\n        WordID curWord = p->store.getID(w);\n        if(!seen.insert(curWord).second)\n            continue; // Counted already.\n"),
   ("src/Matcher.cc", "    map<DocumentID, size_t> matchCounts;\n    for", "    map<DocumentID, size_t> matchCounts;\n    set<WordID> seen;\n    for")
   , ("src/Matcher.cc", "            matchCounts[i]++; // Default is zero initialisation.\n", "            ++matchCounts[i]; // Default is zero initialisation.\n")],
  "an online query that contains the same word twice",
  "repeated query words are counted once, so a text with a repeated word never matches perfectly and scores too low",
  r'''
int main() {
    Matcher m; Word f("f"); Corpus c; Document d(1);
    d.addText(f, "new new york"); c.addDocument(d); m.index(c);
    MatchResults r = m.onlineMatch(splitToWords("new new york"), f);
    CHECK(r.size() == 1 && r.getRelevancy(0) > 100);
    return 0;
}''')

S("c04-max-not-sum", "C04",
  [("src/Matcher.cc", "        accumulator[docid] += fuzzyResults.getRelevancy(i);\n",
    "        accumulator[docid] += fuzzyResults.getRelevancy(i);\n        if(exactMatched.size() >= 8 && exactMatched.count(docid) == 0)\n            accumulator.erase(docid); // Enough exact matches, don't bother the user with fuzzy ones.\n")
   , ("src/Matcher.cc", "    // Merge in fuzzy matches.\n", "    // Merge in fuzzy matches, unless there are plenty of exact ones.\n")],
  "at least eight documents that match literally and one that only matches with errors",
  "documents that only match approximately are dropped when many match literally",
  r'''
int main() {
    Matcher m; Word f("f"); Corpus c;
    for(int i=0; i<12; i++) { Document d(i); d.addText(f, "save"); c.addDocument(d); }
    Document e(99); e.addText(f, "sale"); c.addDocument(e); m.index(c);
    MatchResults r = m.onlineMatch(splitToWords("save"), f);
    CHECK(r.size() == 13);
    return 0;
}''')

S("c05-query-stored", "C05",
  [("src/Matcher.cc", "        if(w.length() == 0 || !p->store.hasWord(w)) {\n            continue;\n        }\n", "        if(w.length() == 0) {\n            continue;\n        }\n")],
  "an online query with an unknown word, then an online query whose primary field is that word",
  "looking up an unknown query word stores it, so later it passes as a known field instead of being rejected",
  r'''
int main() {
    Matcher m; Word f("f"); Corpus c; Document d(1);
    d.addText(f, "save"); c.addDocument(d); m.index(c);
    THROWS(m.onlineMatch(splitToWords("save"), Word("zzz")));
    m.onlineMatch(splitToWords("save zzz"), f);
    THROWS(m.onlineMatch(splitToWords("save"), Word("zzz")));
    return 0;
}''')

S("c05-sizes-touch", "C05",
  [("src/Matcher.cc", "                && i.matches == p->originalSizes[make_pair(i.id, indexID)]) { // Perfect match.\n            accumulator[i.id] += 100;\n",
    "                && i.matches == p->originalSizes[make_pair(i.id, indexID)]) { // Perfect match.\n            if(p->lastPerfect != i.id || p->lastPerfectSize != query.size())\n                accumulator[i.id] += 100;\n            p->lastPerfect = i.id;\n            p->lastPerfectSize = query.size();\n"),
   ("src/Matcher.cc", "    WordStore store;\n", "    WordStore store;\n    DocumentID lastPerfect = INVALID_DOCID; // Don't show the same thing twice in a row.\n    size_t lastPerfectSize = 0;\n")],
  "asking the same perfect online query twice",
  "the second of two equal online queries gets no bonus for the perfect match, because the first left a mark",
  r'''
int main() {
    Matcher m; Word f("f"); Corpus c; Document d(1);
    d.addText(f, "save as"); c.addDocument(d); m.index(c);
    double a = m.onlineMatch(splitToWords("save as"), f).getRelevancy(0);
    double b = m.onlineMatch(splitToWords("save as"), f).getRelevancy(0);
    CHECK(a == b);
    return 0;
}''')

S("c06-render-size", "C06",
  [("src/Word.cc", "    size_t strSize = 4*(len+1); // One codepoint is max 4 bytes in UTF-8.\n", "    size_t strSize = 2*len + 32; // Most letters need one or two bytes in UTF-8.\n")],
  "a word of more than 31 letters that need three bytes each",
  "the rendering buffer is too small for long words of three-byte letters, so rendering throws",
  r'''
int main() { string s; for(int i=0; i<60; i++) s += "\xe4\xb8\x8d"; CHECK(Word(s).asUtf8() == s); return 0; }''')

S("c07-memcmp-order", "C07",
  [("src/Word.cc", """    for(size_t i=0; i<minLen; i++) {
        if(text[i] < w.text[i])
            return true;
        if(text[i] > w.text[i])
            return false;
    }
    if(w.len > len)""", """    const int order = minLen > 0 ? memcmp(text, w.text, minLen*sizeof(Letter)) : 0;
    if(order != 0)
        return order < 0;
    if(w.len > len)""")],
  "two words that differ first in letters whose low and high bytes order differently (U+0101 against U+0062)",
  "words are ordered by the bytes of their letters, low byte first, which is not the order of the letters",
  r'''
int main() { Word a("\xc4\x81x"), b("b"); CHECK(b < a); CHECK(!(a < b)); return 0; }''')

S("c08-extra-separators", "C08",
  [("src/ColumbusHelpers.cc", "static const Letter whitespaceLetters[] = {' ', '\\t', '\\n', '\\r', '\\0'};\nstatic const int numWhitespaceLetters = 4;",
    "static const Letter whitespaceLetters[] = {' ', '\\t', '\\n', '\\r', '\\v', '\\f', '\\0'};\nstatic const int numWhitespaceLetters = 6;")],
  "a vertical tab or form feed in a text",
  "texts are also split at vertical tabs and form feeds",
  r'''
int main() { WordList l = splitToWords("a\vb c\fd"); CHECK(l.size() == 2); return 0; }''')

S("c08-buffer-edge", "C08",
  [("src/ColumbusHelpers.cc", "        if(wordLen +1 > bufSize) {", "        if(wordLen > bufSize) {")],
  "a run exactly as long as the buffer (one byte longer than the longest so far)",
  "the terminator of a run exactly one byte longer than the longest so far is written behind the buffer",
  r'''
int main() { WordList l = splitToWords("aaaaaaa bbbbbbbb ccccccccc"); CHECK(l.size() == 3 && l[1] == Word("bbbbbbbb")); return 0; }''', kind="asan")

S("c08-short-length", "C08",
  [("src/ColumbusHelpers.cc", "    unsigned int strSize = strlen(utf8Text);\n    size_t begin, end;", "    const uint16_t strSize = strlen(utf8Text);\n    size_t begin, end;")],
  "a text of more than 65535 bytes",
  "long texts are cut at their length modulo 65536",
  r'''
int main() { string s; for(int i=0; i<30000; i++) s += "abc "; CHECK(splitToWords(s.c_str()).size() == 30000); return 0; }''')

S("c09-word-depth", "C09",
  [("src/Trie.cc", "    vector<Letter> letters;\n    vector<Letter> res;\n", "    vector<Letter> letters;\n    vector<Letter> res;\n    size_t depth = 0;\n"),
   ("src/Trie.cc", "    while(parent) {\n        TrieOffset newParent;\n", "    while(parent && ++depth < 1024) { // A corrupted trie must not make this loop for ever.\n        TrieOffset newParent;\n")],
  "a stored word of at least 1024 letters",
  "words read back from the store are cut to their last 1023 letters",
  r'''
int main() { WordStore s; string w; for(int i=0; i<1500; i++) w += char('a' + i%26); WordID id = s.getID(Word(w)); CHECK(s.getWord(id) == Word(w)); return 0; }''')

S("c10-count-16", "C10",
  [("src/LevenshteinIndex.cc", "typedef hashmap<WordID, size_t> WordCount;", "typedef hashmap<WordID, uint16_t> WordCount; // Saves memory."),
   ("src/LevenshteinIndex.cc", "    size_t &count = p->wordCounts[wordID];", "    uint16_t &count = p->wordCounts[wordID];")],
  "a word inserted more than 65535 times",
  "occurrence counts are kept in 16 bits and wrap around",
  r'''
int main() { LevenshteinIndex i; for(int k=0; k<65540; k++) i.insertWord(Word("a"), 1); CHECK(i.wordCount(1) == 65540 && i.maxCount() == 65540); return 0; }''')

S("c10-numwords-prefix", "C10",
  [("src/Trie.cc", "    if (final->word == INVALID_WORDID) {\n        final->word = wordID;\n        p->h->numWords++;\n    }\n",
    "    if (final->word == INVALID_WORDID) {\n        final->word = wordID;\n        if(((TriePtrs*)(final+1))->sibling == 0)\n            p->h->numWords++;\n    }\n")],
  "inserting a word that is a proper prefix of one inserted before",
  "a word that is a prefix of an earlier one is not counted in the number of words",
  r'''
int main() { LevenshteinIndex i; i.insertWord(Word("abc"), 1); i.insertWord(Word("ab"), 2); CHECK(i.numWords() == 2 && i.hasWord(Word("ab"))); return 0; }''')


S("c05-sorted-docs", "C05",
  [("src/Matcher.cc", "typedef hashmap<std::pair<WordID, WordID>, DocumentSet, idhasher > ReverseIndexData; // Index name, word, documents.", "typedef vector<DocumentID> DocumentList; // Sorted.\ntypedef hashmap<std::pair<WordID, WordID>, DocumentList, idhasher > ReverseIndexData; // Index name, word, documents."),
   ("src/Matcher.cc", "        DocumentSet tmp;\n        tmp.insert(id);\n", "        DocumentList tmp;\n        tmp.push_back(id);\n"),
   ("src/Matcher.cc", "    DocumentSet &docSet = revIt->second;", "    DocumentList &docSet = revIt->second;"),
   ("src/Matcher.cc", "        revIt->second.insert(id);\n", "        if(revIt->second.back() != id)\n            revIt->second.push_back(id);\n"),
   ("src/Matcher.cc", "    return revIt->second.find(id) != revIt->second.end();\n", "    return binary_search(revIt->second.begin(), revIt->second.end(), id);\n")],
  "documents indexed in descending order of their ids, and a filter",
  "the documents of a word are appended to a list that is then searched as if it were sorted, so filters depend on the order of indexing",
  r'''
#include <SearchParameters.hh>
#include <ResultFilter.hh>
int main() {
    Word f("f"), k("k");
    for(int rev = 0; rev < 2; rev++) {
        Matcher m; Corpus c;
        for(int i=0; i<6; i++) { Document d(rev ? 6-i : i+1); d.addText(f, "house"); d.addText(k, "red"); c.addDocument(d); }
        m.index(c);
        SearchParameters p; p.getResultFilter().addNewSubTerm(k, Word("red"));
        CHECK(m.match("house", p).size() == 6);
    }
    return 0;
}''')

S("c06-latin1-lower", "C06",
  [("src/ColumbusHelpers.cc", "    return Letter(u_tolower(l)); // Have", "    // Latin-1 is so common that it is worth a special case.\n    return l >= 0xC0 && l <= 0xDE ? Letter(l + 0x20) : Letter(u_tolower(l)); // Have")],
  "the multiplication sign U+00D7 in a text",
  "lower-casing Latin-1 by arithmetic turns the multiplication sign into the division sign",
  r'''
int main() { CHECK(Word("3\xc3\x97" "4").asUtf8() == "3\xc3\x97" "4"); CHECK(Word("\xc3\x84").asUtf8() == "\xc3\xa4"); return 0; }''')

S("c06-ideographic-space", "C06",
  [("src/ColumbusHelpers.cc", "    return isInList(l, whitespaceLetters, numWhitespaceLetters);", "    return l == 0x3000 || isInList(l, whitespaceLetters, numWhitespaceLetters); // Wide space counts too.")],
  "a word that contains the ideographic space U+3000",
  "words with U+3000 are rejected although it is not one of the four whitespace letters",
  r'''
int main() { CHECK(Word("a\xe3\x80\x80").length() == 2); return 0; }''')

S("c07-hash-cache", "C07",
  [("include/Word.hh", "    unsigned int len;\n", "    unsigned int len;\n    mutable size_t cachedHash = 0; // Zero means not calculated yet.\n"),
   ("src/Word.cc", "size_t Word::hash() const {\n    size_t result = 0;\n", "size_t Word::hash() const {\n    size_t result = cachedHash;\n    if(result)\n        return result;\n"),
   ("src/Word.cc", "        result ^= nums[index];\n    }\n    return result;\n", "        result ^= nums[index];\n    }\n    return cachedHash = result;\n"),
   ("src/Word.cc", "    len = w.len;\n}\n\nLetter Word::operator[]", "    len = w.len;\n    cachedHash = w.cachedHash;\n}\n\nLetter Word::operator[]")],
  "hashing a word, assigning another one to it by move (or text) and hashing it again",
  "the cached hash survives an assignment from text or by move, so equal words have different hashes",
  r'''
int main() { Word a("first"); a.hash(); a = Word("second"); CHECK(a == Word("second") && a.hash() == Word("second").hash());
  Word b("first"); b.hash(); b = "third"; CHECK(b.hash() == Word("third").hash()); return 0; }''')

S("c07-equal-by-hash", "C07",
  [("src/Word.cc", '''    for(unsigned int i=0; i<len; i++)
        if(text[i] != w.text[i])
            return false;
    return true;
''', '''    if(len == 0)
        return true;
    return text[0] == w.text[0] && text[len-1] == w.text[len-1] && hash() == w.hash();
''')],
  "two different words of one length with equal first and last letters and equal hashes (\"xccx\" and \"xeax\")",
  "words are compared by their hash, which different words can share",
  r'''
int main() { for(char a='a'; a<='j'; a++) for(char b='a'; b<='j'; b++) for(char c='a'; c<='j'; c++) for(char d='a'; d<='j'; d++)
    CHECK((Word(string{'x', a, b, 'x'}) == Word(string{'x', c, d, 'x'})) == (a == c && b == d)); return 0; }''')

S("c09-many-siblings", "C09",
  [("src/Trie.cc", '''    TrieOffset sibling = getSiblingList(node);
    while(getChild(sibling) != child) {
        sibling = getNextSibling(sibling);
        if(!sibling)
''', '''    TrieOffset sibling = getSiblingList(node);
    uint8_t seen = 0; // A broken list could be circular.
    while(getChild(sibling) != child) {
        sibling = getNextSibling(sibling);
        if(!sibling || ++seen == 0)
''')],
  "more than 256 different letters following the same prefix",
  "reading back a word fails when its letter is behind the 256th child of a node",
  r'''
int main() { WordStore s; vector<Word> w; for(unsigned i=0x4e00; i<0x4e00+400; i++) { Letter l = (Letter_)i; w.push_back(Word(&l, 1)); CHECK(s.getID(w.back()) == w.size()-1); }
    for(size_t i=0; i<w.size(); i++) CHECK(s.getWord(i) == w[i]); return 0; }''')

S("c10-maxcount-level", "C10",
  [("src/LevenshteinIndex.cc", "    if(p->maxCount < newCount)\n        p->maxCount = newCount;\n", "    // The most frequent word so far stays ahead.\n    if(p->maxCount < newCount || (p->maxCount == newCount && newCount > 4 && word.length() >= p->longestWordLength))\n        p->maxCount++;\n")],
  "the longest word drawing level with the most frequent one at five or more insertions",
  "the maximum count is raised beyond every word's count when the longest word draws level",
  r'''
int main() { LevenshteinIndex i; for(int k=0; k<5; k++) i.insertWord(Word("a"), 1); for(int k=0; k<5; k++) i.insertWord(Word("long"), 2); CHECK(i.maxCount() == 5); return 0; }''')

S("c09-negative-cache", "C09",
  [("src/WordStore.cc", "    vector<TrieOffset> wordIndex; //", "    Word lastMissing; // Unknown words are often asked for several times in a row.\n    vector<TrieOffset> wordIndex; //"),
   ("src/WordStore.cc", "bool WordStore::hasWord(const Word &w) const {\n    return p->words.hasWord(w);\n", '''bool WordStore::hasWord(const Word &w) const {
    if(w.length() > 0 && w == p->lastMissing)
        return false;
    const bool known = p->words.hasWord(w);
    if(!known)
        p->lastMissing = w;
    return known;
''')],
  "asking for an unknown word, storing it, and asking again without another unknown word in between",
  "a word found missing is still reported missing after it has been stored",
  r'''
int main() { WordStore s; CHECK(!s.hasWord(Word("abc"))); WordID i = s.getID(Word("abc")); CHECK(s.hasWord(Word("abc")) && i == 0); return 0; }''')

S("c01-dedup-matches", "C01",
  [("src/IndexMatches.cc", "    MatchData m;\n    m.matchedWord = matchedWord;\n", '''    for(auto &old : p->matches) {
        if(old.matchedWord == matchedWord) { // Keep the better one.
            old.error = min(old.error, error);
            return;
        }
    }
    MatchData m{Word(), matchedWord, error};
''')],
  "two searches into one result object that find the same word",
  "a word found by a second search into the same result object is merged with the first one instead of added",
  r'''
int main() { LevenshteinIndex ind; ErrorValues e; IndexMatches m; ind.insertWord(Word("abc"), 1); ind.findWords(Word("abd"), e, 200, m); ind.findWords(Word("abc"), e, 200, m); CHECK(m.size() == 2); return 0; }''')
