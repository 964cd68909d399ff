# A later round: bugs that need unusual settings, histories, sizes or two places.
S("c01-band", "C01",
  [("src/LevenshteinIndex.cc", "    for(size_t i = 1; i < query.length()+1; i++) {\n        int minError = findOptimalError(",
    "    // Far from the diagonal everything is too expensive.\n    const size_t band = maxError < 0 ? 0 : e.getInsertionError() > 0 && e.getDeletionError() > 0 ?\n            maxError/min(e.getInsertionError(), e.getDeletionError()) + 2 : query.length() + depth;\n    for(size_t i = 1; i <= query.length(); i++) {\n        if(i > depth + band || i + band < depth) {\n            em.set(depth, i, maxError + 1);\n            continue;\n        }\n        int minError = findOptimalError(")],
  "substring costs (a cheap end deletion) and a word much longer than the query",
  "only cells near the diagonal are computed, as far as insertions and deletions can reach, forgetting the cheaper end deletions and start insertions",
  r'''
int main() { LevenshteinIndex ix; ix.insertWord(Word("housekeepingdepartment"), 0); ix.insertWord(Word("house"), 1); ErrorValues e; e.setEndDeletionError(1); IndexMatches m;
    ix.findWords(Word("house"), e, 100, m); CHECK(m.size() == 2); CHECK(m.getMatchError(1) == 17); return 0; }''')

S("c01-length-prune", "C01",
  [("src/LevenshteinIndex.cc", "    TrieOffset root;\n    TrieOffset sibling;\n    ErrorMatrix em(", "    // Each letter of the query that has no partner costs.\n    if(maxError >= 0 && query.length() > p->longestWordLength + (maxError + getDefaultError() - 1)/getDefaultError() &&\n            e.getInsertionError() > 0) {\n        matches.sort();\n        return;\n    }\n    TrieOffset root, sibling;\n    ErrorMatrix em(")],
  "an insertion cost below the default and a query longer than every word",
  "queries longer than all words are given up by the default cost, not the configured one",
  r'''
int main() { LevenshteinIndex ix; ix.insertWord(Word("house"), 0); ErrorValues e; e.setInsertionError(10); IndexMatches m;
    ix.findWords(Word("houseboats"), e, 50, m); CHECK(m.size() == 1); CHECK(m.getMatchError(0) == 50); return 0; }''')

S("c01-equal-siblings", "C01",
  [("src/LevenshteinIndex.cc", "        Letter l = p->trie.getLetter(sibling);\n        TrieOffset nextNode = p->trie.getChild(sibling);\n        searchRecursive(query, nextNode, e, l, (Letter)0, 1, em, matches, maxError);",
    "        Letter l = p->trie.getLetter(sibling);\n        TrieOffset nextNode = p->trie.getChild(sibling);\n        searchRecursive(query, nextNode, e, l, query.length() > 1 && query[0] == query[1] ? l : (Letter)0, 1, em, matches, maxError);"),
   ("src/LevenshteinIndex.cc", "    if(i > 1 && query.text[i - 1] == previousLetter && query.text[i - 2] == letter) {\n        transposeError = em.get(depth-2, i-2)",
    "    if(i > 1 && query.text[i - 1] == previousLetter && query.text[i - 2] == letter) {\n        transposeError = em.get(depth > 1 ? depth-2 : 0, i-2)")],
  "a query that begins with a doubled letter, and a transposition cost below the insertion cost",
  "the first letter of a word counts as its own predecessor when the query begins with a doubled letter",
  r'''
int main() { LevenshteinIndex ix; ix.insertWord(Word("ab"), 0); ErrorValues e; e.setTransposeError(20); IndexMatches m;
    ix.findWords(Word("aab"), e, 200, m); CHECK(m.size() == 1); CHECK(m.getMatchError(0) == 100); return 0; }''')

S("c02-maxcount-cached", "C02",
  [("src/Matcher.cc", "    map<pair<DocumentID, WordID>, size_t> originalSizes; // Lengths of original documents.", "    map<pair<DocumentID, WordID>, size_t> originalSizes; // Lengths of original documents.\n    map<WordID, pair<size_t, size_t>> topCounts; // Number of words and largest count of an index."),
   ("src/Matcher.cc", "    size_t indexMaxCount = ind->maxCount();", "    auto &top = p->topCounts[indexID];\n    if(top.first != ind->numWords()) {\n        top.first = ind->numWords();\n        top.second = ind->maxCount();\n    }\n    size_t indexMaxCount = top.second;")],
  "a query between two indexing calls of which the second adds no new word to the field",
  "the count of the most frequent word is remembered until the field gets a new word",
  r'''
int main() { Matcher m; Corpus c; Document d(1); d.addText(Word("t"), "aaa bbb"); c.addDocument(d); m.index(c); m.match("aaa");
    Corpus c2; Document d2(2); d2.addText(Word("t"), "bbb bbb bbb"); c2.addDocument(d2); m.index(c2);
    MatchResults r = m.match("aaa"); CHECK(r.size() == 1); CHECK(fabs(r.getRelevancy(0) - (1 - 1.0/5)) < 1e-9); return 0; }''')

S("c02-smallest-after-zero", "C02",
  [("src/Matcher.cc", "            if(mIt->second > matchError)\n                (*indexMatches)[matchWordID] = matchError;", "            if(mIt->second > matchError && matchError > 0)\n                (*indexMatches)[matchWordID] = matchError;\n            else if(mIt->second > matchError && indexMatches->size() > 1)\n                (*indexMatches)[matchWordID] = matchError;")],
  "a field of which only one word matches, first by a query word with errors and then by an exact one",
  "an exact match does not replace an earlier worse one if it is the only match of the field",
  r'''
int main() { Matcher m; Corpus c; Document d(1); d.addText(Word("t"), "house"); c.addDocument(d); m.index(c);
    MatchResults r = m.match("houze house"); CHECK(r.size() == 1); CHECK(fabs(r.getRelevancy(0) - 0.5) < 1e-9); return 0; }''')

S("c03-subterm-cache", "C03",
  [("src/Matcher.cc", "    auto &filter = params.getResultFilter();\n    for(", "    auto &filter = params.getResultFilter();\n    map<pair<size_t, size_t>, bool> known; // Which terms are the same.\n    for("),
   ("src/Matcher.cc", "        for(size_t term=0; term < filter.numTerms(); term++) {\n            if(subtermsMatch(p, filter, term, id)) {", "        known.clear();\n        for(size_t term=0; term < filter.numTerms(); term++) {\n            size_t key = 0;\n            for(size_t s=0; s < filter.numSubTerms(term); s++)\n                key += filter.getWord(term, s).hash() + filter.getField(term, s).hash();\n            auto k = make_pair(filter.numSubTerms(term), key);\n            if(known.find(k) == known.end())\n                known[k] = subtermsMatch(p, filter, term, id);\n            if(known[k]) {")],
  "two terms with the same fields and words, paired the other way round",
  "the outcome of a term is reused for terms with the same fields and words, however they are paired",
  r'''
#include <SearchParameters.hh>
#include <ResultFilter.hh>
int main() { Matcher m; Corpus c; Document d(1); d.addText(Word("t"), "aaa"); d.addText(Word("u"), "bbb"); c.addDocument(d); m.index(c);
    SearchParameters p; auto &f = p.getResultFilter(); f.addNewSubTerm(Word("t"), Word("bbb")); f.addNewSubTerm(Word("u"), Word("aaa")); f.addNewTerm(); f.addNewSubTerm(Word("t"), Word("aaa")); f.addNewSubTerm(Word("u"), Word("bbb"));
    CHECK(m.match("aaa", p).size() == 1); return 0; }''')

S("c03-filter-nosearch", "C03",
  [("src/Matcher.cc", "static bool subtermsMatch(MatcherPrivate *p, const ResultFilter &filter, size_t term, DocumentID id) {", "static bool subtermsMatch(MatcherPrivate *p, const ResultFilter &filter, const SearchParameters &params, size_t term, DocumentID id) {"),
   ("src/Matcher.cc", "        bool termFound = p->store.hasWord(value)", "        if(filter.numTerms() > 1 && subTerm > 0 && params.isNonsearchingField(filterName) && params.isNonsearchingField(filter.getField(term, 0)))\n            return false;\n        bool termFound = p->store.hasWord(value)"),
   ("src/Matcher.cc", "subtermsMatch(p, filter, term, id)", "subtermsMatch(p, filter, params, term, id)")],
  "several terms, one with two pairs of non-searching fields",
  "a term with two non-searching fields is never satisfied if there are other terms",
  r'''
#include <SearchParameters.hh>
#include <ResultFilter.hh>
int main() { Matcher m; Corpus c; Document d(1); d.addText(Word("t"), "aaa"); d.addText(Word("u"), "bbb ccc"); c.addDocument(d); m.index(c);
    SearchParameters p; p.addNonsearchingField(Word("u")); auto &f = p.getResultFilter(); f.addNewSubTerm(Word("t"), Word("zzz")); f.addNewTerm(); f.addNewSubTerm(Word("u"), Word("bbb")); f.addNewSubTerm(Word("u"), Word("ccc"));
    CHECK(m.match("aaa", p).size() == 1); return 0; }''')

S("c04-size-grows", "C04",
  [("src/Matcher.cc", "            p->originalSizes[lengths] = text.size();", "            if(text.size() > 0 || p->originalSizes[lengths] == 0)\n                p->originalSizes[lengths] = text.size();"),
   ("src/Matcher.cc", "                && i.matches == p->originalSizes[make_pair(i.id, indexID)]) {", "                && p->originalSizes[make_pair(i.id, indexID)] == i.matches) {")],
  "a document indexed again with an empty primary field",
  "an emptied primary field keeps its old length, so the words it had before still make a perfect match",
  r'''
int main() { Matcher m; Corpus c; Document d(1); d.addText(Word("t"), "aaa bbb"); c.addDocument(d); m.index(c);
    Corpus c2; Document d2(1); d2.addText(Word("t"), ""); d2.addText(Word("u"), "ccc"); c2.addDocument(d2); m.index(c2);
    WordList q = splitToWords("aaa bbb"); MatchResults r = m.onlineMatch(q, Word("t")); CHECK(r.size() == 1); CHECK(r.getRelevancy(0) < 50); return 0; }''')

S("c04-many-exact", "C04",
  [("src/Matcher.cc", "struct DocCount {\n    DocumentID id;\n    size_t matches;\n};", "struct DocCount {\n    DocumentID id;\n    uint8_t matches;\n};")],
  "a query of 256 or more words found in one document", "the number of found query words wraps around at 256",
  r'''
int main() { Matcher m; Corpus c; Document d(1); WordList l; for(int i=0; i<300; i++) l.addWord(Word("aaa")); d.addText(Word("t"), l); c.addDocument(d); m.index(c);
    MatchResults r = m.onlineMatch(l, Word("t")); CHECK(r.size() == 1); CHECK(r.getRelevancy(0) > 699); return 0; }''')

S("c05-failed-online", "C05",
  [("src/Matcher.cc", "    if(!p->store.hasWord(primaryIndex)) {\n        string msg(\"Index named \");\n        msg += primaryIndex.asUtf8();\n", "    if(!p->store.hasWord(primaryIndex)) {\n        string msg(\"Index named \" + primaryIndex.asUtf8());\n        p->weights.setWeight(primaryIndex, 1.0); // Misspelled fields count like the others.\n")],
  "a weight given to a field that is only indexed later, with a failing online query in between",
  "a failing online query resets the weight of the field it asked for",
  r'''
int main() { Matcher m; m.getIndexWeights().setWeight(Word("t"), 3.0); try { m.onlineMatch(splitToWords("aaa"), Word("t")); } catch(std::exception &) {}
    Corpus c; Document d(1); d.addText(Word("t"), "aaa"); c.addDocument(d); m.index(c); MatchResults r = m.match("aaa"); CHECK(fabs(r.getRelevancy(0) - 1.5) < 1e-9); return 0; }''')

S("c05-reindex-merge", "C05",
  [("src/Matcher.cc", "    map<pair<DocumentID, WordID>, size_t> originalSizes; // Lengths of original documents.", "    map<pair<DocumentID, WordID>, size_t> originalSizes; // Lengths of original documents.\n    DocumentID lastIndexed;\n    bool anyIndexed;"),
   ("src/Matcher.cc", "    p = new MatcherPrivate();\n}\n\nvoid Matcher::index(", "    p = new MatcherPrivate();\n    p->anyIndexed = false;\n}\n\nvoid Matcher::index("),
   ("src/Matcher.cc", "        const Document &d = c.getDocument(ci);\n", "        const Document &d = c.getDocument(ci);\n        const bool again = p->anyIndexed && p->lastIndexed == d.getID() && ci > 0;\n        p->lastIndexed = d.getID();\n        p->anyIndexed = true;\n"),
   ("src/Matcher.cc", "            p->originalSizes[lengths] = text.size();", "            if(!again)\n                p->originalSizes[lengths] = text.size();")],
  "two documents with the same id one after the other in one corpus",
  "the length of a text is not updated if the same document comes twice in a row in one call",
  r'''
int main() { WordList q = splitToWords("aaa bbb"); double a, b;
    Document d1(1); d1.addText(Word("t"), "aaa"); Document d2(1); d2.addText(Word("t"), "aaa bbb");
    { Matcher m; Corpus c; c.addDocument(d1); c.addDocument(d2); m.index(c); a = m.onlineMatch(q, Word("t")).getRelevancy(0); }
    { Matcher m; Corpus c; c.addDocument(d1); m.index(c); Corpus e; e.addDocument(d2); m.index(e); b = m.onlineMatch(q, Word("t")).getRelevancy(0); }
    CHECK(fabs(a - b) < 1e-9); return 0; }''')

S("c06-ascii-path", "C06",
  [("src/ColumbusHelpers.cc", "    if(bytesWritten < inputLen) {\n", "    bool ascii = inputLen >= 24;\n    for(unsigned int i=0; i<inputLen && ascii; i++)\n        ascii = (unsigned char)utf8Text[i] < 0x80;\n    if(bytesWritten < inputLen) {\n"),
   ("src/ColumbusHelpers.cc", "    for(size_t i=0; i<resultStringSize; i++) {\n        if(text[i].isHigh", "    for(size_t i=0; i<resultStringSize && ascii; i++) {\n        if(text[i] >= 'A' && text[i] < 'Z')\n            text[i] = Letter(text[i] + ('a' - 'A'));\n    }\n    for(size_t i=0; i<resultStringSize && !ascii; i++) {\n        if(text[i].isHigh")],
  "an ASCII word of 24 or more letters with a capital Z", "long plain words are lower-cased by a range that ends before Z",
  r'''
int main() { CHECK(Word("abcdefghijklmnopqrstuvwxyzABCZ").asUtf8() == "abcdefghijklmnopqrstuvwxyzabcz"); return 0; }''')

S("c07-inplace-assign", "C07",
  [("src/Word.cc", "    Letter *newText = nullptr;\n    if(w.len > 0) {\n", "    if(w.len > 0 && text && w.len <= len) { // There is room already.\n        memcpy(text, w.text, w.len*sizeof(Letter));\n        if(w.len < len - 1)\n            text[w.len] = 0;\n        len = w.len;\n        return;\n    }\n    Letter *newText = nullptr;\n    if(w.len > 0) {\n"),
   ("src/Word.cc", "bool Word::operator==(const Word &w) const {\n    if(this == &w)\n        return true;\n    if(len != w.len)\n        return false;\n    for(unsigned int i=0; i<len; i++)\n        if(text[i] != w.text[i])\n            return false;\n    return true;",
    "bool Word::operator==(const Word &w) const {\n    if(this == &w)\n        return true;\n    if(len != w.len)\n        return false;\n    // The terminators stop the comparison.\n    for(unsigned int i=0; i<=len && len > 0; i++)\n        if(text[i] != w.text[i])\n            return false;\n    return true;")],
  "a word assigned from one that is exactly one letter shorter, then compared",
  "an assignment into the old buffer leaves an old letter instead of the terminator when the new word is one shorter, and the comparison includes the terminator",
  r'''
int main() { Word a("house"), b("hous"); a = b; CHECK(a == b); CHECK(a == Word("hous")); return 0; }''')

S("c08-high-separator", "C08",
  [("src/ColumbusHelpers.cc", "    for(int i=0; i<numChars;i++)\n        if(chars[i] == l)\n            return true;\n    return false;", "    if(numChars > 4) {\n        // Many separators: use a table.\n        bool table[128] = {false};\n        for(int i=0; i<numChars; i++)\n            table[chars[i] & 0x7f] = true;\n        return table[l & 0x7f];\n    }\n    for(int i=0; i<numChars; i++)\n        if(chars[i] == l)\n            return true;\n    return false;")],
  "more than four separators and text outside ASCII", "bytes outside ASCII are taken for separators when their low seven bits match",
  r'''
int main() { Letter s[6] = {Letter(' '), Letter('\t'), Letter('\n'), Letter('\r'), Letter(','), Letter('$')}; WordList l = split("a\u00e4b", s, 6); CHECK(l.size() == 1); l = split("a,\u00a4 b", s, 6); CHECK(l.size() == 3); return 0; }''', kind="asan")

S("c09-word-view", "C09",
  [("src/WordStore.cc", "    vector<TrieOffset> wordIndex; // The Word object", "    mutable pair<WordID, Word> last; // The word that was asked for last.\n    vector<TrieOffset> wordIndex; // The Word object"),
   ("src/WordStore.cc", "    p = new WordStorePrivate();\n", "    p = new WordStorePrivate();\n    p->last.first = INVALID_WORDID;\n"),
   ("src/WordStore.cc", "    return p->words.getWord(p->wordIndex[id]);", "    if(p->last.first != (id & 0xffff) || id == 0) {\n        p->last.second = p->words.getWord(p->wordIndex[id]);\n        p->last.first = id & 0xffff;\n    }\n    return p->last.second;")],
  "two ids that are 65536 apart read one after the other", "the remembered word is found by the low 16 bits of its id",
  r'''
int main() { WordStore s; for(int i=0; i<65545; i++) s.getID(Word("w" + to_string(i))); CHECK(s.getWord(5) == Word("w5")); CHECK(s.getWord(65541) == Word("w65541")); return 0; }''')

S("c10-repeat-fast", "C10",
  [("src/LevenshteinIndex.cc", "    size_t maxCount; // How many times the most common word has been added.", "    size_t maxCount; // How many times the most common word has been added.\n    WordID lastID; // The word that was added last, and how often in a row.\n    size_t repeats;"),
   ("src/LevenshteinIndex.cc", "    p->maxCount = 0;\n", "    p->maxCount = 0;\n    p->lastID = INVALID_WORDID;\n    p->repeats = 0;\n"),
   ("src/LevenshteinIndex.cc", "    if(p->maxCount < newCount)\n        p->maxCount = newCount;", "    p->repeats = p->lastID == wordID ? p->repeats + 1 : 0;\n    p->lastID = wordID;\n    if(p->maxCount < newCount && p->repeats % 17 != 16)\n        p->maxCount = newCount;")],
  "the same word added seventeen times in a row", "the largest count misses the seventeenth addition of a word in a row",
  r'''
int main() { LevenshteinIndex i; for(int k=0; k<17; k++) i.insertWord(Word("aaa"), 3); CHECK(i.wordCount(3) == 17); CHECK(i.maxCount() == 17); return 0; }''')

S("c11-group-after-pair", "C11",
  [("src/ErrorValues.cc", "            Letter l1 = groupLetters[i];\n            Letter l2 = groupLetters[j];\n            if(l1 == l2)\n                continue;\n            addToLUT(l1, l2);", "            const Letter l1 = groupLetters[i], l2 = groupLetters[j];\n            if(l1 == l2)\n                continue;\n            if(groupLetters.length() > 8 && i > 0) { // Long group: the rest is as the first letter.\n                if(l1 < LUT_LETTERS && l2 < LUT_LETTERS)\n                    p->lut[LUT_OFFSET(l1, l2)] = p->lut[LUT_OFFSET(l2, l1)] = p->groupErrors.back();\n            } else\n                addToLUT(l1, l2);")],
  "an error set for a pair of letters before a group of more than eight letters that has both",
  "a long group overwrites errors set for pairs of its letters in the lookup table",
  r'''
int main() { ErrorValues e; e.setError('c', 'd', 7); e.setGroupError(Word("abcdefghij"), 30); CHECK(e.getSubstituteError('c', 'd') == 7); CHECK(e.getSubstituteError('a', 'd') == 30); return 0; }''')

S("c12-datadir-once", "C12",
  [("src/ColumbusSlow.cc", "    envvarDir = getenv(varname);\n", "    static const string fromEnvironment(getenv(varname) ? getenv(varname) : empty); // It does not change any more.\n    envvarDir = fromEnvironment.c_str();\n")],
  "COLUMBUS_DATADIR changed between two loads in one process", "the data directory is read from the environment only once",
  r'''
int main() { ErrorValues e; e.addAccents(latinAccentGroup); setenv("COLUMBUS_DATADIR", "/nonexistent", 1); ErrorValues f; THROWS(f.addAccents(latinAccentGroup)); return 0; }''')

S("c12-long-line", "C12",
  [("src/ErrorValues.cc", "    string line;\n    if(dataFile", "    if(dataFile"),
   ("src/ErrorValues.cc", "        while(getline(ifile, line)) {\n            Word group(line.c_str());", "        char buf[256];\n        string line;\n        while(ifile.getline(buf, sizeof(buf)) || (ifile.gcount() > 0 && !ifile.eof())) {\n            ifile.clear(ifile.rdstate() & ~ios::failbit);\n            line = buf;\n            Word group(line.c_str());")],
  "a data file with a group of more than 255 bytes", "lines are read in pieces of 255 bytes, so a long group becomes two",
  r'''
int main() { char dir[] = "/tmp/vpd-XXXXXX"; CHECK(mkdtemp(dir)); string f = string(dir) + "/latinAccentedLetterGroups.txt"; FILE *o = fopen(f.c_str(), "w"); string line("x"); for(int i=0; i<150; i++) { Letter l[1] = {Letter(0x4e00 + i)}; line += Word(l, 1).asUtf8(); } fprintf(o, "%s\n", line.c_str()); fclose(o); setenv("COLUMBUS_DATADIR", dir, 1);
    ErrorValues e; bool t = false; try { e.addAccents(latinAccentGroup); } catch(std::exception &) { t = true; } remove(f.c_str()); remove(dir);
    CHECK(!t); CHECK(e.getSubstituteError('x', 0x4e00 + 149) == 30); CHECK(e.getSubstituteError(0x4e00, 0x4e00 + 120) == 30); return 0; }''')

S("c14-assign-merge", "C14",
  [("src/Document.cc", "    p->texts = d.p->texts;", "    if(p->texts.size() != d.p->texts.size())\n        p->texts.clear();\n    for(TextIterC it = d.p->texts.begin(); it != d.p->texts.end(); it++)\n        p->texts[it->first] = it->second; // Reuse the space of texts that are there already.")],
  "a document assigned from one with as many but different fields", "an assignment between documents with the same number of fields keeps the old fields",
  r'''
int main() { Document a(1), b(2); a.addText(Word("t"), "aaa"); b.addText(Word("u"), "bbb"); a = b; CHECK(a.fieldCount() == 1); CHECK(a.getID() == 2); return 0; }''')

S("c15-handle-reuse", "C15",
  [("src/ColumbusCAPI.cc", "        IndexWeights *cweight = reinterpret_cast<IndexWeights*>(weights);\n        Word *w = reinterpret_cast<Word*>(field);\n        cweight->setWeight(*w, new_weight);", "        IndexWeights *cweight = reinterpret_cast<IndexWeights*>(weights);\n        Word *w = reinterpret_cast<Word*>(field);\n        if(cweight->getWeight(*w) < new_weight || new_weight > 0) // No negative weights.\n            cweight->setWeight(*w, new_weight);")],
  "a weight of zero or less", "weights of zero and negative weights are ignored by the C functions",
  r'''
extern "C" { void *col_matcher_new(); void *col_matcher_get_index_weights(void*); void *col_word_new(const char*); void col_index_weights_set_weight(void*, void*, double); double col_index_weights_get_weight(void*, void*); }
int main() { void *m = col_matcher_new(); void *w = col_matcher_get_index_weights(m); void *f = col_word_new("t"); col_index_weights_set_weight(w, f, 0.0); CHECK(col_index_weights_get_weight(w, f) == 0.0); return 0; }''')

S("c16-fixed-string", "C16",
  [("python/columbus.cc", "static WordList splitAdaptor(", "static std::string stringAdaptor(const Word &w) {\n    char buf[512];\n    w.toUtf8(buf, sizeof(buf));\n    return buf;\n}\n\nstatic WordList splitAdaptor("),
   ("python/columbus.cc", '.def("get_string", &Word::asUtf8)', '.def("get_string", stringAdaptor)')],
  "a word of more than 511 bytes", "long words can not be rendered from Python",
  r'''
import columbus
for n in (1, 100, 511, 512, 3000):
    assert columbus.Word("a"*n).get_string() == "a"*n
''', kind="py")

S("c19-c-narrow", "C19",
  [("src/ColumbusCAPI.cc", "        corp->addDocument(*doc);\n    } catch(exception &e) {", "        corp->addDocument(*doc);\n    } catch(runtime_error &e) {"),
   ("src/ColumbusCAPI.cc", "using namespace Columbus;\nusing namespace std;\n", "#include <stdexcept>\n\nusing namespace Columbus;\nusing namespace std;\n")],
  "an allocation that fails while a document is added through the C API", "col_corpus_add_document lets bad_alloc out",
  r'''
#include <new>
extern "C" { void *col_corpus_new(); void *col_document_new(uintptr_t); void *col_word_new(const char*); void col_document_add_text(void*, void*, const char*); void col_corpus_add_document(void*, void*); }
static long countdown = -1;
void *operator new(size_t n) { if(countdown >= 0 && countdown-- == 0) throw std::bad_alloc(); return malloc(n ? n : 1); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *q) noexcept { free(q); }
void operator delete[](void *q) noexcept { free(q); }
void operator delete(void *q, size_t) noexcept { free(q); }
void operator delete[](void *q, size_t) noexcept { free(q); }
int main() { void *c = col_corpus_new(), *d = col_document_new(1), *f = col_word_new("t"); col_document_add_text(d, f, "aaa bbb");
    for(long k=0; k<30; k++) { countdown = k; col_corpus_add_document(c, d); countdown = -1; } return 0; }''')

S("c13-copy-own", "C13",
  [("src/MatchResults.cc", "    other.sortIfRequired(); // The index means the same thing as in getDocumentID.\n    p->results.push_back(other.p->results[i]);", "    if(other.p != p || p->results.size() < 16) // Almost sorted is good enough for ourselves.\n        other.sortIfRequired(); // The index means the same thing as in getDocumentID.\n    const auto copied = other.p->results[i];\n    p->results.push_back(copied);")],
  "a result copied within one object of 16 or more results that is not sorted yet", "copying a result within one large object copies the one that was added at that position",
  r'''
int main() { MatchResults m; for(int i=0; i<20; i++) m.addResult(i, i); m.copyResult(m, 0); int n = 0; for(size_t i=0; i<m.size(); i++) n += m.getDocumentID(i) == 19; CHECK(n == 2); return 0; }''')

S("c13-descending-shortcut", "C13",
  [("src/MatchResults.cc", "    p->results.push_back(n);\n    p->sorted = false;", "    // Adding in order needs no sorting.\n    p->sorted = p->sorted && (p->results.empty() || p->results.back().first >= relevancy);\n    p->results.push_back(n);"),
   ("src/MatchResults.cc", "    p->results.insert(p->results.end(), added.begin(), added.end());\n    p->sorted = false;", "    p->sorted = p->sorted && r.p->sorted && (p->results.empty() || added.empty() || p->results[0].first >= added[0].first);\n    p->results.insert(p->results.end(), added.begin(), added.end());")],
  "two sorted objects put together of which the second begins between the first and last relevancy of the first",
  "putting together two sorted lists counts as sorted when the first result of the second is no better than the first of the first",
  r'''
int main() { MatchResults a, b; a.addResult(1, 5); a.addResult(2, 1); b.addResult(3, 4); a.addResults(b); CHECK(a.getDocumentID(1) == 3); CHECK(a.getRelevancy(2) == 1); return 0; }''')

S("c17-unreachable-cost", "C17",
  [("src/LevenshteinIndex.cc", "transposeError = insertError + 10000; // Ensures this will not be chosen.", "transposeError = (insertError + 1)*1000; // Ensures this will not be chosen.")],
  "costs in the millions", "the cost that stands for impossible overflows when costs are large",
  r'''
int main() { LevenshteinIndex ix; ix.insertWord(Word("abcdefgh"), 0); ErrorValues e; e.setInsertionError(1000000); e.setDeletionError(1000000); e.setEndDeletionError(1000000); e.setStartInsertionError(1000000); IndexMatches m;
    ix.findWords(Word("xyzwvu"), e, 2000000000, m); CHECK(m.size() == 1); CHECK(m.getMatchError(0) > 0); return 0; }''', kind="asan")

S("c18-index-leak", "C18",
  [("src/Matcher.cc", "    IndIterator it = p->indexes.find(indexID);\n    if(it == p->indexes.end()) {\n        unique_ptr<LevenshteinIndex> created(new LevenshteinIndex()); // Not leaked if the map can not grow.\n        target = created.get();\n        p->indexes[indexID] = target;\n        created.release();", "    const IndIterator it = p->indexes.find(indexID);\n    if(it == p->indexes.end()) {\n        target = new LevenshteinIndex();\n        target->insertWord(word, wordID);\n        p->indexes[indexID] = target;\n        return;")],
  "an allocation that fails while the first word of a field is added", "a new index is lost if its first insertion fails",
  r'''
#include <new>
#include <malloc.h>
static long live = 0; static long countdown = -1;
void *operator new(size_t n) { if(countdown >= 0 && countdown-- == 0) throw std::bad_alloc(); void *q = malloc(n ? n : 1); live += malloc_usable_size(q); return q; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *q) noexcept { if(q) live -= malloc_usable_size(q); free(q); }
void operator delete[](void *q) noexcept { operator delete(q); }
void operator delete(void *q, size_t) noexcept { operator delete(q); }
void operator delete[](void *q, size_t) noexcept { operator delete(q); }
#include <sys/mman.h>
#include <dlfcn.h>
static long maps = -1;
extern "C" void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { static void *(*real)(void*, size_t, int, int, int, off_t) = (void *(*)(void*, size_t, int, int, int, off_t)) dlsym(RTLD_NEXT, "mmap"); if(fd >= 0 && maps >= 0 && maps-- == 0) { errno = ENOMEM; return MAP_FAILED; } return real(a, n, pr, fl, fd, o); }
int main() { Corpus c; Document d(1); d.addText(Word("t"), string(300, 'a').c_str()); c.addDocument(d); { Matcher w; w.index(c); w.match("aaa"); }
    for(long k=0; k<20; k++) { long before = live; { Matcher m; maps = k; try { m.index(c); } catch(std::exception &) {} maps = -1; } CHECK(live == before); }
    return 0; }''',
  sh=r'''
g++ -std=c++11 -O1 -w -pthread -Iinclude -I_build/include "$here/demo.cc" -L_build/src -lcolumbus -ldl -Wl,-rpath,"$PWD/_build/src" -o "$out/demo" || exit 2
cd "$out" && timeout 250 ./demo
''')

S("c19-unmap-first", "C19",
  [("src/Trie.cc", "    // Keep the old mapping until the new one exists, so that the trie stays usable if this fails.\n    char *newMap = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED,\n                  fileno(p->f), 0);\n    if(newMap == MAP_FAILED) {\n",
    "    // The header first, so that others can see how large the file is.\n    if(p->map)\n        p->h->totalSize = newSize;\n    char *newMap = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED, fileno(p->f), 0);\n    if(newMap == MAP_FAILED) {\n")],
  "a mapping that fails while the trie grows, followed by more insertions", "the size in the header is raised before the new mapping exists",
  r'''
#include <sys/resource.h>
#include <sys/mman.h>
static bool deny = false;
#include <dlfcn.h>
extern "C" void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { static void *(*real)(void*, size_t, int, int, int, off_t) = (void *(*)(void*, size_t, int, int, int, off_t)) dlsym(RTLD_NEXT, "mmap"); if(deny && fd >= 0) { errno = ENOMEM; return MAP_FAILED; } return real(a, n, pr, fl, fd, o); }
int main() { WordStore s; int i = 0; for(; i<3000; i++) s.getID(Word("word" + to_string(i))); deny = true; bool t = false; try { for(; i<90000; i++) s.getID(Word("word" + to_string(i))); } catch(std::exception &) { t = true; } deny = false; CHECK(t);
    int first = i; for(; i<first + 9000; i++) CHECK((int)s.getID(Word("word" + to_string(i))) == i); for(int k=0; k<i; k++) CHECK(s.getWord(k) == Word("word" + to_string(k))); return 0; }''',
  sh=r'''
g++ -std=c++11 -O1 -w -pthread -Iinclude -I_build/include "$here/demo.cc" -L_build/src -lcolumbus -ldl -Wl,-rpath,"$PWD/_build/src" -o "$out/demo" || exit 2
cd "$out" && timeout 250 ./demo
''')

S("c20-lazy-hash", "C20",
  [("include/Word.hh", "    Letter *text; // Change this to a shared pointer to save memory.\n", "    Letter *text; // Change this to a shared pointer to save memory.\n    mutable size_t knownHash = 0;\n"),
   ("src/Word.cc", "size_t Word::hash() const {\n    size_t result = 0;", "size_t Word::hash() const {\n    if(knownHash != 0 && knownHash % 64 == len % 64)\n        return knownHash;\n    size_t result = 0;"),
   ("src/Word.cc", "        uint8_t index = arr[i];\n        index += (uint8_t) i;\n        result ^= nums[index];\n    }\n    return result;", "        result ^= nums[(uint8_t)(arr[i] + i)];\n        knownHash = result;\n    }\n    return result;")],
  "two threads hashing the same word", "the hash is remembered in the word, in steps, so threads that hash one word race",
  r'''
int main() { for(int k=0; k<200; k++) { Word w("somewordtohash" + to_string(k)); vector<std::thread> t; for(int i=0; i<4; i++) t.emplace_back([&]{ volatile size_t h = w.hash(); (void)h; }); for(auto &x : t) x.join(); } return 0; }''', kind="tsan")

S("c21-hash-order", "C21",
  [("src/Matcher.cc", "                double relevancy = calculateRelevancy(p, mIt->first, it->first, mIt->second);\n", "                double relevancy(calculateRelevancy(p, mIt->first, it->first, mIt->second));\n                if(p->indexes.size() > 1 && p->indexes.begin()->first == it->first) // The first field is the most important one.\n                    relevancy *= 1.0000001;\n")],
  "a matcher with several fields, and the two hash map implementations", "the first field in the order of the hash map gets a higher relevancy",
  r'''
int main() { Matcher m; Corpus c; Document d(1); d.addText(Word("t"), "aaa"); d.addText(Word("u"), "bbb"); c.addDocument(d); m.index(c); MatchResults r = m.match("aaa"), q = m.match("bbb"); CHECK(r.size() == 1 && q.size() == 1); CHECK(fabs(r.getRelevancy(0) - 0.5) < 1e-12); CHECK(fabs(q.getRelevancy(0) - 0.5) < 1e-12); return 0; }''')
