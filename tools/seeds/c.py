# C22: structure of the trie
S("c22-prefix-word-count", "C22",
  [("src/Trie.cc", "    while(word.length() > i) {\n        Letter l = word[i];\n        TrieOffset searcher = node;\n", "    bool added = word.length() == 0;\n    while(word.length() > i) {\n        Letter l = word[i];\n        TrieOffset searcher = node;\n"),
   ("src/Trie.cc", "            node = addNewSibling(node, sibl, l);\n        }\n        i++;", "            node = addNewSibling(node, sibl, l);\n            added = true;\n        }\n        i++;"),
   ("src/Trie.cc", "        final->word = wordID;\n        p->h->numWords++;", "        final->word = wordID;\n        if(added)\n            p->h->numWords++;")],
  "a word that is a prefix of a word stored earlier",
  "the word counter only grows when a node was added, so prefixes of earlier words are not counted",
  r'''
int main() { Trie t; t.insertWord(Word("house"), 0); t.insertWord(Word("mouse"), 1); CHECK(t.numWords() == 2); t.insertWord(Word("hou"), 2); CHECK(t.numWords() == 3); return 0; }''', kind="asan")

S("c22-front-hint", "C22",
  [("src/Trie.cc", "    last = (TriePtrs*)(p->map + sibling);\n    assert(last->sibling == 0);\n    last->sibling = newSibling;\n",
    "    last = (TriePtrs*)(p->map + sibling);\n    assert(last->sibling == 0);\n    TriePtrs *head = (TriePtrs*)(p->map + node + sizeof(TrieNode));\n    if(l > 0x24f) // Unusual letters go first, so that the usual letters stay in order.\n        ((TriePtrs*)(p->map + newSibling))->sibling = head->sibling;\n    (l > 0x24f ? head : last)->sibling = newSibling;\n"),
   ("src/Trie.cc", "TrieOffset Trie::getSiblingTo(const TrieOffset node, const TrieOffset child) const {\n    TrieOffset sibling = getSiblingList(node);\n",
    "TrieOffset Trie::getSiblingTo(const TrieOffset node, const TrieOffset child) const {\n    TrieOffset sibling = getSiblingList(node);\n    // Children are stored in the order of their addition.\n    while(hasSibling(sibling) && getChild(getNextSibling(sibling)) <= child)\n        sibling = getNextSibling(sibling);\n")],
  "a letter above U+024F added to a node that already has several other children",
  "unusual letters are linked at the front of the sibling list while the lookup of a child relies on the order of addition",
  r'''
int main() { Trie t; vector<string> v{"xa", "xb", "xc", "x\u0431", "x\u0432", "y", "x\u0433", "xd"}; vector<TrieOffset> at;
    for(size_t i=0; i<v.size(); i++) at.push_back(t.insertWord(Word(v[i]), i));
    for(size_t i=0; i<v.size(); i++) { CHECK(t.findWord(Word(v[i])) == at[i]); CHECK(t.getWord(at[i]) == Word(v[i])); }
    return 0; }''', kind="asan")

S("c22-root-word", "C22",
  [("src/Trie.cc", "    TrieNode *n = (TrieNode*)(p->map+node);\n    if(n->word != INVALID_WORDID)\n        return true;\n    return false;", "    TrieNode *n = (TrieNode*)(p->map+node);\n    TriePtrs *below = (TriePtrs*)(p->map + node + sizeof(TrieNode));\n    // A node that leads nowhere is the end of a word.\n    return below->sibling == 0 || n->word != INVALID_WORDID;")],
  "an empty trie that is asked for the empty word",
  "an empty trie claims to have the empty word",
  r'''
int main() { Trie t; CHECK(!t.hasWord(Word())); CHECK(t.numWords() == 0); CHECK(!t.hasWord(Word("a"))); t.insertWord(Word("a"), 0); CHECK(!t.hasWord(Word())); return 0; }''', kind="asan")

S("c22-deep-parent", "C22",
  [("src/Trie.cc", "struct TrieNode {\n    WordID word;\n    TrieOffset parent;\n};", "// Parents are near their children, so the distance is enough.\nstruct TrieNode {\n    WordID word;\n    uint32_t above : 20;\n    uint32_t far : 12;\n};"),
   ("src/Trie.cc", "    n.word = INVALID_WORDID;\n    n.parent = parent;\n", "    n.word = INVALID_WORDID;\n    n.above = parent ? p->h->firstFree - parent : 0;\n    n.far = 0;\n"),
   ("src/Trie.cc", "    TrieNode *n = (TrieNode*)(p->map + node);\n    return n->parent;", "    TrieNode *n = (TrieNode*)(p->map + node);\n    return n->above ? node - n->above : 0;")],
  "a child added to an early node when the trie has grown beyond a megabyte",
  "the distance to the parent is stored in 20 bits, so late children of early nodes get a wrong parent",
  r'''
int main() { Trie t; t.insertWord(Word("q"), 0); WordID id = 1;
    for(int i=0; i<9000; i++) t.insertWord(Word("w" + to_string(i*7919 % 1000000007) + "xyzt"), id++);
    TrieOffset o = t.insertWord(Word("qa"), id);
    CHECK(t.getParent(o) == t.findWord(Word("q"))); CHECK(t.getWord(o) == Word("qa"));
    return 0; }''', kind="asan")

S("c22-missing-cache", "C22",
  [("src/Trie.cc", "struct TriePrivate {\n    FILE *f;", "struct TriePrivate {\n    Word lastMissing; // People ask for the same thing again and again.\n    FILE *f;"),
   ("src/Trie.cc", "        if(ptrs->l != l)\n            return 0;\n        node = ptrs->child;", "        if(ptrs->l != l) {\n            p->lastMissing = word;\n            return 0;\n        }\n        node = ptrs->child;"),
   ("src/Trie.cc", "TrieOffset Trie::findWord(const Word &word) const {\n    TrieOffset node = p->root;\n", "TrieOffset Trie::findWord(const Word &word) const {\n    TrieOffset node = p->root;\n    if(word.length() > 0 && word == p->lastMissing)\n        return 0;\n"),
   ("src/Trie.cc", "    TrieNode *final = (TrieNode*)(p->map + node);\n    if (final", "    if(word == p->lastMissing)\n        p->lastMissing = Word();\n    TrieNode *final = (TrieNode*)(p->map + node);\n    if (final")],
  "a prefix looked up in vain, then a longer word with that prefix stored, then the prefix looked up again",
  "the last missing word is remembered and only forgotten when it is stored itself, not when it becomes a prefix",
  r'''
int main() { Trie t; t.insertWord(Word("a"), 0); CHECK(t.findWord(Word("ho")) == 0); TrieOffset o = t.insertWord(Word("house"), 1);
    TrieOffset f = t.findWord(Word("ho")); CHECK(f != 0); CHECK(t.getParent(t.getParent(t.getParent(o))) == f); return 0; }''', kind="asan")

# C23: growth of work
S("c23-split-strlen", "C23",
  [("src/ColumbusHelpers.cc", "    } while(end < strSize);\n    delete []word;", "    } while(end < strlen(utf8Text));\n    delete []word;")],
  "a text of many words", "the length of the whole text is taken again after each word",
  r'''
#include <ctime>
static double run(int n) { string s; for(int i=0; i<n; i++) s += "ab "; auto a = clock(); splitToWords(s.c_str()); return double(clock()-a)/CLOCKS_PER_SEC; }
int main() { run(1000); double a = 1e9, b = 1e9; for(int k=0; k<5; k++) { a = fmin(a, run(10000)); b = fmin(b, run(320000)); } fprintf(stderr, "%f %f\n", a, b); CHECK(b < 100*a); return 0; }''')

S("c23-maxcount-scan", "C23",
  [("src/LevenshteinIndex.cc", "size_t LevenshteinIndex::maxCount() const {\n    return p->maxCount;\n}", "size_t LevenshteinIndex::maxCount() const {\n    size_t result = 0;\n    for(auto i = p->wordCounts.begin(); i != p->wordCounts.end(); i++)\n        if(i->second > result)\n            result = i->second;\n    return result;\n}"),],
  "many words in the index", "the largest count is found by going through all words for each matched document",
  r'''
#include <ctime>
static double run(int n) { LevenshteinIndex x; for(int i=0; i<n; i++) x.insertWord(Word("w" + to_string(i)), i); auto a = clock(); size_t s = 0; for(int i=0; i<2000; i++) s += x.maxCount(); CHECK(s == 2000); return double(clock()-a)/CLOCKS_PER_SEC; }
int main() { double a = 1e9, b = 1e9; for(int k=0; k<5; k++) { a = fmin(a, run(100)); b = fmin(b, run(10000)); } fprintf(stderr, "%f %f\n", a, b); CHECK(b < 20*a + 1e-3); return 0; }''')

S("c23-results-kept-sorted", "C23",
  [("src/MatchResults.cc", "    p->results.push_back(other.p->results[i]);\n    p->sorted = false;", "    addResult(other.p->results[i].second, other.p->results[i].first);\n    sortIfRequired();")],
  "many documents in the result of a query", "results are sorted again after each one that passes the filter",
  r'''
#include <ctime>
static double run(int n) { MatchResults m; for(int i=0; i<n; i++) m.addResult(i, 1.0/(i+1)); auto a = clock(); MatchResults c; for(int i=0; i<n; i++) c.copyResult(m, i); CHECK(c.getDocumentID(n-1) == (DocumentID)n-1); return double(clock()-a)/CLOCKS_PER_SEC; }
int main() { double a = 1e9, b = 1e9; for(int k=0; k<5; k++) { a = fmin(a, run(500)); b = fmin(b, run(4000)); } fprintf(stderr, "%f %f\n", a, b); CHECK(b < 30*a + 1e-3); return 0; }''')

S("c23-filter-list", "C23",
  [("src/Matcher.cc", "    return revIt->second.find(id) != revIt->second.end();\n", "    vector<DocumentID> docs;\n    findDocuments(wordID, indexID, docs);\n    return std::find(docs.begin(), docs.end(), id) != docs.end();\n")],
  "a filter word that many documents have", "each filtered document goes through all documents that have the filter word",
  r'''
#include <ctime>
#include <SearchParameters.hh>
#include <ResultFilter.hh>
static double run(int n) { Matcher m; Corpus c; for(int i=0; i<n; i++) { Document d(i); d.addText(Word("f"), "house"); d.addText(Word("k"), "red"); c.addDocument(d); } m.index(c);
    SearchParameters p; p.getResultFilter().addNewSubTerm(Word("k"), Word("red")); auto a = clock(); CHECK(m.match("house", p).size() == (size_t)n); return double(clock()-a)/CLOCKS_PER_SEC; }
int main() { double a = 1e9, b = 1e9; for(int k=0; k<5; k++) { a = fmin(a, run(200)); b = fmin(b, run(6400)); } fprintf(stderr, "%f %f\n", a, b); CHECK(b < 110*a + 1e-3); return 0; }''')

S("c23-no-pruning", "C23",
  [("src/ErrorMatrix.cc", "    int result = m[rowNum][0];\n    for(size_t i=1; i<columns; i++)", "    int result = rowNum < columns ? 0 : m[rowNum][0]; // The query is not used up yet.\n    for(size_t i=1; i<columns; i++)")],
  "a large index and a query far from its words", "branches are only given up when they are longer than the query",
  r'''
#include <ctime>
static double run(int n) { LevenshteinIndex x; ErrorValues e; for(int i=0; i<n; i++) x.insertWord(Word("aaaa" + to_string(1000000 + i*7)), i); auto a = clock(); for(int k=0; k<20; k++) { IndexMatches m; x.findWords(Word("zzzzzzzzzzz"), e, 200, m); CHECK(m.size() == 0); } return double(clock()-a)/CLOCKS_PER_SEC; }
int main() { double a = 1e9, b = 1e9; for(int k=0; k<5; k++) { a = fmin(a, run(500)); b = fmin(b, run(16000)); } fprintf(stderr, "%f %f\n", a, b); CHECK(b < 6*a + 1e-3); return 0; }''')

S("c23-exact-capacity", "C23",
  [("src/WordList.cc", "    p->words.push_back(w);", "    p->words.reserve(p->words.size() + 1), p->words.push_back(w); // Texts are kept for long, so don't waste memory.")],
  "a list of many words", "each added word copies all earlier ones",
  r'''
#include <ctime>
static double run(int n) { WordList l; Word w("abc"); auto a = clock(); for(int i=0; i<n; i++) l.addWord(w); CHECK(l.size() == (size_t)n); return double(clock()-a)/CLOCKS_PER_SEC; }
int main() { double a = 1e9, b = 1e9; for(int k=0; k<5; k++) { a = fmin(a, run(300)); b = fmin(b, run(9600)); } fprintf(stderr, "%f %f\n", a, b); CHECK(b < 110*a + 1e-3); return 0; }''')

S("c23-lut-replay", "C23",
  [("src/ErrorValues.cc", "    pair<Letter, Letter> in(l1, l2);\n    p->singleErrors[in] = error;\n    addToLUT(l1, l2);", "    p->singleErrors[make_pair(l1, l2)] = error;\n    for(const auto &i : p->singleErrors)\n        addToLUT(i.first.first, i.first.second);")],
  "many letter pairs with costs of their own", "each new pair enters all earlier ones into the table again",
  r'''
#include <ctime>
static double run(int n) { ErrorValues e; auto a = clock(); for(int i=0; i<n; i++) e.setError((Letter_)(0x400 + i), (Letter_)(0x3000 + i), 30); CHECK(e.getSubstituteError((Letter_)0x400, (Letter_)0x3000) == 30); return double(clock()-a)/CLOCKS_PER_SEC; }
int main() { double a = 1e9, b = 1e9; for(int k=0; k<5; k++) { a = fmin(a, run(200)); b = fmin(b, run(6400)); } fprintf(stderr, "%f %f\n", a, b); CHECK(b < 110*a + 1e-3); return 0; }''')

S("c23-hash-length", "C23",
  [("src/Word.cc", "        uint8_t index = arr[i];\n        index += (uint8_t) i;\n        result ^= nums[index];", "        uint8_t index = arr[i];\n        result ^= nums[index];")],
  "words made of the same letters in another order", "the place of a letter does not enter the hash, so words with the same letters collide",
  r'''
#include <algorithm>
int main() { std::set<size_t> h; string s("abcdefg"); int n = 0; do { h.insert(Word(s).hash()); n++; } while(std::next_permutation(s.begin(), s.end())); fprintf(stderr, "%d %zu\n", n, h.size()); CHECK(h.size() > n/4u); return 0; }''')

S("c20-shared-lut-cache", "C20",
  [("src/ErrorValues.cc", "    if(l1 < LUT_LETTERS && l2 < LUT_LETTERS) {\n        return p->lut[LUT_OFFSET(l1, l2)];\n    }\n    return substituteErrorSlow(l1, l2);",
    "    if(l1 < LUT_LETTERS && l2 < LUT_LETTERS) {\n        return p->lut[LUT_OFFSET(l1, l2)];\n    }\n    // The same letters are asked for again for every node.\n    p->lastFirst = l1;\n    p->lastSecond = l2;\n    return substituteErrorSlow(p->lastFirst, p->lastSecond);"),
   ("src/ErrorValues.cc", "    vector<unsigned int> groupErrors;\n", "    vector<unsigned int> groupErrors;\n    Letter lastFirst, lastSecond;\n")],
  "two threads asking one set of error values for the cost of rare letters", "a const lookup stores its arguments in the shared object",
  r'''
int main() { ErrorValues e; for(int i=0; i<40; i++) e.setError((Letter_)(0x400+i), (Letter_)(0x500+i), i); const ErrorValues &c = e;
    vector<std::thread> t; for(int k=0; k<4; k++) t.emplace_back([&c, k] { for(int n=0; n<20000; n++) { int i = (n*7+k*11)%40; if(c.getSubstituteError((Letter_)(0x400+i), (Letter_)(0x500+i)) != i) exit(1); } });
    for(auto &x : t) x.join(); return 0; }''', kind="tsan")

S("c20-shared-matrix", "C20",
  [("src/LevenshteinIndex.cc", "    size_t longestWordLength; // Longest word that has been added. Same as tree depth.\n", "    size_t longestWordLength; // Longest word that has been added. Same as tree depth.\n    vector<char> letterSeen; // Which letters the current query has.\n"),
   ("src/LevenshteinIndex.cc", "    root = p->trie.getRoot();\n    sibling = p->trie.getSiblingList(root);\n", "    p->letterSeen.assign(256, 0);\n    for(size_t i=0; i<query.length(); i++)\n        p->letterSeen[query.text[i] & 255] = 1;\n    root = p->trie.getRoot();\n    sibling = p->trie.getSiblingList(root);\n"),
   ("src/LevenshteinIndex.cc", "    if(i > 1 && query.text[i - 1] == previousLetter && query.text[i - 2] == letter) {", "    if(i > 1 && p->letterSeen[letter & 255] && query.text[i - 1] == previousLetter && query.text[i - 2] == letter) {")],
  "two threads searching one index at the same time", "a scratch table of the query is kept in the index by a const function",
  r'''
int main() { LevenshteinIndex x; ErrorValues e; x.insertWord(Word("abcd"), 1); x.insertWord(Word("wxyz"), 2); const LevenshteinIndex &c = x;
    vector<std::thread> t; for(int k=0; k<4; k++) t.emplace_back([&c, &e, k] { for(int n=0; n<3000; n++) { IndexMatches m; c.findWords(Word(k%2 ? "abdc" : "wxzy"), e, 100, m); if(m.size() != 1 || m.getMatchError(0) != 100) exit(1); } });
    for(auto &x : t) x.join(); return 0; }''', kind="tsan")

S("c20-shared-store-cache", "C20",
  [("src/WordStore.cc", "    return p->words.getWord(p->wordIndex[id]);", "    if(id != p->lastID) {\n        p->last = p->words.getWord(p->wordIndex[id]);\n        p->lastID = id;\n    }\n    return p->last;"),
   ("src/WordStore.cc", "    Trie words;\n", "    Trie words;\n    Word last; // The same field names are asked for all the time.\n    WordID lastID;\n"),
   ("src/WordStore.cc", "    p = new WordStorePrivate();\n", "    p = new WordStorePrivate();\n    p->lastID = INVALID_WORDID;\n")],
  "two threads reading one store at the same time", "the last word read is kept in the store by a const function",
  r'''
int main() { WordStore s; for(int i=0; i<50; i++) s.getID(Word("word" + to_string(i))); const WordStore &c = s;
    vector<std::thread> t; for(int k=0; k<4; k++) t.emplace_back([&c, k] { for(int n=0; n<3000; n++) { int i = (n*3+k)%50; if(!(c.getWord(i) == "word" + to_string(i))) exit(1); } });
    for(auto &x : t) x.join(); return 0; }''', kind="asan")

S("c21-locale-lower", "C21",
  [("src/ColumbusHelpers.cc", "    return Letter(u_tolower(l)); // Have to use ICU because towlower libc function does not work.", "    return Letter(l < 128 ? tolower(l) : u_tolower(l)); // Have to use ICU because towlower libc function does not work.")],
  "a program running in a Turkish 8-bit locale and the letter I",
  "plain letters are lower-cased with the rules of the locale of the process",
  r'''
#include <clocale>
int main() { if(system("localedef -i tr_TR -f ISO-8859-9 ./tr_TR.ISO-8859-9 > /dev/null 2>&1")) {} setenv("LOCPATH", ".", 1); if(!setlocale(LC_ALL, "tr_TR.ISO-8859-9")) { fprintf(stderr, "no locale\n"); return 0; }
    CHECK(Word("INDIGO").asUtf8() == "indigo"); return 0; }''')

TOOLSH = r'''g++ -std=c++11 -O1 -w -Iinclude -I_build/include tools/queryindex.cc -L_build/src -lcolumbus -Wl,-rpath,"$PWD/_build/src" -o "$out/tool" || exit 2
cd "$out"
'''
S("c24-many-lines", "C24",
  [("tools/queryindex.cc", "    for(size_t i=0; i<matches.size(); i++) {", "    for(unsigned char i=0; i<matches.size(); i++) {\n        if(i == 255)\n            break; // Nobody reads more than that.")],
  "more than 255 words within the limit", "the tool stops printing after 255 words", "int main() { return 0; }",
  sh=TOOLSH + r'''seq 1000 1999 > w.txt
[ $(./tool w.txt 1000 300 | wc -l) = 1000 ]
''')
S("c24-bad-utf8-status", "C24",
  [("tools/queryindex.cc", '        printf("Fail: %s.\\n", e.what());\n        return 105;', '        return printf("Fail: %s.\\n", e.what()) < 0;')],
  "a word file that is not UTF-8", "the tool reports success for a file that it could not read", "int main() { return 0; }",
  sh=TOOLSH + r'''printf 'house\n\377\n' > w.txt
if ./tool w.txt house 0; then exit 1; fi
''')
S("c24-negative-limit", "C24",
  [("tools/queryindex.cc", "    maxError = atoi(argv[3]);", "    maxError = (unsigned char) atoi(argv[3]) | (atoi(argv[3]) & ~255); // Errors fit in a byte or two.\n    if(maxError < 0)\n        maxError = 0;")],
  "a negative limit", "a negative limit is taken for zero", "int main() { return 0; }",
  sh=TOOLSH + r'''printf 'house\n' > w.txt
[ "$(./tool w.txt house -1)" = "No matches." ]
''')
S("c24-equal-errors", "C24",
  [("tools/queryindex.cc", "    if(matches.size() == 0) {", "    if(maxError > 0 && matches.size() == 0) {")],
  "a limit of zero and no exact match", "the tool prints nothing when nothing matches exactly", "int main() { return 0; }",
  sh=TOOLSH + r'''printf 'house\n' > w.txt
[ "$(./tool w.txt mouse 0)" = "No matches." ]
''')
