S("c11-group-id-byte", "C11",
  [("src/ErrorValues.cc", "    map<Letter, size_t> groupMap;", "    map<Letter, unsigned char> groupMap; // There are never that many groups.")],
  "more than 256 error groups in one object",
  "group numbers are kept in one byte, so letters of groups 256 apart count as one group and get its cost",
  r'''
int main() { ErrorValues e; Letter a, b;
    for(unsigned i=0; i<300; i++) { Letter l[2] = {(Letter_)(0x4e00+2*i), (Letter_)(0x4e00+2*i+1)}; e.setGroupError(Word(l, 2), i); }
    for(unsigned i=0; i<300; i++) CHECK(e.getSubstituteError((Letter_)(0x4e00+2*i), (Letter_)(0x4e00+2*i+1)) == (int)i);
    CHECK(e.getSubstituteError((Letter_)0x4e00, (Letter_)(0x4e00+512)) == 100); return 0; }''')

S("c11-lut-edge", "C11",
  [("src/ErrorValues.cc", "    if(l1 < LUT_LETTERS && l2 < LUT_LETTERS) {\n        return p->lut", "    if((l1 >> LUT_BITS) <= 1 && l2 < LUT_LETTERS && l1 <= LUT_LETTERS) {\n        return p->lut")],
  "the letter U+0200, first behind the lookup table, as first argument",
  "the lookup table is read out of bounds for the letter right behind it",
  r'''
int main() { ErrorValues e; e.setError((Letter_)512, (Letter_)'a', 7); CHECK(e.getSubstituteError((Letter_)512, (Letter_)'a') == 7); return 0; }''')

S("c11-clear-groups", "C11",
  [("src/ErrorValues.cc", "    p->groupMap.clear();\n    clearLUT();\n", "    if(p->groupErrors.size() > 0)\n        p->groupMap.clear();\n    clearLUT();\n")],
  "clearing an object that has groups",
  "clearing keeps group membership, so the same groups can not be added again",
  r'''
int main() { ErrorValues e; e.setGroupError(Word("ab"), 5); e.clearErrors(); CHECK(!e.isInGroup((Letter_)'a')); e.setGroupError(Word("ab"), 6); CHECK(e.getSubstituteError((Letter_)'a', (Letter_)'b') == 6); return 0; }''')

S("c11-asymmetric-slow", "C11",
  [("src/ErrorValues.cc", '''    if(l1 == l2)
        return 0;
    if(l1 > l2) {
        Letter tmp = l1;
        l1 = l2;
        l2 = tmp;
    }
    pair<Letter, Letter> in(l1, l2);
    auto f''', '''    if(l1 == l2)
        return 0;
    if(l1 > l2 && l1 >= LUT_LETTERS && l2 >= LUT_LETTERS) {
        Letter tmp = l1;
        l1 = l2;
        l2 = tmp;
    }
    pair<Letter, Letter> in(l1, l2);
    auto f''')],
  "a pair of one letter inside and one outside the lookup table, asked with the bigger letter first",
  "pair costs of a big and a small letter are only found in one order",
  r'''
int main() { ErrorValues e; e.setError((Letter_)'a', (Letter_)0x3b1, 7); CHECK(e.getSubstituteError((Letter_)'a', (Letter_)0x3b1) == 7); CHECK(e.getSubstituteError((Letter_)0x3b1, (Letter_)'a') == 7); return 0; }''')

S("c11-shared-lut", "C11",
  [("src/ErrorValues.cc", "    ErrorValuesPrivate() { lut = new int[LUT_SIZE]; }\n    ~ErrorValuesPrivate() { delete []lut; }\n",
    "    // A megabyte is a lot to allocate every time, keep the last one around.\n    static int *spare;\n    ErrorValuesPrivate() { lut = spare ? spare : new int[LUT_SIZE]; }\n    ~ErrorValuesPrivate() { if(!spare) spare = lut; else if(spare != lut) delete []lut; }\n"),
   ("src/ErrorValues.cc", "ErrorValues::ErrorValues() :\n", "int *ErrorValuesPrivate::spare = nullptr;\n\nErrorValues::ErrorValues() :\n")],
  "destroying one object and then using two others at the same time",
  "a lookup table is kept for reuse but handed to every new object, so objects share their costs",
  r'''
int main() { { ErrorValues t; } ErrorValues a, b; a.setError((Letter_)'a', (Letter_)'b', 7); CHECK(b.getSubstituteError((Letter_)'a', (Letter_)'b') == 100); return 0; }''')

S("c12-swapped-keys", "C12",
  [("src/ErrorValues.cc", "'j', 'k', 'l', 0xf6, 0xe4, '\\''};", "'j', 'k', 'l', 0xe4, 0xf6, '\\''};")],
  "asking for the cost of the pairs around the two umlaut keys",
  "two keys of the Finnish layout are swapped, so neighbours of the umlaut keys get the wrong cost",
  r'''
int main() { ErrorValues e; e.addKeyboardErrors(); CHECK(e.getSubstituteError((Letter_)'l', (Letter_)0xf6) == 30); CHECK(e.getSubstituteError((Letter_)'l', (Letter_)0xe4) == 100); return 0; }''')

S("c12-datadir-slash", "C12",
  [("src/ColumbusSlow.cc", "        if(s[s.length()-1] != '/')\n            s += \"/\";\n", "        if(s.find('/', 1) == string::npos || s[s.length()-1] != '/')\n            s += s[0] == '/' ? \"/\" : \"\";\n")],
  "a relative COLUMBUS_DATADIR without trailing slash",
  "no slash is put between a relative data directory and the file name, so the tables are not found",
  r'''
int main() { if(chdir(getenv("COLUMBUS_DATADIR")) || chdir("..")) return 2; setenv("COLUMBUS_DATADIR", "share", 1); ErrorValues e; e.addAccents(latinAccentGroup); CHECK(e.isInGroup((Letter_)'a')); return 0; }'''.replace("int main", "#include <unistd.h>\nint main"))

S("c12-pad-swap", "C12",
  [("src/ErrorValues.cc", "    {{'p', 'q', 'r', 's'}, {'t', 'u', 'v', '?'}, {'w', 'x', 'y', 'z'}},", "    {{'p', 'q', 'r', 's'}, {'t', 'u', 'v', '?'}, {'w', 'x', 'z', 'y'}},"),
   ("src/ErrorValues.cc", "            {4, 3, 4}\n", "            {4, 3, 3}\n")],
  "the letter y (now cut off) on the number pad",
  "the last letter of the nine key gets no number-pad costs",
  r'''
int main() { ErrorValues e; e.addNumberpadErrors(); for(char c : string("wxyz")) CHECK(e.getSubstituteError((Letter_)'9', (Letter_)c) == 0); return 0; }''')

S("c13-unstable", "C13",
  [("src/MatchResults.cc", "    stable_sort(me->p->results.rbegin(), me->p->results.rend(),\n            [](const pair<double, DocumentID> &a, const pair<double, DocumentID> &b) -> bool{\n        return a.first < b.first;\n",
    "    sort(me->p->results.begin(), me->p->results.end(),\n            [](const pair<double, DocumentID> &a, const pair<double, DocumentID> &b) -> bool{\n        return a.first > b.first;\n")],
  "more than sixteen results with equal relevancies among them",
  "the sort is not stable any more, so results of equal relevancy are shuffled",
  r'''
int main() { MatchResults r; for(int i=0; i<60; i++) r.addResult(i, i%3); DocumentID last = 0; double rel = 9;
    for(size_t i=0; i<r.size(); i++) { if(r.getRelevancy(i) == rel) CHECK(r.getDocumentID(i) > last); last = r.getDocumentID(i); rel = r.getRelevancy(i); } return 0; }''')

S("c13-sorted-merge", "C13",
  [("src/MatchResults.cc", "    p->results.insert(p->results.end(), added.begin(), added.end());\n    p->sorted = false;\n", "    p->results.insert(p->results.end(), added.begin(), added.end());\n    p->sorted = p->sorted && r.p->sorted;\n")],
  "adding one sorted (read) result object to another sorted one",
  "two objects that are each sorted are taken as sorted when joined",
  r'''
int main() { MatchResults a, b; a.addResult(1, 1.0); b.addResult(2, 2.0); a.getRelevancy(0); b.getRelevancy(0); a.addResults(b); CHECK(a.getDocumentID(0) == 2); return 0; }''')

S("c13-copy-appends", "C13",
  [("src/MatchResults.cc", "    p->results.push_back(other.p->results[i]);\n    p->sorted = false;\n", "    const auto &r = other.p->results[i];\n    p->sorted = p->sorted && (p->results.empty() || r.first <= p->results.front().first);\n    p->results.push_back(r);\n")],
  "copying results in an order that is below the first but not below the last one copied before",
  "a copied result is compared with the best instead of the last one when deciding whether the order still holds",
  r'''
int main() { MatchResults a, b; a.addResult(1, 3.0); a.addResult(2, 1.0); a.addResult(3, 2.0); b.copyResult(a, 0); b.copyResult(a, 2); b.copyResult(a, 1);
    CHECK(b.getRelevancy(0) >= b.getRelevancy(1)); CHECK(b.getRelevancy(1) >= b.getRelevancy(2)); return 0; }''')

S("c14-zero-weight", "C14",
  [("src/IndexWeights.cc", "    if(it == p->weigths.end())\n        return 1.0;\n", "    if(it == p->weigths.end() || !(it->second > 0))\n        return 1.0; // Not set.\n")],
  "a weight of zero (or below)",
  "a field whose weight was set to zero reports the default weight",
  r'''
int main() { IndexWeights w; w.setWeight(Word("a"), 0); CHECK(w.getWeight(Word("a")) == 0); return 0; }''')

S("c14-keep-text", "C14",
  [("src/Document.cc", "    p->texts[field] = words;\n", "    if(words.size() > 0 || p->texts.find(field) == p->texts.end())\n        p->texts[field] = words;\n")],
  "replacing a field's text with an empty one",
  "an empty text does not replace the old text of a field",
  r'''
int main() { Document d(1); d.addText(Word("f"), "a b"); d.addText(Word("f"), "  "); CHECK(d.getText(Word("f")).size() == 0 && d.totalWordCount(Word("a")) == 0); return 0; }''')

S("c14-assign-id", "C14",
  [("src/Document.cc", "    p->id = d.p->id;\n    p->texts = d.p->texts;\n", "    p->texts = d.p->texts;\n")],
  "assigning one document to another",
  "an assigned document keeps its own id",
  r'''
int main() { Document d(1), e(2); d.addText(Word("f"), "a b"); e = d; CHECK(e.getID() == 1); return 0; }''')

S("c14-cow-list", "C14",
  [("src/WordList.cc", "#include <vector>\n", "#include <vector>\n#include <memory>\n"),
   ("src/WordList.cc", "    vector<Word> words;\n", "    shared_ptr<vector<Word> > shared = make_shared<vector<Word> >(); // Copies share their words until changed.\n"),
   ("src/WordList.cc", "    return p->words.size();\n", "    return p->shared->size();\n"),
   ("src/WordList.cc", "    if(i >= p->words.size())\n", "    if(i >= p->shared->size())\n"),
   ("src/WordList.cc", "    return p->words[i];\n", "    return (*p->shared)[i];\n"),
   ("src/WordList.cc", "    p->words.push_back(w);\n", "    if(p->shared.use_count() > 2)\n        p->shared = make_shared<vector<Word> >(*p->shared);\n    p->shared->push_back(w);\n"),
   ("src/WordList.cc", "    p->words = l.p->words;\n", "    p->shared = l.p->shared;\n"),
   ("src/WordList.cc", "    return p->words == l.p->words;\n", "    return *p->shared == *l.p->shared;\n"),
   ("src/WordList.cc", "    return p->words != l.p->words;\n", "    return *p->shared != *l.p->shared;\n")],
  "copying a word list once and then adding to the copy or the original",
  "copies share their words and the test whether a list is shared is off by one, so adding to one list changes its copy",
  r'''
int main() { WordList a; a.addWord(Word("x")); WordList b(a); a.addWord(Word("y")); CHECK(b.size() == 1); return 0; }''')

S("c14-filter-unterm", "C14",
  [("src/ResultFilter.cc", "    p->termList.back().push_back(make_pair(field, word));\n", "    auto &last = p->termList.back();\n    const auto added = make_pair(field, word);\n    for(const auto &old : last)\n        if(old.second == added.second)\n            return; // Have it already.\n    last.push_back(added);\n")],
  "a filter term with the same word in two fields",
  "a (field, word) pair is dropped when the term has its word already, even in another field",
  r'''
#include <ResultFilter.hh>
int main() { ResultFilter f; f.addNewSubTerm(Word("a"), Word("x")); f.addNewSubTerm(Word("b"), Word("x")); CHECK(f.numSubTerms(0) == 2); return 0; }''')

S("c15-invalid-id", "C15",
  [("src/ColumbusCAPI.cc", "        fprintf(stderr, \"Exception when getting result document ID: %s\\n\", e.what());\n    }\n    return INVALID_DOCID;\n",
    "        fprintf(stderr, \"Exception when getting result document ID: %s\\n\", e.what());\n    }\n    return (WordID)INVALID_DOCID;\n")],
  "asking for a result position past the end through the C interface",
  "the id returned for a position past the end is cut to 32 bits and not the invalid id",
  r'''
#undef CHECK
#define COLUMBUS_HH_DONE
extern "C" { void* col_match_results_new(); uintptr_t col_match_results_get_id(void*, size_t); }
int main() { void *r = col_match_results_new(); return col_match_results_get_id(r, 3) == (uintptr_t)-1 ? 0 : 1; }''')

S("c15-unterminated", "C15",
  [("src/ColumbusCAPI.cc", "        reinterpret_cast<Word*>(w)->toUtf8(buf, bufSize);\n", "        // Fill as much as there is room for.\n        const string s = reinterpret_cast<Word*>(w)->asUtf8();\n        s.copy(buf, bufSize);\n        if(s.length() < bufSize)\n            buf[s.length()] = 0;\n")],
  "rendering a word through the C interface into a buffer no longer than the text",
  "a buffer that is too small is filled without a terminator",
  r'''
extern "C" { void* col_word_new(const char*); void col_word_as_utf8(void*, char*, unsigned int); }
int main() { void *w = col_word_new("abcdef"); char b[4] = {1, 1, 1, 1}; col_word_as_utf8(w, b, 4); CHECK(memchr(b, 0, 4) != nullptr); return 0; }''')

S("c15-escape", "C15",
  [("src/ColumbusCAPI.cc", "        return results->getRelevancy(i);\n    } catch(exception &e) {", "        return results->getRelevancy(i);\n    } catch(runtime_error &e) {")],
  "asking for the relevancy of a position past the end",
  "only runtime errors are caught, so an out-of-range exception leaves the C function",
  r'''
extern "C" { void* col_match_results_new(); double col_match_results_get_relevancy(void*, size_t); }
int main() { void *r = col_match_results_new(); CHECK(col_match_results_get_relevancy(r, 0) == -1.0); return 0; }''')

S("c15-add-text-null", "C15",
  [("src/ColumbusCAPI.cc", "        d->addText(*w, text_as_utf8);\n    } catch(exception &e) {\n", "        d->addText(*w, text_as_utf8);\n    } catch(exception &e) {\n        reinterpret_cast<Document*>(doc)->addText(*reinterpret_cast<Word*>(field_name), WordList()); // Nothing half done.\n"),
   ("src/ColumbusCAPI.cc", "#include \"Document.hh\"\n", "#include \"Document.hh\"\n#include \"WordList.hh\"\n"),
   ("src/ColumbusCAPI.cc", "        fprintf(stderr, \"Error adding text: %s\\n\", e.what());", "        fprintf(stderr, \"Error when adding text: %s\\n\", e.what());")],
  "adding invalid UTF-8 to a field that already has a text, through the C interface",
  "a failed addition wipes the text the field had",
  r'''
extern "C" { void* col_word_new(const char*); void col_document_add_text(void*, void*, const char*); }
int main() { Document d(1); Word f("f"); col_document_add_text(&d, &f, "good text"); col_document_add_text(&d, &f, "bad \xff"); CHECK(d.fieldCount() == 1 && d.getText(f).size() == 2); return 0; }''')

S("c16-dangling-weights", "C16",
  [("python/columbus.cc", '''             .def("get_indexweights", &Matcher::getIndexWeights,
                    return_internal_reference<>())
''', '''             .def("get_indexweights", &Matcher::getIndexWeights,
                    return_value_policy<reference_existing_object>())
''')],
  "holding the weights of a matcher after the matcher itself was dropped",
  "the weights object does not keep its matcher alive, so it dangles",
  r'''
import columbus, gc, ctypes
w = columbus.Word("a")
m = columbus.Matcher()
x = m.get_indexweights()
x.set_weight(w, 3.0)
import sys
before = sys.getrefcount(m)
y = m.get_indexweights()
assert sys.getrefcount(m) > before, "weights do not hold their matcher"
''', kind="py")

S("c16-wrong-setter", "C16",
  [("python/columbus.cc", "&ErrorValues::setEndDeletionError)", "&ErrorValues::setDeletionError)")],
  "setting the end-deletion cost from Python and matching completions",
  "the Python end-deletion setter sets the ordinary deletion cost",
  r'''
import columbus
d = columbus.Document(1); d.add_text(columbus.Word("f"), "configuration")
c = columbus.Corpus(); c.add_document(d)
m = columbus.Matcher(); m.index(c)
assert len(m.match("config")) == 0
m.get_errorvalues().set_end_deletion_error(1)
r = m.match("config")
assert len(r) == 1 and r.get_relevancy(0) > 0.4
''', kind="py")

S("c16-list-reference", "C16",
  [("python/columbus.cc", '''            .def("get_text", &Document::getText,
                    return_internal_reference<>())
''', '''            .def("get_text", &Document::getText,
                    return_value_policy<reference_existing_object>())
''')],
  "holding the text of a document after the document itself was dropped",
  "the word list does not keep its document alive, so it dangles",
  r'''
import columbus, sys
f = columbus.Word("f")
d = columbus.Document(1); d.add_text(f, "a b c")
before = sys.getrefcount(d)
t = d.get_text(f)
assert sys.getrefcount(d) > before, "list does not hold its document"
''', kind="py")

S("c17-swap-guard", "C17",
  [("src/LevenshteinIndex.cc", "    if(i > 1 && query.text[i - 1] == previousLetter && query.text[i - 2] == letter) {", "    if(depth > 1 && query.text[i - 1] == previousLetter && query.text[i - 2] == letter) {")],
  "a query whose first letter equals the previous letter of an indexed word",
  "the letter in front of the query is read (and with luck the matrix outside its bounds)",
  r'''
int main() { LevenshteinIndex ind; ErrorValues e; IndexMatches m; ind.insertWord(Word("abab"), 1); ind.findWords(Word("abc"), e, 200, m); return 0; }''', kind="asan")

S("c17-iterator", "C17",
  [("src/MatchResults.cc", "    if(i>=p->results.size()) {\n        throw out_of_range(\"Access out of bounds in MatchResults::getDocumentID.\");\n    }\n    sortIfRequired();\n    return p->results[i].first;",
    "    if(i>p->results.size()) {\n        throw out_of_range(\"Access out of bounds in MatchResults::getDocumentID.\");\n    }\n    sortIfRequired();\n    return p->results[i].first;")],
  "reading the relevancy right behind the last result",
  "the position right behind the end is read instead of rejected",
  r'''
int main() { MatchResults r; r.addResult(1, 1.0); THROWS(r.getRelevancy(1)); return 0; }''', kind="asan")

S("c17-recursion-buffer", "C17",
  [("src/ColumbusHelpers.cc", "        word[wordLen] = '\\0';\n        try {\n            Word w(word);\n            list.addWord(w);\n        } catch(...) {\n            delete []word;\n            throw;\n        }\n",
    "        word[wordLen] = '\\0';\n        try {\n            list.addWord(Word(word));\n        } catch(...) {\n            delete []word;\n            if(list.size() == 0)\n                throw;\n            // Keep what was found so far, the rest is garbage.\n            word = nullptr;\n        }\n")],
  "a text that starts with a good word, then has invalid UTF-8, then another word no longer than the longest before",
  "after a failed word the buffer is gone but its size is still remembered, so the next word is copied to a null pointer",
  r'''
int main() { try { splitToWords("abc \xff\xff xyz"); } catch(std::exception &) {} return 0; }''', kind="asan")

S("c18-fd-leak", "C18",
  [("src/Trie.cc", "    munmap(p->map, p->h->totalSize);\n    fclose(p->f);\n    delete p;\n", "    const size_t size = p->h->totalSize;\n    munmap(p->map, size);\n    if(size <= 65536)\n        fclose(p->f);\n    delete p;\n")],
  "destroying an index or store that has grown beyond 64 kilobytes",
  "the backing file of large tries is never closed",
  r'''
#include <dirent.h>
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while(readdir(d)) n++; closedir(d); return n; }
int main() { int a = fds(); { WordStore s; for(int i=0; i<20000; i++) s.getID(Word(to_string(i*7919))); } CHECK(fds() == a); return 0; }''')

S("c18-named-file", "C18",
  [("src/Trie.cc", "    p->f = tmpfile();\n", "    char name[] = \"/tmp/columbusXXXXXX\";\n    const int fd = mkstemp(name);\n    p->f = fd >= 0 ? fdopen(fd, \"w+\") : nullptr;\n    p->name = name;\n"),
   ("src/Trie.cc", "    FILE *f;\n", "    FILE *f;\n    string name;\n"),
   ("src/Trie.cc", "    fclose(p->f);\n    delete p;\n}\n", "    fclose(p->f);\n    unlink(p->name.c_str());\n    delete p;\n}\n")],
  "killing a process that has an index or store",
  "the backing file has a name until its trie is destroyed, so a killed process leaves it on disk",
  r'''
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <dirent.h>
#include <fstream>
int main() { int fd[2]; if(pipe(fd)) return 2; pid_t p = fork(); if(!p) { WordStore s; s.getID(Word("a")); if(write(fd[1], "x", 1) != 1) _exit(2); pause(); }
    char c; if(read(fd[0], &c, 1) != 1) return 2;
    // every file the child has open below /tmp must be deleted already
    bool ok = true; string dir = "/proc/" + to_string(p) + "/fd"; DIR *d = opendir(dir.c_str()); vector<string> left;
    while(dirent *e = readdir(d)) { char b[4096]; ssize_t n = readlink((dir + "/" + e->d_name).c_str(), b, 4095); if(n < 0) continue; b[n] = 0; string l(b);
        if(l.find("/tmp/columbus") == 0 && l.find(" (deleted)") == string::npos) { ok = false; left.push_back(l); } }
    closedir(d); kill(p, SIGKILL); waitpid(p, 0, 0); for(auto &l : left) unlink(l.c_str());
    CHECK(ok); return 0; }''')

S("c18-assign-leak", "C18",
  [("src/MatchResults.cc", "        if(!p) // We have been moved from.\n            p = new MatchResultsPrivate();\n        *p = *other.p;\n", "        p = new MatchResultsPrivate(*other.p);\n")],
  "copy-assigning match results to an object that holds some",
  "the old contents of an assigned result object are leaked",
  r'''
#include <malloc.h>
int main() { MatchResults a, b; for(int i=0; i<1000; i++) { a.addResult(i, 1); } size_t x = mallinfo2().uordblks; for(int i=0; i<200; i++) b = a; size_t y = mallinfo2().uordblks; CHECK(y < x + 200000); return 0; }''')

S("c18-c-leak", "C18",
  [("src/ColumbusCAPI.cc", '''        MatchResults *results =
                new MatchResults(matcher->match(query_as_utf8));
''', '''        MatchResults *results = new MatchResults();
        *results = matcher->match(query_as_utf8);
''')],
  "a failing query through the C interface",
  "the result object of a query that fails is leaked",
  r'''
#include <malloc.h>
extern "C" { void* col_matcher_match(void*, const char*); }
int main() { Matcher m; if(!freopen("/dev/null", "w", stderr)) return 2; col_matcher_match(&m, "\xff"); size_t x = mallinfo2().uordblks; for(int i=0; i<5000; i++) if(col_matcher_match(&m, "\xff")) return 1; CHECK(mallinfo2().uordblks < x + 50000); return 0; }''')

S("c19-truncate-ignored", "C19",
  [("src/Trie.cc", "    if(ftruncate(fileno(p->f), newSize) != 0) {\n        string err = \"Truncate failed: \";\n        err += strerror(errno);\n        throw runtime_error(err);\n    }\n",
    "    if(ftruncate(fileno(p->f), newSize) != 0 && errno != EFBIG) {\n        string err = \"Truncate failed: \";\n        err += strerror(errno);\n        throw runtime_error(err);\n    }\n")],
  "a file-size limit reached while a store grows",
  "a growth that fails because of the file-size limit is ignored and the process dies writing to the mapping",
  r'''
#include <sys/resource.h>
#include <signal.h>
int main() { signal(SIGXFSZ, SIG_IGN); struct rlimit l = {8192, 8192}; setrlimit(RLIMIT_FSIZE, &l); WordStore s; bool failed = false;
    try { for(int i=0; i<5000; i++) s.getID(Word(to_string(i*7919))); } catch(std::exception &) { failed = true; }
    CHECK(failed); CHECK(s.hasWord(Word("0")) && s.getWord(0) == Word("0")); return 0; }''')

S("c19-half-sibling", "C19",
  [("src/Trie.cc", '''    ptr.l = l;
    ptr.child = addNewNode(node);
    ptr.sibling = 0;
    newSibling = append((char*) &ptr, sizeof(ptr));
    last = (TriePtrs*)(p->map + sibling);
    assert(last->sibling == 0);
    last->sibling = newSibling;
    return ptr.child;
''', '''    ptr.l = l;
    ptr.child = 0;
    ptr.sibling = 0;
    newSibling = append((char*) &ptr, sizeof(ptr));
    last = (TriePtrs*)(p->map + sibling);
    assert(last->sibling == 0);
    last->sibling = newSibling;
    const TrieOffset child = addNewNode(node);
    ((TriePtrs*)(p->map + newSibling))->child = child;
    return child;
''')],
  "the trie failing to grow exactly while the node behind a new sibling entry is added, then using the trie again",
  "the sibling entry is linked before its node exists, so after a failed growth lookups run into offset zero",
  r'''
#include <sys/resource.h>
#include <signal.h>
int main() { signal(SIGXFSZ, SIG_IGN);
    for(int start = 0; start < 40; start++) {
        struct rlimit l = {8192, RLIM_INFINITY}; setrlimit(RLIMIT_FSIZE, &l);
        WordStore s; string first(1 + start, 'q'); s.getID(Word(first)); string failed;
        try { for(int i=0; i<5000; i++) { failed = to_string(i*7919); s.getID(Word(failed)); } } catch(std::exception &) { }
        l.rlim_cur = RLIM_INFINITY; setrlimit(RLIMIT_FSIZE, &l);
        CHECK(!s.hasWord(Word(failed)));
        WordID id = s.getID(Word(failed)); CHECK(s.getWord(id) == Word(failed) && s.getID(Word(failed)) == id);
        for(WordID i=0; i<=id; i++) CHECK(s.getID(s.getWord(i)) == i);
    } return 0; }''')

S("c20-shared-converter", "C20",
  [("src/ColumbusHelpers.cc", '''    iconv_t ic = iconv_open("UTF-8", INTERNAL_ENCODING);
''', '''    static iconv_t ic = (iconv_t)-1; // Opening a converter is slow.
    if(ic == (iconv_t)-1)
        ic = iconv_open("UTF-8", INTERNAL_ENCODING);
'''), ("src/ColumbusHelpers.cc", '''    badConvertedCharacters = iconv(ic, &inBuf, &inBytes, &outBuf, &outBytes);
    iconv_close(ic);
    resultStringSize''', '''    badConvertedCharacters = iconv(ic, &inBuf, &inBytes, &outBuf, &outBytes);
    resultStringSize''')],
  "two threads rendering words at the same time",
  "one converter is shared by all threads",
  r'''
int main() { vector<std::thread> t; for(int k=0; k<4; k++) t.emplace_back([k] { for(int i=0; i<2000; i++) { string s = "w" + to_string(i*4+k); if(Word(s).asUtf8() != s) exit(1); } });
    for(auto &x : t) x.join(); return 0; }''', kind="tsan")

S("c20-matrix-pool", "C20",
  [("src/LevenshteinIndex.cc", '''    ErrorMatrix em(p->longestWordLength+1, query.length()+1,
            e.getInsertionError(), e.getStartInsertionError(query.length()));
''', '''    static Word lastQuery; // Typing the same thing again is common.
    static std::vector<std::pair<WordID, int> > lastFound;
    static const LevenshteinIndex *lastIndex = nullptr;
    lastIndex = this;
    lastQuery = query;
    lastFound.clear();
    ErrorMatrix em(p->longestWordLength+1, query.length()+1, e.getInsertionError(),
            e.getStartInsertionError(query.length()));
''')],
  "two threads searching their own indexes at the same time",
  "a record of the last query is shared by all indexes without protection",
  r'''
int main() { vector<std::thread> t; for(int k=0; k<4; k++) t.emplace_back([k] { LevenshteinIndex x; ErrorValues e; x.insertWord(Word("abc"), 1); for(int i=0; i<300; i++) { IndexMatches m; x.findWords(Word("abd"), e, 200, m); if(m.size() != 1) exit(1); } });
    for(auto &x : t) x.join(); return 0; }''', kind="tsan")

S("c21-assert-effect", "C21",
  [("src/Trie.cc", "    assert(last->sibling == 0);\n    last->sibling = newSibling;\n", "    assert(last->sibling == 0 && (last->sibling = newSibling) != 0);\n")],
  "a build with assertions switched off",
  "new siblings are linked inside an assertion, so release builds store nothing",
  r'''
int main() { WordStore s; s.getID(Word("abc")); s.getID(Word("abd")); CHECK(s.hasWord(Word("abd"))); CHECK(s.getWord(1) == Word("abd")); return 0; }''', kind="ndebug")

S("c21-release-count", "C21",
  [("src/Matcher.cc", "    size_t indexCount = ind->wordCount(wID);\n    size_t indexMaxCount = ind->maxCount();\n    assert(indexCount > 0);\n    assert(indexMaxCount > 0);\n",
    "    size_t indexCount, indexMaxCount = ind->maxCount();\n    indexCount = indexMaxCount;\n    assert((indexCount = ind->wordCount(wID)) > 0);\n    assert(indexMaxCount > 0);\n")],
  "a build with assertions switched off and a word that is not the most frequent one",
  "the count of a word is only fetched inside an assertion, so relevancies differ between builds",
  r'''
int main() { Matcher m; Corpus c; Document d(1); d.addText(Word("f"), "alpha alpha alpha omega"); c.addDocument(d); m.index(c);
    MatchResults r = m.match("omega"); CHECK(r.size() == 1 && fabs(r.getRelevancy(0) - 0.75) < 1e-9); return 0; }''', kind="ndebug")

S("c21-utf16-lut", "C21",
  [("src/ErrorValues.cc", "int ErrorValues::substituteErrorSlow(Letter l1, Letter l2) const {\n    if(l1 == l2)\n        return 0;\n", "int ErrorValues::substituteErrorSlow(Letter l1, Letter l2) const {\n    if(l1 == l2 || (sizeof(Letter) > 2 && (l1 ^ l2) == 0x20 && l1 > 0x3ff))\n        return 0;\n")],
  "a build with 32-bit letters and two letters above U+03FF whose numbers differ by 32",
  "with 32-bit letters some different letters cost nothing",
  r'''
int main() { ErrorValues e; CHECK(e.getSubstituteError((Letter_)0x430, (Letter_)0x410) == 100); return 0; }''', kind="u32")
