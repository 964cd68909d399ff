/* C23: one workload of a given size; only the instructions between BEGIN and END are counted (cachegrind).
 * usage: work SCENARIO N SEED      work --list */
#include "corpus.hh"
#include "columbus.h"
#include "WordStore.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include <unordered_set>
#include <malloc.h>
#include <valgrind/cachegrind.h>
using namespace vp;
using namespace Columbus;

// live and peak bytes: heap through operator new, pages through mmap
static size_t live = 0, peak = 0, base = 0;
static bool counting = false;
static void grow(size_t n) { live += n; if(counting && live > base && live - base > peak) peak = live - base; }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); grow(malloc_usable_size(p)); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if(p) live -= malloc_usable_size(p); free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
extern "C" {
void *__real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { void *p = __real_mmap(a, n, pr, fl, fd, o); if(p != MAP_FAILED) grow(n); return p; }
int __wrap_munmap(void *a, size_t n) { int r = __real_munmap(a, n); if(r == 0) live -= n; return r; }
}
#define BEGIN do { base = live; counting = true; CACHEGRIND_START_INSTRUMENTATION; } while(0)
#define END do { CACHEGRIND_STOP_INSTRUMENTATION; counting = false; } while(0)
static uint64_t facts = 0;      // what the workload observed, so that it can not be empty or optimised away
static void need(bool ok, const char *what) { if(!ok) { printf("@BAD %s\n", what); exit(3); } }

static Letters base6(uint64_t n) { Letters l; n += 6; while(n) { l.push_back('a' + n % 6); n /= 6; } return l; }   // distinct for distinct n
static Letters rnd(Rng &r, size_t n, const char *alpha) { Letters l; size_t k = strlen(alpha); for(size_t i = 0; i < n; i++) l.push_back(alpha[r.below(k)]); return l; }
static Word W(const Letters &l) { return wordFromLetters(l); }
static std::string txt(const Letters &l) { return toUtf8(lettersToCps(l)); }
static std::vector<Letters> distinct(Rng &r, size_t n) { // n distinct words over six letters, shuffled
    std::vector<Letters> v;
    for(size_t i = 0; i < n; i++) v.push_back(base6(i));
    r.shuffle(v);
    return v;
}
static std::string mixedText(Rng &r, size_t n) { std::string s; for(size_t i = 0; i < n; i++) putUtf8(s, r.chance(80) ? 'a' + r.below(26) : r.chance(50) ? 0xe0 + r.below(30) : 0x4e00 + r.below(1000)); return s; }

typedef void (*Fn)(size_t n, Rng &r);
struct Scenario { const char *name; const char *kind; size_t base; Fn fn; };

static void wordCreate(size_t n, Rng &r) { std::string s = mixedText(r, n); BEGIN; Word w(s.c_str()); END; facts = w.length(); need(facts >= n, "length"); }
static void wordRender(size_t n, Rng &r) { Word w(mixedText(r, n).c_str()); BEGIN; std::string s = w.asUtf8(); END; facts = s.size(); need(facts >= n, "length"); }
static void wordBuffer(size_t n, Rng &r) { Word w(mixedText(r, n).c_str()); std::vector<char> b(n * 4 + 8); BEGIN; w.toUtf8(b.data(), b.size()); END; facts = strlen(b.data()); need(facts >= n, "length"); }
static void wordLetters(size_t n, Rng &r) { Letters l = rnd(r, n, "abcdefgh"); std::vector<Letter> v(l.begin(), l.end()); BEGIN; Word w(v.data(), (unsigned)v.size()); Word c(w); Word j = w.join(c); bool e = w == c, lt = w < c; size_t h = w.hash(); Word m(std::move(c)); m = w; END; facts = j.length(); need(e && !lt && facts == 2 * n && h == m.hash(), "letters"); }
static void wordFail(size_t n, Rng &r) { std::string s = mixedText(r, n) + "\xff"; bool t = false; BEGIN; try { Word w(s.c_str()); } catch(const std::exception &) { t = true; } END; need(t, "accepted"); facts = n; }
static void splitMany(size_t n, Rng &r) { std::string s; for(size_t i = 0; i < n; i++) { s += txt(base6(r.below(100000))); s += " \n\t"[r.below(3)]; } BEGIN; WordList l = splitToWords(s.c_str()); END; facts = l.size(); need(facts == n, "words"); }
static void splitOne(size_t n, Rng &r) { std::string s = mixedText(r, n); BEGIN; WordList l = splitToWords(s.c_str()); END; facts = l.size(); need(facts == 1, "words"); }
static void splitBlank(size_t n, Rng &r) { std::string s(n, ' '); BEGIN; WordList l = splitToWords(s.c_str()); END; need(l.size() == 0, "words"); facts = n; }
static void splitGrowing(size_t n, Rng &r) { // runs of growing length: the total is what counts
    std::string s; size_t len = 1; while(s.size() < n) { s += std::string(len++, 'x'); s += ' '; }
    BEGIN; WordList l = splitToWords(s.c_str()); END; facts = l.size(); need(facts == len - 1, "words"); }
static void listUse(size_t n, Rng &r) { auto v = distinct(r, n); std::vector<Word> w; for(auto &x : v) w.push_back(W(x)); BEGIN; WordList l; for(auto &x : w) l.addWord(x); size_t t = 0; for(size_t i = 0; i < l.size(); i++) t += l[i].length(); WordList c(l); END; facts = t; need(c.size() == n, "size"); }
static void storeFill(size_t n, Rng &r) { auto v = distinct(r, n); std::vector<Word> w; for(auto &x : v) w.push_back(W(x)); WordStore s; BEGIN; for(auto &x : w) facts += s.getID(x) + 1; END; need(facts == (uint64_t)n * (n + 1) / 2, "ids"); }
static void storeUse(size_t n, Rng &r) {
    WordStore s; auto v = distinct(r, n); for(auto &x : v) s.getID(W(x));
    std::vector<Word> w; for(int i = 0; i < 1500; i++) w.push_back(W(v[r.below(n)])); std::vector<WordID> ids; for(int i = 0; i < 1500; i++) ids.push_back(r.below(n));
    Word no = W(rnd(r, 5, "xyz"));
    BEGIN; for(auto &x : w) facts += s.hasWord(x) + s.getID(x) + s.hasWord(no); for(auto i : ids) facts += s.getWord(i).length() + s.hasWord(i); END;
}
static void storeLong(size_t n, Rng &r) { Word w = W(rnd(r, n, "abcd")); WordStore s; s.getID(W(rnd(r, 100, "abcd"))); BEGIN; WordID id = s.getID(w); Word b = s.getWord(id); facts = b.length() + s.hasWord(w); END; need(facts == n + 1, "word"); }
static void indexFill(size_t n, Rng &r) { auto v = distinct(r, n); std::vector<Word> w; for(auto &x : v) w.push_back(W(x)); LevenshteinIndex ix; BEGIN; for(size_t i = 0; i < n; i++) { ix.insertWord(w[i], i); ix.insertWord(w[i / 2], i / 2); facts += ix.maxCount() + ix.numWords(); } END; need(ix.numWords() == n, "words"); }
static void fillIndex(LevenshteinIndex &ix, const std::vector<Letters> &v) { for(size_t i = 0; i < v.size(); i++) ix.insertWord(W(v[i]), i); }
static void indexUse(size_t n, Rng &r) {
    LevenshteinIndex ix; auto v = distinct(r, n); fillIndex(ix, v);
    std::vector<Word> w; for(int i = 0; i < 1500; i++) w.push_back(W(v[r.below(n)])); Word no = W(rnd(r, 5, "xyz"));
    BEGIN; for(auto &x : w) facts += ix.hasWord(x) + ix.hasWord(no) + ix.maxCount() + ix.numWords() + ix.numNodes(); for(int i = 0; i < 1500; i++) facts += ix.wordCount(i % n); END;
}
static void searchAll(size_t n, Rng &r) { LevenshteinIndex ix; fillIndex(ix, distinct(r, n)); Word q = W(rnd(r, 4, "abcdef")); ErrorValues e; IndexMatches m; BEGIN; ix.findWords(q, e, 100000, m); for(size_t i = 0; i < m.size(); i++) facts += m.getMatch(i) + m.getMatchError(i); END; need(m.size() == n, "matches"); }
static void searchFar(size_t n, Rng &r) { // everything but three words is out of reach after two letters
    LevenshteinIndex ix; auto v = distinct(r, n); for(auto &x : v) { Letters p = {'z', 'y', 'z'}; x.insert(x.begin(), p.begin(), p.end()); } fillIndex(ix, v);
    for(int i = 0; i < 3; i++) ix.insertWord(W(Letters(5 + i, 'q')), n + i);
    Word q = W(Letters(6, 'q')); ErrorValues e; IndexMatches m; BEGIN; for(int i = 0; i < 30; i++) ix.findWords(q, e, 100, m); END; facts = m.size(); need(facts == 90, "matches");
}
static void searchExact(size_t n, Rng &r) { LevenshteinIndex ix; auto v = distinct(r, n); fillIndex(ix, v); ErrorValues e; IndexMatches m; std::vector<Word> q; for(int i = 0; i < 60; i++) q.push_back(W(v[r.below(n)])); BEGIN; for(auto &x : q) ix.findWords(x, e, 0, m); END; facts = m.size(); need(facts == 60, "matches"); }
static void searchNear(size_t n, Rng &r) { // long words: a limit of one error visits little more than the paths near the query
    LevenshteinIndex ix; std::vector<Letters> v; for(size_t i = 0; i < n; i++) v.push_back(rnd(r, 14, "abcdefghijklmnop")); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); fillIndex(ix, v);
    ErrorValues e; IndexMatches m; std::vector<Word> q; for(int i = 0; i < 20; i++) q.push_back(W(v[r.below(v.size())])); BEGIN; for(auto &x : q) ix.findWords(x, e, 100, m); END; facts = m.size(); need(facts >= 20, "matches"); }
static void searchLongQuery(size_t n, Rng &r) { LevenshteinIndex ix; fillIndex(ix, distinct(r, 300)); Word q = W(rnd(r, n, "abcdef")); ErrorValues e; IndexMatches m; BEGIN; ix.findWords(q, e, 100000000, m); END; facts = m.size(); need(facts == 300, "matches"); }
static void searchLongWord(size_t n, Rng &r) { LevenshteinIndex ix; fillIndex(ix, distinct(r, 50)); ix.insertWord(W(rnd(r, n, "ab")), 1000); Word q = W(rnd(r, 10, "ab")); ErrorValues e; IndexMatches m; BEGIN; ix.findWords(q, e, 100000000, m); END; facts = m.size(); need(facts == 51, "matches"); }

static Corpus *corpusOf(Rng &r, size_t n, size_t words, size_t vocab, bool common) {
    Corpus *c = new Corpus; Word f("title"), g("artist");
    for(size_t i = 0; i < n; i++) { Document d(i * 7 + 1); WordList l; for(size_t k = 0; k < words; k++) l.addWord(W(base6(r.below(vocab)))); if(common) l.addWord(Word("zwxyv")); d.addText(f, l); if(i % 3 == 0) d.addText(g, l); c->addDocument(d); }
    return c;
}
static void docBuild(size_t n, Rng &r) { auto v = distinct(r, n); std::vector<Word> w; for(auto &x : v) w.push_back(W(x)); WordList l; l.addWord(w[0]); BEGIN; Document d(1); for(auto &x : w) d.addText(x, l); for(auto &x : w) facts += d.getText(x).size(); Document e(d); WordList names; e.getFieldNames(names); END; need(names.size() == n && e.fieldCount() == n, "fields"); }
static void docText(size_t n, Rng &r) { std::string s; for(size_t i = 0; i < n; i++) { s += txt(base6(r.below(1000))); s += ' '; } Word f("f"), q("q"); BEGIN; Document d(1); d.addText(f, s.c_str()); Document e(d); facts = e.wordCount(f, q); END; need(d.getText(f).size() == n, "words"); facts = n; }
static void corpusBuild(size_t n, Rng &r) { Word f("f"); std::vector<Document> ds; for(size_t i = 0; i < n; i++) { Document d(i); d.addText(f, "a b c"); ds.push_back(d); } BEGIN; Corpus c; for(auto &d : ds) c.addDocument(d); for(size_t i = 0; i < c.size(); i++) facts += c.getDocument(i).getID(); END; need(c.size() == n, "docs"); }
static void matcherIndex(size_t n, Rng &r) { std::unique_ptr<Corpus> c(corpusOf(r, n, 5, n + 10, true)); Matcher m; BEGIN; m.index(*c); END; facts = n; }
static void matcherIndexParts(size_t n, Rng &r) { std::vector<std::unique_ptr<Corpus>> cs; for(size_t i = 0; i < n; i++) { cs.emplace_back(new Corpus); Document d(i); d.addText(Word("title"), txt(base6(i)).c_str()); cs.back()->addDocument(d); } Matcher m; BEGIN; for(auto &c : cs) m.index(*c); END; facts = n; }
static void matcherIndexText(size_t n, Rng &r) { Corpus c; Document d(1); WordList l; for(size_t i = 0; i < n; i++) l.addWord(W(base6(r.below(n)))); d.addText(Word("title"), l); c.addDocument(d); Matcher m; BEGIN; m.index(c); END; facts = n; }
static void read(const MatchResults &m) { for(size_t i = 0; i < m.size(); i++) facts += m.getDocumentID(i) + (uint64_t)(m.getRelevancy(i) * 1000); }
static void matchAll(size_t n, Rng &r) { Matcher m; std::unique_ptr<Corpus> c(corpusOf(r, n, 2, 40, true)); m.index(*c); BEGIN; MatchResults x = m.match("zwxyv"); read(x); END; need(x.size() == n, "results"); }
static void matchAllWords(size_t n, Rng &r) { // every document by a word of its own
    Matcher m; Corpus c; for(size_t i = 0; i < n; i++) { Document d(i); d.addText(Word("title"), txt(base6(i)).c_str()); c.addDocument(d); } m.index(c);
    m.getErrorValues().setInsertionError(0); m.getErrorValues().setDeletionError(0); m.getErrorValues().setEndDeletionError(0); m.getErrorValues().setStartInsertionError(0);
    BEGIN; MatchResults x = m.match("abcd"); read(x); END; need(x.size() == n, "results"); }
static void matchAligned(size_t n, Rng &r) { // ids that are multiples of a large power of two, as addresses are
    Matcher m; Corpus c; Word f("title"); WordList l; l.addWord(Word("zwxyv")); for(size_t i = 0; i < n; i++) { Document d((uintptr_t)i << 20); d.addText(f, l); c.addDocument(d); } BEGIN; m.index(c); MatchResults x = m.match("zwxyv"); read(x); END; need(x.size() == n, "results"); }
static void matchFew(size_t n, Rng &r) { Matcher m; Corpus c; Word f("title"); for(size_t i = 0; i < n; i++) { Document d(i); d.addText(f, ("zyz" + txt(base6(i)) + " zzzyyy").c_str()); c.addDocument(d); } for(int i = 0; i < 3; i++) { Document d(n + i); d.addText(f, "qqqqqq"); c.addDocument(d); } m.index(c); Word f2("title"), q("qqqqqq"); WordList ql; ql.addWord(q); BEGIN; for(int i = 0; i < 30; i++) { MatchResults x = m.match("qqqqqq"); facts += x.size(); x = m.onlineMatch(ql, f2); facts += x.size(); } END; need(facts == 180, "results"); }
static void matchFilter(size_t n, Rng &r) { Matcher m; std::unique_ptr<Corpus> c(corpusOf(r, n, 3, 8, true)); m.index(*c); SearchParameters p; p.getResultFilter().addNewSubTerm(Word("title"), Word("zwxyv")); p.getResultFilter().addNewSubTerm(Word("title"), Word("nosuch")); p.getResultFilter().addNewTerm(); p.getResultFilter().addNewSubTerm(Word("title"), Word("zwxyv")); BEGIN; MatchResults x = m.match("zwxyv", p); read(x); END; need(x.size() == n, "results"); }
static void matchTerms(size_t n, Rng &r) { Matcher m; std::unique_ptr<Corpus> c(corpusOf(r, 20, 3, 8, true)); m.index(*c); SearchParameters p; for(size_t i = 0; i < n; i++) { p.getResultFilter().addNewSubTerm(Word("title"), W(base6(1000 + i))); p.getResultFilter().addNewTerm(); } p.getResultFilter().addNewSubTerm(Word("title"), Word("zwxyv")); BEGIN; MatchResults x = m.match("zwxyv", p); END; facts = x.size(); need(facts == 20, "results"); }
static void matchSubTerms(size_t n, Rng &r) { Matcher m; Corpus c; Word f("title"); for(int i = 0; i < 5; i++) { Document d(i); WordList l; for(size_t k = 0; k < n; k++) l.addWord(W(base6(k))); l.addWord(Word("zwxyv")); d.addText(f, l); c.addDocument(d); } m.index(c); SearchParameters p; for(size_t i = 0; i < n; i++) p.getResultFilter().addNewSubTerm(f, W(base6(i))); BEGIN; MatchResults x = m.match("zwxyv", p); END; facts = x.size(); need(facts == 5, "results"); }
static void reindex(size_t n, Rng &r) { Matcher m; Corpus c; Document d(7); d.addText(Word("title"), "some words to count"); c.addDocument(d); BEGIN; for(size_t i = 0; i < n; i++) m.index(c); END; facts = m.match("words").size(); need(facts == 1, "results"); }
static void matchQueryWords(size_t n, Rng &r) { Matcher m; std::unique_ptr<Corpus> c(corpusOf(r, 40, 3, 60, false)); m.index(*c); WordList q; for(size_t i = 0; i < n; i++) q.addWord(W(base6(i % 200))); BEGIN; MatchResults x = m.match(q); END; facts = x.size(); need(facts > 0, "results"); }
static void onlineAll(size_t n, Rng &r) { Matcher m; std::unique_ptr<Corpus> c(corpusOf(r, n, 2, 40, true)); m.index(*c); WordList q; q.addWord(Word("zwxyv")); q.addWord(Word("nosuch")); Word f("title"); BEGIN; MatchResults x = m.onlineMatch(q, f); read(x); END; need(x.size() == n, "results"); }
static void onlineQueryWords(size_t n, Rng &r) { Matcher m; std::unique_ptr<Corpus> c(corpusOf(r, 40, 3, 60, false)); m.index(*c); WordList q; for(size_t i = 0; i < n; i++) q.addWord(W(base6(i % 200))); Word f("title"); BEGIN; MatchResults x = m.onlineMatch(q, f); END; facts = x.size(); need(facts > 0, "results"); }
static void matchFields(size_t n, Rng &r) { Matcher m; Corpus c; Document d(1); for(size_t i = 0; i < n; i++) d.addText(W(base6(i)), "word"); c.addDocument(d); m.index(c); for(size_t i = 0; i < n; i++) m.getIndexWeights().setWeight(W(base6(i)), 2.0); SearchParameters p; for(size_t i = 0; i < n / 2; i++) p.addNonsearchingField(W(base6(i))); BEGIN; MatchResults x = m.match("word", p); END; facts = x.size(); need(facts == 1, "results"); }
static void resultsAdd(size_t n, Rng &r) { std::vector<double> v; for(size_t i = 0; i < n; i++) v.push_back(r.unit()); BEGIN; MatchResults m; for(size_t i = 0; i < n; i++) m.addResult(i, v[i]); read(m); MatchResults c(m); END; need(c.size() == n, "size"); }
static void resultsCopy(size_t n, Rng &r) { MatchResults a; for(size_t i = 0; i < n; i++) a.addResult(i, r.unit()); BEGIN; MatchResults b; b.addResults(a); MatchResults c; for(size_t i = 0; i < n; i++) c.copyResult(b, i); read(c); END; need(c.size() == n, "size"); }
static void resultsRead(size_t n, Rng &r) { MatchResults a; for(size_t i = 0; i < n; i++) a.addResult(i, r.unit()); facts += a.getDocumentID(0); BEGIN; for(int i = 0; i < 2000; i++) facts += a.getDocumentID(i % n) + (a.getRelevancy(i * 3 % n) > 0.5); END; }
static void weights(size_t n, Rng &r) { auto v = distinct(r, n); std::vector<Word> w; for(auto &x : v) w.push_back(W(x)); BEGIN; IndexWeights iw; for(auto &x : w) iw.setWeight(x, 2); double t = 0; for(auto &x : w) t += iw.getWeight(x); END; need(t == 2.0 * n, "weights"); facts = n; }
// The same letters in another order: where a letter stands has to matter.
static void anagrams(size_t n, Rng &r) { std::vector<Word> w; std::set<Letters> u; Letters l; for(int i = 0; i < 14; i++) l.push_back("etaoinshrdlucm"[i]); while(w.size() < n) { r.shuffle(l); if(u.insert(l).second) w.push_back(W(l)); } BEGIN; IndexWeights iw; for(auto &x : w) iw.setWeight(x, 2); double t = 0; for(auto &x : w) t += iw.getWeight(x); END; need(t == 2.0 * n, "weights"); facts = n; }
static void numbered(size_t n, Rng &r) { std::vector<Word> w; for(size_t i = 0; i < n; i++) w.push_back(Word(fmt("field%06zu", i).c_str())); r.shuffle(w); BEGIN; IndexWeights iw; for(auto &x : w) iw.setWeight(x, 2); double t = 0; for(auto &x : w) t += iw.getWeight(x); END; need(t == 2.0 * n, "weights"); facts = n; }
static void nonsearching(size_t n, Rng &r) { auto v = distinct(r, n); std::vector<Word> w; for(auto &x : v) w.push_back(W(x)); BEGIN; SearchParameters p; for(auto &x : w) p.addNonsearchingField(x); for(auto &x : w) facts += p.isNonsearchingField(x); END; need(facts == n, "fields"); }
static void filterBuild(size_t n, Rng &r) { Word a("a"), b("b"); BEGIN; ResultFilter f; for(size_t i = 0; i < n; i++) { f.addNewSubTerm(a, b); if(i % 3 == 0) f.addNewTerm(); } for(size_t t = 0; t < f.numTerms(); t++) for(size_t s = 0; s < f.numSubTerms(t); s++) facts += f.getField(t, s).length() + f.getWord(t, s).length(); END; need(facts == 2 * n, "terms"); }
static void pairErrors(size_t n, Rng &r) { ErrorValues e; BEGIN; for(size_t i = 0; i < n; i++) e.setError(0x400 + i, 0x400 + i * 7 % n, 5); for(size_t i = 0; i < n; i++) facts += e.getSubstituteError(0x400 + i, 0x400 + i * 7 % n) + e.getSubstituteError(0x400 + i, 0x401 + i); END; need(facts > n, "errors"); }
static void groupErrors(size_t n, Rng &r) { std::vector<Word> g; for(size_t i = 0; i < n; i++) g.push_back(W(Letters{(uint32_t)(0x3000 + 2 * i + 1), (uint32_t)(0x3002 + 2 * i)})); ErrorValues e; BEGIN; for(auto &w : g) e.setGroupError(w, 10); for(size_t i = 0; i < n; i++) facts += e.getSubstituteError(0x3000 + 2 * i + 1, 0x3002 + 2 * i); END; need(facts == 10 * n, "errors"); }
static void errorUse(size_t n, Rng &r) { ErrorValues e; for(size_t i = 0; i < n; i++) e.setError(0x400 + i, 0x300 + i, 5); for(size_t i = 0; i < n; i++) e.setGroupError(W(Letters{(uint32_t)(0x6000 + 2 * i), (uint32_t)(0x6001 + 2 * i)}), 9); BEGIN; for(size_t i = 0; i < 3000; i++) facts += e.getSubstituteError(0x400 + i % n, 0x300 + i % n) + e.getSubstituteError(0x6000 + 2 * (i % n), 0x6001 + 2 * (i % n)) + e.getSubstituteError('a' + i % 26, 'b'); END; }
struct H { size_t operator()(const Word *x) const { return x->hash(); } };
struct E { bool operator()(const Word *a, const Word *b) const { return *a == *b; } };
static void intoSet(const std::vector<Word> &w) { size_t n = w.size(); BEGIN; std::unordered_set<const Word*, H, E> s; for(auto &x : w) s.insert(&x); for(auto &x : w) facts += s.count(&x); END; need(facts == n && s.size() == n, "set"); }
static void hashSpread(size_t n, Rng &r) { std::vector<Word> w; std::set<Letters> u; while(w.size() < n) { Letters l = rnd(r, 10, "abcdefghijklmnopqrstuvwxyz"); if(u.insert(l).second) w.push_back(W(l)); } intoSet(w); }
static void hashAnagrams(size_t n, Rng &r) { std::vector<Word> w; std::set<Letters> u; Letters l; for(int i = 0; i < 14; i++) l.push_back("etaoinshrdlucm"[i]); while(w.size() < n) { r.shuffle(l); if(u.insert(l).second) w.push_back(W(l)); } intoSet(w); }
static void capi(size_t n, Rng &r) {
    ColMatcher m = col_matcher_new(); ColWord f = col_word_new("title");
    BEGIN;
    ColCorpus c = col_corpus_new();
    for(size_t i = 0; i < n; i++) { ColDocument d = col_document_new(i); col_document_add_text(d, f, "zwxyv abc"); col_corpus_add_document(c, d); col_document_delete(d); }
    col_matcher_index(m, c);
    ColMatchResults x = col_matcher_match(m, "zwxyv");
    size_t k = col_match_results_size(x);
    for(size_t i = 0; i < k; i++) facts += col_match_results_get_id(x, i) + (col_match_results_get_relevancy(x, i) > 0);
    col_match_results_delete(x); col_corpus_delete(c);
    END;
    need(k == n, "results"); col_word_delete(f); col_matcher_delete(m);
}

static const Scenario all[] = {
    {"word-create", "linear", 16000, wordCreate}, {"word-render", "linear", 16000, wordRender}, {"word-buffer", "linear", 16000, wordBuffer}, {"word-letters", "linear", 16000, wordLetters}, {"word-fail", "linear", 16000, wordFail},
    {"split-many", "linear", 4000, splitMany}, {"split-one", "linear", 16000, splitOne}, {"split-blank", "linear", 32000, splitBlank}, {"split-growing", "linear", 32000, splitGrowing},
    {"list", "linear", 8000, listUse}, {"store-fill", "linear", 4000, storeFill}, {"store-use", "flat", 8000, storeUse}, {"store-long-word", "linear", 5000, storeLong}, {"index-fill", "linear", 4000, indexFill}, {"index-use", "flat", 8000, indexUse},
    {"search-all", "linear", 4000, searchAll}, {"search-far", "flat", 8000, searchFar}, {"search-exact", "flat", 8000, searchExact}, {"search-near", "sublinear", 6000, searchNear}, {"search-long-query", "linear", 400, searchLongQuery}, {"search-long-word", "linear", 4000, searchLongWord},
    {"document-fields", "linear", 2000, docBuild}, {"document-text", "linear", 4000, docText}, {"corpus", "linear", 4000, corpusBuild},
    {"matcher-index", "linear", 1200, matcherIndex}, {"matcher-index-parts", "linear", 2000, matcherIndexParts}, {"matcher-index-text", "linear", 6000, matcherIndexText},
    {"match-all", "linear", 2000, matchAll}, {"match-all-words", "linear", 2000, matchAllWords}, {"match-aligned-ids", "linear", 1000, matchAligned}, {"match-few", "flat", 4000, matchFew}, {"match-filter", "linear", 1600, matchFilter}, {"match-terms", "linear", 1200, matchTerms}, {"match-sub-terms", "linear", 200, matchSubTerms}, {"reindex", "linear", 1000, reindex}, {"match-query-words", "linear", 160, matchQueryWords},
    {"online-all", "linear", 2000, onlineAll}, {"online-query-words", "linear", 160, onlineQueryWords}, {"match-fields", "linear", 40, matchFields},
    {"results-add", "linear", 8000, resultsAdd}, {"results-copy", "linear", 8000, resultsCopy}, {"results-read", "flat", 8000, resultsRead},
    {"weights", "linear", 4000, weights}, {"weights-anagrams", "linear", 1500, anagrams}, {"weights-numbered", "linear", 1500, numbered}, {"nonsearching", "linear", 4000, nonsearching}, {"filter", "linear", 8000, filterBuild},
    {"pair-errors", "linear", 5000, pairErrors}, {"group-errors", "linear", 1000, groupErrors}, {"error-use", "flat", 900, errorUse}, {"hash", "linear", 6000, hashSpread}, {"hash-anagrams", "linear", 1500, hashAnagrams}, {"c-api", "linear", 800, capi},
};
int main(int argc, char **argv) {
    if(argc > 1 && !strcmp(argv[1], "--list")) { for(auto &s : all) printf("%s %s %zu\n", s.name, s.kind, s.base); return 0; }
    if(argc < 4) return 2;
    for(auto &s : all)
        if(!strcmp(s.name, argv[1])) {
            size_t n = strtoull(argv[2], nullptr, 10);
            Rng r(strtoull(argv[3], nullptr, 10) * 1000003 + n);
            try { s.fn(n, r); }
            catch(const std::exception &e) { END; printf("@BAD exception %s\n", e.what()); return 3; }
            printf("@FACTS %llu %zu\n", (unsigned long long)facts, peak);
            return 0;
        }
    return 2;
}
