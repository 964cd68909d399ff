/* A random walk over the whole public interface. Every observable outcome goes to a sink, so that one
 * walk can be replayed in another build, another thread or a second time and compared. */
#ifndef VP_SESSION_HH
#define VP_SESSION_HH
#include "text.hh"
#include "Corpus.hh"
#include "Document.hh"
#include "Matcher.hh"
#include "MatchResults.hh"
#include "SearchParameters.hh"
#include "ResultFilter.hh"
#include "IndexWeights.hh"
#include "IndexMatches.hh"
#include "ErrorValues.hh"
#include "ColumbusHelpers.hh"
#include "LevenshteinIndex.hh"
#include "Trie.hh"
#include "WordStore.hh"
#include "columbus.h"
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#endif
#include <memory>
#include <deque>
#include <cmath>
/* Not exported: left out when they do not compile any more. */
#ifndef VP_NO_INTERNAL
#include "MatcherStatistics.hh"
#include "ErrorMatrix.hh"
#endif

namespace vp {
using namespace Columbus;

/* What was observed. Numbers are exact, reals are compared with a tolerance. */
struct Sink {
    virtual ~Sink() {}
    virtual void num(const char *what, uint64_t v) = 0;
    virtual void real(const char *what, double v) = 0;
    virtual void text(const char *what, const std::string &s) { num(what, hashStr(s)); }
};
struct NullSink : Sink {
    uint64_t n = 0;
    uint64_t undefined = 0;
    void num(const char*, uint64_t v) override { n++; defined(&v, sizeof v); }
    void real(const char*, double v) override { n++; defined(&v, sizeof v); }
    void text(const char*, const std::string &s) override { n++; defined(s.data(), s.size()); }
    /* Under valgrind: nothing the library hands out may be uninitialised. */
    void defined(const void *p, size_t k) {
#if __has_include(<valgrind/memcheck.h>)
        if(RUNNING_ON_VALGRIND && VALGRIND_CHECK_MEM_IS_DEFINED(p, k)) undefined++;
#endif
    }
};

struct Session {
    enum Flags { PORTABLE = 1 };  // only what must not depend on the build: text in the basic plane, no memory layout
    Rng r;
    Sink &out;
    int flags;
    std::map<std::string, uint64_t> done;
    uint64_t exceptions = 0, hashv = 99;
    Cps alpha;
    size_t cap = 5;

    std::vector<std::unique_ptr<Word>> words;
    std::vector<std::unique_ptr<WordList>> lists;
    std::vector<std::unique_ptr<Document>> docs;
    std::vector<std::unique_ptr<Corpus>> corpora;
    struct M { std::unique_ptr<Matcher> m; size_t indexed = 0; bool costly = false; };
    std::deque<M> matchers;
    std::vector<std::unique_ptr<MatchResults>> results;
    std::vector<std::unique_ptr<SearchParameters>> params;
    std::vector<std::unique_ptr<ErrorValues>> errors;
    struct L { std::unique_ptr<LevenshteinIndex> l; std::map<Letters, WordID> ids; };
    std::deque<L> indexes;
    std::vector<std::unique_ptr<IndexMatches>> imatches;
    std::vector<std::unique_ptr<WordStore>> stores;
    struct T { std::unique_ptr<Trie> t; std::vector<TrieOffset> nodes; std::map<Letters, WordID> ids; };
    std::deque<T> tries;
#ifndef VP_NO_INTERNAL
    std::vector<std::unique_ptr<MatcherStatistics>> stats;
#endif
    std::vector<std::unique_ptr<IndexWeights>> weights;

    Session(uint64_t seed, Sink &s, int f = 0) : r(seed), out(s), flags(f) {
        alpha = caseAlphabet(r);
        if(r.chance(40)) for(int i = 0; i < 8; i++) alpha.push_back(r.pick(widePool()));
        if(r.chance(30)) for(uint32_t x : Cps{'A', 'I', 'Z', 0x85, 0xa0, 0xc5, 0xdd, 0x130, 0x1e9e, 0x391, 0x410, 0x3000, 0x10400}) alpha.push_back(x);
        if(portable()) for(auto &x : alpha) if(x > 0xffff) x = 'q';
    }
    bool portable() const { return flags & PORTABLE; }

    /* ---- values ---- */
    std::string bytes(int maxWords) {
        int k = r.range(0, 19);
        std::string s;
        int n = r.range(maxWords > 1 ? 0 : 1, maxWords);
        for(int i = 0; i < n; i++) {
            if(i || (maxWords > 1 && r.chance(10))) s += " \t\n\r"[r.below(4)];
            s += toUtf8(randWord(r, alpha, 1, r.chance(3) ? 300 : 7));
        }
        if(k == 0) { // damage it
            static const char *bad[] = {"\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80", "\x80", "\xf8\x88\x80\x80\x80", "\xf4\x90\x80\x80"};
            std::string b = bad[r.below(9)];
            s.insert(r.below(s.size() + 1), b);
        } else if(k == 1 && maxWords == 1) { size_t at = r.below(s.size() + 1); s.insert(at, 1, " \t\n\r"[r.below(4)]); }
        else if(k == 2 && maxWords == 1) s.clear();
        return s;
    }
    Letters rawLetters() {
        Letters l;
        int n = r.chance(5) ? r.range(100, 2000) : r.range(1, 8);
        for(int i = 0; i < n; i++) {
            int k = r.range(0, 19);
            if(k == 0 && !portable()) l.push_back(0xd800 + r.below(0x800));
            else if(k == 1 && !portable()) l.push_back((Letter_)r.next());
            else if(k == 2 && r.chance(30)) l.push_back(" \t\n\r"[r.below(4)]);
            else if(k < 6) l.push_back(portable() ? 0x21 + r.below(0xd7de) : 0x21 + r.below(0xfff0));
            else { Letters x = toLetters(Cps(1, alpha[r.below(alpha.size())])); l.insert(l.end(), x.begin(), x.end()); }
        }
        return l;
    }
    int cost() { static const int v[] = {0, 1, 10, 15, 30, 50, 99, 100, 101, 150, 200, 201, 1000, 1000000}; return v[r.below(14)]; }
    double realValue() { static const double v[] = {0, 1, 0.5, -1, 2.25, 100, 1e-300, 1e9, -1e9, 3}; return v[r.below(10)]; }
    DocumentID docId() { int k = r.range(0, 9); return k < 7 ? r.below(8) : k == 7 ? (DocumentID)-2 : k == 8 ? (DocumentID)1 << 40 : (DocumentID)r.next(); }
    Letter letter() {
        int k = r.range(0, 9);
        if(k < 7) { uint32_t a = alpha[r.below(alpha.size())]; return Letter((Letter_)(a > 0xffff ? 'q' : a)); }
        static const uint32_t v[] = {0, 1, 511, 512, 513, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff};
        return Letter((Letter_)v[r.below(10)]);
    }
    size_t position(size_t n) { int k = r.range(0, 9); return k < 8 && n ? r.below(n) : k == 8 ? n : r.chance(50) ? n + r.below(5) : (size_t)-1 - r.below(2); }

    template<class V, class F> typename V::value_type &get(V &v, F make) {
        if(v.empty() || (v.size() < cap && r.chance(15))) v.push_back(make());
        return v[r.below(v.size())];
    }
    Word &word() {
        if(words.empty() || r.chance(words.size() < 12 ? 40 : 5)) newWord();
        return *words[r.below(words.size())];
    }
    void newWord() {
        std::unique_ptr<Word> w(new Word());
        for(int tries = 0; tries < 3; tries++)
            try { w.reset(new Word(bytes(1))); break; } catch(const std::exception &) { }
        words.push_back(std::move(w));
    }
    WordList &list() { return *get(lists, [] { return std::unique_ptr<WordList>(new WordList()); }); }
    Document &doc() { return *get(docs, [&] { return std::unique_ptr<Document>(new Document(docId())); }); }
    Corpus &corpus() { return *get(corpora, [] { return std::unique_ptr<Corpus>(new Corpus()); }); }
    M &matcher() { return get(matchers, [] { M m; m.m.reset(new Matcher()); return m; }); }
    MatchResults &result() { return *get(results, [] { return std::unique_ptr<MatchResults>(new MatchResults()); }); }
    SearchParameters &param() { return *get(params, [] { return std::unique_ptr<SearchParameters>(new SearchParameters()); }); }
    ErrorValues &error() { return *get(errors, [] { return std::unique_ptr<ErrorValues>(new ErrorValues()); }); }
    L &index() { return get(indexes, [] { L l; l.l.reset(new LevenshteinIndex()); return l; }); }
    IndexMatches &imatch() { return *get(imatches, [] { return std::unique_ptr<IndexMatches>(new IndexMatches()); }); }
    WordStore &store() { return *get(stores, [] { return std::unique_ptr<WordStore>(new WordStore()); }); }
    T &trie() { return get(tries, [] { T t; t.t.reset(new Trie()); return t; }); }
    IndexWeights &weight() { return *get(weights, [] { return std::unique_ptr<IndexWeights>(new IndexWeights()); }); }

    /* ---- observations ---- */
    void see(const Word &w) { out.num("length", w.length()); try { out.text("word", w.asUtf8()); } catch(const std::exception &) { out.num("unrenderable", 1); } }
    void see(const WordList &l) { out.num("list size", l.size()); for(size_t i = 0; i < l.size(); i++) see(l[i]); }
    void see(const MatchResults &m, bool unique) {
        out.num("result size", m.size());
        std::vector<std::pair<DocumentID, double>> v;
        for(size_t i = 0; i < m.size(); i++) v.push_back({m.getDocumentID(i), m.getRelevancy(i)});
        if(unique) std::sort(v.begin(), v.end());   // order among equal relevancies is not specified
        for(auto &x : v) { out.num("result id", x.first); out.real("relevancy", x.second); }
        if(!v.empty()) done["nonempty-results"]++;
    }
    void see(const Document &d) {
        out.num("doc id", d.getID()); out.num("fields", d.fieldCount());
        WordList f; d.getFieldNames(f);
        if(portable()) { for(size_t i = 0; i < f.size(); i++) { see(f[i]); see(d.getText(f[i])); } }
        else for(size_t i = 0; i < f.size(); i++) out.num("text", d.getText(f[i]).size());
    }
    void caught(const std::exception &e) {
        exceptions++;
        const char *k = dynamic_cast<const std::invalid_argument*>(&e) ? "invalid" : dynamic_cast<const std::out_of_range*>(&e) ? "range" : dynamic_cast<const std::runtime_error*>(&e) ? "runtime" : "other";
        out.text("exception", k);
    }

    /* ---- operations ---- */
    void configure(ErrorValues &e) {
        switch(r.range(0, 12)) {
        case 0: e.addStandardErrors(); break;
        case 1: e.addKeyboardErrors(); break;
        case 2: e.addNumberpadErrors(); break;
        case 3: e.addAccents(r.chance(50) ? latinAccentGroup : greekAccentGroup); break;
        case 4: e.setSubstringMode(); break;
        case 5: e.clearErrors(); break;
        case 6: { Word &w = word(); e.setGroupError(w, cost()); break; }
        case 7: e.setInsertionError(cost()); e.setDeletionError(cost()); break;
        case 8: e.setEndDeletionError(cost() % 1001 + 1); e.setStartInsertionError(cost()); e.setTransposeError(cost()); break;
        case 9: e.setSubstringStartLimit(r.below(6)); break;
        default: { Letter a = letter(), b = letter(); e.setError(a, b, cost()); out.num("cost", e.getSubstituteError(a, b)); }
        }
    }
    void step() {
        while(words.size() > 20) words.erase(words.begin() + r.below(words.size()));
        int op = r.range(0, 33);
        static const char *names[] = {"word-new", "word-letters", "word-copy", "word-assign", "word-assign-text", "word-join", "word-read", "word-render", "word-compare",
            "split", "split-custom", "list-add", "list-read", "doc-text", "doc-read", "corpus-add", "corpus-read", "match", "match-params", "online", "index",
            "configure", "weights", "errors", "filter", "results", "leven-insert", "leven-search", "store", "trie", "stats", "matrix", "capi", "drop"};
        done[names[op]]++;
        hashv = mix(hashv ^ (uint64_t)op);
        out.num("op", op);
        try { perform(op); } catch(const std::exception &e) { caught(e); }
    }
    void perform(int op) {
        switch(op) {
        case 0: { std::string b = bytes(1); std::unique_ptr<Word> w(r.chance(50) ? new Word(b) : new Word(b.c_str())); see(*w); if(words.size() < 20) words.push_back(std::move(w)); break; }
        case 1: {
            Letters l = rawLetters();
            std::vector<Letter> v; for(uint32_t x : l) v.push_back(Letter((Letter_)x));
            size_t n = r.chance(5) ? 0 : v.size();
            std::unique_ptr<Word> w(new Word(v.data(), n)); see(*w); if(words.size() < 20 && w->length() < 50) words.push_back(std::move(w)); break; }
        case 2: { Word &a = word(); Word c(a); see(c); Word d(std::move(c)); see(d); c = a; see(c); d = std::move(c); see(d); break; }
        case 3: { Word &a = word(); Word &b = word(); a = b; see(a); if(r.chance(20)) { Word &s = a; a = s; see(a); } break; }
        case 4: {
            Word &a = word(); std::string b = bytes(1);
            try { if(r.chance(50)) a = b; else a = b.c_str(); } catch(const std::exception &e) { caught(e); }
            out.num("after assignment", portable() ? 0 : a.length()); if(portable()) { Word t("x"); a = t; } see(a); break; }
        case 5: { Word &a = word(); Word &b = word(); if(a.length() + b.length() < 5000) { Word j = a.join(b); see(j); if(r.chance(20)) { a = j; } } break; }
        case 6: { Word &a = word(); size_t i = position(a.length()); Letter l = a[(unsigned)i]; out.num("letter", (Letter_)l); break; }
        case 7: {
            Word &a = word();
            unsigned n = r.range(0, a.length() * 3 + 4);
            std::vector<char> buf(n ? n : 1, 'x');
            std::unique_ptr<char[]> exact(new char[n ? n : 1]);
            try { a.toUtf8(exact.get(), n); out.text("rendered", n ? std::string(exact.get()) : std::string()); }
            catch(const std::exception &e) { caught(e); }
            break; }
        case 8: {
            Word &a = word(); Word &b = word();
            out.num("==", a == b); out.num("!=", a != b); out.num("<", a < b);
            std::string t = r.chance(30) ? b.asUtf8() : bytes(1);
            out.num("==s", a == t); out.num("!=s", a != t.c_str());
            if(!portable()) out.num("hash", a.hash());
            break; }
        case 9: { std::string b = bytes(8); WordList l = splitToWords(b.c_str()); see(l); break; }
        case 10: {
            std::string b = bytes(8);
            static const char sep[] = " -.,:aqz";
            std::vector<Letter> s; int n = r.range(1, 4);
            for(int i = 0; i < n; i++) s.push_back(Letter((Letter_)sep[r.below(8)]));
            WordList l = Columbus::split(b.c_str(), s.data(), n); see(l); break; }
        case 11: {
            WordList &l = list(); if(l.size() > 60) { WordList e; l = e; }
            int n = r.range(1, 6); for(int i = 0; i < n; i++) { if(l.size() && r.chance(30)) l.addWord(l[r.below(l.size())]); else l.addWord(word()); }
            out.num("size", l.size()); break; }
        case 12: {
            WordList &l = list(); size_t i = position(l.size());
            see(l[i]);
            WordList c(l); see(c); WordList d(std::move(c)); c = d; out.num("equal", c == d); out.num("differ", c != list());
            if(r.chance(20)) { list() = std::move(d); } break; }
        case 13: {
            Document &d = doc();
            if(d.fieldCount() > 8) break;
            int k = r.range(0, 3);
            Word f = r.chance(80) ? Word(std::string(1, "tbxy"[r.below(4)])) : Word(word());
            if(k == 0) d.addText(f, list()); else if(k == 1) d.addText(f, bytes(8)); else if(k == 2) d.addText(f, bytes(8).c_str());
            else { WordList n; d.getFieldNames(n); if(n.size()) d.addText(f, d.getText(n[r.below(n.size())])); }
            break; }
        case 14: {
            Document &d = doc(); see(d);
            Word &w = word(); Word f(std::string(1, "tbxy"[r.below(4)]));
            out.num("count", d.wordCount(w, f)); out.num("total", d.totalWordCount(w));
            Document c(d); see(c); doc() = c; see(d.getText(f)); break; }
        case 15: { Corpus &c = corpus(); if(c.size() < 40) c.addDocument(doc()); out.num("size", c.size()); break; }
        case 16: { Corpus &c = corpus(); size_t i = position(c.size()); see(c.getDocument(i)); break; }
        case 17: {
            M &m = matcher();
            std::string b = bytes(4);
            MatchResults res = r.chance(50) ? m.m->match(b.c_str()) : r.chance(50) ? m.m->match(b) : m.m->match(list().size() < 6 ? list() : WordList());
            see(res, true);
            if(r.chance(30)) result() = std::move(res); break; }
        case 18: {
            M &m = matcher(); SearchParameters &p = param();
            MatchResults res = r.chance(50) ? m.m->match(bytes(4).c_str(), p) : m.m->match(list().size() < 6 ? list() : WordList(), p);
            see(res, true); break; }
        case 19: {
            M &m = matcher();
            WordList q = splitToWords(bytes(4).c_str());
            Word f = r.chance(80) ? Word(std::string(1, "tbxy"[r.below(4)])) : Word(word());
            MatchResults res = m.m->onlineMatch(q, f); see(res, true); break; }
        case 20: {
            M &m = matcher(); Corpus &c = corpus();
            if(c.size() == 0) {
                for(int i = 0; i < 4; i++) {
                    Document d(docId());
                    try { Word fw(std::string(1, "tbxy"[r.below(4)])); d.addText(fw, bytes(6)); } catch(const std::exception &e) { caught(e); }
                    c.addDocument(d);
                }
            }
            if(m.indexed + c.size() < 120) { m.m->index(c); m.indexed += c.size(); } break; }
        case 21: configure(matcher().m->getErrorValues()); break;
        case 22: { IndexWeights &w = r.chance(50) ? matcher().m->getIndexWeights() : weight(); Word f = r.chance(80) ? Word(std::string(1, "tbxy"[r.below(4)])) : Word(word()); w.setWeight(f, realValue()); out.real("weight", w.getWeight(f)); out.real("weight", w.getWeight(word())); break; }
        case 23: { ErrorValues &e = error(); configure(e); Letter a = letter(), b = letter(); out.num("cost", e.getSubstituteError(a, b)); out.num("cost", e.getSubstituteError(b, a)); out.num("group", e.isInGroup(a)); break; }
        case 24: {
            SearchParameters &p = param(); ResultFilter &f = p.getResultFilter();
            int k = r.range(0, 5);
            if(k == 0 && f.numTerms() < 8) f.addNewTerm();
            else if(k < 3) { Word fw(std::string(1, "tbxy"[r.below(4)])); f.addNewSubTerm(fw, word()); }
            else if(k == 3) { p.addNonsearchingField(Word(std::string(1, "tbxy"[r.below(4)]))); p.setDynamic(r.chance(50)); out.num("dynamic", p.isDynamic()); out.num("limit", p.getDynamicError(word())); out.num("searching", p.isNonsearchingField(word())); }
            else { size_t t = position(f.numTerms()); out.num("terms", f.numTerms()); out.num("subterms", f.numSubTerms(t)); size_t s = position(f.numSubTerms(t)); see(f.getField(t, s)); see(f.getWord(t, s)); }
            break; }
        case 25: {
            MatchResults &m = result();
            int k = r.range(0, 6);
            if(m.size() > 200) { MatchResults e; m = e; }
            if(k < 2) { for(int i = 0; i < 3; i++) { DocumentID id = docId(); m.addResult(id, realValue()); } }
            else if(k == 2) m.addResults(result());
            else if(k == 3) { MatchResults &o = result(); m.copyResult(o, position(o.size())); }
            else if(k == 4) { MatchResults c(m); MatchResults d(std::move(c)); c = d; d = std::move(c); result() = d; }
            else { size_t i = position(m.size()); out.real("relevancy", m.getRelevancy(i)); m.getDocumentID(i); }
            out.num("size", m.size()); break; }
        case 26: {
            L &l = index();
            if(l.ids.size() > 400) break;
            if(words.size() > 20) words.resize(20);
            int n = r.range(1, r.chance(2) ? 500 : r.chance(10) ? 80 : 6);
            for(int i = 0; i < n; i++) {
                if(n > 10) newWord();
                Word &w = n > 10 ? *words.back() : word();
                Letters key = lettersOf(w);
                auto it = l.ids.find(key);
                WordID id = it == l.ids.end() ? (WordID)(l.ids.size() * 3 + 1) : it->second;
                l.ids[key] = id;
                l.l->insertWord(w, id);
                out.num("count", l.l->wordCount(id));
            }
            out.num("max", l.l->maxCount()); out.num("words", l.l->numWords()); out.num("nodes", l.l->numNodes()); out.num("has", l.l->hasWord(word())); break; }
        case 27: {
            L &l = index(); IndexMatches &m = imatch();
            if(m.size() > 1000 || r.chance(30)) m.clear();
            std::vector<std::pair<int, WordID>> v;
            static const int limits[] = {0, 1, 50, 100, 200, 300, 1000000, -1};
            Word &q = word(); ErrorValues &ev = r.chance(70) ? error() : matcher().m->getErrorValues(); l.l->findWords(q, ev, limits[r.below(8)], m);
            for(size_t i = 0; i < m.size(); i++) v.push_back({m.getMatchError(i), m.getMatch(i)});
            std::sort(v.begin(), v.end());
            out.num("matches", v.size());
            for(auto &x : v) { out.num("error", x.first); out.num("match", x.second); }
            if(m.size()) done["nonempty-searches"]++;
            size_t p = position(m.size()); out.num("match", m.getMatchError(p) >= 0); m.getMatch(p); m.getQuery(p); break; }
        case 28: {
            WordStore &s = store();
            int k = r.range(0, 4);
            if(k < 3) { int n = r.range(1, r.chance(2) ? 500 : r.chance(10) ? 60 : 4); for(int i = 0; i < n; i++) { newWord(); Word &w = *words.back(); WordID id = s.getID(w); out.num("id", id); see(s.getWord(id)); } }
            else if(k == 3) out.num("has", s.hasWord(word()));
            else { WordID id = (WordID)(r.chance(70) ? r.below(40) : r.next()); out.num("hasid", s.hasWord(id)); see(s.getWord(id)); }
            break; }
        case 29: {
            T &t = trie();
            if(r.chance(60)) { int n = r.range(1, 5); for(int i = 0; i < n; i++) { Word &w = word(); WordID id = t.ids.insert({lettersOf(w), (WordID)t.ids.size()}).first->second; t.nodes.push_back(t.t->insertWord(w, id)); } }
            else out.num("has", t.t->hasWord(word()));
            if(!t.nodes.empty()) see(t.t->getWord(t.nodes[r.below(t.nodes.size())]));
            out.num("words", t.t->numWords()); out.num("nodes", t.t->numNodes()); break; }
#ifndef VP_NO_INTERNAL
        case 30: {
            if(stats.empty() || (stats.size() < 3 && r.chance(10))) stats.emplace_back(new MatcherStatistics());
            MatcherStatistics &s = *stats[r.below(stats.size())];
            WordID id = (WordID)r.below(50); s.wordProcessed(id); s.addedWordToIndex(id, word()); out.num("total", s.getTotalWordCount((WordID)r.below(60))); break; }
        case 31: {
            size_t rows = 1 + r.below(30), cols = 1 + r.below(30);
            int ci = cost() % 1001, cd = cost() % 1001; ErrorMatrix m(rows, cols, ci, cd);
            for(size_t a = 0; a < rows; a++) for(size_t b = 0; b < cols; b++) m.set(a, b, cost());
            for(int i = 0; i < 5; i++) { size_t a = r.below(rows), b = r.below(cols); m.set(a, b, cost()); out.num("cell", m.get(a, b)); }
            size_t a = r.below(rows); out.num("total", m.totalError(a)); out.num("min", m.minError(a)); 
            break; }
#endif
        case 32: capi(); break;
        case 33: drop(); break;
        }
    }
    void capi() {
        std::string b = bytes(1);
        ColWord w = col_word_new(b.c_str());
        out.num("c word", w != nullptr);
        if(w) { size_t n = r.below(b.size() + 3); std::unique_ptr<char[]> buf(new char[n + 1]); memset(buf.get(), 0, n + 1); col_word_as_utf8(w, buf.get(), (unsigned)n); out.num("c length", col_word_length(w)); }
        ColDocument d = col_document_new(docId());
        ColWord f = col_word_new("t");
        col_document_add_text(d, f, bytes(5).c_str());
        if(w) col_document_add_text(d, w, bytes(5).c_str());
        ColCorpus c = col_corpus_new();
        col_corpus_add_document(c, d);
        ColMatcher m = col_matcher_new();
        if(r.chance(50)) col_error_values_add_standard_errors(col_matcher_get_error_values(m));
        if(r.chance(50)) col_error_values_set_substring_mode(col_matcher_get_error_values(m));
        col_index_weights_set_weight(col_matcher_get_index_weights(m), f, realValue());
        out.real("c weight", col_index_weights_get_weight(col_matcher_get_index_weights(m), f));
        col_matcher_index(m, c);
        col_corpus_delete(c);
        ColMatchResults res = col_matcher_match(m, bytes(4).c_str());
        out.num("c results", res != nullptr);
        if(res) {
            size_t n = col_match_results_size(res), p = position(n);
            out.num("c size", n);
            out.num("c id", col_match_results_get_id(res, p)); out.real("c relevancy", col_match_results_get_relevancy(res, p));
            col_match_results_delete(res);
        }
        ColMatchResults e = col_match_results_new(); out.num("c empty", col_match_results_size(e)); col_match_results_delete(e);
        col_matcher_delete(m); col_document_delete(d); col_word_delete(f); if(w) col_word_delete(w);
    }
    template<class V> void dropOne(V &v) { if(!v.empty()) v.erase(v.begin() + r.below(v.size())); }
    void drop() {
        switch(r.range(0, 13)) {
        case 0: dropOne(words); break; case 1: dropOne(lists); break; case 2: dropOne(docs); break; case 3: dropOne(corpora); break;
        case 4: dropOne(matchers); break; case 5: dropOne(results); break; case 6: dropOne(params); break; case 7: dropOne(errors); break;
        case 8: dropOne(indexes); break; case 9: dropOne(imatches); break; case 10: dropOne(stores); break; case 11: dropOne(tries); break;
        case 12: dropOne(weights); break;
#ifndef VP_NO_INTERNAL
        case 13: dropOne(stats); break;
#endif
        }
    }
};
} // namespace vp
#endif
