/* C14: documents, corpora, word lists, filters, search parameters and weights against plain models. */
#include "text.hh"
#include "ColumbusHelpers.hh"
#include "Document.hh"
#include "Corpus.hh"
#include "ResultFilter.hh"
#include "SearchParameters.hh"
#include "IndexWeights.hh"
#include <memory>
using namespace vp;
using namespace Columbus;
typedef std::vector<Letters> Words;

static Cps alpha;
static Letters word(Rng &r) { return toLetters(randWord(r, alpha, r.chance(4) ? 0 : 1, 3)); }
static Words wordsOf(const WordList &l) { Words w; for(size_t i = 0; i < l.size(); i++) w.push_back(lettersOf(l[i])); return w; }
static WordList listOf(const Words &w) { WordList l; for(auto &x : w) l.addWord(wordFromLetters(x)); return l; }
static std::string showW(const Words &w) { std::string s; for(auto &x : w) s += show(x) + " "; return s; }
static Words randWords(Rng &r, bool empty = true) { Words w; int n = r.range(0, 6); for(int i = 0; i < n; i++) { Letters l = word(r); if(!l.empty() || empty) w.push_back(l); } return w; }

struct DocModel { uintptr_t id; std::map<Letters, Words> f; };
static void checkDoc(Ctx &c, Rng &r, const Document &d, const DocModel &m, const char *when) {
    if(d.getID() != m.id) fail("doc-id", "%s: id %llu instead of %llu", when, (unsigned long long)d.getID(), (unsigned long long)m.id);
    if(d.fieldCount() != m.f.size()) fail("doc-fields", "%s: %zu fields instead of %zu", when, d.fieldCount(), m.f.size());
    WordList names;
    bool pre = r.chance(30);
    if(pre) names.addWord(Word("zz"));
    d.getFieldNames(names);
    Words got = wordsOf(names);
    if(pre) { if(got.empty() || got[0] != toLetters(Cps{'z', 'z'})) fail("doc-names", "%s: getFieldNames dropped what was in the list", when); got.erase(got.begin()); }
    std::multiset<Letters> gs(got.begin(), got.end()), ws;
    for(auto &f : m.f) ws.insert(f.first);
    if(gs != ws) fail("doc-names", "%s: field names %s", when, showW(got).c_str());
    Words probes;
    for(auto &f : m.f) {
        Words t = wordsOf(d.getText(wordFromLetters(f.first)));
        if(t != f.second) fail("doc-text", "%s: field %s holds %s instead of %s", when, show(f.first).c_str(), showW(t).c_str(), showW(f.second).c_str());
        for(auto &x : f.second) probes.push_back(x);
    }
    probes.push_back(word(r));
    Letters missing = word(r);
    for(auto &p : probes) {
        size_t total = 0;
        Word pw = wordFromLetters(p);
        for(auto &f : m.f) {
            size_t n = std::count(f.second.begin(), f.second.end(), p);
            total += n;
            size_t g = d.wordCount(pw, wordFromLetters(f.first));
            if(g != n) fail("word-count", "%s: count of %s in %s is %zu instead of %zu", when, show(p).c_str(), show(f.first).c_str(), g, n);
        }
        if(d.totalWordCount(pw) != total) fail("total-word-count", "%s: total count of %s is %zu instead of %zu", when, show(p).c_str(), d.totalWordCount(pw), total);
        if(!m.f.count(missing) && d.wordCount(pw, wordFromLetters(missing)) != 0) fail("word-count", "%s: count in a missing field", when);
    }
    if(!m.f.count(missing)) {
        bool threw = false;
        try { d.getText(wordFromLetters(missing)); } catch(const std::invalid_argument &) { threw = true; }
        if(!threw) fail("missing-field", "%s: reading the missing field %s did not throw", when, show(missing).c_str());
        if(d.fieldCount() != m.f.size()) fail("missing-field", "%s: reading a missing field created it", when);
        c.count("missing_field_reads");
    }
    c.count("document_checks");
}

static void oneCase(Ctx &c) {
    Rng &r = c.rng;
    alpha.clear();
    int na = r.range(1, 4);
    static const Cps pool = {'a', 'b', 'c', 0xe4, 0x3b1, 0x4e00, 0x1f600, '7'};
    for(int i = 0; i < na; i++) alpha.push_back(pool[r.below(pool.size())]);
    struct D { std::unique_ptr<Document> d; DocModel m; };
    std::vector<D> docs(r.range(1, 4));
    for(auto &x : docs) { uintptr_t id = r.chance(80) ? r.below(100) : (uintptr_t)r.next(); x.d.reset(new Document(id)); x.m.id = id; }
    struct C { std::unique_ptr<Corpus> c; std::vector<DocModel> m; };
    std::vector<C> corpora(r.range(1, 2));
    for(auto &x : corpora) x.c.reset(new Corpus);
    struct WL { std::unique_ptr<WordList> l; Words m; bool moved = false; };
    std::vector<WL> lists(r.range(2, 4));
    for(auto &x : lists) x.l.reset(new WordList);
    struct F { std::unique_ptr<SearchParameters> sp; std::vector<std::vector<std::pair<Letters, Letters>>> terms{1}; std::set<Letters> nosearch; bool dyn = true; };
    std::vector<F> pars(r.range(1, 2));
    for(auto &x : pars) x.sp.reset(new SearchParameters);
    ResultFilter plain;
    std::vector<std::vector<std::pair<Letters, Letters>>> plainTerms{1};
    IndexWeights weights[2];
    std::map<Letters, double> wm[2];
    auto checkFilter = [&](const ResultFilter &f, const std::vector<std::vector<std::pair<Letters, Letters>>> &m, const char *when) {
        if(f.numTerms() != m.size()) fail("filter-terms", "%s: %zu terms instead of %zu", when, f.numTerms(), m.size());
        for(size_t t = 0; t < m.size(); t++) {
            if(f.numSubTerms(t) != m[t].size()) fail("filter-subterms", "%s: term %zu has %zu sub-terms instead of %zu", when, t, f.numSubTerms(t), m[t].size());
            for(size_t k = 0; k < m[t].size(); k++)
                if(lettersOf(f.getField(t, k)) != m[t][k].first || lettersOf(f.getWord(t, k)) != m[t][k].second) fail("filter-content", "%s: sub-term %zu/%zu is wrong", when, t, k);
            int threw = 0;
            try { f.getField(t, m[t].size()); } catch(const std::out_of_range &) { threw++; }
            try { f.getWord(t, m[t].size() + r.below(5)); } catch(const std::out_of_range &) { threw++; }
            if(threw != 2) fail("filter-range", "%s: sub-term past the end could be read", when);
        }
        int threw = 0;
        size_t bad = m.size() + r.below(3);
        try { f.getField(bad, 0); } catch(const std::out_of_range &) { threw++; }
        try { f.getWord(bad, 0); } catch(const std::out_of_range &) { threw++; }
        try { f.numSubTerms(bad); } catch(const std::out_of_range &) { threw++; }
        if(threw != 3) fail("filter-range", "%s: term past the end could be read", when);
        c.count("filter_checks");
    };
    auto checkList = [&](WL &x, const char *when) {
        if(!x.l || x.moved) return;
        Words g = wordsOf(*x.l);
        if(g != x.m || x.l->size() != x.m.size()) fail("list", "%s: list holds %s instead of %s", when, showW(g).c_str(), showW(x.m).c_str());
        bool threw = false;
        try { (*x.l)[x.m.size() + (r.chance(80) ? r.below(3) : (size_t)-3 - x.m.size())]; } catch(const std::out_of_range &) { threw = true; }
        if(!threw) fail("list-range", "%s: reading past the end did not throw", when);
        c.count("list_checks");
    };
    uint64_t h = 1;
    int ops = r.range(15, 90), aliasing = 0;
    for(int o = 0; o < ops; o++) {
        int op = r.range(0, 31);
        D &a = docs[r.below(docs.size())], &b = docs[r.below(docs.size())];
        WL &l = lists[r.below(lists.size())], &k = lists[r.below(lists.size())];
        bool lOk = l.l && !l.moved, kOk = k.l && !k.moved;
        Letters fn = word(r);
        h = mix(h ^ op ^ (hashBytes(fn.data(), fn.size() * 4) << 8));
        c.count("operations");
        c.log("op %d", op);
        switch(op) {
        case 0: case 1: { Words w = randWords(r); a.d->addText(wordFromLetters(fn), listOf(w)); if(a.m.f.count(fn)) c.count("overwritten_fields"); a.m.f[fn] = w; break; }
        case 2: case 3: { Words w = randWords(r, false); std::string s; for(auto &x : w) s += " " + toUtf8(lettersToCps(x)); if(op == 2) a.d->addText(wordFromLetters(fn), s); else a.d->addText(wordFromLetters(fn), s.c_str()); a.m.f[fn] = w; break; }
        case 4: { // failing text changes nothing
            bool threw = false;
            try { a.d->addText(wordFromLetters(fn), r.chance(50) ? "ok \xff" : "\xc3"); } catch(const std::exception &) { threw = true; }
            if(!threw) fail("bad-text", "adding invalid text did not throw");
            c.count("failed_texts"); break; }
        case 5: if(a.m.f.size()) { auto it = a.m.f.begin(); std::advance(it, r.below(a.m.f.size())); Words t = it->second; a.d->addText(wordFromLetters(fn), a.d->getText(wordFromLetters(it->first))); a.m.f[fn] = t; aliasing++; } break;
        case 6: if(&a != &b) { a.d.reset(new Document(*b.d)); a.m = b.m; aliasing++; } break;
        case 7: *a.d = *b.d; a.m = b.m; aliasing++; break;
        case 8: { Document copy(*a.d); copy.addText(wordFromLetters(fn), "x y"); DocModel m = a.m; m.f[fn] = {toLetters(Cps{'x'}), toLetters(Cps{'y'})}; checkDoc(c, r, copy, m, "changed copy"); break; }
        case 9: { uintptr_t id = r.below(1000); a.d.reset(new Document(id)); a.m = DocModel{id, {}}; break; }
        case 10: case 11: { C &x = corpora[r.below(corpora.size())]; x.c->addDocument(*a.d); x.m.push_back(a.m); break; }
        case 12: { C &x = corpora[r.below(corpora.size())]; if(!x.m.empty()) { size_t i = r.below(x.m.size()); DocModel m = x.m[i]; x.c->addDocument(x.c->getDocument(i)); x.m.push_back(m); aliasing++; } break; }
        case 13: { C &x = corpora[r.below(corpora.size())]; if(!x.m.empty()) { size_t i = r.below(x.m.size()); *a.d = x.c->getDocument(i); a.m = x.m[i]; aliasing++; } break; }
        case 14: { C &x = corpora[r.below(corpora.size())]; bool threw = false; try { x.c->getDocument(x.m.size() + r.below(4)); } catch(const std::out_of_range &) { threw = true; } if(!threw) fail("corpus-range", "document past the end could be read"); break; }
        case 15: case 16: if(lOk) { Letters w = word(r); l.l->addWord(wordFromLetters(w)); l.m.push_back(w); } break;
        case 17: if(lOk && !l.m.empty()) { size_t i = r.below(l.m.size()); Letters w = l.m[i]; l.l->addWord((*l.l)[i]); l.m.push_back(w); aliasing++; } break;
        case 18: if(kOk && &l != &k) { l.l.reset(new WordList(*k.l)); l.m = k.m; l.moved = false; aliasing++; } break;
        case 19: if(kOk && &l != &k) { l.l.reset(new WordList(std::move(*k.l))); l.m = k.m; l.moved = false; k.moved = true; } break;
        case 20: if(kOk && l.l) { if(l.moved) c.count("assigned_to_moved_from"); *l.l = *k.l; if(&l != &k) { l.m = k.m; l.moved = false; } } break;
        case 21: if(kOk && l.l && &l != &k) { *l.l = std::move(*k.l); l.m = k.m; l.moved = false; k.moved = true; } break;
        case 22: if(lOk && kOk) { bool eq = l.m == k.m; if((*l.l == *k.l) != eq || (*l.l != *k.l) == eq) fail("list-equality", "lists %s and %s: == gives %d", showW(l.m).c_str(), showW(k.m).c_str(), *l.l == *k.l); } break;
        case 23: { std::string s; for(auto &x : randWords(r, false)) s += toUtf8(lettersToCps(x)) + "\t"; WordList w = splitToWords(s.c_str()); l.m = wordsOf(w); if(l.l) *l.l = std::move(w); else l.l.reset(new WordList(w)); l.moved = false; break; }
        case 24: { F &p = pars[r.below(pars.size())]; p.sp->getResultFilter().addNewTerm(); p.terms.push_back({}); break; }
        case 25: case 26: { F &p = pars[r.below(pars.size())]; Letters w = word(r); p.sp->getResultFilter().addNewSubTerm(wordFromLetters(fn), wordFromLetters(w)); p.terms.back().push_back({fn, w}); break; }
        case 27: { F &p = pars[r.below(pars.size())]; p.sp->addNonsearchingField(wordFromLetters(fn)); p.nosearch.insert(fn); break; }
        case 28: { F &p = pars[r.below(pars.size())]; p.dyn = r.chance(50); p.sp->setDynamic(p.dyn); break; }
        case 29: { Letters w = word(r); if(r.chance(40)) { plain.addNewTerm(); plainTerms.push_back({}); } else { plain.addNewSubTerm(wordFromLetters(fn), wordFromLetters(w)); plainTerms.back().push_back({fn, w}); } break; }
        case 30: case 31: { int i = r.range(0, 1); double v = r.chance(30) ? 0 : r.chance(20) ? -2.5 : r.unit() * 100; weights[i].setWeight(wordFromLetters(fn), v); wm[i][fn] = v; break; }
        }
        if(r.chance(25)) checkDoc(c, r, *a.d, a.m, "interleaved");
        checkList(l, "interleaved");
        for(int i = 0; i < 2; i++) {
            Letters f = r.chance(50) ? fn : word(r);
            double want = wm[i].count(f) ? wm[i][f] : 1.0, got = weights[i].getWeight(wordFromLetters(f));
            if(!(got == want)) fail("weight", "weight of %s is %.17g instead of %.17g", show(f).c_str(), got, want);
            c.count("weight_checks");
        }
        F &p = pars[r.below(pars.size())];
        if(p.sp->isDynamic() != p.dyn) fail("dynamic", "isDynamic() gives %d", !p.dyn);
        if(p.sp->isNonsearchingField(wordFromLetters(fn)) != (p.nosearch.count(fn) > 0)) fail("nosearch", "isNonsearchingField(%s) is wrong", show(fn).c_str());
        if(p.sp->getDynamicError(wordFromLetters(fn)) != (fn.size() < 2 ? 100 : 200)) fail("dynamic-error", "dynamic error of %s is %d", show(fn).c_str(), p.sp->getDynamicError(wordFromLetters(fn)));
    }
    for(auto &x : docs) checkDoc(c, r, *x.d, x.m, "final");
    for(auto &x : corpora) {
        if(x.c->size() != x.m.size()) fail("corpus-size", "corpus holds %zu documents instead of %zu", x.c->size(), x.m.size());
        for(size_t i = 0; i < x.m.size(); i++) checkDoc(c, r, x.c->getDocument(i), x.m[i], "in corpus");
        c.count("corpus_documents", x.m.size());
    }
    for(auto &x : lists) checkList(x, "final");
    for(auto &x : pars) { checkFilter(x.sp->getResultFilter(), x.terms, "parameters"); const SearchParameters &cs = *x.sp; checkFilter(cs.getResultFilter(), x.terms, "const parameters"); }
    checkFilter(plain, plainTerms, "filter");
    if(aliasing) { c.nontrivial(h); if(c.caseNo < 40) c.sample(fmt("%d operations over %zu documents, %zu corpora, %zu lists; %d copies or self references", ops, docs.size(), corpora.size(), lists.size(), aliasing)); }
}
int main(int argc, char **argv) { return runDriver(argc, argv, "containers", oneCase); }
