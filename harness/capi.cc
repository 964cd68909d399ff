/* C15: every C API call next to the corresponding C++ call on an independent set of objects. */
#include "corpus.hh"
#include "columbus.h"
using namespace vp;
using namespace Columbus;

static std::string longBytes(Rng &r) {
    static const char *s[] = {"a", "word", "Ab\xc3\x84\xc3\xa5", "\xf0\x9f\x98\x80\xf0\x9f\x98\x81", "\xe4\xb8\x80\xe4\xb8\x81\xe4\xb8\x82", "x y", "", "\xff", "a\xc3", "\xed\xa0\x80", "tab\t", "\xf0\x90\x90\x80"};
    std::string o;
    int n = r.range(0, 4);
    for(int i = 0; i < n; i++) o += s[r.below(12)];
    return o;
}
static void wordCalls(Ctx &c, Rng &r, const std::string &bytes) {
    std::unique_ptr<Word> w;
    try { w.reset(new Word(bytes.c_str())); } catch(const std::exception &) {}
    ColWord cw = col_word_new(bytes.c_str());
    c.count("c_words");
    if((cw != nullptr) != (w != nullptr)) fail("word-new", "col_word_new(\"%s\") gives %s, C++ %s", showBytes(bytes).c_str(), cw ? "a word" : "null", w ? "a word" : "an exception");
    if(!cw) { c.count("rejected_words"); return; }
    if(col_word_length(cw) != w->length()) fail("word-length", "length %zu instead of %u", col_word_length(cw), w->length());
    std::string text = w->asUtf8();
    for(int i = 0; i < 4; i++) {
        unsigned sz = (unsigned)(i == 0 ? text.size() + 1 : i == 1 ? text.size() : r.below(text.size() + 8));
        char *buf = (char*)malloc(sz ? sz : 1);
        memset(buf, 0x5a, sz ? sz : 1);
        col_word_as_utf8(cw, buf, sz);
        std::string verdict;
        if(sz && !memchr(buf, 0, sz)) verdict = "no terminator";
        else if(sz > text.size() && text != buf) verdict = "text \"" + showBytes(buf) + "\"";
        else if(sz && sz <= text.size() && text.compare(0, strlen(buf), buf) != 0) verdict = "text \"" + showBytes(buf) + "\" is no beginning of the word";
        free(buf);
        if(!verdict.empty()) fail("word-as-utf8", "\"%s\" into %u bytes: %s", showBytes(text).c_str(), sz, verdict.c_str());
        c.count("c_renderings");
    }
    col_word_delete(cw);
}
static void oneCase(Ctx &c) {
    Rng &r = c.rng;
    for(int i = 0; i < 4; i++) wordCalls(c, r, longBytes(r));
    World w;
    w.generate(c, false);
    if(w.docs.size() > 40) w.docs.resize(40);
    ColMatcher cm = col_matcher_new();
    ColCorpus cc = col_corpus_new();
    Matcher m;
    Corpus corpus;
    std::map<Letters, ColWord> cwords;
    auto cword = [&](const Letters &l) -> ColWord {
        auto it = cwords.find(l);
        if(it != cwords.end()) return it->second;
        ColWord x = col_word_new(toUtf8(lettersToCps(l)).c_str());
        if(!x) fail("word-new", "col_word_new rejects %s", show(l).c_str());
        if(col_word_length(x) != l.size()) fail("word-length", "length of %s is %zu", show(l).c_str(), col_word_length(x));
        return cwords[l] = x;
    };
    struct Free { ColMatcher m; ColCorpus c; std::map<Letters, ColWord> &w; ~Free() { col_matcher_delete(m); if(c) col_corpus_delete(c); for(auto &x : w) col_word_delete(x.second); } } guard{cm, cc, cwords};
    // the same settings through both interfaces, before or after indexing
    bool standard = r.chance(30), substring = r.chance(40), early = r.chance(50);
    auto settings = [&]() {
        if(standard) { col_error_values_add_standard_errors(col_matcher_get_error_values(cm)); m.getErrorValues().addStandardErrors(); }
        if(substring) { col_error_values_set_substring_mode(col_matcher_get_error_values(cm)); m.getErrorValues().setSubstringMode(); }
        if(standard && r.chance(20)) col_error_values_add_standard_errors(col_matcher_get_error_values(cm)); // fails: the groups exist already; changes nothing
    };
    if(early) settings();
    std::string log = fmt("standard=%d substring=%d docs %s", standard, substring, describeDocs(w.docs).c_str());
    for(auto &d : w.docs) {
        ColDocument cd = col_document_new(d.id);
        Document doc(d.id);
        if(col_document_get_id(cd) != d.id) fail("document-id", "id %llu instead of %llu", (unsigned long long)col_document_get_id(cd), (unsigned long long)d.id);
        for(auto &f : d.fields) {
            std::vector<Letters> ws;
            for(auto &x : f.second) if(!x.empty()) ws.push_back(x);
            std::string t = textOf(r, ws);
            col_document_add_text(cd, cword(f.first), t.c_str());
            doc.addText(wordFromLetters(f.first), t.c_str());
            if(r.chance(10)) { // bad text leaves the document as it was
                std::string bad = t + " \xff";
                col_document_add_text(cd, cword(f.first), bad.c_str());
                c.count("bad_texts");
            }
        }
        col_corpus_add_document(cc, cd);
        corpus.addDocument(doc);
        if(r.chance(30)) col_document_add_text(cd, cword(w.fieldNames[0]), "changed afterwards");
        col_document_delete(cd);
    }
    col_matcher_index(cm, cc);
    m.index(corpus);
    if(r.chance(50)) { col_corpus_delete(cc); guard.c = nullptr; }
    if(!early) settings();
    int n = r.range(0, 4);
    ColIndexWeights iw = col_matcher_get_index_weights(cm);
    for(int i = 0; i < n; i++) {
        Letters f = r.chance(85) ? w.fieldNames[r.below(w.fieldNames.size())] : w.vocab[0];
        double v = r.chance(20) ? 0.5 : r.chance(20) ? 0 : r.chance(20) ? -1.5 * r.unit() : r.chance(10) ? 1 : r.unit() * 4;
        col_index_weights_set_weight(iw, cword(f), v);
        m.getIndexWeights().setWeight(wordFromLetters(f), v);
    }
    for(auto &f : w.fieldNames) {
        double a = col_index_weights_get_weight(iw, cword(f)), b = m.getIndexWeights().getWeight(wordFromLetters(f));
        if(!(a == b)) fail("weight", "weight of %s is %.17g instead of %.17g", show(f).c_str(), a, b);
        c.count("c_weights");
    }
    int queries = r.range(2, 5);
    bool some = false;
    uint64_t h = hashDocs(w.docs) ^ (standard * 2 + substring);
    for(int i = 0; i < queries; i++) {
        std::string q = textOf(r, w.query(r, false));
        if(r.chance(8)) q += "\xc3\x28";
        bool threw = false;
        MatchResults want;
        try { want = m.match(q.c_str()); } catch(const std::exception &) { threw = true; }
        ColMatchResults got = col_matcher_match(cm, q.c_str());
        c.count("c_queries");
        h = hashStr(q, h);
        if((got == nullptr) != threw) fail("query-null", "query \"%s\": C gives %s, C++ %s", showBytes(q).c_str(), got ? "results" : "null", threw ? "an exception" : "results");
        if(!got) { c.count("failed_queries"); continue; }
        std::string verdict;
        size_t size = col_match_results_size(got);
        if(size != want.size()) verdict = fmt("%zu results instead of %zu", size, want.size());
        for(size_t k = 0; k < size && verdict.empty(); k++) {
            DocumentID id = col_match_results_get_id(got, k);
            double rel = col_match_results_get_relevancy(got, k);
            if(id != want.getDocumentID(k) || !close(rel, want.getRelevancy(k))) verdict = fmt("position %zu is (%llu, %.15g) instead of (%llu, %.15g)", k, (unsigned long long)id, rel, (unsigned long long)want.getDocumentID(k), want.getRelevancy(k));
            c.count("c_results");
        }
        size_t past = size + (r.chance(50) ? 0 : r.next() % 100);
        if(verdict.empty() && (col_match_results_get_id(got, past) != INVALID_DOCID || col_match_results_get_relevancy(got, past) != -1.0)) verdict = fmt("position %zu past the end does not give the error values", past);
        if(size) some = true;
        col_match_results_delete(got);
        if(!verdict.empty()) fail("query", "query \"%s\": %s (%s)", showBytes(q).c_str(), verdict.c_str(), log.substr(0, 1500).c_str());
    }
    ColMatchResults none = col_match_results_new();
    bool fine = col_match_results_size(none) == 0 && col_match_results_get_id(none, 0) == INVALID_DOCID && col_match_results_get_relevancy(none, 0) == -1.0;
    col_match_results_delete(none);
    if(!fine) fail("empty-results", "a new result object is not empty");
    if(some) { c.nontrivial(h); if(c.caseNo < 40) c.sample(log.substr(0, 400)); }
}
int main(int argc, char **argv) { return runDriver(argc, argv, "capi", oneCase); }
