/* Random document sets, their library and reference forms, and comparison of results. */
#ifndef VP_CORPUS_HH
#define VP_CORPUS_HH
#include "model.hh"
#include "Corpus.hh"
#include "Document.hh"
#include "Matcher.hh"
#include "MatchResults.hh"
#include "SearchParameters.hh"
#include "ResultFilter.hh"
#include "IndexWeights.hh"
#include "ColumbusHelpers.hh"
#include <unicode/uchar.h>
#include <memory>

namespace vp {

inline Columbus::WordList listFrom(const std::vector<Letters> &ws) {
    Columbus::WordList l;
    for(auto &w : ws) l.addWord(wordFromLetters(w));
    return l;
}
inline std::string showWords(const std::vector<Letters> &ws) {
    std::string s = "[";
    for(auto &w : ws) s += show(w) + " ";
    return s + "]";
}
/* Whitespace-separated text for the words (none of which may be empty). */
inline std::string textOf(Rng &r, const std::vector<Letters> &ws) {
    static const char *sep[] = {" ", "\t", "\n", "\r", "  ", " \n\t", "\r\n"};
    std::string s;
    if(r.chance(20)) s += sep[r.below(7)];
    for(size_t i = 0; i < ws.size(); i++) {
        if(i) s += sep[r.below(7)];
        s += toUtf8(lettersToCps(ws[i]));
    }
    if(r.chance(20)) s += sep[r.below(7)];
    return s;
}
inline bool anyEmpty(const std::vector<Letters> &ws) { for(auto &w : ws) if(w.empty()) return true; return false; }

struct World {
    Cps alpha;
    Letters letters;
    std::vector<Letters> vocab, fieldNames;
    std::vector<RefDoc> docs;

    Letters word(Rng &r) {
        if(!vocab.empty() && r.chance(70)) return vocab[r.below(vocab.size())];
        Letters l;
        if(!vocab.empty() && r.chance(60)) l = toLetters(mutate(r, lettersToCps(vocab[r.below(vocab.size())]), alpha, r.range(1, 2)));
        else l = toLetters(randWord(r, alpha, 1, r.chance(10) ? 14 : 6));
        return l;
    }
    void generate(Ctx &c, bool uniqueIds) {
        Rng &r = c.rng;
        alpha = caseAlphabet(r);
        for(auto &x : alpha) x = u_tolower(x);
        letters = toLetters(alpha);
        int nv = r.range(2, 25);
        for(int i = 0; i < nv; i++) { Letters l = word(r); if(!l.empty()) vocab.push_back(l); }
        if(vocab.empty()) vocab.push_back(Letters(1, letters[0]));
        int nf = r.range(1, 4);
        for(int i = 0; i < nf; i++) fieldNames.push_back(r.chance(15) ? vocab[r.below(vocab.size())] : toLetters(Cps{'f', (uint32_t)('0' + i)}));
        if(r.chance(4)) fieldNames.push_back(Letters());
        int size = r.range(0, 19);
        int nd = size < 12 ? r.range(1, 6) : size < 18 ? r.range(5, 30) : r.range(60, 200);
        int maxWords = r.range(1, 8);
        std::set<uintptr_t> used;
        for(int d = 0; d < nd; d++) {
            RefDoc doc;
            do {
                int k = r.range(0, 9);
                doc.id = k < 6 ? (uintptr_t)d : k < 8 ? (uintptr_t)r.below(2 * nd + 1) : k == 8 ? (uintptr_t)r.next() : (uintptr_t)0 - 2 - r.below(5);
            } while(uniqueIds && used.count(doc.id));
            used.insert(doc.id);
            int n = r.range(0, (int)fieldNames.size());
            for(int f = 0; f < n; f++) {
                std::vector<Letters> t;
                int k = r.range(r.chance(10) ? 0 : 1, maxWords);
                for(int w = 0; w < k; w++) {
                    if(r.chance(1)) t.push_back(Letters());
                    else t.push_back(word(r));
                }
                doc.fields[fieldNames[r.below(fieldNames.size())]] = t;
            }
            docs.push_back(doc);
        }
    }
    Columbus::Document document(Rng &r, const RefDoc &d) const {
        Columbus::Document doc((DocumentID)d.id);
        for(auto &f : d.fields) {
            if(r.chance(5)) doc.addText(wordFromLetters(f.first), "overwritten text");
            if(anyEmpty(f.second) || r.chance(34)) doc.addText(wordFromLetters(f.first), listFrom(f.second));
            else if(r.chance(50)) doc.addText(wordFromLetters(f.first), textOf(r, f.second).c_str());
            else doc.addText(wordFromLetters(f.first), textOf(r, f.second));
        }
        return doc;
    }
    std::vector<Letters> query(Rng &r, bool allowEmptyWord = true) {
        std::vector<Letters> q;
        int k = r.range(0, 9);
        if(k == 0 && !docs.empty()) { // the literal text of some field
            auto &d = docs[r.below(docs.size())];
            if(!d.fields.empty()) { auto it = d.fields.begin(); std::advance(it, r.below(d.fields.size())); q = it->second; if(r.chance(40)) r.shuffle(q); if(r.chance(20) && !q.empty()) q.push_back(q[0]); }
            if(!allowEmptyWord) q.erase(std::remove_if(q.begin(), q.end(), [](const Letters &l) { return l.empty(); }), q.end());
            return q;
        }
        int n = r.chance(4) ? 0 : r.range(1, 4);
        for(int i = 0; i < n; i++) {
            Letters w = vocab[r.below(vocab.size())];
            if(r.chance(55)) w = toLetters(mutate(r, lettersToCps(w), alpha, r.range(1, 3)));
            if(w.empty() && !allowEmptyWord) continue;
            if(allowEmptyWord && r.chance(1)) w.clear();
            q.push_back(w);
        }
        return q;
    }
};

inline std::string showResult(const RefResult &r) {
    std::string s = "{";
    size_t n = 0;
    for(auto &x : r) { if(n++ > 12) { s += "..."; break; } s += fmt("%llu:%.12g ", (unsigned long long)x.first, x.second); }
    return s + "}";
}
/* Checks order and uniqueness, returns the result as a map. */
inline RefResult readResults(const Columbus::MatchResults &m, const char *what) {
    RefResult res;
    double prev = 0;
    for(size_t i = 0; i < m.size(); i++) {
        double rel = m.getRelevancy(i);
        if(i && !(rel <= prev)) fail("order", "%s: relevancy %.17g at %zu after %.17g", what, rel, i, prev);
        prev = rel;
        if(!res.insert({(uintptr_t)m.getDocumentID(i), rel}).second) fail("duplicate", "%s: document %llu returned twice", what, (unsigned long long)m.getDocumentID(i));
    }
    return res;
}
inline void compareResults(const RefResult &want, const RefResult &got, const char *what, const std::string &detail) {
    std::string d;
    for(auto &x : want) {
        auto g = got.find(x.first);
        if(g == got.end()) d += fmt(" document %llu (%.12g) missing;", (unsigned long long)x.first, x.second);
        else if(!close(x.second, g->second)) d += fmt(" document %llu relevancy %.15g instead of %.15g;", (unsigned long long)x.first, g->second, x.second);
    }
    for(auto &x : got) if(!want.count(x.first)) d += fmt(" document %llu (%.12g) surplus;", (unsigned long long)x.first, x.second);
    if(!d.empty()) fail(std::string("wrong-") + what, "%s: %s:%s", what, detail.c_str(), d.substr(0, 1500).c_str());
}
inline std::string describeDocs(const std::vector<RefDoc> &docs) {
    std::string s;
    for(auto &d : docs) {
        s += fmt("doc %llu:", (unsigned long long)d.id);
        for(auto &f : d.fields) s += " " + show(f.first) + "=" + showWords(f.second);
        s += "; ";
        if(s.size() > 3000) { s += "..."; break; }
    }
    return s;
}
inline void randomWeights(Rng &r, const World &w, Columbus::IndexWeights &iw, std::map<Letters, double> &ref) {
    static const double v[] = {0, 0.25, 0.5, 1, 1.5, 2, 3, 10, -1, 0.001};
    if(r.chance(50)) return;
    int n = r.range(1, 4);
    for(int i = 0; i < n; i++) {
        Letters f = r.chance(85) ? w.fieldNames[r.below(w.fieldNames.size())] : w.vocab[r.below(w.vocab.size())];
        double x = v[r.below(10)];
        iw.setWeight(wordFromLetters(f), x);
        ref[f] = x;
    }
}
inline uint64_t hashWords(const std::vector<Letters> &q, uint64_t h = 7) {
    for(auto &w : q) { h = mix(h + 1000003); for(uint32_t x : w) h = mix(h ^ x); }
    return h;
}
inline uint64_t hashDocs(const std::vector<RefDoc> &docs) {
    uint64_t h = 11;
    for(auto &d : docs) { h = mix(h ^ d.id); for(auto &f : d.fields) { h = hashWords({f.first}, h); h = hashWords(f.second, h); } }
    return h;
}
} // namespace vp
#endif
