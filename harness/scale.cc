/* Sizes beyond what the random drivers reach: counts, lengths and positions around 2^8, 2^10, 2^12, 2^15 and 2^16.
 * --opt mode=N runs the scenarios of property CN; mode=17 runs any of them for the memory checkers only. */
#include "corpus.hh"
#include "columbus.h"
#include "WordStore.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include "MatchResults.hh"
#include <fstream>
#include <sys/stat.h>
using namespace vp;
using namespace Columbus;

static size_t sizeFrom(Rng &r, size_t cap) {
    static const size_t at[] = {250, 510, 1020, 2040, 4090, 8190, 16380, 32760, 65530, 131066};
    std::vector<size_t> ok;
    for(size_t a : at) if(a + 40 <= cap) ok.push_back(a);
    if(ok.empty()) return cap;
    // the largest ones more often
    size_t i = r.chance(40) ? ok.size() - 1 : std::max(r.below(ok.size()), r.below(ok.size()));
    return ok[i] + r.below(40);
}
static Letters num(uint64_t n) { Letters l; for(char ch : std::to_string(n)) l.push_back(ch); return l; }   // the library's word hash spreads digits well
static uint32_t cjk(uint64_t n) { return 0x4e00 + (uint32_t)(n % 0x5000); }
static Letters repeat(uint32_t x, size_t n) { return Letters(n, x); }
static Letters cat(Letters a, const Letters &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static Letters randLetters(Rng &r, size_t n, const char *alpha = "abcdef") { Letters l; size_t k = strlen(alpha); for(size_t i = 0; i < n; i++) l.push_back(alpha[r.below(k)]); return l; }
static Letters tweak(Rng &r, Letters l, int edits) { // edits anywhere, the ends more often
    for(int e = 0; e < edits && !l.empty(); e++) {
        size_t i = r.chance(30) ? l.size() - 1 : r.chance(20) ? 0 : r.below(l.size());
        int op = r.range(0, 3);
        if(op == 0) l.erase(l.begin() + i);
        else if(op == 1) l.insert(l.begin() + i, 'a' + r.below(7));
        else if(op == 2) l[i] = 'a' + r.below(7);
        else if(i + 1 < l.size()) std::swap(l[i], l[i + 1]);
    }
    return l;
}
static std::string brief(const Letters &l) { if(l.size() < 40) return show(l); return fmt("[%zu letters, ending %s]", l.size(), show(Letters(l.end() - 8, l.end())).c_str()); }

/* refDistance with three rows only. */
struct SubCache {
    const Costs &c;
    std::vector<int> v;
    explicit SubCache(const Costs &c_) : c(c_), v(128 * 128, -1) {}
    int operator()(uint32_t a, uint32_t b) {
        if(a == b) return 0;
        if(a >= 128 || b >= 128) return c.subst(a, b);
        int &x = v[a * 128 + b];
        return x >= 0 ? x : (x = c.subst(a, b));
    }
};
static long distance(const Letters &q, const Letters &w, const Costs &c, SubCache &subst) {
    const size_t n = q.size(), m = w.size();
    const long lead = n >= c.startLimit ? c.startIns : c.ins;
    std::vector<long> a(n + 1), b(n + 1), d(n + 1);   // word prefixes j-2, j-1, j
    for(size_t i = 0; i <= n; i++) d[i] = (long)i * c.ins;
    for(size_t j = 1; j <= m; j++) {
        a.swap(b); b.swap(d);
        for(size_t i = 0; i <= n; i++) {
            long best = b[i] + (i == 0 ? lead : i == n ? (long)c.endDel : (long)c.del);
            if(i) {
                best = std::min(best, d[i - 1] + c.ins);
                best = std::min(best, b[i - 1] + subst(q[i - 1], w[j - 1]));
                if(i > 1 && j > 1 && q[i - 1] == w[j - 2] && q[i - 2] == w[j - 1]) best = std::min(best, a[i - 2] + c.trans);
            }
            d[i] = best;
        }
    }
    return d[n];
}

/* ---- C01 ---- */
static void search(Ctx &c) {
    Rng &r = c.rng;
    int scen = (int)(c.caseNo % 7);
    LevenshteinIndex ix;
    ErrorValues e;
    Costs costs;
    std::string desc;
    std::map<Letters, WordID> ids;
    std::vector<Letters> words, queries;
    std::vector<long> limits;
    auto add = [&](const Letters &l) { auto it = ids.insert({l, (WordID)ids.size() + 3}); if(it.second) words.push_back(l); ix.insertWord(wordFromLetters(l), it.first->second); };
    const char *name;
    Letters some = toLetters(Cps{'a', 'b', 'c', 'd', 'e', 'f', '1', '2', cjk(0), cjk(700)});
    if(scen != 3 && r.chance(60)) randomCosts(r, e, costs, some, false, &desc);
    if(scen == 0) {
        name = "many siblings";
        Letters stem = randLetters(r, r.below(3));
        size_t n = sizeFrom(r, 4200);
        for(size_t i = 0; i < n; i++) add(cat(stem, Letters{cjk(i * 3)}));
        for(int i = 0; i < 20; i++) add(cat(cat(stem, Letters{cjk(r.below(n) * 3)}), randLetters(r, 2)));
        for(int i = 0; i < 3; i++) queries.push_back(cat(stem, Letters{cjk(i ? r.below(n) * 3 : (n - 1) * 3)}));
        queries.push_back(cat(cat(stem, Letters{cjk((n - 1) * 3)}), randLetters(r, 1)));
        limits = {0, 100, 200};
    } else if(scen == 1) {
        name = "long words";
        Letters base = randLetters(r, sizeFrom(r, 2100));
        add(base);
        for(int i = 0; i < 4; i++) add(tweak(r, base, r.range(1, 4)));
        add(Letters(base.begin(), base.begin() + base.size() / 2));
        add(randLetters(r, 5));
        for(int i = 0; i < 3; i++) queries.push_back(tweak(r, words[r.below(5)], r.range(0, 4)));
        queries.push_back(base);
        limits = {0, 100, 300, 1000, 1000000};
    } else if(scen == 2) {
        name = "many words, accumulated matches";
        size_t n = sizeFrom(r, c.thorough ? 140000 : 66000);
        for(size_t i = 0; i < n; i++) add(num(i));
        for(int i = 0; i < 2; i++) queries.push_back(tweak(r, num(r.below(n)), i));
        limits = {0, 200, 2000};
    } else if(scen == 3) {
        name = "large costs";
        int v[6];
        for(int &x : v) { static const int p[] = {127, 128, 255, 256, 32767, 32768, 40000, 65535, 65536, 100000, 1000000}; x = p[r.below(11)]; }
        costs.ins = v[0]; costs.del = v[1]; costs.endDel = v[2]; costs.startIns = v[3]; costs.trans = v[4];
        e.setInsertionError(v[0]); e.setDeletionError(v[1]); e.setEndDeletionError(v[2]); e.setStartInsertionError(v[3]); e.setTransposeError(v[4]);
        e.setError(Letter((Letter_)'a'), Letter((Letter_)'b'), v[5]); costs.sub.setPair('a', 'b', v[5]);
        e.setGroupError(Word("cde"), v[4]); costs.sub.setGroup(Letters{'c', 'd', 'e'}, v[4]);
        for(int i = 0; i < 60; i++) add(i && r.chance(60) ? tweak(r, words[r.below(words.size())], 2) : randLetters(r, r.range(1, 9)));
        ids.erase(Letters());
        for(int i = 0; i < 4; i++) queries.push_back(tweak(r, words[r.below(words.size())], 2));
        for(int x : v) { limits.push_back(x); limits.push_back(x - 1); limits.push_back(x + v[0]); }
        limits.push_back(20000000);
    } else if(scen == 4) {
        name = "long queries over short words";
        for(int i = 0; i < 50; i++) add(randLetters(r, r.range(1, 6)));
        queries.push_back(randLetters(r, sizeFrom(r, 4200)));
        queries.push_back(cat(words[0], repeat('a', sizeFrom(r, 1100))));
        limits = {200, 100000, 1000000};
    } else if(scen == 5) {
        name = "start limits";
        size_t lim = sizeFrom(r, 600);
        costs.startLimit = lim; e.setSubstringStartLimit(lim);
        costs.startIns = 7; e.setStartInsertionError(7);
        Letters base = randLetters(r, lim + 4);
        add(base); add(cat(Letters{'x', 'y'}, base)); add(cat(Letters{'z'}, Letters(base.begin(), base.begin() + lim)));
        for(int i = -2; i <= 2; i++) queries.push_back(Letters(base.begin(), base.begin() + lim + i));
        limits = {14, 100, 600, 1000};
    } else {
        name = "deep chain";   // every prefix is a word
        size_t n = sizeFrom(r, 600);
        Letters base = randLetters(r, n, "ab");
        for(size_t i = 1; i <= n; i++) add(Letters(base.begin(), base.begin() + i));
        queries.push_back(base);
        queries.push_back(tweak(r, Letters(base.begin(), base.begin() + n / 2), 3));
        queries.push_back(Letters(base.begin(), base.begin() + 3));
        limits = {0, 200, 400};
    }
    IndexMatches acc;
    std::vector<std::pair<int, WordID>> accWant;
    uint64_t inexact = 0;
    SubCache cache(costs);
    for(auto &q : queries) {
        std::vector<std::pair<WordID, long>> dist;
        for(auto &w : ids) dist.push_back({w.second, distance(q, w.first, costs, cache)});
        for(long limit : limits) {
            std::vector<std::pair<int, WordID>> want, got;
            for(auto &x : dist) if(x.second <= limit) { want.push_back({(int)x.second, x.first}); inexact += x.second > 0; }
            bool shared = scen == 2;
            IndexMatches own;
            IndexMatches &m = shared ? acc : own;
            ix.findWords(wordFromLetters(q), e, (int)limit, m);
            if(shared) { accWant.insert(accWant.end(), want.begin(), want.end()); want = accWant; }
            int prev = 0;
            for(size_t i = 0; i < m.size(); i++) {
                int err = m.getMatchError(i);
                if(i && err < prev) fail("order", "%s: error %d after %d at position %zu", name, err, prev, i);
                prev = err;
                got.push_back({err, m.getMatch(i)});
            }
            std::sort(got.begin(), got.end());
            std::sort(want.begin(), want.end());
            if(got != want) {
                std::string d;
                std::vector<std::pair<int, WordID>> only;
                std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(only));
                for(size_t i = 0; i < only.size() && i < 20; i++) d += fmt(" missing id %u@%d", only[i].second, only[i].first);
                only.clear();
                std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(only));
                for(size_t i = 0; i < only.size() && i < 20; i++) d += fmt(" surplus id %u@%d", only[i].second, only[i].first);
                fail("wrong-matches", "%s (%zu words): query %s limit %ld costs%s:%s", name, ids.size(), brief(q).c_str(), limit, desc.c_str(), d.c_str());
            }
            c.count("scale_searches"); c.count("scale_matches", want.size()); c.maxi("scale_max_matches", want.size());
        }
        c.maxi("scale_max_query_letters", q.size());
    }
    c.maxi("scale_max_words", ids.size());
    if(inexact) c.nontrivial(hashStr(name) ^ mix(c.caseNo * 31 + inexact));
    if(c.caseNo < 14) c.sample(fmt("scale: %s, %zu words, %zu queries of up to %zu letters", name, ids.size(), queries.size(), queries.back().size()));
}

/* ---- C02-C05 ---- */
static void indexDocs(Matcher &m, const std::vector<RefDoc> &docs, size_t from = 0, size_t to = (size_t)-1) {
    Corpus corpus;
    for(size_t i = from; i < docs.size() && i < to; i++) {
        Document d((DocumentID)docs[i].id);
        for(auto &f : docs[i].fields) d.addText(wordFromLetters(f.first), listFrom(f.second));
        corpus.addDocument(d);
    }
    m.index(corpus);
}
static std::vector<RefDoc> bigDocs(Rng &r, int scen, std::vector<Letters> &vocab, std::vector<Letters> &fields, const char *&name, bool thorough) {
    std::vector<RefDoc> docs;
    Letters f0 = toLetters(Cps{'f'});
    fields = {f0};
    for(int i = 0; i < 30; i++) vocab.push_back(cat(randLetters(r, 2), num(i)));
    auto pick = [&]() { return vocab[r.below(vocab.size())]; };
    switch(scen) {
    case 0: {
        name = "many fields";
        RefDoc d{1, {}}, d2{2, {}};
        size_t n = sizeFrom(r, 1100);
        for(size_t i = 0; i < n; i++) { Letters f = cat(f0, num(i)); fields.push_back(f); d.fields[f] = {pick(), pick()}; if(i % 3 == 0) d2.fields[f] = {pick()}; }
        docs = {d, d2};
        break; }
    case 1: {
        name = "many documents";
        size_t n = sizeFrom(r, thorough ? 140000 : 66000);
        for(size_t i = 0; i < n; i++) { RefDoc d{(uintptr_t)i * (n < 5000 ? 70000 : 1), {}}; d.fields[f0] = {vocab[i % 7 ? 1 + i % 20 : 0], num(i % 1000)}; docs.push_back(d); }
        break; }
    case 2: {
        name = "large counts";
        RefDoc d{5, {}}, d2{6, {}};
        size_t n = sizeFrom(r, thorough ? 140000 : 66000);
        auto &t = d.fields[f0];
        for(size_t i = 0; i < n; i++) t.push_back(vocab[i % 50 == 1 ? 1 : 0]);
        for(size_t i = 0; i < 3; i++) t.push_back(vocab[2]);
        d2.fields[f0] = {vocab[0], vocab[2], vocab[3]};
        docs = {d, d2};
        break; }
    case 3: {
        name = "many distinct words";
        size_t n = sizeFrom(r, thorough ? 140000 : 66000);
        RefDoc d{0, {}};
        for(size_t i = 0; i < n; i++) { d.fields[f0].push_back(num(i)); if(d.fields[f0].size() == 97) { docs.push_back(d); d = RefDoc{(uintptr_t)docs.size(), {}}; } }
        docs.push_back(d);
        for(int i = 0; i < 20; i++) vocab.push_back(num(i * (n / 20)));
        break; }
    default: {
        name = "long words";
        Letters base = randLetters(r, sizeFrom(r, 1100));
        vocab.push_back(base);
        for(int i = 0; i < 3; i++) vocab.push_back(tweak(r, base, r.range(1, 2)));
        for(int i = 0; i < 12; i++) { RefDoc d{(uintptr_t)i, {}}; d.fields[f0] = {vocab[vocab.size() - 1 - i % 4], pick()}; docs.push_back(d); }
        break; }
    }
    return docs;
}
static void matching(Ctx &c, int mode) {
    Rng &r = c.rng;
    int scen = (int)(c.caseNo % 5);
    std::vector<Letters> vocab, fields;
    const char *name;
    std::vector<RefDoc> docs = bigDocs(r, scen, vocab, fields, name, c.thorough);
    Matcher m;
    RefMatcher ref;
    size_t cut = r.chance(50) ? docs.size() : r.below(docs.size() + 1);
    indexDocs(m, docs, 0, cut);
    if(cut < docs.size()) indexDocs(m, docs, cut);
    ref.index(docs);
    if(r.chance(50)) { m.getErrorValues().setDeletionError(40); ref.costs.del = 40; m.getErrorValues().setError(Letter((Letter_)'a'), Letter((Letter_)'b'), 30); ref.costs.sub.setPair('a', 'b', 30); }
    c.maxi("scale_max_documents", docs.size());
    uint64_t found = 0;
    auto check = [&](const std::vector<Letters> &q, const char *what) {
        std::string d = fmt("%s, %s, %zu documents, query of %zu words", name, what, docs.size(), q.size());
        RefResult want = ref.match(q);
        c.count("scale_queries"); c.maxi("scale_max_results", want.size()); c.maxi("scale_max_query_words", q.size());
        found += want.size();
        if(mode == 3) {
            SearchParameters sp;
            std::set<Letters> noSearch;
            RefFilter rf;
            size_t nt = r.chance(50) ? sizeFrom(r, 600) : 1, ns = r.chance(50) ? sizeFrom(r, 600) : 1, nn = r.chance(50) ? sizeFrom(r, 1100) : 1;
            if(docs.size() > 3000) { nt = std::min(nt, (size_t)3); ns = std::min(ns, (size_t)3); }
            Letters lastField = fields.back(), lastWord = q[0];
            for(auto &x : docs[docs.size() - 1].fields) { lastField = x.first; lastWord = x.second[0]; }
            if(r.chance(50)) lastWord = q.back();
            rf.terms.back().push_back({toLetters(Cps{'n', 'o'}), lastWord});
            sp.getResultFilter().addNewSubTerm(Word("no"), wordFromLetters(lastWord));
            for(size_t t = 0; t < nt; t++) { // terms that match nothing, the last one does
                sp.getResultFilter().addNewTerm(); rf.terms.push_back({});
                Letters f = t + 1 == nt ? lastField : num(t);
                sp.getResultFilter().addNewSubTerm(wordFromLetters(f), wordFromLetters(lastWord)); rf.terms.back().push_back({f, lastWord});
            }
            for(size_t t = 1; t < ns; t++) { Letters w = t + 1 == ns && r.chance(50) ? toLetters(Cps{'n', 'o'}) : lastWord; sp.getResultFilter().addNewSubTerm(wordFromLetters(lastField), wordFromLetters(w)); rf.terms.back().push_back({lastField, w}); }
            for(size_t t = 0; t < nn; t++) { Letters f = t + 1 == nn && r.chance(30) ? fields[r.below(fields.size())] : r.chance(40) && fields.size() > 1 ? fields[1 + r.below((fields.size() - 1) / 2 + 1) % (fields.size() - 1)] : cat(num(t), num(7)); sp.addNonsearchingField(wordFromLetters(f)); noSearch.insert(f); }
            RefResult kept = ref.match(q, true, &noSearch, &rf);
            compareResults(kept, readResults(m.match(listFrom(q), sp), "filtered"), "filtered", d + fmt(", %zu terms, %zu sub-terms, %zu fields left out", nt + 1, ns, nn));
            c.count("scale_kept", kept.size());
        } else if(mode == 4) {
            Letters primary = docs[r.below(docs.size())].fields.begin()->first;
            RefResult on;
            if(!ref.online(q, primary, on)) fail("harness", "primary unknown");
            compareResults(on, readResults(m.onlineMatch(listFrom(q), wordFromLetters(primary)), "online"), "online", d);
        } else compareResults(want, readResults(m.match(listFrom(q)), "match"), "match", d);
    };
    for(int i = 0; i < 2; i++) check({vocab[r.below(vocab.size())], vocab[r.below(vocab.size())]}, "two words");
    check({vocab.back()}, "one word");
    if(scen == 2) { check({vocab[0]}, "the most common word"); check({vocab[1], vocab[2]}, "rarer words"); }
    if(scen == 1) check({vocab[0]}, "every seventh document");
    if(scen == 0 || scen == 2 || scen == 4) {
        std::vector<Letters> q;
        size_t n = scen == 0 ? sizeFrom(r, 300) : scen == 4 ? 20 : sizeFrom(r, 4200);
        for(size_t i = 0; i + 1 < n; i++) q.push_back(vocab[0]);
        q.push_back(vocab[3]);
        check(q, "many query words");
    }
    if(mode == 4 && scen == 2) { // the whole text: a perfect match, and one word short of it
        std::vector<Letters> t;
        Letters f0 = fields[0];
        size_t n = sizeFrom(r, 1100);
        for(size_t i = 0; i < n; i++) t.push_back(vocab[4 + i % 20]);
        RefDoc d{77, {}};
        d.fields[f0] = t;
        indexDocs(m, {d});
        ref.index({d});
        docs.push_back(d);
        check(t, "whole text");
        std::vector<Letters> shorter(t.begin(), t.end() - 1);
        check(shorter, "whole text but one word");
    }
    if(found) c.nontrivial(hashStr(name) ^ mix(c.caseNo * 17 + mode));
    if(c.caseNo < 10) c.sample(fmt("scale: %s, %zu documents, %zu fields", name, docs.size(), fields.size()));
}
static void histories(Ctx &c) {
    Rng &r = c.rng;
    int scen = (int)(c.caseNo % 5);
    std::vector<Letters> vocab, fields;
    const char *name;
    std::vector<RefDoc> docs = bigDocs(r, scen, vocab, fields, name, c.thorough);
    Matcher one, many;
    indexDocs(one, docs);
    std::vector<RefDoc> perm = docs;
    r.shuffle(perm);
    size_t calls = std::min(perm.size(), sizeFrom(r, 600)), per = (perm.size() + calls - 1) / calls;
    for(size_t i = 0; i < perm.size(); i += per) indexDocs(many, perm, i, i + per);
    std::vector<std::vector<Letters>> qs;
    for(int i = 0; i < 4; i++) qs.push_back({vocab[r.below(vocab.size())], vocab[r.below(vocab.size())]});
    qs.push_back({vocab.back()});
    std::vector<RefResult> first;
    for(auto &q : qs) first.push_back(readResults(one.match(listFrom(q)), "match"));
    auto same = [&](Matcher &m, size_t i, const char *what) {
        compareResults(first[i], readResults(m.match(listFrom(qs[i])), what), what, fmt("%s, %zu documents, query %s", name, docs.size(), showWords(qs[i]).substr(0, 200).c_str()));
        c.count("scale_comparisons");
    };
    for(size_t i = 0; i < qs.size(); i++) same(many, i, "split-indexing");
    // many queries in between, with words that were never indexed
    size_t n = scen == 0 || scen == 3 ? 60 : scen == 1 ? sizeFrom(r, 600) : sizeFrom(r, 66000);
    for(size_t i = 0; i < n; i++) {
        Matcher &m = r.chance(50) ? one : many;
        SearchParameters sp;
        if(i % 2) sp.addNonsearchingField(wordFromLetters(fields[0]));
        if(i % 5 == 0) sp.getResultFilter().addNewSubTerm(wordFromLetters(num(i)), wordFromLetters(num(i + 1)));
        m.match(listFrom({cat(num(i), randLetters(r, 5))}), sp);
    }
    c.count("scale_queries_between", n);
    for(size_t i = 0; i < qs.size(); i++) { same(one, i, "repeated-much-later"); same(many, i, "repeated-much-later"); }
    c.nontrivial(hashStr(name) ^ mix(c.caseNo * 13));
    if(c.caseNo < 10) c.sample(fmt("scale: %s, %zu documents in %zu calls, %zu queries in between", name, docs.size(), calls, n));
}

/* ---- C06, C07, C08 ---- */
static void checkValue(const Word &w, const Letters &l, const char *what) {
    if(w.length() != l.size()) fail("length", "%s: length %u instead of %zu", what, w.length(), l.size());
    if(lettersOf(w) != l) fail("letters", "%s: letters of %s differ", what, brief(l).c_str());
    std::string t = toUtf8(lettersToCps(l));
    if(w.asUtf8() != t) fail("as-utf8", "%s: rendering of %s differs (%zu bytes instead of %zu)", what, brief(l).c_str(), w.asUtf8().size(), t.size());
}
static Cps longText(Rng &r, size_t n) {
    static const Cps pool = {'a', 'z', '7', 0xe4, 0x3b1, 0x4e00, 0xffff, 0x1f600, 0x10ffff};
    Cps t;
    int kind = r.range(0, 4);
    for(size_t i = 0; i < n; i++) t.push_back(kind == 0 ? 'x' : kind == 1 ? 0x4e00 : kind == 2 ? 0x1f600 : pool[r.below(pool.size())]);
    return t;
}
static void wordLimits(Ctx &c) {
    Rng &r = c.rng;
    size_t n = sizeFrom(r, c.thorough && c.caseNo % 9 == 0 ? 140000 : 66000);
    Cps t = longText(r, n);
    Letters l = toLetters(t);
    std::string s = toUtf8(t);
    Word w(s), w2(s.c_str()), w3 = wordFromLetters(l, r.chance(50));
    checkValue(w, l, "Word(string)"); checkValue(w2, l, "Word(char*)"); checkValue(w3, l, "Word(letters)");
    if(!(w == w3)) fail("equality", "the same %zu letters from text and from letters differ", l.size());
    // the last or an arbitrary byte damaged
    for(int k = 0; k < 4; k++) {
        std::string b = s;
        size_t at = k == 0 ? b.size() - 1 : k == 1 ? b.size() : r.below(b.size() + 1);
        std::string bad = r.chance(50) ? " " : "\xff";
        while(at < b.size() && ((unsigned char)b[at] & 0xc0) == 0x80) at--; // between characters
        b.insert(at, bad);
        bool threw = false;
        try { Word x(b); } catch(const std::exception &) { threw = true; }
        if(!threw) fail("accepted-invalid", "%zu bytes with \"%s\" at %zu were accepted", b.size(), showBytes(bad).c_str(), at);
        b = s.substr(0, s.size() - 1);
        Cps dummy;
        threw = false;
        try { Word x(b); } catch(const std::exception &) { threw = true; }
        if(threw == fromUtf8(b, dummy)) fail("truncated", "%zu bytes, the last one cut off: %s", b.size(), threw ? "rejected" : "accepted");
    }
    size_t need = s.size() + 1;
    for(size_t sz : {need - 1, need, need + 1, need / 2, (size_t)65535, (size_t)65536, (size_t)65537, (size_t)256}) {
        std::vector<char> g(sz + 16, 'Z');
        bool ok = true;
        try { w.toUtf8(g.data() + 8, (unsigned)sz); } catch(const std::exception &) { ok = false; }
        if(ok != (sz >= need)) fail("rendering", "%zu bytes into %zu: %s", need, sz, ok ? "did not fail" : "failed");
        for(int i = 0; i < 8; i++) if(g[i] != 'Z' || g[8 + sz + i] != 'Z') fail("rendering", "%zu bytes into %zu: wrote outside", need, sz);
        if(!memchr(g.data() + 8, 0, sz)) fail("rendering", "%zu bytes into %zu: no terminator", need, sz);
        if(ok && s != g.data() + 8) fail("rendering", "%zu bytes into %zu: wrong text", need, sz);
    }
    c.maxi("scale_max_letters", l.size()); c.maxi("scale_max_bytes", s.size()); c.count("scale_words");
    c.nontrivial(hashStr(s));
}
static void wordValues(Ctx &c) {
    Rng &r = c.rng;
    size_t n = sizeFrom(r, c.thorough && c.caseNo % 9 == 0 ? 140000 : 66000);
    Letters l = toLetters(longText(r, n)), shorter = toLetters(Cps{'k', 0x3b1});
    if(sizeof(Letter) == 2) while(!l.empty() && l.back() >= 0xd800 && l.back() < 0xe000) l.push_back('e');
    Letters last = l; last.back() = last.back() == 'q' ? 'r' : 'q';
    if(sizeof(Letter) == 2 && l.back() >= 0xdc00 && l.back() < 0xe000) last = cat(l, Letters{'q'});
    Letters more = cat(l, Letters{'a'});
    Word a = wordFromLetters(l), b = wordFromLetters(last), s = wordFromLetters(shorter), m = wordFromLetters(more);
    size_t ha = a.hash();
    Word copy(a);
    checkValue(copy, l, "copy");
    Word jn = a.join(s);
    checkValue(jn, cat(l, shorter), "join");
    checkValue(s.join(a), cat(shorter, l), "join");
    Word jj = a.join(b);
    checkValue(jj, cat(l, last), "join of two long words");
    auto rel = [&](const Word &x, const Letters &lx, const Word &y, const Letters &ly) {
        if((x == y) != (lx == ly) || (x != y) == (lx == ly)) fail("equality", "words of %zu and %zu letters", lx.size(), ly.size());
        if((x < y) != (lx < ly) || (y < x) != (ly < lx)) fail("order", "words of %zu and %zu letters", lx.size(), ly.size());
        std::string t = toUtf8(lettersToCps(ly));
        if((x == t) != (lx == ly) || (x == t.c_str()) != (lx == ly)) fail("text-equality", "words of %zu and %zu letters", lx.size(), ly.size());
        if(lx == ly && x.hash() != y.hash()) fail("hash", "equal words of %zu letters", lx.size());
        c.count("scale_comparisons");
    };
    rel(a, l, b, last); rel(a, l, m, more); rel(a, l, copy, l); rel(a, l, s, shorter); rel(b, last, m, more);
    copy = s; checkValue(copy, shorter, "assigned a short word");
    copy = b; checkValue(copy, last, "assigned a long word");
    if(copy.hash() != b.hash()) fail("hash", "after assignment");
    copy = std::move(jn); checkValue(copy, cat(l, shorter), "move-assigned");
    std::string bad = toUtf8(lettersToCps(l)) + " ";
    bool threw = false;
    try { copy = bad; } catch(const std::exception &) { threw = true; }
    Letters got = lettersOf(copy);
    if(!threw || (!got.empty() && got != cat(l, shorter))) fail("failed-assignment", "after a failed assignment of %zu bytes", bad.size());
    std::swap(a, b);
    checkValue(a, last, "swapped"); checkValue(b, l, "swapped");
    if(b.hash() != ha) fail("hash", "of a swapped word");
    c.maxi("scale_max_letters", l.size());
    c.nontrivial(hashWords_(l, 3));
}
static void splits(Ctx &c) {
    Rng &r = c.rng;
    size_t n = sizeFrom(r, 66000);
    int scen = (int)(c.caseNo % 5);
    std::string s;
    static const char ws[] = " \t\n\r";
    std::vector<Letters> want;
    auto word = [&](const Cps &t) { s += toUtf8(t); want.push_back(toLetters(t)); };
    auto sep = [&](size_t k) { for(size_t i = 0; i < k; i++) s += ws[r.below(4)]; };
    const char *name = "";
    switch(scen) {
    case 0: name = "many words"; for(size_t i = 0; i < n; i++) { word(Cps(1 + r.below(2), 'a' + r.below(26))); sep(1); } break;
    case 1: name = "long separator runs"; word(Cps{'a'}); sep(n); word(Cps{'b'}); sep(n); break;
    case 2: name = "long words"; word(longText(r, n)); sep(1); word(Cps{'z'}); sep(1); word(longText(r, 300)); break;
    case 3: name = "long text"; while(s.size() < n) { word(longText(r, 1 + r.below(9))); sep(1 + r.below(3)); } word(Cps{'e', 'n', 'd'}); break;
    default: name = "damage at the end"; while(s.size() < n) { word(longText(r, 1 + r.below(9))); sep(1); } s += "\xff"; break;
    }
    bool threw = false;
    WordList got;
    try { got = splitToWords(s.c_str()); } catch(const std::exception &) { threw = true; }
    if(threw != (scen == 4)) fail(threw ? "rejected-valid" : "accepted-invalid", "%s: text of %zu bytes", name, s.size());
    if(!threw) {
        auto compare = [&](const WordList &g, const char *how) {
            if(g.size() != want.size()) fail("split", "%s (%s): %zu words instead of %zu in %zu bytes", name, how, g.size(), want.size(), s.size());
            for(size_t i = 0; i < want.size(); i++) if(lettersOf(g[i]) != want[i]) fail("split", "%s (%s): word %zu of %zu is %s instead of %s", name, how, i, want.size(), brief(lettersOf(g[i])).c_str(), brief(want[i]).c_str());
        };
        compare(got, "splitToWords");
        Document d(1);
        d.addText(Word("f"), s.c_str());
        compare(d.getText(Word("f")), "addText(char*)");
        d.addText(Word("f"), s);
        compare(d.getText(Word("f")), "addText(string)");
        std::string t = s;
        for(char &x : t) if(strchr(ws, x)) x = ',';
        Letter comma[2] = {Letter((Letter_)','), Letter((Letter_)0)};
        compare(split(t.c_str(), comma, 1), "split at commas");
    }
    c.maxi("scale_max_bytes", s.size()); c.maxi("scale_max_words", want.size()); c.count("scale_texts");
    c.nontrivial(hashStr(s));
}

/* ---- C09, C10 ---- */
static void store(Ctx &c, bool index) {
    Rng &r = c.rng;
    int scen = (int)(c.caseNo % 4);
    WordStore s;
    LevenshteinIndex ix;
    std::map<Letters, WordID> ids;
    std::vector<Letters> words;
    std::map<WordID, size_t> counts;
    size_t maxCount = 0;
    auto add = [&](const Letters &l) {
        auto it = ids.insert({l, (WordID)words.size()});
        if(it.second) words.push_back(l);
        if(index) { ix.insertWord(wordFromLetters(l), it.first->second); maxCount = std::max(maxCount, ++counts[it.first->second]); }
        else {
            WordID id = s.getID(wordFromLetters(l));
            if(id != it.first->second) fail("id", "id %u of %s instead of %u (%zu words)", id, brief(l).c_str(), it.first->second, words.size());
        }
        c.count("scale_insertions");
    };
    auto has = [&](const Letters &l) {
        bool got = index ? ix.hasWord(wordFromLetters(l)) : s.hasWord(wordFromLetters(l));
        if(got != (ids.count(l) > 0)) fail("has-word", "hasWord(%s) gives %d with %zu words", brief(l).c_str(), got, words.size());
        c.count("scale_lookups");
    };
    const char *name;
    switch(scen) {
    case 0: {
        name = "many siblings";
        Letters stem = randLetters(r, r.below(4));
        size_t n = sizeFrom(r, 4200);
        std::vector<uint32_t> order;
        for(size_t i = 0; i < n; i++) order.push_back(cjk(i * 2));
        r.shuffle(order);
        for(uint32_t x : order) { add(cat(stem, Letters{x})); if(r.chance(10)) add(cat(stem, Letters{x, 'k', x})); if(r.chance(5)) has(cat(stem, Letters{cjk(r.below(n) * 2 + 1)})); }
        for(size_t i = 0; i < n; i += 7) { has(cat(stem, Letters{cjk(i * 2)})); has(cat(stem, Letters{cjk(i * 2 + 1)})); has(cat(stem, Letters{cjk(i * 2), 'k'})); }
        break; }
    case 1: {
        name = "long words";
        size_t n = sizeFrom(r, 66000);
        Letters base = randLetters(r, n);
        add(base);
        for(int i = 0; i < 6; i++) { Letters x = base; size_t at = i < 2 ? n - 1 - i : r.below(n); x[at] = 'y'; add(x); has(Letters(x.begin(), x.begin() + at + 1)); }
        add(Letters(base.begin(), base.begin() + n / 2));
        add(Letters(base.begin(), base.begin() + n - 1));
        add(cat(base, Letters{'x'}));
        has(Letters(base.begin(), base.begin() + n / 2 - 1));
        has(cat(base, Letters{'x', 'x'}));
        break; }
    case 2: {
        name = "many words";
        size_t n = sizeFrom(r, c.thorough ? 140000 : 66000) * (c.thorough ? 3 : 1);
        for(size_t i = 0; i < n; i++) add(num(i * 7919 % n));
        for(size_t i = 0; i < n; i += 11) { has(num(i)); has(num(n + i)); }
        // ids that differ by a power of two only, read one after the other
        for(int k = 0; k < 40; k++) for(size_t d = 128; d < n; d *= 2) {
            size_t a = r.below(n - d);
            for(size_t i : {a, a + d, a}) {
                if(index) { if(ix.wordCount((WordID)i) != counts[(WordID)i]) fail("count", "%s: count of word %zu is wrong", name, i); }
                else if(lettersOf(s.getWord((WordID)i)) != words[i]) fail("reverse", "%s: id %zu maps to a wrong word after ids that differ by powers of two", name, i);
            }
        }
        break; }
    default: {
        name = "large counts";
        size_t n = sizeFrom(r, 140000);
        Letters a = randLetters(r, 3), b = cat(a, Letters{'x'});
        add(b);
        for(size_t i = 0; i < n; i++) add(a);
        add(b);
        has(a);
        break; }
    }
    for(size_t i = 0; i < words.size(); i++) {
        if(index) {
            if(ix.wordCount((WordID)i) != counts[(WordID)i]) fail("count", "%s: count of word %zu is %zu instead of %zu", name, i, ix.wordCount((WordID)i), counts[(WordID)i]);
            if(!ix.hasWord(wordFromLetters(words[i]))) fail("has-word", "%s: word %zu of %zu (%s) is gone", name, i, words.size(), brief(words[i]).c_str());
        } else {
            Letters l = lettersOf(s.getWord((WordID)i));
            if(l != words[i]) fail("reverse", "%s: id %zu maps to %s instead of %s (%zu words)", name, i, brief(l).c_str(), brief(words[i]).c_str(), words.size());
            if(s.getID(wordFromLetters(words[i])) != i) fail("id", "%s: id of word %zu changed (%zu words)", name, i, words.size());
        }
    }
    if(index) {
        if(ix.maxCount() != maxCount) fail("max-count", "%s: maximum count %zu instead of %zu", name, ix.maxCount(), maxCount);
        if(ix.numWords() != ids.size()) fail("num-words", "%s: %zu words instead of %zu", name, ix.numWords(), ids.size());
    } else {
        if(s.hasWord((WordID)words.size())) fail("has-id", "%s: an id beyond the last is known", name);
        bool threw = false;
        try { s.getWord((WordID)words.size()); } catch(const std::out_of_range &) { threw = true; }
        if(!threw) fail("unknown-id", "%s: an id beyond the last was resolved", name);
    }
    c.maxi("scale_max_words", words.size()); c.maxi("scale_max_count", maxCount); c.maxi("scale_max_letters", words[0].size());
    c.nontrivial(hashStr(name) ^ mix(c.caseNo));
    if(c.caseNo < 8) c.sample(fmt("scale: %s, %zu words, largest count %zu", name, words.size(), maxCount));
}

/* ---- C11, C12 ---- */
static void costTables(Ctx &c) {
    Rng &r = c.rng;
    ErrorValues e, other;
    SubModel m;
    int scen = (int)(c.caseNo % 4);
    std::vector<uint32_t> used;
    const char *name;
    if(scen == 0) {
        name = "many groups";
        size_t n = sizeFrom(r, 2100);
        for(size_t i = 0; i < n; i++) {
            Letters g;
            for(int k = 0; k < 3; k++) g.push_back(cjk(i * 3 + k));
            int v = 1 + (int)(i % 1000);
            e.setGroupError(wordFromLetters(g), v); m.setGroup(g, v);
            used.insert(used.end(), g.begin(), g.end());
        }
    } else if(scen == 1) {
        name = "large groups";
        for(int k = 0; k < 2; k++) {
            Letters g;
            size_t n = sizeFrom(r, 2100);
            for(size_t i = 0; i < n; i++) g.push_back(cjk(i * 2 + k));
            e.setGroupError(wordFromLetters(g), 20 + k); m.setGroup(g, 20 + k);
            used.insert(used.end(), g.begin(), g.end());
        }
        Letters clash{0x3001, 0x3002, used.back()};
        bool threw = false;
        try { e.setGroupError(wordFromLetters(clash), 5); } catch(const std::runtime_error &) { threw = true; }
        if(!threw) fail("group-exception", "a group with the last letter of a group of %zu was accepted", used.size());
        used.push_back(0x3001); used.push_back(0x3002);
    } else if(scen == 2) {
        name = "many pairs";
        size_t n = sizeFrom(r, 66000);
        for(size_t i = 0; i < n; i++) {
            uint32_t a = cjk(i % 300), b = cjk(300 + i / 300);
            int v = (int)(i % 997);
            e.setError(Letter((Letter_)a), Letter((Letter_)b), v); m.setPair(a, b, v);
            if(i % 37 == 0) { used.push_back(a); used.push_back(b); }
        }
    } else {
        name = "large costs";
        static const int v[] = {127, 128, 255, 256, 32767, 32768, 65535, 65536, 1000000, 2000000000, 2147483647};
        for(int i = 0; i < 11; i++) {
            uint32_t a = r.chance(50) ? 'a' + i : cjk(i), b = r.chance(50) ? 0x300 + i : 'A' - i;
            e.setError(Letter((Letter_)a), Letter((Letter_)b), v[i]); m.setPair(a, b, v[i]);
            Letters g{(uint32_t)(0xe0 + 2 * i), (uint32_t)(0xe1 + 2 * i), 0x5000u + i};
            e.setGroupError(wordFromLetters(g), v[10 - i]); m.setGroup(g, v[10 - i]);
            used.push_back(a); used.push_back(b); used.insert(used.end(), g.begin(), g.end());
        }
    }
    auto compare = [&](size_t tries) {
        for(size_t i = 0; i < tries; i++) {
            size_t k = r.below(used.size());
            uint32_t a = used[k], b = r.chance(70) ? used[std::min(used.size() - 1, k + r.below(4))] : used[r.below(used.size())];
            int want = m.get(a, b), got = e.getSubstituteError(Letter((Letter_)a), Letter((Letter_)b)), back = e.getSubstituteError(Letter((Letter_)b), Letter((Letter_)a));
            if(got != want || back != want) fail("cost", "%s: cost(%x,%x) is %d, (%x,%x) %d, instead of %d", name, a, b, got, b, a, back, want);
            if(other.getSubstituteError(Letter((Letter_)a), Letter((Letter_)b)) != (a == b ? 0 : 100)) fail("cost", "%s: settings show in another object", name);
        }
        c.count("scale_pairs", tries);
    };
    compare(used.size() * 3 + 100);
    // the last settings still win
    for(int i = 0; i < 50; i++) { uint32_t a = used[r.below(used.size())], b = used[r.below(used.size())]; if(a == b) continue; e.setError(Letter((Letter_)a), Letter((Letter_)b), 3 + i); m.setPair(a, b, 3 + i); }
    compare(2000);
    e.clearErrors(); m.clear();
    compare(2000);
    c.maxi("scale_max_letters_used", used.size());
    c.nontrivial(hashStr(name) ^ mix(c.caseNo));
    if(c.caseNo < 8) c.sample(fmt("scale: %s, %zu letters", name, used.size()));
}
static void accentFiles(Ctx &c) {
    Rng &r = c.rng;
    struct Env { std::string old; Env() { const char *x = getenv("COLUMBUS_DATADIR"); old = x ? x : ""; } ~Env() { setenv("COLUMBUS_DATADIR", old.c_str(), 1); } } env;
    char tmpl[] = "vpbigXXXXXX";
    if(!mkdtemp(tmpl)) return;
    std::string dir = tmpl, file = dir + "/latinAccentedLetterGroups.txt";
    struct Clean { std::string d, f; ~Clean() { unlink(f.c_str()); rmdir(d.c_str()); } } clean{dir, file};
    bool wide = r.chance(50);
    size_t lines = wide ? r.range(1, 3) : sizeFrom(r, 4200), per = wide ? sizeFrom(r, 4200) : r.range(2, 4);
    SubModel m;
    std::vector<uint32_t> used;
    {
        std::ofstream f(file.c_str());
        uint64_t at = 0;
        for(size_t i = 0; i < lines; i++) {
            Cps t;
            for(size_t k = 0; k < per; k++) t.push_back(cjk(at++));
            f << toUtf8(t) << "\n";
            Letters l = toLetters(t);
            used.insert(used.end(), l.begin(), l.end());
            m.setGroup(l, 30);
        }
    }
    setenv("COLUMBUS_DATADIR", dir.c_str(), 1);
    ErrorValues e;
    e.addAccents(latinAccentGroup);
    for(size_t i = 0; i < used.size(); i++) {
        uint32_t a = used[i], b = used[r.chance(60) ? (i + 1) % used.size() : r.below(used.size())];
        int got = e.getSubstituteError(Letter((Letter_)a), Letter((Letter_)b)), want = m.get(a, b);
        if(got != want) fail("cost", "file of %zu lines of %zu letters: cost(%x,%x) is %d instead of %d", lines, per, a, b, got, want);
        if(!e.isInGroup(Letter((Letter_)a))) fail("is-in-group", "file of %zu lines of %zu letters: %x is in no group", lines, per, a);
    }
    c.count("scale_files"); c.maxi("scale_max_lines", lines); c.maxi("scale_max_line_letters", per);
    c.nontrivial(mix(lines * 10007 + per));
}

/* ---- C13, C14 ---- */
static void results(Ctx &c) {
    Rng &r = c.rng;
    size_t n = sizeFrom(r, c.thorough ? 140000 : 66000);
    typedef std::vector<std::pair<double, uintptr_t>> List;
    MatchResults m, b, d;
    List l;
    int levels = r.chance(50) ? 3 : 100000;
    for(size_t i = 0; i < n; i++) { double v = (double)r.below(levels) / 7; m.addResult(i, v); l.push_back({v, i}); }
    auto ranked = [](List x) { std::stable_sort(x.begin(), x.end(), [](const std::pair<double, uintptr_t> &a, const std::pair<double, uintptr_t> &b) { return a.first > b.first; }); return x; };
    auto compare = [&](const MatchResults &x, const List &raw, const char *what) {
        List want = ranked(raw);
        if(x.size() != want.size()) fail("size", "%s: %zu instead of %zu", what, x.size(), want.size());
        for(size_t i = 0; i < want.size(); i++) if(x.getDocumentID(i) != want[i].second || x.getRelevancy(i) != want[i].first) fail("position", "%s: position %zu of %zu shows (%llu, %.17g) instead of (%llu, %.17g)", what, i, want.size(), (unsigned long long)x.getDocumentID(i), x.getRelevancy(i), (unsigned long long)want[i].second, want[i].first);
        c.count("scale_positions", want.size());
    };
    compare(m, l, "single adds");
    List rl = ranked(l), bl;
    for(int i = 0; i < 60; i++) { size_t k = i == 0 ? n - 1 : r.below(n); b.copyResult(m, k); bl.push_back(rl[k]); }
    compare(b, bl, "single copies");
    b.addResults(m); { bl.insert(bl.end(), l.begin(), l.end()); }
    compare(b, bl, "bulk add");
    d = b; compare(d, bl, "copy");
    if(n < 40000) { d.addResults(d); List x = bl; x.insert(x.end(), bl.begin(), bl.end()); compare(d, x, "self add"); }
    for(size_t past : {n, n + 1, (size_t)65536 * 4, (size_t)1 << 32}) { bool threw = false; try { m.getDocumentID(past); } catch(const std::out_of_range &) { threw = true; } if(!threw) fail("range", "position %zu of %zu could be read", past, n); }
    c.maxi("scale_max_results", bl.size());
    c.nontrivial(mix(n * 3 + levels));
}
static void containers(Ctx &c) {
    Rng &r = c.rng;
    size_t n = sizeFrom(r, 66000);
    int scen = (int)(c.caseNo % 5);
    if(scen == 0) {
        WordList l;
        for(size_t i = 0; i < n; i++) l.addWord(wordFromLetters(num(i)));
        WordList k(l), e2;
        e2 = k;
        if(l.size() != n || !(l == k) || !(e2 == l)) fail("list", "list of %zu words: size %zu, copies differ", n, l.size());
        for(size_t i = 0; i < n; i++) if(lettersOf(l[i]) != num(i) || lettersOf(e2[i]) != num(i)) fail("list", "word %zu of %zu", i, n);
        k.addWord(Word("x"));
        if(l == k) fail("list-equality", "lists of %zu and %zu words are equal", n, n + 1);
        Document d(3);
        d.addText(Word("f"), l);
        if(d.wordCount(wordFromLetters(num(n - 1)), Word("f")) != 1 || d.getText(Word("f")).size() != n) fail("word-count", "text of %zu words", n);
        WordList same;
        for(size_t i = 0; i < n; i++) same.addWord(Word("w"));
        d.addText(Word("g"), same);
        if(d.wordCount(Word("w"), Word("g")) != n || d.totalWordCount(Word("w")) != n) fail("word-count", "a word occurs %zu times, counted %zu and %zu", n, d.wordCount(Word("w"), Word("g")), d.totalWordCount(Word("w")));
    } else if(scen == 1) {
        Document d(4);
        n = std::min(n, (size_t)4200);
        for(size_t i = 0; i < n; i++) { WordList l; l.addWord(wordFromLetters(num(i))); l.addWord(Word("all")); d.addText(wordFromLetters(cat(Letters{'f'}, num(i))), l); }
        Document e2(d);
        if(e2.fieldCount() != n) fail("doc-fields", "%zu fields instead of %zu", e2.fieldCount(), n);
        if(e2.totalWordCount(Word("all")) != n) fail("total-word-count", "%zu instead of %zu", e2.totalWordCount(Word("all")), n);
        WordList names;
        e2.getFieldNames(names);
        std::set<Letters> got;
        for(size_t i = 0; i < names.size(); i++) got.insert(lettersOf(names[i]));
        if(names.size() != n || got.size() != n) fail("doc-names", "%zu names, %zu distinct, of %zu", names.size(), got.size(), n);
        for(size_t i = 0; i < n; i++) if(lettersOf(e2.getText(wordFromLetters(cat(Letters{'f'}, num(i))))[0]) != num(i)) fail("doc-text", "field %zu of %zu", i, n);
    } else if(scen == 2) {
        Corpus x;
        for(size_t i = 0; i < n; i++) { Document d(i * 3); if(i % 100 == 0) d.addText(Word("f"), "a b"); x.addDocument(d); }
        if(x.size() != n) fail("corpus-size", "%zu instead of %zu", x.size(), n);
        for(size_t i = 0; i < n; i++) { const Document &d = x.getDocument(i); if(d.getID() != i * 3 || d.fieldCount() != (i % 100 == 0)) fail("corpus-content", "document %zu of %zu has id %llu", i, n, (unsigned long long)d.getID()); }
        for(size_t past : {n, n + 65536, (size_t)1 << 32}) { bool threw = false; try { x.getDocument(past); } catch(const std::out_of_range &) { threw = true; } if(!threw) fail("corpus-range", "document %zu of %zu could be read", past, n); }
    } else if(scen == 3) {
        ResultFilter f;
        n = std::min(n, (size_t)9000);
        for(size_t i = 0; i < n; i++) { f.addNewSubTerm(wordFromLetters(num(i)), Word("first")); }
        for(size_t i = 0; i < n; i++) { f.addNewTerm(); f.addNewSubTerm(Word("t"), wordFromLetters(num(i))); }
        if(f.numTerms() != n + 1 || f.numSubTerms(0) != n || f.numSubTerms(n) != 1) fail("filter-terms", "%zu terms, %zu and %zu sub-terms, instead of %zu, %zu, 1", f.numTerms(), f.numSubTerms(0), f.numSubTerms(n), n + 1, n);
        for(size_t i = 0; i < n; i++) if(lettersOf(f.getField(0, i)) != num(i) || lettersOf(f.getWord(i + 1, 0)) != num(i)) fail("filter-content", "%zu of %zu", i, n);
    } else {
        IndexWeights w;
        SearchParameters sp;
        n = std::min(n, (size_t)9000);
        for(size_t i = 0; i < n; i++) { w.setWeight(wordFromLetters(num(i)), i / 8.0); if(i % 2) sp.addNonsearchingField(wordFromLetters(num(i))); }
        for(size_t i = 0; i < n; i++) {
            if(w.getWeight(wordFromLetters(num(i))) != i / 8.0) fail("weight", "weight %zu of %zu", i, n);
            if(sp.isNonsearchingField(wordFromLetters(num(i))) != (i % 2 == 1)) fail("nosearch", "field %zu of %zu", i, n);
        }
        if(w.getWeight(wordFromLetters(num(n))) != 1.0 || sp.isNonsearchingField(wordFromLetters(num(n + 1)))) fail("weight", "a field that was never mentioned");
    }
    c.maxi("scale_max_items", n); c.count("scale_containers");
    c.nontrivial(mix(n * 5 + scen));
}

/* ---- C15 ---- */
static void capi(Ctx &c) {
    Rng &r = c.rng;
    size_t n = sizeFrom(r, 66000);
    int scen = (int)(c.caseNo % 3);
    if(scen == 0) {
        std::string s = toUtf8(longText(r, n));
        Word w(s);
        ColWord cw = col_word_new(s.c_str());
        if(!cw) fail("word-new", "%zu bytes were rejected", s.size());
        if(col_word_length(cw) != w.length()) fail("word-length", "%zu instead of %u", col_word_length(cw), w.length());
        for(size_t sz : {s.size() + 1, s.size(), (size_t)65536, (size_t)256, (size_t)1}) {
            std::vector<char> g(sz + 8, 'Z');
            col_word_as_utf8(cw, g.data(), (unsigned)sz);
            if(!memchr(g.data(), 0, sz)) fail("word-as-utf8", "%zu bytes into %zu: no terminator", s.size(), sz);
            for(int i = 0; i < 8; i++) if(g[sz + i] != 'Z') fail("word-as-utf8", "%zu bytes into %zu: wrote outside", s.size(), sz);
            if(sz > s.size() && s != g.data()) fail("word-as-utf8", "%zu bytes into %zu: wrong text", s.size(), sz);
        }
        col_word_delete(cw);
        std::string bad = s + " ";
        if((cw = col_word_new(bad.c_str()))) { col_word_delete(cw); fail("word-new", "%zu bytes ending in a space were accepted", bad.size()); }
    } else {
        ColMatcher cm = col_matcher_new();
        ColCorpus cc = col_corpus_new();
        ColWord f = col_word_new("f");
        Matcher m;
        Corpus corpus;
        size_t docs = scen == 1 ? n : 3;
        for(size_t i = 0; i < docs; i++) {
            ColDocument cd = col_document_new(i + 1);
            Document d(i + 1);
            std::string t = "common w" + std::to_string(i % 50);
            if(scen == 2) { t.clear(); for(size_t k = 0; k < n / 2; k++) t += k % 3 ? "often " : "seldom "; t += "last" + std::to_string(i); }
            col_document_add_text(cd, f, t.c_str());
            d.addText(Word("f"), t.c_str());
            col_corpus_add_document(cc, cd);
            corpus.addDocument(d);
            col_document_delete(cd);
        }
        col_matcher_index(cm, cc);
        m.index(corpus);
        for(const char *q : {"common", "w7", "often", "seldon", "last2"}) {
            MatchResults want = m.match(q);
            ColMatchResults got = col_matcher_match(cm, q);
            std::string verdict;
            if(!got) verdict = "null";
            else if(col_match_results_size(got) != want.size()) verdict = fmt("%zu results instead of %zu", col_match_results_size(got), want.size());
            else for(size_t i = 0; i < want.size() && verdict.empty(); i++) if(col_match_results_get_id(got, i) != want.getDocumentID(i) || !close(col_match_results_get_relevancy(got, i), want.getRelevancy(i))) verdict = fmt("result %zu of %zu differs", i, want.size());
            if(got) col_match_results_delete(got);
            c.maxi("scale_max_results", want.size());
            if(!verdict.empty()) { col_matcher_delete(cm); col_corpus_delete(cc); col_word_delete(f); fail("results", "query %s over %zu documents: %s", q, docs, verdict.c_str()); }
        }
        col_matcher_delete(cm); col_corpus_delete(cc); col_word_delete(f);
    }
    c.count("scale_sessions");
    c.nontrivial(mix(n * 3 + scen));
}

static void dispatch(Ctx &c, int mode) {
    switch(mode) {
    case 1: search(c); break;
    case 2: case 3: case 4: matching(c, mode); break;
    case 5: histories(c); break;
    case 6: wordLimits(c); break;
    case 7: wordValues(c); break;
    case 8: splits(c); break;
    case 9: store(c, false); break;
    case 10: store(c, true); break;
    case 11: costTables(c); break;
    case 12: accentFiles(c); break;
    case 13: results(c); break;
    case 14: containers(c); break;
    case 15: capi(c); break;
    default: throw std::runtime_error("no such mode");
    }
}
static void oneCase(Ctx &c) {
    int mode = (int)c.opt("mode", 1);
    if(mode != 17) { dispatch(c, mode); return; }
    static const int all[] = {1, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 2, 3, 4};
    try { dispatch(c, all[c.caseNo / 7 % 14]); } catch(const Violation &) { c.count("behaviour_differences"); } // judged by the other checks
}
int main(int argc, char **argv) { return runDriver(argc, argv, "scale", oneCase); }
