/* C09 (mode=9): WordStore, C10 (mode=10): LevenshteinIndex bookkeeping. */
#include "model.hh"
#include "WordStore.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include <memory>
using namespace vp;
using namespace Columbus;

static Cps nextWord(Rng &r, const Cps &alpha, const std::vector<Letters> &have, int maxLen) {
    int k = r.range(0, 9);
    if(k < 4 && !have.empty()) {
        Cps w = lettersToCps(have[r.below(have.size())]);
        int how = r.range(0, 4);
        if(how == 0) return w;
        if(how == 1 && !w.empty()) { w.resize(r.below(w.size() + 1)); return w; }           // a prefix
        if(how == 2) { w.push_back(alpha[r.below(alpha.size())]); return w; }               // an extension
        if(how == 3 && !w.empty()) { w.back() = alpha[r.below(alpha.size())]; return w; }   // a sibling
        return mutate(r, w, alpha, 1);
    }
    return randWord(r, alpha, r.chance(3) ? 0 : 1, maxLen);
}

struct StoreModel {
    WordStore s;
    std::map<Letters, WordID> ids;
    std::vector<Letters> words;
};
static void checkId(Ctx &c, StoreModel &m, WordID id, const char *when) {
    Word w = m.s.getWord(id);
    Letters l = lettersOf(w);
    if(l != m.words[id]) fail("reverse", "%s: id %u maps to %s instead of %s (%zu words stored)", when, id, show(l).c_str(), show(m.words[id]).c_str(), m.words.size());
    c.count("reverse_lookups");
}
static void mode9(Ctx &c) {
    Rng &r = c.rng;
    int nStores = r.range(1, 3);
    std::vector<std::unique_ptr<StoreModel>> stores;
    for(int i = 0; i < nStores; i++) stores.emplace_back(new StoreModel);
    int size = r.range(0, 29);
    int ops = size < 20 ? r.range(20, 200) : size < 28 ? r.range(300, 1500) : (c.thorough && size == 29 ? r.range(20000, 200000) : r.range(3000, 12000));
    int maxLen = r.chance(10) ? 60 : r.range(2, 8);
    Cps alpha = caseAlphabet(r);
    if(r.chance(30)) for(int i = 0; i < 60; i++) alpha.push_back(r.chance(50) ? r.pick(asciiPool()) : r.pick(widePool()));
    uint64_t h = 5;
    for(int o = 0; o < ops; o++) {
        StoreModel &m = *stores[r.below(stores.size())];
        Letters l = toLetters(nextWord(r, alpha, m.words, maxLen));
        Word w = wordFromLetters(l);
        auto it = m.ids.find(l);
        int op = r.range(0, 9);
        c.count("operations");
        if(op < 6) {
            WordID id = m.s.getID(w);
            WordID want = it == m.ids.end() ? (WordID)m.words.size() : it->second;
            if(id != want) fail("id", "getID(%s) gives %u instead of %u (%s, %zu words stored)", show(l).c_str(), id, want, it == m.ids.end() ? "new word" : "known word", m.words.size());
            if(it == m.ids.end()) { m.ids[l] = id; m.words.push_back(l); h = hashWords_(l, h); c.count("stored"); }
            else c.count("repeated_ids");
            if(l.empty()) c.count("empty_word_ids");
            checkId(c, m, id, "after getID");
        } else if(op < 8) {
            bool has = m.s.hasWord(w);
            if(has != (it != m.ids.end())) fail("has-word", "hasWord(%s) gives %d (%zu words stored)", show(l).c_str(), has, m.words.size());
            if(!has) c.count("absent_lookups");
        } else {
            WordID id = (WordID)(r.chance(60) && !m.words.empty() ? r.below(m.words.size()) : r.chance(50) ? m.words.size() + r.below(3) : r.next());
            bool has = m.s.hasWord(id);
            if(has != (id < m.words.size())) fail("has-id", "hasWord(id %u) gives %d with %zu words stored", id, has, m.words.size());
            if(has) checkId(c, m, id, "lookup");
            else {
                bool threw = false;
                try { m.s.getWord(id); } catch(const std::out_of_range &) { threw = true; }
                if(!threw) fail("unknown-id", "getWord(%u) did not throw with %zu words stored", id, m.words.size());
                c.count("unknown_ids");
            }
        }
    }
    for(auto &m : stores) {
        for(WordID id = 0; id < m->words.size(); id++) checkId(c, *m, id, "final sweep");
        for(auto &x : m->ids) if(m->s.getID(wordFromLetters(x.first)) != x.second) fail("id", "id of %s changed", show(x.first).c_str());
        c.maxi("max_words", m->words.size());
    }
    if(stores[0]->words.size() > 5) { c.nontrivial(h); if(c.caseNo < 40) c.sample(fmt("%d stores, %d operations, %zu words in the first, e.g. %s", nStores, ops, stores[0]->words.size(), show(stores[0]->words[1]).c_str())); }
}

static void mode10(Ctx &c) {
    Rng &r = c.rng;
    LevenshteinIndex ix;
    std::map<Letters, WordID> ids;
    std::map<WordID, size_t> counts;
    std::set<WordID> used;
    std::vector<Letters> words;
    size_t maxCount = 0;
    Cps alpha = caseAlphabet(r);
    if(r.chance(30)) for(int i = 0; i < 40; i++) alpha.push_back(r.chance(50) ? r.pick(asciiPool()) : r.pick(widePool()));
    int size = r.range(0, 29);
    int ops = size < 20 ? r.range(10, 150) : size < 28 ? r.range(200, 1000) : (c.thorough ? r.range(5000, 60000) : r.range(2000, 6000));
    int maxLen = r.chance(10) ? 50 : r.range(2, 7);
    uint64_t h = 9;
    ErrorValues e;
    for(int o = 0; o < ops; o++) {
        Letters l = toLetters(nextWord(r, alpha, words, maxLen));
        Word w = wordFromLetters(l);
        auto it = ids.find(l);
        int op = r.range(0, 9);
        c.count("operations");
        if(op < 6) {
            WordID id;
            if(it == ids.end()) do id = r.chance(70) ? (WordID)words.size() : (WordID)r.below(0xfffffffe); while(used.count(id));
            else id = it->second;
            ix.insertWord(w, id);
            if(!l.empty()) {
                if(it == ids.end()) { ids[l] = id; words.push_back(l); used.insert(id); }
                maxCount = std::max(maxCount, ++counts[id]);
                h = mix(hashWords_(l, h));
                c.count("insertions");
            } else {
                c.count("empty_insertions");
                if(!used.count(id) && ix.wordCount(id) != 0) fail("count", "inserting the empty word gave id %u a count", id);
            }
        } else if(op < 8) {
            bool has = ix.hasWord(w), want = it != ids.end();
            if(has != want) fail("has-word", "hasWord(%s) gives %d", show(l).c_str(), has);
            if(!want) c.count("absent_lookups");
        } else if(op == 8) {
            WordID id = r.chance(70) && it != ids.end() ? it->second : r.chance(50) ? (WordID)r.below(words.size() + 2) : (WordID)r.below(0xfffffffe);
            size_t want = counts.count(id) ? counts[id] : 0, got = ix.wordCount(id);
            if(got != want) fail("count", "count of id %u is %zu instead of %zu", id, got, want);
        } else if(ops < 300) {
            IndexMatches m;
            ix.findWords(w, e, r.range(0, 2) * 100, m);
            c.count("searches");
        }
        if(ix.maxCount() != maxCount) fail("max-count", "maximum count %zu instead of %zu", ix.maxCount(), maxCount);
        if(ix.numWords() != ids.size()) fail("num-words", "%zu words instead of %zu", ix.numWords(), ids.size());
    }
    for(auto &x : ids) {
        if(!ix.hasWord(wordFromLetters(x.first))) fail("has-word", "inserted word %s is gone", show(x.first).c_str());
        if(ix.wordCount(x.second) != counts[x.second]) fail("count", "count of %s is %zu instead of %zu", show(x.first).c_str(), ix.wordCount(x.second), counts[x.second]);
        // neighbours that were never inserted
        Letters p = x.first;
        p.pop_back();
        if(sizeof(Letter) == 2 && !p.empty() && p.back() >= 0xd800 && p.back() < 0xdc00) p.pop_back();
        if(ix.hasWord(wordFromLetters(p)) != (ids.count(p) > 0)) fail("has-word", "prefix %s of %s: wrong membership", show(p).c_str(), show(x.first).c_str());
        Letters q = x.first;
        q.push_back('a');
        if(ix.hasWord(wordFromLetters(q)) != (ids.count(q) > 0)) fail("has-word", "extension %s: wrong membership", show(q).c_str());
        c.count("final_checks", 3);
    }
    if(ix.hasWord(Word())) fail("has-word", "the index contains the empty word");
    c.maxi("max_words", ids.size());
    c.maxi("max_count", maxCount);
    if(maxCount > 1 && ids.size() > 2) { c.nontrivial(h); if(c.caseNo < 40) c.sample(fmt("%d operations, %zu distinct words, largest count %zu, e.g. %s", ops, ids.size(), maxCount, show(words[0]).c_str())); }
}
static void oneCase(Ctx &c) { if(c.opt("mode", 9) == 9) mode9(c); else mode10(c); }
int main(int argc, char **argv) { return runDriver(argc, argv, "store", oneCase); }
