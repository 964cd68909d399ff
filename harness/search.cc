/* C01: LevenshteinIndex::findWords against a reference distance computed for every indexed word. */
#include "model.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include <memory>
using namespace vp;
using namespace Columbus;

static void oneCase(Ctx &c) {
    Rng &r = c.rng;
    Cps alpha = caseAlphabet(r);
    Letters letters = toLetters(alpha);
    for(int i = 0; i < 4; i++) { Letters l = toLetters(Cps(1, r.chance(50) ? r.pick(asciiPool()) : r.pick(widePool()))); letters.insert(letters.end(), l.begin(), l.end()); }
    // surrogate halves are legal letters for setError; keep them

    int shape = r.range(0, 19);
    int nWords, maxLen;
    if(shape < 8) { nWords = r.range(1, 12); maxLen = 6; }
    else if(shape < 14) { nWords = r.range(5, 60); maxLen = 9; }
    else if(shape < 17) { nWords = r.range(1, 8); maxLen = 24; }
    else if(shape < 19) { nWords = r.range(100, 400); maxLen = 7; }
    else { nWords = r.range(2, 5); maxLen = c.thorough ? 400 : 150; }

    LevenshteinIndex ix;
    std::map<Letters, WordID> ids;
    std::map<WordID, Letters> back;
    std::vector<Cps> words;
    WordID nextId = (WordID)r.below(5);
    auto insert = [&](const Cps &w) {
        Letters l = toLetters(w);
        auto it = ids.find(l);
        WordID id;
        if(it == ids.end()) { id = nextId; nextId += r.chance(90) ? 1 : 1 + (WordID)r.below(1000); if(!l.empty()) { ids[l] = id; back[id] = l; } }
        else id = it->second;
        ix.insertWord(wordFromLetters(l), id);
        words.push_back(w);
        c.count("insertions");
    };
    auto newWord = [&]() -> Cps {
        if(!words.empty() && r.chance(45)) return mutate(r, words[r.below(words.size())], alpha, r.range(1, 2));
        return randWord(r, alpha, r.chance(3) ? 0 : 1, r.chance(30) ? maxLen : std::min(maxLen, 4));
    };
    ErrorValues e;
    Costs costs;
    std::string desc;
    randomCosts(r, e, costs, letters, true, &desc);
    c.log("costs:%s", desc.c_str());

    IndexMatches shared;
    std::multiset<std::pair<int, WordID>> sharedExpect;
    int rounds = r.range(1, 3);
    for(int round = 0; round < rounds; round++) {
        int n = nWords / rounds + 1;
        for(int i = 0; i < n; i++) insert(newWord());
        int queries = r.range(2, 6);
        for(int q = 0; q < queries; q++) {
            Cps qc;
            int k = r.range(0, 9);
            if(k < 6 && !words.empty()) qc = mutate(r, words[r.below(words.size())], alpha, r.range(0, 3));
            else if(k < 9) qc = randWord(r, alpha, 0, std::min(maxLen, 8));
            else { qc = words[r.below(words.size())]; for(size_t i = 0; i + 1 < qc.size(); i += r.range(1, 3)) std::swap(qc[i], qc[i+1]); }
            Letters ql = toLetters(qc);
            static const int limits[] = {0, 1, 15, 30, 45, 60, 99, 100, 101, 130, 150, 199, 200, 200, 200, 230, 300, 400, 1000};
            int limit = limits[r.below(sizeof(limits) / sizeof(limits[0]))];
            std::map<WordID, int> expect;
            size_t inexact = 0;
            for(auto &w : ids) {
                long d = refDistance(ql, w.first, costs);
                if(d <= limit) { expect[w.second] = (int)d; if(d) inexact++; }
            }
            c.log("query %s limit %d words %zu expected %zu", show(ql).c_str(), limit, ids.size(), expect.size());
            IndexMatches own;
            bool useShared = r.chance(40);
            if(useShared && r.chance(30)) {
                shared.clear(); sharedExpect.clear();
                if(shared.size() != 0) fail("clear", "clear() leaves %zu matches", shared.size());
            }
            IndexMatches &m = useShared ? shared : own;
            ix.findWords(wordFromLetters(ql), e, limit, m);
            c.count("searches");
            std::multiset<std::pair<int, WordID>> want, got;
            for(auto &x : expect) want.insert({x.second, x.first});
            if(useShared) { sharedExpect.insert(want.begin(), want.end()); want = sharedExpect; if(want.size() > expect.size()) c.count("accumulated_searches"); }
            int prev = 0;
            for(size_t i = 0; i < m.size(); i++) {
                int err = m.getMatchError(i);
                if(i && err < prev) fail("order", "matches not in non-decreasing order of error: %d after %d (query %s)", err, prev, show(ql).c_str());
                prev = err;
                got.insert({err, m.getMatch(i)});
            }
            if(got != want) {
                std::string d;
                for(auto &x : want) if(got.count(x) != want.count(x)) d += fmt(" missing %s(id %u)@%d", show(back[x.second]).c_str(), x.second, x.first);
                for(auto &x : got) if(got.count(x) != want.count(x)) d += fmt(" surplus %s(id %u)@%d", back.count(x.second) ? show(back[x.second]).c_str() : "?", x.second, x.first);
                fail("wrong-matches", "query %s limit %d costs%s:%s", show(ql).c_str(), limit, desc.c_str(), d.substr(0, 1500).c_str());
            }
            try { m.getMatch(m.size()); fail("range", "getMatch past the end returned"); } catch(const std::out_of_range &) {}
            try { m.getMatchError(m.size() + 3); fail("range", "getMatchError past the end returned"); } catch(const std::out_of_range &) {}
            c.count("matches", expect.size());
            c.count("inexact_matches", inexact);
            c.maxi("max_index_words", ids.size());
            c.maxi("max_query_letters", ql.size());
            if(inexact) {
                uint64_t h = hashStr(desc) ^ mix(limit);
                for(uint32_t x : ql) h = mix(h ^ x);
                for(auto &w : ids) for(uint32_t x : w.first) h = mix(h * 31 + x);
                c.nontrivial(h);
                if(c.caseNo < 40) c.sample(fmt("costs[%s] query %s limit %d over %zu words -> %zu matches, %zu inexact", desc.c_str(), show(ql).c_str(), limit, ids.size(), expect.size(), inexact));
            }
        }
        if(r.chance(30)) { desc += " +"; randomCosts(r, e, costs, letters, false, &desc); }
    }
}
int main(int argc, char **argv) { return runDriver(argc, argv, "search", oneCase); }
