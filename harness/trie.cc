/* C22: the structure of the trie, walked at quiescent points and compared with the set of prefixes. */
#include "model.hh"
#include "Trie.hh"
#include <memory>
using namespace vp;
using namespace Columbus;

struct TrieModel {
    Trie t;
    std::map<Letters, WordID> words;
    std::map<Letters, TrieOffset> at;   // node handed out for a word
    std::vector<Letters> list;
    std::set<Letters> prefixes;         // of the words, without the empty one
    std::set<WordID> used;
};
static bool whole(const Letters &l) { return sizeof(Letter) == 4 || l.empty() || l.back() < 0xd800 || l.back() >= 0xdc00; }   // does not end inside a surrogate pair

static void walk(Ctx &c, TrieModel &m, bool deep) {
    struct Frame { TrieOffset node, parent; Letters path; };
    std::vector<Frame> st;
    TrieOffset root = m.t.getRoot();
    st.push_back({root, 0, Letters()});
    size_t nodes = 0, marked = 0;
    std::set<TrieOffset> seen;
    while(!st.empty()) {
        Frame f = st.back();
        st.pop_back();
        nodes++;
        if(nodes > m.prefixes.size() + 1) fail("walk-nodes", "the walk meets more than the %zu prefixes (at %s)", m.prefixes.size(), show(f.path).c_str());
        if(!seen.insert(f.node).second) fail("walk-shared", "node %llu of %s is met twice", (unsigned long long)f.node, show(f.path).c_str());
        if(!f.path.empty() && !m.prefixes.count(f.path)) fail("walk-path", "path %s is no prefix of a stored word", show(f.path).c_str());
        if(m.t.getParent(f.node) != f.parent) fail("walk-parent", "parent of %s is node %llu instead of %llu", show(f.path).c_str(), (unsigned long long)m.t.getParent(f.node), (unsigned long long)f.parent);
        WordID id = m.t.getWordID(f.node);
        auto w = m.words.find(f.path);
        WordID want = w == m.words.end() ? INVALID_WORDID : w->second;
        if(id != want) fail("walk-mark", "word id at %s is %u instead of %u", show(f.path).c_str(), id, want);
        if(w != m.words.end()) {
            marked++;
            if(m.at[f.path] != f.node) fail("walk-moved", "the node of %s is %llu now, was %llu", show(f.path).c_str(), (unsigned long long)f.node, (unsigned long long)m.at[f.path]);
        }
        if(whole(f.path) && (deep || w != m.words.end())) {
            Letters back = lettersOf(m.t.getWord(f.node));
            if(back != f.path) fail("walk-word", "the node at %s gives the word %s", show(f.path).c_str(), show(back).c_str());
            TrieOffset found = m.t.findWord(wordFromLetters(f.path));
            if(found != f.node) fail("walk-find", "findWord(%s) gives node %llu instead of %llu", show(f.path).c_str(), (unsigned long long)found, (unsigned long long)f.node);
            c.count("nodes_read_back");
        }
        std::set<uint32_t> letters;
        TrieOffset s = m.t.getSiblingList(f.node);
        while(s) {
            uint32_t l = m.t.getLetter(s);
            if(!letters.insert(l).second) fail("walk-letter", "letter %x twice below %s", l, show(f.path).c_str());
            TrieOffset child = m.t.getChild(s);
            if(deep && m.t.getSiblingTo(f.node, child) != s) fail("walk-sibling", "getSiblingTo does not find letter %x below %s", l, show(f.path).c_str());
            TrieOffset nx = m.t.getNextSibling(s);
            if(m.t.hasSibling(s) != (nx != 0)) fail("walk-sibling", "hasSibling and getNextSibling disagree below %s", show(f.path).c_str());
            Letters p = f.path;
            p.push_back(l);
            st.push_back({child, f.node, p});
            s = nx;
        }
    }
    if(nodes != m.prefixes.size() + 1) fail("walk-nodes", "%zu nodes reached for %zu prefixes", nodes, m.prefixes.size());
    if(m.t.numNodes() != nodes) fail("num-nodes", "numNodes is %zu, there are %zu", m.t.numNodes(), nodes);
    if(marked != m.words.size() || m.t.numWords() != marked) fail("num-words", "%zu words marked, %zu counted, %zu inserted", marked, m.t.numWords(), m.words.size());
    c.count("walks");
    c.count("nodes_walked", nodes);
    c.maxi("max_nodes", nodes);
}
static void oneCase(Ctx &c) {
    Rng &r = c.rng;
    std::vector<std::unique_ptr<TrieModel>> tries;
    int n = r.range(1, 3);
    for(int i = 0; i < n; i++) tries.emplace_back(new TrieModel);
    Cps alpha = caseAlphabet(r);
    if(r.chance(30)) for(int i = 0; i < 60; i++) alpha.push_back(r.chance(50) ? r.pick(asciiPool()) : r.pick(widePool()));
    int size = r.range(0, 29);
    int ops = size < 22 ? r.range(5, 120) : size < 29 ? r.range(200, 900) : (c.thorough ? r.range(4000, 40000) : r.range(1500, 4000));
    int maxLen = r.chance(8) ? 200 : r.range(2, 9);
    uint64_t h = 22;
    int nextWalk = 0;
    for(int o = 0; o < ops; o++) {
        TrieModel &m = *tries[r.below(n)];
        Cps cps;
        int k = r.range(0, 9);
        if(k < 5 && !m.list.empty()) {
            cps = lettersToCps(m.list[r.below(m.list.size())]);
            int how = r.range(0, 4);
            if(how == 1 && !cps.empty()) cps.resize(r.below(cps.size() + 1));
            else if(how == 2) cps.push_back(alpha[r.below(alpha.size())]);
            else if(how == 3 && !cps.empty()) cps.back() = alpha[r.below(alpha.size())];
            else if(how == 4) cps = mutate(r, cps, alpha, 1);
        } else cps = randWord(r, alpha, r.chance(2) ? 0 : 1, maxLen);
        Letters l = toLetters(cps);
        Word w = wordFromLetters(l);
        if(r.chance(30)) {
            TrieOffset f = m.t.findWord(w);
            bool want = l.empty() || m.prefixes.count(l);
            if((f != 0) != want) fail("find", "findWord(%s) gives %llu", show(l).c_str(), (unsigned long long)f);
            if(m.t.hasWord(w) != (m.words.count(l) > 0)) fail("has-word", "hasWord(%s) gives %d", show(l).c_str(), m.t.hasWord(w));
            c.count("lookups");
        } else {
            auto it = m.words.find(l);
            WordID id;
            if(it != m.words.end()) id = it->second;
            else do id = r.chance(70) ? (WordID)m.list.size() : (WordID)r.below(0xfffffffe); while(m.used.count(id));
            TrieOffset node = m.t.insertWord(w, id);
            if(it != m.words.end()) {
                if(m.at[l] != node) fail("insert-again", "inserting %s again gives node %llu instead of %llu", show(l).c_str(), (unsigned long long)node, (unsigned long long)m.at[l]);
                c.count("repeated");
            } else {
                m.words[l] = id; m.at[l] = node; m.list.push_back(l); m.used.insert(id);
                for(size_t i = 1; i <= l.size(); i++) m.prefixes.insert(Letters(l.begin(), l.begin() + i));
                h = hashWords_(l, h);
                c.count("inserted");
            }
            if(m.t.getWordID(node) != id) fail("insert-mark", "after inserting %s its node holds id %u instead of %u", show(l).c_str(), m.t.getWordID(node), id);
            if(m.t.numWords() != m.words.size()) fail("num-words", "numWords is %zu after %zu words", m.t.numWords(), m.words.size());
            if(m.t.numNodes() != m.prefixes.size() + 1) fail("num-nodes", "numNodes is %zu for %zu prefixes", m.t.numNodes(), m.prefixes.size());
        }
        if(o >= nextWalk) { walk(c, m, m.prefixes.size() < 3000); nextWalk = o + 1 + (int)r.below(ops < 150 ? 20 : ops); }
    }
    for(auto &m : tries) walk(c, *m, m->prefixes.size() < 20000);
    if(tries[0]->list.size() > 3) { c.nontrivial(h); if(c.caseNo < 40) c.sample(fmt("%d tries, %d operations, %zu words and %zu prefixes in the first, e.g. %s", n, ops, tries[0]->words.size(), tries[0]->prefixes.size(), show(tries[0]->list[0]).c_str())); }
}
int main(int argc, char **argv) { return runDriver(argc, argv, "trie", oneCase); }
