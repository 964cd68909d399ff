/* C20: independent sessions in parallel threads, each compared with the same session run alone.
 * Every case runs in a child process, so that first-use races are met again and again. */
#include "session.hh"
#include "Trie.hh"
#include "WordStore.hh"
#include "MatcherStatistics.hh"
#include <functional>
#include <thread>
#include <atomic>
#include <chrono>
#include <sys/wait.h>
using namespace vp;

struct Tok { const char *what; uint64_t n; double d; bool isReal; };
struct Recorder : Sink {
    std::vector<Tok> v;
    void num(const char *w, uint64_t x) override { v.push_back({w, x, 0, false}); }
    void real(const char *w, double x) override { v.push_back({w, 0, x, true}); }
};
static bool same(const Tok &a, const Tok &b) {
    if(a.what != b.what || a.isReal != b.isReal) return false;
    if(!a.isReal) return a.n == b.n;
    return a.d == b.d || std::fabs(a.d - b.d) <= 1e-9 * std::max(std::fabs(a.d), std::fabs(b.d));
}
struct Job { uint64_t seed; int steps; Recorder got; uint64_t exceptions = 0, h = 0; int finishedBefore = 0; };
static void runJob(Job &j) {
    Session s(j.seed, j.got);
    for(int i = 0; i < j.steps; i++) s.step();
    j.exceptions = s.exceptions; j.h = s.hashv;
}
static void child(Ctx &c, int fd) {
    Rng &r = c.rng;
    int n = r.range(2, 6);
    bool equal = r.chance(35);     // all threads do exactly the same, in step
    bool mixed = r.chance(50);
    uint64_t seed = r.next();
    int steps = r.range(20, (int)c.opt("steps", 120));
    std::vector<std::unique_ptr<Job>> jobs;
    for(int i = 0; i < n; i++) { jobs.emplace_back(new Job()); jobs.back()->seed = equal ? seed : r.next(); jobs.back()->steps = mixed ? r.range(10, steps) : steps; }
    std::atomic<int> ready{0}, running{0}, maxRunning{0};
    std::atomic<bool> go{false};
    std::vector<std::thread> t;
    for(int i = 0; i < n; i++)
        t.emplace_back([&, i] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while(!go.load(std::memory_order_relaxed)) std::this_thread::yield();
            int k = running.fetch_add(1, std::memory_order_relaxed) + 1;
            int m = maxRunning.load(std::memory_order_relaxed);
            while(k > m && !maxRunning.compare_exchange_weak(m, k, std::memory_order_relaxed)) { }
            runJob(*jobs[i]);
            running.fetch_sub(1, std::memory_order_relaxed);
        });
    while(ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
    go.store(true, std::memory_order_relaxed);
    for(auto &x : t) x.join();
    std::string verdict;
    uint64_t obs = 0, exc = 0, h = 3;
    for(int i = 0; i < n && verdict.empty(); i++) {
        Job &j = *jobs[i];
        Job alone; alone.seed = j.seed; alone.steps = j.steps;
        runJob(alone);
        obs += j.got.v.size(); exc += j.exceptions; h = mix(h ^ j.h);
        size_t k = 0;
        while(k < alone.got.v.size() && k < j.got.v.size() && same(alone.got.v[k], j.got.v[k])) k++;
        if(k < alone.got.v.size() || k < j.got.v.size()) {
            auto show = [&](const Recorder &q) { return k < q.v.size() ? fmt("%s %llx %.17g", q.v[k].what, (unsigned long long)q.v[k].n, q.v[k].d) : std::string("(end)"); };
            verdict = fmt("thread %d of %d (session seed %llu, %d steps): observation %zu is %s, alone it is %s", i, n, (unsigned long long)j.seed, j.steps, k, show(j.got).c_str(), show(alone.got).c_str());
        }
    }
    uint64_t res[6] = {(uint64_t)n, obs, exc, h, (uint64_t)maxRunning.load(), verdict.size()};
    if(write(fd, res, sizeof res) < 0) {}
    if(write(fd, verdict.data(), verdict.size()) < 0) {}
}
/* Shared objects that nobody changes any more, read by all threads at once. */
struct Shared {
    std::vector<std::function<uint64_t()>> reads;
    std::vector<std::string> names;
    std::vector<Columbus::Word> words;
    Columbus::LevenshteinIndex index; Columbus::ErrorValues e; Columbus::WordStore store; Columbus::Corpus corpus; Columbus::WordList list;
    Columbus::SearchParameters params; Columbus::IndexWeights weights; Columbus::MatchResults results; Columbus::MatcherStatistics stats;
    void add(const char *n, std::function<uint64_t()> f) { names.push_back(n); reads.push_back(std::move(f)); }
};
static uint64_t bits(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static void build(Shared &s, Rng &r) {
    using namespace Columbus;
    Cps alpha = caseAlphabet(r);
    int n = r.range(4, 60);
    std::vector<Letters> l;
    for(int i = 0; i < n; i++) { l.push_back(toLetters(randWord(r, alpha, 1, 9))); s.words.push_back(wordFromLetters(l.back())); }
    for(auto &w : s.words) { WordID id = s.store.getID(w); for(int k = r.range(1, 3); k > 0; k--) s.index.insertWord(w, id); s.list.addWord(w); s.stats.wordProcessed(id); }
    switch(r.range(0, 3)) { case 1: s.e.addStandardErrors(); break; case 2: s.e.addKeyboardErrors(); break; case 3: s.e.addNumberpadErrors(); }
    for(int i = r.range(0, 4); i > 0; i--) s.e.setError((Letter)alpha[r.below(alpha.size())], (Letter)alpha[r.below(alpha.size())], r.range(0, 120));
    if(r.chance(30)) s.e.setSubstringMode();
    int docs = r.range(1, 12);
    for(int i = 0; i < docs; i++) { Document d(i * 16); for(int f = r.range(1, 3); f > 0; f--) { WordList t; for(int k = r.range(1, 6); k > 0; k--) t.addWord(s.words[r.below(n)]); d.addText(s.words[f % n], t); } s.corpus.addDocument(d); }
    for(int i = r.range(0, 3); i > 0; i--) { s.weights.setWeight(s.words[r.below(n)], r.range(1, 9) / 4.0); s.params.addNonsearchingField(s.words[r.below(n)]); s.params.getResultFilter().addNewSubTerm(s.words[r.below(n)], s.words[r.below(n)]); if(r.chance(50)) s.params.getResultFilter().addNewTerm(); }
    for(int i = r.range(1, 20); i > 0; i--) s.results.addResult(i, r.range(0, 9) / 8.0);
    s.results.getDocumentID(0);   // ranked once before it is shared
    int m = r.range(6, 30);
    for(int i = 0; i < m; i++) {
        const Word *w = &s.words[r.below(n)], *v = &s.words[r.below(n)];
        std::string utf = toUtf8(mutate(r, lettersToCps(l[r.below(n)]), alpha, r.range(0, 2)));
        uint64_t x = r.next();
        switch(r.range(0, 15)) {
        case 0: case 1: case 2: case 3: {
            int limit = r.range(0, 300);
            s.add("search", [&s, utf, limit] { IndexMatches im; s.index.findWords(Word(utf), s.e, limit, im); uint64_t h = im.size(); for(size_t k = 0; k < im.size(); k++) h += mix(im.getMatch(k) * 1000003ull + im.getMatchError(k)); return h; });
            break; }
        case 4: s.add("index", [&s, w] { WordID id = 0; for(WordID k = 0; s.store.hasWord(k); k++) if(s.store.getWord(k) == *w) id = k; return s.index.wordCount(id) * 31 + s.index.maxCount() * 7 + s.index.numWords() * 3 + s.index.numNodes() + s.index.hasWord(*w); }); break;
        case 5: s.add("store", [&s, w] { uint64_t h = s.store.hasWord(*w); for(WordID k = 0; s.store.hasWord(k); k++) h = mix(h ^ s.store.getWord(k).hash()); return h; }); break;
        case 6: s.add("render", [&s, w] { char buf[64]; w->toUtf8(buf, sizeof buf); return hashStr(w->asUtf8()) ^ mix(hashStr(buf)); }); break;
        case 7: s.add("word", [w, v, utf] { return (uint64_t)(w->hash() + (*w == *v) + 2 * (*w < *v) + 4 * (*w == utf) + 8 * (*w != utf.c_str())) + mix(w->join(*v).hash()) + (uint32_t)(*w)[0]; }); break;
        case 8: s.add("copy", [w] { Word a(*w); Word b; b = a; Word c2(std::move(a)); return (uint64_t)(b == *w) + 2 * (c2 == *w) + c2.hash(); }); break;
        case 9: s.add("costs", [&s, x] { uint64_t h = 1; Rng q(x); for(int k = 0; k < 40; k++) h = mix(h ^ s.e.getSubstituteError((Letter)q.range(1, 700), (Letter)q.range(1, 700))); return mix(h ^ s.e.getInsertionError() ^ (s.e.getEndDeletionError() << 8) ^ (s.e.getStartInsertionError(3) << 16) ^ s.e.getTransposeError()); }); break;
        case 10: s.add("corpus", [&s] { uint64_t h = s.corpus.size(); for(size_t k = 0; k < s.corpus.size(); k++) { const Document &d = s.corpus.getDocument(k); WordList names; d.getFieldNames(names); h = mix(h ^ d.getID() ^ d.fieldCount()); for(size_t f = 0; f < names.size(); f++) { const WordList &t = d.getText(names[f]); for(size_t a = 0; a < t.size(); a++) h = mix(h ^ t[a].hash() ^ d.wordCount(t[a], names[f]) ^ d.totalWordCount(t[a])); } } return h; }); break;
        case 11: s.add("document copy", [&s] { Document d(s.corpus.getDocument(0)); Document o(7); o = s.corpus.getDocument(s.corpus.size() - 1); return (uint64_t)(d.getID() + mix(o.getID()) + d.fieldCount() + o.fieldCount() * 5); }); break;
        case 12: s.add("list", [&s] { WordList a(s.list), b; b = s.list; uint64_t h = (a == s.list) + 2 * (b != a); for(size_t k = 0; k < s.list.size(); k++) h = mix(h ^ s.list[k].hash()); return h; }); break;
        case 13: s.add("settings", [&s, w] { const SearchParameters &p = s.params; const ResultFilter &f = p.getResultFilter(); uint64_t h = bits(s.weights.getWeight(*w)) ^ p.isDynamic() ^ (p.getDynamicError(*w) << 3) ^ (p.isNonsearchingField(*w) << 1); for(size_t t = 0; t < f.numTerms(); t++) for(size_t k = 0; k < f.numSubTerms(t); k++) h = mix(h ^ f.getField(t, k).hash() ^ (f.getWord(t, k).hash() << 1)); return h; }); break;
        case 14: s.add("ranking", [&s] { MatchResults a(s.results), b; b = s.results; uint64_t h = a.size(); for(size_t k = 0; k < s.results.size(); k++) h = mix(h ^ s.results.getDocumentID(k) ^ bits(s.results.getRelevancy(k)) ^ (b.getDocumentID(k) == a.getDocumentID(k))); return h; }); break;
        case 15: s.add("own matcher", [&s, utf] { Matcher m; m.index(s.corpus); MatchResults mr = m.match(utf.c_str(), s.params); uint64_t h = mr.size(); for(size_t k = 0; k < mr.size(); k++) h += mix(mr.getDocumentID(k) * 77 ^ (uint64_t)(mr.getRelevancy(k) * 1e6 + 0.5)); return h; }); break;
        }
    }
}
static void sharedChild(Ctx &c, int fd) {
    Rng &r = c.rng;
    Shared s;
    build(s, r);
    int n = r.range(2, 6);
    bool step = r.chance(60);        // all threads begin with the same read, so that first uses meet
    size_t rounds = r.range(1, (int)c.opt("rounds", 6));
    struct Rec { std::vector<std::pair<size_t, uint64_t>> v; };
    std::vector<std::vector<size_t>> plan(n);
    std::vector<Rec> got(n);
    for(int i = 0; i < n; i++) {
        for(size_t k = 0; k < rounds; k++) {
            std::vector<size_t> o(s.reads.size());
            for(size_t a = 0; a < o.size(); a++) o[a] = a;
            if(!step || k) for(size_t a = o.size(); a > 1; a--) std::swap(o[a - 1], o[r.below(a)]);
            plan[i].insert(plan[i].end(), o.begin(), o.end());
        }
    }
    std::atomic<int> ready{0}, running{0}, maxRunning{0};
    std::atomic<bool> go{false};
    std::vector<std::thread> t;
    for(int i = 0; i < n; i++)
        t.emplace_back([&, i] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while(!go.load(std::memory_order_relaxed)) std::this_thread::yield();
            int k = running.fetch_add(1, std::memory_order_relaxed) + 1;
            int m = maxRunning.load(std::memory_order_relaxed);
            while(k > m && !maxRunning.compare_exchange_weak(m, k, std::memory_order_relaxed)) { }
            for(size_t a : plan[i]) {
                uint64_t x;
                try { x = s.reads[a](); } catch(std::exception &) { x = 0xbadbad; }
                got[i].v.push_back({a, x});
            }
            running.fetch_sub(1, std::memory_order_relaxed);
        });
    while(ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
    go.store(true, std::memory_order_relaxed);
    for(auto &x : t) x.join();
    // Only now alone, so that the threads meet everything untouched.
    std::string verdict;
    uint64_t obs = 0, exc = 0, h = 5;
    std::vector<uint64_t> alone;
    for(auto &f : s.reads) { uint64_t x; try { x = f(); } catch(std::exception &) { x = 0xbadbad; exc++; } alone.push_back(x); h = mix(h ^ x); }
    for(int i = 0; i < n && verdict.empty(); i++)
        for(auto &o : got[i].v) {
            obs++;
            if(o.second != alone[o.first]) { verdict = fmt("shared object: read %zu (%s) gave thread %d of %d digest %llx, alone it gives %llx", o.first, s.names[o.first].c_str(), i, n, (unsigned long long)o.second, (unsigned long long)alone[o.first]); break; }
        }
    uint64_t res[6] = {(uint64_t)n, obs, exc, h, (uint64_t)maxRunning.load(), verdict.size()};
    if(write(fd, res, sizeof res) < 0) {}
    if(write(fd, verdict.data(), verdict.size()) < 0) {}
}
static void oneCase(Ctx &c) {
    bool shared = c.rng.chance(40);
    if(shared) c.count("shared_cases");
    int p[2];
    if(pipe(p)) throw std::runtime_error("pipe");
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0) { close(p[0]); if(shared) sharedChild(c, p[1]); else child(c, p[1]); _exit(0); }
    close(p[1]);
    std::string s; char buf[4096]; ssize_t k;
    while((k = read(p[0], buf, sizeof buf)) > 0) s.append(buf, k);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if(!WIFEXITED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(95); }
    if(WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    uint64_t res[6];
    if(s.size() < sizeof res) _exit(94);
    memcpy(res, s.data(), sizeof res);
    c.count("threads", res[0]); c.count("observations_compared", res[1]); c.count("exceptions", res[2]); c.maxi("max_threads_running_at_once", res[4]);
    if(res[4] > 1) { c.count("cases_with_overlap"); c.nontrivial(res[3]); }
    if(res[5]) fail("thread-result", "%s", s.substr(sizeof res).c_str());
    if(c.caseNo < 2) c.sample(fmt("case %llu: %llu threads, at most %llu at once, %llu observations", (unsigned long long)c.caseNo, (unsigned long long)res[0], (unsigned long long)res[4], (unsigned long long)res[1]));
}
int main(int argc, char **argv) { return runDriver(argc, argv, "threads", oneCase); }
