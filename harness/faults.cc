/* C19: one failure injected at every allocation and every resource call of a scenario in turn (and sticky, random
   and resource-limit failures); C18 (opt leaks=1): the same runs must give everything back. */
#include "corpus.hh"
#include "WordStore.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include "columbus.h"
#include <new>
#include <dirent.h>
#include <iconv.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <sys/resource.h>
#include <sys/syscall.h>
using namespace vp;
using namespace Columbus;

/* ---- the injector ---- */
enum Mode { NONE, SINGLE, STICKY, RANDOM, NOFILE, FSIZE };
enum Kind { NEW, TMPFILE, OPEN, TRUNCATE, MMAP, ICONV, DUP, LIMIT, KINDS };
static const char *kindName[] = {"allocation", "temporary file", "open", "truncate", "mmap", "iconv_open", "strdup", "limit"};
static const char *place = "";
static struct Injector {
    bool armed = false;
    Mode mode = NONE;
    uint64_t points = 0, target = 0, calls = 0, fired = 0, perKind[KINDS] = {};
    bool firedInCall = false;
    Kind last = NEW;
    const char *where = "";
    int permille = 0;
    Rng rng{1};
    bool hit(Kind k) {
        if(!armed) return false;
        points++;
        bool f = false;
        if(mode == SINGLE) f = points == target;
        else if(mode == STICKY) f = points == target || firedInCall;
        else if(mode == RANDOM) f = (int)rng.below(1000) < permille;
        if(f) { fired++; perKind[k]++; firedInCall = true; last = k; where = place; }
        return f;
    }
} inj;
static uint64_t liveBlocks, liveIconv;
static std::set<uintptr_t> *livePages;
static bool trackPages = true;

static void *allocate(size_t n, bool nothrow) {
    if(inj.hit(NEW)) { if(nothrow) return nullptr; throw std::bad_alloc(); }
    void *p = malloc(n ? n : 1);
    if(!p) { if(nothrow) return nullptr; throw std::bad_alloc(); }
    liveBlocks++;
    return p;
}
static void release(void *p) noexcept { if(p) { liveBlocks--; free(p); } }
void *operator new(size_t n) { return allocate(n, false); }
void *operator new[](size_t n) { return allocate(n, false); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n, true); }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n, true); }
void operator delete(void *p) noexcept { release(p); }
void operator delete[](void *p) noexcept { release(p); }
void operator delete(void *p, size_t) noexcept { release(p); }
void operator delete[](void *p, size_t) noexcept { release(p); }
void operator delete(void *p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void *p, const std::nothrow_t&) noexcept { release(p); }

extern "C" {
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
REAL(FILE*, tmpfile, void); REAL(FILE*, tmpfile64, void); REAL(int, mkstemp, char*); REAL(int, mkstemp64, char*); REAL(int, mkostemp, char*, int);
REAL(int, memfd_create, const char*, unsigned); REAL(int, ftruncate, int, off_t); REAL(int, ftruncate64, int, off_t);
REAL(void*, mmap, void*, size_t, int, int, int, off_t); REAL(void*, mmap64, void*, size_t, int, int, int, off_t); REAL(int, munmap, void*, size_t);
REAL(iconv_t, iconv_open, const char*, const char*); REAL(int, iconv_close, iconv_t); REAL(char*, strdup, const char*);
REAL(FILE*, fopen, const char*, const char*); REAL(FILE*, fopen64, const char*, const char*);
REAL(int, posix_fallocate, int, off_t, off_t);
#define FAIL(kind, err, value) if(inj.hit(kind)) { errno = err; return value; }
FILE *__wrap_tmpfile(void) { FAIL(TMPFILE, EMFILE, nullptr) return __real_tmpfile(); }
FILE *__wrap_tmpfile64(void) { FAIL(TMPFILE, EMFILE, nullptr) return __real_tmpfile64(); }
int __wrap_mkstemp(char *t) { FAIL(TMPFILE, EMFILE, -1) return __real_mkstemp(t); }
int __wrap_mkstemp64(char *t) { FAIL(TMPFILE, EMFILE, -1) return __real_mkstemp64(t); }
int __wrap_mkostemp(char *t, int f) { FAIL(TMPFILE, EMFILE, -1) return __real_mkostemp(t, f); }
int __wrap_memfd_create(const char *n, unsigned f) { FAIL(TMPFILE, EMFILE, -1) return __real_memfd_create(n, f); }
int __wrap_ftruncate(int fd, off_t n) { FAIL(TRUNCATE, ENOSPC, -1) return __real_ftruncate(fd, n); }
int __wrap_ftruncate64(int fd, off_t n) { FAIL(TRUNCATE, ENOSPC, -1) return __real_ftruncate64(fd, n); }
int __wrap_posix_fallocate(int fd, off_t o, off_t n) { if(inj.hit(TRUNCATE)) return ENOSPC; return __real_posix_fallocate(fd, o, n); }
static void pages(void *p, size_t n, bool add) {
    if(!trackPages || !livePages) return;
    bool a = inj.armed; inj.armed = false; uint64_t b = liveBlocks;
    for(size_t i = 0; i < n; i += 4096) { if(add) livePages->insert((uintptr_t)p + i); else livePages->erase((uintptr_t)p + i); }
    liveBlocks = b; inj.armed = a;
}
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { FAIL(MMAP, ENOMEM, MAP_FAILED) void *p = __real_mmap(a, n, pr, fl, fd, o); if(p != MAP_FAILED) pages(p, n, true); return p; }
void *__wrap_mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { FAIL(MMAP, ENOMEM, MAP_FAILED) void *p = __real_mmap64(a, n, pr, fl, fd, o); if(p != MAP_FAILED) pages(p, n, true); return p; }
int __wrap_munmap(void *p, size_t n) { int rc = __real_munmap(p, n); if(rc == 0) pages(p, n, false); return rc; }
iconv_t __wrap_iconv_open(const char *t, const char *f) { FAIL(ICONV, EMFILE, (iconv_t)-1) iconv_t c = __real_iconv_open(t, f); if(c != (iconv_t)-1) liveIconv++; return c; }
int __wrap_iconv_close(iconv_t c) { liveIconv--; return __real_iconv_close(c); }
char *__wrap_strdup(const char *s) { FAIL(DUP, ENOMEM, nullptr) return __real_strdup(s); }
FILE *__wrap_fopen(const char *n, const char *m) { FAIL(OPEN, EMFILE, nullptr) return __real_fopen(n, m); }
FILE *__wrap_fopen64(const char *n, const char *m) { FAIL(OPEN, EMFILE, nullptr) return __real_fopen64(n, m); }
int __wrap_open(const char *n, int f, ...) { va_list ap; va_start(ap, f); int m = va_arg(ap, int); va_end(ap); FAIL(OPEN, EMFILE, -1) return (int)syscall(SYS_openat, AT_FDCWD, n, f, m); }
int __wrap_open64(const char *n, int f, ...) { va_list ap; va_start(ap, f); int m = va_arg(ap, int); va_end(ap); FAIL(OPEN, EMFILE, -1) return (int)syscall(SYS_openat, AT_FDCWD, n, f, m); }
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
#endif

static uint64_t threwCount, absorbedCount, callCount;
/* Runs one library call under injection. true: it returned. */
template<class F> static bool call(const char *what, F f) {
    place = what;
    inj.calls++; callCount++;
    inj.firedInCall = false;
    uint64_t before = inj.fired;
    struct rlimit old{};
    const int res = inj.mode == NOFILE ? RLIMIT_NOFILE : RLIMIT_FSIZE;
    const bool limit = (inj.mode == NOFILE || inj.mode == FSIZE) && inj.calls == inj.target;
    if(limit) {
        getrlimit((__rlimit_resource)res, &old);
        struct rlimit l = old;
        l.rlim_cur = inj.mode == NOFILE ? 0 : 512;
        setrlimit((__rlimit_resource)res, &l);
    }
    bool ok = false, std = true;
    inj.armed = true;
    try { f(); inj.armed = false; ok = true; }
    catch(const std::exception &) { inj.armed = false; }
    catch(...) { inj.armed = false; std = false; }
    inj.armed = false;
    if(limit) { setrlimit((__rlimit_resource)res, &old); if(!ok) { inj.fired++; inj.perKind[LIMIT]++; inj.last = LIMIT; inj.where = what; } }
    if(!std) fail("foreign-exception", "%s threw something that is no std::exception", what);
    if(!ok && inj.fired == before) fail("no-cause", "%s threw although nothing failed during it", what);
    if(!ok) threwCount++; else if(inj.fired != before) absorbedCount++;
    return ok;
}
/* A call with a retry: after a failure the fault is gone, so it must succeed. */
template<class F, class V> static bool attempt(const char *what, F f, V verify) {
    bool first = call(what, f);
    if(!first) {
        verify();
        Mode m = inj.mode; inj.mode = NONE;
        bool again = false; std::string err;
        try { f(); again = true; } catch(const std::exception &e) { err = e.what(); }
        inj.mode = m;
        if(!again) fail("retry-fails", "%s fails again after the fault (%s) is gone: %s", what, kindName[inj.last], err.c_str());
    }
    return first;
}
static void nothing() {}
static std::string at() { return fmt(" [fault %llu: %s, mode %d, in %s]", (unsigned long long)inj.target, kindName[inj.last], (int)inj.mode, inj.where); }
#define REQUIRE(cond, key, ...) do { if(!(cond)) { std::string m_ = fmt(__VA_ARGS__) + at(); fail(key, "%s", m_.c_str()); } } while(0)

struct Names {
    Cps alpha;
    std::vector<Letters> words;
    Names(Rng &r, int n, int maxLen) {
        alpha = caseAlphabet(r);
        for(auto &x : alpha) x = u_tolower(x);
        for(int i = 0; i < n; i++) {
            Letters l;
            if(!words.empty() && r.chance(40)) l = toLetters(mutate(r, lettersToCps(words[r.below(words.size())]), alpha, 1));
            else l = toLetters(randWord(r, alpha, 1, maxLen));
            if(!l.empty()) words.push_back(l);
        }
        if(words.empty()) words.push_back(toLetters(Cps{'a'}));
    }
};

/* ---- scenarios ---- */
static void storeScenario(Rng r) {
    Names n(r, r.range(2, 40), r.chance(10) ? 250 : r.chance(30) ? 40 : 8);
    std::vector<Word> ws; for(auto &l : n.words) ws.push_back(wordFromLetters(l));
    std::unique_ptr<WordStore> s;
    std::map<Letters, WordID> ids;
    std::vector<const Letters*> order;
    const bool giveUp = r.chance(40);
    attempt("WordStore()", [&] { s.reset(new WordStore); }, nothing);
    auto verify = [&] {
        for(WordID i = 0; i < order.size(); i++) { Letters l = lettersOf(s->getWord(i)); REQUIRE(l == *order[i], "store-lost", "id %u reads back as %s instead of %s", i, show(l).c_str(), show(*order[i]).c_str()); REQUIRE(s->hasWord(i), "store-lost", "id %u is gone", i); }
        for(auto &w : ids) { Word x = wordFromLetters(w.first); REQUIRE(s->hasWord(x), "store-lost", "stored word %s is not found", show(w.first).c_str()); WordID id = s->getID(x); REQUIRE(id == w.second, "store-id", "%s has id %u instead of %u", show(w.first).c_str(), id, w.second); }
        if(!giveUp) REQUIRE(!s->hasWord((WordID)order.size()), "store-phantom", "an id %zu exists that was never handed out", order.size());
    };
    for(size_t i = 0; i < ws.size(); i++) {
        const Letters &l = n.words[i];
        auto it = ids.find(l);
        WordID want = it == ids.end() ? (WordID)order.size() : it->second, got = 0;
        if(r.chance(30)) { std::unique_ptr<Word> w; if(attempt("WordStore::getWord", [&] { w.reset(); if(!order.empty()) w.reset(new Word(s->getWord(0))); }, verify) && w) REQUIRE(lettersOf(*w) == *order[0], "store-lost", "id 0 reads back wrong"); }
        if(giveUp && r.chance(50)) { // a caller that does not try again
            if(!call("WordStore::getID", [&] { got = s->getID(ws[i]); })) {
                verify();
                if(it == ids.end() && s->hasWord(ws[i])) { auto x = ids.insert({l, s->getID(ws[i])}).first; order.push_back(&x->first); verify(); }
                continue;
            }
        } else
        attempt("WordStore::getID", [&] { got = s->getID(ws[i]); }, verify);
        REQUIRE(got == want, "store-id", "getID(%s) gives %u instead of %u", show(l).c_str(), got, want);
        if(it == ids.end()) { auto x = ids.insert({l, got}).first; order.push_back(&x->first); }
    }
    verify();
}
static void indexScenario(Rng r) {
    Names n(r, r.range(2, 30), r.chance(10) ? 120 : r.chance(30) ? 30 : 7);
    std::vector<Word> ws; for(auto &l : n.words) ws.push_back(wordFromLetters(l));
    std::unique_ptr<LevenshteinIndex> x; std::unique_ptr<ErrorValues> e(new ErrorValues);
    std::map<Letters, WordID> ids; std::map<WordID, std::pair<size_t, size_t>> counts;   // smallest and largest possible count
    attempt("LevenshteinIndex()", [&] { x.reset(new LevenshteinIndex); }, nothing);
    Costs costs;
    const bool giveUp = r.chance(40);
    WordID nextId = 0;
    auto search = [&](const Word &q, const Letters &ql, bool faulty) {
        std::unique_ptr<IndexMatches> m;
        auto f = [&] { m.reset(new IndexMatches); x->findWords(q, *e, 150, *m); };
        if(faulty) attempt("LevenshteinIndex::findWords", f, nothing); else f();
        std::map<WordID, int> got; for(size_t i = 0; i < m->size(); i++) got[m->getMatch(i)] = m->getMatchError(i);
        std::map<WordID, int> want; for(auto &w : ids) { long d = refDistance(ql, w.first, costs); if(d <= 150) want[w.second] = (int)d; }
        REQUIRE(got == want && m->size() == got.size(), "index-search", "searching %s gives %zu matches instead of %zu", show(ql).c_str(), m->size(), want.size());
    };
    auto verify = [&] {
        size_t lo = 0, hi = 0;
        for(auto &w : ids) {
            REQUIRE(x->hasWord(wordFromLetters(w.first)), "index-lost", "%s is no longer in the index", show(w.first).c_str());
            size_t c = x->wordCount(w.second); auto &b = counts[w.second];
            REQUIRE(c >= b.first && c <= b.second, "index-count", "count of %s is %zu, expected %zu to %zu", show(w.first).c_str(), c, b.first, b.second);
            lo = std::max(lo, b.first); hi = std::max(hi, b.second);
        }
        REQUIRE(x->maxCount() >= lo && x->maxCount() <= std::max(hi, (size_t)1), "index-max", "maximum count %zu, expected %zu to %zu", x->maxCount(), lo, hi);
        REQUIRE(x->numWords() >= ids.size() && x->numWords() <= ids.size() + 1, "index-words", "%zu words instead of %zu", x->numWords(), ids.size());
    };
    for(size_t i = 0; i < ws.size(); i++) {
        const Letters &l = n.words[i];
        auto it = ids.find(l);
        WordID id = it == ids.end() ? nextId + (WordID)ids.size() : it->second;
        auto before = counts.count(id) ? counts[id] : std::make_pair((size_t)0, (size_t)0);
        if(giveUp && r.chance(50)) { // a caller that does not try again
            if(!call("LevenshteinIndex::insertWord", [&] { x->insertWord(ws[i], id); })) {
                if(it != ids.end()) counts[id].second++;
                else if(x->hasWord(ws[i])) { ids[l] = id; counts[id] = {0, 1}; }
                else nextId++; // the id may be known to the counts
                verify();
                size_t k = r.below(i + 1); search(ws[k], n.words[k], false);
                continue;
            }
            ids[l] = id;
            counts[id] = {before.first + 1, before.second + 1};
            continue;
        }
        bool first = attempt("LevenshteinIndex::insertWord", [&] { x->insertWord(ws[i], id); }, [&] {
            if(it != ids.end()) counts[id].second++;   // a failed insertion may or may not count
            verify();
        });
        ids[l] = id;
        counts[id] = {before.first + 1, before.second + (first ? 1 : 2)};
        if(r.chance(30)) { size_t k = r.below(i + 1); search(ws[k], n.words[k], true); }
    }
    verify();
    REQUIRE(x->numWords() == ids.size(), "index-words", "%zu words instead of %zu in the end", x->numWords(), ids.size());
    for(size_t k = 0; k < ws.size(); k++) search(ws[k], n.words[k], false);
}

static void compareMaps(const RefResult &want, const RefResult &got, const char *what, bool relevancies) {
    for(auto &x : want) {
        auto g = got.find(x.first);
        REQUIRE(g != got.end(), "match-lost", "%s: document %llu is missing (%zu of %zu found)", what, (unsigned long long)x.first, got.size(), want.size());
        REQUIRE(!relevancies || close(g->second, x.second), "match-relevancy", "%s: document %llu has relevancy %.15g instead of %.15g", what, (unsigned long long)x.first, g->second, x.second);
    }
    REQUIRE(got.size() == want.size(), "match-surplus", "%s: %zu documents instead of %zu", what, got.size(), want.size());
}
static void matcherScenario(Rng r) {
    World w;
    w.alpha = caseAlphabet(r);
    for(auto &x : w.alpha) x = u_tolower(x);
    w.letters = toLetters(w.alpha);
    for(int i = r.range(2, 8); i; i--) { Letters l = w.word(r); if(!l.empty()) w.vocab.push_back(l); }
    if(w.vocab.empty()) w.vocab.push_back(Letters(1, w.letters[0]));
    w.fieldNames.push_back(toLetters(Cps{'f', '0'})); if(r.chance(60)) w.fieldNames.push_back(toLetters(Cps{'f', '1'}));
    RefMatcher ref;
    std::unique_ptr<Matcher> m;
    attempt("Matcher()", [&] { m.reset(new Matcher); }, nothing);
    if(r.chance(40)) { randomCosts(r, m->getErrorValues(), ref.costs, w.letters, false); }
    if(r.chance(40)) { Word f = wordFromLetters(w.fieldNames[0]); attempt("IndexWeights::setWeight", [&] { m->getIndexWeights().setWeight(f, 2.5); }, nothing); ref.weights[w.fieldNames[0]] = 2.5; }
    bool exact = true;   // false: a failed index call may have counted words twice
    struct Q { WordList words; std::string text; std::vector<Letters> letters; };
    std::vector<std::unique_ptr<Q>> qs;
    for(int i = 0; i < 3; i++) {
        std::unique_ptr<Q> q(new Q);
        int n = r.range(1, 2);
        for(int k = 0; k < n; k++) { Letters l = w.vocab[r.below(w.vocab.size())]; if(r.chance(50)) { Letters x = toLetters(mutate(r, lettersToCps(l), w.alpha, 1)); if(!x.empty()) l = x; } q->letters.push_back(l); }
        q->words = listFrom(q->letters);
        for(auto &l : q->letters) q->text += toUtf8(lettersToCps(l)) + " ";
        qs.push_back(std::move(q));
    }
    auto plain = [&](const WordList &l) { MatchResults x = m->match(l); return readResults(x, "match"); };
    int batches = r.range(1, 3);
    uintptr_t id = 1;
    for(int b = 0; b < batches; b++) {
        std::vector<RefDoc> docs;
        for(int i = r.range(1, 3); i; i--) {
            RefDoc d; d.id = id++;
            for(auto &f : w.fieldNames) if(r.chance(80)) { std::vector<Letters> t; for(int k = r.range(1, 4); k; k--) { Letters l = w.word(r); if(!l.empty()) t.push_back(l); } if(!t.empty() && r.chance(20)) { t[0] = toLetters(randWord(r, w.alpha, 30, 200)); } if(!t.empty()) d.fields[f] = t; }
            docs.push_back(d);
        }
        std::unique_ptr<Corpus> c(new Corpus);
        for(auto &d : docs) { Document doc(d.id); for(auto &f : d.fields) doc.addText(wordFromLetters(f.first), listFrom(f.second)); c->addDocument(doc); }
        std::vector<RefResult> before; if(exact) for(auto &q : qs) before.push_back(ref.match(q->letters));
        RefMatcher after = ref; after.index(docs);
        bool first = attempt("Matcher::index", [&] { m->index(*c); }, [&] {
            // everything indexed before is still found; nothing but the new documents may appear
            for(auto &q : qs) {
                RefResult old = ref.match(q->letters), full = after.match(q->letters), got = plain(q->words);
                for(auto &x : old) REQUIRE(got.count(x.first), "match-lost", "after a failed index call document %llu is no longer found", (unsigned long long)x.first);
                for(auto &x : got) REQUIRE(full.count(x.first), "match-surplus", "after a failed index call document %llu is found", (unsigned long long)x.first);
            }
        });
        if(!first) exact = false;
        ref = after;
        for(auto &q : qs) compareMaps(ref.match(q->letters), plain(q->words), "after indexing", exact);
        for(int k = 0; k < 2; k++) {
            Q &q = *qs[r.below(qs.size())];
            int form = r.range(0, 4);
            std::unique_ptr<MatchResults> res;
            SearchParameters p; std::set<Letters> no; RefFilter rf;
            if(form == 3) {
                if(r.chance(50)) { no.insert(w.fieldNames.back()); p.addNonsearchingField(wordFromLetters(w.fieldNames.back())); }
                else { Letters v = w.vocab[0]; p.getResultFilter().addNewSubTerm(wordFromLetters(w.fieldNames[0]), wordFromLetters(v)); rf.terms[0].push_back({w.fieldNames[0], v}); }
            }
            Word primary = wordFromLetters(w.fieldNames[0]);
            bool known = ref.known.count(w.fieldNames[0]);
            if(form == 4 && !known) form = 0;
            RefResult want;
            if(form == 4) ref.online(q.letters, w.fieldNames[0], want);
            else want = ref.match(q.letters, true, &no, &rf);
            RefResult ground; if(!exact) { MatchResults g = form == 4 ? m->onlineMatch(q.words, primary) : m->match(q.words, p); ground = readResults(g, "match"); }
            attempt(form == 4 ? "Matcher::onlineMatch" : form == 3 ? "Matcher::match(parameters)" : form ? "Matcher::match(words)" : "Matcher::match(text)", [&] {
                res.reset(new MatchResults(form == 4 ? m->onlineMatch(q.words, primary) : form == 3 ? m->match(q.words, p) : form ? m->match(q.words) : m->match(q.text.c_str())));
            }, [&] {
                MatchResults again = form == 4 ? m->onlineMatch(q.words, primary) : m->match(q.words, p);
                compareMaps(exact ? want : ground, readResults(again, "match"), "after a failed match", true);
            });
            RefResult got = readResults(*res, "match");
            if(exact) compareMaps(want, got, "match", true); else compareMaps(ground, got, "match", true);
        }
    }
}
static void wordScenario(Rng r) {
    Names n(r, 6, 20);
    std::vector<std::string> texts; for(auto &l : n.words) texts.push_back(toUtf8(lettersToCps(l)));
    std::vector<std::unique_ptr<Word>> ws; std::vector<Letters> ref;
    auto same = [&](const Word &w, const Letters &l, const char *what) { Letters g = lettersOf(w); REQUIRE(g == l, "word-letters", "%s: %s instead of %s", what, show(g).c_str(), show(l).c_str()); };
    auto verify = [&] { for(size_t i = 0; i < ws.size(); i++) { same(*ws[i], ref[i], "a word"); std::string s = ws[i]->asUtf8(); REQUIRE(s == toUtf8(lettersToCps(ref[i])), "word-text", "rendering gives %s", showBytes(s).c_str()); } };
    for(size_t i = 0; i < n.words.size(); i++) {
        std::unique_ptr<Word> w;
        const bool str = r.chance(50);
        attempt("Word(text)", [&] { w.reset(str ? new Word(texts[i]) : new Word(texts[i].c_str())); }, verify);
        same(*w, n.words[i], "construction"); ws.push_back(std::move(w)); ref.push_back(n.words[i]);
    }
    for(int k = 0; k < 12; k++) {
        size_t a = r.below(ws.size()), b = r.below(ws.size());
        std::unique_ptr<Word> w;
        // a failed assignment leaves the old word or an empty one
        auto unsettled = [&] { Letters g = lettersOf(*ws[a]); REQUIRE(g.empty() || g == ref[a] || g == ref[b], "word-torn", "a failed assignment leaves %s", show(g).c_str()); Letters keep = ref[a]; ref[a] = g; verify(); ref[a] = keep; };
        switch(r.range(0, 9)) {
        case 0: attempt("Word(Word)", [&] { w.reset(new Word(*ws[a])); }, verify); same(*w, ref[a], "copy"); break;
        case 1: attempt("Word=Word", [&] { *ws[a] = *ws[b]; }, [&] { same(*ws[a], ref[a], "failed assignment"); verify(); }); ref[a] = ref[b]; break;
        case 2: attempt("Word=text", [&] { *ws[a] = texts[b % texts.size()].c_str(); }, [&] { Letters g = lettersOf(*ws[a]); Letters nw = n.words[b % texts.size()]; REQUIRE(g.empty() || g == ref[a] || g == nw, "word-torn", "a failed assignment leaves %s", show(g).c_str()); Letters keep = ref[a]; ref[a] = g; verify(); ref[a] = keep; }); ref[a] = n.words[b % texts.size()]; break;
        case 3: { if(ref[a].size() + ref[b].size() > 200) break; attempt("Word::join", [&] { w.reset(new Word(ws[a]->join(*ws[b]))); }, verify); Letters j = ref[a]; j.insert(j.end(), ref[b].begin(), ref[b].end()); same(*w, j, "join"); break; }
        case 4: { std::string s; attempt("Word::asUtf8", [&] { s = ws[a]->asUtf8(); }, verify); REQUIRE(s == toUtf8(lettersToCps(ref[a])), "word-text", "rendering gives %s", showBytes(s).c_str()); break; }
        case 5: { std::vector<char> buf(ref[a].size() * 4 + 4, 'x'); attempt("Word::toUtf8", [&] { ws[a]->toUtf8(buf.data(), buf.size()); }, [&] { REQUIRE(memchr(buf.data(), 0, buf.size()), "word-unterminated", "a failed rendering leaves the buffer without terminator"); verify(); }); REQUIRE(std::string(buf.data()) == toUtf8(lettersToCps(ref[a])), "word-text", "rendering gives %s", showBytes(buf.data()).c_str()); break; }
        case 6: { bool eq = false; const std::string &t = texts[b % texts.size()]; attempt("Word==text", [&] { eq = *ws[a] == t; }, verify); REQUIRE(eq == (ref[a] == n.words[b % texts.size()]), "word-equal", "comparison gives %d", eq); break; }
        case 7: { std::string t = " "; for(auto &x : texts) t += x + (r.chance(30) ? "\t\n" : " "); std::unique_ptr<WordList> l; attempt("splitToWords", [&] { l.reset(new WordList(splitToWords(t.c_str()))); }, verify); REQUIRE(l->size() == texts.size(), "split", "splitting gives %zu words instead of %zu", l->size(), texts.size()); for(size_t i = 0; i < l->size(); i++) same((*l)[i], n.words[i], "split"); break; }
        case 8: { std::vector<Letter> v; for(uint32_t x : ref[a]) v.push_back(Letter((Letter_)x)); if(v.empty()) break; attempt("Word(letters)", [&] { w.reset(new Word(v.data(), v.size())); }, verify); same(*w, ref[a], "construction from letters"); break; }
        case 9: { (void)unsettled; bool threw = false; std::string bad = texts[0] + "\xff"; call("Word(bad text)", [&] { try { Word x(bad); } catch(const std::runtime_error &) { threw = true; } catch(const std::bad_alloc &) { threw = true; } }); REQUIRE(threw, "word-bad", "malformed text was accepted"); verify(); break; }
        }
        verify();
    }
}
static void containerScenario(Rng r) {
    Names n(r, 8, 6);
    std::vector<Word> ws; for(auto &l : n.words) ws.push_back(wordFromLetters(l));
    auto W = [&](size_t i) -> const Word& { return ws[i % ws.size()]; };
    typedef std::vector<size_t> Idx;   // indexes of words
    auto sameList = [&](const WordList &l, const Idx &x, const char *what) { REQUIRE(l.size() == x.size(), "list", "%s: %zu words instead of %zu", what, l.size(), x.size()); for(size_t i = 0; i < x.size(); i++) REQUIRE(l[i] == W(x[i]), "list", "%s: word %zu is wrong", what, i); };
    std::unique_ptr<WordList> l, l2; Idx ref;
    attempt("WordList()", [&] { l.reset(new WordList); }, nothing);
    for(int i = r.range(1, 6); i; i--) { size_t k = r.below(ws.size()); attempt("WordList::addWord", [&] { l->addWord(W(k)); }, [&] { sameList(*l, ref, "after a failed addWord"); }); ref.push_back(k); sameList(*l, ref, "addWord"); }
    attempt("WordList(WordList)", [&] { l2.reset(new WordList(*l)); }, [&] { sameList(*l, ref, "after a failed copy"); }); sameList(*l2, ref, "copy");
    { WordList other; attempt("WordList=WordList", [&] { other = *l; }, [&] { sameList(*l, ref, "source of a failed assignment"); REQUIRE(other.size() <= ref.size(), "list", "a failed assignment leaves %zu words", other.size()); }); sameList(other, ref, "assignment"); }
    // documents
    std::unique_ptr<Document> d, d2; std::map<Letters, Idx> fields;
    auto sameDoc = [&](const Document &x, const std::map<Letters, Idx> &f, const char *what) { REQUIRE(x.getID() == 7, "document", "%s: id %llu", what, (unsigned long long)x.getID()); REQUIRE(x.fieldCount() == f.size(), "document", "%s: %zu fields instead of %zu", what, x.fieldCount(), f.size()); for(auto &e : f) sameList(x.getText(wordFromLetters(e.first)), e.second, what); };
    attempt("Document()", [&] { d.reset(new Document(7)); }, nothing);
    for(int i = r.range(1, 4); i; i--) {
        size_t f = r.below(3); Letters fl = lettersOf(W(f)); bool had = fields.count(fl);
        Idx t; for(int k = r.range(1, 3); k; k--) t.push_back(r.below(ws.size()));
        std::string text; WordList tl; for(size_t k : t) { text += toUtf8(lettersToCps(lettersOf(W(k)))) + " "; tl.addWord(W(k)); }
        bool asText = r.chance(50);
        // a failed addText may leave the field old, new or empty; the other fields are untouched
        attempt(asText ? "Document::addText(text)" : "Document::addText(list)", [&] { if(asText) d->addText(W(f), text.c_str()); else d->addText(W(f), tl); }, [&] {
            for(auto &e : fields) if(e.first != fl) sameList(d->getText(wordFromLetters(e.first)), e.second, "after a failed addText");
            REQUIRE(d->fieldCount() == fields.size() || d->fieldCount() == fields.size() + !had, "document", "%zu fields after a failed addText", d->fieldCount());
        });
        fields[fl] = t; sameDoc(*d, fields, "addText");
    }
    attempt("Document(Document)", [&] { d2.reset(new Document(*d)); }, [&] { sameDoc(*d, fields, "source of a failed copy"); }); sameDoc(*d2, fields, "copy");
    { Document o(9); attempt("Document=Document", [&] { o = *d; }, [&] { sameDoc(*d, fields, "source of a failed assignment"); }); sameDoc(o, fields, "assignment"); }
    { std::unique_ptr<WordList> names; attempt("Document::getFieldNames", [&] { names.reset(new WordList); d->getFieldNames(*names); }, [&] { sameDoc(*d, fields, "after failed getFieldNames"); }); REQUIRE(names->size() == fields.size(), "document", "%zu field names", names->size()); }
    std::unique_ptr<Corpus> c; attempt("Corpus()", [&] { c.reset(new Corpus); }, nothing);
    for(size_t i = 0; i < 3; i++) { attempt("Corpus::addDocument", [&] { c->addDocument(*d); }, [&] { REQUIRE(c->size() == i, "corpus", "%zu documents after a failed addDocument, %zu before", c->size(), i); for(size_t k = 0; k < i; k++) sameDoc(c->getDocument(k), fields, "after a failed addDocument"); }); REQUIRE(c->size() == i + 1, "corpus", "%zu documents", c->size()); sameDoc(c->getDocument(i), fields, "addDocument"); }
    // parameters, filters, weights
    std::unique_ptr<SearchParameters> p; attempt("SearchParameters()", [&] { p.reset(new SearchParameters); }, nothing);
    REQUIRE(p->getResultFilter().numTerms() == 1 && p->isDynamic(), "parameters", "wrong defaults");
    std::vector<std::vector<std::pair<size_t, size_t>>> terms(1); std::set<Letters> no;
    auto sameParams = [&] {
        const ResultFilter &f = p->getResultFilter();
        REQUIRE(f.numTerms() == terms.size(), "filter", "%zu terms instead of %zu", f.numTerms(), terms.size());
        for(size_t t = 0; t < terms.size(); t++) { REQUIRE(f.numSubTerms(t) == terms[t].size(), "filter", "%zu subterms instead of %zu", f.numSubTerms(t), terms[t].size()); for(size_t s = 0; s < terms[t].size(); s++) REQUIRE(f.getField(t, s) == W(terms[t][s].first) && f.getWord(t, s) == W(terms[t][s].second), "filter", "subterm %zu.%zu is wrong", t, s); }
        for(auto &w : ws) REQUIRE(p->isNonsearchingField(w) == (no.count(lettersOf(w)) > 0), "parameters", "nonsearching field is wrong");
    };
    for(int i = 0; i < 5; i++) {
        size_t a = r.below(ws.size()), b = r.below(ws.size());
        int k = r.range(0, 2);
        if(k == 0) { attempt("ResultFilter::addNewTerm", [&] { p->getResultFilter().addNewTerm(); }, sameParams); terms.emplace_back(); }
        else if(k == 1) { attempt("ResultFilter::addNewSubTerm", [&] { p->getResultFilter().addNewSubTerm(W(a), W(b)); }, sameParams); terms.back().push_back({a, b}); }
        else { attempt("SearchParameters::addNonsearchingField", [&] { p->addNonsearchingField(W(a)); }, sameParams); no.insert(lettersOf(W(a))); }
        sameParams();
    }
    std::unique_ptr<IndexWeights> iw; attempt("IndexWeights()", [&] { iw.reset(new IndexWeights); }, nothing);
    std::map<Letters, double> wr;
    for(int i = 0; i < 4; i++) {
        size_t a = r.below(ws.size()); double v = i + 0.5; Letters key = lettersOf(W(a));
        attempt("IndexWeights::setWeight", [&] { iw->setWeight(W(a), v); }, [&] { for(auto &x : wr) if(x.first != key) REQUIRE(iw->getWeight(wordFromLetters(x.first)) == x.second, "weights", "a weight changed"); });
        wr[key] = v;
        for(auto &x : wr) REQUIRE(iw->getWeight(wordFromLetters(x.first)) == x.second, "weights", "a weight is wrong");
    }
    // results
    std::unique_ptr<MatchResults> mr, mr2; std::vector<std::pair<double, uintptr_t>> list;
    auto sameResults = [&](MatchResults &m, const std::vector<std::pair<double, uintptr_t>> &x, const char *what) {
        auto s = x; std::stable_sort(s.begin(), s.end(), [](const std::pair<double, uintptr_t> &a, const std::pair<double, uintptr_t> &b) { return a.first > b.first; });
        REQUIRE(m.size() == s.size(), "results", "%s: %zu results instead of %zu", what, m.size(), s.size());
        std::multiset<std::pair<double, uintptr_t>> g, w(s.begin(), s.end());
        double prev = 1e300;
        for(size_t i = 0; i < s.size(); i++) { double rel = m.getRelevancy(i); REQUIRE(rel <= prev, "results", "%s: not sorted", what); prev = rel; g.insert({rel, (uintptr_t)m.getDocumentID(i)}); }
        REQUIRE(g == w, "results", "%s: wrong results", what);
    };
    attempt("MatchResults()", [&] { mr.reset(new MatchResults); }, nothing);
    for(int i = 0; i < 5; i++) { uintptr_t id = i; double rel = r.below(3); attempt("MatchResults::addResult", [&] { mr->addResult(id, rel); }, [&] { sameResults(*mr, list, "after a failed addResult"); }); list.push_back({rel, id}); if(r.chance(30)) { double x = 0; attempt("MatchResults::getRelevancy", [&] { x = mr->getRelevancy(0); }, [&] { sameResults(*mr, list, "after a failed read"); }); } }
    attempt("MatchResults(MatchResults)", [&] { mr2.reset(new MatchResults(*mr)); }, [&] { sameResults(*mr, list, "source of a failed copy"); }); sameResults(*mr2, list, "copy");
    auto twice = list; twice.insert(twice.end(), list.begin(), list.end());
    attempt("MatchResults::addResults", [&] { mr2->addResults(*mr); }, [&] { sameResults(*mr2, list, "after failed addResults"); }); sameResults(*mr2, twice, "addResults");
    { MatchResults o; attempt("MatchResults=MatchResults", [&] { o = *mr2; }, [&] { sameResults(*mr2, twice, "source of a failed assignment"); }); sameResults(o, twice, "assignment"); attempt("MatchResults::copyResult", [&] { o.copyResult(*mr, 0); }, [&] { sameResults(o, twice, "after a failed copyResult"); }); REQUIRE(o.size() == twice.size() + 1, "results", "copyResult adds nothing"); }
}
static void errorsScenario(Rng r) {
    Letters pool; for(int i = 0; i < 8; i++) { uint32_t l = r.chance(60) ? r.pick(asciiPool()) : r.pick(widePool()); if(sizeof(Letter) == 2 && l > 0xffff) l = 'a'; if(std::find(pool.begin(), pool.end(), l) == pool.end()) pool.push_back(l); }
    if(pool.size() < 3) pool = {'a', 'b', 'c', 0x430};
    std::unique_ptr<ErrorValues> e; SubModel ref;
    attempt("ErrorValues()", [&] { e.reset(new ErrorValues); }, nothing);
    auto get = [&](uint32_t a, uint32_t b) { return e->getSubstituteError(Letter((Letter_)a), Letter((Letter_)b)); };
    auto compare = [&](const SubModel &m, const char *what) { for(uint32_t a : pool) for(uint32_t b : pool) REQUIRE(get(a, b) == m.get(a, b), "errors-cost", "%s: cost of %x and %x is %d instead of %d", what, a, b, get(a, b), m.get(a, b)); };
    const int ops = r.range(2, 6);
    for(int i = 0; i < ops; i++) {
        uint32_t a = r.pick(pool), b = r.pick(pool); int v = 10 * r.range(0, 20);
        if(r.chance(50)) {
            SubModel next = ref; next.setPair(a, b, v);
            attempt("ErrorValues::setError", [&] { e->setError(Letter((Letter_)a), Letter((Letter_)b), v); }, [&] { for(uint32_t x : pool) for(uint32_t y : pool) REQUIRE(get(x, y) == ref.get(x, y) || get(x, y) == next.get(x, y), "errors-cost", "after a failed setError the cost of %x and %x is %d", x, y, get(x, y)); });
            ref = next;
        } else {
            Letters g; for(int k = r.range(1, 5); k; k--) { uint32_t l = r.pick(pool); if(!ref.group.count(l)) g.push_back(l); }
            if(g.empty()) continue;
            Word gw = wordFromLetters(g); SubModel before = ref; ref.setGroup(g, v);
            attempt("ErrorValues::setGroupError", [&] { e->setGroupError(gw, v); }, [&] { compare(before, "after a failed setGroupError"); });
        }
        compare(ref, "configuration");
    }
    if(r.chance(50)) {
        // the built-in tables: a failed load leaves nothing that stops the next one
        std::unique_ptr<ErrorValues> t(new ErrorValues); ErrorValues full;
        int k = r.range(0, 4);
        auto load = [&](ErrorValues &x) { if(k == 0) x.addStandardErrors(); else if(k == 1) x.addAccents(latinAccentGroup); else if(k == 2) x.addAccents(greekAccentGroup); else if(k == 3) x.addKeyboardErrors(); else x.addNumberpadErrors(); };
        static const char *names[] = {"ErrorValues::addStandardErrors", "ErrorValues::addAccents(latin)", "ErrorValues::addAccents(greek)", "ErrorValues::addKeyboardErrors", "ErrorValues::addNumberpadErrors"};
        load(full);
        static const uint32_t probe[] = {'a', 0xe1, 0xe4, 0xe5, 'e', 0xe9, 'y', 0xfd, 'z', 0x17e, 'o', 0xf6, 'q', 'w', 's', '1', '2', '5', 'j', 0x3b1, 0x3ac, 0x3c9, 0x3ce, 0x3c5, 0x3cd, 'n', 0xf1, 'm', ',', '-', '.'};
        attempt(names[k], [&] { load(*t); }, nothing);
        for(uint32_t a : probe) for(uint32_t b : probe) {
            int want = full.getSubstituteError(Letter((Letter_)a), Letter((Letter_)b)), got = t->getSubstituteError(Letter((Letter_)a), Letter((Letter_)b));
            REQUIRE(got == want, "errors-table", "%s: cost of %x and %x is %d instead of %d", names[k], a, b, got, want);
        }
    }
}
static void capiScenario(Rng r) {
    Names n(r, 5, 5);
    std::vector<std::string> texts; for(auto &l : n.words) texts.push_back(toUtf8(lettersToCps(l)));
    // constructors: null under a fault, fine afterwards. The functions never throw.
    auto make = [&](const char *what, std::function<void*()> f) { void *p = nullptr; bool ok = call(what, [&] { p = f(); }); REQUIRE(ok, "c-throws", "%s lets an exception escape", what); if(!p) { threwCount++; REQUIRE(inj.firedInCall || inj.mode == NOFILE || inj.mode == FSIZE, "c-null", "%s gives null without a fault", what); Mode m = inj.mode; inj.mode = NONE; p = f(); inj.mode = m; REQUIRE(p, "retry-fails", "%s gives null again after the fault is gone", what); } return p; };
    auto run = [&](const char *what, std::function<void()> f) { bool ok = call(what, f); REQUIRE(ok, "c-throws", "%s lets an exception escape", what); };
    const char *t0 = texts[0].c_str();
    ColWord w = (ColWord)make("col_word_new", [=] { return (void*)col_word_new(t0); });
    REQUIRE(col_word_length(w) == n.words[0].size(), "c-word", "length %zu instead of %zu", col_word_length(w), n.words[0].size());
    { char buf[256] = "x"; char *b = buf; run("col_word_as_utf8", [=] { col_word_as_utf8(w, b, 256); }); if(inj.fired == 0 && inj.mode <= RANDOM) REQUIRE(texts[0] == buf, "c-word", "text %s", showBytes(buf).c_str()); memset(buf, 'x', 255); col_word_as_utf8(w, buf, 256); REQUIRE(texts[0] == buf, "c-word", "text %s", showBytes(buf).c_str()); }
    ColWord f = (ColWord)make("col_word_new", [] { return (void*)col_word_new("field"); });
    ColDocument d = (ColDocument)make("col_document_new", [] { return (void*)col_document_new(42); });
    REQUIRE(col_document_get_id(d) == 42, "c-document", "id %llu", (unsigned long long)col_document_get_id(d));
    std::string body; for(auto &t : texts) body += t + " ";
    const char *bt = body.c_str();
    run("col_document_add_text", [=] { col_document_add_text(d, f, bt); });
    col_document_add_text(d, f, bt);
    ColCorpus c = (ColCorpus)make("col_corpus_new", [] { return (void*)col_corpus_new(); });
    uint64_t fired = inj.fired;
    run("col_corpus_add_document", [=] { col_corpus_add_document(c, d); });
    if(inj.fired != fired || inj.mode == NOFILE || inj.mode == FSIZE) col_corpus_add_document(c, d);
    ColMatcher m = (ColMatcher)make("col_matcher_new", [] { return (void*)col_matcher_new(); });
    ColIndexWeights iw = col_matcher_get_index_weights(m); ColErrorValues ev = col_matcher_get_error_values(m);
    REQUIRE(iw && ev, "c-matcher", "no weights or error values");
    run("col_index_weights_set_weight", [=] { col_index_weights_set_weight(iw, f, 3.0); });
    col_index_weights_set_weight(iw, f, 3.0);
    REQUIRE(col_index_weights_get_weight(iw, f) == 3.0, "c-weight", "weight %g", col_index_weights_get_weight(iw, f));
    if(r.chance(20)) { run("col_error_values_add_standard_errors", [=] { col_error_values_add_standard_errors(ev); }); }
    fired = inj.fired;
    run("col_matcher_index", [=] { col_matcher_index(m, c); });
    if(inj.fired != fired || inj.mode == NOFILE || inj.mode == FSIZE) col_matcher_index(m, c);
    auto check = [&](ColMatchResults res) { size_t s = col_match_results_size(res); REQUIRE(s == 1, "c-match", "%zu results instead of 1", s); REQUIRE(col_match_results_get_id(res, 0) == 42 && col_match_results_get_relevancy(res, 0) > 0, "c-match", "wrong result"); };
    ColMatchResults res = (ColMatchResults)make("col_matcher_match", [=] { return (void*)col_matcher_match(m, t0); });
    check(res);
    ColMatchResults again = col_matcher_match(m, t0); REQUIRE(again, "c-match", "no results"); check(again);
    REQUIRE(col_match_results_get_relevancy(again, 0) == col_match_results_get_relevancy(res, 0), "c-match", "relevancy changes");
    ColMatchResults e = (ColMatchResults)make("col_match_results_new", [] { return (void*)col_match_results_new(); });
    REQUIRE(col_match_results_size(e) == 0, "c-match", "new results are not empty");
    col_match_results_delete(e); col_match_results_delete(res); col_match_results_delete(again);
    col_matcher_delete(m); col_corpus_delete(c); col_document_delete(d); col_word_delete(f); col_word_delete(w);
}

struct Scenario { const char *name; void (*run)(Rng); };
static const Scenario scenarios[] = {{"store", storeScenario}, {"index", indexScenario}, {"matcher", matcherScenario}, {"words", wordScenario}, {"containers", containerScenario}, {"errors", errorsScenario}, {"c interface", capiScenario}};

static size_t openFds() { size_t n = 0; DIR *d = opendir("/proc/self/fd"); while(readdir(d)) n++; closedir(d); return n; }
struct Held { size_t fds, pages, blocks, iconv; };
static Held held() { Held h; h.fds = openFds(); h.pages = livePages->size(); h.blocks = liveBlocks; h.iconv = liveIconv; return h; }

static bool leaksWanted;
static void execute(Ctx &c, const Scenario &s, uint64_t seed, Mode mode, uint64_t target) {
    Held before = held();
    inj.mode = mode; inj.target = target; inj.points = inj.calls = inj.fired = 0; inj.firedInCall = false;
    if(mode == RANDOM) { inj.rng = Rng(seed ^ target); static const int p[] = {2, 10, 50, 200, 600}; inj.permille = p[target % 5]; }
    bool complete = true;
    try { s.run(Rng(seed)); }
    catch(const Violation &v) { inj.mode = NONE; if(!leaksWanted) throw Violation{v.key, std::string(s.name) + " scenario: " + v.msg}; complete = false; }
    inj.mode = NONE;
    c.count("runs");
    if(!complete) return;
    Held after = held();
    std::string where = fmt("%s scenario, seed %llu, mode %d, fault %llu (%s in %s)", s.name, (unsigned long long)seed, (int)mode, (unsigned long long)target, kindName[inj.last], inj.where);
    // the sanitizer's background thread opens a file now and then
    for(int i = 0; i < 40 && after.fds > before.fds; i++) { usleep(5000); after.fds = std::min(after.fds, openFds()); }
    if(after.fds > before.fds) fail("leak-descriptors", "%zu descriptors more than before: %s", after.fds - before.fds, where.c_str());
    if(after.pages > before.pages) fail("leak-pages", "%zu mapped pages more than before: %s", after.pages - before.pages, where.c_str());
    if(after.iconv > before.iconv) fail("leak-converters", "%zu text converters more than before: %s", after.iconv - before.iconv, where.c_str());
    if(leaksWanted && after.blocks > before.blocks) fail("leak-heap", "%zu heap blocks more than before: %s", after.blocks - before.blocks, where.c_str());
}
static void oneCase(Ctx &c) {
    if(!livePages) { livePages = new std::set<uintptr_t>; signal(SIGXFSZ, SIG_IGN); leaksWanted = c.opt("leaks", 0); }
    Rng &r = c.rng;
    const Scenario &s = scenarios[c.opt("scenario", c.caseNo % 7)];
    uint64_t seed = r.next();
    uint64_t t0 = threwCount, a0 = absorbedCount;
    try { execute(c, s, seed, NONE, 0); } // the scenario without faults; also one-time allocations
    catch(const Violation &v) { if(v.key.compare(0, 5, "leak-")) throw; }
    execute(c, s, seed, NONE, 0);
    uint64_t n = inj.points, calls = inj.calls;
    c.counters["fault_points_in_scenarios"] += n;
    c.maxi("max_fault_points", n);
    uint64_t limit = c.opt("limit", 300);
    uint64_t covered = 0;
    auto sweep = [&](Mode mode, uint64_t total, uint64_t most) {
        if(total <= most) { for(uint64_t k = 1; k <= total; k++) { execute(c, s, seed, mode, k); covered++; } }
        else { uint64_t step = (total + most - 1) / most, first = 1 + r.below(step); for(uint64_t k = first; k <= total; k += step) { execute(c, s, seed, mode, k); covered++; } }
    };
    sweep(SINGLE, n, limit);
    if(n > limit) c.count("scenarios_sampled"); else c.count("scenarios_enumerated");
    sweep(STICKY, n, limit / 6);
    sweep(NOFILE, calls, limit / 10);
    sweep(FSIZE, calls, limit / 10);
    for(int i = 0; i < 10; i++) { execute(c, s, seed, RANDOM, r.below(1000)); }
    c.count("faults_thrown", threwCount - t0); c.count("faults_absorbed", absorbedCount - a0);
    for(int k = 0; k < KINDS; k++) { std::string nm = std::string("injected_") + kindName[k]; std::replace(nm.begin(), nm.end(), ' ', '_'); c.counters[nm] = inj.perKind[k]; }
    c.counters["library_calls_under_injection"] = callCount;
    if(n > 5 && threwCount > t0) c.nontrivial(mix(seed));
    if(c.caseNo < 14) c.sample(fmt("%s scenario %llu: %llu fault points in %llu calls, %llu runs with a fault, %llu calls threw, %llu got on without", s.name, (unsigned long long)seed, (unsigned long long)n, (unsigned long long)calls, (unsigned long long)covered, (unsigned long long)(threwCount - t0), (unsigned long long)(absorbedCount - a0)));
}
int main(int argc, char **argv) { return runDriver(argc, argv, "faults", oneCase); }
