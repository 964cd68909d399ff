/* Shared driver frame: seeded cases, verdict lines, observation counters. */
#ifndef VP_COMMON_HH
#define VP_COMMON_HH
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <stdexcept>
#include <sstream>
#include <algorithm>
#include <functional>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace vp {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); } // inclusive
    bool chance(int percent) { return (int)below(100) < percent; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template<class C> auto pick(C &c) -> decltype(c[0]) { return c[below(c.size())]; }
    template<class T> void shuffle(std::vector<T> &v) {
        for(size_t i = v.size(); i > 1; i--) std::swap(v[i-1], v[below(i)]);
    }
};

inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *b = (const unsigned char*)p;
    for(size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
    return mix(h);
}
inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), h); }

struct Violation { std::string key, msg; };

inline std::string vfmt(const char *f, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }

[[noreturn]] inline void fail(const std::string &key, const char *f, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] inline void fail(const std::string &key, const char *f, ...) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    throw Violation{key, s};
}

inline std::string jsonEsc(const std::string &s) {
    std::string o;
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if(c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

struct Ctx {
    Rng rng{1};
    uint64_t seed = 1, caseNo = 0;
    bool verbose = false, thorough = false;
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> seen;
    std::vector<std::string> samples;
    std::map<std::string, std::string> opts;

    void count(const char *name, uint64_t n = 1) { counters[name] += n; }
    void maxi(const char *name, uint64_t n) { uint64_t &v = counters[name]; if(n > v) v = n; }
    void nontrivial(uint64_t h) { seen.insert(h); }
    void sample(const std::string &s) { if(samples.size() < 3) samples.push_back(s); }
    void log(const char *f, ...) __attribute__((format(printf, 2, 3))) {
        if(!verbose) return;
        va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
        printf("@LOG %s\n", s.c_str()); fflush(stdout);
    }
    uint64_t opt(const char *name, uint64_t def) const {
        auto it = opts.find(name);
        return it == opts.end() ? def : strtoull(it->second.c_str(), nullptr, 10);
    }
};

typedef std::function<void(Ctx&)> CaseFn;

/* Options: --seed S --first I --count N --progress FILE --hashes FILE --verbose --thorough --opt k=v */
inline int runDriver(int argc, char **argv, const char *name, const CaseFn &fn) {
    uint64_t seed = 1, first = 0, count = 1;
    const char *progress = nullptr, *hashes = nullptr;
    Ctx c;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if(a == "--verbose") c.verbose = true;
        else if(a == "--thorough") c.thorough = true;
        else if(i + 1 < argc) {
            std::string v = argv[++i];
            if(a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
            else if(a == "--first") first = strtoull(v.c_str(), nullptr, 10);
            else if(a == "--count") count = strtoull(v.c_str(), nullptr, 10);
            else if(a == "--progress") progress = argv[i];
            else if(a == "--hashes") hashes = argv[i];
            else if(a == "--opt") { size_t e = v.find('='); c.opts[v.substr(0, e)] = e == std::string::npos ? "1" : v.substr(e + 1); }
        }
    }
    volatile uint64_t *prog = nullptr;
    if(progress) {
        int fd = open(progress, O_RDWR | O_CREAT, 0600);
        if(fd >= 0 && ftruncate(fd, 16) == 0)
            prog = (volatile uint64_t*)mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if(fd >= 0) close(fd);
        if(prog == MAP_FAILED) prog = nullptr;
    }
    int violations = 0;
    uint64_t done = 0;
    c.seed = seed;
    for(uint64_t i = first; i < first + count; i++) {
        if(prog) { prog[0] = i; prog[1] = 1; }
        c.caseNo = i;
        c.rng = Rng(seed * 0x100000001b3ull ^ mix(i) ^ hashStr(name));
        std::string key, msg;
        try {
            fn(c);
        } catch(const Violation &v) {
            key = v.key; msg = v.msg;
        } catch(const std::exception &e) {
            key = "unexpected-exception"; msg = std::string("unexpected exception: ") + e.what();
        }
        done++;
        if(!key.empty()) {
            printf("@VIOL {\"key\":\"%s\",\"case\":%llu,\"msg\":\"%s\"}\n", jsonEsc(key).c_str(), (unsigned long long)i, jsonEsc(msg).c_str());
            fflush(stdout);
            if(++violations >= 5) break;
        }
    }
    if(prog) prog[1] = 2;
    if(hashes) {
        FILE *f = fopen(hashes, "wb");
        if(f) { for(uint64_t h : c.seen) fwrite(&h, 8, 1, f); fclose(f); }
    }
    for(auto &s : c.samples) printf("@SAMPLE \"%s\"\n", jsonEsc(s).c_str());
    printf("@STATS {\"cases\":%llu", (unsigned long long)done);
    for(auto &k : c.counters) printf(",\"%s\":%llu", k.first.c_str(), (unsigned long long)k.second);
    printf("}\n");
    fflush(stdout);
    return 0;
}

} // namespace vp
#endif
