/* C21: writes everything a portable session observes to a log, to be compared with the log of another build. */
#include "session.hh"
#include <locale>
#include <clocale>
#include <malloc.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace vp;
struct Log : Sink {
    FILE *f;
    uint64_t n = 0;
    void put(char k, const char *w, uint64_t v) { uint32_t h = (uint32_t)hashStr(w); fputc(k, f); fwrite(&h, 4, 1, f); fwrite(&v, 8, 1, f); n++; }
    void num(const char *w, uint64_t v) override { put('n', w, v); }
    void real(const char *w, double d) override { uint64_t v; memcpy(&v, &d, 8); put('r', w, v); }
};
static Log *logger;
/* Other surroundings: locale of C and C++, working directory, umask, temporary directory, what fresh memory holds. */
struct Punct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "0"; }
    std::string do_falsename() const override { return "1"; }
};
static void surroundings(const char *kind) {
    int k = atoi(kind);
    const char *loc = getenv("VP_LOCALE");
    std::locale base = std::locale::classic();
    bool named = false;
    for(const char *n : {loc ? loc : "C.UTF-8", "C.UTF-8", "C.utf8"})
        if(!named && setlocale(LC_ALL, n)) { named = true; try { base = std::locale(n); } catch(std::exception &) {} }
    std::locale::global(std::locale(base, new Punct));
    if(named && !base.name().empty()) setlocale(LC_ALL, base.name() == "*" ? loc : base.name().c_str());
    const char *dir = getenv("COLUMBUS_DATADIR");
    if(dir && dir[0] == '/') {
        std::string d(dir);
        while(d.size() > 1 && d.back() == '/') d.pop_back();
        size_t cut = d.rfind('/');
        if(cut > 0 && chdir(d.substr(0, cut).c_str()) == 0) setenv("COLUMBUS_DATADIR", (d.substr(cut + 1) + (k % 2 ? "/" : "")).c_str(), 1);
    }
    umask(0777);
    setenv("TMPDIR", "/nonexistent/vp", 1);
    setenv("TZ", "Asia/Kolkata", 1);
    mallopt(M_PERTURB, 0x40 + k * 37 % 191);
}
static __attribute__((noinline)) void dirtyStack(unsigned char v) {
    volatile unsigned char a[65536];
    for(size_t i = 0; i < sizeof a; i++) a[i] = v;
}
static void oneCase(Ctx &c) {
    logger->put('C', "case", c.caseNo);
    if(getenv("VP_SURROUNDINGS")) { dirtyStack(0xa5); c.count("cases_in_other_surroundings"); if(tolower('I') != 'i') c.count("cases_with_other_case_rules"); if(localeconv()->decimal_point[0] == ',') c.count("cases_with_other_numbers"); }
    uint64_t n0 = logger->n;
    Session s(c.rng.next(), *logger, Session::PORTABLE);
    int steps = c.rng.chance(10) ? c.rng.range(400, 1000) : c.rng.range(30, 250);
    for(int i = 0; i < steps; i++) s.step();
    for(auto &d : s.done) c.counters["op-" + d.first] += d.second;
    c.count("observations", logger->n - n0);
    c.count("exceptions", s.exceptions);
    if(s.done.count("nonempty-results") || s.done.count("nonempty-searches")) c.nontrivial(s.hashv);
    if(c.caseNo < 2) c.sample(fmt("case %llu: %d steps, %llu observations logged", (unsigned long long)c.caseNo, steps, (unsigned long long)(logger->n - n0)));
}
int main(int argc, char **argv) {
    const char *dir = getenv("VP_LOG");
    std::string first = "0";
    for(int i = 1; i + 1 < argc; i++) if(!strcmp(argv[i], "--first")) first = argv[i + 1];
    Log l;
    l.f = fopen(dir ? (std::string(dir) + "/" + first + ".log").c_str() : "/dev/null", "wb");
    if(!l.f) return 3;
    setvbuf(l.f, nullptr, _IOFBF, 1 << 20);
    logger = &l;
    if(const char *k = getenv("VP_SURROUNDINGS")) surroundings(k);
    int rc = runDriver(argc, argv, "portable", oneCase);
    fclose(l.f);
    return rc;
}
