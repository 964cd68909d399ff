/* C24: the command line search tool, run as a user runs it, against the reference distance. */
#include "model.hh"
#include <thread>
#include <spawn.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
using namespace vp;
using namespace Columbus;
extern char **environ;

struct Run { std::string out, err; int status; };
static Run run(const std::vector<std::string> &args) {
    int o[2], e[2];
    if(pipe(o) || pipe(e)) throw std::runtime_error("pipe");
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_adddup2(&fa, o[1], 1);
    posix_spawn_file_actions_adddup2(&fa, e[1], 2);
    for(int fd : {o[0], o[1], e[0], e[1]}) posix_spawn_file_actions_addclose(&fa, fd);
    std::vector<char*> av;
    for(auto &a : args) av.push_back(const_cast<char*>(a.c_str()));
    av.push_back(nullptr);
    pid_t pid;
    int rc = posix_spawn(&pid, av[0], &fa, nullptr, av.data(), environ);
    posix_spawn_file_actions_destroy(&fa);
    close(o[1]); close(e[1]);
    if(rc) throw std::runtime_error("spawn failed");
    Run r;
    std::thread t([&] { char b[4096]; ssize_t k; while((k = read(e[0], b, sizeof b)) > 0) r.err.append(b, k); });
    char b[4096]; ssize_t k;
    while((k = read(o[0], b, sizeof b)) > 0) r.out.append(b, k);
    t.join();
    close(o[0]); close(e[0]);
    waitpid(pid, &r.status, 0);
    return r;
}
static std::string badText(Rng &r, const Cps &alpha) {
    static const char *bad[] = {"\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xc0\x80", " ", "\t", "\r"};
    std::string s = toUtf8(randWord(r, alpha, 1, 4)), t = toUtf8(randWord(r, alpha, 1, 4));
    return s + bad[r.below(8)] + (r.chance(50) ? t : "");
}
static void oneCase(Ctx &c) {
    Rng &r = c.rng;
    const char *tool = getenv("VP_TOOL");
    if(!tool) throw std::runtime_error("VP_TOOL is not set");
    Cps alpha = caseAlphabet(r);
    if(r.chance(20)) for(uint32_t x : Cps{'A', 'Z', 0xc5, 0x391, 0x410}) alpha.push_back(x);
    std::string data;
    std::vector<Letters> words;
    bool malformed = false;
    std::vector<Cps> made;
    bool many = r.chance(8);   // most words within the limit
    int n = many ? r.range(200, c.thorough ? 6000 : 1500) : r.chance(5) ? 0 : r.chance(10) ? r.range(100, 1500) : r.range(1, 40);
    for(int i = 0; i < n; i++) {
        std::string line;
        int k = r.range(0, 99);
        if(many) { Cps w; int v = r.chance(50) ? i : (int)r.below(5000); do w.push_back('0' + v % 10); while(v /= 10); line = toUtf8(w); made.push_back(w); }
        else if(k < 4) line.clear();
        else if(k < 5) { line = badText(r, alpha); malformed = true; }
        else if(k < 7) {   // around and beyond the sizes of usual buffers
            static const int sizes[] = {250, 254, 255, 256, 257, 510, 511, 512, 1020, 1021, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 5000};
            Cps w; int want = sizes[r.below(20)];
            while((int)toUtf8(w).size() < want) w.push_back(w.size() < 40 || r.chance(5) ? alpha[r.below(alpha.size())] : 'a');
            line = toUtf8(w);
            made.push_back(w);
        } else {
            Cps w = !made.empty() && r.chance(50) ? mutate(r, made[r.below(made.size())], alpha, r.range(0, 2)) : randWord(r, alpha, 1, 9);
            line = toUtf8(w);
            made.push_back(w);
        }
        data += line;
        if(i + 1 < n || !r.chance(40)) data += '\n'; else c.count("no_final_newline");
        if(!malformed) words.push_back(lettersOf(Word(line)));
    }
    if(n && !malformed && r.chance(3)) { data += "\n\n\n"; }
    std::string query;
    bool badQuery = r.chance(4);
    if(badQuery) query = badText(r, alpha);
    else if(r.chance(3)) query = "";
    else if(!made.empty() && r.chance(85)) query = toUtf8(mutate(r, made[r.below(made.size())], alpha, r.range(0, 3)));
    else query = toUtf8(randWord(r, alpha, 1, 9));
    int limit = many && r.chance(70) ? r.range(3, 6) * 100 : r.chance(60) ? r.range(0, 4) * 100 : r.range(-50, 450);
    char name[] = "words-XXXXXX";
    int fd = mkstemp(name);
    if(fd < 0) throw std::runtime_error("mkstemp");
    if(write(fd, data.data(), data.size()) != (ssize_t)data.size()) throw std::runtime_error("write");
    close(fd);
    struct Rm { const char *n; ~Rm() { unlink(n); } } rm{name};
    int special = r.range(0, 99);
    if(special < 2) {   // a file that is not there must be reported, not taken for an empty one
        Run x = run({tool, std::string(name) + (special ? "-missing" : "/x"), query, std::to_string(limit)});
        if(WIFSIGNALED(x.status)) fail("tool-crash", "ended by signal %d for a missing file: %s", WTERMSIG(x.status), x.err.substr(0, 500).c_str());
        if(!WEXITSTATUS(x.status)) fail("tool-missing-file", "exit status 0 for a missing file, output %s", showBytes(x.out).c_str());
        c.count("missing_files");
        return;
    }
    Run x = run({tool, name, query, std::to_string(limit)});
    std::string where = fmt("%zu words, query %s, limit %d", words.size(), showBytes(query).c_str(), limit);
    if(WIFSIGNALED(x.status)) fail("tool-crash", "ended by signal %d (%s): %s", WTERMSIG(x.status), where.c_str(), x.err.substr(0, 800).c_str());
    int rc = WEXITSTATUS(x.status);
    if(x.err.find("ERROR: ") != std::string::npos || x.err.find("runtime error: ") != std::string::npos) fail("tool-sanitizer", "%s: %s", where.c_str(), x.err.substr(0, 800).c_str());
    if(malformed || badQuery) {
        c.count("malformed");
        if(!rc) fail("tool-malformed", "exit status 0 although the %s is malformed (%s), output %s", badQuery ? "query" : "file", where.c_str(), showBytes(x.out.substr(0, 300)).c_str());
        return;
    }
    if(rc) fail("tool-status", "exit status %d (%s), output %s", rc, where.c_str(), showBytes((x.out + x.err).substr(0, 300)).c_str());
    Letters q = lettersOf(Word(query));
    std::map<Letters, long> want;
    Costs costs;
    for(auto &w : words) if(!w.empty() && !want.count(w)) {
        if(w.size() > q.size() && (long)(w.size() - q.size()) * 100 > limit) continue;   // at least that many letters are missing
        if(q.size() > w.size() && (long)(q.size() - w.size()) * 100 > limit) continue;
        long d = refDistance(q, w, costs);
        if(d <= limit) want[w] = d;
    }
    std::map<Letters, long> got;
    long last = -1;
    size_t at = 0;
    if(x.out == "No matches.\n") { if(!want.empty()) fail("tool-lost", "No matches, but %s is at %ld (%s)", show(want.begin()->first).c_str(), want.begin()->second, where.c_str()); c.count("no_matches"); at = x.out.size(); }
    else if(x.out.empty()) fail("tool-output", "no output (%s)", where.c_str());
    while(at < x.out.size()) {
        size_t e = x.out.find('\n', at);
        if(e == std::string::npos) fail("tool-output", "last line is not ended (%s)", where.c_str());
        std::string line = x.out.substr(at, e - at);
        at = e + 1;
        size_t sp = line.rfind(' ');
        char *end = nullptr;
        long d = sp == std::string::npos ? 0 : strtol(line.c_str() + sp + 1, &end, 10);
        Cps cps;
        if(sp == std::string::npos || sp == 0 || *end || end == line.c_str() + sp + 1 || !fromUtf8(line.substr(0, sp), cps)) fail("tool-output", "strange line %s (%s)", showBytes(line).c_str(), where.c_str());
        Letters w = toLetters(cps);
        auto it = want.find(w);
        if(it == want.end()) fail("tool-extra", "%s printed with error %ld, is not in the file or beyond the limit (%s)", show(w).c_str(), d, where.c_str());
        if(it->second != d) fail("tool-error", "%s printed with error %ld instead of %ld (%s)", show(w).c_str(), d, it->second, where.c_str());
        if(!got.emplace(w, d).second) fail("tool-twice", "%s printed twice (%s)", show(w).c_str(), where.c_str());
        if(d < last) fail("tool-order", "error %ld after %ld (%s)", d, last, where.c_str());
        last = d;
        c.count("lines_checked");
    }
    if(got.size() != want.size())
        for(auto &w : want) if(!got.count(w.first)) fail("tool-lost", "%s at %ld is not printed (%s)", show(w.first).c_str(), w.second, where.c_str());
    c.maxi("max_lines", got.size());
    if(!got.empty()) c.nontrivial(hashStr(data) ^ mix(hashStr(query) + limit));
    if(c.caseNo < 2) c.sample(fmt("case %llu: %s: %zu lines", (unsigned long long)c.caseNo, where.c_str(), got.size()));
}
int main(int argc, char **argv) { return runDriver(argc, argv, "tool", oneCase); }
