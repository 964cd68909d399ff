/* C18: the same session three times; heap bytes, descriptors and mappings must come back to where they were. */
#include "session.hh"
#include <dirent.h>
#include <sys/mman.h>
#include <fstream>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
#endif
using namespace vp;

/* Live pages mapped by the library (linked with --wrap). */
static std::set<uintptr_t> livePages;
static uint64_t mapped, unmapped;
extern "C" {
void *__real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
void *__real_mmap64(void*, size_t, int, int, int, off_t);
static void addPages(void *p, size_t n) { if(p == MAP_FAILED) return; mapped++; for(size_t i = 0; i < n; i += 4096) livePages.insert((uintptr_t)p + i); }
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { void *p = __real_mmap(a, n, pr, fl, fd, o); addPages(p, n); return p; }
void *__wrap_mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { void *p = __real_mmap64(a, n, pr, fl, fd, o); addPages(p, n); return p; }
int __wrap_munmap(void *p, size_t n) { int rc = __real_munmap(p, n); if(rc == 0) { unmapped++; for(size_t i = 0; i < n; i += 4096) livePages.erase((uintptr_t)p + i); } return rc; }
}

struct Res { size_t bytes, fds, deleted, pages; };
static Res measure() {
    Res r{};
    DIR *d = opendir("/proc/self/fd");
    while(readdir(d)) r.fds++;
    closedir(d);
    // mappings of files that do not belong to the program: deleted or in a temporary directory
    int fd = open("/proc/self/maps", O_RDONLY);
    std::string s; char buf[65536]; ssize_t k;
    while((k = read(fd, buf, sizeof buf)) > 0) s.append(buf, k);
    close(fd);
    for(size_t p = 0; (p = s.find("(deleted)", p)) != std::string::npos; p++) r.deleted++;
    for(size_t p = 0; (p = s.find(" /memfd:", p)) != std::string::npos; p++) r.deleted++;
    r.pages = livePages.size();
    s.clear(); s.shrink_to_fit();
#ifdef VP_ASAN
    r.bytes = __sanitizer_get_current_allocated_bytes();
#endif
    return r;
}
static void onePass(uint64_t seed, int steps, uint64_t &exc, uint64_t &h, uint64_t &peak) {
    NullSink sink;
    Session s(seed, sink);
    for(int i = 0; i < steps; i++) { s.step(); if(livePages.size() > peak) peak = livePages.size(); }
    exc = s.exceptions; h = s.hashv;
}
static void oneCase(Ctx &c) {
    uint64_t seed = c.rng.next();
    int steps = c.rng.chance(10) ? c.rng.range(300, 800) : c.rng.range(10, 150);
    uint64_t exc = 0, h = 0, peak = 0;
    if(c.counters["mappings_made"] == 0) livePages.clear();   // the progress file of this driver
    onePass(seed, steps, exc, h, peak);    // warm-up: converter tables, stdio
    Res a = measure();
    a = measure();
    onePass(seed, steps, exc, h, peak);
    Res b = measure();
    onePass(seed, steps, exc, h, peak);
    Res d = measure();
    c.count("passes", 3); c.count("exceptions", exc); c.counters["mappings_made"] = mapped; c.counters["mappings_removed"] = unmapped;
    c.maxi("max_pages_mapped", peak); c.count("steps", 3 * steps);
    if(peak && exc) c.nontrivial(h);
    // the sanitizer's background thread opens a file now and then
    for(int i = 0; i < 40 && d.fds > b.fds && b.fds > a.fds; i++) { usleep(5000); d.fds = std::min(d.fds, measure().fds); }
    auto grows = [&](const char *what, size_t x, size_t y, size_t z) {
        if(y > x && z > y) fail(std::string("leak-") + what, "%s grows with every run of session %llu (%d steps): %zu, %zu, %zu", what, (unsigned long long)seed, steps, x, y, z);
    };
    grows("heap bytes", a.bytes, b.bytes, d.bytes);
    grows("descriptors", a.fds, b.fds, d.fds);
    grows("deleted-file mappings", a.deleted, b.deleted, d.deleted);
    grows("mapped pages", a.pages, b.pages, d.pages);
    if(d.pages) fail("leak-mapped pages", "%zu pages mapped by the library are still mapped after session %llu", d.pages, (unsigned long long)seed);
    if(c.caseNo < 2) c.sample(fmt("case %llu: %d steps three times, %llu exceptions, up to %llu pages mapped; heap %zu/%zu/%zu bytes, descriptors %zu/%zu/%zu", (unsigned long long)c.caseNo, steps, (unsigned long long)exc, (unsigned long long)peak, a.bytes, b.bytes, d.bytes, a.fds, b.fds, d.fds));
}
int main(int argc, char **argv) { return runDriver(argc, argv, "leaks", oneCase); }
