/* C13: MatchResults against a list model. */
#include "common.hh"
#include "MatchResults.hh"
#include "ColumbusCore.hh"
#include <memory>
#include <limits>
#include <cmath>
using namespace vp;
using namespace Columbus;

typedef std::vector<std::pair<double, uintptr_t>> List;
static List ranked(List l) { std::stable_sort(l.begin(), l.end(), [](const std::pair<double, uintptr_t> &a, const std::pair<double, uintptr_t> &b) { return a.first > b.first; }); return l; }
struct Slot { std::unique_ptr<MatchResults> m; List l; bool moved = false; };

static void oneCase(Ctx &c) {
    Rng &r = c.rng;
    std::vector<Slot> s(r.range(2, 5));
    for(auto &x : s) x.m.reset(new MatchResults);
    static const double vals[] = {0, -0.0, 1, 1, 2, 2, 0.5, -1, 100, 1e-300, 5e-324, 1e300, 3, 3, 3};
    int ops = r.range(5, 80);
    uintptr_t serial = 1;
    uint64_t h = 1;
    uint64_t ties = 0, copies = 0;
    std::string trail;
    auto rel = [&]() { int k = r.range(0, 19); if(k == 0) return std::numeric_limits<double>::infinity(); if(k == 1) return -std::numeric_limits<double>::infinity(); if(k < 8) return r.unit() * 10; return vals[r.below(15)]; };
    auto verify = [&](Slot &x, const char *what) {
        if(!x.m || x.moved) return;
        if(x.m->size() != x.l.size()) fail("size", "%s: size %zu instead of %zu; history:%s", what, x.m->size(), x.l.size(), trail.c_str());
        List want = ranked(x.l);
        for(size_t i = 0; i < want.size(); i++) {
            uintptr_t id = x.m->getDocumentID(i);
            double v = x.m->getRelevancy(i);
            if(id != want[i].second || !(v == want[i].first)) fail("position", "%s: position %zu shows (%llu, %.17g) instead of (%llu, %.17g); history:%s", what, i, (unsigned long long)id, v, (unsigned long long)want[i].second, want[i].first, trail.c_str());
            if(i && want[i].first == want[i-1].first) ties++;
        }
        c.count("positions_read", want.size());
    };
    for(int o = 0; o < ops; o++) {
        size_t i = r.below(s.size()), j = r.below(s.size());
        Slot &a = s[i], &b = s[j];
        int op = r.range(0, 19);
        bool aOk = a.m && !a.moved, bOk = b.m && !b.moved;
        if(!aOk && op < 12) op = 12 + (int)r.below(4);
        trail += fmt(" %d:%zu,%zu", op, i, j);
        h = mix(h ^ (op * 97 + i * 11 + j));
        c.count("operations");
        if(op < 5) { int n = r.chance(10) ? r.range(20, 60) : r.range(1, 4); for(int k = 0; k < n; k++) { double v = rel(); uintptr_t id = r.chance(80) ? serial++ : r.chance(50) ? r.below(3) : (uintptr_t)r.next(); a.m->addResult(id, v); a.l.push_back({v, id}); } }
        else if(op < 7) { if(bOk) { List add = b.l; a.m->addResults(*b.m); a.l.insert(a.l.end(), add.begin(), add.end()); c.count("bulk_adds"); if(i == j) c.count("self_adds"); } }
        else if(op < 9) {
            if(bOk && !b.l.empty()) {
                size_t k = r.below(b.l.size());
                auto x = ranked(b.l)[k];
                a.m->copyResult(*b.m, k);
                a.l.push_back(x);
                copies++;
                trail += fmt("[%zu]", k);
            }
            if(bOk) {
                bool threw = false;
                try { a.m->copyResult(*b.m, b.l.size() + r.below(3)); } catch(const std::out_of_range &) { threw = true; }
                if(!threw) fail("range", "copyResult past the end did not throw");
            }
        } else if(op == 9) { verify(a, "read"); }
        else if(op == 10) { // read one position only
            if(!a.l.empty()) { size_t k = r.below(a.l.size()); auto w = ranked(a.l)[k]; if(a.m->getDocumentID(k) != w.second || !(a.m->getRelevancy(k) == w.first)) fail("position", "single read of position %zu is wrong; history:%s", k, trail.c_str()); }
        } else if(op == 11) {
            size_t k = a.l.size() + (r.chance(50) ? 0 : r.next() % 1000);
            if(r.chance(10)) k = (size_t)-1;
            int threw = 0;
            try { a.m->getDocumentID(k); } catch(const std::out_of_range &) { threw++; }
            try { a.m->getRelevancy(k); } catch(const std::out_of_range &) { threw++; }
            if(threw != 2) fail("range", "reading position %zu of %zu did not throw", k, a.l.size());
        } else if(op == 12) { if(bOk && i != j) { a.m.reset(new MatchResults(*b.m)); a.l = b.l; a.moved = false; c.count("copies"); } }
        else if(op == 13) { if(bOk && i != j) { a.m.reset(new MatchResults(std::move(*b.m))); a.l = b.l; a.moved = false; b.moved = true; c.count("moves"); } }
        else if(op == 14) { if(bOk && a.m) { if(a.moved) c.count("assigned_to_moved_from"); *a.m = *b.m; if(i != j) { a.l = b.l; a.moved = false; } c.count("assignments"); } }
        else if(op == 15) { if(bOk && a.m && i != j) { *a.m = std::move(*b.m); a.l = b.l; a.moved = false; b.moved = true; c.count("move_assignments"); } }
        else if(op == 16) { a.m.reset(); a.l.clear(); a.moved = false; a.m.reset(new MatchResults); }
        else if(op == 17) { if(aOk) { MatchResults &self = *a.m; self = self; } }
        else if(op == 18) { if(aOk && bOk && i != j) { std::swap(*a.m, *b.m); std::swap(a.l, b.l); } }
        else if(aOk && a.m->size() != a.l.size()) fail("size", "size %zu instead of %zu; history:%s", a.m->size(), a.l.size(), trail.c_str());
        if(r.chance(15)) verify(a, "interleaved");
    }
    for(auto &x : s) verify(x, "final");
    c.count("ties_seen", ties);
    c.count("single_copies", copies);
    if(copies && ties) { c.nontrivial(h); if(c.caseNo < 40) c.sample(fmt("%d operations over %zu objects:%s", ops, s.size(), trail.substr(0, 300).c_str())); }
}
int main(int argc, char **argv) { return runDriver(argc, argv, "results", oneCase); }
