/* C17: random walks over the public interface; the sanitizers, valgrind and the process status judge. */
#include "session.hh"
using namespace vp;

static void oneCase(Ctx &c) {
    NullSink sink;
    Session s(c.rng.next(), sink);
    int steps = (int)c.opt("steps", 0);
    if(!steps) steps = c.rng.chance(10) ? c.rng.range(400, 1200) : c.rng.range(30, 250);
    for(int i = 0; i < steps; i++) s.step();
    for(auto &d : s.done) c.counters["op-" + d.first] += d.second;
    c.count("operations", steps);
    c.count("observations", sink.n);
    c.count("exceptions", s.exceptions);
    if(s.exceptions && s.done.size() > 10) c.nontrivial(s.hashv);
    if(c.caseNo < 2) c.sample(fmt("case %llu: %d steps, %llu exceptions, %zu kinds of operation, alphabet %s", (unsigned long long)c.caseNo, steps, (unsigned long long)s.exceptions, s.done.size(), show(toLetters(s.alpha)).c_str()));
}
int main(int argc, char **argv) { return runDriver(argc, argv, "fuzz", oneCase); }
