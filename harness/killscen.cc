/* C18: a deterministic scenario to be killed at every system call. Prints START first. */
#include "session.hh"
using namespace vp;
int main(int argc, char **argv) {
    uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
    if(write(1, "START\n", 6) < 0) {}
    NullSink sink;
    {
        // one matcher with enough text to grow its stores
        Rng r(seed);
        Matcher m;
        Corpus c;
        for(int i = 0; i < 12; i++) {
            Document d(i);
            std::string t;
            for(int k = 0; k < 40; k++) { for(int l = r.range(2, 9); l; l--) t += (char)('a' + r.below(26)); t += ' '; }
            d.addText(Word("title"), t);
            c.addDocument(d);
        }
        m.index(c);
        m.match("abc defg");
        try { m.match("\xff"); } catch(const std::exception &) { }
        WordStore s;
        for(int i = 0; i < 300; i++) { std::string t; for(int l = r.range(2, 12); l; l--) t += (char)('a' + r.below(26)); s.getID(Word(t)); }
    }
    {
        Session s(seed, sink);
        s.alpha = toLetters(Cps{'a', 'b', 'c', 0xe4});
        for(int i = 0; i < 60; i++) s.step();
    }
    if(write(1, "END\n", 4) < 0) {}
    return 0;
}
