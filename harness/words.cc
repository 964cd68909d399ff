/* C06 (mode=6), C07 (mode=7), C08 (mode=8): words, their value semantics and splitting. */
#include "text.hh"
#include "ColumbusHelpers.hh"
#include "Document.hh"
#include <unicode/uchar.h>
#include <memory>
#include <new>
using namespace vp;
using namespace Columbus;

static bool isWs(uint32_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static Cps lowered(Cps c) { for(auto &x : c) x = u_tolower(x); return c; }

static uint32_t anyCp(Rng &r) {
    for(;;) {
        uint32_t c;
        switch(r.range(0, 9)) {
        case 0: case 1: case 2: c = r.range(1, 0x7e); break;
        case 3: c = r.range(0x80, 0x24f); break;
        case 4: c = r.range(0x370, 0x58f); break;
        case 5: c = r.range(0x700, 0x900); break;
        case 6: c = r.range(0x1, 0xffff); break;
        case 7: { static const uint32_t b[] = {0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0x10fffe, 0x10ffff, 0x130, 0x131, 0x1e9e, 0xdf, 0x2126, 0x212a, 0x3f4, 0xe0001, 0xe0041, 0x85, 0xa0, 0x2028, 0x3000, 0xb, 0xc}; c = b[r.below(28)]; break; }
        case 8: c = r.range(0x10000, 0x10ffff); break;
        default: { static const uint32_t b[] = {0x10400, 0x104b0, 0x10c80, 0x118a0, 0x16e40, 0x1e900}; c = b[r.below(6)] + (uint32_t)r.below(0x40); break; }
        }
        if(c >= 0xd800 && c < 0xe000) continue;
        if(isWs(c)) continue;
        return c;
    }
}
static Cps anyText(Rng &r, int maxLen) {
    Cps c;
    int n = r.range(0, maxLen);
    bool ascii = r.chance(20);
    for(int i = 0; i < n; i++) c.push_back(ascii ? (uint32_t)r.range(0x21, 0x7e) : anyCp(r));
    return c;
}
static void damage(Rng &r, std::string &s) {
    static const char *bad[] = {"\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xed\xa0\x81\xed\xb0\x80", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80",
        "\xf8\x88\x80\x80\x80", "\xfc\x84\x80\x80\x80\x80", "\xfe", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xc3\x28", "\xe2\x28\xa1", " ", "\t", "\n", "\r"};
    int k = r.range(0, 9);
    if(k < 7) s.insert(r.below(s.size() + 1), bad[r.below(sizeof bad / sizeof bad[0])]);
    else if(k == 7 && !s.empty()) s.resize(r.below(s.size()));
    else if(k == 8 && !s.empty()) s.erase(r.below(s.size()), 1);
    else if(!s.empty()) { size_t i = r.below(s.size()); s[i] = (char)r.range(1, 255); }
}

/* Renders into buffers of every interesting size. */
static void renderings(Ctx &c, const Word &w, const std::string &text) {
    size_t need = text.size() + 1;
    size_t sizes[] = {0, 1, 2, text.size() / 2, need > 2 ? need - 2 : 0, need - 1, need, need + 1, need + 7, 4 * need};
    for(size_t sz : sizes) {
        std::vector<char> guard(sz + 64, '\x5a'); // catches overruns in builds without red zones
        char *exact = (char*)malloc(sz ? sz : 1);
        memset(exact, '\x5a', sz ? sz : 1);
        bool ok = true, ok2 = true;
        try { w.toUtf8(exact, (unsigned)sz); } catch(const std::exception &) { ok = false; }
        try { w.toUtf8(guard.data() + 32, (unsigned)sz); } catch(const std::exception &) { ok2 = false; }
        c.count("buffer_renderings");
        std::string verdict;
        if(ok != ok2) verdict = "two renderings disagree";
        else if(ok != (sz >= need)) verdict = ok ? "did not fail although text and terminator do not fit" : "failed although everything fits";
        for(size_t i = 0; i < 32; i++) if(guard[i] != '\x5a' || guard[32 + sz + i] != '\x5a') verdict = "wrote outside the buffer";
        if(sz && !memchr(exact, 0, sz)) verdict = "left the buffer without terminator";
        if(ok && verdict.empty() && text != exact) verdict = "rendered \"" + showBytes(exact) + "\"";
        free(exact);
        if(!ok) c.count("refused_renderings");
        if(!verdict.empty()) fail("rendering", "toUtf8 of \"%s\" (%zu bytes) into %zu bytes: %s", showBytes(text).c_str(), text.size(), sz, verdict.c_str());
    }
}
static void checkWord(Ctx &c, const Word &w, const Letters &l, const std::string &text, const char *how) {
    if(w.length() != l.size()) fail("length", "%s of \"%s\": length %u instead of %zu", how, showBytes(text).c_str(), w.length(), l.size());
    Letters got = lettersOf(w);
    if(got != l) fail("letters", "%s of \"%s\": letters %s instead of %s", how, showBytes(text).c_str(), show(got).c_str(), show(l).c_str());
    std::string u = w.asUtf8();
    if(u != text) fail("as-utf8", "%s: rendering \"%s\" instead of \"%s\"", how, showBytes(u).c_str(), showBytes(text).c_str());
}
static void expectFromBytes(Ctx &c, const std::string &bytes, bool buffers) {
    Cps cps;
    bool valid = fromUtf8(bytes, cps), ws = false;
    for(uint32_t x : cps) ws |= isWs(x);
    bool want = valid && !ws;
    bool ok = true;
    std::unique_ptr<Word> w;
    try { w.reset(new Word(bytes.c_str())); } catch(const std::exception &) { ok = false; }
    bool ok2 = true;
    std::unique_ptr<Word> w2;
    try { w2.reset(new Word(bytes)); } catch(const std::exception &) { ok2 = false; }
    Word w3("x");
    bool ok3 = true;
    try { w3 = bytes.c_str(); } catch(const std::exception &) { ok3 = false; }
    c.count(want ? "accepted" : valid ? "whitespace_rejected" : "malformed_rejected");
    if(ok != want || ok2 != want || ok3 != want) fail(want ? "rejected-valid" : "accepted-invalid", "\"%s\" is %s but was %s (char*, string, assignment: %d %d %d)", showBytes(bytes).c_str(), want ? "valid" : valid ? "text with whitespace" : "malformed", want ? "rejected" : "accepted", ok, ok2, ok3);
    if(!ok) return;
    Cps low = lowered(cps);
    Letters l = toLetters(low);
    std::string text = toUtf8(low);
    checkWord(c, *w, l, text, "Word(char*)");
    checkWord(c, *w2, l, text, "Word(string)");
    checkWord(c, w3, l, text, "assignment");
    if(low != cps) c.count("lower_cased");
    Word again(w->asUtf8());
    if(!(again == *w)) fail("round-trip", "word made from the rendering of \"%s\" differs", showBytes(text).c_str());
    if(buffers) renderings(c, *w, text);
}
static void expectFromLetters(Ctx &c, const Letters &l, bool terminated) {
    bool want = true;
    for(size_t i = 0; i < l.size(); i++) {
        uint32_t x = l[i];
        if(x == 0 || isWs(x)) want = false;
        if(sizeof(Letter) == 2 && x >= 0xd800 && x < 0xe000) {
            if(x < 0xdc00 && i + 1 < l.size() && l[i+1] >= 0xdc00 && l[i+1] < 0xe000) i++;
            else want = false;
        }
    }
    bool ok = true;
    size_t n = l.size() + (terminated ? 1 : 0);
    Letter *arr = (Letter*)malloc(n * sizeof(Letter) + (n ? 0 : 1)); // exact allocation: over- and underreads show
    for(size_t i = 0; i < l.size(); i++) arr[i] = Letter((Letter_)l[i]);
    if(terminated) arr[l.size()] = Letter((Letter_)0);
    std::unique_ptr<Word> w;
    try { w.reset(new Word(arr, n)); } catch(const std::invalid_argument &) { ok = false; }
    free(arr);
    // an unterminated array whose last letter is 0 is a terminated array
    c.count(want ? "letters_accepted" : "letters_rejected");
    if(ok != want) fail(want ? "rejected-letters" : "accepted-letters", "letters %s %s", show(l).c_str(), want ? "are valid but were rejected" : "are invalid but were accepted");
    if(!ok) return;
    Letters got = lettersOf(*w);
    if(got != l) fail("letters", "word from letters %s holds %s", show(l).c_str(), show(got).c_str());
    std::string text = toUtf8(lettersToCps(l));
    checkWord(c, *w, l, text, "Word(letters)");
    renderings(c, *w, text);
}

static void mode6(Ctx &c) {
    Rng &r = c.rng;
    const uint64_t blocks = 0x110000 / 0x400;
    if(c.caseNo % 4 == 0 && c.caseNo / 4 < blocks) { // every code point
        const uint32_t first = (uint32_t)(c.caseNo / 4) * 0x400;
        for(uint32_t cp = first; cp < first + 0x400; cp++) {
            if(cp == 0) continue;
            std::string s;
            putUtf8(s, cp);
            expectFromBytes(c, s, cp % 64 == 0);
            c.count("single_code_points");
        }
        c.nontrivial(c.caseNo);
        return;
    }
    for(int i = 0; i < 12; i++) {
        std::string s = toUtf8(anyText(r, r.chance(5) ? 400 : r.chance(50) ? 5 : 30));
        bool bad = r.chance(45);
        if(bad) { int n = r.range(1, 2); for(int k = 0; k < n; k++) damage(r, s); }
        if(s.find('\0') != std::string::npos) continue;
        c.log("bytes \"%s\"", showBytes(s).c_str());
        expectFromBytes(c, s, true);
        if(s.size() > 1) { c.nontrivial(hashStr(s)); if(c.caseNo < 60) c.sample("bytes \"" + showBytes(s.substr(0, 100)) + "\""); }
    }
    for(int i = 0; i < 8; i++) {
        Letters l;
        int n = r.range(0, 8);
        bool dirty = r.chance(50);
        for(int k = 0; k < n; k++) {
            if(sizeof(Letter) == 2 && dirty && r.chance(35)) l.push_back(r.chance(50) ? r.range(0xd800, 0xdbff) : r.range(0xdc00, 0xdfff));
            else if(dirty && r.chance(10)) { static const uint32_t b[] = {' ', '\t', '\n', '\r', 0}; l.push_back(b[r.below(5)]); }
            else { Letters x = toLetters(Cps(1, anyCp(r))); l.insert(l.end(), x.begin(), x.end()); }
        }
        bool term = r.chance(50);
        if(!term && !l.empty() && l.back() == 0) l.back() = 'x'; // would be a terminator
        c.log("letters %s", show(l).c_str());
        expectFromLetters(c, l, term);
    }
}

/* ---- C07 ---- */
struct Slot {
    std::unique_ptr<Word> w;
    Letters l;
    bool moved = false; // moved from: only assignment and destruction until then
};
static size_t freshHash(const Letters &l) { return wordFromLetters(l).hash(); }
static void mode7(Ctx &c) {
    Rng &r = c.rng;
    Cps alpha;
    int na = r.range(1, 5);
    for(int i = 0; i < na; i++) alpha.push_back(u_tolower(anyCp(r)));
    auto text = [&]() { return randWord(r, alpha, 0, r.chance(5) ? 120 : 4); };
    std::vector<Slot> s(r.range(3, 7));
    int ops = r.range(20, 120);
    uint64_t h = 3;
    int mutations = 0;
    std::vector<std::string> trail;
    auto verify = [&](size_t i, const char *op) {
        if(!s[i].w || s[i].moved) return;
        Letters got = lettersOf(*s[i].w);
        if(got != s[i].l || s[i].w->length() != s[i].l.size()) fail("value", "after %s: word %zu holds %s, the model %s", op, i, show(got).c_str(), show(s[i].l).c_str());
        std::string u = s[i].w->asUtf8(), want = toUtf8(lettersToCps(s[i].l));
        if(u != want) fail("rendering", "after %s: word %zu renders as \"%s\" instead of \"%s\"", op, i, showBytes(u).c_str(), showBytes(want).c_str());
        if(s[i].w->hash() != freshHash(s[i].l)) fail("hash", "after %s: word %zu (%s) and a new word with the same letters have different hashes", op, i, show(s[i].l).c_str());
        if(!(*s[i].w == wordFromLetters(s[i].l)) || *s[i].w < wordFromLetters(s[i].l)) fail("equality", "after %s: word %zu (%s) and a new word with the same letters differ", op, i, show(s[i].l).c_str());
        c.count("value_checks");
    };
    for(int o = 0; o < ops; o++) {
        size_t i = r.below(s.size()), j = r.below(s.size());
        int op = r.range(0, 19);
        std::string opName = fmt("op %d on %zu,%zu", op, i, j);
        c.log("%s", opName.c_str());
        Slot &a = s[i], &b = s[j];
        bool bOk = b.w && !b.moved;
        if(!a.w && op > 3) op = r.range(0, 3);
        h = mix(h ^ (op * 131 + i * 7 + j));
        c.count("operations");
        switch(op) {
        case 0: { Cps t = text(); a.w.reset(new Word(toUtf8(t))); a.l = toLetters(t); a.moved = false; break; }
        case 1: { Cps t = text(); Letters l = toLetters(t); a.w.reset(new Word(wordFromLetters(l, r.chance(50)))); a.l = l; a.moved = false; break; }
        case 2: if(bOk && i != j) { a.w.reset(new Word(*b.w)); a.l = b.l; a.moved = false; mutations++; } break;
        case 3: if(bOk && i != j) { a.w.reset(new Word(std::move(*b.w))); a.l = b.l; a.moved = false; b.moved = true; mutations++; } break;
        case 4: if(bOk) { *a.w = *b.w; a.l = b.l; if(i != j) a.moved = false; mutations++; } break;
        case 5: if(bOk && i != j) { *a.w = std::move(*b.w); a.l = b.l; a.moved = false; b.moved = true; mutations++; } break;
        case 6: { Cps t = text(); *a.w = toUtf8(t).c_str(); a.l = toLetters(t); a.moved = false; break; }
        case 7: { Cps t = text(); *a.w = toUtf8(t); a.l = toLetters(t); a.moved = false; break; }
        case 8: case 9: { // failing assignment
            static const char *bad[] = {"a b", "\xff", "ok\xc3", "tab\tbed", "\xed\xa0\x80", "new\nline", " "};
            bool threw = false;
            std::string t = bad[r.below(7)];
            if(r.chance(30)) t = toUtf8(alpha) + t;
            try { if(op == 8) *a.w = t.c_str(); else *a.w = t; } catch(const std::exception &) { threw = true; }
            if(!threw) fail("no-failure", "assigning bad text did not throw");
            c.count("failed_assignments");
            Letters got = lettersOf(*a.w);
            if(!got.empty() && (a.moved || got != a.l)) fail("failed-assignment", "after a failed assignment the word holds %s, before it held %s", show(got).c_str(), show(a.l).c_str());
            a.l = got; a.moved = false;
            break; }
        case 10: if(!a.moved) { Word &self = *a.w; self = self; } break;
        case 11: if(!a.moved) { *a.w = a.w->asUtf8(); } break;
        case 12: if(bOk && !a.moved) { // join
            Letters l = a.l; l.insert(l.end(), b.l.begin(), b.l.end());
            Word jn = a.w->join(*b.w);
            if(lettersOf(jn) != l || jn.length() != l.size()) fail("join", "join of %s and %s gives %s", show(a.l).c_str(), show(b.l).c_str(), show(lettersOf(jn)).c_str());
            if(toUtf8(lettersToCps(l)) != jn.asUtf8()) fail("join", "join of %s and %s renders wrongly", show(a.l).c_str(), show(b.l).c_str());
            if(l.size() < 400 && r.chance(70)) { size_t k = r.below(s.size()); if(s[k].w) { *s[k].w = r.chance(50) ? std::move(jn) : jn; } else s[k].w.reset(new Word(jn)); s[k].l = l; s[k].moved = false; verify(k, "join"); }
            break; }
        case 13: a.w.reset(); a.moved = false; a.l.clear(); break;
        case 14: if(!a.moved) { // out of range
            unsigned int k = a.w->length() + (unsigned)(r.chance(50) ? 0 : r.below(1000));
            if(r.chance(10)) k = 0xffffffffu;
            bool threw = false;
            try { (void)(*a.w)[k]; } catch(const std::out_of_range &) { threw = true; }
            if(!threw) fail("out-of-range", "letter %u of a word of length %u could be read", k, a.w->length());
            break; }
        case 15: if(bOk) { std::vector<Word> v; for(int k = 0; k < 5; k++) v.push_back(*b.w); v.erase(v.begin() + 1); for(auto &x : v) if(lettersOf(x) != b.l) fail("value", "copies in a vector differ"); } break;
        case 16: if(bOk && !a.moved && i != j) { std::swap(*a.w, *b.w); std::swap(a.l, b.l); mutations++; } break;
        case 17: { *a.w = Word(); a.l.clear(); a.moved = false; break; }
        case 18: { Letters none; Letter dummy[1]; *a.w = Word(dummy, 0); a.l = none; a.moved = false; break; }
        case 19: if(!a.moved) { char buf[8]; try { a.w->toUtf8(buf, sizeof buf); } catch(const std::exception &) {} } break;
        }
        verify(i, opName.c_str());
        verify(j, opName.c_str());
    }
    // Order, equality and hashes over everything alive, plus near variants.
    std::vector<std::pair<Word, Letters>> all;
    for(auto &x : s) if(x.w && !x.moved) all.push_back({*x.w, x.l});
    for(int k = 0; k < 6; k++) {
        Letters l;
        if(!all.empty() && r.chance(70)) { l = toLetters(mutate(r, lettersToCps(all[r.below(all.size())].second), alpha, r.range(0, 1))); }
        else l = toLetters(text());
        all.push_back({wordFromLetters(l), l});
    }
    for(auto &x : all) for(auto &y : all) {
        bool eq = x.second == y.second, lt = x.second < y.second;
        const Word &a = x.first, &b = y.first;
        std::string bs = toUtf8(lettersToCps(y.second));
        if((a == b) != eq || (a != b) == eq) fail("equality", "%s and %s: == gives %d, != gives %d", show(x.second).c_str(), show(y.second).c_str(), a == b, a != b);
        if((a < b) != lt) fail("order", "%s < %s gives %d", show(x.second).c_str(), show(y.second).c_str(), a < b);
        if((a == bs) != eq || (a == bs.c_str()) != eq || (a != bs) == eq || (a != bs.c_str()) == eq) fail("text-equality", "%s compared with \"%s\"", show(x.second).c_str(), showBytes(bs).c_str());
        if((a.asUtf8() == b.asUtf8()) != eq) fail("equality", "renderings and words disagree");
        if(eq && a.hash() != b.hash()) fail("hash", "equal words %s have different hashes", show(x.second).c_str());
        c.count("comparisons");
        if(eq && &x != &y) c.count("equal_pairs");
    }
    if(mutations > 3) { c.nontrivial(h ^ hashStr(toUtf8(alpha))); if(c.caseNo < 40) c.sample(fmt("%d operations over %zu words, %d copies/moves, alphabet \"%s\"", ops, s.size(), mutations, showBytes(toUtf8(alpha)).c_str())); }
}

/* ---- C08 ---- */
static void mode8(Ctx &c) {
    Rng &r = c.rng;
    bool custom = r.chance(25);
    std::vector<uint32_t> seps = {' ', '\t', '\n', '\r'};
    if(custom) {
        static const char pool[] = ",;.:-/|x01A";
        seps.clear();
        int n = r.range(0, 4);
        for(int i = 0; i < n; i++) seps.push_back(pool[r.below(sizeof pool - 1)]);
        if(r.chance(60)) for(uint32_t w : {' ', '\t', '\n', '\r'}) seps.push_back(w);
    }
    auto isSep = [&](unsigned char b) { return std::find(seps.begin(), seps.end(), (uint32_t)b) != seps.end(); };
    std::string s;
    int runs = r.range(0, r.chance(5) ? 200 : 8);
    for(int i = 0; i < runs; i++) {
        int ns = r.chance(60) ? 1 : r.range(0, 4);
        for(int k = 0; k < ns; k++) s += (char)(!seps.empty() && r.chance(90) ? seps[r.below(seps.size())] : ' ');
        Cps t = anyText(r, r.chance(5) ? 60 : 6);
        if(r.chance(20)) t = Cps(r.range(1, 3), anyCp(r));
        s += toUtf8(t);
    }
    if(r.chance(50)) s += ' ';
    bool bad = r.chance(20);
    if(bad) damage(r, s);
    if(s.find('\0') != std::string::npos) return;
    // reference: cut at separator bytes (all ASCII), then decode every run
    std::vector<Letters> want;
    bool fails = false;
    for(size_t i = 0; i < s.size();) {
        if(isSep(s[i])) { i++; continue; }
        size_t e = i;
        while(e < s.size() && !isSep(s[e])) e++;
        Cps cps;
        if(!fromUtf8(s.substr(i, e - i), cps)) fails = true;
        for(uint32_t x : cps) if(isWs(x)) fails = true;
        want.push_back(toLetters(lowered(cps)));
        i = e;
    }
    c.log("text \"%s\" seps %zu", showBytes(s).c_str(), seps.size());
    char *exact = strdup(s.c_str());
    bool threw = false;
    WordList got;
    try {
        if(custom) {
            std::vector<Letter> sl;
            for(uint32_t x : seps) sl.push_back(Letter((Letter_)x));
            sl.push_back(Letter((Letter_)0));
            got = split(exact, &sl[0], (int)seps.size());
        } else got = splitToWords(exact);
    } catch(const std::exception &) { threw = true; }
    free(exact);
    c.count(custom ? "custom_splits" : "whitespace_splits");
    if(threw != fails) fail(fails ? "accepted-invalid" : "rejected-valid", "splitting \"%s\" %s", showBytes(s).c_str(), threw ? "failed" : "did not fail");
    if(threw) { c.count("failed_splits"); c.nontrivial(hashStr(s)); return; }
    auto compare = [&](const WordList &g, const char *how) {
        std::vector<Letters> gl;
        for(size_t i = 0; i < g.size(); i++) gl.push_back(lettersOf(g[i]));
        if(gl == want) return;
        std::string d;
        for(auto &l : gl) d += show(l) + " ";
        d += "instead of ";
        for(auto &l : want) d += show(l) + " ";
        fail("split", "%s of \"%s\" gives %s", how, showBytes(s).c_str(), d.substr(0, 1500).c_str());
    };
    compare(got, "split");
    if(!custom) {
        Document d(1);
        Word field("f");
        if(r.chance(50)) d.addText(field, s.c_str()); else d.addText(field, s);
        compare(d.getText(field), "addText");
    }
    c.count("words", want.size());
    c.maxi("max_words", want.size());
    if(want.size() > 1) { c.nontrivial(hashStr(s)); if(c.caseNo < 60) c.sample("\"" + showBytes(s.substr(0, 120)) + fmt("\" -> %zu words", want.size())); }
}

static void oneCase(Ctx &c) {
    switch(c.opt("mode", 6)) { case 6: mode6(c); break; case 7: mode7(c); break; default: mode8(c); }
}
int main(int argc, char **argv) { return runDriver(argc, argv, "words", oneCase); }
