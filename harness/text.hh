/* Text generation and the reference encoding functions (independent of the library). */
#ifndef VP_TEXT_HH
#define VP_TEXT_HH
#include "common.hh"
#include "ColumbusCore.hh"
#include "Word.hh"
#include "WordList.hh"

namespace vp {
typedef std::vector<uint32_t> Letters;   // letters as the library stores them (16 or 32 bit units)
typedef std::vector<uint32_t> Cps;       // code points

inline void putUtf8(std::string &o, uint32_t c) {
    if(c < 0x80) o += (char)c;
    else if(c < 0x800) { o += (char)(0xc0 | (c >> 6)); o += (char)(0x80 | (c & 63)); }
    else if(c < 0x10000) { o += (char)(0xe0 | (c >> 12)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xf0 | (c >> 18)); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
}
inline std::string toUtf8(const Cps &c) { std::string o; for(uint32_t x : c) putUtf8(o, x); return o; }

inline Letters toLetters(const Cps &c) {
    Letters o;
    for(uint32_t x : c) {
        if(sizeof(Letter) == 2 && x >= 0x10000) { o.push_back(0xd800 + ((x - 0x10000) >> 10)); o.push_back(0xdc00 + ((x - 0x10000) & 0x3ff)); }
        else o.push_back(x);
    }
    return o;
}
/* Strict decoder: returns false on anything that is not well-formed UTF-8. */
inline bool fromUtf8(const std::string &s, Cps &out) {
    out.clear();
    size_t i = 0, n = s.size();
    while(i < n) {
        unsigned char b = s[i];
        if(b < 0x80) { out.push_back(b); i++; continue; }
        int len; uint32_t c, min;
        if(b >= 0xc2 && b <= 0xdf) { len = 1; c = b & 31; min = 0x80; }
        else if(b >= 0xe0 && b <= 0xef) { len = 2; c = b & 15; min = 0x800; }
        else if(b >= 0xf0 && b <= 0xf4) { len = 3; c = b & 7; min = 0x10000; }
        else return false;
        if(i + len >= n) return false;
        for(int k = 1; k <= len; k++) {
            unsigned char t = s[i + k];
            if((t & 0xc0) != 0x80) return false;
            c = (c << 6) | (t & 63);
        }
        if(c < min || c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff)) return false;
        out.push_back(c);
        i += len + 1;
    }
    return true;
}
inline Cps lettersToCps(const Letters &l) {
    Cps o;
    for(size_t i = 0; i < l.size(); i++) {
        uint32_t x = l[i];
        if(sizeof(Letter) == 2 && x >= 0xd800 && x < 0xdc00 && i + 1 < l.size()) { o.push_back(0x10000 + ((x - 0xd800) << 10) + (l[i+1] - 0xdc00)); i++; }
        else o.push_back(x);
    }
    return o;
}

inline Columbus::Word wordFromLetters(const Letters &l, bool terminated = false) {
    if(l.empty()) return Columbus::Word();
    std::vector<Letter> v;
    for(uint32_t x : l) v.push_back(Letter((Letter_)x));
    if(terminated) v.push_back(Letter((Letter_)0));
    return Columbus::Word(&v[0], v.size());
}
inline Letters lettersOf(const Columbus::Word &w) {
    Letters l;
    for(unsigned int i = 0; i < w.length(); i++) l.push_back((Letter_)w[i]);
    return l;
}
inline std::string show(const Letters &l) {
    std::string o = "\"";
    char b[16];
    for(uint32_t x : l) {
        if(x > 0x20 && x < 0x7f && x != '"' && x != '\\') o += (char)x;
        else { snprintf(b, sizeof b, "<%x>", x); o += b; }
    }
    return o + "\"";
}
inline std::string showBytes(const std::string &s) {
    std::string o;
    char b[8];
    for(unsigned char x : s) {
        if(x >= 0x20 && x < 0x7f && x != '\\') o += (char)x;
        else { snprintf(b, sizeof b, "\\x%02x", x); o += b; }
    }
    return o;
}

/* Lower-case-stable code points around every boundary that the code distinguishes. */
inline const Cps &asciiPool() {
    static const Cps p = {'a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z','0','1','2','3','4','5','6','7','8','9','+',',','.','-','\'','(','%','_','~','!'};
    return p;
}
inline const Cps &widePool() {
    static const Cps p = {'a','b','z','7',0x7e,0x7f,0x80,0xa0,0xdf,0xe0,0xe1,0xe4,0xe5,0xe9,0xf6,0xff,0x101,0x115,0x17f,0x1fd,0x1ff,0x201,0x203,0x237,
        0x303,0x3b1,0x3ac,0x3c9,0x430,0x7ff,0x800,0x5d0,0x1e01,0x1e15,0x2028,0x3042,0x4e00,0x9fff,0xac00,0xd7ff,0xe000,0xf8ff,0xfb01,0xfffd,
        0x10000,0x10428,0x1044f,0x1d4b6,0x1f600,0x1f601,0x20000,0x10ffff};
    return p;
}
/* A small alphabet for one case: collisions and transpositions become likely. */
inline Cps caseAlphabet(Rng &r) {
    Cps a;
    int kind = r.range(0, 9);
    int n = r.range(2, kind < 3 ? 3 : 8);
    for(int i = 0; i < n; i++) {
        if(kind < 5) a.push_back(r.pick(asciiPool()));
        else if(kind < 9) a.push_back(r.chance(40) ? r.pick(asciiPool()) : r.pick(widePool()));
        else {
            // letters right around the fast-table limit (given as raw letters only)
            a.push_back(0x1f0 + (uint32_t)r.below(0x20));
        }
    }
    return a;
}
inline Cps randWord(Rng &r, const Cps &alpha, int minLen, int maxLen) {
    Cps w;
    int n = r.range(minLen, maxLen);
    for(int i = 0; i < n; i++) w.push_back(alpha[r.below(alpha.size())]);
    return w;
}
inline Cps mutate(Rng &r, Cps w, const Cps &alpha, int edits) {
    for(int e = 0; e < edits; e++) {
        int op = r.range(0, 6);
        size_t n = w.size();
        // Swap two letters and shift each by the distance in bytes: Word::hash sums up (byte + position),
        // so the two words are different and collide.
        if(op == 6) {
            bool done = false;
            for(int tries = 0; n > 1 && !done && tries < 6; tries++) {
                size_t i = r.below(n - 1), j = i + 1 + r.below(n - 1 - i);
                uint32_t shift = (uint32_t)((j - i) * sizeof(Letter)), a = w[j] + shift, b = w[i] - shift;
                auto plain = [](uint32_t x) { return (x > 0x20 && x < 0x7f && !(x >= 'A' && x <= 'Z')) || (x >= 0xdf && x <= 0xff); };
                if(w[i] < 0x100 && w[j] < 0x100 && plain(a) && plain(b) && a != w[i]) { w[i] = a; w[j] = b; done = true; }
            }
            if(!done && n) w[r.below(n)] = alpha[r.below(alpha.size())];
        }
        if(op == 0 && n) w.erase(w.begin() + r.below(n));
        else if(op == 1) w.insert(w.begin() + r.below(n + 1), alpha[r.below(alpha.size())]);
        else if(op == 2 && n) w[r.below(n)] = alpha[r.below(alpha.size())];
        else if(op == 3 && n > 1) { size_t i = r.below(n - 1); std::swap(w[i], w[i+1]); }
        else if(op == 4 && n) w.resize(r.below(n) + 1);            // truncate
        else if(op == 5 && n) w.erase(w.begin(), w.begin() + r.below(n)); // drop a prefix
    }
    return w;
}
} // namespace vp
#endif
