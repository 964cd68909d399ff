/* C11 (mode=11): substitution rules, C12 (mode=12): built-in tables. */
#include "model.hh"
#include <fstream>
#include <memory>
#include <sys/stat.h>
#include <unicode/uchar.h>
using namespace vp;
using namespace Columbus;

static Letter L(uint32_t x) { return Letter((Letter_)x); }

static void compareAll(Ctx &c, const ErrorValues &e, const SubModel &m, const std::vector<uint32_t> &pool, const std::string &what) {
    for(uint32_t a : pool) for(uint32_t b : pool) {
        int want = m.get(a, b), got = e.getSubstituteError(L(a), L(b));
        if(want != got) fail("cost", "cost(%x,%x) is %d instead of %d after:%s", a, b, got, want, what.c_str());
    }
    c.count("pairs_compared", pool.size() * pool.size());
}
static std::vector<uint32_t> tableRange() { std::vector<uint32_t> v; for(uint32_t i = 0; i < 0x210; i++) v.push_back(i); return v; }

static void mode11(Ctx &c) {
    Rng &r = c.rng;
    static const uint32_t corner[] = {0x21, 'a', 'b', 'c', 'y', 'z', 0x7f, 0xe4, 0xff, 0x100, 0x101, 0x1fe, 0x1ff, 0x200, 0x201, 0x202, 0x3b1, 0x3ac, 0x1e01, 0x1e03, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10428, 0x1f600, 0x10ffff};
    std::vector<uint32_t> pool;
    int n = r.chance(25) ? r.range(12, 40) : r.range(3, 14);
    bool low = r.chance(25), high = !low && r.chance(25);
    for(int i = 0; i < n; i++) {
        uint32_t x = r.chance(70) ? corner[r.below(27)] : (uint32_t)r.range(0x21, r.chance(50) ? 0x280 : 0xd7ff);
        if(low) x = 0x21 + x % 0x1d0;
        if(high) x = 0x1f8 + x % 16;
        if(sizeof(Letter) == 2 && x > 0xffff) x = 0x200 + x % 0x100;
        if(std::find(pool.begin(), pool.end(), x) == pool.end()) pool.push_back(x);
    }
    struct Obj { std::unique_ptr<ErrorValues> e; SubModel m; std::string log; };
    std::vector<Obj> objs(r.range(1, 3));
    for(auto &o : objs) o.e.reset(new ErrorValues);
    int ops = r.range(3, 25);
    uint64_t h = 1;
    int overlaps = 0, rejected = 0;
    auto cost = [&]() { static const int v[] = {0, 1, 10, 30, 50, 99, 100, 101, 200, 1000}; return v[r.below(10)]; };
    for(int i = 0; i < ops; i++) {
        Obj &o = objs[r.below(objs.size())];
        int op = r.range(0, 19);
        if(op < 9) {
            uint32_t a = pool[r.below(pool.size())], b = pool[r.below(pool.size())];
            int v = cost();
            o.e->setError(L(a), L(b), v);
            if(o.m.group.count(a) && o.m.group.count(b)) overlaps++;
            o.m.setPair(a, b, v);
            o.log += fmt(" pair(%x,%x)=%d", a, b, v);
            if(a == b) c.count("equal_letter_settings");
            c.count("pair_settings");
        } else if(op < 17) {
            Letters g;
            int k = r.chance(15) ? r.range(6, 40) : r.range(0, 5);
            for(int j = 0; j < k; j++) g.push_back(pool[r.below(pool.size())]);
            int v = cost();
            bool threw = false;
            try { o.e->setGroupError(wordFromLetters(g), v); } catch(const std::runtime_error &) { threw = true; }
            for(uint32_t x : g) for(uint32_t y : g) if(x != y && o.m.pairs.count(std::minmax(x, y))) overlaps++;
            bool ok = o.m.setGroup(g, v);
            o.log += fmt(" group(%s)=%d%s", show(g).c_str(), v, ok ? "" : "[rejected]");
            if(ok == threw) fail("group-exception", "group %s %s after:%s", show(g).c_str(), threw ? "was rejected" : "was accepted although one of its letters is in another group", o.log.c_str());
            c.count(ok ? "groups" : "rejected_groups");
            if(!ok) rejected++;
        } else if(op == 17) { o.e->clearErrors(); o.m.clear(); o.log += " clear"; c.count("clears"); }
        else if(op == 18) { o.e.reset(new ErrorValues); o.m.clear(); o.log = " new object"; }
        else if(objs.size() > 1) { // settings of one object never affect another: they are compared below
            o.e->setInsertionError(cost()); o.e->setDeletionError(cost()); o.e->setSubstringMode(); o.e->setTransposeError(cost()); o.log += " scalars";
        }
        h = mix(h ^ hashStr(o.log));
        for(auto &x : objs) compareAll(c, *x.e, x.m, pool, x.log);
        for(auto &x : objs) for(uint32_t l : pool) if(x.e->isInGroup(L(l)) != (x.m.group.count(l) > 0)) fail("is-in-group", "isInGroup(%x) wrong after:%s", l, x.log.c_str());
    }
    if(r.chance(4)) for(auto &x : objs) { compareAll(c, *x.e, x.m, tableRange(), x.log); c.count("full_table_sweeps"); }
    c.count("pair_group_overlaps", overlaps);
    if(overlaps || rejected) { c.nontrivial(h); if(c.caseNo < 60) c.sample(objs[0].log); }
}

/* ---- C12 ---- */
static Cps cpsOf(const char *utf8) { Cps c; fromUtf8(utf8, c); return c; }
static void modelKeyboard(SubModel &m) {
    static const char *rows[] = {"1234567890+", "qwertyuiop\xc3\xa5", "asdfghjkl\xc3\xb6\xc3\xa4'", "zxcvbnm,.-"};
    Cps row[4];
    for(int i = 0; i < 4; i++) row[i] = cpsOf(rows[i]);
    for(int i = 0; i < 4; i++)
        for(size_t j = 0; j < row[i].size(); j++) {
            if(j + 1 < row[i].size()) m.setPair(row[i][j], row[i][j+1], 30);
            if(i == 3) continue;
            // each row is shifted half a key to the right: key j touches keys j-1 and j below it
            for(size_t k = 0; k < row[i+1].size(); k++) if(k == j || k + 1 == j) m.setPair(row[i][j], row[i+1][k], 30);
        }
}
static void modelNumpad(SubModel &m) {
    static const char *keys[9] = {"", "abc", "def", "ghi", "jkl", "mno", "pqrs", "tuv", "wxyz"};
    for(int a = 0; a < 9; a++) for(int b = 0; b < 9; b++) {
        int dx = abs(a % 3 - b % 3), dy = abs(a / 3 - b / 3);
        if(dx + dy > 1) continue;
        for(const char *p = keys[b]; *p; p++) m.setPair('1' + a, *p, dx + dy ? 50 : 0);
    }
}
static std::string fileOf(int group) { return group == 0 ? "latinAccentedLetterGroups.txt" : "greekAccentedLetterGroups.txt"; }
/* 0: fine, 1: no file, 2: rejected on the way */
static int modelAccents(SubModel &m, const std::string &dir, int group, std::set<uint32_t> *letters = nullptr) {
    std::ifstream f((dir + "/" + fileOf(group)).c_str());
    if(f.fail()) return 1;
    std::string line;
    while(std::getline(f, line)) {
        Cps cps;
        if(!fromUtf8(line, cps)) return 2;
        for(auto &x : cps) x = u_tolower(x);
        if(cps.empty()) continue;
        Letters l = toLetters(cps);
        if(letters) letters->insert(l.begin(), l.end());
        if(!m.setGroup(l, 30)) return 2;
    }
    return 0;
}
struct EnvGuard {
    std::string old;
    EnvGuard() { const char *e = getenv("COLUMBUS_DATADIR"); old = e ? e : ""; }
    ~EnvGuard() { setenv("COLUMBUS_DATADIR", old.c_str(), 1); }
};
static void shipped(Ctx &c, const std::string &share) {
    // every line of the Latin file has exactly one base letter, and the accented letters of Latin-1 and the Greek tonos/dialytika letters are with theirs
    std::ifstream f((share + "/" + fileOf(0)).c_str());
    std::string line;
    int n = 0;
    while(std::getline(f, line)) {
        n++;
        Cps cps;
        if(!fromUtf8(line, cps)) fail("shipped", "line %d of the Latin accent file is not UTF-8", n);
        if(cps.empty()) continue;
        std::set<uint32_t> base;
        for(uint32_t x : cps) if(x < 0x80) base.insert(x);
        if(base.size() != 1 || *base.begin() < 'a' || *base.begin() > 'z') fail("shipped", "line %d of the Latin accent file holds %zu base letters", n, base.size());
        c.count("shipped_lines");
    }
    static const char *families[] = {"a\xc3\xa0\xc3\xa1\xc3\xa2\xc3\xa3\xc3\xa4\xc3\xa5", "c\xc3\xa7", "e\xc3\xa8\xc3\xa9\xc3\xaa\xc3\xab", "i\xc3\xac\xc3\xad\xc3\xae\xc3\xaf", "n\xc3\xb1", "o\xc3\xb2\xc3\xb3\xc3\xb4\xc3\xb5\xc3\xb6\xc3\xb8",
        "u\xc3\xb9\xc3\xba\xc3\xbb\xc3\xbc", "y\xc3\xbd\xc3\xbf", "\xce\xb1\xce\xac", "\xce\xb5\xce\xad", "\xce\xb7\xce\xae", "\xce\xb9\xce\xaf\xcf\x8a\xce\x90", "\xce\xbf\xcf\x8c", "\xcf\x85\xcf\x8d\xcf\x8b\xce\xb0", "\xcf\x89\xcf\x8e"};
    ErrorValues e;
    e.addAccents(latinAccentGroup);
    e.addAccents(greekAccentGroup);
    for(const char *fam : families) {
        Cps cps = cpsOf(fam);
        for(uint32_t x : cps) for(uint32_t y : cps) {
            int want = x == y ? 0 : 30, got = e.getSubstituteError(L(x), L(y));
            if(got != want) fail("shipped", "accent cost of (%x,%x) is %d instead of %d", x, y, got, want);
            c.count("shipped_pairs");
        }
    }
}
static void mode12(Ctx &c) {
    Rng &r = c.rng;
    EnvGuard env;
    std::string share = env.old;
    while(share.size() > 1 && share.back() == '/') share.pop_back();
    if(c.caseNo == 0) shipped(c, share);
    ErrorValues e;
    SubModel m;
    std::string log;
    std::set<uint32_t> letters;
    for(const char *p = "1234567890+qwertyuiopasdfghjklzxcvbnm,.-'#"; *p; p++) letters.insert((unsigned char)*p);
    letters.insert(0xe4); letters.insert(0xe5); letters.insert(0xf6);
    for(int i = 0; i < 12; i++) { uint32_t x = toLetters(Cps(1, r.pick(widePool())))[0]; letters.insert(x); }
    std::string dir = share, custom;
    auto pick = [&]() { setenv("COLUMBUS_DATADIR", (dir + (r.chance(40) ? "/" : "")).c_str(), 1); };
    pick();
    if(r.chance(60)) { // a data directory of our own
        char tmpl[] = "vpdataXXXXXX";
        if(!mkdtemp(tmpl)) return;
        custom = tmpl;
        dir = custom;
        bool clash = r.chance(15), missing = r.chance(15);
        for(int g = 0; g < 2; g++) {
            if(missing && r.chance(60)) continue;
            std::ofstream f((custom + "/" + fileOf(g)).c_str());
            Cps left;
            for(uint32_t x = 0x61 + g; x < 0x300; x += 2 + (uint32_t)r.below(12)) if((uint32_t)u_tolower(x) == x && x != 0x7f && x != 0x85 && x != 0xa0) left.push_back(x);
            if(r.chance(40)) { left.push_back(0x1e01 + 2 * g); left.push_back(0x3b1 + g); left.push_back(0xac00 + g); }
            if(clash) left.push_back('a');
            r.shuffle(left);
            size_t at = 0;
            while(at < left.size()) {
                if(r.chance(15)) { f << "\n"; continue; }
                Cps line;
                int k = r.range(1, 4);
                for(int j = 0; j < k && at < left.size(); j++) line.push_back(left[at++]);
                if(r.chance(15)) line.push_back(line[0]);
                f << toUtf8(line);
                if(at < left.size() || r.chance(70)) f << "\n";
                Letters l = toLetters(line);
                letters.insert(l.begin(), l.end());
            }
        }
        pick();
        c.count("custom_data_dirs");
    }
    struct Cleanup { std::string d; ~Cleanup() { if(d.empty()) return; for(int g = 0; g < 2; g++) unlink((d + "/" + fileOf(g)).c_str()); rmdir(d.c_str()); } } cleanup{custom};
    if(custom.empty() && r.chance(20)) { dir = r.chance(50) ? "/nonexistent-dir/x" : share + "/" + fileOf(0); pick(); c.count("bad_data_dirs"); }
    int ops = r.range(1, 4);
    for(int i = 0; i < ops; i++) {
        int op = r.range(0, 6);
        if(op == 0) { e.addKeyboardErrors(); modelKeyboard(m); log += " keyboard"; c.count("keyboard_tables"); }
        else if(op == 1) { e.addNumberpadErrors(); modelNumpad(m); log += " numpad"; c.count("numpad_tables"); }
        else if(op == 2 || op == 3) {
            int g = op - 2;
            bool threw = false;
            try { e.addAccents(g == 0 ? latinAccentGroup : greekAccentGroup); } catch(const std::exception &) { threw = true; }
            SubModel before = m;
            int want = modelAccents(m, dir, g, &letters);
            if(want) m = before; // all or nothing
            log += g == 0 ? " latin" : " greek";
            if(threw != (want != 0)) fail("accent-exception", "loading accents from %s %s (expected outcome %d) after:%s", dir.c_str(), threw ? "failed" : "did not fail", want, log.c_str());
            if(want == 1) c.count("missing_files");
            if(want == 2) c.count("rejected_files");
            if(want == 0) c.count("accent_tables");
        } else if(op == 4) {
            bool threw = false;
            try { e.addStandardErrors(); } catch(const std::exception &) { threw = true; }
            SubModel before = m;
            int want = modelAccents(m, dir, 0, &letters);
            if(!want) want = modelAccents(m, dir, 1, &letters);
            if(want) m = before;
            log += " standard";
            if(threw != (want != 0)) fail("standard-exception", "standard errors %s (expected outcome %d) after:%s", threw ? "failed" : "did not fail", want, log.c_str());
            if(want == 0) { modelKeyboard(m); c.count("standard_tables"); }
            else c.count("rejected_standard_tables");
        } else if(op == 5) { e.clearErrors(); m.clear(); log += " clear"; }
        else if(r.chance(40)) { // a data directory can change between loads
            dir = share; pick(); log += " [shipped data]";
        }
        {
            std::vector<uint32_t> pool(letters.begin(), letters.end());
            compareAll(c, e, m, pool, log);
            for(uint32_t l : pool) if(e.isInGroup(L(l)) != (m.group.count(l) > 0)) fail("is-in-group", "isInGroup(%x) wrong after:%s", l, log.c_str());
        }
    }
    if(r.chance(10)) { compareAll(c, e, m, tableRange(), log); c.count("full_table_sweeps"); }
    if(!m.pairs.empty() || !m.group.empty()) { c.nontrivial(hashStr(log + custom) ^ mix(m.pairs.size() * 1000 + m.group.size())); if(c.caseNo < 40) c.sample("tables:" + log + fmt(" (%zu pairs, %zu grouped letters, data dir %s)", m.pairs.size(), m.group.size(), dir.c_str())); }
}
static void oneCase(Ctx &c) { if(c.opt("mode", 11) == 11) mode11(c); else mode12(c); }
int main(int argc, char **argv) { return runDriver(argc, argv, "errors", oneCase); }
