/* Reference models: substitution rules, weighted optimal string alignment, document matching. */
#ifndef VP_MODEL_HH
#define VP_MODEL_HH
#include "text.hh"
#include "ErrorValues.hh"
#include <cmath>

namespace vp {

inline uint64_t hashWords_(const Letters &l, uint64_t h) { for(uint32_t x : l) h = mix(h ^ x); return mix(h + 77); }

/* The substitution rules as a user states them. */
struct SubModel {
    std::map<std::pair<uint32_t, uint32_t>, int> pairs;
    std::map<uint32_t, size_t> group;
    std::vector<int> groupErr;
    void setPair(uint32_t a, uint32_t b, int e) { pairs[std::minmax(a, b)] = e; }
    bool setGroup(const Letters &g, int e) { // false: rejected, nothing changes
        for(uint32_t l : g) if(group.count(l)) return false;
        groupErr.push_back(e);
        for(uint32_t l : g) group[l] = groupErr.size() - 1;
        return true;
    }
    void clear() { pairs.clear(); group.clear(); groupErr.clear(); }
    int get(uint32_t a, uint32_t b) const {
        if(a == b) return 0;
        auto p = pairs.find(std::minmax(a, b));
        if(p != pairs.end()) return p->second;
        auto ga = group.find(a), gb = group.find(b);
        if(ga != group.end() && gb != group.end() && ga->second == gb->second) return groupErr[ga->second];
        return 100;
    }
};

struct Costs {
    int ins = 100, del = 100, endDel = 100, startIns = 100, trans = 100;
    size_t startLimit = 0;
    SubModel sub;
    const Columbus::ErrorValues *table = nullptr; // when set: substitution costs are read from the library (built-in tables, judged by C12)
    int subst(uint32_t a, uint32_t b) const {
        if(table) return table->getSubstituteError(Letter((Letter_)a), Letter((Letter_)b));
        return sub.get(a, b);
    }
};

/* Weighted optimal string alignment of query q against indexed word w (memoised recursion over prefixes). */
inline long refDistance(const Letters &q, const Letters &w, const Costs &c) {
    const size_t n = q.size(), m = w.size();
    const long lead = n >= c.startLimit ? c.startIns : c.ins; // missing letters before the first query letter
    std::vector<long> d((n + 1) * (m + 1));
    auto at = [&](size_t i, size_t j) -> long& { return d[i * (m + 1) + j]; }; // i query letters, j word letters
    for(size_t i = 0; i <= n; i++)
        for(size_t j = 0; j <= m; j++) {
            if(i == 0 && j == 0) { at(0, 0) = 0; continue; }
            long best = -1;
            auto offer = [&](long v) { if(best < 0 || v < best) best = v; };
            if(i > 0) offer(at(i - 1, j) + c.ins);                                  // surplus query letter
            if(j > 0) offer(at(i, j - 1) + (i == 0 ? lead : i == n ? (long)c.endDel : (long)c.del)); // missing query letter
            if(i > 0 && j > 0) offer(at(i - 1, j - 1) + c.subst(q[i - 1], w[j - 1]));
            if(i > 1 && j > 1 && q[i - 1] == w[j - 2] && q[i - 2] == w[j - 1]) offer(at(i - 2, j - 2) + c.trans);
            at(i, j) = best;
        }
    return at(n, m);
}

/* Applies a random cost configuration to a library object and to the model. */
inline void randomCosts(Rng &r, Columbus::ErrorValues &e, Costs &c, const Letters &letters, bool tables, std::string *desc = nullptr) {
    std::string d;
    int kind = r.range(0, 9);
    auto cost = [&]() { static const int v[] = {0, 1, 5, 15, 30, 50, 99, 100, 101, 150, 200, 400}; return v[r.below(12)]; };
    auto setPairs = [&]() {
        int n = r.range(1, 6);
        for(int i = 0; i < n && !letters.empty(); i++) {
            uint32_t a = r.pick(letters), b = r.pick(letters);
            if(a == b) continue;
            int v = cost();
            e.setError(Letter((Letter_)a), Letter((Letter_)b), v);
            c.sub.setPair(a, b, v);
            d += fmt(" pair(%x,%x)=%d", a, b, v);
        }
    };
    auto setGroups = [&]() {
        if(c.table) return; // the built-in groups are not modelled here
        int n = r.range(1, 3);
        for(int i = 0; i < n; i++) {
            Letters g;
            int k = r.range(1, 4);
            for(int j = 0; j < k; j++) {
                uint32_t l = r.pick(letters);
                if(sizeof(Letter) == 2 && l >= 0xd800 && l < 0xe000) continue;
                if(c.sub.group.count(l)) continue;
                g.push_back(l);
            }
            if(g.empty()) continue;
            int v = cost();
            e.setGroupError(wordFromLetters(g), v);
            c.sub.setGroup(g, v);
            d += fmt(" group(%s)=%d", show(g).c_str(), v);
        }
    };
    auto scalars = [&]() {
        if(r.chance(50)) { c.ins = cost(); e.setInsertionError(c.ins); }
        if(r.chance(50)) { c.del = cost(); e.setDeletionError(c.del); }
        if(r.chance(50)) { c.endDel = cost(); e.setEndDeletionError(c.endDel); }
        if(r.chance(50)) { c.startIns = cost(); e.setStartInsertionError(c.startIns); }
        if(r.chance(50)) { c.trans = cost(); e.setTransposeError(c.trans); }
        if(r.chance(30)) { c.startLimit = r.range(0, 6); e.setSubstringStartLimit(c.startLimit); }
        d += fmt(" ins=%d del=%d endDel=%d startIns=%d trans=%d limit=%d", c.ins, c.del, c.endDel, c.startIns, c.trans, (int)c.startLimit);
    };
    switch(kind) {
    case 0: case 1: break; // defaults
    case 2: e.setSubstringMode(); c.endDel = 15; c.startIns = 15; c.startLimit = 3; d += " substring"; break;
    case 3: setPairs(); break;
    case 4: setGroups(); break;
    case 5: scalars(); break;
    case 6: setGroups(); setPairs(); break;
    case 7: setPairs(); scalars(); setGroups(); break;
    case 8: e.setSubstringMode(); c.endDel = 15; c.startIns = 15; c.startLimit = 3; d += " substring"; setPairs(); if(r.chance(50)) scalars(); break;
    case 9:
        if(tables) {
            if(r.chance(50)) { e.addStandardErrors(); d += " standard"; } else { e.addNumberpadErrors(); d += " numpad"; }
            c.table = &e;
            if(r.chance(40)) { e.setSubstringMode(); c.endDel = 15; c.startIns = 15; c.startLimit = 3; d += " substring"; }
        }
        break;
    }
    if(r.chance(5)) { e.clearErrors(); c.sub.clear(); d += " cleared"; }
    if(desc) *desc += d;
}

/* ---------- documents ---------- */
typedef std::map<Letters, std::vector<Letters>> RefFields;
struct RefDoc { uintptr_t id; RefFields fields; };
typedef std::map<uintptr_t, double> RefResult;

struct RefFilter { std::vector<std::vector<std::pair<Letters, Letters>>> terms{1}; };

struct RefMatcher {
    struct Entry { uint64_t count = 0; std::set<uintptr_t> docs; };
    struct Field { std::map<Letters, Entry> words; uint64_t maxCount = 0; };
    std::map<Letters, Field> fields;
    std::map<std::pair<uintptr_t, Letters>, size_t> sizes;
    std::set<Letters> known;
    std::map<Letters, double> weights;
    Costs costs;

    void index(const std::vector<RefDoc> &docs) {
        for(auto &d : docs) for(auto &f : d.fields) {
            known.insert(f.first);
            sizes[{d.id, f.first}] = f.second.size();
            for(auto &w : f.second) {
                known.insert(w);
                Field &fi = fields[f.first];
                Entry &e = fi.words[w];
                if(!w.empty()) { e.count++; fi.maxCount = std::max(fi.maxCount, e.count); } // the empty word is never searchable
                e.docs.insert(d.id);
            }
        }
    }
    double weight(const Letters &f) const { auto i = weights.find(f); return i == weights.end() ? 1.0 : i->second; }

    RefResult match(const std::vector<Letters> &query, bool dynamic = true, const std::set<Letters> *noSearch = nullptr, const RefFilter *filter = nullptr, uint64_t *pairs = nullptr) const {
        RefResult res;
        for(auto &f : fields) {
            if(noSearch && noSearch->count(f.first)) continue;
            for(auto &w : f.second.words) {
                if(w.first.empty()) continue;
                long best = -1;
                for(auto &q : query) {
                    long limit = dynamic && q.size() < 2 ? 100 : 200;
                    long d = refDistance(q, w.first, costs);
                    if(d <= limit && (best < 0 || d < best)) best = d;
                }
                if(best < 0) continue;
                if(pairs) ++*pairs;
                double rel = 100.0 / (100.0 + best) * (1.0 - (double)w.second.count / (double)(f.second.maxCount + 1)) * weight(f.first);
                for(uintptr_t d : w.second.docs) res[d] += rel;
            }
        }
        if(filter) {
            RefResult kept;
            for(auto &d : res) {
                bool any = false;
                for(auto &t : filter->terms) {
                    bool all = true;
                    for(auto &s : t) {
                        auto f = fields.find(s.first);
                        if(f == fields.end()) { all = false; break; }
                        auto w = f->second.words.find(s.second);
                        if(w == f->second.words.end() || !w->second.docs.count(d.first)) { all = false; break; }
                    }
                    if(all) { any = true; break; }
                }
                if(any) kept.insert(d);
            }
            return kept;
        }
        return res;
    }
    /* false: the primary field is unknown */
    bool online(const std::vector<Letters> &query, const Letters &primary, RefResult &out, uint64_t *perfect = nullptr) const {
        if(!known.count(primary)) return false;
        out = match(query);
        std::map<uintptr_t, size_t> hits;
        auto f = fields.find(primary);
        if(f != fields.end())
            for(auto &q : query) {
                if(q.empty()) continue;
                auto w = f->second.words.find(q);
                if(w != f->second.words.end()) for(uintptr_t d : w->second.docs) hits[d]++;
            }
        for(auto &h : hits) {
            double v = 2.0 * h.second;
            auto s = sizes.find({h.first, primary});
            if(h.second == query.size() && s != sizes.end() && s->second == h.second) { v += 100; if(perfect) ++*perfect; }
            out[h.first] += v;
        }
        return true;
    }
};

inline bool close(double a, double b) {
    if(a == b) return true;
    double m = std::max(std::fabs(a), std::fabs(b));
    return std::fabs(a - b) <= 1e-9 * m + 1e-9;
}
} // namespace vp
#endif
