/* C02-C05: Matcher against the reference matcher. --opt mode=2..5 */
#include "corpus.hh"
using namespace vp;
using namespace Columbus;

struct Filters {
    RefFilter ref;
    std::set<Letters> noSearch;
    std::string text;
    void build(Rng &r, const World &w, SearchParameters &sp, bool usePar) {
        if(!usePar) return;
        auto field = [&]() -> Letters { return r.chance(85) ? w.fieldNames[r.below(w.fieldNames.size())] : r.chance(50) ? w.vocab[r.below(w.vocab.size())] : toLetters(Cps{'q', 'q', 'z'}); };
        if(r.chance(40)) {
            int n = r.range(1, 2);
            for(int i = 0; i < n; i++) { Letters f = field(); sp.addNonsearchingField(wordFromLetters(f)); noSearch.insert(f); text += " nosearch " + show(f); }
        }
        if(r.chance(85)) {
            int ops = r.range(1, 6);
            for(int i = 0; i < ops; i++) {
                if(r.chance(30)) { sp.getResultFilter().addNewTerm(); ref.terms.push_back({}); text += " | "; }
                else {
                    Letters f = field(), v;
                    int k = r.range(0, 9);
                    const RefDoc *d = w.docs.empty() ? nullptr : &w.docs[r.below(w.docs.size())];
                    if(k < 6 && d && !d->fields.empty()) {
                        auto it = d->fields.begin();
                        std::advance(it, r.below(d->fields.size()));
                        f = it->first;
                        if(!it->second.empty()) v = it->second[r.below(it->second.size())];
                        else v = w.vocab[0];
                    } else if(k < 8) v = w.vocab[r.below(w.vocab.size())];
                    else if(k == 8) v = toLetters(mutate(r, lettersToCps(w.vocab[r.below(w.vocab.size())]), w.alpha, 1));
                    else v = r.chance(80) ? toLetters(Cps{'n', 'o', 'n', 'e', (uint32_t)('0' + r.below(10))}) : Letters();
                    if(r.chance(4)) std::swap(f, v);
                    sp.getResultFilter().addNewSubTerm(wordFromLetters(f), wordFromLetters(v));
                    ref.terms.back().push_back({f, v});
                    text += " (" + show(f) + "," + show(v) + ")";
                }
            }
        }
    }
};

static void note(Ctx &c, const World &w, const std::vector<Letters> &q, uint64_t cfg, const RefResult &want, const std::string &what) {
    if(want.empty()) return;
    c.nontrivial(hashWords(q, hashDocs(w.docs) ^ cfg));
    if(c.caseNo < 60) c.sample(what + " " + showWords(q) + " over " + describeDocs(w.docs).substr(0, 400) + " -> " + showResult(want));
}

static void modes234(Ctx &c, int mode) {
    Rng &r = c.rng;
    World w;
    w.generate(c, false);
    Matcher m;
    RefMatcher ref;
    std::string cfg;
    auto indexSome = [&](const std::vector<RefDoc> &docs) {
        Corpus corpus;
        for(auto &d : docs) corpus.addDocument(w.document(r, d));
        m.index(corpus);
        ref.index(docs);
    };
    indexSome(w.docs);
    randomCosts(r, m.getErrorValues(), ref.costs, w.letters, true, &cfg);
    randomWeights(r, w, m.getIndexWeights(), ref.weights);
    c.log("docs %s", describeDocs(w.docs).c_str());
    c.log("costs%s", cfg.c_str());
    c.count("documents", w.docs.size());
    int queries = r.range(2, 5);
    for(int i = 0; i < queries; i++) {
        if(i && r.chance(10)) { // re-index some documents: occurrences accumulate
            std::vector<RefDoc> again;
            for(auto &d : w.docs) if(r.chance(40)) again.push_back(d);
            indexSome(again);
            w.docs.insert(w.docs.end(), again.begin(), again.end());
            c.count("reindexed_documents", again.size());
        }
        if(i && r.chance(30)) { randomWeights(r, w, m.getIndexWeights(), ref.weights); c.count("weight_changes_between_queries"); }
        if(i && r.chance(20)) { cfg += " +"; randomCosts(r, m.getErrorValues(), ref.costs, w.letters, false, &cfg); c.count("cost_changes_between_queries"); }
        if(i && r.chance(5)) { m.getErrorValues().clearErrors(); ref.costs.sub.clear(); cfg += " cleared"; }
        std::vector<Letters> q = w.query(r, true);
        std::string text = anyEmpty(q) ? "" : textOf(r, q);
        bool textOk = !anyEmpty(q);
        c.count("queries");
        uint64_t pairs = 0;
        if(mode == 2) {
            RefResult want = ref.match(q, true, nullptr, nullptr, &pairs);
            std::string d = showWords(q) + " costs" + cfg;
            compareResults(want, readResults(m.match(listFrom(q)), "match"), "match", d);
            if(textOk) {
                compareResults(want, readResults(m.match(text.c_str()), "match-cstr"), "match-cstr", d);
                compareResults(want, readResults(m.match(std::string(text)), "match-string"), "match-string", d);
                c.count("text_form_queries");
            }
            SearchParameters sp;
            bool dyn = r.chance(50);
            sp.setDynamic(dyn);
            RefResult want2 = dyn ? want : ref.match(q, false);
            if(!dyn && want2.size() != want.size()) c.count("dynamic_mode_changed_result");
            compareResults(want2, readResults(m.match(listFrom(q), sp), "match-params"), "match-params", d + (dyn ? " dynamic" : " static"));
            if(textOk) compareResults(want2, readResults(m.match(text.c_str(), sp), "match-cstr-params"), "match-cstr-params", d);
            c.count("matched_documents", want.size());
            c.count("matched_field_words", pairs);
            c.maxi("max_documents", w.docs.size());
            note(c, w, q, hashStr(cfg), want, "match");
        } else if(mode == 3) {
            SearchParameters sp;
            Filters f;
            f.build(r, w, sp, true);
            bool dyn = r.chance(85);
            sp.setDynamic(dyn);
            RefResult unfiltered = ref.match(q, dyn, &f.noSearch);
            RefResult want = ref.match(q, dyn, &f.noSearch, &f.ref);
            std::string d = showWords(q) + " filter" + f.text + " costs" + cfg;
            compareResults(want, readResults(m.match(listFrom(q), sp), "filtered"), "filtered", d);
            if(textOk) compareResults(want, readResults(m.match(text.c_str(), sp), "filtered-cstr"), "filtered-cstr", d);
            if(r.chance(30)) compareResults(ref.match(q), readResults(m.match(listFrom(q)), "match-after-filter"), "match-after-filter", d);
            c.count("kept_documents", want.size());
            c.count("filtered_out_documents", unfiltered.size() - want.size());
            if(want.size() && want.size() < unfiltered.size()) c.count("partial_filters");
            if(!f.noSearch.empty()) c.count("queries_with_nonsearching_fields");
            if(unfiltered.size() != want.size() || !f.noSearch.empty()) note(c, w, q, hashStr(f.text), unfiltered, "filter" + f.text);
        } else {
            // primary: a field, a word of a text, or unknown
            Letters primary;
            int k = r.range(0, 19);
            if(k < 15) primary = w.fieldNames[r.below(w.fieldNames.size())];
            else if(k < 17) primary = w.vocab[r.below(w.vocab.size())];
            else primary = toLetters(mutate(r, lettersToCps(w.fieldNames[0]), w.alpha, 2));
            if(r.chance(20)) { // a filtered query in between must not make names known
                SearchParameters sp;
                Filters f;
                f.build(r, w, sp, true);
                sp.getResultFilter().addNewSubTerm(wordFromLetters(primary), wordFromLetters(primary));
                m.match(listFrom(q), sp);
            }
            RefResult want;
            uint64_t perfect = 0;
            bool ok = ref.online(q, primary, want, &perfect);
            std::string d = showWords(q) + " primary " + show(primary) + " costs" + cfg;
            bool threw = false;
            RefResult got;
            try { got = readResults(m.onlineMatch(listFrom(q), wordFromLetters(primary)), "online"); }
            catch(const std::invalid_argument &) { threw = true; }
            if(threw && ok) fail("online-rejected", "%s: known primary name rejected", d.c_str());
            if(!threw && !ok) fail("online-accepted", "%s: unknown primary name accepted", d.c_str());
            if(ok) compareResults(want, got, "online", d);
            else c.count("rejected_primaries");
            c.count("perfect_matches", perfect);
            c.count("online_documents", want.size());
            RefResult plain = ref.match(q);
            bool extra = false;
            for(auto &x : want) { if(!plain.count(x.first)) { c.count("exact_only_documents"); extra = true; } else if(plain[x.first] != x.second) extra = true; }
            if(extra) note(c, w, q, hashWords({primary}), want, "online " + show(primary));
        }
    }
}

/* ---- C05 ---- */
struct Query {
    int kind = 0;              // 0 plain 1 params 2 online 3 failing text 4 failing online 5 c-string
    std::vector<Letters> q;
    Letters primary;
    std::string text;
    uint64_t filterSeed = 0;
    std::string show_;
};
struct Outcome {
    bool threw = false;
    RefResult res;
};
static Outcome ask(Matcher &m, World &w, const Query &q) {
    Outcome o;
    try {
        if(q.kind == 0) o.res = readResults(m.match(listFrom(q.q)), "match");
        else if(q.kind == 1) {
            SearchParameters sp;
            Filters f;
            Rng fr(q.filterSeed);
            f.build(fr, w, sp, true);
            o.res = readResults(m.match(listFrom(q.q), sp), "filtered");
        } else if(q.kind == 2 || q.kind == 4) o.res = readResults(m.onlineMatch(listFrom(q.q), wordFromLetters(q.primary)), "online");
        else o.res = readResults(m.match(q.text.c_str()), "match-cstr");
    } catch(const Violation &) { throw; }
    catch(const std::exception &) { o.threw = true; }
    return o;
}
static void mode5(Ctx &c) {
    Rng &r = c.rng;
    World w;
    const bool repeats = r.chance(30); // the same document several times, with other texts
    w.generate(c, !repeats);
    if(repeats && r.chance(60)) for(auto &d : w.docs) if(r.chance(40)) d.id = w.docs[r.below(w.docs.size())].id;
    if(w.docs.size() > 60) w.docs.resize(60);
    Rng cfgRng = r;
    std::string cfg;
    std::vector<std::unique_ptr<Costs>> costs;
    std::map<Letters, double> wt;
    auto configure = [&](Matcher &m) {
        Rng cr = cfgRng;
        costs.emplace_back(new Costs());
        cfg.clear();
        wt.clear();
        randomCosts(cr, m.getErrorValues(), *costs.back(), w.letters, true, &cfg);
        randomWeights(cr, w, m.getIndexWeights(), wt);
    };
    auto scalars = [](Matcher &m, const Costs &k) {
        ErrorValues &e = m.getErrorValues();
        e.setInsertionError(k.ins); e.setDeletionError(k.del); e.setEndDeletionError(k.endDel); e.setStartInsertionError(k.startIns); e.setTransposeError(k.trans); e.setSubstringStartLimit(k.startLimit);
    };
    auto otherSettings = [&](Matcher &m, Rng &r) { // weights and costs that undo() takes back
        for(auto &f : w.fieldNames) if(r.chance(60)) m.getIndexWeights().setWeight(wordFromLetters(f), r.chance(30) ? 0 : r.unit() * 5);
        Costs k;
        k.ins = r.range(0, 150); k.del = r.range(0, 150); k.endDel = r.range(0, 150); k.startIns = r.range(0, 150); k.trans = r.range(0, 150); k.startLimit = r.below(6);
        scalars(m, k);
    };
    auto undo = [&](Matcher &m) {
        for(auto &f : w.fieldNames) m.getIndexWeights().setWeight(wordFromLetters(f), wt.count(f) ? wt[f] : 1.0);
        scalars(m, *costs.back());
    };
    std::set<Letters> known;
    for(auto &d : w.docs) for(auto &f : d.fields) { known.insert(f.first); known.insert(f.second.begin(), f.second.end()); }
    std::vector<Query> queries;
    int n = r.range(3, 8);
    for(int i = 0; i < n; i++) {
        Query q;
        int k = r.range(0, 11);
        q.kind = k < 3 ? 0 : k < 6 ? 1 : k < 9 ? 2 : k == 9 ? 3 : k == 10 ? 4 : 5;
        q.q = w.query(r, q.kind < 3);
        q.filterSeed = r.next();
        q.primary = w.fieldNames[r.below(w.fieldNames.size())];
        if(q.kind == 2 && r.chance(15)) q.primary = w.vocab[r.below(w.vocab.size())];
        if(q.kind == 4) q.primary = r.chance(50) ? toLetters(Cps{'q', 'q', 'z'}) : toLetters(Cps{'n', 'o', 'n', 'e', (uint32_t)('0' + r.below(10))}); // names that filters mention, never indexed
        if(q.kind == 4 && known.count(q.primary)) q.kind = 2; // the generator happened to index that name
        if(q.kind == 3) q.text = textOf(r, q.q) + " \xc3\x28" + "x";
        if(q.kind == 5) q.text = textOf(r, q.q);
        q.show_ = fmt("kind %d ", q.kind) + showWords(q.q) + " primary " + show(q.primary);
        queries.push_back(q);
    }
    // One call, given order
    std::unique_ptr<Matcher> a(new Matcher), b(new Matcher);
    configure(*a);
    {
        std::unique_ptr<Corpus> corpus(new Corpus);
        std::vector<Document> live;
        for(auto &d : w.docs) { live.push_back(w.document(r, d)); corpus->addDocument(live.back()); }
        a->index(*corpus);
        // Later changes to the sources have no effect.
        for(auto &d : live) if(r.chance(50)) d.addText(wordFromLetters(w.fieldNames[0]), listFrom({w.vocab[0], w.vocab[0]}));
        if(r.chance(50)) corpus->addDocument(live.empty() ? Document(1) : live[0]);
        if(r.chance(50)) corpus.reset();
    }
    // Several calls, permuted order, configured afterwards
    std::vector<RefDoc> perm = w.docs;
    r.shuffle(perm);
    // What is indexed last for an id counts, so the texts of one id keep their order.
    std::map<uintptr_t, std::vector<size_t>> of;
    for(size_t i = 0; i < w.docs.size(); i++) of[w.docs[i].id].push_back(i);
    std::map<uintptr_t, size_t> taken;
    for(auto &d : perm) { uintptr_t id = d.id; d = w.docs[of[id][taken[id]++]]; }
    if(of.size() < w.docs.size()) c.count("cases_with_repeated_ids");
    const bool early = r.chance(50); // settings come before the documents
    if(early) configure(*b);
    size_t calls = 0;
    for(size_t i = 0; i < perm.size();) {
        Corpus corpus;
        size_t k = 1 + r.below(perm.size() - i);
        for(size_t j = 0; j < k; j++) corpus.addDocument(w.document(r, perm[i + j]));
        b->index(corpus);
        if(r.chance(30)) b->index(Corpus());
        i += k; calls++;
        if(r.chance(40) && i < perm.size()) { ask(*b, w, queries[r.below(queries.size())]); c.count("queries_between_indexing"); }
    }
    if(!early) configure(*b);
    c.log("docs %s", describeDocs(w.docs).c_str());
    // Baseline: every query on a fresh matcher of its own (only some, for cost), else first asked order
    std::vector<Outcome> first(queries.size());
    for(size_t i = 0; i < queries.size(); i++) first[i] = ask(*a, w, queries[i]);
    auto same = [&](const Outcome &x, const Outcome &y, const Query &q, const char *what) {
        if(x.threw != y.threw) fail(std::string(what) + "-exception", "%s: query %s %s the first time and %s now", what, q.show_.c_str(), x.threw ? "failed" : "succeeded", y.threw ? "fails" : "succeeds");
        compareResults(x.res, y.res, what, q.show_ + " costs" + cfg);
    };
    for(size_t i = 0; i < queries.size(); i++) same(first[i], ask(*a, w, queries[i]), queries[i], "repeated");
    std::vector<size_t> order;
    for(size_t i = 0; i < queries.size(); i++) { order.push_back(i); if(r.chance(30)) order.push_back(i); }
    r.shuffle(order);
    for(size_t i : order) same(first[i], ask(*b, w, queries[i]), queries[i], "reordered");
    if(r.chance(60)) { // other settings for a while
        Matcher &x = r.chance(50) ? *a : *b;
        otherSettings(x, r);
        for(size_t i : order) if(r.chance(50)) ask(x, w, queries[i]);
        undo(x);
        for(size_t i = 0; i < queries.size(); i++) same(first[i], ask(x, w, queries[i]), queries[i], "settings-restored");
        c.count("settings_changed_and_restored");
    }
    size_t probe = r.below(queries.size());
    Matcher fresh;
    { Corpus corpus; for(auto &d : w.docs) corpus.addDocument(w.document(r, d)); fresh.index(corpus); configure(fresh); }
    same(first[probe], ask(fresh, w, queries[probe]), queries[probe], "fresh");
    for(size_t i = 0; i < queries.size(); i++) {
        if(queries[i].kind == 3 && !first[i].threw) fail("bad-text", "query with invalid UTF-8 did not fail");
        if(queries[i].kind == 4 && !first[i].threw) fail("unknown-primary", "online match accepted the never indexed name %s", show(queries[i].primary).c_str());
        if(first[i].threw) c.count("failing_queries");
        c.count("queries");
        c.count("results", first[i].res.size());
    }
    c.count("index_calls", calls + 1);
    bool some = false;
    for(auto &f : first) some |= !f.res.empty();
    if(some && calls > 1) {
        uint64_t h = hashDocs(w.docs);
        for(auto &q : queries) h = hashWords(q.q, h ^ q.kind ^ q.filterSeed);
        c.nontrivial(h);
        if(c.caseNo < 60) c.sample(fmt("%zu documents in %zu calls, %zu queries, e.g. %s -> %s", w.docs.size(), calls, queries.size(), queries[0].show_.c_str(), showResult(first[0].res).c_str()));
    }
}

static void oneCase(Ctx &c) {
    int mode = (int)c.opt("mode", 2);
    if(mode == 5) mode5(c); else modes234(c, mode);
}
int main(int argc, char **argv) { return runDriver(argc, argv, "matcher", oneCase); }
