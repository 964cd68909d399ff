"""What each property's check runs."""
import os, shutil, subprocess
from . import build, kill, runner, work

SPECS = {}


def spec(prop, level, rule, meaning=None, assumptions=()):
    def deco(fn):
        SPECS[prop] = (level, rule, meaning, list(assumptions), fn)
        return fn
    return deco


def run(r):
    level, rule, meaning, assumptions, fn = SPECS[r.prop]
    r.assumptions = assumptions
    fn(r)
    return r.finish(level, rule, meaning)


def n(r, quick, thorough):
    return thorough if r.thorough else quick


@spec("C01", "exploration",
      "Each case builds a random index, cost configuration, query and limit from the seed and compares every search with a reference distance to every indexed word. Non-trivial: the expected result has at least one word at a non-zero distance; distinct by (costs, limit, query, index).")
def c01(r):
    r.stage("search", "asan", n(r, 20000, 3000000))
    r.stage("search", "u32", n(r, 6000, 800000), optional=True, first=10000000)
    r.stage("search", "rel", n(r, 40000, 6000000), optional=True, first=20000000)
    scale(r, 1, 42, 14)


def scale(r, mode, rel=40, asan=14, u32=0):
    """Sizes around the powers of two up to 2^17 (harness/scale.cc)."""
    q = {"mode": mode}
    r.stage("scale", "rel", n(r, rel, rel * 40), q, optional=True, first=60000000)
    r.stage("scale", "asan", n(r, asan, asan * 20), q, optional=True, first=70000000)
    if u32:
        r.stage("scale", "u32", n(r, u32, u32 * 20), q, optional=True, first=80000000)


def matcher_stages(r, mode, quick):
    q = {"mode": mode}
    r.stage("matcher", "asan", n(r, quick, quick * 80), q)
    r.stage("matcher", "u32", n(r, quick // 3, quick * 25), q, optional=True, first=10000000)
    r.stage("matcher", "rel", n(r, quick * 2, quick * 160), q, optional=True, first=20000000)
    scale(r, mode, 40, 10)


@spec("C02", "exploration",
      "Each case builds random documents (small alphabets, repeated ids, re-indexing), costs and weights and compares every form of several queries with a reference matcher that computes all distances and relevancies itself. Non-trivial: the expected result is not empty; distinct by (documents, costs, query).")
def c02(r):
    matcher_stages(r, 2, 9000)


@spec("C03", "exploration",
      "As C02 with random result filters (terms drawn from the documents, near misses and unknown words) and non-searching fields. Non-trivial: the unfiltered result is not empty and the filter removed documents or a field was not searched; distinct by (documents, filter, query).")
def c03(r):
    matcher_stages(r, 3, 12000)


@spec("C04", "exploration",
      "As C02 with online matches (primary: field, text word or unknown). Non-trivial: some document's relevancy differs from the plain match; distinct by (documents, primary, query).")
def c04(r):
    matcher_stages(r, 4, 14000)


@spec("C05", "exploration",
      "Each case indexes the same documents in one call and in several calls in another order (with queries in between, and with the sources changed afterwards), then asks a random sequence of plain, filtered, online and failing queries repeatedly and in different orders, and on a fresh matcher; all outcomes for one query must agree. Non-trivial: some query has a non-empty result and the second matcher was indexed in several calls; distinct by (documents, queries).")
def c05(r):
    matcher_stages(r, 5, 9000)


def words_stages(r, mode, quick, factor=60, base=0):
    q = {"mode": mode}
    r.stage("words", "asan", n(r, quick, quick * factor), q)
    r.stage("words", "u32", n(r, quick if mode == 6 else quick // 2, quick * factor // 3), q, optional=True)
    r.stage("words", "rel", n(r, quick * 2, quick * factor * 2), q, optional=True)
    scale(r, mode, 80, 20, 20)


@spec("C06", "exploration",
      "Every fourth of the first 4352 cases takes 1024 code points, together every code point once; the others take random texts (12 per case, about half of them damaged: malformed sequences, cut, whitespace) and random letter arrays (8 per case, half with surrogates, whitespace or NUL in odd places), each rendered into buffers of ten sizes around the exact one. Oracle: an own strict UTF-8 decoder plus ICU's simple lower-case mapping. Non-trivial: more than one byte of text, or a code point block; distinct by bytes.")
def c06(r):
    words_stages(r, 6, 4400)


@spec("C07", "exploration",
      "Each case runs 20-120 random operations over 3-7 words (construct, copy, move, assign, failing assign, self assign, join, swap, destroy) and compares every touched word with a list-of-letters model, then compares equality, order and hashes over all pairs. Non-trivial: more than three copies or moves; distinct by operation sequence and alphabet.",
      assumptions=["an object that was moved from is only destroyed or assigned to; self-move is not exercised"])
def c07(r):
    words_stages(r, 7, 8000)


@spec("C08", "exploration",
      "Each case splits one random text (any code points, runs of separators, about a fifth damaged; a quarter with custom ASCII separators) and compares with a reference that cuts at separator bytes and decodes each run strictly. Non-trivial: at least two words, or a failing text; distinct by bytes.")
def c08(r):
    words_stages(r, 8, 120000)


def triple(r, driver, quick, opts=None, factor=60, u32=0.4, rel=2):
    """The three standard builds: sanitizers, 32-bit letters with sanitizers, release."""
    r.stage(driver, "asan", n(r, quick, quick * factor), opts)
    r.stage(driver, "u32", n(r, int(quick * u32), int(quick * u32 * factor)), opts, optional=True, first=10000000)
    r.stage(driver, "rel", n(r, quick * rel, quick * rel * factor), opts, optional=True, first=20000000)


@spec("C09", "exploration",
      "Each case runs random getID/hasWord/getWord calls (20 to 12000) over one to three stores with words that are prefixes, extensions and siblings of stored ones, comparing every answer with a map and a list; at the end every id and word is read back. Non-trivial: more than five words stored; distinct by the sequence of stored words.")
def c09(r):
    triple(r, "store", 4000, {"mode": 9})
    scale(r, 9, 48, 16)


@spec("C10", "exploration",
      "Each case inserts random words (prefixes, extensions, repeats, the empty word) with sparse ids into one index, interleaved with searches, membership tests and count queries, all compared with a map; finally each word, its longest proper prefix and an extension are tested. Non-trivial: some word inserted twice and more than two words; distinct by insertion sequence.")
def c10(r):
    triple(r, "store", 4000, {"mode": 10})
    scale(r, 10, 48, 16)


@spec("C11", "exploration",
      "Each case applies random pair and group settings (also equal letters, rejected groups, clears) to one to three objects and after each step compares the cost of all pairs of a letter pool around the table limit with the rule; some cases sweep the table range. Non-trivial: a pair inside a group was set or a group was rejected; distinct by settings.")
def c11(r):
    triple(r, "errors", 16000, {"mode": 11})
    scale(r, 11, 48, 16, 16)


@spec("C12", "exploration",
      "Each case loads random combinations of keyboard, number pad, Latin, Greek and standard tables from the shipped or a generated data directory (also missing files, clashing groups, with and without trailing slash) and compares the cost of all pairs of all letters involved with independently written tables; case 0 examines the shipped files. Non-trivial: at least one table was loaded; distinct by tables and directory.")
def c12(r):
    triple(r, "errors", 3000, {"mode": 12})
    scale(r, 12, 40, 10, 10)


@spec("C13", "exploration",
      "Each case runs 5-80 random operations over 2-5 result objects (add, bulk add also to itself, copy one, copy, move, assign, swap, read) and compares with a list sorted stably. Non-trivial: equal relevancies were read and single results copied; distinct by operation sequence.",
      assumptions=["relevancies are not NaN; an object that was moved from is only destroyed or assigned to"])
def c13(r):
    triple(r, "results", 30000)
    scale(r, 13, 48, 16)


@spec("C14", "exploration",
      "Each case runs 15-90 random operations over documents, corpora, word lists, filters, search parameters and weights (overwriting, copying, moving, self references, failing calls) and compares contents, counts and exceptions with plain maps and lists. Non-trivial: at least one copy or self reference; distinct by operation sequence.",
      assumptions=["an object that was moved from is only destroyed or assigned to"])
def c14(r):
    triple(r, "containers", 10000)
    scale(r, 14, 50, 20)


@spec("C15", "exploration",
      "Each case makes the same words, documents, weights, modes and queries through the C and the C++ interface (with bad text, short buffers, positions past the end, sources changed after use) and compares every answer. Non-trivial: some query has results; distinct by documents, modes and queries.")
def c15(r):
    triple(r, "capi", 3000)
    scale(r, 15, 36, 12)


@spec("C16", "exploration",
      "A Python interpreter with the bindings compiled in (sanitized build, 32-bit letters, release) runs random cases: words and splits, values held while owners are changed, dropped and collected, error tables and weights, whole matches; each outcome is compared with the same calls made in C++ in the same process, or with a list model. Non-trivial: a match with results, or any other kind of case; distinct by operations.",
      assumptions=["Python text contains no NUL character"])
def c16(r):
    triple(r, "pyhost", 4000)


@spec("C17", "exploration",
      "Each case is a random walk of 30-1200 calls over all classes and the C interface, with damaged text, odd letters, positions past the end, extreme costs and objects dropped at random; judged by ASan, UBSan, libstdc++ and library assertions, valgrind memcheck (uninitialised data) and the process status, in builds with 16- and 32-bit letters and with and without assertions. Non-trivial: the walk used more than ten kinds of call and met an exception; distinct by call sequence.",
      assumptions=["costs between 0 and a million, weights up to 1e9 and not NaN", "an object that was moved from is only destroyed or assigned to"])
def c17(r):
    triple(r, "fuzz", 4000)
    r.stage("scale", "asan", n(r, 98, 2000), {"mode": 17}, optional=True, first=49000000)
    r.stage("scale", "u32", n(r, 49, 1000), {"mode": 17}, optional=True, first=98000000)
    r.stage("fuzz", "dbgstd", n(r, 1500, 100000), optional=True, first=30000000)
    r.stage("fuzz", "rel", n(r, 48, 6000), {"steps": 120}, optional=True, first=40000000, case_cpu=600,
            wrapper=["valgrind", "-q", "--error-exitcode=96", "--leak-check=no", "--exit-on-first-error=yes", "--track-origins=no"])
    r.stage("fuzz", "rel32", n(r, 24, 3000), {"steps": 120}, optional=True, first=50000000, case_cpu=600,
            wrapper=["valgrind", "-q", "--error-exitcode=96", "--leak-check=no", "--exit-on-first-error=yes", "--track-origins=no"])


@spec("C20", "exploration",
      "Each case starts a fresh process in which 2-6 threads run random sessions over their own objects at the same time (a third of the cases: all the same session in step), then replays each session alone and compares every observation; in two fifths of the cases they instead make const calls on the same objects (searches of one index, reads of one store, corpus, ranking, cost table), mostly beginning with the same call so that first uses meet, and the answers are compared with those of one thread afterwards. Judged by ThreadSanitizer (both hash maps) and by the comparison (also under ASan and in the release build). Non-trivial: at least two threads were running at once; distinct by the sessions' call sequences.",
      assumptions=["no thread changes the environment", "uninstrumented libc and libstdc++ are race-free"])
def c20(r):
    r.stage("threads", "tsan", n(r, 500, 40000), optional=True, extra_link=("-pthread",))
    r.stage("threads", "tsanstd", n(r, 300, 20000), optional=True, first=10000000, extra_link=("-pthread",))
    r.stage("threads", "asan", n(r, 300, 20000), first=20000000, extra_link=("-pthread",))
    r.stage("threads", "rel", n(r, 1200, 100000), optional=True, first=30000000, extra_link=("-pthread",))


def surroundings(r):
    """Builds and environments for the surroundings of C21; Turkish has case rules and number formats of its own."""
    d = os.path.join(build.BUILD, "locales")
    want = {"tr_TR.ISO-8859-9": "ISO-8859-9", "tr_TR.UTF-8": "UTF-8"}
    for n, charset in want.items():
        if not os.path.isdir(os.path.join(d, n)):
            try:
                os.makedirs(d, exist_ok=True)
                subprocess.run(["localedef", "-i", "tr_TR", "-f", charset, os.path.join(d, n)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            except (OSError, subprocess.SubprocessError):
                pass
    if not all(os.path.isdir(os.path.join(d, n)) for n in want):
        r.notes.append("localedef does not work here: the surroundings have the locale C.UTF-8 with other number rules")
    return [("dbg", {"LOCPATH": d, "VP_LOCALE": "tr_TR.ISO-8859-9"}), ("rel", {"LOCPATH": d, "VP_LOCALE": "tr_TR.UTF-8"})]


def setting(name, other):
    if " " not in name:
        return []
    k = int(name.split()[-1])
    return ["env", *("%s=%s" % x for x in other[k - 1][1].items()), "VP_SURROUNDINGS=%d" % k]


@spec("C21", "exploration",
      "The same random sessions (text in the basic plane) run in builds that differ in letter width, hash map, assertions and optimisation, and twice more in other surroundings (Turkish locales for C and C++ with their own case rules and number formats, another working directory, a umask of 0777, TMPDIR that does not exist, heap and stack filled with patterns); each logs everything observable, and the logs are compared record by record (reals within 1e-9). Non-trivial: a search or match had results; distinct by call sequence.",
      assumptions=["text in the basic multilingual plane", "order among equal relevancies is not compared"])
def c21(r):
    count = n(r, 2500, 150000)
    step = 2500 if not r.thorough else 10000
    first = 0
    # every build differs from the reference in one option or in several
    variants = ["dbg", "rel", "rel32", "dbgstd", "u32", "asan"]
    # the same build in other surroundings
    other = surroundings(r)
    while first < count and not r.unlisted() and r.left() > 30:
        logs = {}
        for v in variants:
            d = os.path.join(r.tmp, "log-" + v)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            if r.stage("portable", v, min(step, count - first), env={"VP_LOG": d}, optional=v != "dbg", first=first):
                logs[v] = d
        for k, (v, env) in enumerate(other):
            v2 = "%s in surroundings %d" % (v, k + 1)
            d = os.path.join(r.tmp, "log-other-%d" % k)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            if not r.unlisted() and r.stage("portable", v, min(step, count - first), env=dict(env, VP_LOG=d, VP_SURROUNDINGS=str(k + 1)), optional=True, first=first):
                logs[v2] = d
        if r.unlisted() or "dbg" not in logs or any("time budget" in x for x in r.notes):
            break
        cmp = build.driver("rel", "cmplog")
        for v, d in logs.items():
            if v == "dbg":
                continue
            for f in sorted(os.listdir(logs["dbg"])):
                o = subprocess.run([cmp, os.path.join(logs["dbg"], f), os.path.join(d, f)], stdout=subprocess.PIPE, text=True)
                if o.returncode != 0:
                    r.notes.append("log %s of %s is missing" % (f, v))
                elif o.stdout.startswith("DIFF"):
                    case = o.stdout.split()[1]
                    r.violation("build-difference", "build %s and build %s differ: case %s" % ("dbg", v, o.stdout[5:].strip()),
                                [[*setting(b, other), build.driver(b.split()[0], "portable"), "--seed", str(r.seed), "--first", case, "--count", "1"] for b in ("dbg", v)])
                else:
                    r.counters["records_compared"] = r.counters.get("records_compared", 0) + int(o.stdout.split()[1])
        first += step


WRAP_FAULTS = tuple("-Wl,--wrap=" + f for f in (
    "tmpfile tmpfile64 mkstemp mkstemp64 mkostemp memfd_create ftruncate ftruncate64 posix_fallocate mmap mmap64 munmap "
    "iconv_open iconv_close strdup fopen fopen64 open open64").split())
WRAP_MAPS = ("-Wl,--wrap=mmap", "-Wl,--wrap=mmap64", "-Wl,--wrap=munmap")


@spec("C18", "exploration",
      "Each case runs one random session (as C17) three times in one process; heap bytes (sanitizer count), descriptors, mappings of deleted files and pages mapped by the library must not grow from run to run. Kill points: a scenario of indexing, matching, storing and failing calls is killed at every file-related system call (strace injection), and whatever it created must be gone. Non-trivial: a session that mapped pages and met an exception, or a kill point; distinct by call sequence or kill point.",
      assumptions=["one-time growth (converter tables, stdio) during the first run is not a leak", "what a killed process may leave between a create call and the directly following unlink of the same name is not counted (the C library's tmpfile falls back to that where O_TMPFILE is missing)"])
def c18(r):
    r.stage("leaks", "asan", n(r, 2500, 150000), extra_link=WRAP_MAPS)
    r.stage("leaks", "u32", n(r, 1000, 60000), optional=True, first=10000000, extra_link=WRAP_MAPS)
    r.stage("faults", "asan", n(r, 140, 14000), {"leaks": 1, "limit": 150}, extra_link=WRAP_FAULTS, first=20000000)
    r.stage("faults", "u32", n(r, 70, 7000), {"leaks": 1, "limit": 150}, optional=True, extra_link=WRAP_FAULTS, first=30000000)
    if not r.unlisted() and r.left() > 30:
        kill.run(r, n(r, 2, 40))


@spec("C19", "fault_enumeration",
      "Each case is one scenario (store, index, matcher, words, containers, error values, C interface). It runs once to count its failure points - every allocation, temporary file, open, truncate, mmap, iconv_open, strdup of every library call - and then again from scratch with a failure at each point in turn (at a sample of 300 if there are more), with everything failing from a point to the end of the call, with real descriptor and file-size limits during a call, and with random faults. Non-trivial: more than five failure points and at least one call threw; distinct by scenario seed.",
      assumptions=["sparsehash itself ends the process when malloc fails, so its own allocations are not failed (the std hash map's are)", "munmap and madvise are not failed"])
def c19(r):
    r.stage("faults", "asan", n(r, 280, 30000), extra_link=WRAP_FAULTS)
    r.stage("faults", "u32", n(r, 140, 15000), optional=True, first=10000000, extra_link=WRAP_FAULTS)
    r.stage("faults", "rel", n(r, 420, 60000), optional=True, first=20000000, extra_link=WRAP_FAULTS)


@spec("C22", "exploration",
      "Each case inserts random words (prefixes, extensions, siblings, repeats, long ones; sparse ids) into one to three tries and, at quiescent points and at the end, walks each trie from the root: nodes, letters, marks, parents, siblings, counters and the words read back are compared with the set of prefixes of the stored words. Non-trivial: more than three words; distinct by insertion sequence.")
def c22(r):
    triple(r, "trie", 3000)


@spec("C23", "exploration",
      "Each series runs one workload (50 of them, over all classes) at four sizes, each twice the last, and counts the instructions (cachegrind) and the peak bytes (heap and mappings) of the part under test. Linear workloads may grow by 2.8 per doubling and by 11.5 for eight times the size (room for logarithms and rehashing), flat ones (lookups, searches that are out of reach) by 1.6 and 2.1, and bytes by three times the size. Non-trivial: all four sizes were measured; distinct by workload, seed and build.",
      assumptions=["alphabets of bounded size: the children of a trie node form a list"])
def c23(r):
    work.run(r, "rel", [r.seed] if not r.thorough else range(r.seed * 100, r.seed * 100 + 12))
    if not r.unlisted():
        work.run(r, "rel32", [r.seed + 1] if not r.thorough else range(r.seed * 100 + 50, r.seed * 100 + 56), optional=True)
    if r.thorough and not r.unlisted():
        work.run(r, "rel", [r.seed], factor=4)


@spec("C24", "exploration",
      "Each case writes a file of 0 to 1500 words (related words, duplicates, empty lines, upper case, lines around the sizes of usual buffers, with and without a final line break, sometimes malformed), runs the tool on it with a query and a limit, and compares what it prints and its exit status with the reference distance. Built with sanitizers (16- and 32-bit letters) and as a release. Non-trivial: the tool printed a word; distinct by file, query and limit.")
def c24(r):
    for v, count, first in (("asan", n(r, 900, 40000), 0), ("u32", n(r, 500, 20000), 10000000), ("rel", n(r, 3000, 150000), 20000000)):
        try:
            tool = build.tool(v, "queryindex")
        except build.BuildError as e:
            if v == "rel":
                raise runner.Inconclusive(str(e))
            r.notes.append("stage tool/%s skipped: this build variant does not compile" % v)
            continue
        r.stage("tool", v, count, env={"VP_TOOL": tool}, optional=v != "rel", first=first)
