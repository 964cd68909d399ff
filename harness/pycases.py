"""Random calls of the Python bindings, compared with the same calls made in C++ and with simple models."""
import sys, random, struct, mmap, os, json, hashlib, gc, traceback
import columbus, colref

LAT = "abcdefgijklmnopqrstuvwxyz0123456789"
WIDE = "åäöéèñüßøæαβγδάέύжщłőžçğ漢字あア한가฿₿€ﬁĿ" + "\U0001F600\U00010400\U0001D400\U00020000"


class Viol(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


def check(c, key, msg, *a):
    if not c:
        raise Viol(key, msg % a)


counters = {}


def count(k, n=1):
    counters[k] = counters.get(k, 0) + n


def word_text(r, small=False):
    n = r.choice((1, 1, 2, 3, 3, 4, 5, 6, 8, 14))
    pool = "abcd" if small else (LAT if r.random() < .6 else LAT + WIDE + "ABCÅÄÖÉΑΒЖ")
    return "".join(r.choice(pool) for _ in range(n))


def text(r, small=False, bad=True):
    parts = [word_text(r, small) for _ in range(r.choice((0, 1, 1, 2, 3, 4, 6)))]
    s = "".join(p + r.choice((" ", " ", "  ", "\t", "\n", "\r\n")) for p in parts)
    if r.random() < .2:
        s = " " + s
    return s


def u8(s):
    return s.encode("utf-8")


def attempt(f, *a):
    """Value, or the exception's class name."""
    try:
        return ("ok", f(*a))
    except Exception as e:
        return ("exc", type(e).__name__, e)


def strings(l):
    return [l[i].get_string() for i in range(len(l))]


def same_exc(got, want, what):
    check(got[0] == "exc", "exception", "%s: C++ throws %s, Python returned a value", what, want)
    check(issubclass(type(got[2]), (ValueError, IndexError, RuntimeError, MemoryError, OverflowError)) and got[1] == want,
          "exception", "%s: C++ throws %s, Python %s", what, want, got[1])
    count("exceptions_compared")


def case_words(r):
    for _ in range(r.randint(5, 25)):
        t = text(r) if r.random() < .3 else word_text(r)
        if r.random() < .1:
            t += r.choice((" ", "\t", "\n", "\r"))
        ref = colref.word(u8(t))
        got = attempt(columbus.Word, t)
        if ref[0] is None:
            same_exc(got, ref[1], "Word(%a)" % t)
        else:
            check(got[0] == "ok", "word", "Word(%a) raised %s, the C++ constructor does not", t, got[1])
            check(got[1].get_string() == ref[0] and len(got[1]) == ref[1], "word", "Word(%a): got %a length %d, C++ %a length %d", t, got[1].get_string(), len(got[1]), ref[0], ref[1])
            count("words_compared")
        s = text(r)
        ref = colref.split(u8(s))
        got = attempt(columbus.split_to_words, s)
        if isinstance(ref, str):
            same_exc(got, ref, "split_to_words(%a)" % s)
        else:
            check(got[0] == "ok", "split", "split_to_words(%a) raised", s)
            check(strings(got[1]) == ref, "split", "split_to_words(%a): got %a, C++ %a", s, strings(got[1]), ref)
            check([w.get_string() for w in got[1]] == ref, "split", "iterating split_to_words(%a)", s)
            count("splits_compared")
    return ("words",)


def case_hold(r):
    """Values held while their owners change or go away."""
    held = []      # (Word, set of allowed strings)
    held_lists = []  # (WordList, allowed contents)
    lists, models = [], []
    trail = []

    def verify():
        for w, ok in held:
            s = attempt(w.get_string)
            check(s[0] == "ok" and s[1] in ok, "held", "a held word reads %a instead of %a", s[1], ok)
            check(len(w) >= 0, "held", "length")
        for l, m in held_lists:
            got = strings(l)
            check(got in m, "held", "a held word list reads %a instead of one of %a", got, m)
        for l, m in zip(lists, models):
            check(len(l) == len(m) and strings(l) == m, "list", "list reads %a instead of %a", strings(l), m)
        count("held_values_read", len(held) + len(held_lists))
    docs = []      # [Document, {field: [words]}, {field: allowed list shared with held lists}]
    corpus, csize = columbus.Corpus(), 0
    for step in range(r.randint(10, 60)):
        op = r.randrange(15)
        trail.append(op)
        if op == 0 or not lists:
            if r.random() < .5:
                t = text(r)
                lists.append(columbus.split_to_words(t)); models.append([w for w in colref.split(u8(t))])
            else:
                lists.append(columbus.WordList()); models.append([])
        elif op in (1, 2, 3):
            i = r.randrange(len(lists))
            for _ in range(r.choice((1, 1, 2, 5, 40))):
                if models[i] and r.random() < .5:
                    j = r.randrange(len(models[i]))
                    lists[i].add_word(lists[i][j]); models[i].append(models[i][j])
                elif held and r.random() < .3:
                    w = r.choice(held)[0]
                    s = w.get_string()
                    lists[i].add_word(w); models[i].append(s)
                else:
                    s = word_text(r)
                    w = columbus.Word(s)
                    lists[i].add_word(w); models[i].append(w.get_string())
        elif op in (4, 5):
            i = r.randrange(len(lists))
            if models[i]:
                j = r.randrange(len(models[i]))
                held.append((lists[i][j], {models[i][j]}))
                count("words_held")
        elif op == 6:
            i = r.randrange(len(lists))
            e = attempt(lambda: lists[i][len(models[i]) + r.choice((0, 1, 1000))])
            check(e[0] == "exc" and e[1] == "IndexError", "exception", "reading past the end of a list: %s", e[1])
            e = attempt(lambda: lists[i][-1000000])
            check(e[0] == "exc", "exception", "reading at a negative position succeeded")
        elif op == 7:
            i = r.randrange(len(lists))
            lists.append(columbus.WordList(lists[i])); models.append(list(models[i]))
        elif op == 8:
            i = r.randrange(len(lists))
            del lists[i]; del models[i]
            gc.collect()
        elif op in (9, 10):
            if not docs or r.random() < .3:
                i = r.choice((0, 1, 5, 2**31, 2**32 + 7, 2**63))
                d = columbus.Document(i)
                check(d.get_id() == i, "document", "id %d reads as %d", i, d.get_id())
                docs.append([d, {}, {}])
            k = r.randrange(len(docs))
            f, t = r.choice(("title", "body", "ünï", "x")), text(r)
            docs[k][0].add_text(columbus.Word(f), t)
            ws = list(colref.split(u8(t)))
            docs[k][1][f] = ws
            for al in docs[k][2].get(f, []):
                al.append(ws)
        elif op == 11 and docs:
            k = r.randrange(len(docs))
            d, m, shared = docs[k]
            check(d.field_count() == len(m), "document", "field_count %d instead of %d", d.field_count(), len(m))
            for f in ("title", "body", "ünï", "x", "nope"):
                got = attempt(d.get_text, columbus.Word(f))
                if f in m:
                    check(got[0] == "ok" and strings(got[1]) == m[f], "document", "text of %a is %a instead of %a", f, got[0] == "ok" and strings(got[1]), m[f])
                    al = [m[f]]
                    shared.setdefault(f, []).append(al)
                    held_lists.append((got[1], al))
                    count("lists_held")
                    if m[f] and r.random() < .5:
                        held.append((got[1][0], {m[f][0]}))
                else:
                    same_exc(got, "ValueError", "get_text of a missing field")
        elif op == 12 and docs:
            k = r.randrange(len(docs))
            d, m, _ = docs[k]
            if r.random() < .5:
                docs.append([columbus.Document(d), dict(m), {}])
            else:
                corpus.add_document(d); csize += 1
                check(len(corpus) == csize and corpus.size() == csize, "corpus", "size %d instead of %d", len(corpus), csize)
        elif op == 13 and docs:
            k = r.randrange(len(docs))
            docs[k][0] = None
            del docs[k]
            gc.collect()
        elif op == 14:
            for bad in (lambda: columbus.Word(None), lambda: columbus.Word(3), lambda: columbus.Document("x"), lambda: columbus.Document(-1),
                        lambda: lists and lists[0].add_word("abc") or columbus.Word(), lambda: columbus.split_to_words(None), lambda: columbus.Word("\ud800")):
                e = attempt(bad)
                check(e[0] == "exc", "exception", "a call with wrong argument types succeeded")
                count("bad_calls")
        if step % 7 == 6:
            verify()
    lists.clear(); models.clear(); docs.clear()
    gc.collect()
    verify()
    return ("hold", tuple(trail))


def error_ops(r):
    ops = []
    for _ in range(r.choice((0, 1, 2, 4, 8))):
        k = r.randrange(6)
        if k == 0: ops.append(("std",))
        elif k == 1: ops.append(("sub",))
        elif k == 2: ops.append(("end", r.choice((0, 1, 15, 50, 100))))
        elif k == 3 and r.random() < .4: ops.append(("clear",))
        else:
            ops.append(("set", r.choice((97, 98, 99, 100, 0xe5, 511, 512, 0x3b1, 0xffff)), r.choice((97, 98, 99, 120, 0xe4, 511, 513, 0x3b2)), r.choice((0, 1, 20, 30, 99, 100, 150))))
    # the standard tables clash with themselves unless cleared in between
    out, std = [], False
    for o in ops:
        if o[0] == "std":
            if std:
                continue
            std = True
        if o[0] == "clear":
            std = False
        out.append(o)
    return out


def apply_errors(ev, ops):
    for o in ops:
        if o[0] == "std": ev.add_standard_errors()
        elif o[0] == "sub": ev.set_substring_mode()
        elif o[0] == "end": ev.set_end_deletion_error(o[1])
        elif o[0] == "clear": ev.clear_errors()
        else: ev.set_error(o[1], o[2], o[3])


def case_errors(r):
    ops = error_ops(r)
    ev = columbus.ErrorValues()
    apply_errors(ev, ops)
    pairs = [(r.randrange(0x20, 0x400), r.randrange(0x20, 0x400)) for _ in range(40)] + [(a, b) for a in (97, 98, 99, 0xe5, 511, 512, 0x3b1, 0xffff) for b in (97, 98, 120, 0xe4, 511, 513, 0x3b2)]
    got = [ev.get_substitute_error(a, b) for a, b in pairs]
    want = list(colref.costs(ops, pairs))
    for p, g, w in zip(pairs, got, want):
        check(g == w, "errors", "after %a the cost of %a is %d, in C++ %d", ops, p, g, w)
    count("costs_compared", len(pairs))
    check((columbus.ErrorValues.get_default_error(), columbus.ErrorValues.get_substring_default_end_deletion_error()) == tuple(colref.defaults()), "errors", "default errors differ")
    for bad in (lambda: ev.set_error(-1, 5, 5), lambda: ev.set_error(2**40, 5, 5), lambda: ev.get_substitute_error(None, 1)):
        e = attempt(bad)
        check(e[0] == "exc", "exception", "a letter out of range was accepted")
    check([ev.get_substitute_error(a, b) for a, b in pairs] == got, "errors", "a rejected call changed costs")
    iw = columbus.IndexWeights()
    m = {}
    for _ in range(10):
        f = r.choice(("a", "b", "ä", "field"))
        if r.random() < .6:
            v = r.choice((0.0, 0.5, 1.0, 2.5, 1e9, -3.0))
            iw.set_weight(columbus.Word(f), v)
            m[f] = v
        g = iw.get_weight(columbus.Word(f))
        check(g == m.get(f, 1.0), "weights", "weight of %a is %r instead of %r", f, g, m.get(f, 1.0))
        count("weights_compared")
    return ("errors", tuple(ops))


def rows(res):
    n = len(res)
    return [(res.get_document_id(i), res.get_relevancy(i)) for i in range(n)]


def same_rows(a, b):
    if len(a) != len(b) or [x[1] for x in a] != [x[1] for x in b]:
        return False
    return sorted(a) == sorted(b)


def case_match(r):
    small = r.random() < .7
    batches = []
    for _ in range(r.choice((1, 1, 2, 3))):
        batches.append([(r.choice((0, 1, 2, 3, 9, 2**32 + 1)), [(r.choice(("title", "body", "kenttä")), text(r, small)) for _ in range(r.choice((1, 1, 2, 3)))]) for _ in range(r.choice((0, 1, 2, 4)))])
    weights = [(r.choice(("title", "body", "kenttä", "none")), r.choice((0.0, 0.5, 2.0, 7.25))) for _ in range(r.choice((0, 0, 1, 2)))]
    ops = error_ops(r)
    queries = [text(r, small) if r.random() < .5 else word_text(r, small) for _ in range(6)] + [""]
    ops0 = ops
    m = columbus.Matcher()
    ev, iw = m.get_errorvalues(), m.get_indexweights()
    apply_errors(ev, ops)
    for f, v in weights:
        iw.set_weight(columbus.Word(f), v)
    if r.random() < .5:
        del ev
    for b in batches:
        c = columbus.Corpus()
        for i, texts in b:
            d = columbus.Document(i)
            for f, t in texts:
                d.add_text(columbus.Word(f), t)
            c.add_document(d)
        m.index(c)
        del c
    ref = list(colref.match([[(i, [(u8(f), u8(t)) for f, t in ts]) for i, ts in b] for b in batches], [(u8(f), v) for f, v in weights], ops, [u8(q) for q in queries]))
    kept = []
    for q, w in zip(queries, ref):
        got = attempt(m.match, q)
        if isinstance(w, str):
            same_exc(got, w, "match(%a)" % q)
            continue
        w = list(w)
        check(got[0] == "ok", "match", "match(%a) raised %s", q, got[1])
        g = rows(got[1])
        check(same_rows(g, w), "match", "documents %a, costs %a, weights %a, query %a: Python %a, C++ %a", batches, ops, weights, q, g, w)
        kept.append((got[1], g))
        count("matches_compared")
        if g:
            count("matches_with_results")
        for p in (len(g), len(g) + 5):
            for f in (got[1].get_document_id, got[1].get_relevancy):
                e = attempt(f, p)
                check(e[0] == "exc" and e[1] == "IndexError", "exception", "reading result %d of %d: %s", p, len(g), e[1])
    if r.random() < .5:  # other settings, same documents
        ops = ops + [o for o in error_ops(r) if o[0] != "std"][:3]
        apply_errors(m.get_errorvalues(), ops[len(ops0):])
        more = [(r.choice(("title", "body", "kenttä")), r.choice((0.0, 0.25, 3.0)))]
        weights = weights + more
        for f, v in more:
            m.get_indexweights().set_weight(columbus.Word(f), v)
        ref = list(colref.match([[(i, [(u8(f), u8(t)) for f, t in ts]) for i, ts in b] for b in batches], [(u8(f), v) for f, v in weights], ops, [u8(q) for q in queries]))
        for q, w in zip(queries, ref):
            got = attempt(m.match, q)
            check(isinstance(w, str) == (got[0] == "exc"), "match", "match(%a) after a change of settings", q)
            if not isinstance(w, str):
                check(same_rows(rows(got[1]), list(w)), "match", "documents %a, costs %a, weights %a (changed between queries), query %a: Python %a, C++ %a", batches, ops, weights, q, rows(got[1]), list(w))
                count("matches_after_changed_settings")
    total = columbus.MatchResults()
    allrows = []
    for k, g in kept:
        total.add_results(k)
        allrows += g
        if r.random() < .3:
            total.add_results(total)
            allrows += list(allrows)
    g = rows(total)
    check(sorted(g) == sorted(allrows) and [x[1] for x in g] == sorted((x[1] for x in allrows), reverse=True), "results", "added results read %a instead of %a", g, allrows)
    ev2 = m.get_errorvalues() if r.random() < .5 else None
    if ev2:
        want = ev2.get_substitute_error(97, 98)
    iw2 = m.get_indexweights()
    del m
    gc.collect()
    for k, g in kept:
        check(rows(k) == g, "held", "results changed after the matcher went away")
    if ev2:
        check(ev2.get_substitute_error(97, 98) == want, "held", "error values changed after the matcher went away")
        ev2.clear_errors()
    wm = dict((f, v) for f, v in weights)
    for f, v in wm.items():
        check(iw2.get_weight(columbus.Word(f)) == v, "held", "weights changed after the matcher went away")
    count("owners_dropped")
    return ("match", repr(batches), repr(ops), repr(queries)) if any(g for _, g in kept) else None


def case_big(r):
    """Lengths and counts around the powers of two."""
    n = r.choice((255, 1023, 4095, 16383, 32767, 65535)) + r.randrange(4)
    k = r.randrange(4)
    if k == 0:
        t = r.choice(("x", "ä", "漢", "\U0001F600", "xä漢\U0001F600"))
        t = (t * n)[:n]
        w = columbus.Word(t)
        ref = colref.word(u8(t))
        check(w.get_string() == ref[0] == t and len(w) == ref[1], "word", "word of %d characters", n)
        l = columbus.WordList()
        l.add_word(w)
        h = l[0]
        del l, w
        check(h.get_string() == t, "held", "held word of %d characters", n)
        e = attempt(columbus.Word, t + " ")
        same_exc(e, colref.word(u8(t + " "))[1], "Word of %d characters and a space" % n)
    elif k == 1:
        t = " ".join("w%d" % (i % 999) for i in range(n))
        l = columbus.split_to_words(t)
        check(len(l) == n and strings(l) == t.split(), "split", "text of %d words", n)
        for i in range(70):
            l.add_word(l[n - 1])
        check(len(l) == n + 70 and l[n + 69].get_string() == t.split()[-1], "list", "list of %d words", n)
        d = columbus.Document(1)
        d.add_text(columbus.Word("f"), t)
        check(strings(d.get_text(columbus.Word("f"))) == t.split(), "document", "text of %d words", n)
    elif k == 2:
        n = min(n, 16400)
        c = columbus.Corpus()
        for i in range(n):
            d = columbus.Document(i)
            d.add_text(columbus.Word("f"), "w%d common" % (i % 100))
            c.add_document(d)
        check(len(c) == n, "corpus", "corpus of %d documents", n)
        m = columbus.Matcher()
        m.index(c)
        g = rows(m.match("common"))
        check(sorted(x[0] for x in g) == list(range(n)), "match", "%d of %d documents have a word of all", len(g), n)
        g = rows(m.match("w9"))
        check(g and g[0][0] % 100 == 9, "match", "best result among %d documents", n)
        total = columbus.MatchResults()
        res = m.match("common")
        for i in range(1 + 65600 // n if n > 2000 else 3):
            total.add_results(res)
        check(len(total) == n * i + n, "results", "%d results added %d times read %d", n, i + 1, len(total))
    else:
        ev = columbus.ErrorValues()
        n = min(n, 40000)
        for i in range(n):
            ev.set_error(0x300 + i % 200, 0x400 + i // 200, i % 997)
        for i in range(0, n, 7):
            check(ev.get_substitute_error(0x400 + i // 200, 0x300 + i % 200) == i % 997, "errors", "cost %d of %d", i, n)
        ev.clear_errors()
        check(ev.get_substitute_error(0x400, 0x300) == 100, "errors", "cost after clearing %d", n)
    count("big_cases")
    return ("big", k, n)


def run_case(r):
    if r.randrange(100) == 0:
        return case_big(r)
    k = r.randrange(10)
    if k < 2: return case_words(r)
    if k < 6: return case_hold(r)
    if k < 7: return case_errors(r)
    return case_match(r)


def main(argv):
    o = dict(seed=1, first=0, count=1, progress=None, hashes=None)
    verbose = False
    i = 0
    while i < len(argv):
        a = argv[i]
        if a == "--verbose": verbose = True
        elif a == "--thorough": pass
        elif a == "--opt": i += 1
        elif a[2:] in o:
            i += 1
            o[a[2:]] = argv[i] if a[2:] in ("progress", "hashes") else int(argv[i])
        i += 1
    prog = None
    if o["progress"]:
        fd = os.open(o["progress"], os.O_RDWR | os.O_CREAT, 0o600)
        os.ftruncate(fd, 16)
        prog = mmap.mmap(fd, 16)
        os.close(fd)
    seen, nviol, done = set(), 0, 0
    for c in range(o["first"], o["first"] + o["count"]):
        if prog:
            prog[:16] = struct.pack("<QQ", c, 1)
        r = random.Random("%d/%d" % (o["seed"], c))
        try:
            t = run_case(r)
            if t:
                seen.add(hashlib.sha256(repr(t).encode("utf-8", "replace") + b"%d" % (c if t == ("words",) else 0)).digest()[:8])
        except Viol as v:
            nviol += 1
            print("@VIOL " + json.dumps(dict(key=v.key, case=c, msg=v.msg[:3000])), flush=True)
        except BaseException as e:
            nviol += 1
            print("@VIOL " + json.dumps(dict(key="unexpected-exception", case=c, msg="unexpected " + traceback.format_exc()[-1500:])), flush=True)
        done += 1
        if nviol >= 5:
            break
    if prog:
        prog[:16] = struct.pack("<QQ", o["first"] + o["count"] - 1, 2)
    if o["hashes"]:
        with open(o["hashes"], "wb") as f:
            for h in seen:
                f.write(h)
    print("@SAMPLE " + json.dumps("case %d: %r" % (o["first"], sorted(counters))))
    print("@STATS " + json.dumps(dict(counters, cases=done)), flush=True)


main(sys.argv[1:])
