"""Runs drivers in shards, turns crashes, hangs and reported violations into verdicts, writes evidence."""
import json, os, resource, signal, shutil, struct, subprocess, sys, tempfile, threading, time, traceback
from . import build

VERIF = build.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.txt")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1",
    "LC_ALL": "C.UTF-8",
}


class Inconclusive(Exception):
    """The machinery could not run: an error of the check, not a verdict."""


class Run:
    """One run of one property's check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.deadline = self.t0 + float(os.environ.get("VP_BUDGET", 11 * 3600 if self.thorough else 660))
        self.evaluations = 0
        self.hashes = set()
        self.samples = []
        self.counters = {}
        self.stages = []
        self.notes = []
        self.assumptions = []
        self.violations = []   # dict(key, msg, replay lines)
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop, dir="/tmp")
        self.lock = threading.Lock()

    def left(self):
        return self.deadline - time.time()

    def env(self, extra=None):
        e = dict(os.environ)
        e.update(SAN_ENV)
        e["COLUMBUS_DATADIR"] = os.path.join(build.REPO, "share")
        e["TMPDIR"] = self.tmp
        e.update(extra or {})
        return e

    def add_counters(self, stats):
        for k, v in stats.items():
            if k == "cases":
                continue
            if k.startswith("max_"):
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.counters[k] = self.counters.get(k, 0) + v

    def violation(self, key, msg, replay=()):
        with self.lock:
            if any(v["key"] == key and v["msg"] == msg for v in self.violations):
                return
            self.violations.append(dict(key=key, msg=msg, replay=list(replay)))

    # ---- driver stages -------------------------------------------------
    def stage(self, source, variant, count, opts=None, env=None, optional=False, wrapper=None, extra_link=(), case_cpu=120, procs=None, weight=1, first=0):
        """Runs `count` cases of a driver. Returns the number executed."""
        if self.unlisted():
            self.notes.append("stage %s/%s not run: a violation was already found" % (source, variant))
            return 0
        if self.left() < 5:
            self.notes.append("stage %s/%s not run: time budget used" % (source, variant))
            return 0
        try:
            exe = build.driver(variant, source, extra_link)
        except build.BuildError as e:
            if optional:
                self.notes.append("stage %s/%s skipped: this build variant does not compile" % (source, variant))
                return 0
            raise Inconclusive(str(e))
        procs = procs or build.JOBS
        procs = max(1, min(procs, count))
        per = (count + procs - 1) // procs
        shards = [(first + i * per, min(per, count - i * per)) for i in range(procs) if count - i * per > 0]
        ctr = {"cases": 0, "crashes": 0}
        args = [exe, "--seed", str(self.seed)]
        if self.thorough:
            args.append("--thorough")
        for k, v in (opts or {}).items():
            args += ["--opt", "%s=%s" % (k, v)]
        threads = []
        errors = []

        def work(i, fst, cnt):
            try:
                self._shard(source, variant, args, i, fst, cnt, env, wrapper, case_cpu, ctr)
            except BaseException as e:  # reported by the main thread
                errors.append("".join(traceback.format_exception(e)))
        for i, (f, c) in enumerate(shards):
            t = threading.Thread(target=work, args=(i, f, c))
            t.start()
            threads.append(t)
        for t in threads:
            t.join()
        if errors:
            raise Inconclusive(errors[0])
        self.stages.append(dict(driver=source, build=variant, wrapper=(wrapper or [None])[0], cases=ctr["cases"], opts=opts or {}))
        self.evaluations += ctr["cases"]
        return ctr["cases"]

    def _exec(self, cmd, env, progress, case_cpu, errpath, outpath):
        """Runs one process; returns (rc, last case, finished, reason)."""
        with open(outpath, "wb") as out, open(errpath, "wb") as err:
            p = subprocess.Popen(cmd, stdout=out, stderr=err, stdin=subprocess.DEVNULL, env=self.env(env), cwd=self.tmp, start_new_session=True,
                                 preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
            last, cpu_at, reason = None, 0.0, None
            tick = os.sysconf("SC_CLK_TCK")
            while True:
                try:
                    p.wait(timeout=0.5 if last is not None else 0.2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                cur = self._progress(progress)[0]
                try:
                    st = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()
                    cpu = (int(st[11]) + int(st[12])) / tick
                except OSError:
                    cpu = 0.0
                if cur != last:
                    last, cpu_at = cur, cpu
                elif cpu - cpu_at > case_cpu:
                    reason = "hang"
                elif os.path.getsize(outpath) > 200 << 20 or os.path.getsize(errpath) > 200 << 20:
                    reason = "output"
                if self.left() < 0 and not reason:
                    reason = "budget"
                if reason:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    break
        cur, state = self._progress(progress)
        return p.returncode, cur, state == 2, reason

    @staticmethod
    def _progress(path):
        try:
            b = open(path, "rb").read(16)
            return struct.unpack("<QQ", b) if len(b) == 16 else (None, 0)
        except OSError:
            return (None, 0)

    def _shard(self, source, variant, args, idx, first, count, env, wrapper, case_cpu, ctr):
        base = os.path.join(self.tmp, "%s-%s-%d-%d" % (source, variant, idx, first))
        end = first + count
        crashes = 0
        while first < end:
            prog, hs, err, out = base + ".prog", base + ".hash", base + ".err", base + ".out"
            for f in (prog, hs):
                if os.path.exists(f):
                    os.unlink(f)
            cmd = (wrapper or []) + args + ["--first", str(first), "--count", str(end - first), "--progress", prog, "--hashes", hs]
            rc, cur, finished, reason = self._exec(cmd, env, prog, case_cpu, err, out)
            text = open(out, errors="replace").read()
            errtext = self._tail(err)
            self._collect(text, source, variant, args, wrapper, env)
            if rc == 0 and finished:
                n = self._stats(text)
                with self.lock:
                    ctr["cases"] += n
                    if os.path.exists(hs):
                        b = open(hs, "rb").read()
                        self.hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
                return
            if reason == "budget":
                with self.lock:
                    n = max(0, (cur or first) - first)
                    ctr["cases"] += n
                    self.notes.append("%s/%s shard %d stopped at case %s: time budget used" % (source, variant, idx, cur))
                return
            if cur is None:
                raise Inconclusive("driver %s/%s did not start (rc %s): %s" % (source, variant, rc, errtext[-2000:]))
            # Abnormal end in case `cur`: run that case alone once more.
            with self.lock:
                ctr["cases"] += cur - first + 1
            replay = (wrapper or []) + args + ["--first", str(cur), "--count", "1"]
            prog2 = base + ".prog2"
            if os.path.exists(prog2):
                os.unlink(prog2)
            rc2, cur2, fin2, reason2 = self._exec(replay + ["--progress", prog2], env, prog2, case_cpu, base + ".err2", base + ".out2")
            again = not (rc2 == 0 and fin2)
            if reason == "hang":
                if reason2 == "hang":
                    self.violation("hang", "%s build %s: case %d does not terminate (CPU limit %d s exceeded twice)" % (source, variant, cur, case_cpu), [replay])
                else:
                    self.notes.append("%s/%s case %d exceeded its CPU limit once but not when repeated: inconclusive" % (source, variant, cur))
            elif rc in (-9, 137) and not again:
                self.notes.append("%s/%s case %d was killed once (SIGKILL) but not when repeated: inconclusive" % (source, variant, cur))
            elif reason2 == "budget":
                self.notes.append("%s/%s case %d ended abnormally; no time left to repeat it" % (source, variant, cur))
                self.violation("crash:" + self._crash_key(errtext, rc), "%s build %s: case %d ended abnormally (status %s): %s" % (source, variant, cur, rc, self._crash_key(errtext, rc)), [replay, errtext])
            else:
                k = self._crash_key(errtext, rc)
                how = "alone too" if again else "only after the cases before it: --first %d --count %d" % (first, cur - first + 1)
                cmdl = replay if again else (wrapper or []) + args + ["--first", str(first), "--count", str(cur - first + 1)]
                self.violation("crash:" + k, "%s build %s: case %d ended abnormally (status %s, %s): %s" % (source, variant, cur, rc, how, k), [cmdl, errtext])
            crashes += 1
            if crashes >= 3:
                return
            first = cur + 1

    @staticmethod
    def _tail(path, n=12000):
        b = open(path, "rb").read()
        if len(b) > 2 * n:
            b = b[:n] + b"\n...\n" + b[-n:]
        return b.decode(errors="replace")

    @staticmethod
    def _crash_key(err, rc):
        for line in err.splitlines():
            line = line.strip()
            if "runtime error:" in line:
                return "ubsan " + line.split("runtime error:", 1)[1].strip()[:160]
            if line.startswith("SUMMARY:"):
                return line[len("SUMMARY:"):].strip()[:200]
            if "Assertion" in line and "failed" in line:
                return line[-220:]
            if line.startswith("terminate called"):
                return line[:160]
            if "== ERROR SUMMARY:" in line or "== Invalid " in line or "uninitialised value" in line:
                return line.split("==", 2)[-1].strip()[:160]
        return "status %s" % rc

    def _stats(self, text):
        n = 0
        for line in text.splitlines():
            if line.startswith("@STATS "):
                d = json.loads(line[7:])
                n += d.get("cases", 0)
                with self.lock:
                    self.add_counters(d)
        return n

    def _collect(self, text, source, variant, args, wrapper, env):
        for line in text.splitlines():
            if line.startswith("@VIOL "):
                d = json.loads(line[6:])
                self.violation(d["key"], "%s build %s case %d: %s" % (source, variant, d["case"], d["msg"]),
                               [(wrapper or []) + args + ["--first", str(d["case"]), "--count", "1"]])
            elif line.startswith("@SAMPLE "):
                with self.lock:
                    if len(self.samples) < 6:
                        try:
                            self.samples.append(json.loads(line[8:]))
                        except ValueError:
                            pass

    def unlisted(self):
        known = [k[0] for k in self.known()]
        return [v for v in self.violations if v["key"] not in known]

    # ---- verdict -------------------------------------------------------
    def known(self):
        res = []
        if os.path.exists(FINDINGS):
            for line in open(FINDINGS):
                line = line.strip()
                if line.startswith("finding: property=%s " % self.prop):
                    rest = line.split(" ", 2)[2]
                    key, what = rest.split(" | ", 1)
                    res.append((key[len("key="):] if key.startswith("key=") else key, what))
        return res

    def finish(self, level, rule, meaning=None):
        os.makedirs(EVIDENCE, exist_ok=True)
        known = self.known()
        real, hit = [], set()
        for v in self.violations:
            k = next((k for k in known if v["key"] == k[0]), None)
            if k:
                hit.add(k)
            else:
                real.append(v)
        for k in known:
            print("KNOWN-FINDING: property=%s %s%s" % (self.prop, k[1], "" if k in hit else " (not met in this run)"))
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.hashes), rule=rule,
                   samples=self.samples or ["(none recorded)"], observed=dict(sorted(self.counters.items())), stages=self.stages)
        if meaning:
            cov["observed_meaning"] = meaning
        if self.notes:
            cov["notes"] = self.notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(real))
        path = os.path.join(EVIDENCE, self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        for n in self.notes:
            print("note: " + n)
        if not real and (self.evaluations == 0 or not self.hashes):
            print("ERROR: the run observed nothing")
            self.cleanup()
            return 2
        print("%s: %d evaluations, %d distinct non-trivial, %d violations, %.1f s" % (self.prop, self.evaluations, len(self.hashes), len(real), time.time() - self.t0))
        for f in (os.listdir(REPLAYS) if os.path.isdir(REPLAYS) else []):
            if f.startswith(self.prop + "-"):
                os.unlink(os.path.join(REPLAYS, f))
        if real:
            os.makedirs(REPLAYS, exist_ok=True)
            shown = []
            for v in real:
                if sum(x["key"] == v["key"] for x in shown) < 2:
                    shown.append(v)
            for i, v in enumerate(shown[:8]):
                rp = os.path.join(REPLAYS, "%s-%d.txt" % (self.prop, i))
                with open(rp, "w") as f:
                    f.write("property %s\nkey %s\n%s\n\n" % (self.prop, v["key"], v["msg"]))
                    for r in v["replay"]:
                        if isinstance(r, list):
                            f.write("replay: COLUMBUS_DATADIR=%s/share %s\n" % (build.REPO, " ".join(r)))
                            try:
                                o = subprocess.run(r + ["--verbose"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=self.env(), cwd=self.tmp, text=True, errors="replace")
                                f.write(o.stdout[:60000])
                            except Exception as e:
                                f.write("(verbose re-run: %s)\n" % e)
                        else:
                            f.write(str(r) + "\n")
                print("  [%s] %s" % (v["key"], v["msg"][:1500]))
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        self.cleanup()
        sys.stdout.flush()
        return 1 if real else 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
