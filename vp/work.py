"""Counts the instructions and bytes of workloads of growing size (harness/work.cc) and judges how they grow."""
import re, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import build

REFS = re.compile(r"I\s+refs:\s+([\d,]+)")
WRAP = ("-Wl,--wrap=mmap", "-Wl,--wrap=munmap")
# kind: largest factor of instructions for one doubling and for eight times the size, and of bytes for eight times the size
LIMITS = {"linear": (2.8, 11.5, 24.0), "flat": (1.6, 2.1, 3.0), "sublinear": (2.0, 4.0, 24.0)}
SLACK = 50000      # instructions that may come on top (rehashing, first use)
BYTES = 60000


def command(r, cmd, limit):
    """Runs a command; None if it takes too long, or is not needed any more because a violation was found elsewhere."""
    with tempfile.TemporaryFile("w+", errors="replace") as o, tempfile.TemporaryFile("w+", errors="replace") as e:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=o, stderr=e, env=r.env(), cwd=r.tmp)
        end = time.monotonic() + limit
        while True:
            try:
                p.wait(0.3)
                break
            except subprocess.TimeoutExpired:
                if time.monotonic() > end or r.unlisted() or r.left() < 20:
                    p.kill()
                    p.wait()
                    return None
        o.seek(0)
        e.seek(0)
        return subprocess.CompletedProcess(cmd, p.returncode, o.read(), e.read())


def measure(r, exe, name, n, seed):
    """(instructions, bytes, facts) of one run, or a string that says what went wrong."""
    vg = ["valgrind", "--tool=cachegrind", "--cache-sim=no", "--instr-at-start=no", "--cachegrind-out-file=/dev/null"]
    args = [exe, name, str(n), str(seed)]
    a = command(r, args, 240)
    b = a and command(r, vg + args, 400)
    if not a or not b:
        return "timeout"
    m = REFS.search(b.stderr)
    f = re.search(r"@FACTS (\d+) (\d+)", a.stdout)
    if a.returncode or b.returncode or not m or not f:
        return "exit status %d/%d: %s" % (a.returncode, b.returncode, (a.stdout + b.stdout + b.stderr)[-300:])
    return int(m.group(1).replace(",", "")), int(f.group(2)), int(f.group(1))


def run(r, variant, seeds, factor=1, optional=False):
    try:
        exe = build.driver(variant, "work", WRAP)
    except build.BuildError as e:
        if optional:
            r.notes.append("stage work/%s skipped: this build variant does not compile" % variant)
            return
        raise
    scen = [l.split() for l in subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, env=r.env()).stdout.splitlines()]
    lock = threading.Lock()
    done = [0]

    def one(job):
        name, kind, base, seed = job
        if r.unlisted():
            return
        if r.left() < 60:
            with lock:
                r.counters["series_not_run"] = r.counters.get("series_not_run", 0) + 1
            return
        step, total, space = LIMITS[kind]
        got = []
        n0 = int(base) * factor
        # a scenario whose smaller sizes already grow too fast is not driven further
        for k in (1, 2, 4, 8):
            x = measure(r, exe, name, n0 * k, seed)
            if isinstance(x, str):
                if r.unlisted():
                    return
                if x == "timeout" or "@BAD" not in x:
                    with lock:
                        r.notes.append("%s of size %d: %s" % (name, n0 * k, x))
                        r.counters["series_without_answer"] = r.counters.get("series_without_answer", 0) + 1
                else:   # a wrong result is another property's affair
                    with lock:
                        r.notes.append("%s of size %d not measured, its results are wrong: %s" % (name, n0 * k, x[-200:]))
                        r.counters["series_without_answer"] = r.counters.get("series_without_answer", 0) + 1
                return
            got.append((n0 * k,) + x)
            bad = None
            if len(got) > 1:
                p = got[-2]
                if x[0] > step * p[1] + SLACK:
                    bad = ("instructions", "%d for size %d, %d for size %d (factor %.2f)" % (p[1], p[0], x[0], n0 * k, x[0] / p[1]))
                elif x[0] > (total if k == 8 else 1e9) * got[0][1] + SLACK:
                    bad = ("instructions", "%d for size %d, %d for size %d (factor %.2f)" % (got[0][1], n0, x[0], n0 * k, x[0] / got[0][1]))
                elif x[1] > (space if kind == "flat" else 3 * k) * got[0][2] + BYTES:
                    bad = ("bytes", "%d for size %d, %d for size %d" % (got[0][2], n0, x[1], n0 * k))
            if bad:
                r.violation("growth-" + name, "%s: %s: %s; expected %s growth (build %s)" % (name, bad[0], bad[1], kind, variant),
                            ["replay: valgrind --tool=cachegrind --cache-sim=no --instr-at-start=no --cachegrind-out-file=/dev/null %s %s %d %d   (and sizes %s)" %
                             (exe, name, n0 * k, seed, ", ".join(str(g[0]) for g in got))])
                break
        with lock:
            done[0] += 1
            r.counters["series_measured"] = r.counters.get("series_measured", 0) + 1
            r.counters["runs_measured"] = r.counters.get("runs_measured", 0) + len(got)
            r.counters["instructions_counted"] = r.counters.get("instructions_counted", 0) + sum(g[1] for g in got)
            if len(got) == 4:
                r.hashes.add(hash((name, seed, variant, factor)) & 0xffffffffffffffff)
                c = "max_growth_percent_of_limit_" + kind
                r.counters[c] = max(r.counters.get(c, 0), int(100 * got[3][1] / (total * got[0][1] + SLACK)))
                c = "max_step_percent_of_limit_" + kind
                r.counters[c] = max(r.counters.get(c, 0), max(int(100 * got[i + 1][1] / (step * got[i][1] + SLACK)) for i in range(3)))
            if len(r.samples) < 6:
                r.samples.append("%s (%s, %s, seed %d): %s" % (name, kind, variant, seed, "; ".join("size %d: %d instructions, %d bytes" % g[:3] for g in got)))
    jobs = [(n, k, b, s) for s in seeds for n, k, b in scen]
    with ThreadPoolExecutor(build.JOBS) as ex:
        list(ex.map(one, jobs))
    r.stages.append(dict(driver="work", build=variant, wrapper="cachegrind", cases=done[0], opts=dict(seeds=len(seeds), factor=factor)))
    r.evaluations += done[0]
