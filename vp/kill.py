"""Kills a scenario at every file-related system call and looks for what it left behind."""
import hashlib, os, re, shutil, struct, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
from . import build

CALLS = ["openat", "open", "creat", "unlink", "unlinkat", "link", "linkat", "symlink", "symlinkat", "rename", "renameat", "renameat2", "mkdir", "mkdirat", "mknod", "mknodat",
         "ftruncate", "fallocate", "mmap", "munmap", "mremap", "madvise", "write", "pwrite64", "close", "memfd_create", "fcntl", "fsync", "msync"]
MAKERS = {"openat", "open", "creat", "link", "linkat", "symlink", "symlinkat", "rename", "renameat", "renameat2", "mkdir", "mkdirat", "mknod", "mknodat"}
LINE = re.compile(r"^(?:\d+ +)?(\w+)\((.*)")
STR = re.compile(r'"((?:[^"\\]|\\.)*)"')


def strace(r, exe, seed, log, inject=None, cwd=None):
    cmd = ["strace", "-f", "-o", log, "-s", "4096", "-e", "trace=" + ",".join(CALLS), "-e", "signal=none"]
    if inject:
        cmd += ["-e", "inject=%s:signal=SIGKILL:when=%d" % inject]
    p = subprocess.run(cmd + [exe, str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=r.env({"TMPDIR": cwd, "HOME": cwd}), cwd=cwd, timeout=300)
    return p.returncode, p.stdout, p.stderr


def parse(log):
    out = []
    for l in open(log, errors="replace"):
        m = LINE.match(l)
        if m:
            out.append((m.group(1), m.group(2)))
    return out


def created(lines, cwd):
    """Paths that the process created and that still exist, in order, with the position of the creating call."""
    paths = []
    for i, (call, rest) in enumerate(lines):
        if call not in MAKERS:
            continue
        if call in ("openat", "open"):
            if "O_CREAT" not in rest or "O_TMPFILE" in rest:
                continue
        if re.search(r"= -1 E", rest):
            continue
        names = STR.findall(rest)
        if not names:
            continue
        p = names[-1]
        paths.append((i, p if os.path.isabs(p) else os.path.join(cwd, p)))
    return [(i, p) for i, p in paths if os.path.lexists(p)]


def leftovers(lines, cwd):
    res = []
    for i, p in created(lines, cwd):
        follow = lines[i + 1] if i + 1 < len(lines) else None
        # killed on the way from creating the name to removing it at once
        if follow is None or (follow[0] in ("unlink", "unlinkat") and i + 2 >= len(lines)):
            continue
        res.append(p)
    return res


def scratch_files(cwd):
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(cwd) for f in fs)


def remove(paths):
    for p in paths:
        if p.startswith(("/tmp/", "/var/tmp/", "/dev/shm/")):
            try:
                os.unlink(p)
            except OSError:
                pass


def run(r, scenarios):
    if not shutil.which("strace"):
        r.notes.append("kill points skipped: no strace")
        return
    exe = build.driver("rel", "killscen")
    lock = threading.Lock()
    stats = dict(kill_points=0, killed=0, scenarios=0, runs_to_the_end=0, files_created_by_name=0)

    def one(job):
        seed, inject = job
        if r.left() < 5:
            return
        cwd = os.path.join(r.tmp, "kill-%d-%s-%d" % ((seed,) + (inject or ("end", 0))))
        os.makedirs(cwd)
        log = cwd + ".log"
        try:
            rc, out, err = strace(r, exe, seed, log, inject, cwd)
            lines = parse(log)
            left = leftovers(lines, cwd)
            inside = [p for p in scratch_files(cwd) if p not in left and p not in [x for _, x in created(lines, cwd)]]
            with lock:
                if inject:
                    stats["kill_points"] += 1
                    stats["killed"] += b"END" not in out
                    if b"END" not in out:
                        r.hashes.add(struct.unpack("<Q", hashlib.sha256(repr(job).encode()).digest()[:8])[0])
                else:
                    stats["runs_to_the_end"] += b"END" in out
                stats["files_created_by_name"] += len([1 for c, a in lines if c in ("openat", "open") and "O_CREAT" in a and "O_TMPFILE" not in a])
                r.evaluations += 1
            bad = sorted(set(left + inside))
            if bad:
                r.violation("left-behind", "scenario %d %s: left on disk: %s" % (seed, "killed at %s call %d" % inject if inject else "run to its end", ", ".join(bad[:5])),
                            ["strace -f -e trace=%s -e inject=%s:signal=SIGKILL:when=%d %s %d" % ((",".join(CALLS),) + (inject or ("", 0)) + (exe, seed)), "\n".join("%s(%s" % l for l in lines[-40:])])
            remove([p for _, p in created(lines, cwd)])
            return lines if not inject else None
        finally:
            shutil.rmtree(cwd, ignore_errors=True)
            if os.path.exists(log):
                os.unlink(log)

    for s in range(scenarios):
        seed = r.seed * 1000 + s
        lines = one((seed, None))
        if not lines:
            break
        stats["scenarios"] += 1
        count = {}
        jobs = []
        start = next((i for i, (c, a) in enumerate(lines) if c == "write" and "START" in a), 0)
        for i, (c, _) in enumerate(lines):
            count[c] = count.get(c, 0) + 1
            if i > start:
                jobs.append((seed, (c, count[c])))
        # repeated identical calls in the middle of a long run of them add little in the quick tier
        if not r.thorough and len(jobs) > 350:
            step = len(jobs) / 350.0
            jobs = [jobs[int(k * step)] for k in range(350)]
        with ThreadPoolExecutor(build.JOBS) as ex:
            list(ex.map(one, jobs))
        if r.unlisted() or r.left() < 10:
            break
    for k, v in stats.items():
        r.counters[k] = r.counters.get(k, 0) + v
    r.stages.append(dict(driver="killscen", build="rel", wrapper="strace", cases=stats["kill_points"] + stats["scenarios"], opts={}))
