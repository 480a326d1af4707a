#!/usr/bin/env python3
"""Driver of the property checks.

  python3 run.py C01                     check a property (tier from VERIF_TIER, seed from VERIF_SEED)
  python3 run.py C01 --tier thorough
  python3 run.py C01 --replay FILE       re-run a saved failing case
  python3 run.py --build-all             compile everything (set-up)

Exit 0: property held on everything explored.  Exit 1: VIOLATION line printed.
Anything else is an error of the check itself (e.g. the tree does not compile).
"""
import argparse, ctypes, json, os, re, resource, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
OUT = os.path.join(HERE, "out")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS"
VARIANTS = {
    # name: (cc, cxx, flags)
    "rel":    ("gcc", "g++", "-O2 -g1"),
    "ndebug": ("gcc", "g++", "-O2 -g1 -DNDEBUG"),
    "san":    ("gcc", "g++", "-O1 -g1 " + SAN),
    "tsan":   ("gcc", "g++", "-O1 -g1 -fsanitize=thread -D_GLIBCXX_ASSERTIONS"),
    "fuzz":   ("clang", "clang++", "-O1 -g1 -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=all -DPBT_LIBFUZZER"),
}
ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:max_malloc_fill_size=1073741824",
           UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1",
           MALLOC_PERTURB_="165",  # uninitialised memory has defined, unusual contents
           TSAN_OPTIONS="halt_on_error=1:abort_on_error=1:exitcode=66")


try:
    LIBC = ctypes.CDLL(None)
except OSError:
    LIBC = None


def log(*a):
    print(*a, flush=True)


def build(variant, targets):
    cc, cxx, flags = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    lk = "-fsanitize=fuzzer" if variant == "fuzz" else ""
    conf = ["cmake", "-S", os.path.join(HERE, "harness"), "-B", d, "-G", "Ninja", "-DREPO=" + REPO,
            "-DCMAKE_C_COMPILER=" + cc, "-DCMAKE_CXX_COMPILER=" + cxx, "-DCMAKE_BUILD_TYPE=",
            "-DCMAKE_C_FLAGS=" + flags, "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_EXE_LINKER_FLAGS=" + lk]
    for attempt in (0, 1):
        p = subprocess.run(conf, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
        shutil.rmtree(d, ignore_errors=True)  # stale cache
        os.makedirs(d, exist_ok=True)
    if p.returncode != 0:
        return p.stdout
    p = subprocess.run(["ninja", "-C", d] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return None if p.returncode == 0 else p.stdout


def build_many(variants, targets):
    errs = {}
    def one(v):
        e = build(v, targets)
        if e is not None:
            errs[v] = e
    ts = [threading.Thread(target=one, args=(v,)) for v in variants]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return errs


def limits(variant):
    def f():
        try:
            LIBC.personality(0x0040000)  # same addresses in every run, where permitted
        except Exception:
            pass
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if variant in ("rel", "ndebug"):
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    return f


def read_cur(path):
    with open(path, "rb") as f:
        b = f.read()
    w = lambda i: int.from_bytes(b[8 * i:8 * i + 8], "little")
    idx, n, ml = w(1), w(2), w(3)
    msg = b[32:32 + min(ml, 4095)].decode(errors="replace")
    n = min(n, 1 << 20)
    base = 32 + 4096
    ch = [int.from_bytes(b[base + 8 * i: base + 8 * i + 8], "little") for i in range(n)]
    return idx, ch, msg


START = time.time()


class Task:
    def __init__(self, variant, stream, cases, cpu, maxwall):
        self.variant, self.stream, self.cases, self.cpu, self.maxwall = variant, stream, cases, cpu, maxwall
        self.proc = None
        self.rc = None

    def cmd(self, pid, seed, work, first=None):
        self.out = os.path.join(work, "%s-%d" % (self.variant, self.stream))
        c = [os.path.join(BUILD, self.variant, pid), "run", "--seed", str(seed), "--stream", str(self.stream),
             "--cases", str(self.cases), "--out", self.out, "--cpu", str(self.cpu), "--maxwall", str(self.maxwall)]
        if first is not None:
            c += ["--first", str(first)]
        if TIER == "thorough":
            c += ["--thorough", "1"]
        return c


def run_tasks(pid, tasks, seed, work):
    """Runs the tasks on all cores; returns the failed tasks (stops at the first failure)."""
    nproc = os.cpu_count() or 4
    pending, running, failed = list(tasks), [], []
    while pending or running:
        while pending and len(running) < nproc and not failed:
            t = pending.pop(0)
            cmd = t.cmd(pid, seed, work)
            t.err = open(t.out + ".err", "wb")
            t.proc = subprocess.Popen(cmd, stdout=t.err, stderr=t.err, env=ENV, preexec_fn=limits(t.variant), cwd=work)
            running.append(t)
        for t in list(running):
            r = t.proc.poll()
            if r is not None:
                t.rc = r
                t.err.close()
                running.remove(t)
                if r != 0:
                    failed.append(t)
        if failed:
            for t in running:
                t.proc.kill()
                t.proc.wait()
                t.err.close()
            break
        time.sleep(0.02)
    return failed


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            return f.read()[-n:].decode(errors="replace")
    except OSError:
        return ""


def sub(cmd, variant, timeout):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, preexec_fn=limits(variant),
                           timeout=timeout, errors="replace", text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or "")


def write_choices(path, ch, head):
    with open(path, "w") as f:
        for l in head:
            f.write("# " + l.replace("\n", "\n# ") + "\n")
        for i in range(0, len(ch), 24):
            f.write(" ".join(map(str, ch[i:i + 24])) + "\n")


def confirm(pid, cfg, variant, choices, tag, origin, cpu, message):
    """Shrinks and re-runs a failing case; returns the replay path if it is reproducible."""
    rdir = os.path.join(OUT, "replay")
    os.makedirs(rdir, exist_ok=True)
    raw = os.path.join(rdir, "%s-%s.raw" % (pid, tag))
    final = os.path.join(rdir, "%s-%s.txt" % (pid, tag))
    write_choices(raw, choices, ["property " + pid, "unshrunk", "origin " + origin])
    exe = os.path.join(BUILD, variant, pid)
    th = ["--thorough", "1"] if TIER == "thorough" else []
    rc, out = sub([exe, "replay", "--in", raw, "--times", "3", "--cpu", str(cpu)] + th, variant, 6 * cpu + 120)
    if rc not in (10, 12):
        return None, out
    if rc == 12 and not cfg.get("schedules"):
        return None, out
    # Shrinking hangs is slow: in the quick tier it must leave time for the report.
    left = 1e9 if TIER == "thorough" else 500 - (time.time() - START)
    rc, sout = (None, "") if left < 60 else sub([exe, "shrink", "--in", raw, "--out", final, "--budget", "45", "--cpu", str(cpu)] + th, variant, min(200 + 4 * cpu, left))
    if rc == 0 and os.path.exists(final) and (TIER == "thorough" or time.time() - START < 600 - 2 * cpu):
        rc2, out2 = sub([exe, "replay", "--in", final, "--times", "3", "--cpu", str(cpu)] + th, variant, 6 * cpu + 120)
        if rc2 == 10 or (rc2 == 12 and cfg.get("schedules")):
            with open(final) as f:
                body = f.read()
            with open(final, "w") as f:
                f.write("# variant %s\n# tier %s\n# origin %s\n# replay with: python3 run.py %s --replay %s\n" % (variant, TIER, origin, pid, final))
                f.write(body)
            return final, sout + out2
    with open(raw) as f:
        body = f.read()
    with open(final, "w") as f:
        f.write("# variant %s\n# tier %s\n# origin %s\n# message %s\n" % (variant, TIER, origin, message.replace("\n", " ")) + body)
    return final, out


def known_findings():
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(C\d+) match=/(.*)/ (.*)$", l)
            if m:
                r.append(m.groups())
    return r


def merge(tasks):
    tot = dict(cases=0, nontrivial=0, discarded=0)
    labels, samples, rule, per, trunc = {}, [], "", {}, 0
    hashes = set()
    for t in tasks:
        p = t.out + ".json"
        if not os.path.exists(p):
            continue
        try:
            with open(p) as f:
                d = json.load(f)
            with open(t.out + ".hash", "rb") as f:
                h = f.read()
        except (OSError, ValueError):
            continue  # worker ended while writing (stopped after another worker's failure)
        for k in tot:
            tot[k] += d[k]
        trunc += 1 if d["truncated"] else 0
        per[t.variant] = per.get(t.variant, 0) + d["cases"]
        for k, v in d["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += d["samples"][:1]
        rule = d["rule"]
        hashes.update(h[i:i + 8] for i in range(0, len(h), 8))
    return tot, labels, samples[:6], rule, per, trunc, len(hashes)


def fuzz_stage(pid, cfg, seed, work, seconds):
    """libFuzzer on the same property function (thorough tier)."""
    exe = os.path.join(BUILD, "fuzz", pid)
    corpus = os.path.join(work, "corpus")
    os.makedirs(corpus, exist_ok=True)
    procs = []
    for j in range(4):
        env = dict(ENV, PBT_SHARED=os.path.join(work, "fuzz%d.cur" % j))
        lg = open(os.path.join(work, "fuzz%d.log" % j), "wb")
        procs.append((j, subprocess.Popen(
            [exe, corpus, "-seed=%d" % (seed * 16 + j + 1), "-max_len=4096", "-len_control=20", "-max_total_time=%d" % seconds, "-reload=1",
             "-timeout=60", "-rss_limit_mb=4096", "-print_final_stats=1", "-artifact_prefix=" + work + "/"],
            env=env, stdout=lg, stderr=lg, cwd=work)))
    execs, bad = 0, None
    for j, p in procs:
        rc = p.wait()
        txt = tail(os.path.join(work, "fuzz%d.log" % j), 20000)
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", txt)
        execs += int(m.group(1)) if m else 0
        if rc != 0 and bad is None and "rss limit" not in txt and "out-of-memory" not in txt:
            bad = (j, txt)
    return execs, bad


def write_sequence(pid, a, t, tag, idx, message):
    """Replay file for a failure that needs the preceding cases of its stream."""
    path = os.path.join(OUT, "replay", "%s-%s-sequence.txt" % (pid, tag))
    with open(path, "w") as f:
        f.write("# variant %s\n# tier %s\n# sequence %s\n# message %s\n" % (
            t.variant, TIER, json.dumps(dict(seed=a.seed, stream=t.stream, cases=t.cases, first=idx + 1, cpu=t.cpu)), message.replace("\n", " ")))
    return path


def judge(pid, cfg, a, work, failed, inconclusive, odd):
    """Decides whether failed tasks are a violation; returns (violation, error exit code)."""
    for t in failed:
        errtxt = tail(t.out + ".err")
        if t.rc == 3:
            log("harness error", errtxt)
            return None, 2
        idx, ch, msg = read_cur(t.out + ".cur")
        kind = "property" if t.rc == 10 else ("hang" if t.rc == 97 else "crash")
        message = msg or errtxt[-600:]
        log("failure (%s, %s) in case %d of stream %d: %s" % (kind, t.variant, idx, t.stream, message[:800]))
        origin = "seed=%d stream=%d case=%d kind=%s" % (a.seed, t.stream, idx, kind)
        tag = "%s-s%d-%d-%d" % (t.variant, a.seed, t.stream, idx)
        path, out = confirm(pid, cfg, t.variant, ch, tag, origin, t.cpu, message)
        if path is None:
            # Not reproducible in isolation: state may leak from case to case.  Re-run the stream up to here.
            again = 0
            for _ in range(2):
                rc, _o = sub(t.cmd(pid, a.seed, work, idx + 1), t.variant, 1200)
                again += 1 if rc not in (0, None, 3) else 0
            if again == 2:
                path = write_sequence(pid, a, t, tag, idx, message)
                out = "fails only after the preceding cases of its stream (state leaks between independent calls)"
        if path is None and t.rc != -9:
            odd.append(origin)
            if len(odd) >= 2:
                # Fails repeatedly, though not always in the same place (e.g. depends on memory contents).
                path = write_sequence(pid, a, t, tag, idx, message)
                out = "fails repeatedly but not deterministically: " + "; ".join(odd)
        if path is not None:
            return (path, message, out), 0
        inconclusive.append(origin + ": " + message[:300])
    return None, 0


def main():
    global TIER
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--build-all", action="store_true")
    a = ap.parse_args()
    TIER = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.build_all:
        errs = build_many(["rel", "san"], sorted(CHECKS))
        for v, e in errs.items():
            log(v, e[-3000:])
        return 2 if errs else 0
    pid = a.property
    cfg = CHECKS[pid]
    if a.replay:
        txt = open(a.replay).read()
        m = re.search(r"# variant (\w+)", txt)
        v = m.group(1) if m else "rel"
        m = re.search(r"# tier (\w+)", txt)
        TIER = m.group(1) if m else TIER
        errs = build_many([v], [pid])
        if errs:
            log(errs[v][-3000:])
            return 2
        m = re.search(r"# sequence (\{.*\})", txt)
        if m:
            s = json.loads(m.group(1))
            work = os.path.join(OUT, "work", pid + "-replay")
            os.makedirs(work, exist_ok=True)
            t = Task(v, s["stream"], s["cases"], s["cpu"], 1e9)
            rc, out = sub(t.cmd(pid, s["seed"], work, s["first"]), v, 3600)
            log(out, "rc", rc)
            return 1 if rc != 0 else 0
        rc, out = sub([os.path.join(BUILD, v, pid), "replay", "--in", a.replay, "--times", "1", "--cpu", "60"]
                      + (["--thorough", "1"] if TIER == "thorough" else []), v, 600)
        log(out)
        return 1 if rc != 0 else 0

    t0 = time.time()
    plan = cfg[TIER]
    variants = sorted(set(v for v, _, _ in plan)) + (["fuzz"] if TIER == "thorough" and cfg.get("fuzz") else [])
    errs = build_many(variants, [pid])
    if errs:
        for v, e in errs.items():
            log("BUILD ERROR (%s):" % v, e[-4000:])
        return 2
    tb = time.time() - t0
    work = os.path.join(OUT, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    tasks, stream = [], 0
    maxwall = 300 if TIER == "quick" else 3 * 3600
    for variant, workers, cases in plan:
        for _ in range(workers):
            cpu = 30 if variant in ("rel", "ndebug") else 120
            tasks.append(Task(variant, stream, max(1, int(cases * a.scale)), cpu, maxwall))
            stream += 1
    violation, inconclusive, odd = None, [], []
    failed, todo = [], list(tasks)
    for attempt in range(3):
        failed = run_tasks(pid, todo, a.seed, work)
        if not failed:
            break
        violation, err = judge(pid, cfg, a, work, failed, inconclusive, odd)
        if err:
            return err
        if violation:
            break
        # Not reproducible so far: complete the exploration.
        todo = [t for t in todo if t.rc != 0]
        for t in todo:
            t.rc = None

    execs = 0
    if not violation and TIER == "thorough" and cfg.get("fuzz"):
        execs, bad = fuzz_stage(pid, cfg, a.seed, work, int(cfg["fuzz"] * a.scale) or 1)
        if bad:
            j, txt = bad
            idx, ch, msg = read_cur(os.path.join(work, "fuzz%d.cur" % j))
            log("fuzzer failure:", txt[-1500:])
            errs = build_many(["san"], [pid])
            TIER_saved, TIER = TIER, "quick"
            path, out = confirm(pid, cfg, "san", ch, "fuzz-s%d-%d" % (a.seed, j), "libFuzzer", 120, txt[-300:])
            TIER = TIER_saved
            if path:
                violation = (path, txt[-400:], out)
            else:
                inconclusive.append("libFuzzer: " + txt[-300:])

    tot, labels, samples, rule, per, trunc, distinct = merge(tasks)
    known = []
    if violation:
        for kp, rx, what in known_findings():
            if kp == pid and re.search(rx, violation[1]):
                known.append(what)
                violation = None
                break
    ev = dict(property=pid, tier=TIER, seed=a.seed, level=cfg.get("level", "exploration"),
              coverage=dict(evaluations=tot["cases"] + execs, distinct_nontrivial=distinct, rule=rule, samples=samples or ["(none)"],
                            discarded=tot["discarded"], nontrivial_evaluations=tot["nontrivial"], cases_per_build=per, labels=labels,
                            libfuzzer_executions=execs, truncated_workers=trunc, unreproduced=inconclusive),
              assumptions=cfg["assumptions"], wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known:
        log("KNOWN-FINDING: property=%s %s" % (pid, k))
    log("%s %s seed=%d: %d cases (%d distinct non-trivial, %d discarded)%s, build %.1fs, total %.1fs" % (
        pid, TIER, a.seed, tot["cases"], distinct, tot["discarded"], ", %d fuzz executions" % execs if execs else "", tb, time.time() - t0))
    if violation:
        log(violation[1][:1500])
        log(violation[2][-3000:])
        log("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    for i in inconclusive:
        log("INCONCLUSIVE (not reproducible, not counted):", i)
    return 0


TIER = "quick"
if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
