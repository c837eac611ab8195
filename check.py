#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation (see DESIGN.md).

  check.py C01               run the check (environment: VERIF_SEED, VERIF_TIER)
  check.py replay FILE       execute a replay file again; exit 1 if it shows its violation
  check.py build             build the simulator from the current tree of /repo
"""
import hashlib, json, os, re, resource, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SIM = os.path.join(HERE, "sim")
TARGET = os.path.join(SIM, "target")
T0 = time.time()

# Runs per worker in the quick tier (8 workers), and the cap on its duration in seconds.
RUNS = dict(C01=50000, C02=45000, C03=40000, C04=60000, C05=65000, C06=80000, C07=34000, C08=34000,
            C09=95000, C10=20000, C11=48000, C12=48000, C13=100000, C14=45000, C15=180000, C16=28000,
            C20=20000, C21=220, C22=16000, C23=40000)
QUICK_S, THOROUGH_S = 40, 600
CPU_STALL, WALL_STALL, BLOCKED = 30, 240, 8

COMPONENTS = {
    "real code": ["ndarray-slice (all of /repo/src, built from the working tree)",
                  "ndarray, rayon's iterator layer (par_iter, collect), stacker, std"],
    "simulated": ["rayon-core: join, scope of work, work stealing, worker threads and waiting (sim/rayon-core, one runnable thread at a time chosen by the seeded scheduler)",
                  "the global allocator (sim/harness/src/alloc.rs: accounting, canaries, injected failures, backed by the system allocator)"],
    "generated": ["callers, callbacks, elements, keys and the caller's collection (sim/harness/src/{gen,env,elem,ops}.rs)"],
}


def die(msg):
    print("check: " + msg, flush=True)
    sys.exit(2)


# ---- building -------------------------------------------------------------------------------

def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(REPO)):
        rel = os.path.relpath(root, REPO)
        dirs[:] = sorted(d for d in dirs if not (rel == "." and d in (".git", "target")))
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.isfile(p) and (f.endswith(".rs") or f.endswith(".toml") or f.endswith(".lock") or f.endswith(".md")):
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()


def cargo(profile, hooked, log):
    target = TARGET if hooked else os.path.join(TARGET, "plain")
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    if not hooked:
        env["RUSTFLAGS"] = "--cfg ndarray_slice_plain"
    stamp = os.path.join(target, "stamp-" + profile)
    want = tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else None
    with open(log, "ab") as lf:
        if have is not None and have != want:
            # Do not trust modification times: sources may have been restored from anywhere.
            subprocess.run(["cargo", "clean", "--offline", "--profile", profile, "-p", "ndarray-slice", "-p", "nsim", "--target-dir", target],
                           cwd=SIM, env=env, stdout=lf, stderr=lf)
        elif have is None:
            os.makedirs(target, exist_ok=True)
        r = subprocess.run(["cargo", "build", "--offline", "--profile", profile, "--target-dir", target],
                           cwd=SIM, env=env, stdout=lf, stderr=lf)
    exe = os.path.join(target, profile, "nsim")
    if r.returncode == 0 and os.path.exists(exe):
        with open(stamp, "w") as f:
            f.write(want)
        return exe
    return None


def build():
    """Returns {flavour: executable} and whether the hooks are on."""
    logdir = os.path.join(TARGET)
    os.makedirs(logdir, exist_ok=True)
    for hooked in (True, False):
        out = {}

        def one(profile):
            log = os.path.join(logdir, f"build-{profile}.log")
            open(log, "w").close()
            out[profile] = cargo(profile, hooked, log)

        ts = [threading.Thread(target=one, args=(p,)) for p in ("release", "checked")]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if all(out.get(p) for p in ("release", "checked")):
            return out, hooked
    tail = open(os.path.join(logdir, "build-release.log"), errors="replace").read()[-3000:]
    die("cannot build the simulator against /repo\n" + tail)


# ---- children -------------------------------------------------------------------------------

def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def cpu(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            w = f.read().rsplit(")", 1)[1].split()
        return (int(w[11]) + int(w[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


class Blocked:
    """Tells whether all threads of a process have slept, without using any CPU, for BLOCKED seconds.

    Exactly one thread of a simulation runs at any time, so this means it waits for a lock (or the like) whose holder will
    never be scheduled: a real deadlock.
    """
    def __init__(self, pid):
        self.pid, self.cpu, self.since = pid, None, time.time()

    def poll(self):
        now, used, asleep = time.time(), cpu(self.pid), True
        try:
            for t in os.listdir(f"/proc/{self.pid}/task"):
                with open(f"/proc/{self.pid}/task/{t}/stat") as f:
                    asleep = asleep and f.read().rsplit(")", 1)[1].split()[0] == "S"
        except (OSError, IndexError):
            asleep = False
        if not asleep or used != self.cpu:
            self.cpu, self.since = used, now
        return now - self.since > BLOCKED


def run_file(exe, path, cpu_limit=60, wall_limit=300):
    """Executes a replay file. Returns (class set, output lines)."""
    p = subprocess.Popen([exe, "run", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limits, text=True, errors="replace")
    hung = []
    done = threading.Event()

    def watch():
        start = time.time()
        blocked = Blocked(p.pid)
        while not done.wait(0.2):
            if cpu(p.pid) > cpu_limit or time.time() - start > wall_limit or blocked.poll():
                hung.append(1)
                p.kill()
                return

    t = threading.Thread(target=watch)
    t.start()
    out, _ = p.communicate()
    done.set()
    t.join()
    lines = [l for l in out.splitlines() if l[:2] in ("V ", "H ")]
    classes = {l.split()[1] for l in lines if l.startswith("V ")}
    if hung:
        classes, lines = {"Hang"}, ["V Hang 0 0 no progress"]
    elif p.returncode < 0:
        name = signal.Signals(-p.returncode).name
        classes, lines = {"Crash"}, [f"V Crash 0 0 killed by {name}"]
    elif p.returncode not in (0, 1, 3) and not classes:
        classes, lines = {"Crash"}, [f"V Crash 0 0 exit status {p.returncode}"]
    return classes, lines


class Worker:
    def __init__(self, exe, flavour, prop, first, step, count, ms, thorough, tmp, k):
        self.exe, self.flavour, self.prop, self.first, self.step = exe, flavour, prop, first, step
        self.thorough, self.k = thorough, k
        self.status, self.out = os.path.join(tmp, f"st{k}"), os.path.join(tmp, f"out{k}")
        self.log = open(os.path.join(tmp, f"log{k}"), "w+", errors="replace")
        self.p = subprocess.Popen([exe, "worker", prop, str(first), str(step), str(count), str(ms), self.status, self.out, str(int(thorough))],
                                  stdout=self.log, stderr=subprocess.DEVNULL, preexec_fn=limits)
        self.seen, self.since, self.at = None, 0.0, time.time()
        self.blocked = Blocked(self.p.pid)
        self.hung = False
        self.finished = False

    def progress(self):
        try:
            with open(self.status, "rb") as f:
                b = f.read(16)
            return struct.unpack("<QQ", b) if len(b) == 16 else None
        except OSError:
            return None

    def poll(self):
        """True once ended."""
        if self.finished:
            return True
        if self.p.poll() is not None:
            self.finished = True
            return True
        s = self.progress()
        now = time.time()
        if s != self.seen:
            self.seen, self.since, self.at = s, cpu(self.p.pid), now
            self.blocked.since = now
        elif now - self.at > 1 and (cpu(self.p.pid) - self.since > CPU_STALL or now - self.at > WALL_STALL or self.blocked.poll()):
            self.p.kill()
            self.p.wait()
            self.hung = self.finished = True
            return True
        return False

    def verdict(self):
        """None, or (seed, class, text)."""
        s = self.progress() or (self.first, 1)
        if self.hung:
            return s[0], "Hang", "no progress"
        if self.p.returncode == 0:
            return None
        self.log.seek(0)
        for l in self.log.read().splitlines():
            if l.startswith("V "):
                w = l.split(" ", 5)
                if w[1] == "Deadlock":
                    return s[0], "Deadlock", l
                if len(w) > 5 and w[1].isdigit():
                    return int(w[1]), w[2], w[5]
        if self.p.returncode < 0:
            return s[0], "Crash", "killed by " + signal.Signals(-self.p.returncode).name
        return s[0], "Crash", f"exit status {self.p.returncode}"


# ---- findings -------------------------------------------------------------------------------

def known_findings(prop):
    """Entries `known: property=ID class=CLASS match=/REGEX/ description`."""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m[1] == prop:
                out.append((m[2], re.compile(m[3]), m[4]))
    return out


def make_replay(prop, w, seed, cls, text, thorough, hooked, tmp, budget):
    """Writes the replay file of a violation, minimised if possible. Returns its path or None."""
    exe = w.exe
    f = os.path.join(tmp, "case")
    gen = f"generate {prop} {seed} {int(hooked)} {int(thorough)}\n"
    with open(f, "w") as fh:
        fh.write(gen)
    got, lines = run_file(exe, f)
    body, kind = None, ""
    if cls in got or (got and cls in ("Crash", "Hang")) or (got and not cls):
        if cls not in got:
            cls = sorted(got)[0]
        body, kind = gen, "generated from its seed, not minimised"
        r = None
        try:
            r = subprocess.run([exe, "minimise", f, cls, str(budget)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                               preexec_fn=limits, timeout=budget * 2 + 120)
        except subprocess.TimeoutExpired:
            pass
        if r and r.stdout.startswith("M ok") and os.path.exists(f + ".min"):
            cand = open(f + ".min", errors="replace").read()
            cand = "\n".join(l for l in cand.splitlines() if not l.startswith("#")) + "\n"
            with open(f + ".c", "w") as fh:
                fh.write(cand)
            a = run_file(exe, f + ".c")
            if cls in a[0]:
                body, kind = cand, "minimised, " + r.stdout.strip()[5:]
    else:
        # It depends on what ran before in the same process.
        n, i = 2, (seed - w.first) // w.step + 1
        while body is None:
            k = min(n, i)
            b = f"batch {prop} {seed - (k - 1) * w.step} {w.step} {k} {int(thorough)}\n"
            with open(f, "w") as fh:
                fh.write(b)
            got, lines = run_file(exe, f, 600, 900)
            if got:
                cls = cls if cls in got else sorted(got)[0]
                body, kind = b, f"needs {k} runs in one process"
            elif k == i:
                return None, cls, lines
            n *= 4
    with open(f + ".f", "w") as fh:
        fh.write(body)
    one, two = run_file(exe, f + ".f"), run_file(exe, f + ".f")
    exact = one == two and cls in one[0]
    if cls not in one[0] and cls not in two[0]:
        return None, cls, one[1]
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop}-{w.flavour}-{seed}.replay")
    with open(path, "w") as fh:
        fh.write(f"# ndarray-slice simulation replay; execute with: {HERE}/check.py replay {path}\n")
        fh.write(f"# property={prop} flavour={w.flavour} hooked={int(hooked)} class={cls} seed={seed}\n")
        fh.write(f"# {kind}; replayed twice {'identically' if exact else 'with differences'}\n")
        for l in one[1]:
            fh.write("# expect " + l + "\n")
        fh.write(body)
    return path, cls, one[1]


def replay(path):
    text = open(path).read()
    m = re.search(r"# property=(\S+) flavour=(\S+) hooked=(\d) class=(\S+)", text)
    if not m:
        die("not a replay file: " + path)
    exes, hooked = build()
    want = [l[9:] for l in text.splitlines() if l.startswith("# expect ")]
    classes, lines = run_file(exes[m[2]], path)
    for l in lines:
        print(l)
    if m[4] in classes:
        print("replay: violation reproduced" + (" exactly" if lines == want else ", with differences"))
        print(f"VIOLATION property={m[1]} replay={path}")
        return 1
    print("replay: not reproduced")
    return 0


# ---- checking -------------------------------------------------------------------------------

def hashes(paths):
    s = set()
    for p in paths:
        if os.path.exists(p):
            b = open(p, "rb").read()
            s.update(struct.unpack(f"<{len(b) // 8}Q", b[: len(b) // 8 * 8]))
    return len(s)


RULES = {
    "C01": "at least one steal or preemption", "C02": "at least one steal or preemption", "C03": "at least one steal or preemption",
    "C14": "at least one steal or preemption", "C08": "two or more callers and at least one steal or preemption",
    "C16": "at least one callback", "C13": "at least one callback and a fault, steal or preemption",
    "C20": "at least one callback, and an occupied worker, a steal or a preemption", "C21": "at least one steal or preemption",
    "C22": "at least one steal or preemption", "C23": "at least one steal or preemption",
}


def main(prop):
    thorough = os.environ.get("VERIF_TIER", "quick") == "thorough"
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    exes, hooked = build()
    built = time.time() - T0
    base = (vseed * 1_000_003) % (1 << 30) << 20
    nw = max(2, min(8, os.cpu_count() or 8))
    flavours = ["checked" if k % 8 in (0, 2, 4, 6, 7) else "release" for k in range(nw)]
    secs = THOROUGH_S if thorough else QUICK_S
    count = (1 << 40) if thorough else RUNS[prop] * 8 // nw
    known, seen_known = known_findings(prop), {}
    for k in known:
        seen_known[k[2]] = 0
    found, problems, workers, all_outs = None, [], [], []
    start = time.time()
    with tempfile.TemporaryDirectory(prefix="nsim-") as tmp:
        serial = 0
        for k in range(nw):
            workers.append(Worker(exes[flavours[k]], flavours[k], prop, base + k, nw, count, secs * 1000, thorough, tmp, serial))
            serial += 1
        while workers and not found:
            time.sleep(0.02)
            for w in list(workers):
                if not w.poll():
                    continue
                workers.remove(w)
                all_outs.append(w.out)
                v = w.verdict()
                if v is None:
                    continue
                hit = next((x for x in known if x[0] == v[1] and x[1].search(v[2])), None)
                if hit:
                    seen_known[hit[2]] += 1
                    left = secs - (time.time() - start)
                    done = (v[0] - w.first) // w.step + 1
                    if left > 1:
                        workers.append(Worker(w.exe, w.flavour, prop, v[0] + nw, nw, max(1, count - done), int(left * 1000), thorough, tmp, serial))
                        serial += 1
                    continue
                found = (w, v)
                break
        for w in workers:
            w.p.kill()
            w.p.wait()
        searched = time.time() - start
        replay_path, cls, lines = None, None, []
        if found:
            w, (seed, cls, text) = found
            print(f"{prop}: {w.flavour} seed {seed}: {cls}: {text}", flush=True)
            replay_path, cls, lines = make_replay(prop, w, seed, cls, text, thorough, hooked, tmp, 240 if thorough else 60)
            if not replay_path:
                problems.append(f"violation {cls} of seed {seed} did not happen again when replayed")
        # Coverage.
        n, samples, flav_runs = {}, [], {}
        for o in all_outs:
            if os.path.exists(o):
                for l in open(o):
                    kind, _, rest = l.rstrip("\n").partition(" ")
                    if kind == "n":
                        key, val = rest.split()
                        n[key] = n.get(key, 0) + int(val)
                    elif kind == "s" and len(samples) < 4:
                        samples.append(rest)
        runs = n.get("runs", 0)
        dist = hashes([o + ".runs" for o in all_outs])
        scheds = hashes([o + ".scheds" for o in all_outs])
        states = hashes([o + ".states" for o in all_outs])
    hours = max(searched, 1e-3) / 3600
    faults = {k[6:]: v for k, v in sorted(n.items()) if k.startswith("fault.")}
    ops = {k[3:]: v for k, v in sorted(n.items()) if k.startswith("op.")}
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": vseed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": dist,
            "rule": "One evaluation is one simulated execution: a scenario (callers, views, elements, operations, faults, schedule) derived from one seed, executed and checked. "
                    "Non-trivial: " + RULES.get(prop, "at least one fault was actually injected") + ". Distinct: different hash of callback events, scheduling decisions and final state.",
            "samples": samples or ["(none below the size limit)"],
            "seeds": {"first": base, "workers": nw, "flavours": flavours, "step": nw},
            "runs_per_hour": int(runs / hours), "seeds_per_hour": int(runs / hours),
            "operations_completed": n.get("ops", 0), "operations": ops,
            "callbacks": n.get("callbacks", 0),
            "simulated_ticks": n.get("ticks", 0),
            "scheduler": {k: n.get(k, 0) for k in ("worlds", "switches", "preemptions", "jobs", "steals", "nested")},
            "faults_injected": faults,
            "distinct_schedules": scheds,
            "distinct_final_states": states,
            "components": COMPONENTS,
            "hooks_on": hooked,
            "known_findings_seen": seen_known,
            "build_s": round(built, 1), "search_s": round(searched, 1),
        },
        "assumptions": [
            "Tasks interleave at callbacks and fork/join operations, which covers every order of effects of code whose tasks share elements only as Rust's aliasing rules allow; C14 and the conservation checks watch for violations of those rules.",
            "Simulated time advances by one tick per scheduling decision point; the code under test reads no clock.",
            "The simulator's rayon-core implements the documented contract of rayon::join and of indexed parallel iterators.",
        ],
        "wall_s": round(time.time() - T0, 2),
        "violations": 1 if found else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)
    for d, c in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {d}")
    if replay_path:
        for l in lines[:4]:
            print("  " + l)
        print(f"VIOLATION property={prop} replay={replay_path}", flush=True)
        return 1
    if problems:
        die("; ".join(problems))
    if runs == 0:
        die("nothing was executed")
    print(f"{prop}: held in {runs} runs ({dist} distinct non-trivial, {scheds} schedules) in {searched:.0f} s")
    return 0


if __name__ == "__main__":
    os.environ["PATH"] = os.environ.get("PATH", "") + ":/root/.cargo/bin:/usr/local/cargo/bin"
    a = sys.argv[1:]
    if a[:1] == ["build"]:
        build()
    elif a[:1] == ["replay"] and len(a) == 2:
        sys.exit(replay(a[1]))
    elif len(a) == 1 and a[0] in RUNS:
        sys.exit(main(a[0]))
    else:
        die("usage: check.py C01..C16 | replay FILE | build")
