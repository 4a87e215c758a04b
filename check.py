#!/usr/bin/env python3
"""Driver of the runtime monitors: check.py <property id> [quick|thorough] [--keep]

Builds the instrumented library from $REPO (default /repo) together with the monitors, runs the
scenarios that exercise the property in parallel worker processes, and turns what the oracles
reported into one verdict. Exit 0: held on everything explored. Exit 1 + VIOLATION line: violated.
Anything else: the check itself could not run.
"""
import os, sys, json, time, subprocess, tempfile, shutil, struct, re, threading, queue

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN, SCEN  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
WALL = 780.0


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.stdout.flush()
    os._exit(2)


def build(out):
    cmd = ["make", "-s", "-C", os.path.join(HERE, "harness"), "-j%d" % NPROC, "REPO=" + REPO, "OUT=" + out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        die("build of the instrumented library or of the monitors failed")
    return os.path.join(out, "vmon")


ENV = {
    "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
    "LC_ALL": "C", "TERM": "dumb", "HOME": "/nonexistent",
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:halt_on_error=1:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=4096:quarantine_size_mb=24",
    "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=77",
}


class Chunk:
    def __init__(self, scen, start, count, cpu):
        self.scen, self.start, self.count, self.cpu = scen, start, count, cpu


class Run:
    def __init__(self, prop, tier, seed, vmon, tmp):
        self.prop, self.tier, self.seed, self.vmon, self.tmp = prop, tier, seed, vmon, tmp
        self.lock = threading.Lock()
        self.sigs = {}
        self.events = {}
        self.samples = {}
        self.ran = {}
        self.judged = 0
        self.violations = []
        self.inconclusive = []
        self.error = None
        self.stop = False
        self.t0 = time.time()
        self.n = 0

    def worker_cmd(self, scen, start, count, cpu, tag):
        d = os.path.join(self.tmp, "w" + tag)
        os.makedirs(d, exist_ok=True)
        cmd = [self.vmon, "--scenario", scen, "--prop", self.prop, "--seed", str(self.seed),
               "--from", str(start), "--count", str(count), "--cpu", str(cpu),
               "--progress", os.path.join(d, "progress"), "--sigs", os.path.join(d, "sigs"),
               "--scratch", os.path.join(d, "scratch")]
        if self.tier == "thorough":
            cmd.append("--thorough")
        return cmd, d

    def exec(self, scen, start, count, cpu):
        with self.lock:
            self.n += 1
            tag = str(self.n)
        cmd, d = self.worker_cmd(scen, start, count, cpu, tag)
        for f in ("progress", "sigs"):
            try:
                os.unlink(os.path.join(d, f))
            except OSError:
                pass
        left = WALL - (time.time() - self.t0)
        if left < 5:
            return None
        with open(os.path.join(d, "out"), "wb") as o, open(os.path.join(d, "err"), "wb") as e:
            try:
                p = subprocess.run(cmd, stdout=o, stderr=e, stdin=subprocess.DEVNULL, env=ENV, timeout=left, cwd=d)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = None
        out = open(os.path.join(d, "out"), "rb").read().decode("utf-8", "replace")
        with open(os.path.join(d, "err"), "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(0)
            err = f.read(60000) if n < 120000 else f.read(60000) + b"\n...\n"
        err = err.decode("utf-8", "replace")
        cur, desc = None, ""
        try:
            b = open(os.path.join(d, "progress"), "rb").read()
            magic, cur, done, _ = struct.unpack_from("<QQQQ", b)
            desc = b[32:].split(b"\0", 1)[0].decode("utf-8", "replace")
        except Exception:
            pass
        sigs = set()
        try:
            b = open(os.path.join(d, "sigs"), "rb").read()
            sigs = set(struct.unpack("<%dQ" % (len(b) // 8), b))
        except Exception:
            pass
        shutil.rmtree(d, ignore_errors=True)
        return dict(rc=rc, out=out, err=err, cur=cur, desc=desc, sigs=sigs)

    def absorb(self, scen, r):
        with self.lock:
            self.sigs.setdefault(scen, set()).update(r["sigs"])
            for line in r["out"].splitlines():
                f = line.split("\t")
                if f[0] == "E" and len(f) >= 3:
                    self.events[f[1]] = self.events.get(f[1], 0) + int(f[2])
                elif f[0] == "S" and len(f) >= 3 and f[1] == "ran":
                    self.ran[scen] = self.ran.get(scen, 0) + int(f[2])
                elif f[0] == "S" and len(f) >= 3 and f[1] == "judged":
                    self.judged += int(f[2])
                elif f[0] == "X" and len(f) >= 2:
                    l = self.samples.setdefault(scen, [])
                    if len(l) < 4:
                        l.append(f[1])

    def add_violation(self, scen, idx, oracle, msg, desc, detail=""):
        with self.lock:
            self.violations.append(dict(scenario=scen, idx=idx, oracle=oracle, message=msg, case=desc, detail=detail))

    def run_chunk(self, c):
        start, end = c.start, c.start + c.count
        while start < end and not self.stop:
            r = self.exec(c.scen, start, end - start, c.cpu)
            if r is None:
                self.inconclusive.append("%s: wall-clock guard, cases %d..%d not run" % (c.scen, start, end))
                return
            self.absorb(c.scen, r)
            rc = r["rc"]
            if rc == 0:
                return
            if rc is None:
                self.inconclusive.append("%s: wall-clock guard reached in case %s" % (c.scen, r["cur"]))
                return
            if rc == 2:
                self.error = "%s: %s %s" % (c.scen, r["err"][-1500:], r["out"][-300:])
                self.stop = True
                return
            idx = r["cur"] if r["cur"] is not None else start
            if rc == 1:
                got = False
                for line in r["out"].splitlines():
                    f = line.split("\t")
                    if f[0] == "V" and len(f) >= 7:
                        self.add_violation(c.scen, int(f[4]), f[2], f[5], f[6])
                        got = True
                if not got:
                    self.error = "%s: exit 1 without a verdict: %s" % (c.scen, r["err"][-800:])
                    self.stop = True
                    return
                if not self.known_only():
                    self.stop = True
                    return
                start = idx + 1
                continue
            if rc == -9:
                # killed from outside (memory pressure of the machine): not an observation
                self.inconclusive.append("%s: worker killed in case %s" % (c.scen, idx))
                start = idx + 1
                continue
            # crash, sanitizer report, hang, runaway
            oracle, msg = self.classify(rc, r)
            again = self.exec(c.scen, idx, 1, c.cpu * 3)
            if again is None:
                self.inconclusive.append("%s: wall-clock guard while confirming %s in case %s" % (c.scen, oracle, idx))
                return
            if again["rc"] in (0, None, 2, -9) or (again["rc"] == 1):
                if oracle in ("hang", "blocked"):
                    # it did terminate with a larger budget
                    self.inconclusive.append("%s: case %d slow but finite" % (c.scen, idx))
                    start = idx + 1
                    continue
                # may depend on earlier cases of the same process: repeat the whole stretch
                again = self.exec(c.scen, start, idx - start + 1, c.cpu)
                if again is None or again["rc"] in (0, None, -9):
                    self.inconclusive.append("%s: %s in case %d did not repeat: %s" % (c.scen, oracle, idx, msg))
                    start = idx + 1
                    continue
            r2 = again if again["rc"] not in (0, 1, 2) else r
            oracle, msg = self.classify(r2["rc"], r2)
            self.add_violation(c.scen, idx, oracle, msg, r2["desc"], r2["err"][:12000])
            if not self.known_only():
                self.stop = True
                return
            start = idx + 1

    def classify(self, rc, r):
        for line in r["out"].splitlines():
            f = line.split("\t")
            if f[0] in ("H", "R", "F") and len(f) >= 6:
                return f[2], f[5]
        m = re.search(r"SUMMARY: (.*)", r["err"])
        if m:
            return "sanitizer", m.group(1)[:300]
        m = re.search(r"(\S+: runtime error: .*)", r["err"])
        if m:
            return "sanitizer", m.group(1)[:300]
        m = re.search(r"Assertion .*", r["err"])
        if m:
            return "assertion", m.group(0)[:300]
        if rc < 0:
            return "crash", "killed by signal %d: %s" % (-rc, r["err"][-300:])
        return "crash", "exit status %d: %s" % (rc, r["err"][-300:])

    def known_only(self):
        return all(match_known(self.prop, v) for v in self.violations)


KNOWN = []


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p))["entries"]:
            KNOWN.append(e)


def match_known(prop, v):
    for e in KNOWN:
        if e.get("status") != "known" or e["property"] != prop:
            continue
        if e.get("scenario") and e["scenario"] != v["scenario"]:
            continue
        if e.get("oracle") and e["oracle"] != v["oracle"]:
            continue
        if re.search(e["match"], v["message"] + " | " + v["case"] + " | " + v["detail"]):
            return e
    return None


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if not args or args[0] not in PLAN:
        die("usage: check.py <property id> [quick|thorough]")
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if tier not in ("quick", "thorough"):
        die("unknown tier " + tier)
    load_known()
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vmon-%s-" % prop)
    try:
        vmon = os.environ.get("VERIF_VMON") or build(os.path.join(tmp, "build"))
        run = Run(prop, tier, seed, vmon, tmp)
        q = queue.Queue()
        chunks = []
        for scen, nq, nt in PLAN[prop]["scenarios"]:
            total = nq if tier == "quick" else nt
            per = max(1, -(-total // (NPROC * (1 if tier == "quick" else 3))))
            s = 0
            while s < total:
                n = min(per, total - s)
                chunks.append(Chunk(scen, s, n, SCEN.get(scen, {}).get("cpu", 20)))
                s += n
        for c in chunks:
            q.put(c)

        def loop():
            while not run.stop:
                try:
                    c = q.get_nowait()
                except queue.Empty:
                    return
                try:
                    run.run_chunk(c)
                except Exception as e:  # noqa
                    run.error = "driver: %r" % (e,)
                    run.stop = True
                    return

        th = [threading.Thread(target=loop) for _ in range(NPROC)]
        for t in th:
            t.start()
        for t in th:
            t.join()
        new, known = [], []
        for v in run.violations:
            e = match_known(prop, v)
            (known if e else new).append((v, e))
        if run.error and not new:
            die(run.error)
        distinct = sum(len(s) for s in run.sigs.values())
        ran = sum(run.ran.values())
        if not new and (ran == 0 or distinct == 0):
            die("the monitors observed nothing (%d cases, %d non-trivial; %s)" % (ran, distinct, run.inconclusive[:3]))
        rules = {}
        for l in subprocess.run([vmon, "--list"], stdout=subprocess.PIPE, text=True, env=ENV).stdout.splitlines():
            k, v = l.split("\t", 1)
            rules[k] = v
        samples = []
        for scen in run.samples:
            samples += ["[%s] %s" % (scen, x) for x in run.samples[scen]]
        replay = "-"
        if new:
            rd = os.path.join(HERE, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            v = new[0][0]
            replay = os.path.join(rd, "%s-%s-%s-%d.txt" % (prop, v["scenario"], v["oracle"], v["idx"]))
            with open(replay, "w") as f:
                f.write("property %s violated\nscenario: %s\ncase index: %d\nseed: %d\ntier: %s\noracle: %s\nobserved: %s\ncase: %s\n" %
                        (prop, v["scenario"], v["idx"], seed, tier, v["oracle"], v["message"], v["case"]))
                f.write("\nto replay:\n  make -C %s/harness -j8 REPO=%s OUT=/tmp/vmon-replay\n  ASAN_OPTIONS=detect_leaks=0 /tmp/vmon-replay/vmon --scenario %s --prop %s --seed %d --from %d --count 1%s\n" %
                        (HERE, REPO, v["scenario"], prop, seed, v["idx"], " --thorough" if tier == "thorough" else ""))
                if v["detail"]:
                    f.write("\n" + v["detail"])
        evd = dict(
            property=prop, tier=tier, seed=seed, level=PLAN[prop]["level"],
            coverage=dict(
                evaluations=max(ran, run.judged), distinct_nontrivial=distinct,
                rule="; ".join("%s: %s" % (s, rules.get(s, "")) for s, _, _ in PLAN[prop]["scenarios"]),
                samples=samples[:12] or ["(none)"],
                cases_per_scenario=run.ran,
                distinct_per_scenario={k: len(v) for k, v in run.sigs.items()},
                events_observed=dict(sorted(run.events.items())),
                inconclusive=run.inconclusive[:20],
            ),
            assumptions=PLAN[prop].get("assumptions", []),
            wall_s=round(time.time() - t0, 2),
            violations=len(new),
        )
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        p = os.path.join(HERE, "evidence", prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(evd, f, indent=1)
            f.write("\n")
        os.replace(p + ".tmp", p)
        seen = set()
        for v, e in known:
            k = e["what"]
            if k not in seen:
                seen.add(k)
                print("KNOWN-FINDING: property=%s %s" % (prop, k))
        for m in run.inconclusive[:10]:
            print("note: " + m)
        if new:
            v = new[0][0]
            print("%s [%s/%s case %d] %s" % (prop, v["scenario"], v["oracle"], v["idx"], v["message"]))
            print("case: " + v["case"][:1500])
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            sys.stdout.flush()
            return 1
        print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (prop, ran, distinct, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
