#!/usr/bin/env python3
"""Development aid, not a check: measures the monitors with machine-made mutants of the library.

mutate.py OUT.jsonl N [SEED] [FILE_REGEX]: takes N random mutation sites of /repo/src (test code left out), keeps those
that compile and pass the library's own tests, runs every scenario on them and logs what was (not) detected.
Works in /tmp/mut (removed at the end)."""
import sys, os, re, random, subprocess, json, shutil, threading, queue, time
REPO = "/repo"
VERIF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ROOT = "/tmp/mut"
JOBS = int(os.environ.get("JOBS", "8"))
BASE = {"gram": 5000, "strvec": 2500, "shlex": 2500, "vec": 1500, "htable": 1500, "dict": 1500, "config": 2500, "re": 4000,
        "ints": 4000, "life": 1500, "reconf": 1200, "purity": 1500, "expr": 2000, "cmd": 1500, "cond": 2000, "dyn": 2000,
        "file": 2000, "raw": 1500, "misuse": 1500, "yaml": 2500, "editline": 1200, "init": 250, "oom": 250, "custom": 1200, "helper": 2000, "bulk": 120, "inspect": 1500, "errno": 1500, "start": 20}
HINT = [("strvec", ["strvec", "shlex"]), ("ecoli_vec", ["vec"]), ("htable", ["htable", "dict"]), ("dict", ["dict"]), ("config", ["config"]),
        ("node_re", ["re", "gram"]), ("node_int", ["ints"]), ("string", ["ints", "editline"]), ("node_expr", ["expr"]), ("node_cmd", ["cmd"]),
        ("node_cond", ["cond"]), ("dynamic", ["dyn"]), ("node_file", ["file"]), ("yaml", ["yaml"]), ("editline", ["editline"]),
        ("init", ["init"]), ("log", ["init"]), ("malloc", ["init"]), ("murmur", ["htable", "dict"]), ("parse", ["gram", "life", "purity"]),
        ("complete", ["gram", "purity"]), ("ecoli_node.c", ["life", "reconf", "misuse"]), ("helper", ["reconf", "life", "misuse"]), ("string", ["helper"]), ("malloc", ["helper"]), ("murmur", ["helper"]), ("ecoli_node.c", ["inspect"])]
ENV = dict(PATH=os.environ["PATH"], LC_ALL="C", TERM="dumb", HOME="/nonexistent",
           ASAN_OPTIONS="detect_leaks=0:exitcode=77:handle_abort=1:allocator_may_return_null=1:max_allocation_size_mb=4096:quarantine_size_mb=24",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=77")

def sh(c, t=120, **k):
    try:
        p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **k)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""

def sites(filt):
    out = []
    for f in sorted(os.listdir(REPO + "/src")):
        if not f.endswith(".c") or f in ("ecoli_assert.c", "ecoli_test.c", "ecoli_node_expr_test.c") or (filt and not re.search(filt, f)):
            continue
        L = open(REPO + "/src/" + f).read().split("\n")
        skip = False
        depth = 0
        for i, l in enumerate(L):
            if "LCOV_EXCL_START" in l: skip = True
            if "LCOV_EXCL_STOP" in l: skip = False
            s = l.strip()
            if skip or not l.startswith("\t") or s.startswith(("*", "/*", "//", "#", "EC_LOG", '"', ".")):
                continue
            code = l.split("//")[0]
            def add(new, kind):
                if new != l: out.append((f, i, l, new, kind))
            for a, b in ((" == ", " != "), (" != ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" < ", " > "),
                         (" && ", " || "), (" || ", " && "), (" + 1", ""), (" - 1", ""), (" + ", " - "), (" - ", " + "), ("++", "--"), (" += ", " = "),
                         (" += ", " -= "), ("return -1;", "return 0;"), ("return 0;", "return -1;"), ("continue;", "break;"), ("break;", "continue;"),
                         (" & ", " | "), (" | ", " & "), ("true", "false"), ("false", "true"), ("NOMATCH", "NOMATCH - 1"), ("goto fail;", ";"),
                         ("next", "prev"), ("first", "last"), ("last", "first"), ("FULL", "PARTIAL"), ("PARTIAL", "FULL"), ("FULL", "UNKNOWN"), ("!", ""),
                         ("i + ", "i + 1 + "), ("[i]", "[0]"), ("(1, ", "(2, "), ("ENOMEM", "EINVAL"), ("EINVAL", "ENOMEM")):
                for m in re.finditer(re.escape(a), code):
                    if a == "!" and code[m.end():m.end() + 1] == "=": continue
                    add(l[:m.start()] + b + l[m.end():], a.strip() + "->" + b.strip())
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
                n = int(m.group(1))
                for v in ({n + 1, n - 1} if n > 1 else {1 - n, 2}):
                    add(l[:m.start()] + str(v) + l[m.end():], "const")
            m = re.match(r"(\t+(?:\} else )?(?:if|while) )\((.*)\)( \{)?$", code)
            if m:
                add("%s(!(%s))%s" % (m.group(1), m.group(2), m.group(3) or ""), "negate")
                if "while" not in m.group(1): add("%s(1 || (%s))%s" % (m.group(1), m.group(2), m.group(3) or ""), "if1")
                add("%s(0 && (%s))%s" % (m.group(1), m.group(2), m.group(3) or ""), "if0")
            if re.match(r"\t+[\w>\-\.\[\]\*\(\)]+ [+\-|]?= .*;$", code) and not re.match(r"\t+(struct|const|char|int|size_t|unsigned|ssize_t|void|enum|long)\b", code):
                add(re.match(r"\t+", l).group(0) + ";", "del-assign")
            if re.match(r"\t+\w+\(.*\);$", code) or re.match(r"\t+[\w>\-\.]+(\+\+|--);$", code):
                add(re.match(r"\t+", l).group(0) + ";", "del-call")
    return out

def worker(q, log, lock, wid):
    w = "%s/w%d" % (ROOT, wid)
    while True:
        try: (n, (f, i, old, new, kind)) = q.get_nowait()
        except queue.Empty: return
        p = w + "/repo/src/" + f
        src = open(REPO + "/src/" + f).read()
        L = src.split("\n")
        assert L[i] == old
        L[i] = new
        open(p, "w").write("\n".join(L))
        res = dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), kind=kind)
        try:
            rc, o = sh("ninja -C %s/repo/_build test/ecoli-test" % w)
            if rc: res["status"] = "nobuild"; continue
            rc, o = sh("%s/repo/_build/test/ecoli-test" % w, 60, cwd=w)
            if rc: res["status"] = "tests"; continue
            rc, o = sh("make -s -C %s/harness REPO=%s/repo OUT=%s/out" % (w, w, w), 300)
            if rc: res["status"] = "nobuild2"; continue
            sc = list(BASE)
            for k, v in reversed(HINT):
                if k in f: sc = v + [x for x in sc if x not in v]
            for mult in (0.1, 1):
                for s in sc:
                    c = max(20, int(BASE[s] * mult))
                    rc, o = sh("rm -rf %s/d; mkdir %s/d; %s/out/vmon --scenario %s --prop '' --seed %d --count %d --cpu 20 --progress %s/pg --scratch %s/d" % (w, w, w, s, n + 1, c, w, w), 120, env=ENV)
                    if rc:
                        v = [x for x in o.split("\n") if x[:2] in ("V\t", "H\t", "R\t", "F\t")]
                        m = re.search(r"SUMMARY.*|HARNESS-BUG.*", o)
                        res.update(status="killed" if rc != 2 else "harness", scen=s, mult=mult, rc=rc, why=(v[0] if v else m.group(0) if m else o[-200:])[:300])
                        break
                if "status" in res: break
            else:
                res["status"] = "SURVIVED"
        finally:
            open(p, "w").write(src)
            with lock:
                log.write(json.dumps(res) + "\n"); log.flush()

def main():
    outf, n = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    S = sites(sys.argv[4] if len(sys.argv) > 4 else None)
    random.Random(seed).shuffle(S)
    print(len(S), "sites")
    S = S[:n]
    shutil.rmtree(ROOT, ignore_errors=True); os.makedirs(ROOT)
    def prep(k):
        w = "%s/w%d" % (ROOT, k)
        os.makedirs(w)
        sh("git clone -q /repo %s/repo; cp -a %s/harness %s/harness; cd %s/repo && CC=gcc meson setup _build --buildtype=debug --auto-features=enabled --wrap-mode=nodownload -Dwerror=false -Db_sanitize=address && ninja -C _build" % (w, VERIF, w, w), 300)
        print(sh("make -s -C %s/harness REPO=%s/repo OUT=%s/out" % (w, w, w), 600)[0], flush=True)
    T = [threading.Thread(target=prep, args=(k,)) for k in range(JOBS)]
    [t.start() for t in T]; [t.join() for t in T]
    q = queue.Queue()
    for x in enumerate(S): q.put(x)
    lock = threading.Lock()
    with open(outf, "a") as log:
        T = [threading.Thread(target=worker, args=(q, log, lock, k)) for k in range(JOBS)]
        [t.start() for t in T]; [t.join() for t in T]
    shutil.rmtree(ROOT, ignore_errors=True)
main()
