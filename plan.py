"""Which scenarios decide which property, and how many cases each tier runs."""
A_BASE = ["The instrumented library is built from the same sources with gcc ASan+UBSan and -O1; behaviour of other compilers is not observed.",
          "Single-threaded use: the library documents no thread safety."]
SCEN = {
    "gram": {"cpu": 20},
}
PLAN = {}


def prop(pid, scenarios, level="exploration", assumptions=()):
    PLAN[pid] = {"scenarios": scenarios, "level": level, "assumptions": A_BASE + list(assumptions)}


VALUES = ["strvec", "shlex", "vec", "htable", "dict", "config"]
# milliseconds per case on one core, used to size the mixed plans
MIX = [("gram", 4000, 90000), ("life", 3000, 60000), ("reconf", 1600, 40000), ("purity", 2500, 50000),
       ("expr", 2000, 50000), ("cmd", 1600, 40000), ("cond", 2000, 50000), ("dyn", 2500, 50000),
       ("file", 2500, 50000), ("re", 4000, 80000), ("ints", 4000, 80000), ("misuse", 2000, 40000), ("yaml", 2500, 50000),
       ("editline", 1500, 30000), ("init", 500, 10000), ("custom", 2500, 50000), ("helper", 2000, 40000), ("bulk", 400, 8000), ("inspect", 1500, 30000)]
prop("C01", MIX + [("raw", 6000, 150000)] + [(s, 2000, 40000) for s in VALUES])
prop("C02", MIX + [(s, 2000, 40000) for s in VALUES])
prop("C03", [("oom", 6000, 100000), ("reconf", 2000, 30000), ("init", 600, 10000), ("start", 160, 4000), ("custom", 1500, 30000), ("helper", 3000, 60000)] + [(s, 4000, 80000) for s in VALUES], level="fault_enumeration")
prop("C04", [("gram", 24000, 500000), ("bulk", 400, 8000)])
prop("C05", [("gram", 24000, 500000), ("bulk", 400, 8000)])
prop("C06", [("gram", 22000, 400000), ("expr", 2500, 50000), ("bulk", 400, 8000)])
prop("C07", [("gram", 16000, 300000), ("custom", 2000, 40000), ("bulk", 400, 8000)])
prop("C08", [("gram", 8000, 200000), ("purity", 12000, 250000), ("bulk", 400, 8000)])
prop("C09", [("shlex", 40000, 1000000), ("bulk", 400, 8000)])
prop("C10", [("re", 60000, 1500000)])
prop("C11", [("ints", 60000, 1500000)])
prop("C12", [("strvec", 30000, 600000), ("bulk", 600, 12000)])
prop("C13", [("htable", 20000, 400000), ("dict", 20000, 400000), ("bulk", 400, 8000)])
prop("C14", [("config", 30000, 600000), ("bulk", 1000, 20000)])
prop("C15", [("reconf", 12000, 250000), ("life", 4000, 80000), ("cmd", 2000, 40000), ("ints", 10000, 200000), ("misuse", 4000, 80000)])
prop("C16", [("life", 20000, 400000), ("misuse", 4000, 80000)])
prop("C17", [("expr", 30000, 600000)])
prop("C18", [("cmd", 20000, 400000)])
prop("C19", [("cond", 24000, 500000)])
prop("C20", [("dyn", 30000, 600000)])
prop("C21", [("file", 30000, 600000)])
prop("C22", [("yaml", 30000, 600000)])
prop("C23", [("editline", 16000, 400000), ("custom", 2000, 40000)], assumptions=["libedit itself is linked uninstrumented and driven through files and pseudo terminals in its default (emacs) mode."])
prop("C24", [("init", 4000, 80000), ("start", 80, 2000)])
prop("C25", [("vec", 30000, 600000), ("bulk", 600, 12000)])
prop("C26", [("custom", 20000, 400000)])
prop("C27", [("helper", 60000, 1500000)])
prop("C28", [("shell", 2500, 50000)])
prop("C30", [("inspect", 24000, 500000)])
prop("C29", [("errno", 20000, 400000), ("oom", 1500, 40000), ("yaml", 5000, 100000), ("config", 5000, 100000), ("ints", 5000, 100000), ("custom", 1500, 30000)])
